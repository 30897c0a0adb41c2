// Conformance driver for C32: what the debugger shows of an object, through the pretty printers of the library.
// Started normally it starts gdb on itself. Inside gdb every object is handed to look(), where gdb stops and
// gdbview.py writes what the printers show of the local "obj" into vp_shown; look() then records it beside the contents.
#include "vp.hpp"
#include "LvArrayConfig.hpp"
#if defined( LVARRAY_USE_CHAI )
  #include "ChaiBuffer.hpp"
#endif
#include "Array.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "SortedArray.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#include <unistd.h>
using namespace vp;
using namespace LvArray;
extern "C"
{
char vp_shown[ 1 << 18 ];
__attribute__( ( noinline, used ) ) void vp_stop() { asm volatile ( "" ::: "memory" ); }
}
template< typename OBJ >
__attribute__( ( noinline ) ) void look( char const * const kind, OBJ const & obj, VL const & dims, VL const & values, VVL const & rows = {} )
{
  current() = std::string( "look " ) + kind;
  memset( vp_shown, 0, sizeof( vp_shown ) );
  vp_stop();
  J j( "look" );
  j.kv( "kind", kind ).kv( "dims", dims ).kv( "values", values ).kv( "rows", rows );
  j.raw( "shown", vp_shown ).emit();
  ( void ) obj;
}

template< typename T > T value( Rng & rng ) { return T( rng.below( 120 ) ); }
// The values in the order of the indices, the last one fastest.
template< typename T, int USD, typename I > void listOf( ArraySlice< T, 1, USD, I > const & s, VL & values )
{ for( I i = 0; i < s.size( 0 ); ++i ) values.push_back( long( s[ i ] ) ); }
template< typename T, int N, int USD, typename I > void listOf( ArraySlice< T, N, USD, I > const & s, VL & values )
{ for( I i = 0; i < s.size( 0 ); ++i ) listOf( s[ i ], values ); }
template< typename A > VL dimsOf( A const & a, int const n )
{
  VL d;
  for( int i = 0; i < n; ++i ) d.push_back( long( a.size( i ) ) );
  return d;
}
template< int N, typename SLICE > void lookSlice( SLICE const & s )
{
  VL v;
  listOf( s, v );
  look( "slice", s, dimsOf( s, N ), v );
}
template< typename SLICE > void lookBelow( Rng &, SLICE const &, std::integral_constant< int, 1 > ) {}
template< int N, typename SLICE > void lookBelow( Rng & rng, SLICE const & s, std::integral_constant< int, N > )
{
  if( s.size( 0 ) == 0 ) return;
  auto const below = s[ rng.below( s.size( 0 ) ) ];
  lookSlice< N - 1 >( below );
  lookBelow( rng, below, std::integral_constant< int, N - 1 >() );
}
// permuted: the values are shown in the order of memory, so only the shape is of interest.
template< int N, typename A > void lookArray( Rng & rng, A & a, bool const permuted )
{
  using T = typename A::value_type;
  for( long i = 0; i < long( a.size() ); ++i ) a.data()[ i ] = value< T >( rng );
  VL v;
  listOf( a.toSliceConst(), v );
  char const * const kind = permuted ? "permuted" : "array";
  look( kind, a, dimsOf( a, N ), v );
  auto const view = a.toView();
  look( kind, view, dimsOf( a, N ), v );
  look( kind, a.toViewConst(), dimsOf( a, N ), v );
  if( permuted ) look( "permutedslice", a.toSlice(), dimsOf( a, N ), v );
  else
  {
    lookSlice< N >( a.toSlice() );
    lookSlice< N >( a.toSliceConst() );
    lookBelow( rng, a.toSlice(), std::integral_constant< int, N >() );
  }
}
template< int N, typename T, typename PERM, typename I, template< typename > class BUFFER > void array( Rng & rng, bool const permuted )
{
  Array< T, N, PERM, I, BUFFER > a;
  for( int k = 0; k < 2; ++k )
  {
    if( k == 1 )
    {
      I d[ N ];
      for( int i = 0; i < N; ++i ) d[ i ] = I( rng.chance( 10 ) ? 0 : rng.chance( 10 ) ? 10 + rng.below( 3 ) : 1 + rng.below( 4 ) );
      a.resize( N, d );
    }
    lookArray< N >( rng, a, permuted );
  }
  if( rng.chance( 50 ) ) { a.resize( I( a.size( 0 ) / 2 ) ); lookArray< N >( rng, a, permuted ); }   // less than the buffer holds
}
template< typename BUFFER > void buffer( Rng & rng, long const n )
{
  using T = typename BUFFER::value_type;
  BUFFER b( true );
  b.reallocate( 0, MemorySpace::host, n );
  VL v;
  for( long i = 0; i < long( b.capacity() ); ++i ) { new ( b.data() + i ) T( value< T >( rng ) ); v.push_back( long( b.data()[ i ] ) ); }
  look( "buffer", b, VL{ long( b.capacity() ) }, v );
  BUFFER const & c = b;
  look( "buffer", c, VL{ long( c.capacity() ) }, v );
  b.free();
}
template< typename A > VVL rowsOf( A const & a )
{
  VVL r;
  for( long i = 0; i < long( a.size() ); ++i )
  {
    VL v;
    for( auto const & x : a[ i ] ) v.push_back( long( x ) );
    r.push_back( v );
  }
  return r;
}
template< typename T, typename I, template< typename > class BUFFER > void arrays( Rng & rng )
{
  ArrayOfArrays< T, I, BUFFER > a;
  look( "rows", a, VL{ 0 }, VL{}, rowsOf( a ) );
  long const n = rng.below( 5 );
  for( long i = 0; i < n; ++i )
  {
    a.appendArray( I( rng.below( 4 ) ) );
    for( auto & x : a[ I( i ) ] ) x = value< T >( rng );
  }
  for( long k = rng.below( 8 ); n > 0 && k > 0; --k )
  {
    I const i = I( rng.below( n ) );
    if( rng.chance( 70 ) ) a.emplaceBack( i, value< T >( rng ) );
    else if( a.sizeOfArray( i ) > 0 ) a.eraseFromArray( i, I( rng.below( a.sizeOfArray( i ) ) ) );
  }
  if( rng.chance( 30 ) ) a.compress();
  VL const size{ long( a.size() ) };
  look( "rows", a, size, VL{}, rowsOf( a ) );
  auto const v = a.toView();
  look( "rows", v, size, VL{}, rowsOf( a ) );
  auto const c = a.toViewConst();
  look( "rows", c, size, VL{}, rowsOf( a ) );
}
template< typename T, typename I, template< typename > class BUFFER > void sets( Rng & rng )
{
  long const n = rng.below( 4 );
  ArrayOfSets< T, I, BUFFER > a( I( n ), I( rng.below( 3 ) ) );
  SparsityPattern< T, I, BUFFER > p( I( n ), T( 50 ), I( rng.below( 3 ) ) );
  CRSMatrix< double, T, I, BUFFER > m( I( n ), T( 50 ), I( rng.below( 3 ) ) );
  for( long k = rng.below( 10 ); n > 0 && k > 0; --k )
  {
    I const i = I( rng.below( n ) );
    T const t = T( rng.below( 50 ) );
    a.insertIntoSet( i, t );
    p.insertNonZero( i, t );
    m.insertNonZero( i, t, 1.0 );
  }
  VL const size{ n };
  look( "rows", a, size, VL{}, rowsOf( a ) );
  look( "rows", a.toViewConst(), size, VL{}, rowsOf( a ) );
  VVL rows;
  for( long i = 0; i < n; ++i )
  {
    VL v;
    for( auto const & x : p.getColumns( I( i ) ) ) v.push_back( long( x ) );
    rows.push_back( v );
  }
  look( "rows", p, size, VL{}, rows );
  look( "rows", p.toViewConst(), size, VL{}, rows );
  rows.clear();
  for( long i = 0; i < n; ++i )
  {
    VL v;
    for( auto const & x : m.getColumns( I( i ) ) ) v.push_back( long( x ) );
    rows.push_back( v );
  }
  look( "rows", m, size, VL{}, rows );
  look( "rows", m.toViewConst(), size, VL{}, rows );
}
template< template< typename > class BUFFER > void episode( Rng & rng )
{
  array< 1, int, camp::idx_seq< 0 >, int, BUFFER >( rng, false );
  array< 1, char, camp::idx_seq< 0 >, std::ptrdiff_t, BUFFER >( rng, false );
  array< 2, double, camp::idx_seq< 0, 1 >, std::ptrdiff_t, BUFFER >( rng, false );
  array< 2, unsigned short, camp::idx_seq< 1, 0 >, int, BUFFER >( rng, true );
  array< 3, long long, camp::idx_seq< 0, 1, 2 >, int, BUFFER >( rng, false );
  array< 4, float, camp::idx_seq< 0, 1, 2, 3 >, long long, BUFFER >( rng, false );
  buffer< BUFFER< int > >( rng, rng.below( 6 ) );
  buffer< BUFFER< double > >( rng, rng.below( 6 ) );
  arrays< int, int, BUFFER >( rng );
  arrays< double, std::ptrdiff_t, BUFFER >( rng );
  sets< int, int, BUFFER >( rng );
  sets< long, std::ptrdiff_t, BUFFER >( rng );
}
static void stackArrays( Rng & rng )
{
  StackArray< int, 2, camp::idx_seq< 0, 1 >, int, 12 > a( int( rng.below( 4 ) ), int( rng.below( 4 ) ) );
  lookArray< 2 >( rng, a, false );
  StackArray< double, 3, camp::idx_seq< 0, 1, 2 >, std::ptrdiff_t, 27 > b( rng.below( 4 ), rng.below( 4 ), rng.below( 4 ) );
  lookArray< 3 >( rng, b, false );
  buffer< StackBuffer< int, 5 > >( rng, 5 );
  buffer< StackBuffer< char, 3 > >( rng, 2 );
}
int main( int argc, char ** argv )
{
  if( getenv( "VP_IN_GDB" ) == nullptr )
  {
    setenv( "VP_IN_GDB", "1", 1 );
    std::map< std::string, std::string > o;
    for( int i = 2; i + 1 < argc; i += 2 ) o[ argv[ i ] ] = argv[ i + 1 ];
    std::string const safe = "add-auto-load-safe-path " + o[ "--repo" ], dir = "directory " + o[ "--repo" ];
    std::vector< std::string > cmd = { "gdb", "-batch", "-nx", "-iex", "set debuginfod enabled off", "-iex", safe, "-iex", dir, "-x", o[ "--py" ], "--args" };
    for( int i = 0; i < argc; ++i ) cmd.push_back( argv[ i ] );
    std::vector< char * > c;
    for( auto & s : cmd ) c.push_back( &s[ 0 ] );
    c.push_back( nullptr );
    execvp( "gdb", c.data() );
    return 3;
  }
  Args args( argc, argv );
  Rng rng( args.seed );
  for( long e = 0; e < args.n; ++e )
  {
    J( "begin" ).emit();
#if defined( LVARRAY_USE_CHAI )
    episode< ChaiBuffer >( rng );
#else
    episode< MallocBuffer >( rng );
    stackArrays( rng );
#endif
  }
  return finish();
}
