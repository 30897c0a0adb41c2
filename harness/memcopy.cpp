// Copies between slices of arrays (part 0) and views of another type (part 1), recorded for spec/MemCopy.tla.
#define VP_NDIM 1
#include "vperr.hpp"
#include "nd.hpp"
#include "memcpy.hpp"
#if defined(LVARRAY_USE_CHAI)
#include "ChaiBuffer.hpp"
#endif
#if defined(LVARRAY_USE_UMPIRE)
#include <umpire/ResourceManager.hpp>
#endif
#include <memory>
using namespace vp;
using P = std::ptrdiff_t;
#if defined(LVARRAY_USE_CHAI)
template< typename T > using Buffer = LvArray::ChaiBuffer< T >;
#else
template< typename T > using Buffer = LvArray::MallocBuffer< T >;
#endif

#define S( ... ) camp::idx_seq< __VA_ARGS__ >
using Layouts = std::tuple< S( 0 ), S( 0, 1 ), S( 1, 0 ), S( 0, 1, 2 ), S( 0, 2, 1 ), S( 1, 0, 2 ), S( 1, 2, 0 ), S( 2, 0, 1 ), S( 2, 1, 0 ) >;
#undef S
template< std::size_t K > using Layout = std::tuple_element_t< K, Layouts >;
constexpr std::size_t COUNT = std::tuple_size< Layouts >::value;
template< typename PERM > constexpr int ndim() { return int( LvArray::typeManipulation::getDimension( PERM {} ) ); }
template< typename PERM > constexpr int usd() { return int( LvArray::typeManipulation::getStrideOneDimension( PERM {} ) ); }

struct Case { VL dims, di, sdims, si; long way; };
static std::map< std::string, std::vector< std::function< void( Case const & ) > > > & table() { static auto * m = new std::map< std::string, std::vector< std::function< void( Case const & ) > > >; return *m; }
static std::vector< std::string > & keys() { static auto * k = new std::vector< std::string >; return *k; }
static void add( std::string const & key, std::function< void( Case const & ) > f )
{
  if( !table().count( key ) ) keys().push_back( key );
  table()[ key ].push_back( std::move( f ) );
}

#if VP_PART == 0
using Cell = VP_CELL;
template< typename PERM, typename INDEX > using Arr = LvArray::Array< Cell, ndim< PERM >(), PERM, INDEX, Buffer >;
template< typename A > VL cells( A const & a ) { VL r; for( P i = 0; i < P( a.size() ); ++i ) r.push_back( long( a.data()[ i ] ) ); return r; }
template< typename A > void fill( A & a, long const base ) { for( P i = 0; i < P( a.size() ); ++i ) a.data()[ i ] = Cell( base + i + 1 ); }
template< typename INDEX, std::size_t N > std::array< INDEX, N > prefix( VL const & x ) { std::array< INDEX, N > r; for( std::size_t k = 0; k < N; ++k ) r[ k ] = INDEX( x[ k ] ); return r; }

// v[ x[ 0 ] ]...[ x[ N - 1 ] ]
template< int N, int FROM=0 > struct Cut { template< typename V > static auto of( V const & v, VL const & x ) { return Cut< N - 1, FROM + 1 >::of( v[ x[ FROM ] ], x ); } };
template< int FROM > struct Cut< 0, FROM > { template< typename V > static auto of( V const & v, VL const & ) { return v; } };

template< typename A > struct Known      // an array whose memory the resource manager may know
{
  Known( A const & a, bool const known )
  {
    (void) a; (void) known;
#if defined(LVARRAY_USE_UMPIRE) && !defined(LVARRAY_USE_CHAI)
    if( known && a.data() ) { m_p = a.data(); umpire::ResourceManager::getInstance().registerAllocation( m_p, std::size_t( a.capacity() ) * sizeof( Cell ) ); }
#endif
  }
  ~Known()
  {
#if defined(LVARRAY_USE_UMPIRE) && !defined(LVARRAY_USE_CHAI)
    if( m_p ) umpire::ResourceManager::getInstance().deregisterAllocation( m_p );
#endif
  }
  void * m_p = nullptr;
};
static long bad()      // copies past the end of an allocation
{
#if defined(LVARRAY_USE_UMPIRE)
  return umpire::ResourceManager::getInstance().badCopies;
#else
  return 0;
#endif
}

template< std::size_t N, std::size_t M, typename D, typename V, typename DI, typename SI >
void theCopy( long const way, D const & d, V const & s, VL const & di, VL const & si, DI, SI )
{
  camp::resources::Resource host{ camp::resources::Host() };
  switch( way )
  {
    case 0: LvArray::memcpy< N, M >( d, prefix< DI, N >( di ), s, prefix< SI, M >( si ) ); break;
    case 1: LvArray::memcpy< N, M >( host, d, prefix< DI, N >( di ), s, prefix< SI, M >( si ) ).wait(); break;
    case 2: LvArray::memcpy( Cut< int( N ) >::of( d.toSlice(), di ), Cut< int( M ) >::of( s.toSliceConst(), si ) ); break;
    default: LvArray::memcpy( host, Cut< int( N ) >::of( d.toSlice(), di ), Cut< int( M ) >::of( s.toSliceConst(), si ) ).wait(); break;
  }
}

template< typename P1, std::size_t N, typename P2, std::size_t M > void copyCase( Case const & c )
{
  using D = Arr< P1, P >;
  using V = Arr< P2, VP_INDEX >;
  std::unique_ptr< D > d( new D );
  std::unique_ptr< V > s( new V );
  if( c.way % 5 == 0 ) d->reserve( 3 );
  if( c.way % 3 == 0 ) s->reserve( VP_INDEX( total( c.sdims ) + 5 ) );
  resizeAll< P, ndim< P1 >() >( *d, c.dims );
  resizeAll< VP_INDEX, ndim< P2 >() >( *s, c.sdims );
  fill( *d, 100 ); fill( *s, 200 );
  Known< D > k1( *d, c.way / 4 % 2 == 0 );
  Known< V > k2( *s, c.way / 4 % 3 == 0 );
  J( "start" ).kv( "perm", PermList< P1 >::get() ).kv( "dims", c.dims ).kv( "cells", cells( *d ) ).kv( "sperm", PermList< P2 >::get() ).kv( "sdims", c.sdims ).kv( "scells", cells( *s ) ).emit();
  auto const dv = d->toView();
  auto const sv = s->toViewConst();
  bool const reported = attempt( [&]() { theCopy< N, M >( c.way % 4, dv, sv, c.di, c.si, P(), VP_INDEX() ); } );
  J( "copy" ).kv( "di", c.di ).kv( "si", c.si ).kv( "way", c.way ).kv( "reported", long( reported ) ).kv( "cells", cells( *d ) ).kv( "scells", cells( *s ) ).kv( "bad", bad() ).emit();
}
template< typename P1, std::size_t N > void insideCase( Case const & c )
{
  using D = Arr< P1, P >;
  std::unique_ptr< D > d( new D );
  resizeAll< P, ndim< P1 >() >( *d, c.dims );
  fill( *d, 100 );
  Known< D > k1( *d, c.way / 4 % 2 == 0 );
  J( "start" ).kv( "perm", PermList< P1 >::get() ).kv( "dims", c.dims ).kv( "cells", cells( *d ) ).kv( "sperm", VL{ 0 } ).kv( "sdims", VL{ 0 } ).kv( "scells", VL() ).emit();
  auto const dv = d->toView();
  auto const sv = d->toViewConst();
  bool const reported = attempt( [&]() { theCopy< N, N >( c.way % 4, dv, sv, c.di, c.si, P(), P() ); } );
  J( "inside" ).kv( "di", c.di ).kv( "si", c.si ).kv( "way", c.way ).kv( "reported", long( reported ) ).kv( "cells", cells( *d ) ).kv( "bad", bad() ).emit();
}
static std::string keyOf( VL const & p, std::size_t n, VL const & q, std::size_t m ) { return J::list( p ) + std::to_string( n ) + J::list( q ) + std::to_string( m ); }
template< typename P1, std::size_t N, typename P2, std::size_t M, bool FITS > struct Enter
{ static void go() { add( keyOf( PermList< P1 >::get(), N, PermList< P2 >::get(), M ), copyCase< P1, N, P2, M > ); } };
template< typename P1, std::size_t N, typename P2, std::size_t M > struct Enter< P1, N, P2, M, false > { static void go() {} };
template< typename P1, std::size_t N, bool FITS > struct EnterInside
{ static void go() { add( keyOf( PermList< P1 >::get(), N, {}, 0 ), insideCase< P1, N > ); } };
template< typename P1, std::size_t N > struct EnterInside< P1, N, false > { static void go() {} };
template< typename P1, int N, typename P2, int M > void enter1()
{
  constexpr bool fits = N < ndim< P1 >() && M < ndim< P2 >() && ndim< P1 >() - N == ndim< P2 >() - M && usd< P1 >() - N == usd< P2 >() - M && usd< P1 >() >= N;
  Enter< P1, N, P2, M, fits >::go();
}
template< typename P1, std::size_t K > void enter2()
{
  enter1< P1, 0, Layout< K >, 0 >(); enter1< P1, 0, Layout< K >, 1 >(); enter1< P1, 0, Layout< K >, 2 >();
  enter1< P1, 1, Layout< K >, 0 >(); enter1< P1, 1, Layout< K >, 1 >(); enter1< P1, 1, Layout< K >, 2 >();
  enter1< P1, 2, Layout< K >, 0 >(); enter1< P1, 2, Layout< K >, 1 >(); enter1< P1, 2, Layout< K >, 2 >();
}
template< std::size_t K, std::size_t ... I > void enter3( std::index_sequence< I... > )
{
  using expand = int[];
  (void) expand{ 0, ( enter2< Layout< K >, I >(), 0 ) ... };
  EnterInside< Layout< K >, 1, ( ndim< Layout< K > >() > 1 && usd< Layout< K > >() >= 1 ) >::go();
  EnterInside< Layout< K >, 2, ( ndim< Layout< K > >() > 2 && usd< Layout< K > >() >= 2 ) >::go();
}
template< std::size_t ... I > void enterAll( std::index_sequence< I... > ) { using expand = int[]; (void) expand{ 0, ( enter3< I >( std::make_index_sequence< COUNT >() ), 0 ) ... }; }
#else

template< int N > struct Bytes { unsigned char b[ N ]; };
template< int N > struct Other { unsigned char c[ N ]; };
template< typename A > VL bytesOf( A const & a )
{
  VL r;
  unsigned char const * const p = reinterpret_cast< unsigned char const * >( a.data() );
  for( P i = 0; i < P( a.size() ) * P( sizeof( *a.data() ) ); ++i ) r.push_back( p[ i ] );
  return r;
}
template< int N, typename V > void seen( char const * const op, V const & v, void const * const data, long const t, bool const reported )
{
  if( reported ) { J( op ).kv( "t", t ).kv( "reported", 1 ).emit(); return; }
  VL bytes;
  VL const dims = some( v.dims(), N );
  allIndices( dims, [&]( VL const & x )
  {
    auto const & e = call< P, N >( v, x );
    for( std::size_t k = 0; k < sizeof( e ); ++k ) bytes.push_back( reinterpret_cast< unsigned char const * >( &e )[ k ] );
  } );
  J( op ).kv( "t", t ).kv( "reported", 0 ).kv( "dims", dims ).kv( "strides", some( v.strides(), N ) ).kv( "bytes", bytes ).kv( "n", long( v.size() ) )
    .kv( "same", long( static_cast< void const * >( v.data() ) == data ) ).emit();
}
template< typename PERM, typename U, typename T > void viewCase( Case const & c )
{
  constexpr int N = ndim< PERM >();
  constexpr int USD = usd< PERM >();
  using A = LvArray::Array< U, N, PERM, P, Buffer >;
  using VU = LvArray::ArrayView< U, N, USD, P, Buffer >;
  using VT = LvArray::ArrayView< T, N, USD, P, Buffer >;
  using VTC = LvArray::ArrayView< T const, N, USD, P, Buffer >;
  std::unique_ptr< A > a( new A );
  if( c.way % 2 ) a->reserve( P( total( c.dims ) + c.way % 3 ) );
  resizeAll< P, N >( *a, c.dims );
  unsigned char * const p = reinterpret_cast< unsigned char * >( a->data() );
  for( P i = 0; i < P( a->size() ) * P( sizeof( U ) ); ++i ) p[ i ] = (unsigned char)( ( 7 * ( i + 1 ) ) % 251 );
  J( "bytes" ).kv( "perm", PermList< PERM >::get() ).kv( "dims", c.dims ).kv( "u", long( sizeof( U ) ) ).kv( "cells", bytesOf( *a ) ).kv( "capacity", long( a->capacity() ) ).emit();
  VU const source = a->toView();
  std::unique_ptr< VT > v;
  bool const reported = attempt( [&]() { v.reset( new VT( source ) ); } );
  // what the attempt left in v is not used when it was reported
  if( reported ) { seen< N >( "viewed", source, nullptr, sizeof( T ), true ); v.release(); return; }
  seen< N >( "viewed", *v, a->data(), sizeof( T ), false );
  { VTC const w( a->toViewConst() ); seen< N >( "viewed", w, a->data(), sizeof( T ), false ); }
  { VT const copy( *v ); seen< N >( "viewed", copy, a->data(), sizeof( T ), false ); }
  { VU const back( *v ); seen< N >( "back", back, a->data(), sizeof( T ), false ); }
  VL const dims = some( v->dims(), N );
  long k = c.way;
  allIndices( dims, [&]( VL const & x )
  {
    if( k++ % 5 ) return;
    auto & e = call< P, N >( *v, x );
    VL bytes;
    for( std::size_t b = 0; b < sizeof( T ); ++b ) { bytes.push_back( long( 11 * k + 3 * long( b ) ) % 256 ); reinterpret_cast< unsigned char * >( &e )[ b ] = (unsigned char) bytes.back(); }
    J( "write" ).kv( "t", long( sizeof( T ) ) ).kv( "idx", x ).kv( "written", bytes ).kv( "cells", bytesOf( *a ) ).emit();
  } );
}
static std::string keyOf( VL const & p, long u, long t ) { return J::list( p ) + std::to_string( u ) + "/" + std::to_string( t ); }
template< typename PERM, typename U, typename T > void enter() { add( keyOf( PermList< PERM >::get(), sizeof( U ), sizeof( T ) ), viewCase< PERM, U, T > ); }
template< std::size_t K > void enterLayout()
{
  using L = Layout< K >;
  enter< L, Bytes< 1 >, Bytes< 2 > >(); enter< L, Bytes< 2 >, Bytes< 1 > >(); enter< L, Bytes< 1 >, Bytes< 3 > >(); enter< L, Bytes< 3 >, Bytes< 6 > >(); enter< L, Bytes< 6 >, Bytes< 3 > >();
  enter< L, Bytes< 4 >, Other< 4 > >(); enter< L, int, float >(); enter< L, Bytes< 2 >, Bytes< 8 > >(); enter< L, Bytes< 12 >, Bytes< 4 > >();
  enter< L, int, int[ 2 ] >(); enter< L, float, Bytes< 8 > >();
}
template< std::size_t ... I > void enterAll( std::index_sequence< I... > ) { using expand = int[]; (void) expand{ 0, ( enterLayout< I >(), 0 ) ... }; }
#endif

int main( int argc, char ** argv )
{
  Args const args( argc, argv );
  installErrorHandler();
  enterAll( std::make_index_sequence< COUNT >() );
  long way = args.seed;
  auto const run = [&]( std::string const & key, Case c )
  {
    auto const it = table().find( key );
    if( it == table().end() ) return;
    c.way = way++;
    current() = key + " " + J::list( c.dims ) + J::list( c.di ) + J::list( c.sdims ) + J::list( c.si ) + " way " + std::to_string( c.way );
    it->second[ std::size_t( c.way / 7 ) % it->second.size() ]( c );
  };
  if( !args.script.empty() )
    for( auto const & e : readScripts( args.script.c_str() ) )
    {
      Op const & o = e[ 0 ];
#if VP_PART == 0
      if( o.name == "copy" ) run( keyOf( o.v( "perm" ), o.v( "di" ).size(), o.v( "sperm" ), o.v( "si" ).size() ), Case{ o.v( "dims" ), o.v( "di" ), o.v( "sdims" ), o.v( "si" ), 0 } );
      if( o.name == "inside" ) run( keyOf( o.v( "perm" ), o.v( "di" ).size(), {}, 0 ), Case{ o.v( "dims" ), o.v( "di" ), {}, o.v( "si" ), 0 } );
#else
      if( o.name == "view" ) run( keyOf( o.v( "perm" ), o.i( "u" ), o.i( "t" ) ), Case{ o.v( "dims" ), {}, {}, {}, 0 } );
#endif
    }
  return finish();
}
