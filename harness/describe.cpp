// Conformance driver for C27: calculateSize, demangle, totalview::format.
#include "vp.hpp"
#include "system.hpp"
#include "totalview/tv_helpers.hpp"
using namespace vp;
namespace LvArray { namespace system { std::string calculateSize( size_t const bytes ); } }
namespace thing { struct Widget {}; namespace inner { struct Part {}; } }
struct Plain {};

static void size( std::uint64_t const b )
{
  current() = "size " + std::to_string( b );
  J( "size" ).kv( "b", limbs( b ) ).codes( "r", LvArray::system::calculateSize( b ) ).emit();
}
static void dem( std::string const & s )
{
  current() = "demangle " + s;
  J( "demangle" ).kv( "isnull", false ).codes( "name", s ).codes( "r", LvArray::system::demangle( s.c_str() ) ).emit();
}
template< typename T > void type( T const & v )
{
  J( "demangle" ).kv( "isnull", false ).codes( "name", typeid( T ).name() ).codes( "r", LvArray::system::demangleType< T >() ).emit();
  J( "demangle" ).kv( "isnull", false ).codes( "name", typeid( T ).name() ).codes( "r", LvArray::system::demangleType( v ) ).emit();
}
template< typename T, typename I > void format( Rng & rng, int const n )
{
  I dims[ 8 ];
  VL d;
  for( int i = 0; i < n; ++i )
  {
    long const x = rng.chance( 20 ) ? 0 : rng.chance( 10 ) ? 2147483647L : rng.below( 1000 ) * ( rng.chance( 30 ) ? 1000 : 1 );
    dims[ i ] = I( x );
    d.push_back( long( dims[ i ] ) );
  }
  J( "format" ).codes( "name", typeid( T ).name() ).kv( "dims", d ).codes( "r", totalview::format< T, I >( n, dims ) ).emit();
}
static std::string ident( Rng & rng )
{
  static char const first[] = "abcXYZ_";
  static char const rest[] = "abcdefXYZ_0123456789";
  std::string s( 1, first[ rng.below( 7 ) ] );
  for( long k = rng.below( 14 ); k > 0; --k ) s += rest[ rng.below( 20 ) ];
  return s;
}
static std::string src( Rng & rng ) { std::string const s = ident( rng ); return std::to_string( s.size() ) + s; }
static std::string mangled( Rng & rng, int const depth )
{
  if( depth > 0 && rng.chance( 40 ) ) return ( rng.chance( 70 ) ? "P" : "PK" ) + mangled( rng, depth - 1 );
  if( rng.chance( 50 ) ) return std::string( 1, "vbcahstijlmxyfde"[ rng.below( 16 ) ] );
  if( rng.chance( 50 ) ) return src( rng );
  std::string s = "N" + src( rng );
  for( long k = 1 + rng.below( 3 ); k > 0; --k ) s += src( rng );
  return s + "E";
}
int main( int argc, char ** argv )
{
  Args args( argc, argv );
  Rng rng( args.seed );
  J( "begin" ).emit();
  if( args.mode == "sizes" )
  {
    for( int b = 0; b < 64; ++b )
      for( long d = -3; d <= 3; ++d )
      {
        if( d == -3 ) J( "begin" ).emit();
        size( ( std::uint64_t( 1 ) << b ) + std::uint64_t( d ) );
        // rounding boundaries: just around k.05 and k.95 of each unit
        for( int s = 10; s <= 30; s += 10 )
        {
          std::uint64_t const unit = std::uint64_t( 1 ) << s;
          std::uint64_t const k = std::uint64_t( rng.below( 1100 ) );
          size( k * unit + unit * std::uint64_t( 2 * rng.below( 10 ) + 1 ) / 20 + std::uint64_t( d ) );
        }
      }
    for( std::uint64_t p = 1; p != 0 && p < ( std::uint64_t( 1 ) << 62 ); p *= 10 )
      for( int s = 0; s <= 30; s += 10 )
        if( p < ( std::uint64_t( 1 ) << ( 63 - s ) ) ) for( long d = -1; d <= 1; ++d ) size( ( p << s ) + std::uint64_t( d ) );
    for( long i = 0; i < args.n; ++i ) { if( i % 50 == 0 ) J( "begin" ).emit(); size( rng.next() >> rng.below( 64 ) ); }
    size( 0 ); size( ~std::uint64_t( 0 ) );
    return finish();
  }
  {
    J( "demangle" ).kv( "isnull", true ).kv( "name", VL() ).codes( "r", LvArray::system::demangle( nullptr ) ).emit();
  }
  type( 1 ); type( 1u ); type( 'c' ); type( 1.0 ); type( 1.0f ); type( 1L ); type( 1UL ); type( 1LL ); type( short( 1 ) ); type( true );
  type( thing::Widget() ); type( thing::inner::Part() ); type( Plain() );
  { int x = 0; int * p = &x; int const * q = &x; int ** r = &p; type( p ); type( q ); type( r ); }
  { thing::Widget w; thing::Widget * p = &w; type( p ); }
  for( long i = 0; i < args.n; ++i )
  {
    if( i % 20 == 0 ) J( "begin" ).emit();
    std::string s = mangled( rng, 3 );
    dem( s );
    dem( "_ZN" + src( rng ) + src( rng ) + "E" );
    dem( "_Z" + src( rng ) );
    // damaged names
    if( rng.chance( 50 ) ) dem( "!" + s );
    if( rng.chance( 50 ) ) dem( s + " " );
    if( rng.chance( 30 ) ) dem( "_Z" );
    if( rng.chance( 30 ) ) dem( "" );
    if( rng.chance( 30 ) ) dem( "99" + ident( rng ) );
    if( rng.chance( 30 ) ) dem( "N" + src( rng ) );
    int const nd = int( rng.below( 6 ) );
    format< double, long >( rng, nd ); format< int, int >( rng, nd ); format< thing::Widget, long >( rng, nd ); format< float *, std::size_t >( rng, nd );
  }
  return finish();
}
