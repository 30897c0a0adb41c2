// Conformance driver for C15: integerConversion over pairs of integer types.
#include "vperr.hpp"
#include "limits.hpp"
#include <limits>
using namespace vp;

template< typename T > VL signLimbs( T const x, std::true_type )
{
  bool const neg = x < 0;
  std::uint64_t const u = std::uint64_t( std::int64_t( x ) );
  VL r = limbs( neg ? 0 - u : u );
  r.insert( r.begin(), neg ? 1 : 0 );
  return r;
}
template< typename T > VL signLimbs( T const x, std::false_type )
{ VL r = limbs( std::uint64_t( x ) ); r.insert( r.begin(), 0 ); return r; }
template< typename T > VL signLimbs( T const x ) { return signLimbs( x, std::is_signed< T >{} ); }
template< typename T > constexpr int bitsOf() { return std::is_same< T, bool >::value ? 1 : int( 8 * sizeof( T ) ); }

static long base = 0;
template< typename S, typename D >
void conv( S const v )
{
  static D r;
  r = D( 42 );
  std::string const what = std::string( typeid( S ).name() ) + ">" + typeid( D ).name();
  current() = what;
  bool const err = attempt( [&]() { r = LvArray::integerConversion< D >( v ); } );
  J( "conv" ).kv( "t", what ).kv( "sb", bitsOf< S >() ).kv( "ss", std::is_signed< S >::value ).kv( "db", bitsOf< D >() ).kv( "ds", std::is_signed< D >::value )
    .kv( "v", signLimbs( v ) ).kv( "err", err ).kv( "r", err ? VL() : signLimbs( r ) ).kv( "calls", handlerCalls() - base ).emit();
}

template< typename S > std::vector< S > values( Rng & rng, long const n, bool const all )
{
  std::vector< S > r;
  if( all && sizeof( S ) <= 2 )
  {
    for( long x = long( std::numeric_limits< S >::min() ); x <= long( std::numeric_limits< S >::max() ); ++x ) r.push_back( S( x ) );
    return r;
  }
  r = { S( 0 ), S( 1 ), std::numeric_limits< S >::min(), std::numeric_limits< S >::max() };
  for( int b = 0; b < bitsOf< S >(); ++b )
    for( int d = -2; d <= 2; ++d )
    {
      r.push_back( S( ( std::uint64_t( 1 ) << b ) + std::uint64_t( std::int64_t( d ) ) ) );
      r.push_back( S( 0 - ( std::uint64_t( 1 ) << b ) + std::uint64_t( std::int64_t( d ) ) ) );
    }
  for( long i = 0; i < n; ++i ) r.push_back( S( rng.next() >> rng.below( 64 ) ) );
  for( long i = 0; i < n; ++i ) r.push_back( S( 0 - ( rng.next() >> rng.below( 64 ) ) ) );
  return r;
}

template< typename S, typename D > struct Allowed : std::integral_constant< bool, !std::is_same< D, bool >::value || std::is_unsigned< S >::value > {};
template< typename S, typename D > void all( std::vector< S > const &, std::false_type ) {}
template< typename S, typename D > void all( std::vector< S > const & vs, std::true_type )
{
  J( "begin" ).kv( "s", std::string( typeid( S ).name() ) ).kv( "d", std::string( typeid( D ).name() ) ).emit();
  base = handlerCalls();
  for( S const v : vs ) conv< S, D >( v );
}

template< typename... TS > struct Types {};
template< typename S, typename... DS > void source( Rng & rng, long const n, bool const exhaustive, Types< DS... > )
{
  std::vector< S > const vs = values< S >( rng, n, exhaustive );
  int const dummy[] = { ( all< S, DS >( vs, Allowed< S, DS >{} ), 0 )... };
  (void) dummy;
}
template< typename... SS > void sources( Rng & rng, long const n, bool const exhaustive, Types< SS... > types )
{
  int const dummy[] = { ( source< SS >( rng, n, exhaustive, types ), 0 )... };
  (void) dummy;
}

int main( int argc, char ** argv )
{
  Args args( argc, argv );
  installErrorHandler();
  Rng rng( args.seed );
  using Wide = Types< signed char, unsigned char, short, unsigned short, int, unsigned int, long, unsigned long, long long, unsigned long long, char, bool >;
  using Odd = Types< wchar_t, char16_t, char32_t, unsigned char, int, unsigned long >;
  if( args.mode == "odd" ) sources( rng, args.n, false, Odd{} );
  else if( args.mode == "small" ) { source< signed char >( rng, 0, true, Wide{} ); source< unsigned char >( rng, 0, true, Wide{} ); source< char >( rng, 0, true, Wide{} ); }
  else if( args.mode == "small16" ) { source< short >( rng, 0, true, Wide{} ); source< unsigned short >( rng, 0, true, Wide{} ); }
  else sources( rng, args.n, false, Wide{} );
  return finish();
}
