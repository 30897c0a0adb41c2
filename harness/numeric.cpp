// Conformance driver for math.hpp and limits.hpp. Traces: spec/NumericTrace.tla.
#include "vp.hpp"
#include "vperr.hpp"
#include "limits.hpp"
#include "math.hpp"
#include <cmath>
using namespace vp;
namespace m = LvArray::math;

template< typename T > struct Name;
#define NAME( T ) template<> struct Name< T > { static char const * get() { return #T; } };
NAME( signed char ) NAME( unsigned char ) NAME( char ) NAME( short ) NAME( unsigned short ) NAME( int ) NAME( unsigned int ) NAME( long ) NAME( unsigned long ) NAME( long long ) NAME( unsigned long long ) NAME( float ) NAME( double ) NAME( long double )

template< typename T > VL sl( T const x )
{
  bool const neg = x < 0;
  std::uint64_t const u = std::uint64_t( std::int64_t( x ) );
  VL r = limbs( neg ? 0 - u : std::uint64_t( x ) );
  r.insert( r.begin(), neg ? 1 : 0 );
  return r;
}
static std::string dyadic( long double v )
{
  if( std::isnan( v ) || std::isinf( v ) ) return "\"odd\"";
  int e = 0;
  long double f = std::frexp( v, &e );
  int k = 0;
  while( f != std::floor( f ) && k < 70 ) { f *= 2; ++k; }
  if( f == 0 ) return "{\"m\":0,\"e\":0}";
  if( std::fabs( f ) > 2e9L ) return "\"wide\"";
  return "{\"m\":" + std::to_string( long( f ) ) + ",\"e\":" + std::to_string( e - k ) + "}";
}

static Rng * rng;

template< typename T > void ints( long const n )
{
  J( "begin" ).emit();
  std::vector< T > vs = { T( 0 ), T( 1 ), std::numeric_limits< T >::min(), std::numeric_limits< T >::max(), T( std::numeric_limits< T >::max() - 1 ), T( std::numeric_limits< T >::min() + 1 ), T( -1 ) };
  for( long i = 0; i < n; ++i ) vs.push_back( T( rng->next() >> rng->below( 64 ) ) );
  for( std::size_t i = 0; i < vs.size(); ++i )
    for( std::size_t j = 0; j < vs.size(); ++j )
    {
      T const a = vs[ i ], b = vs[ j ];
      J( "max" ).kv( "cls", "int" ).kv( "t", Name< T >::get() ).kv( "a", sl( a ) ).kv( "b", sl( b ) ).kv( "r", sl< T >( m::max( a, b ) ) ).emit();
      J( "min" ).kv( "cls", "int" ).kv( "t", Name< T >::get() ).kv( "a", sl( a ) ).kv( "b", sl( b ) ).kv( "r", sl< T >( m::min( a, b ) ) ).emit();
    }
}
template< typename T > void absInts()
{
  for( int i = 0; i < 12; ++i )
  {
    T const a = i == 0 ? T( std::numeric_limits< T >::min() + 1 ) : i == 1 ? std::numeric_limits< T >::max() : T( T( rng->next() ) / 2 );
    J( "abs" ).kv( "cls", "int" ).kv( "t", Name< T >::get() ).kv( "a", sl( a ) ).kv( "r", sl< T >( m::abs( a ) ) ).emit();
  }
}
template< typename T > void squares( long const bound, bool const fractions )
{
  for( int i = 0; i < 25; ++i )
  {
    long const q = i < 4 ? i : rng->range( -bound, bound );
    int const e = fractions ? int( rng->range( -3, 3 ) ) : 0;
    T const a = T( std::ldexp( ( long double ) q, e ) );
    J j( "square" );
    j.kv( "t", Name< T >::get() ).raw( "a", dyadic( ( long double ) a ) );
    T const r = m::square( a );
    j.raw( "r", dyadic( ( long double ) r ) ).emit();
  }
}
template< typename T > void roots( long const bound, bool const fractions )
{
  J( "begin" ).emit();
  for( int i = 0; i < 30; ++i )
  {
    long const q = i < 4 ? i : i < 8 ? bound - i + 4 : rng->range( 1, bound );
    int const e = fractions ? int( rng->range( -20, 20 ) ) : 0;
    long double const root = std::ldexp( ( long double ) q, e );
    T const x = T( root * root );
    auto const s = m::sqrt( x );
    J( "sqrt" ).kv( "t", Name< T >::get() ).raw( "a", dyadic( root ) ).raw( "x", dyadic( ( long double ) x ) ).raw( "r", dyadic( ( long double ) s ) ).kv( "bytes", sizeof( s ) ).emit();
    if( q == 0 ) continue;
    auto const v = m::invSqrt( x );
    J j( "invSqrt" );
    j.kv( "t", Name< T >::get() ).raw( "a", dyadic( root ) ).kv( "q", long( std::llround( ( long double ) v * root * 1048576.0L ) ) ).kv( "bytes", sizeof( v ) );
    std::string const r = dyadic( ( long double ) v );
    j.raw( "r", r ).emit();
  }
}
template< typename T > void floats()
{
  J( "begin" ).emit();
  for( int i = 0; i < 60; ++i )
  {
    T const a = T( std::ldexp( ( long double ) rng->range( -4000, 4000 ), int( rng->range( -6, 6 ) ) ) );
    T const b = i % 7 == 0 ? a : T( std::ldexp( ( long double ) rng->range( -4000, 4000 ), int( rng->range( -6, 6 ) ) ) );
    J( "max" ).kv( "cls", "float" ).raw( "a", dyadic( a ) ).raw( "b", dyadic( b ) ).raw( "r", dyadic( m::max( a, b ) ) ).emit();
    J( "min" ).kv( "cls", "float" ).raw( "a", dyadic( a ) ).raw( "b", dyadic( b ) ).raw( "r", dyadic( m::min( a, b ) ) ).emit();
    J( "abs" ).kv( "cls", "float" ).raw( "a", dyadic( a ) ).raw( "r", dyadic( m::abs( a ) ) ).emit();
  }
}
template< typename T, typename U > void converts( long const lo, long const hi )
{
  for( int i = 0; i < 8; ++i )
  {
    U const a = U( rng->range( lo, hi ) );
    T const r = m::convert< T >( a );
    J( "convert" ).raw( "a", dyadic( ( long double ) a ) ).raw( "r", dyadic( ( long double ) r ) ).kv( "n", m::numValues< T >() ).emit();
  }
}

// ---- limits
template< typename T > std::string limitText( T const v )
{
  if( std::is_integral< T >::value ) return J::list( sl( v ) );
  long double const x = ( long double ) v;
  if( std::isnan( x ) ) return "\"nan\"";
  if( std::isinf( x ) ) return x > 0 ? "\"inf\"" : "\"-inf\"";
  int e = 0;
  long double const f = std::frexp( std::fabs( x ), &e );
  std::uint64_t const w = std::uint64_t( std::ldexp( f, 64 ) );
  return std::string( "{\"neg\":" ) + ( std::signbit( x ) ? "true" : "false" ) + ",\"m\":" + J::list( limbs( w ) ) + ",\"e\":" + std::to_string( e - 64 ) + "}";
}
template< typename T, typename V > void limit( char const * const t, char const * const which, V const v, char const * const where )
{
  J j( "limit" );
  bool const isInt = std::is_integral< T >::value;
  j.kv( "cls", isInt ? "int" : "float" ).kv( "t", t ).kv( "which", which ).kv( "where", where );
  if( isInt ) j.kv( "bits", long( 8 * sizeof( T ) ) ).kv( "signed", std::is_signed< T >::value );
  j.raw( "v", limitText( v ) ).emit();
}
template< typename T > void limits()
{
  char const * const t = Name< T >::get();
  using N = LvArray::NumericLimits< T >;
  T const a = N::min, b = N::lowest, c = N::max, d = N::epsilon, e = N::round_error, f = N::infinity, g = N::quiet_NaN, i = N::denorm_min;
  limit< T >( t, "min", a, "NumericLimits" ); limit< T >( t, "lowest", b, "NumericLimits" ); limit< T >( t, "max", c, "NumericLimits" );
  limit< T >( t, "epsilon", d, "NumericLimits" ); limit< T >( t, "round_error", e, "NumericLimits" ); limit< T >( t, "infinity", f, "NumericLimits" );
  limit< T >( t, "quiet_NaN", g, "NumericLimits" ); limit< T >( t, "denorm_min", i, "NumericLimits" );
  constexpr T h = N::signaling_NaN;
  limit< T >( t, "signaling_NaN", h, "NumericLimits" );
  LvArray::NumericLimitsNC< T > const nc{};
  limit< T >( t, "min", nc.min, "NumericLimitsNC" ); limit< T >( t, "lowest", nc.lowest, "NumericLimitsNC" ); limit< T >( t, "max", nc.max, "NumericLimitsNC" );
  limit< T >( t, "epsilon", nc.epsilon, "NumericLimitsNC" ); limit< T >( t, "denorm_min", nc.denorm_min, "NumericLimitsNC" );
}

// ---- trigonometry, in units of 10^-4
template< typename V > long fx( V const v ) { return long( std::llround( double( v ) * 1e4 ) ); }
static long clampT( double const v ) { return std::fabs( v ) < 5 ? fx( v ) : v > 0 ? 50001 : -50001; }
template< typename T > void trigAt( T const theta, long const k, long const tol )
{
  using R = std::conditional_t< std::is_same< T, float >::value, float, double >;
  auto const s = m::sin( theta ); auto const c = m::cos( theta ); auto const t = m::tan( theta );
  R ss, sc;
  m::sincos( theta, ss, sc );
  J( "trig" ).kv( "type", Name< T >::get() ).kv( "k", k ).kv( "s", fx( s ) ).kv( "c", fx( c ) ).kv( "t", clampT( double( t ) ) ).kv( "ss", fx( ss ) ).kv( "sc", fx( sc ) )
    .kv( "tol", tol ).kv( "bytes", sizeof( s ) + sizeof( c ) + sizeof( t ) ).kv( "want", 3 * ( std::is_same< T, float >::value ? 4 : 8 ) ).emit();
}
template< typename T > void inverses( double const x, long const tol, long const atol )
{
  auto const emit = [&]( char const * const f, double const arg, double const back, std::size_t const bytes, long const tl )
  { J( "inverse" ).kv( "type", Name< T >::get() ).kv( "f", f ).kv( "x", fx( arg ) ).kv( "back", fx( back ) ).kv( "tol", tl ).kv( "bytes", bytes ).kv( "want", std::is_same< T, float >::value ? 4 : 8 ).emit(); };
  if( std::fabs( x ) < 1.4 ) { auto const r = m::asin( T( std::sin( x ) ) ); emit( "asin", x, double( r ), sizeof( r ), atol ); }
  if( std::fabs( x ) > 0.2 && std::fabs( x ) < 2.9 ) { auto const r = m::acos( T( std::cos( x ) ) ); emit( "acos", std::fabs( x ), double( r ), sizeof( r ), atol ); }
  double const rad = 0.5 + double( rng->below( 40 ) );
  auto const r = m::atan2( T( rad * std::sin( x ) ), T( rad * std::cos( x ) ) );
  emit( "atan2", x, double( r ), sizeof( r ), tol );
}
template< typename T > void expos( double const x, long const tol )
{
  T const t = T( x );
  auto const ep = m::exp( t );
  auto const em = m::exp( T( -t ) );
  auto const e1 = m::exp( T( t + 1 ) );
  auto const back = m::log( std::is_integral< T >::value ? T( 1 ) : T( ep ) );
  J( "expo" ).kv( "type", Name< T >::get() ).kv( "x", std::is_integral< T >::value && x != 0 ? 0l : fx( double( t ) ) ).kv( "ep", std::is_integral< T >::value && x != 0 ? 10000l : fx( ep ) )
    .kv( "em", std::is_integral< T >::value && x != 0 ? 10000l : fx( em ) ).kv( "ep1", std::is_integral< T >::value && x != 0 ? 27183l : fx( e1 ) ).kv( "back", fx( back ) )
    .kv( "tol", tol ).kv( "bytes", sizeof( ep ) + sizeof( back ) ).kv( "want", std::is_same< T, float >::value ? 8 : 16 ).emit();
}
template< typename T > void trig( long const n, long const tol )
{
  J( "begin" ).emit();
  double const pi = std::acos( -1.0 );
  for( int k = -24; k < 36; ++k ) trigAt< T >( T( k * pi / 12 ), ( k + 24 ) % 24, tol );
  for( long i = 0; i < n; ++i ) trigAt< T >( T( double( rng->range( -70000, 70000 ) ) / 10000 ), 99, tol );
  for( long i = 0; i < n; ++i ) inverses< T >( double( rng->range( -31000, 31000 ) ) / 10000, tol, 2 * tol );
  expos< T >( 0, tol );
  for( long i = 0; i < n; ++i ) expos< T >( double( rng->range( -20000, 20000 ) ) / 10000, tol );
}

#if defined( LVARRAY_USE_CUDA )
static __half hf( double const x ) { return __half( float( x ) ); }
static void halves()
{
  J( "begin" ).emit();
  using N = LvArray::NumericLimits< __half >;
  using N2 = LvArray::NumericLimits< __half2 >;
  limit< float >( "half", "min", float( N::min ), "half" ); limit< float >( "half", "lowest", float( N::lowest ), "half" ); limit< float >( "half", "max", float( N::max ), "half" );
  limit< float >( "half", "epsilon", float( N::epsilon ), "half" ); limit< float >( "half", "denorm_min", float( N::denorm_min ), "half" );
  limit< float >( "half", "min", float( N2::min ), "half2" ); limit< float >( "half", "max", float( N2::max ), "half2" );
  for( int i = 0; i < 40; ++i )
  {
    float const a = float( rng->range( -300, 300 ) ), b = float( rng->range( -300, 300 ) ), c = float( rng->range( -300, 300 ) ), d = i % 3 ? float( rng->range( -300, 300 ) ) : b;
    __half2 const p = m::convert< __half2 >( a, b ), q = m::convert< __half2 >( a );
    J( "convert2" ).raw( "a", dyadic( a ) ).raw( "b", dyadic( b ) ).raw( "r1", dyadic( float( p.x ) ) ).raw( "r2", dyadic( float( p.y ) ) ).kv( "n", m::numValues< __half2 >() )
      .raw( "same", "[" + dyadic( float( q.x ) ) + "," + dyadic( float( q.y ) ) + "]" ).emit();
    __half2 const u = m::convert< __half2 >( __half( a ), __half( b ) ), w = m::convert< __half2 >( __half( a ) );
    J( "convert2" ).raw( "a", dyadic( a ) ).raw( "b", dyadic( b ) ).raw( "r1", dyadic( float( u.x ) ) ).raw( "r2", dyadic( float( u.y ) ) ).kv( "n", m::numValues< __half2 >() )
      .raw( "same", "[" + dyadic( float( w.x ) ) + "," + dyadic( float( w.y ) ) + "]" ).emit();
    __half2 const r = m::convert< __half2 >( c, d );
    __half2 const mx = m::max( p, r ), mn = m::min( p, r ), ab = m::abs( p );
    J( "max" ).kv( "cls", "float" ).raw( "a", dyadic( a ) ).raw( "b", dyadic( c ) ).raw( "r", dyadic( float( mx.x ) ) ).emit();
    J( "max" ).kv( "cls", "float" ).raw( "a", dyadic( b ) ).raw( "b", dyadic( d ) ).raw( "r", dyadic( float( mx.y ) ) ).emit();
    J( "min" ).kv( "cls", "float" ).raw( "a", dyadic( a ) ).raw( "b", dyadic( c ) ).raw( "r", dyadic( float( mn.x ) ) ).emit();
    J( "min" ).kv( "cls", "float" ).raw( "a", dyadic( b ) ).raw( "b", dyadic( d ) ).raw( "r", dyadic( float( mn.y ) ) ).emit();
    J( "abs" ).kv( "cls", "float" ).raw( "a", dyadic( a ) ).raw( "r", dyadic( float( ab.x ) ) ).emit();
    J( "abs" ).kv( "cls", "float" ).raw( "a", dyadic( b ) ).raw( "r", dyadic( float( ab.y ) ) ).emit();
    J( "max" ).kv( "cls", "float" ).raw( "a", dyadic( a ) ).raw( "b", dyadic( c ) ).raw( "r", dyadic( float( m::max( __half( a ), __half( c ) ) ) ) ).emit();
    J( "min" ).kv( "cls", "float" ).raw( "a", dyadic( a ) ).raw( "b", dyadic( c ) ).raw( "r", dyadic( float( m::min( __half( a ), __half( c ) ) ) ) ).emit();
    J( "abs" ).kv( "cls", "float" ).raw( "a", dyadic( a ) ).raw( "r", dyadic( float( m::abs( __half( a ) ) ) ) ).emit();
  }
  double const pi = std::acos( -1.0 );
  for( int k = -12; k < 24; ++k )
  {
    __half const th = hf( k * pi / 12 );
    __half ss, sc;
    m::sincos( th, ss, sc );
    float const s = m::sin( th ), c = m::cos( th ), t = m::tan( th );
    J( "trig" ).kv( "type", "half" ).kv( "k", ( k + 24 ) % 24 ).kv( "s", fx( s ) ).kv( "c", fx( c ) ).kv( "t", clampT( t ) ).kv( "ss", fx( float( ss ) ) ).kv( "sc", fx( float( sc ) ) ).kv( "tol", 2 ).kv( "bytes", 0 ).kv( "want", 0 ).emit();
    __half2 s2, c2;
    __half2 const th2{ hf( k * pi / 12 ), hf( 0.5 ) };
    m::sincos( th2, s2, c2 );
    __half2 const a2 = m::sin( th2 ), b2 = m::cos( th2 ), t2 = m::tan( th2 );
    J( "trig" ).kv( "type", "half2" ).kv( "k", ( k + 24 ) % 24 ).kv( "s", fx( float( a2.x ) ) ).kv( "c", fx( float( b2.x ) ) ).kv( "t", clampT( float( t2.x ) ) ).kv( "ss", fx( float( s2.x ) ) ).kv( "sc", fx( float( c2.x ) ) ).kv( "tol", 2 ).kv( "bytes", 0 ).kv( "want", 0 ).emit();
  }
  for( int i = 0; i < 60; ++i )
  {
    double const x = double( rng->range( -31000, 31000 ) ) / 10000;
    auto const emit = [&]( char const * const f, double const arg, double const back )
    { J( "inverse" ).kv( "type", "half" ).kv( "f", f ).kv( "x", fx( arg ) ).kv( "back", fx( back ) ).kv( "tol", 30 ).kv( "bytes", 0 ).kv( "want", 0 ).emit(); };
    if( std::fabs( x ) < 1.4 ) { emit( "asin", x, float( m::asin( hf( std::sin( x ) ) ) ) ); __half2 const v = m::asin( __half2{ hf( 0.3 ), hf( std::sin( x ) ) } ); emit( "asin2", x, float( v.y ) ); }
    if( std::fabs( x ) > 0.2 && std::fabs( x ) < 2.9 ) { emit( "acos", std::fabs( x ), float( m::acos( hf( std::cos( x ) ) ) ) ); __half2 const v = m::acos( __half2{ hf( 0.3 ), hf( std::cos( x ) ) } ); emit( "acos2", std::fabs( x ), float( v.y ) ); }
    if( std::fabs( x ) > 0.01 )
    {
      emit( "atan2", x, float( m::atan2( hf( 2 * std::sin( x ) ), hf( 2 * std::cos( x ) ) ) ) );
      __half2 const v = m::atan2( __half2{ hf( 0.3 ), hf( std::sin( x ) ) }, __half2{ hf( 0.9 ), hf( std::cos( x ) ) } );
      emit( "atan2_2", x, float( v.y ) );
    }
  }
}
#endif

int main( int argc, char ** argv )
{
  Args a( argc, argv );
  installErrorHandler();
  Rng r( a.seed );
  rng = &r;
#if defined( LVARRAY_USE_CUDA )
  if( a.mode == "half" ) { halves(); return finish(); }
#endif
  long const n = a.n;
  ints< signed char >( n ); ints< unsigned char >( n ); ints< short >( n ); ints< unsigned short >( n ); ints< int >( n ); ints< unsigned int >( n );
  ints< long >( n ); ints< unsigned long >( n ); ints< long long >( n ); ints< unsigned long long >( n ); ints< char >( n );
  absInts< int >(); absInts< long >(); absInts< long long >(); absInts< short >(); absInts< signed char >();
  J( "begin" ).emit();
  squares< int >( 20000, false ); squares< long >( 20000, false ); squares< short >( 181, false ); squares< signed char >( 11, false ); squares< float >( 4000, true ); squares< double >( 20000, true );
  roots< float >( 4000, true ); roots< double >( 20000, true ); roots< int >( 20000, false ); roots< long >( 20000, false ); roots< short >( 181, false ); roots< unsigned int >( 20000, false );
  floats< float >(); floats< double >(); floats< long double >();
  J( "begin" ).emit();
  converts< int, long >( -100, 100 ); converts< double, int >( -10000, 10000 ); converts< float, double >( -10000, 10000 ); converts< long, short >( -30000, 30000 ); converts< double, float >( -10000, 10000 );
  J( "begin" ).emit();
  limits< signed char >(); limits< unsigned char >(); limits< char >(); limits< short >(); limits< unsigned short >(); limits< int >(); limits< unsigned int >(); limits< long >(); limits< unsigned long >();
  limits< long long >(); limits< unsigned long long >(); limits< float >(); limits< double >(); limits< long double >();
  trig< float >( 60, 1 ); trig< double >( 60, 1 );
  J( "begin" ).emit();
  for( int k = -30; k < 30; ++k ) trigAt< int >( k, 99, 1 );
  expos< int >( 0, 1 ); expos< long >( 0, 1 ); expos< int >( 1, 1 );
  return finish();
}
