// Eigenvalues and eigenvectors of symmetric matrices with small integer entries, scaled and perturbed by powers of two,
// recorded for spec/Eigen.tla.
#include "vperr.hpp"
#include "operands.hpp"
#include "tensorOps.hpp"
#include <cmath>
#include <limits>
using namespace vp;
namespace t = LvArray::tensorOps;

struct Matrix { long n; VL m, p; long k, s, third; };
static long capped( long double const x ) { return !( x < 1e9L ) ? 1000000000 : std::lround( x ); }
// in units of 1/10000
static long fixedPoint( double const x ) { return x != x || std::fabs( x ) > 1e5 ? 2000000000 : std::lround( x * 10000 ); }
// the largest quantity seen, with --mode survey
static bool survey = false;
static std::map< std::string, long > most;

template< typename T, typename F, P N, int KV, int KM > void decompose( Matrix const & x, char const * const from, char const * const to )
{
  constexpr P S = N * ( N + 1 ) / 2;
  std::string const at = from + std::string( " " ) + to + " " + J::list( x.m ) + J::list( x.p ) + " " + std::to_string( x.k ) + " " + std::to_string( x.s ) + " " + std::to_string( x.third );
  current() = at;
  Vec< T, S, KM > a( 0 );
  Vec< F, N, KV > l( 0 ), only( 0 );
  Mat< F, N, N, KV > v( 0, 0 );
  bool const whole = std::is_integral< T >::value;
  double const unit = whole ? 1 : std::ldexp( x.third ? 1.0 / 3 : 1.0, int( x.s ) );
  for( P i = 0; i < S; ++i ) a.at( i ) = T( whole ? double( x.m[ std::size_t( i ) ] ) : ( x.m[ std::size_t( i ) ] + std::ldexp( double( x.p[ std::size_t( i ) ] ), -int( x.k ) ) ) * unit );
  T was[ S ];
  for( P i = 0; i < S; ++i ) was[ i ] = a.at( i );
  for( P i = 0; i < N; ++i ) l.at( i ) = only.at( i ) = F( 9 );
  for( P i = 0; i < N * N; ++i ) v.at( i ) = F( 9 );
  t::symEigenvalues< N >( only.dst(), a.src() );
  t::symEigenvectors< N >( l.dst(), v.dst(), a.src() );
  bool same = true;
  for( P i = 0; i < S; ++i ) same = same && was[ i ] == a.at( i );

  // the defining equations, in units of the machine precision times the largest entry
  using R = long double;
  R A[ 3 ][ 3 ];
  auto const e = [&]( P const i ) { return R( was[ i ] ); };
  if( N == 2 ) { A[ 0 ][ 0 ] = e( 0 ); A[ 1 ][ 1 ] = e( 1 ); A[ 0 ][ 1 ] = A[ 1 ][ 0 ] = e( 2 ); }
  else { for( P i = 0; i < 3; ++i ) A[ i ][ i ] = e( i ); A[ 1 ][ 2 ] = A[ 2 ][ 1 ] = e( N == 3 ? 3 : 0 ); A[ 0 ][ 2 ] = A[ 2 ][ 0 ] = e( N == 3 ? 4 : 0 ); A[ 0 ][ 1 ] = A[ 1 ][ 0 ] = e( N == 3 ? 5 : 0 ); }
  R norm = 0;
  for( P i = 0; i < S; ++i ) norm = std::fmax( norm, std::fabs( e( i ) ) );
  if( norm == 0 ) norm = unit;
  R const eps = std::numeric_limits< F >::epsilon();
  R res = 0, ort = 0, dif = 0, asc = 0;
  auto const grow = []( R & x, R const y ) { if( !( y <= x ) ) x = y; };       // a NaN stays
  for( P j = 0; j < N; ++j )
  {
    for( P i = 0; i < N; ++i )
    {
      R s = -R( l.at( j ) ) * v.at( j * N + i ), d = i == j ? -1 : 0;
      for( P k = 0; k < N; ++k ) { s += A[ i ][ k ] * v.at( j * N + k ); d += R( v.at( i * N + k ) ) * v.at( j * N + k ); }
      grow( res, std::fabs( s ) / norm / eps );
      grow( ort, std::fabs( d ) / eps );
    }
    grow( dif, std::fabs( R( l.at( j ) ) - only.at( j ) ) / norm / eps );
    if( j > 0 ) grow( asc, ( R( l.at( j - 1 ) ) - l.at( j ) ) / norm / eps );
  }
  VL lam;
  VVL vec;
  for( P j = 0; j < N; ++j )
  {
    lam.push_back( fixedPoint( double( l.at( j ) / R( unit ) ) ) );
    VL r;
    for( P i = 0; i < N; ++i ) r.push_back( fixedPoint( v.at( j * N + i ) ) );
    vec.push_back( r );
  }
  if( survey )
  {
    std::string const key = std::to_string( N ) + to;
    for( auto const & q : { std::make_pair( "res", res ), std::make_pair( "ort", ort ), std::make_pair( "dif", dif ), std::make_pair( "asc", asc ) } ) if( capped( q.second ) > most[ key + q.first ] ) { most[ key + q.first ] = capped( q.second ); fprintf( stderr, "%s %s %ld at %s\n", key.c_str(), q.first, capped( q.second ), at.c_str() ); }
    return;
  }
  J( "eigen" ).kv( "n", long( N ) ).kv( "from", from ).kv( "to", to ).kv( "kinds", long( 10 * KV + KM ) ).kv( "m", x.m ).kv( "p", whole ? VL( std::size_t( S ), 0 ) : x.p ).kv( "k", x.k ).kv( "s", whole ? 0 : x.s ).kv( "third", whole ? 0 : x.third )
    .kv( "lam", lam ).kv( "vec", vec ).kv( "res", capped( res ) ).kv( "ort", capped( ort ) ).kv( "dif", capped( dif ) ).kv( "asc", capped( asc ) )
    .kv( "inputs", long( same ) ).kv( "around", long( a.around() && l.around() && only.around() && v.around() ) ).emit();
}
template< P N > void all( Matrix const & x, long const which )
{
  switch( which % 7 )
  {
    case 0: decompose< double, double, N, C, C >( x, "double", "double" ); break;
    case 1: decompose< float, float, N, C, ROW >( x, "float", "float" ); break;
    case 2: decompose< int, double, N, ROW, COLUMN >( x, "int", "double" ); break;
    case 3: decompose< double, double, N, COLUMN, VIEW >( x, "double", "double" ); break;
    case 4: decompose< int, float, N, VIEW, WHOLE >( x, "int", "float" ); break;
    case 5: decompose< float, float, N, WHOLE, C >( x, "float", "float" ); break;
    case 6: decompose< float, double, N, ROW, C >( x, "float", "double" ); break;
  }
}
static long events = 0;
static void one( Matrix const & x, long const which )
{
  if( events++ % 250 == 0 && !survey ) J( "begin" ).emit();
  if( x.n == 2 ) all< 2 >( x, which ); else all< 3 >( x, which );
}
int main( int argc, char ** argv )
{
  Args args( argc, argv );
  Rng rng( args.seed );
  survey = args.mode == "survey";
  if( !args.script.empty() )
  {
    for( auto const & ep : readScripts( args.script.c_str() ) ) for( auto const & o : ep )
    {
      Matrix x{ o.i( "n" ), o.v( "m" ), o.v( "m" ), 0, 0, 0 };
      for( long & y : x.p ) y = 0;
      for( long w = 0; w < 7; ++w ) one( x, w );
    }
  }
  else for( long n = 0; n < args.n; ++n )
  {
    Matrix x;
    x.n = rng.chance( 20 ) ? 2 : 3;
    long const r = rng.chance( 60 ) ? 1 : rng.chance( 80 ) ? 2 : 3;
    bool const diagonal = rng.chance( 15 ), tensorProduct = rng.chance( 20 );
    long u[ 3 ];
    for( long & y : u ) y = rng.range( -r, r );
    std::size_t const z = std::size_t( x.n * ( x.n + 1 ) / 2 );
    for( std::size_t i = 0; i < z; ++i )
    {
      bool const d = i < std::size_t( x.n );
      x.m.push_back( tensorProduct ? 0 : !d && ( diagonal || rng.chance( 20 ) ) ? 0 : rng.range( -r, r ) );
      x.p.push_back( rng.range( -2, 2 ) );
    }
    if( tensorProduct )
    {
      // a rank one matrix and a multiple of the identity: repeated eigenvalues
      long const c = rng.range( -1, 1 );
      if( r < 3 ) for( long i = 0; i < x.n; ++i ) x.m[ std::size_t( i ) ] = u[ i ] * u[ i ] + c;
      if( x.n == 2 ) x.m[ 2 ] = r < 3 ? u[ 0 ] * u[ 1 ] : 0; 
      else if( r < 3 ) { x.m[ 3 ] = u[ 1 ] * u[ 2 ]; x.m[ 4 ] = u[ 0 ] * u[ 2 ]; x.m[ 5 ] = u[ 0 ] * u[ 1 ]; }
    }
    x.k = rng.range( 14, 56 );
    if( rng.chance( 50 ) ) { x.k = 0; for( long & y : x.p ) y = 0; }
    x.s = rng.chance( 50 ) ? 0 : rng.range( -40, 40 );
    x.third = rng.chance( 20 );
    one( x, rng.below( 7 ) );
  }
  J( "end" ).emit();
  out().flush();
}
