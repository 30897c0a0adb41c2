// Operations on vectors and matrices of fixed size, on every kind of operand, recorded for spec/TensorOps.tla.
#include "vperr.hpp"
#include "operands.hpp"
#include "tensorOps.hpp"
#include <cmath>
#include <memory>
using namespace vp;
namespace t = LvArray::tensorOps;

// what a recorded call does with its operands
struct Operand
{
  virtual ~Operand() {}
  virtual double get( P i ) = 0;
  virtual void set( P i, double x ) = 0;
  virtual P cells() const = 0;
  virtual bool intact() = 0;
};
template< typename H, typename T > struct Held final : Operand
{
  H h;
  Held( long const m, long const n ): h( m, n ) {}
  double get( P const i ) override { return double( h.at( i ) ); }
  void set( P const i, double const x ) override { h.at( i ) = T( x ); }
  P cells() const override { return h.size(); }
  bool intact() override { return h.around(); }
};
// operand descriptions: none, a vector, a matrix
struct None { static constexpr int ND = 0; template< typename T, int K > struct Of { Of( long, long ) {} int dst() { return 0; } int src() const { return 0; } P size() const { return 0; } T & at( P ) { static T x; return x; } bool around() { return true; } }; };
template< P N > struct V { static constexpr int ND = 1; template< typename T, int K > struct Of : Vec< T, N, K > { Of( long const m, long ): Vec< T, N, K >( m ) {} }; };
template< P M, P N > struct X { static constexpr int ND = 2; template< typename T, int K > struct Of : Mat< T, M, N, K > { Of( long const m, long const n ): Mat< T, M, N, K >( m, n ) {} }; };
template< P N > using S = V< N * ( N + 1 ) / 2 >;

static long exact( double const x ) { long const r = std::lround( x ); return double( r ) == x ? r : 999999999; }
static long thousandths( double const x ) { return x != x || std::fabs( x ) > 1e6 ? 999999999 : std::lround( x * 1000 ); }

struct Case { std::string f; long m, n, k; VL a, b, d; long s; };
static VL values( Operand & h, long ( *round )( double ) ) { VL r; for( P i = 0; i < h.cells(); ++i ) r.push_back( round( h.get( i ) ) ); return r; }
static void put( Operand & h, VL const & v ) { for( P i = 0; i < h.cells(); ++i ) h.set( i, i < P( v.size() ) ? double( v[ std::size_t( i ) ] ) : 3.0 ); }

static void record( Case const & c, bool const rounded, bool const eigen, long const kinds, Operand & d, Operand & a, Operand & b, std::function< double() > const & f, long const * const wrong )
{
  put( d, c.d ); put( a, c.a ); put( b, c.b );
  VL const was = values( d, exact );
  auto const round = rounded ? thousandths : exact;
  current() = c.f + " " + std::to_string( c.m ) + " " + std::to_string( c.n ) + " " + std::to_string( c.k ) + " " + J::list( c.a ) + J::list( c.b ) + " of kinds " + std::to_string( kinds );
  J( "begin" ).kv( "d", was ).emit();
  if( wrong )
  {
    bool const reported = attempt( [&]() { f(); } );
    J( "mismatch" ).kv( "f", c.f ).kv( "m", c.m ).kv( "n", c.n ).kv( "k", c.k ).kv( "sizes", VL( wrong, wrong + 6 ) ).kv( "reported", long( reported ) ).kv( "now", values( d, exact ) )
      .kv( "around", long( d.intact() && a.intact() && b.intact() ) ).emit();
    return;
  }
  double const ret = f();
  J( "call" ).kv( "f", c.f ).kv( "m", c.m ).kv( "n", c.n ).kv( "k", c.k ).kv( "a", c.a ).kv( "b", c.b ).kv( "s", c.s ).kv( "kinds", kinds )
    .kv( "now", values( d, round ) ).kv( "after", eigen ? values( b, thousandths ) : VL() ).kv( "ret", round( ret ) )
    .kv( "inputs", long( values( a, exact ) == c.a && ( eigen || values( b, exact ) == c.b ) ) )
    .kv( "around", long( d.intact() && a.intact() && b.intact() ) ).emit();
}
// One call. DT, AT: types of the entries of the destination and of the operands.
template< typename DT, typename AT, typename D, typename A, typename B, int KD, int KA, int KB, bool EIGEN, typename F >
void once( Case const & c, bool const rounded, F const & f, long const * const wrong )
{
  using BT = std::conditional_t< EIGEN, DT, AT >;
  Held< typename D::template Of< DT, KD >, DT > d( wrong ? wrong[ 0 ] : 0, wrong ? wrong[ 1 ] : 0 );
  Held< typename A::template Of< AT, KA >, AT > a( wrong ? wrong[ 2 ] : 0, wrong ? wrong[ 3 ] : 0 );
  Held< typename B::template Of< BT, KB >, BT > b( wrong ? wrong[ 4 ] : 0, wrong ? wrong[ 5 ] : 0 );
  record( c, rounded, EIGEN, KD * 100 + KA * 10 + KB, d, a, b, [&]() { return f( d.h, a.h, b.h, c.s ); }, wrong );
}

struct Entry { std::string key; std::vector< std::function< void( Case const & ) > > ways; std::function< void( Case const & ) > mismatches; };
static std::map< std::string, Entry > & table() { static auto * m = new std::map< std::string, Entry >; return *m; }
static std::string keyOf( std::string const & f, long m, long n, long k ) { return f + "/" + std::to_string( m ) + "/" + std::to_string( n ) + "/" + std::to_string( k ); }

template< typename D, typename A, typename B, bool EIGEN=false, typename F >
void enter( std::string const & name, P const m, P const n, P const k, bool const rounded, F const f )
{
  Entry & e = table()[ keyOf( name, m, n, k ) ];
#define WAY( DT, AT, KD, KA, KB ) e.ways.push_back( [=]( Case const & c ) { once< DT, AT, D, A, B, KD, KA, KB, EIGEN >( c, rounded, f, nullptr ); } )
#if VP_WAYS == 0
  WAY( double, double, C, C, C );
  WAY( double, double, COLUMN, C, VIEW );
  WAY( double, double, FIXED, WHOLE, COLUMN );
  if( !EIGEN ) { WAY( float, float, C, ROW, FIXED ); }
#else
  WAY( double, double, ROW, ROW, ROW );
  WAY( double, double, VIEW, COLUMN, WHOLE );
  WAY( double, double, WHOLE, FIXED, C );
  WAY( double, long, COLUMN, FIXED, ROW );
#endif
#if defined(LVARRAY_BOUNDS_CHECK)
  e.mismatches = [=]( Case const & c )
  {
    for( int w = 0; w < 6; ++w )
    {
      int const nd = w < 2 ? D::ND : w < 4 ? A::ND : B::ND;
      if( w % 2 >= nd ) continue;
      for( long const by : { 1, -1 } )
      {
        long wrong[ 6 ] = { 0, 0, 0, 0, 0, 0 };
        wrong[ w ] = by;
        once< double, double, D, A, B, ROW, ROW, ROW, EIGEN >( c, rounded, f, wrong );
        once< double, double, D, A, B, VIEW, VIEW, COLUMN, EIGEN >( c, rounded, f, wrong );
      }
    }
  };
#endif
}
// operations that return nothing, and that return something
#define VOID( CALL ) []( auto & d, auto const & a, auto const & b, long const s ) { auto && D = d.dst(); auto && A = a.src(); auto && B = b.src(); (void) D; (void) A; (void) B; (void) s; CALL; return 0.0; }
#define VALUE( CALL ) []( auto & d, auto const & a, auto const & b, long const s ) { auto && D = d.dst(); auto && A = a.src(); auto && B = b.src(); (void) D; (void) A; (void) B; (void) s; return double( CALL ); }
using N0 = None;

#if VP_PART == 0
template< P M > void vectors()
{
  enter< N0, V< M >, N0 >( "maxAbsoluteEntry", M, 1, 1, false, VALUE( t::maxAbsoluteEntry< M >( A ) ) );
  enter< N0, V< M >, N0 >( "l2NormSquared", M, 1, 1, false, VALUE( t::l2NormSquared< M >( A ) ) );
  enter< N0, V< M >, N0 >( "l2Norm", M, 1, 1, true, VALUE( t::l2Norm< M >( A ) ) );
  enter< V< M >, N0, N0 >( "fill", M, 1, 1, false, VOID( t::fill< M >( D, s ) ) );
  enter< V< M >, N0, N0 >( "scale", M, 1, 1, false, VOID( t::scale< M >( D, s ) ) );
  enter< V< M >, N0, N0 >( "addScalar", M, 1, 1, false, VOID( t::addScalar< M >( D, s ) ) );
  enter< V< M >, N0, N0 >( "normalize", M, 1, 1, true, VALUE( t::normalize< M >( D ) ) );
  enter< V< M >, V< M >, N0 >( "copy", M, 1, 1, false, VOID( t::copy< M >( D, A ) ) );
  enter< V< M >, V< M >, N0 >( "add", M, 1, 1, false, VOID( t::add< M >( D, A ) ) );
  enter< V< M >, V< M >, N0 >( "subtract", M, 1, 1, false, VOID( t::subtract< M >( D, A ) ) );
  enter< V< M >, V< M >, N0 >( "scaledCopy", M, 1, 1, false, VOID( t::scaledCopy< M >( D, A, s ) ) );
  enter< V< M >, V< M >, N0 >( "scaledAdd", M, 1, 1, false, VOID( t::scaledAdd< M >( D, A, s ) ) );
  enter< V< M >, V< M >, V< M > >( "hadamardProduct", M, 1, 1, false, VOID( t::hadamardProduct< M >( D, A, B ) ) );
  enter< N0, V< M >, V< M > >( "AiBi", M, 1, 1, false, VALUE( t::AiBi< M >( A, B ) ) );
}
static void enterAll()
{
  vectors< 1 >(); vectors< 2 >(); vectors< 3 >(); vectors< 4 >(); vectors< 6 >();
  enter< V< 3 >, V< 3 >, V< 3 > >( "crossProduct", 3, 1, 1, false, VOID( t::crossProduct( D, A, B ) ) );
}
#elif VP_PART == 1
template< P M, P N > void matrices()
{
  enter< X< M, N >, N0, N0 >( "fillMatrix", M, N, 1, false, VOID( ( t::fill< M, N >( D, s ) ) ) );
  enter< X< M, N >, N0, N0 >( "scaleMatrix", M, N, 1, false, VOID( ( t::scale< M, N >( D, s ) ) ) );
  enter< X< M, N >, X< M, N >, N0 >( "copyMatrix", M, N, 1, false, VOID( ( t::copy< M, N >( D, A ) ) ) );
  enter< X< M, N >, X< M, N >, N0 >( "addMatrix", M, N, 1, false, VOID( ( t::add< M, N >( D, A ) ) ) );
  enter< X< M, N >, X< M, N >, N0 >( "scaledCopyMatrix", M, N, 1, false, VOID( ( t::scaledCopy< M, N >( D, A, s ) ) ) );
  enter< X< M, N >, X< M, N >, N0 >( "scaledAddMatrix", M, N, 1, false, VOID( ( t::scaledAdd< M, N >( D, A, s ) ) ) );
  enter< X< M, N >, V< M >, V< N > >( "Rij_eq_AiBj", M, N, 1, false, VOID( ( t::Rij_eq_AiBj< M, N >( D, A, B ) ) ) );
  enter< X< M, N >, V< M >, V< N > >( "Rij_add_AiBj", M, N, 1, false, VOID( ( t::Rij_add_AiBj< M, N >( D, A, B ) ) ) );
  enter< V< M >, X< M, N >, V< N > >( "Ri_eq_AijBj", M, N, 1, false, VOID( ( t::Ri_eq_AijBj< M, N >( D, A, B ) ) ) );
  enter< V< M >, X< M, N >, V< N > >( "Ri_add_AijBj", M, N, 1, false, VOID( ( t::Ri_add_AijBj< M, N >( D, A, B ) ) ) );
  enter< V< M >, X< N, M >, V< N > >( "Ri_eq_AjiBj", M, N, 1, false, VOID( ( t::Ri_eq_AjiBj< M, N >( D, A, B ) ) ) );
  enter< V< M >, X< N, M >, V< N > >( "Ri_add_AjiBj", M, N, 1, false, VOID( ( t::Ri_add_AjiBj< M, N >( D, A, B ) ) ) );
  enter< X< M, N >, X< N, M >, N0 >( "transposeInto", M, N, 1, false, VOID( ( t::transpose< M, N >( D, A ) ) ) );
  enter< X< M, M >, X< M, N >, N0 >( "Rij_add_AikAjk", M, N, 1, false, VOID( ( t::Rij_add_AikAjk< M, N >( D, A ) ) ) );
  enter< X< M, M >, X< N, M >, N0 >( "Rij_eq_AkiAkj", M, N, 1, false, VOID( ( t::Rij_eq_AkiAkj< M, N >( D, A ) ) ) );
}
static void enterAll() { matrices< 2, 3 >(); matrices< 3, 2 >(); matrices< 3, 3 >(); matrices< 1, 4 >(); matrices< 2, 2 >(); }
#elif VP_PART == 2
template< P M, P N, P K > void products()
{
  enter< X< M, N >, X< M, K >, X< K, N > >( "Rij_eq_AikBkj", M, N, K, false, VOID( ( t::Rij_eq_AikBkj< M, N, K >( D, A, B ) ) ) );
  enter< X< M, N >, X< M, K >, X< K, N > >( "Rij_add_AikBkj", M, N, K, false, VOID( ( t::Rij_add_AikBkj< M, N, K >( D, A, B ) ) ) );
  enter< X< M, N >, X< M, K >, X< N, K > >( "Rij_eq_AikBjk", M, N, K, false, VOID( ( t::Rij_eq_AikBjk< M, N, K >( D, A, B ) ) ) );
  enter< X< M, N >, X< M, K >, X< N, K > >( "Rij_add_AikBjk", M, N, K, false, VOID( ( t::Rij_add_AikBjk< M, N, K >( D, A, B ) ) ) );
  enter< X< M, N >, X< K, M >, X< K, N > >( "Rij_eq_AkiBkj", M, N, K, false, VOID( ( t::Rij_eq_AkiBkj< M, N, K >( D, A, B ) ) ) );
  enter< X< M, N >, X< K, M >, X< K, N > >( "Rij_add_AkiBkj", M, N, K, false, VOID( ( t::Rij_add_AkiBkj< M, N, K >( D, A, B ) ) ) );
}
static void enterAll() { products< 2, 3, 4 >(); products< 3, 2, 2 >(); products< 3, 3, 3 >(); products< 1, 2, 3 >(); products< 4, 1, 2 >(); }
#else
template< P M > void anySquare()
{
  enter< X< M, M >, N0, N0 >( "transpose", M, 1, 1, false, VOID( t::transpose< M >( D ) ) );
  enter< X< M, M >, N0, N0 >( "addIdentity", M, 1, 1, false, VOID( t::addIdentity< M >( D, s ) ) );
  enter< N0, X< M, M >, N0 >( "trace", M, 1, 1, false, VALUE( t::trace< M >( A ) ) );
}
template< P M > void square()
{
  anySquare< M >();
  enter< S< M >, N0, N0 >( "symAddIdentity", M, 1, 1, false, VOID( t::symAddIdentity< M >( D, s ) ) );
  enter< N0, S< M >, N0 >( "symTrace", M, 1, 1, false, VALUE( t::symTrace< M >( A ) ) );
  enter< N0, X< M, M >, N0 >( "determinant", M, 1, 1, false, VALUE( t::determinant< M >( A ) ) );
  enter< N0, S< M >, N0 >( "symDeterminant", M, 1, 1, false, VALUE( t::symDeterminant< M >( A ) ) );
  enter< X< M, M >, N0, N0 >( "invertInPlace", M, 1, 1, true, VALUE( t::invert< M >( D ) ) );
  enter< X< M, M >, X< M, M >, N0 >( "invert", M, 1, 1, true, VALUE( t::invert< M >( D, A ) ) );
  enter< S< M >, N0, N0 >( "symInvertInPlace", M, 1, 1, true, VALUE( t::symInvert< M >( D ) ) );
  enter< S< M >, S< M >, N0 >( "symInvert", M, 1, 1, true, VALUE( t::symInvert< M >( D, A ) ) );
  enter< V< M >, S< M >, V< M > >( "Ri_eq_symAijBj", M, 1, 1, false, VOID( t::Ri_eq_symAijBj< M >( D, A, B ) ) );
  enter< V< M >, S< M >, V< M > >( "Ri_add_symAijBj", M, 1, 1, false, VOID( t::Ri_add_symAijBj< M >( D, A, B ) ) );
  enter< X< M, M >, S< M >, X< M, M > >( "Rij_eq_symAikBjk", M, 1, 1, false, VOID( t::Rij_eq_symAikBjk< M >( D, A, B ) ) );
  enter< S< M >, X< M, M >, S< M > >( "Rij_eq_AikSymBklAjl", M, 1, 1, false, VOID( t::Rij_eq_AikSymBklAjl< M >( D, A, B ) ) );
  enter< S< M >, V< M >, N0 >( "symRij_eq_AiAj", M, 1, 1, false, VOID( t::symRij_eq_AiAj< M >( D, A ) ) );
  enter< S< M >, V< M >, V< M > >( "symRij_eq_AiBj_plus_AjBi", M, 1, 1, false, VOID( t::symRij_eq_AiBj_plus_AjBi< M >( D, A, B ) ) );
  enter< S< M >, X< M, M >, N0 >( "denseToSymmetric", M, 1, 1, false, VOID( t::denseToSymmetric< M >( D, A ) ) );
  enter< X< M, M >, S< M >, N0 >( "symmetricToDense", M, 1, 1, false, VOID( t::symmetricToDense< M >( D, A ) ) );
  enter< V< M >, S< M >, N0 >( "symEigenvalues", M, 1, 1, true, VOID( t::symEigenvalues< M >( D, A ) ) );
}
#define BOTH( CALL ) []( auto & d, auto const & a, auto & b, long const ) { auto && D = d.dst(); auto && A = a.src(); auto && B = b.dst(); CALL; return 0.0; }
template< P M > void eigen() { enter< V< M >, S< M >, X< M, M >, true >( "symEigenvectors", M, 1, 1, true, BOTH( t::symEigenvectors< M >( D, B, A ) ) ); }
static void enterAll() { square< 2 >(); square< 3 >(); anySquare< 4 >(); eigen< 2 >(); eigen< 3 >(); }
#endif

int main( int argc, char ** argv )
{
  Args const args( argc, argv );
  installErrorHandler();
  enterAll();
  long path = args.seed;
  std::map< std::string, bool > seen;
  for( auto const & e : readScripts( args.script.c_str() ) )
  {
    Op const & o = e[ 0 ];
    Case const c{ o.text.at( "f" ), o.i( "m" ), o.i( "n" ), o.i( "k" ), o.v( "a" ), o.v( "b" ), o.v( "d" ), o.i( "s" ) };
    std::string const key = keyOf( c.f, c.m, c.n, c.k );
    auto const it = table().find( key );
    if( it == table().end() ) continue;
    Entry const & x = it->second;
    if( args.mode == "sizes" ) { if( x.mismatches && !seen[ key ] ) { seen[ key ] = true; x.mismatches( c ); } continue; }
    for( long w = 0; w < args.n; ++w ) x.ways[ std::size_t( path++ ) % x.ways.size() ]( c );
  }
  return finish();
}
