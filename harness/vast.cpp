// Conformance driver for arrays with more than 2^31 elements: sizes, strides and the positions every access path leads
// to. The elements are never touched, so the memory is only reserved. Traces: spec/VastTrace.tla.
// Compiled once per number of dimensions (VP_NDIM, 2 to 4).
#include "vp.hpp"
#include "vperr.hpp"
#include "nd.hpp"
using namespace vp;
static constexpr int N = VP_NDIM;

static std::string digits( long v )
{
  if( v < 0 ) return "[-1]";
  VL d;
  for( ; v > 0; v /= 10000 ) d.push_back( v % 10000 );
  return J::list( d );
}
static std::string join( std::vector< std::string > const & x )
{ std::string s = "["; for( std::size_t k = 0; k < x.size(); ++k ) s += ( k ? "," : "" ) + x[ k ]; return s + "]"; }
static std::string digits( VL const & v ) { std::vector< std::string > s; for( long const x : v ) s.push_back( digits( x ) ); return join( s ); }
static std::string digits( VVL const & v ) { std::vector< std::string > s; for( VL const & x : v ) s.push_back( digits( x ) ); return join( s ); }
template< typename S, int ND > VL sizesOf( S const & s ) { VL r; for( int k = 0; k < ND; ++k ) r.push_back( long( s.size( k ) ) ); return r; }
template< typename S, int ND > VL stridesOf( S const & s ) { VL r; for( int k = 0; k < ND; ++k ) r.push_back( long( s.stride( k ) ) ); return r; }

template< typename A, std::size_t ... I > void shape( A & a, VL const & d, std::index_sequence< I... > ) { a.resizeWithoutInitializationOrDestruction( d[ I ] ... ); }

template< typename PERM > struct Vast
{
  using T = char;
  using INDEX = std::ptrdiff_t;
  using A = LvArray::Array< T, N, PERM, INDEX, LvArray::MallocBuffer >;

  template< int ND, int USD > static void slice( VL const & prefix, LvArray::ArraySlice< T, ND, USD, INDEX > const s, T const * const base )
  {
    using SL = LvArray::ArraySlice< T, ND, USD, INDEX >;
    auto const sc = s.toSliceConst();
    J( "slice" ).raw( "prefix", digits( prefix ) ).raw( "shapes", digits( VVL{ sizesOf< SL, ND >( s ), sizesOf< decltype( sc ), ND >( sc ) } ) )
      .raw( "strides", digits( VVL{ stridesOf< SL, ND >( s ), stridesOf< decltype( sc ), ND >( sc ) } ) )
      .raw( "n", digits( long( s.size() ) ) ).raw( "start", digits( long( &call< INDEX, ND >( s, VL( ND, 0 ) ) - base ) ) ).emit();
  }
  template< int ND, int USD > static void deeper( VL prefix, VL const & x, LvArray::ArraySlice< T, ND, USD, INDEX > const s, T const * const base, std::true_type )
  {
    slice( prefix, s, base );
    prefix.push_back( x[ N - ND ] );
    deeper( prefix, x, s[ INDEX( x[ N - ND ] ) ], base, std::integral_constant< bool, ( ND > 2 ) >() );
  }
  template< int ND, int USD > static void deeper( VL const & prefix, VL const &, LvArray::ArraySlice< T, ND, USD, INDEX > const s, T const * const base, std::false_type ) { slice( prefix, s, base ); }

  static void run( VL const & dims, Rng & r, bool const checked )
  {
    VL const perm = PermList< PERM >::get();
    J b( "begin" );
    b.kv( "perm", perm ).raw( "dims", digits( dims ) );
    current() = b.str();
    b.emit();
    A a;
    shape( a, dims, std::make_index_sequence< N >() );
    if( r.chance( 30 ) ) { A t( std::move( a ) ); a = std::move( t ); }
    auto const v = a.toView();
    auto const vc = a.toViewConst();
    auto const s = a.toSlice();
    auto const sc = v.toSliceConst();
    decltype( a.toView() ) const copy( v );
    T const * const base = a.data();
    auto const pos = [base]( T const & x ) { return long( &x - base ); };
    J( "array" ).raw( "shapes", digits( VVL{ some( a.dims(), N ), some( vc.dims(), N ), some( copy.dims(), N ), sizesOf< A, N >( a ), sizesOf< decltype( s ), N >( s ) } ) )
      .raw( "strides", digits( VVL{ some( a.strides(), N ), some( vc.strides(), N ), some( copy.strides(), N ), stridesOf< decltype( sc ), N >( sc ) } ) )
      .raw( "ns", digits( VL{ long( a.size() ), long( v.size() ), long( vc.size() ), long( s.size() ), long( sc.size() ), long( a.end() - a.begin() ), long( vc.end() - vc.begin() ), long( copy.size() ) } ) )
      .raw( "capacity", digits( long( a.capacity() ) ) ).raw( "empty", a.empty() || vc.empty() ? "[true]" : "[false,false]" ).emit();
    for( int k = 0; k < 6; ++k )
    {
      VL x;
      for( long const d : dims ) x.push_back( k == 0 || r.chance( 30 ) ? d - 1 : k == 1 ? std::min( d - 1, 1l ) : r.chance( 20 ) ? 0 : long( r.next() % std::uint64_t( d ) ) );
      VL p;
      p.push_back( pos( call< INDEX, N >( a, x ) ) );
      p.push_back( pos( call< long long, N >( v, x ) ) );
      p.push_back( pos( call< INDEX, N >( vc, x ) ) );
      p.push_back( pos( call< std::uint64_t, N >( s, x ) ) );
      p.push_back( pos( call< INDEX, N >( sc, x ) ) );
      p.push_back( pos( Chain< N, 0 >::at( a, x ) ) );
      p.push_back( pos( Chain< N, 0 >::at( vc, x ) ) );
      p.push_back( pos( Chain< N, 0 >::at( sc, x ) ) );
      p.push_back( linear< INDEX, N >( a, x ) );
      p.push_back( linear< long long, N >( vc, x ) );
      p.push_back( linear< INDEX, N >( s, x ) );
      p.push_back( pos( Mixed< INDEX, N, 1 >::at( copy, x ) ) );
      J( "at" ).raw( "idx", digits( x ) ).raw( "paths", digits( p ) ).emit();
      if( k < 2 ) deeper( {}, x, a.toSlice(), base, std::true_type() );
      if( checked )
      {
        VL y = x;
        int const q = int( r.below( N ) );
        switch( r.below( 6 ) )
        {
          case 0: y[ q ] = dims[ q ]; break;
          case 1: y[ q ] += 4294967296l * r.range( 1, 3 ); break;
          case 2: y[ q ] += 2147483648l; break;
          case 3: y[ q ] -= 4294967296l; break;
          case 4: y[ q ] = -1; break;
          default: break;
        }
        bool const below = y[ q ] < 0;
        std::vector< std::string > e;
        auto const note = [&e]( bool const x ) { e.push_back( x ? "true" : "false" ); };
        note( attempt( [&]() { (void) &call< INDEX, N >( a, y ); } ) );
        note( attempt( [&]() { (void) &call< long long, N >( vc, y ); } ) );
        note( attempt( [&]() { (void) &call< INDEX, N >( s, y ); } ) );
        note( attempt( [&]() { (void) &Chain< N, 0 >::at( v, y ); } ) );
        note( attempt( [&]() { (void) linear< INDEX, N >( a, y ); } ) );
        note( attempt( [&]() { (void) linear< INDEX, N >( sc, y ); } ) );
        J( "guarded" ).kv( "below", below ).raw( "idx", digits( y ) ).raw( "refused", join( e ) ).emit();
      }
    }
  }
};

struct Run
{
  Rng & r;
  VL dims;
  bool checked;
  template< typename PERM > void run() { Vast< PERM >::run( dims, r, checked ); }
};

int main( int argc, char ** argv )
{
  Args a( argc, argv );
  installErrorHandler();
  Rng r( a.seed );
  for( long k = 0; k < a.n; ++k )
  {
    // the product is between 2^31 and 2^34; which dimension is the long one varies
    VL d( N, 1 );
    for( long n = 1; n < 2147483648l; )
    {
      int const q = int( r.below( N ) );
      long const room = 17179869184l / n, f = std::min( room, r.chance( 40 ) ? r.range( 2, 9 ) : r.chance( 50 ) ? r.range( 10, 3000 ) : r.range( 3000, 5000000 ) );
      d[ q ] *= f;
      n *= f;
    }
    Run f{ r, d, a.mode == "checked" };
    AllPerms::nth( k % AllPerms::count, f );
  }
  return finish();
}
