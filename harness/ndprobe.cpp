// Conformance driver for multi-dimensional addressing: what position every access path of an array denotes.
// Traces: spec/NDAddrTrace.tla. Compiled once per number of dimensions (VP_NDIM).
#include "vp.hpp"
#include "vperr.hpp"
#include "nd.hpp"
using namespace vp;
static constexpr int N = VP_NDIM;

struct Cell { long a = 0; double b = 0; };      // an element that is not arithmetic

template< typename T > long num( T const & x ) { return long( x ); }

// Everything about one slice of an array. K leading indices are fixed.
template< typename INDEX, int ND, int USD, typename T, bool CAN = ( USD >= 0 ) > struct Contiguous
{
  static void put( J & j, LvArray::ArraySlice< T, ND, USD, INDEX > const & s, T const * const base )
  {
    bool data = true, range = true;
    long first = 0;
    VL order;
    bool const e1 = attempt( [&]() { first = s.dataIfContiguous() - base; } );
    bool const e2 = attempt( [&]() { for( T & x : s ) order.push_back( &x - base ); } );
    data = !e1; range = !e2;
    j.kv( "data", data ).kv( "range", range );
    if( data ) j.kv( "first", first );
    if( range ) j.kv( "order", order );
  }
};
template< typename INDEX, int ND, int USD, typename T > struct Contiguous< INDEX, ND, USD, T, false >
{ static void put( J &, LvArray::ArraySlice< T, ND, USD, INDEX > const &, T const * ) {} };

struct Collect
{
  template< typename T > void operator()( T & x ) const { out->push_back( &x - static_cast< T const * >( base ) ); }
  VL * out; void const * base;
};

template< typename INDEX, typename T, int ND, int USD >
static void slice( VL const & perm, VL const & dims, VL const & prefix, LvArray::ArraySlice< T, ND, USD, INDEX > const s, T const * const base )
{
  J j( "slice" );
  VL sizes, strides;
  for( int k = 0; k < ND; ++k ) { sizes.push_back( long( s.size( k ) ) ); strides.push_back( long( s.stride( k ) ) ); }
  j.kv( "perm", perm ).kv( "dims", dims ).kv( "prefix", prefix ).kv( "sizes", sizes ).kv( "strides", strides ).kv( "n", long( s.size() ) ).kv( "contiguous", s.isContiguous() ).kv( "usd", USD );
  current() = j.str();
  Contiguous< INDEX, ND, USD, T >::put( j, s, base );
  VVL paths( 5 ), idx;
  LvArray::ArraySlice< T const, ND, USD, INDEX > const sc = s.toSliceConst(), si = s;
  T * const origin = const_cast< T * >( base );
  long const offset = total( sizes ) > 0 ? &call< INDEX, ND >( s, VL( ND, 0 ) ) - origin : 0;
  allIndices( sizes, [&]( VL const & x )
  {
    paths[ 0 ].push_back( &call< INDEX, ND >( s, x ) - origin );
    paths[ 1 ].push_back( &Chain< ND, 0 >::at( s, x ) - origin );
    paths[ 2 ].push_back( &call< long, ND >( sc, x ) - origin );
    paths[ 3 ].push_back( offset + linear< int, ND >( s, x ) );
    paths[ 4 ].push_back( &Chain< ND, 0 >::at( si, x ) - origin );
  } );
  VL each;
  LvArray::forValuesInSlice( s, Collect{ &each, base } );
  VL each2;
  LvArray::forValuesInSliceWithIndices( s, [&]( T & x, auto const ... i ) { each2.push_back( &x - base ); idx.push_back( VL{ long( i ) ... } ); } );
  paths.push_back( each );
  paths.push_back( each2 );
  j.kv( "paths", paths ).kv( "idx", idx );
  j.emit();
}
// Sub-slices of s by fixing one more leading index.
template< typename INDEX, typename T, int ND, int USD > struct Deeper
{
  static void run( VL const & perm, VL const & dims, VL const & prefix, LvArray::ArraySlice< T, ND, USD, INDEX > const s, T const * const base, Rng & r )
  {
    slice< INDEX >( perm, dims, prefix, s, base );
    if( s.size( 0 ) <= 0 ) return;
    long const i = r.below( long( s.size( 0 ) ) );
    VL p = prefix;
    p.push_back( i );
    Deeper< INDEX, T, ND - 1, USD - 1 >::run( perm, dims, p, s[ INDEX( i ) ], base, r );
  }
};
template< typename INDEX, typename T, int USD > struct Deeper< INDEX, T, 1, USD >
{
  static void run( VL const & perm, VL const & dims, VL const & prefix, LvArray::ArraySlice< T, 1, USD, INDEX > const s, T const * const base, Rng & )
  { slice< INDEX >( perm, dims, prefix, s, base ); }
};

template< typename A, int ND > struct Sum
{
  static void put( J & j, A & a, VL const & dims )
  {
    VL rest( dims.begin() + 1, dims.end() );
    LvArray::Array< long, ND - 1, typename std::conditional< ND == 2, camp::idx_seq< 0 >, typename std::conditional< ND == 3, camp::idx_seq< 1, 0 >, typename std::conditional< ND == 4, camp::idx_seq< 1, 2, 0 >, camp::idx_seq< 3, 0, 2, 1 > >::type >::type >::type, typename A::IndexType, LvArray::MallocBuffer > dst;
    resizeAll< typename A::IndexType, ND - 1 >( dst, rest );
    for( long & x : dst ) x = 5;
    for( long k = 0; k < long( a.size() ); ++k ) a.data()[ k ] = k;
    LvArray::sumOverFirstDimension( a.toSliceConst(), dst.toSlice() );
    VL sums;
    allIndices( rest, [&]( VL const & x ) { sums.push_back( call< long, ND - 1 >( dst, x ) ); } );
    j.kv( "sums", sums );
  }
};
template< typename A > struct Sum< A, 1 >
{
  static void put( J & j, A & a, VL const & )
  {
    for( long k = 0; k < long( a.size() ); ++k ) a.data()[ k ] = k;
    long s = 5;
    LvArray::sumOverFirstDimension( a.toSliceConst(), s );
    j.kv( "sums", VL{ s } );
  }
};

template< typename PERM, typename INDEX, typename T >
struct Probe
{
  using A = LvArray::Array< T, N, PERM, INDEX, LvArray::MallocBuffer >;
  static void put( J & j, A & a, VL const & dims, VL & each )
  {
    auto const v = a.toView();
    auto const vc = a.toViewConst();
    LvArray::ArrayView< T const, N, A::USD, INDEX, LvArray::MallocBuffer > const vi = v;
    auto const nv = a.toNestedView();
    auto const nvc = a.toNestedViewConst();
    auto const s = a.toSlice();
    auto const sc = a.toSliceConst();
    LvArray::ArraySlice< T, N, A::USD, INDEX > const si = a;
    LvArray::ArraySlice< T const, N, A::USD, INDEX > const vsc = v.toSliceConst();
    decltype( a.toView() ) const copy( v );
    T const * const b = a.data();
    VVL shapes = { some( a.dims(), N ), some( v.dims(), N ), some( vc.dims(), N ), some( nv.dims(), N ), some( nvc.dims(), N ), some( copy.dims(), N ), some( vi.dims(), N ) };
    VVL strides = { some( a.strides(), N ), some( v.strides(), N ), some( vc.strides(), N ), some( nv.strides(), N ), some( nvc.strides(), N ), some( copy.strides(), N ), some( vi.strides(), N ) };
    VL sizes;
    for( int k = 0; k < N; ++k ) sizes.push_back( long( a.size( k ) ) );
    shapes.push_back( sizes );
    sizes.clear();
    for( int k = 0; k < N; ++k ) sizes.push_back( long( vc.size( k ) ) );
    shapes.push_back( sizes );
    sizes.clear();
    for( int k = 0; k < N; ++k ) sizes.push_back( long( s.size( k ) ) );
    shapes.push_back( sizes );
    VL st;
    for( int k = 0; k < N; ++k ) st.push_back( long( sc.stride( k ) ) );
    strides.push_back( st );
    j.kv( "shapes", shapes ).kv( "strides", strides );
    j.kv( "ns", VL{ long( a.size() ), long( v.size() ), long( vc.size() ), long( nvc.size() ), long( s.size() ), long( a.end() - a.begin() ), long( v.end() - v.begin() ) } );
    j.kv( "empty", VL{ a.empty(), v.empty(), vc.empty() } );
    j.kv( "usd", A::USD ).kv( "capacity", long( a.capacity() ) );
    VVL paths( 15 );
    auto const pos = [b]( T const & x ) { return long( &x - b ); };
    allIndices( dims, [&]( VL const & x )
    {
      int k = 0;
      paths[ k++ ].push_back( pos( call< INDEX, N >( a, x ) ) );
      paths[ k++ ].push_back( pos( call< int, N >( v, x ) ) );
      paths[ k++ ].push_back( pos( call< long long, N >( vc, x ) ) );
      paths[ k++ ].push_back( pos( call< short, N >( nv, x ) ) );
      paths[ k++ ].push_back( pos( call< INDEX, N >( nvc, x ) ) );
      paths[ k++ ].push_back( pos( Chain< N, 0 >::at( a, x ) ) );
      paths[ k++ ].push_back( pos( Chain< N, 0 >::at( vc, x ) ) );
      paths[ k++ ].push_back( pos( call< INDEX, N >( s, x ) ) );
      paths[ k++ ].push_back( pos( Chain< N, 0 >::at( sc, x ) ) );
      paths[ k++ ].push_back( linear< INDEX, N >( a, x ) );
      paths[ k++ ].push_back( linear< long, N >( vc, x ) );
      paths[ k++ ].push_back( linear< INDEX, N >( sc, x ) );
      paths[ k++ ].push_back( pos( Mixed< INDEX, N, ( N > 1 ? 1 : 0 ) >::at( a, x ) ) );
      paths[ k++ ].push_back( pos( Mixed< int, N, ( N > 2 ? 2 : 0 ) >::at( copy, x ) ) );
      paths[ k++ ].push_back( pos( call< INDEX, N >( si, x ) ) );
      (void) vsc;
    } );
    LvArray::forValuesInSlice( sc, [&]( T const & x ) { each.push_back( &x - b ); } );
    paths.push_back( each );
    j.kv( "paths", paths );
  }
  // An array of arrays seen through the nested view types.
  static void nested( VL const & perm, VL const & dims, std::false_type ) { (void) perm; (void) dims; }
  static void nested( VL const & perm, VL const & dims, std::true_type )
  {
    using I = LvArray::Array< long, 1, camp::idx_seq< 0 >, INDEX, LvArray::MallocBuffer >;
    LvArray::Array< I, N, PERM, INDEX, LvArray::MallocBuffer > o;
    resizeAll< INDEX, N >( o, dims );
    for( long k = 0; k < long( o.size() ); ++k ) { o.data()[ k ].resize( k % 3 + 1 ); for( long q = 0; q <= k % 3; ++q ) o.data()[ k ][ q ] = 10 * k + q; }
    auto const nv = o.toNestedView();
    auto const nc = o.toNestedViewConst();
    VVL inner;
    VVL paths( 3 );
    char const * const b = reinterpret_cast< char const * >( o.data() );
    allIndices( dims, [&]( VL const & x )
    {
      auto const & c = call< INDEX, N >( nv, x );
      auto const & d = call< INDEX, N >( nc, x );
      paths[ 0 ].push_back( ( reinterpret_cast< char const * >( &c ) - b ) / long( sizeof( I ) ) );
      paths[ 1 ].push_back( ( reinterpret_cast< char const * >( &d ) - b ) / long( sizeof( I ) ) );
      paths[ 2 ].push_back( ( reinterpret_cast< char const * >( &call< INDEX, N >( o, x ) ) - b ) / long( sizeof( I ) ) );
      VL y;
      for( long q = 0; q < long( d.size() ); ++q ) y.push_back( q % 2 ? c[ INDEX( q ) ] : d[ INDEX( q ) ] );
      inner.push_back( y );
    } );
    J( "nested" ).kv( "perm", perm ).kv( "dims", dims ).kv( "paths", paths ).kv( "inner", inner ).emit();
  }
  static void run( VL const & dims, Rng & r )
  {
    VL const perm = PermList< PERM >::get();
    J b( "begin" );
    b.kv( "perm", perm ).kv( "dims", dims );
    current() = b.str();
    b.emit();
    A a;
    int const form = int( r.below( 3 ) );
    if( form == 0 ) resizeAll< INDEX, N >( a, dims );
    else if( form == 1 ) a.resize( N, dims.data() );
    else { std::unique_ptr< A > t( make< A, N, INDEX >( dims ) ); a = std::move( *t ); }
    J j( "array" );
    j.kv( "perm", perm ).kv( "dims", dims );
    current() = j.str();
    VL each;
    put( j, a, dims, each );
    sums( j, a, dims, std::is_same< T, long >() );
    j.emit();
    Deeper< INDEX, T, N, A::USD >::run( perm, dims, {}, a.toSlice(), a.data(), r );
    nested( perm, dims, std::integral_constant< bool, ( N < 4 ) && std::is_same< T, long >::value >() );
  }
  static void sums( J & j, A & a, VL const & dims, std::true_type ) { Sum< A, N >::put( j, a, dims ); }
  static void sums( J &, A &, VL const &, std::false_type ) {}
};

struct Run
{
  Rng & r;
  long kind;
  VL dims;
  template< typename PERM > void run()
  {
    if( kind == 0 ) Probe< PERM, std::ptrdiff_t, long >::run( dims, r );
#if VP_NDIM < 4
    else if( kind == 1 ) Probe< PERM, int, Cell >::run( dims, r );
#endif
    else Probe< PERM, int, long >::run( dims, r );
  }
};

int main( int argc, char ** argv )
{
  Args a( argc, argv );
  installErrorHandler();
  Rng r( a.seed );
  if( a.mode == "all" )
  {
    // every extent in 0..len in every dimension, for every permutation
    for( long p = 0; p < AllPerms::count; ++p )
    {
      VL d( N, 0 );
      do { Run f{ r, ( p + total( d ) ) % 3, d }; AllPerms::nth( p, f ); } while( nextIndex( d, VL( N, a.len + 1 ) ) );
    }
  }
  else for( long k = 0; k < a.n; ++k )
  {
    VL d;
    for( int q = 0; q < N; ++q ) d.push_back( r.chance( 8 ) ? 0 : r.chance( 20 ) ? 1 : r.range( 2, N > 3 ? 4 : N == 3 ? 6 : N == 2 ? 11 : 60 ) );
    Run f{ r, r.below( 3 ), d };
    AllPerms::nth( k % AllPerms::count, f );
  }
  return finish();
}
