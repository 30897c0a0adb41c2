// Conformance driver for the sorting routines. Traces: spec/SortTrace.tla.
#include "vp.hpp"
#include "vperr.hpp"
#include "sortedArrayManipulation.hpp"
#include <deque>
#include <list>
#include <memory>
using namespace vp;
namespace sam = LvArray::sortedArrayManipulation;

// A value with a resource, so that a wrong move, a lost or a doubled value shows.
struct Str
{
  std::string s;
  long v() const { return s.empty() ? -7 : std::strtol( s.c_str() + 20, nullptr, 10 ); }
};
template< typename T > struct Val
{
  static T make( long const v ) { return T( v ); }
  static long get( T const & x ) { return long( x ); }
};
template<> struct Val< Str >
{
  static Str make( long const v ) { return Str{ "a-rather-long-prefix" + std::to_string( v ) }; }
  static long get( Str const & x ) { return x.v(); }
};
struct Big { long v; long pad[ 3 ]; };
template<> struct Val< Big >
{
  static Big make( long const v ) { return Big{ v, { v, v + 1, v + 2 } }; }
  static long get( Big const & x ) { return x.pad[ 0 ] == x.v && x.pad[ 1 ] == x.v + 1 && x.pad[ 2 ] == x.v + 2 ? x.v : -99; }
};
// Only movable: a sort may not copy.
struct Own
{
  std::unique_ptr< long > p;
};
template<> struct Val< Own >
{
  static Own make( long const v ) { Own o; o.p.reset( new long( v ) ); return o; }
  static long get( Own const & x ) { return x.p ? *x.p : -99; }
};

template< typename T > struct Cmp
{
  long div; bool desc;
  bool operator()( T const & a, T const & b ) const
  {
    long const x = Val< T >::get( a ) / div, y = Val< T >::get( b ) / div;
    return desc ? y < x : x < y;
  }
};

static constexpr long GUARD = 3, SENT = 777;
// Storage with sentinel values on both sides (no sanitizer) or exactly the values (sanitizer).
template< typename T > struct Range
{
  std::unique_ptr< T[] > mem;
  long n;
#if defined(VP_SANITIZED)
  static constexpr long g = 0;
#else
  static constexpr long g = GUARD;
#endif
  explicit Range( VL const & v ): mem( new T[ v.size() + 2 * g ] ), n( long( v.size() ) )
  {
    for( long i = 0; i < g; ++i ) { mem[ i ] = Val< T >::make( SENT + i ); mem[ g + n + i ] = Val< T >::make( SENT - i ); }
    for( long i = 0; i < n; ++i ) mem[ g + i ] = Val< T >::make( v[ i ] );
  }
  T * b() { return mem.get() + g; }
  T * e() { return b() + n; }
  bool outside() const
  {
    for( long i = 0; i < g; ++i ) if( Val< T >::get( mem[ i ] ) != SENT + i || Val< T >::get( mem[ g + n + i ] ) != SENT - i ) return false;
    return true;
  }
  VL get( long k = -1 ) const { VL r; for( long i = 0; i < ( k < 0 ? n : k ); ++i ) r.push_back( Val< T >::get( mem[ g + i ] ) ); return r; }
};

static J event( char const * const name, VL const & in, long const div, bool const desc, char const * const how )
{
  J j( name );
  j.kv( "how", how ).kv( "in", in ).kv( "div", div ).kv( "desc", desc );
  current() = j.str();
  return j;
}

template< typename T >
static void sortCase( VL const & in, long const div, bool const desc, char const * const type )
{
  Range< T > r( in );
  J j = event( "makeSorted", in, div, desc, type );
  sam::makeSorted( r.b(), r.e(), Cmp< T >{ div, desc } );
  j.kv( "out", r.get() ).kv( "outside", r.outside() ).emit();
}
template< typename T, typename U >
static void dualCase( VL const & in, long const div, bool const desc, char const * const type )
{
  Range< T > r( in );
  VL idx;
  for( std::size_t i = 1; i <= in.size(); ++i ) idx.push_back( long( i ) );
  Range< U > d( idx );
  J j = event( "dualSort", in, div, desc, type );
  Cmp< T > c{ div, desc };
  if( ( in.size() + div ) % 2 ) sam::dualSort( r.b(), r.e(), d.b(), c ); else sam::dualSort( r.b(), r.e(), d.b(), Cmp< T >{ div, desc } );
  j.kv( "out", r.get() ).kv( "data", d.get() ).kv( "outside", r.outside() && d.outside() ).emit();
}
template< typename T >
static void testCase( VL const & in, long const div, bool const desc, char const * const type )
{
  for( int k = 0; k < 2; ++k )
  {
    Range< T > r( in );
    J j = event( k ? "isSortedUnique" : "isSorted", in, div, desc, type );
    bool const ret = k ? sam::isSortedUnique( r.b(), r.e(), Cmp< T >{ div, desc } ) : sam::isSorted( r.b(), r.e(), Cmp< T >{ div, desc } );
    j.kv( "ret", ret ).kv( "out", r.get() ).kv( "outside", r.outside() ).emit();
  }
}
template< typename T >
static void uniqueCase( VL const & in, long const div, bool const desc, char const * const type )
{
  Range< T > r( in );
  J j = event( "makeSortedUnique", in, div, desc, type );
  long const n = long( sam::makeSortedUnique( r.b(), r.e(), Cmp< T >{ div, desc } ) );
  j.kv( "ret", n ).kv( "out", r.get( n < 0 || n > r.n ? 0 : n ) ).kv( "outside", r.outside() ).emit();
}
template< typename T >
static void removeCase( VL in, long const div, bool const desc, char const * const type )
{
  std::stable_sort( in.begin(), in.end(), Cmp< long >{ div, desc } );
  Range< T > r( in );
  J j = event( "removeDuplicates", in, div, desc, type );
  long const n = long( sam::removeDuplicates( r.b(), r.e(), Cmp< T >{ div, desc } ) );
  j.kv( "ret", n ).kv( "out", r.get( n < 0 || n > r.n ? 0 : n ) ).kv( "outside", r.outside() ).emit();
}
// Forward iterators and default comparators.
static void otherIterators( VL const & in )
{
  {
    std::list< int > l( in.begin(), in.end() );
    J j = event( "isSorted", in, 1, false, "list" );
    bool const ret = sam::isSorted( l.begin(), l.end() );
    j.kv( "ret", ret ).kv( "out", VL( l.begin(), l.end() ) ).kv( "outside", true ).emit();
    J k = event( "isSortedUnique", in, 1, false, "list" );
    bool const ret2 = sam::isSortedUnique( l.begin(), l.end() );
    k.kv( "ret", ret2 ).kv( "out", VL( l.begin(), l.end() ) ).kv( "outside", true ).emit();
    l.sort();
    VL const sorted( l.begin(), l.end() );
    J m = event( "removeDuplicates", sorted, 1, false, "list" );
    long const n = sam::removeDuplicates( l.begin(), l.end() );
    VL out( l.begin(), l.end() );
    out.resize( n < 0 || n > long( in.size() ) ? 0 : n );
    m.kv( "ret", n ).kv( "out", out ).kv( "outside", true ).emit();
  }
  {
    std::deque< long > d( in.begin(), in.end() );
    J j = event( "makeSorted", in, 1, false, "deque" );
    sam::makeSorted( d.begin(), d.end() );
    j.kv( "out", VL( d.begin(), d.end() ) ).kv( "outside", true ).emit();
  }
  {
    std::deque< long > d( in.begin(), in.end() );
    std::vector< int > ix;
    for( std::size_t i = 1; i <= in.size(); ++i ) ix.push_back( int( i ) );
    J j = event( "dualSort", in, 1, false, "deque and vector" );
    sam::dualSort( d.begin(), d.end(), ix.begin() );
    j.kv( "out", VL( d.begin(), d.end() ) ).kv( "data", VL( ix.begin(), ix.end() ) ).kv( "outside", true ).emit();
  }
  {
    std::vector< int > v( in.begin(), in.end() );
    J j = event( "makeSorted", in, 1, true, "greater" );
    sam::makeSorted( v.begin(), v.end(), sam::greater< int >() );
    j.kv( "out", VL( v.begin(), v.end() ) ).kv( "outside", true ).emit();
    std::vector< int > w( in.begin(), in.end() );
    J k = event( "makeSortedUnique", in, 1, false, "vector" );
    long const n = sam::makeSortedUnique( w.begin(), w.end() );
    VL out( w.begin(), w.end() );
    out.resize( n < 0 || n > long( in.size() ) ? 0 : n );
    k.kv( "ret", n ).kv( "out", out ).kv( "outside", true ).emit();
    std::vector< int > x( in.begin(), in.end() );
    std::vector< Str > ix;
    for( std::size_t i = 1; i <= in.size(); ++i ) ix.push_back( Val< Str >::make( long( i ) ) );
    J m = event( "dualSort", in, 1, true, "greater, strings" );
    sam::dualSort( x.data(), x.data() + x.size(), ix.data(), sam::greater< int >() );
    VL data;
    for( Str const & s : ix ) data.push_back( s.v() );
    m.kv( "out", VL( x.begin(), x.end() ) ).kv( "data", data ).kv( "outside", true ).emit();
  }
}

static void all( VL const & in, long const div, bool const desc, int const which )
{
  switch( which % 6 )
  {
    case 0: sortCase< long >( in, div, desc, "long" ); dualCase< int, long >( in, div, desc, "int,long" ); uniqueCase< int >( in, div, desc, "int" ); break;
    case 1: sortCase< Str >( in, div, desc, "string" ); dualCase< Str, int >( in, div, desc, "string,int" ); uniqueCase< Str >( in, div, desc, "string" ); break;
    case 2: dualCase< double, Str >( in, div, desc, "double,string" ); testCase< int >( in, div, desc, "int" ); removeCase< Str >( in, div, desc, "string" ); break;
    case 3: dualCase< Big, Big >( in, div, desc, "struct,struct" ); testCase< Str >( in, div, desc, "string" ); removeCase< long >( in, div, desc, "long" ); break;
    case 4: dualCase< long, Own >( in, div, desc, "long,movable" ); sortCase< Own >( in, div, desc, "movable" ); break;
    case 5: dualCase< Own, Own >( in, div, desc, "movable,movable" ); uniqueCase< Own >( in, div, desc, "movable" ); removeCase< Own >( in, div, desc, "movable" ); break;
  }
}

// The adversary of McIlroy ("A killer adversary for quicksort"): answers the comparisons so that every pivot is bad.
struct Adversary
{
  std::vector< int > val;
  int gas, nsolid = 0, candidate = 0;
  explicit Adversary( int const n ): val( n, n ), gas( n ) {}
  bool less( int const x, int const y )
  {
    if( val[ x ] == gas && val[ y ] == gas )
    { if( x == candidate ) val[ x ] = nsolid++; else val[ y ] = nsolid++; }
    if( val[ x ] == gas ) candidate = x; else if( val[ y ] == gas ) candidate = y;
    return val[ x ] < val[ y ];
  }
};
static void adversary( int const n, bool const desc )
{
  Adversary adv( n );
  std::vector< int > ids( n ), data( n );
  VL in;
  for( int i = 0; i < n; ++i ) { ids[ i ] = i; data[ i ] = i + 1; }
  J( "description" ).kv( "d", 0 ).kv( "sorted", true ).kv( "unique", true ).emit();
  current() = "dualSort against an adversary, n=" + std::to_string( n );
  Adversary * const a = &adv;
  sam::dualSort( ids.data(), ids.data() + n, data.data(), [a, desc]( int const x, int const y ) { return desc ? a->less( y, x ) : a->less( x, y ); } );
  // The answers determine an input; what the comparisons produced must be its sorted order.
  for( int i = 0; i < n; ++i ) in.push_back( adv.val[ i ] );
  VL out;
  for( int const x : ids ) out.push_back( adv.val[ x ] );
  J j( "dualSort" );
  j.kv( "how", "adversary" ).kv( "in", in ).kv( "div", 1 ).kv( "desc", desc ).kv( "out", out ).kv( "data", VL( data.begin(), data.end() ) ).kv( "outside", true ).emit();
  // And the same input again, as numbers.
  dualCase< int, int >( in, 1, desc, "adversarial input" );
  sortCase< int >( in, 1, desc, "adversarial input" );
}

int main( int argc, char ** argv )
{
  Args a( argc, argv );
  installErrorHandler();
  if( a.mode == "small" )
  {
    // every sequence over a few values, up to a length
    long const maxLen = a.len, keys = a.n;
    int which = 0;
    J( "begin" ).emit();
    for( int d = 0; d < 4; ++d )
    {
      sam::Description const x = sam::Description( d );
      J( "description" ).kv( "d", d ).kv( "sorted", sam::isSorted( x ) ).kv( "unique", sam::isUnique( x ) ).emit();
    }
    for( long n = 0; n <= maxLen; ++n )
    {
      VL v( n, 0 );
      while( true )
      {
        if( which % 50 == 0 ) J( "begin" ).emit();
        VL w = v;
        if( which % 2 ) for( long i = 0; i < n; ++i ) w[ i ] = w[ i ] * 100 + i;
        all( w, which % 2 ? 100 : 1, ( which / 3 ) % 2, which );
        if( which % 7 == 0 ) otherIterators( v );
        ++which;
        long i = 0;
        while( i < n && ++v[ i ] == keys ) v[ i++ ] = 0;
        if( i == n ) break;
      }
    }
    return finish();
  }
  Rng r( a.seed );
  if( a.mode == "adversary" )
  {
    for( long k = 0; k < a.n; ++k ) { J( "begin" ).emit(); adversary( int( r.range( 60, a.len ) ), r.chance( 40 ) ); }
    return finish();
  }
  for( long k = 0; k < a.n; ++k )
  {
    J( "begin" ).emit();
    long const n = r.chance( 30 ) ? r.range( 60, 70 ) : r.chance( 50 ) ? r.range( 0, 140 ) : r.range( 0, a.len );
    VL v( n );
    int const shape = int( r.below( 10 ) );
    long const keys = r.chance( 40 ) ? r.range( 1, 4 ) : r.range( 1, 1 + 2 * n );
    for( long i = 0; i < n; ++i )
    {
      switch( shape )
      {
        case 0: v[ i ] = i; break;
        case 1: v[ i ] = n - i; break;
        case 2: v[ i ] = i < n / 2 ? i : n - i; break;
        case 3: v[ i ] = i % 2 ? i : n - i; break;
        case 4: v[ i ] = ( i * 7 ) % ( n + 1 ); break;
        case 5: v[ i ] = i + ( r.chance( 10 ) ? r.below( 20 ) : 0 ); break;
        case 6: v[ i ] = i == n - 1 ? 0 : i + 1; break;   // the smallest last
        default: v[ i ] = r.below( keys ); break;
      }
    }
    bool const tagged = r.chance( 50 );
    if( tagged ) for( long i = 0; i < n; ++i ) v[ i ] = v[ i ] * 1000 + i;
    all( v, tagged ? 1000 : 1, r.chance( 40 ), int( k ) );
    if( r.chance( 20 ) && !tagged ) otherIterators( v );
  }
  return finish();
}
