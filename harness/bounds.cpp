// Conformance driver for checked calls with arguments in and out of range. Traces: spec/BoundsTrace.tla.
// VP_PART: 0 multidimensional arrays, 1 one-dimensional and sorted arrays and buffers, 2 arrays of arrays and of sets, 3 patterns and matrices
#include "vp.hpp"
#include "vperr.hpp"
#include "nd.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
#include <list>
#include <memory>
using namespace vp;
using IDX = std::ptrdiff_t;
template< typename T > using BUF = LvArray::MallocBuffer< T >;

struct Is { VL dims; VVL rows; VL caps; long cols = 0, most = 0; };
static std::string text( VVL const & x ) { std::string s = "["; for( std::size_t i = 0; i < x.size(); ++i ) s += ( i ? "," : "" ) + J::list( x[ i ] ); return s + "]"; }
static std::string text( Is const & s )
{
  return "{\"dims\":" + J::list( s.dims ) + ",\"rows\":" + text( s.rows ) + ",\"caps\":" + J::list( s.caps ) + ",\"cols\":" + std::to_string( s.cols )
         + ",\"most\":" + std::to_string( s.most ) + "}";
}
static std::string text( Op const & c )
{
  std::string s = "{\"op\":\"" + c.name + "\"";
  for( auto const & kv : c.args )
  {
    bool const many = kv.first == "idx" || kv.first == "dims" || kv.first == "vs" || kv.first == "lens";
    s += ",\"" + kv.first + "\":" + ( many ? J::list( kv.second ) : std::to_string( kv.second.empty() ? 0 : kv.second[ 0 ] ) );
  }
  for( auto const & kv : c.text ) s += ",\"" + kv.first + "\":\"" + kv.second + "\"";
  return s + "}";
}
static long volatile sink = 0;
template< typename X > static void use( X const & x ) { sink = sink + long( x ); }
static std::vector< int > ints( VL const & v ) { return std::vector< int >( v.begin(), v.end() ); }
static bool atIs( Op const & c, char const * const k, char const * const v ) { auto const it = c.text.find( k ); return it != c.text.end() && it->second == v; }
static void unknown( Op const & c ) { fprintf( stderr, "unknown operation %s\n", c.str().c_str() ); _exit( 3 ); }

struct Subject
{
  virtual ~Subject() = default;
  virtual Is is() const = 0;
  virtual bool can( Op const & ) const { return true; }
  virtual bool wide() const { return true; }     // positions have 64 bits
  virtual void call( Op const & c, long path ) = 0;
};
// ------------------------------------------------------------------------------------------------ multidimensional arrays
#if VP_PART == 0
template< int D > struct Drop { template< typename S, typename F > static void to( S const & s, int const depth, F && f ) { if( depth == 0 ) { f( s ); return; } auto const t = s[ 0 ]; Drop< D - 1 >::to( t, depth - 1, f ); } };
template<> struct Drop< 1 > { template< typename S, typename F > static void to( S const & s, int, F && f ) { f( s ); } };
template< typename IDXT, typename P, int N > struct Nd : Subject
{
  using A = LvArray::Array< int, N, P, IDXT, BUF >;
  A a;
  bool wide() const override { return sizeof( IDXT ) == 8; }
  explicit Nd( VL const & dims )
  {
    resizeAll< IDXT, N >( a, dims );
    int k = 0;
    allIndices( dims, [&]( VL const & x ) { call_( a, x ) = ++k; } );
  }
  static int & call_( A const & a, VL const & x ) { return vp::call< IDXT, N >( a, x ); }
  Is is() const override
  {
    Is s;
    for( int d = 0; d < N; ++d ) s.dims.push_back( long( a.size( d ) ) );
    s.rows.push_back( {} );
    allIndices( s.dims, [&]( VL const & x ) { s.rows[ 0 ].push_back( call_( a, x ) ); } );
    s.caps.push_back( long( a.capacity() ) );
    return s;
  }
  bool can( Op const & c ) const override
  {
    for( long k = 0; k < c.i( "depth" ); ++k ) if( a.size( int( k ) ) == 0 ) return false;
    return true;
  }
  template< std::size_t ... I > void dimension( VL const & d, std::index_sequence< I... > ) { a.template resizeDimension< IDXT( N - 1 - I ) ... >( d[ N - 1 - I ] ... ); }
  template< std::size_t ... I > void quick( VL const & d, std::index_sequence< I... > )
  { a.resizeWithoutInitializationOrDestruction( d[ I ] ... ); for( IDXT k = 0; k < a.size(); ++k ) a.data()[ k ] = int( k ); }
  template< typename F > void each( long const path, F && f )
  {
    switch( path % 6 )
    {
      case 0: f( a ); break;
      case 1: f( a.toView() ); break;
      case 2: f( a.toViewConst() ); break;
      case 3: f( a.toSlice() ); break;
      case 4: f( a.toSliceConst() ); break;
      default: f( a.toNestedViewConst() ); break;
    }
  }
  void call( Op const & c, long const path ) override
  {
    VL const x = c.v( "idx" ), d = c.v( "dims" );
    long const how = c.i( "how" ), n = c.i( "d" ), l = c.i( "n" );
    if( c.name == "at" ) each( path, [&]( auto const & v ) { use( how ? Chain< N, 0 >::at( v, x ) : vp::call< IDXT, N >( v, x ) ); } );
    else if( c.name == "linear" ) each( path, [&]( auto const & v ) { use( linear< IDXT, N >( v, x ) ); } );
    else if( c.name == "extent" && how == 0 ) each( path % 3, [&]( auto const & v ) { use( v.size( int( n ) ) ); } );
    else if( c.name == "extent" ) Drop< N >::to( a.toSlice(), int( c.i( "depth" ) ), [&]( auto const & s ) { use( s.size( int( n ) ) ); } );
    else if( c.name == "step" ) Drop< N >::to( a.toSliceConst(), int( c.i( "depth" ) ), [&]( auto const & s ) { use( s.stride( int( n ) ) ); } );
    else if( c.name == "resizeIndex" ) a.setSingleParameterResizeIndex( int( n ) );
    else if( c.name == "reshape" && how == 0 ) resizeAll< long, N >( a, d );
    else if( c.name == "reshape" && how == 1 ) quick( d, std::make_index_sequence< N >() );
    else if( c.name == "reshape" ) dimension( d, std::make_index_sequence< N >() );
    else if( c.name == "manyDims" ) a.resize( int( d.size() ), d.data() );
    else if( c.name == "length" ) { if( how ) a.resizeDefault( IDXT( l ), 7 ); else a.resize( IDXT( l ) ); }
    else unknown( c );
  }
};
static Subject * build( Op const & s, long const path )
{
  VL const d = s.v( "dims" );
  switch( d.size() )
  {
    case 1: if( path % 2 ) return new Nd< int, camp::idx_seq< 0 >, 1 >( d ); else return new Nd< long, camp::idx_seq< 0 >, 1 >( d );
    case 2: if( path % 2 ) return new Nd< long, camp::idx_seq< 1, 0 >, 2 >( d ); else return new Nd< int, camp::idx_seq< 0, 1 >, 2 >( d );
    case 3: if( path % 2 ) return new Nd< IDX, camp::idx_seq< 2, 0, 1 >, 3 >( d ); else return new Nd< short, camp::idx_seq< 0, 1, 2 >, 3 >( d );
    default: if( path % 2 ) return new Nd< IDX, camp::idx_seq< 3, 1, 0, 2 >, 4 >( d ); else return new Nd< int, camp::idx_seq< 0, 1, 2, 3 >, 4 >( d );
  }
}
#elif VP_PART == 1
// ------------------------------------------------------------------------------------------------ one-dimensional arrays
struct Seq : Subject
{
  LvArray::Array< int, 1, camp::idx_seq< 0 >, IDX, BUF > a;
  explicit Seq( long const n ) { for( long k = 0; k < n; ++k ) a.emplace_back( int( 2 * k + 1 ) ); }
  Is is() const override { Is s; s.dims = { long( a.size() ) }; s.rows.push_back( {} ); for( int const x : a ) s.rows[ 0 ].push_back( x ); s.caps = { long( a.capacity() ) }; return s; }
  void call( Op const & c, long const path ) override
  {
    long const p = c.i( "p" ), n = c.i( "n" ), how = c.i( "how" );
    std::vector< int > const vs( std::max( 0L, n ), 50 );
    if( c.name == "insert" && how == 0 && n == 1 ) a.emplace( IDX( p ), 51 );
    else if( c.name == "insert" ) { if( path % 2 ) a.insert( IDX( p ), vs.begin(), vs.end() ); else { std::list< int > const l( vs.begin(), vs.end() ); a.insert( IDX( p ), l.begin(), l.end() ); } }
    else if( c.name == "erase" ) a.erase( IDX( p ) );
    else if( c.name == "pop" ) a.pop_back();
    else if( c.name == "length" ) { if( how ) a.resizeDefault( IDX( n ), 7 ); else a.resize( IDX( n ) ); }
    else unknown( c );
  }
};
struct Sorted : Subject
{
  LvArray::SortedArray< int, IDX, BUF > a;
  explicit Sorted( long const n ) { for( long k = 0; k < n; ++k ) a.insert( int( 2 * k + 1 ) ); }
  Is is() const override { Is s; s.dims = { long( a.size() ) }; s.rows.push_back( {} ); for( int const x : a ) s.rows[ 0 ].push_back( x ); s.caps = { 0 }; return s; }
  void call( Op const & c, long const path ) override
  {
    IDX const p = c.i( "p" );
    std::vector< int > const vs = ints( c.v( "vs" ) );
    if( c.name == "element" ) switch( c.i( "how" ) )
    {
      case 0: use( a[ p ] ); break;
      case 1: use( a( p ) ); break;
      case 2: use( a.toView()[ p ] ); break;
      case 3: use( a.toView()( p ) ); break;
      case 4: use( a.toSlice()[ p ] ); break;
      default: use( a.toSlice()( p ) ); break;
    }
    else if( c.name == "include" ) { if( path % 2 ) a.insert( vs.begin(), vs.end() ); else { std::list< int > const l( vs.begin(), vs.end() ); a.insert( l.begin(), l.end() ); } }
    else if( c.name == "exclude" ) { if( path % 2 ) a.remove( vs.begin(), vs.end() ); else a.remove( vs.data(), vs.data() + vs.size() ); }
    else unknown( c );
  }
};
// ------------------------------------------------------------------------------------------------ buffers whose size is kept elsewhere
struct Buffer : Subject
{
  BUF< int > b{ true };
  long const n;
  explicit Buffer( long const cap ): n( cap ) { LvArray::bufferManipulation::setCapacity( b, 0, LvArray::MemorySpace::host, cap ); for( long k = 0; k < cap; ++k ) b[ k ] = int( 2 * k + 1 ); }
  ~Buffer() override { b.free(); }
  Is is() const override { Is s; s.rows.push_back( {} ); for( long k = 0; k < n; ++k ) s.rows[ 0 ].push_back( b[ k ] ); s.caps = { long( b.capacity() ) }; return s; }
  bool can( Op const & c ) const override { return b.capacity() == n || c.name == "bufferCheck"; }
  void call( Op const & c, long const path ) override
  {
    using namespace LvArray;
    long const size = c.i( "n" ), p = c.i( "p" ), how = c.i( "how" );
    if( c.name == "bufferCheck" ) bufferManipulation::check( b, size );
    else if( c.name == "bufferInsert" && how == 0 ) bufferManipulation::checkInsert( b, size, p );
    else if( c.name == "bufferInsert" && how == 1 ) bufferManipulation::emplace( b, size, p, 77 );
    else if( c.name == "bufferInsert" ) { int const v[ 2 ] = { 71, 72 }; bufferManipulation::insert( b, size, p, v, v + 2 ); }
    else if( c.name == "bufferErase" ) bufferManipulation::erase( b, size, p );
    else unknown( c );
    (void) path;
  }
};
static Subject * build( Op const & s, long )
{
  std::string const & kind = s.text.at( "kind" );
  long const n = s.v( "lens" )[ 0 ];
  if( kind == "seq" ) return new Seq( n );
  if( kind == "set" ) return new Sorted( n );
  return new Buffer( n );
}
#elif VP_PART == 2
// ------------------------------------------------------------------------------------------------ arrays of arrays
template< typename A > static Is rowsOf( A const & a )
{
  Is s;
  auto const v = a.toViewConst();
  for( IDX i = 0; i < IDX( v.size() ); ++i ) { s.rows.push_back( {} ); for( int const x : v[ i ] ) s.rows.back().push_back( x ); }
  return s;
}
struct Rows : Subject
{
  using A = LvArray::ArrayOfArrays< int, IDX, BUF >;
  A a;
  Rows( VL const & lens, VL const & caps )
  {
    for( std::size_t i = 0; i < lens.size(); ++i )
    {
      a.appendArray( 0 );
      a.setCapacityOfArray( IDX( i ), caps[ i ] );
      for( long k = 0; k < lens[ i ]; ++k ) a.emplaceBack( IDX( i ), int( 2 * k + 1 ) );
    }
  }
  Is is() const override { Is s = rowsOf( a ); for( IDX i = 0; i < a.size(); ++i ) s.caps.push_back( long( a.capacityOfArray( i ) ) ); return s; }
  template< typename V > static void look( V const & v, Op const & c )
  {
    IDX const i = c.i( "i" ), j = c.i( "j" );
    long const how = c.i( "how" );
    if( c.name == "value" ) { if( how ) use( v[ i ][ j ] ); else use( v( i, j ) ); }
    else if( how == 0 ) use( v.sizeOfArray( i ) );
    else if( how == 1 ) use( v.capacityOfArray( i ) );
    else use( v[ i ].size() );
  }
  template< typename V > static bool edit( V & v, Op const & c, long const path )
  {
    IDX const i = c.i( "i" ), j = c.i( "j" ), n = c.i( "n" );
    std::vector< int > const vs( std::size_t( n < 0 ? 0 : n ), 60 );
    std::list< int > const ls( vs.begin(), vs.end() );
    if( c.name == "append" && c.i( "how" ) == 0 ) v.emplaceBack( i, 61 );
    else if( c.name == "append" ) { if( path % 2 ) v.appendToArray( i, vs.begin(), vs.end() ); else v.appendToArray( i, ls.begin(), ls.end() ); }
    else if( c.name == "insertInto" && c.i( "how" ) == 1 ) v.emplace( i, j, 62 );
    else if( c.name == "insertInto" ) { if( path % 2 ) v.insertIntoArray( i, j, vs.begin(), vs.end() ); else v.insertIntoArray( i, j, ls.begin(), ls.end() ); }
    else if( c.name == "eraseFrom" ) { if( n == 1 && path % 2 ) v.eraseFromArray( i, j ); else v.eraseFromArray( i, j, n ); }
    else return false;
    return true;
  }
  void call( Op const & c, long const path ) override
  {
    IDX const i = c.i( "i" ), n = c.i( "n" );
    long const how = c.i( "how" );
    if( c.name == "row" && how == 3 ) a.eraseArray( i );
    else if( c.name == "row" && how == 4 ) a.clearArray( i );
    else if( c.name == "row" || c.name == "value" )
    {
      if( atIs( c, "via", "owner" ) ) look( a, c );
      else if( atIs( c, "via", "view" ) ) look( a.toView(), c );
      else if( atIs( c, "via", "viewSizes" ) ) look( a.toViewConstSizes(), c );
      else look( a.toViewConst(), c );
    }
    else if( c.name == "appendAtomic" ) a.toView().emplaceBackAtomic< RAJA::seq_atomic >( i, 63 );
    else if( atIs( c, "via", "owner" ) ) { if( !edit( a, c, path ) ) unknown( c ); }
    else if( atIs( c, "via", "view" ) ) { auto const v = a.toView(); if( !edit( v, c, path ) ) unknown( c ); }
    else if( c.name == "newRow" ) { std::vector< int > const vs( std::size_t( n ), 64 ); a.insertArray( i, vs.begin(), vs.end() ); }
    else if( c.name == "rowLength" ) { if( how && n <= 0 ) a.resizeArray( i, n ); else a.resizeArray( i, n, 65 ); }
    else if( c.name == "moreRows" ) a.appendArray( n );
    else if( c.name == "capacities" ) { VL const l = c.v( "vs" ); std::vector< IDX > const k( l.begin(), l.end() ); a.resizeFromCapacities< RAJA::loop_exec >( IDX( k.size() ), k.data() ); }
    else unknown( c );
  }
};
struct Sets : Subject
{
  using A = LvArray::ArrayOfSets< int, IDX, BUF >;
  A a;
  Sets( VL const & lens, VL const & caps )
  {
    for( std::size_t i = 0; i < lens.size(); ++i )
    {
      a.appendSet( caps[ i ] );
      for( long k = 0; k < lens[ i ]; ++k ) a.insertIntoSet( IDX( i ), int( 2 * k + 1 ) );
    }
  }
  Is is() const override { Is s = rowsOf( a ); for( IDX i = 0; i < a.size(); ++i ) s.caps.push_back( long( a.capacityOfSet( i ) ) ); return s; }
  template< typename V > static void look( V const & v, Op const & c )
  {
    IDX const i = c.i( "i" ), j = c.i( "j" );
    long const how = c.i( "how" );
    if( c.name == "value" ) { if( how ) use( v[ i ][ j ] ); else use( v( i, j ) ); }
    else if( how == 0 ) use( v.sizeOfSet( i ) );
    else if( how == 1 ) use( v.capacityOfSet( i ) );
    else use( v[ i ].size() );
  }
  template< typename V > static bool edit( V & v, Op const & c, long const path )
  {
    IDX const i = c.i( "i" );
    int const x = int( c.i( "v" ) );
    std::vector< int > const vs = ints( c.v( "vs" ) );
    std::list< int > const ls( vs.begin(), vs.end() );
    if( c.name == "join" ) v.insertIntoSet( i, x );
    else if( c.name == "part" && c.i( "how" ) ) v.removeFromSet( i, x );
    else if( c.name == "part" ) use( v.contains( i, x ) );
    else if( c.name == "joinMany" ) { if( path % 2 ) v.insertIntoSet( i, vs.begin(), vs.end() ); else v.insertIntoSet( i, ls.begin(), ls.end() ); }
    else if( c.name == "partMany" ) { if( path % 2 ) v.removeFromSet( i, vs.begin(), vs.end() ); else v.removeFromSet( i, ls.begin(), ls.end() ); }
    else return false;
    return true;
  }
  void call( Op const & c, long const path ) override
  {
    IDX const i = c.i( "i" ), n = c.i( "n" );
    long const how = c.i( "how" );
    if( c.name == "row" && how == 3 ) a.eraseSet( i );
    else if( c.name == "row" && how == 4 ) a.clearSet( i );
    else if( c.name == "row" && how == 5 ) a.reserveCapacityOfSet( i, 3 );
    else if( c.name == "row" || c.name == "value" )
    {
      if( atIs( c, "via", "owner" ) ) look( a, c );
      else if( atIs( c, "via", "view" ) ) look( a.toView(), c );
      else look( a.toViewConst(), c );
    }
    else if( c.name == "newRow" ) a.insertSet( i, n );
    else if( c.name == "consistent" )
    {
      LvArray::ArrayOfArrays< int, IDX, BUF > r;
      VL const vs = c.v( "vs" );
      long at = 0;
      for( long const l : c.v( "lens" ) ) { r.appendArray( vs.begin() + at, vs.begin() + at + l ); at += l; }
      a.assimilate( std::move( r ), LvArray::sortedArrayManipulation::SORTED_UNIQUE );
    }
    else if( atIs( c, "via", "owner" ) ) { if( !edit( a, c, path ) ) unknown( c ); }
    else { auto const v = a.toView(); if( !edit( v, c, path ) ) unknown( c ); }
  }
};
static Subject * build( Op const & s, long )
{ if( s.text.at( "kind" ) == "rows" ) return new Rows( s.v( "lens" ), s.v( "caps" ) ); else return new Sets( s.v( "lens" ), s.v( "caps" ) ); }
#else
// ------------------------------------------------------------------------------------------------ patterns and matrices
using COL = signed char;
template< typename A > static Is sparse( A const & a )
{
  Is s;
  for( IDX i = 0; i < a.numRows(); ++i ) { s.rows.push_back( {} ); for( COL const x : a.getColumns( i ) ) s.rows.back().push_back( x ); s.caps.push_back( long( a.nonZeroCapacity( i ) ) ); }
  s.cols = long( a.numColumns() );
  s.most = std::numeric_limits< COL >::max();
  return s;
}
template< typename V > static void look( V const & v, Op const & c )
{
  IDX const i = c.i( "i" );
  switch( c.i( "how" ) )
  {
    case 0: use( v.numNonZeros( i ) ); break;
    case 1: use( v.nonZeroCapacity( i ) ); break;
    case 2: use( v.empty( i ) ); break;
    case 3: use( v.empty( i, COL( 1 ) ) ); break;
    default: use( v.getColumns( i ).size() ); break;
  }
}
struct Pattern : Subject
{
  using A = LvArray::SparsityPattern< COL, IDX, BUF >;
  A a;
  Pattern( VL const & lens, VL const & caps, long const cols ): a( 0, cols, 0 )
  {
    std::vector< IDX > const k( caps.begin(), caps.end() );
    a.resizeFromRowCapacities< RAJA::loop_exec >( IDX( k.size() ), cols, k.data() );
    for( std::size_t i = 0; i < lens.size(); ++i ) for( long j = 0; j < lens[ i ]; ++j ) a.insertNonZero( IDX( i ), COL( 2 * j + 1 ) );
  }
  Is is() const override { return sparse( a ); }
  template< typename V > static bool edit( V & v, Op const & c, long const path )
  {
    IDX const i = c.i( "i" );
    COL const x = COL( c.i( "v" ) );
    VL const l = c.v( "vs" );
    std::vector< COL > const vs( l.begin(), l.end() );
    std::list< COL > const ls( l.begin(), l.end() );
    if( c.name == "nonzero" ) v.insertNonZero( i, x );
    else if( c.name == "zero" ) v.removeNonZero( i, x );
    else if( c.name == "nonzeros" ) { if( path % 2 ) v.insertNonZeros( i, vs.begin(), vs.end() ); else v.insertNonZeros( i, ls.begin(), ls.end() ); }
    else if( c.name == "zeros" ) { if( path % 2 ) v.removeNonZeros( i, vs.begin(), vs.end() ); else v.removeNonZeros( i, ls.begin(), ls.end() ); }
    else return false;
    return true;
  }
  void call( Op const & c, long const path ) override
  {
    if( c.name == "row" && c.i( "how" ) == 6 ) a.reserveNonZeros( IDX( c.i( "i" ) ), 2 );
    else if( c.name == "row" ) { if( atIs( c, "via", "owner" ) ) look( a, c ); else if( atIs( c, "via", "view" ) ) look( a.toView(), c ); else look( a.toViewConst(), c ); }
    else if( c.name == "columns" )
    {
      IDX const k[ 2 ] = { 1, 1 };
      if( c.i( "how" ) ) a.resizeFromRowCapacities< RAJA::loop_exec >( 2, IDX( c.i( "n" ) ), k ); else a.resize( 2, IDX( c.i( "n" ) ), 1 );
    }
    else if( atIs( c, "via", "owner" ) ) { if( !edit( a, c, path ) ) unknown( c ); }
    else { auto const v = a.toView(); if( !edit( v, c, path ) ) unknown( c ); }
  }
};
struct Matrix : Subject
{
  using A = LvArray::CRSMatrix< long, COL, IDX, BUF >;
  A a;
  Matrix( VL const & lens, VL const & caps, long const cols ): a( 0, cols, 0 )
  {
    std::vector< IDX > const k( caps.begin(), caps.end() );
    a.resizeFromRowCapacities< RAJA::loop_exec >( IDX( k.size() ), cols, k.data() );
    for( std::size_t i = 0; i < lens.size(); ++i ) for( long j = 0; j < lens[ i ]; ++j ) a.insertNonZero( IDX( i ), COL( 2 * j + 1 ), 10 );
  }
  Is is() const override { return sparse( a ); }
  template< typename V > static bool edit( V & v, Op const & c, long )
  {
    IDX const i = c.i( "i" );
    COL const x = COL( c.i( "v" ) );
    VL const l = c.v( "vs" );
    std::vector< COL > const vs( l.begin(), l.end() );
    std::vector< long > const es( vs.size(), 5 );
    if( c.name == "nonzero" ) v.insertNonZero( i, x, 3 );
    else if( c.name == "zero" ) v.removeNonZero( i, x );
    else if( c.name == "nonzeros" ) v.insertNonZeros( i, vs.data(), es.data(), IDX( vs.size() ) );
    else if( c.name == "zeros" ) v.removeNonZeros( i, vs.data(), IDX( vs.size() ) );
    else return false;
    return true;
  }
  template< typename V > static void add( V const & v, Op const & c, long const path )
  {
    IDX const i = c.i( "i" );
    VL const l = c.v( "vs" );
    std::vector< COL > const vs( l.begin(), l.end() );
    std::vector< long > const es( vs.size(), 5 );
    IDX const n = IDX( vs.size() );
    using P = RAJA::seq_atomic;
    (void) path;
    switch( c.i( "how" ) )
    {
      case 0: v.template addToRow< P >( i, vs.data(), es.data(), n ); break;
      case 1: v.template addToRowBinarySearch< P >( i, vs.data(), es.data(), n ); break;
      case 2: v.template addToRowLinearSearch< P >( i, vs.data(), es.data(), n ); break;
      default: v.template addToRowBinarySearchUnsorted< P >( i, vs.data(), es.data(), n ); break;
    }
  }
  void call( Op const & c, long const path ) override
  {
    bool const owner = atIs( c, "via", "owner" ), view = atIs( c, "via", "view" ), sizes = atIs( c, "via", "viewSizes" );
    IDX const i = c.i( "i" );
    if( c.name == "row" && c.i( "how" ) == 6 ) a.reserveNonZeros( i, 2 );
    else if( c.name == "row" && c.i( "how" ) == 5 )
    { if( owner ) use( a.getEntries( i ).size() ); else if( view ) use( a.toView().getEntries( i ).size() ); else if( sizes ) use( a.toViewConstSizes().getEntries( i ).size() ); else use( a.toViewConst().getEntries( i ).size() ); }
    else if( c.name == "row" )
    { if( owner ) look( a, c ); else if( view ) look( a.toView(), c ); else if( sizes ) look( a.toViewConstSizes(), c ); else look( a.toViewConst(), c ); }
    else if( c.name == "add" ) { if( owner ) add( a, c, path ); else if( view ) add( a.toView(), c, path ); else add( a.toViewConstSizes(), c, path ); }
    else if( c.name == "columns" )
    {
      IDX const k[ 2 ] = { 1, 1 };
      if( c.i( "how" ) ) a.resizeFromRowCapacities< RAJA::loop_exec >( 2, IDX( c.i( "n" ) ), k ); else a.resize( 2, IDX( c.i( "n" ) ), 1 );
    }
    else if( owner ) { if( !edit( a, c, path ) ) unknown( c ); }
    else { auto const v = a.toView(); if( !edit( v, c, path ) ) unknown( c ); }
  }
};
static Subject * build( Op const & s, long )
{ if( s.text.at( "kind" ) == "pattern" ) return new Pattern( s.v( "lens" ), s.v( "caps" ), s.i( "cols" ) ); else return new Matrix( s.v( "lens" ), s.v( "caps" ), s.i( "cols" ) ); }
#endif

static bool mine( Op const & s )
{
  std::string const & k = s.text.at( "kind" );
  int const part = k == "nd" ? 0 : k == "seq" || k == "set" || k == "buffer" ? 1 : k == "rows" || k == "sets" ? 2 : 3;
  return part == VP_PART;
}
static void begin( Subject const & x )
{
  J b( "begin" );
#if defined(LVARRAY_BOUNDS_CHECK)
  b.kv( "bounds", 1 );
#else
  b.kv( "bounds", 0 );
#endif
#if defined(NDEBUG)
  b.kv( "debug", 0 );
#else
  b.kv( "debug", 1 );
#endif
  b.raw( "is", text( x.is() ) ).emit();
}
// false if the container can not be used any further
static bool step( Subject & x, Op const & c, Op const & done, long const path )
{
  if( !x.can( c ) ) return true;
  current() = c.str();
  std::string const was = text( x.is() );
  bool const reported = attempt( [&]() { x.call( done, path ); } );
  // these two report after they have changed the container, which is of no use then
  bool const lost = reported && ( c.name == "appendAtomic" || c.name == "consistent" );
  J( "call" ).raw( "call", text( c ) ).kv( "reported", long( reported ) ).raw( "is", lost ? was : text( x.is() ) ).emit();
  return !lost;
}
static bool step( Subject & x, Op const & c, long const path, Rng * const far = nullptr )
{
  // Now and then a position is off by a multiple of 2^32, which is recorded as one off by 1000.
  if( far != nullptr && x.wide() && far->chance( 8 ) )
  {
    std::vector< char const * > ks;
    for( char const * const k : { "i", "j", "p", "idx" } ) if( c.has( k ) && !c.v( k ).empty() ) ks.push_back( k );
    if( !ks.empty() )
    {
      char const * const k = ks[ far->below( ks.size() ) ];
      Op said = c, done = c;
      std::size_t const at = far->below( said.args[ k ].size() );
      bool const up = far->chance( 70 );
      said.args[ k ][ at ] += up ? 1000 : -1000;
      done.args[ k ][ at ] += up ? 4294967296l * far->range( 1, 2 ) : -4294967296l;
      return step( x, said, done, path );
    }
  }
  return step( x, c, c, path );
}

int main( int argc, char ** argv )
{
  Args const args( argc, argv );
  installErrorHandler();
  std::vector< std::vector< Op > > all;
  for( auto & e : readScripts( args.script.c_str() ) ) if( mine( e[ 0 ] ) ) all.push_back( e );
  long path = args.seed;
  if( args.mode != "chain" ) for( auto const & e : all )
  {
    std::unique_ptr< Subject > x( build( e[ 0 ], path ) );
    begin( *x );
    if( !step( *x, e[ 1 ], path ) ) x.release();
    ++path;
  }
  else
  {
    // the calls of the specification on a container that keeps changing
    Rng r( std::uint64_t( args.seed ) * 7 + VP_PART );
    std::map< std::string, std::vector< std::vector< Op > const * > > groups;
    for( auto const & e : all ) groups[ e[ 0 ].text.at( "kind" ) + ( VP_PART == 0 ? std::to_string( e[ 0 ].v( "dims" ).size() ) : "" ) ].push_back( &e );
    for( auto const & g : groups ) for( long k = 0; k < args.n; ++k )
    {
      std::unique_ptr< Subject > x( build( ( *g.second[ r.below( g.second.size() ) ] )[ 0 ], path++ ) );
      begin( *x );
      for( long m = 0; m < args.len; ++m ) if( !step( *x, ( *g.second[ r.below( g.second.size() ) ] )[ 1 ], path++, &r ) ) { x.release(); break; }
    }
  }
  return finish();
}
