// Conformance driver for copying, moving, swapping and viewing the containers. Traces: spec/OwnershipTrace.tla.
#include <algorithm>
#include "vp.hpp"
#include "vperr.hpp"
#include "elem.hpp"
#include "Array.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#if defined(LVARRAY_USE_CHAI)
  #include "ChaiBuffer.hpp"
#endif
#include <RAJA/RAJA.hpp>
#include <memory>
using namespace vp;
#if defined(LVARRAY_USE_CHAI)
template< typename T > using BUF = LvArray::ChaiBuffer< T >;
#else
template< typename T > using BUF = LvArray::MallocBuffer< T >;
#endif
template< typename T > using STACK = LvArray::StackBuffer< T, 12 >;
using IDX = std::ptrdiff_t;

struct Change { std::string how; long r = 1, i = 0, v = 0, c = 0; };
using Maybe = std::unique_ptr< Change >;
static Maybe change( char const * const how, long const r, long const i, long const v, long const c = 0 )
{ Maybe m( new Change ); m->how = how; m->r = r; m->i = i; m->v = v; m->c = c; return m; }
static long big( Rng & r ) { return r.range( 100, 999 ); }   // values no initial content has

// ------------------------------------------------------------------------------------------------ one-dimensional arrays
template< typename T, template< typename > class B, bool FIXED > struct Seq
{
  using C = LvArray::Array< T, 1, camp::idx_seq< 0 >, IDX, B >;
  using E = El< T >;
  static constexpr bool fixed = FIXED, views = !FIXED;
  static constexpr int kinds = FIXED ? 0 : 7;
  template< typename X > static VVL value( X const & x, long const path )
  {
    VL v;
    IDX const n = x.size();
    if( path % 2 ) for( IDX i = 0; i < n; ++i ) v.push_back( E::get( x[ i ] ) ); else for( auto const & y : x ) v.push_back( E::get( y ) );
    return { { long( n ) }, v };
  }
  static VL where( C const & x ) { return { long( x.data() ), long( x.size() ) }; }
  static void mutate( C & x, Rng & r )
  {
    switch( r.below( 8 ) )
    {
      case 0: if( x.size() < 10 ) x.emplace_back( E::mk( big( r ) ) ); break;
      case 1: if( x.size() < 10 ) x.emplace( r.range( 0, x.size() ), E::mk( big( r ) ) ); break;
      case 2: if( x.size() > 0 ) x.erase( r.below( x.size() ) ); break;
      case 3: x.resize( r.range( 0, 10 ) ); break;
      case 4: x.reserve( r.range( 0, 12 ) ); break;
      case 5: x.clear(); break;
      case 6: x.resizeDefault( r.range( 0, 10 ), E::mk( big( r ) ) ); break;
      default: x.template setValues< RAJA::loop_exec >( E::mk( big( r ) ) ); break;
    }
  }
  template< typename X > static Maybe write( X const & x, Rng & r, std::true_type )
  {
    if( x.size() == 0 ) return nullptr;
    long const i = r.below( x.size() ), v = big( r );
    x[ i ] = E::mk( v );
    return change( "put", 2, i, v );
  }
  template< typename X > static Maybe write( X const &, Rng &, std::false_type ) { return nullptr; }
  template< typename F, typename X > static void view( X const & x, long const how, F && f )
  {
    switch( how % 7 )
    {
      case 0: f( x.toView(), std::true_type{} ); break;
      case 1: f( x.toViewConst(), std::false_type{} ); break;
      case 2: f( x.toNestedView(), std::true_type{} ); break;
      case 3: f( x.toNestedViewConst(), std::false_type{} ); break;
      case 4: f( x.toSlice(), std::true_type{} ); break;
      case 5: f( x.toSliceConst(), std::false_type{} ); break;
      default: { LvArray::ArrayView< T const, 1, 0, IDX, B > const v = x; f( v, std::false_type{} ); break; }
    }
  }
};
// ------------------------------------------------------------------------------------------------ matrices in a permuted layout
template< typename T, typename P, int U, bool FIXED = false, template< typename > class B = BUF > struct Mat
{
  using C = LvArray::Array< T, 2, P, IDX, B >;
  using E = El< T >;
  static constexpr bool fixed = FIXED, views = !FIXED;
  template< typename X > static VVL value( X const & x, long const path )
  {
    VL v;
    IDX const n = x.size( 0 ), m = x.size( 1 );
    for( IDX i = 0; i < n; ++i ) for( IDX j = 0; j < m; ++j ) v.push_back( E::get( path % 2 ? x[ i ][ j ] : x( i, j ) ) );
    VL head{ long( n ), long( m ), long( x.size() ) };
    resizeIndex( x, head, 0 );
    return { head, v };
  }
  // a slice has none
  template< typename X > static auto resizeIndex( X const & x, VL & head, int ) -> decltype( x.getSingleParameterResizeIndex(), void() ) { head.push_back( long( x.getSingleParameterResizeIndex() ) ); }
  template< typename X > static void resizeIndex( X const &, VL &, long ) {}
  static VL where( C const & x ) { return { long( x.data() ), long( x.size( 0 ) ), long( x.size( 1 ) ), long( x.getSingleParameterResizeIndex() ) }; }
  static void mutate( C & x, Rng & r )
  {
    switch( r.below( 5 ) )
    {
      case 0: x.resize( r.range( 0, 3 ), r.range( 0, 3 ) ); x.template setValues< RAJA::loop_exec >( E::mk( big( r ) ) ); break;
      case 1: x.clear(); break;
      case 2: x.setSingleParameterResizeIndex( int( r.below( 2 ) ) ); x.resizeDefault( r.range( 0, 3 ), E::mk( big( r ) ) ); break;
      case 3: x.reserve( r.range( 0, 12 ) ); break;
      default: x.template setValues< RAJA::loop_exec >( E::mk( big( r ) ) ); break;
    }
  }
  template< typename X > static Maybe write( X const & x, Rng & r, std::true_type )
  {
    if( x.size() == 0 ) return nullptr;
    long const i = r.below( x.size( 0 ) ), j = r.below( x.size( 1 ) ), v = big( r );
    if( r.chance( 50 ) ) x( i, j ) = E::mk( v ); else x[ i ][ j ] = E::mk( v );
    return change( "put", 2, i * long( x.size( 1 ) ) + j, v );
  }
  template< typename X > static Maybe write( X const &, Rng &, std::false_type ) { return nullptr; }
  template< typename F, typename X > static void view( X const & x, long const how, F && f )
  {
    switch( how % 7 )
    {
      case 0: f( x.toView(), std::true_type{} ); break;
      case 1: f( x.toViewConst(), std::false_type{} ); break;
      case 2: f( x.toNestedView(), std::true_type{} ); break;
      case 3: f( x.toNestedViewConst(), std::false_type{} ); break;
      case 4: f( x.toSlice(), std::true_type{} ); break;
      case 5: f( x.toSliceConst(), std::false_type{} ); break;
      default: { LvArray::ArraySlice< T const, 2, U, IDX > const v = x; f( v, std::false_type{} ); break; }
    }
  }
};
// ------------------------------------------------------------------------------------------------ arrays in arrays
template< typename T > struct Nested
{
  using I = LvArray::Array< T, 1, camp::idx_seq< 0 >, IDX, BUF >;
  using C = LvArray::Array< I, 1, camp::idx_seq< 0 >, IDX, BUF >;
  using E = El< T >;
  static constexpr bool fixed = false, views = true;
  template< typename X > static VVL value( X const & x, long )
  {
    VVL r{ { long( x.size() ) } };
    for( IDX i = 0; i < x.size(); ++i ) { r.push_back( {} ); for( IDX j = 0; j < x[ i ].size(); ++j ) r.back().push_back( E::get( x[ i ][ j ] ) ); }
    return r;
  }
  static VL where( C const & x ) { return { long( x.data() ), long( x.size() ) }; }
  static void mutate( C & x, Rng & r )
  {
    long const n = x.size();
    switch( r.below( 6 ) )
    {
      case 0: if( n < 4 ) { I y; y.resizeDefault( r.range( 0, 3 ), E::mk( big( r ) ) ); x.emplace_back( y ); } break;
      case 1: if( n < 4 ) { I y; y.resizeDefault( r.range( 0, 3 ), E::mk( big( r ) ) ); x.emplace( r.range( 0, n ), std::move( y ) ); } break;
      case 2: if( n > 0 ) x.erase( r.below( n ) ); break;
      case 3: x.resize( r.range( 0, 4 ) ); break;
      case 4: if( n > 0 ) x[ r.below( n ) ].emplace_back( E::mk( big( r ) ) ); break;
      default: if( n > 0 ) x[ r.below( n ) ].resize( r.range( 0, 3 ) ); break;
    }
  }
  template< typename X > static Maybe write( X const & x, Rng & r, std::true_type )
  {
    if( x.size() == 0 ) return nullptr;
    long const i = r.below( x.size() );
    if( x[ i ].size() == 0 ) return nullptr;
    long const j = r.below( x[ i ].size() ), v = big( r );
    x[ i ][ j ] = E::mk( v );
    return change( "put", i + 2, j, v );
  }
  template< typename X > static Maybe write( X const &, Rng &, std::false_type ) { return nullptr; }
  template< typename F, typename X > static void view( X const & x, long const how, F && f )
  {
    switch( how % 4 )
    {
      case 0: f( x.toView(), std::true_type{} ); break;
      case 1: f( x.toViewConst(), std::false_type{} ); break;
      case 2: f( x.toNestedView(), std::true_type{} ); break;
      default: f( x.toNestedViewConst(), std::false_type{} ); break;
    }
  }
};
// ------------------------------------------------------------------------------------------------ sorted arrays
template< typename T > struct Set
{
  using C = LvArray::SortedArray< T, IDX, BUF >;
  using E = El< T >;
  static constexpr bool fixed = false, views = true;
  template< typename X > static VVL value( X const & x, long const path )
  {
    VL v;
    if( path % 2 ) for( IDX i = 0; i < x.size(); ++i ) v.push_back( E::get( x[ i ] ) ); else for( auto const & y : x ) v.push_back( E::get( y ) );
    return { v };
  }
  static VL where( C const & x ) { return { long( x.data() ), long( x.size() ) }; }
  static void mutate( C & x, Rng & r )
  {
    switch( r.below( 5 ) )
    {
      case 0: x.clear(); break;
      case 1: x.reserve( r.range( 0, 12 ) ); break;
      case 2: { std::vector< T > v; for( long k = r.range( 1, 3 ); k <= 9; k += r.range( 1, 3 ) ) v.push_back( E::mk( k ) ); x.insert( v.begin(), v.end() ); break; }
      case 3: if( x.size() > 0 ) { T const y = x[ r.below( x.size() ) ]; x.remove( y ); } break;
      default: x.insert( E::mk( r.below( 12 ) ) ); break;
    }
  }
  template< typename X, typename W > static Maybe write( X const &, Rng &, W ) { return nullptr; }
  template< typename F, typename X > static void view( X const & x, long const how, F && f )
  {
    switch( how % 3 )
    {
      case 0: f( x.toView(), std::false_type{} ); break;
      case 1: f( x.toViewConst(), std::false_type{} ); break;
      default: f( x.toSlice(), std::false_type{} ); break;
    }
  }
};
// ------------------------------------------------------------------------------------------------ arrays of arrays
template< typename T > struct Rows
{
  using C = LvArray::ArrayOfArrays< T, IDX, BUF >;
  using E = El< T >;
  static constexpr bool fixed = false, views = true;
  template< typename X > static VVL value( X const & x, long const path )
  {
    VVL r{ { long( x.size() ) } };
    for( IDX i = 0; i < x.size(); ++i )
    {
      r.push_back( {} );
      if( path % 2 ) for( auto const & y : x[ i ] ) r.back().push_back( E::get( y ) );
      else for( IDX j = 0; j < x.sizeOfArray( i ); ++j ) r.back().push_back( E::get( x( i, j ) ) );
    }
    return r;
  }
  static VL where( C const & x ) { auto const v = x.toViewConst(); return { long( v.getValues() ), long( v.getOffsets() ), long( v.getSizes() ), long( x.size() ) }; }
  static void mutate( C & x, Rng & r )
  {
    long const n = x.size();
    std::vector< T > vs;
    for( long k = r.below( 4 ); k > 0; --k ) vs.push_back( E::mk( big( r ) ) );
    switch( r.below( 9 ) )
    {
      case 0: if( n < 5 ) x.appendArray( vs.begin(), vs.end() ); break;
      case 1: if( n < 5 ) x.insertArray( r.range( 0, n ), vs.begin(), vs.end() ); break;
      case 2: if( n > 0 ) x.eraseArray( r.below( n ) ); break;
      case 3: x.resize( r.range( 0, 4 ), r.range( 0, 3 ) ); break;
      case 4: if( n > 0 ) x.emplaceBack( r.below( n ), E::mk( big( r ) ) ); break;
      case 5: if( n > 0 ) x.clearArray( r.below( n ) ); break;
      case 6: if( n > 0 ) x.setCapacityOfArray( r.below( n ), r.range( 0, 6 ) ); break;
      case 7: x.compress(); break;
      default: if( n > 0 ) x.appendToArray( r.below( n ), vs.begin(), vs.end() ); break;
    }
  }
  template< typename X > static Maybe edit( X & x, Rng & r, long const i, std::true_type )
  {
    long const m = x.sizeOfArray( i ), room = long( x.capacityOfArray( i ) ) - m, v = big( r );
    switch( r.below( 4 ) )
    {
      case 0: if( room > 0 ) { x.emplaceBack( i, E::mk( v ) ); return change( "append", i + 2, 0, v ); } break;
      case 1: if( room > 0 ) { long const j = r.range( 0, m ); x.emplace( i, j, E::mk( v ) ); return change( "insert", i + 2, j, v ); } break;
      case 2: if( m > 0 ) { long const j = r.below( m ); x.eraseFromArray( i, j ); return change( "erase", i + 2, j, 0 ); } break;
    }
    return nullptr;
  }
  template< typename X > static Maybe edit( X &, Rng &, long, std::false_type ) { return nullptr; }
  template< typename X, typename SIZES > static Maybe put( X & x, Rng & r, SIZES sizes )
  {
    if( x.size() == 0 ) return nullptr;
    long const i = r.below( x.size() ), m = x.sizeOfArray( i ), v = big( r );
    if( r.chance( 60 ) ) { Maybe c = edit( x, r, i, sizes ); if( c ) return c; }
    if( m == 0 ) return nullptr;
    long const j = r.below( m );
    if( r.chance( 50 ) ) x( i, j ) = E::mk( v ); else x[ i ][ j ] = E::mk( v );
    return change( "put", i + 2, j, v );
  }
  static Maybe write( C & x, Rng & r, std::true_type ) { return put( x, r, std::true_type{} ); }
  static Maybe write( LvArray::ArrayOfArraysView< T, IDX const, false, BUF > const & x, Rng & r, std::true_type ) { return put( x, r, std::true_type{} ); }
  static Maybe write( LvArray::ArrayOfArraysView< T, IDX const, true, BUF > const & x, Rng & r, std::true_type ) { return put( x, r, std::false_type{} ); }
  template< typename X > static Maybe write( X const &, Rng &, std::false_type ) { return nullptr; }
  template< typename F, typename X > static void view( X const & x, long const how, F && f )
  {
    switch( how % 3 )
    {
      case 0: f( x.toView(), std::true_type{} ); break;
      case 1: f( x.toViewConst(), std::false_type{} ); break;
      default: f( x.toViewConstSizes(), std::true_type{} ); break;
    }
  }
};
// ------------------------------------------------------------------------------------------------ arrays of sets
template< typename T > struct Sets
{
  using C = LvArray::ArrayOfSets< T, IDX, BUF >;
  using E = El< T >;
  static constexpr bool fixed = false, views = true;
  template< typename X > static IDX length( X const & x, IDX const i ) { return x[ i ].size(); }
  template< typename X > static VVL value( X const & x, long const path )
  {
    VVL r{ { long( x.size() ) } };
    for( IDX i = 0; i < x.size(); ++i )
    {
      r.push_back( {} );
      if( path % 2 ) for( auto const & y : x[ i ] ) r.back().push_back( E::get( y ) );
      else for( IDX j = 0; j < length( x, i ); ++j ) r.back().push_back( E::get( x( i, j ) ) );
    }
    return r;
  }
  static VL where( C const & x ) { auto const v = x.toArrayOfArraysView(); return { long( v.getValues() ), long( v.getOffsets() ), long( v.getSizes() ), long( x.size() ) }; }
  static void mutate( C & x, Rng & r )
  {
    long const n = x.size();
    switch( r.below( 8 ) )
    {
      case 0: if( n < 5 ) x.appendSet( r.below( 4 ) ); break;
      case 1: if( n < 5 ) x.insertSet( r.range( 0, n ), r.below( 4 ) ); break;
      case 2: if( n > 0 ) x.eraseSet( r.below( n ) ); break;
      case 3: x.resize( r.range( 0, 4 ), r.range( 0, 3 ) ); break;
      case 4: if( n > 0 ) x.clearSet( r.below( n ) ); break;
      case 5: if( n > 0 ) x.reserveCapacityOfSet( r.below( n ), r.range( 0, 6 ) ); break;
      case 6: x.compress(); break;
      default: if( n > 0 ) x.insertIntoSet( r.below( n ), E::mk( r.below( 30 ) ) ); break;
    }
  }
  template< typename X > static Maybe put( X & x, Rng & r )
  {
    if( x.size() == 0 ) return nullptr;
    long const i = r.below( x.size() ), v = r.below( 30 );
    if( r.chance( 60 ) && x.capacityOfSet( i ) > x.sizeOfSet( i ) ) { x.insertIntoSet( i, E::mk( v ) ); return change( "member", i + 2, 0, v ); }
    long const w = x.sizeOfSet( i ) > 0 && r.chance( 80 ) ? E::get( x( i, r.below( x.sizeOfSet( i ) ) ) ) : v;
    x.removeFromSet( i, E::mk( w ) );
    return change( "drop", i + 2, 0, w );
  }
  static Maybe write( C & x, Rng & r, std::true_type ) { return put( x, r ); }
  static Maybe write( LvArray::ArrayOfSetsView< T, IDX const, BUF > const & x, Rng & r, std::true_type ) { return put( x, r ); }
  template< typename X > static Maybe write( X const &, Rng &, std::false_type ) { return nullptr; }
  template< typename F > static void view( C const & x, long const how, F && f )
  {
    switch( how % 3 )
    {
      case 0: f( x.toView(), std::true_type{} ); break;
      case 1: f( x.toViewConst(), std::false_type{} ); break;
      default: f( x.toArrayOfArraysView(), std::false_type{} ); break;
    }
  }
};
// ------------------------------------------------------------------------------------------------ sparsity patterns and matrices
template< typename COL > struct Pattern
{
  using C = LvArray::SparsityPattern< COL, IDX, BUF >;
  static constexpr bool fixed = false, views = true;
  template< typename X > static VVL value( X const & x, long const path )
  {
    VVL r{ { long( x.numRows() ), long( x.numColumns() ) } };
    for( IDX i = 0; i < x.numRows(); ++i )
    {
      r.push_back( {} );
      if( path % 2 ) for( COL const c : x.getColumns( i ) ) r.back().push_back( long( c ) );
      else for( IDX j = 0; j < x.numNonZeros( i ); ++j ) r.back().push_back( long( x.getColumns( i )[ j ] ) );
    }
    return r;
  }
  static VL where( C const & x ) { auto const v = x.toViewConst(); return { long( v.getColumns() ), long( v.getOffsets() ), long( v.getSizes() ), long( x.numRows() ), long( x.numColumns() ) }; }
  static void mutate( C & x, Rng & r )
  {
    long const n = x.numRows();
    switch( r.below( 5 ) )
    {
      case 0: { long const rows = r.range( 0, 4 ); x.resize( rows, 12, 2 ); break; }
      case 1: if( n > 0 ) x.reserveNonZeros( r.below( n ), r.range( 0, 5 ) ); break;
      case 2: x.compress(); break;
      case 3: x.reserveNonZeros( r.range( 0, 12 ) ); break;
      default: if( n > 0 && x.numColumns() > 0 ) x.insertNonZero( r.below( n ), COL( r.below( x.numColumns() ) ) ); break;
    }
  }
  template< typename X > static Maybe put( X & x, Rng & r )
  {
    long const n = x.numRows();
    if( n == 0 || x.numColumns() == 0 ) return nullptr;
    long const i = r.below( n ), c = r.below( x.numColumns() );
    if( r.chance( 60 ) && x.nonZeroCapacity( i ) > x.numNonZeros( i ) ) { x.insertNonZero( i, COL( c ) ); return change( "member", i + 2, 0, c ); }
    x.removeNonZero( i, COL( c ) );
    return change( "drop", i + 2, 0, c );
  }
  static Maybe write( C & x, Rng & r, std::true_type ) { return put( x, r ); }
  static Maybe write( LvArray::SparsityPatternView< COL, IDX const, BUF > const & x, Rng & r, std::true_type ) { return put( x, r ); }
  template< typename X > static Maybe write( X const &, Rng &, std::false_type ) { return nullptr; }
  template< typename F, typename X > static void view( X const & x, long const how, F && f )
  { if( how % 2 ) f( x.toViewConst(), std::false_type{} ); else f( x.toView(), std::true_type{} ); }
};
template< typename T > struct Matrix
{
  using COL = int;
  using C = LvArray::CRSMatrix< T, COL, IDX, BUF >;
  using E = El< T >;
  static constexpr bool fixed = false, views = true;
  template< typename X > static auto entriesOf( X const & x, IDX const i, VL & v, int ) -> decltype( x.getEntries( i ), void() )
  { for( auto const & y : x.getEntries( i ) ) v.push_back( E::get( y ) ); }
  template< typename X > static VVL value( X const & x, long const path )
  {
    VVL r{ { long( x.numRows() ), long( x.numColumns() ) } };
    for( IDX i = 0; i < x.numRows(); ++i )
    {
      VL c, v;
      for( IDX j = 0; j < x.numNonZeros( i ); ++j ) c.push_back( long( x.getColumns( i )[ j ] ) );
      if( path % 2 ) for( IDX j = 0; j < x.numNonZeros( i ); ++j ) v.push_back( E::get( x.getEntries( i )[ j ] ) ); else entriesOf( x, i, v, 0 );
      r.push_back( c ); r.push_back( v );
    }
    return r;
  }
  static VL where( C const & x ) { auto const v = x.toViewConst(); return { long( v.getColumns() ), long( v.getEntries() ), long( v.getOffsets() ), long( v.getSizes() ), long( x.numRows() ), long( x.numColumns() ) }; }
  static void mutate( C & x, Rng & r )
  {
    long const n = x.numRows();
    switch( r.below( 6 ) )
    {
      case 0: { long const rows = r.range( 0, 4 ); x.resize( rows, 12, 2 ); break; }
      case 1: if( n > 0 ) x.reserveNonZeros( r.below( n ), r.range( 0, 5 ) ); break;
      case 2: x.compress(); break;
      case 3: x.reserveNonZeros( r.range( 0, 12 ) ); break;
      default: if( n > 0 && x.numColumns() > 0 ) x.insertNonZero( r.below( n ), COL( r.below( x.numColumns() ) ), E::mk( big( r ) ) ); break;
    }
  }
  template< typename X > static Maybe sizes( X & x, Rng & r, std::true_type )
  {
    long const i = r.below( x.numRows() ), c = r.below( x.numColumns() ), v = big( r );
    if( r.chance( 60 ) && x.nonZeroCapacity( i ) > x.numNonZeros( i ) ) { x.insertNonZero( i, COL( c ), E::mk( v ) ); return change( "nonzero", 2 * i + 2, 0, v, c ); }
    x.removeNonZero( i, COL( c ) );
    return change( "zero", 2 * i + 2, 0, 0, c );
  }
  template< typename X > static Maybe sizes( X &, Rng &, std::false_type ) { return nullptr; }
  template< typename X, typename SIZES > static Maybe put( X & x, Rng & r, SIZES s )
  {
    if( x.numRows() == 0 || x.numColumns() == 0 ) return nullptr;
    if( r.chance( 50 ) ) return sizes( x, r, s );
    long const i = r.below( x.numRows() ), m = x.numNonZeros( i ), v = big( r );
    if( m == 0 ) return nullptr;
    long const j = r.below( m );
    x.getEntries( i )[ j ] = E::mk( v );
    return change( "put", 2 * i + 3, j, v );
  }
  static Maybe write( C & x, Rng & r, std::true_type ) { return put( x, r, std::true_type{} ); }
  static Maybe write( LvArray::CRSMatrixView< T, COL, IDX const, BUF > const & x, Rng & r, std::true_type ) { return put( x, r, std::true_type{} ); }
  static Maybe write( LvArray::CRSMatrixView< T, COL const, IDX const, BUF > const & x, Rng & r, std::true_type ) { return put( x, r, std::false_type{} ); }
  template< typename X > static Maybe write( X const &, Rng &, std::false_type ) { return nullptr; }
  template< typename F, typename X > static void view( X const & x, long const how, F && f )
  {
    switch( how % 3 )
    {
      case 0: f( x.toView(), std::true_type{} ); break;
      case 1: f( x.toViewConst(), std::false_type{} ); break;
      default: f( x.toViewConstSizes(), std::true_type{} ); break;
    }
  }
};

// ------------------------------------------------------------------------------------------------ views of any type
struct AnyView
{
  int kind = 0;
  virtual ~AnyView() = default;
  virtual VVL read( long ) const = 0;
  virtual Maybe write( Rng & ) const = 0;
  virtual std::unique_ptr< AnyView > copy() const = 0;
  virtual std::unique_ptr< AnyView > moved() = 0;
  virtual bool assign( AnyView const & ) = 0;
};
template< typename AD, typename V, typename W > struct ViewOf : AnyView
{
  using X = std::remove_const_t< V >;
  std::unique_ptr< X > x;
  explicit ViewOf( X * const p ): x( p ) {}
  VVL read( long const path ) const override { return AD::value( static_cast< X const & >( *x ), path ); }
  Maybe write( Rng & r ) const override { return AD::write( static_cast< X const & >( *x ), r, W{} ); }
  std::unique_ptr< AnyView > wrap( X * const p ) const { std::unique_ptr< AnyView > v( new ViewOf( p ) ); v->kind = kind; return v; }
  std::unique_ptr< AnyView > copy() const override { return wrap( new X( static_cast< X const & >( *x ) ) ); }
  std::unique_ptr< AnyView > moved() override { X t( static_cast< X const & >( *x ) ); return wrap( new X( std::move( t ) ) ); }
  bool assign( AnyView const & o ) override
  {
    ViewOf const * const p = dynamic_cast< ViewOf const * >( &o );
    if( p == nullptr ) return false;
    return set( *x, static_cast< X const & >( *p->x ), std::integral_constant< bool, std::is_copy_assignable< X >::value && !AD::fixed >() );
  }
  static bool set( X & a, X const & b, std::true_type ) { a = b; return true; }
  static bool set( X &, X const &, std::false_type ) { return false; }
};

template< typename V > struct IsSlice : std::false_type {};   // a slice also refers to its array's dimensions
template< typename T, int M, int U, typename I > struct IsSlice< LvArray::ArraySlice< T, M, U, I > > : std::true_type {};
static constexpr int N = 3, NV = 4;
template< typename AD > struct World
{
  using C = typename AD::C;
  std::unique_ptr< C > c[ N ];
  bool ok[ N ] = { true, true, true };
  std::unique_ptr< AnyView > v[ NV ];
  int owner[ NV ] = { -1, -1, -1, -1 };
  bool tied[ NV ] = { false, false, false, false };
  long path = 0;
  World() { lib( [&]() { for( auto & x : c ) x.reset( new C() ); } ); }
  void observe( J & j )
  {
    std::string is = "[", shows = "[";
    VL alive;
    for( int o = 0; o < N; ++o ) is += ( o ? "," : "" ) + ( ok[ o ] ? text( AD::value( static_cast< C const & >( *c[ o ] ), path++ ) ) : std::string( "[]" ) );
    for( int k = 0; k < NV; ++k )
    {
      alive.push_back( owner[ k ] >= 0 );
      shows += ( k ? "," : "" ) + ( owner[ k ] >= 0 ? text( v[ k ]->read( path++ ) ) : std::string( "[]" ) );
    }
    j.raw( "is", is + "]" ).kv( "alive", alive ).raw( "shows", shows + "]" );
    j.kv( "bad", reg().bad );
    if( reg().bad ) j.kv( "what", reg().what );
    j.emit();
  }
  static std::string text( VVL const & x ) { std::string s = "["; for( std::size_t i = 0; i < x.size(); ++i ) s += ( i ? "," : "" ) + J::list( x[ i ] ); return s + "]"; }
  void end( int const o ) { for( int k = 0; k < NV; ++k ) if( owner[ k ] == o ) owner[ k ] = -1; }

  void run( Op const & op )
  {
    std::string const & name = op.name;
    int const o = int( op.i( "o", 1 ) ) - 1, p = int( op.i( "p", 1 ) ) - 1, k = int( op.i( "k", 1 ) ) - 1, q = int( op.i( "j", 1 ) ) - 1;
    long const how = op.i( "how" );
    Rng r( std::uint64_t( op.i( "seed" ) + 77 ) );
    current() = op.str();
    J j( name.c_str() );
    for( auto const & kv : op.args ) j.kv( kv.first.c_str(), kv.second.empty() ? 0 : kv.second[ 0 ] );
    bool const onViews = name == "view" || name == "viewCopy" || name == "viewWrite";
    if( onViews && !AD::views ) return;
    if( ( name == "mutate" || name == "write" || name == "swap" || name == "view" ) && !ok[ o ] ) return;
    if( ( name == "copy" || name == "move" || name == "swap" ) && !ok[ p ] ) return;
    if( name == "viewCopy" && owner[ q ] < 0 ) return;
    if( name == "viewWrite" && owner[ k ] < 0 ) return;
    if( name == "swap" && o == p ) return;
    VL const before = ok[ o ] ? AD::where( *c[ o ] ) : VL{ -1 };
    Maybe ch;
    bool skip = false;
    lib( [&]()
    {
      if( name == "mutate" ) AD::mutate( *c[ o ], r );
      else if( name == "write" ) { ch = AD::write( *c[ o ], r, std::true_type{} ); skip = !ch; }
      else if( name == "renew" ) { c[ o ].reset( new C() ); }
      else if( name == "copy" )
      {
        if( how % 2 == 0 || o == p ) *c[ o ] = static_cast< C const & >( *c[ p ] );
        else c[ o ].reset( new C( static_cast< C const & >( *c[ p ] ) ) );
      }
      else if( name == "move" )
      {
        if( how % 2 == 0 || o == p ) { C & src = *c[ p ]; *c[ o ] = std::move( src ); }
        else c[ o ].reset( new C( std::move( *c[ p ] ) ) );
      }
      else if( name == "swap" ) std::swap( *c[ o ], *c[ p ] );
      else if( name == "view" )
        AD::view( static_cast< C const & >( *c[ o ] ), how, [&]( auto const & w, auto tag )
        {
          using V = std::decay_t< decltype( w ) >;
          v[ k ].reset( new ViewOf< AD, V, decltype( tag ) >( new V( w ) ) );
          v[ k ]->kind = int( how );
          tied[ k ] = IsSlice< V >::value;
        } );
      else if( name == "viewCopy" )
      {
        std::unique_ptr< AnyView > t;
        if( how % 3 == 0 && v[ k ] && v[ k ]->assign( *v[ q ] ) ) {}
        else { t = how % 3 == 1 ? v[ q ]->moved() : v[ q ]->copy(); v[ k ] = std::move( t ); }
      }
      else if( name == "viewWrite" ) { ch = v[ k ]->write( r ); skip = !ch; }
      else { fprintf( stderr, "unknown operation %s\n", name.c_str() ); _exit( 3 ); }
    } );
    if( skip ) return;
    if( name == "renew" ) { end( o ); ok[ o ] = true; }
    if( name == "view" ) { owner[ k ] = o; j.kv( "tied", long( tied[ k ] ) ); }
    if( name == "viewCopy" ) { owner[ k ] = owner[ q ]; tied[ k ] = tied[ q ]; }
    if( name == "mutate" || name == "copy" )
    {
      ok[ o ] = true;
      bool const kept = !( name == "copy" && how % 2 && o != p ) && AD::where( *c[ o ] ) == before;
      if( !kept ) end( o );
      j.kv( "kept", long( kept ) );
    }
    if( name == "move" && o != p )
    {
      end( o );
      for( int a = 0; a < NV; ++a ) if( owner[ a ] == p ) owner[ a ] = AD::fixed || tied[ a ] ? -1 : o;
      ok[ o ] = true;
      ok[ p ] = false;
    }
    if( name == "move" && o == p ) { end( o ); ok[ o ] = false; }
    if( name == "swap" ) for( int a = 0; a < NV; ++a ) if( owner[ a ] == o || owner[ a ] == p ) owner[ a ] = AD::fixed || tied[ a ] ? -1 : owner[ a ] == o ? p : o;
    if( ch ) { J d; d.kv( "how", ch->how ).kv( "r", ch->r ).kv( "i", ch->i ).kv( "v", ch->v ).kv( "c", ch->c ); j.raw( "c", d.str() ); }
    observe( j );
  }
};

template< typename AD > static void episode( std::vector< Op > const * const ops, Rng & r, long const len )
{
  resetLife();
  long const calls = handlerCalls();
#if defined(LVARRAY_USE_CHAI)
  chai::ArrayManager & am = *chai::ArrayManager::getInstance();
  am.log = chai::Log();
#endif
  {
    World< AD > w;
    J b( "begin" );
    b.kv( "fixed", long( AD::fixed ) );
    w.observe( b );
    if( ops )
    {
      // what the specification's paths start from
      for( int o = 0; o < N; ++o ) for( int k = 0; k < 4; ++k ) w.run( op( "mutate" ).set( "o", o + 1 ).set( "seed", r.below( 100000 ) ) );
      for( Op o : *ops ) { if( o.has( "seed" ) ) o.set( "seed", r.below( 100000 ) ); w.run( o ); }
    }
    else for( long k = 0; k < len; ++k )
    {
      long const o = r.below( N ) + 1, p = r.chance( 12 ) ? o : r.below( N ) + 1, a = r.below( NV ) + 1, b2 = r.below( NV ) + 1, seed = r.below( 1000000 );
      if( !w.ok[ o - 1 ] && r.chance( 40 ) ) { w.run( op( "copy" ).set( "o", o ).set( "p", p ).set( "how", 0 ) ); continue; }
      switch( r.below( 20 ) )
      {
        case 0: case 1: case 2: case 3: case 4: w.run( op( "mutate" ).set( "o", o ).set( "seed", seed ) ); break;
        case 5: case 6: w.run( op( "write" ).set( "o", o ).set( "seed", seed ) ); break;
        case 7: case 8: case 9: w.run( op( "copy" ).set( "o", o ).set( "p", p ).set( "how", r.below( 2 ) ) ); break;
        case 10: case 11: w.run( op( "move" ).set( "o", o ).set( "p", p ).set( "how", r.below( 2 ) ) ); break;
        case 12: w.run( op( "swap" ).set( "o", o ).set( "p", p ) ); break;
        case 13: if( r.chance( 40 ) ) w.run( op( "renew" ).set( "o", o ) ); break;
        case 14: case 15: w.run( op( "view" ).set( "k", a ).set( "o", o ).set( "how", r.below( 7 ) ) ); break;
        case 16: if( a != b2 ) w.run( op( "viewCopy" ).set( "k", a ).set( "j", b2 ).set( "how", r.below( 3 ) ) ); break;
        default: w.run( op( "viewWrite" ).set( "k", a ).set( "seed", seed ) ); break;
      }
    }
  }
  J j( "gone" );
  j.kv( "live", long( reg().live.size() ) ).kv( "bad", reg().bad );
  if( memoryTracked && handlerCalls() == calls ) j.kv( "mem", long( memory().held.size() ) );
#if defined(LVARRAY_USE_CHAI)
  j.kv( "blocks", long( am.log.live.size() ) ).kv( "badFrees", am.log.badFrees );
#endif
  j.emit();
}
template< typename AD > static void go( Args const & args, std::string const & name, std::vector< std::vector< Op > > const & scripts )
{
  if( !args.mode.empty() && args.mode != "all" && args.mode != name ) return;
  Rng r( std::uint64_t( args.seed ) * 31 + name.size() );
  if( !args.script.empty() )
  { long n = 0; for( auto const & e : scripts ) if( n++ % 8 == args.from || args.from < 0 ) episode< AD >( &e, r, 0 ); return; }
  for( long k = 0; k < args.n; ++k ) episode< AD >( nullptr, r, args.len );
}
int main( int argc, char ** argv )
{
  Args const args( argc, argv );
  installErrorHandler();
  trackMemory();
  std::vector< std::vector< Op > > scripts;
  if( !args.script.empty() ) scripts = readScripts( args.script.c_str() );
#if VP_PART == 0
  go< Seq< int, BUF, false > >( args, "seq-int", scripts );
  go< Seq< Str, BUF, false > >( args, "seq-str", scripts );
  go< Seq< Tok, BUF, false > >( args, "seq-tok", scripts );
  go< Seq< int, STACK, true > >( args, "stack-int", scripts );
  go< Set< int > >( args, "set-int", scripts );
  go< Set< Str > >( args, "set-str", scripts );
  go< Mat< int, camp::idx_seq< 0, 1 >, 1, true, STACK > >( args, "stackmat-int", scripts );
#elif VP_PART == 1
  go< Mat< Str, camp::idx_seq< 1, 0 >, 0 > >( args, "mat-str", scripts );
  go< Mat< int, camp::idx_seq< 0, 1 >, 1 > >( args, "mat-int", scripts );
  go< Nested< int > >( args, "nested-int", scripts );
  go< Nested< Str > >( args, "nested-str", scripts );
#elif VP_PART == 2
  go< Rows< int > >( args, "rows-int", scripts );
  go< Rows< Str > >( args, "rows-str", scripts );
  go< Sets< int > >( args, "sets-int", scripts );
  go< Sets< Str > >( args, "sets-str", scripts );
#else
  go< Pattern< int > >( args, "pattern-int", scripts );
  go< Pattern< unsigned short > >( args, "pattern-short", scripts );
  go< Matrix< double > >( args, "matrix-double", scripts );
  go< Matrix< Str > >( args, "matrix-str", scripts );
#endif
  return finish();
}
