// What is printed when storage is copied between the (simulated) memory spaces, recorded for spec/Announce.tla.
// VP_T: the type of the values.
#include "vp.hpp"
#include "ChaiBuffer.hpp"
#include "Array.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include <cxxabi.h>
#include <iostream>
#include <memory>
using namespace vp;
using P = std::ptrdiff_t;
using T = VP_T;
using LvArray::ChaiBuffer;
using LvArray::MemorySpace;
static chai::ArrayManager & mgr() { return *chai::ArrayManager::getInstance(); }
static MemorySpace space( long const s ) { return s == 1 ? MemorySpace::host : MemorySpace::cuda; }
template< typename X > std::string nameOf()
{
  int status = 0;
  char * const p = abi::__cxa_demangle( typeid( X ).name(), nullptr, nullptr, &status );
  std::string const r = p;
  std::free( p );
  return r;
}
static T v( long const x ) { return T( x ); }

using Ptrs = std::vector< void const * >;
using Texts = std::vector< std::string >;
template< typename V > void moveOrCapture( V const & w, long const s, long const t, long const how )
{
  if( how % 3 ) { w.move( space( s ), t != 0 ); return; }
  mgr().setExecutionSpace( s == 1 ? chai::CPU : chai::GPU );
  { V const captured( w ); (void) captured; }
  mgr().setExecutionSpace( chai::NONE );
}

// --------------------------------------------------------------------------------------------------------- the kinds
struct KBuffer
{
  using C = ChaiBuffer< T >;
  static C * fresh() { return new C( true ); }
  static Texts raw() { return { nameOf< ChaiBuffer< T > >() }; }
  static Ptrs ptrs( C const & c ) { return { c.data() }; }
  static void grow( C & c, long, Rng & r )
  {
    P const old = c.capacity();
    P const n = old + r.range( 1, 5000 );
    c.reallocate( old, MemorySpace::host, n );
    for( P i = old; i < n; ++i ) new ( &c[ i ] ) T();
  }
  static void release( C & c ) { LvArray::arrayManipulation::destroy( c.data(), c.capacity() ); c.free(); }
  static void see( C const & c, long const s, long const t, long const how )
  {
    ChaiBuffer< T > const shallow = c;
    if( how % 2 ) { moveOrCapture( shallow, s, t, how / 2 ); return; }
    ChaiBuffer< T const > const constant( c );
    moveOrCapture( constant, s, t, how / 2 );
  }
};
struct KArray
{
  using C = LvArray::Array< T, 1, camp::idx_seq< 0 >, P, ChaiBuffer >;
  static C * fresh() { return new C; }
  static Texts raw() { return { nameOf< ChaiBuffer< T > >() }; }
  static Ptrs ptrs( C const & c ) { return { c.data() }; }
  static void release( C & ) {}
  static void grow( C & c, long const how, Rng & r )
  {
    switch( how % 6 )
    {
      case 0: for( long i = r.range( 1, 40 ); i-- > 0; ) c.emplace_back( v( i ) ); break;
      case 1: c.resize( c.size() + r.range( 1, 3000 ) ); break;
      case 2: c.reserve( c.capacity() + r.range( 1, 300 ) ); if( c.empty() ) c.emplace_back( v( 1 ) ); break;
      case 3: c.emplace( 0, v( 3 ) ); break;
      case 4: c.resizeDefault( r.range( 1, 9 ), v( 5 ) ); break;
      default: { T const x[ 3 ] = { v( 1 ), v( 2 ), v( 3 ) }; c.insert( c.size(), x, x + 3 ); }
    }
  }
  static void see( C const & c, long const s, long const t, long const how )
  { if( how % 2 ) moveOrCapture( c.toViewConst(), s, t, how / 2 ); else moveOrCapture( c.toView(), s, t, how / 2 ); }
};
struct KTable
{
  using C = LvArray::Array< T, 2, camp::idx_seq< 1, 0 >, int, ChaiBuffer >;
  static C * fresh() { return new C; }
  static Texts raw() { return { nameOf< ChaiBuffer< T > >() }; }
  static Ptrs ptrs( C const & c ) { return { c.data() }; }
  static void release( C & ) {}
  static void grow( C & c, long const how, Rng & r )
  { if( how % 2 ) c.resize( int( r.range( 1, 9 ) ), int( r.range( 1, 200 ) ) ); else c.resizeDimension< 1 >( c.size( 0 ) ? int( r.range( 1, 90 ) ) : 1 ); if( c.empty() ) c.resize( 2, 3 ); }
  static void see( C const & c, long const s, long const t, long const how )
  { if( how % 2 ) moveOrCapture( c.toViewConst(), s, t, how / 2 ); else moveOrCapture( c.toView(), s, t, how / 2 ); }
};
struct KSorted
{
  using C = LvArray::SortedArray< T, P, ChaiBuffer >;
  static C * fresh() { return new C; }
  static Texts raw() { return { nameOf< ChaiBuffer< T > >() }; }
  static Ptrs ptrs( C const & c ) { return { c.data() }; }
  static void release( C & ) {}
  static void grow( C & c, long const how, Rng & r )
  {
    if( how % 3 == 0 ) { c.reserve( c.size() + r.range( 1, 500 ) ); }
    if( how % 3 == 1 ) { std::vector< T > x; for( long i = 0; i < 20; ++i ) x.push_back( v( 1000 + i ) ); c.insert( x.begin(), x.end() ); }
    c.insert( v( r.range( 0, 900 ) ) );
  }
  static void see( C const & c, long const s, long const t, long const how ) { moveOrCapture( c.toView(), s, t, how ); }
};
struct KNested
{
  using I = LvArray::Array< T, 1, camp::idx_seq< 0 >, P, ChaiBuffer >;
  using C = LvArray::Array< I, 1, camp::idx_seq< 0 >, P, ChaiBuffer >;
  static C * fresh() { return new C; }
  static Texts raw() { return { nameOf< ChaiBuffer< I > >(), nameOf< I >() }; }
  static Ptrs ptrs( C const & c )
  {
    Ptrs r = { c.data() };
    // the arrays themselves are read where the driver can: on the host
    auto const it = mgr().log.record.find( const_cast< I * >( c.data() ) );
    if( it == mgr().log.record.end() ) return r;
    I const * const first = static_cast< I const * >( it->second->m_pointers[ chai::CPU ] );
    vpmem::Open open;
    for( P i = 0; i < c.size(); ++i ) r.push_back( first[ i ].data() );
    return r;
  }
  static void release( C & ) {}
  static void grow( C & c, long const how, Rng & r )
  {
    if( how % 2 ) c.reserve( c.capacity() + r.range( 1, 3 ) );
    for( P i = 0; i < c.size(); ++i ) KArray::grow( c[ i ], how + i, r );
  }
  static void see( C const & c, long const s, long const t, long const how )
  {
    switch( how % 4 )
    {
      case 0: moveOrCapture( c.toView(), s, t, how / 4 ); break;
      case 1: moveOrCapture( c.toNestedView(), s, t, how / 4 ); break;
      case 2: moveOrCapture( c.toNestedViewConst(), s, t, how / 4 ); break;
      default: moveOrCapture( c.toViewConst(), s, t, how / 4 );
    }
  }
};
struct KAoA
{
  using C = LvArray::ArrayOfArrays< T, P, ChaiBuffer >;
  static C * fresh() { return new C; }
  static Texts raw() { return { nameOf< ChaiBuffer< T > >(), nameOf< ChaiBuffer< P > >(), nameOf< ChaiBuffer< P > >() }; }
  static Ptrs ptrs( C const & c ) { auto const w = c.toViewConst(); return { w.getValues(), w.getSizes(), w.getOffsets() }; }
  static void release( C & ) {}
  static void grow( C & c, long const how, Rng & r )
  {
    T const x[ 3 ] = { v( 1 ), v( 2 ), v( 3 ) };
    switch( how % 6 )
    {
      case 0: c.appendArray( x, x + 3 ); break;
      case 1: c.resize( c.size() + r.range( 1, 300 ), 2 ); break;
      case 2: c.reserveValues( c.valueCapacity() + r.range( 1, 900 ) ); c.reserve( c.size() + r.range( 1, 90 ) ); break;
      case 3: c.compress(); c.appendArray( 2 ); break;
      case 4: { std::vector< P > caps( std::size_t( r.range( 1, 60 ) ), 2 ); c.resizeFromCapacities< RAJA::loop_exec >( P( caps.size() ), caps.data() ); } break;
      default: c.insertArray( 0, x, x + 2 );
    }
    if( c.size() == 0 ) c.appendArray( x, x + 1 );
    c.emplaceBack( 0, v( 4 ) );
  }
  static void see( C const & c, long const s, long const t, long const how )
  {
    switch( how % 4 )
    {
      case 0: moveOrCapture( c.toView(), s, t, how / 4 ); break;
      case 1: moveOrCapture( c.toViewConst(), s, t, how / 4 ); break;
      case 2: moveOrCapture( c.toViewConstSizes(), s, t, how / 4 ); break;
      default: moveOrCapture( c.toViewConst(), s, t, how / 4 );
    }
  }
};
struct KAoS
{
  using C = LvArray::ArrayOfSets< T, P, ChaiBuffer >;
  static C * fresh() { return new C; }
  static Texts raw() { return KAoA::raw(); }
  static Ptrs ptrs( C const & c ) { auto const w = c.toViewConst(); return { w.getValues(), w.getSizes(), w.getOffsets() }; }
  static void release( C & ) {}
  static void grow( C & c, long const how, Rng & r )
  {
    switch( how % 4 )
    {
      case 0: c.appendSet( 3 ); break;
      case 1: c.resize( c.size() + r.range( 1, 300 ), 2 ); break;
      case 2: c.reserveValues( c.valueCapacity() + r.range( 1, 900 ) ); c.reserve( c.size() + r.range( 1, 90 ) ); break;
      default: c.compress(); c.appendSet( 2 );
    }
    if( c.size() == 0 ) c.appendSet( 1 );
    c.insertIntoSet( 0, v( r.range( 0, 99 ) ) );
  }
  static void see( C const & c, long const s, long const t, long const how )
  { if( how % 3 == 0 ) moveOrCapture( c.toView(), s, t, how / 3 ); else if( how % 3 == 1 ) moveOrCapture( c.toViewConst(), s, t, how / 3 ); else moveOrCapture( c.toArrayOfArraysView(), s, t, how / 3 ); }
};
struct KSparse
{
  using C = LvArray::SparsityPattern< long, P, ChaiBuffer >;
  static C * fresh() { return new C; }
  static Texts raw() { return { nameOf< ChaiBuffer< long > >(), nameOf< ChaiBuffer< P > >(), nameOf< ChaiBuffer< P > >() }; }
  static Ptrs ptrs( C const & c ) { auto const w = c.toViewConst(); return { w.getColumns(), w.getSizes(), w.getOffsets() }; }
  static void release( C & ) {}
  template< typename X > static void rows( X & c, long const how, Rng & r )
  {
    switch( how % 4 )
    {
      case 0: c.resize( c.numRows() + r.range( 1, 200 ), 100, 2 ); break;
      case 1: c.reserveNonZeros( c.numNonZeros() + r.range( 1, 900 ) ); break;
      case 2: c.compress(); break;
      default: { std::vector< P > caps( std::size_t( r.range( 1, 60 ) ), 2 ); c.template resizeFromRowCapacities< RAJA::loop_exec >( P( caps.size() ), 100, caps.data() ); }
    }
    if( c.numRows() == 0 || c.numColumns() == 0 ) c.resize( 3, 100, 1 );
  }
  static void grow( C & c, long const how, Rng & r ) { rows( c, how, r ); c.insertNonZero( 0, r.range( 0, 99 ) ); }
  static void see( C const & c, long const s, long const t, long const how )
  { if( how % 2 ) moveOrCapture( c.toViewConst(), s, t, how / 2 ); else moveOrCapture( c.toView(), s, t, how / 2 ); }
};
struct KMatrix
{
  using C = LvArray::CRSMatrix< T, long, P, ChaiBuffer >;
  static C * fresh() { return new C; }
  static Texts raw() { return { nameOf< ChaiBuffer< long > >(), nameOf< ChaiBuffer< P > >(), nameOf< ChaiBuffer< P > >(), nameOf< ChaiBuffer< T > >() }; }
  static Ptrs ptrs( C const & c ) { auto const w = c.toViewConst(); return { w.getColumns(), w.getSizes(), w.getOffsets(), w.getEntries() }; }
  static void release( C & ) {}
  static void grow( C & c, long const how, Rng & r ) { KSparse::rows( c, how, r ); c.insertNonZero( 0, r.range( 0, 99 ), v( 7 ) ); }
  static void see( C const & c, long const s, long const t, long const how )
  {
    switch( how % 4 )
    {
      case 0: moveOrCapture( c.toView(), s, t, how / 4 ); break;
      case 1: moveOrCapture( c.toViewConst(), s, t, how / 4 ); break;
      case 2: moveOrCapture( c.toViewConstSizes(), s, t, how / 4 ); break;
      default: moveOrCapture( c.toSparsityPatternView(), s, t, how / 4 );
    }
  }
};

// ------------------------------------------------------------------------------------------------------- the events
static std::ostringstream & heard() { static auto * s = new std::ostringstream; return *s; }
static std::string texts( std::vector< std::string > const & all )
{
  std::string r = "[";
  for( std::size_t i = 0; i < all.size(); ++i )
  { VL c; for( char const x : all[ i ] ) c.push_back( long( static_cast< unsigned char >( x ) ) ); r += ( i ? "," : "" ) + J::list( c ); }
  return r + "]";
}
static std::string nameFor( long const n )
{
  static Texts const names = { "", "a", "two", "b c", "mesh/nodes/a rather long name of an array", "%s\\n\"quoted\"" };
  return names[ std::size_t( n ) % names.size() ];
}

template< typename K > struct Run
{
  using C = typename K::C;
  static constexpr bool isBuffer = std::is_same< K, KBuffer >::value;
  static constexpr bool isNested = std::is_same< K, KNested >::value;
  std::string kind;
  Rng & rng;
  std::unique_ptr< C > c[ 3 ];
  std::map< chai::PointerRecord const *, std::pair< long, long > > whose;
  Run( std::string const & k, Rng & r ): kind( k ), rng( r ) { J( "begin" ).kv( "kind", k ).emit(); mgr().log.moved.clear(); heard().str( "" ); mgr().enableCallbacks(); }
  ~Run() { for( long x : { 1, 2 } ) drop( x ); mgr().enableCallbacks(); }
  void drop( long const x ) { if( c[ x ] ) { c[ x ]->move( MemorySpace::host, true ); K::release( *c[ x ] ); c[ x ].reset(); } }
  void note()
  {
    whose.clear();
    for( long const x : { 1, 2 } ) if( c[ x ] )
    {
      Ptrs const all = K::ptrs( *c[ x ] );
      for( std::size_t p = 0; p < all.size(); ++p )
      { auto const it = mgr().log.record.find( const_cast< void * >( all[ p ] ) ); if( all[ p ] != nullptr && it != mgr().log.record.end() ) whose[ it->second ] = { x, long( p ) + 1 }; }
    }
  }
  void emit( J && j )
  {
    std::string copies = "[";
    for( auto const & m : mgr().log.moved )
    {
      auto const it = whose.find( m.record );
      if( copies.size() > 1 ) copies += ",";
      copies += "{\"x\":" + std::to_string( it == whose.end() ? 0 : it->second.first ) + ",\"p\":" + std::to_string( it == whose.end() ? 0 : it->second.second )
                + ",\"b\":" + J::list( limbs( m.bytes ) ) + ",\"s\":" + std::to_string( int( m.to ) ) + "}";
    }
    mgr().log.moved.clear();
    Texts lines;
    std::istringstream in( heard().str() );
    heard().str( "" );
    for( std::string line; std::getline( in, line ); ) lines.push_back( line );
    j.raw( "copies", copies + "]" ).raw( "lines", texts( lines ) ).emit();
  }
  void host( long const x ) { c[ x ]->move( MemorySpace::host, true ); }
  void setName( C & b, std::string const & n, long const how, std::true_type )
  { if( how % 2 ) b.template setName< double >( n ); else b.setName( n ); }
  void setName( C & b, std::string const & n, long, std::false_type ) { b.setName( n ); }
  void copy( long const x, long const y, std::false_type )
  {
    host( y );
    if( c[ x ] && rng.chance( 50 ) ) { host( x ); *c[ x ] = *c[ y ]; }
    else { if( c[ x ] ) { host( x ); c[ x ].reset(); } c[ x ].reset( new C( *c[ y ] ) ); }
  }
  void copy( long, long, std::true_type ) {}
  void into( long const x, long const y, long const how )
  {
    if( c[ x ] ) host( x );
    if( isBuffer && c[ x ] ) { K::release( *c[ x ] ); }
    if( c[ x ] && how % 2 ) *c[ x ] = std::move( *c[ y ] ); else c[ x ].reset( new C( std::move( *c[ y ] ) ) );
    c[ y ].reset();
  }
  // element operations of arrays of arrays
  bool elements( Op &, std::false_type ) { return false; }
  bool elements( Op & o, std::true_type )
  {
    long const x = o.i( "x" ), i = o.i( "i" );
    C & a = *c[ x ];
    host( x );
    if( o.name == "elements" )
    {
      switch( rng.below( 3 ) ) { case 0: a.resize( o.i( "n" ) ); break; case 1: while( a.size() < o.i( "n" ) ) a.emplace_back(); a.resize( o.i( "n" ) ); break; default: a.reserve( o.i( "n" ) + 1 ); a.resize( o.i( "n" ) ); }
      emit( std::move( J( "elements" ).kv( "x", x ).kv( "n", long( a.size() ) ) ) );
      return true;
    }
    if( i < 1 || i > a.size() ) { if( !mgr().log.moved.empty() ) emit( std::move( J( "move" ).kv( "x", x ) ) ); return true; }
    if( o.name == "nameElement" ) { a[ i - 1 ].setName( nameFor( o.i( "n" ) ) ); emit( std::move( J( "nameElement" ).kv( "x", x ).kv( "i", i ).codes( "name", nameFor( o.i( "n" ) ) ) ) ); }
    else { a.erase( i - 1 ); emit( std::move( J( "drop" ).kv( "x", x ).kv( "i", i ) ) ); }
    return true;
  }
  template< typename X = K > std::enable_if_t< std::is_same< X, KMatrix >::value || std::is_same< X, KAoS >::value || std::is_same< X, KAoA >::value || std::is_same< X, KArray >::value, bool > absorb( long const x )
  {
    host( x );
    Texts theirs;
    take( *c[ x ], theirs );
    emit( std::move( J( "absorb" ).kv( "x", x ).raw( "theirs", texts( theirs ) ) ) );
    return true;
  }
  template< typename X = K > std::enable_if_t< !( std::is_same< X, KMatrix >::value || std::is_same< X, KAoS >::value || std::is_same< X, KAoA >::value || std::is_same< X, KArray >::value ), bool > absorb( long ) { return false; }
  template< typename S > static void three( Texts & t, std::string const & n ) { t = { nameOf< S >() + " " + n + "/m_values", nameOf< S >() + " " + n + "/m_sizes", nameOf< S >() + " " + n + "/m_offsets" }; }
  void take( KMatrix::C & a, Texts & t )
  { KSparse::C s( 4, 100, 2 ); s.setName( "pattern" ); s.insertNonZero( 1, 3 ); three< KSparse::C >( t, "pattern" ); a.template assimilate< RAJA::loop_exec >( std::move( s ) ); }
  void take( KAoS::C & a, Texts & t )
  { KAoA::C s( 4, 2 ); s.setName( "rows" ); s.emplaceBack( 1, v( 3 ) ); three< KAoA::C >( t, "rows" ); a.assimilate( std::move( s ), LvArray::sortedArrayManipulation::SORTED_UNIQUE ); }
  void take( KAoA::C & a, Texts & t )
  { KAoS::C s( 4, 2 ); s.setName( "sets" ); s.insertIntoSet( 1, v( 3 ) ); three< KAoS::C >( t, "sets" ); a.assimilate( std::move( s ) ); }
  void take( KArray::C & a, Texts & t )
  { ChaiBuffer< T > b( true ); b.reallocate( 0, MemorySpace::host, 20 ); b.setName( "plain" ); t = { nameOf< ChaiBuffer< T > >() + " plain" }; a = KArray::C( std::move( b ) ); a.resize( 10 ); }

  bool run( Op & o )
  {
    long const x = o.i( "x", 1 ), y = o.i( "y" ), s = o.i( "s", 1 );
    current() = kind + " " + o.str();
    note();
    if( o.name == "callbacks" )
    { if( o.i( "n" ) ) mgr().enableCallbacks(); else mgr().disableCallbacks(); emit( std::move( J( "callbacks" ).kv( "n", o.i( "n" ) ) ) ); return true; }
    if( o.name == "make" )
    { if( c[ x ] ) return false; c[ x ].reset( K::fresh() ); emit( std::move( J( "make" ).kv( "x", x ).codes( "typ", nameOf< C >() ).raw( "raw", texts( K::raw() ) ) ) ); return true; }
    if( !c[ x ] && o.name != "into" && o.name != "copy" ) return false;
    if( o.name == "name" )
    {
      std::string const n = nameFor( o.i( "n" ) );
      long const how = isBuffer ? rng.below( 2 ) : 0;
      setName( *c[ x ], n, how, std::integral_constant< bool, isBuffer >{} );
      emit( std::move( J( "name" ).kv( "x", x ).codes( "typ", how ? nameOf< double >() : nameOf< C >() ).codes( "name", n ) ) );
    }
    else if( o.name == "grow" ) { host( x ); K::grow( *c[ x ], rng.below( 12 ), rng ); emit( std::move( J( "grow" ).kv( "x", x ) ) ); }
    else if( o.name == "move" ) { c[ x ]->move( space( s ), o.i( "t" ) != 0 ); emit( std::move( J( "move" ).kv( "x", x ) ) ); }
    else if( o.name == "view" ) { K::see( *c[ x ], s, o.i( "t" ), rng.below( 24 ) ); emit( std::move( J( "view" ).kv( "x", x ) ) ); }
    else if( o.name == "copy" )
    { if( isBuffer || x == y || !c[ y ] ) return false; copy( x, y, std::integral_constant< bool, isBuffer >{} ); emit( std::move( J( "copy" ).kv( "x", x ).kv( "y", y ) ) ); }
    else if( o.name == "into" ) { if( x == y || !c[ y ] ) return false; into( x, y, o.i( "how" ) ); emit( std::move( J( "into" ).kv( "x", x ).kv( "y", y ) ) ); }
    else if( o.name == "swap" )
    { if( x == y || !c[ y ] ) return false; std::swap( *c[ x ], *c[ y ] ); emit( std::move( J( "swap" ).kv( "x", x ).kv( "y", y ) ) ); }
    else if( o.name == "elements" || o.name == "nameElement" || o.name == "drop" ) return elements( o, std::integral_constant< bool, isNested >{} );
    else if( o.name == "absorb" ) return absorb( x );
    else if( o.name == "free" ) { drop( x ); emit( std::move( J( "free" ).kv( "x", x ) ) ); }
    else return false;
    return true;
  }
  template< typename X > static long count( X const & ) { return 1; }
  static long count( KNested::C const & a ) { return long( a.size() ); }
  Op draw()
  {
    long const x = rng.range( 1, 2 );
    if( !c[ x ] ) return rng.chance( 80 ) || !c[ 3 - x ] ? op( "make" ).set( "x", x ) : op( rng.chance( 50 ) ? "copy" : "into" ).set( "x", x ).set( "y", 3 - x );
    long const p = rng.below( 100 );
    if( isNested && rng.chance( 35 ) )
    { long const q = rng.below( 3 ); return op( q == 0 || count( *c[ x ] ) == 0 ? "elements" : q == 1 ? "nameElement" : "drop" ).set( "x", x ).set( "i", rng.range( 1, count( *c[ x ] ) ) ).set( "n", rng.below( 5 ) ); }
    if( p < 14 ) return op( "name" ).set( "x", x ).set( "n", rng.below( 6 ) );
    if( p < 30 ) return op( "grow" ).set( "x", x );
    if( p < 54 ) return op( "move" ).set( "x", x ).set( "s", rng.range( 1, 2 ) ).set( "t", rng.chance( 75 ) );
    if( p < 72 ) return op( "view" ).set( "x", x ).set( "s", rng.range( 1, 2 ) ).set( "t", rng.chance( 75 ) );
    if( p < 76 ) return op( "copy" ).set( "x", x ).set( "y", 3 - x );
    if( p < 81 ) return op( "into" ).set( "x", x ).set( "y", 3 - x ).set( "how", rng.below( 2 ) );
    if( p < 85 ) return op( "swap" ).set( "x", x ).set( "y", 3 - x );
    if( p < 88 ) return op( "callbacks" ).set( "n", rng.chance( 60 ) );
    if( p < 94 ) return op( "absorb" ).set( "x", x );
    if( p < 96 ) return op( "free" ).set( "x", x );
    return op( "grow" ).set( "x", x );
  }
};
template< typename K > void history( std::string const & k, Rng & rng, std::vector< Op > const * const script, long const len )
{
  Run< K > r( k, rng );
  if( script != nullptr ) { for( Op o : *script ) r.run( o ); return; }
  for( long i = 0; i < len; ++i ) { Op o = r.draw(); r.run( o ); }
}
static void any( std::string const & k, Rng & rng, std::vector< Op > const * const script, long const len )
{
  if( k == "buffer" ) history< KBuffer >( k, rng, script, len );
  else if( k == "array" ) history< KArray >( k, rng, script, len );
  else if( k == "table" ) history< KTable >( k, rng, script, len );
  else if( k == "sorted" ) history< KSorted >( k, rng, script, len );
  else if( k == "nested" ) history< KNested >( k, rng, script, len );
  else if( k == "aoa" ) history< KAoA >( k, rng, script, len );
  else if( k == "aos" ) history< KAoS >( k, rng, script, len );
  else if( k == "sparse" ) history< KSparse >( k, rng, script, len );
  else if( k == "crs" ) history< KMatrix >( k, rng, script, len );
}

int main( int argc, char ** argv )
{
  Args a( argc, argv );
  std::cout.rdbuf( heard().rdbuf() );
  Rng rng( a.seed );
  if( !a.script.empty() )
    for( auto & e : readScripts( a.script.c_str() ) ) { if( e.empty() || e[ 0 ].name != "kind" ) continue; any( e[ 0 ].text[ "text" ], rng, &e, a.len ); }
  else
  {
    char const * const kinds[] = { "buffer", "array", "table", "sorted", "nested", "aoa", "aos", "sparse", "crs" };
    for( long i = 0; i < a.n; ++i ) any( kinds[ i % 9 ], rng, nullptr, a.len );
  }
  return finish();
}
