// Containers whose storage exists in two (simulated) memory spaces, recorded for spec/MemSpaces.tla.
// VP_T: the type of the values.
#include "elem.hpp"
#include "vperr.hpp"
#include "ChaiBuffer.hpp"
#include "Array.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "memcpy.hpp"
#include <memory>
using namespace vp;
using P = std::ptrdiff_t;
using T = VP_T;
using LvArray::ChaiBuffer;
using LvArray::MemorySpace;
static chai::ArrayManager & mgr() { return *chai::ArrayManager::getInstance(); }
static MemorySpace space( long const s ) { return s == 1 ? MemorySpace::host : MemorySpace::cuda; }
using Device = RAJA::cuda_exec< 32 >;
using HostPolicy = RAJA::loop_exec;
// Code of space s runs.
template< typename F > void in( long const s, F && f ) { vpmem::blocks().enter( int( s ) ); f(); vpmem::blocks().enter( 1 ); }

using Ptrs = std::vector< std::vector< void const * > >;    // per part, the pointers of its blocks
struct Blk { VL info; long at = 0; };
static Blk look( void const * const p )
{
  Blk b;
  auto const it = mgr().log.record.find( const_cast< void * >( p ) );
  if( p == nullptr || it == mgr().log.record.end() ) { b.info = { 0, 0, 0, 0, 0, 0 }; return b; }
  chai::PointerRecord const & r = *it->second;
  b.info = { 1, long( r.m_last_space ), r.m_touched[ chai::CPU ], r.m_touched[ chai::GPU ], r.m_pointers[ chai::CPU ] != nullptr, r.m_pointers[ chai::GPU ] != nullptr };
  for( long const s : { 1, 2 } ) if( r.m_pointers[ s ] == p ) b.at = s;
  return b;
}

enum Caps { SET = 1, ROWS = 2, ZERO = 4 };
template< int CAPS, int C > using Can = std::integral_constant< bool, ( CAPS & C ) != 0 >;

struct Handle
{
  virtual ~Handle() {}
  virtual void move( long s, bool t ) = 0;
  virtual std::unique_ptr< Handle > copy() const = 0;
  virtual Ptrs ptrs() const = 0;
  virtual void read( VVL & rows, VVL & ents ) const = 0;
  virtual bool act( Op & o ) = 0;
  virtual bool zero() = 0;
  virtual bool fill( long s, long v ) = 0;
  virtual void touch() = 0;
  // do its pointers point to the copies used last?
  bool here() const
  {
    long where = 0;
    for( auto const & part : ptrs() ) for( auto const p : part )
    { Blk const b = look( p ); if( b.info[ 0 ] && b.at != b.info[ 1 ] ) return false; if( b.info[ 0 ] ) where = b.at; }
    (void) where;
    return true;
  }
  bool in( long const s ) const { for( auto const & part : ptrs() ) for( auto const p : part ) { Blk const b = look( p ); if( b.info[ 0 ] && b.info[ 1 ] != s ) return false; } return true; }
  // the space of all of its blocks, 0 if they are in different ones
  long where() const { return in( 1 ) ? 1 : in( 2 ) ? 2 : 0; }
  bool touched( std::vector< int > const & parts ) const
  {
    Ptrs const all = ptrs();
    for( int const k : parts ) for( auto const p : all[ k ] ) { Blk const b = look( p ); if( b.info[ 0 ] && !b.info[ std::size_t( 1 + b.info[ 1 ] ) ] ) return false; }
    return true;
  }
};

template< typename F, typename V, int CAPS > struct HandleOf : Handle
{
  explicit HandleOf( V const & x ): v( x ) {}
  void move( long const s, bool const t ) override { v.move( space( s ), t ); }
  std::unique_ptr< Handle > copy() const override { return std::unique_ptr< Handle >( new HandleOf( v ) ); }
  Ptrs ptrs() const override { return F::ptrs( v ); }
  void read( VVL & rows, VVL & ents ) const override { F::read( v, rows, ents ); }
  bool act( Op & o ) override
  {
    std::string const & a = o.text[ "act" ];
    if( a == "set" ) return set( o, Can< CAPS, SET >{} );
    if( a == "read" ) return true;
    return rows( o, Can< CAPS, ROWS >{} );
  }
  bool set( Op & o, std::true_type ) { return F::set( v, o ); }
  bool set( Op &, std::false_type ) { return false; }
  bool rows( Op & o, std::true_type ) { return F::rowsAct( v, o ); }
  bool rows( Op &, std::false_type ) { return false; }
  bool zero() override { return zeroIt( Can< CAPS, std::is_arithmetic< T >::value ? ZERO : 0 >{} ); }
  bool zeroIt( std::true_type ) { v.zero(); return true; }
  bool zeroIt( std::false_type ) { return false; }
  bool fill( long const s, long const x ) override { return fillIt( s, x, Can< CAPS, ZERO >{} ); }
  bool fillIt( long const s, long const x, std::true_type )
  { if( s == 2 ) v.template setValues< Device >( El< T >::mk( x ) ); else v.template setValues< HostPolicy >( El< T >::mk( x ) ); return true; }
  bool fillIt( long, long, std::false_type ) { return false; }
  void touch() override { F::touch( v ); }
  V v;
};

// What all kinds of containers have in common; the driver's own bookkeeping is in here.
struct Thing
{
  virtual ~Thing() {}
  std::map< std::string, std::unique_ptr< Handle > > handles;
  virtual bool take( std::string const & h ) = 0;
  virtual void move( long s, bool t ) = 0;
  virtual Ptrs ptrs() const = 0;
  virtual void read( VVL & rows, VVL & ents ) const = 0;
  virtual bool host( Op & o, VVL const & rows ) = 0;
  virtual void assign( Thing const & o, bool construct ) = 0;
  virtual void moveFrom( Thing & o, bool construct ) = 0;
  virtual void swapWith( Thing & o ) = 0;
  virtual bool zero() { return false; }
  virtual bool fill( long, long ) { return false; }
  virtual bool act( Op & ) { return false; }
  virtual bool deviceFill( long, long ) { return false; }
  virtual bool copyValues( Thing & ) { return false; }
  virtual void touch() {}
};
template< typename F, typename C > struct ThingOf : Thing
{
  std::unique_ptr< C > c;
  ThingOf() {}
  void move( long const s, bool const t ) override { c->move( space( s ), t ); }
  Ptrs ptrs() const override { return F::ptrs( F::constant( *c ) ); }
  void read( VVL & rows, VVL & ents ) const override { F::read( F::constant( *c ), rows, ents ); }
  bool take( std::string const & h ) override
  {
    std::unique_ptr< Handle > p = F::take( *c, h );
    if( !p ) return false;
    handles[ h ] = std::move( p );
    return true;
  }
  bool host( Op & o, VVL const & rows ) override { return F::host( *c, o, rows ); }
  void assign( Thing const & o, bool const construct ) override
  {
    C const & src = *static_cast< ThingOf const & >( o ).c;
    if( construct || !c ) c.reset( new C( src ) );
    else *c = src;
  }
  void moveFrom( Thing & o, bool const construct ) override
  {
    std::unique_ptr< C > & src = static_cast< ThingOf & >( o ).c;
    if( construct || !c ) c.reset( new C( std::move( *src ) ) );
    else *c = std::move( *src );
    src.reset();
  }
  void swapWith( Thing & o ) override { std::swap( *c, *static_cast< ThingOf & >( o ).c ); }
  bool zero() override { return F::zero( *c ); }
  bool fill( long const s, long const v ) override { return F::fill( *c, s, v ); }
  bool act( Op & o ) override { return F::ownAct( *c, o ); }
  bool deviceFill( long const n, long const v ) override { return F::deviceFill( *c, n, v ); }
  bool copyValues( Thing & o ) override { return F::copyValues( *c, *static_cast< ThingOf & >( o ).c ); }
  void touch() override { F::touch( *c ); }
};
#define H( F, V, CAPS ) std::unique_ptr< Handle >( new HandleOf< F, std::decay_t< decltype( V ) >, CAPS >( V ) )
struct Common
{
  template< typename C > static bool zero( C & ) { return false; }
  template< typename C > static bool fill( C &, long, long ) { return false; }
  template< typename C > static bool deviceFill( C &, long, long ) { return false; }
  template< typename C > static bool copyValues( C &, C & ) { return false; }
  template< typename V > static void touch( V & ) {}
  template< typename V > static bool rowsAct( V &, Op & ) { return false; }
  template< typename V > static bool set( V &, Op & ) { return false; }
  template< typename C > static bool ownAct( C &, Op & ) { return false; }
};
template< typename C > bool zeroOf( C & c, std::true_type ) { c.zero(); return true; }
template< typename C > bool zeroOf( C &, std::false_type ) { return false; }
template< typename C > bool fillOf( C & c, long const s, long const v )
{ if( s == 2 ) c.template setValues< Device >( El< T >::mk( v ) ); else c.template setValues< HostPolicy >( El< T >::mk( v ) ); return true; }

// ------------------------------------------------------------------------------------------------------- arrays
struct FArray : Common
{
  using C = LvArray::Array< T, 1, camp::idx_seq< 0 >, P, ChaiBuffer >;
  static auto constant( C const & c ) { return c.toViewConst(); }
  template< typename V > static Ptrs ptrs( V const & v ) { return { { v.data() }, {}, {}, {} }; }
  template< typename V > static void read( V const & v, VVL & rows, VVL & ) { VL r; for( P i = 0; i < v.size(); ++i ) r.push_back( El< T >::get( v[ i ] ) ); rows = { r }; }
  static std::unique_ptr< Handle > take( C const & c, std::string const & h )
  {
    if( h == "view" ) return H( FArray, c.toView(), SET | ZERO );
    if( h == "const" ) return H( FArray, c.toViewConst(), 0 );
    return nullptr;
  }
  template< typename V > static bool set( V & v, Op & o ) { P const i = P( o.i( "i" ) ) - 1; if( i < 0 || i >= v.size() ) return false; v[ i ] = El< T >::mk( o.i( "v" ) ); return true; }
  static bool ownAct( C & c, Op & o ) { return o.text[ "act" ] == "set" && set( c, o ); }
  static C * make( VVL const & rows, VVL const &, long ) { C * c = new C( P( rows[ 0 ].size() ) ); for( std::size_t i = 0; i < rows[ 0 ].size(); ++i ) ( *c )[ P( i ) ] = El< T >::mk( rows[ 0 ][ i ] ); return c; }
  static bool host( C & c, Op & o, VVL const & rows )
  {
    long const n = o.i( "n" ), i = o.i( "i" ) - 1;
    if( o.name == "resize" )
    {
      switch( o.i( "how" ) % 3 )
      {
        case 0: c.resizeDefault( n, El< T >::mk( o.i( "v" ) ) ); break;
        case 1: c.resize( n ); o.set( "v", El< T >::get( T() ) ); break;
        default: { P const d[ 1 ] = { n }; c.resize( 1, d ); o.set( "v", El< T >::get( T() ) ); }
      }
      return true;
    }
    if( o.name == "append" ) { c.emplace_back( El< T >::mk( o.i( "v" ) ) ); return true; }
    if( o.name == "erase" ) { if( i < 0 || i >= long( rows[ 0 ].size() ) ) return false; c.erase( i ); return true; }
    if( o.name == "clear" ) { c.clear(); return true; }
    if( o.name == "reserve" ) { c.reserve( n ); return true; }
    return false;
  }
  static bool zero( C & c ) { return zeroOf( c, std::is_arithmetic< T >{} ); }
  static bool fill( C & c, long const s, long const v ) { return fillOf( c, s, v ); }
  template< typename X = T > static std::enable_if_t< std::is_trivially_destructible< X >::value, bool > devFill( C & c, long const n, long const v )
  { c.resizeWithoutInitializationOrDestruction( MemorySpace::cuda, n ); c.setValues< Device >( El< T >::mk( v ) ); return true; }
  template< typename X = T > static std::enable_if_t< !std::is_trivially_destructible< X >::value, bool > devFill( C &, long, long ) { return false; }
  static bool deviceFill( C & c, long const n, long const v ) { return devFill( c, n, v ); }
  static bool copyValues( C & c, C & o ) { return copyValuesIf( c, o, std::is_trivially_copyable< T >{} ); }
  template< typename X > static bool copyValuesIf( X & c, X & o, std::true_type ) { LvArray::memcpy< 0, 0 >( c.toView(), {}, o.toViewConst(), {} ); return true; }
  template< typename X > static bool copyValuesIf( X &, X &, std::false_type ) { return false; }
  template< typename V > static void touch( V & v ) { Blk const b = look( v.data() ); v.registerTouch( space( b.info[ 1 ] ) ); }
};
struct FTable : Common      // two rows; the default dimension is not the one that varies slowest
{
  using C = LvArray::Array< T, 2, camp::idx_seq< 0, 1 >, P, ChaiBuffer >;
  static auto constant( C const & c ) { return c.toViewConst(); }
  template< typename V > static Ptrs ptrs( V const & v ) { return { { v.data() }, {}, {}, {} }; }
  template< typename V > static void read( V const & v, VVL & rows, VVL & ) { for( P i = 0; i < v.size( 0 ); ++i ) { VL r; for( P j = 0; j < v.size( 1 ); ++j ) r.push_back( El< T >::get( v( i, j ) ) ); rows.push_back( r ); } }
  static std::unique_ptr< Handle > take( C const & c, std::string const & h )
  {
    if( h == "view" ) return H( FTable, c.toView(), SET | ZERO );
    if( h == "const" ) return H( FTable, c.toViewConst(), 0 );
    return nullptr;
  }
  template< typename V > static bool set( V & v, Op & o )
  { P const r = P( o.i( "r" ) ) - 1, i = P( o.i( "i" ) ) - 1; if( r < 0 || r >= v.size( 0 ) || i < 0 || i >= v.size( 1 ) ) return false; v( r, i ) = El< T >::mk( o.i( "v" ) ); return true; }
  static bool ownAct( C & c, Op & o ) { return o.text[ "act" ] == "set" && set( c, o ); }
  static C * make( VVL const & rows, VVL const &, long )
  {
    C * c = new C( P( rows.size() ), P( rows[ 0 ].size() ) );
    c->setSingleParameterResizeIndex( 1 );
    for( std::size_t i = 0; i < rows.size(); ++i ) for( std::size_t j = 0; j < rows[ i ].size(); ++j ) ( *c )( P( i ), P( j ) ) = El< T >::mk( rows[ i ][ j ] );
    return c;
  }
  static bool host( C & c, Op & o, VVL const & )
  {
    if( o.name == "resize" )
    {
      if( o.i( "how" ) % 2 == 0 ) c.resizeDefault( o.i( "n" ), El< T >::mk( o.i( "v" ) ) );
      else { c.resize( o.i( "n" ) ); o.set( "v", El< T >::get( T() ) ); }
      return true;
    }
    if( o.name == "reserve" ) { c.reserve( o.i( "n" ) ); return true; }
    if( o.name == "clear" ) { c.clear(); return true; }
    return false;
  }
  static bool zero( C & c ) { return zeroOf( c, std::is_arithmetic< T >{} ); }
  static bool fill( C & c, long const s, long const v ) { return fillOf( c, s, v ); }
  template< typename V > static void touch( V & v ) { FArray::touch( v ); }
};
struct FNested : Common
{
  using I = LvArray::Array< T, 1, camp::idx_seq< 0 >, P, ChaiBuffer >;
  using C = LvArray::Array< I, 1, camp::idx_seq< 0 >, P, ChaiBuffer >;
  static auto constant( C const & c ) { return c.toNestedViewConst(); }
  template< typename V > static Ptrs ptrs( V const & v )
  {
    Ptrs p( 4 );
    p[ 0 ] = { v.data() };
    vpmem::Open open;
    for( P i = 0; i < v.size(); ++i ) p[ 1 ].push_back( v[ i ].data() );
    return p;
  }
  template< typename V > static void read( V const & v, VVL & rows, VVL & )
  { for( P i = 0; i < v.size(); ++i ) { VL r; for( P j = 0; j < v[ i ].size(); ++j ) r.push_back( El< T >::get( v[ i ][ j ] ) ); rows.push_back( r ); } }
  static std::unique_ptr< Handle > take( C const & c, std::string const & h )
  {
    if( h == "view" ) return H( FNested, c.toView(), SET );
    if( h == "sizes" ) return H( FNested, c.toNestedView(), SET );
    if( h == "const" ) return H( FNested, c.toNestedViewConst(), 0 );
    if( h == "other" ) return H( FNested, c.toViewConst(), 0 );
    return nullptr;
  }
  template< typename V > static bool set( V & v, Op & o )
  {
    P const r = P( o.i( "r" ) ) - 1, i = P( o.i( "i" ) ) - 1;
    if( r < 0 || r >= v.size() || i < 0 || i >= v[ r ].size() ) return false;
    v[ r ][ i ] = El< T >::mk( o.i( "v" ) );
    return true;
  }
  static bool ownAct( C & c, Op & o ) { return o.text[ "act" ] == "set" && set( c, o ); }
  static C * make( VVL const & rows, VVL const &, long )
  {
    C * c = new C( P( rows.size() ) );
    for( std::size_t i = 0; i < rows.size(); ++i ) { ( *c )[ P( i ) ].resize( P( rows[ i ].size() ) ); for( std::size_t j = 0; j < rows[ i ].size(); ++j ) ( *c )[ P( i ) ][ P( j ) ] = El< T >::mk( rows[ i ][ j ] ); }
    return c;
  }
  static bool host( C & c, Op & o, VVL const & rows )
  {
    long const n = o.i( "n" ), r = o.i( "r" ) - 1;
    if( o.name == "resize" ) { c.resize( n ); return true; }
    if( o.name == "inner" ) { if( r < 0 || r >= long( rows.size() ) ) return false; c[ r ].resizeDefault( n, El< T >::mk( 0 ) ); return true; }
    if( o.name == "append" ) { I x( P( o.v( "vals" ).size() ) ); P k = 0; for( long const y : o.v( "vals" ) ) x[ k++ ] = El< T >::mk( y ); if( o.i( "how" ) % 2 ) c.emplace_back( std::move( x ) ); else c.emplace_back( x ); return true; }
    if( o.name == "erase" ) { if( o.i( "i" ) < 1 || o.i( "i" ) > long( rows.size() ) ) return false; c.erase( o.i( "i" ) - 1 ); return true; }
    if( o.name == "clear" ) { c.clear(); return true; }
    if( o.name == "reserve" ) { c.reserve( n ); return true; }
    return false;
  }
};
struct FSorted : Common
{
  using C = LvArray::SortedArray< T, P, ChaiBuffer >;
  static auto constant( C const & c ) { return c.toView(); }
  template< typename V > static Ptrs ptrs( V const & v ) { return { { v.data() }, {}, {}, {} }; }
  template< typename V > static void read( V const & v, VVL & rows, VVL & ) { VL r; for( P i = 0; i < v.size(); ++i ) r.push_back( El< T >::get( v[ i ] ) ); rows = { r }; }
  static std::unique_ptr< Handle > take( C const & c, std::string const & h )
  {
    if( h == "view" ) return H( FSorted, c.toView(), 0 );
    if( h == "const" ) return H( FSorted, c.toViewConst(), 0 );
    return nullptr;
  }
  static C * make( VVL const & rows, VVL const &, long ) { C * c = new C; for( long const x : rows[ 0 ] ) c->insert( El< T >::mk( x ) ); return c; }
  static bool host( C & c, Op & o, VVL const & )
  {
    T const v = El< T >::mk( o.i( "v" ) );
    if( o.name == "insert" ) { if( o.i( "how" ) % 2 ) c.insert( v ); else c.insert( &v, &v + 1 ); return true; }
    if( o.name == "remove" ) { if( o.i( "how" ) % 2 ) c.remove( v ); else c.remove( &v, &v + 1 ); return true; }
    if( o.name == "clear" ) { c.clear(); return true; }
    if( o.name == "reserve" ) { c.reserve( o.i( "n" ) ); return true; }
    return false;
  }
};
// ------------------------------------------------------------------------------------------- rows of values
struct FAoA : Common
{
  using C = LvArray::ArrayOfArrays< T, P, ChaiBuffer >;
  static auto constant( C const & c ) { return c.toViewConst(); }
  template< typename V > static Ptrs ptrs( V const & v ) { return { { v.getValues() }, { v.getSizes() }, { v.getOffsets() }, {} }; }
  template< typename V > static void read( V const & v, VVL & rows, VVL & )
  { for( P i = 0; i < v.size(); ++i ) { VL r; for( P j = 0; j < v.sizeOfArray( i ); ++j ) r.push_back( El< T >::get( v( i, j ) ) ); rows.push_back( r ); } }
  static std::unique_ptr< Handle > take( C const & c, std::string const & h )
  {
    if( h == "view" ) return H( FAoA, c.toView(), SET | ROWS );
    if( h == "sizes" ) return H( FAoA, c.toViewConstSizes(), SET );
    if( h == "const" ) return H( FAoA, c.toViewConst(), 0 );
    return nullptr;
  }
  template< typename V > static bool set( V & v, Op & o )
  {
    P const r = P( o.i( "r" ) ) - 1, i = P( o.i( "i" ) ) - 1;
    if( r < 0 || r >= v.size() || i < 0 || i >= v.sizeOfArray( r ) ) return false;
    v( r, i ) = El< T >::mk( o.i( "v" ) );
    return true;
  }
  template< typename V > static bool rowsAct( V & v, Op & o )
  {
    P const r = P( o.i( "r" ) ) - 1;
    if( r < 0 || r >= v.size() ) return false;
    if( o.text[ "act" ] == "push" ) { if( v.sizeOfArray( r ) == v.capacityOfArray( r ) ) return false; v.emplaceBack( r, El< T >::mk( o.i( "v" ) ) ); return true; }
    if( o.text[ "act" ] == "pop" ) { if( v.sizeOfArray( r ) == 0 ) return false; v.eraseFromArray( r, v.sizeOfArray( r ) - 1 ); return true; }
    return false;
  }
  static bool ownAct( C & c, Op & o ) { auto v = c.toView(); return o.text[ "act" ] == "set" ? set( v, o ) : rowsAct( v, o ); }
  static C * make( VVL const & rows, VVL const &, long const spare )
  {
    C * c = new C( P( rows.size() ), 4 );
    for( std::size_t i = 0; i < rows.size(); ++i ) { c->setCapacityOfArray( P( i ), P( rows[ i ].size() ) + spare ); for( long const x : rows[ i ] ) c->emplaceBack( P( i ), El< T >::mk( x ) ); }
    return c;
  }
  static bool host( C & c, Op & o, VVL const & rows )
  {
    long const n = o.i( "n" ), r = o.i( "r" ) - 1, i = o.i( "i" ) - 1;
    if( o.name == "resize" ) { if( o.i( "how" ) % 2 ) c.resize( n, 2 ); else c.resize( n ); return true; }
    if( o.name == "append" ) { std::vector< T > const x = mkAll< T >( o.v( "vals" ) ); c.appendArray( x.begin(), x.end() ); return true; }
    if( o.name == "erase" ) { if( i < 0 || i >= long( rows.size() ) ) return false; c.eraseArray( i ); return true; }
    if( o.name == "capacity" ) { if( r < 0 || r >= long( rows.size() ) ) return false; c.setCapacityOfArray( r, n ); return true; }
    if( o.name == "reserve" ) { c.reserveValues( n ); return true; }
    if( o.name == "reserveRows" ) { c.reserve( n ); return true; }
    if( o.name == "compress" ) { c.compress(); return true; }
    return false;
  }
  static void touch( C & c ) { touch0( c.toView() ); }
  template< typename V > static void touch( V & v ) { touch0( v ); }
  template< typename V > static void touch0( V const & v ) { v.registerTouch( space( look( v.getOffsets() ).info[ 1 ] ) ); }
};
template< typename V > static bool setsAct( V & v, Op & o, P const size )
{
  P const r = P( o.i( "r" ) ) - 1;
  if( r < 0 || r >= size ) return false;
  T const x = El< T >::mk( o.i( "v" ) );
  if( o.text[ "act" ] == "insert" ) { if( v.sizeOfSet( r ) == v.capacityOfSet( r ) ) return false; v.insertIntoSet( r, x ); return true; }
  if( o.text[ "act" ] == "remove" ) { v.removeFromSet( r, x ); return true; }
  return false;
}
struct FAoS : Common
{
  using C = LvArray::ArrayOfSets< T, P, ChaiBuffer >;
  static auto constant( C const & c ) { return c.toViewConst(); }
  template< typename V > static Ptrs ptrs( V const & v ) { return { { v.getValues() }, { v.getSizes() }, { v.getOffsets() }, {} }; }
  template< typename U > static P length( LvArray::ArrayOfSetsView< U, P const, ChaiBuffer > const & v, P const i ) { return v.sizeOfSet( i ); }
  template< typename U > static P length( LvArray::ArrayOfArraysView< U, P const, true, ChaiBuffer > const & v, P const i ) { return v.sizeOfArray( i ); }
  template< typename V > static void read( V const & v, VVL & rows, VVL & )
  { for( P i = 0; i < v.size(); ++i ) { VL r; for( P j = 0; j < length( v, i ); ++j ) r.push_back( El< T >::get( v( i, j ) ) ); rows.push_back( r ); } }
  static std::unique_ptr< Handle > take( C const & c, std::string const & h )
  {
    if( h == "view" ) return H( FAoS, c.toView(), ROWS );
    if( h == "const" ) return H( FAoS, c.toViewConst(), 0 );
    if( h == "other" ) return H( FAoS, c.toArrayOfArraysView(), 0 );
    return nullptr;
  }
  template< typename V > static bool rowsAct( V & v, Op & o ) { return setsAct( v, o, v.size() ); }
  static bool ownAct( C & c, Op & o ) { auto v = c.toView(); return setsAct( v, o, v.size() ); }
  static C * make( VVL const & rows, VVL const &, long const spare )
  {
    C * c = new C( P( rows.size() ), 4 );
    for( std::size_t i = 0; i < rows.size(); ++i ) { c->setCapacityOfSet( P( i ), P( rows[ i ].size() ) + spare ); for( long const x : rows[ i ] ) c->insertIntoSet( P( i ), El< T >::mk( x ) ); }
    return c;
  }
  static bool host( C & c, Op & o, VVL const & rows )
  {
    long const n = o.i( "n" ), r = o.i( "r" ) - 1, i = o.i( "i" ) - 1;
    if( o.name == "resize" ) { c.resize( n ); return true; }
    if( o.name == "append" ) { VL const x = o.v( "vals" ); c.appendSet( P( x.size() ) ); for( long const y : x ) c.insertIntoSet( P( rows.size() ), El< T >::mk( y ) ); return true; }
    if( o.name == "erase" ) { if( i < 0 || i >= long( rows.size() ) ) return false; c.eraseSet( i ); return true; }
    if( o.name == "capacity" ) { if( r < 0 || r >= long( rows.size() ) ) return false; c.setCapacityOfSet( r, n ); return true; }
    if( o.name == "insert" ) { if( r < 0 || r >= long( rows.size() ) ) return false; c.insertIntoSet( r, El< T >::mk( o.i( "v" ) ) ); return true; }
    if( o.name == "remove" ) { if( r < 0 || r >= long( rows.size() ) ) return false; c.removeFromSet( r, El< T >::mk( o.i( "v" ) ) ); return true; }
    if( o.name == "reserve" ) { c.reserveValues( n ); return true; }
    if( o.name == "reserveRows" ) { c.reserve( n ); return true; }
    if( o.name == "compress" ) { c.compress(); return true; }
    return false;
  }
};
template< typename V > bool roomIn( V const & v, P const r ) { return v.numNonZeros( r ) < v.nonZeroCapacity( r ); }
static constexpr P COLUMNS = 100;
struct FSparse : Common
{
  using C = LvArray::SparsityPattern< long, P, ChaiBuffer >;
  static auto constant( C const & c ) { return c.toViewConst(); }
  template< typename V > static Ptrs ptrs( V const & v ) { return { { v.getColumns() }, { v.getSizes() }, { v.getOffsets() }, {} }; }
  template< typename V > static void read( V const & v, VVL & rows, VVL & )
  { for( P i = 0; i < v.numRows(); ++i ) { VL r; for( P j = 0; j < v.numNonZeros( i ); ++j ) r.push_back( v.getColumns( i )[ j ] ); rows.push_back( r ); } }
  static std::unique_ptr< Handle > take( C const & c, std::string const & h )
  {
    if( h == "view" ) return H( FSparse, c.toView(), ROWS );
    if( h == "const" ) return H( FSparse, c.toViewConst(), 0 );
    return nullptr;
  }
  template< typename V > static bool rowsAct( V & v, Op & o )
  {
    P const r = P( o.i( "r" ) ) - 1;
    if( r < 0 || r >= v.numRows() || o.i( "v" ) >= COLUMNS ) return false;
    if( o.text[ "act" ] == "insert" ) { if( !roomIn( v, r ) ) return false; v.insertNonZero( r, o.i( "v" ) ); return true; }
    if( o.text[ "act" ] == "remove" ) { v.removeNonZero( r, o.i( "v" ) ); return true; }
    return false;
  }
  static bool ownAct( C & c, Op & o ) { auto v = c.toView(); return rowsAct( v, o ); }
  static C * make( VVL const & rows, VVL const &, long const spare )
  {
    C * c = new C( P( rows.size() ), COLUMNS, 4 );
    for( std::size_t i = 0; i < rows.size(); ++i ) { c->setRowCapacity( P( i ), P( rows[ i ].size() ) + spare ); for( long const x : rows[ i ] ) c->insertNonZero( P( i ), x ); }
    return c;
  }
  static bool host( C & c, Op & o, VVL const & rows )
  {
    long const n = o.i( "n" ), r = o.i( "r" ) - 1;
    if( o.name == "resize" ) { c.resize( n, COLUMNS, o.i( "how" ) % 3 ); return true; }
    if( o.name == "capacity" ) { if( r < 0 || r >= long( rows.size() ) ) return false; c.setRowCapacity( r, n ); return true; }
    if( o.name == "insert" ) { if( r < 0 || r >= long( rows.size() ) || o.i( "v" ) >= COLUMNS ) return false; c.insertNonZero( r, o.i( "v" ) ); return true; }
    if( o.name == "remove" ) { if( r < 0 || r >= long( rows.size() ) || o.i( "v" ) >= COLUMNS ) return false; c.removeNonZero( r, o.i( "v" ) ); return true; }
    if( o.name == "reserve" ) { c.reserveNonZeros( n ); return true; }
    if( o.name == "reserveRows" ) { c.reserveRows( n ); return true; }
    if( o.name == "compress" ) { c.compress(); return true; }
    return false;
  }
};
struct FMatrix : Common
{
  using C = LvArray::CRSMatrix< T, long, P, ChaiBuffer >;
  static auto constant( C const & c ) { return c.toViewConst(); }
  template< typename U, typename V, typename W > static Ptrs ptrs( LvArray::CRSMatrixView< U, V, W, ChaiBuffer > const & v ) { return { { v.getColumns() }, { v.getSizes() }, { v.getOffsets() }, { v.getEntries() } }; }
  template< typename V, typename W > static Ptrs ptrs( LvArray::SparsityPatternView< V, W, ChaiBuffer > const & v ) { return FSparse::ptrs( v ); }
  template< typename U, typename V, typename W > static void read( LvArray::CRSMatrixView< U, V, W, ChaiBuffer > const & v, VVL & rows, VVL & ents )
  {
    FSparse::read( v, rows, ents );
    for( P i = 0; i < v.numRows(); ++i ) { VL r; for( P j = 0; j < v.numNonZeros( i ); ++j ) r.push_back( El< T >::get( v.getEntries( i )[ j ] ) ); ents.push_back( r ); }
  }
  template< typename V, typename W > static void read( LvArray::SparsityPatternView< V, W, ChaiBuffer > const & v, VVL & rows, VVL & ents ) { FSparse::read( v, rows, ents ); }
  static std::unique_ptr< Handle > take( C const & c, std::string const & h )
  {
    if( h == "view" ) return H( FMatrix, c.toView(), SET | ROWS | ZERO );
    if( h == "sizes" ) return H( FMatrix, c.toViewConstSizes(), SET | ZERO );
    if( h == "const" ) return H( FMatrix, c.toViewConst(), 0 );
    if( h == "other" ) return H( FMatrix, c.toSparsityPatternView(), 0 );
    return nullptr;
  }
  template< typename V > static bool set( V & v, Op & o )
  {
    P const r = P( o.i( "r" ) ) - 1, i = P( o.i( "i" ) ) - 1;
    if( r < 0 || r >= v.numRows() || i < 0 || i >= v.numNonZeros( r ) ) return false;
    v.getEntries( r )[ i ] = El< T >::mk( o.i( "v" ) );
    return true;
  }
  template< typename V > static bool rowsAct( V & v, Op & o )
  {
    P const r = P( o.i( "r" ) ) - 1;
    if( r < 0 || r >= v.numRows() || o.i( "v" ) >= COLUMNS ) return false;
    if( o.text[ "act" ] == "insert" ) { if( !roomIn( v, r ) ) return false; v.insertNonZero( r, o.i( "v" ), El< T >::mk( o.i( "w" ) ) ); return true; }
    if( o.text[ "act" ] == "remove" ) { v.removeNonZero( r, o.i( "v" ) ); return true; }
    return false;
  }
  static bool ownAct( C & c, Op & o ) { auto v = c.toView(); return o.text[ "act" ] == "set" ? set( v, o ) : rowsAct( v, o ); }
  static C * make( VVL const & rows, VVL const & ents, long const spare )
  {
    C * c = new C( P( rows.size() ), COLUMNS, 4 );
    for( std::size_t i = 0; i < rows.size(); ++i )
    {
      c->setRowCapacity( P( i ), P( rows[ i ].size() ) + spare );
      for( std::size_t j = 0; j < rows[ i ].size(); ++j ) c->insertNonZero( P( i ), rows[ i ][ j ], El< T >::mk( ents[ i ][ j ] ) );
    }
    return c;
  }
  static bool host( C & c, Op & o, VVL const & rows )
  {
    long const n = o.i( "n" ), r = o.i( "r" ) - 1;
    if( o.name == "resize" ) { c.resize( n, COLUMNS, o.i( "how" ) % 3 ); return true; }
    if( o.name == "capacity" ) { if( r < 0 || r >= long( rows.size() ) ) return false; c.setRowCapacity( r, n ); return true; }
    if( o.name == "insert" ) { if( r < 0 || r >= long( rows.size() ) || o.i( "v" ) >= COLUMNS ) return false; c.insertNonZero( r, o.i( "v" ), El< T >::mk( o.i( "w" ) ) ); return true; }
    if( o.name == "remove" ) { if( r < 0 || r >= long( rows.size() ) || o.i( "v" ) >= COLUMNS ) return false; c.removeNonZero( r, o.i( "v" ) ); return true; }
    if( o.name == "reserve" ) { c.reserveNonZeros( n ); return true; }
    if( o.name == "compress" ) { c.compress(); return true; }
    return false;
  }
  static bool zero( C & c ) { return zeroOf( c, std::is_arithmetic< T >{} ); }
  static bool fill( C & c, long const s, long const v ) { return fillOf( c, s, v ); }
};

// --------------------------------------------------------------------------------------------------- episodes
using Things = std::unique_ptr< Thing > [ 3 ];
struct Kind { std::function< Thing *() > none; std::function< void( Thing &, VVL const &, VVL const &, long ) > make; };
template< typename F > Kind kindOf()
{
  using TH = ThingOf< F, typename F::C >;
  return { [] { return new TH; }, []( Thing & t, VVL const & rows, VVL const & ents, long const spare ) { static_cast< TH & >( t ).c.reset( F::make( rows, ents, spare ) ); } };
}
static std::map< std::string, Kind > const & kinds()
{
  static auto const * k = new std::map< std::string, Kind >{
    { "array", kindOf< FArray >() }, { "table", kindOf< FTable >() }, { "nested", kindOf< FNested >() }, { "sorted", kindOf< FSorted >() },
    { "aoa", kindOf< FAoA >() }, { "aos", kindOf< FAoS >() }, { "sparse", kindOf< FSparse >() }, { "crs", kindOf< FMatrix >() } };
  return *k;
}

struct Episode
{
  std::string kind;
  std::unique_ptr< Thing > t[ 3 ];      // 1 and 2
  bool live[ 3 ] = {};
  Rng & rng;
  long next = 1;                        // the next value
  long wrong0 = 0;
  explicit Episode( Rng & r ): rng( r ) {}

  struct OwnHandle : Handle             // the container as a handle
  {
    Thing & t;
    explicit OwnHandle( Thing & x ): t( x ) {}
    void move( long const s, bool const x ) override { t.move( s, x ); }
    std::unique_ptr< Handle > copy() const override { return nullptr; }
    Ptrs ptrs() const override { return t.ptrs(); }
    void read( VVL & rows, VVL & ents ) const override { t.read( rows, ents ); }
    bool act( Op & o ) override { return t.act( o ); }
    bool zero() override { return t.zero(); }
    bool fill( long const s, long const v ) override { return t.fill( s, v ); }
    void touch() override { t.touch(); }
  };
  Handle * handle( long const x, std::string const & h )
  {
    static std::unique_ptr< OwnHandle > own;
    if( !live[ x ] ) return nullptr;
    if( h == "own" ) { own.reset( new OwnHandle( *t[ x ] ) ); return own.get(); }
    auto const it = t[ x ]->handles.find( h );
    return it == t[ x ]->handles.end() ? nullptr : it->second.get();
  }
  static std::vector< int > allParts() { return { 0, 1, 2, 3 }; }
  bool hostHere( long const x ) { Handle * const h = handle( x, "own" ); return h && h->here() && h->in( 1 ); }
  bool hostReady( long const x ) { return hostHere( x ) && handle( x, "own" )->touched( allParts() ); }

  void emit( Op const & o, long const x, std::string const & hn, Handle * const h, long const inSpace )
  {
    J j( o.name.c_str() );
    j.kv( "x", x ).kv( "h", hn );
    for( auto const & a : o.args ) if( a.first != "x" )
    { if( a.first == "vals" ) j.kv( "vals", a.second ); else j.kv( a.first.c_str(), a.second.empty() ? 0 : a.second[ 0 ] ); }
    for( auto const & a : o.text ) if( a.first == "act" ) j.kv( "act", a.second );
    if( h != nullptr )
    {
      std::string at = "[";
      VL p;
      Ptrs const all = h->ptrs();
      for( std::size_t k = 0; k < 4; ++k )
      {
        VVL b;
        for( auto const q : all[ k ] ) b.push_back( look( q ).info );
        p.push_back( all[ k ].empty() ? 0 : look( all[ k ][ 0 ] ).at );
        std::string s = "[";
        for( std::size_t i = 0; i < b.size(); ++i ) s += ( i ? "," : "" ) + J::list( b[ i ] );
        at += ( k ? "," : "" ) + s + "]";
      }
      j.raw( "at", at + "]" ).kv( "p", p );
      if( inSpace != 0 || h->here() )
      {
        long const s = inSpace ? inSpace : h->where();
        if( s != 0 )
        {
          VVL rows, ents;
          in( s, [&] { h->read( rows, ents ); } );
          j.kv( "rows", rows ).kv( "ents", ents );
        }
      }
    }
    j.kv( "blocks", long( mgr().log.live.size() ) ).kv( "bad", mgr().log.badFrees + mgr().pointerMismatch * 0 );
    j.emit();
  }
  VL someRow( long const n, bool const sorted )
  {
    VL r;
    for( long k = 0; k < n; ++k ) r.push_back( sorted ? rng.below( COLUMNS - 1 ) + 1 : next++ );
    if( sorted ) { std::sort( r.begin(), r.end() ); r.erase( std::unique( r.begin(), r.end() ), r.end() ); }
    return r;
  }
  bool sorted() const { return kind == "sorted" || kind == "aos" || kind == "sparse" || kind == "crs"; }
  bool flat() const { return kind == "array" || kind == "sorted"; }
  void drop( long const x ) { if( t[ x ] ) t[ x ]->handles.clear(); }
  VVL rowsOf( long const x ) { VVL rows, ents; t[ x ]->read( rows, ents ); return rows; }

  bool make( Op & o )
  {
    long const x = o.i( "x", 1 );
    if( live[ x ] ) return false;
    t[ x ].reset( kinds().at( kind ).none() );
    VVL rows, ents;
    long const n = flat() ? 1 : 2;
    long const len = 1 + rng.below( 3 );
    for( long k = 0; k < n; ++k ) rows.push_back( someRow( kind == "table" || kind == "nested" ? len : 1 + rng.below( 3 ), sorted() ) );
    if( kind == "crs" ) for( auto const & r : rows ) ents.push_back( someRow( long( r.size() ), false ) );
    kinds().at( kind ).make( *t[ x ], rows, ents, 2 );
    live[ x ] = true;
    emit( o, x, "own", handle( x, "own" ), 0 );
    return true;
  }
  // what an operation on the contents uses: a row, a position and a value
  void details( Op & o, long const x )
  {
    if( o.has( "n" ) || o.has( "vals" ) ) return;
    (void) x;
    o.set( "r", flat() ? 1 : 1 + rng.below( 2 ) ).set( "i", 1 + rng.below( 2 ) );
    o.set( "v", sorted() && ( o.text[ "act" ] != "set" ) ? 1 + rng.below( COLUMNS - 1 ) : next++ ).set( "w", next++ );
  }
  bool step( Op o )
  {
    long const x = o.i( "x", 1 ), y = o.i( "y", 3 - x ), s = o.i( "s", 1 );
    std::string const hn = o.text.count( "h" ) ? o.text[ "h" ] : "own";
    current() = o.str();
    if( o.name == "make" ) return make( o );
    if( o.name == "free" ) { if( !live[ x ] ) return false; drop( x ); t[ x ].reset(); live[ x ] = false; emit( o, x, "own", nullptr, 0 ); return true; }
    if( o.name == "swap" )
    {
      if( !live[ 1 ] || !live[ 2 ] ) return false;
      drop( 1 ); drop( 2 );
      t[ 1 ]->swapWith( *t[ 2 ] );
      o.set( "x", 1 );
      emit( o, 1, "own", handle( 1, "own" ), 0 );
      return true;
    }
    if( o.name == "moveInto" )
    {
      if( !live[ y ] ) return false;
      drop( x ); drop( y );
      if( !t[ x ] ) t[ x ].reset( kinds().at( kind ).none() );
      t[ x ]->moveFrom( *t[ y ], rng.chance( 30 ) );
      live[ x ] = true; live[ y ] = false; t[ y ].reset();
      emit( o, x, "own", handle( x, "own" ), 0 );
      return true;
    }
    if( o.name == "copy" )
    {
      if( !hostHere( y ) || ( live[ x ] && !hostReady( x ) ) ) return false;
      drop( x );
      if( !t[ x ] ) t[ x ].reset( kinds().at( kind ).none() );
      t[ x ]->assign( *t[ y ], rng.chance( 30 ) );
      live[ x ] = true;
      emit( o, x, "own", handle( x, "own" ), 0 );
      return true;
    }
    if( !live[ x ] ) return false;
    if( o.name == "take" )
    {
      bool any = false;
      for( auto const & part : t[ x ]->ptrs() ) for( auto const p : part ) any = any || p != nullptr;
      if( !any || !t[ x ]->take( hn ) ) return false;
      emit( o, x, hn, handle( x, hn ), 0 );
      return true;
    }
    if( o.name == "deviceFill" )
    {
      if( kind != "array" || !hostHere( x ) || !rowsOf( x )[ 0 ].empty() ) return false;
      o.set( "n", 1 + rng.below( 6 ) ).set( "v", next++ );
      if( !std::is_trivially_destructible< T >::value ) return false;
      drop( x );
      if( !t[ x ]->deviceFill( o.i( "n" ), o.i( "v" ) ) ) return false;
      emit( o, x, "own", handle( x, "own" ), 0 );
      return true;
    }
    if( o.name == "memcpy" )
    {
      if( kind != "array" || !live[ y ] || !std::is_trivially_copyable< T >::value ) return false;
      VVL a, b, e;
      { vpmem::Open open; t[ x ]->read( a, e ); t[ y ]->read( b, e ); }
      if( a[ 0 ].size() != b[ 0 ].size() || a[ 0 ].empty() ) return false;
      if( !t[ x ]->copyValues( *t[ y ] ) ) return false;
      emit( o, x, "own", handle( x, "own" ), 0 );
      return true;
    }
    Handle * const h = handle( x, hn );
    if( h == nullptr ) return false;
    if( o.name == "move" ) { h->move( s, o.i( "t" ) != 0 ); emit( o, x, hn, h, 0 ); return true; }
    if( o.name == "touch" )
    {
      if( kind != "array" && kind != "table" && kind != "aoa" ) return false;
      if( ( hn != "own" && hn != "view" ) || !h->here() || h->where() == 0 ) return false;
      for( auto const & part : h->ptrs() ) for( auto const p : part ) if( p == nullptr ) return false;
      h->touch();
      emit( o, x, hn, h, 0 );
      return true;
    }
    if( o.name == "zero" ) { if( !h->zero() ) return false; emit( o, x, hn, h, 0 ); return true; }
    if( o.name == "fill" ) { o.set( "v", next++ ); if( !h->fill( s, o.i( "v" ) ) ) return false; emit( o, x, hn, h, 0 ); return true; }
    if( o.name == "capture" || o.name == "kernel" )
    {
      if( hn == "own" ) return false;
      if( o.name == "kernel" ) details( o, x );
      mgr().setExecutionSpace( s == 1 ? chai::CPU : chai::GPU );
      std::unique_ptr< Handle > const c = h->copy();
      mgr().setExecutionSpace( chai::NONE );
      bool done = true;
      if( o.name == "kernel" ) in( s, [&] { done = c->act( o ); } );
      if( !done ) { o.name = "capture"; o.args.erase( "r" ); o.args.erase( "i" ); o.args.erase( "v" ); o.args.erase( "w" ); o.text.erase( "act" ); }
      emit( o, x, hn, c.get(), s );
      return true;
    }
    if( o.name == "write" )
    {
      std::string const act = o.text[ "act" ];
      bool const matrix = kind == "crs";
      std::vector< int > parts = act == "set" ? ( kind == "nested" ? std::vector< int >{ 1 } : matrix ? std::vector< int >{ 3 } : std::vector< int >{ 0 } ) : std::vector< int >{ 0, 1, 3 };
      if( !h->here() || h->where() == 0 || !h->touched( parts ) || ( hn == "own" && h->where() != 1 ) ) return false;
      details( o, x );
      bool done = false;
      in( h->where(), [&] { done = h->act( o ); } );
      if( !done ) return false;
      emit( o, x, hn, h, 0 );
      return true;
    }
    // operations of the container on the host
    bool const loose = ( kind == "array" || kind == "table" ) && ( o.name == "resize" || o.name == "reserve" || o.name == "clear" );
    if( loose ? !hostHere( x ) : !hostReady( x ) ) return false;
    VVL const rows = rowsOf( x );
    bool const big = o.has( "more" ) ? o.i( "more" ) != 0 : rng.chance( 30 );
    o.args.erase( "more" );
    long n = rng.below( 4 );
    if( o.name == "resize" ) n = big ? ( kind == "array" || kind == "table" ? 9 : 5 ) : rng.below( 4 );
    else if( o.name == "reserve" || o.name == "reserveRows" ) n = big ? 40 : 1;
    else if( o.name == "inner" ) n = big ? 7 : rng.below( 4 );
    else if( o.name == "capacity" ) n = big ? 8 : rng.below( 4 );
    o.set( "n", n ).set( "how", rng.below( 6 ) ).set( "r", flat() ? 1 : 1 + rng.below( 3 ) ).set( "i", 1 + rng.below( 3 ) );
    o.set( "v", sorted() ? 1 + rng.below( COLUMNS - 1 ) : next++ ).set( "w", next++ );
    if( o.name == "append" ) { VL r = someRow( rng.below( 4 ), sorted() ); o.set( "vals", r ); }
    // the removal of a value that is there is of more interest
    if( o.name == "remove" && o.i( "r" ) <= long( rows.size() ) && !rows[ std::size_t( o.i( "r" ) - 1 ) ].empty() && rng.chance( 80 ) )
    { VL const & r = rows[ std::size_t( o.i( "r" ) - 1 ) ]; o.set( "v", r[ std::size_t( rng.below( long( r.size() ) ) ) ] ); }
    current() = o.str();
    // the views are not used any more
    std::map< std::string, std::unique_ptr< Handle > > old;
    if( !t[ x ]->host( o, rows ) ) return false;
    drop( x );
    emit( o, x, "own", handle( x, "own" ), 0 );
    return true;
  }
  void begin( std::string const & k )
  {
    kind = k;
    mgr().log = chai::Log();
    chai::PointerRecord::count() = 0;
    J( "begin" ).kv( "kind", k ).emit();
  }
  void end()
  {
    current() = "the end";
    for( long const x : { 1, 2 } ) { drop( x ); t[ x ].reset(); live[ x ] = false; }
    J j( "gone" );
    j.kv( "blocks", long( mgr().log.live.size() ) ).kv( "records", chai::PointerRecord::count() ).kv( "bad", mgr().log.badFrees );
    j.emit();
  }
};

static void randomEpisode( Rng & rng, std::string const & kind, long const len )
{
  Episode e( rng );
  e.begin( kind );
  e.step( op( "make" ).set( "x", 1 ) );
  std::vector< char const * > acts = { "set" }, hs = { "own", "view", "view", "const" };
  if( kind == "aoa" ) acts = { "set", "push", "push", "pop" };
  if( kind == "crs" ) acts = { "set", "insert", "insert", "remove" };
  if( kind == "aos" || kind == "sparse" ) acts = { "insert", "insert", "remove" };
  if( kind == "nested" || kind == "aoa" || kind == "crs" ) hs.push_back( "sizes" );
  if( kind == "nested" || kind == "aos" || kind == "crs" ) hs.push_back( "other" );
  auto const act = [&] { return std::string( acts[ std::size_t( rng.below( long( acts.size() ) ) ) ] ); };
  static char const * const host[] = { "resize", "resize", "inner", "append", "append", "erase", "clear", "capacity", "insert", "remove", "reserve", "reserveRows", "compress" };
  for( long k = 0; k < len; ++k )
  {
    Op o;
    long const x = e.live[ 2 ] && ( !e.live[ 1 ] || rng.chance( 30 ) ) ? 2 : 1;
    o.set( "x", x );
    if( !e.live[ x ] ) { o.name = "make"; e.step( o ); continue; }
    long const c = rng.below( 100 );
    o.text[ "h" ] = hs[ std::size_t( rng.below( long( hs.size() ) ) ) ];
    if( c < 22 ) { o.name = "move"; if( rng.chance( 40 ) ) o.text[ "h" ] = "own"; o.set( "s", 1 + rng.below( 2 ) ).set( "t", rng.chance( 70 ) ); }
    else if( c < 30 ) { o.name = "capture"; o.set( "s", 1 + rng.below( 2 ) ); }
    else if( c < 46 ) { o.name = "kernel"; o.set( "s", 1 + rng.below( 2 ) ); o.text[ "act" ] = act(); }
    else if( c < 54 ) { o.name = "write"; o.text[ "act" ] = act(); }
    else if( c < 62 ) o.name = "take";
    else if( c < 65 ) o.name = "touch";
    else if( c < 69 ) o.name = "zero";
    else if( c < 73 ) { o.name = "fill"; o.set( "s", 1 + rng.below( 2 ) ); }
    else if( c < 90 ) { o.name = host[ rng.below( 13 ) ]; o.text.erase( "h" ); }
    else if( c < 92 ) { o.name = "copy"; o.set( "x", 3 - x ).set( "y", x ); o.text.erase( "h" ); }
    else if( c < 93 ) { o.name = "moveInto"; o.set( "x", 3 - x ).set( "y", x ); o.text.erase( "h" ); }
    else if( c < 94 ) { o.name = "swap"; o.text.erase( "h" ); }
    else if( c < 96 ) { o.name = "memcpy"; o.set( "y", 3 - x ); o.text.erase( "h" ); }
    else if( c < 99 ) { o.name = "deviceFill"; o.text.erase( "h" ); }
    else { o.name = "free"; o.text.erase( "h" ); }
    // a change on the host is mostly preceded by the move it needs
    if( c >= 73 && c < 92 && rng.chance( 70 ) ) { Op m = op( "move" ); m.text[ "h" ] = "own"; e.step( m.set( "x", x ).set( "s", 1 ).set( "t", rng.chance( 85 ) ) ); }
    if( o.name == "memcpy" && kind == "array" && rng.chance( 70 ) )
    {
      Op m = op( "move" );
      m.text[ "h" ] = "own";
      e.step( m.set( "x", x ).set( "s", 1 ).set( "t", 1 ) );
      if( !e.live[ 3 - x ] ) { e.step( op( "copy" ).set( "x", 3 - x ).set( "y", x ) ); }
      m.args.clear();
      e.step( m.set( "x", rng.chance( 50 ) ? x : 3 - x ).set( "s", 2 ).set( "t", rng.chance( 50 ) ) );
    }
    if( o.name == "deviceFill" && kind == "array" )
    {
      Op m = op( "move" );
      m.text[ "h" ] = "own";
      e.step( m.set( "x", x ).set( "s", 1 ).set( "t", 1 ) );
      e.step( op( "clear" ).set( "x", x ) );
    }
    if( o.text.count( "h" ) && o.text[ "h" ] != "own" && o.name != "take" && e.handle( x, o.text[ "h" ] ) == nullptr )
    { Op m = op( "take" ); m.text[ "h" ] = o.text[ "h" ]; e.step( m.set( "x", x ) ); }
    e.step( o );
  }
  e.end();
}

int main( int argc, char ** argv )
{
  Args args( argc, argv );
  installErrorHandler();
  mgr().disableCallbacks();
  vpmem::blocks().on = true;
  vpshim::spaceHookRef() = []( int const s ) { mgr().setExecutionSpace( s == 0 ? chai::NONE : s == 1 ? chai::CPU : chai::GPU ); };
  vpshim::runHookRef() = []( int const s ) { vpmem::blocks().enter( s == 0 ? 1 : s ); };
  Rng rng( args.seed );
  if( !args.script.empty() )
  {
    for( auto const & ops : readScripts( args.script.c_str() ) )
    {
      Episode e( rng );
      for( Op o : ops )
      {
        if( o.name == "begin" ) e.begin( o.text[ "kind" ] );
        else e.step( o );
      }
      e.end();
    }
    return finish();
  }
  std::vector< std::string > names;
  for( auto const & k : kinds() ) if( args.mode.empty() || args.mode == k.first ) names.push_back( k.first );
  for( long k = 0; k < args.n; ++k ) randomEpisode( rng, names[ std::size_t( k ) % names.size() ], args.len );
  return finish();
}
