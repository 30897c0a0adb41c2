// Conformance driver for the routines on raw ranges: arrayManipulation.hpp and the sorted-set routines of
// sortedArrayManipulation.hpp. Traces: spec/RawRangeTrace.tla.
#include "vp.hpp"
#include "vperr.hpp"
#include "elem.hpp"
#include "arrayManipulation.hpp"
#include "sortedArrayManipulation.hpp"
#include <list>
#include <memory>
#include <sys/mman.h>
#include <forward_list>
using namespace vp;
namespace am = LvArray::arrayManipulation;
namespace sam = LvArray::sortedArrayManipulation;

#if defined(VP_SANITIZED)
static constexpr long G = 0;
#else
static constexpr long G = 64;
#endif

// The range of the specification may be the end of a far longer one: LEAD elements, smaller than all others, precede it.
// What the routines do then is the same, and every position they take or give is larger by LEAD.

// Memory is only touched near the end of a long range.
struct Block
{
  char * mem;
  std::size_t bytes;
  explicit Block( std::size_t const b ): bytes( b )
  {
    if( LEAD > 0 ) { mem = static_cast< char * >( mmap( nullptr, b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) ); if( mem == MAP_FAILED ) { perror( "mmap" ); _exit( 3 ); } }
    else mem = static_cast< char * >( std::malloc( b ) );
  }
  void release() { if( mem == nullptr ) return; if( LEAD > 0 ) munmap( mem, bytes ); else std::free( mem ); mem = nullptr; }
};
template< typename T > struct Raw
{
  Block block;
  T * p;
  long cap, size = LEAD;
  explicit Raw( long const c ): block( std::size_t( LEAD + c ) * sizeof( T ) + 2 * G ), cap( c )
  { guard( block, cap ); p = reinterpret_cast< T * >( block.mem + G ); }
  ~Raw() { for( long i = LEAD; i < size; ++i ) p[ i ].~T(); block.release(); }
  static void guard( Block & b, long const cap )
  {
    memset( b.mem, 0x5a, G );
    memset( b.mem + G + LEAD * sizeof( T ), 0x5a, cap * sizeof( T ) + G );
  }
  bool outside() const
  {
    for( long i = 0; i < G; ++i ) if( block.mem[ i ] != 0x5a || block.mem[ G + ( LEAD + cap ) * long( sizeof( T ) ) + i ] != 0x5a ) return false;
    for( long i = 1; i <= G && LEAD > 0; ++i ) if( block.mem[ G + ( LEAD - i ) * long( sizeof( T ) ) ] != 0 ) return false;
    return true;
  }
  VL get() const { VL r; for( long i = LEAD; i < size; ++i ) r.push_back( El< T >::get( p[ i ] ) ); return r; }
};

template< typename T > struct Log
{
  VVL cb;
  T * other = nullptr;     // where the range goes when it grows
  long size = 0;
  T * incrementSize( T * const cur, std::ptrdiff_t const n )
  {
    cb.push_back( { 6, L( n ) } );
    if( other == nullptr ) return cur;
    for( long i = LEAD; i < size; ++i ) { new ( other + i ) T( std::move( cur[ i ] ) ); cur[ i ].~T(); }
    return other;
  }
  void insert( std::ptrdiff_t const pos ) { cb.push_back( { 3, L( pos ) - LEAD } ); }
  void set( std::ptrdiff_t const pos, std::ptrdiff_t const v ) { cb.push_back( { 2, L( pos ) - LEAD, L( v ) } ); }
  void insert( std::ptrdiff_t const n, std::ptrdiff_t const v, std::ptrdiff_t const pos, std::ptrdiff_t const prev )
  { cb.push_back( { 1, L( n ), L( v ), L( pos ) - LEAD, L( prev ) - LEAD } ); }
  void remove( std::ptrdiff_t const pos ) { cb.push_back( { 4, L( pos ) - LEAD } ); }
  void remove( std::ptrdiff_t const n, std::ptrdiff_t const cur, std::ptrdiff_t const next )
  { cb.push_back( { 5, L( n ), L( cur ) - LEAD, L( next ) - LEAD } ); }
};

template< typename T >
static void episode( std::vector< Op > const & ops, long const cap )
{
  resetLife();
  {
    Raw< T > r( cap );
    J b( "begin" );
    b.kv( "cap", cap ).emit();
    for( Op const & o : ops )
    {
      current() = o.str();
      VL const vals = o.v( "vals" );
      bool const sizes = o.name == "resize" || o.name == "resizeTo";
      long const i = o.i( "i" ) + LEAD, n = o.i( "n" ) + ( sizes ? LEAD : 0 ), v = o.i( "v" );
      J j( o.name.c_str() );
      if( o.has( "vals" ) ) j.kv( "vals", vals );
      if( o.has( "i" ) ) j.kv( "i", o.i( "i" ) );
      if( o.has( "n" ) ) j.kv( "n", o.i( "n" ) );
      if( o.has( "v" ) ) j.kv( "v", v );
      bool const desc = o.i( "desc" ) != 0;
      if( o.has( "desc" ) ) j.kv( "desc", desc );
      {
        std::vector< T > src = mkAll< T >( vals );
        std::list< T > lsrc( src.begin(), src.end() );
        bool const alt = o.i( "alt" ) != 0;
        T const x = El< T >::mk( v );
        auto const fill = [&]( long const at ) { for( std::size_t k = 0; k < src.size(); ++k ) new ( r.p + at + k ) T( src[ k ] ); };
        if( o.name == "assign" )
        {
          am::destroy( r.p + LEAD, r.size - LEAD );
          if( alt ) am::uninitializedCopy( lsrc.begin(), lsrc.end(), r.p + LEAD ); else am::uninitializedCopy( src.data(), src.data() + src.size(), r.p + LEAD );
          r.size = LEAD + long( vals.size() );
        }
        else if( o.name == "moveInto" )
        {
          am::destroy( r.p + LEAD, r.size - LEAD );
          am::uninitializedMove( r.p + LEAD, std::ptrdiff_t( src.size() ), src.data() );
          r.size = LEAD + long( vals.size() );
        }
        else if( o.name == "resize" ) { am::resize( r.p, r.size, n ); r.size = n; }
        else if( o.name == "resizeTo" )
        {
          if( alt ) am::resize( r.p, r.size, n, El< T >::mk( v ) ); else am::resize( r.p, r.size, n, x );
          r.size = n;
        }
        else if( o.name == "shiftUp" ) { am::shiftUp( r.p, r.size, i, long( vals.size() ) ); fill( i ); r.size += long( vals.size() ); }
        else if( o.name == "ushiftUp" ) { am::uninitializedShiftUp( r.p + i, r.size - i, long( vals.size() ) ); fill( i ); r.size += long( vals.size() ); }
        else if( o.name == "shiftDown" )
        {
          am::shiftDown( r.p, r.size, i + n, n );
          for( long k = r.size - n; k < r.size; ++k ) r.p[ k ].~T();
          r.size -= n;
        }
        else if( o.name == "ushiftDown" )
        {
          for( long k = i; k < i + n; ++k ) r.p[ k ].~T();
          am::uninitializedShiftDown( r.p + i + n, r.size - i - n, n );
          r.size -= n;
        }
        else if( o.name == "erase" ) { am::erase( r.p, r.size, i, n ); r.size -= n; }
        else if( o.name == "erase1" ) { am::erase( r.p, r.size, i ); r.size -= 1; }
        else if( o.name == "push" ) { if( alt ) am::emplaceBack( r.p, r.size, El< T >::mk( v ) ); else am::emplaceBack( r.p, r.size, x ); r.size += 1; }
        else if( o.name == "append" )
        {
          long const k = long( alt ? am::append( r.p, r.size, lsrc.begin(), lsrc.end() ) : am::append( r.p, r.size, src.data(), src.data() + src.size() ) );
          j.kv( "ret", k );
          r.size += long( vals.size() );
        }
        else if( o.name == "emplace" ) { if( alt ) am::emplace( r.p, r.size, i, El< T >::mk( v ) ); else am::emplace( r.p, r.size, i, x ); r.size += 1; }
        else if( o.name == "insert" )
        {
          if( alt ) am::insert( r.p, r.size, i, lsrc.begin(), std::ptrdiff_t( vals.size() ) );
          else am::insert( r.p, r.size, i, src.data(), std::ptrdiff_t( vals.size() ) );
          r.size += long( vals.size() );
        }
        else if( o.name == "pop" ) { am::popBack( r.p, r.size ); r.size -= 1; }
        else if( o.name == "distance" )
        {
          std::forward_list< T > f( src.begin(), src.end() );
          bool const same = am::iterDistance( lsrc.begin(), lsrc.end() ) == long( vals.size() ) && am::iterDistance( f.begin(), f.end() ) == long( vals.size() );
          j.kv( "ret", long( am::iterDistance( src.begin(), src.end() ) ) ).kv( "same", same );
        }
        else if( o.name == "positive" )
        { j.kv( "ret", am::isPositive( v ) && am::isPositive( int( v ) ) && am::isPositive( static_cast< signed char >( v ) ) ).kv( "uns", am::isPositive( unsigned( v ) ) ); }
        // sorted ranges
        else if( o.name == "find" )
        { j.kv( "ret", -LEAD + long( desc ? sam::find( r.p, r.size, x, sam::greater< T >() ) : alt ? sam::find( r.p, r.size, x ) : sam::find( r.p, r.size, x, sam::less< T >() ) ) ); }
        else if( o.name == "contains" )
        { j.kv( "ret", desc ? sam::contains( r.p, r.size, x, sam::greater< T >() ) : sam::contains( r.p, r.size, x ) ); }
        else if( o.name == "setInsert" || o.name == "setInsertMany" )
        {
          Log< T > log;
          log.size = r.size;
          // with alt the call-back hands out other storage, as a growing container does
          std::unique_ptr< Block > other;
          if( alt ) { other.reset( new Block( r.block.bytes ) ); Raw< T >::guard( *other, r.cap ); log.other = reinterpret_cast< T * >( other->mem + G ); }
          long ret;
          if( o.name == "setInsert" ) { bool const one = sam::insert( r.p, r.size, x, log ); ret = one; j.kv( "ret", one ); }
          else { ret = long( alt ? sam::insert( r.p, r.size, lsrc.begin(), lsrc.end(), log ) : sam::insert( r.p, r.size, src.data(), src.data() + src.size(), log ) ); j.kv( "ret", ret ); }
          if( other )
          {
            if( log.cb.empty() ) other->release();
            else { r.block.release(); r.block = *other; r.p = log.other; }
          }
          r.size += ret;
          j.kv( "cb", log.cb );
        }
        else if( o.name == "setInsertPlain" )      // without call-backs
        {
          long const ret = vals.size() == 1 && alt ? long( sam::insert( r.p, r.size, src[ 0 ] ) ) : long( sam::insert( r.p, r.size, src.begin(), src.end() ) );
          j.kv( "ret", ret );
          r.size += ret;
        }
        else if( o.name == "setRemove" )
        {
          Log< T > log;
          bool const one = sam::remove( r.p, r.size, x, log );
          r.size -= one;
          j.kv( "ret", one ).kv( "cb", log.cb );
        }
        else if( o.name == "setRemoveMany" )
        {
          Log< T > log;
          long const k = long( alt ? sam::remove( r.p, r.size, lsrc.begin(), lsrc.end(), log ) : sam::remove( r.p, r.size, src.data(), src.data() + src.size(), log ) );
          r.size -= k;
          j.kv( "ret", k ).kv( "cb", log.cb );
        }
        else { fprintf( stderr, "unknown operation %s\n", o.name.c_str() ); _exit( 3 ); }
      }
      j.kv( "out", r.get() ).kv( "outside", r.outside() );
      lifeFields< T >( j ).emit();
    }
  }
  goneEvent< T >();
}

static VL randomVals( Rng & r, long const n, long const keys ) { VL v; for( long i = 0; i < n; ++i ) v.push_back( r.below( keys ) ); return v; }
static VL randomSet( Rng & r, long const n, long const keys )
{ VL v = randomVals( r, n, keys ); std::sort( v.begin(), v.end() ); v.erase( std::unique( v.begin(), v.end() ), v.end() ); return v; }

// Histories on plain ranges: sizes are predicted so that every operation is within its precondition.
static std::vector< Op > randomPlain( Rng & r, long const cap, long const len )
{
  std::vector< Op > ops;
  long size = 0;
  for( long k = 0; k < len; ++k )
  {
    long const room = cap - size;
    Op o;
    long const alt = r.below( 2 );
    switch( r.below( 14 ) )
    {
      case 0: { VL v = randomVals( r, r.range( 0, cap ), 100 ); o = op( r.chance( 50 ) ? "assign" : "moveInto" ).set( "vals", v ); size = long( v.size() ); break; }
      case 1: { long const n = r.range( 0, cap ); o = op( "resize" ).set( "n", n ); size = n; break; }
      case 2: { long const n = r.range( 0, cap ); o = op( "resizeTo" ).set( "n", n ).set( "v", r.below( 100 ) ); size = n; break; }
      case 3: case 4:
      {
        VL v = randomVals( r, r.range( 0, r.chance( 50 ) ? std::min( room, 3l ) : room ), 100 );
        o = op( r.chance( 50 ) ? "shiftUp" : "ushiftUp" ).set( "i", r.range( 0, size ) ).set( "vals", v ); size += long( v.size() ); break;
      }
      case 5: case 6:
      {
        long const i = r.range( 0, size ), n = r.range( 0, r.chance( 60 ) ? std::min( 3l, size - i ) : size - i );
        if( i == size && n == 0 ) { o = op( "shiftDown" ).set( "i", i ).set( "n", n ); break; }
        o = op( r.chance( 30 ) ? "shiftDown" : r.chance( 50 ) ? "ushiftDown" : "erase" ).set( "i", i ).set( "n", n ); size -= n; break;
      }
      case 7: if( size == 0 ) continue; o = op( "erase1" ).set( "i", r.below( size ) ); --size; break;
      case 8: if( room == 0 ) continue; o = op( "push" ).set( "v", r.below( 100 ) ); ++size; break;
      case 9: { VL v = randomVals( r, r.range( 0, room ), 100 ); o = op( "append" ).set( "vals", v ); size += long( v.size() ); break; }
      case 10: if( room == 0 ) continue; o = op( "emplace" ).set( "i", r.range( 0, size ) ).set( "v", r.below( 100 ) ); ++size; break;
      case 11: { VL v = randomVals( r, r.range( 0, room ), 100 ); o = op( "insert" ).set( "i", r.range( 0, size ) ).set( "vals", v ); size += long( v.size() ); break; }
      case 12: if( size == 0 ) continue; o = op( "pop" ); --size; break;
      default: if( r.chance( 50 ) ) o = op( "distance" ).set( "vals", randomVals( r, r.range( 0, 6 ), 9 ) ); else o = op( "positive" ).set( "v", r.range( -3, 3 ) ); break;
    }
    o.set( "alt", alt );
    ops.push_back( o );
  }
  return ops;
}
static std::vector< Op > randomSorted( Rng & r, long const cap, long const len )
{
  std::vector< Op > ops;
  long const keys = r.range( 1, cap );     // never more members than fit
  VL set = randomSet( r, r.range( 0, cap ), keys );
  ops.push_back( op( "assign" ).set( "vals", set ) );
  for( long k = 0; k < len; ++k )
  {
    Op o;
    switch( r.below( 8 ) )
    {
      case 0: o = op( "find" ).set( "v", r.range( -1, keys ) ).set( "desc", 0 ); break;
      case 1: o = op( "contains" ).set( "v", r.range( -1, keys ) ).set( "desc", 0 ); break;
      case 2: o = op( "setInsert" ).set( "v", r.below( keys ) ); break;
      case 3: case 4: o = op( r.chance( 80 ) ? "setInsertMany" : "setInsertPlain" ).set( "vals", randomSet( r, r.range( 0, r.chance( 50 ) ? 3 : cap ), keys ) ); break;
      case 5: o = op( "setRemove" ).set( "v", r.below( keys ) ); break;
      default: o = op( "setRemoveMany" ).set( "vals", randomSet( r, r.range( 0, r.chance( 70 ) ? 4 : cap ), r.chance( 50 ) ? keys : keys + 4 ) ); break;
    }
    o.set( "alt", r.below( 2 ) );
    ops.push_back( o );
  }
  // searches in any sorted range, in both orders
  for( int d = 0; d < ( LEAD > 0 ? 1 : 2 ); ++d )
  {
    VL v = randomVals( r, r.range( 0, cap ), 8 );
    std::sort( v.begin(), v.end() );
    if( d ) std::reverse( v.begin(), v.end() );
    ops.push_back( op( "assign" ).set( "vals", v ) );
    for( int k = 0; k < 4; ++k ) ops.push_back( op( r.chance( 50 ) ? "find" : "contains" ).set( "v", r.range( -1, 8 ) ).set( "desc", d ) );
  }
  return ops;
}

static void run( std::vector< Op > const & ops, long const cap, std::string const & el )
{
  if( el == "tok" ) episode< Tok >( ops, cap );
  else if( el == "ctok" ) episode< CTok >( ops, cap );
  else if( el == "str" ) episode< Str >( ops, cap );
  else if( el == "short" ) episode< short >( ops, cap );
  else if( el == "double" ) episode< double >( ops, cap );
  else if( el == "tiny" ) episode< Tiny >( ops, cap );
  else episode< int >( ops, cap );
}

int main( int argc, char ** argv )
{
  Args a( argc, argv );
  LEAD = a.from;       // with elements of one byte only
  installErrorHandler();
  trackMemory();
  if( !a.script.empty() )
    for( auto const & e : readScripts( a.script.c_str() ) ) run( e, a.len, a.mode );
  else
  {
    Rng r( a.seed );
    for( long k = 0; k < a.n; ++k )
    {
      long const cap = r.chance( 50 ) ? r.range( 1, 8 ) : r.range( 8, 40 );
      run( k % 2 ? randomSorted( r, cap, a.len ) : randomPlain( r, cap, a.len ), cap, a.mode );
    }
  }
  return finish();
}
