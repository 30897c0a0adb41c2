// Conformance driver for the buffers under the containers. Traces: spec/BuffersTrace.tla.
#include <algorithm>
#include "vp.hpp"
#include "vperr.hpp"
#include "elem.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#if defined(LVARRAY_USE_CHAI)
  #include "ChaiBuffer.hpp"
#endif
#include <list>
#include <memory>
using namespace vp;
using LvArray::MemorySpace;
namespace bm = LvArray::bufferManipulation;

template< typename T > struct MallocKind
{
  template< typename U > using B = LvArray::MallocBuffer< U >;
  static constexpr long fixed = 0; static constexpr bool empties = true, host = true;
};
template< int N > struct StackKind
{
  template< typename U > using B = LvArray::StackBuffer< U, N >;
  static constexpr long fixed = N; static constexpr bool empties = true, host = true;
};
#if defined(LVARRAY_USE_CHAI)
template< typename T > struct ChaiKind
{
  template< typename U > using B = LvArray::ChaiBuffer< U >;
  static constexpr long fixed = 0; static constexpr bool empties = false;
  #if defined(LVARRAY_USE_CUDA)
  static constexpr bool host = false;
  #else
  static constexpr bool host = true;
  #endif
};
#endif
template< typename K, typename X > std::enable_if_t< ( K::fixed > 0 ), std::unique_ptr< X > > sized( X const & x ) { return std::unique_ptr< X >( new X( x, std::ptrdiff_t( 1 ) ) ); }
template< typename K, typename X > std::enable_if_t< ( K::fixed == 0 ), std::unique_ptr< X > > sized( X const & x, std::ptrdiff_t const n = 0 ) { return std::unique_ptr< X >( new X( x, n ) ); }

static constexpr int N = 3;
template< typename T > struct Pair { T a, b; };

template< typename K, typename T >
struct World
{
  using X = typename K::template B< T >;
  using E = El< T >;
  std::unique_ptr< X > h[ N ];
  int ref[ N ] = { 1, 2, 3 };
  long size[ N + 1 ] = {};
  std::map< void const *, long > ids;
  bool err = false;

  World() { lib( [&]() { for( auto & x : h ) x.reset( new X( true ) ); } ); }
  ~World() { for( int i = 0; i < N; ++i ) if( ref[ i ] ) release( i ); }
  void release( int const i )
  {
    lib( [&]() { bm::free( *h[ i ], size[ ref[ i ] ] ); } );
    int const k = ref[ i ];
    size[ k ] = 0;
    if( K::fixed ) return;
    for( int q = 0; q < N; ++q ) if( ref[ q ] == k && ( q != i || !K::empties ) ) ref[ q ] = 0;
  }
  bool loose( int const i ) const
  {
    if( K::fixed || ref[ i ] == 0 || ( K::empties && h[ i ]->capacity() == 0 && h[ i ]->data() == nullptr ) ) return true;
    for( int q = 0; q < N; ++q ) if( q != i && ref[ q ] == ref[ i ] ) return true;
    return false;
  }
  int newId( int const i ) const
  {
    for( int k = 1; k <= N; ++k ) { bool used = false; for( int q = 0; q < N; ++q ) used |= q != i && ref[ q ] == k; if( !used ) return k; }
    return 0;
  }
  long n( int const i ) const { return size[ ref[ i ] ]; }
  long id( void const * const p ) { if( p == nullptr ) return 0; auto it = ids.find( p ); if( it != ids.end() ) return it->second; long const k = long( ids.size() ) + 1; ids[ p ] = k; return k; }
  void observe( J & j )
  {
    VL ok, caps, at;
    VVL vals;
    for( int i = 0; i < N; ++i )
    {
      bool const u = ref[ i ] != 0;
      ok.push_back( u );
      caps.push_back( u ? long( h[ i ]->capacity() ) : 0 );
      at.push_back( u ? id( h[ i ]->data() ) : 0 );
      VL v;
      if( u && n( i ) <= long( h[ i ]->capacity() ) ) for( long q = 0; q < n( i ); ++q ) v.push_back( E::get( q % 2 ? ( *h[ i ] )[ q ] : h[ i ]->data()[ q ] ) );
      vals.push_back( v );
    }
    j.kv( "ok", ok ).kv( "caps", caps ).kv( "at", at ).kv( "is", vals );
    lifeFields< T >( j ).emit();
  }
  // the storage of i was renewed: other handles of the block may only be assigned to
  void renewed( int const i, void const * const before, std::ptrdiff_t const capBefore, bool const always )
  {
    if( K::fixed || ( !always && h[ i ]->data() == before && h[ i ]->capacity() == capBefore ) ) return;
    for( int q = 0; q < N; ++q ) if( q != i && ref[ q ] == ref[ i ] ) ref[ q ] = 0;
  }
  template< typename U > using Conv = typename K::template B< U >;
  template< typename U, typename Q = K > std::enable_if_t< Q::fixed == 0 > recast( J & j, X const & x )
  {
    long const num = sizeof( T ), den = sizeof( U );
    j.kv( "num", num >= den ? num / den : 1 ).kv( "den", num >= den ? 1 : den / num );
    bool same = false;
    long c = -1;
    err = attempt( [&]() { Conv< U > const r( x ); c = r.capacity(); same = static_cast< void const * >( r.data() ) == static_cast< void const * >( x.data() ); } );
    j.kv( "rcap", c ).kv( "same", long( same ) );
  }
  template< typename U, typename Q = K > std::enable_if_t< ( Q::fixed > 0 ) > recast( J &, X const & ) {}
  template< typename Q = T > std::enable_if_t< std::is_arithmetic< Q >::value > recasts( J & j, X const & x, long const how )
  { if( how == 0 ) recast< short >( j, x ); else if( how == 1 ) recast< Pair< T > >( j, x ); else recast< std::make_unsigned_t< T > >( j, x ); }
  template< typename Q = T > std::enable_if_t< !std::is_arithmetic< Q >::value > recasts( J &, X const &, long ) {}

  bool canRecast() const { return K::fixed == 0 && std::is_arithmetic< T >::value; }

  void run( Op const & op )
  {
    std::string const & name = op.name;
    int const a = int( op.i( "h", 1 ) ) - 1, b = int( op.i( "g", 1 ) ) - 1;
    long const m = op.i( "n" ), i = op.i( "i" ), v = op.i( "v" ), how = op.i( "how" );
    current() = op.str();
    J j( name.c_str() );
    for( auto const & kv : op.args ) if( kv.first == "vals" ) j.kv( "vals", kv.second ); else j.kv( kv.first.c_str(), kv.second.empty() ? 0 : kv.second[ 0 ] );
    bool const needs = name != "fresh" && name != "copy" && name != "move";
    if( needs && !ref[ a ] ) return;
    if( ( name == "copy" || name == "move" || name == "copyInto" ) && ( !ref[ b ] || a == b ) ) return;
    err = false;
    long ret = -1;
    std::unique_ptr< X > & x = h[ a ];
    void const * const before = needs ? x->data() : nullptr;
    std::ptrdiff_t const capBefore = needs ? x->capacity() : 0;
    long const cur = needs ? n( a ) : 0;
    {
      VL const vals = op.v( "vals" );
      std::vector< T > const src = mkAll< T >( vals );
      std::list< T > const lsrc( src.begin(), src.end() );
      T const y = E::mk( v );
      lib( [&]()
      {
        if( name == "fresh" ) { if( !loose( a ) ) release( a ); ref[ a ] = newId( a ); size[ ref[ a ] ] = 0; x.reset( new X( true ) ); }
        else if( name == "copy" )
        {
          std::unique_ptr< X > t;
          if( how == 0 ) t.reset( new X( *h[ b ] ) );
          else if( how == 1 ) t.reset( new X( *h[ b ], std::ptrdiff_t( n( b ) ) ) );
          if( how == 2 ) *x = *h[ b ]; else x = std::move( t );
          long const s = n( b );
          ref[ a ] = K::fixed ? newId( a ) : ref[ b ];
          size[ ref[ a ] ] = s;
        }
        else if( name == "move" )
        {
          if( how == 0 ) { std::unique_ptr< X > t( new X( std::move( *h[ b ] ) ) ); x = std::move( t ); } else *x = std::move( *h[ b ] );
          long const s = n( b );
          if( K::fixed ) { ref[ a ] = newId( a ); size[ ref[ a ] ] = s; }
          else
          {
            int const k = ref[ b ];
            ref[ a ] = k;
            ref[ b ] = 0;
            if( K::empties ) { ref[ b ] = newId( b ); size[ ref[ b ] ] = 0; }
          }
        }
        else if( name == "free" ) release( a );
        else if( name == "setCapacity" )
        {
          err = attempt( [&]() { if( how ) x->reallocate( cur, MemorySpace::host, m ); else bm::setCapacity( *x, cur, MemorySpace::host, m ); } );
          if( !err ) { size[ ref[ a ] ] = std::min( cur, m ); renewed( a, before, capBefore, true ); }
        }
        else if( name == "reserve" ) { err = attempt( [&]() { bm::reserve( *x, cur, MemorySpace::host, m ); } ); if( !err ) renewed( a, before, capBefore, m > capBefore ); }
        else if( name == "resize" )
        {
          err = attempt( [&]() { if( op.has( "v" ) ) bm::resize( *x, cur, m, y ); else bm::resize( *x, cur, m ); } );
          if( !err ) { size[ ref[ a ] ] = m; renewed( a, before, capBefore, m > capBefore ); }
        }
        else if( name == "push" )
        {
          err = attempt( [&]() { if( how ) { T z( y ); bm::emplaceBack( *x, cur, std::move( z ) ); } else bm::emplaceBack( *x, cur, y ); } );
          if( !err ) { size[ ref[ a ] ]++; renewed( a, before, capBefore, cur + 1 > capBefore ); }
        }
        else if( name == "emplace" )
        {
          err = attempt( [&]() { bm::emplace( *x, cur, i, src[ 0 ] ); } );
          if( !err ) { size[ ref[ a ] ]++; renewed( a, before, capBefore, cur + 1 > capBefore ); }
        }
        else if( name == "insert" )
        {
          err = attempt( [&]() { ret = how ? bm::insert( *x, cur, i, lsrc.begin(), lsrc.end() ) : bm::insert( *x, cur, i, src.data(), src.data() + src.size() ); } );
          if( !err ) { size[ ref[ a ] ] += long( src.size() ); renewed( a, before, capBefore, cur + long( src.size() ) > capBefore ); }
        }
        else if( name == "pop" ) { err = attempt( [&]() { bm::popBack( *x, cur ); } ); if( !err ) size[ ref[ a ] ]--; }
        else if( name == "erase" ) { err = attempt( [&]() { bm::erase( *x, cur, i ); } ); if( !err ) size[ ref[ a ] ]--; }
        else if( name == "write" ) { if( how ) ( *x )[ i ] = y; else x->data()[ i ] = y; }
        else if( name == "copyInto" )
        {
          long const s = n( b );
          err = attempt( [&]() { bm::copyInto( *x, cur, *h[ b ], s ); } );
          if( !err ) { size[ ref[ a ] ] = s; renewed( a, before, capBefore, s > capBefore ); }
        }
        else if( name == "setName" ) x->setName( "name" );
        else if( name == "space" )
        {
          MemorySpace const s = op.i( "host" ) ? MemorySpace::host : op.i( "alt" ) == 0 ? MemorySpace::cuda : op.i( "alt" ) == 1 ? MemorySpace::hip : MemorySpace::omp_target;
          err = attempt( [&]()
          {
            if( how == 0 ) x->move( s, true ); else if( how == 1 ) x->moveNested( s, cur, false ); else if( how == 2 ) x->registerTouch( s );
            else x->reallocate( 0, s, x->capacity() );
          } );
        }
      } );
      if( name == "look" )
      {
        typename K::template B< T const > const c( *x );
        VL w;
        for( long q = 0; q < cur; ++q ) w.push_back( E::get( q % 2 ? c.data()[ q ] : c[ q ] ) );
        j.kv( "ccap", long( c.capacity() ) ).kv( "cvals", w ).kv( "same", long( static_cast< void const * >( c.data() ) == static_cast< void const * >( x->data() ) ) );
      }
      if( name == "recast" ) recasts( j, *x, how );
    }
    j.kv( "err", long( err ) );
    if( name == "insert" ) j.kv( "ret", ret );
    if( name == "space" && K::host && std::is_base_of< bm::VoidBuffer, X >::value ) j.kv( "prev", long( x->getPreviousSpace() == MemorySpace::host ) );
    observe( j );
  }
};

template< typename K, typename T >
static void episode( std::vector< Op > const * const ops, Rng & r, long const len )
{
  resetLife();
  long const calls = handlerCalls();   // an abandoned operation does not free the text of its message
#if defined(LVARRAY_USE_CHAI)
  chai::ArrayManager & am = *chai::ArrayManager::getInstance();
  am.log = chai::Log();
#endif
  {
    World< K, T > w;
    J b( "begin" );
    b.kv( "fixed", K::fixed ).kv( "empties", long( K::empties ) );
    w.observe( b );
    if( ops ) for( Op const & o : *ops ) w.run( o );
    else for( long k = 0; k < len; ++k )
    {
      int const a = int( r.below( N ) ), g = int( r.below( N ) );
      long const s = w.ref[ a ] ? w.n( a ) : 0, most = K::fixed ? K::fixed + 1 : 9;
      Op x;
      auto const vals = [&]( long const n ) { VL v; for( long q = 0; q < n; ++q ) v.push_back( r.below( 100 ) ); return v; };
      if( w.ref[ a ] == 0 && r.chance( 60 ) ) { w.run( op( "fresh" ).set( "h", a + 1 ) ); continue; }
      switch( r.below( 22 ) )
      {
        case 0: case 1: case 2: if( s > 60 ) continue; x = op( "push" ).set( "v", r.below( 100 ) ); break;
        case 3: case 4: if( s > 60 ) continue; x = op( "emplace" ).set( "i", r.range( 0, s ) ).set( "vals", vals( 1 ) ); break;
        case 5: case 6: if( s > 60 ) continue; x = op( "insert" ).set( "i", r.range( 0, s ) ).set( "vals", vals( r.range( 0, 5 ) ) ); break;
        case 7: if( s == 0 ) continue; x = op( "pop" ); break;
        case 8: case 9: if( s == 0 ) continue; x = op( "erase" ).set( "i", r.below( s ) ); break;
        case 10: x = op( "resize" ).set( "n", r.range( 0, most ) ); if( r.chance( 60 ) ) x.set( "v", r.below( 100 ) ); break;
        case 11: x = op( "reserve" ).set( "n", r.range( 0, 2 * most ) ); if( K::fixed ) x.set( "n", r.range( 0, most ) ); break;
        case 12: x = op( "setCapacity" ).set( "n", r.range( 0, most ) ); break;
        case 13: if( s == 0 ) continue; x = op( "write" ).set( "i", r.below( s ) ).set( "v", r.below( 100 ) ); break;
        case 14: if( w.ref[ g ] == 0 || ( !K::fixed && w.ref[ g ] == w.ref[ a ] ) || a == g ) continue; x = op( "copyInto" ).set( "g", g + 1 ); break;
        case 15: case 16:
          if( w.ref[ g ] == 0 || a == g ) continue;
          if( !w.loose( a ) && w.ref[ a ] != w.ref[ g ] ) w.run( op( "free" ).set( "h", a + 1 ) );
          if( w.ref[ g ] == 0 ) continue;
          x = op( "copy" ).set( "g", g + 1 ).set( "how", r.below( 3 ) ); break;
        case 17: if( w.ref[ g ] == 0 || a == g ) continue; if( !w.loose( a ) ) w.run( op( "free" ).set( "h", a + 1 ) ); x = op( "move" ).set( "g", g + 1 ).set( "how", r.below( 2 ) ); if( w.ref[ g ] == 0 ) continue; break;
        case 18: x = op( r.chance( 30 ) ? "free" : "look" ); break;
        case 19: x = w.canRecast() ? op( "recast" ) : op( "look" ); x.set( "how", r.below( 3 ) ); break;
        case 20: x = op( r.chance( 20 ) ? "setName" : "look" ); break;
        default: x = op( "space" ).set( "host", r.chance( 40 ) || !K::host ).set( "alt", r.below( 3 ) ).set( "how", r.below( 3 ) );
          if( K::fixed == 0 && K::empties && !x.i( "host" ) && r.chance( 30 ) ) x.set( "how", 3 ); break;
      }
      x.set( "h", a + 1 );
      if( !x.has( "how" ) ) x.set( "how", r.below( 2 ) );
      w.run( x );
    }
  }
  J j( "gone" );
  lifeFields< T >( j );
  if( memoryTracked && handlerCalls() == calls ) j.kv( "mem", long( memory().held.size() ) );
#if defined(LVARRAY_USE_CHAI)
  j.kv( "blocks", long( am.log.live.size() ) ).kv( "badFrees", am.log.badFrees );
#endif
  j.emit();
}
template< typename K, typename T >
static int go( Args const & args )
{
  Rng r( std::uint64_t( args.seed ) );
  if( !args.script.empty() ) { for( auto const & e : readScripts( args.script.c_str() ) ) episode< K, T >( &e, r, 0 ); return finish(); }
  for( long k = 0; k < args.n; ++k ) episode< K, T >( nullptr, r, args.len );
  return finish();
}
int main( int argc, char ** argv )
{
  Args const args( argc, argv );
  installErrorHandler();
  trackMemory();
  std::string const & m = args.mode;
  if( m == "malloc-int" ) return go< MallocKind< int >, int >( args );
  if( m == "malloc-long" ) return go< MallocKind< long >, long >( args );
  if( m == "malloc-tok" ) return go< MallocKind< Tok >, Tok >( args );
  if( m == "malloc-ctok" ) return go< MallocKind< CTok >, CTok >( args );
  if( m == "malloc-str" ) return go< MallocKind< Str >, Str >( args );
  if( m == "stack2" ) return go< StackKind< 2 >, int >( args );
  if( m == "stack3" ) return go< StackKind< 3 >, long >( args );
  if( m == "stack7" ) return go< StackKind< 7 >, int >( args );
#if defined(LVARRAY_USE_CHAI)
  if( m == "chai-int" ) return go< ChaiKind< int >, int >( args );
  if( m == "chai-tok" ) return go< ChaiKind< Tok >, Tok >( args );
  if( m == "chai-str" ) return go< ChaiKind< Str >, Str >( args );
#endif
  fprintf( stderr, "unknown mode %s\n", m.c_str() );
  return 3;
}
