// Conformance driver for histories of multi-dimensional arrays. Traces: spec/NDArrayTrace.tla. Compiled once per number
// of dimensions (VP_NDIM).
#include "vp.hpp"
#include "vperr.hpp"
#include "elem.hpp"
#include "nd.hpp"
#include <memory>
using namespace vp;
static constexpr int ND = VP_NDIM, OBJS = 2;

template< typename T, typename INDEX, bool TRIVIAL = std::is_trivially_destructible< T >::value > struct Raw
{ template< typename A > static void resize( A &, VL const &, T const & ) { _exit( 3 ); } static constexpr bool ok = false; };
template< typename A, typename INDEX, std::size_t ... I > void rawAt( A & a, VL const & d, std::index_sequence< I... > ) { a.resizeWithoutInitializationOrDestruction( INDEX( d[ I ] ) ... ); }
template< typename T, typename INDEX > struct Raw< T, INDEX, true >
{
  static constexpr bool ok = true;
  template< typename A > static void resize( A & a, VL const & d, T const & v )
  { rawAt< A, INDEX >( a, d, std::make_index_sequence< ND >() ); for( INDEX i = 0; i < a.size(); ++i ) a.data()[ i ] = v; }
};
template< typename A, typename INDEX, std::size_t ... I > void dimsAt( A & a, VL const & d, std::index_sequence< I... > ) { a.template resizeDimension< INDEX( I ) ... >( INDEX( d[ I ] ) ... ); }
template< typename A, typename INDEX, std::size_t ... I > void dimsBack( A & a, VL const & d, std::index_sequence< I... > ) { a.template resizeDimension< INDEX( ND - 1 - I ) ... >( d[ ND - 1 - I ] ... ); }
template< typename T, bool ARITH = std::is_arithmetic< T >::value > struct Zero { template< typename A > static void zero( A & ) { _exit( 3 ); } static constexpr bool ok = false; };
template< typename T > struct Zero< T, true > { template< typename A > static void zero( A & a ) { a.zero(); } static constexpr bool ok = true; };

// The other permutations with the same stride-one dimension.
template< typename PERM > struct OthersOf { using type = camp::list<>; };
template< camp::idx_t I, camp::idx_t J2, camp::idx_t K > struct OthersOf< camp::idx_seq< I, J2, K > > { using type = camp::list< camp::idx_seq< J2, I, K > >; };
template< camp::idx_t I, camp::idx_t J2, camp::idx_t K, camp::idx_t M > struct OthersOf< camp::idx_seq< I, J2, K, M > >
{ using type = camp::list< camp::idx_seq< J2, I, K, M >, camp::idx_seq< I, K, J2, M >, camp::idx_seq< K, I, J2, M > >; };
template< typename PERM > using Others = typename OthersOf< PERM >::type;

template< typename PERM, typename T, typename INDEX >
struct World
{
  using A = LvArray::Array< T, ND, PERM, INDEX, LvArray::MallocBuffer >;
  using V = decltype( std::declval< A & >().toView() );
  using E = El< T >;
  using All = std::make_index_sequence< ND >;
  std::unique_ptr< A > a[ OBJS ];
  std::unique_ptr< V > view[ OBJS ];
  std::map< void const *, long > ids;
  long path = 0;
  World() { for( auto & x : a ) x.reset( new A() ); }
  long id( void const * const p ) { if( p == nullptr ) return 0; auto it = ids.find( p ); if( it != ids.end() ) return it->second; long const k = long( ids.size() ) + 1; ids[ p ] = k; return k; }

  VL lex( A const & x )
  {
    VL r;
    VL const d = some( x.dims(), ND );
    auto const put = [&]( T const & y ) { r.push_back( E::get( y ) ); };
    switch( path++ % 7 )
    {
      case 0: allIndices( d, [&]( VL const & i ) { put( call< INDEX, ND >( x, i ) ); } ); break;
      case 1: allIndices( d, [&]( VL const & i ) { put( Chain< ND, 0 >::at( x, i ) ); } ); break;
      case 2: { auto const v = x.toView(); allIndices( d, [&]( VL const & i ) { put( call< long, ND >( v, i ) ); } ); break; }
      case 3: { auto const v = x.toViewConst(); allIndices( d, [&]( VL const & i ) { put( Chain< ND, 0 >::at( v, i ) ); } ); break; }
      case 4: { auto const v = x.toSlice(); allIndices( d, [&]( VL const & i ) { put( call< int, ND >( v, i ) ); } ); break; }
      case 5: allIndices( d, [&]( VL const & i ) { put( x.data()[ linear< INDEX, ND >( x, i ) ] ); } ); break;
      default: LvArray::forValuesInSlice( x.toSliceConst(), put ); break;
    }
    return r;
  }
  void observe( J & j )
  {
    VVL dims, strides, data, ls;
    VL cap, addr, nn, sel;
    for( auto & x : a )
    {
      dims.push_back( some( x->dims(), ND ) );
      strides.push_back( some( x->strides(), ND ) );
      cap.push_back( long( x->capacity() ) );
      addr.push_back( id( x->data() ) );
      sel.push_back( x->getSingleParameterResizeIndex() );
      nn.push_back( long( x->size() ) ); nn.push_back( x->empty() );
      VL r;
      bool sane = x->size() >= 0 && x->size() < 100000 && total( dims.back() ) == long( x->size() ) && long( x->size() ) <= cap.back();
      if( sane ) for( T const & y : *x ) r.push_back( E::get( y ) ); else r.push_back( -9 );
      data.push_back( r );
      ls.push_back( sane ? lex( *x ) : VL{ -9 } );
    }
    j.kv( "dims", dims ).kv( "strides", strides ).kv( "data", data ).kv( "lex", ls ).kv( "cap", cap ).kv( "addr", addr ).kv( "sel", sel ).kv( "ns", nn );
    lifeFields< T >( j ).emit();
  }
  // Copying the values of an array whose memory is laid out in another order, though its view has the same type.
  template< typename Q >
  static long copyFrom( A & x, VL const & d, long v, VL & strides )
  {
    std::unique_ptr< LvArray::Array< T, ND, Q, INDEX, LvArray::MallocBuffer > > z( make< LvArray::Array< T, ND, Q, INDEX, LvArray::MallocBuffer >, ND, INDEX >( d ) );
    allIndices( d, [&]( VL const & i ) { call< INDEX, ND >( *z, i ) = E::mk( v++ ); } );
    strides = some( z->strides(), ND );
    return attempt( [&]() { x.template setValues< RAJA::loop_exec >( z->toViewConst() ); } );
  }
  template< typename Q0, typename ... Q >
  static long copyOther( A & x, VL const & d, long const v, long const alt, VL & s, camp::list< Q0, Q ... > )
  { return alt % long( sizeof ... ( Q ) + 1 ) == 0 ? copyFrom< Q0 >( x, d, v, s ) : copyOther( x, d, v, alt % long( sizeof ... ( Q ) + 1 ) - 1, s, camp::list< Q ... >() ); }
  static long copyOther( A &, VL const &, long, long, VL &, camp::list<> ) { return -1; }
  // Requests that must be refused.
  bool refused( A & x, long const form, T const & y )
  {
    VL d( ND, 2 );
    switch( form )
    {
      case 0: return attempt( [&]() { x.resize( INDEX( -1 ) ); } );
      case 1: return attempt( [&]() { x.resizeDefault( INDEX( -3 ), y ); } );
      case 2: d[ ND - 1 ] = -1; return attempt( [&]() { resizeAll< INDEX, ND >( x, d ); } );
      case 3: d[ 0 ] = -2; return attempt( [&]() { x.resize( ND, d.data() ); } );
      case 4: { std::vector< int > q( ND + 1, 1 ); return attempt( [&]() { x.resize( ND + 1, q.data() ); } ); }
      case 5: return attempt( [&]() { x.template resizeDimension< ND - 1 >( -5 ); } );
      default: d[ ND / 2 ] = -1; return attempt( [&]() { dimsBack< A, INDEX >( x, d, All() ); } );
    }
  }

  void run( Op const & op )
  {
    std::string const & name = op.name;
    if( ( name == "resizeRaw" && !Raw< T, INDEX >::ok ) || ( name == "zero" && !Zero< T >::ok ) ) return;
    if( name == "new" )
    {
      run( vp::op( "renew" ).set( "o", 1 ).set( "d", op.v( "d" ) ) );
      run( vp::op( "number" ).set( "o", 1 ).set( "v", op.i( "v" ) ) );
      run( vp::op( "select" ).set( "o", 1 ).set( "k", op.i( "k" ) ) );
      return;
    }
    current() = op.str();
    J j( name.c_str() );
    for( auto const & kv : op.args )
      if( kv.first == "d" || kv.first == "idx" ) j.kv( kv.first.c_str(), kv.second ); else j.kv( kv.first.c_str(), kv.second.empty() ? 0 : kv.second[ 0 ] );
    long const o = op.i( "o", 1 ) - 1, p = op.i( "p", 1 ) - 1, v = op.i( "v" ), k = op.i( "k" );
    long const alt = op.i( "alt", path );
    INDEX const n = INDEX( op.i( "n" ) );
    VL const d = op.v( "d" ), idx = op.v( "idx" );
    A & x = *a[ o ];
    long called = -1;
    VL theirs;
    {
      T const y = E::mk( v );
      bool const leak = name == "badResize" || name == "badSelect" || name == "badCopyValues" || name == "copyOther";   // abandoned calls may leave the driver's copies of the message behind
      auto const f = [&]()
      {
        if( name == "resize" ) x.resize( n );
        else if( name == "resizeDefault" ) x.resizeDefault( n, y );
        else if( name == "resizeAll" )
        {
          if( alt % 5 == 0 ) resizeAll< INDEX, ND >( x, d );
          else if( alt % 5 == 1 ) x.resize( ND, d.data() );
          else if( alt % 5 == 2 ) { std::vector< short > q( d.begin(), d.end() ); x.resize( ND, q.data() ); }
          else if( alt % 5 == 3 ) dimsAt< A, INDEX >( x, d, All() );
          else dimsBack< A, INDEX >( x, d, All() );
        }
        else if( name == "resizeOnly" ) { if( k == 0 ) x.template resizeDimension< 0 >( n ); else x.template resizeDimension< ND - 1 >( n ); }
        else if( name == "resizeRaw" ) Raw< T, INDEX >::resize( x, d, y );
        else if( name == "clear" ) x.clear();
        else if( name == "select" || name == "badSelect" ) called = attempt( [&]() { x.setSingleParameterResizeIndex( int( k ) ); } );
        else if( name == "badResize" ) called = refused( x, op.i( "form" ), y );
        else if( name == "reserve" ) x.reserve( n );
        else if( name == "number" )
        {
          long m = v;
          if( alt % 2 ) LvArray::forValuesInSlice( x.toSlice(), [&]( T & z ) { z = E::mk( m++ ); } );
          else allIndices( some( x.dims(), ND ), [&]( VL const & i ) { call< INDEX, ND >( x, i ) = E::mk( m++ ); } );
        }
        else if( name == "fill" ) x.template setValues< RAJA::loop_exec >( y );
        else if( name == "zero" ) Zero< T >::zero( x );
        else if( name == "write" )
        {
          if( alt % 5 == 0 ) call< INDEX, ND >( x, idx ) = y;
          else if( alt % 5 == 1 ) Chain< ND, 0 >::at( x, idx ) = y;
          else if( alt % 5 == 2 ) { auto const w = x.toView(); call< int, ND >( w, idx ) = y; }
          else if( alt % 5 == 3 ) { auto const w = x.toSlice(); Chain< ND, 0 >::at( w, idx ) = y; }
          else x.data()[ linear< INDEX, ND >( x, idx ) ] = y;
        }
        else if( name == "copyAssign" ) x = *a[ p ];
        else if( name == "moveAssign" ) x = std::move( *a[ p ] );
        else if( name == "copyConstruct" ) { std::unique_ptr< A > t( new A( *a[ p ] ) ); a[ o ] = std::move( t ); }
        else if( name == "moveConstruct" ) { std::unique_ptr< A > t( new A( std::move( *a[ p ] ) ) ); a[ o ] = std::move( t ); }
        else if( name == "renew" ) a[ o ].reset( make< A, ND, INDEX >( d ) );
        else if( name == "swap" ) std::swap( *a[ o ], *a[ p ] );
        else if( name == "copyValues" ) x.template setValues< RAJA::loop_exec >( a[ p ]->toViewConst() );
        else if( name == "badCopyValues" ) called = attempt( [&]() { x.template setValues< RAJA::loop_exec >( a[ p ]->toViewConst() ); } );
        else if( name == "copyOther" ) called = copyOther( x, d, v, alt, theirs, Others< PERM >() );
        else if( name == "view" ) view[ o ].reset( new V( x.toView() ) );
        else { fprintf( stderr, "unknown operation %s\n", name.c_str() ); _exit( 3 ); }
      };
      if( leak ) { f(); } else lib( f );
    }
    if( called >= 0 ) j.kv( "called", called );
    if( name == "copyOther" ) j.kv( "theirs", theirs );
    observe( j );
  }
  void viewWrite( Rng & r )
  {
    long const k = r.below( OBJS );
    if( !view[ k ] ) return;
    for( int o = 0; o < OBJS; ++o )
    {
      if( a[ o ]->data() != view[ k ]->data() || a[ o ]->data() == nullptr || some( a[ o ]->dims(), ND ) != some( view[ k ]->dims(), ND ) || a[ o ]->size() == 0 ) continue;
      VL idx;
      for( int q = 0; q < ND; ++q ) idx.push_back( r.below( long( a[ o ]->dims()[ q ] ) ) );
      long const v = r.below( 100 );
      J j( "viewWrite" );
      j.kv( "o", o + 1 ).kv( "idx", idx ).kv( "v", v );
      current() = j.str();
      call< INDEX, ND >( *view[ k ], idx ) = E::mk( v );
      observe( j );
      return;
    }
  }
};

template< typename PERM, typename T, typename INDEX >
static void episode( std::vector< Op > const * const ops, Rng & r, long const len )
{
  resetLife();
  {
    World< PERM, T, INDEX > w;
    J b( "begin" );
    b.kv( "perm", PermList< PERM >::get() );
    w.observe( b );
    if( ops ) for( Op const & o : *ops ) w.run( o );
    else
    {
      long const most = ND == 1 ? 12 : ND == 2 ? 6 : ND == 3 ? 4 : 3;
      for( long k = 0; k < len; ++k )
      {
        long const o = r.below( OBJS ), p = r.chance( 20 ) ? o : r.below( OBJS );
        auto & x = *w.a[ o ];
        auto const shape = [&]() { VL d; for( int q = 0; q < ND; ++q ) d.push_back( r.chance( 10 ) ? 0 : r.range( 1, most ) ); return d; };
        Op y;
        switch( r.below( 25 ) )
        {
          case 23:
          {
            if( x.size() == 0 || std::is_same< Others< PERM >, camp::list<> >::value ) continue;
            y = op( "copyOther" ).set( "d", r.chance( 85 ) ? some( x.dims(), ND ) : shape() ).set( "v", r.range( 1, 500 ) ).set( "alt", r.below( 4 ) );
            break;
          }
          case 0: case 1: case 2: case 3: y = op( "resize" ).set( "n", r.chance( 10 ) ? 0 : r.range( 0, most + 1 ) ); break;
          case 4: case 5: y = op( "resizeDefault" ).set( "n", r.range( 0, most + 1 ) ).set( "v", r.below( 100 ) ); break;
          case 6: case 7: y = op( "resizeAll" ).set( "d", shape() ); break;
          case 8: y = op( "resizeRaw" ).set( "d", shape() ).set( "v", r.below( 100 ) ); break;
          case 9: y = op( r.chance( 50 ) ? "clear" : "view" ); break;
          case 10: case 11: y = op( "select" ).set( "k", r.below( ND ) ); break;
          case 12: if( r.chance( 50 ) ) y = op( "badSelect" ).set( "k", r.chance( 50 ) ? -1 - r.below( 3 ) : ND + r.below( 3 ) ); else y = op( "badResize" ).set( "form", r.below( 7 ) ); break;
          case 13: case 14: case 15: y = op( "number" ).set( "v", r.range( 1, 500 ) ); break;
          case 16: y = op( r.chance( 70 ) ? "fill" : "zero" ); if( y.name == "fill" ) y.set( "v", r.below( 100 ) ); break;
          case 17: { if( x.size() == 0 ) continue; VL idx; for( int q = 0; q < ND; ++q ) idx.push_back( r.below( long( x.dims()[ q ] ) ) ); y = op( "write" ).set( "idx", idx ).set( "v", r.below( 100 ) ); break; }
          case 18: y = op( "copyAssign" ).set( "p", p + 1 ); break;
          case 19: y = op( r.chance( 50 ) ? "moveAssign" : "moveConstruct" ).set( "p", p + 1 ); break;
          case 20: if( r.chance( 50 ) ) y = op( "copyConstruct" ).set( "p", p + 1 ); else y = op( "swap" ).set( "p", p + 1 ); break;
          case 21: if( r.chance( 40 ) ) y = op( "renew" ).set( "d", shape() ); else y = op( "reserve" ).set( "n", r.below( 80 ) ); break;
          case 22:
          {
            auto & z = *w.a[ p ];
            bool const same = some( x.dims(), ND ) == some( z.dims(), ND );
            if( same && some( x.strides(), ND ) == some( z.strides(), ND ) ) y = op( "copyValues" ).set( "p", p + 1 );
            else if( !same ) y = op( "badCopyValues" ).set( "p", p + 1 );
            else continue;
            break;
          }
          default: w.viewWrite( r ); continue;
        }
        y.set( "o", o + 1 );
        w.run( y );
      }
    }
    for( auto & v : w.view ) v.reset();
    for( auto & y : w.a ) y.reset();
  }
  goneEvent< T >();
}

struct Run
{
  std::vector< Op > const * ops;
  Rng & r;
  long len;
  std::string el;
  template< typename PERM > void run()
  {
#if VP_NDIM < 4
    if( el == "str" ) { episode< PERM, Str, int >( ops, r, len ); return; }
#endif
    if( el == "tok" ) episode< PERM, Tok, std::ptrdiff_t >( ops, r, len );
    else episode< PERM, int, long >( ops, r, len );
  }
};

int main( int argc, char ** argv )
{
  Args a( argc, argv );
  installErrorHandler();
  trackMemory();
  Rng r( a.seed );
  if( !a.script.empty() )
  {
    for( auto const & e : readScripts( a.script.c_str() ) )
    {
      VL const perm = e[ 0 ].v( "perm" );
      Run f{ &e, r, 0, a.mode };
      if( long( perm.size() ) == ND ) AllPerms::find( perm, f );
    }
  }
  else for( long k = 0; k < a.n; ++k ) { Run f{ nullptr, r, a.len, a.mode }; AllPerms::nth( ( k + a.seed ) % AllPerms::count, f ); }
  return finish();
}
