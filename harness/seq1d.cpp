// Conformance driver for one-dimensional Arrays. Traces: spec/Seq1DTrace.tla.
#include <algorithm>
#include "vp.hpp"
#include "vperr.hpp"
#include "elem.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include <RAJA/RAJA.hpp>
#include <list>
#include <memory>
using namespace vp;
static long PUSHES = 0;   // with so many values appended to the first object at once
static long ROOM = 300;   // for how many elements beyond the hidden ones there is room from the start: with fewer, growth moves all of them

template< typename T, typename INDEX, bool TRIVIAL = std::is_trivially_destructible< T >::value > struct Raw
{ template< typename A > static void lead( A & ) { _exit( 3 ); } template< typename A > static void resize( A &, INDEX, T const & ) { _exit( 3 ); } static constexpr bool ok = false; };
template< typename T, typename INDEX > struct Raw< T, INDEX, true >
{
  static constexpr bool ok = true;
  template< typename A > static void resize( A & a, INDEX const n, T const & v )
  {
    INDEX const old = a.size();
    a.resizeWithoutInitializationOrDestruction( n );
    for( INDEX i = old; i < n; ++i ) a[ i ] = v;
  }
  template< typename A > static void lead( A & a )
  { a.reserve( INDEX( LEAD + ROOM ) ); a.resizeWithoutInitializationOrDestruction( INDEX( LEAD ) ); }
};
template< typename T, bool ARITH = std::is_arithmetic< T >::value > struct Zero { template< typename A > static void zero( A & ) { _exit( 3 ); } static constexpr bool ok = false; };
template< typename T > struct Zero< T, true > { template< typename A > static void zero( A & a ) { a.zero(); } static constexpr bool ok = true; };

static constexpr int N = 3;

template< typename T, typename INDEX >
struct World
{
  using A = LvArray::Array< T, 1, camp::idx_seq< 0 >, INDEX, LvArray::MallocBuffer >;
  using V = decltype( std::declval< A & >().toView() );
  using E = El< T >;
  std::unique_ptr< A > a[ N ];
  std::unique_ptr< V > view[ N ];
  std::map< void const *, long > ids;
  long path = 0;

  World() { for( auto & x : a ) { x.reset( new A() ); if( LEAD > 0 ) Raw< T, INDEX >::lead( *x ); ROOM = 300; } }   // little room for the first one only

  VL contents( A const & x )
  {
    VL r;
    long const n = long( x.size() );
    if( n < LEAD || n > LEAD + 100000 ) return VL{ -9 };
    switch( path++ % 8 )
    {
      case 0: for( long i = LEAD; i < n; ++i ) r.push_back( E::get( x[ INDEX( i ) ] ) ); break;
      case 1: for( long i = LEAD; i < n; ++i ) r.push_back( E::get( x( INDEX( i ) ) ) ); break;
      case 2: for( auto y = x.begin() + LEAD; y != x.end(); ++y ) r.push_back( E::get( *y ) ); break;
      case 3: for( long i = LEAD; i < n; ++i ) r.push_back( E::get( x.data()[ i ] ) ); break;
      case 4: { auto const v = x.toView(); for( T * y = v.begin() + LEAD; y != v.end(); ++y ) r.push_back( E::get( *y ) ); break; }
      case 5: { LvArray::ArrayView< T const, 1, 0, INDEX, LvArray::MallocBuffer > const v = x.toViewConst(); for( long i = LEAD; i < long( v.size() ); ++i ) r.push_back( E::get( v[ INDEX( i ) ] ) ); break; }
      case 6: { auto const s = x.toSlice(); for( long i = LEAD; i < long( s.size() ); ++i ) r.push_back( E::get( s[ INDEX( i ) ] ) ); break; }
      default: { auto const s = x.toSliceConst(); for( T const * y = s.begin() + LEAD; y != s.end(); ++y ) r.push_back( E::get( *y ) ); break; }
    }
    return r;
  }
  long id( void const * const p ) { if( p == nullptr ) return 0; auto it = ids.find( p ); if( it != ids.end() ) return it->second; long const k = long( ids.size() ) + 1; ids[ p ] = k; return k; }
  void observe( J & j )
  {
    VVL seqs, ends;
    VL cap, addr, nn;
    for( auto & x : a )
    {
      seqs.push_back( contents( *x ) );
      cap.push_back( room( long( x->capacity() ) ) );
      addr.push_back( id( x->data() ) );
      nn.push_back( long( x->size() ) - LEAD ); nn.push_back( long( x->size( 0 ) ) - LEAD ); nn.push_back( long( x->dims()[ 0 ] ) - LEAD ); nn.push_back( LEAD > 0 ? long( x->size() ) == LEAD && !x->empty() : x->empty() );
      if( x->size() > LEAD && x->size() < LEAD + 100000 ) ends.push_back( { E::get( LEAD > 0 ? x->begin()[ LEAD ] : x->front() ), E::get( x->back() ) } ); else ends.push_back( {} );
    }
    j.kv( "seqs", seqs ).kv( "cap", cap ).kv( "addr", addr ).kv( "ns", nn ).kv( "ends", ends );
    lifeFields< T >( j ).emit();
  }

  // false: not applicable to this element type
  bool run( Op const & op )
  {
    std::string const & name = op.name;
    if( ( name == "resizeRaw" && !Raw< T, INDEX >::ok ) || ( name == "zero" && !Zero< T >::ok ) ) return true;
    current() = op.str();
    J j( name.c_str() );
    for( auto const & kv : op.args ) if( kv.first == "vals" ) j.kv( "vals", kv.second ); else j.kv( kv.first.c_str(), kv.second.empty() ? 0 : kv.second[ 0 ] );
    long const o = op.i( "o", 1 ) - 1, p = op.i( "p", 1 ) - 1, v = op.i( "v" );
    long const alt = op.i( "alt", path );
    INDEX const i = INDEX( op.i( "i" ) + LEAD ), n = INDEX( op.i( "n" ) + LEAD );
    A & x = *a[ o ];
    bool skipped = false;
    {
      VL const vals = op.v( "vals" );
      std::vector< T > const src = mkAll< T >( vals );
      std::list< T > const lsrc( src.begin(), src.end() );
      T const y = E::mk( v );
      lib( [&]()
      {
        if( name == "push" ) { if( alt % 2 ) x.emplace_back( y ); else { T z( y ); x.emplace_back( std::move( z ) ); } }
        else if( name == "emplace" ) { if( alt % 2 ) x.emplace( i, y ); else { T z( y ); x.emplace( i, std::move( z ) ); } }
        else if( name == "insert" )
        {
          if( alt % 3 == 0 ) x.insert( i, src.begin(), src.end() );
          else if( alt % 3 == 1 ) x.insert( i, lsrc.begin(), lsrc.end() );
          else x.insert( i, src.data(), src.data() + src.size() );
        }
        else if( name == "pop" ) x.pop_back();
        else if( name == "erase" ) x.erase( i );
        else if( name == "resize" )
        {
          if( alt % 4 == 0 ) x.resize( n );
          else if( alt % 4 == 1 ) x.template resizeDimension< 0 >( n );
          else if( alt % 4 == 2 ) { long long const d[ 1 ] = { n }; x.resize( 1, d ); }
          else x.resize( 1, &n );
        }
        else if( name == "resizeDefault" ) x.resizeDefault( n, y );
        else if( name == "resizeRaw" ) Raw< T, INDEX >::resize( x, n, y );
        else if( name == "reserve" ) x.reserve( n );
        else if( name == "clear" ) x.clear();
        else if( name == "fill" ) x.template setValues< RAJA::loop_exec >( y );
        else if( name == "zero" ) Zero< T >::zero( x );
        else if( name == "write" )
        {
          if( alt % 5 == 0 ) x[ i ] = y; else if( alt % 5 == 1 ) x( i ) = y; else if( alt % 5 == 2 ) x.data()[ i ] = y;
          else if( alt % 5 == 3 ) { auto const w = x.toView(); w[ i ] = y; } else { auto const w = x.toSlice(); w[ i ] = y; }
        }
        else if( name == "copyAssign" ) x = *a[ p ];
        else if( name == "moveAssign" ) x = std::move( *a[ p ] );
        else if( name == "copyConstruct" ) { if( o == p ) { std::unique_ptr< A > t( new A( *a[ p ] ) ); a[ o ] = std::move( t ); } else a[ o ].reset( new A( *a[ p ] ) ); }
        else if( name == "moveConstruct" ) { std::unique_ptr< A > t( new A( std::move( *a[ p ] ) ) ); a[ o ] = std::move( t ); }
        else if( name == "renew" ) a[ o ].reset( op.has( "n" ) ? new A( n ) : new A() );
        else if( name == "swap" ) std::swap( *a[ o ], *a[ p ] );
        else if( name == "copyValues" ) x.template setValues< RAJA::loop_exec >( a[ p ]->toViewConst() );
        else if( name == "view" ) view[ o ].reset( new V( x.toView() ) );
        else if( name == "copyView" ) { if( view[ p ] ) view[ o ].reset( new V( *view[ p ] ) ); else skipped = true; }
        else { fprintf( stderr, "unknown operation %s\n", name.c_str() ); _exit( 3 ); }
      } );
    }
    if( skipped ) return true;
    if( name == "view" ) j.kv( "n2", long( view[ o ]->size() ) - LEAD );
    observe( j );
    return true;
  }
  // A write through a view that an array handed out earlier; only while that storage is still in use.
  void viewWrite( Rng & r )
  {
    long const k = r.below( N );
    if( !view[ k ] ) return;
    for( int o = 0; o < N; ++o )
    {
      long const n = std::min( long( view[ k ]->size() ), long( a[ o ]->size() ) ) - LEAD;
      if( a[ o ]->data() != view[ k ]->data() || n <= 0 ) continue;
      long const i = r.below( n ), v = r.below( 100 );
      J j( "viewWrite" );
      j.kv( "o", o + 1 ).kv( "i", i ).kv( "v", v );
      current() = j.str();
      ( *view[ k ] )[ INDEX( LEAD + i ) ] = E::mk( v );
      observe( j );
      return;
    }
  }
};

template< typename T, typename INDEX >
static void episode( std::vector< Op > const * const ops, Rng & r, long const len )
{
  resetLife();
  {
    World< T, INDEX > w;
    J b( "begin" );
    w.observe( b );
    if( ops ) for( Op const & o : *ops ) w.run( o );
    else
    {
      long const small = r.chance( 60 ) ? 6 : 40;
      for( long k = 0; k < len; ++k )
      {
        long const o = k < PUSHES ? 0 : r.below( N ), p = r.chance( 15 ) ? o : r.below( N );
        long const size = long( w.a[ o ]->size() ) - LEAD, cap = long( w.a[ o ]->capacity() ) - LEAD;
        bool const big = size > 120;
        Op x;
        auto const vals = [&]( long const n ) { VL v; for( long q = 0; q < n; ++q ) v.push_back( r.below( 100 ) ); return v; };
        // what would touch all of a long array is left out
        long const kind = k < PUSHES ? 0 : LEAD == 0 ? r.below( 26 ) : r.chance( 75 ) ? r.below( 16 ) : VL{ 18, 23, 24, 25 }[ r.below( 4 ) ];
        switch( kind )
        {
          case 0: case 1: case 2: case 3: if( big ) continue; x = op( "push" ).set( "v", r.below( 100 ) ); break;
          case 4: case 5: if( big ) continue; x = op( "emplace" ).set( "i", r.range( 0, size ) ).set( "v", r.below( 100 ) ); break;
          case 6: case 7: case 8: if( big ) continue; x = op( "insert" ).set( "i", r.range( 0, size ) ).set( "vals", vals( r.chance( 20 ) ? r.range( 0, small ) : r.range( 0, 3 ) ) ); break;
          case 9: if( size == 0 ) continue; x = op( "pop" ); break;
          case 10: case 11: if( size == 0 ) continue; x = op( "erase" ).set( "i", r.below( size ) ); break;
          case 12: x = op( "resize" ).set( "n", r.chance( 30 ) ? cap : r.range( 0, small ) ); if( x.i( "n" ) > 200 ) continue; break;
          case 13: x = op( "resizeDefault" ).set( "n", r.chance( 30 ) ? std::min( cap, 150l ) : r.range( 0, small ) ).set( "v", r.below( 100 ) ); break;
          case 14: x = op( "resizeRaw" ).set( "n", r.range( 0, small ) ).set( "v", r.below( 100 ) ); break;
          case 15: x = op( "reserve" ).set( "n", r.range( 0, 2 * small ) ); break;
          case 16: x = op( "clear" ); break;
          case 17: x = op( r.chance( 70 ) ? "fill" : "zero" ); if( x.name == "fill" ) x.set( "v", r.below( 100 ) ); break;
          case 18: if( size == 0 ) continue; x = op( "write" ).set( "i", r.below( size ) ).set( "v", r.below( 100 ) ); break;
          case 19: x = op( "copyAssign" ).set( "p", p + 1 ); break;
          case 20: x = op( "moveAssign" ).set( "p", p + 1 ); break;
          case 21: x = op( r.chance( 50 ) ? "copyConstruct" : "moveConstruct" ).set( "p", p + 1 ); break;
          case 22: x = op( "renew" ); if( r.chance( 50 ) ) x.set( "n", r.range( 0, small ) ); break;
          case 23: x = op( LEAD > 0 || r.chance( 50 ) ? "swap" : "copyValues" ).set( "p", p + 1 ); if( x.name == "copyValues" && ( w.a[ o ]->size() != w.a[ p ]->size() || w.a[ o ]->strides()[ 0 ] != w.a[ p ]->strides()[ 0 ] ) ) x = op( "view" ); break;   // only between arrays with the same layout, which one that was moved from does not have
          case 24: x = op( "view" ); break;
          default: w.viewWrite( r ); continue;
        }
        x.set( "o", o + 1 );
        w.run( x );
      }
    }
    for( auto & v : w.view ) v.reset();
    for( auto & y : w.a ) y.reset();
  }
  goneEvent< T >();
}

static void run( std::vector< Op > const * const ops, Rng & r, long const len, std::string const & el )
{
  if( el == "tok" ) episode< Tok, std::ptrdiff_t >( ops, r, len );
  else if( el == "ctok" ) episode< CTok, int >( ops, r, len );
  else if( el == "str" ) episode< Str, std::ptrdiff_t >( ops, r, len );
  else if( el == "tiny" ) episode< Tiny, std::ptrdiff_t >( ops, r, len );
  else if( el == "double" ) episode< double, long long >( ops, r, len );
  else episode< int, int >( ops, r, len );
}

int main( int argc, char ** argv )
{
  Args a( argc, argv );
  LEAD = a.from;       // with elements of one byte only
  if( a.other.count( "--room" ) ) { ROOM = atol( a.other[ "--room" ].c_str() ); PUSHES = ROOM + 2; }
  installErrorHandler();
  trackMemory();
  Rng r( a.seed );
  if( !a.script.empty() ) for( auto const & e : readScripts( a.script.c_str() ) ) run( &e, r, 0, a.mode );
  else for( long k = 0; k < a.n; ++k ) run( nullptr, r, a.len, a.mode );
  return finish();
}
