// Conformance driver for SortedArray. Traces: spec/SortedSetTrace.tla.
#include <algorithm>
#include "vp.hpp"
#include "vperr.hpp"
#include "elem.hpp"
#include "SortedArray.hpp"
#include "MallocBuffer.hpp"
#include <list>
#include <memory>
#include <set>
using namespace vp;
static constexpr int N = 3;

template< typename T, typename INDEX >
struct World
{
  using A = LvArray::SortedArray< T, INDEX, LvArray::MallocBuffer >;
  using V = LvArray::SortedArrayView< T const, INDEX, LvArray::MallocBuffer >;
  using E = El< T >;
  std::unique_ptr< A > a[ N ];
  std::map< void const *, long > ids;
  long path = 0;
  World() { for( auto & x : a ) x.reset( new A() ); }
  long id( void const * const p ) { if( p == nullptr ) return 0; auto it = ids.find( p ); if( it != ids.end() ) return it->second; long const k = long( ids.size() ) + 1; ids[ p ] = k; return k; }
  VL contents( A const & x )
  {
    VL r;
    long const n = long( x.size() );
    if( n < 0 || n > 100000 ) return VL{ -9 };
    switch( path++ % 6 )
    {
      case 0: for( long i = 0; i < n; ++i ) r.push_back( E::get( x[ INDEX( i ) ] ) ); break;
      case 1: for( long i = 0; i < n; ++i ) r.push_back( E::get( x( INDEX( i ) ) ) ); break;
      case 2: for( T const & y : x ) r.push_back( E::get( y ) ); break;
      case 3: { V const v = x.toView(); for( long i = 0; i < long( v.size() ); ++i ) r.push_back( E::get( v[ INDEX( i ) ] ) ); break; }
      case 4: { V const v = x.toViewConst(); V const w( v ); for( T const & y : w ) r.push_back( E::get( y ) ); break; }
      default: { auto const s = x.toSlice(); for( long i = 0; i < long( s.size() ); ++i ) r.push_back( E::get( s[ INDEX( i ) ] ) ); break; }
    }
    return r;
  }
  void observe( J & j )
  {
    VVL seqs;
    VL addr, ns;
    for( auto & x : a )
    {
      seqs.push_back( contents( *x ) );
      addr.push_back( id( x->data() ) );
      ns.push_back( long( x->size() ) ); ns.push_back( x->empty() );
    }
    j.kv( "seqs", seqs ).kv( "addr", addr ).kv( "ns", ns );
    lifeFields< T >( j ).emit();
  }
  void run( Op const & op )
  {
    std::string const & name = op.name;
    current() = op.str();
    J j( name.c_str() );
    for( auto const & kv : op.args ) if( kv.first == "vals" ) j.kv( "vals", kv.second ); else j.kv( kv.first.c_str(), kv.second.empty() ? 0 : kv.second[ 0 ] );
    long const o = op.i( "o", 1 ) - 1, p = op.i( "p", 1 ) - 1;
    long const alt = op.i( "alt", path );
    A & x = *a[ o ];
    {
      std::vector< T > const src = mkAll< T >( op.v( "vals" ) );
      std::list< T > const lsrc( src.begin(), src.end() );
      T const y = E::mk( op.i( "v" ) );
      lib( [&]()
      {
        if( name == "insert" ) { bool const r = x.insert( y ); j.kv( "ret", r ); }
        else if( name == "remove" ) { bool const r = x.remove( y ); j.kv( "ret", r ); }
        else if( name == "insertMany" )
        {
          long const r = long( alt % 3 == 0 ? x.insert( src.begin(), src.end() ) : alt % 3 == 1 ? x.insert( lsrc.begin(), lsrc.end() ) : x.insert( src.data(), src.data() + src.size() ) );
          j.kv( "ret", r );
        }
        else if( name == "removeMany" )
        {
          long const r = long( alt % 3 == 0 ? x.remove( src.begin(), src.end() ) : alt % 3 == 1 ? x.remove( lsrc.begin(), lsrc.end() ) : x.remove( src.data(), src.data() + src.size() ) );
          j.kv( "ret", r );
        }
        else if( name == "insertAll" ) { long const r = long( x.insert( a[ p ]->begin(), a[ p ]->end() ) ); j.kv( "ret", r ); }      // o # p
        else if( name == "removeAll" ) { long const r = long( x.remove( a[ p ]->begin(), a[ p ]->end() ) ); j.kv( "ret", r ); }
        else if( name == "contains" )
        {
          bool r;
          switch( alt % 4 ) { case 0: r = x.contains( y ); break; case 1: r = x.count( y ); break; case 2: r = x.toView().contains( y ); break; default: r = x.toViewConst().count( y ); }
          j.kv( "ret", r );
        }
        else if( name == "clear" ) x.clear();
        else if( name == "reserve" ) x.reserve( INDEX( op.i( "n" ) ) );
        else if( name == "copyAssign" ) x = *a[ p ];
        else if( name == "moveAssign" ) x = std::move( *a[ p ] );
        else if( name == "copyConstruct" ) { std::unique_ptr< A > t( new A( *a[ p ] ) ); a[ o ] = std::move( t ); }
        else if( name == "moveConstruct" ) { std::unique_ptr< A > t( new A( std::move( *a[ p ] ) ) ); a[ o ] = std::move( t ); }
        else if( name == "renew" ) a[ o ].reset( new A() );
        else if( name == "swap" ) std::swap( *a[ o ], *a[ p ] );
        else { fprintf( stderr, "unknown operation %s\n", name.c_str() ); _exit( 3 ); }
      } );
    }
    observe( j );
  }
};

template< typename T, typename INDEX >
static void episode( std::vector< Op > const * const ops, Rng & r, long const len )
{
  resetLife();
  {
    World< T, INDEX > w;
    J b( "begin" );
    w.observe( b );
    if( ops ) for( Op const & o : *ops ) w.run( o );
    else
    {
      long const keys = r.chance( 50 ) ? r.range( 1, 8 ) : r.range( 8, 80 );
      auto const some = [&]()
      {
        std::set< long > s;
        long const n = r.chance( 60 ) ? r.range( 0, 4 ) : r.range( 0, keys );
        for( long k = 0; k < n; ++k ) s.insert( r.below( keys ) );
        return VL( s.begin(), s.end() );
      };
      for( long k = 0; k < len; ++k )
      {
        long const o = r.below( N ), p = r.below( N );
        Op x;
        switch( r.below( 20 ) )
        {
          case 0: case 1: case 2: x = op( "insert" ).set( "v", r.below( keys ) ); break;
          case 3: case 4: case 5: case 6: x = op( "insertMany" ).set( "vals", some() ); break;
          case 7: case 8: x = op( "remove" ).set( "v", r.below( keys ) ); break;
          case 9: case 10: case 11: x = op( "removeMany" ).set( "vals", some() ); break;
          case 12: x = op( "contains" ).set( "v", r.range( -1, keys ) ); break;
          case 13: x = op( r.chance( 30 ) ? "clear" : "contains" ); if( x.name == "contains" ) x.set( "v", r.below( keys ) ); break;
          case 14: x = op( "reserve" ).set( "n", r.range( 0, 2 * keys ) ); break;
          case 15: x = op( r.chance( 50 ) ? "copyAssign" : "moveAssign" ).set( "p", p + 1 ); break;
          case 16: x = op( r.chance( 50 ) ? "copyConstruct" : "moveConstruct" ).set( "p", p + 1 ); break;
          case 17: x = r.chance( 30 ) ? op( "renew" ) : op( "swap" ).set( "p", p + 1 ); break;
          default: if( o == p ) continue; x = op( r.chance( 50 ) ? "insertAll" : "removeAll" ).set( "p", p + 1 ); break;
        }
        x.set( "o", o + 1 );
        w.run( x );
      }
    }
    for( auto & y : w.a ) y.reset();
  }
  goneEvent< T >();
}

static void run( std::vector< Op > const * const ops, Rng & r, long const len, std::string const & el )
{
  if( el == "tok" ) episode< Tok, std::ptrdiff_t >( ops, r, len );
  else if( el == "ctok" ) episode< CTok, int >( ops, r, len );
  else if( el == "str" ) episode< Str, std::ptrdiff_t >( ops, r, len );
  else if( el == "double" ) episode< double, long long >( ops, r, len );
  else episode< int, int >( ops, r, len );
}

int main( int argc, char ** argv )
{
  Args a( argc, argv );
  installErrorHandler();
  trackMemory();
  Rng r( a.seed );
  if( !a.script.empty() ) for( auto const & e : readScripts( a.script.c_str() ) ) run( &e, r, 0, a.mode );
  else for( long k = 0; k < a.n; ++k ) run( nullptr, r, a.len, a.mode );
  return finish();
}
