// Conformance driver for ArrayOfArrays. Traces: spec/RowsOfSeqsTrace.tla.
#include <algorithm>
#include "rows.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
using namespace vp;
static constexpr int N = 3;

template< typename T, typename INDEX >
struct World
{
  using A = LvArray::ArrayOfArrays< T, INDEX, LvArray::MallocBuffer >;
  using V = LvArray::ArrayOfArraysView< T, INDEX const, false, LvArray::MallocBuffer >;
  using E = El< T >;
  std::unique_ptr< A > a[ N ];
  std::unique_ptr< V > view[ N ];
  std::vector< bool > ok = std::vector< bool >( N, true );
  Addresses ids;
  long path = 0;
  World() { for( auto & x : a ) { x.reset( new A() ); if( LEAD > 0 ) { x->reserveValues( INDEX( LEAD + 4000 ) ); x->appendArray( 0 ); x->setCapacityOfArray( 0, INDEX( LEAD ) ); } } }

  // ------------------------------------------------------------------------------------------------ observation
  long nrows( A const & x ) { return long( x.size() ) - hidden(); }
  long rowSize( A const & x, long const i ) { return path % 2 ? long( x.sizeOfArray( INDEX( i + hidden() ) ) ) : long( x.toViewConst().getSizes()[ i + hidden() ] ); }
  long rowCap( A const & x, long const i ) { return long( x.capacityOfArray( INDEX( i + hidden() ) ) ); }
  long rowStart( A const & x, long const i ) { return ( path % 2 ? long( x[ INDEX( i + hidden() ) ].dataIfContiguous() - x.toViewConst().getValues() ) : long( x.toViewConst().getOffsets()[ i + hidden() ] ) ) - LEAD; }
  long valueCap( A const & x ) { return room( long( x.valueCapacity() ) ); }
  long cap( A const & x ) { return long( x.capacity() ) - hidden(); }
  void const * base( A const & x ) { return x.toViewConst().getValues(); }
  VL row( A const & x, long const i )
  {
    VL r;
    INDEX const k = INDEX( i + hidden() );
    long const n = long( x.sizeOfArray( k ) );
    switch( path++ % 7 )
    {
      case 0: for( T const & y : x[ k ] ) r.push_back( E::get( y ) ); break;
      case 1: for( long j = 0; j < n; ++j ) r.push_back( E::get( x( k, INDEX( j ) ) ) ); break;
      case 2: for( long j = 0; j < n; ++j ) r.push_back( E::get( x[ k ][ INDEX( j ) ] ) ); break;
      case 3: { auto const v = x.toView(); for( long j = 0; j < long( v.sizeOfArray( k ) ); ++j ) r.push_back( E::get( v( k, INDEX( j ) ) ) ); break; }
      case 4: { auto const v = x.toViewConst(); for( T const & y : v[ k ] ) r.push_back( E::get( y ) ); break; }
      case 5: { auto const v = x.toViewConstSizes(); for( long j = 0; j < long( v[ k ].size() ); ++j ) r.push_back( E::get( v[ k ]( INDEX( j ) ) ) ); break; }
      default: for( long j = 0; j < n; ++j ) r.push_back( E::get( x.toViewConst().getValues()[ x.toViewConst().getOffsets()[ k ] + j ] ) ); break;
    }
    return r;
  }
  void observe( J & j )
  {
    observeRows( j, *this, std::vector< A const * >{ a[ 0 ].get(), a[ 1 ].get(), a[ 2 ].get() }, ok, ids );
    lifeFields< T >( j ).emit();
  }

  // ------------------------------------------------------------------------------------------------ operations
  // The view handed out earlier, if it still describes object o.
  V * current_view( long const o )
  {
    V * const v = view[ o ].get();
    if( v == nullptr || v->size() != a[ o ]->size() || v->getSizes() != a[ o ]->toViewConst().getSizes() || v->getOffsets() != a[ o ]->toViewConst().getOffsets() || v->getValues() != a[ o ]->toViewConst().getValues() ) return nullptr;
    return v;
  }
  template< typename X > static void rowOp( X & x, std::string const & name, INDEX const i, INDEX const j, INDEX const n, T const & y,
                                            std::vector< T > const & src, std::list< T > const & lsrc, long const alt )
  {
    if( name == "emplaceBack" )
    { if( alt % 3 == 0 ) x.emplaceBack( i, y ); else if( alt % 3 == 1 || long( x.sizeOfArray( i ) ) >= long( x.capacityOfArray( i ) ) ) { T z( y ); x.emplaceBack( i, std::move( z ) ); } else x.template emplaceBackAtomic< RAJA::seq_atomic >( i, y ); }
    else if( name == "appendTo" ) { if( alt % 2 ) x.appendToArray( i, src.begin(), src.end() ); else x.appendToArray( i, lsrc.begin(), lsrc.end() ); }
    else if( name == "emplace" ) { if( alt % 2 ) x.emplace( i, j, y ); else { T z( y ); x.emplace( i, j, std::move( z ) ); } }
    else if( name == "insertInto" ) { if( alt % 2 ) x.insertIntoArray( i, j, src.begin(), src.end() ); else x.insertIntoArray( i, j, lsrc.begin(), lsrc.end() ); }
    else if( name == "eraseFrom" ) { if( n == 1 && alt % 2 ) x.eraseFromArray( i, j ); else x.eraseFromArray( i, j, n ); }
    else { fprintf( stderr, "unknown operation %s\n", name.c_str() ); _exit( 3 ); }
  }
  void run( Op op )
  {
    std::string const & name = op.name;
    long const o = op.i( "o", 1 ) - 1, p = op.i( "p", 1 ) - 1, v = op.i( "v" );
    long const alt = op.i( "alt", path );
    bool const moves = name == "moveAssign" || name == "moveConstruct";
    if( !ok[ o ] && !( name == "copyAssign" || name == "copyConstruct" || name == "renew" || name == "swap" || name == "resize" || name == "resizeFromCapacities" || moves ) ) return;
    if( ( name == "copyAssign" || name == "copyConstruct" ) && !ok[ p ] ) return;
    INDEX const i = INDEX( op.i( "i" ) + hidden() ), j = INDEX( op.i( "j" ) ), n = INDEX( op.i( "n" ) ), c = INDEX( op.i( "c" ) );
    A & x = *a[ o ];
    // through a view?
    bool const rowop = name == "emplaceBack" || name == "appendTo" || name == "emplace" || name == "insertInto" || name == "eraseFrom";
    VL const vals = op.v( "vals" );
    if( rowop )
    {
      long const more = name == "eraseFrom" ? 0 : op.has( "vals" ) ? long( vals.size() ) : 1;
      if( alt % 4 >= 2 && long( x.sizeOfArray( i ) ) + more <= long( x.capacityOfArray( i ) ) && name != "eraseFrom" ) op.set( "view", 1 );
    }
    current() = op.str();
    J ev( name.c_str() );
    describe( ev, op );
    {
      std::vector< T > const src = mkAll< T >( vals );
      std::list< T > const lsrc( src.begin(), src.end() );
      T const y = E::mk( v );
      VVL sets;
      LvArray::ArrayOfSets< T, INDEX, LvArray::MallocBuffer > ss;
      VL setCaps;
      if( name == "assimilateSets" )
      {
        // row k: the first vals[ k ] multiples of v + 1
        lib( [&]()
        {
          for( long const len : vals )
          {
            ss.appendSet( INDEX( len % 3 ) );
            sets.emplace_back();
            for( long q = 0; q < len; ++q ) { sets.back().push_back( q * ( v + 1 ) ); ss.insertIntoSet( ss.size() - 1, E::mk( q * ( v + 1 ) ) ); }
          }
        } );
        for( long k = 0; k < long( ss.size() ); ++k ) setCaps.push_back( long( ss.capacityOfSet( INDEX( k ) ) ) );
        ev.kv( "sets", sets ).kv( "setCaps", setCaps );
      }
      lib( [&]()
      {
        if( rowop )
        {
          if( !op.has( "view" ) ) rowOp( x, name, i, j, n, y, src, lsrc, alt );
          else { V * const w = current_view( o ); if( w && alt % 8 >= 6 ) rowOp( *w, name, i, j, n, y, src, lsrc, alt ); else { auto const u = x.toView(); rowOp( u, name, i, j, n, y, src, lsrc, alt ); } }
        }
        else if( name == "appendArray" ) x.appendArray( n );
        else if( name == "appendArrayVals" ) { if( alt % 2 ) x.appendArray( src.begin(), src.end() ); else x.appendArray( lsrc.begin(), lsrc.end() ); }
        else if( name == "insertArray" ) { if( alt % 2 ) x.insertArray( i, src.begin(), src.end() ); else x.insertArray( i, lsrc.begin(), lsrc.end() ); }
        else if( name == "eraseArray" ) x.eraseArray( i );
        else if( name == "resizeArray" ) { if( v == 0 && alt % 2 ) x.resizeArray( i, n ); else x.resizeArray( i, n, y ); }
        else if( name == "clearArray" ) x.clearArray( i );
        else if( name == "write" )
        {
          if( alt % 4 == 0 ) x( i, j ) = y; else if( alt % 4 == 1 ) x[ i ][ j ] = y;
          else if( alt % 4 == 2 ) { auto const w = x.toView(); w( i, j ) = y; } else { auto const w = x.toViewConstSizes(); w[ i ][ j ] = y; }
        }
        else if( name == "setCapacity" ) x.setCapacityOfArray( i, n );
        else if( name == "reserve" ) x.reserve( n + INDEX( hidden() ) );
        else if( name == "reserveValues" ) x.reserveValues( n + INDEX( LEAD ) );
        else if( name == "resize" ) { INDEX const m = n + INDEX( hidden() ); if( c == 0 && alt % 2 ) x.resize( m ); else x.resize( m, c ); }
        else if( name == "resizeFromCapacities" )
        {
          std::vector< INDEX > cs;
          if( LEAD > 0 ) cs.push_back( INDEX( LEAD ) );
          for( long const q : vals ) cs.push_back( INDEX( q ) );
          x.template resizeFromCapacities< RAJA::loop_exec >( INDEX( cs.size() ), cs.data() );
        }
        else if( name == "compress" ) x.compress();
        else if( name == "copyAssign" ) x = *a[ p ];
        else if( name == "moveAssign" ) x = std::move( *a[ p ] );
        else if( name == "copyConstruct" ) { std::unique_ptr< A > t( new A( *a[ p ] ) ); a[ o ] = std::move( t ); }
        else if( name == "moveConstruct" ) { std::unique_ptr< A > t( new A( std::move( *a[ p ] ) ) ); a[ o ] = std::move( t ); }
        else if( name == "renew" )
        {
          a[ o ].reset( n == 0 && c == 0 && alt % 2 && LEAD == 0 ? new A() : new A( n + INDEX( hidden() ), c ) );
          if( LEAD > 0 ) { a[ o ]->reserveValues( INDEX( LEAD + 4000 ) ); a[ o ]->setCapacityOfArray( 0, INDEX( LEAD ) ); }
        }
        else if( name == "swap" ) std::swap( *a[ o ], *a[ p ] );
        else if( name == "view" ) view[ o ].reset( new V( x.toView() ) );
        else if( name == "assimilateSets" ) x.assimilate( std::move( ss ) );
        else { fprintf( stderr, "unknown operation %s\n", name.c_str() ); _exit( 3 ); }
      } );
    }
    if( moves )
    {
      // moving onto itself may keep the value or leave a moved-from object
      if( o == p ) { if( a[ o ]->toViewConst().getOffsets() == nullptr ) ok[ o ] = false; }
      else { ok[ o ] = ok[ p ]; ok[ p ] = false; }
    }
    else if( name == "swap" ) { bool const t = ok[ o ]; ok[ o ] = ok[ p ]; ok[ p ] = t; }
    else ok[ o ] = true;
    observe( ev );
  }
};

template< typename T, typename INDEX >
static void episode( std::vector< Op > const * const ops, Rng & r, long const len )
{
  resetLife();
  {
    World< T, INDEX > w;
    J b( "begin" );
    w.observe( b );
    if( ops ) for( Op const & o : *ops ) w.run( o );
    else
    {
      long const maxRows = r.chance( 50 ) ? 4 : 12, small = r.chance( 60 ) ? 4 : 20;
      auto const vals = [&]( long const n ) { VL v; for( long q = 0; q < n; ++q ) v.push_back( r.below( 100 ) ); return v; };
      for( long k = 0; k < len; ++k )
      {
        long const o = r.below( N ), p = r.chance( 15 ) ? o : r.below( N );
        auto & a = *w.a[ o ];
        long const rows = long( a.size() ) - hidden(), i = r.below( rows ), size = rows ? long( a.sizeOfArray( INDEX( i + hidden() ) ) ) : 0, cap = rows ? long( a.capacityOfArray( INDEX( i + hidden() ) ) ) : 0;
        bool const big = size > 40, many = rows > maxRows;
        long const some = r.chance( 20 ) ? r.range( 0, small ) : r.range( 0, 3 );
        long const kind = r.below( 40 );
        if( rows == 0 && kind >= 6 && kind < 28 ) { if( r.chance( 70 ) ) { --k; } continue; }
        Op x;
        if( LEAD > 0 && ( kind == 26 || kind == 34 || kind == 35 || kind >= 39 ) ) continue;     // would do away with the hidden row
        switch( kind )
        {
          case 0: case 1: if( many ) continue; x = op( "appendArray" ).set( "n", some ); break;
          case 2: case 3: if( many ) continue; x = op( "appendArrayVals" ).set( "vals", vals( some ) ); break;
          case 4: case 5: if( many ) continue; x = op( "insertArray" ).set( "i", r.range( 0, rows ) ).set( "vals", vals( some ) ); break;
          case 6: x = op( "eraseArray" ).set( "i", i ); break;
          case 7: case 8: case 9: case 10: if( big ) continue; x = op( "emplaceBack" ).set( "i", i ).set( "v", r.below( 100 ) ); break;
          case 11: case 12: if( big ) continue; x = op( "appendTo" ).set( "i", i ).set( "vals", vals( some ) ); break;
          case 13: case 14: if( big ) continue; x = op( "emplace" ).set( "i", i ).set( "j", r.range( 0, size ) ).set( "v", r.below( 100 ) ); break;
          case 15: case 16: if( big ) continue; x = op( "insertInto" ).set( "i", i ).set( "j", r.range( 0, size ) ).set( "vals", vals( some ) ); break;
          case 17: case 18: if( size == 0 ) continue; { long const j = r.below( size ); x = op( "eraseFrom" ).set( "i", i ).set( "j", j ).set( "n", r.chance( 50 ) ? 1 : r.range( 0, size - j ) ); } break;
          case 19: case 20: if( big ) continue; x = op( "resizeArray" ).set( "i", i ).set( "n", r.chance( 30 ) ? cap : r.range( 0, small ) ).set( "v", r.chance( 50 ) ? 0 : r.below( 100 ) ); break;
          case 21: x = op( "clearArray" ).set( "i", i ); break;
          case 22: if( size == 0 ) continue; x = op( "write" ).set( "i", i ).set( "j", r.below( size ) ).set( "v", r.below( 100 ) ); break;
          case 23: case 24: case 25: x = op( "setCapacity" ).set( "i", i ).set( "n", r.chance( 50 ) ? std::max( 0l, size + r.range( -2, 3 ) ) : r.range( 0, 2 * small ) ); break;
          case 26: x = op( "compress" ); break;
          case 27: x = op( "reserveValues" ).set( "n", r.range( 0, 60 ) ); break;
          case 28: x = op( "reserve" ).set( "n", r.range( 0, 20 ) ); break;
          case 29: case 30: x = op( "resize" ).set( "n", r.range( 0, maxRows ) ).set( "c", r.chance( 40 ) ? 0 : r.range( 0, small ) ); break;
          case 31: x = op( "resizeFromCapacities" ); { VL cs; long const m = r.range( 0, maxRows ); for( long q = 0; q < m; ++q ) cs.push_back( r.range( 0, small ) ); x.set( "vals", cs ); } break;
          case 32: case 33: x = op( "copyAssign" ).set( "p", p + 1 ); break;
          case 34: x = op( "moveAssign" ).set( "p", p + 1 ); break;
          case 35: x = op( r.chance( 60 ) ? "copyConstruct" : "moveConstruct" ).set( "p", p + 1 ); break;
          case 36: x = op( "renew" ).set( "n", r.chance( 40 ) ? 0 : r.range( 0, maxRows ) ).set( "c", r.chance( 40 ) ? 0 : r.range( 0, small ) ); break;
          case 37: x = op( "swap" ).set( "p", p + 1 ); break;
          case 38: x = op( "view" ); break;
          default: if( r.chance( 70 ) ) continue; x = op( "assimilateSets" ).set( "v", r.below( 3 ) ); { VL cs; long const m = r.range( 0, 4 ); for( long q = 0; q < m; ++q ) cs.push_back( r.range( 0, small ) ); x.set( "vals", cs ); } break;
        }
        x.set( "o", o + 1 );
        w.run( x );
      }
    }
    for( auto & v : w.view ) v.reset();
    for( auto & y : w.a ) y.reset();
  }
  goneEvent< T >();
}

static void run( std::vector< Op > const * const ops, Rng & r, long const len, std::string const & el )
{
  if( el == "tok" ) episode< Tok, std::ptrdiff_t >( ops, r, len );
  else if( el == "ctok" ) episode< CTok, int >( ops, r, len );
  else if( el == "str" ) episode< Str, std::ptrdiff_t >( ops, r, len );
  else if( el == "tiny" ) episode< Tiny, std::ptrdiff_t >( ops, r, len );
  else if( el == "double" ) episode< double, long long >( ops, r, len );
  else episode< int, int >( ops, r, len );
}

int main( int argc, char ** argv )
{
  Args a( argc, argv );
  LEAD = a.from;       // with elements of one byte only
  installErrorHandler();
  trackMemory();
  Rng r( a.seed );
  if( !a.script.empty() ) for( auto const & e : readScripts( a.script.c_str() ) ) run( &e, r, 0, a.mode );
  else for( long k = 0; k < a.n; ++k ) run( nullptr, r, a.len, a.mode );
  return finish();
}
