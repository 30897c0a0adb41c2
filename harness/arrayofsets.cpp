// Conformance driver for ArrayOfSets. Traces: spec/RowsOfSetsTrace.tla.
#include <algorithm>
#include "rows.hpp"
#include <set>
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
using namespace vp;
static constexpr int N = 3;

template< typename T, typename INDEX >
struct World
{
  using A = LvArray::ArrayOfSets< T, INDEX, LvArray::MallocBuffer >;
  using V = LvArray::ArrayOfSetsView< T, INDEX const, LvArray::MallocBuffer >;
  using AA = LvArray::ArrayOfArrays< T, INDEX, LvArray::MallocBuffer >;
  using E = El< T >;
  std::unique_ptr< A > a[ N ];
  std::unique_ptr< V > view[ N ];
  std::vector< bool > ok = std::vector< bool >( N, true );
  Addresses ids;
  long path = 0;
  World() { for( auto & x : a ) { x.reset( new A() ); if( LEAD > 0 ) { x->reserveValues( INDEX( LEAD + 4000 ) ); x->appendSet( INDEX( LEAD ) ); } } }

  // ------------------------------------------------------------------------------------------------ observation
  long nrows( A const & x ) { return long( x.size() ) - hidden(); }
  long rowSize( A const & x, long const i ) { return path % 2 ? long( x.sizeOfSet( INDEX( i + hidden() ) ) ) : long( x.toViewConst().getSizes()[ i + hidden() ] ); }
  long rowCap( A const & x, long const i ) { return long( x.capacityOfSet( INDEX( i + hidden() ) ) ); }
  long rowStart( A const & x, long const i ) { return ( path % 2 ? long( x[ INDEX( i + hidden() ) ].dataIfContiguous() - x.toViewConst().getValues() ) : long( x.toViewConst().getOffsets()[ i + hidden() ] ) ) - LEAD; }
  long valueCap( A const & x ) { return room( long( x.valueCapacity() ) ); }
  long cap( A const & x ) { return long( x.capacity() ) - hidden(); }
  void const * base( A const & x ) { return x.toViewConst().getValues(); }
  VL row( A const & x, long const i )
  {
    VL r;
    INDEX const k = INDEX( i + hidden() );
    long const n = long( x.sizeOfSet( k ) );
    switch( path++ % 7 )
    {
      case 0: for( T const & y : x[ k ] ) r.push_back( E::get( y ) ); break;
      case 1: for( long j = 0; j < n; ++j ) r.push_back( E::get( x( k, INDEX( j ) ) ) ); break;
      case 2: for( long j = 0; j < n; ++j ) r.push_back( E::get( x[ k ][ INDEX( j ) ] ) ); break;
      case 3: { auto const v = x.toView(); for( long j = 0; j < long( v.sizeOfSet( k ) ); ++j ) r.push_back( E::get( v( k, INDEX( j ) ) ) ); break; }
      case 4: { auto const v = x.toViewConst(); for( T const & y : v[ k ] ) r.push_back( E::get( y ) ); break; }
      case 5: { auto const v = x.toArrayOfArraysView(); for( long j = 0; j < long( v[ k ].size() ); ++j ) r.push_back( E::get( v[ k ]( INDEX( j ) ) ) ); break; }
      default: { auto const v = x.toView().toArrayOfArraysView(); for( long j = 0; j < long( v.sizeOfArray( k ) ); ++j ) r.push_back( E::get( v( k, INDEX( j ) ) ) ); break; }
    }
    return r;
  }
  void observe( J & j )
  {
    observeRows( j, *this, std::vector< A const * >{ a[ 0 ].get(), a[ 1 ].get(), a[ 2 ].get() }, ok, ids );
    lifeFields< T >( j ).emit();
  }

  // ------------------------------------------------------------------------------------------------ operations
  V * current_view( long const o )
  {
    V * const v = view[ o ].get();
    auto const w = a[ o ]->toViewConst();
    if( v == nullptr || v->size() != w.size() || v->getSizes() != w.getSizes() || v->getOffsets() != w.getOffsets() || v->getValues() != w.getValues() ) return nullptr;
    return v;
  }
  template< typename X > static void rowOp( X & x, std::string const & name, INDEX const i, T const & y, std::vector< T > const & src, std::list< T > const & lsrc, long const alt, J & j )
  {
    if( name == "insert" ) { bool const r = x.insertIntoSet( i, y ); j.kv( "ret", r ); }
    else if( name == "remove" ) { bool const r = x.removeFromSet( i, y ); j.kv( "ret", r ); }
    else if( name == "insertMany" )
    { long const r = long( alt % 3 == 0 ? x.insertIntoSet( i, src.begin(), src.end() ) : alt % 3 == 1 ? x.insertIntoSet( i, lsrc.begin(), lsrc.end() ) : x.insertIntoSet( i, src.data(), src.data() + src.size() ) ); j.kv( "ret", r ); }
    else if( name == "removeMany" )
    { long const r = long( alt % 3 == 0 ? x.removeFromSet( i, src.begin(), src.end() ) : alt % 3 == 1 ? x.removeFromSet( i, lsrc.begin(), lsrc.end() ) : x.removeFromSet( i, src.data(), src.data() + src.size() ) ); j.kv( "ret", r ); }
    else { fprintf( stderr, "unknown operation %s\n", name.c_str() ); _exit( 3 ); }
  }
  void run( Op op )
  {
    std::string const & name = op.name;
    long const o = op.i( "o", 1 ) - 1, p = op.i( "p", 1 ) - 1, v = op.i( "v" );
    long const alt = op.i( "alt", path );
    bool const moves = name == "moveAssign" || name == "moveConstruct";
    if( !ok[ o ] && !( name == "copyAssign" || name == "copyConstruct" || name == "renew" || name == "swap" || name == "resize" || name == "resizeFromCapacities" || moves ) ) return;
    if( ( name == "copyAssign" || name == "copyConstruct" ) && !ok[ p ] ) return;
    INDEX const i = INDEX( op.i( "i" ) + hidden() ), n = INDEX( op.i( "n" ) ), c = INDEX( op.i( "c" ) );
    A & x = *a[ o ];
    bool const rowop = name == "insert" || name == "remove" || name == "insertMany" || name == "removeMany";
    VL const vals = name == "assimilate" ? VL() : op.v( "vals" );
    if( rowop )
    {
      long more = 0;
      if( name == "insert" ) more = !x.contains( i, E::mk( v ) );
      if( name == "insertMany" ) for( long const q : vals ) more += !x.contains( i, E::mk( q ) );
      if( alt % 4 >= 2 && long( x.sizeOfSet( i ) ) + more <= long( x.capacityOfSet( i ) ) ) op.set( "view", 1 );
    }
    current() = op.str();
    J ev( name.c_str() );
    describe( ev, op );
    {
      std::vector< T > const src = mkAll< T >( vals );
      std::list< T > const lsrc( src.begin(), src.end() );
      T const y = E::mk( v );
      AA aa;
      if( name == "assimilate" )
      {
        // rows separated by -1
        VVL lists;
        for( long const q : op.v( "vals" ) ) if( q == -1 ) lists.emplace_back(); else lists.back().push_back( q );
        ev.raw( "lists", list( lists ) );
        lib( [&]() { for( VL const & l : lists ) { std::vector< T > const s = mkAll< T >( l ); aa.appendArray( s.begin(), s.end() ); } if( alt % 3 == 0 ) aa.compress(); } );
      }
      lib( [&]()
      {
        if( rowop )
        {
          if( !op.has( "view" ) ) rowOp( x, name, i, y, src, lsrc, alt, ev );
          else { V * const w = current_view( o ); if( w && alt % 8 >= 6 ) rowOp( *w, name, i, y, src, lsrc, alt, ev ); else { auto const u = x.toView(); rowOp( u, name, i, y, src, lsrc, alt, ev ); } }
        }
        else if( name == "contains" ) { bool const r = alt % 3 == 0 ? x.contains( i, y ) : alt % 3 == 1 ? x.toView().contains( i, y ) : x.toViewConst().contains( i, y ); ev.kv( "ret", r ); }
        else if( name == "appendSet" ) { if( n == 0 && alt % 2 ) x.appendSet(); else x.appendSet( n ); }
        else if( name == "insertSet" ) { if( n == 0 && alt % 2 ) x.insertSet( i ); else x.insertSet( i, n ); }
        else if( name == "eraseSet" ) x.eraseSet( i );
        else if( name == "clearSet" ) x.clearSet( i );
        else if( name == "setCapacity" ) x.setCapacityOfSet( i, n );
        else if( name == "reserveRow" ) x.reserveCapacityOfSet( i, n );
        else if( name == "reserve" ) x.reserve( n + INDEX( hidden() ) );
        else if( name == "reserveValues" ) x.reserveValues( n + INDEX( LEAD ) );
        else if( name == "resize" ) { INDEX const m = n + INDEX( hidden() ); if( c == 0 && alt % 2 ) x.resize( m ); else x.resize( m, c ); }
        else if( name == "resizeFromCapacities" )
        {
          std::vector< INDEX > cs;
          if( LEAD > 0 ) cs.push_back( INDEX( LEAD ) );
          for( long const q : vals ) cs.push_back( INDEX( q ) );
          x.template resizeFromCapacities< RAJA::loop_exec >( INDEX( cs.size() ), cs.data() );
        }
        else if( name == "compress" ) x.compress();
        else if( name == "copyAssign" ) x = *a[ p ];
        else if( name == "moveAssign" ) x = std::move( *a[ p ] );
        else if( name == "copyConstruct" ) { std::unique_ptr< A > t( new A( *a[ p ] ) ); a[ o ] = std::move( t ); }
        else if( name == "moveConstruct" ) { std::unique_ptr< A > t( new A( std::move( *a[ p ] ) ) ); a[ o ] = std::move( t ); }
        else if( name == "renew" )
        {
          a[ o ].reset( n == 0 && c == 0 && alt % 2 && LEAD == 0 ? new A() : new A( n + INDEX( hidden() ), c ) );
          if( LEAD > 0 ) { a[ o ]->reserveValues( INDEX( LEAD + 4000 ) ); a[ o ]->setCapacityOfSet( 0, INDEX( LEAD ) ); }
        }
        else if( name == "swap" ) std::swap( *a[ o ], *a[ p ] );
        else if( name == "view" ) view[ o ].reset( new V( x.toView() ) );
        else if( name == "assimilate" ) x.assimilate( std::move( aa ), static_cast< LvArray::sortedArrayManipulation::Description >( op.i( "desc" ) ) );
        else { fprintf( stderr, "unknown operation %s\n", name.c_str() ); _exit( 3 ); }
      } );
    }
    if( moves )
    {
      if( o == p ) { if( a[ o ]->toViewConst().getOffsets() == nullptr ) ok[ o ] = false; }
      else { ok[ o ] = ok[ p ]; ok[ p ] = false; }
    }
    else if( name == "swap" ) { bool const t = ok[ o ]; ok[ o ] = ok[ p ]; ok[ p ] = t; }
    else ok[ o ] = true;
    if( ok[ o ] ) a[ o ]->consistencyCheck();
    observe( ev );
  }
};

static Op assimilation( Rng & r, long const keys )
{
  using namespace LvArray::sortedArrayManipulation;
  static constexpr Description kinds[] = { SORTED_UNIQUE, UNSORTED_NO_DUPLICATES, SORTED_WITH_DUPLICATES, UNSORTED_WITH_DUPLICATES };
  Description const d = kinds[ r.below( 4 ) ];
  VL flat;
  long const rows = r.range( 0, 4 );
  for( long k = 0; k < rows; ++k )
  {
    flat.push_back( -1 );
    VL v;
    long const n = r.chance( 20 ) ? r.range( 0, 40 ) : r.range( 0, 6 );
    for( long q = 0; q < n; ++q ) v.push_back( r.below( keys ) );
    if( d == SORTED_UNIQUE || d == SORTED_WITH_DUPLICATES ) std::sort( v.begin(), v.end() );
    if( d == SORTED_UNIQUE || d == UNSORTED_NO_DUPLICATES ) { VL w; for( long const q : v ) if( std::find( w.begin(), w.end(), q ) == w.end() ) w.push_back( q ); v = w; }
    flat.insert( flat.end(), v.begin(), v.end() );
  }
  return op( "assimilate" ).set( "vals", flat ).set( "desc", long( d ) );
}

template< typename T, typename INDEX >
static void episode( std::vector< Op > const * const ops, Rng & r, long const len )
{
  resetLife();
  {
    World< T, INDEX > w;
    J b( "begin" );
    w.observe( b );
    if( ops ) for( Op const & o : *ops ) w.run( o );
    else
    {
      long const maxRows = r.chance( 50 ) ? 4 : 12, keys = r.chance( 50 ) ? r.range( 1, 8 ) : r.range( 8, 60 ), small = r.chance( 60 ) ? 4 : 20;
      auto const some = [&]()
      {
        std::set< long > s;
        long const n = r.chance( 75 ) ? r.range( 0, 4 ) : r.range( 0, keys );
        for( long k = 0; k < n; ++k ) s.insert( r.below( keys ) );
        return VL( s.begin(), s.end() );
      };
      for( long k = 0; k < len; ++k )
      {
        long const o = r.below( N ), p = r.chance( 15 ) ? o : r.below( N );
        auto & a = *w.a[ o ];
        long const rows = long( a.size() ) - hidden(), i = r.below( rows ), size = rows ? long( a.sizeOfSet( INDEX( i + hidden() ) ) ) : 0;
        bool const many = rows > maxRows;
        long const kind = r.below( 38 );
        if( rows == 0 && kind >= 5 && kind < 25 ) { if( r.chance( 70 ) ) { --k; } continue; }
        Op x;
        if( LEAD > 0 && ( kind == 24 || kind == 32 || kind == 33 || kind >= 37 ) ) continue;     // would do away with the hidden row
        switch( kind )
        {
          case 0: case 1: case 2: if( many ) continue; x = op( "appendSet" ).set( "n", r.chance( 40 ) ? 0 : r.range( 0, small ) ); break;
          case 3: case 4: if( many ) continue; x = op( "insertSet" ).set( "i", r.range( 0, rows ) ).set( "n", r.chance( 40 ) ? 0 : r.range( 0, small ) ); break;
          case 5: x = op( "eraseSet" ).set( "i", i ); break;
          case 6: case 7: case 8: case 9: x = op( "insert" ).set( "i", i ).set( "v", r.below( keys ) ); break;
          case 10: case 11: case 12: case 13: x = op( "insertMany" ).set( "i", i ).set( "vals", some() ); break;
          case 14: case 15: x = op( "remove" ).set( "i", i ).set( "v", r.below( keys ) ); break;
          case 16: case 17: case 18: x = op( "removeMany" ).set( "i", i ).set( "vals", some() ); break;
          case 19: case 20: x = op( "contains" ).set( "i", i ).set( "v", r.range( -1, keys ) ); break;
          case 21: x = op( "clearSet" ).set( "i", i ); break;
          case 22: x = op( "setCapacity" ).set( "i", i ).set( "n", r.chance( 50 ) ? std::max( 0l, size + r.range( -2, 3 ) ) : r.range( 0, 2 * small ) ); break;
          case 23: x = op( "reserveRow" ).set( "i", i ).set( "n", r.chance( 50 ) ? std::max( 0l, size + r.range( -2, 3 ) ) : r.range( 0, 2 * small ) ); break;
          case 24: x = op( "compress" ); break;
          case 25: x = op( "reserve" ).set( "n", r.range( 0, 20 ) ); break;
          case 26: if( !w.ok[ o ] ) continue; x = op( "reserveValues" ).set( "n", r.range( 0, 60 ) ); break;
          case 27: case 28: x = op( "resize" ).set( "n", r.range( 0, maxRows ) ).set( "c", r.chance( 40 ) ? 0 : r.range( 0, small ) ); break;
          case 29: x = op( "resizeFromCapacities" ); { VL cs; long const m = r.range( 0, maxRows ); for( long q = 0; q < m; ++q ) cs.push_back( r.range( 0, small ) ); x.set( "vals", cs ); } break;
          case 30: case 31: x = op( "copyAssign" ).set( "p", p + 1 ); break;
          case 32: x = op( "moveAssign" ).set( "p", p + 1 ); break;
          case 33: x = op( r.chance( 60 ) ? "copyConstruct" : "moveConstruct" ).set( "p", p + 1 ); break;
          case 34: x = op( "renew" ).set( "n", r.chance( 40 ) ? 0 : r.range( 0, maxRows ) ).set( "c", r.chance( 40 ) ? 0 : r.range( 0, small ) ); break;
          case 35: x = op( "swap" ).set( "p", p + 1 ); break;
          case 36: x = op( "view" ); break;
          default: if( !w.ok[ o ] && r.chance( 50 ) ) continue; x = assimilation( r, keys ); break;
        }
        x.set( "o", o + 1 );
        w.run( x );
      }
    }
    for( auto & v : w.view ) v.reset();
    for( auto & y : w.a ) y.reset();
  }
  goneEvent< T >();
}

static void run( std::vector< Op > const * const ops, Rng & r, long const len, std::string const & el )
{
  if( el == "tok" ) episode< Tok, std::ptrdiff_t >( ops, r, len );
  else if( el == "ctok" ) episode< CTok, int >( ops, r, len );
  else if( el == "str" ) episode< Str, std::ptrdiff_t >( ops, r, len );
  else if( el == "tiny" ) episode< Tiny, std::ptrdiff_t >( ops, r, len );
  else if( el == "double" ) episode< double, long long >( ops, r, len );
  else episode< int, int >( ops, r, len );
}

int main( int argc, char ** argv )
{
  Args a( argc, argv );
  LEAD = a.from;       // with elements of one byte only
  installErrorHandler();
  trackMemory();
  Rng r( a.seed );
  if( !a.script.empty() ) for( auto const & e : readScripts( a.script.c_str() ) ) run( &e, r, 0, a.mode );
  else for( long k = 0; k < a.n; ++k ) run( nullptr, r, a.len, a.mode );
  return finish();
}
