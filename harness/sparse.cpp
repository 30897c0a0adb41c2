// Conformance driver for CRSMatrix and SparsityPattern. Traces: spec/SparseTrace.tla.
#include <algorithm>
#include "rows.hpp"
#include <set>
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
using namespace vp;
static constexpr int NM = 3, NP = 2, N = NM + NP;   // objects 1..3 are matrices, 4 and 5 patterns

struct RowObs
{
  long n = 0, cap = 0, start = 0;
  VL cols, entries;
};

template< typename T, typename COL, typename INDEX >
struct World
{
  using M = LvArray::CRSMatrix< T, COL, INDEX, LvArray::MallocBuffer >;
  using P = LvArray::SparsityPattern< COL, INDEX, LvArray::MallocBuffer >;
  using MV = LvArray::CRSMatrixView< T, COL, INDEX const, LvArray::MallocBuffer >;
  using PV = LvArray::SparsityPatternView< COL, INDEX const, LvArray::MallocBuffer >;
  using E = El< T >;
  std::unique_ptr< M > m[ NM ];
  std::unique_ptr< P > p[ NP ];
  std::unique_ptr< MV > mview[ NM ];
  std::unique_ptr< PV > pview[ NP ];
  std::vector< bool > ok = std::vector< bool >( N, true );
  std::map< std::pair< void const *, void const * >, long > ids;
  long path = 0;
  World()
  {
    for( auto & x : m ) { x.reset( new M() ); lead( *x ); }
    for( auto & x : p ) { x.reset( new P() ); lead( *x ); }
  }
  template< typename X > static void lead( X & x )
  {
    if( LEAD == 0 ) return;
    x.reserveNonZeros( INDEX( LEAD + 4000 ) );
    INDEX const length = INDEX( LEAD );
    x.template resizeFromRowCapacities< RAJA::loop_exec >( 1, x.numColumns(), &length );
  }

  // ------------------------------------------------------------------------------------------------ observation
  template< typename X > VL columns( X const & x, INDEX const k, long const n )
  {
    VL r;
    switch( path++ % 5 )
    {
      case 0: for( COL const c : x.getColumns( k ) ) r.push_back( long( c ) ); break;
      case 1: for( long j = 0; j < n; ++j ) r.push_back( long( x.getColumns( k )[ INDEX( j ) ] ) ); break;
      case 2: { auto const v = x.toView(); for( long j = 0; j < long( v.numNonZeros( k ) ); ++j ) r.push_back( long( v.getColumns( k )( INDEX( j ) ) ) ); break; }
      case 3: { auto const v = x.toViewConst(); for( COL const c : v.getColumns( k ) ) r.push_back( long( c ) ); break; }
      default: for( long j = 0; j < n; ++j ) r.push_back( long( x.toViewConst().getColumns()[ x.getOffsets()[ k ] + INDEX( j ) ] ) ); break;
    }
    return r;
  }
  VL entries( M const & x, INDEX const k, long const n )
  {
    VL r;
    switch( path++ % 6 )
    {
      case 0: for( T const & y : x.getEntries( k ) ) r.push_back( E::get( y ) ); break;
      case 1: for( long j = 0; j < n; ++j ) r.push_back( E::get( x.getEntries( k )[ INDEX( j ) ] ) ); break;
      case 2: { auto const v = x.toView(); for( long j = 0; j < long( v.getEntries( k ).size() ); ++j ) r.push_back( E::get( v.getEntries( k )( INDEX( j ) ) ) ); break; }
      case 3: { auto const v = x.toViewConst(); for( T const & y : v.getEntries( k ) ) r.push_back( E::get( y ) ); break; }
      case 4: { auto const v = x.toViewConstSizes(); for( T const & y : v.getEntries( k ) ) r.push_back( E::get( y ) ); break; }
      default: for( long j = 0; j < n; ++j ) r.push_back( E::get( x.getEntries()[ x.getOffsets()[ k ] + INDEX( j ) ] ) ); break;
    }
    return r;
  }
  long id( void const * const a, void const * const b )
  { if( a == nullptr && b == nullptr ) return 0; auto const it = ids.find( { a, b } ); if( it != ids.end() ) return it->second; long const k = long( ids.size() ) + 1; ids[ { a, b } ] = k; return k; }
  template< typename X > void const * entryBase( X const & ) { return nullptr; }
  void const * entryBase( M const & x ) { return x.getEntries(); }
  struct Lists { VVVL rows, entries; VVL sizes, caps, mem; VL ns, ncols, nnz; };
  VL rowEntries( M const & x, INDEX const k, long const n ) { return entries( x, k, n ); }
  VL rowEntries( P const &, INDEX const, long const ) { return VL(); }
  template< typename X > void look( X const & x, bool const good, Lists & l )
  {
    long const n = long( x.numRows() ) - hidden();
    l.ns.push_back( n );
    l.rows.emplace_back(); l.entries.emplace_back(); l.sizes.emplace_back(); l.caps.emplace_back(); l.mem.push_back( { 0, 0, 0 } ); l.ncols.push_back( 0 ); l.nnz.push_back( 0 );
    if( !good || n < 0 || n > 10000 ) return;
    l.ncols.back() = long( x.numColumns() );
    l.nnz.back() = long( x.numNonZeros() );
    auto const v = x.toViewConst();
    l.mem.back() = { room( long( x.nonZeroCapacity() ) ), 1000000, id( v.getColumns(), entryBase( x ) ) };
    for( long i = 0; i < n; ++i )
    {
      INDEX const k = INDEX( i + hidden() );
      long const sz = path % 2 ? long( x.numNonZeros( k ) ) : long( v.getSizes()[ k ] );
      l.sizes.back().push_back( sz );
      l.caps.back().push_back( long( x.nonZeroCapacity( k ) ) );
      l.mem.back().push_back( ( path % 3 == 0 && sz > 0 ? long( &x.getColumns( k )[ 0 ] - v.getColumns() ) : long( x.getOffsets()[ k ] ) ) - LEAD );
      bool const wild = sz < 0 || sz > 100000;
      l.rows.back().push_back( wild ? VL{ -9 } : columns( x, k, sz ) );
      l.entries.back().push_back( wild ? VL{ -9 } : rowEntries( x, k, sz ) );
    }
  }
  void observe( J & j )
  {
    Lists l;
    for( int k = 0; k < NM; ++k ) look( *m[ k ], ok[ k ], l );
    for( int k = 0; k < NP; ++k ) look( *p[ k ], ok[ NM + k ], l );
    j.raw( "rows", list( l.rows ) ).raw( "entries", list( l.entries ) ).kv( "sizes", l.sizes ).kv( "caps", l.caps ).kv( "mem", l.mem ).kv( "ns", l.ns )
      .kv( "ncols", l.ncols ).kv( "nnz", l.nnz );
    lifeFields< T >( j ).emit();
  }

  // ------------------------------------------------------------------------------------------------ operations
  template< typename V, typename X > bool current_view( V const & v, X const & x )
  {
    auto const w = x.toViewConst();
    return v && v->numRows() == w.numRows() && v->numColumns() == w.numColumns() && v->getSizes() == w.getSizes() && v->getOffsets() == w.getOffsets() && v->getColumns() == w.getColumns();
  }
  struct In { INDEX i; COL c; std::vector< COL > cols; std::list< COL > lcols; T v; std::vector< T > vals; long alt; };
  template< typename X > static void patternRow( X & x, std::string const & name, In const & a, J & j )
  {
    std::vector< COL > const & s = a.cols;
    if( name == "insertNZ" ) { bool const r = x.insertNonZero( a.i, a.c ); j.kv( "ret", r ); }
    else if( name == "removeNZ" ) { bool const r = x.removeNonZero( a.i, a.c ); j.kv( "ret", r ); }
    else if( name == "insertNZs" )
    { long const r = long( a.alt % 3 == 0 ? x.insertNonZeros( a.i, s.begin(), s.end() ) : a.alt % 3 == 1 ? x.insertNonZeros( a.i, a.lcols.begin(), a.lcols.end() ) : x.insertNonZeros( a.i, s.data(), s.data() + s.size() ) ); j.kv( "ret", r ); }
    else
    { long const r = long( a.alt % 3 == 0 ? x.removeNonZeros( a.i, s.begin(), s.end() ) : a.alt % 3 == 1 ? x.removeNonZeros( a.i, a.lcols.begin(), a.lcols.end() ) : x.removeNonZeros( a.i, s.data(), s.data() + s.size() ) ); j.kv( "ret", r ); }
  }
  template< typename X > static void matrixRow( X & x, std::string const & name, In const & a, J & j )
  {
    INDEX const n = INDEX( a.cols.size() );
    if( name == "insertNZ" ) { bool const r = x.insertNonZero( a.i, a.c, a.v ); j.kv( "ret", r ); }
    else if( name == "removeNZ" ) { bool const r = x.removeNonZero( a.i, a.c ); j.kv( "ret", r ); }
    else if( name == "insertNZs" ) { long const r = long( x.insertNonZeros( a.i, a.cols.data(), a.vals.data(), n ) ); j.kv( "ret", r ); }
    else { long const r = long( x.removeNonZeros( a.i, a.cols.data(), n ) ); j.kv( "ret", r ); }
  }
  template< typename ATOMIC, typename X > static void add( X const & x, In const & a, long const how, std::true_type )
  {
    INDEX const n = INDEX( a.cols.size() );
    COL const * const c = a.cols.data();
    T const * const v = a.vals.data();
    if( how == 0 ) x.template addToRow< ATOMIC >( a.i, c, v, n );
    else if( how == 1 ) x.template addToRowLinearSearch< ATOMIC >( a.i, c, v, n );
    else if( how == 2 ) x.template addToRowBinarySearch< ATOMIC >( a.i, c, v, n );
    else x.template addToRowBinarySearchUnsorted< ATOMIC >( a.i, c, v, n );
  }
  template< typename ATOMIC, typename X > static void add( X const &, In const &, long, std::false_type ) {}
  template< typename X > static void addAs( X const & x, In const & a, long const how, long const policy )
  {
    using AR = std::integral_constant< bool, std::is_arithmetic< T >::value >;
    if( policy == 0 ) add< RAJA::seq_atomic >( x, a, how, AR{} );
    else if( policy == 1 ) add< RAJA::builtin_atomic >( x, a, how, AR{} );
    else if( policy == 2 ) add< RAJA::auto_atomic >( x, a, how, AR{} );
    else add< RAJA::omp_atomic >( x, a, how, AR{} );
  }
  template< typename X > static VL ask( X const & x, INDEX const i, COL const c )
  { return { x.empty(), x.empty( i ), x.empty( i, c ), long( x.numNonZeros() ), long( x.numNonZeros( i ) ), long( x.numRows() ) - hidden(), long( x.numColumns() ) }; }
  static std::string answer( VL const & v )
  { std::string s = "["; for( std::size_t k = 0; k < v.size(); ++k ) s += ( k ? "," : "" ) + ( k < 3 ? std::string( v[ k ] ? "true" : "false" ) : std::to_string( v[ k ] ) ); return s + "]"; }

  template< typename X, typename W > void both( X & x, W const & held, std::string const & name, In const & a, long const o, long const q, Op const & op, J & ev )
  {
    INDEX const i = a.i, n = INDEX( op.i( "n" ) ), cols = INDEX( op.i( "m" ) ), c = INDEX( op.i( "c" ) );
    long const alt = a.alt;
    (void) held; (void) o; (void) q;
    if( name == "setCapacity" ) x.setRowCapacity( i, n );
    else if( name == "reserveRow" ) x.reserveNonZeros( i, n );
    else if( name == "reserveTotal" ) x.reserveNonZeros( n + INDEX( LEAD ) );
    else if( name == "resize" ) x.resize( n + INDEX( hidden() ), cols, c );
    else if( name == "resizeFromCapacities" )
    {
      std::vector< INDEX > cs;
      if( LEAD > 0 ) cs.push_back( INDEX( LEAD ) );
      for( long const r : op.v( "vals" ) ) cs.push_back( INDEX( r ) );
      x.template resizeFromRowCapacities< RAJA::loop_exec >( INDEX( cs.size() ), cols, cs.data() );
    }
    else if( name == "compress" ) x.compress();
    else if( name == "query" )
    {
      VL const r = alt % 3 == 0 ? ask( x, i, COL( op.i( "c" ) ) ) : alt % 3 == 1 ? ask( x.toView(), i, COL( op.i( "c" ) ) ) : ask( x.toViewConst(), i, COL( op.i( "c" ) ) );
      ev.raw( "ret", answer( r ) );
    }
    else { fprintf( stderr, "unknown operation %s\n", name.c_str() ); _exit( 3 ); }
  }
  template< typename X > static void replace( std::unique_ptr< X > & x, Op const & op, long const alt )
  {
    INDEX const n = INDEX( op.i( "n" ) ), cols = INDEX( op.i( "m" ) ), c = INDEX( op.i( "c" ) );
    if( LEAD > 0 ) { x.reset( new X( 0, cols ) ); lead( *x ); x->resize( n + 1, cols, c ); return; }
    x.reset( c == 0 && alt % 2 ? ( n == 0 && cols == 0 ? new X() : new X( n, cols ) ) : new X( n, cols, c ) );
  }
  template< typename X > static bool pair( std::unique_ptr< X > & x, std::unique_ptr< X > & y, std::string const & name )
  {
    if( name == "copyAssign" ) *x = *y;
    else if( name == "moveAssign" ) *x = std::move( *y );
    else if( name == "copyConstruct" ) { std::unique_ptr< X > t( new X( *y ) ); x = std::move( t ); }
    else if( name == "moveConstruct" ) { std::unique_ptr< X > t( new X( std::move( *y ) ) ); x = std::move( t ); }
    else if( name == "swap" ) std::swap( *x, *y );
    else return false;
    return true;
  }
  bool isMatrix( long const o ) const { return o < NM; }
  long rowsOf( long const o ) const { return ( o < NM ? long( m[ o ]->numRows() ) : long( p[ o - NM ]->numRows() ) ) - hidden(); }
  long colsOf( long const o ) const { return o < NM ? long( m[ o ]->numColumns() ) : long( p[ o - NM ]->numColumns() ); }
  VL colsIn( long const o, long const i ) const
  {
    VL r;
    if( o < NM ) for( COL const c : m[ o ]->getColumns( INDEX( i + hidden() ) ) ) r.push_back( long( c ) );
    else for( COL const c : p[ o - NM ]->getColumns( INDEX( i + hidden() ) ) ) r.push_back( long( c ) );
    return r;
  }
  void run( Op op )
  {
    std::string const & name = op.name;
    long const o = op.i( "o", 1 ) - 1, q = op.i( "p", 1 ) - 1;
    long const alt = op.i( "alt", path );
    bool const mat = isMatrix( o );
    bool const moves = name == "moveAssign" || name == "moveConstruct";
    bool const two = moves || name == "copyAssign" || name == "copyConstruct" || name == "swap";
    if( !ok[ o ] && !( two || name == "renew" || name == "resize" || name == "resizeFromCapacities" ) ) return;
    if( ( name == "copyAssign" || name == "copyConstruct" || name == "assimilate" ) && !ok[ q ] ) return;
    if( name == "addToRow" && !std::is_arithmetic< T >::value ) return;
    if( name == "zero" && !std::is_arithmetic< T >::value ) return;
    std::unique_ptr< In > arguments( new In{ INDEX( op.i( "i" ) + hidden() ), COL( op.i( "c" ) ), {}, {}, E::mk( op.i( "v" ) ), {}, alt } );
    In & a = *arguments;
    bool const rowop = name == "insertNZ" || name == "removeNZ" || name == "insertNZs" || name == "removeNZs" || name == "addToRow";
    if( rowop )
    {
      for( long const c : op.v( "vals" ) ) a.cols.push_back( COL( c ) );
      a.lcols.assign( a.cols.begin(), a.cols.end() );
      a.vals = mkAll< T >( op.v( "valse" ) );
      if( name == "insertNZ" || name == "insertNZs" )
      {
        VL const have = colsIn( o, long( a.i ) - hidden() );
        long more = 0;
        for( long const c : name == "insertNZ" ? VL{ op.i( "c" ) } : op.v( "vals" ) ) more += std::find( have.begin(), have.end(), c ) == have.end();
        long const cap = mat ? long( m[ o ]->nonZeroCapacity( a.i ) ) : long( p[ o - NM ]->nonZeroCapacity( a.i ) );
        if( alt % 4 >= 2 && long( have.size() ) + more <= cap ) op.set( "view", 1 );
      }
      else if( alt % 4 >= 2 ) op.set( "view", 1 );
    }
    current() = op.str();
    J ev( name.c_str() );
    describe( ev, op );
    bool const held = mat ? current_view( mview[ mat ? o : 0 ], *m[ mat ? o : 0 ] ) : current_view( pview[ o - NM ], *p[ o - NM ] );
    lib( [&]()
    {
      bool const v = op.has( "view" ), h = held && alt % 8 >= 6;
      if( name == "addToRow" )
      {
        M & x = *m[ o ];
        long const how = op.i( "how", alt % 4 ), policy = ( alt / 4 ) % 4;
        if( !v ) addAs( x, a, how, policy );
        else if( h ) addAs( *mview[ o ], a, how, policy );
        else if( alt % 3 == 0 ) addAs( x.toViewConstSizes(), a, how, policy );
        else addAs( x.toView(), a, how, policy );
      }
      else if( rowop )
      {
        if( mat )
        {
          M & x = *m[ o ];
          if( !v ) matrixRow( x, name, a, ev );
          else if( h ) matrixRow( *mview[ o ], name, a, ev );
          else { auto const u = x.toView(); matrixRow( u, name, a, ev ); }
        }
        else
        {
          P & x = *p[ o - NM ];
          if( !v ) patternRow( x, name, a, ev );
          else if( h ) patternRow( *pview[ o - NM ], name, a, ev );
          else { auto const u = x.toView(); patternRow( u, name, a, ev ); }
        }
      }
      else if( name == "write" )
      {
        INDEX const k = INDEX( op.i( "k" ) );
        M & x = *m[ o ];
        switch( alt % 4 )
        {
          case 0: x.getEntries( a.i )[ k ] = a.v; break;
          case 1: x.toView().getEntries( a.i )( k ) = a.v; break;
          case 2: x.toViewConstSizes().getEntries( a.i )[ k ] = a.v; break;
          default: if( held ) mview[ o ]->getEntries( a.i )[ k ] = a.v; else { T * const e = x.getEntries( a.i ); e[ k ] = a.v; } break;
        }
      }
      else if( name == "setValues" ) { if( alt % 2 ) m[ o ]->template setValues< RAJA::loop_exec >( a.v ); else m[ o ]->toViewConstSizes().template setValues< RAJA::loop_exec >( a.v ); }
      else if( name == "zero" ) { if( alt % 2 ) m[ o ]->zero(); else m[ o ]->toView().zero(); }
      else if( name == "assimilate" ) m[ o ]->template assimilate< RAJA::loop_exec >( std::move( *p[ q - NM ] ) );
      else if( name == "appendRow" ) { INDEX const n = INDEX( op.i( "n" ) ); if( n == 0 && alt % 2 ) p[ o - NM ]->appendRow(); else p[ o - NM ]->appendRow( n ); }
      else if( name == "reserveRows" ) p[ o - NM ]->reserveRows( INDEX( op.i( "n" ) + hidden() ) );
      else if( name == "renew" ) { if( mat ) replace( m[ o ], op, alt ); else replace( p[ o - NM ], op, alt ); }
      else if( name == "view" ) { if( mat ) mview[ o ].reset( new MV( m[ o ]->toView() ) ); else pview[ o - NM ].reset( new PV( p[ o - NM ]->toView() ) ); }
      else if( two ) { if( mat ) pair( m[ o ], m[ q ], name ); else pair( p[ o - NM ], p[ q - NM ], name ); }
      else if( mat ) both( *m[ o ], mview[ o ], name, a, o, q, op, ev );
      else both( *p[ o - NM ], pview[ o - NM ], name, a, o, q, op, ev );
    } );
    arguments.reset();
    if( moves )
    {
      if( o == q ) { if( ( mat ? m[ o ]->getOffsets() : p[ o - NM ]->getOffsets() ) == nullptr ) ok[ o ] = false; }
      else { ok[ o ] = ok[ q ]; ok[ q ] = false; }
    }
    else if( name == "assimilate" ) ok[ q ] = false;
    else if( name == "swap" ) { bool const t = ok[ o ]; ok[ o ] = ok[ q ]; ok[ q ] = t; }
    else ok[ o ] = true;
    observe( ev );
  }
};

// bias: 0 everything, 1 mostly additions to rows.
template< typename T, typename COL, typename INDEX >
static void episode( std::vector< Op > const * const ops, Rng & r, long const len, bool const adds )
{
  resetLife();
  {
    World< T, COL, INDEX > w;
    J b( "begin" );
    w.observe( b );
    if( ops ) for( Op const & o : *ops ) w.run( o );
    else
    {
      long const maxRows = r.chance( 50 ) ? 3 : 8, wide = r.chance( adds ? 40 : 10 ) ? r.range( 80, 320 ) : r.chance( 50 ) ? r.range( 1, 8 ) : r.range( 8, 60 );
      long const maxCols = sizeof( COL ) == 1 ? std::min( wide, 100l ) : wide;
      auto const some = [&]( long const n )      // distinct columns in order
      {
        std::set< long > s;
        if( n == 0 ) return VL();
        long const k = r.chance( 70 ) ? r.range( 0, 4 ) : r.range( 0, n );
        if( n > 64 && r.chance( 40 ) ) for( long c = 0; c < n; ++c ) { if( r.chance( 80 ) ) s.insert( c ); }
        else for( long j = 0; j < k; ++j ) s.insert( r.below( n ) );
        return VL( s.begin(), s.end() );
      };
      auto const values = [&]( std::size_t const n ) { VL v; for( std::size_t k = 0; k < n; ++k ) v.push_back( r.range( 1, 900 ) ); return v; };
      for( long o = 0; o < N; ++o ) if( r.chance( 85 ) ) w.run( op( "renew" ).set( "o", o + 1 ).set( "n", r.range( 0, maxRows ) ).set( "m", maxCols ).set( "c", r.range( 0, 5 ) ) );
      for( long k = 0; k < len; ++k )
      {
        long const o = adds ? r.below( NM ) : r.below( N );
        bool const mat = w.isMatrix( o );
        long const q = r.chance( 15 ) ? o : mat ? r.below( NM ) : NM + r.below( NP );
        long const rows = w.ok[ o ] ? w.rowsOf( o ) : 0, i = r.below( rows ), cols = w.ok[ o ] ? w.colsOf( o ) : 0;
        long const size = rows ? long( w.colsIn( o, i ).size() ) : 0;
        long const kind = adds && r.chance( 60 ) ? 20 + r.below( 6 ) : r.below( 45 );
        if( ( rows == 0 || cols == 0 ) && kind < 29 ) { if( r.chance( 60 ) ) --k; else { w.run( op( "renew" ).set( "o", o + 1 ).set( "n", r.range( 1, maxRows ) ).set( "m", maxCols ).set( "c", r.range( 0, 5 ) ) ); } continue; }
        Op x;
        auto const someOf = [&]( VL const & have ) { VL v; for( long const c : have ) if( r.chance( have.size() > 64 ? ( r.chance( 3 ) ? 90 : 12 ) : 50 ) ) v.push_back( c ); return v; };
        // What resizing must keep: the columns of the rows that stay.
        auto const leastCols = [&]( long const n ) { long c = 0; for( long row = 0; row < std::min( rows, n ); ++row ) for( long const z : w.colsIn( o, row ) ) c = std::max( c, z + 1 ); return c; };
        if( LEAD > 0 && ( kind == 29 || ( kind >= 35 && kind <= 39 ) || kind >= 43 ) ) continue;      // would do away with the hidden row or with the room behind it
        switch( kind )
        {
          case 0: case 1: case 2: case 3: case 4: x = op( "insertNZ" ).set( "i", i ).set( "c", r.below( cols ) ).set( "v", r.range( 1, 900 ) ); break;
          case 5: case 6: case 7: case 8: case 9: case 10: x = op( "insertNZs" ).set( "i", i ).set( "vals", some( cols ) ); x.set( "valse", values( x.v( "vals" ).size() ) ); break;
          case 11: case 12: case 13: x = op( "removeNZ" ).set( "i", i ).set( "c", size > 0 && r.chance( 60 ) ? w.colsIn( o, i )[ std::size_t( r.below( size ) ) ] : r.below( cols ) ); break;
          case 14: case 15: case 16: x = op( "removeNZs" ).set( "i", i ).set( "vals", size > 0 && r.chance( 50 ) ? someOf( w.colsIn( o, i ) ) : some( cols ) ); break;
          case 17: case 18: x = op( "query" ).set( "i", i ).set( "c", r.range( 0, cols - 1 ) ); break;
          case 19: case 20: case 21: case 22: case 23:
          {
            if( !mat || size == 0 ) { x = op( "insertNZs" ).set( "i", i ).set( "vals", some( cols ) ); x.set( "valse", values( x.v( "vals" ).size() ) ); break; }
            VL cs = someOf( w.colsIn( o, i ) );
            long const how = r.below( 4 );
            if( how == 3 )
            {
              if( r.chance( 20 ) ) { VL const more = someOf( w.colsIn( o, i ) ); cs.insert( cs.end(), more.begin(), more.end() ); }
              for( std::size_t z = cs.size(); z > 1; --z ) std::swap( cs[ z - 1 ], cs[ std::size_t( r.below( long( z ) ) ) ] );
            }
            x = op( "addToRow" ).set( "i", i ).set( "vals", cs ).set( "valse", values( cs.size() ) ).set( "how", how );
            break;
          }
          case 24: if( !mat || size == 0 ) continue; x = op( "write" ).set( "i", i ).set( "k", r.below( size ) ).set( "v", r.range( 1, 900 ) ); break;
          case 25: if( !mat ) continue; if( r.chance( 70 ) ) x = op( "setValues" ).set( "v", r.range( 0, 900 ) ); else if( LEAD > 0 ) continue; else x = op( "zero" ); break;
          case 26: x = op( "setCapacity" ).set( "i", i ).set( "n", r.chance( 50 ) ? std::max( 0l, size + r.range( -2, 3 ) ) : r.range( 0, cols + 3 ) ); break;
          case 27: case 28: x = op( "reserveRow" ).set( "i", i ).set( "n", r.chance( 50 ) ? std::max( 0l, size + r.range( -2, 3 ) ) : r.range( 0, cols + 3 ) ); break;
          case 29: x = op( "compress" ); break;
          case 30: x = op( "reserveTotal" ).set( "n", r.range( 0, 60 ) ); break;
          case 31: if( mat ) continue; if( rows > maxRows ) continue; x = op( "appendRow" ).set( "n", r.chance( 40 ) ? 0 : r.range( 0, cols + 2 ) ); break;
          case 32: if( mat ) continue; x = op( "reserveRows" ).set( "n", r.range( 0, 20 ) ); break;
          case 33: case 34: { long const n = r.range( 0, maxRows ); x = op( "resize" ).set( "n", n ).set( "m", r.chance( 50 ) ? std::max( cols, leastCols( n ) ) : r.range( leastCols( n ), maxCols ) ).set( "c", r.chance( 40 ) ? 0 : r.range( 0, 6 ) ); break; }
          case 35: x = op( "resizeFromCapacities" ).set( "m", r.range( 0, maxCols ) ); { VL cs; long const n = r.range( 0, maxRows ); for( long z = 0; z < n; ++z ) cs.push_back( r.range( 0, 6 ) ); x.set( "vals", cs ); } break;
          case 36: case 37: x = op( "copyAssign" ).set( "p", q + 1 ); break;
          case 38: x = op( "moveAssign" ).set( "p", q + 1 ); break;
          case 39: x = op( r.chance( 60 ) ? "copyConstruct" : "moveConstruct" ).set( "p", q + 1 ); break;
          case 40: x = op( "renew" ).set( "n", r.range( 0, maxRows ) ).set( "m", r.chance( 80 ) ? maxCols : r.range( 0, maxCols ) ).set( "c", r.chance( 40 ) ? 0 : r.range( 0, 6 ) ); break;
          case 41: x = op( "swap" ).set( "p", q + 1 ); break;
          case 42: x = op( "view" ); break;
          default: if( !mat || !w.ok[ o ] ) continue; x = op( "assimilate" ).set( "p", NM + r.below( NP ) + 1 ); break;
        }
        x.set( "o", o + 1 );
        w.run( x );
      }
    }
    for( auto & v : w.mview ) v.reset();
    for( auto & v : w.pview ) v.reset();
    for( auto & y : w.m ) y.reset();
    for( auto & y : w.p ) y.reset();
  }
  goneEvent< T >();
}

static void run( std::vector< Op > const * const ops, Rng & r, long const len, std::string const & mode )
{
  bool const adds = mode.size() > 5 && mode.substr( mode.size() - 5 ) == "-adds";
  std::string const el = adds ? mode.substr( 0, mode.size() - 5 ) : mode;
  if( el == "tok" ) episode< Tok, int, std::ptrdiff_t >( ops, r, len, adds );
  else if( el == "ctok" ) episode< CTok, short, int >( ops, r, len, adds );
  else if( el == "str" ) episode< Str, long, std::ptrdiff_t >( ops, r, len, adds );
  else if( el == "double" ) episode< double, int, long long >( ops, r, len, adds );
  else if( el == "tiny" ) episode< short, signed char, std::ptrdiff_t >( ops, r, len, adds );
  else if( el == "float" ) episode< float, long long, int >( ops, r, len, adds );
  else if( el == "long" ) episode< long, unsigned int, std::ptrdiff_t >( ops, r, len, adds );
  else episode< int, short, int >( ops, r, len, adds );
}

int main( int argc, char ** argv )
{
  Args a( argc, argv );
  LEAD = a.from;       // with few bytes per element
  installErrorHandler();
  trackMemory();
  Rng r( a.seed );
  if( !a.script.empty() ) for( auto const & e : readScripts( a.script.c_str() ) ) run( &e, r, 0, a.mode );
  else for( long k = 0; k < a.n; ++k ) run( nullptr, r, a.len, a.mode );
  return finish();
}
