// Threads that append to an array of arrays and add to a matrix, recorded for spec/Conc.tla. In the scheduled modes the
// threads are coroutines that can be suspended at every atomic operation and wherever a value is constructed or added
// (with VP_T=Num, Cell); in mode "free" they are real threads, watched by the thread sanitizer.
#include "vp.hpp"
#include "vperr.hpp"
#include "MallocBuffer.hpp"
#include "ArrayOfArrays.hpp"
#include "CRSMatrix.hpp"
#include <atomic>
#include <thread>
#include <ucontext.h>
using namespace vp;
using P = std::ptrdiff_t;
static std::atomic< long > races{ 0 };
extern "C" void __tsan_on_report( void * ) { races.fetch_add( 1 ); }

static void stop( char const * what );
// A value that can be interrupted while it is written.
struct Cell
{
  Cell(): v( 0 ) {}
  explicit Cell( long const a, long const b = 0 ) { stop( "construct" ); v = a + b; }
  long v;
};
struct Num
{
  long v;
  Num() = default;
  Num( long const x ): v( x ) {}
  Num operator+( Num const & o ) const { Num const r( v + o.v ); stop( "plus" ); return r; }
  Num & operator+=( Num const & o ) { long const old = v; stop( "plus" ); v = old + o.v; return *this; }
};
static long get( Cell const & c ) { return c.v; }
static long get( Num const & c ) { return c.v; }
template< typename X > long get( X const & x ) { return long( x ); }
using TV = VP_V;       // the values of the rows
using TE = VP_E;       // the entries of the matrix
using Rows = LvArray::ArrayOfArrays< TV, P, LvArray::MallocBuffer >;
using Matrix = LvArray::CRSMatrix< TE, VP_C, P, LvArray::MallocBuffer >;

struct Todo { bool append = true, own = false; long r = 0, v = 0, how = 0; std::vector< VP_C > cols; std::vector< TE > vals; VL vals0; };
struct Program
{
  std::vector< std::vector< Todo > > ops;     // per thread
  VVL rows, cols, ents;                       // to begin with
  VL room;
};

struct World
{
  Rows rows;
  Matrix m;
  using RowsView = std::decay_t< decltype( std::declval< Rows const & >().toView() ) >;
  using SizesView = std::decay_t< decltype( std::declval< Matrix const & >().toViewConstSizes() ) >;
  std::unique_ptr< RowsView > rv;
  std::unique_ptr< SizesView > mv;

  explicit World( Program const & p )
  {
    rows.resize( P( p.rows.size() ) );
    for( std::size_t r = 0; r < p.rows.size(); ++r )
    {
      rows.setCapacityOfArray( P( r ), P( p.rows[ r ].size() ) + p.room[ r ] );
      for( long const x : p.rows[ r ] ) rows.emplaceBack( P( r ), TV( x ) );
    }
    m.resize( P( p.cols.size() ), 1000, 1 );
    for( std::size_t r = 0; r < p.cols.size(); ++r ) for( std::size_t k = 0; k < p.cols[ r ].size(); ++k ) m.insertNonZero( P( r ), VP_C( p.cols[ r ][ k ] ), TE( p.ents[ r ][ k ] ) );
    rv.reset( new RowsView( rows.toView() ) );
    mv.reset( new SizesView( m.toViewConstSizes() ) );
  }
  VL sizes() const { VL s; auto const v = rows.toViewConst(); for( P r = 0; r < v.size(); ++r ) s.push_back( v.sizeOfArray( r ) ); return s; }
  VVL contents() const { VVL s; auto const v = rows.toViewConst(); for( P r = 0; r < v.size(); ++r ) { s.emplace_back(); for( auto const & x : v[ r ] ) s.back().push_back( get( x ) ); } return s; }
  VVL entries() const { VVL s; auto const v = m.toViewConst(); for( P r = 0; r < v.numRows(); ++r ) { s.emplace_back(); for( auto const & x : v.getEntries( r ) ) s.back().push_back( get( x ) ); } return s; }

  template< typename POLICY > void act( Todo const & o )
  {
    P const r = P( o.r ) - 1;
    if( o.append )
    {
      RowsView const mine( *rv );
      if( o.own ) { if( o.how % 2 ) mine.emplaceBack( r, TV( o.v ) ); else mine.emplaceBack( r, o.v ); return; }
      switch( o.how % 4 )
      {
        case 0: mine.template emplaceBackAtomic< POLICY >( r, o.v ); break;
        case 1: rv->template emplaceBackAtomic< POLICY >( r, TV( o.v ) ); break;
        case 2: rows.template emplaceBackAtomic< POLICY >( r, o.v ); break;
        default: { TV const x( o.v ); mine.template emplaceBackAtomic< POLICY >( r, x ); }
      }
      return;
    }
    P const n = P( o.cols.size() );
    VP_C const * const c = o.cols.data();
    TE const * const v = o.vals.data();
    SizesView const mine( *mv );
    switch( o.how % 8 )
    {
      case 0: mine.template addToRow< POLICY >( r, c, v, n ); break;
      case 1: mine.template addToRowBinarySearch< POLICY >( r, c, v, n ); break;
      case 2: mine.template addToRowLinearSearch< POLICY >( r, c, v, n ); break;
      case 3: mine.template addToRowBinarySearchUnsorted< POLICY >( r, c, v, n ); break;
      case 4: m.template addToRow< POLICY >( r, c, v, n ); break;
      case 5: m.template addToRowBinarySearch< POLICY >( r, c, v, n ); break;
      case 6: m.template addToRowLinearSearch< POLICY >( r, c, v, n ); break;
      default: m.template addToRowBinarySearchUnsorted< POLICY >( r, c, v, n );
    }
  }
  void act( Todo const & o )
  {
    switch( ( o.how / 8 ) % 3 )
    {
      case 0: act< RAJA::builtin_atomic >( o ); break;
      case 1: act< RAJA::auto_atomic >( o ); break;
      default: act< RAJA::omp_atomic >( o );
    }
  }
};

// ------------------------------------------------------------------------------------------------- coroutines
struct Fiber
{
  ucontext_t ctx;
  std::vector< char > stack;
  std::vector< Todo > const * ops = nullptr;
  World * world = nullptr;
  std::string at = "start";
  long done = 0;
  bool finished = false;
};
static ucontext_t mainCtx;
static Fiber * running = nullptr;
static void pause( char const * const what ) { running->at = what; swapcontext( &running->ctx, &mainCtx ); }
static bool scheduled = false;
static void stop( char const * const what ) { if( scheduled && running != nullptr ) pause( what ); }
static void body()
{
  Fiber & f = *running;
  for( Todo const & o : *f.ops ) { f.world->act( o ); ++f.done; pause( "ret" ); }
  f.finished = true;
  pause( "finished" );
}
static void resume( Fiber & f ) { running = &f; swapcontext( &mainCtx, &f.ctx ); running = nullptr; }

static void describe( Program const & p )
{
  std::string s = "[";
  for( auto const & t : p.ops )
  {
    s += s.size() > 1 ? ",[" : "[";
    bool first = true;
    for( Todo const & o : t )
    {
      J j;
      j.kv( "what", o.append ? "append" : "add" ).kv( "r", o.r ).kv( "how", o.how );
      if( o.append ) j.kv( "v", o.v );
      else { VL c; for( VP_C const x : o.cols ) c.push_back( long( x ) ); j.kv( "cols", c ).kv( "vals", o.vals0 ); }
      s += ( first ? "" : "," ) + j.str();
      first = false;
    }
    s += "]";
  }
  J( "begin" ).raw( "prog", s + "]" ).kv( "rows", p.rows ).kv( "cols", p.cols ).kv( "ents", p.ents ).emit();
}
// pick: which thread goes on (0: the choice is exhausted); coarse: only stop where the specification has a step
static void schedule( Program const & p, std::function< long() > pick, bool const coarse )
{
  describe( p );
  World w( p );
  std::vector< Fiber > f( p.ops.size() );
  scheduled = true;
  for( std::size_t t = 0; t < f.size(); ++t )
  {
    getcontext( &f[ t ].ctx );
    f[ t ].stack.resize( 128 * 1024 );
    f[ t ].ctx.uc_stack.ss_sp = f[ t ].stack.data();
    f[ t ].ctx.uc_stack.ss_size = f[ t ].stack.size();
    f[ t ].ctx.uc_link = &mainCtx;
    f[ t ].ops = &p.ops[ t ];
    f[ t ].world = &w;
    makecontext( &f[ t ].ctx, body, 0 );
  }
  auto const go = [&]( std::size_t const t )
  {
    if( f[ t ].finished ) return;
    do resume( f[ t ] ); while( coarse && !f[ t ].finished && f[ t ].at != "atomic" && f[ t ].at != "construct" );
    J j( "step" );
    j.kv( "t", long( t ) + 1 ).kv( "done", f[ t ].done ).kv( "sizes", w.sizes() );
    if( !p.ents.empty() ) j.kv( "ents", w.entries() );
    j.emit();
  };
  if( coarse ) for( std::size_t t = 0; t < f.size(); ++t ) go( t );
  for( long t = pick(); t != 0; t = pick() ) go( std::size_t( t - 1 ) );
  for( bool any = true; any; ) { any = false; for( std::size_t t = 0; t < f.size(); ++t ) if( !f[ t ].finished ) { go( t ); any = true; } }
  scheduled = false;
  J( "final" ).kv( "rows", w.contents() ).kv( "ents", w.entries() ).emit();
}
static void freely( Program const & p )
{
  describe( p );
  World w( p );
  races = 0;
  std::atomic< long > waiting{ long( p.ops.size() ) };
  std::vector< std::thread > threads;
  for( auto const & ops : p.ops )
    threads.emplace_back( [&w, &ops, &waiting]
      {
        waiting.fetch_sub( 1 );
        while( waiting.load() > 0 ) {}
        for( Todo const & o : ops ) w.act( o );
      } );
  for( auto & t : threads ) t.join();
  J( "free" ).kv( "rows", w.contents() ).kv( "ents", w.entries() ).kv( "races", races.load() ).emit();
}

static Program randomProgram( Rng & rng, long const maxOps, long const perThread, bool const isLong )
{
  Program p;
  long const n = 2 + rng.below( 3 );
  long const shared = 1 + rng.below( 2 );
  long v = 1;
  for( long r = 0; r < shared + n; ++r )
  {
    p.rows.emplace_back();
    for( long k = rng.below( 3 ); k > 0; --k ) p.rows.back().push_back( 1000 + v++ );
    p.room.push_back( 0 );
  }
  for( long r = 0; r < 2; ++r )
  {
    p.cols.emplace_back(); p.ents.emplace_back();
    long const len = isLong && r == 0 ? 66 + rng.below( 20 ) : 1 + rng.below( 4 );
    long c = rng.below( 3 );
    for( long k = 0; k < len; ++k ) { p.cols.back().push_back( c ); c += 1 + rng.below( 3 ); p.ents.back().push_back( rng.below( 50 ) ); }
  }
  for( long t = 0; t < n; ++t )
  {
    p.ops.emplace_back();
    long const m = perThread ? perThread : 1 + rng.below( maxOps );
    for( long k = 0; k < m; ++k )
    {
      Todo o;
      o.append = rng.chance( 60 );
      o.how = rng.below( 24 );
      if( o.append )
      {
        o.own = rng.chance( 20 );
        o.r = o.own ? shared + t + 1 : 1 + rng.below( shared );
        o.v = v++;
        p.room[ std::size_t( o.r - 1 ) ]++;
      }
      else
      {
        o.r = 1 + rng.below( 2 );
        VL const & cols = p.cols[ std::size_t( o.r - 1 ) ];
        // next to each other, or far apart
        long k0 = rng.below( long( cols.size() ) );
        for( long j = 1 + rng.below( 3 ); j > 0 && k0 < long( cols.size() ); --j )
        { o.cols.push_back( VP_C( cols[ std::size_t( k0 ) ] ) ); o.vals0.push_back( 1 + rng.below( 20 ) ); k0 += rng.chance( 70 ) ? 1 : 1 + rng.below( 20 ); }
        if( o.how % 4 == 3 && rng.chance( 50 ) ) { std::reverse( o.cols.begin(), o.cols.end() ); std::reverse( o.vals0.begin(), o.vals0.end() ); }
        for( long const x : o.vals0 ) o.vals.push_back( TE( x ) );
      }
      p.ops.back().push_back( o );
    }
  }
  for( long & x : p.room ) if( rng.chance( 40 ) ) x += rng.below( 3 );
  return p;
}

int main( int argc, char ** argv )
{
  Args args( argc, argv );
  installErrorHandler();
  vpshim::hookRef() = args.mode == "free" ? nullptr : stop;
  Rng rng( args.seed );
  if( !args.script.empty() )
  {
    for( auto const & ops : readScripts( args.script.c_str() ) )
    {
      Program p;
      p.rows = { { 101 }, {} };
      p.room = { 0, 0 };
      p.cols = { { 2, 5, 7 }, { 4 } };
      p.ents = { { 10, 20, 30 }, { 40 } };
      VL ts;
      for( Op const & o : ops )
      {
        if( o.name == "run" ) { ts = o.v( "ts" ); continue; }
        if( long( p.ops.size() ) < o.i( "t" ) ) p.ops.resize( std::size_t( o.i( "t" ) ) );
        Todo x;
        x.append = o.name == "append";
        x.r = o.i( "r" );
        x.how = rng.below( 24 );
        if( x.append ) { x.v = o.i( "v" ); p.room[ std::size_t( x.r - 1 ) ]++; }
        else { for( long const c : o.v( "cols" ) ) x.cols.push_back( VP_C( c ) ); x.vals0 = o.v( "vals" ); for( long const c : x.vals0 ) x.vals.push_back( TE( c ) ); }
        p.ops[ std::size_t( o.i( "t" ) - 1 ) ].push_back( x );
      }
      std::size_t k = 0;
      schedule( p, [&]() { return k < ts.size() ? ts[ k++ ] : 0; }, true );
    }
    return finish();
  }
  for( long k = 0; k < args.n; ++k )
  {
    bool const isLong = k % 8 == 0;
    if( args.mode == "free" ) { freely( randomProgram( rng, args.len, args.len, k % 2 == 0 ) ); continue; }
    Program const p = randomProgram( rng, isLong ? 1 : args.len, 0, isLong );
    long left = 200;
    // threads are mostly run for a while, or mostly alternate
    int const stay = rng.chance( 50 ) ? 75 : 20;
    long t = 1;
    schedule( p, [&]() { if( left-- == 0 ) return 0l; if( !rng.chance( stay ) ) t = 1 + rng.below( long( p.ops.size() ) ); return t; }, false );
  }
  return finish();
}
