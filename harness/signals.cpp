// Conformance driver for signal handling. Every episode runs in a process of its own. Traces: spec/SignalsTrace.tla.
#include "vp.hpp"
#include "system.hpp"
#include <cfenv>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
using namespace vp;

struct Shared { char intent[ 4096 ]; long ran[ 64 ]; long nRan; long calls; long undone; };
static Shared * sh;
static int const sigs[] = { 1, 2, 3, 4, 5, 6, 29, 8, 7, 11, 31, 13, 15, 9, 10, 14, 23, 28 };
static int const nListed = 13, nSigs = 18;

template< int D > void fn( int const s ) { if( sh->nRan < 60 ) { sh->ran[ sh->nRan++ ] = D; sh->ran[ sh->nRan++ ] = s; } }
static void tracer( int const s ) { LvArray::system::stackTraceHandler( s, true ); }
static void ( * handlerOf( long const d ) )( int )
{
  switch( d )
  {
    case 0: return nullptr;
    case 1: return SIG_IGN;
    case 2: return &fn< 2 >;
    case 3: return &fn< 3 >;
    case 4: return &fn< 4 >;
    case 5: return &fn< 5 >;
    default: return &tracer;
  }
}
static long dispOf( int const s )
{
  struct sigaction sa = {};
  sigaction( s, nullptr, &sa );
  if( sa.sa_handler == SIG_DFL ) return 0;
  for( long d = 1; d <= 6; ++d ) if( sa.sa_handler == handlerOf( d ) ) return d;
  return 9;
}
static void observe( J & j )
{
  VVL v;
  for( int const s : sigs ) v.push_back( { long( s ), dispOf( s ) } );
  j.kv( "disp", v ).emit();
  out().flush();
}
static bool hasHandler;

extern "C" __attribute__( ( noinline ) ) void vpMarkerFrame( int const s, bool const exit )
{
  LvArray::system::stackTraceHandler( s, exit );
  asm volatile ( "" ::: "memory" );
}

static void run( Op const & o )
{
  using namespace LvArray::system;
  strncpy( sh->intent, o.str().c_str(), sizeof( sh->intent ) - 1 );
  J j( o.name.c_str() );
  int const s = int( o.i( "s" ) );
  if( o.name == "user" ) { j.kv( "s", s ).kv( "d", o.i( "d" ) ); signal( s, o.i( "d" ) == 0 ? SIG_DFL : handlerOf( o.i( "d" ) ) ); }
  else if( o.name == "install" ) { j.kv( "h", o.i( "h" ) ); setSignalHandling( handlerOf( o.i( "h" ) ) ); }
  else if( o.name == "reset" ) resetSignalHandling();
  else if( o.name == "errh" )
  {
    hasHandler = true;
    setErrorHandler( []()
    {
      ++sh->calls;
      for( int i = 0; i < nListed; ++i ) if( dispOf( sigs[ i ] ) != 0 ) sh->undone = 0;
    } );
  }
  else if( o.name == "trace" )
  {
    bool const exit = o.i( "exit" ) != 0;
    if( exit && !hasHandler ) return;
    std::ostringstream text;
    std::streambuf * const old = std::cout.rdbuf( text.rdbuf() );
    sh->calls = 0; sh->undone = 1;
    std::feclearexcept( FE_ALL_EXCEPT );
    vpMarkerFrame( s, exit );
    std::cout.rdbuf( old );
    std::istringstream in( text.str() );
    std::string line, named;
    long frames = 0;
    bool inOrder = true, marker = false, fpe = false;
    while( std::getline( in, line ) )
    {
      if( line.find( "Received signal " ) == 0 ) named = line;
      if( line.find( "Floating point exception:" ) == 0 ) fpe = true;
      std::string const want = "Frame " + std::to_string( frames ) + ":";
      if( line.find( "Frame " ) == 0 ) { if( line.compare( 0, want.size(), want ) != 0 ) inOrder = false; ++frames; }
      if( line.find( "vpMarkerFrame" ) != std::string::npos ) marker = true;
    }
    j.kv( "s", s ).kv( "exit", exit ).kv( "named", named ).kv( "fpe", fpe ).kv( "frames", inOrder ? frames : 0 ).kv( "marker", marker );
    j.kv( "calls", sh->calls ).kv( "undone", sh->undone != 0 );
  }
  else if( o.name == "raise" )
  {
    sh->nRan = 0; sh->calls = 0;
    out().flush();
    pid_t const p = fork();
    if( p == 0 )
    {
      std::ostringstream text;
      std::cout.rdbuf( text.rdbuf() );
      alarm( 5 );
      raise( s );
      std::cout.rdbuf( nullptr );
      _exit( 0 );
    }
    int st = 0;
    while( waitpid( p, &st, 0 ) < 0 && errno == EINTR ) {}
    j.kv( "s", s ).kv( "died", WIFSIGNALED( st ) ? long( WTERMSIG( st ) ) : WEXITSTATUS( st ) == 0 ? 0l : 1000l + WEXITSTATUS( st ) );
    j.kv( "ran", VL( sh->ran, sh->ran + sh->nRan ) ).kv( "calls", sh->calls );
  }
  else { fprintf( stderr, "unknown %s\n", o.name.c_str() ); exit( 3 ); }
  observe( j );
}

static void episode( std::vector< Op > const & ops )
{
  J( "begin" ).emit();
  out().flush();
  pid_t const p = fork();
  if( p == 0 )
  {
    for( int const s : sigs ) signal( s, SIG_DFL );
    hasHandler = false;
    for( Op const & o : ops ) run( o );
    _exit( 0 );
  }
  int st = 0;
  while( waitpid( p, &st, 0 ) < 0 && errno == EINTR ) {}
  if( !WIFEXITED( st ) || WEXITSTATUS( st ) != 0 )
  { J( "CRASH" ).kv( "how", "wait status " + std::to_string( st ) ).kv( "during", std::string( sh->intent ) ).emit(); out().flush(); }
}

int main( int argc, char ** argv )
{
  Args a( argc, argv );
  sh = static_cast< Shared * >( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  struct rlimit const none = { 0, 0 };
  setrlimit( RLIMIT_CORE, &none );
  if( !a.script.empty() )
  {
    for( auto & ep : readScripts( a.script.c_str() ) ) episode( ep );
    return finish();
  }
  Rng r( a.seed );
  for( long e = 0; e < a.n; ++e )
  {
    std::vector< Op > ops;
    bool const early = r.chance( 70 );
    for( long k = 0; k < a.len; ++k )
    {
      long const c = r.below( 100 ), s = sigs[ r.below( nSigs ) ];
      if( k == 0 && early ) ops.push_back( op( "errh" ) );
      else if( c < 25 ) { if( s != 9 ) ops.push_back( op( "user" ).set( "s", s ).set( "d", r.below( 4 ) ) ); }
      else if( c < 45 ) { long const hs[] = { 0, 1, 4, 5, 6, 6 }; ops.push_back( op( "install" ).set( "h", hs[ r.below( 6 ) ] ) ); }
      else if( c < 60 ) ops.push_back( op( "reset" ) );
      else if( c < 63 ) ops.push_back( op( "errh" ) );
      else if( c < 72 ) ops.push_back( op( "trace" ).set( "s", r.chance( 15 ) ? ( r.chance( 50 ) ? -1 : 400 ) : s ).set( "exit", r.below( 2 ) ) );
      else ops.push_back( op( "raise" ).set( "s", s ) );
    }
    episode( ops );
  }
  return finish();
}
