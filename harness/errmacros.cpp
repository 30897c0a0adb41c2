// Conformance driver for C16: every macro, with its effects observed from outside. Each episode runs in a process of
// its own, because an error without a handler ends the process.
#include "vp.hpp"
#include "Macros.hpp"
#include <stdexcept>
#include <sys/mman.h>
using namespace vp;

struct Custom : std::runtime_error { using std::runtime_error::runtime_error; };

struct Shared { char intent[ 8192 ]; long calls[ 4 ]; long evA, evB; bool before; bool pending; };
static Shared * sh;
static int cap = -1;       // captured standard output
static sigjmp_buf back;

static std::string captured()
{
  off_t const n = lseek( cap, 0, SEEK_END );
  std::string s( std::size_t( n ), 0 );
  if( n > 0 && pread( cap, &s[ 0 ], std::size_t( n ), 0 ) < 0 ) s.clear();
  return s;
}
// The lines before the stack trace.
static std::string lines( std::string const & text )
{
  std::string r = "[";
  std::istringstream in( text );
  std::string line;
  bool first = true;
  while( std::getline( in, line ) )
  {
    if( line.find( "** StackTrace" ) == 0 ) break;
    if( line.empty() && first ) continue;
    r += ( first ? "" : "," ) + quote( line );
    first = false;
  }
  return r + "]";
}

template< typename T > T make( long const v ) { return T( v ); }
template<> std::string make< std::string >( long const v ) { return std::to_string( v ); }
template< typename T > struct Ctx
{
  long va, vb;
  T A() const { ++sh->evA; return make< T >( va ); }
  T B() const { ++sh->evB; return make< T >( vb ); }
};

struct Site { char const * kind; char const * rel; bool msg; char const * type; int line; };
#define REL( F, k, m ) F( k, "EQ", EQ ) F( k, "NE", NE ) F( k, "GT", GT ) F( k, "GE", GE ) F( k, "LT", LT ) F( k, "LE", LE )

static char const * thrown = "";
static std::string whatText;
// Run the macro named by kind/rel/msg; the line it is on is stored first.
static int siteLine;
#define AT siteLine = __LINE__
template< typename T > bool run( std::string const & kind, std::string const & rel, bool const msg, Ctx< T > const & c, std::string const & type )
{
  std::string const K = kind + "_" + rel + ( msg ? "_MSG" : "" );
  bool const custom = type == "Custom";
  if( K == "ERROR_EQ" ) { AT; LVARRAY_ERROR_IF_EQ( c.A(), c.B() ); return true; }
  if( K == "ERROR_NE" ) { AT; LVARRAY_ERROR_IF_NE( c.A(), c.B() ); return true; }
  if( K == "ERROR_GT" ) { AT; LVARRAY_ERROR_IF_GT( c.A(), c.B() ); return true; }
  if( K == "ERROR_GE" ) { AT; LVARRAY_ERROR_IF_GE( c.A(), c.B() ); return true; }
  if( K == "ERROR_LT" ) { AT; LVARRAY_ERROR_IF_LT( c.A(), c.B() ); return true; }
  if( K == "ERROR_LE" ) { AT; LVARRAY_ERROR_IF_LE( c.A(), c.B() ); return true; }
  if( K == "ERROR_EQ_MSG" ) { AT; LVARRAY_ERROR_IF_EQ_MSG( c.A(), c.B(), "msg " << 7 << " end" ); return true; }
  if( K == "ERROR_NE_MSG" ) { AT; LVARRAY_ERROR_IF_NE_MSG( c.A(), c.B(), "msg " << 7 << " end" ); return true; }
  if( K == "ERROR_GT_MSG" ) { AT; LVARRAY_ERROR_IF_GT_MSG( c.A(), c.B(), "msg " << 7 << " end" ); return true; }
  if( K == "ERROR_GE_MSG" ) { AT; LVARRAY_ERROR_IF_GE_MSG( c.A(), c.B(), "msg " << 7 << " end" ); return true; }
  if( K == "ERROR_LT_MSG" ) { AT; LVARRAY_ERROR_IF_LT_MSG( c.A(), c.B(), "msg " << 7 << " end" ); return true; }
  if( K == "ERROR_LE_MSG" ) { AT; LVARRAY_ERROR_IF_LE_MSG( c.A(), c.B(), "msg " << 7 << " end" ); return true; }
  if( K == "ERROR_IF" || K == "ERROR_IF_MSG" ) { AT; LVARRAY_ERROR_IF( c.A() > c.B(), "msg " << 7 << " end" ); return true; }
  if( K == "ERROR_ALWAYS" || K == "ERROR_ALWAYS_MSG" ) { AT; LVARRAY_ERROR( "msg " << 7 << " end" ); return true; }
  if( K == "ASSERT_EQ" ) { AT; LVARRAY_ASSERT_EQ( c.A(), c.B() ); return true; }
  if( K == "ASSERT_NE" ) { AT; LVARRAY_ASSERT_NE( c.A(), c.B() ); return true; }
  if( K == "ASSERT_GT" ) { AT; LVARRAY_ASSERT_GT( c.A(), c.B() ); return true; }
  if( K == "ASSERT_GE" ) { AT; LVARRAY_ASSERT_GE( c.A(), c.B() ); return true; }
  if( K == "ASSERT_EQ_MSG" ) { AT; LVARRAY_ASSERT_EQ_MSG( c.A(), c.B(), "msg " << 7 << " end" ); return true; }
  if( K == "ASSERT_NE_MSG" ) { AT; LVARRAY_ASSERT_NE_MSG( c.A(), c.B(), "msg " << 7 << " end" ); return true; }
  if( K == "ASSERT_GT_MSG" ) { AT; LVARRAY_ASSERT_GT_MSG( c.A(), c.B(), "msg " << 7 << " end" ); return true; }
  if( K == "ASSERT_GE_MSG" ) { AT; LVARRAY_ASSERT_GE_MSG( c.A(), c.B(), "msg " << 7 << " end" ); return true; }
  if( K == "ASSERT_IF" ) { AT; LVARRAY_ASSERT( c.A() > c.B() ); return true; }
  if( K == "ASSERT_IF_MSG" ) { AT; LVARRAY_ASSERT_MSG( c.A() > c.B(), "msg " << 7 << " end" ); return true; }
  if( K == "WARNING_IF" || K == "WARNING_IF_MSG" ) { AT; LVARRAY_WARNING_IF( c.A() > c.B(), "msg " << 7 << " end" ); return true; }
  if( K == "WARNING_ALWAYS" || K == "WARNING_ALWAYS_MSG" ) { AT; LVARRAY_WARNING( "msg " << 7 << " end" ); return true; }
  if( K == "INFO_IF" || K == "INFO_IF_MSG" ) { AT; LVARRAY_INFO_IF( c.A() > c.B(), "msg " << 7 << " end" ); return true; }
  if( K == "INFO_ALWAYS" || K == "INFO_ALWAYS_MSG" ) { AT; LVARRAY_INFO( "msg " << 7 << " end" ); return true; }
#define THROWS( REL ) \
  if( K == "THROW_" #REL ) { AT; if( custom ) { LVARRAY_THROW_IF_ ## REL( c.A(), c.B(), Custom ); } else { LVARRAY_THROW_IF_ ## REL( c.A(), c.B(), std::invalid_argument ); } return true; } \
  if( K == "THROW_" #REL "_MSG" ) { AT; if( custom ) { LVARRAY_THROW_IF_ ## REL ## _MSG( c.A(), c.B(), "msg " << 7 << " end", Custom ); } else { LVARRAY_THROW_IF_ ## REL ## _MSG( c.A(), c.B(), "msg " << 7 << " end", std::invalid_argument ); } return true; }
  THROWS( EQ ) THROWS( NE ) THROWS( GT ) THROWS( GE ) THROWS( LT ) THROWS( LE )
  if( K == "THROW_IF" || K == "THROW_IF_MSG" ) { AT; if( custom ) { LVARRAY_THROW_IF( c.A() > c.B(), "msg " << 7 << " end", Custom ); } else { LVARRAY_THROW_IF( c.A() > c.B(), "msg " << 7 << " end", std::invalid_argument ); } return true; }
  return false;
}
static bool alwaysMsg( std::string const & kind, std::string const & rel ) { return ( rel == "IF" || rel == "ALWAYS" ) && kind != "ASSERT"; }

static VL callsNow() { return { sh->calls[ 1 ], sh->calls[ 2 ], sh->calls[ 3 ] }; }
static void intend( J const & j ) { strncpy( sh->intent, j.s.c_str(), sizeof( sh->intent ) - 1 ); sh->pending = true; sh->evA = sh->evB = 0; sh->before = false; if( ftruncate( cap, 0 ) != 0 ) _exit( 9 ); lseek( cap, 0, SEEK_SET ); }
static void conclude( char const * const how, std::string const & what, char const * const caught )
{
  J j;
  j.s = sh->intent;
  j.kv( "how", how ).kv( "calls", callsNow() ).kv( "evA", sh->evA ).kv( "evB", sh->evB ).kv( "before", sh->before )
    .raw( "out", lines( captured() ) ).raw( "what", lines( what ) ).kv( "caught", caught ).emit();
  sh->pending = false;
}
template< int H > void handle() { ++sh->calls[ H ]; std::cout.flush(); sh->before = !captured().empty(); siglongjmp( back, 1 ); }

// The line of a macro is only known once it runs, so it is added by the site itself through siteLine.
template< typename T > void macro( Op const & o, std::string const & type )
{
  std::string const kind = o.text.at( "kind" ), rel = o.text.at( "rel" );
  bool const msg = o.i( "msg" ) != 0;
  Ctx< T > const c{ o.i( "a" ), o.i( "b" ) };
#if defined(NDEBUG)
  bool const debug = false;
#else
  bool const debug = true;
#endif
  // a dry run with a condition that does not act finds the line
  J j( "macro" );
  j.kv( "kind", kind ).kv( "rel", rel ).kv( "a", o.i( "a" ) ).kv( "b", o.i( "b" ) ).kv( "debug", debug ).kv( "lhs", "c.A()" ).kv( "rhs", "c.B()" )
    .kv( "msg", msg || alwaysMsg( kind, rel ) ? "msg 7 end" : "" ).kv( "type", kind == "THROW" ? type : "" ).kv( "file", __FILE__ );
  static std::map< std::string, int > known;
  std::string const K = kind + rel + ( msg ? "m" : "" );
  if( known.empty() && rel == "" ) return;
  int line = 0;
  {
    // scan the source text of run() is not possible here: run the site in a child process and read siteLine back
    auto const it = known.find( K );
    if( it != known.end() ) line = it->second;
    else
    {
      int p[ 2 ];
      if( pipe( p ) != 0 ) _exit( 9 );
      pid_t const pid = fork();
      if( pid == 0 )
      {
        signal( SIGABRT, SIG_DFL );
        auto const send = [&]() { ssize_t const n = write( p[ 1 ], &siteLine, sizeof( int ) ); _exit( n > 0 ? 0 : 9 ); };
        if( sigsetjmp( back, 0 ) != 0 ) send();
        LvArray::system::setErrorHandler( []() { siglongjmp( back, 1 ); } );
        try { run( kind, rel, msg, c, type ); } catch( std::exception const & ) {}
        send();
      }
      if( read( p[ 0 ], &line, sizeof( int ) ) != sizeof( int ) ) line = -1;
      int st;
      waitpid( pid, &st, 0 );
      close( p[ 0 ] ); close( p[ 1 ] );
      known[ K ] = line;
    }
  }
  j.kv( "line", line );
  intend( j );
  char const * volatile how = "none";
  static std::string what;
  what.clear();
  char const * volatile caught = "";
  if( sigsetjmp( back, 0 ) != 0 ) how = "handler";
  else
  {
    try
    {
      if( !run( kind, rel, msg, c, type ) ) { fprintf( stderr, "no macro %s %s\n", kind.c_str(), rel.c_str() ); _exit( 9 ); }
      if( !captured().empty() ) how = "printed";
    }
    catch( Custom const & x ) { how = "throw"; caught = "Custom"; what = x.what(); }
    catch( std::invalid_argument const & x ) { how = "throw"; caught = "std::invalid_argument"; what = x.what(); }
    catch( std::exception const & x ) { how = "throw"; caught = "other"; what = x.what(); }
  }
  conclude( how, what, caught );
}

static void exec( Op const & o, Rng & rng )
{
  char const * volatile how = "none";
  if( o.name == "macro" )
  {
    std::string const type = rng.chance( 50 ) ? "Custom" : "std::invalid_argument";
    switch( rng.below( 4 ) )
    {
      case 0: macro< int >( o, type ); break;
      case 1: macro< double >( o, type ); break;
      case 2: macro< long >( o, type ); break;
      default: macro< std::string >( o, type ); break;
    }
    return;
  }
  J j( o.name.c_str() );
  if( o.has( "h" ) ) j.kv( "h", o.i( "h" ) );
  if( o.name == "log" )
  {
    j.kv( "a", o.i( "a" ) ).kv( "var", o.i( "var" ) != 0 ).kv( "lhs", "c.A()" );
    intend( j );
    Ctx< int > const c{ o.i( "a" ), 0 };
    if( o.i( "var" ) ) LVARRAY_LOG_VAR( c.A() ); else LVARRAY_LOG( "a " << c.A() << " z" );
    conclude( "none", "", "" );
    return;
  }
  intend( j );
  if( sigsetjmp( back, 0 ) != 0 ) how = "handler";
  else if( o.name == "set" ) LvArray::system::setErrorHandler( o.i( "h" ) == 1 ? handle< 1 > : o.i( "h" ) == 2 ? handle< 2 > : handle< 3 > );
  else if( o.name == "setnull" ) LvArray::system::setErrorHandler( nullptr );
  else if( o.name == "call" ) LvArray::system::callErrorHandler();
  conclude( how, "", "" );
}

static void episode( std::vector< Op > const & ops, std::uint64_t const seed )
{
  memset( sh, 0, sizeof( *sh ) );
  J( "begin" ).emit();
  out().flush();
  pid_t const pid = fork();
  if( pid == 0 )
  {
    signal( SIGABRT, SIG_DFL );
    Rng rng( seed );
    for( Op const & o : ops ) exec( o, rng );
    out().flush();
    _exit( 0 );
  }
  int st = 0;
  waitpid( pid, &st, 0 );
  if( sh->pending && WIFSIGNALED( st ) && WTERMSIG( st ) == SIGABRT ) { conclude( "abort", "", "" ); return; }
  if( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 && !sh->pending ) return;
  J( "CRASH" ).kv( "how", st ).kv( "during", std::string( sh->intent ) ).emit();
}

int main( int argc, char ** argv )
{
  setenv( "VP_KEEP_STDOUT", "1", 1 );
  Args args( argc, argv );
  sh = static_cast< Shared * >( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  cap = memfd_create( "out", 0 );
  dup2( cap, 1 );
  // both descriptors share one offset, so that the output starts at 0 after every truncation
  Rng rng( args.seed );
  if( !args.script.empty() )
  {
    for( auto const & ep : readScripts( args.script.c_str() ) ) episode( ep, rng.next() );
    return finish();
  }
  static char const * const rels[] = { "EQ", "NE", "GT", "GE", "LT", "LE", "IF", "ALWAYS" };
  for( long e = 0; e < args.n; ++e )
  {
    std::vector< Op > ops;
    if( rng.chance( 90 ) ) ops.push_back( op( "set" ).set( "h", rng.range( 1, 3 ) ) );
    for( long k = 0; k < args.len; ++k )
    {
      long const w = rng.below( 100 );
      if( w < 8 ) ops.push_back( op( "set" ).set( "h", rng.range( 1, 3 ) ) );
      else if( w < 11 ) ops.push_back( op( "setnull" ) );
      else if( w < 15 ) ops.push_back( op( "call" ) );
      else if( w < 22 ) ops.push_back( op( "log" ).set( "a", rng.range( -9, 9 ) ).set( "var", rng.below( 2 ) ) );
      else
      {
        Op o = op( "macro" );
        static char const * const kinds[] = { "ERROR", "ERROR", "THROW", "THROW", "ASSERT", "WARNING", "INFO" };
        std::string const kind = kinds[ rng.below( 7 ) ];
        std::string rel = rels[ rng.below( 8 ) ];
        if( kind == "ASSERT" ) { static char const * const r[] = { "EQ", "NE", "GT", "GE", "IF" }; rel = r[ rng.below( 5 ) ]; }
        if( kind == "THROW" && rel == "ALWAYS" ) rel = "IF";
        if( kind == "WARNING" || kind == "INFO" ) rel = rels[ 6 + rng.below( 2 ) ];
        o.text[ "kind" ] = kind;
        o.text[ "rel" ] = rel;
        long const a = rng.range( 0, 9 );
        o.set( "a", a ).set( "b", rng.chance( 40 ) ? a : rng.range( 0, 9 ) ).set( "msg", rng.below( 2 ) );
        ops.push_back( o );
      }
    }
    episode( ops, rng.next() );
  }
  return finish();
}
