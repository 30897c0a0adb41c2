// Common part of the conformance drivers: event output (one JSON object per line), operation scripts, catching the
// LvArray error handler, crash reporting, and a seeded generator.
#pragma once
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <initializer_list>
#include <map>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <type_traits>
#include <unistd.h>
#include <utility>
#include <vector>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
  #define VP_SANITIZED 1
extern "C" void __sanitizer_set_death_callback( void ( *callback )( void ) );
#endif

namespace vp
{
using L = long;
using VL = std::vector< long >;
using VVL = std::vector< std::vector< long > >;

// ---------------------------------------------------------------------------------------------------- event output
struct Out
{
  int fd = -1;
  std::string buf;
  long events = 0;
  void open( char const * const path )
  { fd = ::open( path, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644 ); if( fd < 0 ) { perror( path ); exit( 3 ); } }
  void flush()
  {
    std::size_t off = 0;
    while( off < buf.size() )
    {
      ssize_t const n = ::write( fd, buf.data() + off, buf.size() - off );
      if( n <= 0 ) break;
      off += std::size_t( n );
    }
    buf.clear();
  }
  void line( std::string const & s )
  { buf += s; buf += '\n'; ++events; if( buf.size() > 60000 ) flush(); }
};
inline Out & out() { static Out * o = new Out; return *o; }

inline std::string quote( std::string const & s )
{
  std::string r = "\"";
  for( char const ch : s )
  {
    unsigned char const c = static_cast< unsigned char >( ch );
    if( c == '"' || c == '\\' ) { r += '\\'; r += ch; }
    else if( c < 32 || c > 126 ) { char t[ 8 ]; snprintf( t, sizeof( t ), "\\u%04x", c ); r += t; }
    else r += ch;
  }
  return r + "\"";
}

struct J
{
  std::string s = "{";
  J() = default;
  explicit J( char const * const op ) { kv( "op", op ); }
  J & key( char const * const k ) { if( s.size() > 1 ) s += ','; s += '"'; s += k; s += "\":"; return *this; }
  J & raw( char const * const k, std::string const & v ) { key( k ); s += v; return *this; }
  J & kv( char const * const k, bool const v ) { key( k ); s += v ? "true" : "false"; return *this; }
  J & kv( char const * const k, long const v ) { key( k ); s += std::to_string( v ); return *this; }
  J & kv( char const * const k, int const v ) { return kv( k, long( v ) ); }
  J & kv( char const * const k, unsigned long const v ) { return kv( k, long( v ) ); }
  J & kv( char const * const k, char const * const v ) { key( k ); s += quote( v ); return *this; }
  J & kv( char const * const k, std::string const & v ) { key( k ); s += quote( v ); return *this; }
  J & kv( char const * const k, VL const & v ) { key( k ); s += list( v ); return *this; }
  J & kv( char const * const k, VVL const & v )
  {
    key( k ); s += '[';
    for( std::size_t i = 0; i < v.size(); ++i ) { if( i ) s += ','; s += list( v[ i ] ); }
    s += ']'; return *this;
  }
  // A text as the sequence of its character codes, for specifications that work on characters.
  J & codes( char const * const k, std::string const & v )
  { VL c; for( char const x : v ) c.push_back( long( static_cast< unsigned char >( x ) ) ); return kv( k, c ); }
  static std::string list( VL const & v )
  {
    std::string r = "[";
    for( std::size_t i = 0; i < v.size(); ++i ) { if( i ) r += ','; r += std::to_string( v[ i ] ); }
    return r + "]";
  }
  void emit() { s += '}'; out().line( s ); }
  std::string str() const { return s + "}"; }
};

// 64-bit words as base 2^16 limbs, most significant first: TLC integers have 32 bits.
inline VL limbs( std::uint64_t const v )
{ return { L( v >> 48 ), L( ( v >> 32 ) & 0xffff ), L( ( v >> 16 ) & 0xffff ), L( v & 0xffff ) }; }

// ---------------------------------------------------------------------------------------------------- crash reports
inline std::string & current() { static std::string * c = new std::string; return *c; }
inline void crashEvent( char const * const how )
{
  static bool done = false;
  if( done || out().fd < 0 ) return;
  done = true;
  out().line( J( "CRASH" ).kv( "how", how ).kv( "during", current() ).str() );
  out().flush();
}
inline void onSignal( int const sig )
{
  char t[ 32 ];
  snprintf( t, sizeof( t ), "signal %d", sig );
  crashEvent( t );
  signal( sig, SIG_DFL );
  raise( sig );
}
inline void onDeath() { crashEvent( "sanitizer" ); }
inline void installCrashHandlers()
{
#if defined(VP_SANITIZED)
  __sanitizer_set_death_callback( onDeath );
#endif
  for( int const s : { SIGABRT, SIGFPE, SIGILL, SIGTERM } ) signal( s, onSignal );
#if !defined(VP_SANITIZED)
  static char stack[ 65536 ];
  stack_t ss = {};
  ss.ss_sp = stack;
  ss.ss_size = sizeof( stack );
  sigaltstack( &ss, nullptr );
  struct sigaction sa = {};
  sa.sa_handler = onSignal;
  sa.sa_flags = SA_ONSTACK;
  for( int const s : { SIGSEGV, SIGBUS } ) sigaction( s, &sa, nullptr );
#endif
}

// ---------------------------------------------------------------------------------------------------- scripts
struct Op
{
  std::string name;
  std::map< std::string, VL > args;
  std::map< std::string, std::string > text;
  bool has( char const * const k ) const { return args.count( k ) != 0; }
  long i( char const * const k, long const dflt = 0 ) const { auto it = args.find( k ); return it == args.end() || it->second.empty() ? dflt : it->second[ 0 ]; }
  VL v( char const * const k ) const { auto it = args.find( k ); return it == args.end() ? VL() : it->second; }
  Op & set( char const * const k, long const x ) { args[ k ] = VL{ x }; return *this; }
  Op & set( char const * const k, VL const & x ) { args[ k ] = x; return *this; }
  std::string str() const
  {
    std::string r = name;
    for( auto const & kv : args )
    {
      r += " " + kv.first + "=";
      for( std::size_t j = 0; j < kv.second.size(); ++j ) r += ( j ? "," : "" ) + std::to_string( kv.second[ j ] );
    }
    for( auto const & kv : text ) r += " " + kv.first + "='" + kv.second + "'";
    return r;
  }
};
inline Op op( char const * const n ) { Op o; o.name = n; return o; }

// "name k=1 v=1,2 e= t='txt'" separated by ';' or newlines.
inline Op parseOp( std::string const & line )
{
  Op o;
  std::istringstream in( line );
  in >> o.name;
  std::string tok;
  while( in >> tok )
  {
    auto const eq = tok.find( '=' );
    if( eq == std::string::npos ) continue;
    std::string const k = tok.substr( 0, eq ), v = tok.substr( eq + 1 );
    if( !v.empty() && v[ 0 ] == '\'' ) { o.text[ k ] = v.substr( 1, v.size() - 2 ); continue; }
    VL xs;
    std::istringstream vs( v );
    std::string x;
    while( std::getline( vs, x, ',' ) ) if( !x.empty() ) xs.push_back( std::strtol( x.c_str(), nullptr, 10 ) );
    o.args[ k ] = xs;
  }
  return o;
}

// A script file holds one episode per line, operations separated by ';'.
inline std::vector< std::vector< Op > > readScripts( char const * const path )
{
  std::vector< std::vector< Op > > r;
  FILE * const f = fopen( path, "r" );
  if( f == nullptr ) { perror( path ); exit( 3 ); }
  std::string line;
  auto const done = [&]()
  {
    std::vector< Op > e;
    std::istringstream in( line );
    std::string part;
    while( std::getline( in, part, ';' ) ) { Op o = parseOp( part ); if( !o.name.empty() ) e.push_back( o ); }
    if( !e.empty() ) r.push_back( e );
    line.clear();
  };
  for( int c; ( c = fgetc( f ) ) != EOF; ) { if( c == '\n' ) done(); else line += char( c ); }
  done();
  fclose( f );
  return r;
}

// ---------------------------------------------------------------------------------------------------- random
struct Rng
{
  std::uint64_t s;
  // Different seeds give unrelated sequences: the seed is scattered before it becomes the counter.
  explicit Rng( std::uint64_t const seed ): s( scatter( seed * 0xD1342543DE82EF95ull + 0x1234567ull ) ) { next(); next(); }
  static std::uint64_t scatter( std::uint64_t z )
  {
    z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
    z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
    return z ^ ( z >> 31 );
  }
  std::uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull;
    return scatter( s );
  }
  long below( long const n ) { return n <= 0 ? 0 : long( next() % std::uint64_t( n ) ); }
  long range( long const a, long const b ) { return a + below( b - a + 1 ); }
  bool chance( int const percent ) { return below( 100 ) < percent; }
};

// ---------------------------------------------------------------------------------------------------- arguments
// driver OUT.ndjson [--script FILE] [--seed N] [--n N] [--mode M] [--len N]
struct Args
{
  std::string outPath, script, mode;
  long seed = 1, n = 100, len = 40, from = 0;
  std::map< std::string, std::string > other;
  Args( int const argc, char ** const argv )
  {
    if( argc < 2 ) { fprintf( stderr, "usage: %s OUT [--script F] [--seed N] [--n N] [--len N] [--mode M]\n", argv[ 0 ] ); exit( 3 ); }
    outPath = argv[ 1 ];
    for( int i = 2; i + 1 < argc; i += 2 )
    {
      std::string const k = argv[ i ], v = argv[ i + 1 ];
      if( k == "--script" ) script = v;
      else if( k == "--seed" ) seed = atol( v.c_str() );
      else if( k == "--n" ) n = atol( v.c_str() );
      else if( k == "--len" ) len = atol( v.c_str() );
      else if( k == "--from" ) from = atol( v.c_str() );
      else if( k == "--mode" ) mode = v;
      else other[ k ] = v;
    }
    out().open( outPath.c_str() );
    installCrashHandlers();
    // Messages of the library under test are not of interest here.
    if( getenv( "VP_KEEP_STDOUT" ) == nullptr )
    {
      int const null = ::open( "/dev/null", O_WRONLY );
      dup2( null, 1 );
      close( null );
    }
  }
};
inline int finish()
{
  J( "end" ).emit();
  out().flush();
  signal( SIGABRT, SIG_DFL );
  return 0;
}
} // namespace vp
