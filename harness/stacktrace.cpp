// Conformance driver for spec/StackTrace.tla: functions that call each other as a script says and take stack traces.
#include "LvArrayConfig.hpp"
#include "vp.hpp"
#include "Macros.hpp"
#include "system.hpp"
#include <atomic>
#include <dirent.h>
#include <execinfo.h>
#include <iostream>
#include <stdexcept>
#include <thread>
using namespace vp;

namespace
{
struct Unwinding { long left; };
struct Abandoned {};

struct Episode
{
  std::vector< Op > ops;
  std::size_t at = 0;
  std::vector< std::string > events;
  bool alone = true;             // nothing else runs: standard output and descriptors may be looked at
};
thread_local Episode * episode = nullptr;
volatile long sink = 0;

// the functions: the number of each is its place in the table, the names are what they are called in the source
std::vector< std::string > names;
long lines[ 16 ];                // where each of them is written: this line and the one before

long codeOf( std::string const & name )
{
  for( std::size_t k = 0; k < names.size(); ++k ) if( names[ k ] == name ) return long( k ) + 1;
  return name == "LvArray::system::stackTraceHandler(int, bool)" ? 100 : 0;
}
long placeOf( std::string const & location )
{
  std::string const file = "stacktrace.cpp:";
  auto const p = location.find( file );
  if( p == std::string::npos ) return -1;
  long const line = atol( location.c_str() + p + file.size() );
  for( std::size_t k = 0; k < names.size(); ++k ) if( lines[ k ] - 1 <= line && line <= lines[ k ] ) return long( k ) + 1;
  return -1;
}

long openFiles()
{
  long n = 0;
  if( DIR * const d = opendir( "/proc/self/fd" ) ) { while( readdir( d ) ) ++n; closedir( d ); }
  return n;
}
long children() { int s; return waitpid( -1, &s, WNOHANG ) == -1 && errno == ECHILD ? 0 : 1; }

void record( char const * const how, std::string const & text, long const left )
{
  static std::string const head = "\n** StackTrace of ", mid = " frames **\n", tail = "=====\n";
  long said = -1;
  VL numbers, frames, places;
  auto const p = text.find( head );
  auto const q = p == std::string::npos ? p : text.find( mid, p );
  auto const r = q == std::string::npos ? q : text.find( "\n" + tail, q );
  if( r != std::string::npos )
  {
    said = atol( text.c_str() + p + head.size() );
    std::istringstream in( text.substr( q + mid.size(), r + 1 - q - mid.size() ) );
    std::string line;
    while( std::getline( in, line ) )
    {
      auto const c = line.find( ": " );
      if( line.rfind( "Frame ", 0 ) != 0 || c == std::string::npos ) { numbers.push_back( -1 ); frames.push_back( -1 ); places.push_back( -1 ); continue; }
      std::string const rest = line.substr( c + 2 );
      // names have spaces: the longest known one that is followed by the end or a space
      std::string name = rest;
      if( how != std::string( "plain" ) )
      {
        name = "";
        for( auto const & n : names ) if( rest.rfind( n + " ", 0 ) == 0 && n.size() > name.size() ) name = n;
        std::string const h = "LvArray::system::stackTraceHandler(int, bool)";
        if( rest.rfind( h + " ", 0 ) == 0 ) name = h;
      }
      numbers.push_back( atol( line.c_str() + 6 ) );
      frames.push_back( codeOf( name ) );
      places.push_back( name.size() < rest.size() ? placeOf( rest.substr( name.size() ) ) : -1 );
    }
  }
  episode->events.push_back( J( "trace" ).kv( "how", how ).kv( "said", said ).kv( "numbers", numbers ).kv( "frames", frames ).kv( "places", places ).kv( "left", left ).str() );
}

std::ostringstream * captured = nullptr;
std::streambuf * before = nullptr;
void capture() { captured = new std::ostringstream; before = std::cout.rdbuf( captured->rdbuf() ); }
std::string release() { std::cout.rdbuf( before ); std::string const s = captured->str(); delete captured; return s; }

extern "C" void stHandler( int const sig ) { LvArray::system::stackTraceHandler( sig, false ); }
}

// What each function does; written out in each of them, so that its frame is the only one. The script returns to the
// function it left when a call comes back, and to the one an exception is meant for.
#define ACT() \
  for( bool here = true; here; sink = sink + 1 ) \
  { \
    if( episode->at == episode->ops.size() ) break; \
    Op const & o = episode->ops[ episode->at++ ]; \
    if( o.name == "call" ) \
    { \
      episode->events.push_back( J( "call" ).kv( "f", o.i( "f" ) ).str() ); \
      try { CALL( o.i( "f" ) ) } \
      catch( Unwinding & u ) { if( --u.left > 0 ) throw; } \
    } \
    else if( o.name == "return" ) { episode->events.push_back( J( "return" ).str() ); here = false; } \
    else if( o.name == "unwind" ) { episode->events.push_back( J( "unwind" ).kv( "n", o.i( "n" ) ).str() ); throw Unwinding{ o.i( "n" ) }; } \
    else \
    { \
      long const how = o.i( "how" ); \
      long const files = episode->alone ? openFiles() : 0; \
      char const * const name = how == 0 ? "plain" : how == 1 ? "located" : how == 2 ? "error" : how == 3 ? "throw" : "signal"; \
      std::string text; \
      if( how == 0 ) text = LvArray::system::stackTrace( false ); \
      else if( how == 1 ) text = LvArray::system::stackTrace( true ); \
      else if( how == 3 ) { try { LVARRAY_THROW_IF( how == 3, "thrown", std::runtime_error ); } catch( std::runtime_error & x ) { text = x.what(); } } \
      else \
      { \
        capture(); \
        if( how == 2 ) { try { LVARRAY_ERROR_IF( how == 2, "reported" ); } catch( Abandoned & ) {} } \
        else raise( SIGUSR1 ); \
        text = release(); \
      } \
      record( name, text, episode->alone ? openFiles() - files + children() : 0 ); \
    } \
  }
#define NOINLINE __attribute__( ( noipa ) )
#if defined(__clang__)
  #undef NOINLINE
  #define NOINLINE __attribute__( ( noinline ) )
#endif


#define CALL( f ) \
  switch( f ) \
  { \
    case 1: plain( 3 ); break; \
    case 2: templ( 4L ); break; \
    case 3: object.member( 5 ); break; \
    case 4: object( "six" ); break; \
    case 5: stPlainName(); break; \
    case 6: pack( 1, static_cast< char * >( nullptr ), 2.0 ); break; \
    case 7: Holder< float >::run( 1.0f, nullptr ); break; \
    case 8: static_cast< Object & >( derived ).dispatched( object ); break; \
    default: deep( static_cast< Deep * >( nullptr ) ); break; \
  }

namespace st
{
template< typename T > struct Box {};
struct Object
{
  int x = 0;
  NOINLINE void member( int ) const;
  NOINLINE Object & operator()( char const * );
  virtual void dispatched( Object & ) { sink = 1; }
  virtual ~Object() {}
};
struct Derived : Object { void dispatched( Object & ) override; };
template< typename T > struct Holder { NOINLINE static void run( T const &, long ( * )( double ) ); };
#define B4( x ) Box< Box< Box< Box< x > > > >
using Deep = B4( B4( B4( B4( B4( B4( B4( B4( int ) ) ) ) ) ) ) );
Object object;
Derived derived;

NOINLINE void plain( int );
template< typename T > NOINLINE long templ( T );
extern "C" NOINLINE void stPlainName( void );
template< typename ... T > NOINLINE void pack( T ... );
template< typename T > NOINLINE void deep( T * );

NOINLINE void plain( int )
{ lines[ 0 ] = __LINE__; ACT() sink = sink + 1; }
template< typename T > NOINLINE long templ( T const x )
{ lines[ 1 ] = __LINE__; ACT() sink = sink + 1; return long( x ); }
NOINLINE void Object::member( int ) const
{ lines[ 2 ] = __LINE__; ACT() sink = sink + x; }
NOINLINE Object & Object::operator()( char const * )
{ lines[ 3 ] = __LINE__; ACT() sink = sink + 1; return *this; }
extern "C" NOINLINE void stPlainName( void )
{ lines[ 4 ] = __LINE__; ACT() sink = sink + 1; }
template< typename ... T > NOINLINE void pack( T ... )
{ lines[ 5 ] = __LINE__; ACT() sink = sink + 1; }
template< typename T > NOINLINE void Holder< T >::run( T const &, long ( * )( double ) )
{ lines[ 6 ] = __LINE__; ACT() sink = sink + 1; }
NOINLINE void Derived::dispatched( Object & )
{ lines[ 7 ] = __LINE__; ACT() sink = sink + 1; }
template< typename T > NOINLINE void deep( T * )
{ lines[ 8 ] = __LINE__; ACT() sink = sink + 1; }

// Below all of them: takes the episode's operations that are not inside any function.
NOINLINE void root( bool const located )
{
  void * frames[ 64 ];
  episode->events.push_back( J( "begin" ).kv( "outer", long( backtrace( frames, 64 ) ) ).kv( "located", located ).str() );
  while( episode->at < episode->ops.size() ) { ACT() }
  sink = sink + 1;
}
NOINLINE void below( int const n, bool const located ) { if( n > 0 ) below( n - 1, located ); else root( located ); sink = sink + 1; }
}

namespace
{
std::vector< Op > randomEpisode( Rng & rng, long const len, bool const alone )
{
  std::vector< Op > r;
  long depth = 0;
  long const deep = rng.chance( 25 ) ? 40 : rng.chance( 50 ) ? 22 : 6;
  long f = rng.range( 1, 9 );
  for( long k = 0; k < len; ++k )
  {
    long const c = rng.below( 100 );
    if( c < 18 || k + 1 == len )
    {
      static long const ways[] = { 0, 1, 3, 2, 4 };
      r.push_back( op( "trace" ).set( "how", ways[ rng.below( alone ? 5 : 3 ) ] ) );
    }
    else if( depth > 0 && c < ( depth < deep / 2 ? 28 : 45 ) ) { r.push_back( op( "return" ) ); --depth; }
    else if( depth > 1 && c < ( depth < deep / 2 ? 31 : 52 ) ) { long const n = rng.range( 1, depth ); r.push_back( op( "unwind" ).set( "n", n ) ); depth -= n; }
    else if( depth < deep )
    {
      if( rng.chance( 70 ) ) f = rng.range( 1, 9 );      // else the same again: recursion
      r.push_back( op( "call" ).set( "f", f ) ); ++depth;
    }
  }
  return r;
}
void play( Episode & e, int const n, bool const located ) { episode = &e; st::below( n, located ); }
void emit( Episode const & e ) { for( auto const & s : e.events ) { vp::out().line( s ); } }
}

int main( int const argc, char ** const argv )
{
  Args a( argc, argv );
  std::string box = "int";
  for( int k = 0; k < 32; ++k ) box = "st::Box<" + box + ( k ? " >" : ">" );
  names = { "st::plain(int)", "long st::templ<long>(long)", "st::Object::member(int) const", "st::Object::operator()(char const*)", "stPlainName",
            "void st::pack<int, char*, double>(int, char*, double)", "st::Holder<float>::run(float const&, long (*)(double))", "st::Derived::dispatched(st::Object&)",
            "void st::deep<" + box + " >(" + box + "*)" };
  // every function once: where it is written is known from here on
  Episode first;
  for( long f = 1; f <= 9; ++f ) { first.ops.push_back( op( "call" ).set( "f", f ) ); first.ops.push_back( op( "return" ) ); }
#if defined(LVARRAY_ADDR2LINE_EXEC)
  bool const located = true;
#else
  bool const located = false;
#endif
  LvArray::system::setErrorHandler( []() { throw Abandoned(); } );
  signal( SIGUSR1, stHandler );
  play( first, 0, located );
  Rng rng( std::uint64_t( a.seed ) );
  std::vector< std::vector< Op > > todo;
  if( !a.script.empty() ) todo = readScripts( a.script.c_str() );
  long const n = a.script.empty() ? a.n : long( todo.size() );
  for( long k = 0; k < n; ++k )
  {
    bool const together = a.script.empty() && rng.chance( 20 );
    if( !together )
    {
      Episode e;
      e.ops = a.script.empty() ? randomEpisode( rng, a.len, true ) : todo[ std::size_t( k ) ];
      int const under = int( rng.chance( 30 ) ? rng.below( 30 ) : rng.below( 3 ) );
      if( rng.chance( 15 ) ) { std::thread t( [ & ]() { play( e, under, located ); } ); t.join(); }
      else play( e, under, located );
      emit( e );
      continue;
    }
    // several threads take traces at the same time
    std::vector< Episode > es( 3 );
    std::vector< std::thread > ts;
    std::atomic< int > ready{ 0 };
    for( auto & e : es ) { e.alone = false; e.ops = randomEpisode( rng, a.len / 2, false ); }
    for( auto & e : es ) ts.emplace_back( [ & ]() { ++ready; while( ready < 3 ) {} play( e, 0, located ); } );
    for( auto & t : ts ) t.join();
    for( auto const & e : es ) emit( e );
  }
  return finish();
}
