// Conformance driver for the control of floating-point exceptions. Traces: spec/FpEnvTrace.tla.
#include "vp.hpp"
#include "system.hpp"
#include <cfenv>
#include <cfloat>
#include <cmath>
#include <memory>
#include <setjmp.h>
using namespace vp;

static sigjmp_buf trap;
static void onFpe( int ) { siglongjmp( trap, 1 ); }

static struct { char const * name; int bit; } const names[] = {
  { "DIVBYZERO", FE_DIVBYZERO }, { "OVERFLOW", FE_OVERFLOW }, { "INVALID", FE_INVALID }, { "UNDERFLOW", FE_UNDERFLOW }, { "INEXACT", FE_INEXACT } };
static std::string setOf( int const mask )
{
  std::string r = "[";
  for( auto const & n : names ) if( mask & n.bit ) { if( r.size() > 1 ) r += ','; r += quote( n.name ); }
  if( mask & ~FE_ALL_EXCEPT ) r += r.size() > 1 ? ",\"OTHER\"" : "\"OTHER\"";
  return r + "]";
}

template< typename T > struct Lim;
template<> struct Lim< float > { static constexpr float max = FLT_MAX, min = FLT_MIN; };
template<> struct Lim< double > { static constexpr double max = DBL_MAX, min = DBL_MIN; };
template<> struct Lim< long double > { static constexpr long double max = LDBL_MAX, min = LDBL_MIN; };

template< typename T >
__attribute__( ( noinline ) ) bool traps( int const f )
{
  std::feclearexcept( FE_ALL_EXCEPT );
  fenv_t env;
  std::fegetenv( &env );
  std::fesetenv( &env );   // (fegetenv masks all x87 exceptions)
  bool volatile trapped = true;
  if( sigsetjmp( trap, 1 ) == 0 )
  {
    T volatile a = 1, b = 0, r;
    switch( f )
    {
      case 0: a = 1; b = 0; r = a / b; break;
      case 1: a = 0; b = 0; r = a / b; break;
      case 2: a = Lim< T >::max; b = 2; r = a * b; break;
      case 3: a = Lim< T >::min; b = 3; r = a / b; break;
      case 4: a = 1; b = 3; r = a / b; break;
      case 5: a = 3; b = 4; r = a / b; break;
    }
    asm volatile ( "fwait" );
    (void) r;
    trapped = false;
  }
  std::fesetenv( &env );
  return trapped;
}
static char const * const faults[] = { "divbyzero", "invalid", "overflow", "underflow", "inexact", "exact" };
template< typename T >
static std::string trapping( bool const noUnderflow )
{
  std::string r = "[";
  for( int f = 0; f < 6; ++f )
  {
    if( f == 3 && noUnderflow ) continue;
    if( traps< T >( f ) ) { if( r.size() > 1 ) r += ','; r += quote( faults[ f ] ); }
  }
  return r + "]";
}
static bool subnormalSurvives()
{
  if( fegetexcept() & FE_UNDERFLOW ) return false;
  std::feclearexcept( FE_ALL_EXCEPT );
  fenv_t env;
  std::fegetenv( &env );
  std::fesetenv( &env );
  bool volatile r = false;
  if( sigsetjmp( trap, 1 ) == 0 )
  {
    double volatile a = DBL_MIN, b = 2, c;
    // only the flag of exactness could trap here, and only if subnormals are flushed
    c = a / b;
    unsigned long bits;
    double const d = c;
    memcpy( &bits, &d, 8 );
    r = bits != 0;
  }
  std::fesetenv( &env );
  return r;
}

static void observe( J & j )
{
  j.raw( "on", setOf( fegetexcept() ) );
  j.raw( "traps", "{\"float\":" + trapping< float >( false ) + ",\"double\":" + trapping< double >( false ) + ",\"longdouble\":" + trapping< long double >( true ) + "}" );
  j.kv( "subnormal", subnormalSurvives() );
  int const r = std::fegetround();
  j.kv( "round", r == FE_TONEAREST ? 0 : r == FE_UPWARD ? 1 : r == FE_DOWNWARD ? 2 : 3 );
  j.emit();
}

static std::map< long, std::unique_ptr< LvArray::system::FloatingPointExceptionGuard > > guards;
static fenv_t initial;

static void begin()
{
  guards.clear();
  std::fesetenv( &initial );
  J( "begin" ).emit();
}

static int maskOf( Op const & o )
{
  int m = 0;
  auto it = o.text.find( "m" );
  for( long const k : o.v( "b" ) ) m |= names[ k ].bit;
  (void) it;
  return m;
}

static void run( Op const & o )
{
  using namespace LvArray::system;
  current() = o.str();
  J j( o.name.c_str() );
  int const m = maskOf( o );
  long const g = o.i( "g" );
  if( o.name == "enable" ) { j.raw( "s", setOf( m ) ); j.raw( "ret", setOf( enableFloatingPointExceptions( m ) ) ); }
  else if( o.name == "disable" ) { j.raw( "s", setOf( m ) ); j.raw( "ret", setOf( disableFloatingPointExceptions( m ) ) ); }
  else if( o.name == "enableDefault" ) j.raw( "ret", setOf( enableFloatingPointExceptions() ) );
  else if( o.name == "disableDefault" ) j.raw( "ret", setOf( disableFloatingPointExceptions() ) );
  else if( o.name == "guard" ) { if( guards.count( g ) ) return; j.kv( "g", g ).raw( "s", setOf( m ) ); guards[ g ].reset( new FloatingPointExceptionGuard( m ) ); }
  else if( o.name == "guardDefault" ) { if( guards.count( g ) ) return; j.kv( "g", g ); guards[ g ].reset( new FloatingPointExceptionGuard() ); }
  else if( o.name == "unguard" ) { if( !guards.count( g ) ) return; j.kv( "g", g ); guards.erase( g ); }
  else if( o.name == "setFPE" ) setFPE();
  else if( o.name == "default" ) j.raw( "ret", setOf( getDefaultFloatingPointExceptions() ) );
  else if( o.name == "round" ) { int const r[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO }; std::fesetround( r[ o.i( "r" ) & 3 ] ); j.kv( "r", o.i( "r" ) & 3 ); }
  else { fprintf( stderr, "unknown %s\n", o.name.c_str() ); exit( 3 ); }
  observe( j );
}

int main( int argc, char ** argv )
{
  Args a( argc, argv );
  struct sigaction sa = {};
  sa.sa_handler = onFpe;
  sa.sa_flags = SA_NODEFER;
  sigaction( SIGFPE, &sa, nullptr );
  std::feclearexcept( FE_ALL_EXCEPT );
  std::fegetenv( &initial );
  std::fesetenv( &initial );
  if( !a.script.empty() )
  {
    for( auto & ep : readScripts( a.script.c_str() ) ) { begin(); for( Op const & o : ep ) run( o ); }
    guards.clear();
    std::fesetenv( &initial );
    return finish();
  }
  Rng r( a.seed );
  for( long e = 0; e < a.n; ++e )
  {
    begin();
    for( long k = 0; k < a.len; ++k )
    {
      VL b;
      for( int i = 0; i < 5; ++i ) if( r.chance( 35 ) ) b.push_back( i );
      long const c = r.below( 100 );
      if( c < 18 ) run( op( "enable" ).set( "b", b ) );
      else if( c < 34 ) run( op( "disable" ).set( "b", b ) );
      else if( c < 38 ) run( op( "enableDefault" ) );
      else if( c < 42 ) run( op( "disableDefault" ) );
      else if( c < 58 ) run( op( "guard" ).set( "g", r.below( 8 ) ).set( "b", b ) );
      else if( c < 66 ) run( op( "guardDefault" ).set( "g", r.below( 8 ) ) );
      else if( c < 90 ) run( op( "unguard" ).set( "g", r.below( 8 ) ) );
      else if( c < 93 ) run( op( "round" ).set( "r", r.below( 4 ) ) );
      else if( c < 96 ) run( op( "default" ) );
      else if( k > a.len / 2 ) run( op( "setFPE" ) );
    }
  }
  guards.clear();
  std::fesetenv( &initial );
  return finish();
}
