// Catching calls of the LvArray error handler.
#pragma once
#include "vp.hpp"
#include "system.hpp"
#include <iostream>
namespace vp
{
struct LvError {};
inline sigjmp_buf & jb() { static sigjmp_buf b; return b; }
inline bool & armed() { static bool a = false; return a; }
inline long & handlerCalls() { static long n = 0; return n; }

inline void installErrorHandler()
{
  std::cout.setstate( std::ios::failbit );   // the messages are not of interest and can be long
  LvArray::system::setErrorHandler( []()
  {
    ++handlerCalls();
    if( armed() ) siglongjmp( jb(), 1 );
    crashEvent( "error handler called outside an operation" );
    _exit( 4 );
  } );
}

// Run f; true if the error handler was called (f is then abandoned where it called it). The handler does not throw:
// several checked functions are noexcept.
template< typename F >
__attribute__( ( noinline ) ) bool attempt( F && f )
{
  armed() = true;
  if( sigsetjmp( jb(), 0 ) != 0 ) { armed() = false; return true; }
  f();
  armed() = false;
  return false;
}
} // namespace vp
