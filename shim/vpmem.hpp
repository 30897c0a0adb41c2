// Memory blocks of the simulated memory spaces. While a driver has it switched on, only the blocks of the space that is
// executing may be accessed: with the address sanitizer an access to a block of the other space is reported, as it would
// fault with a real device.
#pragma once
#include <cstddef>
#include <map>
#include <new>
#include <type_traits>
#include <utility>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_poison_memory_region( void const volatile *, std::size_t );
extern "C" void __asan_unpoison_memory_region( void const volatile *, std::size_t );
#else
inline void __asan_poison_memory_region( void const volatile *, std::size_t ) {}
inline void __asan_unpoison_memory_region( void const volatile *, std::size_t ) {}
#endif
namespace vpmem
{
struct Blocks
{
  bool on = false;
  int space = 1;                                               // the space that is executing, 0: everything may be accessed
  std::map< void *, std::pair< std::size_t, int > > live;
  void set( void * const p, std::size_t const n, int const s ) const
  {
    if( on && space != 0 && s != space ) __asan_poison_memory_region( p, n );
    else __asan_unpoison_memory_region( p, n );
  }
  void add( void * const p, std::size_t const n, int const s ) { live[ p ] = { n, s }; if( on ) set( p, n, s ); }
  void drop( void * const p )
  {
    auto const it = live.find( p );
    if( it == live.end() ) return;
    __asan_unpoison_memory_region( p, it->second.first );
    live.erase( it );
  }
  void enter( int const s )
  {
    if( !on ) return;
    space = s;
    for( auto const & b : live ) set( b.first, b.second.first, b.second.second );
  }
};
// Never destroyed, and not an allocation.
inline Blocks & blocks() { static std::aligned_storage< sizeof( Blocks ), alignof( Blocks ) >::type room; static Blocks * b = new ( &room ) Blocks; return *b; }
// What the runtime itself does, it may access everything.
struct Open
{
  int was = blocks().space;
  Open() { blocks().enter( 0 ); }
  ~Open() { blocks().enter( was ); }
};
}
