// Element types for the container drivers: integers, strings that own memory, and tracked elements that notice every
// use, assignment or destruction of storage that holds no element and every construction over a live one.
#pragma once
#include "vp.hpp"
#include <algorithm>
#include <functional>
#include <unordered_set>
namespace vp
{
struct Memory
{
  bool on = false, busy = false;
  std::unordered_set< void const volatile * > held;
};
inline Memory & memory() { static Memory * m = new Memory; return *m; }
// The driver's own bookkeeping is not the library's memory.
struct Own { bool was; Own(): was( memory().busy ) { memory().busy = true; } ~Own() { memory().busy = was; } };
struct Registry
{
  std::unordered_set< void const * > live;
  long bad = 0;
  std::string what;
  void report( char const * const w ) { Own own; ++bad; if( what.empty() ) what = w; }
  bool add( void const * const p ) { Own own; return live.insert( p ).second; }
  bool drop( void const * const p ) { Own own; return live.erase( p ) != 0; }
};
inline Registry & reg() { static Registry * r = new Registry; return *r; }

static constexpr long MOVED = -1001;

// COPY_ONLY: no move operations, as for a type that predates them.
struct TokBase
{
  long v;
  explicit TokBase( long const x ): v( x )
  { if( !reg().add( this ) ) reg().report( "constructed over a live element" ); }
  void use() const { if( reg().live.count( this ) == 0 ) reg().report( "used an element that is not alive" ); }
  static long read( TokBase const & o ) { o.use(); return o.v; }
  ~TokBase()
  { if( !reg().drop( this ) ) reg().report( "destroyed an element that is not alive" ); v = -2002; }
};
struct Tok : TokBase
{
  Tok(): TokBase( 0 ) {}
  explicit Tok( long const x ): TokBase( x ) {}
  Tok( Tok const & o ): TokBase( read( o ) ) {}
  Tok( Tok && o ): TokBase( read( o ) ) { o.v = MOVED; }
  Tok & operator=( Tok const & o ) { use(); v = read( o ); return *this; }
  Tok & operator=( Tok && o ) { use(); long const x = read( o ); o.v = MOVED; v = x; return *this; }
  ~Tok() = default;
};
struct CTok : TokBase
{
  CTok(): TokBase( 0 ) {}
  explicit CTok( long const x ): TokBase( x ) {}
  CTok( CTok const & o ): TokBase( read( o ) ) {}
  CTok & operator=( CTok const & o ) { use(); v = read( o ); return *this; }
  ~CTok() = default;
};
#define VP_TOK_OP( T, OP ) inline bool operator OP( T const & a, T const & b ) { return TokBase::read( a ) OP TokBase::read( b ); }
#define VP_TOK_OPS( T ) VP_TOK_OP( T, == ) VP_TOK_OP( T, != ) VP_TOK_OP( T, < ) VP_TOK_OP( T, > )
VP_TOK_OPS( Tok )
VP_TOK_OPS( CTok )

// A string too long for the small-string buffer.
struct Str
{
  std::string s;
  Str(): s( "element-with-heap-memory-0" ) {}
  explicit Str( long const x ): s( "element-with-heap-memory-" + std::to_string( x ) ) {}
  long get() const { return s.size() > 25 ? std::strtol( s.c_str() + 25, nullptr, 10 ) : MOVED; }
};
inline bool operator==( Str const & a, Str const & b ) { return a.get() == b.get(); }
inline bool operator!=( Str const & a, Str const & b ) { return a.get() != b.get(); }
inline bool operator<( Str const & a, Str const & b ) { return a.get() < b.get(); }
inline bool operator>( Str const & a, Str const & b ) { return a.get() > b.get(); }

template< typename T > struct El
{
  static T mk( long const v ) { return T( v ); }
  static long get( T const & x ) { return long( x ); }
  static constexpr bool tracked = false;
};
template<> struct El< Str >
{
  static Str mk( long const v ) { return Str( v ); }
  static long get( Str const & x ) { return x.get(); }
  static constexpr bool tracked = false;
};
template<> struct El< Tok >
{
  static Tok mk( long const v ) { return Tok( v ); }
  static long get( Tok const & x ) { return TokBase::read( x ); }
  static constexpr bool tracked = true;
};
template<> struct El< CTok >
{
  static CTok mk( long const v ) { return CTok( v ); }
  static long get( CTok const & x ) { return TokBase::read( x ); }
  static constexpr bool tracked = true;
};
// The objects of the specification may be the ends of far longer ones: LEAD elements that are not looked at precede what
// the specification describes, and all positions and sizes are larger by LEAD. Tiny elements make that affordable.
static long LEAD = 0;
inline long room( long const capacity ) { return LEAD > 0 ? std::min( capacity - LEAD, 1000000l ) : capacity; }
struct Tiny { unsigned char c; };
inline bool operator==( Tiny const a, Tiny const b ) { return a.c == b.c; }
inline bool operator!=( Tiny const a, Tiny const b ) { return a.c != b.c; }
inline bool operator<( Tiny const a, Tiny const b ) { return a.c < b.c; }
inline bool operator>( Tiny const a, Tiny const b ) { return a.c > b.c; }
// Memory nobody has touched holds smaller elements than any made here; a default element is 0.
template<> struct El< Tiny >
{
  static Tiny mk( long const v ) { return Tiny{ static_cast< unsigned char >( v + 2 ) }; }
  static long get( Tiny const & x ) { return x.c == 0 ? 0 : long( x.c ) - 2; }
  static constexpr bool tracked = false;
};
template< typename T >
std::vector< T > mkAll( VL const & v )
{ std::vector< T > r; r.reserve( v.size() ); for( long const x : v ) r.push_back( El< T >::mk( x ) ); return r; }

// ------------------------------------------------------------------------------------ memory the library holds
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks( void ( * )( void const volatile *, std::size_t ), void ( * )( void const volatile * ) );
inline void onMalloc( void const volatile * const p, std::size_t )
{
  Memory & m = memory();
  if( !m.on || m.busy ) return;
  m.busy = true; m.held.insert( p ); m.busy = false;
}
inline void onFree( void const volatile * const p )
{
  Memory & m = memory();
  if( m.busy || m.held.empty() ) return;
  m.busy = true; m.held.erase( p ); m.busy = false;
}
inline void trackMemory() { memory(); __sanitizer_install_malloc_and_free_hooks( onMalloc, onFree ); }
static constexpr bool memoryTracked = true;
#else
inline void trackMemory() {}
static constexpr bool memoryTracked = false;
#endif
// Allocations made while f runs are the library's.
template< typename F > void lib( F && f ) { memory().on = true; f(); memory().on = false; }

// live, bad: only for tracked elements.
template< typename T > J & lifeFields( J & j )
{
  if( El< T >::tracked )
  {
    j.kv( "live", long( reg().live.size() ) ).kv( "bad", reg().bad );
    if( reg().bad ) j.kv( "what", reg().what );
  }
  return j;
}
inline void resetLife() { reg().live.clear(); reg().bad = 0; reg().what.clear(); Own own; memory().held.clear(); }
// The end of an episode: everything the driver made is gone.
template< typename T > void goneEvent()
{
  J j( "gone" );
  lifeFields< T >( j );
  if( memoryTracked ) j.kv( "mem", long( memory().held.size() ) );
  j.emit();
}
} // namespace vp
