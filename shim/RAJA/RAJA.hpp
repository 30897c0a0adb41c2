// Minimal stand-in for the parts of LLNL/RAJA that LvArray uses. Loops run sequentially; the body is copied the way
// RAJA copies it (once, inside the launch, while the execution space of the policy is set) and atomics go through
// __atomic builtins. vp_hook() marks every atomic operation so that a harness can schedule threads there.
#pragma once
#include <camp/camp.hpp>
#include <camp/resource.hpp>
#include <cstddef>
#include <cstring>
#include <array>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>

namespace vpshim
{
using HookType = void ( * )( char const * );
inline HookType & hookRef() { static HookType h = nullptr; return h; }
inline void vp_hook( char const * const what ) { if( hookRef() != nullptr ) hookRef()( what ); }

// Set while a loop body is being copied for a launch: 0 none, 1 host, 2 device.
using SpaceHook = void ( * )( int );
inline SpaceHook & spaceHookRef() { static SpaceHook h = nullptr; return h; }
// Called with the space a loop runs in, and with 0 afterwards.
inline SpaceHook & runHookRef() { static SpaceHook h = nullptr; return h; }
inline void setRun( int const s ) { if( runHookRef() != nullptr ) runHookRef()( s ); }
inline void setSpace( int const s ) { if( spaceHookRef() != nullptr ) spaceHookRef()( s ); }
}

namespace RAJA
{
using Index_type = std::ptrdiff_t;

struct loop_exec {};
struct seq_exec {};
struct simd_exec {};
struct sequential {};
struct omp_parallel_for_exec {};
struct omp_parallel_exec {};
template< std::size_t BLOCK_SIZE = 256, bool ASYNC = false > struct cuda_exec {};
struct seq_reduce {};
struct omp_reduce {};
struct cuda_reduce {};
struct seq_atomic {};
struct auto_atomic {};
struct builtin_atomic {};
struct omp_atomic {};
struct loop_atomic {};
struct cuda_atomic {};
using cuda_atomic_explicit = cuda_atomic;

namespace internal
{
template< typename POLICY > struct PolicySpace { static constexpr int value = 1; };
template< std::size_t B, bool A > struct PolicySpace< cuda_exec< B, A > > { static constexpr int value = 2; };
}

template< typename T >
struct TypedRangeSegment
{
  TypedRangeSegment( T const b, T const e ): m_begin( b ), m_end( e ) {}
  struct iterator
  {
    using value_type = std::remove_cv_t< T >;
    using difference_type = std::ptrdiff_t;
    value_type v;
    T operator*() const { return v; }
    iterator & operator++() { ++v; return *this; }
    bool operator!=( iterator const & o ) const { return v != o.v; }
    bool operator==( iterator const & o ) const { return v == o.v; }
  };
  iterator begin() const { return { m_begin }; }
  iterator end() const { return { m_end < m_begin ? m_begin : m_end }; }
  T size() const { return m_end < m_begin ? T( 0 ) : T( m_end - m_begin ); }
private:
  T m_begin;
  T m_end;
};
using RangeSegment = TypedRangeSegment< Index_type >;

template< typename POLICY, typename RANGE, typename LAMBDA >
inline void forall( RANGE && range, LAMBDA && body )
{
  vpshim::setSpace( internal::PolicySpace< POLICY >::value );
  auto bodyCopy( body );
  vpshim::setSpace( 0 );
  vpshim::setRun( internal::PolicySpace< POLICY >::value );
  for( auto it = range.begin(); it != range.end(); ++it )
  { bodyCopy( *it ); }
  vpshim::setRun( 0 );
}

template< typename POLICY, typename RES, typename RANGE, typename LAMBDA >
inline void forall( RES &&, RANGE && range, LAMBDA && body )
{ forall< POLICY >( std::forward< RANGE >( range ), std::forward< LAMBDA >( body ) ); }

namespace operators
{
template< typename T > struct plus
{
  static constexpr T identity() { return T( 0 ); }
  constexpr T operator()( T const & a, T const & b ) const { return a + b; }
};
template< typename T > struct maximum { constexpr T operator()( T const & a, T const & b ) const { return a < b ? b : a; } };
template< typename T > struct minimum { constexpr T operator()( T const & a, T const & b ) const { return b < a ? b : a; } };
}

template< typename POLICY, typename IN, typename OUT >
inline void inclusive_scan( IN first, IN last, OUT out )
{
  // Like RAJA, refuse an empty input range is not possible here; an empty range is a no-op.
  if( first == last ) return;
  auto acc = *first;
  *out = acc;
  for( ++first, ++out; first != last; ++first, ++out ) { acc = acc + *first; *out = acc; }
}

template< typename POLICY, typename IN, typename OUT, typename FN >
inline void inclusive_scan( IN first, IN last, OUT out, FN fn )
{
  if( first == last ) return;
  auto acc = *first;
  *out = acc;
  for( ++first, ++out; first != last; ++first, ++out ) { acc = fn( acc, *first ); *out = acc; }
}

template< typename POLICY, typename IN, typename OUT >
inline void exclusive_scan( IN first, IN last, OUT out )
{
  using V = std::decay_t< decltype( *first ) >;
  V acc = V( 0 );
  for(; first != last; ++first, ++out ) { V const next = acc + *first; *out = acc; acc = next; }
}

template< typename POLICY, typename IN >
inline void inclusive_scan_inplace( IN first, IN last ) { inclusive_scan< POLICY >( first, last, first ); }

template< typename POLICY, typename IN >
inline void exclusive_scan_inplace( IN first, IN last ) { exclusive_scan< POLICY >( first, last, first ); }

namespace internal
{
// The sequential policy is not atomic, as in RAJA; every other policy is.
template< typename POLICY > struct IsSeq : std::false_type {};
template<> struct IsSeq< seq_atomic > : std::true_type {};
template<> struct IsSeq< loop_atomic > : std::true_type {};

template< typename T, typename FN >
inline T rmw( std::true_type, T * const acc, FN && fn )
{
  vpshim::vp_hook( "seq-load" );
  T const old = *acc;
  vpshim::vp_hook( "seq-store" );
  *acc = fn( old );
  return old;
}

template< typename T, typename FN >
inline T rmw( std::false_type, T * const acc, FN && fn )
{
  static_assert( std::is_trivially_copyable< T >::value, "RAJA atomics need trivially copyable types." );
  vpshim::vp_hook( "atomic" );
  T old, desired;
  __atomic_load( acc, &old, __ATOMIC_SEQ_CST );
  do
  { desired = fn( old ); }
  while( !__atomic_compare_exchange( acc, &old, &desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ) );
  vpshim::vp_hook( "atomic-done" );
  return old;
}
}

template< typename POLICY, typename T, typename U >
inline T atomicAdd( T * const acc, U const & value )
{ return internal::rmw( internal::IsSeq< POLICY >{}, acc, [&]( T const & x ) { return T( x + value ); } ); }
template< typename POLICY, typename T, typename U >
inline T atomicSub( T * const acc, U const & value )
{ return internal::rmw( internal::IsSeq< POLICY >{}, acc, [&]( T const & x ) { return T( x - value ); } ); }
template< typename POLICY, typename T >
inline T atomicInc( T * const acc )
{ return internal::rmw( internal::IsSeq< POLICY >{}, acc, []( T const & x ) { return T( x + 1 ); } ); }
template< typename POLICY, typename T >
inline T atomicDec( T * const acc )
{ return internal::rmw( internal::IsSeq< POLICY >{}, acc, []( T const & x ) { return T( x - 1 ); } ); }
template< typename POLICY, typename T, typename U >
inline T atomicExchange( T * const acc, U const & value )
{ return internal::rmw( internal::IsSeq< POLICY >{}, acc, [&]( T const & ) { return T( value ); } ); }
template< typename POLICY, typename T, typename U >
inline T atomicMax( T * const acc, U const & value )
{ return internal::rmw( internal::IsSeq< POLICY >{}, acc, [&]( T const & x ) { return x < value ? T( value ) : x; } ); }
template< typename POLICY, typename T, typename U >
inline T atomicMin( T * const acc, U const & value )
{ return internal::rmw( internal::IsSeq< POLICY >{}, acc, [&]( T const & x ) { return value < x ? T( value ) : x; } ); }
template< typename POLICY, typename T, typename U, typename V >
inline T atomicCAS( T * const acc, U const & compare, V const & value )
{ return internal::rmw( internal::IsSeq< POLICY >{}, acc, [&]( T const & x ) { return x == compare ? T( value ) : x; } ); }
template< typename POLICY, typename T >
inline T atomicLoad( T * const acc )
{ return internal::rmw( internal::IsSeq< POLICY >{}, acc, []( T const & x ) { return x; } ); }

template< typename POLICY, typename T >
struct ReduceSum
{
  explicit ReduceSum( T const init ): m_value( new T( init ) ) {}
  void operator+=( T const & v ) const { *m_value += v; }
  T get() const { return *m_value; }
private:
  std::shared_ptr< T > m_value;
};

template< typename POLICY, typename T >
struct ReduceBitAnd
{
  explicit ReduceBitAnd( T const init ): m_value( new T( init ) ) {}
  void operator&=( T const & v ) const { *m_value = *m_value & v; }
  T get() const { return *m_value; }
private:
  std::shared_ptr< T > m_value;
};

template< typename POLICY, typename T >
struct ReduceMax
{
  explicit ReduceMax( T const init ): m_value( new T( init ) ) {}
  void max( T const & v ) const { if( *m_value < v ) *m_value = v; }
  T get() const { return *m_value; }
private:
  std::shared_ptr< T > m_value;
};

// Permutations, as in RAJA/util/Permutations.hpp.
using PERM_I = camp::idx_seq< 0 >;
using PERM_IJ = camp::idx_seq< 0, 1 >;
using PERM_JI = camp::idx_seq< 1, 0 >;
using PERM_IJK = camp::idx_seq< 0, 1, 2 >;
using PERM_IKJ = camp::idx_seq< 0, 2, 1 >;
using PERM_JIK = camp::idx_seq< 1, 0, 2 >;
using PERM_JKI = camp::idx_seq< 1, 2, 0 >;
using PERM_KIJ = camp::idx_seq< 2, 0, 1 >;
using PERM_KJI = camp::idx_seq< 2, 1, 0 >;
using PERM_IJKL = camp::idx_seq< 0, 1, 2, 3 >;
using PERM_IJLK = camp::idx_seq< 0, 1, 3, 2 >;
using PERM_IKJL = camp::idx_seq< 0, 2, 1, 3 >;
using PERM_IKLJ = camp::idx_seq< 0, 2, 3, 1 >;
using PERM_ILJK = camp::idx_seq< 0, 3, 1, 2 >;
using PERM_ILKJ = camp::idx_seq< 0, 3, 2, 1 >;
using PERM_JIKL = camp::idx_seq< 1, 0, 2, 3 >;
using PERM_JILK = camp::idx_seq< 1, 0, 3, 2 >;
using PERM_JKIL = camp::idx_seq< 1, 2, 0, 3 >;
using PERM_JKLI = camp::idx_seq< 1, 2, 3, 0 >;
using PERM_JLIK = camp::idx_seq< 1, 3, 0, 2 >;
using PERM_JLKI = camp::idx_seq< 1, 3, 2, 0 >;
using PERM_KIJL = camp::idx_seq< 2, 0, 1, 3 >;
using PERM_KILJ = camp::idx_seq< 2, 0, 3, 1 >;
using PERM_KJIL = camp::idx_seq< 2, 1, 0, 3 >;
using PERM_KJLI = camp::idx_seq< 2, 1, 3, 0 >;
using PERM_KLIJ = camp::idx_seq< 2, 3, 0, 1 >;
using PERM_KLJI = camp::idx_seq< 2, 3, 1, 0 >;
using PERM_LIJK = camp::idx_seq< 3, 0, 1, 2 >;
using PERM_LIKJ = camp::idx_seq< 3, 0, 2, 1 >;
using PERM_LJIK = camp::idx_seq< 3, 1, 0, 2 >;
using PERM_LJKI = camp::idx_seq< 3, 1, 2, 0 >;
using PERM_LKIJ = camp::idx_seq< 3, 2, 0, 1 >;
using PERM_LKJI = camp::idx_seq< 3, 2, 1, 0 >;

// as_array and layouts, for the upstream unit tests.
namespace internal
{
template< std::size_t N > struct LayoutN { Index_type sizes[ N ]; Index_type strides[ N ]; };
}
template< typename SEQ > struct as_array;
template< camp::idx_t... I >
struct as_array< camp::idx_seq< I... > >
{
  static constexpr std::array< Index_type, sizeof...( I ) > get() { return { { I ... } }; }
};
template< std::size_t N, typename IDX = Index_type >
struct Layout
{
  IDX sizes[ N ];
  IDX strides[ N ];
  template< typename... IDS >
  IDX operator()( IDS const ... ids ) const
  {
    IDX const a[ N ] = { IDX( ids )... };
    IDX r = 0;
    for( std::size_t i = 0; i < N; ++i ) r += a[ i ] * strides[ i ];
    return r;
  }
};
template< std::size_t N, typename IDX = Index_type >
Layout< N, IDX > make_permuted_layout( std::array< IDX, N > sizes, std::array< Index_type, N > perm )
{
  Layout< N, IDX > l;
  IDX s = 1;
  for( std::size_t i = 0; i < N; ++i ) l.sizes[ i ] = sizes[ i ];
  for( int i = int( N ) - 1; i >= 0; --i ) { l.strides[ perm[ i ] ] = s; s *= sizes[ perm[ i ] ]; }
  return l;
}
template< typename T, typename LAYOUT >
struct View
{
  View( T * const d, LAYOUT const & l ): data( d ), m_layout( l ) {}
  template< typename... IDS > T & operator()( IDS const ... ids ) const { return data[ m_layout( ids ... ) ]; }
  T * get_data() const { return data; }
  T * data;
  LAYOUT m_layout;
};
}
