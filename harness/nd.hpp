// Access to arrays of any number of dimensions by run-time multi-indices, over every path the library offers.
#pragma once
#include "vp.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "sliceHelpers.hpp"
#include <RAJA/RAJA.hpp>
namespace vp
{
// v( i0, i1, ... ) with the indices of x, starting at x[ FROM ].
template< typename INDEX, int FROM, typename V, std::size_t ... I >
decltype( auto ) callAt( V const & v, VL const & x, std::index_sequence< I... > ) { return v( INDEX( x[ FROM + I ] ) ... ); }
template< typename INDEX, int N, int FROM=0, typename V >
decltype( auto ) call( V const & v, VL const & x ) { return callAt< INDEX, FROM >( v, x, std::make_index_sequence< N >() ); }

template< typename INDEX, int FROM, typename V, std::size_t ... I >
long linearAt( V const & v, VL const & x, std::index_sequence< I... > ) { return long( v.linearIndex( INDEX( x[ FROM + I ] ) ... ) ); }
template< typename INDEX, int N, int FROM=0, typename V >
long linear( V const & v, VL const & x ) { return linearAt< INDEX, FROM >( v, x, std::make_index_sequence< N >() ); }

// v[ x[ FROM ] ][ x[ FROM + 1 ] ]...
template< int N, int FROM > struct Chain
{
  template< typename V > static decltype( auto ) at( V const & v, VL const & x )
  { auto const s = v[ x[ FROM ] ]; return Chain< N - 1, FROM + 1 >::at( s, x ); }
};
template< int FROM > struct Chain< 1, FROM >
{ template< typename V > static decltype( auto ) at( V const & v, VL const & x ) { return v[ x[ FROM ] ]; } };

// the first K indices by brackets, the others by a call
template< typename INDEX, int N, int K, int FROM=0 > struct Mixed
{
  template< typename V > static decltype( auto ) at( V const & v, VL const & x )
  { auto const s = v[ x[ FROM ] ]; return Mixed< INDEX, N - 1, K - 1, FROM + 1 >::at( s, x ); }
};
template< typename INDEX, int N, int FROM > struct Mixed< INDEX, N, 0, FROM >
{ template< typename V > static decltype( auto ) at( V const & v, VL const & x ) { return call< INDEX, N, FROM >( v, x ); } };

// The next multi-index in lexicographic order; false after the last.
inline bool nextIndex( VL & x, VL const & dims )
{
  for( long k = long( dims.size() ) - 1; k >= 0; --k )
  {
    if( ++x[ k ] < dims[ k ] ) return true;
    x[ k ] = 0;
  }
  return false;
}
inline long total( VL const & dims ) { long n = 1; for( long const d : dims ) n *= d; return n; }
template< typename F > void allIndices( VL const & dims, F && f )
{
  if( total( dims ) <= 0 ) return;
  VL x( dims.size(), 0 );
  do f( x ); while( nextIndex( x, dims ) );
}
template< typename P > VL some( P const * const p, int const n ) { VL r; for( int k = 0; k < n; ++k ) r.push_back( long( p[ k ] ) ); return r; }
template< typename INDEX, int N, typename A, std::size_t ... I >
void resizeAt( A & a, VL const & d, std::index_sequence< I... > ) { a.resize( INDEX( d[ I ] ) ... ); }
template< typename INDEX, int N, typename A > void resizeAll( A & a, VL const & d ) { resizeAt< INDEX, N >( a, d, std::make_index_sequence< N >() ); }
template< typename A, int N, typename INDEX, std::size_t ... I >
A * makeAt( VL const & d, std::index_sequence< I... > ) { return new A( INDEX( d[ I ] ) ... ); }
template< typename A, int N, typename INDEX > A * make( VL const & d ) { return makeAt< A, N, INDEX >( d, std::make_index_sequence< N >() ); }

template< typename SEQ > struct PermList;
template< camp::idx_t ... I > struct PermList< camp::idx_seq< I... > > { static VL get() { return { long( I ) ... }; } };

template< typename ... P > struct Perms
{
  // f.template run< P >() for the k-th permutation
  template< typename F > static void nth( long const k, F & f )
  { long j = 0; using expand = int[]; (void) expand{ 0, ( j++ == k ? ( f.template run< P >(), 0 ) : 0 ) ... }; }
  template< typename F > static bool find( VL const & p, F & f )
  { bool found = false; using expand = int[]; (void) expand{ 0, ( PermList< P >::get() == p ? ( found = true, f.template run< P >(), 0 ) : 0 ) ... }; return found; }
  static constexpr long count = sizeof ... ( P );
};
#define S( ... ) camp::idx_seq< __VA_ARGS__ >
#if VP_NDIM == 1
using AllPerms = Perms< S( 0 ) >;
#elif VP_NDIM == 2
using AllPerms = Perms< S( 0, 1 ), S( 1, 0 ) >;
#elif VP_NDIM == 3
using AllPerms = Perms< S( 0, 1, 2 ), S( 0, 2, 1 ), S( 1, 0, 2 ), S( 1, 2, 0 ), S( 2, 0, 1 ), S( 2, 1, 0 ) >;
#elif VP_NDIM == 4 && VP_SHARD == 0
using AllPerms = Perms< S( 0, 1, 2, 3 ), S( 1, 0, 3, 2 ), S( 1, 3, 2, 0 ), S( 2, 0, 1, 3 ), S( 2, 3, 1, 0 ), S( 3, 0, 2, 1 ), S( 3, 1, 0, 2 ), S( 0, 3, 2, 1 ) >;
#elif VP_NDIM == 4 && VP_SHARD == 1
using AllPerms = Perms< S( 3, 2, 1, 0 ), S( 0, 1, 3, 2 ), S( 0, 2, 1, 3 ), S( 1, 2, 0, 3 ), S( 1, 2, 3, 0 ), S( 2, 1, 3, 0 ), S( 2, 3, 0, 1 ), S( 3, 0, 1, 2 ) >;
#elif VP_NDIM == 4
using AllPerms = Perms< S( 0, 2, 3, 1 ), S( 0, 3, 1, 2 ), S( 1, 0, 2, 3 ), S( 1, 3, 0, 2 ), S( 2, 0, 3, 1 ), S( 2, 1, 0, 3 ), S( 3, 1, 2, 0 ), S( 3, 2, 0, 1 ) >;
#else
using AllPerms = Perms< S( 0, 1, 2, 3, 4 ), S( 4, 3, 2, 1, 0 ), S( 2, 4, 0, 3, 1 ), S( 3, 1, 4, 2, 0 ) >;
#endif
#undef S
} // namespace vp
