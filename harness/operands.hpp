// Vectors and matrices of every kind for the tensor operations, each in the middle of something larger.
#pragma once
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include <RAJA/RAJA.hpp>
using P = std::ptrdiff_t;
template< typename T, int N, typename PERM > using Arr = LvArray::Array< T, N, PERM, P, LvArray::MallocBuffer >;

// A holder has an operand in the middle of something larger; everything else in there must stay as it is.
enum Kind { C, WHOLE, ROW, COLUMN, VIEW, FIXED };
template< typename T > T guard() { return T( 77 ); }
template< typename T, P N > struct Fixed { static constexpr P SIZE = N; T d[ N ]; T & operator[]( P const i ) { return d[ i ]; } T const & operator[]( P const i ) const { return d[ i ]; } };

template< typename T, P N, int KIND > struct Vec;
template< typename T, P N > struct Vec< T, N, C >
{
  T d[ 3 ][ N ];
  Vec( long ) { for( auto & r : d ) for( T & x : r ) x = guard< T >(); }
  T ( &dst() )[ N ] { return d[ 1 ]; }
  T const ( &src() const )[ N ] { return d[ 1 ]; }
  T & at( P const i ) { return d[ 1 ][ i ]; }
  P size() const { return N; }
  bool around() { for( int r : { 0, 2 } ) for( T & x : d[ r ] ) if( x != guard< T >() ) return false; return true; }
};
template< typename T, P N > struct Vec< T, N, FIXED >
{
  struct { T before[ 2 ]; Fixed< T, N > d; T after[ 2 ]; } s;
  Vec( long ) { for( T & x : s.before ) x = guard< T >(); for( T & x : s.after ) x = guard< T >(); }
  Fixed< T, N > & dst() { return s.d; }
  Fixed< T, N > const & src() const { return s.d; }
  T & at( P const i ) { return s.d[ i ]; }
  P size() const { return N; }
  bool around() { for( T & x : s.before ) if( x != guard< T >() ) return false; for( T & x : s.after ) if( x != guard< T >() ) return false; return true; }
};
template< typename T, P N > struct Vec< T, N, WHOLE >
{
  Arr< T, 1, RAJA::PERM_I > a;
  Vec( long const more ): a( N + more ) {}
  auto & dst() { return a; }
  auto const & src() const { return a; }
  T & at( P const i ) { return a.data()[ i ]; }
  P size() const { return a.size(); }
  bool around() { return true; }
};
template< typename T, P N > struct Vec< T, N, VIEW >
{
  Arr< T, 1, RAJA::PERM_I > a;
  Vec( long const more ): a( N + more ) {}
  auto dst() const { return a.toView(); }
  auto src() const { return a.toViewConst(); }
  T & at( P const i ) { return a.data()[ i ]; }
  P size() const { return a.size(); }
  bool around() { return true; }
};
template< typename T, P N, typename PERM > struct Part1
{
  Arr< T, 2, PERM > a;
  Part1( long const more ): a( 3, N + more ) { for( P i = 0; i < a.size(); ++i ) a.data()[ i ] = guard< T >(); }
  auto dst() const { return a[ 1 ]; }
  auto src() const { auto const v = a.toSliceConst(); return v[ 1 ]; }
  T & at( P const i ) { return a( 1, i ); }
  P size() const { return a.size( 1 ); }
  bool around() { for( P r : { P( 0 ), P( 2 ) } ) for( P i = 0; i < size(); ++i ) if( a( r, i ) != guard< T >() ) return false; return true; }
};
template< typename T, P N > struct Vec< T, N, ROW > : Part1< T, N, RAJA::PERM_IJ > { using Part1< T, N, RAJA::PERM_IJ >::Part1; };
template< typename T, P N > struct Vec< T, N, COLUMN > : Part1< T, N, RAJA::PERM_JI > { using Part1< T, N, RAJA::PERM_JI >::Part1; };

template< typename T, P M, P N, int KIND > struct Mat;
template< typename T, P M, P N > struct Mat< T, M, N, C >
{
  T d[ 3 ][ M ][ N ];
  Mat( long, long ) { for( auto & m : d ) for( auto & r : m ) for( T & x : r ) x = guard< T >(); }
  T ( &dst() )[ M ][ N ] { return d[ 1 ]; }
  T const ( &src() const )[ M ][ N ] { return d[ 1 ]; }
  T & at( P const i ) { return d[ 1 ][ i / N ][ i % N ]; }
  P size() const { return M * N; }
  bool around() { for( int m : { 0, 2 } ) for( auto & r : d[ m ] ) for( T & x : r ) if( x != guard< T >() ) return false; return true; }
};
template< typename T, P M, P N > struct Mat< T, M, N, WHOLE >
{
  Arr< T, 2, RAJA::PERM_IJ > a;
  Mat( long const m, long const n ): a( M + m, N + n ) {}
  auto & dst() { return a; }
  auto const & src() const { return a; }
  T & at( P const i ) { return a( i / a.size( 1 ), i % a.size( 1 ) ); }
  P size() const { return a.size(); }
  bool around() { return true; }
};
template< typename T, P M, P N > struct Mat< T, M, N, VIEW >
{
  Arr< T, 2, RAJA::PERM_JI > a;
  Mat( long const m, long const n ): a( M + m, N + n ) {}
  auto dst() const { return a.toView(); }
  auto src() const { return a.toViewConst(); }
  T & at( P const i ) { return a( i / a.size( 1 ), i % a.size( 1 ) ); }
  P size() const { return a.size(); }
  bool around() { return true; }
};
template< typename T, P M, P N, typename PERM > struct Part2
{
  Arr< T, 3, PERM > a;
  Part2( long const m, long const n ): a( 3, M + m, N + n ) { for( P i = 0; i < a.size(); ++i ) a.data()[ i ] = guard< T >(); }
  auto dst() const { return a[ 1 ]; }
  auto src() const { auto const v = a.toSliceConst(); return v[ 1 ]; }
  T & at( P const i ) { return a( 1, i / a.size( 2 ), i % a.size( 2 ) ); }
  P size() const { return a.size( 1 ) * a.size( 2 ); }
  bool around() { for( P r : { P( 0 ), P( 2 ) } ) for( P i = 0; i < a.size( 1 ); ++i ) for( P j = 0; j < a.size( 2 ); ++j ) if( a( r, i, j ) != guard< T >() ) return false; return true; }
};
template< typename T, P M, P N > struct Mat< T, M, N, ROW > : Part2< T, M, N, RAJA::PERM_IJK > { using Part2< T, M, N, RAJA::PERM_IJK >::Part2; };
template< typename T, P M, P N > struct Mat< T, M, N, COLUMN > : Part2< T, M, N, RAJA::PERM_KJI > { using Part2< T, M, N, RAJA::PERM_KJI >::Part2; };
template< typename T, P M, P N > struct Mat< T, M, N, FIXED > : Part2< T, M, N, RAJA::PERM_JKI > { using Part2< T, M, N, RAJA::PERM_JKI >::Part2; };

