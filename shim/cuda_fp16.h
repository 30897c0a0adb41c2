// Host-only stand-in for cuda_fp16.h: __half and __half2 are carried as float. Only needed because math.hpp,
// limits.hpp and output.hpp name these types when LVARRAY_USE_CUDA is defined.
#pragma once
#include <cmath>
struct __half
{
  float v;
  __half() = default;
  __half( float const x ): v( x ) {}
  __half( double const x ): v( float( x ) ) {}
  __half( int const x ): v( float( x ) ) {}
  operator float() const { return v; }
};
struct __half2 { __half x, y; };
inline __half2 __float2half2_rn( float const a ) { return { a, a }; }
inline __half __float2half_rn( float const a ) { return a; }
inline __half2 __floats2half2_rn( float const a, float const b ) { return { a, b }; }
inline __half __habs( __half const a ) { return std::fabs( a.v ); }
inline __half2 __habs2( __half2 const a ) { return { __habs( a.x ), __habs( a.y ) }; }
inline __half2 __half2half2( __half const a ) { return { a, a }; }
inline __half2 __halves2half2( __half const a, __half const b ) { return { a, b }; }
inline __half __low2half( __half2 const a ) { return a.x; }
inline __half __high2half( __half2 const a ) { return a.y; }
inline bool __hlt( __half const a, __half const b ) { return a.v < b.v; }
inline __half __hmax( __half const a, __half const b ) { return a.v < b.v ? b : a; }
inline __half __hmin( __half const a, __half const b ) { return b.v < a.v ? b : a; }
inline __half2 __hge2( __half2 const a, __half2 const b ) { return { float( a.x.v >= b.x.v ), float( a.y.v >= b.y.v ) }; }
inline __half2 __hle2( __half2 const a, __half2 const b ) { return { float( a.x.v <= b.x.v ), float( a.y.v <= b.y.v ) }; }
inline __half2 __hlt2( __half2 const a, __half2 const b ) { return { float( a.x.v < b.x.v ), float( a.y.v < b.y.v ) }; }
inline __half2 __hmax2( __half2 const a, __half2 const b ) { return { __hmax( a.x, b.x ), __hmax( a.y, b.y ) }; }
inline __half2 __hmin2( __half2 const a, __half2 const b ) { return { __hmin( a.x, b.x ), __hmin( a.y, b.y ) }; }
struct float2 { float x, y; };
inline float2 __half22float2( __half2 const a ) { return { a.x.v, a.y.v }; }

#ifndef CUDART_VERSION
  #define CUDART_VERSION 11020
#endif
inline __half2 operator+( __half2 const a, __half2 const b ) { return { a.x.v + b.x.v, a.y.v + b.y.v }; }
inline __half2 operator-( __half2 const a, __half2 const b ) { return { a.x.v - b.x.v, a.y.v - b.y.v }; }
inline __half2 operator*( __half2 const a, __half2 const b ) { return { a.x.v * b.x.v, a.y.v * b.y.v }; }
inline __half2 operator/( __half2 const a, __half2 const b ) { return { a.x.v / b.x.v, a.y.v / b.y.v }; }
inline __half2 operator-( __half2 const a ) { return { -a.x.v, -a.y.v }; }
inline __half hsqrt( __half const a ) { return std::sqrt(a.v); }
inline __half2 h2sqrt( __half2 const a ) { return { hsqrt( a.x ), hsqrt( a.y ) }; }
inline __half hrsqrt( __half const a ) { return 1.0f / std::sqrt(a.v); }
inline __half2 h2rsqrt( __half2 const a ) { return { hrsqrt( a.x ), hrsqrt( a.y ) }; }
inline __half hsin( __half const a ) { return std::sin(a.v); }
inline __half2 h2sin( __half2 const a ) { return { hsin( a.x ), hsin( a.y ) }; }
inline __half hcos( __half const a ) { return std::cos(a.v); }
inline __half2 h2cos( __half2 const a ) { return { hcos( a.x ), hcos( a.y ) }; }
inline __half hexp( __half const a ) { return std::exp(a.v); }
inline __half2 h2exp( __half2 const a ) { return { hexp( a.x ), hexp( a.y ) }; }
inline __half hlog( __half const a ) { return std::log(a.v); }
inline __half2 h2log( __half2 const a ) { return { hlog( a.x ), hlog( a.y ) }; }
