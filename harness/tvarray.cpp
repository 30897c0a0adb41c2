// Conformance driver for C22 and C27: the rows an Array, an ArrayView or an ArraySlice adds to the debugger's display.
#include "vp.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#include "totalview/tv_data_display.h"
#include <cxxabi.h>
using namespace vp;
using namespace LvArray;
extern "C"
{
extern char TV_ttf_data_format_buffer[ 16384 ];
void TV_ttf_pre_display_callback( void );
void TV_ttf_post_display_callback( void );
}
static std::string plainName( char const * const mangled )
{
  int status = 0;
  char * const p = abi::__cxa_demangle( mangled, nullptr, nullptr, &status );
  std::string const s = status == 0 ? p : mangled;
  std::free( p );
  return s;
}
static std::string list( VL const & v ) { return J::list( v ); }
static std::string list( std::string const & s )
{
  VL c;
  for( char const x : s ) c.push_back( long( static_cast< unsigned char >( x ) ) );
  return J::list( c );
}
static std::uint64_t at( void const * const p ) { return reinterpret_cast< std::uint64_t >( p ); }

// Displays the object and splits the text into rows.
template< typename OBJ >
std::string rowsOf( OBJ const & obj, bool const active )
{
  memset( TV_ttf_data_format_buffer, 0, sizeof( TV_ttf_data_format_buffer ) );
  if( active ) TV_ttf_pre_display_callback();
  OBJ::TV_ttf_display_type( &obj );
  TV_ttf_post_display_callback();
  std::string const text( TV_ttf_data_format_buffer );
  std::string out = "[";
  for( std::size_t i = 0; i < text.size(); )
  {
    std::size_t const e = std::min( text.find( '\n', i ), text.size() );
    std::string const line = text.substr( i, e - i );
    i = e + 1;
    std::size_t const a = std::min( line.find( '\t' ), line.size() ), b = std::min( line.find( '\t', a + 1 ), line.size() );
    std::string const name = line.substr( 0, a ), type = a < line.size() ? line.substr( a + 1, b - a - 1 ) : "";
    std::uint64_t const addr = b < line.size() ? std::strtoull( line.c_str() + b + 1, nullptr, 16 ) : 0;
    bool const inside = addr >= at( &obj ) && addr + sizeof( int ) <= at( &obj + 1 );
    out += ( out.size() > 1 ? ",{" : "{" );
    out += "\"name\":" + list( name ) + ",\"type\":" + list( type ) + ",\"addr\":" + list( limbs( addr ) ) + ",\"inside\":" + ( inside ? "true" : "false" );
    out += ",\"v\":" + std::to_string( inside && addr % sizeof( int ) == 0 ? *reinterpret_cast< int const * >( addr ) : -1 ) + "}";
  }
  return out + "]";
}
template< typename T, typename I, typename OBJ >
void show( char const * const kind, OBJ const & obj, bool const active, VL const & dims, void const * const dimsAt, void const * const stridesAt, void const * const dataAt,
           void const * const bufferAt, std::string const & buffer, int const index )
{
  current() = std::string( "show " ) + kind;
  J j( "show" );
  j.kv( "kind", kind ).kv( "active", active ).codes( "name", typeid( T ).name() ).codes( "iname", typeid( I ).name() ).kv( "dims", dims ).kv( "dimsAt", limbs( at( dimsAt ) ) )
  .kv( "stridesAt", limbs( at( stridesAt ) ) ).kv( "dataAt", limbs( at( dataAt ) ) ).kv( "bufferAt", limbs( at( bufferAt ) ) ).codes( "buffer", buffer ).kv( "index", index );
  j.raw( "rows", rowsOf( obj, active ) ).emit();
}
template< typename T, typename I, typename SLICE >
void slice( SLICE const & s, VL const & dims, I const * const dimsAt, I const * const stridesAt, T const * const dataAt, bool const active )
{ show< T, I >( "slice", s, active, dims, dimsAt, stridesAt, dataAt, nullptr, "", -1 ); }

template< int N, typename T, typename PERM, typename I >
void array( Rng & rng )
{
  using A = Array< T, N, PERM, I, MallocBuffer >;
  A a;
  I d[ N ];
  VL dims;
  for( int i = 0; i < N; ++i )
  {
    d[ i ] = I( rng.chance( 15 ) ? 0 : rng.chance( 10 ) ? 10 + rng.below( 90 ) : 1 + rng.below( 5 ) );
    dims.push_back( long( d[ i ] ) );
  }
  a.resize( N, d );
  int const index = int( rng.below( N ) );
  a.setSingleParameterResizeIndex( index );
  bool const active = !rng.chance( 10 );
  std::string const buffer = plainName( typeid( MallocBuffer< T > ).name() );
  show< T, I >( "array", a, active, dims, a.dims(), a.strides(), a.data(), &a.dataBuffer(), buffer, index );
  auto const v = a.toView();
  show< T, I >( "array", v, active, dims, v.dims(), v.strides(), v.data(), &v.dataBuffer(), buffer, index );
  auto const c = a.toViewConst();
  show< T const, I >( "array", c, active, dims, c.dims(), c.strides(), c.data(), &c.dataBuffer(), plainName( typeid( MallocBuffer< T const > ).name() ), index );
#if defined( LVARRAY_BOUNDS_CHECK )
  slice< T, I >( a.toSlice(), dims, a.dims(), a.strides(), a.data(), active );
  slice< T const, I >( v.toSliceConst(), dims, v.dims(), v.strides(), v.data(), active );
#endif
}
template< typename T, typename PERM, typename I >
void below( Rng & rng )
{
  array< 2, T, PERM, I >( rng );
#if defined( LVARRAY_BOUNDS_CHECK )
  Array< T, 2, PERM, I, MallocBuffer > a( 2 + rng.below( 4 ), 2 + rng.below( 4 ) );
  I const i = I( rng.below( a.size( 0 ) ) );
  slice< T, I >( a[ i ], VL{ long( a.size( 1 ) ) }, a.dims() + 1, a.strides() + 1, &a( i, 0 ), true );
#endif
}
int main( int argc, char ** argv )
{
  Args args( argc, argv );
  Rng rng( args.seed );
  for( long e = 0; e < args.n; ++e )
  {
    J( "begin" ).emit();
    array< 1, int, camp::idx_seq< 0 >, int >( rng );
    below< double, camp::idx_seq< 0, 1 >, std::ptrdiff_t >( rng );
    below< char, camp::idx_seq< 1, 0 >, int >( rng );
    array< 3, float, camp::idx_seq< 2, 0, 1 >, long long >( rng );
    array< 4, unsigned long, camp::idx_seq< 3, 1, 0, 2 >, int >( rng );
  }
  return finish();
}
