// Minimal stand-in for umpire::ResourceManager: a registry of address ranges ("allocations") and byte copies.
// A copy out of or past a registered allocation is counted, and the sizes of the copies are recorded.
#pragma once
#include "Allocator.hpp"
#include <camp/resource.hpp>
#include <vpmem.hpp>
#include <cstring>
#include <map>
namespace umpire
{
class ResourceManager
{
public:
  static ResourceManager & getInstance()
  {
    static std::aligned_storage< sizeof( long ) * 32, alignof( std::max_align_t ) >::type room;
    static_assert( sizeof( ResourceManager ) <= sizeof( room ), "" );
    static ResourceManager * rm = new ( &room ) ResourceManager;
    return *rm;
  }

  Allocator getAllocator( int const id ) const { return Allocator( id ); }
  void registerAllocation( void * const p, std::size_t const n ) { m_live[ static_cast< char * >( p ) ] = n; }
  void deregisterAllocation( void * const p ) { m_live.erase( static_cast< char * >( p ) ); }
  std::size_t room( void * const p ) const
  {
    char * const c = static_cast< char * >( p );
    auto it = m_live.upper_bound( c );
    if( it == m_live.begin() ) return 0;
    --it;
    return c < it->first + it->second ? std::size_t( it->first + it->second - c ) : 0;
  }
  bool hasAllocator( void * const p ) const { return room( p ) != 0; }

  void copy( void * const dst, void * const src, std::size_t size = 0 )
  {
    if( size == 0 ) size = room( src );   // as umpire: zero means the rest of the source allocation
    if( size > room( src ) || size > room( dst ) ) { badCopies++; return; }
    copies++;
    lastSize = size;
    vpmem::Open open;
    std::memcpy( dst, src, size );
  }
  camp::resources::Event copy( void * const dst, void * const src, camp::resources::Resource & r, std::size_t const size = 0 )
  {
    asyncCopies++;
    copy( dst, src, size );
    return r.get_event();
  }
  void memset( void * const dst, int const value, std::size_t size = 0 )
  {
    if( size == 0 ) size = room( dst );
    if( size > room( dst ) ) { badCopies++; return; }
    sets++;
    vpmem::Open open;
    std::memset( dst, value, size );
  }
  long copies = 0, asyncCopies = 0, sets = 0, badCopies = 0;
  std::size_t lastSize = 0;
private:
  std::map< char *, std::size_t > m_live;
};
}
