// Host-only stand-in for chai::ArrayManager with two simulated memory spaces, CPU and GPU. It implements chai's
// documented protocol (allocate on first move, copy only if the previous space was touched, reset the touch of the
// other spaces after a copy) and keeps a log of allocations, frees and copies for the harness.
#pragma once
#include <umpire/Allocator.hpp>
#include <umpire/ResourceManager.hpp>
#include <vpmem.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace chai
{
enum ExecutionSpace { NONE = 0, CPU, GPU, NUM_EXECUTION_SPACES };
enum Action { ACTION_ALLOC, ACTION_FREE, ACTION_MOVE };

struct PointerRecord;
using UserCallback = std::function< void( PointerRecord const *, Action, ExecutionSpace ) >;

struct PointerRecord
{
  void * m_pointers[ NUM_EXECUTION_SPACES ] = {};
  std::size_t m_size = 0;
  ExecutionSpace m_last_space = NONE;
  bool m_touched[ NUM_EXECUTION_SPACES ] = {};
  bool m_owned[ NUM_EXECUTION_SPACES ] = { true, true, true };
  int m_allocators[ NUM_EXECUTION_SPACES ] = {};
  UserCallback m_user_callback;
  static long & count() { static long n = 0; return n; }
  PointerRecord() { ++count(); }
  PointerRecord( PointerRecord const & ) = delete;
  ~PointerRecord() { --count(); }
};

struct Log
{
  long allocs = 0, frees = 0, copies = 0, badFrees = 0, liveRecordsFreed = 0;
  std::map< void *, ExecutionSpace > live;
  std::map< void *, PointerRecord * > record;
  struct Copied { PointerRecord const * record; std::size_t bytes; ExecutionSpace to; };
  std::vector< Copied > moved;          // the copies, in order, until someone clears it
};

class ArrayManager
{
public:
  static ArrayManager * getInstance() { static ArrayManager * m = new ArrayManager; return m; }

  void setExecutionSpace( ExecutionSpace const s ) { m_space = s; }
  ExecutionSpace getExecutionSpace() const { return m_space; }
  int getAllocatorId( ExecutionSpace const s ) const { return int( s ); }
  umpire::Allocator getAllocator( ExecutionSpace const s ) const { return umpire::Allocator( int( s ) ); }

  void allocate( PointerRecord * const r, ExecutionSpace const s )
  {
    void * const p = std::malloc( r->m_size ? r->m_size : 1 );
    std::memset( p, 0xA5, r->m_size );
    r->m_pointers[ s ] = p;
    r->m_owned[ s ] = true;
    log.allocs++;
    log.live[ p ] = s;
    log.record[ p ] = r;
    if( r->m_size ) umpire::ResourceManager::getInstance().registerAllocation( p, r->m_size );
    vpmem::blocks().add( p, r->m_size, int( s ) );
    if( r->m_user_callback ) r->m_user_callback( r, ACTION_ALLOC, s );
  }

  void free( PointerRecord * const r )
  {
    if( r == nullptr ) return;
    for( int s = CPU; s < NUM_EXECUTION_SPACES; ++s )
    {
      if( r->m_pointers[ s ] != nullptr )
      {
        if( r->m_user_callback ) r->m_user_callback( r, ACTION_FREE, ExecutionSpace( s ) );
        if( log.live.erase( r->m_pointers[ s ] ) == 0 ) log.badFrees++;
        umpire::ResourceManager::getInstance().deregisterAllocation( r->m_pointers[ s ] );
        log.record.erase( r->m_pointers[ s ] );
        vpmem::blocks().drop( r->m_pointers[ s ] );
        log.frees++;
        std::free( r->m_pointers[ s ] );
        r->m_pointers[ s ] = nullptr;
      }
    }
    delete r;
  }

  void * move( void * const pointer, PointerRecord * const r, ExecutionSpace const s )
  {
    // As chai::ArrayManager::move.
    if( s == NONE ) return pointer;
    if( pointer != nullptr && r->m_last_space != NONE && pointer != r->m_pointers[ r->m_last_space ] )
    { pointerMismatch++; }
    if( s == r->m_last_space ) return r->m_pointers[ s ];
    ExecutionSpace const prev = r->m_last_space;
    if( r->m_pointers[ s ] == nullptr ) allocate( r, s );
    if( prev != NONE && r->m_touched[ prev ] )
    {
      { vpmem::Open open; std::memcpy( r->m_pointers[ s ], r->m_pointers[ prev ], r->m_size ); }
      log.copies++;
      log.moved.push_back( { r, r->m_size, s } );
      if( r->m_user_callback && callbacksEnabled ) r->m_user_callback( r, ACTION_MOVE, s );
      for( int i = CPU; i < NUM_EXECUTION_SPACES; ++i ) r->m_touched[ i ] = false;
    }
    return r->m_pointers[ s ];
  }

  void disableCallbacks() { callbacksEnabled = false; }
  void enableCallbacks() { callbacksEnabled = true; }

  Log log;
  long pointerMismatch = 0;
  bool callbacksEnabled = true;

private:
  ExecutionSpace m_space = NONE;
};
}
