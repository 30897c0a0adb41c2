// What the drivers of all row containers share: the events of spec/RowsTraceIO.tla.
#pragma once
#include "vp.hpp"
#include "vperr.hpp"
#include "elem.hpp"
#include "MallocBuffer.hpp"
#include <RAJA/RAJA.hpp>
#include <list>
#include <memory>
namespace vp
{
using VVVL = std::vector< VVL >;
inline std::string list( VVL const & v )
{ std::string s = "["; for( std::size_t i = 0; i < v.size(); ++i ) s += ( i ? "," : "" ) + J::list( v[ i ] ); return s + "]"; }
inline std::string list( VVVL const & v )
{ std::string s = "["; for( std::size_t i = 0; i < v.size(); ++i ) s += ( i ? "," : "" ) + list( v[ i ] ); return s + "]"; }

// With LEAD, row 0 of every object is one that the specification does not know of: it stays empty and has room for LEAD
// elements, so that all others are far away from the beginning of the storage.
inline long hidden() { return LEAD > 0 ? 1 : 0; }

struct Addresses
{
  std::map< void const *, long > ids;
  long id( void const * const p )
  { if( p == nullptr ) return 0; auto const it = ids.find( p ); if( it != ids.end() ) return it->second; long const k = long( ids.size() ) + 1; ids[ p ] = k; return k; }
};

// One object: its rows, their lengths, capacities and storage. OBS knows the container: nrows, rowSize, rowCap, row( x, i ),
// rowStart (relative to the beginning of the storage), valueCap, cap, base.
template< typename OBS, typename X >
void observeRows( J & j, OBS & obs, std::vector< X const * > const & objs, std::vector< bool > const & ok, Addresses & ids )
{
  VVVL rows;
  VVL sizes, caps, mem;
  VL ns;
  for( std::size_t o = 0; o < objs.size(); ++o )
  {
    X const & x = *objs[ o ];
    long const n = obs.nrows( x );
    ns.push_back( n );
    rows.emplace_back(); sizes.emplace_back(); caps.emplace_back(); mem.push_back( { 0, 0, 0 } );
    if( !ok[ o ] || n < 0 || n > 10000 ) continue;
    mem.back() = { obs.valueCap( x ), obs.cap( x ), ids.id( obs.base( x ) ) };
    for( long i = 0; i < n; ++i )
    {
      long const m = obs.rowSize( x, i );
      sizes.back().push_back( m );
      caps.back().push_back( obs.rowCap( x, i ) );
      mem.back().push_back( obs.rowStart( x, i ) );
      rows.back().push_back( m < 0 || m > 100000 ? VL{ -9 } : obs.row( x, i ) );
    }
  }
  j.raw( "rows", list( rows ) ).kv( "sizes", sizes ).kv( "caps", caps ).kv( "mem", mem ).kv( "ns", ns );
}
// Copies of the operation's arguments for the event.
inline void describe( J & j, Op const & op )
{ for( auto const & kv : op.args ) if( kv.first.substr( 0, 4 ) == "vals" ) j.kv( kv.first.c_str(), kv.second ); else j.kv( kv.first.c_str(), kv.second.empty() ? 0 : kv.second[ 0 ] ); }
} // namespace vp
