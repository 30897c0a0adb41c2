// Conformance driver for C22: the debugger display buffer.
#include "vp.hpp"
#include "totalview/tv_data_display.h"
using namespace vp;
extern "C"
{
extern char TV_ttf_data_format_buffer[ 16384 ];
void TV_ttf_pre_display_callback( void );
void TV_ttf_post_display_callback( void );
}
static constexpr std::size_t CAP = 16384;
static std::string text()
{
  void const * const z = memchr( TV_ttf_data_format_buffer, 0, CAP );
  return std::string( TV_ttf_data_format_buffer, z ? std::size_t( static_cast< char const * >( z ) - TV_ttf_data_format_buffer ) : CAP );
}
static int mode = 0;   // what the driver itself did: 0 inactive, 1 just opened, 2 rows added

static void observe( J & j, std::string const & before, bool const fresh )
{
  std::string const after = text();
  std::size_t const keep = fresh ? 0 : before.size();
  bool const pre = after.size() >= keep && after.compare( 0, keep, before, 0, keep ) == 0;
  j.kv( "len", after.size() ).kv( "pre", pre ).codes( "tail", pre ? after.substr( keep ) : after ).emit();
}
static void row( std::string const & name, std::string const & type, std::uint64_t const addr )
{
  std::string const before = text();
  current() = "row name " + std::to_string( name.size() ) + " type " + std::to_string( type.size() ) + " addr " + std::to_string( addr );
  int const r = TV_ttf_add_row( name.c_str(), type.c_str(), reinterpret_cast< void const * >( addr ) );
  bool const fresh = mode == 1 && ( r == 0 || r == 3 );
  J j( "row" );
  j.codes( "name", name ).codes( "type", type ).kv( "addr", limbs( addr ) ).kv( "r", r );
  observe( j, before, fresh );
  if( fresh ) mode = 2;
}
static void pre()
{
  std::string const before = text();
  TV_ttf_pre_display_callback(); mode = 1;
  J j( "pre" ); observe( j, before, false );
}
static void post()
{
  std::string const before = text();
  TV_ttf_post_display_callback(); mode = 0;
  J j( "post" ); observe( j, before, false );
}
static std::string word( Rng & rng, long const n, bool const bad )
{
  std::string s;
  for( long i = 0; i < n; ++i ) s += char( rng.range( 33, 126 ) );
  if( n > 0 && rng.chance( 10 ) ) s[ std::size_t( rng.below( n ) ) ] = char( rng.chance( 50 ) ? 32 : 200 );
  if( bad )
  {
    if( n == 0 ) s = "\n";
    else s[ std::size_t( rng.chance( 30 ) ? 0 : rng.chance( 50 ) ? n - 1 : rng.below( n ) ) ] = rng.chance( 50 ) ? '\t' : '\n';
  }
  return s;
}
static std::uint64_t address( Rng & rng )
{
  switch( rng.below( 6 ) )
  {
    case 0: return rng.next() >> rng.below( 64 );
    case 1: return ( std::uint64_t( 1 ) << rng.below( 64 ) ) + std::uint64_t( rng.range( -1, 1 ) );
    case 2: return 0x7f0000000000ull + ( rng.next() & 0xffffffffull );
    case 3: return std::uint64_t( rng.below( 40 ) );
    case 4: return ( std::uint64_t( rng.below( 1000 ) ) << 32 ) + std::uint64_t( rng.below( 40 ) );
    default: return reinterpret_cast< std::uint64_t >( &rng );
  }
}
static void begin()
{
  TV_ttf_post_display_callback(); mode = 0;
  J( "begin" ).kv( "len", text().size() ).emit();
}
int main( int argc, char ** argv )
{
  Args args( argc, argv );
  Rng rng( args.seed );
  if( !args.script.empty() )
  {
    for( auto const & ep : readScripts( args.script.c_str() ) )
    {
      begin();
      for( Op const & o : ep )
      {
        if( o.name == "pre" ) pre();
        else if( o.name == "post" ) post();
        else row( word( rng, o.i( "n" ), o.i( "bad" ) != 0 ), "int", 0x1234 );
      }
    }
    return finish();
  }
  for( long e = 0; e < args.n; ++e )
  {
    begin();
    for( int v = 0; v < 5; ++v ) J( "okcode" ).kv( "v", v ).kv( "r", TV_ttf_is_format_result_ok( TV_ttf_format_result( v ) ) ).emit();
    long const style = rng.below( 4 );
    for( long k = 0; k < args.len; ++k )
    {
      long const what = rng.below( 100 );
      if( what < ( style == 3 ? 2 : 8 ) ) pre();
      else if( what < ( style == 3 ? 3 : 12 ) ) post();
      else
      {
        bool const bad = rng.chance( 12 );
        long const nn = style == 0 ? rng.below( 12 ) : style == 1 ? rng.below( 400 ) : style == 2 ? rng.below( 3 ) * rng.below( 9000 ) : 200 + rng.below( 600 );
        long const nt = rng.chance( 80 ) ? rng.below( 20 ) : rng.below( 1200 );
        bool const inType = rng.chance( 50 );
        // aim at the end of the buffer now and then
        long const room = long( CAP ) - long( text().size() );
        std::uint64_t const a = address( rng );
        if( rng.chance( style == 0 ? 0 : 20 ) )
        {
          char hex[ 32 ];
          snprintf( hex, sizeof( hex ), "0x%llx", static_cast< unsigned long long >( a ) );
          long const fixed = 3 + long( strlen( hex ) ) + nt;
          long const want = room - 1 - fixed + rng.range( -2, 2 );
          if( want >= 0 ) { row( word( rng, want, false ), word( rng, nt, false ), a ); continue; }
        }
        row( word( rng, nn, bad && !inType ), word( rng, nt, bad && inType ), a );
      }
    }
  }
  return finish();
}
