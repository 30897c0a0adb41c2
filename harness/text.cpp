// Reading arrays from text and printing containers, recorded for spec/TextIO.tla.
#include <algorithm>
#include "vperr.hpp"
#include "nd.hpp"
#include "input.hpp"
#include "output.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "StackBuffer.hpp"
#include <cmath>
#include <iomanip>
#include <memory>
using namespace vp;
using namespace LvArray;
#if VP_PART == 0
using IDX = std::ptrdiff_t;
#else
using IDX = int;
#endif

static std::string decode( VL const & v ) { std::string s; for( long const c : v ) s += char( c ); return s; }
static std::string codes( std::string const & v ) { VL c; for( char const x : v ) c.push_back( long( static_cast< unsigned char >( x ) ) ); return J::list( c ); }

template< typename T > struct Kind;
template<> struct Kind< int > { static char const * name() { return "int"; } static int make( long const k ) { return int( k * 37 % 2003 - 900 ); } static std::string text( int const x ) { return std::to_string( x ); } };
template<> struct Kind< short > { static char const * name() { return "short"; } static short make( long const k ) { return short( k * 7919 % 65536 - 32768 ); } static std::string text( short const x ) { return std::to_string( x ); } };
template<> struct Kind< double > { static char const * name() { return "real"; } static double make( long const k ) { return double( k * 13 % 799 - 400 ) / 8; } static std::string text( double const x ) { return std::to_string( x > 2e6 || x < -2e6 ? 2000000000l : std::lround( x * 1000 ) ); } };
template<> struct Kind< std::string >
{
  static char const * name() { return "word"; }
  static std::string make( long const k ) { std::string s( "ab-" ); s.resize( std::size_t( 1 + k % 3 ) ); s += char( 'c' + k % 20 ); if( k % 7 == 0 ) s += " _[long enough to be allocated]"[ 1 ]; if( k % 11 == 0 ) s += std::string( 20, 'z' ); return s; }
  static std::string text( std::string const & x ) { return codes( x ); }
};

struct Subject
{
  virtual ~Subject() = default;
  virtual void begin() = 0;
  virtual void read( std::string const & text ) = 0;
  virtual void fill( VL const & dims, long seed ) = 0;
  virtual void drop( int how ) = 0;
  virtual std::string print( int how, Rng & r ) = 0;
  virtual VL dims() = 0;
  virtual int depth() const = 0;
};

template< typename V > static std::string show( V const & v, int const how )
{
  std::ostringstream s;
  if( how == 1 ) s << std::setprecision( 12 );
  s << v;
  return s.str();
}

template< typename T, typename PERM, template< typename > class BUFFER > struct Of : Subject
{
  static constexpr int N = int( typeManipulation::getDimension( PERM {} ) );
  using A = Array< T, N, PERM, IDX, BUFFER >;
  A a;
  int depth() const override { return N; }
  VL dims() override { return some( a.dims(), N ); }
  std::string what()
  {
    std::string v = "[";
    bool first = true;
    allIndices( dims(), [&]( VL const & x ) { v += ( first ? "" : "," ) + Kind< T >::text( call< IDX, N >( a, x ) ); first = false; } );
    return v + "]";
  }
  void begin() override { J( "begin" ).kv( "kind", Kind< T >::name() ).kv( "depth", N ).emit(); }
  void read( std::string const & text ) override
  {
    current() = "read [" + text + "] into " + Kind< T >::name() + " " + std::to_string( N );
    bool reported = true;
    // an exception of the library is no report: it ends in terminate
    try { reported = attempt( [&]() { input::stringToArray( a, text ); } ); }
    catch( std::exception const & e ) { crashEvent( ( "exception " + std::string( e.what() ) ).c_str() ); exit( 0 ); }
    J j( "read" );
    j.codes( "text", text ).kv( "reported", long( reported ) );
    if( !reported ) j.kv( "dims", dims() ).raw( "vals", what() );
    j.emit();
  }
  void fill( VL const & d, long const seed ) override
  {
    resizeAll< IDX, N >( a, d );
    long k = seed;
    allIndices( d, [&]( VL const & x ) { call< IDX, N >( a, x ) = Kind< T >::make( k++ ); } );
    J( "fill" ).kv( "dims", dims() ).raw( "vals", what() ).emit();
  }
  void drop( int const how ) override
  {
    if( how == 0 ) a.clear(); else a = A();
    J( "fill" ).kv( "dims", dims() ).raw( "vals", what() ).emit();
  }
  template< int M, int FROM, typename S > static std::string part( S const & s, VL const & at, int const how, std::integral_constant< int, M >, std::integral_constant< int, FROM > )
  {
    if( FROM == int( at.size() ) ) return show( s, how );
    return next< M, FROM >( s, at, how, std::integral_constant< bool, ( M > 1 ) >() );
  }
  template< int M, int FROM, typename S > static std::string next( S const & s, VL const & at, int const how, std::true_type )
  { return part( s[ IDX( at[ FROM ] ) ], at, how, std::integral_constant< int, M - 1 >(), std::integral_constant< int, FROM + 1 >() ); }
  template< int M, int FROM, typename S > static std::string next( S const & s, VL const &, int const how, std::false_type ) { return show( s, how ); }
  std::string print( int const how, Rng & r ) override
  {
    VL at;
    std::string t;
    current() = "print";
    if( how == 0 ) t = show( a, 0 );
    else if( how == 1 ) t = show( a.toView(), 1 );
    else if( how == 2 ) t = show( a.toViewConst(), 0 );
    else if( how == 3 ) t = show( a.toSlice(), 1 );
    else if( how == 4 ) t = show( a.toSliceConst(), 1 );
    else
    {
      VL const d = dims();
      long const depth = r.below( N );
      for( long k = 0; k < depth && d[ k ] > 0; ++k ) at.push_back( r.below( d[ k ] ) );
      t = part( a.toSliceConst(), at, 0, std::integral_constant< int, N >(), std::integral_constant< int, 0 >() );
    }
    J( "print" ).kv( "at", at ).codes( "text", t ).emit();
    return t;
  }
};
template< typename T > using Small = StackBuffer< T, 2048 >;

static std::vector< std::unique_ptr< Subject > > & subjects()
{
  static std::vector< std::unique_ptr< Subject > > * s = nullptr;
  if( s ) return *s;
  s = new std::vector< std::unique_ptr< Subject > >;
#define ADD( ... ) s->emplace_back( new Of< __VA_ARGS__ > )
#if VP_PART == 0
  ADD( int, RAJA::PERM_I, MallocBuffer ); ADD( std::string, RAJA::PERM_I, MallocBuffer ); ADD( double, RAJA::PERM_I, MallocBuffer );
  ADD( int, RAJA::PERM_IJ, MallocBuffer ); ADD( int, RAJA::PERM_JI, MallocBuffer ); ADD( double, RAJA::PERM_JI, MallocBuffer ); ADD( std::string, RAJA::PERM_JI, MallocBuffer );
  ADD( int, RAJA::PERM_IJK, MallocBuffer ); ADD( int, RAJA::PERM_KJI, MallocBuffer ); ADD( int, RAJA::PERM_JKI, MallocBuffer ); ADD( std::string, RAJA::PERM_IKJ, MallocBuffer );
  ADD( int, RAJA::PERM_IJKL, MallocBuffer ); ADD( double, RAJA::PERM_LKJI, MallocBuffer );
#else
  ADD( short, RAJA::PERM_I, MallocBuffer ); ADD( int, RAJA::PERM_I, Small ); ADD( std::string, RAJA::PERM_I, MallocBuffer );
  ADD( short, RAJA::PERM_IJ, MallocBuffer ); ADD( std::string, RAJA::PERM_IJ, MallocBuffer ); ADD( double, RAJA::PERM_JI, Small ); ADD( int, RAJA::PERM_IJ, MallocBuffer );
  ADD( double, RAJA::PERM_JIK, MallocBuffer ); ADD( int, RAJA::PERM_IKJ, MallocBuffer ); ADD( int, RAJA::PERM_KIJ, MallocBuffer ); ADD( short, RAJA::PERM_JIK, MallocBuffer );
  ADD( int, RAJA::PERM_KILJ, MallocBuffer ); ADD( std::string, RAJA::PERM_JLIK, MallocBuffer ); ADD( short, RAJA::PERM_IJKL, MallocBuffer );
#endif
  return *s;
}
static Subject & pick( int const depth, long const k )
{
  std::vector< Subject * > c;
  for( auto & s : subjects() ) if( s->depth() == depth ) c.push_back( s.get() );
  return *c[ std::size_t( k ) % c.size() ];
}
static int opens( std::string const & t )
{
  int n = 0;
  for( char const c : t ) if( c == '{' ) ++n; else if( c != ' ' ) break;
  return n < 1 ? 1 : n > 4 ? 4 : n;
}

// ---------------------------------------------------------------------------------------------------- other containers
template< typename P > static VVL rowsOf( P const & p )
{
  VVL r;
  for( IDX i = 0; i < p.numRows(); ++i ) { VL v; for( auto const c : p.getColumns( i ) ) v.push_back( long( c ) ); r.push_back( v ); }
  return r;
}
static std::string captured( std::function< void() > const & f )
{
  fflush( stdout ); std::cout.flush();
  FILE * const tmp = tmpfile();
  int const saved = dup( 1 );
  dup2( fileno( tmp ), 1 );
  f();
  fflush( stdout ); std::cout.flush();
  dup2( saved, 1 );
  close( saved );
  std::string s;
  rewind( tmp );
  for( int c; ( c = fgetc( tmp ) ) != EOF; ) s += char( c );
  fclose( tmp );
  return s;
}
static void others( Rng & r )
{
  {
    SortedArray< long, IDX, MallocBuffer > s;
    for( long k = r.below( 6 ); k > 0; --k ) s.insert( r.range( -50, 150 ) );
    VL v( s.begin(), s.end() );
    J( "set" ).kv( "vals", v ).codes( "text", r.chance( 50 ) ? show( s, 0 ) : show( s.toViewConst(), 0 ) ).emit();
  }
  {
    ArrayOfArrays< int, IDX, MallocBuffer > a;
    long const n = r.below( 5 );
    VVL rows;
    for( long i = 0; i < n; ++i )
    {
      a.appendArray( 0 );
      rows.push_back( VL() );
      for( long k = r.below( 4 ); k > 0; --k ) { long const x = r.range( -200, 200 ); a.emplaceBack( IDX( i ), int( x ) ); rows.back().push_back( x ); }
    }
    J( "rows" ).kv( "rows", rows ).codes( "text", r.chance( 50 ) ? show( a, 0 ) : show( a.toViewConst(), 0 ) ).emit();
  }
  {
    CRSMatrix< double, int, IDX, MallocBuffer > m( IDX( r.below( 5 ) ), 40, IDX( r.below( 4 ) ) );
    for( IDX i = 0; i < m.numRows(); ++i ) for( long k = r.below( 5 ); k > 0; --k ) m.insertNonZero( i, int( r.below( 40 ) ), double( r.below( 90 ) ) );
    VVL es;
    VL offsets;
    auto const v = m.toViewConst();
    for( IDX i = 0; i < m.numRows(); ++i ) { VL e; for( IDX k = 0; k < m.numNonZeros( i ); ++k ) e.push_back( long( v.getEntries( i )[ k ] ) ); es.push_back( e ); }
    for( IDX i = 0; i <= m.numRows(); ++i ) offsets.push_back( long( v.getOffsets()[ i ] ) );
    J( "matrix" ).kv( "rows", rowsOf( v ) ).kv( "entries", es ).codes( "text", show( v, 0 ) ).emit();
    std::string const t = captured( [&]() { print< RAJA::loop_exec >( v ); } );
    J( "table" ).kv( "rows", rowsOf( v ) ).kv( "entries", es ).kv( "offsets", offsets ).codes( "text", t ).emit();
  }
  {
    int const one[ 3 ] = { int( r.range( -99, 99 ) ), int( r.range( -99, 99 ) ), int( r.range( -99, 99 ) ) };
    long const single[ 1 ] = { r.range( -99, 99 ) };
    int two[ 3 ][ 2 ];
    VL flat;
    for( auto & row : two ) for( int & x : row ) { x = int( r.range( -99, 99 ) ); flat.push_back( x ); }
    std::ostringstream s, t, u;
    LvArray::operator<<( s, one );
    LvArray::operator<<( t, single );
    LvArray::operator<<( u, two );
    J( "c1" ).kv( "vals", VL( one, one + 3 ) ).codes( "text", s.str() ).emit();
    J( "c1" ).kv( "vals", VL( single, single + 1 ) ).codes( "text", t.str() ).emit();
    J( "c2" ).kv( "dims", VL{ 3, 2 } ).kv( "vals", flat ).codes( "text", u.str() ).emit();
  }
}
static VL randomDims( int const depth, Rng & r, bool const empty )
{
  VL d;
  for( int k = 0; k < depth; ++k ) d.push_back( r.range( 1, depth > 3 ? 2 : depth > 1 ? 3 : 7 ) );
  if( empty ) d[ std::size_t( r.below( depth ) ) ] = 0;
  return d;
}
static std::string mangled( std::string s, Rng & r )
{
  static char const set[] = "{}{},, 7-x.";
  for( long k = r.below( 3 ); k >= 0 && !s.empty(); --k )
  {
    std::size_t const p = std::size_t( r.below( long( s.size() ) ) ), q = std::size_t( r.below( long( s.size() ) ) );
    char const c = set[ r.below( 11 ) ];
    switch( r.below( 6 ) )
    {
      case 0: s.insert( p, 1, c ); break;
      case 1: s.erase( p, 1 ); break;
      case 2: s[ p ] = c; break;
      case 3: std::swap( s[ p ], s[ q ] ); break;
      case 4: s.insert( q, s.substr( p, std::size_t( r.range( 1, 6 ) ) ) ); break;
      default: s.erase( p, std::size_t( r.range( 1, 6 ) ) ); break;
    }
  }
  return s;
}
int main( int argc, char ** argv )
{
  Args const args( argc, argv );
  installErrorHandler();
  long path = args.seed;
  if( !args.script.empty() )
  {
    // the texts of the specification: into an array of as many dimensions as the text begins with, sometimes others
    std::vector< std::string > texts;
    for( auto const & e : readScripts( args.script.c_str() ) ) texts.push_back( decode( e[ 0 ].v( "text" ) ) );
    std::map< Subject *, std::vector< std::string > > todo;
    for( auto const & t : texts )
    {
      int const d = opens( t );
      todo[ &pick( d, path ) ].push_back( t );
      if( path % 8 == 0 ) todo[ &pick( 1 + int( path / 8 % 4 ), path / 32 ) ].push_back( t );
      ++path;
    }
    for( auto & e : todo )
    {
      long k = 0;
      for( auto const & t : e.second ) { if( k++ % 100 == 0 ) e.first->begin(); e.first->read( t ); }
    }
  }
  else
  {
    Rng r( std::uint64_t( args.seed ) * 2 + VP_PART );
    for( long k = 0; k < args.n; ++k )
    {
      Subject & s = *subjects()[ std::size_t( r.below( long( subjects().size() ) ) ) ];
      s.begin();
      for( long m = 0; m < args.len; ++m )
      {
        long const what = r.below( 10 );
        if( what < 6 ) s.fill( randomDims( s.depth(), r, r.chance( 15 ) ), r.below( 5000 ) ); else s.drop( int( what % 2 ) );
        std::string const t = s.print( int( r.below( 7 ) ), r );
        s.print( int( r.below( 7 ) ), r );
        if( what < 8 ) { std::string const whole = s.print( int( r.below( 5 ) ), r ); if( r.chance( 50 ) ) s.drop( int( what % 2 ) ); s.read( whole ); }
        if( what == 9 ) s.read( t );
        if( what % 2 ) s.read( mangled( t, r ) );
        s.fill( randomDims( s.depth(), r, false ), r.below( 5000 ) );
      }
      s.begin();
      for( long m = 0; m < 3; ++m ) others( r );
    }
  }
  return finish();
}
