// The Python wrappers of src/python inside an embedded interpreter. This file provides the C++ side as the module
// "vp": containers that can be created, changed and looked at without going through the wrappers, Python functions
// called through PythonFunction, and PyObjectRef slots. The histories themselves are driven by pymirror.py.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "python/python.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include <cstdlib>
#include <cstdio>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <vector>

using namespace LvArray;
extern "C" PyObject * PyInit_pylvarray( void );

static long g_news = 0;
void * operator new( std::size_t n ) { ++g_news; void * p = std::malloc( n ? n : 1 ); if( !p ) throw std::bad_alloc(); return p; }
void operator delete( void * p ) noexcept { if( p ) --g_news; std::free( p ); }
void operator delete( void * p, std::size_t ) noexcept { if( p ) --g_news; std::free( p ); }
void * operator new[]( std::size_t n ) { return operator new( n ); }
void operator delete[]( void * p ) noexcept { operator delete( p ); }
void operator delete[]( void * p, std::size_t ) noexcept { operator delete( p ); }

using Ix = std::ptrdiff_t;
using Args = std::vector< long >;

static PyObject * num( long v ) { return PyLong_FromLong( v ); }
template< typename F > PyObject * listOf( long n, F && f )
{
  PyObject * l = PyList_New( n );
  for( long i = 0; i < n; ++i ) PyList_SET_ITEM( l, i, f( i ) );
  return l;
}

struct Obj
{
  virtual ~Obj() = default;
  virtual PyObject * wrap() = 0;
  virtual PyObject * state() = 0;
  virtual bool native( std::string const & op, Args const & a ) = 0;
  virtual bool nativeText( std::string const & ) { return false; }
  virtual PyObject * call( PyObject * f ) = 0;
  virtual std::string type() = 0;
};

template< typename C > void callWith( PyObject * f, C & c )
{
  python::PythonFunction< C & > fn( f );
  python::PythonFunction< C & > copied( fn );
  { python::PythonFunction< C & > moved( std::move( fn ) ); moved( c ); }
  LVARRAY_UNUSED_VARIABLE( copied );
}
template< typename C > struct Base : Obj
{
  C c;
  PyObject * wrap() override { return python::create( c ); }
  std::string type() override { return system::demangleType< C >(); }
  PyObject * call( PyObject * f ) override
  {
    try { callWith( f, c ); }
    catch( python::PythonError const & ) { return nullptr; }
    Py_RETURN_NONE;
  }
};

template< typename T, int N, typename P, typename I > struct ArrayObj : Base< Array< T, N, P, I, MallocBuffer > >
{
  using B = Base< Array< T, N, P, I, MallocBuffer > >;
  using B::c;
  T & at( Args const & a, int k )
  {
    Ix o = 0;
    for( int d = 0; d < N; ++d ) o += Ix( a[ k + d ] ) * Ix( c.strides()[ d ] );
    return c.data()[ o ];
  }
  PyObject * state() override
  {
    Args ix( N, 0 );
    PyObject * dims = listOf( N, [&]( long d ) { return num( long( c.dims()[ d ] ) ); } );
    PyObject * vals = listOf( long( c.size() ), [&]( long k )
    {
      long r = k;
      for( int d = N - 1; d >= 0; --d ) { ix[ d ] = r % long( c.dims()[ d ] ); r /= long( c.dims()[ d ] ); }
      return num( long( at( ix, 0 ) ) );
    } );
    return Py_BuildValue( "{s:N,s:N,s:i}", "dims", dims, "vals", vals, "ri", int( c.getSingleParameterResizeIndex() ) );
  }
  template< int M = N > std::enable_if_t< M == 1 > push( long v ) { c.emplace_back( T( v ) ); }
  template< int M = N > std::enable_if_t< M != 1 > push( long ) { std::abort(); }
  bool native( std::string const & op, Args const & a ) override
  {
    if( op == "set" ) at( a, 0 ) = T( a[ N ] );
    else if( op == "resize" ) c.resize( I( a[ 0 ] ) );
    else if( op == "push" ) push( a[ 0 ] );
    else if( op == "shape" )
    {
      I d[ N ];
      for( int k = 0; k < N; ++k ) d[ k ] = I( a[ k ] );
      c.resize( N, d );
      T * p = c.data();
      for( Ix k = 0; k < Ix( c.size() ); ++k ) p[ k ] = T( 0 );
    }
    else return false;
    return true;
  }
};

struct StringsObj : Base< Array< std::string, 1, camp::idx_seq< 0 >, Ix, MallocBuffer > >
{
  PyObject * state() override
  { return listOf( c.size(), [&]( long i ) { return PyBytes_FromStringAndSize( c[ i ].data(), c[ i ].size() ); } ); }
  bool native( std::string const & op, Args const & a ) override
  {
    if( op != "resize" ) return false;
    c.resize( a[ 0 ] );
    return true;
  }
  bool nativeText( std::string const & s ) override { c.emplace_back( s ); return true; }
};

template< typename T > struct SortedObj : Base< SortedArray< T, Ix, MallocBuffer > >
{
  using Base< SortedArray< T, Ix, MallocBuffer > >::c;
  PyObject * state() override { return listOf( c.size(), [&]( long i ) { return num( long( c[ i ] ) ); } ); }
  bool native( std::string const & op, Args const & a ) override
  {
    if( op == "insert" ) c.insert( T( a[ 0 ] ) );
    else if( op == "remove" ) c.remove( T( a[ 0 ] ) );
    else if( op == "clear" ) c.clear();
    else return false;
    return true;
  }
};

template< typename C > PyObject * rowsState( C & c )
{
  return listOf( c.size(), [&]( long i )
  { return listOf( long( c[ i ].size() ), [&]( long j ) { return num( long( c[ i ][ j ] ) ); } ); } );
}
template< typename T, typename I > struct RowsObj : Base< ArrayOfArrays< T, I, MallocBuffer > >
{
  using Base< ArrayOfArrays< T, I, MallocBuffer > >::c;
  PyObject * state() override { return rowsState( c ); }
  bool native( std::string const & op, Args const & a ) override
  {
    if( op == "append" ) { std::vector< T > v( a.begin(), a.end() ); c.appendArray( v.begin(), v.end() ); }
    else if( op == "push" ) c.emplaceBack( I( a[ 0 ] ), T( a[ 1 ] ) );
    else if( op == "set" ) c( I( a[ 0 ] ), I( a[ 1 ] ) ) = T( a[ 2 ] );
    else if( op == "erase" ) c.eraseArray( I( a[ 0 ] ) );
    else if( op == "compress" ) c.compress();
    else return false;
    return true;
  }
};
template< typename T, typename I > struct SetsObj : Base< ArrayOfSets< T, I, MallocBuffer > >
{
  using Base< ArrayOfSets< T, I, MallocBuffer > >::c;
  PyObject * state() override { return rowsState( c ); }
  bool native( std::string const & op, Args const & a ) override
  {
    if( op == "append" ) c.appendSet( I( a[ 0 ] ) );
    else if( op == "insert" ) c.insertIntoSet( I( a[ 0 ] ), T( a[ 1 ] ) );
    else if( op == "remove" ) c.removeFromSet( I( a[ 0 ] ), T( a[ 1 ] ) );
    else if( op == "erase" ) c.eraseSet( I( a[ 0 ] ) );
    else if( op == "compress" ) c.compress();
    else return false;
    return true;
  }
};
template< typename T, typename COL, typename I > struct MatrixObj : Base< CRSMatrix< T, COL, I, MallocBuffer > >
{
  using Base< CRSMatrix< T, COL, I, MallocBuffer > >::c;
  PyObject * state() override
  {
    bool comp = true;
    for( I r = 0; r < c.numRows(); ++r ) comp = comp && c.numNonZeros( r ) == c.nonZeroCapacity( r );
    PyObject * cols = listOf( c.numRows(), [&]( long r )
    { return listOf( c.numNonZeros( I( r ) ), [&]( long j ) { return num( long( c.getColumns( I( r ) )[ j ] ) ); } ); } );
    PyObject * ents = listOf( c.numRows(), [&]( long r )
    { return listOf( c.numNonZeros( I( r ) ), [&]( long j ) { return num( long( c.getEntries( I( r ) )[ j ] ) ); } ); } );
    return Py_BuildValue( "{s:l,s:N,s:N,s:i}", "nc", long( c.numColumns() ), "cols", cols, "ents", ents, "comp", int( comp ) );
  }
  bool native( std::string const & op, Args const & a ) override
  {
    if( op == "insert" ) c.insertNonZero( I( a[ 0 ] ), COL( a[ 1 ] ), T( a[ 2 ] ) );
    else if( op == "remove" ) c.removeNonZero( I( a[ 0 ] ), COL( a[ 1 ] ) );
    else if( op == "set" ) c.getEntries( I( a[ 0 ] ) )[ a[ 1 ] ] = T( a[ 2 ] );
    else if( op == "resize" ) c.resize( I( a[ 0 ] ), COL( a[ 1 ] ), I( a[ 2 ] ) );
    else if( op == "compress" ) c.compress();
    else return false;
    return true;
  }
};

static std::unique_ptr< Obj > make( std::string const & k )
{
  if( k == "a1d" ) return std::make_unique< ArrayObj< double, 1, camp::idx_seq< 0 >, Ix > >();
  if( k == "a1i" ) return std::make_unique< ArrayObj< int, 1, camp::idx_seq< 0 >, int > >();
  if( k == "a1s" ) return std::make_unique< ArrayObj< short, 1, camp::idx_seq< 0 >, Ix > >();
  if( k == "a2l" ) return std::make_unique< ArrayObj< long, 2, camp::idx_seq< 1, 0 >, Ix > >();
  if( k == "a2d" ) return std::make_unique< ArrayObj< double, 2, camp::idx_seq< 0, 1 >, int > >();
  if( k == "a3f" ) return std::make_unique< ArrayObj< float, 3, camp::idx_seq< 2, 0, 1 >, Ix > >();
  if( k == "str" ) return std::make_unique< StringsObj >();
  if( k == "sd" ) return std::make_unique< SortedObj< double > >();
  if( k == "si" ) return std::make_unique< SortedObj< int > >();
  if( k == "ai" ) return std::make_unique< RowsObj< int, Ix > >();
  if( k == "ad" ) return std::make_unique< RowsObj< double, int > >();
  if( k == "ti" ) return std::make_unique< SetsObj< int, int > >();
  if( k == "tl" ) return std::make_unique< SetsObj< long, Ix > >();
  if( k == "md" ) return std::make_unique< MatrixObj< double, int, Ix > >();
  if( k == "mi" ) return std::make_unique< MatrixObj< int, short, int > >();
  return nullptr;
}

static std::map< long, std::unique_ptr< Obj > > objects;
static long nextObject = 0;
static Obj & object( PyObject * t ) { return *objects.at( PyLong_AsLong( t ) ); }

static PyObject * vpNew( PyObject *, PyObject * arg )
{
  std::unique_ptr< Obj > o = make( PyUnicode_AsUTF8( arg ) );
  if( !o ) { PyErr_SetString( PyExc_KeyError, "no such kind" ); return nullptr; }
  objects[ ++nextObject ] = std::move( o );
  return num( nextObject );
}
static PyObject * vpFree( PyObject *, PyObject * arg ) { objects.erase( PyLong_AsLong( arg ) ); Py_RETURN_NONE; }
static PyObject * vpWrap( PyObject *, PyObject * arg ) { return object( arg ).wrap(); }
static PyObject * vpState( PyObject *, PyObject * arg ) { return object( arg ).state(); }
static PyObject * vpType( PyObject *, PyObject * arg ) { return PyUnicode_FromString( object( arg ).type().c_str() ); }
static PyObject * vpNative( PyObject *, PyObject * args )
{
  Args a;
  for( Py_ssize_t k = 2; k < PyTuple_Size( args ); ++k ) a.push_back( PyLong_AsLong( PyTuple_GetItem( args, k ) ) );
  if( !object( PyTuple_GetItem( args, 0 ) ).native( PyUnicode_AsUTF8( PyTuple_GetItem( args, 1 ) ), a ) )
  { PyErr_SetString( PyExc_KeyError, "no such operation" ); return nullptr; }
  Py_RETURN_NONE;
}
static PyObject * vpText( PyObject *, PyObject * args )
{
  char const * s = nullptr;
  Py_ssize_t n = 0;
  PyObject * o = nullptr;
  if( !PyArg_ParseTuple( args, "Oy#", &o, &s, &n ) ) return nullptr;
  object( o ).nativeText( std::string( s, n ) );
  Py_RETURN_NONE;
}
static PyObject * vpCall( PyObject *, PyObject * args )
{ return object( PyTuple_GetItem( args, 0 ) ).call( PyTuple_GetItem( args, 1 ) ); }

// scalar( function, what, value ) -> what the C++ variable holds afterwards
static PyObject * vpScalar( PyObject *, PyObject * args )
{
  PyObject * f = PyTuple_GetItem( args, 0 );
  std::string const what = PyUnicode_AsUTF8( PyTuple_GetItem( args, 1 ) );
  long const v = PyLong_AsLong( PyTuple_GetItem( args, 2 ) );
  try
  {
    if( what == "double" ) { double x = double( v ); callWith( f, x ); return num( long( x ) ); }
    if( what == "int" ) { int x = int( v ); callWith( f, x ); return num( x ); }
    if( what == "constint" ) { int const x = int( v ); callWith< int const >( f, x ); return num( x ); }
    if( what == "two" )
    {
      long x = v; float y = float( v + 1 );
      python::PythonFunction< long &, float const & > fn( f );
      fn( x, y );
      return num( x );
    }
    if( what == "string" )
    {
      std::string s = "ab" + std::to_string( v );
      python::PythonFunction< std::string const & > fn( f );
      fn( s );
      return num( v );
    }
    if( what == "strings" )
    {
      std::vector< std::string > s = { "x", "y" + std::to_string( v ), "" };
      python::PythonFunction< std::vector< std::string > const & > fn( f );
      fn( s );
      return num( v );
    }
    if( what == "badstring" )
    {
      std::string s = "ok\xff\xfe";
      python::PythonFunction< std::string const & > fn( f );
      fn( s );
      return num( v );
    }
  }
  catch( python::PythonError const & )
  {
    if( !PyErr_Occurred() ) PyErr_SetString( PyExc_AssertionError, "PythonError without an exception" );
    return nullptr;
  }
  PyErr_SetString( PyExc_KeyError, "no such scalar" );
  return nullptr;
}
static PyObject * vpNews( PyObject *, PyObject * ) { return num( g_news ); }
static PyObject * vpModule( PyObject *, PyObject * m )
{
  bool const ok = python::addPyLvArrayModule( m );
  if( PyErr_Occurred() )
  {
    if( ok ) { PyErr_Clear(); PyErr_SetString( PyExc_AssertionError, "success with an exception set" ); }
    return nullptr;
  }
  return PyBool_FromLong( ok );
}
static PyObject * vpConvert( PyObject *, PyObject * args )
{
  PyObject * o = PyTuple_GetItem( args, 0 );
  std::string const t = PyUnicode_AsUTF8( PyTuple_GetItem( args, 1 ) );
  PyTypeObject * type = t == "Array" ? python::getPyArrayType() : t == "SortedArray" ? python::getPySortedArrayType() :
                        t == "ArrayOfArrays" ? python::getPyArrayOfArraysType() : t == "ArrayOfSets" ? python::getPyArrayOfSetsType() : python::getPyCRSMatrixType();
  PyObject * r = python::convert< PyObject >( o, type );
  if( PyErr_Occurred() )
  {
    if( r ) { PyErr_Clear(); PyErr_SetString( PyExc_AssertionError, "converted with an exception set" ); }
    return nullptr;
  }
  Py_XINCREF( r );
  return r;
}
static PyObject * vpParse( PyObject *, PyObject * args )
{
  PyObject * o = PyTuple_GetItem( args, 0 );
  std::string const t = PyUnicode_AsUTF8( PyTuple_GetItem( args, 1 ) );
  auto run = [&]( auto v ) -> PyObject *
  {
    using T = decltype( v );
    auto r = python::parseNumPyArray( o, typeid( T ) );
    if( std::get< 0 >( r ) == nullptr ) return nullptr;
    if( PyErr_Occurred() ) { PyErr_Clear(); PyErr_SetString( PyExc_AssertionError, "parsed with an exception set" ); return nullptr; }
    T const * p = static_cast< T const * >( std::get< 1 >( r ) );
    return listOf( std::get< 2 >( r ), [&]( long i ) { return num( long( p[ i ] ) ); } );
  };
  if( t == "i8" ) return run( (signed char)( 0 ) );
  if( t == "u8" ) return run( (unsigned char)( 0 ) );
  if( t == "i16" ) return run( short( 0 ) );
  if( t == "u16" ) return run( (unsigned short)( 0 ) );
  if( t == "i32" ) return run( int( 0 ) );
  if( t == "u32" ) return run( unsigned( 0 ) );
  if( t == "i64" ) return run( long( 0 ) );
  if( t == "q" ) return run( (long long)( 0 ) );
  if( t == "u64" ) return run( (unsigned long)( 0 ) );
  if( t == "uq" ) return run( (unsigned long long)( 0 ) );
  if( t == "f32" ) return run( float( 0 ) );
  if( t == "f64" ) return run( double( 0 ) );
  if( t == "ld" ) return run( (long double)( 0 ) );
  PyErr_SetString( PyExc_KeyError, "no such type" );
  return nullptr;
}
static PyObject * vpShow( PyObject *, PyObject * args )
{
  // a 1-D view of C++ data of every exportable type
  std::string const t = PyUnicode_AsUTF8( PyTuple_GetItem( args, 0 ) );
  long const k = PyLong_AsLong( PyTuple_GetItem( args, 1 ) );
  static union { char raw[ 256 ]; long double align; } store;
  auto run = [&]( auto v ) -> PyObject *
  {
    using T = decltype( v );
    T * p = reinterpret_cast< T * >( store.raw );
    for( int i = 0; i < 6; ++i ) p[ i ] = T( k + i );
    int const d = 3, s = 2;
    return python::createNumPyArray( p, true, 1, &d, &s );
  };
  if( t == "c" ) return run( char( 0 ) );
  if( t == "i8" ) return run( (signed char)( 0 ) );
  if( t == "u8" ) return run( (unsigned char)( 0 ) );
  if( t == "i16" ) return run( short( 0 ) );
  if( t == "u16" ) return run( (unsigned short)( 0 ) );
  if( t == "i32" ) return run( int( 0 ) );
  if( t == "u32" ) return run( unsigned( 0 ) );
  if( t == "i64" ) return run( long( 0 ) );
  if( t == "q" ) return run( (long long)( 0 ) );
  if( t == "u64" ) return run( (unsigned long)( 0 ) );
  if( t == "uq" ) return run( (unsigned long long)( 0 ) );
  if( t == "f32" ) return run( float( 0 ) );
  if( t == "f64" ) return run( double( 0 ) );
  if( t == "ld" ) return run( (long double)( 0 ) );
  if( t == "bool" ) return run( bool( false ) );
  PyErr_SetString( PyExc_KeyError, "no such type" );
  return nullptr;
}
// wrappers of values NumPy knows nothing of
static PyObject * vpUnmade( PyObject *, PyObject * arg )
{
  std::string const t = PyUnicode_AsUTF8( arg );
  static Array< wchar_t, 1, camp::idx_seq< 0 >, Ix, MallocBuffer > a;
  static SortedArray< wchar_t, Ix, MallocBuffer > s;
  static ArrayOfArrays< char16_t, Ix, MallocBuffer > r;
  static ArrayOfSets< wchar_t, Ix, MallocBuffer > t2;
  static CRSMatrix< bool, int, Ix, MallocBuffer > m;
  PyObject * const x = t == "Array" ? python::create( a ) : t == "SortedArray" ? python::create( s ) : t == "ArrayOfArrays" ? python::create( r ) :
                       t == "ArrayOfSets" ? python::create( t2 ) : python::create( m );
  if( x && PyErr_Occurred() ) { PyErr_Clear(); PyErr_SetString( PyExc_AssertionError, "created with an exception set" ); }
  return x;
}
// cupy( type, address, dims, strides )
static PyObject * vpCupy( PyObject *, PyObject * args )
{
  std::string const t = PyUnicode_AsUTF8( PyTuple_GetItem( args, 0 ) );
  void * const at = reinterpret_cast< void * >( PyLong_AsLong( PyTuple_GetItem( args, 1 ) ) );
  std::vector< long long > d, s;
  for( Py_ssize_t k = 0; k < PyList_Size( PyTuple_GetItem( args, 2 ) ); ++k )
  {
    d.push_back( PyLong_AsLong( PyList_GetItem( PyTuple_GetItem( args, 2 ), k ) ) );
    s.push_back( PyLong_AsLong( PyList_GetItem( PyTuple_GetItem( args, 3 ), k ) ) );
  }
  std::type_index const type = t == "i16" ? typeid( short ) : t == "i32" ? typeid( int ) : t == "u64" ? typeid( unsigned long ) : t == "f32" ? typeid( float ) : t == "f64" ? typeid( double ) :
                               t == "u8" ? typeid( unsigned char ) : typeid( bool );
  return python::internal::createCupyArrayImpl( at, type, false, int( d.size() ), d.data(), s.data() );
}
static PyObject * vpTypeName( PyObject *, PyObject * arg )
{ return PyUnicode_FromString( python::getNumPyTypeName( int( PyLong_AsLong( arg ) ) ).c_str() ); }
static PyObject * vpTypeIndex( PyObject *, PyObject * arg )
{ return PyUnicode_FromString( system::demangle( python::getTypeIndexFromNumPy( int( PyLong_AsLong( arg ) ) ).name() ).c_str() ); }

// PyObjectRef slots
using Ref = python::PyObjectRef<>;
static std::map< long, std::unique_ptr< Ref > > slots;
static PyObject * vpRef( PyObject *, PyObject * args )
{
  std::string const op = PyUnicode_AsUTF8( PyTuple_GetItem( args, 0 ) );
  long const i = PyLong_AsLong( PyTuple_GetItem( args, 1 ) );
  PyObject * o = PyTuple_GetItem( args, 2 );
  auto at = [&]( long k ) -> Ref & { return *slots.at( k ); };
  if( op == "make" ) slots[ i ] = std::make_unique< Ref >();
  else if( op == "take" ) { Py_INCREF( o ); slots[ i ] = std::make_unique< Ref >( o ); }
  else if( op == "give" ) { if( o == Py_None ) at( i ) = static_cast< PyObject * >( nullptr ); else { Py_INCREF( o ); at( i ) = o; } }
  else if( op == "copyMake" ) slots[ i ] = std::make_unique< Ref >( at( PyLong_AsLong( o ) ) );
  else if( op == "moveMake" ) slots[ i ] = std::make_unique< Ref >( std::move( at( PyLong_AsLong( o ) ) ) );
  else if( op == "copy" ) at( i ) = at( PyLong_AsLong( o ) );
  else if( op == "move" ) at( i ) = std::move( at( PyLong_AsLong( o ) ) );
  else if( op == "release" ) { PyObject * r = at( i ).release(); Py_XDECREF( r ); }
  else if( op == "fill" ) { if( o != Py_None ) Py_INCREF( o ); *at( i ).getAddress() = o == Py_None ? nullptr : o; }
  else if( op == "end" ) slots.erase( i );
  else if( op == "get" )
  {
    PyObject * r = at( i ).get();
    if( r != static_cast< PyObject * >( at( i ) ) ) Py_RETURN_NOTIMPLEMENTED;
    if( !r ) Py_RETURN_NONE;
    Py_INCREF( r );
    return r;
  }
  else { PyErr_SetString( PyExc_KeyError, "no such reference operation" ); return nullptr; }
  Py_RETURN_NONE;
}

static PyMethodDef methods[] = {
  { "new", vpNew, METH_O, nullptr }, { "free", vpFree, METH_O, nullptr }, { "wrap", vpWrap, METH_O, nullptr },
  { "state", vpState, METH_O, nullptr }, { "type", vpType, METH_O, nullptr }, { "native", vpNative, METH_VARARGS, nullptr },
  { "text", vpText, METH_VARARGS, nullptr }, { "call", vpCall, METH_VARARGS, nullptr }, { "scalar", vpScalar, METH_VARARGS, nullptr },
  { "news", vpNews, METH_NOARGS, nullptr }, { "module", vpModule, METH_O, nullptr }, { "convert", vpConvert, METH_VARARGS, nullptr },
  { "parse", vpParse, METH_VARARGS, nullptr }, { "show", vpShow, METH_VARARGS, nullptr }, { "typeName", vpTypeName, METH_O, nullptr },
  { "typeIndex", vpTypeIndex, METH_O, nullptr }, { "unmade", vpUnmade, METH_O, nullptr }, { "cupy", vpCupy, METH_VARARGS, nullptr }, { "ref", vpRef, METH_VARARGS, nullptr }, { nullptr, nullptr, 0, nullptr } };
static PyModuleDef module = { PyModuleDef_HEAD_INIT, "vp", nullptr, -1, methods, nullptr, nullptr, nullptr, nullptr };
static PyObject * initVp() { return PyModule_Create( &module ); }

int main( int argc, char * * argv )
{
  // argv: OUT --py SCRIPT.py --site DIR ...
  char const * py = nullptr;
  char const * site = nullptr;
  for( int i = 1; i + 1 < argc; ++i )
  {
    if( std::string( argv[ i ] ) == "--py" ) py = argv[ i + 1 ];
    if( std::string( argv[ i ] ) == "--site" ) site = argv[ i + 1 ];
  }
  if( !py || !site ) return 3;
  PyImport_AppendInittab( "vp", initVp );
  PyImport_AppendInittab( "pylvarray", PyInit_pylvarray );
  Py_DontWriteBytecodeFlag = 1;
  Py_InitializeEx( 0 );
  wchar_t ** wargs = static_cast< wchar_t ** >( std::malloc( sizeof( wchar_t * ) * ( argc + 1 ) ) );
  for( int i = 0; i < argc; ++i ) wargs[ i ] = Py_DecodeLocale( argv[ i ], nullptr );
  PySys_SetArgvEx( argc, wargs, 0 );
  PyObject * path = PySys_GetObject( "path" );
  PyObject * dir = PyUnicode_FromString( site );
  PyList_Insert( path, 0, dir );
  Py_DECREF( dir );
  FILE * f = std::fopen( py, "r" );
  if( !f ) return 3;
  int const rc = PyRun_SimpleFileEx( f, py, 1 );
  std::fflush( nullptr );
  std::_Exit( rc == 0 ? 0 : 4 );
}
