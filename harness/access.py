#!/usr/bin/env python3
"""Which accesses do the containers, their views and their slices grant?  A handle is reached by applying conversions to
a container; for every handle a list of small uses ("probes") is offered to the compiler, each on a line of its own, and
each line the compiler refuses is a use the handle does not grant.  Lines are dropped until what is left compiles, so that
an error which is reported only once cannot hide behind another one.  The program that is left also runs: it follows the
conversions and says whether the handle shows what is written into the container afterwards.

usage: access.py FILE --script PATHS.json --cxx 'g++ -std=c++14 ...' --link '...' --work DIR [--jobs N]
Each line of the script is {"fam": family, "path": [step, ...]} or {"perm": [dimension, ...]}; one event per line is
written."""
import argparse, collections, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

FAMS = {
    "nd1": ("LvArray::Array< int, 1, RAJA::PERM_I, L, LvArray::MallocBuffer >", "OWNER o( 3 ); for( L i = 0; i < 3; ++i ) o[ i ] = 1;"),
    "nd2": ("LvArray::Array< int, 2, RAJA::PERM_IJ, L, LvArray::MallocBuffer >", "OWNER o( 3, 2 ); for( L i = 0; i < 3; ++i ) for( L j = 0; j < 2; ++j ) o( i, j ) = 1;"),
    "nd2p": ("LvArray::Array< int, 2, RAJA::PERM_JI, L, LvArray::MallocBuffer >", "OWNER o( 3, 2 ); for( L i = 0; i < 3; ++i ) for( L j = 0; j < 2; ++j ) o( i, j ) = 1;"),
    "nest": ("LvArray::Array< Inner, 1, RAJA::PERM_I, L, LvArray::MallocBuffer >", "OWNER o( 3 ); for( L i = 0; i < 3; ++i ) { o[ i ].resize( 2 ); o[ i ][ 0 ] = o[ i ][ 1 ] = 1; }"),
    "sorted": ("LvArray::SortedArray< int, L, LvArray::MallocBuffer >", "OWNER o; o.insert( 1 ); o.insert( 5000 );"),
    "aoa": ("LvArray::ArrayOfArrays< int, L, LvArray::MallocBuffer >", "OWNER o( 3, 4 ); for( L i = 0; i < 3; ++i ) { o.emplaceBack( i, 1 ); o.emplaceBack( i, 5000 ); }"),
    "aos": ("LvArray::ArrayOfSets< int, L, LvArray::MallocBuffer >", "OWNER o( 3, 4 ); for( L i = 0; i < 3; ++i ) { o.insertIntoSet( i, 1 ); o.insertIntoSet( i, 5000 ); }"),
    "sp": ("LvArray::SparsityPattern< int, L, LvArray::MallocBuffer >", "OWNER o( 3, 9000, 4 ); for( L i = 0; i < 3; ++i ) { o.insertNonZero( i, 1 ); o.insertNonZero( i, 5000 ); }"),
    "crs": ("LvArray::CRSMatrix< double, int, L, LvArray::MallocBuffer >", "OWNER o( 3, 9000, 4 ); for( L i = 0; i < 3; ++i ) { o.insertNonZero( i, 1, 1 ); o.insertNonZero( i, 5000, 1 ); }"),
}

ND = "typename std::remove_reference< decltype( h ) >::type"
PROBES = {
    "nd1": [("get", "int x = h[ 0 ]; use( x );"), ("set", "h[ 0 ] = 1;"), ("setcall", "h( 0 ) = 1;"), ("setlinear", "h.data()[ 0 ] = 1;"),
            ("setiter", "*h.begin() = 1;"), ("setall", "for( auto & x : h ) x = 1;"), ("zero", "h.zero();"),
            ("setvalues", "h.template setValues< RAJA::seq_exec >( 1 );"), ("setcopy", "h.template setValues< RAJA::seq_exec >( h.toViewConst() );"),
            ("resize", "h.resize( 2 );"), ("clear", "h.clear();"), ("append", "h.emplace_back( 1 );"), ("insert", "h.emplace( 0, 1 );"), ("erase", "h.erase( 0 );"), ("pop", "h.pop_back();"),
            ("reserve", "h.reserve( 9 );"), ("assign", "h = h;"),
            ("asview", "takesView1( h );"), ("asviewc", "takesViewConst1( h );"), ("asslice", "takesSlice1( h );"), ("asslicec", "takesSliceConst1( h );"),
            ("tmpslice", "takesSlice1( std::move( h ) );"), ("tmpslicec", "takesSliceConst1( std::move( h ) );")],
    "nd2": [("get", "int x = h( 0, 0 ); use( x );"), ("set", "h[ 0 ][ 0 ] = 1;"), ("setcall", "h( 0, 0 ) = 1;"), ("setlinear", "h.data()[ 0 ] = 1;"),
            ("setall", "for( auto & x : h ) x = 1;"), ("zero", "h.zero();"),
            ("setvalues", "h.template setValues< RAJA::seq_exec >( 1 );"),
            ("resize", "h.resize( 2, 2 );"), ("resizedim", "h.template resizeDimension< 0 >( 2 );"), ("clear", "h.clear();"), ("reserve", "h.reserve( 9 );"), ("assign", "h = h;"),
            ("asview", "takesView2( h, TAG );"), ("asviewc", "takesViewConst2( h, TAG );"), ("asslice", "takesSlice2( h, TAG );"), ("asslicec", "takesSliceConst2( h, TAG );"),
            ("tmpslice", "takesSlice2( std::move( h ), TAG );"), ("tmpslicec", "takesSliceConst2( std::move( h ), TAG );")],
    "nest": [("get", "int x = h[ 0 ][ 0 ]; use( x );"), ("set", "h[ 0 ][ 0 ] = 1;"), ("setelem", "h[ 0 ] = h[ 1 ];"), ("growelem", "h[ 0 ].emplace_back( 1 );"),
             ("resize", "h.resize( 2 );"), ("append", "h.emplace_back();"), ("clear", "h.clear();"), ("assign", "h = h;")],
    "sorted": [("get", "int x = h[ 0 ]; use( x );"), ("set", "h[ 0 ] = 1;"), ("setcall", "h( 0 ) = 1;"), ("setiter", "*h.begin() = 1;"), ("setlinear", "h.data()[ 0 ] = 1;"),
               ("insert", "h.insert( 1 );"), ("insertmany", "int v[ 1 ] = { 1 }; h.insert( v, v + 1 );"), ("remove", "h.remove( 1 );"), ("removemany", "int v[ 1 ] = { 1 }; h.remove( v, v + 1 );"),
               ("clear", "h.clear();"), ("reserve", "h.reserve( 9 );"), ("assign", "h = h;"), ("contains", "use( h.contains( 1 ) );"),
               ("asview", "takesSorted( h );"), ("asmutview", "takesSortedMut( h );"), ("asslicec", "takesSliceConst1( h );"), ("asslice", "takesSlice1( h );")],
    "aoa": [("get", "int x = h( 0, 0 ); use( x );"), ("set", "h[ 0 ][ 0 ] = 1;"), ("setcall", "h( 0, 0 ) = 1;"), ("setiter", "*h[ 0 ].begin() = 1;"),
            ("append", "h.emplaceBack( 0, 1 );"), ("appendatomic", "h.template emplaceBackAtomic< RAJA::seq_atomic >( 0, 1 );"), ("appendmany", "int v[ 1 ] = { 1 }; h.appendToArray( 0, v, v + 1 );"),
            ("insert", "h.emplace( 0, 0, 1 );"), ("insertmany", "int v[ 1 ] = { 1 }; h.insertIntoArray( 0, 0, v, v + 1 );"), ("erase", "h.eraseFromArray( 0, 0 );"),
            ("resizerow", "h.resizeArray( 0, 1 );"), ("clearrow", "h.clearArray( 0 );"), ("setcap", "h.setCapacityOfArray( 0, 9 );"),
            ("resize", "h.resize( 2 );"), ("appendrow", "h.appendArray( 2 );"), ("eraserow", "h.eraseArray( 0 );"), ("reserve", "h.reserve( 9 );"), ("compress", "h.compress();"), ("assign", "h = h;"),
            ("writesizes", "h.getSizes()[ 0 ] = 0;"), ("writeoffsets", "h.getOffsets()[ 0 ] = 0;"),
            ("asview", "takesAoA( h );"), ("asviewcs", "takesAoACS( h );"), ("asviewc", "takesAoAC( h );")],
    "aos": [("get", "int x = h( 0, 0 ); use( x );"), ("set", "h[ 0 ][ 0 ] = 1;"), ("setcall", "h( 0, 0 ) = 1;"), ("setiter", "*h[ 0 ].begin() = 1;"), ("contains", "use( h.contains( 0, 1 ) );"),
            ("insert", "h.insertIntoSet( 0, 1 );"), ("insertmany", "int v[ 1 ] = { 1 }; h.insertIntoSet( 0, v, v + 1 );"), ("remove", "h.removeFromSet( 0, 1 );"), ("removemany", "int v[ 1 ] = { 1 }; h.removeFromSet( 0, v, v + 1 );"),
            ("clearrow", "h.clearSet( 0 );"), ("setcap", "h.setCapacityOfSet( 0, 9 );"),
            ("resize", "h.resize( 2 );"), ("appendrow", "h.appendSet( 2 );"), ("eraserow", "h.eraseSet( 0 );"), ("reserve", "h.reserve( 9 );"), ("compress", "h.compress();"), ("assign", "h = h;"),
            ("emplace", "h.emplace( 0, 0, 1 );"), ("emplaceback", "h.emplaceBack( 0, 1 );"),
            ("asview", "takesAoS( h );"), ("asviewc", "takesAoSC( h );"), ("asaoac", "takesAoAC( h );")],
    "sp": [("get", "int x = h.getColumns( 0 )[ 0 ]; use( x );"), ("set", "h.getColumns( 0 )[ 0 ] = 1;"), ("setiter", "*h.getColumns( 0 ).begin() = 1;"), ("setlinear", "h.getColumns()[ 0 ] = 1;"), ("writeoffsets", "h.getOffsets()[ 0 ] = 0;"),
           ("contains", "use( h.empty( 0, 1 ) );"),
           ("insert", "h.insertNonZero( 0, 1 );"), ("insertmany", "int v[ 1 ] = { 1 }; h.insertNonZeros( 0, v, v + 1 );"), ("remove", "h.removeNonZero( 0, 1 );"), ("removemany", "int v[ 1 ] = { 1 }; h.removeNonZeros( 0, v, v + 1 );"),
           ("setcap", "h.setRowCapacity( 0, 9 );"), ("resize", "h.resize( 2, 2, 2 );"), ("appendrow", "h.appendRow( 2 );"), ("reserve", "h.reserveNonZeros( 9 );"), ("compress", "h.compress();"), ("assign", "h = h;"),
           ("emplaceback", "h.emplaceBack( 0, 1 );"), ("insertset", "h.insertIntoSet( 0, 1 );"),
           ("asview", "takesSP( h );"), ("asviewc", "takesSPC( h );")],
    "crs": [("getcol", "int x = h.getColumns( 0 )[ 0 ]; use( x );"), ("get", "double x = h.getEntries( 0 )[ 0 ]; use( x );"), ("setcol", "h.getColumns( 0 )[ 0 ] = 1;"), ("set", "h.getEntries( 0 )[ 0 ] = 1;"), ("setiter", "*h.getEntries( 0 ).begin() = 1;"),
            ("setlinear", "h.getEntries()[ 0 ] = 1;"), ("setcollinear", "h.getColumns()[ 0 ] = 1;"), ("writeoffsets", "h.getOffsets()[ 0 ] = 0;"), ("setvalues", "h.template setValues< RAJA::seq_exec >( 1 );"), ("zero", "h.zero();"),
            ("add", "int c[ 1 ] = { 1 }; double e[ 1 ] = { 1 }; h.template addToRow< RAJA::seq_atomic >( 0, c, e, 1 );"), ("addbin", "int c[ 1 ] = { 1 }; double e[ 1 ] = { 1 }; h.template addToRowBinarySearch< RAJA::seq_atomic >( 0, c, e, 1 );"),
            ("addlin", "int c[ 1 ] = { 1 }; double e[ 1 ] = { 1 }; h.template addToRowLinearSearch< RAJA::seq_atomic >( 0, c, e, 1 );"),
            ("addunsorted", "int c[ 1 ] = { 1 }; double e[ 1 ] = { 1 }; h.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( 0, c, e, 1 );"),
            ("insert", "h.insertNonZero( 0, 1, 1.0 );"), ("insertmany", "int v[ 1 ] = { 1 }; double e[ 1 ] = { 1 }; h.insertNonZeros( 0, v, e, 1 );"), ("remove", "h.removeNonZero( 0, 1 );"), ("removemany", "int v[ 1 ] = { 1 }; h.removeNonZeros( 0, v, 1 );"),
            ("setcap", "h.setRowCapacity( 0, 9 );"), ("resize", "h.resize( 2, 2, 2 );"), ("reserve", "h.reserveNonZeros( 9 );"), ("compress", "h.compress();"), ("assign", "h = h;"),
            ("asview", "takesCRS( h );"), ("asviewcs", "takesCRSCS( h );"), ("asviewc", "takesCRSC( h );"), ("assp", "takesSPC( h );")],
}
for k in ("nd1", "nd2"):
    PROBES[k].append(("setcontig", "*h.dataIfContiguous() = 1;"))
PROBES["nd2p"] = [(n, p.replace("TAG", "Jf()")) for n, p in PROBES["nd2"]]
PROBES["nd2"] = [(n, p.replace("TAG", "If()")) for n, p in PROBES["nd2"]]
# What a step makes of the family: rows and views as something else.
NEXT = {("nd2", "row"): "nd1", ("nd2p", "row"): "nd1s", ("nest", "row"): "nd1", ("aoa", "row"): "nd1", ("aos", "row"): "nd1",
        ("aos", "toArrayOfArraysView"): "aoa", ("crs", "toSparsityPatternView"): "sp", ("sorted", "toSlice"): "nd1", ("sp", "toArrayOfArraysView"): "aoa"}
# A row along a dimension which is not contiguous: no iterators, other slice types.
# The names of the view types against what the conversions return (a class says "const" where nesting can matter).
for k in PROBES:
    PROBES[k] += [("alias" + n, "static_assert( std::is_same< LvArray::typeManipulation::%s< std::remove_reference_t< decltype( h ) > >, decltype( h.to%s() )%s >::value, \"\" );"
                   % (("Nested" + n[6:].replace("View", "ViewType", 1)) if n.startswith("Nested") else n.replace("View", "ViewType", 1), n, " const" if n.startswith("Nested") else ""))
                  for n in ("View", "ViewConst", "ViewConstSizes", "NestedView", "NestedViewConst")]
PROBES["nd1s"] = [(n, p.replace("Slice1(", "SliceS(").replace("SliceConst1(", "SliceConstS(")) for n, p in PROBES["nd1"] if n not in ("asview", "asviewc")]

PRELUDE = r'''
#include "Array.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "MallocBuffer.hpp"
#include <cstdio>
#include <cstring>
#include <utility>
#include <type_traits>
using L = long;
template< typename T > using Buf = LvArray::MallocBuffer< T >;
using Inner = LvArray::Array< int, 1, RAJA::PERM_I, L, LvArray::MallocBuffer >;
struct If {}; struct Jf {};
template< typename T > void use( T const & ) {}
template< typename T > using AV1 = LvArray::ArrayView< T, 1, 0, L, LvArray::MallocBuffer >;
template< typename T, int U > using AV2 = LvArray::ArrayView< T, 2, U, L, LvArray::MallocBuffer >;
template< typename T > using AS1 = LvArray::ArraySlice< T, 1, 0, L >;
template< typename T > using ASS = LvArray::ArraySlice< T, 1, -1, L >;
template< typename T, int U > using AS2 = LvArray::ArraySlice< T, 2, U, L >;
inline void takesView1( AV1< int > const & ) {}
inline void takesViewConst1( AV1< int const > const & ) {}
inline void takesSlice1( AS1< int > const & ) {}
inline void takesSliceConst1( AS1< int const > const & ) {}
inline void takesSliceS( ASS< int > const & ) {}
inline void takesSliceConstS( ASS< int const > const & ) {}
inline void takesView2( AV2< int, 1 > const &, If ) {}
inline void takesViewConst2( AV2< int const, 1 > const &, If ) {}
inline void takesSlice2( AS2< int, 1 > const &, If ) {}
inline void takesSliceConst2( AS2< int const, 1 > const &, If ) {}
inline void takesView2( AV2< int, 0 > const &, Jf ) {}
inline void takesViewConst2( AV2< int const, 0 > const &, Jf ) {}
inline void takesSlice2( AS2< int, 0 > const &, Jf ) {}
inline void takesSliceConst2( AS2< int const, 0 > const &, Jf ) {}
inline void takesSorted( LvArray::SortedArrayView< int const, L, LvArray::MallocBuffer > const & ) {}
inline void takesSortedMut( LvArray::SortedArrayView< int, L, LvArray::MallocBuffer > const & ) {}
inline void takesAoA( LvArray::ArrayOfArraysView< int, L const, false, LvArray::MallocBuffer > const & ) {}
inline void takesAoACS( LvArray::ArrayOfArraysView< int, L const, true, LvArray::MallocBuffer > const & ) {}
inline void takesAoAC( LvArray::ArrayOfArraysView< int const, L const, true, LvArray::MallocBuffer > const & ) {}
inline void takesAoS( LvArray::ArrayOfSetsView< int, L const, LvArray::MallocBuffer > const & ) {}
inline void takesAoSC( LvArray::ArrayOfSetsView< int const, L const, LvArray::MallocBuffer > const & ) {}
inline void takesSP( LvArray::SparsityPatternView< int, L const, LvArray::MallocBuffer > const & ) {}
inline void takesSPC( LvArray::SparsityPatternView< int const, L const, LvArray::MallocBuffer > const & ) {}
inline void takesCRS( LvArray::CRSMatrixView< double, int, L const, LvArray::MallocBuffer > const & ) {}
inline void takesCRSCS( LvArray::CRSMatrixView< double, int const, L const, LvArray::MallocBuffer > const & ) {}
inline void takesCRSC( LvArray::CRSMatrixView< double const, int const, L const, LvArray::MallocBuffer > const & ) {}
'''

# The address of the first value a handle shows, and how many values (rows) it says there are.
SHOWS = r'''
struct Show
{
static void const * first( int const & x ) { return &x; }
static void const * first( double const & x ) { return &x; }
template< typename T, int U > static void const * first( LvArray::ArraySlice< T, 1, U, L > const & s ) { return first( s[ 0 ] ); }
template< typename T, int U > static void const * first( LvArray::ArraySlice< T, 2, U, L > const & s ) { return first( s( 0, 0 ) ); }
template< typename T > static void const * first( LvArray::ArrayView< T, 1, 0, L, LvArray::MallocBuffer > const & s ) { return first( s[ 0 ] ); }
template< typename T, int U > static void const * first( LvArray::ArrayView< T, 2, U, L, LvArray::MallocBuffer > const & s ) { return first( s( 0, 0 ) ); }
template< typename T > static void const * first( LvArray::SortedArrayView< T, L, LvArray::MallocBuffer > const & s ) { return first( s[ 0 ] ); }
template< typename T > static void const * first( LvArray::SortedArray< T, L, LvArray::MallocBuffer > const & s ) { return first( s[ 0 ] ); }
template< typename T > static void const * first( LvArray::ArrayOfArrays< T, L, LvArray::MallocBuffer > const & s ) { return first( s( 0, 0 ) ); }
template< typename T, typename I, bool C > static void const * first( LvArray::ArrayOfArraysView< T, I, C, LvArray::MallocBuffer > const & s ) { return first( s( 0, 0 ) ); }
template< typename T > static void const * first( LvArray::ArrayOfSets< T, L, LvArray::MallocBuffer > const & s ) { return first( s( 0, 0 ) ); }
template< typename T, typename I > static void const * first( LvArray::ArrayOfSetsView< T, I, LvArray::MallocBuffer > const & s ) { return first( s( 0, 0 ) ); }
template< typename T > static void const * first( LvArray::SparsityPattern< T, L, LvArray::MallocBuffer > const & s ) { return first( s.getColumns( 0 )[ 0 ] ); }
template< typename T, typename I > static void const * first( LvArray::SparsityPatternView< T, I, LvArray::MallocBuffer > const & s ) { return first( s.getColumns( 0 )[ 0 ] ); }
template< typename T > static void const * first( LvArray::CRSMatrix< T, int, L, LvArray::MallocBuffer > const & s ) { return first( s.getColumns( 0 )[ 0 ] ); }
template< typename T, typename C, typename I > static void const * first( LvArray::CRSMatrixView< T, C, I, LvArray::MallocBuffer > const & s ) { return first( s.getColumns( 0 )[ 0 ] ); }
};
template< typename H > auto count( H const & h, int ) -> decltype( L( h.numRows() ) ) { return h.numRows(); }
template< typename H > auto count( H const & h, long ) -> decltype( L( h.size() ) ) { return h.size(); }
template< typename H > auto entries( H const & h, int ) -> decltype( ( void const * )&h.getEntries( 0 )[ 0 ] ) { return &h.getEntries( 0 )[ 0 ]; }
template< typename H > void const * entries( H const &, long ) { return nullptr; }
template< typename T > char const * nameOf() { return __PRETTY_FUNCTION__; }
template< typename T > struct Tag {};
template< typename O, typename H >
void report( int const id, O & owner, H & h )
{
  // A row of a nested or sparse container begins where the container does, so the first value has one address.
  bool const e = !entries( h, 0 ) || entries( h, 0 ) == entries( owner, 0 );
  std::printf( "%d\t%s\t%d\t%ld\n", id, nameOf< Tag< H > >(), int( e && Show::first( h ) == Show::first( owner ) ), count( h, 0 ) );
}
'''


def step_expr(e, s):
    if s == "row": return "%s[ 0 ]" % e
    if s == "const": return "constant( %s )" % e
    if s == "copy": return "copy( %s )" % e
    if s.startswith("~"): return step_expr("std::move( %s )" % e, s[1:])
    return "%s.%s()" % (e, s)


def family(fam, path):
    for s in path:
        fam = NEXT.get((fam, s.lstrip("~")), fam)
    return fam


class Compiler:
    def __init__(self, a):
        self.a = a

    def refused(self, name, text, link=False):
        """the lines (by #line number) the compiler refuses; None if it compiles"""
        src = os.path.join(self.a.work, name + ".cpp")
        open(src, "w").write(text)
        cmd = self.a.cxx.split() + (["-o", os.path.join(self.a.work, name)] if link else ["-fsyntax-only"]) + [src]
        if link:
            cmd += self.a.link.split()
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode == 0:
            return None
        bad = set()
        # An error belongs to the innermost probe line named before or at it.
        pending = None
        for line in r.stdout.splitlines():
            m = re.match(r"^probe:(\d+):", line)
            if m:
                bad.add(int(m.group(1)))
        self.said = r.stdout[:3000]
        return bad


def settle(comp, name, head, lines, tail="", link=False):
    """lines: {number: text}; returns the numbers of the lines that compile together"""
    good = dict(lines)
    whole = lambda some: head + "".join('#line %d "probe"\n%s\n' % kv for kv in sorted(some.items())) + '#line 1 "tail"\n' + tail(some)
    for rnd in range(100):
        text = whole(good)
        bad = comp.refused(name, text, link)
        if bad is None:
            return good
        if not bad:
            # The compiler names no line: look for one that does not compile on its own with the others left out.
            some = sorted(good)
            if comp.refused(name, whole({}), link) is not None:
                print(comp.said + "\naccess.py: cannot compile %s" % name, file=sys.stderr)
                os._exit(3)
            while len(some) > 1:
                half = some[:len(some) // 2]
                some = half if comp.refused(name, whole({k: good[k] for k in half}), link) is not None else some[len(some) // 2:]
            bad = set(some)
        for b in bad:
            good.pop(b, None)
    print("access.py: does not settle", file=sys.stderr)
    os._exit(3)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("out")
    for o in ("script", "cxx", "link", "work", "jobs", "seed"):
        p.add_argument("--" + o)
    a = p.parse_args()
    os.makedirs(a.work, exist_ok=True)
    comp = Compiler(a)
    todo = [json.loads(l) for l in open(a.script)]
    byfam = collections.OrderedDict()
    for k, t in enumerate(todo):
        if "fam" in t:
            byfam.setdefault(t["fam"], []).append((k, t["path"]))

    def one(fam):
        owner, init = FAMS[fam]
        head = PRELUDE + SHOWS + r'''
template< typename H > H const & constant( H const & h ) { return h; }
template< typename H > std::remove_const_t< std::remove_reference_t< H > > copy( H && h ) { return h; }
using OWNER = %s;
''' % owner
        lines = {}
        for k, path in byfam[fam]:
            body = "auto && h0 = o; "
            for j, s in enumerate(path):
                body += "auto && h%d = %s; " % (j + 1, step_expr("h%d" % j, s))
            lines[k + 1] = "inline void path%d( OWNER & o ) { %s report( %d, o, h%d ); }" % (k, body, k, len(path))
        tail = lambda good: "int main() { %s\n%s return 0; }\n" % (init, "".join("path%d( o );\n" % (k - 1) for k in sorted(good)))
        good = settle(comp, "paths_" + fam, head, lines, tail, link=True)
        r = subprocess.run([os.path.join(a.work, "paths_" + fam)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=60)
        seen = {}
        for l in r.stdout.splitlines():
            f = l.split("\t")
            seen[int(f[0])] = (re.search(r"Tag<(.*)>", f[1]).group(1), int(f[2]), int(f[3]))
        # probes: each distinct type once
        kinds = {}
        for k, path in byfam[fam]:
            if k in seen:
                kinds.setdefault((family(fam, path), seen[k][0]), k)
        grants = {}
        plines, which = {}, {}
        for (f, t), k in kinds.items():
            path = todo[k]["path"]
            body = "auto && h0 = o; "
            for j, s in enumerate(path):
                body += "auto && h%d = %s; " % (j + 1, step_expr("h%d" % j, s))
            for n, text in PROBES[f]:
                i = len(plines) + 1
                plines[i] = "inline void probe%d( OWNER & o ) { %s auto & h = h%d; %s }" % (i, body, len(path), text)
                which[i] = ((f, t), n)
            grants[(f, t)] = []
        ok = settle(comp, "probes_" + fam, head, plines, lambda good: "int main() {}\n")
        for i in sorted(ok):
            grants[which[i][0]].append(which[i][1])
        ev = {}
        for k, path in byfam[fam]:
            e = {"op": "handle", "fam": fam, "path": path, "exists": 0}
            if k in seen:
                f = family(fam, path)
                e.update(type=seen[k][0], same=seen[k][1], count=seen[k][2], offered=[n for n, _ in PROBES[f]], grants=grants[(f, seen[k][0])])
            e["exists"] = int(k + 1 in good)
            e["ran"] = int(k in seen)
            ev[k] = e
        return ev

    def perms():
        seqs = [(k, t["perm"]) for k, t in enumerate(todo) if "perm" in t]
        seq = lambda p: "camp::idx_seq< %s >" % ", ".join(map(str, p))
        arrays = {k + 1: "void array%d() { LvArray::Array< int, %d, %s, L, LvArray::MallocBuffer > a; use( a ); }" % (k, len(p), seq(p)) for k, p in seqs if len(p) <= 3}
        units = {100000 + k: 'inline void unit%d() { constexpr auto a = LvArray::typeManipulation::asArray( %s {} ); std::printf( "%d\\tu\\t%%ld", L( LvArray::typeManipulation::getStrideOneDimension( %s {} ) ) ); for( int i = 0; i < %d; ++i ) std::printf( " %%ld", L( a[ i ] ) ); std::printf( "\\n" ); }'
                 % (k, seq(p), k, seq(p), len(p)) for k, p in seqs}
        lines = {**arrays, **units}
        facts = "".join('std::printf( "%d\\tv\\t%%d %%ld\\n", int( LvArray::typeManipulation::isValidPermutation( %s {} ) ), L( LvArray::typeManipulation::getDimension( %s {} ) ) );\n' % (k, seq(p), seq(p)) for k, p in seqs)
        tail = lambda good: "int main() { %s\n%s return 0; }\n" % (facts, "".join("unit%d();\n" % (i - 100000) for i in good if i >= 100000))
        good = settle(comp, "perms", PRELUDE, lines, tail, link=True)
        r = subprocess.run([os.path.join(a.work, "perms")], stdout=subprocess.PIPE, universal_newlines=True, timeout=60)
        ev = {k: {"op": "perm", "perm": p, "valid": -1, "dim": -1, "unit": -1, "list": []} for k, p in seqs}
        for k in arrays:
            ev[k - 1]["array"] = int(k in good)
        for l in r.stdout.splitlines():
            k, w, v = l.split("\t")
            v = list(map(int, v.split()))
            if w == "v":
                ev[int(k)].update(valid=v[0], dim=v[1])
            else:
                ev[int(k)].update(unit=v[0], list=v[1:])
        return ev

    with ThreadPoolExecutor(int(a.jobs or 8)) as ex:
        res = {}
        if any("perm" in t for t in todo):
            later = ex.submit(perms)
        for ev in ex.map(one, byfam):
            res.update(ev)
        if any("perm" in t for t in todo):
            res.update(later.result())
    with open(a.out, "w") as f:
        for k in range(len(todo)):
            f.write('{"op":"begin","n":%d}\n' % k)
            f.write(json.dumps(res[k], separators=(",", ":")) + "\n")
        f.write('{"op":"end"}\n')
    return 0


if __name__ == "__main__":
    sys.exit(main())
