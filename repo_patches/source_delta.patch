From 59718f67631baf02b2a11869b66b27a5c1c63ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 01/56] fix: integerConversion checks a signed value converted
 to a wider unsigned type

---
 src/limits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/limits.hpp b/src/limits.hpp
index 9a55104..e639f68 100644
--- a/src/limits.hpp
+++ b/src/limits.hpp
@@ -120,8 +120,8 @@ constexpr bool sameSignedness = ( std::is_signed< T >::value && std::is_signed<
  * @brief True iff @tparam OUTPUT can hold every possible value of @tparam INPUT.
  */
 template< typename INPUT, typename OUTPUT >
-constexpr bool canEasilyConvert = sizeof( INPUT ) < sizeof( OUTPUT ) ||
-                                  ( sizeof( INPUT ) == sizeof( OUTPUT ) && sameSignedness< INPUT, OUTPUT > );
+constexpr bool canEasilyConvert = std::numeric_limits< INPUT >::digits <= std::numeric_limits< OUTPUT >::digits &&
+                                  ( sameSignedness< INPUT, OUTPUT > || std::is_signed< OUTPUT >::value );
 
 } // namespace internal
 
-- 
2.43.0


From 0c62d7a1402382d534d8faeefa1157e267b016b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 02/56] fix: marshal_unsigned_body compares the whole value
 with the base

The comparison truncated the value to int: an address whose low 32 bits are
negative or below the base indexed the table of digits far out of bounds.
---
 src/totalview/tv_data_display.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/totalview/tv_data_display.c b/src/totalview/tv_data_display.c
index 7770087..58b54f4 100644
--- a/src/totalview/tv_data_display.c
+++ b/src/totalview/tv_data_display.c
@@ -166,7 +166,7 @@ marshal_unsigned_body ( char * buffer, size_t len, size_t val, int base,
   char * my_buffer  = buffer;
   size_t my_len     = len;
 
-  if( (int)val < base )
+  if( val < (size_t) base )
   {
     r = val;
   }
-- 
2.43.0


From 88bf29f03a7d4d709221adcdd2a342ee9c7dce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 03/56] fix: rows of the debugger display never overrun the
 buffer

The room left was computed with the operands exchanged, so it grew with every
row, and a string that does not fit made marshal_string loop forever.
---
 src/totalview/tv_data_display.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/totalview/tv_data_display.c b/src/totalview/tv_data_display.c
index 58b54f4..4c54921 100644
--- a/src/totalview/tv_data_display.c
+++ b/src/totalview/tv_data_display.c
@@ -139,9 +139,10 @@ marshal_string ( char * buffer, size_t len, const char * s,
     ret_val++;
     if( len > 1 )
     {
-      *cursor++ = *s++;
+      *cursor++ = *s;
       len--;
     }
+    s++;
   }
   if( len > 0 )
     *cursor = '\0';
@@ -269,8 +270,8 @@ int TV_ttf_add_row( const char * field_name,
     TV_ttf_data_format_control = TV_FORMAT_APPEND_CALL;
   }
 
-  remaining = TV_ttf_data_buffer_ptr +
-              DATA_FORMAT_BUFFER_SIZE - TV_ttf_data_format_buffer;
+  remaining = TV_ttf_data_format_buffer +
+              DATA_FORMAT_BUFFER_SIZE - TV_ttf_data_buffer_ptr;
 
 /*
    out = snprintf(TV_ttf_data_buffer_ptr,
@@ -280,8 +281,12 @@ int TV_ttf_add_row( const char * field_name,
   out = marshal_row ( TV_ttf_data_buffer_ptr, remaining,
                       field_name, type_name, value, 0, 0 );
 
-  if( out < 1 )
+  /* The row was cut short, remove what was written of it. */
+  if( out < 1 || (size_t) out >= remaining )
+  {
+    *TV_ttf_data_buffer_ptr = '\0';
     return TV_ttf_ec_buffer_exhausted;
+  }
 
   TV_ttf_data_buffer_ptr += out;
 
-- 
2.43.0


From c1285605b1756bc73307f5be2224d093a8745ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 04/56] fix: ArrayView::TV_ttf_display_type names its buffer
 with demangleType

system::demangle is not a template, so nothing compiled with
LVARRAY_USE_TOTALVIEW_OUTPUT.
---
 src/ArrayView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index cbbf669..0565898 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -705,7 +705,7 @@ public:
       // TV_ttf_add_row( "m_data", totalview::format< T, INDEX_TYPE >( 0, av->m_dims ).c_str(), (av->m_data) );
       TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims) );
       TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides) );
-      TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangle< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) );
+      TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangleType< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) );
       TV_ttf_add_row( "m_singleParameterResizeIndex", "int", &(av->m_singleParameterResizeIndex) );
     }
     return 0;
-- 
2.43.0


From 4ddda25f7fd09f14b77df5f760f10f7ef8aa8471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 05/56] fix: calculateSize does not cut off the unit of large
 sizes

From 10000 GB on the text did not fit the buffer of ten characters. The padding
in ChaiBuffer::setName relied on at most nine characters.
---
 src/ChaiBuffer.hpp | 2 +-
 src/system.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 7a3bfd5..11bed6e 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -449,7 +449,7 @@ public:
       if( act == chai::ACTION_MOVE )
       {
         std::string const size = system::calculateSize( record->m_size );
-        std::string const paddedSize = std::string( 9 - size.size(), ' ' ) + size;
+        std::string const paddedSize = std::string( size.size() < 9 ? 9 - size.size() : 0, ' ' ) + size;
         char const * const spaceStr = ( s == chai::CPU ) ? "HOST  " : "DEVICE";
         LVARRAY_LOG( "Moved " << paddedSize << " to the " << spaceStr << ": " << typeString << " " << name );
       }
diff --git a/src/system.cpp b/src/system.cpp
index 019fe66..2dd5c58 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -425,8 +425,8 @@ std::string calculateSize( size_t const bytes )
 
   double const units = double( bytes ) / ( 1 << shift );
 
-  char result[10];
-  std::snprintf( result, 10, "%.1f %s", units, suffix );
+  char result[32];
+  std::snprintf( result, sizeof( result ), "%.1f %s", units, suffix );
   return result;
 }
 
-- 
2.43.0


From 4a6d6d84cb60380304ab0419dc0055753291bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 06/56] fix: LVARRAY_ERROR_IF_LE and LVARRAY_THROW_IF_LE test
 for less or equal

They were defined through the greater-or-equal macros.
---
 src/Macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Macros.hpp b/src/Macros.hpp
index aa8fe6f..da2ce11 100644
--- a/src/Macros.hpp
+++ b/src/Macros.hpp
@@ -446,7 +446,7 @@
  * @param lhs expression to be evaluated and used as left-hand side in comparison
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  */
-#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_GE_MSG( lhs, rhs, "" )
+#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_LE_MSG( lhs, rhs, "" )
 
 /**
  * @brief Throw an exception if one value compares less than or equal to the other.
@@ -454,7 +454,7 @@
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  * @param TYPE the type of exception to throw
  */
-#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_GE_MSG( lhs, rhs, "", TYPE )
+#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_LE_MSG( lhs, rhs, "", TYPE )
 
 /**
  * @brief Abort execution if @p lhs @p OP @p rhs is false.
-- 
2.43.0


From f6bb976c6046523786a9c429bb11867fc3d96c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 07/56] fix: resetSignalHandling restores the handlers from
 before the first setSignalHandling

Every further call of setSignalHandling, including the one in stackTraceHandler,
recorded LvArray's own handlers as the initial ones.
---
 src/system.cpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/system.cpp b/src/system.cpp
index 2dd5c58..ae927fb 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -490,25 +490,26 @@ void stackTraceHandler( int const sig, bool const exit )
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 void setSignalHandling( void (* handler)( int ) )
 {
-  initialHandler[SIGHUP] = signal( SIGHUP, handler );
-  initialHandler[SIGINT] = signal( SIGINT, handler );
-  initialHandler[SIGQUIT] = signal( SIGQUIT, handler );
-  initialHandler[SIGILL] = signal( SIGILL, handler );
-  initialHandler[SIGTRAP] = signal( SIGTRAP, handler );
-  initialHandler[SIGABRT] = signal( SIGABRT, handler );
+  // The handlers in place before the first call are the initial ones: emplace keeps what was recorded before.
+  initialHandler.emplace( SIGHUP, signal( SIGHUP, handler ) );
+  initialHandler.emplace( SIGINT, signal( SIGINT, handler ) );
+  initialHandler.emplace( SIGQUIT, signal( SIGQUIT, handler ) );
+  initialHandler.emplace( SIGILL, signal( SIGILL, handler ) );
+  initialHandler.emplace( SIGTRAP, signal( SIGTRAP, handler ) );
+  initialHandler.emplace( SIGABRT, signal( SIGABRT, handler ) );
 #if  (defined(_POSIX_C_SOURCE) && !defined(_DARWIN_C_SOURCE))
-  initialHandler[SIGPOLL] = signal( SIGPOLL, handler );
+  initialHandler.emplace( SIGPOLL, signal( SIGPOLL, handler ) );
 #else
-  initialHandler[SIGIOT] = signal( SIGIOT, handler );
-  initialHandler[SIGEMT] = signal( SIGEMT, handler );
+  initialHandler.emplace( SIGIOT, signal( SIGIOT, handler ) );
+  initialHandler.emplace( SIGEMT, signal( SIGEMT, handler ) );
 #endif
-  initialHandler[SIGFPE] = signal( SIGFPE, handler );
-  initialHandler[SIGKILL] = signal( SIGKILL, handler );
-  initialHandler[SIGBUS] = signal( SIGBUS, handler );
-  initialHandler[SIGSEGV] = signal( SIGSEGV, handler );
-  initialHandler[SIGSYS] = signal( SIGSYS, handler );
-  initialHandler[SIGPIPE] = signal( SIGPIPE, handler );
-  initialHandler[SIGTERM] = signal( SIGTERM, handler );
+  initialHandler.emplace( SIGFPE, signal( SIGFPE, handler ) );
+  initialHandler.emplace( SIGKILL, signal( SIGKILL, handler ) );
+  initialHandler.emplace( SIGBUS, signal( SIGBUS, handler ) );
+  initialHandler.emplace( SIGSEGV, signal( SIGSEGV, handler ) );
+  initialHandler.emplace( SIGSYS, signal( SIGSYS, handler ) );
+  initialHandler.emplace( SIGPIPE, signal( SIGPIPE, handler ) );
+  initialHandler.emplace( SIGTERM, signal( SIGTERM, handler ) );
 
   return;
 }
@@ -520,6 +521,8 @@ void resetSignalHandling()
   {
     signal( a.first, a.second );
   }
+
+  initialHandler.clear();
 }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From c0b737d810100d37235c552d420935160a9e316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 08/56] fix: introsortLoop never pushes more ranges than its
 stack holds

Unfavourable inputs nest more than 31 ranges: the stack was overrun. Such a
range is now left to the insertion sort that follows.
---
 src/sortedArrayManipulationHelpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sortedArrayManipulationHelpers.hpp b/src/sortedArrayManipulationHelpers.hpp
index be6765b..de8067c 100644
--- a/src/sortedArrayManipulationHelpers.hpp
+++ b/src/sortedArrayManipulationHelpers.hpp
@@ -650,9 +650,9 @@ LVARRAY_HOST_DEVICE inline void introsortLoop( RandomAccessIterator first, Rando
   {
     RandomAccessIterator const m_first = ranges[nRanges - 1];
 
-    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD )
+    // A range that no longer fits on the stack is left to the insertion sort.
+    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD && nRanges < MAX_RANGES )
     {
-      LVARRAY_ASSERT( nRanges < MAX_RANGES );
       ranges[nRanges + 1] = ranges[nRanges];
       ranges[nRanges] = unguardedPartitionPivot( m_first, ranges[nRanges], comp );
       ++nRanges;
-- 
2.43.0


From e9c4a18f8406a9212fa46857370322e6f91a3a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 09/56] fix: arrayManipulation::resize builds every new element
 from the same arguments

An rvalue argument was forwarded to the constructor of each new element in turn, so only the first one got its value.
---
 src/arrayManipulation.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 9cf25ee..86a1312 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -274,7 +274,7 @@ void uninitializedShiftUp( T * const LVARRAY_RESTRICT ptr,
  * @param ptr Pointer to the array.
  * @param size The size of the array.
  * @param newSize the new size.
- * @param args the arguments to forward to construct any new elements with.
+ * @param args the arguments to construct any new elements with.
  */
 DISABLE_HD_WARNING
 template< typename T, typename ... ARGS >
@@ -301,9 +301,10 @@ void resize( T * const LVARRAY_RESTRICT ptr,
   }
   else
   {
+    // The arguments are used for each new element so they can't be forwarded.
     for( std::ptrdiff_t i = size; i < newSize; ++i )
     {
-      new ( ptr + i ) T( std::forward< ARGS >( args )... );
+      new ( ptr + i ) T( args ... );
     }
   }
 }
-- 
2.43.0


From 6f06b5a34e1ddd1322a2ba7b985a351e40203d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 10/56] fix: shiftUp destroys each moved-from value before
 constructing over it

When shifting by less than the number of values behind the gap, new values were constructed over live moved-from ones, which were never destroyed.
---
 src/arrayManipulation.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 86a1312..cb4621c 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -334,16 +334,14 @@ void shiftUp( T * const LVARRAY_RESTRICT ptr,
   if( n == 0 )
     return;
 
-  // Move the existing values up by n.
+  // Move the existing values up by n, deleting the values moved out of
+  // before anything else is constructed in their place.
   for( std::ptrdiff_t i = size; i > index; --i )
   {
     std::ptrdiff_t const curIndex = i - 1;
     new ( ptr + curIndex + n ) T( std::move( ptr[ curIndex ] ) );
+    ptr[ curIndex ].~T();
   }
-
-  // Delete the values moved out of.
-  std::ptrdiff_t const bounds = (index + n < size) ? index + n : size;
-  destroy( ptr + index, bounds - index );
 }
 
 /**
-- 
2.43.0


From 5315f7b3f066c288e9fa055ad8533d14a0edb230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 11/56] fix: move assignment of Array releases what the target
 held

The destination's buffer and values were leaked, and assigning an array to itself emptied it and leaked its contents.
---
 src/Array.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Array.hpp b/src/Array.hpp
index 69fc34e..65cb655 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -192,6 +192,9 @@ public:
   LVARRAY_HOST_DEVICE
   Array & operator=( Array && rhs )
   {
+    if( this == &rhs ) return *this;
+
+    bufferManipulation::free( this->m_dataBuffer, this->size() );
     ParentClass::operator=( std::move( rhs ) );
 
     for( int i = 0; i < NDIM; ++i )
-- 
2.43.0


From 276b2c985ecbc975d14227fcc0e01983abe27ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 12/56] fix: inserting an empty range needs no storage

The assertion in arrayManipulation::insert failed for an empty range inserted into an array that has not allocated anything.
---
 src/arrayManipulation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index cb4621c..b8a6837 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -504,7 +504,7 @@ void insert( T * const LVARRAY_RESTRICT ptr,
              ITERATOR first,
              std::ptrdiff_t const n )
 {
-  LVARRAY_ASSERT( ptr != nullptr );
+  LVARRAY_ASSERT( ptr != nullptr || n == 0 );
   LVARRAY_ASSERT( isPositive( size ) );
   ARRAYMANIPULATION_CHECK_INSERT_BOUNDS( index );
 
-- 
2.43.0


From 378736154c63daba8538be87a4c466e92b354423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 13/56] fix: move assignment of SortedArray releases what the
 target held

The destination's buffer and values were leaked, and assigning an array to itself leaked its contents.
---
 src/SortedArray.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/SortedArray.hpp b/src/SortedArray.hpp
index 58ea36f..7148889 100644
--- a/src/SortedArray.hpp
+++ b/src/SortedArray.hpp
@@ -106,12 +106,19 @@ public:
   }
 
   /**
-   * @brief Default move assignment operator, performs a shallow copy.
+   * @brief Move assignment operator, performs a shallow copy after releasing the current values.
    * @param src the SortedArray to be moved from.
    * @return *this.
    */
   inline
-  SortedArray & operator=( SortedArray && src ) = default;
+  SortedArray & operator=( SortedArray && src )
+  {
+    if( this == &src ) return *this;
+
+    bufferManipulation::free( this->m_values, size() );
+    ParentClass::operator=( std::move( src ) );
+    return *this;
+  }
 
   ///@}
 
-- 
2.43.0


From 825213532bc25419953be015b1aaa73d4558393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 14/56] fix: assigning an ArrayOfArrays over existing values or
 to itself

---
 src/ArrayOfArraysView.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 7aebc59..7ac3acc 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -833,6 +833,9 @@ protected:
                    BUFFER_TYPE< T > const & srcValues,
                    PAIRS_OF_BUFFERS && ... pairs )
   {
+    // Nothing to do when assigning to self.
+    if( &srcOffsets == &m_offsets ) return;
+
     destroyValues( 0, m_numArrays, pairs.first ... );
 
     INDEX_TYPE const offsetsSize = ( m_numArrays == 0 ) ? 0 : m_numArrays + 1;
@@ -840,10 +843,10 @@ protected:
     bufferManipulation::copyInto( m_offsets, offsetsSize, srcOffsets, srcNumArrays + 1 );
     bufferManipulation::copyInto( m_sizes, m_numArrays, srcSizes, srcNumArrays );
 
-    INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-    typeManipulation::forEachArg( [maxOffset, srcMaxOffset]( auto & dstBuffer )
+    // All the values have been destroyed so there is nothing to preserve when reallocating.
+    typeManipulation::forEachArg( [srcMaxOffset]( auto & dstBuffer )
     {
-      bufferManipulation::reserve( dstBuffer, maxOffset, MemorySpace::host, srcMaxOffset );
+      bufferManipulation::reserve( dstBuffer, 0, MemorySpace::host, srcMaxOffset );
     }, m_values, pairs.first ... );
 
     m_numArrays = srcNumArrays;
-- 
2.43.0


From 0bd97088b1f6cc539f9f3cb3a055222e0a6d54d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 15/56] fix: growing the values of an ArrayOfArrays does not
 touch slots without a value

---
 src/ArrayOfArraysView.hpp | 50 +++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 7ac3acc..5ad7da1 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -645,10 +645,9 @@ protected:
   template< class ... BUFFERS >
   void reserveValues( INDEX_TYPE const newValueCapacity, BUFFERS & ... buffers )
   {
-    INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-    typeManipulation::forEachArg( [newValueCapacity, maxOffset] ( auto & buffer )
+    typeManipulation::forEachArg( [this, newValueCapacity] ( auto & buffer )
     {
-      bufferManipulation::reserve( buffer, maxOffset, MemorySpace::host, newValueCapacity );
+      if( newValueCapacity > buffer.capacity() ) setValueCapacity( buffer, newValueCapacity );
     }, m_values, buffers ... );
   }
 
@@ -784,10 +783,9 @@ protected:
 
         INDEX_TYPE const totalSize = m_offsets[ newSize ];
 
-        INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-        typeManipulation::forEachArg( [totalSize, maxOffset]( auto & buffer )
+        typeManipulation::forEachArg( [this, totalSize]( auto & buffer )
         {
-          bufferManipulation::reserve( buffer, maxOffset, MemorySpace::host, totalSize );
+          if( totalSize > buffer.capacity() ) setValueCapacity( buffer, totalSize );
         }, m_values, buffers ... );
       }
     }
@@ -892,7 +890,8 @@ protected:
         [this, i, maxOffset, capacityIncrease]( auto & buffer )
       {
         // Increase the size of the buffer.
-        bufferManipulation::dynamicReserve( buffer, maxOffset, maxOffset + capacityIncrease );
+        INDEX_TYPE const newMaxOffset = maxOffset + capacityIncrease;
+        if( newMaxOffset > buffer.capacity() ) setValueCapacity( buffer, 2 * newMaxOffset );
 
         // Shift up the values.
         for( INDEX_TYPE array = m_numArrays - 1; array > i; --array )
@@ -975,6 +974,43 @@ protected:
 
 private:
 
+  /**
+   * @brief Set the capacity of @p buffer, keeping the values of each array.
+   * @tparam BUFFER the type of the buffer.
+   * @param buffer the buffer to reallocate, either m_values or one treated similarly.
+   * @param newCapacity the new capacity, must be greater than the current one.
+   * @details The slots between the size and the capacity of an array don't contain values. Unless the values can be
+   *   copied like raw memory they are packed together before reallocating and spread out again afterwards.
+   */
+  template< typename BUFFER >
+  void setValueCapacity( BUFFER & buffer, INDEX_TYPE const newCapacity )
+  {
+    if( std::is_trivially_copyable< typename BUFFER::value_type >::value )
+    {
+      INDEX_TYPE const maxOffset = ( m_numArrays == 0 ) ? 0 : m_offsets[ m_numArrays ];
+      bufferManipulation::setCapacity( buffer, maxOffset, MemorySpace::host, newCapacity );
+      return;
+    }
+
+    buffer.move( MemorySpace::host, true );
+
+    INDEX_TYPE_NC numValues = 0;
+    for( INDEX_TYPE_NC i = 0; i < m_numArrays; ++i )
+    {
+      INDEX_TYPE const offset = m_offsets[ i ];
+      arrayManipulation::uninitializedShiftDown( buffer.data() + offset, sizeOfArray( i ), offset - numValues );
+      numValues += sizeOfArray( i );
+    }
+
+    bufferManipulation::setCapacity( buffer, numValues, MemorySpace::host, newCapacity );
+
+    for( INDEX_TYPE_NC i = m_numArrays - 1; i >= 0; --i )
+    {
+      numValues -= sizeOfArray( i );
+      arrayManipulation::uninitializedShiftUp( buffer.data() + numValues, sizeOfArray( i ), m_offsets[ i ] - numValues );
+    }
+  }
+
   /**
    * @brief Destroy the values in arrays in the range [begin, end).
    * @tparam BUFFERS variadic template where each type is a BUFFER_TYPE.
-- 
2.43.0


From 823ef871710ec1a546f8d602f1cbd7213b9ec732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 16/56] fix: ArrayOfArraysView::capacity is right when the
 sizes have more room than the offsets

---
 src/ArrayOfArraysView.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 5ad7da1..ce99533 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -369,8 +369,8 @@ public:
   LVARRAY_HOST_DEVICE CONSTEXPR_WITH_NDEBUG inline
   INDEX_TYPE_NC capacity() const
   {
-    LVARRAY_ASSERT( m_sizes.capacity() < m_offsets.capacity());
-    return m_sizes.capacity();
+    // There is one more offset than there are arrays and the two buffers grow independently.
+    return ( m_sizes.capacity() < m_offsets.capacity() || m_offsets.capacity() == 0 ) ? m_sizes.capacity() : m_offsets.capacity() - 1;
   }
 
   /**
-- 
2.43.0


From e4effb976af851f36f23163657beb235fa1f83fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 17/56] fix: ArrayOfArraysView::appendToArray checks the
 capacity before it writes

---
 src/ArrayOfArraysView.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index ce99533..fdc23b0 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -485,9 +485,11 @@ public:
   {
     ARRAYOFARRAYS_CHECK_BOUNDS( i );
 
-    T * const ptr = m_values.data() + m_offsets[ i ];
-    INDEX_TYPE const n = arrayManipulation::append( ptr, sizeOfArray( i ), first, last );
+    INDEX_TYPE const n = arrayManipulation::iterDistance( first, last );
     ARRAYOFARRAYS_CAPACITY_CHECK( i, n );
+
+    T * const ptr = m_values.data() + m_offsets[ i ];
+    arrayManipulation::append( ptr, sizeOfArray( i ), first, last );
     m_sizes[ i ] += n;
   }
 
-- 
2.43.0


From 40825ca9e380749d4836da335b474dc06b512273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 18/56] fix: reserveNonZeros of a row never lowers its capacity

---
 src/CRSMatrix.hpp       | 3 ++-
 src/SparsityPattern.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index ddd786c..b879e1f 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -317,7 +317,8 @@ public:
   inline
   void reserveNonZeros( INDEX_TYPE const row, INDEX_TYPE const nnz )
   {
-    if( nonZeroCapacity( row ) >= nnz ) return;
+    // A row never needs room for more than numColumns() entries and must not lose the room it has.
+    if( nonZeroCapacity( row ) >= nnz || nonZeroCapacity( row ) >= numColumns() ) return;
     setRowCapacity( row, nnz );
   }
 
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 652d5e5..3590fec 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -243,7 +243,8 @@ public:
   inline
   void reserveNonZeros( INDEX_TYPE const row, INDEX_TYPE const nnz )
   {
-    if( nonZeroCapacity( row ) >= nnz ) return;
+    // A row never needs room for more than numColumns() entries and must not lose the room it has.
+    if( nonZeroCapacity( row ) >= nnz || nonZeroCapacity( row ) >= numColumns() ) return;
     setRowCapacity( row, nnz );
   }
 
-- 
2.43.0


From 954bea1db8eea12c955a15c6732042da6eec39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 19/56] fix: check columns wherever entries are inserted or
 removed

---
 src/CRSMatrix.hpp       | 17 +++++++++++++++--
 src/CRSMatrixView.hpp   | 30 +++++++++++++++++++++++++++---
 src/SparsityPattern.hpp | 17 +++++++++++++++--
 3 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index b879e1f..3568a60 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -377,7 +377,11 @@ public:
    */
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry )
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+  }
 
   /**
    * @brief Insert a non-zero entries into the given row.
@@ -394,7 +398,16 @@ public:
                              COL_TYPE const * const cols,
                              T const * const entriesToInsert,
                              INDEX_TYPE const ncols )
-  { return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) );
+  }
 
   using ParentClass::removeNonZero;
   using ParentClass::removeNonZeros;
diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index 703688c..d7c7337 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -276,7 +276,11 @@ public:
    */
   LVARRAY_HOST_DEVICE inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry ) const
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+  }
 
   /**
    * @brief Insert a non-zero entries into the given row.
@@ -294,7 +298,16 @@ public:
                                 COL_TYPE const * const LVARRAY_RESTRICT cols,
                                 T const * const LVARRAY_RESTRICT entriesToInsert,
                                 INDEX_TYPE const ncols ) const
-  { return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE_NC i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) );
+  }
 
   /**
    * @brief Remove a non-zero entry at the given position.
@@ -304,7 +317,11 @@ public:
    */
   LVARRAY_HOST_DEVICE inline
   bool removeNonZero( INDEX_TYPE const row, COL_TYPE const col ) const
-  { return ParentClass::removeFromSetImpl( row, col, CallBacks( *this, row, nullptr )); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::removeFromSetImpl( row, col, CallBacks( *this, row, nullptr ));
+  }
 
   /**
    * @brief Remove non-zero entries from the given row.
@@ -320,6 +337,13 @@ public:
                                 COL_TYPE const * const LVARRAY_RESTRICT cols,
                                 INDEX_TYPE const ncols ) const
   {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE_NC i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
     T * const entries = getEntries( row );
     INDEX_TYPE const rowNNZ = numNonZeros( row );
     INDEX_TYPE const nRemoved = ParentClass::removeFromSetImpl( row, cols, cols + ncols, CallBacks( *this, row, nullptr ) );
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 3590fec..b34de90 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -325,7 +325,11 @@ public:
    */
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col )
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row ) );
+  }
 
   /**
    * @tparam ITER An iterator type.
@@ -339,7 +343,16 @@ public:
   template< typename ITER >
   inline
   INDEX_TYPE insertNonZeros( INDEX_TYPE const row, ITER const first, ITER const last )
-  { return ParentClass::insertIntoSetImpl( row, first, last, CallBacks( *this, row ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( ITER iter = first; iter != last; ++iter )
+    { SPARSITYPATTERN_COLUMN_CHECK( *iter ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, first, last, CallBacks( *this, row ) );
+  }
 
   using ParentClass::removeNonZero;
 
-- 
2.43.0


From c07fbaa43d202ba82fc6e99a4de7c0992e0f2337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 20/56] fix: nonZeroCapacity of a CRSMatrix does not exceed the
 room for its entries

---
 src/CRSMatrixView.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index d7c7337..d16f662 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -15,6 +15,7 @@
 #include "SparsityPatternView.hpp"
 #include "arrayManipulation.hpp"
 #include "ArraySlice.hpp"
+#include "math.hpp"
 #include "umpireInterface.hpp"
 
 namespace LvArray
@@ -222,9 +223,23 @@ public:
   using ParentClass::numRows;
   using ParentClass::numColumns;
   using ParentClass::numNonZeros;
-  using ParentClass::nonZeroCapacity;
   using ParentClass::empty;
 
+  /**
+   * @return Return the total number of non zero entries able to be stored without a reallocation.
+   * @note The columns and the entries are held by different buffers which can differ in their capacity.
+   */
+  LVARRAY_HOST_DEVICE constexpr inline
+  INDEX_TYPE_NC nonZeroCapacity() const
+  { return math::min( ParentClass::nonZeroCapacity(), static_cast< INDEX_TYPE_NC >( m_entries.capacity() ) ); }
+
+  /**
+   * @copydoc ParentClass::nonZeroCapacity( INDEX_TYPE const ) const
+   */
+  LVARRAY_HOST_DEVICE constexpr inline
+  INDEX_TYPE_NC nonZeroCapacity( INDEX_TYPE const row ) const
+  { return ParentClass::nonZeroCapacity( row ); }
+
   ///@}
 
   /**
-- 
2.43.0


From 1165d4c3ca8efa8c5c805f8e2178f68903ba6882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 21/56] fix: Array resize checks all new dimensions before
 changing any

---
 src/Array.hpp | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index 65cb655..f663b6d 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -300,13 +300,17 @@ public:
   {
     LVARRAY_ERROR_IF_NE( numDims, NDIM );
 
-    INDEX_TYPE const oldSize = this->size();
+    // Check all of the new dimensions before changing any of them.
+    typeManipulation::CArray< INDEX_TYPE, NDIM > checkedDims = this->m_dims;
     for( int i = 0; i < NDIM; ++i )
     {
-      this->m_dims[ i ] = LvArray::integerConversion< INDEX_TYPE >( dims[ i ] );
-      LVARRAY_ERROR_IF_LT( this->m_dims[ i ], 0 );
+      checkedDims[ i ] = LvArray::integerConversion< INDEX_TYPE >( dims[ i ] );
+      LVARRAY_ERROR_IF_LT( checkedDims[ i ], 0 );
     }
 
+    INDEX_TYPE const oldSize = this->size();
+    this->m_dims = checkedDims;
+
     this->m_strides = indexing::calculateStrides< PERMUTATION >( this->m_dims );
 
     bufferManipulation::resize( this->m_dataBuffer, oldSize, this->size() );
@@ -325,16 +329,20 @@ public:
   resize( DIMS const ... newDims )
   {
     static_assert( sizeof ... ( DIMS ) == NDIM, "The number of arguments provided does not equal NDIM!" );
-    INDEX_TYPE const oldSize = this->size();
 
+    // Check all of the new dimensions before changing any of them.
+    typeManipulation::CArray< INDEX_TYPE, NDIM > checkedDims = this->m_dims;
     int curDim = 0;
     typeManipulation::forEachArg( [&]( auto const newDim )
     {
-      this->m_dims[ curDim ] = LvArray::integerConversion< INDEX_TYPE >( newDim );
-      LVARRAY_ERROR_IF_LT( this->m_dims[ curDim ], 0 );
+      checkedDims[ curDim ] = LvArray::integerConversion< INDEX_TYPE >( newDim );
+      LVARRAY_ERROR_IF_LT( checkedDims[ curDim ], 0 );
       ++curDim;
     }, newDims ... );
 
+    INDEX_TYPE const oldSize = this->size();
+    this->m_dims = checkedDims;
+
     this->m_strides = indexing::calculateStrides< PERMUTATION >( this->m_dims );
 
     bufferManipulation::resize( this->m_dataBuffer, oldSize, this->size() );
@@ -370,16 +378,19 @@ public:
     static_assert( std::is_trivially_destructible< T >::value,
                    "This function is only safe if T is trivially destructable." );
 
-    INDEX_TYPE const oldSize = this->size();
-
+    // Check all of the new dimensions before changing any of them.
+    typeManipulation::CArray< INDEX_TYPE, NDIM > checkedDims = this->m_dims;
     int i = 0;
     typeManipulation::forEachArg( [&]( auto const newDim )
     {
-      this->m_dims[ i ] = LvArray::integerConversion< INDEX_TYPE >( newDim );
-      LVARRAY_ERROR_IF_LT( this->m_dims[ i ], 0 );
+      checkedDims[ i ] = LvArray::integerConversion< INDEX_TYPE >( newDim );
+      LVARRAY_ERROR_IF_LT( checkedDims[ i ], 0 );
       ++i;
     }, newDims ... );
 
+    INDEX_TYPE const oldSize = this->size();
+    this->m_dims = checkedDims;
+
     this->m_strides = indexing::calculateStrides< PERMUTATION >( this->m_dims );
 
     bufferManipulation::reserve( this->m_dataBuffer, oldSize, space, this->size() );
@@ -403,14 +414,17 @@ public:
     static_assert( typeManipulation::all_of< ( 0 <= INDICES ) ... >::value, "INDICES must all be positive." );
     static_assert( typeManipulation::all_of< ( INDICES < NDIM ) ... >::value, "INDICES must all be less than NDIM." );
 
-    INDEX_TYPE const oldSize = this->size();
-
+    // Check all of the new dimensions before changing any of them.
+    typeManipulation::CArray< INDEX_TYPE, NDIM > checkedDims = this->m_dims;
     typeManipulation::forEachArg( [&]( auto const & pair )
     {
-      this->m_dims[ camp::get< 0 >( pair ) ] = LvArray::integerConversion< INDEX_TYPE >( camp::get< 1 >( pair ) );
-      LVARRAY_ERROR_IF_LT( this->m_dims[ camp::get< 0 >( pair ) ], 0 );
+      checkedDims[ camp::get< 0 >( pair ) ] = LvArray::integerConversion< INDEX_TYPE >( camp::get< 1 >( pair ) );
+      LVARRAY_ERROR_IF_LT( checkedDims[ camp::get< 0 >( pair ) ], 0 );
     }, camp::make_tuple( INDICES, newDims )... );
 
+    INDEX_TYPE const oldSize = this->size();
+    this->m_dims = checkedDims;
+
     this->m_strides = indexing::calculateStrides< PERMUTATION >( this->m_dims );
 
     bufferManipulation::resize( this->m_dataBuffer, oldSize, this->size() );
-- 
2.43.0


From 391df2ad2a49837d3f75acdd26f18425ade4f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 22/56] fix: an empty slice is contiguous

---
 src/ArraySlice.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index b4e2234..b56d968 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -217,6 +217,7 @@ public:
   {
     if( USD < 0 ) return false;
     if( NDIM == 1 && USD == 0 ) return true;
+    if( size() == 0 ) return true;
 
     bool rval = true;
     for( int i = 0; i < NDIM; ++i )
-- 
2.43.0


From 7d6bd1ef8bfe98360071580ebc1cfab95036a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 23/56] fix: a ChaiBuffer that has been moved from can be
 reallocated

Assigning to a container that has been moved from reallocates its buffers. Without a pointer record
reallocate dereferenced a null pointer.
---
 src/ChaiBuffer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 11bed6e..dd42f3d 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -280,6 +280,10 @@ public:
    */
   void reallocate( std::ptrdiff_t const size, MemorySpace const space, std::ptrdiff_t const newCapacity )
   {
+    // A buffer which has been moved from doesn't have a record, reallocating makes it usable again.
+    if( m_pointerRecord == nullptr )
+    { *this = ChaiBuffer( true ); }
+
     chai::PointerRecord * const newRecord = new chai::PointerRecord{};
     newRecord->m_size = newCapacity * sizeof( T );
     newRecord->m_user_callback = m_pointerRecord->m_user_callback;
-- 
2.43.0


From 5b2862eaaea5b947ad24ec7030a8e8474bf07291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 24/56] fix: ArraySlice::size( dim ) and stride( dim ) report
 negative dimensions when checking bounds

---
 src/ArraySlice.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index b56d968..6421feb 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -190,6 +190,7 @@ public:
   INDEX_TYPE size( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
+    LVARRAY_ERROR_IF_LT( dim, 0 );
     LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_dims[ dim ];
@@ -203,6 +204,7 @@ public:
   INDEX_TYPE stride( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
+    LVARRAY_ERROR_IF_LT( dim, 0 );
     LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_strides[ dim ];
-- 
2.43.0


From f788fb6b632a4a8f43c3ae283f2faa1f9c22b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 25/56] fix: addToRowLinearSearch does not look past the end of
 the row for a missing column

With bounds checking a column that comes after every other column of the row was looked up behind the
end of the row: what happens to be there, such as the first column of the next row, could match.
---
 src/CRSMatrixView.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index d16f662..2bdcc2f 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -524,6 +524,7 @@ public:
           break;
         }
       }
+      LVARRAY_ASSERT_GT( nnz, curPos );
       LVARRAY_ASSERT_EQ( columns[ curPos ], cols[ i ] );
       internal::atomicAdd( AtomicPolicy{}, entries + curPos, vals[ i ] );
       ++curPos;
-- 
2.43.0


From 362e7358e9068ff54ff68999db75f29d5c4aed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 26/56] fix: ArrayView::size( dim ) is checked with
 LVARRAY_BOUNDS_CHECK in release builds as well

---
 src/ArrayView.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index 0565898..57c878d 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -416,8 +416,8 @@ public:
   INDEX_TYPE size( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
-    LVARRAY_ASSERT_GE( dim, 0 );
-    LVARRAY_ASSERT_GT( NDIM, dim );
+    LVARRAY_ERROR_IF_LT( dim, 0 );
+    LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_dims[ dim ];
   }
-- 
2.43.0


From 41c9dc3747518185469826de4aab114e68f2c4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 27/56] fix: ArrayOfSets::assimilate checks its input when
 bounds are checked

The check was guarded by a misspelled macro.
---
 src/ArrayOfSets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index c8b7519..c20f126 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -167,7 +167,7 @@ public:
       }
     }
 
-#ifdef ARRAY_BOUNDS_CHECK
+#ifdef LVARRAY_BOUNDS_CHECK
     consistencyCheck();
 #endif
   }
-- 
2.43.0


From b243cd0a83d8298c2f08d8ff98a2d326227e9cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 28/56] fix: sorted input and existing columns are checked with
 LVARRAY_BOUNDS_CHECK in release builds as well

The documentation has LVARRAY_BOUNDS_CHECK enable these checks, but they were only assertions.
---
 src/CRSMatrixView.hpp           | 20 ++++++++++++++++++++
 src/sortedArrayManipulation.hpp |  8 ++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index 2bdcc2f..7303d7d 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -470,7 +470,11 @@ public:
                              T const * const LVARRAY_RESTRICT vals,
                              INDEX_TYPE const nCols ) const
   {
+  #ifdef LVARRAY_BOUNDS_CHECK
+    LVARRAY_ERROR_IF( !sortedArrayManipulation::isSortedUnique( cols, cols + nCols ), "The columns must be sorted and unique." );
+  #else
     LVARRAY_ASSERT( sortedArrayManipulation::isSortedUnique( cols, cols + nCols ) );
+  #endif
 
     INDEX_TYPE const nnz = numNonZeros( row );
     COL_TYPE const * const columns = getColumns( row );
@@ -480,8 +484,12 @@ public:
     for( INDEX_TYPE_NC i = 0; i < nCols; ++i )
     {
       INDEX_TYPE const pos = sortedArrayManipulation::find( columns + curPos, nnz - curPos, cols[ i ] ) + curPos;
+    #ifdef LVARRAY_BOUNDS_CHECK
+      LVARRAY_ERROR_IF( pos >= nnz || columns[ pos ] != cols[ i ], "The row does not contain column " << cols[ i ] );
+    #else
       LVARRAY_ASSERT_GT( nnz, pos );
       LVARRAY_ASSERT_EQ( columns[ pos ], cols[ i ] );
+    #endif
 
       internal::atomicAdd( AtomicPolicy{}, entries + pos, vals[ i ] );
       curPos = pos + 1;
@@ -507,7 +515,11 @@ public:
                              T const * const LVARRAY_RESTRICT vals,
                              INDEX_TYPE const nCols ) const
   {
+  #ifdef LVARRAY_BOUNDS_CHECK
+    LVARRAY_ERROR_IF( !sortedArrayManipulation::isSortedUnique( cols, cols + nCols ), "The columns must be sorted and unique." );
+  #else
     LVARRAY_ASSERT( sortedArrayManipulation::isSortedUnique( cols, cols + nCols ) );
+  #endif
 
     INDEX_TYPE const nnz = numNonZeros( row );
     COL_TYPE const * const columns = getColumns( row );
@@ -524,8 +536,12 @@ public:
           break;
         }
       }
+    #ifdef LVARRAY_BOUNDS_CHECK
+      LVARRAY_ERROR_IF( curPos >= nnz || columns[ curPos ] != cols[ i ], "The row does not contain column " << cols[ i ] );
+    #else
       LVARRAY_ASSERT_GT( nnz, curPos );
       LVARRAY_ASSERT_EQ( columns[ curPos ], cols[ i ] );
+    #endif
       internal::atomicAdd( AtomicPolicy{}, entries + curPos, vals[ i ] );
       ++curPos;
     }
@@ -556,8 +572,12 @@ public:
     for( INDEX_TYPE_NC i = 0; i < nCols; ++i )
     {
       INDEX_TYPE const pos = sortedArrayManipulation::find( columns, nnz, cols[ i ] );
+    #ifdef LVARRAY_BOUNDS_CHECK
+      LVARRAY_ERROR_IF( pos >= nnz || columns[ pos ] != cols[ i ], "The row does not contain column " << cols[ i ] );
+    #else
       LVARRAY_ASSERT_GT( nnz, pos );
       LVARRAY_ASSERT_EQ( columns[ pos ], cols[ i ] );
+    #endif
 
       internal::atomicAdd( AtomicPolicy{}, entries + pos, vals[ i ] );
     }
diff --git a/src/sortedArrayManipulation.hpp b/src/sortedArrayManipulation.hpp
index 7e9cae5..80ea44b 100644
--- a/src/sortedArrayManipulation.hpp
+++ b/src/sortedArrayManipulation.hpp
@@ -520,7 +520,11 @@ std::ptrdiff_t remove( T * const LVARRAY_RESTRICT ptr,
   LVARRAY_ASSERT( arrayManipulation::isPositive( size ) );
   LVARRAY_ASSERT( isSortedUnique( ptr, ptr + size ) );
 
+#ifdef LVARRAY_BOUNDS_CHECK
+  LVARRAY_ERROR_IF( !isSortedUnique( first, last ), "The values must be sorted and unique." );
+#else
   LVARRAY_ASSERT( isSortedUnique( first, last ) );
+#endif
 
   // Find the position of the first value to remove and the position it's at in the array.
   ITER valueToRemove = first;
@@ -683,7 +687,11 @@ std::ptrdiff_t insert( T * const LVARRAY_RESTRICT ptr,
   LVARRAY_ASSERT( arrayManipulation::isPositive( size ) );
   LVARRAY_ASSERT( isSortedUnique( ptr, ptr + size ) );
 
+#ifdef LVARRAY_BOUNDS_CHECK
+  LVARRAY_ERROR_IF( !isSortedUnique( first, last ), "The values must be sorted and unique." );
+#else
   LVARRAY_ASSERT( isSortedUnique( first, last ) );
+#endif
 
   // Special case for inserting into an empty array.
   if( size == 0 )
-- 
2.43.0


From 6792dfc10e90f3a6f3e722bf68932dfd3440ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 29/56] fix: a bounds check of ArrayOfArrays does not read the
 size of an array that does not exist

---
 src/ArrayOfArraysView.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index fdc23b0..71f631b 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -43,8 +43,8 @@
  * @note This is only active when LVARRAY_BOUNDS_CHECK is defined.
  */
 #define ARRAYOFARRAYS_CHECK_BOUNDS2( i, j ) \
-  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( i ) || i >= this->size() || \
-                    !arrayManipulation::isPositive( j ) || j >= this->m_sizes[ i ], \
+  ARRAYOFARRAYS_CHECK_BOUNDS( i ); \
+  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( j ) || j >= this->m_sizes[ i ], \
                     "Bounds Check Failed: i=" << i << " size()=" << this->size() << \
                     " j=" << j << " m_sizes[ i ]=" << this->m_sizes[ i ] )
 
@@ -64,8 +64,8 @@
  * @note This is only active when LVARRAY_BOUNDS_CHECK is defined.
  */
 #define ARRAYOFARRAYS_CHECK_INSERT_BOUNDS2( i, j ) \
-  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( i ) || i >= this->size() || \
-                    !arrayManipulation::isPositive( j ) || j > this->sizeOfArray( i ), \
+  ARRAYOFARRAYS_CHECK_BOUNDS( i ); \
+  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( j ) || j > this->sizeOfArray( i ), \
                     "Insert Bounds Check Failed: i=" << i << " size()=" << this->size() << \
                     " j=" << j << " sizeOfArray( i )=" << this->sizeOfArray( i ) )
 
-- 
2.43.0


From 8bdb304aadcabbf0dc613a2e22aeb0b88406141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 30/56] fix: stringToArray reports an invalid value instead of
 throwing std::out_of_range

---
 src/input.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/input.hpp b/src/input.hpp
index fde15d5..4ff4651 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -63,8 +63,7 @@ struct StringToArrayHelper
     inputStream >> arrayValue;
 
     LVARRAY_ERROR_IF( inputStream.fail(),
-                      "Invalid value of type " << typeid(T).name() << " in: " <<
-                      ( inputStream.eof()  ?  "" : inputStream.str().substr( inputStream.tellg() ) ) );
+                      "Invalid value of type " << typeid(T).name() << " in: " << inputStream.str() );
   }
 
   /**
-- 
2.43.0


From 138e871ddab542a3697653005d5da344e90e1f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 31/56] fix: stringToArray reports sub arrays nested deeper
 than the array instead of writing past its stack arrays

---
 src/input.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input.hpp b/src/input.hpp
index 4ff4651..65272bb 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -229,6 +229,10 @@ static void stringToArray( Array< T, NDIM, PERMUTATION, INDEX_TYPE, BUFFER_TYPE
     if( c=='{' )
     {
       ++dimLevel;
+      LVARRAY_ERROR_IF( dimLevel>=NDIM,
+                        "In parsing the input string, the current dimension of the array has exceeded "
+                        "the number of dimensions of the array("<<NDIM<<"). The values that have been "
+                        "parsed prior to the error are:\n"<<valueString.substr( 0, charCount+1 ) );
     }
     else if( c=='}' )
     {
-- 
2.43.0


From 56dabe6ae887b17a88d314d90575232a0d7b80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 32/56] fix: the size of a 3x3 matrix inverted in place is
 checked

---
 src/fixedSizeSquareMatrixOpsImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fixedSizeSquareMatrixOpsImpl.hpp b/src/fixedSizeSquareMatrixOpsImpl.hpp
index f006d86..a16b731 100644
--- a/src/fixedSizeSquareMatrixOpsImpl.hpp
+++ b/src/fixedSizeSquareMatrixOpsImpl.hpp
@@ -628,9 +628,11 @@ struct SquareMatrixOps< 3 >
    * @note @p srcMatrix must contain floating point values.
    */
   template< typename MATRIX >
-  LVARRAY_HOST_DEVICE constexpr inline
+  LVARRAY_HOST_DEVICE CONSTEXPR_WITHOUT_BOUNDS_CHECK inline
   static auto invert( MATRIX && matrix )
   {
+    checkSizes< 3, 3 >( matrix );
+
     using realType = std::remove_reference_t< decltype( matrix[ 0 ][ 0 ] ) >;
 #if 0
     realType temp[ 3 ][ 3 ];
-- 
2.43.0


From 7da0ca6960d8640df4d818a7f2290c7e32f710b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 33/56] fix: copies and sets of no bytes do nothing

---
 src/umpireInterface.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/umpireInterface.cpp b/src/umpireInterface.cpp
index 9219564..08c37aa 100644
--- a/src/umpireInterface.cpp
+++ b/src/umpireInterface.cpp
@@ -25,6 +25,9 @@ namespace umpireInterface
 
 void copy( void * const dstPointer, void * const srcPointer, std::size_t const size )
 {
+  // Umpire takes a size of zero to mean all of the allocation.
+  if( size == 0 ) { return; }
+
 #if defined( LVARRAY_USE_UMPIRE )
   umpire::ResourceManager & rm = umpire::ResourceManager::getInstance();
   if( rm.hasAllocator( dstPointer ) && rm.hasAllocator( srcPointer ) )
@@ -40,6 +43,9 @@ void copy( void * const dstPointer, void * const srcPointer, std::size_t const s
 camp::resources::Event copy( void * const dstPointer, void * const srcPointer,
                              camp::resources::Resource & resource, std::size_t const size )
 {
+  // Umpire takes a size of zero to mean all of the allocation.
+  if( size == 0 ) { return resource.get_event(); }
+
 #if defined( LVARRAY_USE_UMPIRE )
   umpire::ResourceManager & rm = umpire::ResourceManager::getInstance();
 
@@ -64,6 +70,9 @@ camp::resources::Event copy( void * const dstPointer, void * const srcPointer,
 
 void memset( void * const dstPointer, int const val, std::size_t const size )
 {
+  // Umpire takes a size of zero to mean all of the allocation.
+  if( size == 0 ) { return; }
+
 #if defined( LVARRAY_USE_UMPIRE )
   umpire::ResourceManager & rm = umpire::ResourceManager::getInstance();
   if( rm.hasAllocator( dstPointer ) )
-- 
2.43.0


From 47bc009240bf4609e1bed44aa0abcd5db694e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 34/56] fix: an array may be viewed as another type whatever
 its spare capacity

---
 src/ChaiBuffer.hpp   | 3 ++-
 src/MallocBuffer.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index dd42f3d..513f1ca 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -229,12 +229,13 @@ public:
    * @brief Create a shallow copy of @p src but with a different type.
    * @tparam U The type to convert from.
    * @param src The buffer to copy.
+   * @details Any space past the last whole value of type @c T is not part of the capacity.
    */
   template< typename U >
   LVARRAY_HOST_DEVICE inline constexpr
   ChaiBuffer( ChaiBuffer< U > const & src ):
     m_pointer( reinterpret_cast< T * >( src.data() ) ),
-    m_capacity( typeManipulation::convertSize< T, U >( src.capacity() ) ),
+    m_capacity( src.capacity() * std::ptrdiff_t( sizeof( U ) ) / std::ptrdiff_t( sizeof( T ) ) ),
     m_pointerRecord( &src.pointerRecord() )
   {}
 
diff --git a/src/MallocBuffer.hpp b/src/MallocBuffer.hpp
index f40051a..d5df79a 100644
--- a/src/MallocBuffer.hpp
+++ b/src/MallocBuffer.hpp
@@ -83,12 +83,13 @@ public:
    * @brief Create a shallow copy of @p src but with a different type.
    * @tparam U The type to convert from.
    * @param src The buffer to copy.
+   * @details Any space past the last whole value of type @c T is not part of the capacity.
    */
   template< typename U >
   LVARRAY_HOST_DEVICE inline constexpr
   MallocBuffer( MallocBuffer< U > const & src ):
     m_data( reinterpret_cast< T * >( src.data() ) ),
-    m_capacity( typeManipulation::convertSize< T, U >( src.capacity() ) )
+    m_capacity( src.capacity() * std::ptrdiff_t( sizeof( U ) ) / std::ptrdiff_t( sizeof( T ) ) )
   {}
 
   /**
-- 
2.43.0


From a4d65db0a32922866d89687223e001d3ca8d340a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 35/56] fix: moving a buffer moves and touches its sub objects
 whatever space it is in

Moving a ChaiBuffer whose values are containers skipped the inner containers
when the outer buffer was already in the space moved to, so a view captured
there could write inner values that no later move brought along; and it went
through the pointer of the handle, which is the one on the device when another
handle moved the buffer back. The inner containers are now always moved through
the allocation on the host.
---
 src/ChaiBuffer.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 513f1ca..65cacf2 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -380,13 +380,13 @@ public:
         m_capacity == 0 ||
         chaiSpace == chai::NONE ) return;
 
-    chai::ExecutionSpace const prevSpace = m_pointerRecord->m_last_space;
-
-    if( prevSpace == chai::CPU && prevSpace != chaiSpace ) moveInnerData( space, size, touch );
+    // The sub objects can only be accessed through the allocation on the host. It must be up to date when moving to the
+    // host, and hold the new pointers of the sub objects when it is copied to the device.
+    if( chaiSpace != chai::CPU ) moveInnerData( space, size, touch );
 
     move( space, touch );
 
-    if( prevSpace == chai::GPU && prevSpace != chaiSpace ) moveInnerData( space, size, touch );
+    if( chaiSpace == chai::CPU ) moveInnerData( space, size, touch );
   #else
     LVARRAY_ERROR_IF_NE( space, MemorySpace::host );
     LVARRAY_UNUSED_VARIABLE( size );
@@ -478,9 +478,12 @@ private:
   {
     if( space == MemorySpace::undefined ) return;
 
+    T_non_const * const hostPointer = static_cast< T_non_const * >( m_pointerRecord->m_pointers[ chai::CPU ] );
+    if( hostPointer == nullptr ) return;
+
     for( std::ptrdiff_t i = 0; i < size; ++i )
     {
-      const_cast< T_non_const * >( m_pointer )[ i ].move( space, touch );
+      hostPointer[ i ].move( space, touch );
     }
   }
 
-- 
2.43.0


From a384c65add892e71be0234ab4795b0ca6a1785eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 36/56] fix: resizing an array along a faster dimension touches
 it on the host

Resizes along the slowest dimension register the touch; the others did not, so
the new values were lost by the next move to the device.
---
 src/Array.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Array.hpp b/src/Array.hpp
index f663b6d..02db540 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -694,6 +694,13 @@ private:
         ptr[ newSize + i ].~T();
       }
     }
+
+#if !defined(__CUDA_ARCH__)
+    if( newSize > 0 )
+    {
+      this->m_dataBuffer.registerTouch( MemorySpace::host );
+    }
+#endif
   }
 };
 
-- 
2.43.0


From 35ccd52940850a684907d6e81916c0552184f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 37/56] fix: free the memory of the Python objects when they
 are deallocated

---
 src/python/PyArray.cpp         | 6 +++++-
 src/python/PyArrayOfArrays.cpp | 6 +++++-
 src/python/PyArrayOfSets.cpp   | 6 +++++-
 src/python/PyCRSMatrix.cpp     | 6 +++++-
 src/python/PySortedArray.cpp   | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 8e36b51..86980d8 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -69,7 +69,11 @@ struct PyArray
  * @param self The PyArray to destroy.
  */
 static void PyArray_dealloc( PyArray * const self )
-{ delete self->array; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->array;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 /**
  * @brief The Python __repr__ method for PyArray.
diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index d4dcd7c..e6b4778 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -68,7 +68,11 @@ struct PyArrayOfArrays
 };
 
 static void PyArrayOfArrays_dealloc( PyArrayOfArrays * const self )
-{ delete self->arrayOfArrays; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->arrayOfArrays;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyArrayOfArrays_repr( PyObject * const obj )
 {
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 33192fd..a93a874 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -68,7 +68,11 @@ struct PyArrayOfSets
 };
 
 static void PyArrayOfSets_dealloc( PyArrayOfSets * const self )
-{ delete self->arrayOfSets; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->arrayOfSets;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyArrayOfSets_repr( PyObject * const obj )
 {
diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 9b81a4b..bcebe8c 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -64,7 +64,11 @@ struct PyCRSMatrix
 };
 
 static void PyCRSMatrix_dealloc( PyCRSMatrix * const self )
-{ delete self->matrix; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->matrix;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyCRSMatrix_repr( PyObject * const obj )
 {
diff --git a/src/python/PySortedArray.cpp b/src/python/PySortedArray.cpp
index 669ba1e..b23e2b1 100644
--- a/src/python/PySortedArray.cpp
+++ b/src/python/PySortedArray.cpp
@@ -64,7 +64,11 @@ struct PySortedArray
 
 
 static void PySortedArray_dealloc( PySortedArray * const self )
-{ delete self->sortedArray; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->sortedArray;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 
 static PyObject * PySortedArray_repr( PyObject * const obj )
-- 
2.43.0


From 5c04f40066abde9fae5da7fe2843bbc51d27959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 38/56] fix: report values that PyArrayOfSets erase_from cannot
 convert

---
 src/python/PyArrayOfSets.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index a93a874..afc012f 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -240,6 +240,11 @@ static PyObject * PyArrayOfSets_removeFromSet( PyArrayOfSets * self, PyObject *
   std::tuple< PyObjectRef< PyObject >, void const *, long long > ret =
     parseNumPyArray( arr, self->arrayOfSets->valueType() );
 
+  if( std::get< 0 >( ret ) == nullptr )
+  {
+    return nullptr;
+  }
+
   return PyLong_FromLongLong( self->arrayOfSets->removeFromSet( index,
                                                                 std::get< 1 >( ret ),
                                                                 std::get< 2 >( ret ) ) );
-- 
2.43.0


From 56ce35e2f5284a4d50d32ad778b4b126e9d3ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 39/56] fix: release the NumPy arrays to_scipy creates and
 report a failed import of SciPy

---
 src/python/PyCRSMatrix.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index bcebe8c..4247234 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -169,25 +169,35 @@ static PyObject * PyCRSMatrix_toSciPy( PyCRSMatrix * const self, PyObject * cons
   PYTHON_ERROR_IF( self->matrix->numRows() == 0, PyExc_RuntimeError,
                    "Empty matrices cannot be exported to SciPy", nullptr );
 
-  std::array< PyObject *, 3 > const triple = self->matrix->getEntriesColumnsAndOffsets();
+  std::array< PyObject *, 3 > const arrays = self->matrix->getEntriesColumnsAndOffsets();
+  std::array< PyObjectRef<>, 3 > const triple { { { arrays[ 0 ] }, { arrays[ 1 ] }, { arrays[ 2 ] } } };
 
-  PYTHON_ERROR_IF( triple[ 0 ] == nullptr, PyExc_RuntimeError,
+  PYTHON_ERROR_IF( triple[ 0 ].get() == nullptr, PyExc_RuntimeError,
                    "Error constructing the entries NumPy array", nullptr );
 
-  PYTHON_ERROR_IF( triple[ 1 ] == nullptr, PyExc_RuntimeError,
+  PYTHON_ERROR_IF( triple[ 1 ].get() == nullptr, PyExc_RuntimeError,
                    "Error constructing the columns NumPy array", nullptr );
 
-  PYTHON_ERROR_IF( triple[ 2 ] == nullptr, PyExc_RuntimeError,
+  PYTHON_ERROR_IF( triple[ 2 ].get() == nullptr, PyExc_RuntimeError,
                    "Error constructing the offsets NumPy array", nullptr );
 
   PyObjectRef<> sciPySparse = PyImport_ImportModule( "scipy.sparse" );
+  if( sciPySparse == nullptr )
+  {
+    return nullptr;
+  }
+
   PyObjectRef<> constructor = PyObject_GetAttrString( sciPySparse, "csr_matrix" );
+  if( constructor == nullptr )
+  {
+    return nullptr;
+  }
 
   return PyObject_CallFunction( constructor,
-                                "(OOO)(ll)",
-                                triple[ 0 ],
-                                triple[ 1 ],
-                                triple[ 2 ],
+                                "(OOO)(LL)",
+                                triple[ 0 ].get(),
+                                triple[ 1 ].get(),
+                                triple[ 2 ].get(),
                                 self->matrix->numRows(),
                                 self->matrix->numColumns() );
 }
-- 
2.43.0


From 7c925ea1a94ff61e1a1240ac430ddc007aaef44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 40/56] fix: do not release the reference to pylvarray that
 PyModule_AddObject steals

---
 src/python/python.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python/python.cpp b/src/python/python.cpp
index 341bab1..6ec8911 100644
--- a/src/python/python.cpp
+++ b/src/python/python.cpp
@@ -146,11 +146,18 @@ PyObjectRef<> getModule()
 bool addPyLvArrayModule( PyObject * module )
 {
   LvArray::python::PyObjectRef<> pylvarrayModule { PyImport_ImportModule( "pylvarray" ) };
+  if( pylvarrayModule == nullptr )
+  {
+    return false;
+  }
+
   if( PyModule_AddObject( module, "pylvarray", pylvarrayModule ) < 0 )
   {
     return false;
   }
 
+  // PyModule_AddObject steals the reference, but only when it succeeds.
+  pylvarrayModule.release();
   return true;
 }
 
-- 
2.43.0


From a89b613106193261252c75984659cca81e73889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 41/56] fix: release the previous object when a PyObjectRef is
 assigned to

---
 src/python/pythonHelpers.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/python/pythonHelpers.hpp b/src/python/pythonHelpers.hpp
index 3a5c976..e669139 100644
--- a/src/python/pythonHelpers.hpp
+++ b/src/python/pythonHelpers.hpp
@@ -189,8 +189,10 @@ public:
    */
   PyObjectRef & operator=( PyObjectRef const & src )
   {
-    m_object = src.m_object;
+    // Increase the new reference count first, both may refer to the same object.
     internal::xincref( reinterpret_cast< PyObject * >( src.m_object ) );
+    internal::xdecref( reinterpret_cast< PyObject * >( m_object ) );
+    m_object = src.m_object;
     return *this;
   }
 
@@ -202,8 +204,12 @@ public:
    */
   PyObjectRef & operator=( PyObjectRef && src )
   {
-    m_object = src.m_object;
-    src.m_object = nullptr;
+    if( this != &src )
+    {
+      internal::xdecref( reinterpret_cast< PyObject * >( m_object ) );
+      m_object = src.m_object;
+      src.m_object = nullptr;
+    }
     return *this;
   }
 
-- 
2.43.0


From e1d688c34700d3ae4ed776e402a5174ccfd0e107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 42/56] fix: refuse to modify uninitialized Python objects

---
 src/python/PyArrayOfArrays.cpp | 7 +++++++
 src/python/PyArrayOfSets.cpp   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index e6b4778..283f00c 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -111,6 +111,7 @@ static PyObject * PyArrayOfArrays_getitem( PyArrayOfArrays * const self, Py_ssiz
 
 static int PyArrayOfArrays_delitem( PyArrayOfArrays * const self, Py_ssize_t pyindex, PyObject * val )
 {
+  PYTHON_ERROR_IF( self->arrayOfArrays == nullptr, PyExc_RuntimeError, "The PyArrayOfArrays is not initialized.", -1 );
   if( self->arrayOfArrays->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )
   {
     PyErr_SetString( PyExc_RuntimeError, "ArrayOfArrays is not resizeable" );
@@ -157,6 +158,8 @@ static constexpr char const * PyArrayOfArrays_insertIntoDocString =
   "as the underlying instance, raising an exception if the conversion cannot be made safely.";
 static PyObject * PyArrayOfArrays_insertIntoArray( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long array, index;
   PyObject * arr;
@@ -188,6 +191,8 @@ static constexpr char const * PyArrayOfArrays_insertDocString =
   "as the underlying instance, raising an exception if the conversion cannot be made safely.";
 static PyObject * PyArrayOfArrays_insert( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   PyObject * arr;
@@ -216,6 +221,8 @@ static constexpr char const * PyArrayOfArrays_eraseFromDocString =
   "Remove the value at ``index`` in the subarray ``array``.";
 static PyObject * PyArrayOfArrays_eraseFrom( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index, begin;
   if( !PyArg_ParseTuple( args, "LL", &index, &begin ) )
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index afc012f..8ca0da4 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -111,6 +111,7 @@ static PyObject * PyArrayOfSets_getitem( PyArrayOfSets * const self, Py_ssize_t
 
 static int PyArrayOfSets_delitem( PyArrayOfSets * const self, Py_ssize_t pyindex, PyObject * val )
 {
+  PYTHON_ERROR_IF( self->arrayOfSets == nullptr, PyExc_RuntimeError, "The PyArrayOfSets is not initialized.", -1 );
   if( self->arrayOfSets->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )
   {
     PyErr_SetString( PyExc_RuntimeError, "ArrayOfSets is not resizeable" );
@@ -159,6 +160,8 @@ static constexpr char const * PyArrayOfSets_insertIntoDocString =
   "    The number of values inserted into the set.";
 static PyObject * PyArrayOfSets_insertIntoSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long setIndex;
   PyObject * arr;
@@ -192,6 +195,8 @@ static constexpr char const * PyArrayOfSets_insertSetDocString =
   "Insert a new set with a starting capacity";
 static PyObject * PyArrayOfSets_insertSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   long long capacity = 0;
@@ -223,6 +228,8 @@ static constexpr char const * PyArrayOfSets_removeFromSetDocString =
   "    The number of values removed from the set.";
 static PyObject * PyArrayOfSets_removeFromSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   PyObject * arr;
-- 
2.43.0


From c2bae89eb6c3b9584bc89cc793bc4b24d02b7569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 43/56] fix: PyCRSMatrix add_to_row refuses columns and values
 of different lengths

---
 src/python/PyCRSMatrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 4247234..91eacc4 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -348,6 +348,9 @@ static PyObject * PyCRSMatrix_addToRow( PyCRSMatrix * const self, PyObject * con
     return nullptr;
   }
 
+  PYTHON_ERROR_IF( std::get< 2 >( colsInfo ) != std::get< 2 >( valsInfo ), PyExc_RuntimeError,
+                   "Number of columns and values must match!", nullptr );
+
   long long const numRows = self->matrix->numRows();
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
-- 
2.43.0


From 3ec6ec02e42178ab440f7280abf0ccc746677f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 44/56] fix: PyCRSMatrix get_entries compares the access level
 like the other views

---
 src/python/PyCRSMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/PyCRSMatrix.hpp b/src/python/PyCRSMatrix.hpp
index b7659e3..262a28f 100644
--- a/src/python/PyCRSMatrix.hpp
+++ b/src/python/PyCRSMatrix.hpp
@@ -291,7 +291,7 @@ public:
     T * const entries = m_matrix.getEntries( convertedRow );
     INDEX_TYPE const nnz = m_matrix.numNonZeros( convertedRow );
     constexpr INDEX_TYPE unitStride = 1;
-    return createNumPyArray( entries, getAccessLevel(), 1, &nnz, &unitStride );
+    return createNumPyArray( entries, getAccessLevel() >= static_cast< int >( LvArray::python::PyModify::MODIFIABLE ), 1, &nnz, &unitStride );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a7fa5f3f0d0efcf1f3638cac315de2610ed168cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 45/56] fix: convert whole strings to Python and report those
 that cannot be decoded

---
 src/python/pythonHelpers.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/python/pythonHelpers.cpp b/src/python/pythonHelpers.cpp
index 53f737d..8e5d8f1 100644
--- a/src/python/pythonHelpers.cpp
+++ b/src/python/pythonHelpers.cpp
@@ -79,18 +79,28 @@ bool addTypeToModule( PyObject * const module,
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 PyObject * create( std::string const & value )
-{ return PyUnicode_FromString( value.c_str() ); }
+{ return PyUnicode_FromStringAndSize( value.data(), integerConversion< Py_ssize_t >( value.size() ) ); }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 PyObject * createPyListOfStrings( std::string const * const strptr, long long const size )
 {
-  PyObject * pylist = PyList_New( size );
+  PyObjectRef<> pylist = PyList_New( size );
+  if( pylist == nullptr )
+  {
+    return nullptr;
+  }
+
   for( long long i = 0; i < size; ++i )
   {
-    PyObject * pystr = PyUnicode_FromString( strptr[ i ].c_str() );
-    PyList_SET_ITEM( pylist, integerConversion< Py_ssize_t >( i ), pystr );
+    PyObject * pystr = create( strptr[ i ] );
+    if( pystr == nullptr )
+    {
+      return nullptr;
+    }
+
+    PyList_SET_ITEM( pylist.get(), integerConversion< Py_ssize_t >( i ), pystr );
   }
-  return pylist;
+  return pylist.release();
 }
 
 } // namespace python
-- 
2.43.0


From 74558b0b3977716180667a9c390bf58f97b36f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 46/56] fix: keep sets and rows sorted when Python passes
 unsorted or repeated values

---
 src/python/PyArrayOfSets.hpp | 22 ++++++++++++++++++----
 src/python/PyCRSMatrix.hpp   | 18 ++++++++++++++++--
 src/python/PySortedArray.hpp | 22 ++++++++++++++++++----
 3 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/python/PyArrayOfSets.hpp b/src/python/PyArrayOfSets.hpp
index 93f77cb..a5640e0 100644
--- a/src/python/PyArrayOfSets.hpp
+++ b/src/python/PyArrayOfSets.hpp
@@ -113,7 +113,7 @@ public:
   /**
    * @brief Remove values from the a set.
    * @param setIndex The set to remove from.
-   * @param values The values to remove. Must be of type @c valueType, of length @c numVals, and sorted unique.
+   * @param values The values to remove. Must be of type @c valueType and of length @c numVals.
    * @param numVals The number of values to remove.
    * @return The number of values removed.
    * @note This wraps ArrayOfSets::removeFromSet.
@@ -123,7 +123,7 @@ public:
   /**
    * @brief Insert values into a set.
    * @param setIndex The set to insert into.
-   * @param values The values to insert. Must be of type @c valueType, of length @c numVals, and sorted unique.
+   * @param values The values to insert. Must be of type @c valueType and of length @c numVals.
    * @param numVals The number of values to insert.
    * @return The number of values inserted.
    * @note This wraps ArrayOfSets::insertIntoSet.
@@ -227,7 +227,14 @@ public:
     INDEX_TYPE convertedIndex = integerConversion< INDEX_TYPE >( setIndex );
     T const * begin = static_cast< T const * >( values );
     T const * end = begin + numVals;
-    return integerConversion< long long >( m_arrayOfSets.removeFromSet( convertedIndex, begin, end ) );
+    if( sortedArrayManipulation::isSortedUnique( begin, end ) )
+    { return integerConversion< long long >( m_arrayOfSets.removeFromSet( convertedIndex, begin, end ) ); }
+
+    long long count = 0;
+    for( ; begin != end; ++begin )
+    { count += m_arrayOfSets.removeFromSet( convertedIndex, *begin ); }
+
+    return count;
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -238,7 +245,14 @@ public:
     INDEX_TYPE convertedSetIndex = integerConversion< INDEX_TYPE >( setIndex );
     T const * begin = static_cast< T const * >( values );
     T const * end = begin + numVals;
-    return integerConversion< long long >( m_arrayOfSets.insertIntoSet( convertedSetIndex, begin, end ) );
+    if( sortedArrayManipulation::isSortedUnique( begin, end ) )
+    { return integerConversion< long long >( m_arrayOfSets.insertIntoSet( convertedSetIndex, begin, end ) ); }
+
+    long long count = 0;
+    for( ; begin != end; ++begin )
+    { count += m_arrayOfSets.insertIntoSet( convertedSetIndex, *begin ); }
+
+    return count;
   }
 
 private:
diff --git a/src/python/PyCRSMatrix.hpp b/src/python/PyCRSMatrix.hpp
index 262a28f..ce09e3e 100644
--- a/src/python/PyCRSMatrix.hpp
+++ b/src/python/PyCRSMatrix.hpp
@@ -345,7 +345,14 @@ public:
     COL_TYPE const * const castedCols = reinterpret_cast< COL_TYPE const * >( cols );
     T const * const castedEntries = reinterpret_cast< T const * >( entries );
     INDEX_TYPE const convertedNumCols = integerConversion< INDEX_TYPE >( numCols );
-    return integerConversion< long long >( m_matrix.insertNonZeros( convertedRow, castedCols, castedEntries, convertedNumCols ) );
+    if( sortedArrayManipulation::isSortedUnique( castedCols, castedCols + numCols ) )
+    { return integerConversion< long long >( m_matrix.insertNonZeros( convertedRow, castedCols, castedEntries, convertedNumCols ) ); }
+
+    long long count = 0;
+    for( INDEX_TYPE i = 0; i < convertedNumCols; ++i )
+    { count += m_matrix.insertNonZero( convertedRow, castedCols[ i ], castedEntries[ i ] ); }
+
+    return count;
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -356,7 +363,14 @@ public:
     INDEX_TYPE const convertedRow = integerConversion< INDEX_TYPE >( row );
     COL_TYPE const * const castedCols = reinterpret_cast< COL_TYPE const * >( cols );
     INDEX_TYPE const convertedNumCols = integerConversion< INDEX_TYPE >( numCols );
-    return integerConversion< long long >( m_matrix.removeNonZeros( convertedRow, castedCols, convertedNumCols ) );
+    if( sortedArrayManipulation::isSortedUnique( castedCols, castedCols + numCols ) )
+    { return integerConversion< long long >( m_matrix.removeNonZeros( convertedRow, castedCols, convertedNumCols ) ); }
+
+    long long count = 0;
+    for( INDEX_TYPE i = 0; i < convertedNumCols; ++i )
+    { count += m_matrix.removeNonZero( convertedRow, castedCols[ i ] ); }
+
+    return count;
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/src/python/PySortedArray.hpp b/src/python/PySortedArray.hpp
index 8b0c9a5..c12e8fa 100644
--- a/src/python/PySortedArray.hpp
+++ b/src/python/PySortedArray.hpp
@@ -83,7 +83,7 @@ public:
 
   /**
    * @brief Insert values into the set.
-   * @param values The values to insert. Must be of type @c valueType, of length @c nVals and sorted unique.
+   * @param values The values to insert. Must be of type @c valueType and of length @c nVals.
    * @param nVals The number of values to insert.
    * @return The number of values inserted.
    * @note This wraps SortedArray::insert.
@@ -92,7 +92,7 @@ public:
 
   /**
    * @brief Remove values from the set.
-   * @param values The values to remove. Must be of type @c valueType, of length @c nVals and sorted unique.
+   * @param values The values to remove. Must be of type @c valueType and of length @c nVals.
    * @param nVals The number of values to remove.
    * @return The number of values removed.
    * @note This wraps SortedArray::remove.
@@ -169,14 +169,28 @@ public:
   virtual long long insert( void const * const values, long long const nVals ) final override
   {
     T const * const castedValues = reinterpret_cast< T const * >( values );
-    return integerConversion< long long >( m_sortedArray.insert( castedValues, castedValues + nVals ) );
+    if( sortedArrayManipulation::isSortedUnique( castedValues, castedValues + nVals ) )
+    { return integerConversion< long long >( m_sortedArray.insert( castedValues, castedValues + nVals ) ); }
+
+    long long count = 0;
+    for( long long i = 0; i < nVals; ++i )
+    { count += m_sortedArray.insert( castedValues[ i ] ); }
+
+    return count;
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
   virtual long long remove( void const * const values, long long const nVals ) final override
   {
     T const * const castedValues = reinterpret_cast< T const * >( values );
-    return integerConversion< long long >( m_sortedArray.remove( castedValues, castedValues + nVals ) );
+    if( sortedArrayManipulation::isSortedUnique( castedValues, castedValues + nVals ) )
+    { return integerConversion< long long >( m_sortedArray.remove( castedValues, castedValues + nVals ) ); }
+
+    long long count = 0;
+    for( long long i = 0; i < nVals; ++i )
+    { count += m_sortedArray.remove( castedValues[ i ] ); }
+
+    return count;
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 33bc72e4ff910fb6f1c9887222c62b29e78b1b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 47/56] fix: PyArray resize_all refuses negative dimensions

---
 src/python/PyArray.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 86980d8..3e9b46b 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -182,7 +182,13 @@ static PyObject * PyArray_resizeAll( PyArray * const self, PyObject * const args
   PYTHON_ERROR_IF( std::get< 2 >( ret ) != self->array->ndim(), PyExc_RuntimeError,
                    "Invalid number of dimensions, should be " << self->array->ndim(), nullptr );
 
-  self->array->resize( reinterpret_cast< long long const * >( std::get< 1 >( ret ) ) );
+  long long const * const newDims = reinterpret_cast< long long const * >( std::get< 1 >( ret ) );
+  for( int i = 0; i < self->array->ndim(); ++i )
+  {
+    PYTHON_ERROR_IF( newDims[ i ] < 0, PyExc_ValueError, "Dimensions must be positive.", nullptr );
+  }
+
+  self->array->resize( newDims );
 
   Py_RETURN_NONE;
 }
-- 
2.43.0


From 5d2e89e85db3daaf47887aff4d5fe3a2798d8c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 48/56] fix: release the Python object when its dtype cannot be
 found

---
 src/python/PyArray.cpp         | 1 +
 src/python/PyArrayOfArrays.cpp | 1 +
 src/python/PyArrayOfSets.cpp   | 1 +
 src/python/PyCRSMatrix.cpp     | 1 +
 src/python/PySortedArray.cpp   | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 3e9b46b..d6a6b1e 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -304,6 +304,7 @@ PyObject * create( std::unique_ptr< PyArrayWrapperBase > && array )
   PyObject * typeObject = getNumPyTypeObject( array->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index 283f00c..b61c391 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -333,6 +333,7 @@ PyObject * create( std::unique_ptr< PyArrayOfArraysWrapperBase > && arrayOfArray
   PyObject * typeObject = getNumPyTypeObject( arrayOfArrays->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 8ca0da4..f5c75da 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -353,6 +353,7 @@ PyObject * create( std::unique_ptr< PyArrayOfSetsWrapperBase > && arrayOfSets )
   PyObject * typeObject = getNumPyTypeObject( arrayOfSets->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 91eacc4..0569cea 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -462,6 +462,7 @@ PyObject * create( std::unique_ptr< PyCRSMatrixWrapperBase > && matrix )
   PyObject * typeObject = getNumPyTypeObject( matrix->entryType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PySortedArray.cpp b/src/python/PySortedArray.cpp
index b23e2b1..219c3fd 100644
--- a/src/python/PySortedArray.cpp
+++ b/src/python/PySortedArray.cpp
@@ -253,6 +253,7 @@ PyObject * create( std::unique_ptr< PySortedArrayWrapperBase > && sortedArray )
   PyObject * typeObject = getNumPyTypeObject( sortedArray->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
-- 
2.43.0


From 04a15d9fd10dd7c0bd882ffe9adac50d42cb8ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:46 +0000
Subject: [PATCH 49/56] fix: copy NumPy views passed to the Python objects,
 they may show the modified container

---
 src/python/numpyHelpers.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/python/numpyHelpers.cpp b/src/python/numpyHelpers.cpp
index 0929fcc..146e461 100644
--- a/src/python/numpyHelpers.cpp
+++ b/src/python/numpyHelpers.cpp
@@ -257,6 +257,16 @@ parseNumPyArray( PyObject * const obj, std::type_index const expectedType )
 
   if( srcNumPyType == expectedNumPyType )
   {
+    // A view may show the values of the container that is about to be modified, in that case a copy is necessary.
+    if( !PyArray_CHKFLAGS( array, NPY_ARRAY_OWNDATA ) )
+    {
+      array = PyObjectRef< PyArrayObject >( reinterpret_cast< PyArrayObject * >( PyArray_NewCopy( array, NPY_CORDER ) ) );
+      if( array == nullptr )
+      {
+        return ErrorReturn;
+      }
+    }
+
     void const * vals = PyArray_DATA( array );
     long long const nVals = integerConversion< long long >( PyArray_SIZE( array ) );
     return ReturnType{ reinterpret_cast< PyObject * >( array.release() ), vals, nVals };
-- 
2.43.0


From 42821f2b7b4b7ec0b06b6587d36e792bedf67449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 50/56] fix: do not release the references stolen by
 PyTuple_SET_ITEM

---
 src/python/numpyHelpers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/numpyHelpers.cpp b/src/python/numpyHelpers.cpp
index 146e461..2e2815e 100644
--- a/src/python/numpyHelpers.cpp
+++ b/src/python/numpyHelpers.cpp
@@ -190,8 +190,9 @@ PyObject * createCupyArrayImpl( void * const data,
       return nullptr;
     }
 
-    PyTuple_SET_ITEM( static_cast< PyObject * >( strideTuple ), i, strideEntry );
-    PyTuple_SET_ITEM( static_cast< PyObject * >( dimTuple ), i, dimEntry );
+    // PyTuple_SET_ITEM steals the references.
+    PyTuple_SET_ITEM( static_cast< PyObject * >( strideTuple ), i, strideEntry.release() );
+    PyTuple_SET_ITEM( static_cast< PyObject * >( dimTuple ), i, dimEntry.release() );
   }
 
   PyObjectRef<> cupyHelper = PyImport_ImportModule( "cupy_helper" );
-- 
2.43.0


From 159a27ca76a0e8c84e274830a4021b95ea133b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 51/56] Revert "fix: PyCRSMatrix get_entries compares the
 access level like the other views"

The access levels convert to the same booleans, so nothing observable was wrong.
---
 src/python/PyCRSMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/PyCRSMatrix.hpp b/src/python/PyCRSMatrix.hpp
index ce09e3e..b682ed0 100644
--- a/src/python/PyCRSMatrix.hpp
+++ b/src/python/PyCRSMatrix.hpp
@@ -291,7 +291,7 @@ public:
     T * const entries = m_matrix.getEntries( convertedRow );
     INDEX_TYPE const nnz = m_matrix.numNonZeros( convertedRow );
     constexpr INDEX_TYPE unitStride = 1;
-    return createNumPyArray( entries, getAccessLevel() >= static_cast< int >( LvArray::python::PyModify::MODIFIABLE ), 1, &nnz, &unitStride );
+    return createNumPyArray( entries, getAccessLevel(), 1, &nnz, &unitStride );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 98e18b5e00dc93e62ff5f48cd34552be1f3a80fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 52/56] fix: PyCRSMatrix get_entries compares the access level
 like the other views

A matrix whose access level is below READ_ONLY (set_access_level( -1 )) showed
its entries as a modifiable array, the level being converted to a bool.
---
 src/python/PyCRSMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/PyCRSMatrix.hpp b/src/python/PyCRSMatrix.hpp
index b682ed0..ce09e3e 100644
--- a/src/python/PyCRSMatrix.hpp
+++ b/src/python/PyCRSMatrix.hpp
@@ -291,7 +291,7 @@ public:
     T * const entries = m_matrix.getEntries( convertedRow );
     INDEX_TYPE const nnz = m_matrix.numNonZeros( convertedRow );
     constexpr INDEX_TYPE unitStride = 1;
-    return createNumPyArray( entries, getAccessLevel(), 1, &nnz, &unitStride );
+    return createNumPyArray( entries, getAccessLevel() >= static_cast< int >( LvArray::python::PyModify::MODIFIABLE ), 1, &nnz, &unitStride );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 02bde0911eeb789046c6fbaa3043e5df6947fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 53/56] fix: Array, ArrayView and ArraySlice compile with
 TotalView output enabled

ArrayView::TV_ttf_display_type passed the CArrays of dims and strides where a pointer is needed, and ArraySlice
included the TotalView headers only in debug builds.
---
 src/ArraySlice.hpp | 2 +-
 src/ArrayView.hpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index 6421feb..3514ea1 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -40,7 +40,7 @@ DEFINE_GDB_PY_SCRIPT( "scripts/gdb-printers.py" )
 #include "Macros.hpp"
 
 // System includes
-#ifndef NDEBUG
+#if !defined( NDEBUG ) || defined( LVARRAY_USE_TOTALVIEW_OUTPUT )
   #include "totalview/tv_data_display.h"
   #include "totalview/tv_helpers.hpp"
 #endif
diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index 57c878d..86c1238 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -703,8 +703,8 @@ public:
       // m_data;"<<std::endl;
       // TV_ttf_add_row( "tv(m_data)", totalview::format< T, INDEX_TYPE >( NDIM, av->m_dims ).c_str(), (av->m_data) );
       // TV_ttf_add_row( "m_data", totalview::format< T, INDEX_TYPE >( 0, av->m_dims ).c_str(), (av->m_data) );
-      TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims) );
-      TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides) );
+      TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims.data) );
+      TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides.data) );
       TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangleType< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) );
       TV_ttf_add_row( "m_singleParameterResizeIndex", "int", &(av->m_singleParameterResizeIndex) );
     }
-- 
2.43.0


From ea34b0ae4e1b54e09f19c722dd9bed8926e1a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 54/56] fix: the GDB printer shows every extent of an
 ArraySlice

m_dims of a slice is a pointer, so the number of extents cannot be taken from the size of its type: a two dimensional
slice with 64 bit indices was shown as one dimensional and a one dimensional slice with int indices as two dimensional.
---
 scripts/gdb-printers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/gdb-printers.py b/scripts/gdb-printers.py
index b065d9e..d2fd7cd 100644
--- a/scripts/gdb-printers.py
+++ b/scripts/gdb-printers.py
@@ -6,8 +6,10 @@ def array_length(arr):
     return int(arr.type.sizeof / arr.type.target().sizeof)
 
 
-def format_array(arr):
-    return '[' + ']['.join([str(arr[i]) for i in range(array_length(arr))]) + ']'
+def format_array(arr, length=None):
+    if length is None:
+        length = array_length(arr)
+    return '[' + ']['.join([str(arr[i]) for i in range(length)]) + ']'
 
 
 class LvArrayPrinter(gdb.printing.PrettyPrinter):
@@ -122,7 +124,7 @@ class ArraySlicePrinter(LvArrayPrinter):
         return self.val['m_data']
 
     def to_string(self):
-        return '%s of size %s' % (self.real_type(), format_array(self.dims()))
+        return '%s of size %s' % (self.real_type(), format_array(self.dims(), self.ndim()))
 
     def children(self):
         array_type = self.value_type()
-- 
2.43.0


From 0a8a4794ab45d60d5264ce3e758eb91b38154be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:53 +0000
Subject: [PATCH 55/56] fix: a stack trace starts at its caller in optimized
 builds too

---
 src/system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/system.cpp b/src/system.cpp
index ae927fb..fb618ca 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -81,7 +81,9 @@ static _Unwind_Reason_Code unwindCallback( _Unwind_Context * const context, void
  * @param maxFrames The maximum number of frames to collect.
  * @param skip The number of initial frames to skip.
  * @note Adapted from https://github.com/boostorg/stacktrace
+ * @note Not inlined: its own frame is one of those that are skipped.
  */
+__attribute__( ( noinline ) )
 static std::size_t collect( void * * const frames, std::size_t const maxFrames, std::size_t const skip )
 {
   std::size_t frames_count = 0;
@@ -358,6 +360,7 @@ using handle_type = void ( * )( int );
 static std::map< int, handle_type > initialHandler;
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
+__attribute__( ( noinline ) )
 std::string stackTrace( bool const location )
 {
   constexpr int MAX_FRAMES = 25;
-- 
2.43.0


From 955d2dddef6452deb3835da0ba2b31ce6539f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:53 +0000
Subject: [PATCH 56/56] fix: a stack trace states the number of frames it lists

---
 src/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/system.cpp b/src/system.cpp
index fb618ca..dc9c637 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -369,7 +369,7 @@ std::string stackTrace( bool const location )
   std::size_t const size = collect( array, MAX_FRAMES, 1 );
 
   std::ostringstream oss;
-  oss << "\n** StackTrace of " << size - 1 << " frames **\n";
+  oss << "\n** StackTrace of " << size << " frames **\n";
   for( std::size_t i = 0; i < size; ++i )
   {
     oss << "Frame " << i << ": " << getFunctionNameFromFrame( array[ i ] );
-- 
2.43.0

