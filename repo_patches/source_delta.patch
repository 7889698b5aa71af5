From e3f3279f55208af5af949fa1d59953ae524cf426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:47 +0000
Subject: [PATCH 01/50] fix: store boolean destination values without inverting
 them

Reading a non-zero value into a bool buffer stored false, and zero stored
true.
---
 src/SourceDestBufferImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 9da1777..ee779e2 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -238,7 +238,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         *reinterpret_cast<bool *>( p ) = ( inValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( inValue ? true : false );
          break;
       case Real32:
          if ( std::is_same<T, double>::value )
@@ -781,7 +781,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value )
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( value );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( value ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( value ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
@@ -908,7 +908,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( scaledValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( scaledValue ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
-- 
2.43.0


From 21b16e8794a970e6b58b4efa7d31a56590d15b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:47 +0000
Subject: [PATCH 02/50] fix: use single precision limits when narrowing doubles
 to floats

The range checks compared with the limits of double, so values too large
for a float silently became infinite.
---
 src/SourceDestBufferImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index ee779e2..99861e0 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -246,7 +246,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
             /// Does this count as conversion?  It loses information.
             /// Check for really large exponents that can't fit in a single
             /// precision
-            if ( inValue < DOUBLE_MIN || DOUBLE_MAX < inValue )
+            if ( inValue < FLOAT_MIN || FLOAT_MAX < inValue )
             {
                throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                      "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -588,7 +588,7 @@ float SourceDestBufferImpl::getNextFloat()
          double d = *reinterpret_cast<double *>( p );
 
          ///??? silently limit here?
-         if ( d < DOUBLE_MIN || DOUBLE_MAX < d )
+         if ( d < FLOAT_MIN || FLOAT_MAX < d )
          {
             throw E57_EXCEPTION2( ErrorReal64TooLarge,
                                   "pathName=" + pathName_ + " value=" + toString( d ) );
@@ -917,7 +917,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          }
          /// Check that exponent of result is not too big for single precision
          /// float
-         if ( scaledValue < DOUBLE_MIN || DOUBLE_MAX < scaledValue )
+         if ( scaledValue < FLOAT_MIN || FLOAT_MAX < scaledValue )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
-- 
2.43.0


From 66093ef58f3a917264f02d891844bb75f553e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:07 +0000
Subject: [PATCH 03/50] fix: refuse reals that do not fit the integer they are
 converted to

NaN passed every range check, 2^63 was accepted as an int64_t, and neither
writing reals to integer fields nor reading scaled values into int64_t
buffers checked the range at all. The conversions were undefined.
---
 src/SourceDestBufferImpl.cpp | 67 ++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 99861e0..6f83f2a 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -33,6 +33,17 @@
 
 using namespace e57;
 
+namespace
+{
+   /// Check that a value can be converted to an int64_t. Note that INT64_MAX is rounded up to 2^63
+   /// when converted to double, and that NaN fails every comparison.
+   bool fitsInt64( double value )
+   {
+      return ( value >= static_cast<double>( INT64_MIN ) ) &&
+             ( value < static_cast<double>( INT64_MAX ) );
+   }
+}
+
 SourceDestBufferImpl::SourceDestBufferImpl( ImageFileImplWeakPtr destImageFile,
                                             const ustring &pathName, const size_t capacity,
                                             bool doConversion, bool doScaling ) :
@@ -152,9 +163,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...  (all other ints below
-         // too)
-         if ( inValue < INT8_MIN || INT8_MAX < inValue )
+         if ( !( inValue >= INT8_MIN && inValue <= INT8_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -166,7 +175,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT8_MIN || UINT8_MAX < inValue )
+         if ( !( inValue >= UINT8_MIN && inValue <= UINT8_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -178,7 +187,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT16_MIN || INT16_MAX < inValue )
+         if ( !( inValue >= INT16_MIN && inValue <= INT16_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -190,7 +199,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT16_MIN || UINT16_MAX < inValue )
+         if ( !( inValue >= UINT16_MIN && inValue <= UINT16_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -202,7 +211,8 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT32_MIN || ( inValue > static_cast<T>( INT32_MAX ) ) )
+         if ( !( inValue >= static_cast<double>( INT32_MIN ) &&
+                 inValue <= static_cast<double>( INT32_MAX ) ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -214,7 +224,8 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT32_MIN || ( inValue > ( static_cast<T>( UINT32_MAX ) ) ) )
+         if ( !( inValue >= static_cast<double>( UINT32_MIN ) &&
+                 inValue <= static_cast<double>( UINT32_MAX ) ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -226,7 +237,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT64_MIN || ( inValue > ( static_cast<T>( INT64_MAX ) ) ) )
+         if ( !fitsInt64( inValue ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -364,7 +375,12 @@ int64_t SourceDestBufferImpl::getNextInt64()
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
+         if ( !fitsInt64( *reinterpret_cast<float *>( p ) ) )
+         {
+            throw E57_EXCEPTION2( ErrorValueNotRepresentable,
+                                  "pathName=" + pathName_ +
+                                     " value=" + toString( *reinterpret_cast<float *>( p ) ) );
+         }
          value = static_cast<int64_t>( *reinterpret_cast<float *>( p ) );
          break;
       case Real64:
@@ -372,7 +388,12 @@ int64_t SourceDestBufferImpl::getNextInt64()
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
+         if ( !fitsInt64( *reinterpret_cast<double *>( p ) ) )
+         {
+            throw E57_EXCEPTION2( ErrorValueNotRepresentable,
+                                  "pathName=" + pathName_ +
+                                     " value=" + toString( *reinterpret_cast<double *>( p ) ) );
+         }
          value = static_cast<int64_t>( *reinterpret_cast<double *>( p ) );
          break;
       case UString:
@@ -468,8 +489,6 @@ int64_t SourceDestBufferImpl::getNextInt64( double scale, double offset )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
-
          /// Calc (x-offset)/scale rounded to nearest integer, but keep in
          /// floating point until sure is in bounds
          doubleRawValue = floor( ( *reinterpret_cast<float *>( p ) - offset ) / scale + 0.5 );
@@ -479,8 +498,6 @@ int64_t SourceDestBufferImpl::getNextInt64( double scale, double offset )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         //??? fault if get special value: NaN, NegInf...
-
          /// Calc (x-offset)/scale rounded to nearest integer, but keep in
          /// floating point until sure is in bounds
          doubleRawValue = floor( ( *reinterpret_cast<double *>( p ) - offset ) / scale + 0.5 );
@@ -492,7 +509,7 @@ int64_t SourceDestBufferImpl::getNextInt64( double scale, double offset )
    }
 
    /// Make sure that value is representable in an int64_t
-   if ( doubleRawValue < INT64_MIN || ( doubleRawValue > ( static_cast<double>( INT64_MAX ) ) ) )
+   if ( !fitsInt64( doubleRawValue ) )
    {
       throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                             "pathName=" + pathName_ + " value=" + toString( doubleRawValue ) );
@@ -851,7 +868,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
    switch ( memoryRepresentation_ )
    {
       case Int8:
-         if ( scaledValue < INT8_MIN || INT8_MAX < scaledValue )
+         if ( !( scaledValue >= INT8_MIN && scaledValue <= INT8_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -860,7 +877,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int8_t *>( p ) = static_cast<int8_t>( scaledValue );
          break;
       case UInt8:
-         if ( scaledValue < UINT8_MIN || UINT8_MAX < scaledValue )
+         if ( !( scaledValue >= UINT8_MIN && scaledValue <= UINT8_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -869,7 +886,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint8_t *>( p ) = static_cast<uint8_t>( scaledValue );
          break;
       case Int16:
-         if ( scaledValue < INT16_MIN || INT16_MAX < scaledValue )
+         if ( !( scaledValue >= INT16_MIN && scaledValue <= INT16_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -878,7 +895,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int16_t *>( p ) = static_cast<int16_t>( scaledValue );
          break;
       case UInt16:
-         if ( scaledValue < UINT16_MIN || UINT16_MAX < scaledValue )
+         if ( !( scaledValue >= UINT16_MIN && scaledValue <= UINT16_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -887,7 +904,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint16_t *>( p ) = static_cast<uint16_t>( scaledValue );
          break;
       case Int32:
-         if ( scaledValue < INT32_MIN || INT32_MAX < scaledValue )
+         if ( !( scaledValue >= INT32_MIN && scaledValue <= INT32_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -896,7 +913,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int32_t *>( p ) = static_cast<int32_t>( scaledValue );
          break;
       case UInt32:
-         if ( scaledValue < UINT32_MIN || UINT32_MAX < scaledValue )
+         if ( !( scaledValue >= UINT32_MIN && scaledValue <= UINT32_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
@@ -905,6 +922,12 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint32_t *>( p ) = static_cast<uint32_t>( scaledValue );
          break;
       case Int64:
+         if ( !fitsInt64( scaledValue ) )
+         {
+            throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
+                                  "pathName=" + pathName_ +
+                                     " scaledValue=" + toString( scaledValue ) );
+         }
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
-- 
2.43.0


From f6091998a8457fadb407d83d3c855eb73a079b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:26 +0000
Subject: [PATCH 04/50] fix: stop decoding strings when the destination buffer
 is full

Reading string records in blocks smaller than the vector failed with
ErrorInternal as soon as one packet held more strings than the buffer.
---
 src/Decoder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Decoder.cpp b/src/Decoder.cpp
index 2024cfe..f41637b 100644
--- a/src/Decoder.cpp
+++ b/src/Decoder.cpp
@@ -512,9 +512,10 @@ size_t BitpackStringDecoder::inputProcessAligned( const char *inbuf, const size_
    size_t nBytesAvailable = ( endBit - firstBit ) >> 3;
    size_t nBytesRead = 0;
 
-   // Loop until we've finished all the records, or ran out of input currently
-   // available
-   while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable )
+   // Loop until we've finished all the records, filled destBuffer, or ran out of
+   // input currently available
+   while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable &&
+           destBuffer_->nextIndex() < destBuffer_->capacity() )
    {
 #ifdef E57_VERBOSE
       std::cout << "read string loop1: readingPrefix=" << readingPrefix_
-- 
2.43.0


From de0eeea7c006b87984a780baedfd5d2ea799146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:26 +0000
Subject: [PATCH 05/50] fix: use the buffers given to read() and write()

Buffers passed to a later read( dbufs ) or write( sbufs, count ) were
checked and stored, but the decoders and encoders kept using the buffers
the session was opened with.
---
 src/CompressedVectorReaderImpl.cpp |  9 +++++++++
 src/CompressedVectorWriterImpl.cpp | 18 ++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 21eed23..dd6a7d0 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -220,6 +220,15 @@ namespace e57
       }
 
       dbufs_ = dbufs;
+
+      // Existing channels (and their decoders) must fill the new buffers
+      for ( size_t i = 0; i < channels_.size(); i++ )
+      {
+         std::vector<SourceDestBuffer> theDbuf( 1, dbufs_.at( i ) );
+
+         channels_[i].dbuf = dbufs_.at( i );
+         channels_[i].decoder->destBufferSetNew( theDbuf );
+      }
    }
 
    unsigned CompressedVectorReaderImpl::read( std::vector<SourceDestBuffer> &dbufs )
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 7099adf..3471ac4 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -270,6 +270,24 @@ namespace e57
       proto_->checkBuffers( sbufs, false );
 
       sbufs_ = sbufs;
+
+      // Existing encoders must take their values from the new buffers
+      if ( !bytestreams_.empty() )
+      {
+         for ( auto &sbuf : sbufs_ )
+         {
+            std::vector<SourceDestBuffer> vTemp( 1, sbuf );
+            uint64_t bytestreamNumber = 0;
+            if ( !proto_->findTerminalPosition( proto_->get( sbuf.pathName() ),
+                                                bytestreamNumber ) )
+            {
+               throw E57_EXCEPTION2( ErrorInternal, "pathName=" + sbuf.pathName() );
+            }
+
+            // bytestreams_ is ordered by bytestreamNumber
+            bytestreams_.at( bytestreamNumber )->sourceBufferSetNew( vTemp );
+         }
+      }
    }
 
    void CompressedVectorWriterImpl::write( std::vector<SourceDestBuffer> &sbufs,
-- 
2.43.0


From 688aaae03b9ea25a238342395d7d306ea8b653e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:33 +0000
Subject: [PATCH 06/50] fix: let replacement buffers differ in capacity but not
 in scaling

read( dbufs ) and write( sbufs, count ) are documented to require buffers
identical to the previous ones except for capacity and address. A different
capacity was refused, and a different doScaling was accepted.
---
 src/SourceDestBufferImpl.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 6f83f2a..663f064 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -1006,18 +1006,18 @@ void SourceDestBufferImpl::checkCompatible(
                             "memoryRepresentation=" + toString( memoryRepresentation_ ) +
                                " newMemoryType=" + toString( newBuf->memoryRepresentation() ) );
    }
-   if ( capacity_ != newBuf->capacity() )
-   {
-      throw E57_EXCEPTION2( ErrorBuffersNotCompatible,
-                            "capacity=" + toString( capacity_ ) +
-                               " newCapacity=" + toString( newBuf->capacity() ) );
-   }
    if ( doConversion_ != newBuf->doConversion() )
    {
       throw E57_EXCEPTION2( ErrorBuffersNotCompatible,
                             "doConversion=" + toString( doConversion_ ) +
                                "newDoConversion=" + toString( newBuf->doConversion() ) );
    }
+   if ( doScaling_ != newBuf->doScaling() )
+   {
+      throw E57_EXCEPTION2( ErrorBuffersNotCompatible,
+                            "doScaling=" + toString( doScaling_ ) +
+                               " newDoScaling=" + toString( newBuf->doScaling() ) );
+   }
    if ( stride_ != newBuf->stride() )
    {
       throw E57_EXCEPTION2( ErrorBuffersNotCompatible,
-- 
2.43.0


From 4b1b2cd4b97a9d7ec21ddb7d8be49cdce1e5b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:12 +0000
Subject: [PATCH 07/50] fix: make closing a reader or writer twice harmless

The session counts were decremented again by the second close(), which is
documented not to be an error.
---
 src/CompressedVectorReaderImpl.cpp | 12 ++++++------
 src/CompressedVectorWriterImpl.cpp | 14 ++++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index dd6a7d0..7afab27 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -574,18 +574,16 @@ namespace e57
 
    void CompressedVectorReaderImpl::close()
    {
-      // Before anything that can throw, decrement reader count
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-      imf->decrReaderCount();
-
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-
       // No error if reader not open
       if ( !isOpen_ )
       {
          return;
       }
 
+      // Before anything that can throw, decrement reader count
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+      imf->decrReaderCount();
+
       // Destroy decoders
       channels_.clear();
 
@@ -593,6 +591,8 @@ namespace e57
       cache_ = nullptr;
 
       isOpen_ = false;
+
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
    }
 
    void CompressedVectorReaderImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 3471ac4..1ec4f44 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -155,23 +155,25 @@ namespace e57
 #ifdef E57_VERBOSE
       std::cout << "CompressedVectorWriterImpl::close() called" << std::endl; //???
 #endif
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-
-      // Before anything that can throw, decrement writer count
-      imf->decrWriterCount();
-
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       // don't call checkWriterOpen();
 
+      // No error if writer not open
       if ( !isOpen_ )
       {
          return;
       }
 
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+
+      // Before anything that can throw, decrement writer count
+      imf->decrWriterCount();
+
       // Set closed before do anything, so if get fault and start unwinding, don't
       // try to close again.
       isOpen_ = false;
 
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+
       // If have any data, write packet
       // Write all remaining ioBuffers and internal encoder register cache into
       // file. Know we are done when totalOutputAvailable() returns 0 after a
-- 
2.43.0


From d65b616ac2b1340c0504470084735d5e624993f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:12 +0000
Subject: [PATCH 08/50] fix: report reader and writer use after the ImageFile
 was closed

The check was not implemented, so a writer used after its file was closed
dereferenced the released file.
---
 src/CompressedVectorReaderImpl.cpp | 5 +----
 src/CompressedVectorWriterImpl.cpp | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 7afab27..42bc5e6 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -598,10 +598,7 @@ namespace e57
    void CompressedVectorReaderImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      cVector_->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorReaderImpl::checkReaderOpen( const char *srcFileName, int srcLineNumber,
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 1ec4f44..71949e6 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -717,10 +717,7 @@ namespace e57
    void CompressedVectorWriterImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      cVector_->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorWriterImpl::checkWriterOpen( const char *srcFileName, int srcLineNumber,
-- 
2.43.0


From 7c36cf7ef2fa13b07c62a985690e7277da6e36cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:12 +0000
Subject: [PATCH 09/50] fix: apply scaling when writing constant scaled integer
 fields

A scaled integer whose minimum equals its maximum compared the unscaled
buffer value with the raw minimum and refused correct values.
---
 src/Encoder.cpp | 16 ++++++++++------
 src/Encoder.h   |  7 ++++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/Encoder.cpp b/src/Encoder.cpp
index e0c403f..c703314 100644
--- a/src/Encoder.cpp
+++ b/src/Encoder.cpp
@@ -83,7 +83,8 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, ini->minimum() ) );
+               new ConstantIntegerEncoder( false, bytestreamNumber, sbuf, ini->minimum(), 1.0,
+                                           0.0 ) );
 
             return encoder;
          }
@@ -138,7 +139,8 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, sini->minimum() ) );
+               new ConstantIntegerEncoder( true, bytestreamNumber, sbuf, sini->minimum(),
+                                           sini->scale(), sini->offset() ) );
 
             return encoder;
          }
@@ -893,10 +895,11 @@ void BitpackIntegerEncoder<RegisterT>::dump( int indent, std::ostream &os ) cons
 
 //================================================================
 
-ConstantIntegerEncoder::ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf,
-                                                int64_t minimum ) :
+ConstantIntegerEncoder::ConstantIntegerEncoder( bool isScaledInteger, unsigned bytestreamNumber,
+                                                SourceDestBuffer &sbuf, int64_t minimum,
+                                                double scale, double offset ) :
    Encoder( bytestreamNumber ), sourceBuffer_( sbuf.impl() ), currentRecordIndex_( 0 ),
-   minimum_( minimum )
+   isScaledInteger_( isScaledInteger ), minimum_( minimum ), scale_( scale ), offset_( offset )
 {
 }
 
@@ -911,7 +914,8 @@ uint64_t ConstantIntegerEncoder::processRecords( size_t recordCount )
    // Check that all source values are == minimum_
    for ( unsigned i = 0; i < recordCount; i++ )
    {
-      int64_t nextInt64 = sourceBuffer_->getNextInt64();
+      int64_t nextInt64 = isScaledInteger_ ? sourceBuffer_->getNextInt64( scale_, offset_ )
+                                           : sourceBuffer_->getNextInt64();
       if ( nextInt64 != minimum_ )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "nextInt64=" + toString( nextInt64 ) +
diff --git a/src/Encoder.h b/src/Encoder.h
index 5806f6a..9f2ece6 100644
--- a/src/Encoder.h
+++ b/src/Encoder.h
@@ -176,7 +176,9 @@ namespace e57
    class ConstantIntegerEncoder : public Encoder
    {
    public:
-      ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf, int64_t minimum );
+      ConstantIntegerEncoder( bool isScaledInteger, unsigned bytestreamNumber,
+                              SourceDestBuffer &sbuf, int64_t minimum, double scale,
+                              double offset );
       uint64_t processRecords( size_t recordCount ) override;
       unsigned sourceBufferNextIndex() override;
       uint64_t currentRecordIndex() override;
@@ -198,6 +200,9 @@ namespace e57
    protected:
       std::shared_ptr<SourceDestBufferImpl> sourceBuffer_;
       uint64_t currentRecordIndex_;
+      bool isScaledInteger_;
       int64_t minimum_;
+      double scale_;
+      double offset_;
    };
 }
-- 
2.43.0


From d8c9117ff17791b25ad08f0bc5cde7a96d8a247f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:12 +0000
Subject: [PATCH 10/50] fix: make vectors without data bytes readable

A vector whose fields are all constant, or whose writer was closed without
writing, got no data packet and could not be read. Writing zero records
between other writes added a packet without bytestreams that could not be
read either. Write one packet with empty bytestreams when closing instead.
---
 src/CompressedVectorWriterImpl.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 71949e6..a617e7f 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -185,6 +185,12 @@ namespace e57
          flush();
       }
 
+      // If there was nothing to put in a data packet, still write one so the reader can find it.
+      if ( dataPacketsCount_ == 0 )
+      {
+         packetWriteZeroRecords();
+      }
+
       // Write one index packet (required by standard).
       packetWriteIndex();
 
@@ -312,7 +318,6 @@ namespace e57
 
       if ( requestedRecordCount == 0 )
       {
-         packetWriteZeroRecords();
          return;
       }
 
@@ -636,7 +641,7 @@ namespace e57
       return ( packetPhysicalOffset ); //??? needed
    }
 
-   // If we don't have any records, write a packet which is only the header + zero padding.
+   // If we don't have any data, write a packet whose bytestream buffers are all empty.
    // Code is a simplified version of packetWrite().
    void CompressedVectorWriterImpl::packetWriteZeroRecords()
    {
@@ -649,17 +654,17 @@ namespace e57
 
       auto packetLength = static_cast<unsigned int>( sizeof( DataPacketHeader ) );
 
+      // Write zero lengths for all the bytestream buffers.
       // packetLength must be multiple of 4, add zero padding
-      auto data = reinterpret_cast<char *>( &packet[sizeof( DataPacketHeader )] );
-      while ( packetLength % 4 )
+      const auto cLengthsEnd = packetLength + bytestreams_.size() * sizeof( uint16_t );
+      while ( packetLength < cLengthsEnd || packetLength % 4 )
       {
-         *data++ = 0;
-
-         packetLength++;
+         packet[packetLength++] = 0;
       }
 
       // Prepare header in dataPacket_, now that we are sure of packetLength
       dataPacket_.header.packetLogicalLengthMinus1 = static_cast<uint16_t>( packetLength - 1 );
+      dataPacket_.header.bytestreamCount = static_cast<uint16_t>( bytestreams_.size() );
 
       // Double check that data packet is well formed
       dataPacket_.verify( packetLength );
-- 
2.43.0


From 23a232725ff0953106ae8d9e611b30be439eb03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:12 +0000
Subject: [PATCH 11/50] fix: allow padding up to the full length of a data
 packet

The last byte of the packet buffer was treated as out of range, so a packet
that needed it for padding failed with ErrorInternal.
---
 src/CompressedVectorWriterImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index a617e7f..6d0cfd9 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -590,7 +590,7 @@ namespace e57
       {
          // Double check we aren't accidentally going to write off end of
          // vector<char>
-         if ( p >= &packet[DATA_PACKET_MAX - 1] )
+         if ( p >= &packet[DATA_PACKET_MAX] )
          {
             throw E57_EXCEPTION1( ErrorInternal );
          }
-- 
2.43.0


From 009db9e9303bcb56c3543df24326d715f10ee048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:46 +0000
Subject: [PATCH 12/50] fix: refuse to set a node of another ImageFile by path
 name

StructureNode::set() is documented to throw ErrorDifferentDestImageFile,
but only the index version checked it.
---
 src/StructureNodeImpl.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index e64f7e9..95c7430 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -331,6 +331,16 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
    // Check if we are at bottom level
    if ( level == fields.size() - 1 )
    {
+      // Verify that child is destined for same ImageFile as this is
+      ImageFileImplSharedPtr thisDest( destImageFile() );
+      ImageFileImplSharedPtr niDest( ni->destImageFile() );
+      if ( thisDest != niDest )
+      {
+         throw E57_EXCEPTION2( ErrorDifferentDestImageFile,
+                               "this->destImageFile" + thisDest->fileName() +
+                                  " ni->destImageFile" + niDest->fileName() );
+      }
+
       // At bottom, so append node at end of children
       ni->setParent( shared_from_this(), fields.at( level ) );
       children_.push_back( ni );
-- 
2.43.0


From ee57ddfa784a60b51a978e8e3dd92130f2418133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:46 +0000
Subject: [PATCH 13/50] fix: check element names and homogeneity when setting
 by path name

Setting a child of a Vector by path name skipped the homogeneity check and
accepted any name. It is documented to be equivalent to an append at the
next index. Structures accepted numeric and empty child names, which made
the saved file unreadable.
---
 src/StructureNodeImpl.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index 95c7430..921276c 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -331,6 +331,33 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
    // Check if we are at bottom level
    if ( level == fields.size() - 1 )
    {
+      const ustring &elementName = fields.at( level );
+
+      // Handle case when pathname ends in /, e.g. "/foo/"
+      if ( elementName.empty() )
+      {
+         throw E57_EXCEPTION2( ErrorPathNameEmpty, "this->pathName=" + this->pathName() );
+      }
+
+      if ( type() == TypeVector )
+      {
+         // Child of a Vector must be named by the next free index, request is same as append
+         if ( elementName != toString( children_.size() ) )
+         {
+            throw E57_EXCEPTION2( ErrorPathNameMalformed, "this->pathName=" + this->pathName() +
+                                                             " element=" + elementName );
+         }
+         set( static_cast<int64_t>( children_.size() ), ni );
+         return;
+      }
+
+      // Only children of a Vector can have numeric names
+      if ( elementName[0] >= '0' && elementName[0] <= '9' )
+      {
+         throw E57_EXCEPTION2( ErrorPathNameMalformed, "this->pathName=" + this->pathName() +
+                                                          " element=" + elementName );
+      }
+
       // Verify that child is destined for same ImageFile as this is
       ImageFileImplSharedPtr thisDest( destImageFile() );
       ImageFileImplSharedPtr niDest( ni->destImageFile() );
-- 
2.43.0


From 62a1ef598025325b2a2850cd512d471e6176f29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:46 +0000
Subject: [PATCH 14/50] fix: refuse to make a node its own descendant

Adding an unattached tree below one of its own nodes created a cycle, and
any later path lookup never returned.
---
 src/NodeImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index 12c69c4..de1ca14 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -166,7 +166,8 @@ void NodeImpl::setParent( NodeImplSharedPtr parent, const ustring &elementName )
    //    root.set("x", root)) 2) if user attempts to reuse codecs or prototype
    //    trees of a CompressedVectorNode
    //       ??? what if CV not attached yet?
-   if ( !parent_.expired() || isAttached_ )
+   // Also catch making a node a descendant of itself.
+   if ( !parent_.expired() || isAttached_ || parent->getRoot() == shared_from_this() )
    {
       // ??? does caller do setParent first, so state is not messed up when
       // throw?
-- 
2.43.0


From 65741c7efe17479676450927d6150e1d2017a49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:46 +0000
Subject: [PATCH 15/50] fix: refuse prefixed element names whose local part
 starts with a digit

Names like "ext:1a" are not valid XML names, so files using them could not
be opened again. Same for '-' and '.'.
---
 src/ImageFileImpl.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 0187868..c70711b 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -743,7 +743,11 @@ namespace e57
          prefix = elementName.substr( 0, found );
          localPart = elementName.substr( found + 1 );
 
-         if ( prefix.length() == 0 || localPart.length() == 0 )
+         // The local part must start like an unprefixed name does
+         const unsigned char first = localPart.empty() ? '\0' : localPart[0];
+
+         if ( prefix.length() == 0 || localPart.length() == 0 ||
+              ( '0' <= first && first <= '9' ) || first == '-' || first == '.' )
          {
             throw E57_EXCEPTION2( ErrorPathNameMalformed, "elementName=" + elementName +
                                                              " prefix=" + prefix +
-- 
2.43.0


From 85d9bab41ac033daa3e4a5c22a05ead43b99b47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:46 +0000
Subject: [PATCH 16/50] fix: refuse negative start positions in blob reads and
 writes

The bounds check wrapped around, so a write at a small negative start
overwrote the section header in front of the blob.
---
 src/BlobNodeImpl.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 12ba879..301370f 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -123,10 +123,9 @@ namespace e57
 
    void BlobNodeImpl::read( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
-
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||
+           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
@@ -142,7 +141,6 @@ namespace e57
 
    void BlobNodeImpl::write( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
       ImageFileImplSharedPtr destImageFile( destImageFile_ );
@@ -156,7 +154,8 @@ namespace e57
          throw E57_EXCEPTION2( ErrorNodeUnattached, "fileName=" + destImageFile->fileName() );
       }
 
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||
+           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
-- 
2.43.0


From 57ef69a8b67d8bf8cd2649cecc41b4ffa0e69a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:48:59 +0000
Subject: [PATCH 17/50] fix: refuse to modify the tree or extensions of a
 read-only file

StructureNode::set(), VectorNode::append() and ImageFile::extensionsAdd()
are documented to throw ErrorFileReadOnly but changed the tree in memory.
---
 src/ImageFile.cpp     | 5 +++++
 src/StructureNode.cpp | 7 +++++++
 src/VectorNode.cpp    | 7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/src/ImageFile.cpp b/src/ImageFile.cpp
index 1947a44..3886dd1 100644
--- a/src/ImageFile.cpp
+++ b/src/ImageFile.cpp
@@ -507,6 +507,11 @@ See the class discussion at bottom of ImageFile page for more details about name
 */
 void ImageFile::extensionsAdd( const ustring &prefix, const ustring &uri )
 {
+   if ( impl_->isOpen() && !impl_->isWriter() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + impl_->fileName() );
+   }
+
    impl_->extensionsAdd( prefix, uri );
 }
 
diff --git a/src/StructureNode.cpp b/src/StructureNode.cpp
index c01a9ef..57846e0 100644
--- a/src/StructureNode.cpp
+++ b/src/StructureNode.cpp
@@ -29,6 +29,7 @@
 
 /// @file StructureNode.cpp
 
+#include "ImageFileImpl.h"
 #include "StringFunctions.h"
 #include "StructureNodeImpl.h"
 
@@ -352,6 +353,12 @@ destImageFile() == n.destImageFile()).
 */
 void StructureNode::set( const ustring &pathName, const Node &n )
 {
+   ImageFileImplSharedPtr imf( impl_->destImageFile() );
+   if ( imf->isOpen() && !imf->isWriter() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + imf->fileName() );
+   }
+
    impl_->set( pathName, n.impl(), false );
 }
 
diff --git a/src/VectorNode.cpp b/src/VectorNode.cpp
index 8ba5ab5..4d1f392 100644
--- a/src/VectorNode.cpp
+++ b/src/VectorNode.cpp
@@ -29,6 +29,7 @@
 
 /// @file VectorNode.cpp
 
+#include "ImageFileImpl.h"
 #include "StringFunctions.h"
 #include "VectorNodeImpl.h"
 
@@ -380,6 +381,12 @@ destImageFile().isWritable()).
 */
 void VectorNode::append( const Node &n )
 {
+   ImageFileImplSharedPtr imf( impl_->destImageFile() );
+   if ( imf->isOpen() && !imf->isWriter() )
+   {
+      throw E57_EXCEPTION2( ErrorFileReadOnly, "fileName=" + imf->fileName() );
+   }
+
    impl_->append( n.impl() );
 }
 
-- 
2.43.0


From 483038d4e28dc0e8a829751431cebb6aee1785c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:37 +0000
Subject: [PATCH 18/50] fix: report short writes

A page that was only partly written, for example because the disk is full,
was not noticed and left a damaged file behind.
---
 src/CheckedFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 84222fc..198a7ac 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -821,7 +821,7 @@ void CheckedFile::writePhysicalPage( char *page_buffer, uint64_t page )
 #error "no supported compiler defined"
 #endif
 
-   if ( result < 0 )
+   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )
    {
       throw E57_EXCEPTION2( ErrorWriteFailed,
                             "fileName=" + fileName_ + " result=" + toString( result ) );
-- 
2.43.0


From 1007ff4948b83de1a72503e9da859edb2545bcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:37 +0000
Subject: [PATCH 19/50] fix: do not close a file descriptor twice after a
 failed close

The second close could hit a descriptor that belongs to someone else, and
its failure kept a cancelled file from being removed.
---
 src/CheckedFile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 198a7ac..956c777 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -695,13 +695,14 @@ void CheckedFile::close()
 #else
 #error "no supported compiler defined"
 #endif
+      // The descriptor is released even if closing failed, so don't use it again
+      fd_ = -1;
+
       if ( result < 0 )
       {
          throw E57_EXCEPTION2( ErrorCloseFailed,
                                "fileName=" + fileName_ + " result=" + toString( result ) );
       }
-
-      fd_ = -1;
    }
 
    if ( bufView_ != nullptr )
-- 
2.43.0


From 69f4c4b57b92d36dc5ef08ac379f16795b1e2c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:37 +0000
Subject: [PATCH 20/50] fix: close the file when its length is not a multiple
 of the page size

Opening such a file failed as intended but leaked the file descriptor.
---
 src/CheckedFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 956c777..f285f8d 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -212,6 +212,9 @@ CheckedFile::CheckedFile( const ustring &fileName, Mode mode, ReadChecksumPolicy
 
          if ( physicalLength_ % 1024 != 0 )
          {
+            // The destructor is not called for a partly constructed object
+            close();
+
             throw E57_EXCEPTION2( ErrorBadInputDataSize,
                                   "file length is " + toString( physicalLength_ ) + " bytes" );
          }
-- 
2.43.0


From 88a1870e38f14f6c21286a34231220f21d4f517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:23 +0000
Subject: [PATCH 21/50] fix: write enough digits for single precision values

The text of a single precision FloatNode was read back as a slightly
different value. For the largest float it was out of bounds, so the file
could not be opened again.
---
 src/CheckedFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index f285f8d..f6b3422 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -481,8 +481,8 @@ CheckedFile &CheckedFile::operator<<( uint64_t i )
 
 CheckedFile &CheckedFile::operator<<( float f )
 {
-   //??? is 7 digits right number?
-   return writeFloatingPoint( f, 7 );
+   // All numbers are read back as double, so write the digits needed to get the same double.
+   return writeFloatingPoint( static_cast<double>( f ), 17 );
 }
 
 CheckedFile &CheckedFile::operator<<( double d )
-- 
2.43.0


From a7726d5d998ca9e7bee47f5518cb24e1d838a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:23 +0000
Subject: [PATCH 22/50] fix: refuse FloatNode values that are not finite

NaN passed the bounds check and then made closing the file fail, since it
has no text form.
---
 src/FloatNodeImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/FloatNodeImpl.cpp b/src/FloatNodeImpl.cpp
index 0486354..cd963c5 100644
--- a/src/FloatNodeImpl.cpp
+++ b/src/FloatNodeImpl.cpp
@@ -25,6 +25,8 @@
  * DEALINGS IN THE SOFTWARE.
  */
 
+#include <cmath>
+
 #include "FloatNodeImpl.h"
 #include "CheckedFile.h"
 #include "StringFunctions.h"
@@ -54,7 +56,8 @@ namespace e57
    // Throw an exception if the value is not within bounds.
    void FloatNodeImpl::validateValue() const
    {
-      if ( value_ < minimum_ || value_ > maximum_ )
+      // Note that NaN fails every comparison. Infinite values can't be stored as text.
+      if ( !( value_ >= minimum_ && value_ <= maximum_ ) || std::isinf( value_ ) )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "this->pathName=" + this->pathName() +
                                                          " value=" + toString( value_ ) +
-- 
2.43.0


From d8600a46467c4d71a95f8a2c749c91cc3c0a8051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:23 +0000
Subject: [PATCH 23/50] fix: keep carriage returns in string values

The XML parser turned them into line feeds when the file was opened again.
---
 src/StringNodeImpl.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/StringNodeImpl.cpp b/src/StringNodeImpl.cpp
index 8a2fd29..a211d86 100644
--- a/src/StringNodeImpl.cpp
+++ b/src/StringNodeImpl.cpp
@@ -112,6 +112,18 @@ namespace e57
          while ( currentPosition < len )
          {
             size_t found = value_.find( "]]>", currentPosition );
+            size_t foundCR = value_.find( '\r', currentPosition );
+
+            if ( foundCR < found )
+            {
+               // A literal carriage return would be changed to a line feed by the XML parser, so
+               // send it as a character reference, which must be outside of CDATA.
+               cf << value_.substr( currentPosition, foundCR - currentPosition );
+               cf << "]]>&#13;<![CDATA[";
+
+               currentPosition = foundCR + 1;
+               continue;
+            }
 
             if ( found == std::string::npos )
             {
-- 
2.43.0


From 4b9fced2c237eff2bba6520a63c0fb4a0749aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:23 +0000
Subject: [PATCH 24/50] fix: escape extension URIs in the XML section

A URI containing an ampersand, a quote or a less-than sign made the saved
file unreadable.
---
 src/StructureNodeImpl.cpp | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index 921276c..deb8d29 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -34,6 +34,36 @@
 
 using namespace e57;
 
+namespace
+{
+   /// Replace the characters that can't appear in a double quoted XML attribute value
+   ustring escapeXmlAttribute( const ustring &value )
+   {
+      ustring escaped;
+
+      for ( const char c : value )
+      {
+         switch ( c )
+         {
+            case '&':
+               escaped += "&amp;";
+               break;
+            case '<':
+               escaped += "&lt;";
+               break;
+            case '"':
+               escaped += "&quot;";
+               break;
+            default:
+               escaped += c;
+               break;
+         }
+      }
+
+      return escaped;
+   }
+}
+
 StructureNodeImpl::StructureNodeImpl( ImageFileImplWeakPtr destImageFile ) :
    NodeImpl( destImageFile )
 {
@@ -457,7 +487,7 @@ void StructureNodeImpl::writeXml( ImageFileImplSharedPtr imf, CheckedFile &cf, i
 
          cf << "\n"
             << space( numSpaces ) << xmlnsExtension << imf->extensionsPrefix( index ) << "=\""
-            << imf->extensionsUri( index ) << "\"";
+            << escapeXmlAttribute( imf->extensionsUri( index ) ) << "\"";
       }
 
       // If user didn't explicitly declare a default namespace, use the current E57 standard one.
-- 
2.43.0


From 7318e3bd90c1cf618af17e0c48e02feace12a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:23 +0000
Subject: [PATCH 25/50] fix: refuse a second writer on a vector that already
 has records

It is documented to throw ErrorSetTwice, but silently replaced the records
that had been written.
---
 src/CompressedVectorNodeImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CompressedVectorNodeImpl.cpp b/src/CompressedVectorNodeImpl.cpp
index 63ae31c..0623b2a 100644
--- a/src/CompressedVectorNodeImpl.cpp
+++ b/src/CompressedVectorNodeImpl.cpp
@@ -304,6 +304,12 @@ namespace e57
          throw E57_EXCEPTION2( ErrorNodeUnattached, "fileName=" + destImageFile->fileName() );
       }
 
+      // Can't write the records of a CompressedVector twice
+      if ( recordCount_ > 0 )
+      {
+         throw E57_EXCEPTION2( ErrorSetTwice, "this->pathName=" + this->pathName() );
+      }
+
       // Get pointer to me (really shared_ptr<CompressedVectorNodeImpl>)
       NodeImplSharedPtr ni( shared_from_this() );
 
-- 
2.43.0


From 80bb4ca3499458365d1925360f970dfa7fc35c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:23 +0000
Subject: [PATCH 26/50] fix: forget the old packet before reading into its
 cache entry

If reading or checking the new packet failed, the cache still claimed to
hold the old packet and a later lookup returned the wrong data.
---
 src/Packet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Packet.cpp b/src/Packet.cpp
index 03482a5..31f91e1 100644
--- a/src/Packet.cpp
+++ b/src/Packet.cpp
@@ -181,6 +181,9 @@ void PacketReadCache::readPacket( unsigned oldestEntry, uint64_t packetLogicalOf
 
    auto &entry = entries_.at( oldestEntry );
 
+   // The buffer is about to be overwritten, so the entry is not valid until all went well
+   entry.logicalOffset_ = 0;
+
    // Now read in whole packet into preallocated buffer_.  Note buffer is
    cFile_->seek( packetLogicalOffset, CheckedFile::Logical );
    cFile_->read( entry.buffer_, packetLength );
-- 
2.43.0


From 8dfb9bbf0bd66ebe3722a9e0e2f5644f49b836d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:27 +0000
Subject: [PATCH 27/50] fix: refuse changes to the prototype of an attached
 compressed vector

The prototype and codecs trees of a compressed vector have no parent, so the
check for type constraints never reached the vector. Fields could be added to
a prototype after the records were written, which made the file unreadable.
---
 src/NodeImpl.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index de1ca14..5fcdfbc 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -233,6 +233,15 @@ bool NodeImpl::isTypeConstrained()
             break;
       }
    }
+   // When writing, an attached tree that isn't the tree of the ImageFile is the prototype or the
+   // codecs of an attached COMPRESSED_VECTOR (which isn't the parent of the tree), so can't change
+   // it either.
+   ImageFileImplSharedPtr imf( destImageFile_ );
+   if ( imf->isWriter() && p->isAttached() && p != imf->root() )
+   {
+      return ( true );
+   }
+
    // Didn't find any constraining VECTORs or COMPRESSED_VECTORs in path above us, so our type is
    // not constrained.
    return ( false );
-- 
2.43.0


From 1f884e452811a72e44fb131c862836bf9d4a97fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:57 +0000
Subject: [PATCH 28/50] fix: nested structures named e57Root made a file
 unreadable

The XML parser took every structure called e57Root for the root of the
file and demanded a default namespace declaration on it. Only the
outermost element is the root.
---
 src/E57XmlParser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 101f470..4009235 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -546,8 +546,11 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
 #endif
       pi.nodeType = TypeStructure;
 
+      // Only the outermost element is the root: others are free to use the same name
+      const bool isRoot = stack_.empty() && ( toUString( localName ) == "e57Root" );
+
       // Read name space decls, if e57Root element
-      if ( toUString( localName ) == "e57Root" )
+      if ( isRoot )
       {
          // Search attributes for namespace declarations (only allowed in E57Root structure)
          bool gotDefault = false;
@@ -593,7 +596,7 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
 
       // After have Structure, check again if E57Root, if so mark attached so all children will be
       // attached when added
-      if ( toUString( localName ) == "e57Root" )
+      if ( isRoot )
       {
          s_ni->setAttachedRecursive();
       }
-- 
2.43.0


From 4c488d3f3a984242aa83b40295495f47a7513806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:26 +0000
Subject: [PATCH 29/50] fix: elementNameParse left its results unset for
 numeric names

The prefix and local part kept whatever the caller had in them.
---
 src/ImageFileImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index c70711b..4cfb736 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -703,6 +703,8 @@ namespace e57
             }
          }
 
+         prefix = "";
+         localPart = elementName;
          return;
       }
 
-- 
2.43.0


From a1b6d2a9e039c071275ce0623e992c0a34478e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:33 +0000
Subject: [PATCH 30/50] fix: refuse two buffers that name the same element by
 relative and absolute path

CompressedVectorNode::writer() and reader() document that it is an error for
two buffers to identify the same element of the prototype. Duplicates were
only found when both path names were spelled the same, so "x" and "/x"
together were accepted and the writer stored a malformed section. The check
now compares the elements' own paths. An absolute path name is also accepted
where a writer requires a buffer for each element.
---
 src/NodeImpl.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index 5fcdfbc..13120e2 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -311,19 +311,20 @@ void NodeImpl::checkBuffers( const std::vector<SourceDestBuffer> &sdbufs,
                " secondCapacity=" + toString( sdbufs.at( i ).impl()->capacity() ) );
       }
 
-      // Add each pathName to set, error if already in set (a duplicate pathName in sdbufs)
-      if ( !pathNames.insert( pathName ).second )
-      {
-         throw E57_EXCEPTION2( ErrorBufferDuplicatePathName, "this->pathName=" + this->pathName() +
-                                                                " sdbuf.pathName=" + pathName );
-      }
-
       // Check no bad fields in sdbufs
       if ( !isDefined( pathName ) )
       {
          throw E57_EXCEPTION2( ErrorPathUndefined, "this->pathName=" + this->pathName() +
                                                       " sdbuf.pathName=" + pathName );
       }
+
+      // Add path of each node to set, error if already in set (two sdbufs for the same node). Use the
+      // path relative to this, since relative and absolute path names can identify the same node.
+      if ( !pathNames.insert( get( pathName )->relativePathName( shared_from_this() ) ).second )
+      {
+         throw E57_EXCEPTION2( ErrorBufferDuplicatePathName, "this->pathName=" + this->pathName() +
+                                                                " sdbuf.pathName=" + pathName );
+      }
    }
 
    if ( !allowMissing )
-- 
2.43.0


From 00cb630c717dba0e276b642df214c8b4b9b0c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:44 +0000
Subject: [PATCH 31/50] fix: refuse a negative blob length

The BlobNode constructor documents byteCount >= 0 and ErrorBadAPIArgument.
A negative length was taken as a huge unsigned one, and the library started
to extend the file without end.
---
 src/BlobNodeImpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 301370f..8f74e38 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -38,6 +38,11 @@ namespace e57
    {
       // don't checkImageFileOpen, NodeImpl() will do it
 
+      if ( byteCount < 0 )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "byteCount=" + toString( byteCount ) );
+      }
+
       ImageFileImplSharedPtr imf( destImageFile );
 
       // This what caller thinks blob length is
-- 
2.43.0


From 9570c75a56f44df0f20bd9f660fbbc859188af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:18 +0000
Subject: [PATCH 32/50] fix: refuse scaled integer values that do not fit 64
 bits

The constructor taking scaled values converted the value and both bounds
to 64-bit integers without checking them. Values too large, infinite, NaN
or divided by a zero scale became an arbitrary integer, and the element
was created with a value and bounds other than those given.
---
 src/ScaledIntegerNodeImpl.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/ScaledIntegerNodeImpl.cpp b/src/ScaledIntegerNodeImpl.cpp
index 1c284b6..aa8ac43 100644
--- a/src/ScaledIntegerNodeImpl.cpp
+++ b/src/ScaledIntegerNodeImpl.cpp
@@ -33,6 +33,25 @@
 
 namespace e57
 {
+   namespace
+   {
+      // Nearest raw value, which must be representable (NaN, e.g. from a zero scale, is not).
+      int64_t scaledToRaw( double scaledValue, double scale, double offset )
+      {
+         const double rawValue = std::floor( ( scaledValue - offset ) / scale + .5 );
+
+         if ( !( rawValue >= -9223372036854775808.0 && rawValue < 9223372036854775808.0 ) )
+         {
+            throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
+                                  "scaledValue=" + toString( scaledValue ) +
+                                     " scale=" + toString( scale ) +
+                                     " offset=" + toString( offset ) );
+         }
+
+         return static_cast<int64_t>( rawValue );
+      }
+   }
+
    ScaledIntegerNodeImpl::ScaledIntegerNodeImpl( ImageFileImplWeakPtr destImageFile,
                                                  int64_t rawValue, int64_t minimum, int64_t maximum,
                                                  double scale, double offset ) :
@@ -46,9 +65,9 @@ namespace e57
                                                  double scaledMaximum, double scale,
                                                  double offset ) :
       NodeImpl( destImageFile ),
-      value_( static_cast<int64_t>( std::floor( ( scaledValue - offset ) / scale + .5 ) ) ),
-      minimum_( static_cast<int64_t>( std::floor( ( scaledMinimum - offset ) / scale + .5 ) ) ),
-      maximum_( static_cast<int64_t>( std::floor( ( scaledMaximum - offset ) / scale + .5 ) ) ),
+      value_( scaledToRaw( scaledValue, scale, offset ) ),
+      minimum_( scaledToRaw( scaledMinimum, scale, offset ) ),
+      maximum_( scaledToRaw( scaledMaximum, scale, offset ) ),
       scale_( scale ), offset_( offset )
    {
    }
-- 
2.43.0


From 0d305fe5314ddf91a5203ef3d8cd63085285910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:27 +0000
Subject: [PATCH 33/50] fix: let a seek past the end of a memory buffer behave
 as it does for a file

Seeking beyond the end of a buffer raised ErrorSeekFailed at once, while the
same seek in a file succeeds and the following read reports the error. The
same bytes therefore failed differently from a buffer and from disk.
---
 src/CheckedFile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index f6b3422..bde67d0 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -160,7 +160,9 @@ public:
          cursorStream_ = streamSize_ - offset;
       }
 
-      if ( cursorStream_ > streamSize_ )
+      // As with a file, it is reading beyond the end that fails, not seeking there. An offset that is
+      // negative when taken as signed is invalid.
+      if ( static_cast<int64_t>( cursorStream_ ) < 0 )
       {
          cursorStream_ = streamSize_;
          return false;
-- 
2.43.0


From 2ce8ccfde42826d9e3843f28f11a2e4ee81cac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:01 +0000
Subject: [PATCH 34/50] fix: refuse a compressed vector without prototype, and
 read one without codecs

The XML parser did not check that the children of a CompressedVector element
are there. A missing prototype was only noticed when it was asked for, and
asking for missing codecs dereferenced a null pointer.
---
 src/E57XmlParser.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 4009235..6a48108 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -709,8 +709,24 @@ void E57XmlParser::endElement( const XMLCh *const uri, const XMLCh *const localN
          break;
       case TypeCompressedVector:
       {
-         // Verify that both prototype and codecs child elements were defined
-         // ???
+         std::shared_ptr<CompressedVectorNodeImpl> cv_ni =
+            std::static_pointer_cast<CompressedVectorNodeImpl>( pi.container_ni );
+
+         // The prototype child element must be defined
+         if ( !cv_ni->getPrototype() )
+         {
+            throw E57_EXCEPTION2( ErrorBadXMLFormat, "fileName=" + imf_->fileName() +
+                                                        " uri=" + toUString( uri ) +
+                                                        " localName=" + toUString( localName ) +
+                                                        " qName=" + toUString( qName ) );
+         }
+
+         // Without a codecs child element there are no codecs to list
+         if ( !cv_ni->getCodecs() )
+         {
+            cv_ni->setCodecs( std::make_shared<VectorNodeImpl>( imf_, true ) );
+         }
+
          current_ni = pi.container_ni;
       }
       break;
-- 
2.43.0


From eb178f1dd7bdea8900e77a4178b78f2dbb28cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:01 +0000
Subject: [PATCH 35/50] fix: refuse an XML section whose outermost element is
 not e57Root

Any Structure element was taken for the root. Its namespaces were not
registered and its elements were never marked as attached.
---
 src/E57XmlParser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 6a48108..4e854b2 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -549,6 +549,15 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       // Only the outermost element is the root: others are free to use the same name
       const bool isRoot = stack_.empty() && ( toUString( localName ) == "e57Root" );
 
+      // The outermost element can't be anything else
+      if ( stack_.empty() && !isRoot )
+      {
+         throw E57_EXCEPTION2( ErrorBadXMLFormat, "fileName=" + imf_->fileName() +
+                                                     " uri=" + toUString( uri ) +
+                                                     " localName=" + toUString( localName ) +
+                                                     " qName=" + toUString( qName ) );
+      }
+
       // Read name space decls, if e57Root element
       if ( isRoot )
       {
-- 
2.43.0


From 45973dd4e6f62fcf04166d63328dce5f3c59bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:01 +0000
Subject: [PATCH 36/50] fix: refuse negative offsets, lengths and record counts
 in the XML section

They were taken over as they are. A negative record count made a reader
deliver whatever the packets hold, and a negative blob length was reported
to the user as the size of the blob.
---
 src/E57XmlParser.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 4e854b2..639dce4 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -114,6 +114,18 @@ namespace
       return ( toUString( attributes.getValue( attr_index ) ) );
    }
 
+   // Offsets, lengths and counts can't be negative
+   int64_t lookupCountAttribute( const Attributes &attributes, const XMLCh *attribute_name )
+   {
+      const int64_t count = convertStrToLL( lookupAttribute( attributes, attribute_name ) );
+      if ( count < 0 )
+      {
+         throw E57_EXCEPTION2( ErrorBadXMLFormat, "attributeName=" + toUString( attribute_name ) +
+                                                     " value=" + toString( count ) );
+      }
+      return count;
+   }
+
    bool isAttributeDefined( const Attributes &attributes, const XMLCh *attribute_name )
    {
       XMLSize_t attr_index;
@@ -528,14 +540,10 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       //??? check validity of numeric strings
 
       // fileOffset is required to be defined
-      ustring fileOffset_str = lookupAttribute( attributes, att_fileOffset );
-
-      pi.fileOffset = convertStrToLL( fileOffset_str );
+      pi.fileOffset = lookupCountAttribute( attributes, att_fileOffset );
 
       // length is required to be defined
-      ustring length_str = lookupAttribute( attributes, att_length );
-
-      pi.length = convertStrToLL( length_str );
+      pi.length = lookupCountAttribute( attributes, att_length );
 
       stack_.push( pi );
    }
@@ -663,14 +671,10 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       pi.nodeType = TypeCompressedVector;
 
       // fileOffset is required to be defined
-      ustring fileOffset_str = lookupAttribute( attributes, att_fileOffset );
-
-      pi.fileOffset = convertStrToLL( fileOffset_str );
+      pi.fileOffset = lookupCountAttribute( attributes, att_fileOffset );
 
       // recordCount is required to be defined
-      ustring recordCount_str = lookupAttribute( attributes, att_recordCount );
-
-      pi.recordCount = convertStrToLL( recordCount_str );
+      pi.recordCount = lookupCountAttribute( attributes, att_recordCount );
 
       // Create container now, so can hold children
       std::shared_ptr<CompressedVectorNodeImpl> cv_ni( new CompressedVectorNodeImpl( imf_ ) );
-- 
2.43.0


From b7104c156a30ca01a117706f2c0290b10d7ae509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:01 +0000
Subject: [PATCH 37/50] fix: refuse numbers in the XML section whose minimum
 exceeds their maximum

Bounds are only checked together with a value. The elements of a prototype
usually have no value, so their bounds were used unchecked to unpack records.
---
 src/E57XmlParser.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 639dce4..f2f5c6b 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -711,6 +711,17 @@ void E57XmlParser::endElement( const XMLCh *const uri, const XMLCh *const localN
    pi.dump( 4 );
 #endif
 
+   // The bounds of a number can't be the wrong way round
+   const bool isInteger = ( pi.nodeType == TypeInteger ) || ( pi.nodeType == TypeScaledInteger );
+   if ( ( isInteger && pi.minimum > pi.maximum ) ||
+        ( pi.nodeType == TypeFloat && pi.floatMinimum > pi.floatMaximum ) )
+   {
+      throw E57_EXCEPTION2( ErrorBadXMLFormat, "minimum > maximum; fileName=" + imf_->fileName() +
+                                                  " uri=" + toUString( uri ) +
+                                                  " localName=" + toUString( localName ) +
+                                                  " qName=" + toUString( qName ) );
+   }
+
    // We should now have all the info we need to create the node
    NodeImplSharedPtr current_ni;
 
-- 
2.43.0


From d7db5001bfaf93a1b90366c4a2513dd791696a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:01 +0000
Subject: [PATCH 38/50] fix: report packets that hold fewer records than the
 record count says

read() returned 0, which means that all records were read, when the packets
of a compressed vector ended before the last record.
---
 src/CompressedVectorReaderImpl.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 42bc5e6..242d53d 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -305,6 +305,20 @@ namespace e57
          }
       }
 
+      // Reading nothing means that all records were read, not that the packets ended early
+      if ( outputCount == 0 )
+      {
+         for ( const auto &channel : channels_ )
+         {
+            if ( !channel.isOutputBlocked() )
+            {
+               throw E57_EXCEPTION2( ErrorBadCVPacket,
+                                     "packets ended before the last record; maxRecordCount=" +
+                                        toString( maxRecordCount_ ) );
+            }
+         }
+      }
+
       // Return number of records transferred to each dbuf.
       return outputCount;
    }
-- 
2.43.0


From e09db4fb4b9df2a52f3fb314b6cb89b246b42319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:07 +0000
Subject: [PATCH 39/50] fix: close the file when opening it for reading fails

The constructor left the descriptor open if finding the length of the file failed.
---
 src/CheckedFile.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index bde67d0..b84ae95 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -210,19 +210,25 @@ CheckedFile::CheckedFile( const ustring &fileName, Mode mode, ReadChecksumPolicy
 
          readOnly_ = true;
 
-         physicalLength_ = lseek64( 0LL, SEEK_END );
+         try
+         {
+            physicalLength_ = lseek64( 0LL, SEEK_END );
+
+            if ( physicalLength_ % 1024 != 0 )
+            {
+               throw E57_EXCEPTION2( ErrorBadInputDataSize,
+                                     "file length is " + toString( physicalLength_ ) + " bytes" );
+            }
 
-         if ( physicalLength_ % 1024 != 0 )
+            lseek64( 0, SEEK_SET );
+         }
+         catch ( ... )
          {
             // The destructor is not called for a partly constructed object
             close();
-
-            throw E57_EXCEPTION2( ErrorBadInputDataSize,
-                                  "file length is " + toString( physicalLength_ ) + " bytes" );
+            throw;
          }
 
-         lseek64( 0, SEEK_SET );
-
          logicalLength_ = physicalToLogical( physicalLength_ );
       }
       break;
-- 
2.43.0


From 22bcbe9d488fd2e2a49c334913899d54a537b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:06 +0000
Subject: [PATCH 40/50] fix: store the bounds and colour limits of a scan
 whenever any member is set

Writer::NewData3D looked only at x, at the range and at red to decide
whether cartesianBounds, sphericalBounds and colorLimits are written.
Limits given for the other members alone were dropped.
---
 src/WriterImpl.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index e6f4914..f4b160b 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -699,8 +699,7 @@ namespace e57
          scan.set( "intensityLimits", intbox );
       }
 
-      if ( ( data3DHeader.colorLimits.colorRedMaximum != 0.0 ) ||
-           ( data3DHeader.colorLimits.colorRedMinimum != 0.0 ) )
+      if ( data3DHeader.colorLimits != ColorLimits{} )
       {
          StructureNode colorbox( imf_ );
 
@@ -728,8 +727,7 @@ namespace e57
 
       // Add Cartesian bounding box to scan.
       // Path names: "/data3D/0/cartesianBounds/xMinimum", etc...
-      if ( ( data3DHeader.cartesianBounds.xMinimum != -DOUBLE_MAX ) ||
-           ( data3DHeader.cartesianBounds.xMaximum != DOUBLE_MAX ) )
+      if ( data3DHeader.cartesianBounds != CartesianBounds{} )
       {
          StructureNode bbox( imf_ );
 
@@ -743,8 +741,7 @@ namespace e57
          scan.set( "cartesianBounds", bbox );
       }
 
-      if ( ( data3DHeader.sphericalBounds.rangeMinimum != 0.0 ) ||
-           ( data3DHeader.sphericalBounds.rangeMaximum != DOUBLE_MAX ) )
+      if ( data3DHeader.sphericalBounds != SphericalBounds{} )
       {
          StructureNode sbox( imf_ );
 
-- 
2.43.0


From a2412d80fa5eddabd3c920dadc9cb8de7292c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:06 +0000
Subject: [PATCH 41/50] fix: accept point ranges that do not contain zero in
 the Simple API

Writer::NewData3D made every prototype node with the value zero. The node
constructors refuse a value that is out of range, so a scan whose
coordinates, angles, intensities, colours or time stamps are limited to a
range without zero could not be written (ErrorValueOutOfBounds). Use the
value nearest to zero that is in range.
---
 src/WriterImpl.cpp | 96 ++++++++++++++++++++++++++++++----------------
 1 file changed, 62 insertions(+), 34 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index f4b160b..b11c51f 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -71,6 +71,19 @@ namespace
                .append( std::to_string( static_cast<int>( inNodeType ) ) );
       }
    }
+
+   /*!
+   @brief Get a value for a prototype node. It isn't used for anything, but it must be in range.
+
+   @param minimum minimum value of the node
+   @param maximum maximum value of the node
+
+   @return zero or, if it is out of range, the nearest value which is in range
+   */
+   template <typename T> T _prototypeValue( T minimum, T maximum )
+   {
+      return ( minimum > 0 ) ? minimum : ( ( maximum < 0 ) ? maximum : T( 0 ) );
+   }
 }
 
 namespace e57
@@ -899,18 +912,22 @@ namespace e57
                const auto pointRangeMaximum = static_cast<int64_t>(
                   std::floor( ( pointRangeMax - pointRangeOffset ) / pointRangeScale + .5 ) );
 
-               return ScaledIntegerNode( imf_, 0, pointRangeMinimum, pointRangeMaximum,
-                                         pointRangeScale, pointRangeOffset );
+               return ScaledIntegerNode( imf_,
+                                         _prototypeValue( pointRangeMinimum, pointRangeMaximum ),
+                                         pointRangeMinimum, pointRangeMaximum, pointRangeScale,
+                                         pointRangeOffset );
             }
 
             case NumericalNodeType::Float:
             {
-               return FloatNode( imf_, 0.0, PrecisionSingle, pointRangeMin, pointRangeMax );
+               return FloatNode( imf_, _prototypeValue( pointRangeMin, pointRangeMax ),
+                                 PrecisionSingle, pointRangeMin, pointRangeMax );
             }
 
             case NumericalNodeType::Double:
             {
-               return FloatNode( imf_, 0.0, PrecisionDouble, pointRangeMin, pointRangeMax );
+               return FloatNode( imf_, _prototypeValue( pointRangeMin, pointRangeMax ),
+                                 PrecisionDouble, pointRangeMin, pointRangeMax );
             }
          }
 
@@ -966,18 +983,20 @@ namespace e57
                const auto angleMaximum = static_cast<int64_t>(
                   std::floor( ( angleMax - angleOffset ) / angleScale + .5 ) );
 
-               return ScaledIntegerNode( imf_, 0, angleMinimum, angleMaximum, angleScale,
-                                         angleOffset );
+               return ScaledIntegerNode( imf_, _prototypeValue( angleMinimum, angleMaximum ),
+                                         angleMinimum, angleMaximum, angleScale, angleOffset );
             }
 
             case NumericalNodeType::Float:
             {
-               return FloatNode( imf_, 0.0, PrecisionSingle, angleMin, angleMax );
+               return FloatNode( imf_, _prototypeValue( angleMin, angleMax ), PrecisionSingle,
+                                 angleMin, angleMax );
             }
 
             case NumericalNodeType::Double:
             {
-               return FloatNode( imf_, 0.0, PrecisionDouble, angleMin, angleMax );
+               return FloatNode( imf_, _prototypeValue( angleMin, angleMax ), PrecisionDouble,
+                                 angleMin, angleMax );
             }
          }
 
@@ -1006,8 +1025,11 @@ namespace e57
          {
             case NumericalNodeType::Integer:
             {
-               proto.set( "intensity", IntegerNode( imf_, 0, static_cast<int64_t>( intensityMin ),
-                                                    static_cast<int64_t>( intensityMax ) ) );
+               const auto minimum = static_cast<int64_t>( intensityMin );
+               const auto maximum = static_cast<int64_t>( intensityMax );
+
+               proto.set( "intensity", IntegerNode( imf_, _prototypeValue( minimum, maximum ),
+                                                    minimum, maximum ) );
 
                break;
             }
@@ -1022,52 +1044,53 @@ namespace e57
                const auto rawIntegerMinimum =
                   static_cast<int64_t>( std::floor( ( intensityMin - offset ) / scale + .5 ) );
 
-               proto.set( "intensity", ScaledIntegerNode( imf_, 0, rawIntegerMinimum,
-                                                          rawIntegerMaximum, scale, offset ) );
+               proto.set( "intensity",
+                          ScaledIntegerNode(
+                             imf_, _prototypeValue( rawIntegerMinimum, rawIntegerMaximum ),
+                             rawIntegerMinimum, rawIntegerMaximum, scale, offset ) );
 
                break;
             }
 
             case NumericalNodeType::Float:
             {
-               proto.set( "intensity", FloatNode( imf_, 0.0, PrecisionSingle,
-                                                  data3DHeader.intensityLimits.intensityMinimum,
-                                                  data3DHeader.intensityLimits.intensityMaximum ) );
+               proto.set( "intensity", FloatNode( imf_, _prototypeValue( intensityMin, intensityMax ),
+                                                  PrecisionSingle, intensityMin, intensityMax ) );
 
                break;
             }
 
             case NumericalNodeType::Double:
             {
-               proto.set( "intensity", FloatNode( imf_, 0.0, PrecisionDouble,
-                                                  data3DHeader.intensityLimits.intensityMinimum,
-                                                  data3DHeader.intensityLimits.intensityMaximum ) );
+               proto.set( "intensity", FloatNode( imf_, _prototypeValue( intensityMin, intensityMax ),
+                                                  PrecisionDouble, intensityMin, intensityMax ) );
 
                break;
             }
          }
       }
 
+      const auto getColorProto = [=]( double colorMin, double colorMax ) -> Node {
+         const auto minimum = static_cast<int64_t>( colorMin );
+         const auto maximum = static_cast<int64_t>( colorMax );
+
+         return IntegerNode( imf_, _prototypeValue( minimum, maximum ), minimum, maximum );
+      };
+
       if ( data3DHeader.pointFields.colorRedField )
       {
-         proto.set(
-            "colorRed",
-            IntegerNode( imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorRedMinimum ),
-                         static_cast<int64_t>( data3DHeader.colorLimits.colorRedMaximum ) ) );
+         proto.set( "colorRed", getColorProto( data3DHeader.colorLimits.colorRedMinimum,
+                                               data3DHeader.colorLimits.colorRedMaximum ) );
       }
       if ( data3DHeader.pointFields.colorGreenField )
       {
-         proto.set( "colorGreen",
-                    IntegerNode(
-                       imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMinimum ),
-                       static_cast<int64_t>( data3DHeader.colorLimits.colorGreenMaximum ) ) );
+         proto.set( "colorGreen", getColorProto( data3DHeader.colorLimits.colorGreenMinimum,
+                                                 data3DHeader.colorLimits.colorGreenMaximum ) );
       }
       if ( data3DHeader.pointFields.colorBlueField )
       {
-         proto.set(
-            "colorBlue",
-            IntegerNode( imf_, 0, static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMinimum ),
-                         static_cast<int64_t>( data3DHeader.colorLimits.colorBlueMaximum ) ) );
+         proto.set( "colorBlue", getColorProto( data3DHeader.colorLimits.colorBlueMinimum,
+                                                data3DHeader.colorLimits.colorBlueMaximum ) );
       }
 
       if ( data3DHeader.pointFields.returnIndexField )
@@ -1101,8 +1124,11 @@ namespace e57
          {
             case NumericalNodeType::Integer:
             {
-               proto.set( "timeStamp", IntegerNode( imf_, 0, static_cast<int64_t>( timeMinimum ),
-                                                    static_cast<int64_t>( timeMaximum ) ) );
+               const auto minimum = static_cast<int64_t>( timeMinimum );
+               const auto maximum = static_cast<int64_t>( timeMaximum );
+
+               proto.set( "timeStamp", IntegerNode( imf_, _prototypeValue( minimum, maximum ),
+                                                    minimum, maximum ) );
                break;
             }
 
@@ -1116,8 +1142,10 @@ namespace e57
                const auto rawIntegerMaximum =
                   static_cast<int64_t>( std::floor( ( timeMaximum - offset ) / scale + .5 ) );
 
-               proto.set( "timeStamp", ScaledIntegerNode( imf_, 0, rawIntegerMinimum,
-                                                          rawIntegerMaximum, scale, offset ) );
+               proto.set( "timeStamp",
+                          ScaledIntegerNode(
+                             imf_, _prototypeValue( rawIntegerMinimum, rawIntegerMaximum ),
+                             rawIntegerMinimum, rawIntegerMaximum, scale, offset ) );
                break;
             }
 
-- 
2.43.0


From f35961b9fc4a11dd381e9dc9cc173126532fdaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:42 +0000
Subject: [PATCH 42/50] fix: look only at the buffers of used fields when
 computing point ranges

Writer::WriteData3DData computes the limits of scaled integers that were
left open. It read the y and z buffers when x is used, and the azimuth and
elevation buffers whenever angles are scaled integers, even if these fields
are not used and have no buffer. Null pointers were dereferenced.
---
 src/E57SimpleWriter.cpp | 46 +++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/E57SimpleWriter.cpp b/src/E57SimpleWriter.cpp
index d11d81e..9a44ad8 100644
--- a/src/E57SimpleWriter.cpp
+++ b/src/E57SimpleWriter.cpp
@@ -34,6 +34,17 @@
 
 namespace
 {
+   /// Extend a range by a value of a field which is being written
+   template <typename T>
+   void _extendRange( bool inUsed, const T *inValues, size_t inIndex, T &ioMinimum, T &ioMaximum )
+   {
+      if ( inUsed && ( inValues != nullptr ) )
+      {
+         ioMinimum = std::min( inValues[inIndex], ioMinimum );
+         ioMaximum = std::max( inValues[inIndex], ioMaximum );
+      }
+   }
+
    /// Fill in missing min/max data in the Data3D header for the following:
    ///   - cartesian points
    ///   - spherical points
@@ -83,39 +94,34 @@ namespace
       // Now run through the points and set the things we need to
       for ( size_t i = 0; i < ioData3DHeader.pointCount; ++i )
       {
-         if ( writePointRange && pointFields.cartesianXField )
+         if ( writePointRange )
          {
-            pointRangeMinimum = std::min( inBuffers.cartesianX[i], pointRangeMinimum );
-            pointRangeMinimum = std::min( inBuffers.cartesianY[i], pointRangeMinimum );
-            pointRangeMinimum = std::min( inBuffers.cartesianZ[i], pointRangeMinimum );
+            _extendRange( pointFields.cartesianXField, inBuffers.cartesianX, i, pointRangeMinimum,
+                          pointRangeMaximum );
+            _extendRange( pointFields.cartesianYField, inBuffers.cartesianY, i, pointRangeMinimum,
+                          pointRangeMaximum );
+            _extendRange( pointFields.cartesianZField, inBuffers.cartesianZ, i, pointRangeMinimum,
+                          pointRangeMaximum );
 
-            pointRangeMaximum = std::max( inBuffers.cartesianX[i], pointRangeMaximum );
-            pointRangeMaximum = std::max( inBuffers.cartesianY[i], pointRangeMaximum );
-            pointRangeMaximum = std::max( inBuffers.cartesianZ[i], pointRangeMaximum );
-         }
-
-         if ( writePointRange && pointFields.sphericalRangeField )
-         {
             // Note that the writer code uses pointRangeMinimum/pointRangeMaximum
             // (see WriterImpl::NewData3D()) instead of using the sphericalBounds which has
             // rangeMinimum and rangeMaximum.
-            pointRangeMinimum = std::min( inBuffers.sphericalRange[i], pointRangeMinimum );
-            pointRangeMaximum = std::max( inBuffers.sphericalRange[i], pointRangeMaximum );
+            _extendRange( pointFields.sphericalRangeField, inBuffers.sphericalRange, i,
+                          pointRangeMinimum, pointRangeMaximum );
          }
 
          if ( writeAngle )
          {
-            angleMinimum = std::min( inBuffers.sphericalAzimuth[i], angleMinimum );
-            angleMinimum = std::min( inBuffers.sphericalElevation[i], angleMinimum );
-
-            angleMaximum = std::max( inBuffers.sphericalAzimuth[i], angleMaximum );
-            angleMaximum = std::max( inBuffers.sphericalElevation[i], angleMaximum );
+            _extendRange( pointFields.sphericalAzimuthField, inBuffers.sphericalAzimuth, i,
+                          angleMinimum, angleMaximum );
+            _extendRange( pointFields.sphericalElevationField, inBuffers.sphericalElevation, i,
+                          angleMinimum, angleMaximum );
          }
 
          if ( writeTimeStamp )
          {
-            timeMinimum = std::min( inBuffers.timeStamp[i], timeMinimum );
-            timeMaximum = std::max( inBuffers.timeStamp[i], timeMaximum );
+            _extendRange( pointFields.timeStampField, inBuffers.timeStamp, i, timeMinimum,
+                          timeMaximum );
          }
       }
 
-- 
2.43.0


From 8dc25ac3b413b6141792a211de1da17af6c20b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:42 +0000
Subject: [PATCH 43/50] fix: keep open point ranges when there is nothing to
 compute them from

Writer::WriteData3DData replaced limits that were left open by an inverted
range if the scan has no points, and the scan was then refused.
---
 src/E57SimpleWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/E57SimpleWriter.cpp b/src/E57SimpleWriter.cpp
index 9a44ad8..4dbe3ac 100644
--- a/src/E57SimpleWriter.cpp
+++ b/src/E57SimpleWriter.cpp
@@ -125,19 +125,19 @@ namespace
          }
       }
 
-      if ( writePointRange )
+      if ( writePointRange && ( pointRangeMinimum <= pointRangeMaximum ) )
       {
          pointFields.pointRangeMinimum = pointRangeMinimum;
          pointFields.pointRangeMaximum = pointRangeMaximum;
       }
 
-      if ( writeAngle )
+      if ( writeAngle && ( angleMinimum <= angleMaximum ) )
       {
          pointFields.angleMinimum = angleMinimum;
          pointFields.angleMaximum = angleMaximum;
       }
 
-      if ( writeTimeStamp )
+      if ( writeTimeStamp && ( timeMinimum <= timeMaximum ) )
       {
          pointFields.timeMinimum = timeMinimum;
          pointFields.timeMaximum = timeMaximum;
-- 
2.43.0


From 3e86e73e25362c0109e1502ee3fe60f75c955011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:42 +0000
Subject: [PATCH 44/50] fix: compute open point ranges for float buffers too

Writer::WriteData3DData took limits for open only if they are those of the
type of the coordinate buffers. The limits of a new header are those of
double, so with float buffers made by the user they were not computed, and
the scan was refused. The limits of the time stamp were affected although
its buffer is always double.
---
 src/E57SimpleWriter.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/E57SimpleWriter.cpp b/src/E57SimpleWriter.cpp
index 4dbe3ac..bdf0f8c 100644
--- a/src/E57SimpleWriter.cpp
+++ b/src/E57SimpleWriter.cpp
@@ -60,6 +60,13 @@ namespace
       constexpr COORDTYPE cMin = std::numeric_limits<COORDTYPE>::lowest();
       constexpr COORDTYPE cMax = std::numeric_limits<COORDTYPE>::max();
 
+      // Limits which haven't been set may be the ones of double (see
+      // PointStandardizedFieldsAvailable) or the ones of float (see Data3DPointsData_t).
+      const auto isUnset = []( double minimum, double maximum ) {
+         return ( ( minimum == e57::DOUBLE_MIN ) && ( maximum == e57::DOUBLE_MAX ) ) ||
+                ( ( minimum == e57::FLOAT_MIN ) && ( maximum == e57::FLOAT_MAX ) );
+      };
+
       // IF we are using scaled ints for cartesian points
       // AND we haven't set either min or max
       // THEN calculate them from the points
@@ -68,7 +75,7 @@ namespace
 
       const bool writePointRange =
          ( pointFields.pointRangeNodeType == e57::NumericalNodeType::ScaledInteger ) &&
-         ( pointFields.pointRangeMinimum == cMin ) && ( pointFields.pointRangeMaximum == cMax );
+         isUnset( pointFields.pointRangeMinimum, pointFields.pointRangeMaximum );
 
       // IF we are using scaled ints for spherical angles
       // AND we haven't set either min or max
@@ -78,7 +85,7 @@ namespace
 
       const bool writeAngle =
          ( pointFields.angleNodeType == e57::NumericalNodeType::ScaledInteger ) &&
-         ( pointFields.angleMinimum == cMin ) && ( pointFields.angleMaximum == cMax );
+         isUnset( pointFields.angleMinimum, pointFields.angleMaximum );
 
       // IF we are using scaled ints for timestamps
       // AND we haven't set either min or max
@@ -89,7 +96,7 @@ namespace
       const bool writeTimeStamp =
          pointFields.timeStampField &&
          ( pointFields.timeNodeType == e57::NumericalNodeType::ScaledInteger ) &&
-         ( pointFields.timeMinimum == cMin ) && ( pointFields.timeMaximum == cMax );
+         isUnset( pointFields.timeMinimum, pointFields.timeMaximum );
 
       // Now run through the points and set the things we need to
       for ( size_t i = 0; i < ioData3DHeader.pointCount; ++i )
-- 
2.43.0


From 4b9487c284f5edde2937b5f9bc1dc1a8b33a39eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:42 +0000
Subject: [PATCH 45/50] fix: do not leave an incomplete scan behind when a
 header is refused

Writer::NewData3D appended the scan before it looked at the header. If the
header was refused, the file kept a scan without points, which
Reader::ReadData3D cannot read.
---
 src/WriterImpl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index b11c51f..0410bdc 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -535,9 +535,6 @@ namespace e57
    int64_t WriterImpl::NewData3D( Data3D &data3DHeader )
    {
       StructureNode scan( imf_ );
-      data3D_.append( scan );
-
-      int64_t pos = data3D_.childCount() - 1;
 
       if ( data3DHeader.guid.empty() )
       {
@@ -1223,7 +1220,10 @@ namespace e57
 
       scan.set( "points", points );
 
-      return pos;
+      // Only add the scan once it is complete since any of the above might throw.
+      data3D_.append( scan );
+
+      return data3D_.childCount() - 1;
    }
 
    template <typename COORDTYPE>
-- 
2.43.0


From 0298e99b489cb3aaa21346aebf35a654b4bd3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:42 +0000
Subject: [PATCH 46/50] fix: refuse scaled intensities and time stamps with a
 scale of zero

Writer::NewData3D refuses a scale of zero for coordinates and angles, but
divided by zero for intensities and time stamps.
---
 src/WriterImpl.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 0410bdc..93a9ee4 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -674,6 +674,11 @@ namespace e57
                const double scale = data3DHeader.pointFields.intensityScale;
                const double offset = 0.0;
 
+               if ( scale == 0.0 )
+               {
+                  throw E57_EXCEPTION2( ErrorInvalidData3DValue, "intensityScale cannot be 0" );
+               }
+
                const auto rawIntegerMinimum =
                   static_cast<int64_t>( std::floor( ( intensityMin - offset ) / scale + .5 ) );
                const auto rawIntegerMaximum =
@@ -1036,6 +1041,11 @@ namespace e57
                const double scale = data3DHeader.pointFields.intensityScale;
                const double offset = 0.0; // could be data3DHeader.intensityLimits.intensityMinimum;
 
+               if ( scale == 0.0 )
+               {
+                  throw E57_EXCEPTION2( ErrorInvalidData3DValue, "intensityScale cannot be 0" );
+               }
+
                const auto rawIntegerMaximum =
                   static_cast<int64_t>( std::floor( ( intensityMax - offset ) / scale + .5 ) );
                const auto rawIntegerMinimum =
@@ -1134,6 +1144,11 @@ namespace e57
                const double scale = data3DHeader.pointFields.timeScale;
                const double offset = 0.0;
 
+               if ( scale == 0.0 )
+               {
+                  throw E57_EXCEPTION2( ErrorInvalidData3DValue, "timeScale cannot be 0" );
+               }
+
                const auto rawIntegerMinimum =
                   static_cast<int64_t>( std::floor( ( timeMinimum - offset ) / scale + .5 ) );
                const auto rawIntegerMaximum =
-- 
2.43.0


From 563cd8b9c508405bf79b6a64979bc3b1a3064402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:50 +0000
Subject: [PATCH 47/50] fix: do not overflow when limits of scaled integers are
 left open

Writer::NewData3D converted the limits of coordinates, angles, intensities
and time stamps to integers without looking at their size. Open limits
overflowed, and a scan with such a header was refused. Use the smallest and
the largest integer instead.
---
 src/WriterImpl.cpp | 56 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 93a9ee4..b355194 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -72,6 +72,30 @@ namespace
       }
    }
 
+   /*!
+   @brief Convert a number into an integer. Numbers which are out of range become the nearest limit.
+
+   @param value number to convert
+
+   @return integer part of value
+   */
+   int64_t _toInteger( double value )
+   {
+      constexpr double cLimit = 9223372036854775808.0; // 2^63
+
+      if ( value >= cLimit )
+      {
+         return INT64_MAX;
+      }
+
+      if ( value < -cLimit )
+      {
+         return INT64_MIN;
+      }
+
+      return static_cast<int64_t>( value );
+   }
+
    /*!
    @brief Get a value for a prototype node. It isn't used for anything, but it must be in range.
 
@@ -662,9 +686,9 @@ namespace e57
             case NumericalNodeType::Integer:
             {
                intbox.set( "intensityMinimum",
-                           IntegerNode( imf_, static_cast<int64_t>( intensityMin ) ) );
+                           IntegerNode( imf_, _toInteger( intensityMin ) ) );
                intbox.set( "intensityMaximum",
-                           IntegerNode( imf_, static_cast<int64_t>( intensityMax ) ) );
+                           IntegerNode( imf_, _toInteger( intensityMax ) ) );
 
                break;
             }
@@ -680,9 +704,9 @@ namespace e57
                }
 
                const auto rawIntegerMinimum =
-                  static_cast<int64_t>( std::floor( ( intensityMin - offset ) / scale + .5 ) );
+                  _toInteger( std::floor( ( intensityMin - offset ) / scale + .5 ) );
                const auto rawIntegerMaximum =
-                  static_cast<int64_t>( std::floor( ( intensityMax - offset ) / scale + .5 ) );
+                  _toInteger( std::floor( ( intensityMax - offset ) / scale + .5 ) );
 
                intbox.set( "intensityMinimum",
                            ScaledIntegerNode( imf_, rawIntegerMinimum, rawIntegerMinimum,
@@ -909,9 +933,9 @@ namespace e57
                   throw E57_EXCEPTION2( ErrorInvalidData3DValue, "pointRangeScale cannot be 0" );
                }
 
-               const auto pointRangeMinimum = static_cast<int64_t>(
+               const auto pointRangeMinimum = _toInteger(
                   std::floor( ( pointRangeMin - pointRangeOffset ) / pointRangeScale + .5 ) );
-               const auto pointRangeMaximum = static_cast<int64_t>(
+               const auto pointRangeMaximum = _toInteger(
                   std::floor( ( pointRangeMax - pointRangeOffset ) / pointRangeScale + .5 ) );
 
                return ScaledIntegerNode( imf_,
@@ -980,9 +1004,9 @@ namespace e57
                   throw E57_EXCEPTION2( ErrorInvalidData3DValue, "angleScale cannot be 0" );
                }
 
-               const auto angleMinimum = static_cast<int64_t>(
+               const auto angleMinimum = _toInteger(
                   std::floor( ( angleMin - angleOffset ) / angleScale + .5 ) );
-               const auto angleMaximum = static_cast<int64_t>(
+               const auto angleMaximum = _toInteger(
                   std::floor( ( angleMax - angleOffset ) / angleScale + .5 ) );
 
                return ScaledIntegerNode( imf_, _prototypeValue( angleMinimum, angleMaximum ),
@@ -1027,8 +1051,8 @@ namespace e57
          {
             case NumericalNodeType::Integer:
             {
-               const auto minimum = static_cast<int64_t>( intensityMin );
-               const auto maximum = static_cast<int64_t>( intensityMax );
+               const auto minimum = _toInteger( intensityMin );
+               const auto maximum = _toInteger( intensityMax );
 
                proto.set( "intensity", IntegerNode( imf_, _prototypeValue( minimum, maximum ),
                                                     minimum, maximum ) );
@@ -1047,9 +1071,9 @@ namespace e57
                }
 
                const auto rawIntegerMaximum =
-                  static_cast<int64_t>( std::floor( ( intensityMax - offset ) / scale + .5 ) );
+                  _toInteger( std::floor( ( intensityMax - offset ) / scale + .5 ) );
                const auto rawIntegerMinimum =
-                  static_cast<int64_t>( std::floor( ( intensityMin - offset ) / scale + .5 ) );
+                  _toInteger( std::floor( ( intensityMin - offset ) / scale + .5 ) );
 
                proto.set( "intensity",
                           ScaledIntegerNode(
@@ -1131,8 +1155,8 @@ namespace e57
          {
             case NumericalNodeType::Integer:
             {
-               const auto minimum = static_cast<int64_t>( timeMinimum );
-               const auto maximum = static_cast<int64_t>( timeMaximum );
+               const auto minimum = _toInteger( timeMinimum );
+               const auto maximum = _toInteger( timeMaximum );
 
                proto.set( "timeStamp", IntegerNode( imf_, _prototypeValue( minimum, maximum ),
                                                     minimum, maximum ) );
@@ -1150,9 +1174,9 @@ namespace e57
                }
 
                const auto rawIntegerMinimum =
-                  static_cast<int64_t>( std::floor( ( timeMinimum - offset ) / scale + .5 ) );
+                  _toInteger( std::floor( ( timeMinimum - offset ) / scale + .5 ) );
                const auto rawIntegerMaximum =
-                  static_cast<int64_t>( std::floor( ( timeMaximum - offset ) / scale + .5 ) );
+                  _toInteger( std::floor( ( timeMaximum - offset ) / scale + .5 ) );
 
                proto.set( "timeStamp",
                           ScaledIntegerNode(
-- 
2.43.0


From 7e54eeb5faa69815d4b7643b301d9ce616fa3396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:31 +0000
Subject: [PATCH 48/50] fix: report bounds of floating point and scaled integer
 colours as they are

The bounds were cast to 16-bit integers, which lost fractions and signs. For a
floating point colour without bounds the cast was undefined.
---
 src/ReaderImpl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 37bfbe8..cdc873d 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -178,15 +178,15 @@ namespace e57
             const int64_t minimum = scaledColour.minimum();
             const int64_t maximum = scaledColour.maximum();
 
-            colourMin = static_cast<uint16_t>( minimum ) * scale + offset;
-            colourMax = static_cast<uint16_t>( maximum ) * scale + offset;
+            colourMin = static_cast<double>( minimum ) * scale + offset;
+            colourMax = static_cast<double>( maximum ) * scale + offset;
          }
          else if ( colourProto.type() == TypeFloat )
          {
             const FloatNode floatColour( colourProto );
 
-            colourMin = static_cast<uint16_t>( floatColour.minimum() );
-            colourMax = static_cast<uint16_t>( floatColour.maximum() );
+            colourMin = floatColour.minimum();
+            colourMax = floatColour.maximum();
          }
       }
    }
-- 
2.43.0


From 906982b86b12b60caea3d0884583d3742c994440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:32 +0000
Subject: [PATCH 49/50] fix: keep the intensity and colour limits of a scan
 when reading its header

The intensityLimits of a scan with floating point intensity were replaced by the
bounds of the prototype. Limits with a maximum of 0 were taken for missing ones.
---
 src/ReaderImpl.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index cdc873d..6e95886 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -159,7 +159,7 @@ namespace e57
       // IF the colorLimits are not set
       // AND our colour node is
       // THEN get our min/max from the colour node itself.
-      if ( ( colourMax == 0.0 ) && proto.isDefined( protoName ) )
+      if ( ( colourMin == 0.0 ) && ( colourMax == 0.0 ) && proto.isDefined( protoName ) )
       {
          const auto colourProto = proto.get( protoName );
 
@@ -1313,13 +1313,17 @@ namespace e57
       {
          const auto intensityProto = proto.get( "intensity" );
 
+         // If the intensityLimits are not set, get them from the intensity node itself.
+         const bool needLimits = ( data3DHeader.intensityLimits.intensityMinimum == 0.0 ) &&
+                                 ( data3DHeader.intensityLimits.intensityMaximum == 0.0 );
+
          switch ( intensityProto.type() )
          {
             case TypeInteger:
             {
                const IntegerNode integerIntensity( intensityProto );
 
-               if ( data3DHeader.intensityLimits.intensityMaximum == 0.0 )
+               if ( needLimits )
                {
                   data3DHeader.intensityLimits.intensityMinimum =
                      static_cast<double>( integerIntensity.minimum() );
@@ -1338,7 +1342,7 @@ namespace e57
                double scale = scaledIntensity.scale();
                double offset = scaledIntensity.offset();
 
-               if ( data3DHeader.intensityLimits.intensityMaximum == 0.0 )
+               if ( needLimits )
                {
                   const int64_t minimum = scaledIntensity.minimum();
                   const int64_t maximum = scaledIntensity.maximum();
@@ -1359,8 +1363,11 @@ namespace e57
             {
                const FloatNode floatIntensity( intensityProto );
 
-               data3DHeader.intensityLimits.intensityMinimum = floatIntensity.minimum();
-               data3DHeader.intensityLimits.intensityMaximum = floatIntensity.maximum();
+               if ( needLimits )
+               {
+                  data3DHeader.intensityLimits.intensityMinimum = floatIntensity.minimum();
+                  data3DHeader.intensityLimits.intensityMaximum = floatIntensity.maximum();
+               }
 
                if ( floatIntensity.precision() == PrecisionSingle )
                {
-- 
2.43.0


From 68a15a84bd595df980877b1c3e2b0a741960f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:35:40 +0000
Subject: [PATCH 50/50] fix: writing records of more than 21843 fields did not
 end

A data packet holds a 16 bit length for every bytestream. With very many
of them the share of each in a packet was rounded down to nothing, or the
lengths alone passed the size at which a packet is sent, and write() and
close() went on for ever. From 32766 fields on the lengths overran the
packet buffer.
---
 src/CompressedVectorWriterImpl.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 6d0cfd9..21c05f9 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -25,6 +25,7 @@
  * DEALINGS IN THE SOFTWARE.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <numeric>
 
@@ -67,6 +68,14 @@ namespace e57
       // Check sbufs well formed (matches proto exactly)
       setBuffers( sbufs ); //??? copy code here?
 
+      // A data packet has room for the lengths of all bytestreams and some data
+      if ( sizeof( DataPacketHeader ) + sbufs_.size() * sizeof( uint16_t ) >= DATA_PACKET_MAX )
+      {
+         throw E57_EXCEPTION2( ErrorBadPrototype, "imageFileName=" + cVector_->imageFileName() +
+                                                     " cvPathName=" + cVector_->pathName() +
+                                                     " bytestreams=" + toString( sbufs_.size() ) );
+      }
+
       // For each individual sbuf, create an appropriate Encoder based on the
       // cVector_ attributes
       for ( unsigned i = 0; i < sbufs_.size(); i++ )
@@ -377,7 +386,7 @@ namespace e57
          constexpr size_t E57_TARGET_PACKET_SIZE = ( DATA_PACKET_MAX * 3 / 4 );
 #endif
          // If have more than target fraction of packet, send it now
-         if ( currentPacketSize() >= E57_TARGET_PACKET_SIZE )
+         if ( totalOutputAvailable() > 0 && currentPacketSize() >= E57_TARGET_PACKET_SIZE )
          { //???
             packetWrite();
             continue; // restart loop so recalc statistics (packet size may not be
@@ -495,6 +504,17 @@ namespace e57
             count.at( i ) = static_cast<unsigned>(
                std::floor( cFractionToSend * cStreams.at( i )->outputAvailable() ) );
          }
+
+         // With very many bytestreams, every share can be less than a byte. Fill the packet in order.
+         if ( std::all_of( count.begin(), count.end(), []( size_t n ) { return n == 0; } ) )
+         {
+            size_t room = cPacketMaxPayloadBytes;
+            for ( unsigned i = 0; i < cNumByteStreams; ++i )
+            {
+               count.at( i ) = std::min( room, cStreams.at( i )->outputAvailable() );
+               room -= count.at( i );
+            }
+         }
       }
 
 #ifdef E57_VERBOSE
-- 
2.43.0

