// Compressed vector sessions, conversion cells and blobs.
#include "driver.h"

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>

using namespace e57;

namespace
{
   enum Kind
   {
      kInt,
      kF32,
      kF64,
      kStr
   };

   struct Field
   {
      std::string path;
      Kind kind = kInt;
      int64_t min = 0;
      int64_t max = 0;
      uint64_t seed = 0;
      uint64_t maxlen = 20;
      int mode = 0; // 0 mixed, 1 sequence
   };

   std::map<std::string, Field> g_fields;

   uint64_t bits( const Field &f, uint64_t i )
   {
      return mix64( f.seed * 0x100000001b3ULL + mix64( i ) );
   }

   // The value of a field in record i
   int64_t genInt( const Field &f, uint64_t i )
   {
      const uint64_t span = static_cast<uint64_t>( f.max ) - static_cast<uint64_t>( f.min );
      uint64_t r = bits( f, i );
      uint64_t off;
      if ( f.mode == 1 )
      {
         off = span == UINT64_MAX ? i : i % ( span + 1 );
      }
      else
      {
         const unsigned sel = r & 15;
         r = mix64( r );
         if ( sel == 0 )
         {
            off = 0;
         }
         else if ( sel == 1 )
         {
            off = span;
         }
         else if ( sel == 2 && span > 0 )
         {
            off = 1;
         }
         else if ( sel == 3 && span > 0 )
         {
            off = span - 1;
         }
         else
         {
            off = span == UINT64_MAX ? r : r % ( span + 1 );
         }
      }
      return static_cast<int64_t>( static_cast<uint64_t>( f.min ) + off );
   }
   float genF32( const Field &f, uint64_t i )
   {
      const uint64_t r = bits( f, i );
      uint32_t b = static_cast<uint32_t>( r );
      if ( ( r >> 60 ) < 2 ) // zeros, ones, the ends of the ranges of normal and of subnormal numbers
      {
         static const uint32_t special[] = { 0, 1, 0x7fffff, 0x800000, 0x3f800000, 0x7f7fffff, 0x4b000001, 0x42280000 };
         b = special[( r >> 40 ) & 7] | ( b & 0x80000000U );
      }
      if ( ( b & 0x7f800000U ) == 0x7f800000U )
      {
         b = ( b & 0x80000000U ) | 0x7f7fffffU; // finite values only
      }
      float v;
      std::memcpy( &v, &b, 4 );
      return v;
   }
   double genF64( const Field &f, uint64_t i )
   {
      const uint64_t r = bits( f, i );
      uint64_t b = r;
      if ( ( mix64( r ) >> 60 ) < 2 )
      {
         static const uint64_t special[] = { 0, 1, 0xfffffffffffffULL, 0x10000000000000ULL, 0x3ff0000000000000ULL, 0x7fefffffffffffffULL, 0x4330000000000001ULL,
                                             0x4045000000000000ULL };
         b = special[( r >> 40 ) & 7] | ( b & 0x8000000000000000ULL );
      }
      if ( ( b & 0x7ff0000000000000ULL ) == 0x7ff0000000000000ULL )
      {
         b = ( b & 0x8000000000000000ULL ) | 0x7fefffffffffffffULL;
      }
      double v;
      std::memcpy( &v, &b, 8 );
      return v;
   }
   std::string genStr( const Field &f, uint64_t i )
   {
      uint64_t r = bits( f, i );
      const unsigned sel = r & 15;
      r = mix64( r );
      uint64_t len;
      if ( sel == 0 )
      {
         len = 0;
      }
      else if ( sel == 1 )
      {
         len = f.maxlen;
      }
      else if ( sel == 2 )
      {
         len = std::min<uint64_t>( f.maxlen, 127 );
      }
      else if ( sel == 3 )
      {
         len = std::min<uint64_t>( f.maxlen, 128 );
      }
      else
      {
         len = r % ( std::min<uint64_t>( f.maxlen, 40 ) + 1 );
      }
      std::string s( len, '\0' );
      for ( uint64_t k = 0; k < len; ++k )
      {
         if ( k % 8 == 0 )
         {
            r = mix64( r );
         }
         s[k] = static_cast<char>( r >> ( 8 * ( k % 8 ) ) );
      }
      return s;
   }

   const char *repNames[] = { "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "Bool", "Real32", "Real64", "UString" };
   const size_t repSizes[] = { 1, 1, 2, 2, 4, 4, 8, 1, 4, 8, 0 };
   enum Rep
   {
      rI8,
      rU8,
      rI16,
      rU16,
      rI32,
      rU32,
      rI64,
      rBool,
      rF32,
      rF64,
      rStr
   };

   int repOf( const std::string &s )
   {
      for ( int i = 0; i <= rStr; ++i )
      {
         if ( s == repNames[i] )
         {
            return i;
         }
      }
      return rI64;
   }

   struct Buf
   {
      Field f;
      int rep = rI64;
      size_t cap = 0;
      size_t stride = 8;
      bool conv = false;
      bool scal = false;
      std::unique_ptr<char[]> raw;
      size_t rawSize = 0;
      std::vector<ustring> strs;
      unsigned char fillByte = 0x5a;

      char *at( size_t j )
      {
         return raw.get() + j * stride;
      }
   };
   using BufList = std::vector<std::unique_ptr<Buf>>;

   template <class T> void put( char *p, T v )
   {
      std::memcpy( p, &v, sizeof v );
   }
   template <class T> T get( const char *p )
   {
      T v;
      std::memcpy( &v, p, sizeof v );
      return v;
   }

   // Bytes of the value of record i in the memory representation of the buffer
   void store( Buf &b, size_t j, uint64_t i )
   {
      if ( b.rep == rStr )
      {
         b.strs[j] = genStr( b.f, i );
         return;
      }
      char *p = b.at( j );
      if ( b.f.kind == kInt )
      {
         const int64_t v = genInt( b.f, i );
         switch ( b.rep )
         {
            case rI8:
               put<int8_t>( p, static_cast<int8_t>( v ) );
               break;
            case rU8:
               put<uint8_t>( p, static_cast<uint8_t>( v ) );
               break;
            case rI16:
               put<int16_t>( p, static_cast<int16_t>( v ) );
               break;
            case rU16:
               put<uint16_t>( p, static_cast<uint16_t>( v ) );
               break;
            case rI32:
               put<int32_t>( p, static_cast<int32_t>( v ) );
               break;
            case rU32:
               put<uint32_t>( p, static_cast<uint32_t>( v ) );
               break;
            case rI64:
               put<int64_t>( p, v );
               break;
            case rBool:
               put<uint8_t>( p, v ? 1 : 0 );
               break;
            case rF32:
               put<float>( p, static_cast<float>( v ) );
               break;
            default:
               put<double>( p, static_cast<double>( v ) );
               break;
         }
      }
      else if ( b.f.kind == kF32 )
      {
         const float v = genF32( b.f, i );
         if ( b.rep == rF64 )
         {
            put<double>( p, static_cast<double>( v ) );
         }
         else if ( b.rep == rF32 )
         {
            put<float>( p, v );
         }
      }
      else if ( b.f.kind == kF64 && b.rep == rF64 )
      {
         put<double>( p, genF64( b.f, i ) );
      }
   }

   bool equals( Buf &b, size_t j, uint64_t i )
   {
      if ( b.rep == rStr )
      {
         return b.strs[j] == genStr( b.f, i );
      }
      Buf tmp;
      tmp.f = b.f;
      tmp.rep = b.rep;
      tmp.stride = 16;
      tmp.raw.reset( new char[16] );
      store( tmp, 0, i );
      return std::memcmp( tmp.raw.get(), b.at( j ), repSizes[b.rep] ) == 0;
   }

   const std::string sentinel = "\x01untouched\x02";

   void prefill( Buf &b )
   {
      if ( b.rep == rStr )
      {
         for ( auto &s : b.strs )
         {
            s = sentinel;
         }
      }
      else
      {
         std::memset( b.raw.get(), b.fillByte, b.rawSize );
      }
   }

   // fid:rep:cap:extraStride:conv:scal
   BufList makeBufs( const std::string &spec )
   {
      BufList l;
      if ( spec.empty() )
      {
         return l;
      }
      for ( const auto &item : split( spec, ',' ) )
      {
         auto p = split( item, ':' );
         std::unique_ptr<Buf> b( new Buf );
         b->f = g_fields.at( p.at( 0 ) );
         b->rep = repOf( p.at( 1 ) );
         b->cap = std::strtoull( p.at( 2 ).c_str(), nullptr, 10 );
         const size_t extra = std::strtoull( p.at( 3 ).c_str(), nullptr, 10 );
         b->stride = repSizes[b->rep] + extra;
         b->conv = p.at( 4 ) == "1";
         b->scal = p.at( 5 ) == "1";
         if ( b->rep == rStr )
         {
            b->strs.resize( b->cap );
         }
         else
         {
            b->rawSize = b->cap == 0 ? 0 : ( b->cap - 1 ) * b->stride + repSizes[b->rep];
            b->raw.reset( new char[b->rawSize + ( b->rawSize == 0 )] );
         }
         prefill( *b );
         l.push_back( std::move( b ) );
      }
      return l;
   }

   std::vector<SourceDestBuffer> sdb( const ImageFile &imf, BufList &l )
   {
      std::vector<SourceDestBuffer> v;
      for ( auto &bp : l )
      {
         Buf &b = *bp;
         char *p = b.raw.get();
         switch ( b.rep )
         {
            case rI8:
               v.emplace_back( imf, b.f.path, reinterpret_cast<int8_t *>( p ), b.cap, b.conv, b.scal, b.stride );
               break;
            case rU8:
               v.emplace_back( imf, b.f.path, reinterpret_cast<uint8_t *>( p ), b.cap, b.conv, b.scal, b.stride );
               break;
            case rI16:
               v.emplace_back( imf, b.f.path, reinterpret_cast<int16_t *>( p ), b.cap, b.conv, b.scal, b.stride );
               break;
            case rU16:
               v.emplace_back( imf, b.f.path, reinterpret_cast<uint16_t *>( p ), b.cap, b.conv, b.scal, b.stride );
               break;
            case rI32:
               v.emplace_back( imf, b.f.path, reinterpret_cast<int32_t *>( p ), b.cap, b.conv, b.scal, b.stride );
               break;
            case rU32:
               v.emplace_back( imf, b.f.path, reinterpret_cast<uint32_t *>( p ), b.cap, b.conv, b.scal, b.stride );
               break;
            case rI64:
               v.emplace_back( imf, b.f.path, reinterpret_cast<int64_t *>( p ), b.cap, b.conv, b.scal, b.stride );
               break;
            case rBool:
               v.emplace_back( imf, b.f.path, reinterpret_cast<bool *>( p ), b.cap, b.conv, b.scal, b.stride );
               break;
            case rF32:
               v.emplace_back( imf, b.f.path, reinterpret_cast<float *>( p ), b.cap, b.conv, b.scal, b.stride );
               break;
            case rF64:
               v.emplace_back( imf, b.f.path, reinterpret_cast<double *>( p ), b.cap, b.conv, b.scal, b.stride );
               break;
            default:
               v.emplace_back( imf, b.f.path, &b.strs );
               break;
         }
      }
      return v;
   }

   // What all handles of one reader or writer share
   struct Shared
   {
      std::vector<BufList> bufs; // all buffers ever given; the last is current
      uint64_t done = 0; // records delivered so far, used only as a hint when decoding values
      unsigned calls = 0;
   };
   struct Session
   {
      std::shared_ptr<Shared> sh = std::make_shared<Shared>();
      std::shared_ptr<CompressedVectorWriter> w;
      std::shared_ptr<CompressedVectorReader> r;
   };
   std::map<std::string, Session> g_sessions;

   ResetHook hook( [] {
      // sessions are dropped before the nodes and files
      g_sessions.clear();
      g_fields.clear();
   } );
}

CMD( fld, "fld" )
{
   Field f;
   f.path = A( a, "path" );
   const std::string k = A( a, "kind" );
   f.kind = k == "int" ? kInt : k == "f32" ? kF32 : k == "f64" ? kF64 : kStr;
   f.min = Id( a, "min", 0 );
   f.max = Id( a, "max", 0 );
   f.seed = static_cast<uint64_t>( Id( a, "seed", 0 ) );
   f.maxlen = static_cast<uint64_t>( Id( a, "maxlen", 20 ) );
   f.mode = static_cast<int>( Id( a, "mode", 0 ) );
   g_fields[A( a, "id" )] = f;
}

// Canonical text of the value of a field in record i (for the independent decoder/encoder)
CMD( fldval, "fld.values" )
{
   const Field &f = g_fields.at( A( a, "id" ) );
   std::string l;
   const uint64_t from = static_cast<uint64_t>( I( a, "from" ) );
   const uint64_t n = static_cast<uint64_t>( I( a, "n" ) );
   for ( uint64_t i = from; i < from + n; ++i )
   {
      std::string v;
      switch ( f.kind )
      {
         case kInt:
            v = std::to_string( genInt( f, i ) );
            break;
         case kF32:
         {
            const float x = genF32( f, i );
            uint32_t b;
            std::memcpy( &b, &x, 4 );
            v = std::to_string( b );
            break;
         }
         case kF64:
         {
            const double x = genF64( f, i );
            uint64_t b;
            std::memcpy( &b, &x, 8 );
            v = std::to_string( b );
            break;
         }
         case kStr:
            for ( unsigned char c : genStr( f, i ) )
            {
               char h[3];
               std::snprintf( h, sizeof h, "%02x", c );
               v += h;
            }
            break;
      }
      l += ( l.empty() ? "" : "," ) + jstr( v );
   }
   out.raw( "v", "[" + l + "]" );
}

CMD( wnew, "w.new" )
{
   CompressedVectorNode cv( N( a ) );
   Session s;
   s.sh->bufs.push_back( makeBufs( Ad( a, "bufs", "" ) ) );
   auto v = sdb( a.count( "bf" ) ? F( a, "bf" ) : cv.destImageFile(), s.sh->bufs.back() );
   s.w = std::make_shared<CompressedVectorWriter>( cv.writer( v ) );
   g_sessions[A( a, "w" )] = std::move( s );
}

CMD( wwrite, "w.write" )
{
   Session &s = g_sessions.at( A( a, "w" ) );
   const size_t n = static_cast<size_t>( I( a, "n" ) );
   const uint64_t start = static_cast<uint64_t>( I( a, "start" ) );
   auto fill = [&]( BufList &l ) {
      for ( auto &b : l )
      {
         prefill( *b );
         for ( size_t j = 0; j < std::min( n, b->cap ); ++j )
         {
            store( *b, j, start + j );
         }
      }
   };
   if ( a.count( "bufs" ) )
   {
      s.sh->bufs.push_back( makeBufs( A( a, "bufs" ) ) );
      fill( s.sh->bufs.back() );
      auto v = sdb( s.w->compressedVectorNode().destImageFile(), s.sh->bufs.back() );
      const std::string r = guarded( [&] { s.w->write( v, n ); } );
      if ( r != "ok" && s.sh->bufs.size() > 1 && Id( a, "keep", 0 ) == 0 )
      {
         // refused: the previous buffers stay in use
         s.sh->bufs.pop_back();
      }
      out.str( "res", r );
   }
   else
   {
      fill( s.sh->bufs.back() );
      out.str( "res", guarded( [&] { s.w->write( n ); } ) );
   }
}
CMD( wclose, "w.close" )
{
   g_sessions.at( A( a, "w" ) ).w->close();
}
CMD( wisopen, "w.isOpen" )
{
   out.boolean( "v", g_sessions.at( A( a, "w" ) ).w->isOpen() );
}
CMD( wdrop, "w.drop" )
{
   g_sessions.erase( A( a, "w" ) );
}
CMD( sescopy, "ses.copy" )
{
   const Session &s = g_sessions.at( A( a, "s" ) );
   Session t;
   t.sh = s.sh;
   if ( s.w )
   {
      t.w = std::make_shared<CompressedVectorWriter>( *s.w );
   }
   if ( s.r )
   {
      t.r = std::make_shared<CompressedVectorReader>( *s.r );
   }
   g_sessions[A( a, "t" )] = std::move( t );
}
CMD( wnode, "w.node" )
{
   out.str( "v", pct( g_sessions.at( A( a, "w" ) ).w->compressedVectorNode().pathName() ) );
}

CMD( rnew, "r.new" )
{
   CompressedVectorNode cv( N( a ) );
   Session s;
   s.sh->bufs.push_back( makeBufs( Ad( a, "bufs", "" ) ) );
   auto v = sdb( a.count( "bf" ) ? F( a, "bf" ) : cv.destImageFile(), s.sh->bufs.back() );
   s.r = std::make_shared<CompressedVectorReader>( cv.reader( v ) );
   g_sessions[A( a, "s" )] = std::move( s );
}

// Decode the contents of one buffer to runs of record indices
static std::string decodeRuns( Buf &b, size_t n, uint64_t hint, uint64_t total )
{
   struct Run
   {
      long long start;
      long long count;
   };
   std::vector<Run> runs;
   uint64_t expect = hint;
   unsigned searches = 0;
   for ( size_t j = 0; j < n; ++j )
   {
      long long idx = -1;
      if ( expect < total && equals( b, j, expect ) )
      {
         idx = static_cast<long long>( expect );
      }
      else if ( searches < 4 )
      {
         ++searches;
         for ( uint64_t i = 0; i < total; ++i )
         {
            if ( equals( b, j, i ) )
            {
               idx = static_cast<long long>( i );
               break;
            }
         }
      }
      if ( idx >= 0 && !runs.empty() && runs.back().start >= 0 && runs.back().start + runs.back().count == idx )
      {
         ++runs.back().count;
      }
      else if ( idx < 0 && !runs.empty() && runs.back().start < 0 )
      {
         ++runs.back().count;
      }
      else
      {
         runs.push_back( { idx, 1 } );
      }
      expect = idx >= 0 ? static_cast<uint64_t>( idx ) + 1 : expect + 1;
   }
   std::string o = "[";
   for ( size_t k = 0; k < runs.size() && k < 12; ++k )
   {
      o += ( k ? "," : "" ) + std::string( "[" ) + std::to_string( runs[k].start ) + "," + std::to_string( runs[k].count ) + "]";
   }
   return o + "]";
}

// True if the elements from n on, and the bytes between elements, still hold the fill pattern
static bool untouched( Buf &b, size_t n )
{
   if ( b.rep == rStr )
   {
      for ( size_t j = n; j < b.strs.size(); ++j )
      {
         if ( b.strs[j] != sentinel )
         {
            return false;
         }
      }
      return b.strs.size() == b.cap;
   }
   for ( size_t k = 0; k < b.rawSize; ++k )
   {
      const size_t j = k / b.stride;
      const bool inElement = k % b.stride < repSizes[b.rep];
      if ( ( j >= n || !inElement ) && static_cast<unsigned char>( b.raw[k] ) != b.fillByte )
      {
         return false;
      }
   }
   return true;
}

static void doRead( Session &s, const Args &a, Json &out )
{
   const uint64_t total = static_cast<uint64_t>( Id( a, "total", 0 ) );
   ++s.sh->calls;
   auto refill = [&]( BufList &l ) {
      for ( auto &b : l )
      {
         b->fillByte = s.sh->calls % 2 ? 0xa5 : 0x5a;
         prefill( *b );
      }
   };
   unsigned n = 0;
   std::string r;
   for ( auto &l : s.sh->bufs )
   {
      refill( l );
   }
   if ( a.count( "bufs" ) )
   {
      s.sh->bufs.push_back( makeBufs( A( a, "bufs" ) ) );
      refill( s.sh->bufs.back() );
      auto v = sdb( s.r->compressedVectorNode().destImageFile(), s.sh->bufs.back() );
      r = guarded( [&] { n = s.r->read( v ); } );
   }
   else
   {
      r = guarded( [&] { n = s.r->read(); } );
   }
   out.str( "res", r );
   out.num( "n", n );
   bool clean = true;
   std::string runs;
   for ( size_t k = 0; k < s.sh->bufs.size(); ++k )
   {
      const bool current = k + 1 == s.sh->bufs.size();
      for ( auto &b : s.sh->bufs[k] )
      {
         const size_t m = current && r == "ok" ? std::min<size_t>( n, b->cap ) : 0;
         if ( r == "ok" || !current )
         {
            clean = clean && untouched( *b, m );
         }
         if ( current )
         {
            runs += ( runs.empty() ? "" : "," ) + decodeRuns( *b, m, s.sh->done, total );
         }
      }
   }
   out.boolean( "clean", clean );
   out.raw( "runs", "[" + runs + "]" );
   if ( r == "ok" )
   {
      s.sh->done += n;
   }
   else if ( a.count( "bufs" ) )
   {
      s.sh->bufs.pop_back();
   }
}
CMD( rread, "r.read" )
{
   doRead( g_sessions.at( A( a, "s" ) ), a, out );
}
CMD( rclose, "r.close" )
{
   g_sessions.at( A( a, "s" ) ).r->close();
}
CMD( risopen, "r.isOpen" )
{
   out.boolean( "v", g_sessions.at( A( a, "s" ) ).r->isOpen() );
}
CMD( rseek, "r.seek" )
{
   g_sessions.at( A( a, "s" ) ).r->seek( I( a, "i" ) );
}
CMD( rdrop, "r.drop" )
{
   g_sessions.erase( A( a, "s" ) );
}
CMD( rnode, "r.node" )
{
   out.str( "v", pct( g_sessions.at( A( a, "s" ) ).r->compressedVectorNode().pathName() ) );
}

// Read a whole vector with one reader, reporting totals only: number of records, runs per field.
CMD( rall, "r.all" )
{
   CompressedVectorNode cv( N( a ) );
   Session s;
   s.sh->bufs.push_back( makeBufs( A( a, "bufs" ) ) );
   auto v = sdb( cv.destImageFile(), s.sh->bufs.back() );
   CompressedVectorReader rd = cv.reader( v );
   const uint64_t total = static_cast<uint64_t>( Id( a, "total", 0 ) );
   uint64_t n = 0;
   bool good = true;
   for ( ;; )
   {
      unsigned k = rd.read();
      if ( k == 0 )
      {
         break;
      }
      for ( auto &b : s.sh->bufs.back() )
      {
         if ( k > b->cap )
         {
            good = false;
            break;
         }
         for ( size_t j = 0; j < k && good; ++j )
         {
            good = n + j < total && equals( *b, j, n + j );
         }
      }
      n += k;
      if ( n > total + 1000000 )
      {
         break;
      }
   }
   rd.close();
   out.num( "n", static_cast<long long>( n ) );
   out.boolean( "good", good );
}

// ---------------------------------------------------------------------------------------------
// Conversion cells: one value written with one buffer, alone or among others, read back with several.

static std::string canon( Buf &b, size_t j = 0 )
{
   const char *p = b.rep == rStr ? nullptr : b.at( j );
   char tmp[32];
   switch ( b.rep )
   {
      case rI8:
         return std::to_string( get<int8_t>( p ) );
      case rU8:
         return std::to_string( get<uint8_t>( p ) );
      case rI16:
         return std::to_string( get<int16_t>( p ) );
      case rU16:
         return std::to_string( get<uint16_t>( p ) );
      case rI32:
         return std::to_string( get<int32_t>( p ) );
      case rU32:
         return std::to_string( get<uint32_t>( p ) );
      case rI64:
         return std::to_string( get<int64_t>( p ) );
      case rBool:
         return std::to_string( get<uint8_t>( p ) );
      case rF32:
         return hexd( static_cast<double>( get<float>( p ) ) );
      case rF64:
         return hexd( get<double>( p ) );
      default:
         return pct( b.strs.at( j ) );
   }
   (void)tmp;
}

static void setCanon( Buf &b, const std::string &v, size_t j = 0 )
{
   char *p = b.rep == rStr ? nullptr : b.at( j );
   const long long i = std::strtoll( v.c_str(), nullptr, 10 );
   switch ( b.rep )
   {
      case rI8:
         put<int8_t>( p, static_cast<int8_t>( i ) );
         break;
      case rU8:
         put<uint8_t>( p, static_cast<uint8_t>( i ) );
         break;
      case rI16:
         put<int16_t>( p, static_cast<int16_t>( i ) );
         break;
      case rU16:
         put<uint16_t>( p, static_cast<uint16_t>( i ) );
         break;
      case rI32:
         put<int32_t>( p, static_cast<int32_t>( i ) );
         break;
      case rU32:
         put<uint32_t>( p, static_cast<uint32_t>( i ) );
         break;
      case rI64:
         put<int64_t>( p, static_cast<int64_t>( i ) );
         break;
      case rBool:
         put<uint8_t>( p, static_cast<uint8_t>( i ) );
         break;
      case rF32:
         put<float>( p, static_cast<float>( D( v ) ) );
         break;
      case rF64:
         put<double>( p, D( v ) );
         break;
      default:
         b.strs.at( j ) = v;
         break;
   }
}

static BufList oneBuf( const std::string &rep, const std::string &conv, const std::string &scal, long long cap, long long extra )
{
   Field f;
   f.path = "x";
   g_fields["@cell"] = f;
   return makeBufs( "@cell:" + rep + ":" + std::to_string( cap ) + ":" + std::to_string( extra ) + ":" + conv + ":" + scal );
}

// n: number of records; at: position of the value; fill: the value of the others; wcap, rcap: records per call
CMD( cell, "cell" )
{
   const long long total = Id( a, "n", 1 );
   const long long at = Id( a, "at", 0 );
   const long long wcap = Id( a, "wcap", 1 );
   const long long rcap = Id( a, "rcap", 1 );
   const long long extra = Id( a, "extra", 0 );
   const std::string path = A( a, "path" );
   const std::string type = A( a, "type" );
   std::string mk = "ok", w = "skipped", raw = "", reads = "";
   {
      ImageFile imf( path, "w" );
      std::string cvh;
      BufList wb = oneBuf( A( a, "wrep" ), A( a, "wconv" ), A( a, "wscal" ), wcap, extra );
      std::shared_ptr<Node> leaf;
      mk = guarded( [&] {
         if ( type == "Integer" )
         {
            leaf.reset( new Node( IntegerNode( imf, I( a, "min" ), I( a, "min" ), I( a, "max" ) ) ) );
         }
         else if ( type == "ScaledInteger" )
         {
            leaf.reset( new Node( ScaledIntegerNode( imf, static_cast<int64_t>( I( a, "min" ) ),
                                                     static_cast<int64_t>( I( a, "min" ) ),
                                                     static_cast<int64_t>( I( a, "max" ) ), D( A( a, "scale" ) ),
                                                     D( A( a, "offset" ) ) ) ) );
         }
         else if ( type == "Float" )
         {
            leaf.reset( new Node( FloatNode( imf, D( A( a, "min" ) ),
                                             A( a, "prec" ) == "single" ? PrecisionSingle : PrecisionDouble,
                                             D( A( a, "min" ) ), D( A( a, "max" ) ) ) ) );
         }
         else
         {
            leaf.reset( new Node( StringNode( imf ) ) );
         }
      } );
      if ( mk == "ok" )
      {
         StructureNode proto( imf );
         proto.set( "x", *leaf );
         CompressedVectorNode cv( imf, proto, VectorNode( imf, true ) );
         imf.root().set( "cv", cv );
         auto v = sdb( imf, wb );
         CompressedVectorWriter wr = cv.writer( v );
         w = "ok";
         for ( long long i = 0; i < total && w == "ok"; )
         {
            long long k = 0;
            for ( ; k < wcap && i < total; ++k, ++i )
            {
               setCanon( *wb.at( 0 ), i == at ? A( a, "wval" ) : A( a, "fill" ), static_cast<size_t>( k ) );
            }
            w = guarded( [&] { wr.write( static_cast<size_t>( k ) ); } );
         }
         if ( w == "ok" )
         {
            w = guarded( [&] {
               wr.close();
               imf.close();
            } );
         }
      }
      if ( w != "ok" )
      {
         imf.cancel();
      }
   }
   out.str( "mk", mk );
   out.str( "w", w );
   if ( w == "ok" )
   {
      ImageFile imf( path, "r" );
      CompressedVectorNode cv( imf.root().get( "cv" ) );
      std::string gotFill;
      bool same = true;
      auto readOne = [&]( const std::string &rep, const std::string &conv, const std::string &scal, std::string &got ) {
         BufList rb = oneBuf( rep, conv, scal, rcap, extra );
         auto v = sdb( imf, rb );
         CompressedVectorReader rd = cv.reader( v );
         unsigned n = 0;
         long long i = 0;
         got = gotFill = "";
         same = true;
         std::string r;
         bool first = true;
         do
         {
            r = guarded( [&] { n = rd.read(); } );
            for ( unsigned k = 0; r == "ok" && k < n && k < rcap; ++k, ++i )
            {
               const std::string t = canon( *rb.at( 0 ), k );
               if ( i == at )
               {
                  got = t;
               }
               else
               {
                  same = same && ( first || t == gotFill );
                  first = false;
                  gotFill = t;
               }
            }
         } while ( r == "ok" && n > 0 && i < total + 1 );
         if ( r == "ok" && i != total )
         {
            r = "count";
         }
         rd.close();
         return r;
      };
      std::string got;
      const std::string rawRep = type == "Float" ? ( A( a, "prec" ) == "single" ? "Real32" : "Real64" )
                                 : type == "String" ? "UString"
                                                    : "Int64";
      const std::string rr = readOne( rawRep, "0", "0", got );
      out.str( "rawr", rr );
      out.str( "raw", got );
      out.str( "rawy", gotFill );
      out.boolean( "same", same );
      if ( !A( a, "reads" ).empty() )
      {
         for ( const auto &item : split( A( a, "reads" ), ',' ) )
         {
            auto p = split( item, ':' );
            const std::string r = readOne( p.at( 0 ), p.at( 1 ), p.at( 2 ), got );
            reads += ( reads.empty() ? "" : "," ) + std::string( "{\"rep\":" ) + jstr( p.at( 0 ) ) + ",\"conv\":" + jstr( p.at( 1 ) ) +
                     ",\"scal\":" + jstr( p.at( 2 ) ) + ",\"r\":" + jstr( r ) + ",\"got\":" + jstr( got ) + ",\"goty\":" + jstr( gotFill ) +
                     ",\"same\":" + ( same ? "true" : "false" ) + "}";
         }
      }
      imf.close();
      std::remove( path.c_str() );
   }
   out.raw( "reads", "[" + reads + "]" );
}

// ---------------------------------------------------------------------------------------------
// Blobs. The byte written at position p with tag t identifies t uniquely at that position;
// tag 0 stands for the initial zeros.

static unsigned char blobByte( uint64_t p, unsigned tag )
{
   if ( tag == 0 )
   {
      return 0;
   }
   return static_cast<unsigned char>( 1 + ( ( mix64( p ) % 255 ) + tag * 37U ) % 255 );
}
static int blobTag( uint64_t p, unsigned char byte )
{
   if ( byte == 0 )
   {
      return 0;
   }
   // 37 * 193 = 7141 = 28 * 255 + 1
   const unsigned d = ( byte - 1 + 255 - static_cast<unsigned>( mix64( p ) % 255 ) ) % 255;
   return static_cast<int>( ( d * 193U ) % 255 );
}

CMD( bwrite, "blob.write" )
{
   const long long start = I( a, "start" );
   const long long count = I( a, "count" );
   const unsigned tag = static_cast<unsigned>( I( a, "tag" ) );
   const size_t n = count < 0 || count > 100000000 ? 0 : static_cast<size_t>( count );
   std::unique_ptr<uint8_t[]> buf( new uint8_t[n + ( n == 0 )] );
   for ( size_t i = 0; i < n; ++i )
   {
      buf[i] = blobByte( static_cast<uint64_t>( start ) + i, tag );
   }
   BlobNode( N( a ) ).write( buf.get(), start, static_cast<size_t>( count ) );
}
CMD( bbytes, "blob.bytes" )
{
   std::string h;
   for ( long long i = 0; i < I( a, "n" ); ++i )
   {
      char t[3];
      std::snprintf( t, sizeof t, "%02x", blobByte( static_cast<uint64_t>( i ), static_cast<unsigned>( I( a, "tag" ) ) ) );
      h += t;
   }
   out.str( "v", h );
}
CMD( bread, "blob.read" )
{
   const long long start = I( a, "start" );
   const long long count = I( a, "count" );
   const size_t n = count < 0 || count > 100000000 ? 0 : static_cast<size_t>( count );
   std::unique_ptr<uint8_t[]> buf( new uint8_t[n + ( n == 0 )] );
   std::memset( buf.get(), 0xee, n );
   BlobNode( N( a ) ).read( buf.get(), start, static_cast<size_t>( count ) );
   std::string runs;
   int cur = -1;
   long long len = 0, nruns = 0;
   auto flush = [&] {
      if ( len > 0 && nruns++ < 300 )
      {
         runs += ( runs.empty() ? "" : "," ) + std::string( "[" ) + std::to_string( cur ) + "," + std::to_string( len ) + "]";
      }
   };
   for ( size_t i = 0; i < n; ++i )
   {
      const int t = blobTag( static_cast<uint64_t>( start ) + i, buf[i] );
      if ( t != cur )
      {
         flush();
         cur = t;
         len = 0;
      }
      ++len;
   }
   flush();
   out.raw( "runs", "[" + runs + "]" );
}
CMD( bcount, "blob.byteCount" )
{
   out.str( "v", std::to_string( BlobNode( N( a ) ).byteCount() ) );
}

// many path n rec: records of very many fields, written and read back. Results: w, count, same
CMD( many, "many" )
{
   const long long n = I( a, "n" );
   const size_t rec = static_cast<size_t>( I( a, "rec" ) );
   const std::string path = A( a, "path" );
   // fields in structures of 200, each with values of its own
   auto name = []( long long i ) { return "s" + std::to_string( i / 200 ) + "/a" + std::to_string( i % 200 ); };
   auto value = []( long long i, size_t k ) { return static_cast<int8_t>( mix64( static_cast<uint64_t>( i ) * 1000 + k ) % 100 ); };
   std::vector<std::vector<int8_t>> mem( static_cast<size_t>( n ), std::vector<int8_t>( rec ) );
   auto buffers = [&]( const ImageFile &imf ) {
      std::vector<SourceDestBuffer> v;
      for ( long long i = 0; i < n; ++i )
      {
         v.emplace_back( imf, name( i ), mem[static_cast<size_t>( i )].data(), rec );
      }
      return v;
   };
   const std::string w = guarded( [&] {
      ImageFile imf( path, "w" );
      StructureNode proto( imf );
      for ( long long i = 0; i < n; i += 200 )
      {
         StructureNode s( imf );
         for ( long long j = i; j < n && j < i + 200; ++j )
         {
            s.set( "a" + std::to_string( j - i ), IntegerNode( imf, 0, 0, 99 ) );
         }
         proto.set( "s" + std::to_string( i / 200 ), s );
      }
      CompressedVectorNode cv( imf, proto, VectorNode( imf, true ) );
      imf.root().set( "cv", cv );
      for ( long long i = 0; i < n; ++i )
      {
         for ( size_t k = 0; k < rec; ++k )
         {
            mem[static_cast<size_t>( i )][k] = value( i, k );
         }
      }
      auto v = buffers( imf );
      CompressedVectorWriter wr = cv.writer( v );
      wr.write( rec );
      wr.close();
      imf.close();
   } );
   out.str( "w", w );
   long long count = -1;
   bool same = false;
   if ( w == "ok" )
   {
      ImageFile imf( path, "r" );
      CompressedVectorNode cv( imf.root().get( "cv" ) );
      count = cv.childCount();
      for ( auto &m : mem )
      {
         m.assign( rec, -1 );
      }
      auto v = buffers( imf );
      CompressedVectorReader rd = cv.reader( v );
      same = rd.read() == rec;
      for ( long long i = 0; i < n; ++i )
      {
         for ( size_t k = 0; k < rec; ++k )
         {
            same = same && mem[static_cast<size_t>( i )][k] == value( i, k );
         }
      }
      rd.close();
      imf.close();
   }
   out.num( "count", count );
   out.boolean( "same", same );
   std::remove( path.c_str() );
}
