// Read everything a file holds: the element tree, every blob and every compressed vector.
#include "driver.h"

#include <algorithm>
#include <cstdio>
#include <cstring>
#include <functional>

using namespace e57;

void walk( const Node &n, const std::string &rel, int depth, std::string &list );

namespace
{
   // One element of a prototype with a buffer of its natural type
   struct Column
   {
      std::string path;
      std::string type; // i64 f32 f64 str
      std::vector<int64_t> i;
      std::vector<float> f;
      std::vector<double> d;
      std::vector<std::string> s;

      void size( size_t n )
      {
         i.assign( type == "i64" ? n : 0, 0x5a5a5a5a );
         f.assign( type == "f32" ? n : 0, -77.F );
         d.assign( type == "f64" ? n : 0, -77. );
         s.assign( type == "str" ? n : 0, "?" );
      }
      SourceDestBuffer buffer( const ImageFile &imf, size_t n )
      {
         if ( type == "i64" )
         {
            return SourceDestBuffer( imf, path, i.data(), n );
         }
         if ( type == "f32" )
         {
            return SourceDestBuffer( imf, path, f.data(), n );
         }
         if ( type == "f64" )
         {
            return SourceDestBuffer( imf, path, d.data(), n );
         }
         return SourceDestBuffer( imf, path, &s );
      }
      std::string text( size_t k ) const
      {
         if ( type == "i64" )
         {
            return std::to_string( i[k] );
         }
         if ( type == "f32" )
         {
            uint32_t b;
            std::memcpy( &b, &f[k], 4 );
            return std::to_string( b );
         }
         if ( type == "f64" )
         {
            uint64_t b;
            std::memcpy( &b, &d[k], 8 );
            return std::to_string( b );
         }
         std::string h;
         for ( unsigned char c : s[k] )
         {
            char t[3];
            std::snprintf( t, sizeof t, "%02x", c );
            h += t;
         }
         return h;
      }
   };

   void columns( const Node &n, const std::string &path, std::vector<Column> &out )
   {
      auto sub = [&]( const Node &c ) { columns( c, path.empty() ? c.elementName() : path + "/" + c.elementName(), out ); };
      Column c;
      c.path = path;
      switch ( n.type() )
      {
         case TypeStructure:
         {
            StructureNode s( n );
            for ( int64_t i = 0; i < s.childCount(); ++i )
            {
               sub( s.get( i ) );
            }
            return;
         }
         case TypeVector:
         {
            VectorNode s( n );
            for ( int64_t i = 0; i < s.childCount(); ++i )
            {
               sub( s.get( i ) );
            }
            return;
         }
         case TypeInteger:
         case TypeScaledInteger:
            c.type = "i64";
            break;
         case TypeFloat:
            c.type = FloatNode( n ).precision() == PrecisionSingle ? "f32" : "f64";
            break;
         case TypeString:
            c.type = "str";
            break;
         default:
            return;
      }
      out.push_back( c );
   }

   struct Options
   {
      std::vector<long long> caps;
      bool hash = false;
      bool fresh = true; // new buffers for every call
      std::vector<size_t> only; // columns to read (empty: all)
   };

   uint64_t fnv( uint64_t h, const std::string &s )
   {
      for ( unsigned char c : s )
      {
         h = ( h ^ c ) * 0x100000001b3ULL;
      }
      return h;
   }
   std::string hexHash( uint64_t h )
   {
      char b[20];
      std::snprintf( b, sizeof b, "%016llx", static_cast<unsigned long long>( h ) );
      return b;
   }

   // One vector: outcome of opening the reader, of every call, and the values delivered
   std::string readVector( const ImageFile &imf, CompressedVectorNode cv, const Options &o )
   {
      Json j;
      std::vector<Column> all, cols;
      std::string rd = "ok", calls, first = "ok";
      unsigned long long total = 0;
      uint64_t h = 1469598103934665603ULL;
      std::vector<std::string> vals;
      std::string paths;
      const std::string outer = guarded( [&] {
         columns( cv.prototype(), "", all );
         if ( o.only.empty() )
         {
            cols = all;
         }
         for ( size_t k : o.only )
         {
            cols.push_back( all.at( k % all.size() ) );
         }
         for ( auto &c : cols )
         {
            paths += ( paths.empty() ? "" : "," ) + jstr( pct( c.path ) );
         }
         vals.resize( cols.size() );
         size_t step = 0;
         auto cap = [&]() { return static_cast<size_t>( o.caps[step++ % o.caps.size()] ); };
         auto buffers = [&]( size_t n ) {
            std::vector<SourceDestBuffer> b;
            for ( auto &c : cols )
            {
               c.size( n );
               b.push_back( c.buffer( imf, n ) );
            }
            return b;
         };
         size_t n = cap();
         auto b = buffers( n );
         std::shared_ptr<CompressedVectorReader> r;
         rd = guarded( [&] { r = std::make_shared<CompressedVectorReader>( cv.reader( b ) ); } );
         if ( rd != "ok" )
         {
            return;
         }
         bool start = true;
         unsigned zeros = 0;
         for ( unsigned guard = 0; guard < 200000 && zeros < 2; ++guard )
         {
            unsigned got = 0;
            std::string e;
            if ( o.fresh && !start )
            {
               n = cap();
               b = buffers( n );
               e = guarded( [&] { got = r->read( b ); } );
            }
            else
            {
               e = guarded( [&] { got = r->read(); } );
            }
            start = false;
            calls += ( calls.empty() ? "" : "," ) + std::string( "[" ) + std::to_string( n ) + "," + std::to_string( got ) + "," + jstr( e ) + "]";
            if ( e != "ok" )
            {
               first = e;
               break;
            }
            if ( got > n )
            {
               first = "OVERRUN";
               break;
            }
            zeros = got == 0 ? zeros + 1 : 0;
            for ( size_t k = 0; k < got; ++k )
            {
               for ( size_t c = 0; c < cols.size(); ++c )
               {
                  const std::string t = cols[c].text( k );
                  h = fnv( fnv( h, t ), "|" );
                  if ( !o.hash )
                  {
                     vals[c] += ( vals[c].empty() ? "" : "," ) + jstr( t );
                  }
               }
            }
            total += got;
         }
         guarded( [&] { r->close(); } );
      } );
      j.str( "r", outer != "ok" ? outer : rd != "ok" ? rd : first );
      j.str( "rd", rd );
      j.num( "n", static_cast<long long>( total ) );
      if ( o.hash )
      {
         j.str( "h", hexHash( h ) );
      }
      else
      {
         std::string v;
         for ( auto &x : vals )
         {
            v += ( v.empty() ? "" : "," ) + std::string( "[" ) + x + "]";
         }
         j.raw( "calls", "[" + calls + "]" );
         j.raw( "cols", "[" + paths + "]" );
         j.raw( "v", "[" + v + "]" );
      }
      return j.body;
   }

   std::string readBlob( BlobNode b, const Options &o )
   {
      Json j;
      uint64_t h = 1469598103934665603ULL;
      std::string hex;
      long long n = 0;
      const std::string r = guarded( [&] {
         n = b.byteCount();
         if ( n < 0 || n > 100000000 )
         {
            n = -1;
            return;
         }
         std::vector<uint8_t> bytes( static_cast<size_t>( n ) + 1 );
         // in pieces of the given sizes
         size_t step = 0;
         for ( long long at = 0; at < n; )
         {
            const long long k = std::min( n - at, std::max( 1LL, o.caps[step++ % o.caps.size()] * 16 ) );
            b.read( bytes.data() + at, at, static_cast<size_t>( k ) );
            at += k;
         }
         const std::string s( reinterpret_cast<const char *>( bytes.data() ), static_cast<size_t>( n ) );
         h = fnv( h, s );
         if ( !o.hash )
         {
            for ( unsigned char c : s )
            {
               char t[3];
               std::snprintf( t, sizeof t, "%02x", c );
               hex += t;
            }
         }
      } );
      j.str( "r", r );
      j.num( "n", n );
      if ( o.hash )
      {
         j.str( "h", hexHash( h ) );
      }
      else
      {
         j.str( "v", hex );
      }
      return j.body;
   }

   void items( const ImageFile &imf, const Node &n, const Options &o, std::string &list )
   {
      auto add = [&]( const std::string &kind, const std::string &body ) {
         list += ( list.empty() ? "" : "," ) + std::string( "{\"p\":" ) + jstr( pct( n.pathName() ) ) + ",\"k\":" + jstr( kind ) + "," + body + "}";
      };
      switch ( n.type() )
      {
         case TypeStructure:
         {
            StructureNode s( n );
            for ( int64_t i = 0; i < s.childCount(); ++i )
            {
               items( imf, s.get( i ), o, list );
            }
            break;
         }
         case TypeVector:
         {
            VectorNode s( n );
            for ( int64_t i = 0; i < s.childCount(); ++i )
            {
               items( imf, s.get( i ), o, list );
            }
            break;
         }
         case TypeCompressedVector:
            add( "cv", readVector( imf, CompressedVectorNode( n ), o ) );
            break;
         case TypeBlob:
            add( "blob", readBlob( BlobNode( n ), o ) );
            break;
         default:
            break;
      }
   }
}

static std::string slurp( const std::string &path )
{
   std::string s;
   FILE *fp = std::fopen( path.c_str(), "rb" );
   char buf[65536];
   size_t n;
   while ( fp && ( n = std::fread( buf, 1, sizeof buf, fp ) ) > 0 )
   {
      s.append( buf, n );
   }
   if ( fp )
   {
      std::fclose( fp );
   }
   return s;
}

namespace
{
   // Everything a file says: "refused", or a description of its tree and items
   std::string fingerprint( const std::string &path, int policy )
   {
      Options o;
      o.caps = { 100 };
      o.hash = true;
      std::string tree, list;
      std::shared_ptr<ImageFile> imf;
      const std::string open = guarded( [&] { imf = std::make_shared<ImageFile>( path, "r", policy ); } );
      if ( open.compare( 0, 5, "Error" ) == 0 )
      {
         return "refused";
      }
      const std::string rest = guarded( [&] {
         walk( imf->root(), "", 0, tree );
         items( *imf, imf->root(), o, list );
         imf->close();
      } );
      return open + " " + rest + " " + tree + " " + list;
   }
}

// crash.scan journal path old policy: the file as it is after every recorded write (and with some writes torn), opened
// each time. Results are runs [mark, outcome, how often]; outcomes: absent refused complete wrong
CMD( crash, "crash.scan" )
{
   const std::string j = slurp( A( a, "journal" ) );
   const std::string ref = fingerprint( A( a, "path" ), 100 );
   const std::string tmp = A( a, "path" ) + ".crash";
   const int policy = static_cast<int>( Id( a, "policy", 100 ) );
   const long long every = std::max( 1LL, Id( a, "every", 1 ) ); // sample of the states before the first mark
   const long long torn = std::max( 1LL, Id( a, "torn", 1 ) );   // step of the torn sizes
   uint64_t state = mix64( static_cast<uint64_t>( Id( a, "seed", 1 ) ) );
   std::string image = Ad( a, "old", "" ).empty() ? "" : slurp( A( a, "old" ) );
   bool exists = !image.empty();
   long long mark = 0;
   std::vector<std::pair<std::pair<long long, std::string>, long long>> runs;
   long long opens = 0;
   auto look = [&]( const std::string &img ) {
      // enough has been seen: a file that opens and is not complete, or that comes and goes
      if ( runs.size() > 12 || ( !runs.empty() && runs.back().first.second == "wrong" && runs.back().second > 4 ) )
      {
         return;
      }
      std::string what;
      if ( !exists )
      {
         what = "absent";
      }
      else
      {
         FILE *fp = std::fopen( tmp.c_str(), "wb" );
         std::fwrite( img.data(), 1, img.size(), fp );
         std::fclose( fp );
         const std::string f = fingerprint( tmp, policy );
         what = f == "refused" ? f : f == ref ? "complete" : "wrong";
         ++opens;
      }
      if ( runs.empty() || runs.back().first != std::make_pair( mark, what ) )
      {
         runs.push_back( { { mark, what }, 0 } );
      }
      ++runs.back().second;
   };
   for ( size_t p = 0; p + 17 <= j.size(); )
   {
      const char type = j[p];
      int64_t off, len;
      std::memcpy( &off, j.data() + p + 1, 8 );
      std::memcpy( &len, j.data() + p + 9, 8 );
      const std::string data = j.substr( p + 17, static_cast<size_t>( len ) );
      p += 17 + data.size();
      state = mix64( state + 1 );
      bool now = mark > 0 || state % static_cast<uint64_t>( every ) == 0;
      switch ( type )
      {
         case 'M':
            mark = off;
            now = true;
            break;
         case 'T':
            image.clear();
            exists = true;
            now = true;
            break;
         case 'O':
            exists = true;
            now = true;
            break;
         case 'L':
            image.resize( static_cast<size_t>( off ) );
            now = true;
            break;
         case 'U':
            exists = data != A( a, "path" ) && exists;
            now = true;
            break;
         case 'W':
            if ( now )
            {
               // torn writes: the first bytes only
               std::string t = image;
               std::vector<long long> cuts;
               const bool head = off < 48;
               for ( long long k = 1 + static_cast<long long>( state % static_cast<uint64_t>( torn ) ); k < len; k += ( head && k < 64 && mark > 0 ) ? 1 : torn )
               {
                  cuts.push_back( k );
               }
               for ( long long k : cuts )
               {
                  t.resize( std::max( t.size(), static_cast<size_t>( off + k ) ) );
                  t.replace( static_cast<size_t>( off ), static_cast<size_t>( k ), data, 0, static_cast<size_t>( k ) );
                  look( t );
               }
            }
            image.resize( std::max( image.size(), static_cast<size_t>( off + len ) ) );
            image.replace( static_cast<size_t>( off ), static_cast<size_t>( len ), data );
            break;
         default:
            break;
      }
      if ( now )
      {
         look( image );
      }
   }
   std::remove( tmp.c_str() );
   // what is on disk is what the journal says
   const std::string real = slurp( A( a, "path" ) );
   std::string l;
   for ( const auto &r : runs )
   {
      l += ( l.empty() ? "" : "," ) + std::string( "[" ) + std::to_string( r.first.first ) + "," + jstr( r.first.second ) + "," + std::to_string( r.second ) + "]";
   }
   out.raw( "runs", "[" + l + "]" );
   out.num( "opens", opens );
   out.boolean( "journaled", exists ? real == image : real.empty() );
   out.str( "final", ref == "refused" ? ref : "opens" );
}

// x.all path policy buf caps hash fresh only: results are open, tree (hash) and items
CMD( xall, "x.all" )
{
   Options o;
   for ( const auto &c : split( Ad( a, "caps", "64" ), ',' ) )
   {
      o.caps.push_back( std::max( 1LL, std::atoll( c.c_str() ) ) );
   }
   o.hash = Id( a, "hash", 0 ) != 0;
   o.fresh = Id( a, "fresh", 1 ) != 0;
   for ( const auto &c : split( Ad( a, "only", "" ), ',' ) )
   {
      if ( !c.empty() )
      {
         o.only.push_back( static_cast<size_t>( std::atoll( c.c_str() ) ) );
      }
   }
   const int policy = static_cast<int>( Id( a, "policy", 100 ) );
   std::unique_ptr<char[]> mem;
   std::string copy;
   std::string list, second, tree;
   std::string rest = "ok";
   std::shared_ptr<ImageFile> imf;
   std::string path = A( a, "path" );
   const std::string flips = Ad( a, "flip", "" );
   if ( Id( a, "buf", 0 ) || !flips.empty() )
   {
      copy = slurp( path );
   }
   if ( !flips.empty() )
   {
      // offset:mask pairs
      for ( const auto &f : split( flips, ',' ) )
      {
         const auto om = split( f, ':' );
         const size_t off = static_cast<size_t>( std::atoll( om.at( 0 ).c_str() ) );
         if ( off < copy.size() )
         {
            copy[off] = static_cast<char>( copy[off] ^ std::atoi( om.at( 1 ).c_str() ) );
         }
      }
      path += ".x";
      if ( !Id( a, "buf", 0 ) )
      {
         FILE *fp = std::fopen( path.c_str(), "wb" );
         std::fwrite( copy.data(), 1, copy.size(), fp );
         std::fclose( fp );
      }
   }
   const std::string open = guarded( [&] {
      if ( Id( a, "buf", 0 ) )
      {
         mem.reset( new char[copy.size()] );
         std::memcpy( mem.get(), copy.data(), copy.size() );
         imf = std::make_shared<ImageFile>( mem.get(), static_cast<uint64_t>( copy.size() ), policy );
      }
      else
      {
         imf = std::make_shared<ImageFile>( path, "r", policy );
      }
   } );
   if ( open == "ok" )
   {
      rest = guarded( [&] {
         walk( imf->root(), "", 0, tree );
         items( *imf, imf->root(), o, list );
         if ( Id( a, "again", 0 ) )
         {
            items( *imf, imf->root(), o, second );
         }
         imf->close();
      } );
   }
   if ( Id( a, "again", 0 ) )
   {
      out.raw( "items2", "[" + second + "]" );
   }
   out.str( "open", open );
   out.str( "rest", rest );
   out.raw( "items", "[" + list + "]" );
   out.str( "tree", hexHash( fnv( 1469598103934665603ULL, tree ) ) );
   if ( Id( a, "xml", 0 ) )
   {
      out.raw( "dump", "[" + tree + "]" );
   }
   out.boolean( "intact", mem == nullptr || std::memcmp( mem.get(), copy.data(), copy.size() ) == 0 );
}

// x.seq path policy buf seed steps: open a file and use several readers and blobs in a mixed order given by the
// seed. The results of all steps are folded into a hash; "log" holds the outcomes.
CMD( xseq, "x.seq" )
{
   uint64_t state = mix64( static_cast<uint64_t>( I( a, "seed" ) ) );
   auto pick = [&]( uint64_t n ) {
      state = mix64( state + 0x9e3779b97f4a7c15ULL );
      return n == 0 ? 0 : state % n;
   };
   const bool buf = Id( a, "buf", 0 ) != 0;
   const int policy = static_cast<int>( Id( a, "policy", 100 ) );
   const std::string copy = slurp( A( a, "path" ) );
   std::unique_ptr<char[]> mem;
   std::shared_ptr<ImageFile> imf;
   std::string log;
   uint64_t h = 1469598103934665603ULL;
   auto note = [&]( const std::string &s ) { log += ( log.empty() ? "" : "," ) + jstr( s ); };
   const std::string open = guarded( [&] {
      if ( buf )
      {
         mem.reset( new char[copy.size()] );
         std::memcpy( mem.get(), copy.data(), copy.size() );
         imf = std::make_shared<ImageFile>( mem.get(), static_cast<uint64_t>( copy.size() ), policy );
      }
      else
      {
         imf = std::make_shared<ImageFile>( A( a, "path" ), "r", policy );
      }
   } );
   if ( open == "ok" )
   {
      std::vector<CompressedVectorNode> vecs;
      std::vector<BlobNode> blobs;
      note( guarded( [&] {
         std::function<void( const Node & )> collect = [&]( const Node &n ) {
            if ( n.type() == TypeStructure )
            {
               StructureNode s( n );
               for ( int64_t i = 0; i < s.childCount(); ++i )
               {
                  collect( s.get( i ) );
               }
            }
            else if ( n.type() == TypeVector )
            {
               VectorNode s( n );
               for ( int64_t i = 0; i < s.childCount(); ++i )
               {
                  collect( s.get( i ) );
               }
            }
            else if ( n.type() == TypeCompressedVector )
            {
               vecs.emplace_back( n );
            }
            else if ( n.type() == TypeBlob )
            {
               blobs.emplace_back( n );
            }
         };
         collect( imf->root() );
      } ) );
      struct Open
      {
         std::vector<Column> cols;
         size_t n = 0;
         std::shared_ptr<CompressedVectorReader> r;
      };
      std::vector<std::shared_ptr<Open>> readers;
      const long long steps = Id( a, "steps", 30 );
      for ( long long s = 0; s < steps; ++s )
      {
         const auto what = pick( 10 );
         if ( what < 2 && !vecs.empty() && readers.size() < 6 )
         {
            auto o = std::make_shared<Open>();
            CompressedVectorNode cv = vecs[pick( vecs.size() )];
            note( "N" + guarded( [&] {
                     std::vector<Column> all;
                     columns( cv.prototype(), "", all );
                     for ( auto &c : all )
                     {
                        if ( pick( 3 ) > 0 || ( o->cols.empty() && &c == &all.back() ) )
                        {
                           o->cols.push_back( c );
                        }
                     }
                     o->n = 1 + pick( pick( 2 ) ? 5 : 150 );
                     std::vector<SourceDestBuffer> b;
                     for ( auto &c : o->cols )
                     {
                        c.size( o->n );
                        b.push_back( c.buffer( *imf, o->n ) );
                     }
                     o->r = std::make_shared<CompressedVectorReader>( cv.reader( b ) );
                     readers.push_back( o );
                  } ) );
         }
         else if ( what < 7 && !readers.empty() )
         {
            const size_t k = pick( readers.size() );
            auto o = readers[k];
            unsigned got = 0;
            const std::string e = guarded( [&] { got = o->r->read(); } );
            note( "R" + e + ":" + std::to_string( got ) );
            for ( size_t i = 0; e == "ok" && i < got && i < o->n; ++i )
            {
               for ( auto &c : o->cols )
               {
                  h = fnv( fnv( h, c.text( i ) ), "|" );
               }
            }
            if ( e != "ok" || got == 0 )
            {
               note( "C" + guarded( [&] { o->r->close(); } ) );
               readers.erase( readers.begin() + static_cast<long>( k ) );
            }
         }
         else if ( !blobs.empty() )
         {
            BlobNode b = blobs[pick( blobs.size() )];
            note( "B" + guarded( [&] {
                     const int64_t n = b.byteCount();
                     int64_t at = static_cast<int64_t>( pick( static_cast<uint64_t>( std::max<int64_t>( 1, n + 1 ) ) ) );
                     int64_t len = static_cast<int64_t>( pick( static_cast<uint64_t>( std::max<int64_t>( 1, n - at + 1 ) ) ) );
                     if ( pick( 8 ) == 0 )
                     {
                        len += 1 + static_cast<int64_t>( pick( 2000 ) );
                     }
                     len = std::min<int64_t>( len, 1000000 );
                     std::vector<uint8_t> bytes( static_cast<size_t>( len ) + 1, 7 );
                     b.read( bytes.data(), at, static_cast<size_t>( len ) );
                     h = fnv( h, std::string( reinterpret_cast<const char *>( bytes.data() ), bytes.size() ) );
                  } ) );
         }
      }
      for ( auto &o : readers )
      {
         note( "C" + guarded( [&] { o->r->close(); } ) );
      }
      note( guarded( [&] { imf->close(); } ) );
   }
   out.str( "open", open );
   out.raw( "log", "[" + log + "]" );
   out.str( "h", hexHash( h ) );
   out.boolean( "intact", mem == nullptr || std::memcmp( mem.get(), copy.data(), copy.size() ) == 0 );
}
