// ImageFile, node and extension commands.
#include "driver.h"

#include <cstdio>
#include <cstring>
#include <sstream>

#include <sys/stat.h>

using namespace e57;

std::map<std::string, std::shared_ptr<ImageFile>> g_files;
std::map<std::string, std::shared_ptr<Node>> g_nodes;
// Memory images for ImageFile( const char *, ... ): kept alive until reset; copy for comparison
struct MemImage
{
   std::unique_ptr<char[]> data;
   std::string copy;
};
static std::map<std::string, MemImage> g_mem;
static std::vector<std::string> g_created;

static ResetHook hook( [] {
   g_nodes.clear();
   g_files.clear();
   g_mem.clear();
} );

struct NoHandle : std::exception
{
};

ImageFile &F( const Args &a, const char *k )
{
   auto it = g_files.find( A( a, k ) );
   if ( it == g_files.end() )
   {
      throw NoHandle();
   }
   return *it->second;
}
Node &N( const Args &a, const char *k )
{
   auto it = g_nodes.find( A( a, k ) );
   if ( it == g_nodes.end() )
   {
      throw NoHandle();
   }
   return *it->second;
}
void putNode( const std::string &h, const Node &n )
{
   g_nodes[h] = std::make_shared<Node>( n );
}

static int policyOf( const Args &a )
{
   return static_cast<int>( Id( a, "policy", 100 ) );
}

CMD( open, "imf.open" )
{
   g_files[A( a, "f" )] = std::make_shared<ImageFile>( A( a, "path" ), A( a, "mode" ), policyOf( a ) );
}

CMD( openbuf, "imf.openbuf" )
{
   FILE *fp = std::fopen( A( a, "path" ).c_str(), "rb" );
   std::string all;
   if ( fp )
   {
      char buf[65536];
      size_t n;
      while ( ( n = std::fread( buf, 1, sizeof buf, fp ) ) > 0 )
      {
         all.append( buf, n );
      }
      std::fclose( fp );
   }
   MemImage &m = g_mem[A( a, "f" )];
   m.data.reset( new char[all.size()] );
   std::memcpy( m.data.get(), all.data(), all.size() );
   m.copy = all;
   g_files[A( a, "f" )] =
      std::make_shared<ImageFile>( m.data.get(), static_cast<uint64_t>( all.size() ), policyOf( a ) );
}

CMD( bufsame, "imf.bufsame" )
{
   MemImage &m = g_mem[A( a, "f" )];
   out.boolean( "v", std::memcmp( m.data.get(), m.copy.data(), m.copy.size() ) == 0 );
}

CMD( close, "imf.close" )
{
   F( a ).close();
}
CMD( cancel, "imf.cancel" )
{
   F( a ).cancel();
}
CMD( drop, "imf.drop" )
{
   g_files.erase( A( a, "f" ) );
}
CMD( dropn, "node.drop" )
{
   g_nodes.erase( A( a, "n" ) );
}
CMD( dropall, "node.dropall" )
{
   g_nodes.clear();
}
CMD( isOpen, "imf.isOpen" )
{
   out.boolean( "v", F( a ).isOpen() );
}
CMD( isWritable, "imf.isWritable" )
{
   out.boolean( "v", F( a ).isWritable() );
}
CMD( fileName, "imf.fileName" )
{
   out.str( "v", pct( F( a ).fileName() ) );
}
CMD( writerCount, "imf.writerCount" )
{
   out.num( "v", F( a ).writerCount() );
}
CMD( readerCount, "imf.readerCount" )
{
   out.num( "v", F( a ).readerCount() );
}
CMD( counts, "imf.counts" )
{
   out.num( "w", F( a ).writerCount() );
   out.num( "rd", F( a ).readerCount() );
}
CMD( root, "imf.root" )
{
   putNode( A( a, "n" ), F( a ).root() );
}
CMD( imfeq, "imf.same" )
{
   out.boolean( "v", F( a ) == F( a, "g" ) );
}

CMD( extadd, "ext.add" )
{
   F( a ).extensionsAdd( A( a, "prefix" ), A( a, "uri" ) );
}
CMD( extcount, "ext.count" )
{
   out.num( "v", static_cast<long long>( F( a ).extensionsCount() ) );
}
CMD( extprefix, "ext.prefix" )
{
   out.str( "v", pct( F( a ).extensionsPrefix( static_cast<size_t>( I( a, "i" ) ) ) ) );
}
CMD( exturi, "ext.uri" )
{
   out.str( "v", pct( F( a ).extensionsUri( static_cast<size_t>( I( a, "i" ) ) ) ) );
}
CMD( extall, "ext.all" )
{
   std::string l;
   for ( size_t i = 0; i < F( a ).extensionsCount(); ++i )
   {
      l += ( l.empty() ? "[" : ",[" ) + jstr( pct( F( a ).extensionsPrefix( i ) ) ) + "," + jstr( pct( F( a ).extensionsUri( i ) ) ) + "]";
   }
   out.raw( "exts", "[" + l + "]" );
}
CMD( extlp, "ext.byPrefix" )
{
   ustring uri = "?";
   const bool found = F( a ).extensionsLookupPrefix( A( a, "prefix" ), uri );
   const bool found2 = F( a ).extensionsLookupPrefix( A( a, "prefix" ) );
   out.str( "found", found == found2 ? ( found ? "yes" : "no" ) : "differ" );
   out.str( "v", found ? pct( uri ) : "" );
}
CMD( extlu, "ext.byUri" )
{
   ustring prefix = "?";
   const bool found = F( a ).extensionsLookupUri( A( a, "uri" ), prefix );
   out.str( "found", found ? "yes" : "no" );
   out.str( "v", found ? pct( prefix ) : "" );
}
CMD( nmext, "nm.isExtended" )
{
   out.boolean( "v", F( a ).isElementNameExtended( A( a, "name" ) ) );
}
CMD( nmparse, "nm.parse" )
{
   ustring p = "?", l = "?";
   F( a ).elementNameParse( A( a, "name" ), p, l );
   out.str( "p", pct( p ) );
   out.str( "l", pct( l ) );
}

// Everything the API says about one name, tried on a fresh structure s of file f.
CMD( nmall, "nm.all" )
{
   ImageFile &imf = F( a );
   const std::string name = A( a, "name" );
   bool ext = false;
   ustring p = "?", l = "?";
   out.str( "ext", guarded( [&] { ext = imf.isElementNameExtended( name ); } ) == "ok" ? ( ext ? "yes" : "no" ) : "err" );
   std::string r = guarded( [&] { imf.elementNameParse( name, p, l ); } );
   out.str( "parse", r );
   out.str( "p", r == "ok" ? pct( p ) : "" );
   out.str( "l", r == "ok" ? pct( l ) : "" );
   StructureNode s( imf );
   r = guarded( [&] { s.set( name, IntegerNode( imf, 1 ) ); } );
   out.str( "set", r );
   bool d = false;
   r = guarded( [&] { d = s.isDefined( name ); } );
   out.str( "def", r == "ok" ? ( d ? "yes" : "no" ) : r );
   r = guarded( [&] { s.get( name ); } );
   out.str( "get", r );
   out.num( "kids", s.childCount() );
   out.str( "kid", s.childCount() > 0 ? pct( s.get( 0 ).elementName() ) : "" );
   int32_t buf[1];
   out.str( "buf", guarded( [&] { SourceDestBuffer b( imf, name, buf, 1 ); } ) );
}

// Look a path up from node n
CMD( nmpath, "nm.path" )
{
   StructureNode s( N( a ) );
   const std::string path = A( a, "path" );
   bool d = false;
   std::string v;
   std::string r = guarded( [&] { d = s.isDefined( path ); } );
   out.str( "def", r == "ok" ? ( d ? "yes" : "no" ) : r );
   r = guarded( [&] { v = s.get( path ).pathName(); } );
   out.str( "get", r );
   out.str( "v", pct( v ) );
}

static const char *typeName( NodeType t )
{
   switch ( t )
   {
      case TypeStructure:
         return "Structure";
      case TypeVector:
         return "Vector";
      case TypeCompressedVector:
         return "CompressedVector";
      case TypeInteger:
         return "Integer";
      case TypeScaledInteger:
         return "ScaledInteger";
      case TypeFloat:
         return "Float";
      case TypeString:
         return "String";
      case TypeBlob:
         return "Blob";
   }
   return "?";
}

CMD( mk, "node.new" )
{
   ImageFile &imf = F( a );
   const std::string t = A( a, "type" );
   const std::string h = A( a, "n" );
   auto i64 = [&]( const char *k ) { return static_cast<int64_t>( I( a, k ) ); };
   if ( t == "Structure" )
   {
      putNode( h, StructureNode( imf ) );
   }
   else if ( t == "Vector" )
   {
      putNode( h, VectorNode( imf, Id( a, "hetero", 0 ) != 0 ) );
   }
   else if ( t == "Integer" )
   {
      if ( a.count( "min" ) )
      {
         putNode( h, IntegerNode( imf, i64( "value" ), i64( "min" ), i64( "max" ) ) );
      }
      else
      {
         putNode( h, IntegerNode( imf, i64( "value" ) ) );
      }
   }
   else if ( t == "ScaledInteger" )
   {
      if ( Ad( a, "ctor", "raw" ) == "scaled" )
      {
         putNode( h, ScaledIntegerNode( imf, D( A( a, "value" ) ), D( A( a, "min" ) ), D( A( a, "max" ) ),
                                        D( A( a, "scale" ) ), D( A( a, "offset" ) ) ) );
      }
      else if ( Ad( a, "ctor", "raw" ) == "int" )
      {
         putNode( h, ScaledIntegerNode( imf, static_cast<int>( i64( "value" ) ), static_cast<int>( i64( "min" ) ),
                                        static_cast<int>( i64( "max" ) ), D( A( a, "scale" ) ),
                                        D( A( a, "offset" ) ) ) );
      }
      else
      {
         putNode( h, ScaledIntegerNode( imf, i64( "value" ), i64( "min" ), i64( "max" ), D( A( a, "scale" ) ),
                                        D( A( a, "offset" ) ) ) );
      }
   }
   else if ( t == "Float" )
   {
      const auto prec = Ad( a, "prec", "double" ) == "single" ? PrecisionSingle : PrecisionDouble;
      if ( a.count( "min" ) )
      {
         putNode( h, FloatNode( imf, D( A( a, "value" ) ), prec, D( A( a, "min" ) ), D( A( a, "max" ) ) ) );
      }
      else
      {
         putNode( h, FloatNode( imf, D( A( a, "value" ) ), prec ) );
      }
   }
   else if ( t == "String" )
   {
      putNode( h, StringNode( imf, A( a, "value" ) ) );
   }
   else if ( t == "Blob" )
   {
      putNode( h, BlobNode( imf, i64( "len" ) ) );
   }
   else if ( t == "CompressedVector" )
   {
      putNode( h, CompressedVectorNode( imf, N( a, "proto" ), VectorNode( N( a, "codecs" ) ) ) );
   }
   else
   {
      throw NoHandle();
   }
}

// All attributes of one node as canonical strings
static void attrs( const Node &n, Json &o )
{
   o.str( "type", typeName( n.type() ) );
   switch ( n.type() )
   {
      case TypeStructure:
         o.num( "count", StructureNode( n ).childCount() );
         break;
      case TypeVector:
         o.num( "count", VectorNode( n ).childCount() );
         o.str( "hetero", VectorNode( n ).allowHeteroChildren() ? "yes" : "no" );
         break;
      case TypeCompressedVector:
         o.num( "count", CompressedVectorNode( n ).childCount() );
         break;
      case TypeInteger:
      {
         IntegerNode i( n );
         o.str( "value", std::to_string( i.value() ) );
         o.str( "min", std::to_string( i.minimum() ) );
         o.str( "max", std::to_string( i.maximum() ) );
         break;
      }
      case TypeScaledInteger:
      {
         ScaledIntegerNode i( n );
         o.str( "value", std::to_string( i.rawValue() ) );
         o.str( "min", std::to_string( i.minimum() ) );
         o.str( "max", std::to_string( i.maximum() ) );
         o.str( "scale", hexd( i.scale() ) );
         o.str( "offset", hexd( i.offset() ) );
         break;
      }
      case TypeFloat:
      {
         FloatNode i( n );
         o.str( "value", hexd( i.value() ) );
         o.str( "min", hexd( i.minimum() ) );
         o.str( "max", hexd( i.maximum() ) );
         o.str( "prec", i.precision() == PrecisionSingle ? "single" : "double" );
         break;
      }
      case TypeString:
         o.str( "value", pct( StringNode( n ).value() ) );
         break;
      case TypeBlob:
         o.str( "len", std::to_string( BlobNode( n ).byteCount() ) );
         break;
   }
}

CMD( attrs, "node.attrs" )
{
   attrs( N( a ), out );
}
CMD( sivals, "node.scaled" )
{
   ScaledIntegerNode i( N( a ) );
   out.str( "svalue", hexd( i.scaledValue() ) );
   out.str( "smin", hexd( i.scaledMinimum() ) );
   out.str( "smax", hexd( i.scaledMaximum() ) );
}
CMD( ntype, "node.type" )
{
   out.str( "v", typeName( N( a ).type() ) );
}
CMD( isRoot, "node.isRoot" )
{
   out.boolean( "v", N( a ).isRoot() );
}
CMD( isAttached, "node.isAttached" )
{
   out.boolean( "v", N( a ).isAttached() );
}
CMD( pathName, "node.pathName" )
{
   out.str( "v", pct( N( a ).pathName() ) );
}
CMD( elementName, "node.elementName" )
{
   out.str( "v", pct( N( a ).elementName() ) );
}
// node identity is reported as the first known handle that is the same node
static std::string handleOf( const Node &n )
{
   for ( auto &kv : g_nodes )
   {
      if ( *kv.second == n )
      {
         return kv.first;
      }
   }
   return "?";
}
CMD( parent, "node.parent" )
{
   out.str( "v", handleOf( N( a ).parent() ) );
}
CMD( dest, "node.file" )
{
   ImageFile f = N( a ).destImageFile();
   std::string v = "?";
   for ( auto &kv : g_files )
   {
      if ( *kv.second == f )
      {
         v = kv.first;
         break;
      }
   }
   out.str( "v", v );
}
CMD( childCount, "node.childCount" )
{
   Node &n = N( a );
   long long c = -1;
   switch ( n.type() )
   {
      case TypeStructure:
         c = StructureNode( n ).childCount();
         break;
      case TypeVector:
         c = VectorNode( n ).childCount();
         break;
      case TypeCompressedVector:
         c = CompressedVectorNode( n ).childCount();
         break;
      default:
         break;
   }
   out.num( "v", c );
}
CMD( isDefined, "node.isDefined" )
{
   Node &n = N( a );
   out.boolean( "v", n.type() == TypeVector ? VectorNode( n ).isDefined( A( a, "path" ) )
                                            : StructureNode( n ).isDefined( A( a, "path" ) ) );
}
static std::string storeFound( const Args &a, const Node &found )
{
   std::string h = handleOf( found );
   if ( h == "?" && a.count( "as" ) )
   {
      putNode( A( a, "as" ), found );
      h = A( a, "as" );
   }
   return h;
}
CMD( getPath, "node.get" )
{
   Node &n = N( a );
   Node found = n.type() == TypeVector ? VectorNode( n ).get( A( a, "path" ) ) : StructureNode( n ).get( A( a, "path" ) );
   out.str( "v", storeFound( a, found ) );
}
CMD( getIndex, "node.getIndex" )
{
   Node &n = N( a );
   Node found = n.type() == TypeVector ? VectorNode( n ).get( I( a, "i" ) ) : StructureNode( n ).get( I( a, "i" ) );
   out.str( "v", storeFound( a, found ) );
}
CMD( proto, "node.prototype" )
{
   out.str( "v", storeFound( a, CompressedVectorNode( N( a ) ).prototype() ) );
}
CMD( codecs, "node.codecs" )
{
   out.str( "v", storeFound( a, CompressedVectorNode( N( a ) ).codecs() ) );
}
CMD( set, "node.set" )
{
   StructureNode( N( a ) ).set( A( a, "path" ), N( a, "c" ) );
}
CMD( append, "node.append" )
{
   VectorNode( N( a ) ).append( N( a, "c" ) );
}
CMD( downcast, "node.downcast" )
{
   Node &n = N( a );
   const std::string t = A( a, "to" );
   if ( t == "Structure" )
   {
      StructureNode x( n );
   }
   else if ( t == "Vector" )
   {
      VectorNode x( n );
   }
   else if ( t == "CompressedVector" )
   {
      CompressedVectorNode x( n );
   }
   else if ( t == "Integer" )
   {
      IntegerNode x( n );
   }
   else if ( t == "ScaledInteger" )
   {
      ScaledIntegerNode x( n );
   }
   else if ( t == "Float" )
   {
      FloatNode x( n );
   }
   else if ( t == "String" )
   {
      StringNode x( n );
   }
   else if ( t == "Blob" )
   {
      BlobNode x( n );
   }
}

// Pre-order listing of a tree
void walk( const Node &n, const std::string &rel, int depth, std::string &list )
{
   Json j;
   j.str( "p", pct( rel ) );
   j.str( "name", pct( n.elementName() ) );
   attrs( n, j );
   if ( !list.empty() )
   {
      list += ",";
   }
   list += "{" + j.body + "}";
   if ( depth > 40 )
   {
      return;
   }
   switch ( n.type() )
   {
      case TypeStructure:
      {
         StructureNode s( n );
         for ( int64_t i = 0; i < s.childCount(); ++i )
         {
            Node c = s.get( i );
            walk( c, rel + "/" + c.elementName(), depth + 1, list );
         }
         break;
      }
      case TypeVector:
      {
         VectorNode s( n );
         for ( int64_t i = 0; i < s.childCount(); ++i )
         {
            Node c = s.get( i );
            walk( c, rel + "/" + c.elementName(), depth + 1, list );
         }
         break;
      }
      case TypeCompressedVector:
      {
         CompressedVectorNode c( n );
         walk( c.prototype(), rel + "/@prototype", depth + 1, list );
         walk( c.codecs(), rel + "/@codecs", depth + 1, list );
         break;
      }
      default:
         break;
   }
}
// The same question put to the node and to the node as its own type
template <class Q> static std::string both( const Node &n, const Q &q )
{
   const std::string v = q( n );
   std::string t;
   switch ( n.type() )
   {
      case TypeStructure:
         t = q( StructureNode( n ) );
         break;
      case TypeVector:
         t = q( VectorNode( n ) );
         break;
      case TypeCompressedVector:
         t = q( CompressedVectorNode( n ) );
         break;
      case TypeInteger:
         t = q( IntegerNode( n ) );
         break;
      case TypeScaledInteger:
         t = q( ScaledIntegerNode( n ) );
         break;
      case TypeFloat:
         t = q( FloatNode( n ) );
         break;
      case TypeString:
         t = q( StringNode( n ) );
         break;
      case TypeBlob:
         t = q( BlobNode( n ) );
         break;
   }
   return v == t ? v : v + " or " + t;
}
// Everything the API says about every known node, errors included
CMD( forest, "node.forest" )
{
   std::string list;
   for ( auto &kv : g_nodes )
   {
      Node &n = *kv.second;
      Json j;
      auto say = [&]( const char *k, const std::function<std::string()> &f ) {
         std::string v;
         const std::string r = guarded( [&] { v = f(); } );
         j.str( k, r == "ok" ? v : r );
      };
      j.str( "n", kv.first );
      j.str( "t", typeName( n.type() ) );
      say( "root", [&] { return both( n, []( const auto &x ) -> std::string { return x.isRoot() ? "yes" : "no"; } ); } );
      say( "att", [&] { return both( n, []( const auto &x ) -> std::string { return x.isAttached() ? "yes" : "no"; } ); } );
      say( "path", [&] { return both( n, []( const auto &x ) { return pct( x.pathName() ); } ); } );
      say( "name", [&] { return both( n, []( const auto &x ) { return pct( x.elementName() ); } ); } );
      say( "parent", [&] { return both( n, []( const auto &x ) { return handleOf( x.parent() ); } ); } );
      say( "file", [&] {
         return both( n, []( const auto &x ) {
            ImageFile f = x.destImageFile();
            for ( auto &fk : g_files )
            {
               if ( *fk.second == f )
               {
                  return fk.first;
               }
            }
            return std::string( "?" );
         } );
      } );
      // the library's own consistency checks agree with the tree
      say( "inv", [&]() -> std::string {
         Node m = n;
         if ( m.destImageFile().isOpen() && m.isRoot() )
         {
            m.checkInvariant();
         }
         return "ok";
      } );
      std::string kids;
      auto add = [&]( const Node &c ) {
         kids += kids.empty() ? "" : ",";
         kids += jstr( handleOf( c ) );
      };
      say( "count", [&] {
         long long c = -1;
         if ( n.type() == TypeStructure )
         {
            StructureNode s( n );
            c = s.childCount();
            for ( int64_t i = 0; i < c; ++i )
            {
               add( s.get( i ) );
            }
         }
         else if ( n.type() == TypeVector )
         {
            VectorNode s( n );
            c = s.childCount();
            for ( int64_t i = 0; i < c; ++i )
            {
               add( s.get( i ) );
            }
         }
         else if ( n.type() == TypeCompressedVector )
         {
            CompressedVectorNode s( n );
            c = s.childCount();
            add( s.prototype() );
            add( s.codecs() );
         }
         return std::to_string( c );
      } );
      j.raw( "kids", "[" + kids + "]" );
      list += list.empty() ? "" : ",";
      list += "{" + j.body + "}";
   }
   out.raw( "nodes", "[" + list + "]" );
}
CMD( dump, "node.dump" )
{
   std::string list;
   walk( N( a ), "", 0, list );
   out.raw( "tree", "[" + list + "]" );
}
// The library's own consistency checks and dump must not fail on a valid tree
CMD( invariant, "node.invariant" )
{
   N( a ).checkInvariant();
   std::ostringstream ss;
   N( a ).dump( 0, ss );
   out.boolean( "v", !ss.str().empty() );
}
CMD( imfinvariant, "imf.invariant" )
{
   F( a ).checkInvariant();
   std::ostringstream ss;
   F( a ).dump( 0, ss );
   out.boolean( "v", !ss.str().empty() );
}
