// Life of a file: standard content, and everything that can be asked of an open or closed file.
#include "driver.h"

#include <cstdio>
#include <cstring>

using namespace e57;

CMD( copy, "imf.copy" )
{
   g_files[A( a, "g" )] = std::make_shared<ImageFile>( F( a ) );
}

static const int64_t kRecords = 7;

// Fill a new file with one node of each type; tag makes it distinguishable
CMD( fill, "life.fill" )
{
   ImageFile imf = F( a );
   const int64_t tag = I( a, "tag" );
   imf.extensionsAdd( "e", "urn:e" );
   StructureNode root = imf.root();
   root.set( "tag", IntegerNode( imf, tag, 0, 1000000 ) );
   root.set( "sc", ScaledIntegerNode( imf, 5, 0, 10, 0.5, 1.0 ) );
   root.set( "fl", FloatNode( imf, 1.5, PrecisionDouble, -2.0, 2.0 ) );
   root.set( "str", StringNode( imf, "tag" + std::to_string( tag ) ) );
   StructureNode st( imf );
   root.set( "st", st );
   st.set( "e:x", IntegerNode( imf, 1 ) );
   VectorNode v( imf, true );
   root.set( "v", v );
   v.append( IntegerNode( imf, 2 ) );
   BlobNode b( imf, 100 );
   root.set( "b", b );
   std::vector<uint8_t> bytes( 100 );
   for ( size_t i = 0; i < bytes.size(); ++i )
   {
      bytes[i] = static_cast<uint8_t>( tag * 7 + static_cast<int64_t>( i ) );
   }
   b.write( bytes.data(), 0, bytes.size() );
   StructureNode proto( imf );
   proto.set( "k", IntegerNode( imf, 0, 0, 2000000 ) );
   VectorNode codecs( imf, true );
   CompressedVectorNode cv( imf, proto, codecs );
   root.set( "cv", cv );
   std::vector<int32_t> k( kRecords );
   for ( size_t i = 0; i < k.size(); ++i )
   {
      k[i] = static_cast<int32_t>( tag + static_cast<int64_t>( i ) );
   }
   std::vector<SourceDestBuffer> sb{ SourceDestBuffer( imf, "k", k.data(), k.size() ) };
   CompressedVectorWriter w = cv.writer( sb );
   w.write( k.size() );
   w.close();
}

// The tag of a file filled by life.fill, -1 if something is missing or different
CMD( content, "life.content" )
{
   ImageFile imf = F( a );
   StructureNode root = imf.root();
   const int64_t tag = IntegerNode( root.get( "tag" ) ).value();
   bool ok = StringNode( root.get( "str" ) ).value() == "tag" + std::to_string( tag );
   ok = ok && ScaledIntegerNode( root.get( "sc" ) ).rawValue() == 5;
   ok = ok && FloatNode( root.get( "fl" ) ).value() == 1.5;
   ok = ok && IntegerNode( root.get( "/st/e:x" ) ).value() == 1;
   ok = ok && IntegerNode( root.get( "v/0" ) ).value() == 2;
   std::vector<uint8_t> bytes( 100 );
   BlobNode b( root.get( "b" ) );
   b.read( bytes.data(), 0, bytes.size() );
   for ( size_t i = 0; i < bytes.size(); ++i )
   {
      ok = ok && bytes[i] == static_cast<uint8_t>( tag * 7 + static_cast<int64_t>( i ) );
   }
   CompressedVectorNode cv( root.get( "cv" ) );
   std::vector<int32_t> k( 20 );
   std::vector<SourceDestBuffer> sb{ SourceDestBuffer( imf, "k", k.data(), k.size() ) };
   CompressedVectorReader r = cv.reader( sb );
   ok = ok && cv.childCount() == kRecords && r.read() == static_cast<unsigned>( kRecords );
   r.close();
   for ( size_t i = 0; i < static_cast<size_t>( kRecords ); ++i )
   {
      ok = ok && k[i] == static_cast<int32_t>( tag + static_cast<int64_t>( i ) );
   }
   out.num( "v", ok ? tag : -1 );
}

// Node handles of the standard content
CMD( handles, "life.handles" )
{
   ImageFile imf = F( a );
   const std::string h = A( a, "n" );
   StructureNode root = imf.root();
   putNode( h + ".root", root );
   for ( const char *p : { "tag", "sc", "fl", "str", "st", "v", "b", "cv" } )
   {
      putNode( h + "." + p, root.get( p ) );
   }
}

CMD( probe, "life.probe" )
{
   ImageFile imf = F( a );
   const std::string h = A( a, "n" );
   const std::string fresh = A( a, "fresh" );
   auto node = [&]( const char *p ) {
      Args x{ { "n", h + "." + p } };
      return N( x );
   };
   Node nroot = node( "root" ), ntag = node( "tag" ), nsc = node( "sc" ), nfl = node( "fl" ), nstr = node( "str" );
   Node nst = node( "st" ), nv = node( "v" ), nb = node( "b" ), ncv = node( "cv" );
   StructureNode root( nroot ), st( nst );
   IntegerNode tag( ntag );
   ScaledIntegerNode sc( nsc );
   FloatNode fl( nfl );
   StringNode str( nstr );
   VectorNode v( nv );
   BlobNode b( nb );
   CompressedVectorNode cv( ncv );

   std::string q, m, u;
   auto add = [&]( std::string &l, const char *name, const std::function<void()> &f ) {
      l += ( l.empty() ? "[" : ",[" ) + jstr( name ) + "," + jstr( guarded( f ) ) + "]";
   };
   // queries that need the file
   uint8_t byte = 0;
   int32_t k[4];
   ustring s1, s2;
   add( q, "root", [&] { imf.root(); } );
   add( q, "ext.count", [&] { imf.extensionsCount(); } );
   add( q, "ext.prefix", [&] { imf.extensionsPrefix( 0 ); } );
   add( q, "ext.uri", [&] { imf.extensionsUri( 0 ); } );
   add( q, "ext.byPrefix", [&] { imf.extensionsLookupPrefix( "e", s1 ); } );
   add( q, "ext.byPrefix1", [&] { imf.extensionsLookupPrefix( "e" ); } );
   add( q, "ext.byUri", [&] { imf.extensionsLookupUri( "urn:e", s1 ); } );
   for ( Node *n : { &nroot, &ntag, &nsc, &nfl, &nstr, &nst, &nv, &nb, &ncv } )
   {
      add( q, "isRoot", [&] { n->isRoot(); } );
      add( q, "parent", [&] { n->parent(); } );
      add( q, "pathName", [&] { n->pathName(); } );
      add( q, "elementName", [&] { n->elementName(); } );
      add( q, "isAttached", [&] { n->isAttached(); } );
   }
   add( q, "S.childCount", [&] { root.childCount(); } );
   add( q, "S.isDefined", [&] { root.isDefined( "tag" ); } );
   add( q, "S.isDefined.no", [&] { root.isDefined( "nothing" ); } );
   add( q, "S.get.i", [&] { root.get( 0 ); } );
   add( q, "S.get.path", [&] { root.get( "st/e:x" ); } );
   add( q, "S.get.abs", [&] { st.get( "/tag" ); } );
   add( q, "V.childCount", [&] { v.childCount(); } );
   add( q, "V.isDefined", [&] { v.isDefined( "0" ); } );
   add( q, "V.get.i", [&] { v.get( 0 ); } );
   add( q, "V.get.path", [&] { v.get( "0" ); } );
   add( q, "V.hetero", [&] { v.allowHeteroChildren(); } );
   add( q, "CV.childCount", [&] { cv.childCount(); } );
   add( q, "CV.prototype", [&] { cv.prototype(); } );
   add( q, "CV.codecs", [&] { cv.codecs(); } );
   add( q, "I.value", [&] { tag.value(); } );
   add( q, "I.minimum", [&] { tag.minimum(); } );
   add( q, "I.maximum", [&] { tag.maximum(); } );
   add( q, "SI.raw", [&] { sc.rawValue(); } );
   add( q, "SI.scaled", [&] { sc.scaledValue(); } );
   add( q, "SI.min", [&] { sc.minimum(); } );
   add( q, "SI.smin", [&] { sc.scaledMinimum(); } );
   add( q, "SI.max", [&] { sc.maximum(); } );
   add( q, "SI.smax", [&] { sc.scaledMaximum(); } );
   add( q, "SI.scale", [&] { sc.scale(); } );
   add( q, "SI.offset", [&] { sc.offset(); } );
   add( q, "F.value", [&] { fl.value(); } );
   add( q, "F.precision", [&] { fl.precision(); } );
   add( q, "F.min", [&] { fl.minimum(); } );
   add( q, "F.max", [&] { fl.maximum(); } );
   add( q, "Str.value", [&] { str.value(); } );
   add( q, "B.byteCount", [&] { b.byteCount(); } );
   add( q, "B.read", [&] { b.read( &byte, 3, 1 ); } );
   add( q, "SDB", [&] { SourceDestBuffer x( imf, "k", k, 4 ); } );
   add( q, "CV.reader", [&] {
      std::vector<SourceDestBuffer> sb{ SourceDestBuffer( imf, "k", k, 4 ) };
      CompressedVectorReader r = cv.reader( sb );
      r.read();
      r.close();
   } );
   add( q, "new.Structure", [&] { StructureNode x( imf ); } );
   add( q, "new.Vector", [&] { VectorNode x( imf, false ); } );
   add( q, "new.Integer", [&] { IntegerNode x( imf, 1 ); } );
   add( q, "new.Scaled", [&] { ScaledIntegerNode x( imf, 1, 0, 2 ); } );
   add( q, "new.Scaled2", [&] { ScaledIntegerNode x( imf, 1.0, 0.0, 2.0 ); } );
   add( q, "new.Float", [&] { FloatNode x( imf, 1.0 ); } );
   add( q, "new.String", [&] { StringNode x( imf, "x" ); } );

   // operations that change the file; st and v have room for one child per probe
   if ( Ad( a, "mods", "1" ) == "1" )
   {
      add( m, "ext.add", [&] { imf.extensionsAdd( fresh, "urn:" + fresh ); } );
      add( m, "S.set", [&] { st.set( fresh, StructureNode( imf ) ); } );
      add( m, "V.append", [&] { v.append( StructureNode( imf ) ); } );
      add( m, "B.write", [&] {
         uint8_t same = 0;
         b.read( &same, 5, 1 );
         b.write( &same, 5, 1 );
      } );
      add( m, "new.Blob", [&] { BlobNode x( imf, 10 ); } );
      // a second writer is refused in write mode because the vector has records
      add( m, "CV.writer", [&] {
         std::vector<SourceDestBuffer> sb{ SourceDestBuffer( imf, "k", k, 4 ) };
         if ( imf.isWritable() && imf.isOpen() )
         {
            StructureNode proto( imf );
            proto.set( "k", IntegerNode( imf, 0, 0, 9 ) );
            CompressedVectorNode c( imf, proto, VectorNode( imf, true ) );
            st.set( fresh + "cv", c );
            k[0] = 1;
            CompressedVectorWriter w = c.writer( sb );
            w.write( 1 );
            w.close();
         }
         else
         {
            CompressedVectorWriter w = cv.writer( sb );
         }
      } );
   }
   // never refused
   add( u, "isOpen", [&] { imf.isOpen(); } );
   add( u, "isWritable", [&] { imf.isWritable(); } );
   add( u, "fileName", [&] { imf.fileName(); } );
   add( u, "writerCount", [&] { imf.writerCount(); } );
   add( u, "readerCount", [&] { imf.readerCount(); } );
   add( u, "isElementNameExtended", [&] { imf.isElementNameExtended( "a:b" ); } );
   add( u, "elementNameParse", [&] { imf.elementNameParse( "a:b", s1, s2 ); } );
   for ( Node *n : { &nroot, &ntag, &nsc, &nfl, &nstr, &nst, &nv, &nb, &ncv } )
   {
      add( u, "type", [&] { n->type(); } );
      add( u, "destImageFile", [&] { n->destImageFile(); } );
   }
   out.raw( "q", "[" + q + "]" );
   out.raw( "m", "[" + m + "]" );
   out.raw( "u", "[" + u + "]" );
   out.boolean( "open", imf.isOpen() );
   out.boolean( "wr", imf.isWritable() );
   out.str( "name", pct( imf.fileName() ) );
   out.num( "wc", imf.writerCount() );
   out.num( "rc", imf.readerCount() );
   out.boolean( "same", nroot.destImageFile() == imf );
}
