// The Simple API: scan headers, points, line groups and images.
#include "driver.h"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <set>

#include "E57SimpleData.h"
#include "E57SimpleReader.h"
#include "E57SimpleWriter.h"

using namespace e57;

namespace
{
   // ---- names of the members of headers

   template <typename V> void visitDate( V &v, const std::string &p, DateTime &d )
   {
      v( p + ".v", d.dateTimeValue );
      v( p + ".a", d.isAtomicClockReferenced );
   }
   template <typename V> void visitPose( V &v, RigidBodyTransform &p )
   {
      v( "pose.rw", p.rotation.w );
      v( "pose.rx", p.rotation.x );
      v( "pose.ry", p.rotation.y );
      v( "pose.rz", p.rotation.z );
      v( "pose.tx", p.translation.x );
      v( "pose.ty", p.translation.y );
      v( "pose.tz", p.translation.z );
   }

   template <typename V> void visit( V &v, Data3D &h )
   {
      v( "name", h.name );
      v( "guid", h.guid );
      v( "description", h.description );
      v( "sensorVendor", h.sensorVendor );
      v( "sensorModel", h.sensorModel );
      v( "sensorSerialNumber", h.sensorSerialNumber );
      v( "sensorHardwareVersion", h.sensorHardwareVersion );
      v( "sensorSoftwareVersion", h.sensorSoftwareVersion );
      v( "sensorFirmwareVersion", h.sensorFirmwareVersion );
      v( "originalGuids", h.originalGuids );
      v( "temperature", h.temperature );
      v( "relativeHumidity", h.relativeHumidity );
      v( "atmosphericPressure", h.atmosphericPressure );
      visitDate( v, "start", h.acquisitionStart );
      visitDate( v, "end", h.acquisitionEnd );
      visitPose( v, h.pose );
      v( "ib.rowMin", h.indexBounds.rowMinimum );
      v( "ib.rowMax", h.indexBounds.rowMaximum );
      v( "ib.colMin", h.indexBounds.columnMinimum );
      v( "ib.colMax", h.indexBounds.columnMaximum );
      v( "ib.retMin", h.indexBounds.returnMinimum );
      v( "ib.retMax", h.indexBounds.returnMaximum );
      v( "cb.xMin", h.cartesianBounds.xMinimum );
      v( "cb.xMax", h.cartesianBounds.xMaximum );
      v( "cb.yMin", h.cartesianBounds.yMinimum );
      v( "cb.yMax", h.cartesianBounds.yMaximum );
      v( "cb.zMin", h.cartesianBounds.zMinimum );
      v( "cb.zMax", h.cartesianBounds.zMaximum );
      v( "sb.rMin", h.sphericalBounds.rangeMinimum );
      v( "sb.rMax", h.sphericalBounds.rangeMaximum );
      v( "sb.eMin", h.sphericalBounds.elevationMinimum );
      v( "sb.eMax", h.sphericalBounds.elevationMaximum );
      v( "sb.aStart", h.sphericalBounds.azimuthStart );
      v( "sb.aEnd", h.sphericalBounds.azimuthEnd );
      v( "il.min", h.intensityLimits.intensityMinimum );
      v( "il.max", h.intensityLimits.intensityMaximum );
      v( "cl.rMin", h.colorLimits.colorRedMinimum );
      v( "cl.rMax", h.colorLimits.colorRedMaximum );
      v( "cl.gMin", h.colorLimits.colorGreenMinimum );
      v( "cl.gMax", h.colorLimits.colorGreenMaximum );
      v( "cl.bMin", h.colorLimits.colorBlueMinimum );
      v( "cl.bMax", h.colorLimits.colorBlueMaximum );
      v( "grp.id", h.pointGroupingSchemes.groupingByLine.idElementName );
      v( "grp.groups", h.pointGroupingSchemes.groupingByLine.groupsSize );
      v( "grp.count", h.pointGroupingSchemes.groupingByLine.pointCountSize );
      auto &f = h.pointFields;
      v( "f.x", f.cartesianXField );
      v( "f.y", f.cartesianYField );
      v( "f.z", f.cartesianZField );
      v( "f.cinv", f.cartesianInvalidStateField );
      v( "f.r", f.sphericalRangeField );
      v( "f.az", f.sphericalAzimuthField );
      v( "f.el", f.sphericalElevationField );
      v( "f.sinv", f.sphericalInvalidStateField );
      v( "range.min", f.pointRangeMinimum );
      v( "range.max", f.pointRangeMaximum );
      v( "range.type", f.pointRangeNodeType );
      v( "range.scale", f.pointRangeScale );
      v( "angle.min", f.angleMinimum );
      v( "angle.max", f.angleMaximum );
      v( "angle.type", f.angleNodeType );
      v( "angle.scale", f.angleScale );
      v( "f.row", f.rowIndexField );
      v( "rowMax", f.rowIndexMaximum );
      v( "f.col", f.columnIndexField );
      v( "colMax", f.columnIndexMaximum );
      v( "f.ri", f.returnIndexField );
      v( "f.rc", f.returnCountField );
      v( "retMax", f.returnMaximum );
      v( "f.ts", f.timeStampField );
      v( "f.tsinv", f.isTimeStampInvalidField );
      v( "time.min", f.timeMinimum );
      v( "time.max", f.timeMaximum );
      v( "time.type", f.timeNodeType );
      v( "time.scale", f.timeScale );
      v( "f.in", f.intensityField );
      v( "f.ininv", f.isIntensityInvalidField );
      v( "int.type", f.intensityNodeType );
      v( "int.scale", f.intensityScale );
      v( "f.red", f.colorRedField );
      v( "f.green", f.colorGreenField );
      v( "f.blue", f.colorBlueField );
      v( "f.colinv", f.isColorInvalidField );
      v( "f.nx", f.normalXField );
      v( "f.ny", f.normalYField );
      v( "f.nz", f.normalZField );
      v( "pointCount", h.pointCount );
   }

   template <typename V, typename R> void visitRep( V &v, const std::string &p, R &r )
   {
      v( p + ".jpeg", r.jpegImageSize );
      v( p + ".png", r.pngImageSize );
      v( p + ".mask", r.imageMaskSize );
      v( p + ".width", r.imageWidth );
      v( p + ".height", r.imageHeight );
   }
   template <typename V> void visit( V &v, Image2D &m )
   {
      v( "name", m.name );
      v( "guid", m.guid );
      v( "description", m.description );
      visitDate( v, "time", m.acquisitionDateTime );
      v( "associatedData3DGuid", m.associatedData3DGuid );
      v( "sensorVendor", m.sensorVendor );
      v( "sensorModel", m.sensorModel );
      v( "sensorSerialNumber", m.sensorSerialNumber );
      visitPose( v, m.pose );
      visitRep( v, "vis", m.visualReferenceRepresentation );
      visitRep( v, "pin", m.pinholeRepresentation );
      v( "pin.focal", m.pinholeRepresentation.focalLength );
      v( "pin.pw", m.pinholeRepresentation.pixelWidth );
      v( "pin.ph", m.pinholeRepresentation.pixelHeight );
      v( "pin.px", m.pinholeRepresentation.principalPointX );
      v( "pin.py", m.pinholeRepresentation.principalPointY );
      visitRep( v, "sph", m.sphericalRepresentation );
      v( "sph.pw", m.sphericalRepresentation.pixelWidth );
      v( "sph.ph", m.sphericalRepresentation.pixelHeight );
      visitRep( v, "cyl", m.cylindricalRepresentation );
      v( "cyl.pw", m.cylindricalRepresentation.pixelWidth );
      v( "cyl.ph", m.cylindricalRepresentation.pixelHeight );
      v( "cyl.radius", m.cylindricalRepresentation.radius );
      v( "cyl.py", m.cylindricalRepresentation.principalPointY );
      bool dist = m.pinholeCameraDistortionExt != nullptr;
      v( "dist", dist );
      if ( dist && !m.pinholeCameraDistortionExt )
      {
         m.pinholeCameraDistortionExt.reset( new Extension::PinholeCameraDistortion );
      }
      Extension::PinholeCameraDistortion none;
      auto &d = m.pinholeCameraDistortionExt ? *m.pinholeCameraDistortionExt : none;
      v( "dist.number", d.cameraNumber );
      v( "dist.type", d.type );
      v( "dist.k1", d.CV_K1 );
      v( "dist.k2", d.CV_K2 );
      v( "dist.k3", d.CV_K3 );
      v( "dist.k4", d.CV_K4 );
      v( "dist.k5", d.CV_K5 );
      v( "dist.k6", d.CV_K6 );
      v( "dist.p1", d.CV_P1 );
      v( "dist.p2", d.CV_P2 );
      v( "dist.cx", d.CV_CX );
      v( "dist.cy", d.CV_CY );
      v( "dist.fx", d.CV_FX );
      v( "dist.fy", d.CV_FY );
      v( "dist.height", d.CV_HEIGHT );
      v( "dist.width", d.CV_WIDTH );
   }

   const char *typeName( NumericalNodeType t )
   {
      switch ( t )
      {
         case NumericalNodeType::Integer:
            return "int";
         case NumericalNodeType::ScaledInteger:
            return "scaled";
         case NumericalNodeType::Float:
            return "float";
         case NumericalNodeType::Double:
            return "double";
      }
      return "?";
   }

   // sets the members named in the arguments
   struct Setter
   {
      const Args &a;
      template <typename T> void operator()( const std::string &k, T &x )
      {
         auto it = a.find( k );
         if ( it != a.end() )
         {
            put( x, it->second );
         }
      }
      void put( std::string &x, const std::string &s )
      {
         x = s;
      }
      void put( double &x, const std::string &s )
      {
         x = D( s );
      }
      void put( float &x, const std::string &s )
      {
         x = static_cast<float>( D( s ) );
      }
      void put( bool &x, const std::string &s )
      {
         x = s == "1";
      }
      void put( NumericalNodeType &x, const std::string &s )
      {
         x = s == "int"      ? NumericalNodeType::Integer
             : s == "scaled" ? NumericalNodeType::ScaledInteger
             : s == "float"  ? NumericalNodeType::Float
                             : NumericalNodeType::Double;
      }
      void put( std::vector<std::string> &x, const std::string &s )
      {
         x.clear();
         for ( auto &p : split( s, ',' ) )
         {
            x.push_back( p == "-" ? std::string() : p );
         }
      }
      template <typename T> void put( T &x, const std::string &s )
      {
         x = static_cast<T>( std::strtoll( s.c_str(), nullptr, 10 ) );
      }
   };

   // all members as text
   struct Getter
   {
      std::string o;
      template <typename T> void operator()( const std::string &k, T &x )
      {
         o += ( o.empty() ? "" : "," ) + jstr( k ) + ":" + text( x );
      }
      static std::string text( const std::string &s )
      {
         return jstr( pct( s ) );
      }
      static std::string text( double x )
      {
         return jstr( hexd( x == 0 ? 0.0 : x ) );
      }
      static std::string text( float x )
      {
         return text( static_cast<double>( x ) );
      }
      static std::string text( bool x )
      {
         return x ? "\"1\"" : "\"0\"";
      }
      static std::string text( NumericalNodeType t )
      {
         return jstr( typeName( t ) );
      }
      static std::string text( const std::vector<std::string> &x )
      {
         std::string s;
         for ( auto &p : x )
         {
            s += ( s.empty() ? "" : "," ) + ( p.empty() ? std::string( "-" ) : pct( p ) );
         }
         return jstr( s );
      }
      template <typename T> static std::string text( T x )
      {
         return jstr( std::to_string( static_cast<long long>( x ) ) );
      }
   };
   template <typename H> std::string asJson( H &h )
   {
      Getter g;
      visit( g, h );
      return "{" + g.o + "}";
   }

   // ---- points

   template <typename V, typename P> void visitPoints( V &v, P &b )
   {
      v( "x", b.cartesianX );
      v( "y", b.cartesianY );
      v( "z", b.cartesianZ );
      v( "cinv", b.cartesianInvalidState );
      v( "in", b.intensity );
      v( "ininv", b.isIntensityInvalid );
      v( "red", b.colorRed );
      v( "green", b.colorGreen );
      v( "blue", b.colorBlue );
      v( "colinv", b.isColorInvalid );
      v( "r", b.sphericalRange );
      v( "az", b.sphericalAzimuth );
      v( "el", b.sphericalElevation );
      v( "sinv", b.sphericalInvalidState );
      v( "row", b.rowIndex );
      v( "col", b.columnIndex );
      v( "ri", b.returnIndex );
      v( "rc", b.returnCount );
      v( "ts", b.timeStamp );
      v( "tsinv", b.isTimeStampInvalid );
      v( "nx", b.normalX );
      v( "ny", b.normalY );
      v( "nz", b.normalZ );
   }

   using Column = std::vector<double>;

   // user-provided buffers for the named fields
   template <typename C> struct Buffers
   {
      std::unique_ptr<Data3DPointsData_t<C>> own; // allocated by the library
      Data3DPointsData_t<C> user;
      std::vector<std::shared_ptr<void>> hold;
      Data3DPointsData_t<C> &get()
      {
         return own ? *own : user;
      }
      struct Alloc
      {
         Buffers &b;
         const std::set<std::string> &names;
         size_t n;
         template <typename T> void operator()( const char *k, T *&p )
         {
            if ( !names.count( k ) )
            {
               return;
            }
            p = new T[n];
            std::memset( static_cast<void *>( p ), 0x5a, n * sizeof( T ) );
            T *q = p;
            b.hold.emplace_back( static_cast<void *>( q ), []( void *x ) { delete[] static_cast<T *>( x ); } );
         }
      };
      void alloc( const std::set<std::string> &names, size_t n )
      {
         Alloc a{ *this, names, n };
         visitPoints( a, user );
      }
   };
   // a column -> buffer at [0, n), values from position 'from'
   struct Load
   {
      std::map<std::string, Column> &cols;
      size_t from;
      size_t n;
      template <typename T> void operator()( const char *k, T *&p )
      {
         auto it = cols.find( k );
         if ( p == nullptr || it == cols.end() )
         {
            return;
         }
         for ( size_t i = 0; i < n; ++i )
         {
            p[i] = static_cast<T>( it->second[from + i] );
         }
      }
   };
   // what the element type of a buffer makes of a value
   struct Narrow
   {
      std::map<std::string, Column> &cols;
      template <typename T> void operator()( const char *k, T *& )
      {
         auto it = cols.find( k );
         if ( it != cols.end() )
         {
            for ( double &x : it->second )
            {
               x = static_cast<double>( static_cast<T>( x ) );
            }
         }
      }
   };
   struct Save
   {
      std::map<std::string, Column> &cols;
      size_t n;
      template <typename T> void operator()( const char *k, T *&p )
      {
         if ( p == nullptr )
         {
            return;
         }
         Column &c = cols[k];
         for ( size_t i = 0; i < n; ++i )
         {
            c.push_back( static_cast<double>( p[i] ) );
         }
      }
   };
   struct Present
   {
      std::string o;
      template <typename T> void operator()( const char *k, T *&p )
      {
         if ( p != nullptr )
         {
            o += ( o.empty() ? "" : "," ) + jstr( k );
         }
      }
   };

   struct Points
   {
      bool dbl = false;
      size_t n = 0;
      std::map<std::string, Column> cols;
      Buffers<float> f;
      Buffers<double> d;
   };

   std::map<std::string, std::shared_ptr<Writer>> g_sw;
   std::map<std::string, std::shared_ptr<Reader>> g_sr;
   std::map<std::string, std::shared_ptr<Data3D>> g_sh;
   std::map<std::string, std::shared_ptr<Image2D>> g_im;
   std::map<std::string, std::shared_ptr<Points>> g_sp;

   template <typename M> typename M::mapped_type::element_type &at( M &m, const Args &a, const char *k )
   {
      return *m.at( A( a, k ) );
   }

   std::set<std::string> names( const Args &a, const char *k )
   {
      std::set<std::string> s;
      for ( auto &p : split( Ad( a, k, "" ), ',' ) )
      {
         if ( !p.empty() )
         {
            s.insert( p );
         }
      }
      return s;
   }

   ResetHook hook( [] {
      g_sw.clear();
      g_sr.clear();
      g_sh.clear();
      g_im.clear();
      g_sp.clear();
   } );
}

// ---------------------------------------------------------------------------------------- headers

CMD( shset, "sh.set" )
{
   auto &p = g_sh[A( a, "h" )];
   if ( !p || Ad( a, "fresh", "" ) == "1" )
   {
      p = std::make_shared<Data3D>();
   }
   Setter s{ a };
   visit( s, *p );
}
CMD( shget, "sh.get" )
{
   out.raw( "v", asJson( at( g_sh, a, "h" ) ) );
}
CMD( imset, "im.set" )
{
   auto &p = g_im[A( a, "m" )];
   if ( !p || Ad( a, "fresh", "" ) == "1" )
   {
      p = std::make_shared<Image2D>();
   }
   Setter s{ a };
   visit( s, *p );
}
CMD( imget, "im.get" )
{
   out.raw( "v", asJson( at( g_im, a, "m" ) ) );
}

// ----------------------------------------------------------------------------------------- points

// auto=1: buffers are allocated by the library for the fields of header h
// otherwise: user buffers for the named fields
CMD( spnew, "sp.new" )
{
   auto p = std::make_shared<Points>();
   p->dbl = A( a, "kind" ) == "double";
   auto &h = at( g_sh, a, "h" );
   p->n = h.pointCount;
   if ( Ad( a, "auto", "" ) == "1" )
   {
      if ( p->dbl )
      {
         p->d.own.reset( new Data3DPointsDouble( h ) );
      }
      else
      {
         p->f.own.reset( new Data3DPointsFloat( h ) );
      }
   }
   else if ( p->dbl )
   {
      p->d.alloc( names( a, "fields" ), p->n );
   }
   else
   {
      p->f.alloc( names( a, "fields" ), p->n );
   }
   Present v;
   if ( p->dbl )
   {
      visitPoints( v, p->d.get() );
   }
   else
   {
      visitPoints( v, p->f.get() );
   }
   out.raw( "fields", "[" + v.o + "]" );
   g_sp[A( a, "p" )] = p;
}
// values lo + k * step, k in 0..steps; steps=0: lo..hi evenly distributed
CMD( spfill, "sp.fill" )
{
   auto &p = at( g_sp, a, "p" );
   const double lo = D( A( a, "lo" ) );
   const double step = D( Ad( a, "step", "0" ) );
   const double hi = D( Ad( a, "hi", "0" ) );
   const uint64_t steps = static_cast<uint64_t>( Id( a, "steps", 0 ) );
   const uint64_t seed = static_cast<uint64_t>( I( a, "seed" ) );
   Column c( p.n );
   for ( size_t i = 0; i < p.n; ++i )
   {
      const uint64_t r = mix64( seed * 0x100000001b3ULL + mix64( i ) );
      if ( steps > 0 )
      {
         const uint64_t k = r % 16 == 0 ? 0 : r % 16 == 1 ? steps : ( r >> 8 ) % ( steps + 1 );
         c[i] = lo + step * static_cast<double>( k );
      }
      else
      {
         c[i] = std::min( hi, lo + ( hi - lo ) * ( static_cast<double>( r >> 11 ) / 9007199254740992.0 ) );
      }
   }
   std::map<std::string, Column> one;
   one[A( a, "field" )] = c;
   Narrow nar{ one };
   Load ld{ one, 0, p.n };
   if ( p.dbl )
   {
      visitPoints( nar, p.d.get() );
      visitPoints( ld, p.d.get() );
   }
   else
   {
      visitPoints( nar, p.f.get() );
      visitPoints( ld, p.f.get() );
   }
   Column &m = one[A( a, "field" )];
   if ( !m.empty() )
   {
      out.str( "min", hexd( *std::min_element( m.begin(), m.end() ) ) );
      out.str( "max", hexd( *std::max_element( m.begin(), m.end() ) ) );
   }
   p.cols[A( a, "field" )] = m;
}

// ----------------------------------------------------------------------------------------- writer

CMD( swopen, "sw.open" )
{
   WriterOptions o;
   o.guid = Ad( a, "guid", "" );
   o.coordinateMetadata = Ad( a, "meta", "" );
   g_sw[A( a, "w" )] = std::make_shared<Writer>( A( a, "path" ), o );
}
CMD( swclose, "sw.close" )
{
   out.boolean( "v", at( g_sw, a, "w" ).Close() );
}
CMD( swisopen, "sw.isOpen" )
{
   out.boolean( "v", at( g_sw, a, "w" ).IsOpen() );
}
CMD( swdrop, "sw.drop" )
{
   g_sw.erase( A( a, "w" ) );
}
CMD( swcreation, "sw.creation" )
{
   auto &w = at( g_sw, a, "w" );
   ImageFile imf = w.GetRawIMF();
   StructureNode s( imf );
   s.set( "dateTimeValue", FloatNode( imf, D( A( a, "value" ) ) ) );
   if ( a.count( "atomic" ) )
   {
      s.set( "isAtomicClockReferenced", IntegerNode( imf, I( a, "atomic" ) ) );
   }
   w.GetRawE57Root().set( "creationDateTime", s );
}
// header and points in one call
CMD( swscan, "sw.scan" )
{
   auto &w = at( g_sw, a, "w" );
   auto &h = at( g_sh, a, "h" );
   auto &p = at( g_sp, a, "p" );
   out.num( "i", p.dbl ? w.WriteData3DData( h, p.d.get() ) : w.WriteData3DData( h, p.f.get() ) );
}
CMD( swhead, "sw.head" )
{
   out.num( "i", at( g_sw, a, "w" ).NewData3D( at( g_sh, a, "h" ) ) );
}
namespace
{
   template <typename C>
   void writeBlocks( Writer &w, int64_t i, Points &p, Buffers<C> &b, const std::set<std::string> &f,
                     const std::vector<std::string> &blocks, size_t cap )
   {
      Buffers<C> t;
      t.alloc( f, cap );
      CompressedVectorWriter cw = w.SetUpData3DPointsData( i, cap, t.get() );
      size_t from = 0;
      for ( auto &s : blocks )
      {
         const size_t n = static_cast<size_t>( std::strtoull( s.c_str(), nullptr, 10 ) );
         Load ld{ p.cols, from, n };
         visitPoints( ld, t.get() );
         cw.write( n );
         from += n;
      }
      cw.close();
   }
}
// points of a scan in blocks, from user buffers for the named fields
CMD( swblocks, "sw.blocks" )
{
   auto &w = at( g_sw, a, "w" );
   auto &p = at( g_sp, a, "p" );
   const auto f = names( a, "fields" );
   const auto bl = split( A( a, "blocks" ), ',' );
   const size_t cap = static_cast<size_t>( I( a, "cap" ) );
   if ( p.dbl )
   {
      writeBlocks( w, I( a, "i" ), p, p.d, f, bl, cap );
   }
   else
   {
      writeBlocks( w, I( a, "i" ), p, p.f, f, bl, cap );
   }
}
namespace
{
   std::vector<int64_t> ints( const std::string &s )
   {
      std::vector<int64_t> v;
      for ( auto &p : split( s, ',' ) )
      {
         if ( !p.empty() )
         {
            v.push_back( std::strtoll( p.c_str(), nullptr, 10 ) );
         }
      }
      return v;
   }
   std::string list( const std::vector<int64_t> &v )
   {
      std::string s = "[";
      for ( size_t i = 0; i < v.size(); ++i )
      {
         s += ( i ? "," : "" ) + std::to_string( v[i] );
      }
      return s + "]";
   }
}
CMD( swgroups, "sw.groups" )
{
   auto id = ints( A( a, "ids" ) );
   auto st = ints( A( a, "starts" ) );
   auto ct = ints( A( a, "counts" ) );
   const size_t n = id.size();
   out.boolean( "v", at( g_sw, a, "w" ).WriteData3DGroupsData( I( a, "i" ), n, id.data(), st.data(), ct.data() ) );
}

// ----------------------------------------------------------------------------------------- reader

CMD( sropen, "sr.open" )
{
   ReaderOptions o;
   o.checksumPolicy = static_cast<ReadChecksumPolicy>( Id( a, "policy", ChecksumPolicy::ChecksumAll ) );
   g_sr[A( a, "s" )] = std::make_shared<Reader>( A( a, "path" ), o );
}
CMD( srclose, "sr.close" )
{
   out.boolean( "v", at( g_sr, a, "s" ).Close() );
}
CMD( srisopen, "sr.isOpen" )
{
   out.boolean( "v", at( g_sr, a, "s" ).IsOpen() );
}
CMD( srdrop, "sr.drop" )
{
   g_sr.erase( A( a, "s" ) );
}
CMD( srroot, "sr.root" )
{
   E57Root h;
   h.guid = "junk";
   h.coordinateMetadata = "junk";
   h.creationDateTime.dateTimeValue = 7;
   h.creationDateTime.isAtomicClockReferenced = 7;
   auto &r = at( g_sr, a, "s" );
   const bool ret = r.GetE57Root( h );
   out.boolean( "ret", ret );
   if ( !ret )
   {
      return;
   }
   out.str( "formatName", pct( h.formatName ) );
   out.str( "guid", pct( h.guid ) );
   out.num( "major", h.versionMajor );
   out.num( "minor", h.versionMinor );
   out.str( "library", h.e57LibraryVersion );
   out.str( "date", hexd( h.creationDateTime.dateTimeValue ) );
   out.num( "atomic", h.creationDateTime.isAtomicClockReferenced );
   out.num( "scans", h.data3DSize );
   out.num( "images", h.images2DSize );
   out.str( "meta", pct( h.coordinateMetadata ) );
   out.num( "nscans", r.GetData3DCount() );
   out.num( "nimages", r.GetImage2DCount() );
}
// the header is filled with other values before
CMD( srhead, "sr.head" )
{
   Data3D h;
   if ( a.count( "junk" ) )
   {
      h = at( g_sh, a, "junk" );
   }
   out.boolean( "ret", at( g_sr, a, "s" ).ReadData3D( I( a, "i" ), h ) );
   out.raw( "v", asJson( h ) );
}
CMD( srsizes, "sr.sizes" )
{
   int64_t row = -7, col = -7, pts = -7, grp = -7, cnt = -7;
   bool byCol = true;
   out.boolean( "ret", at( g_sr, a, "s" ).GetData3DSizes( I( a, "i" ), row, col, pts, grp, cnt, byCol ) );
   out.num( "row", row );
   out.num( "col", col );
   out.num( "points", pts );
   out.num( "groups", grp );
   out.num( "count", cnt );
   out.boolean( "byCol", byCol );
}
CMD( srgroups, "sr.groups" )
{
   const size_t n = static_cast<size_t>( I( a, "n" ) );
   std::vector<int64_t> id( n, -9 ), st( n, -9 ), ct( n, -9 );
   id.shrink_to_fit();
   const std::string omit = Ad( a, "omit", "" );
   out.boolean( "ret", at( g_sr, a, "s" ).ReadData3DGroupsData( I( a, "i" ), n, omit == "id" ? nullptr : id.data(),
                                                               omit == "start" ? nullptr : st.data(),
                                                               omit == "count" ? nullptr : ct.data() ) );
   out.raw( "ids", list( id ) );
   out.raw( "starts", list( st ) );
   out.raw( "counts", list( ct ) );
}
namespace
{
   template <typename C>
   void readPoints( Reader &r, int64_t i, const std::set<std::string> &f, size_t block,
                    std::map<std::string, Column> &cols, long long &total, long long &calls, long long limit )
   {
      Buffers<C> t;
      t.alloc( f, block );
      CompressedVectorReader cr = r.SetUpData3DPointsData( i, block, t.get() );
      for ( ;; )
      {
         const unsigned n = cr.read();
         ++calls;
         if ( n == 0 || n > block || total > limit )
         {
            total += n;
            break;
         }
         Save sv{ cols, n };
         visitPoints( sv, t.get() );
         total += n;
      }
      cr.close();
   }
}
// reads the points of a scan and compares them with those of p
CMD( srpoints, "sr.points" )
{
   auto &r = at( g_sr, a, "s" );
   auto &p = at( g_sp, a, "p" );
   std::map<std::string, Column> cols;
   const auto f = names( a, "fields" );
   const size_t block = static_cast<size_t>( I( a, "block" ) );
   long long total = 0, calls = 0;
   const long long limit = static_cast<long long>( p.n ) + 1000;
   if ( A( a, "kind" ) == "double" )
   {
      readPoints<double>( r, I( a, "i" ), f, block, cols, total, calls, limit );
   }
   else
   {
      readPoints<float>( r, I( a, "i" ), f, block, cols, total, calls, limit );
   }
   out.num( "n", total );
   out.num( "calls", calls );
   std::string s;
   for ( auto &name : f )
   {
      const Column &got = cols[name];
      const Column &want = p.cols[name];
      long long diff = 0, diff32 = 0;
      double dev = 0;
      const size_t n = std::min( got.size(), want.size() );
      for ( size_t k = 0; k < n; ++k )
      {
         diff += got[k] != want[k];
         diff32 += got[k] != static_cast<double>( static_cast<float>( want[k] ) );
         const double d = std::fabs( got[k] - want[k] );
         dev = d <= dev ? dev : d; // also if d is not a number
      }
      s += ( s.empty() ? "" : "," ) + std::string( "{\"f\":" ) + jstr( name ) + ",\"n\":" + std::to_string( got.size() ) +
           ",\"diff\":" + std::to_string( diff ) + ",\"diff32\":" + std::to_string( diff32 ) + ",\"dev\":" + jstr( hexd( dev ) ) + "}";
   }
   out.raw( "cols", "[" + s + "]" );
}
// the values of the points of a scan
CMD( srvalues, "sr.values" )
{
   auto &r = at( g_sr, a, "s" );
   std::map<std::string, Column> cols;
   const auto f = names( a, "fields" );
   const size_t block = static_cast<size_t>( I( a, "block" ) );
   long long total = 0, calls = 0;
   if ( A( a, "kind" ) == "double" )
   {
      readPoints<double>( r, I( a, "i" ), f, block, cols, total, calls, 1000000 );
   }
   else
   {
      readPoints<float>( r, I( a, "i" ), f, block, cols, total, calls, 1000000 );
   }
   out.num( "n", total );
   std::string s;
   for ( auto &name : f )
   {
      std::string v;
      for ( double x : cols[name] )
      {
         v += ( v.empty() ? "" : "," ) + jstr( hexd( x == 0 ? 0.0 : x ) );
      }
      s += ( s.empty() ? "" : "," ) + jstr( name ) + ":[" + v + "]";
   }
   out.raw( "cols", "{" + s + "}" );
}

// ----------------------------------------------------------------------------------------- images

CMD( swimage, "sw.image" )
{
   out.num( "i", at( g_sw, a, "w" ).NewImage2D( at( g_im, a, "m" ) ) );
}
// count bytes of value v (plus position if ramp=1)
namespace
{
   std::vector<uint8_t> pattern( const Args &a )
   {
      std::vector<uint8_t> b( static_cast<size_t>( I( a, "count" ) ) );
      std::fill( b.begin(), b.end(), static_cast<uint8_t>( I( a, "v" ) ) );
      b.shrink_to_fit();
      return b;
   }
   Image2DType itype( const Args &a )
   {
      return static_cast<Image2DType>( I( a, "type" ) );
   }
   Image2DProjection iproj( const Args &a )
   {
      return static_cast<Image2DProjection>( I( a, "proj" ) );
   }
}
CMD( swimgdata, "sw.imgdata" )
{
   auto b = pattern( a );
   out.num( "n", at( g_sw, a, "w" ).WriteImage2DData( I( a, "i" ), itype( a ), iproj( a ), b.data(), I( a, "start" ),
                                                     static_cast<int64_t>( b.size() ) ) );
}
// header and content in one call
CMD( swimgall, "sw.imgall" )
{
   auto b = pattern( a );
   out.num( "n", at( g_sw, a, "w" ).WriteImage2DData( at( g_im, a, "m" ), itype( a ), iproj( a ), I( a, "start" ), b.data(),
                                                     static_cast<int64_t>( b.size() ) ) );
}
CMD( srimage, "sr.image" )
{
   Image2D m;
   m.name = "junk";
   m.sensorModel = "junk";
   m.pose.translation.x = 7;
   m.visualReferenceRepresentation.jpegImageSize = 7;
   m.cylindricalRepresentation.radius = 7;
   m.acquisitionDateTime.dateTimeValue = 7;
   m.pinholeCameraDistortionExt.reset( new Extension::PinholeCameraDistortion );
   out.boolean( "ret", at( g_sr, a, "s" ).ReadImage2D( I( a, "i" ), m ) );
   out.raw( "v", asJson( m ) );
}
CMD( srimgsizes, "sr.imgsizes" )
{
   auto proj = static_cast<Image2DProjection>( 4 );
   auto type = static_cast<Image2DType>( 3 ), mask = type, visual = type;
   int64_t w = -7, h = -7, size = -7;
   out.boolean( "ret", at( g_sr, a, "s" ).GetImage2DSizes( I( a, "i" ), proj, type, w, h, size, mask, visual ) );
   out.num( "proj", proj );
   out.num( "type", type );
   out.num( "mask", mask );
   out.num( "visual", visual );
   out.num( "width", w );
   out.num( "height", h );
   out.num( "size", size );
}
// runs: [value, length] of the bytes in the buffer after the call (it was filled with 238 before)
CMD( srimgdata, "sr.imgdata" )
{
   std::vector<uint8_t> b( static_cast<size_t>( I( a, "count" ) ), 238 );
   b.shrink_to_fit();
   std::string err;
   long long n = 0;
   err = guarded( [&] { n = at( g_sr, a, "s" ).ReadImage2DData( I( a, "i" ), iproj( a ), itype( a ), b.data(), I( a, "start" ),
                                                               static_cast<int64_t>( b.size() ) ); } );
   out.str( "res", err );
   out.num( "n", n );
   std::string s;
   for ( size_t k = 0; k < b.size(); )
   {
      size_t j = k;
      while ( j < b.size() && b[j] == b[k] )
      {
         ++j;
      }
      s += ( s.empty() ? "[" : ",[" ) + std::to_string( b[k] ) + "," + std::to_string( j - k ) + "]";
      k = j;
   }
   out.raw( "runs", "[" + s + "]" );
}
