#include "driver.h"

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>

#include <fcntl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <csignal>

std::string jstr( const std::string &s )
{
   std::string o = "\"";
   for ( unsigned char c : s )
   {
      if ( c == '"' || c == '\\' )
      {
         o += '\\';
         o += static_cast<char>( c );
      }
      else if ( c < 0x20 || c >= 0x7f )
      {
         char b[8];
         std::snprintf( b, sizeof b, "\\u%04x", c );
         o += b;
      }
      else
      {
         o += static_cast<char>( c );
      }
   }
   return o + "\"";
}

void Json::raw( const std::string &k, const std::string &v )
{
   if ( !body.empty() )
   {
      body += ",";
   }
   body += jstr( k ) + ":" + v;
}
void Json::str( const std::string &k, const std::string &v )
{
   raw( k, jstr( v ) );
}
void Json::num( const std::string &k, long long v )
{
   raw( k, std::to_string( v ) );
}
void Json::boolean( const std::string &k, bool v )
{
   raw( k, v ? "true" : "false" );
}

std::string pct( const std::string &s )
{
   std::string o;
   for ( unsigned char c : s )
   {
      if ( std::isalnum( c ) || std::strchr( "-_./:", c ) )
      {
         o += static_cast<char>( c );
      }
      else
      {
         char b[8];
         std::snprintf( b, sizeof b, "%%%02x", c );
         o += b;
      }
   }
   return o;
}

std::string unpct( const std::string &s )
{
   std::string o;
   for ( size_t i = 0; i < s.size(); ++i )
   {
      if ( s[i] == '%' && i + 2 < s.size() )
      {
         o += static_cast<char>( std::strtol( s.substr( i + 1, 2 ).c_str(), nullptr, 16 ) );
         i += 2;
      }
      else
      {
         o += s[i];
      }
   }
   return o;
}

struct BadCommand
{
   std::string what;
};

const std::string &A( const Args &a, const char *k )
{
   auto it = a.find( k );
   if ( it == a.end() )
   {
      throw BadCommand{ std::string( "missing argument " ) + k };
   }
   return it->second;
}
std::string Ad( const Args &a, const char *k, const std::string &dflt )
{
   auto it = a.find( k );
   return it == a.end() ? dflt : it->second;
}
long long I( const Args &a, const char *k )
{
   return std::strtoll( A( a, k ).c_str(), nullptr, 10 );
}
long long Id( const Args &a, const char *k, long long dflt )
{
   auto it = a.find( k );
   return it == a.end() ? dflt : std::strtoll( it->second.c_str(), nullptr, 10 );
}
double D( const std::string &s )
{
   return std::strtod( s.c_str(), nullptr );
}
std::string hexd( double d )
{
   if ( std::isnan( d ) )
   {
      return "nan";
   }
   char b[64];
   std::snprintf( b, sizeof b, "%a", d );
   return b;
}
std::vector<std::string> split( const std::string &s, char sep )
{
   std::vector<std::string> v;
   std::string cur;
   for ( char c : s )
   {
      if ( c == sep )
      {
         v.push_back( cur );
         cur.clear();
      }
      else
      {
         cur += c;
      }
   }
   v.push_back( cur );
   return v;
}

std::map<std::string, Handler> &handlers()
{
   static std::map<std::string, Handler> h;
   return h;
}

static std::vector<std::function<void()>> &resetHooks()
{
   static std::vector<std::function<void()>> v;
   return v;
}
ResetHook::ResetHook( std::function<void()> f )
{
   resetHooks().push_back( std::move( f ) );
}

uint64_t mix64( uint64_t x )
{
   x += 0x9e3779b97f4a7c15ULL;
   x = ( x ^ ( x >> 30 ) ) * 0xbf58476d1ce4e5b9ULL;
   x = ( x ^ ( x >> 27 ) ) * 0x94d049bb133111ebULL;
   return x ^ ( x >> 31 );
}

std::string errorName( int code )
{
   static const char *names[] = { "Success",
                                  "ErrorBadCVHeader",
                                  "ErrorBadCVPacket",
                                  "ErrorChildIndexOutOfBounds",
                                  "ErrorSetTwice",
                                  "ErrorHomogeneousViolation",
                                  "ErrorValueNotRepresentable",
                                  "ErrorScaledValueNotRepresentable",
                                  "ErrorReal64TooLarge",
                                  "ErrorExpectingNumeric",
                                  "ErrorExpectingUString",
                                  "ErrorInternal",
                                  "ErrorBadXMLFormat",
                                  "ErrorXMLParser",
                                  "ErrorBadAPIArgument",
                                  "ErrorFileReadOnly",
                                  "ErrorBadChecksum",
                                  "ErrorOpenFailed",
                                  "ErrorCloseFailed",
                                  "ErrorReadFailed",
                                  "ErrorWriteFailed",
                                  "ErrorSeekFailed",
                                  "ErrorPathUndefined",
                                  "ErrorBadBuffer",
                                  "ErrorNoBufferForElement",
                                  "ErrorBufferSizeMismatch",
                                  "ErrorBufferDuplicatePathName",
                                  "ErrorBadFileSignature",
                                  "ErrorUnknownFileVersion",
                                  "ErrorBadFileLength",
                                  "ErrorXMLParserInit",
                                  "ErrorDuplicateNamespacePrefix",
                                  "ErrorDuplicateNamespaceURI",
                                  "ErrorBadPrototype",
                                  "ErrorBadCodecs",
                                  "ErrorValueOutOfBounds",
                                  "ErrorConversionRequired",
                                  "ErrorBadPathName",
                                  "ErrorNotImplemented",
                                  "ErrorBadNodeDowncast",
                                  "ErrorWriterNotOpen",
                                  "ErrorReaderNotOpen",
                                  "ErrorNodeUnattached",
                                  "ErrorAlreadyHasParent",
                                  "ErrorDifferentDestImageFile",
                                  "ErrorImageFileNotOpen",
                                  "ErrorBuffersNotCompatible",
                                  "ErrorTooManyWriters",
                                  "ErrorTooManyReaders",
                                  "ErrorBadConfiguration",
                                  "ErrorInvarianceViolation",
                                  "ErrorInvalidNodeType",
                                  "ErrorInvalidData3DValue",
                                  "ErrorData3DReadInvalidZeroRecords",
                                  "ErrorPathNameEmpty",
                                  "ErrorPathNameMalformed",
                                  "ErrorPathNameExtensionNotRegistered",
                                  "ErrorBadInputDataSize" };
   if ( code >= 0 && code < static_cast<int>( sizeof names / sizeof *names ) )
   {
      return names[code];
   }
   return "Error#" + std::to_string( code );
}

std::string guarded( const std::function<void()> &f )
{
   try
   {
      f();
      return "ok";
   }
   catch ( const e57::E57Exception &e )
   {
      return errorName( e.errorCode() );
   }
   catch ( const BadCommand & )
   {
      throw;
   }
   catch ( const std::exception &e )
   {
      return std::string( "std:" ) + typeid( e ).name();
   }
   catch ( ... )
   {
      return "unknown-exception";
   }
}

static void resetAll()
{
   for ( auto &h : resetHooks() )
   {
      h();
   }
   sysReset();
}

CMD( reset, "reset" )
{
   resetAll();
}

// Drop every handle; faults stay armed.
CMD( dropall, "drop.all" )
{
   for ( auto &h : resetHooks() )
   {
      h();
   }
}

// Between try.begin and try.end the commands after the first error are skipped; with lenient=1 later commands may use
// handles that were never made.
static bool g_try = false, g_skip = false, g_lenient = false;

// A remark for the harness; does nothing.
CMD( note, "note" )
{
}

int main( int argc, char **argv )
{
   // Results go to the original stdout; anything the library prints goes to stderr.
   int fd = dup( 1 );
   dup2( 2, 1 );
   FILE *res = fdopen( fd, "w" );
   std::ios::sync_with_stdio( false );

   // A library that writes without end must not fill the disk
   std::signal( SIGXFSZ, SIG_IGN );
   struct rlimit lim = { 256u << 20, 256u << 20 };
   setrlimit( RLIMIT_FSIZE, &lim );

   std::string line;
   while ( std::getline( std::cin, line ) )
   {
      if ( line.empty() )
      {
         continue;
      }
      std::istringstream ss( line );
      std::string op;
      ss >> op;
      Args args;
      std::string tok;
      while ( ss >> tok )
      {
         auto p = tok.find( '=' );
         if ( p == std::string::npos )
         {
            continue;
         }
         args[tok.substr( 0, p )] = unpct( tok.substr( p + 1 ) );
      }
      Json out;
      std::string r;
      auto it = handlers().find( op );
      if ( op == "reset" || op == "try.begin" || op == "try.end" )
      {
         g_try = op == "try.begin";
         g_skip = false;
         g_lenient = op != "reset" && Id( args, "lenient", 0 ) != 0;
      }
      if ( op == "try.begin" || op == "try.end" )
      {
         r = "ok";
      }
      else if ( g_skip )
      {
         r = "SKIPPED";
      }
      else if ( it == handlers().end() )
      {
         r = "BAD-COMMAND " + op;
      }
      else
      {
         try
         {
            r = guarded( [&] { it->second( args, out ); } );
         }
         catch ( const BadCommand &b )
         {
            r = g_lenient ? "MISSING" : "BAD-COMMAND " + b.what;
         }
         g_skip = g_try && r != "ok";
      }
      out.str( "r", r );
      std::fprintf( res, "{%s}\n", out.body.c_str() );
      std::fflush( res );
   }
   resetAll();
   std::fclose( res );
   return 0;
}
