// Command interpreter that exposes the public API of libE57Format to the conformance harness.
//
// One command per line: "op key=value key=value ...", values percent-encoded.
// One JSON object per command is written to the result stream.
#pragma once

#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "E57Format.h"

using Args = std::map<std::string, std::string>;

struct Json
{
   std::string body;
   void raw( const std::string &k, const std::string &v );
   void str( const std::string &k, const std::string &v );
   void num( const std::string &k, long long v );
   void boolean( const std::string &k, bool v );
};

std::string jstr( const std::string &s );
std::string pct( const std::string &s );
std::string unpct( const std::string &s );

const std::string &A( const Args &a, const char *k );
std::string Ad( const Args &a, const char *k, const std::string &dflt );
long long I( const Args &a, const char *k );
long long Id( const Args &a, const char *k, long long dflt );
double D( const std::string &s ); // hexfloat, decimal, nan, inf, -inf
std::string hexd( double d );
std::vector<std::string> split( const std::string &s, char sep );

using Handler = std::function<void( const Args &, Json & )>;
std::map<std::string, Handler> &handlers();
struct Reg
{
   Reg( const char *name, Handler h )
   {
      handlers()[name] = std::move( h );
   }
};
#define CMD( ident, name )                                                                        \
   static void cmd_##ident( const Args &a, Json &out );                                           \
   static Reg reg_##ident( name, cmd_##ident );                                                   \
   static void cmd_##ident( const Args &a, Json &out )

struct ResetHook
{
   explicit ResetHook( std::function<void()> f );
};

// Deterministic 64 bit mixing
uint64_t mix64( uint64_t x );

extern std::map<std::string, std::shared_ptr<e57::ImageFile>> g_files;
extern std::map<std::string, std::shared_ptr<e57::Node>> g_nodes;
e57::ImageFile &F( const Args &a, const char *k = "f" );
e57::Node &N( const Args &a, const char *k = "n" );
void putNode( const std::string &h, const e57::Node &n );

std::string errorName( int code );
// Run a function, return "ok" or the name of the error.
std::string guarded( const std::function<void()> &f );

// fault injection and journal (sys.cpp)
void sysReset();
