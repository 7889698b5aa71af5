// Interposed system calls: counting, fault injection and a journal of everything written.
// Only descriptors of files below the scratch directory ($E57_SCRATCH) are affected.
#include "driver.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>

#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace
{
   enum Kind
   {
      kOpen,
      kRead,
      kWrite,
      kSeek,
      kClose,
      kRemove,
      kKinds
   };
   const char *kindNames[kKinds] = { "open", "read", "write", "lseek", "close", "remove" };

   bool tracked[4096];
   bool writable[4096];
   long long counts[kKinds];
   long long total;

   struct Fault
   {
      bool armed = false;
      int kind = -1;       // -1: any kind
      long long at = 0;    // 1 based index of the call, counted from arming
      long long times = 1; // how many calls fail
      bool isShort = false;
      bool isZero = false; // nothing is transferred
      bool isLossy = false; // a failing close loses what was written
      int err = EIO;
      long long fired = 0;
   } fault;

   FILE *journal = nullptr;
   std::string journalFile;
   long long bytesLimit = -1; // disk space left for write(), -1: no limit

   bool isScratch( const char *path )
   {
      static const char *scratch = std::getenv( "E57_SCRATCH" );
      return path && scratch && std::strncmp( path, scratch, std::strlen( scratch ) ) == 0;
   }

   bool isTracked( int fd )
   {
      return fd >= 0 && fd < 4096 && tracked[fd];
   }

   // Returns true if the call has to fail
   bool hit( Kind k )
   {
      ++counts[k];
      ++total;
      if ( !fault.armed )
      {
         return false;
      }
      const long long n = fault.kind < 0 ? total : counts[k];
      if ( fault.kind >= 0 && fault.kind != k )
      {
         return false;
      }
      if ( n >= fault.at && n < fault.at + fault.times )
      {
         ++fault.fired;
         return true;
      }
      return false;
   }

   void journalWrite( char type, long long off, const void *data, size_t len )
   {
      if ( !journal )
      {
         return;
      }
      long long l = static_cast<long long>( len );
      std::fwrite( &type, 1, 1, journal );
      std::fwrite( &off, 8, 1, journal );
      std::fwrite( &l, 8, 1, journal );
      if ( len )
      {
         std::fwrite( data, 1, len, journal );
      }
   }

   int doOpen( const char *path, int flags, mode_t mode )
   {
      const bool mine = isScratch( path );
      if ( mine && hit( kOpen ) )
      {
         errno = fault.err;
         return -1;
      }
      const int fd = static_cast<int>( syscall( SYS_openat, AT_FDCWD, path, flags, mode ) );
      if ( mine && fd >= 0 && fd < 4096 )
      {
         tracked[fd] = true;
         writable[fd] = ( flags & ( O_WRONLY | O_RDWR ) ) != 0;
         if ( flags & ( O_WRONLY | O_RDWR ) )
         {
            journalWrite( ( flags & O_TRUNC ) ? 'T' : 'O', 0, path, std::strlen( path ) );
         }
      }
      return fd;
   }

   ssize_t doWrite( int fd, const void *buf, size_t n, off64_t off )
   {
      size_t len = n;
      if ( isTracked( fd ) )
      {
         if ( hit( kWrite ) )
         {
            if ( !fault.isShort )
            {
               errno = fault.err;
               return -1;
            }
            len = fault.isZero ? 0 : n / 2;
            if ( len == 0 )
            {
               return 0;
            }
         }
         if ( bytesLimit >= 0 )
         {
            if ( bytesLimit == 0 && len > 0 )
            {
               ++fault.fired;
               errno = ENOSPC;
               return -1;
            }
            if ( static_cast<long long>( len ) > bytesLimit )
            {
               ++fault.fired;
               len = static_cast<size_t>( bytesLimit );
            }
            bytesLimit -= static_cast<long long>( len );
         }
         const long long at = off >= 0 ? off : syscall( SYS_lseek, fd, 0, SEEK_CUR );
         const ssize_t r = off >= 0 ? syscall( SYS_pwrite64, fd, buf, len, off )
                                    : syscall( SYS_write, fd, buf, len );
         if ( r > 0 )
         {
            journalWrite( 'W', at, buf, static_cast<size_t>( r ) );
         }
         return r;
      }
      return off >= 0 ? syscall( SYS_pwrite64, fd, buf, n, off ) : syscall( SYS_write, fd, buf, n );
   }

   ssize_t doRead( int fd, void *buf, size_t n, off64_t off )
   {
      size_t len = n;
      if ( isTracked( fd ) && hit( kRead ) )
      {
         if ( !fault.isShort )
         {
            errno = fault.err;
            return -1;
         }
         len = fault.isZero ? 0 : n / 2;
      }
      return off >= 0 ? syscall( SYS_pread64, fd, buf, len, off ) : syscall( SYS_read, fd, buf, len );
   }

   off64_t doSeek( int fd, off64_t off, int whence )
   {
      if ( isTracked( fd ) && hit( kSeek ) )
      {
         errno = fault.err;
         return -1;
      }
      return syscall( SYS_lseek, fd, off, whence );
   }
}

extern "C"
{
   int open( const char *path, int flags, ... )
   {
      va_list ap;
      va_start( ap, flags );
      const mode_t mode = ( flags & ( O_CREAT | O_TMPFILE ) ) ? va_arg( ap, mode_t ) : 0;
      va_end( ap );
      return doOpen( path, flags, mode );
   }
   int open64( const char *path, int flags, ... )
   {
      va_list ap;
      va_start( ap, flags );
      const mode_t mode = ( flags & ( O_CREAT | O_TMPFILE ) ) ? va_arg( ap, mode_t ) : 0;
      va_end( ap );
      return doOpen( path, flags, mode );
   }
   ssize_t write( int fd, const void *buf, size_t n )
   {
      return doWrite( fd, buf, n, -1 );
   }
   ssize_t pwrite( int fd, const void *buf, size_t n, off_t off )
   {
      return doWrite( fd, buf, n, off );
   }
   ssize_t pwrite64( int fd, const void *buf, size_t n, off64_t off )
   {
      return doWrite( fd, buf, n, off );
   }
   ssize_t read( int fd, void *buf, size_t n )
   {
      return doRead( fd, buf, n, -1 );
   }
   ssize_t pread( int fd, void *buf, size_t n, off_t off )
   {
      return doRead( fd, buf, n, off );
   }
   ssize_t pread64( int fd, void *buf, size_t n, off64_t off )
   {
      return doRead( fd, buf, n, off );
   }
   off_t lseek( int fd, off_t off, int whence ) noexcept
   {
      return doSeek( fd, off, whence );
   }
   off64_t lseek64( int fd, off64_t off, int whence ) noexcept
   {
      return doSeek( fd, off, whence );
   }
   int close( int fd )
   {
      if ( isTracked( fd ) )
      {
         const bool fail = hit( kClose );
         tracked[fd] = false;
         if ( fail && writable[fd] && fault.isLossy )
         {
            // what had been written was not stored after all
            (void)!syscall( SYS_ftruncate, fd, 0 );
         }
         const int r = static_cast<int>( syscall( SYS_close, fd ) );
         if ( fail )
         {
            // like Linux: the descriptor is gone even if an error is reported
            errno = fault.err;
            return -1;
         }
         return r;
      }
      return static_cast<int>( syscall( SYS_close, fd ) );
   }
   int ftruncate( int fd, off_t len ) noexcept
   {
      if ( isTracked( fd ) )
      {
         journalWrite( 'L', len, nullptr, 0 );
      }
      return static_cast<int>( syscall( SYS_ftruncate, fd, len ) );
   }
   int ftruncate64( int fd, off64_t len ) noexcept
   {
      return ftruncate( fd, len );
   }
   int remove( const char *path ) noexcept
   {
      if ( isScratch( path ) )
      {
         if ( hit( kRemove ) )
         {
            errno = fault.err;
            return -1;
         }
         journalWrite( 'U', 0, path, std::strlen( path ) );
      }
      return static_cast<int>( syscall( SYS_unlinkat, AT_FDCWD, path, 0 ) );
   }
   int unlink( const char *path ) noexcept
   {
      return remove( path );
   }
}

void sysReset()
{
   fault = Fault();
   bytesLimit = -1;
   for ( auto &c : counts )
   {
      c = 0;
   }
   total = 0;
   if ( journal )
   {
      std::fclose( journal );
      journal = nullptr;
   }
}

// Arm a fault: kind=any|open|read|write|lseek|close|remove at= times= mode=fail|short|zero
CMD( fault, "sys.fault" )
{
   fault = Fault();
   for ( auto &c : counts )
   {
      c = 0;
   }
   total = 0;
   const std::string kind = A( a, "kind" );
   for ( int k = 0; k < kKinds; ++k )
   {
      if ( kind == kindNames[k] )
      {
         fault.kind = k;
      }
   }
   fault.at = I( a, "at" );
   fault.times = Id( a, "times", 1 );
   fault.isZero = Ad( a, "mode", "fail" ) == "zero";
   fault.isLossy = Id( a, "lossy", 0 ) != 0;
   fault.isShort = fault.isZero || Ad( a, "mode", "fail" ) == "short";
   fault.err = static_cast<int>( Id( a, "errno", EIO ) );
   fault.armed = fault.at > 0;
}

CMD( space, "sys.space" )
{
   bytesLimit = I( a, "bytes" );
}

CMD( disarm, "sys.disarm" )
{
   const long long fired = fault.fired;
   fault = Fault();
   bytesLimit = -1;
   out.num( "fired", fired );
}

CMD( count, "sys.count" )
{
   for ( int k = 0; k < kKinds; ++k )
   {
      out.num( kindNames[k], counts[k] );
   }
   out.num( "total", total );
   out.num( "fired", fault.fired );
   int n = 0;
   for ( bool t : tracked )
   {
      n += t;
   }
   out.num( "fds", n );
}

CMD( journal, "sys.journal" )
{
   if ( journal )
   {
      std::fclose( journal );
   }
   journalFile = A( a, "path" );
   journal = std::fopen( journalFile.c_str(), "wb" );
}

CMD( mark, "sys.mark" )
{
   journalWrite( 'M', I( a, "id" ), nullptr, 0 );
}

CMD( jend, "sys.journal.end" )
{
   if ( journal )
   {
      std::fclose( journal );
      journal = nullptr;
   }
}

CMD( frm, "file.rm" )
{
   syscall( SYS_unlinkat, AT_FDCWD, A( a, "path" ).c_str(), 0 );
}

CMD( stat, "sys.stat" )
{
   struct stat st;
   const bool ok = ::stat( A( a, "path" ).c_str(), &st ) == 0;
   out.boolean( "exists", ok );
   out.num( "size", ok ? static_cast<long long>( st.st_size ) : -1 );
   uint64_t h = 1469598103934665603ULL;
   if ( ok )
   {
      FILE *fp = std::fopen( A( a, "path" ).c_str(), "rb" );
      int c;
      while ( fp && ( c = std::fgetc( fp ) ) != EOF )
      {
         h = ( h ^ static_cast<unsigned>( c ) ) * 1099511628211ULL;
      }
      if ( fp )
      {
         std::fclose( fp );
      }
   }
   char t[32];
   std::snprintf( t, sizeof t, "%016llx", static_cast<unsigned long long>( h ) );
   out.str( "hash", ok ? t : "" );
}

// the bytes of a file
CMD( fget, "file.get" )
{
   std::string h;
   FILE *fp = std::fopen( A( a, "path" ).c_str(), "rb" );
   int c;
   while ( fp && ( c = std::fgetc( fp ) ) != EOF )
   {
      static const char *const digit = "0123456789abcdef";
      h += digit[( c >> 4 ) & 15];
      h += digit[c & 15];
   }
   if ( fp )
   {
      std::fclose( fp );
   }
   out.str( "v", h );
}

namespace
{
   uint32_t crc32c( const unsigned char *p, size_t n )
   {
      uint32_t c = 0xFFFFFFFFU;
      for ( size_t i = 0; i < n; ++i )
      {
         c ^= p[i];
         for ( int k = 0; k < 8; ++k )
         {
            c = ( c >> 1 ) ^ ( ( c & 1 ) ? 0x82F63B78U : 0 );
         }
      }
      return c ^ 0xFFFFFFFFU;
   }
}

// Damage the section of a compressed vector of a closed file, with correct page checksums:
// the section id (what=id) or the type of the first data packet (what=packet)
CMD( cvdamage, "cv.damage" )
{
   std::vector<unsigned char> b;
   FILE *fp = std::fopen( A( a, "path" ).c_str(), "rb" );
   int c;
   while ( fp && ( c = std::fgetc( fp ) ) != EOF )
   {
      b.push_back( static_cast<unsigned char>( c ) );
   }
   if ( fp )
   {
      std::fclose( fp );
   }
   std::string text;
   for ( size_t i = 0; i < b.size(); ++i )
   {
      if ( i % 1024 < 1020 )
      {
         text += static_cast<char>( b[i] );
      }
   }
   size_t p = text.find( "<" + A( a, "vec" ) + " " );
   p = p == std::string::npos ? p : text.find( "fileOffset=\"", p );
   if ( p == std::string::npos )
   {
      throw std::runtime_error( "no such vector" );
   }
   size_t at = std::strtoull( text.c_str() + p + 12, nullptr, 10 );
   if ( at == 0 || at + 64 > b.size() )
   {
      throw std::runtime_error( "no section" );
   }
   if ( A( a, "what" ) == "packet" )
   {
      // the physical offset of the first data packet is the third word of the section header
      const size_t l = at / 1024 * 1020 + at % 1024 + 16;
      uint64_t v = 0;
      for ( int k = 7; k >= 0; --k )
      {
         v = v << 8 | static_cast<unsigned char>( text.at( l + static_cast<size_t>( k ) ) );
      }
      at = v;
   }
   b.at( at ) = 0x77;
   const size_t page = at / 1024 * 1024;
   const uint32_t crc = crc32c( b.data() + page, 1020 );
   for ( int k = 0; k < 4; ++k )
   {
      b.at( page + 1020 + static_cast<size_t>( k ) ) = static_cast<unsigned char>( crc >> ( 24 - 8 * k ) );
   }
   fp = std::fopen( A( a, "path" ).c_str(), "wb" );
   if ( fp == nullptr || std::fwrite( b.data(), 1, b.size(), fp ) != b.size() || std::fclose( fp ) != 0 )
   {
      throw std::runtime_error( "cannot write" );
   }
}
