// Simulated disk: everything below /sim/ exists only inside the run.

#include "internal.hh"

#include <cerrno>
#include <cstdlib>
#include <cstring>

#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace
{

using sim::disk::Plan;

// Plain malloc is used throughout, so that the simulated heap does not notice
// the simulated disk.

struct File
{
  bool used;
  bool directory;
  char path[128];
  unsigned char* data;
  std::size_t size, capacity;
  Plan plan;
  bool errorSpent;
  unsigned opens;
  int statError;
  std::uint64_t written;      // bytes accepted since the plan was set
  unsigned mode;              // type of the file if it is not a plain file or a directory
  char target[128];           // of a symbolic link
  unsigned flux;              // probability, in 1/16, that the type changes at a system call
  unsigned kinds[4];          // what the type may change to; 0 means that the file is gone
  unsigned numKinds;
  unsigned seen;              // types that the file had, as bits of their numbers
};

struct Descriptor
{
  bool used;
  File* file;
  std::int64_t position;
  bool readable, writable, append;
  unsigned passes;
};

struct FakeStream
{
  bool used;
  int fd;
  bool eof, error;
  int pushedBack;
  char padding[200];          // keeps the objects as large as a FILE
};

const int FirstFd = 700000;
const int MaxFiles = 128;
const int MaxDescriptors = 64;

File        files[ MaxFiles ];
Descriptor  descriptors[ MaxDescriptors ];
FakeStream  streams[ MaxDescriptors ];
std::uint64_t delivered = 0;


#define REAL( name ) ( []{ static decltype( &::name ) f = reinterpret_cast<decltype( &::name )>( dlsym( RTLD_NEXT, #name ) ); return f; }() )

bool temporaryAdopted = false;

bool simulated( const char* path )
{
  return path && ( std::strncmp( path, "/sim/", 5 ) == 0 || ( temporaryAdopted && std::strncmp( path, "/tmp/", 5 ) == 0 ) );
}

File* lookup( const char* path )
{
  for( auto&& f : files )
    if( f.used && std::strcmp( f.path, path ) == 0 )
      return &f;
  return nullptr;
}

unsigned modeOf( const File& f )
{
  return f.mode ? f.mode : f.directory ? unsigned( S_IFDIR ) : unsigned( S_IFREG );
}

// Other programs may change the file at any system call.
File* arrive( File* f )
{
  if( f && f->flux && f->numKinds && sim::flip( f->flux, 16 ) )
  {
    f->mode = f->kinds[ sim::choose( f->numKinds ) ];
    if( !f->mode ) f->mode = 0170000; // gone
    sim::count( "io.file-replaced" );
    sim::event( "replaced", f->mode );
    sim::nontrivial();
  }
  if( f ) f->seen |= 1u << ( modeOf( *f ) >> 12 );
  return f && f->mode == 0170000 ? nullptr : f;
}

// Follows symbolic links.
File* resolve( const char* path, int* error )
{
  for( int i = 0; i < 10; i++ )
  {
    auto* f = arrive( lookup( path ) );
    if( !f ) { *error = ENOENT; return nullptr; }
    if( ( modeOf( *f ) & S_IFMT ) != S_IFLNK ) return f;
    path = f->target;
  }
  *error = ELOOP;
  return nullptr;
}

File* create( const char* path )
{
  if( auto* f = lookup( path ) ) return f;
  for( auto&& f : files )
    if( !f.used )
    {
      f = File();
      f.used = true;
      std::strncpy( f.path, path, sizeof( f.path ) - 1 );
      return &f;
    }
  std::fprintf( stderr, "sim: too many files\n" );
  std::abort();
}

Descriptor* descriptor( int fd )
{
  if( fd < FirstFd || fd >= FirstFd + MaxDescriptors ) return nullptr;
  auto* d = &descriptors[ fd - FirstFd ];
  return d->used ? d : nullptr;
}

bool isFake( int fd ) { return fd >= FirstFd && fd < FirstFd + MaxDescriptors; }

FakeStream* stream( FILE* f )
{
  auto* s = reinterpret_cast<FakeStream*>( f );
  return s >= streams && s < streams + MaxDescriptors ? s : nullptr;
}

void deliver( const char* kind, std::uint64_t position )
{
  delivered++;
  sim::count( kind );
  sim::event( kind, position );
  sim::nontrivial();
}

int simOpen( const char* path, int flags )
{
  int error = ENOENT;
  auto* f = resolve( path, &error );
  if( !f && error == ELOOP ) { errno = ELOOP; return -1; }
  if( f && f->plan.openError && ( f->opens++ == f->plan.openErrorAt || f->plan.openErrorAlways ) )
  {
    deliver( "io.open-error", static_cast<std::uint64_t>( f->plan.openError ) );
    errno = f->plan.openError;
    return -1;
  }
  if( !f )
  {
    if( !( flags & O_CREAT ) ) { errno = ENOENT; return -1; }
    f = create( path );
  }
  else if( ( flags & O_CREAT ) && ( flags & O_EXCL ) ) { errno = EEXIST; return -1; }

  if( modeOf( *f ) == S_IFSOCK ) { errno = ENXIO; return -1; }
  if( modeOf( *f ) == S_IFIFO && !( flags & O_NONBLOCK ) )
    sim::violate( "hang/pipe", std::string( "opening " ) + path + ", a named pipe that nobody else has opened, waits for ever" );

  int mode = flags & O_ACCMODE;
  if( f->directory && mode != O_RDONLY ) { errno = EISDIR; return -1; }
  if( flags & O_TRUNC )
    f->size = 0;

  for( int i = 0; i < MaxDescriptors; i++ )
    if( !descriptors[i].used )
    {
      auto& d    = descriptors[i];
      d          = Descriptor();
      d.used     = true;
      d.file     = f;
      d.readable = mode != O_WRONLY;
      d.writable = mode != O_RDONLY;
      d.append   = ( flags & O_APPEND ) != 0;
      sim::event( "open", static_cast<std::uint64_t>( i ) );
      return FirstFd + i;
    }
  errno = EMFILE;
  return -1;
}

// Limits a transfer of n bytes at the given position; returns -1 with errno
// set if the transfer fails.
ssize_t limit( Descriptor& d, std::int64_t position, std::size_t n, bool writing )
{
  auto& f    = *d.file;
  auto& plan = f.plan;

  sim::clock::advance( 20000 + 10 * std::uint64_t( n ) );   // simulated service time

  if( plan.eintr && n && sim::flip( plan.eintr, 16 ) )
  {
    sim::count( writing ? "io.write-interrupted" : "io.read-interrupted" );
    sim::event( "eintr" );
    sim::nontrivial();
    errno = EINTR;
    return -1;
  }

  if( plan.errorAt >= 0 && n && d.passes >= plan.errorPass && !( plan.errorOnce && f.errorSpent ) )
  {
    if( position >= plan.errorAt )
    {
      f.errorSpent = true;
      deliver( writing ? ( plan.errorCode == ENOSPC ? "io.disk-full" : "io.write-error" ) : "io.read-error", static_cast<std::uint64_t>( position ) );
      errno = plan.errorCode;
      return -1;
    }
    std::size_t left = static_cast<std::size_t>( plan.errorAt - position );
    if( n > left ) n = left;
  }

  if( plan.chunk && n > 1 )
  {
    std::size_t m = plan.randomChunks ? 1 + sim::choose( plan.chunk ) : plan.chunk;
    if( m < n )
    {
      n = m;
      sim::count( writing ? "io.short-write" : "io.short-read" );
      sim::nontrivial();
    }
  }
  return static_cast<ssize_t>( n );
}

ssize_t simReadAt( Descriptor& d, std::int64_t position, void* buffer, std::size_t n )
{
  auto& f = *d.file;
  if( f.directory ) { deliver( "io.read-error", 0 ); errno = EISDIR; return -1; }
  if( !d.readable ) { errno = EBADF; return -1; }
  ssize_t m = limit( d, position, n, false );
  if( m < 0 ) return -1;
  std::size_t available = position >= static_cast<std::int64_t>( f.size ) ? 0 : f.size - static_cast<std::size_t>( position );
  if( static_cast<std::size_t>( m ) > available ) m = static_cast<ssize_t>( available );
  if( m > 0 )
    std::memcpy( buffer, f.data + position, static_cast<std::size_t>( m ) );
  sim::event( "read", static_cast<std::uint64_t>( position ), static_cast<std::uint64_t>( m ) );
  return m;
}

void reserve( File& f, std::size_t n )
{
  if( n <= f.capacity ) return;
  std::size_t c = f.capacity ? f.capacity : 256;
  while( c < n ) c *= 2;
  f.data = static_cast<unsigned char*>( std::realloc( f.data, c ) );
  std::memset( f.data + f.capacity, 0, c - f.capacity );
  f.capacity = c;
}

ssize_t simWriteAt( Descriptor& d, std::int64_t position, const void* buffer, std::size_t n )
{
  auto& f = *d.file;
  if( !d.writable ) { errno = EBADF; return -1; }
  ssize_t m = limit( d, position, n, true );
  if( m < 0 ) return -1;
  std::size_t end = static_cast<std::size_t>( position ) + static_cast<std::size_t>( m );
  reserve( f, end );
  if( end > f.size )
  {
    if( static_cast<std::size_t>( position ) > f.size )
      std::memset( f.data + f.size, 0, static_cast<std::size_t>( position ) - f.size );
    f.size = end;
  }
  std::memcpy( f.data + position, buffer, static_cast<std::size_t>( m ) );
  sim::event( "write", static_cast<std::uint64_t>( position ), static_cast<std::uint64_t>( m ) );
  return m;
}

ssize_t simRead( Descriptor& d, void* buffer, std::size_t n )
{
  ssize_t m = simReadAt( d, d.position, buffer, n );
  if( m > 0 ) d.position += m;
  return m;
}

ssize_t simWrite( Descriptor& d, const void* buffer, std::size_t n )
{
  if( d.append ) d.position = static_cast<std::int64_t>( d.file->size );
  ssize_t m = simWriteAt( d, d.position, buffer, n );
  if( m > 0 ) d.position += m;
  return m;
}

std::int64_t simSeek( Descriptor& d, std::int64_t offset, int whence )
{
  std::int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? d.position : static_cast<std::int64_t>( d.file->size );
  if( base + offset < 0 ) { errno = EINVAL; return -1; }
  std::int64_t to = base + offset;
  if( to == 0 && d.position > 0 && whence == SEEK_SET ) d.passes++;
  d.position = to;
  sim::event( "seek", static_cast<std::uint64_t>( to ) );
  return to;
}

void fillStat( const File& f, struct stat* st )
{
  std::memset( st, 0, sizeof( *st ) );
  st->st_mode    = modeOf( f ) | ( f.directory ? 0755 : 0644 );
  st->st_size    = static_cast<off_t>( f.size );
  st->st_nlink   = 1;
  st->st_blksize = 4096;
  st->st_dev     = 77;
  st->st_ino     = static_cast<ino_t>( &f - files + 1 );
}

int simStat( const char* path, struct stat* st, bool follow )
{
  int error = ENOENT;
  auto* f   = follow ? resolve( path, &error ) : arrive( lookup( path ) );
  if( !f && error != ENOENT ) { errno = error; return -1; }
  if( f && f->statError ) { deliver( "io.stat-error", static_cast<std::uint64_t>( f->statError ) ); errno = f->statError; return -1; }
  if( !f ) { errno = ENOENT; return -1; }
  fillStat( *f, st );
  return 0;
}

int simClose( int fd )
{
  auto* d = descriptor( fd );
  if( !d ) { errno = EBADF; return -1; }
  d->used = false;
  sim::event( "close" );
  if( d->writable && d->file->plan.closeError )
  {
    deliver( "io.close-error", static_cast<std::uint64_t>( d->file->plan.closeError ) );
    errno = d->file->plan.closeError;
    return -1;
  }
  return 0;
}

int flagsOf( const char* mode )
{
  bool plus = std::strchr( mode, '+' ) != nullptr;
  switch( mode[0] )
  {
  case 'r': return plus ? O_RDWR : O_RDONLY;
  case 'w': return ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | O_TRUNC;
  default:  return ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | O_APPEND;
  }
}

FILE* simFopen( const char* path, const char* mode )
{
  int fd = simOpen( path, flagsOf( mode ) );
  if( fd < 0 ) return nullptr;
  auto& s = streams[ fd - FirstFd ];
  s.used = true; s.fd = fd; s.eof = s.error = false; s.pushedBack = -1;
  return reinterpret_cast<FILE*>( &s );
}

// FILE*-style reading: like the C library, end the transfer at the first error
// and remember it.
std::size_t simFread( FakeStream& s, void* buffer, std::size_t n )
{
  auto* d = descriptor( s.fd );
  std::size_t done = 0;
  auto* p = static_cast<unsigned char*>( buffer );
  if( n && s.pushedBack >= 0 ) { p[ done++ ] = static_cast<unsigned char>( s.pushedBack ); s.pushedBack = -1; }
  while( done < n )
  {
    ssize_t m = simRead( *d, p + done, n - done );
    if( m < 0 && errno == EINTR ) continue;
    if( m < 0 ) { s.error = true; break; }
    if( m == 0 ) { s.eof = true; break; }
    done += static_cast<std::size_t>( m );
  }
  return done;
}

std::size_t simFwrite( FakeStream& s, const void* buffer, std::size_t n )
{
  auto* d = descriptor( s.fd );
  std::size_t done = 0;
  auto* p = static_cast<const unsigned char*>( buffer );
  while( done < n )
  {
    ssize_t m = simWrite( *d, p + done, n - done );
    if( m < 0 && errno == EINTR ) continue;
    if( m <= 0 ) { s.error = true; break; }
    done += static_cast<std::size_t>( m );
  }
  return done;
}

} // namespace

namespace sim
{
namespace disk
{

void put( const std::string& path, const std::string& content )
{
  auto* f = create( path.c_str() );
  reserve( *f, content.size() + 1 );
  std::memcpy( f->data, content.data(), content.size() );
  f->size = content.size();
}

void adoptTemporary() { temporaryAdopted = true; }

std::vector<std::string> list()
{
  std::vector<std::string> r;
  for( auto&& f : files )
    if( f.used ) r.push_back( f.path );
  return r;
}

std::string get( const std::string& path )
{
  auto* f = lookup( path.c_str() );
  if( !f ) return std::string();
  return std::string( reinterpret_cast<char*>( f->data ), f->size );
}

bool exists( const std::string& path ) { return lookup( path.c_str() ) != nullptr; }

void makeDirectory( const std::string& path ) { create( path.c_str() )->directory = true; }
void setStatError( const std::string& path, int code ) { create( path.c_str() )->statError = code; }

void makeSpecial( const std::string& path, unsigned mode, const std::string& target )
{
  auto* f = create( path.c_str() );
  f->mode = mode;
  std::strncpy( f->target, target.c_str(), sizeof( f->target ) - 1 );
}

void setFlux( const std::string& path, unsigned probability, const std::vector<unsigned>& modes )
{
  auto* f     = create( path.c_str() );
  f->flux     = probability;
  f->numKinds = 0;
  f->seen     = 0;
  for( auto m : modes )
    if( f->numKinds < 4 ) f->kinds[ f->numKinds++ ] = m;
}

unsigned seenTypes( const std::string& path )
{
  auto* f = lookup( path.c_str() );
  return f ? f->seen : 0;
}

void forgetTypes( const std::string& path )
{
  if( auto* f = lookup( path.c_str() ) ) f->seen = 0;
}

void setPlan( const std::string& path, const Plan& plan )
{
  auto* f = create( path.c_str() );
  f->plan = plan;
  f->errorSpent = false;
  f->opens = 0;
}

void clearPlans()
{
  for( auto&& f : files ) { f.plan = Plan(); f.errorSpent = false; f.opens = 0; }
}

std::uint64_t errorsDelivered() { return delivered; }
void resetErrors() { delivered = 0; }

unsigned openHandles()
{
  unsigned n = 0;
  for( auto&& d : descriptors ) n += d.used;
  return n;
}

Plan perturbedPlan()
{
  Plan p;
  switch( choose( 6 ) )
  {
  case 0: break;
  case 1: p.chunk = 1; break;
  case 2: p.chunk = 1 + choose( 16 ); break;
  case 3: p.chunk = 1 + choose( 16 );   p.randomChunks = true; break;
  case 4: p.chunk = 1 + choose( 512 );  p.randomChunks = true; break;
  case 5: p.chunk = 1 + choose( 8192 ); p.randomChunks = true; break;
  }
  if( flip( 1, 2 ) )
    p.eintr = 1 + static_cast<unsigned>( choose( 6 ) );
  return p;
}

} // namespace disk
} // namespace sim

extern "C"
{

int open( const char* path, int flags, ... )
{
  va_list ap; va_start( ap, flags ); mode_t mode = static_cast<mode_t>( va_arg( ap, int ) ); va_end( ap );
  if( simulated( path ) ) return simOpen( path, flags );
  return static_cast<int>( syscall( SYS_openat, AT_FDCWD, path, flags, mode ) );
}

int open64( const char* path, int flags, ... )
{
  va_list ap; va_start( ap, flags ); mode_t mode = static_cast<mode_t>( va_arg( ap, int ) ); va_end( ap );
  if( simulated( path ) ) return simOpen( path, flags );
  return static_cast<int>( syscall( SYS_openat, AT_FDCWD, path, flags | O_LARGEFILE, mode ) );
}

int openat( int dir, const char* path, int flags, ... )
{
  va_list ap; va_start( ap, flags ); mode_t mode = static_cast<mode_t>( va_arg( ap, int ) ); va_end( ap );
  if( simulated( path ) ) return simOpen( path, flags );
  return static_cast<int>( syscall( SYS_openat, dir, path, flags, mode ) );
}

ssize_t read( int fd, void* b, size_t n )
{
  if( isFake( fd ) ) { auto* d = descriptor( fd ); if( !d ) { errno = EBADF; return -1; } return simRead( *d, b, n ); }
  return syscall( SYS_read, fd, b, n );
}

ssize_t write( int fd, const void* b, size_t n )
{
  if( isFake( fd ) ) { auto* d = descriptor( fd ); if( !d ) { errno = EBADF; return -1; } return simWrite( *d, b, n ); }
  return syscall( SYS_write, fd, b, n );
}

ssize_t readv( int fd, const struct iovec* v, int n )
{
  if( isFake( fd ) )
  {
    auto* d = descriptor( fd );
    if( !d ) { errno = EBADF; return -1; }
    for( int i = 0; i < n; i++ ) if( v[i].iov_len ) return simRead( *d, v[i].iov_base, v[i].iov_len );
    return 0;
  }
  return syscall( SYS_readv, fd, v, n );
}

ssize_t writev( int fd, const struct iovec* v, int n )
{
  if( isFake( fd ) )
  {
    auto* d = descriptor( fd );
    if( !d ) { errno = EBADF; return -1; }
    ssize_t total = 0;
    for( int i = 0; i < n; i++ )
    {
      if( !v[i].iov_len ) continue;
      ssize_t m = simWrite( *d, v[i].iov_base, v[i].iov_len );
      if( m < 0 ) return total ? total : -1;
      total += m;
      if( static_cast<size_t>( m ) < v[i].iov_len ) break;
    }
    return total;
  }
  return syscall( SYS_writev, fd, v, n );
}

ssize_t pread( int fd, void* b, size_t n, off_t o )
{
  if( isFake( fd ) ) { auto* d = descriptor( fd ); if( !d ) { errno = EBADF; return -1; } return simReadAt( *d, o, b, n ); }
  return syscall( SYS_pread64, fd, b, n, o );
}
ssize_t pread64( int fd, void* b, size_t n, off64_t o ) { return pread( fd, b, n, o ); }

ssize_t pwrite( int fd, const void* b, size_t n, off_t o )
{
  if( isFake( fd ) ) { auto* d = descriptor( fd ); if( !d ) { errno = EBADF; return -1; } return simWriteAt( *d, o, b, n ); }
  return syscall( SYS_pwrite64, fd, b, n, o );
}
ssize_t pwrite64( int fd, const void* b, size_t n, off64_t o ) { return pwrite( fd, b, n, o ); }

off_t lseek( int fd, off_t o, int w ) noexcept
{
  if( isFake( fd ) ) { auto* d = descriptor( fd ); if( !d ) { errno = EBADF; return -1; } return simSeek( *d, o, w ); }
  return syscall( SYS_lseek, fd, o, w );
}
off64_t lseek64( int fd, off64_t o, int w ) noexcept { return lseek( fd, o, w ); }

int close( int fd )
{
  if( isFake( fd ) ) return simClose( fd );
  return static_cast<int>( syscall( SYS_close, fd ) );
}

int fstat( int fd, struct stat* st ) noexcept
{
  if( isFake( fd ) ) { auto* d = descriptor( fd ); if( !d ) { errno = EBADF; return -1; } fillStat( *d->file, st ); return 0; }
  return static_cast<int>( syscall( SYS_fstat, fd, st ) );
}
int fstat64( int fd, struct stat64* st ) noexcept { return fstat( fd, reinterpret_cast<struct stat*>( st ) ); }

int stat( const char* p, struct stat* st ) noexcept
{
  if( simulated( p ) ) return simStat( p, st, true );
  return static_cast<int>( syscall( SYS_stat, p, st ) );
}
int stat64( const char* p, struct stat64* st ) noexcept { return stat( p, reinterpret_cast<struct stat*>( st ) ); }

int lstat( const char* p, struct stat* st ) noexcept
{
  if( simulated( p ) ) return simStat( p, st, false );
  return static_cast<int>( syscall( SYS_lstat, p, st ) );
}
int lstat64( const char* p, struct stat64* st ) noexcept { return lstat( p, reinterpret_cast<struct stat*>( st ) ); }

int access( const char* p, int mode ) noexcept
{
  if( simulated( p ) )
  {
    int error = ENOENT;
    auto* f   = resolve( p, &error );
    if( !f ) { errno = error; return -1; }
    if( f->statError ) { deliver( "io.stat-error", static_cast<std::uint64_t>( f->statError ) ); errno = f->statError; return -1; }
    return 0;
  }
  return static_cast<int>( syscall( SYS_access, p, mode ) );
}

int unlink( const char* p ) noexcept
{
  if( simulated( p ) ) { auto* f = lookup( p ); if( !f ) { errno = ENOENT; return -1; } f->used = false; return 0; }
  return static_cast<int>( syscall( SYS_unlink, p ) );
}

int ftruncate( int fd, off_t n ) noexcept
{
  if( isFake( fd ) )
  {
    auto* d = descriptor( fd );
    if( !d ) { errno = EBADF; return -1; }
    reserve( *d->file, static_cast<std::size_t>( n ) + 1 );
    if( static_cast<std::size_t>( n ) > d->file->size )
      std::memset( d->file->data + d->file->size, 0, static_cast<std::size_t>( n ) - d->file->size );
    d->file->size = static_cast<std::size_t>( n );
    return 0;
  }
  return static_cast<int>( syscall( SYS_ftruncate, fd, n ) );
}
int ftruncate64( int fd, off64_t n ) noexcept { return ftruncate( fd, n ); }

int flock( int fd, int op ) noexcept
{
  if( isFake( fd ) ) return 0;
  return static_cast<int>( syscall( SYS_flock, fd, op ) );
}

int fsync( int fd )
{
  if( isFake( fd ) ) return 0;
  return static_cast<int>( syscall( SYS_fsync, fd ) );
}

int ioctl( int fd, unsigned long request, ... ) noexcept
{
  va_list ap; va_start( ap, request ); void* arg = va_arg( ap, void* ); va_end( ap );
  if( isFake( fd ) )
  {
    auto* d = descriptor( fd );
    if( request == FIONREAD && d )
    {
      *static_cast<int*>( arg ) = static_cast<int>( static_cast<std::int64_t>( d->file->size ) - d->position );
      return 0;
    }
    errno = ENOTTY;
    return -1;
  }
  return static_cast<int>( syscall( SYS_ioctl, fd, request, arg ) );
}

int poll( struct pollfd* fds, nfds_t n, int timeout )
{
  if( n == 1 && isFake( fds[0].fd ) ) { fds[0].revents = fds[0].events; return 1; }
  return static_cast<int>( syscall( SYS_poll, fds, n, timeout ) );
}

FILE* fopen( const char* path, const char* mode )
{
  if( simulated( path ) ) return simFopen( path, mode );
  return REAL( fopen )( path, mode );
}

FILE* fopen64( const char* path, const char* mode )
{
  if( simulated( path ) ) return simFopen( path, mode );
  return REAL( fopen64 )( path, mode );
}

int fileno( FILE* f ) noexcept
{
  if( auto* s = stream( f ) ) return s->fd;
  return REAL( fileno )( f );
}

int fclose( FILE* f )
{
  if( auto* s = stream( f ) ) { s->used = false; return simClose( s->fd ); }
  return REAL( fclose )( f );
}

int fflush( FILE* f )
{
  if( f && stream( f ) ) return 0;
  return REAL( fflush )( f );
}

size_t fread( void* b, size_t size, size_t n, FILE* f )
{
  if( auto* s = stream( f ) ) return size ? simFread( *s, b, size * n ) / size : 0;
  return REAL( fread )( b, size, n, f );
}

size_t fwrite( const void* b, size_t size, size_t n, FILE* f )
{
  if( auto* s = stream( f ) ) return size ? simFwrite( *s, b, size * n ) / size : 0;
  return REAL( fwrite )( b, size, n, f );
}

int fgetc( FILE* f )
{
  if( auto* s = stream( f ) ) { unsigned char c; return simFread( *s, &c, 1 ) == 1 ? c : EOF; }
  return REAL( fgetc )( f );
}

int getc( FILE* f )
{
  if( stream( f ) ) return fgetc( f );
  return REAL( getc )( f );
}

int ungetc( int c, FILE* f )
{
  if( auto* s = stream( f ) ) { s->pushedBack = c; s->eof = false; return c; }
  return REAL( ungetc )( c, f );
}

char* fgets( char* b, int n, FILE* f )
{
  if( auto* s = stream( f ) )
  {
    int i = 0;
    while( i + 1 < n )
    {
      unsigned char c;
      if( simFread( *s, &c, 1 ) != 1 ) break;
      b[i++] = static_cast<char>( c );
      if( c == '\n' ) break;
    }
    b[i] = 0;
    return i && !s->error ? b : nullptr;
  }
  return REAL( fgets )( b, n, f );
}

int fputs( const char* t, FILE* f )
{
  if( auto* s = stream( f ) ) { size_t n = std::strlen( t ); return simFwrite( *s, t, n ) == n ? 1 : EOF; }
  return REAL( fputs )( t, f );
}

int fputc( int c, FILE* f )
{
  if( auto* s = stream( f ) ) { unsigned char b = static_cast<unsigned char>( c ); return simFwrite( *s, &b, 1 ) == 1 ? b : EOF; }
  return REAL( fputc )( c, f );
}

int vfprintf( FILE* f, const char* format, va_list ap )
{
  if( auto* s = stream( f ) )
  {
    char b[4096];
    int n = std::vsnprintf( b, sizeof( b ), format, ap );
    if( n < 0 ) return n;
    size_t m = static_cast<size_t>( n ) < sizeof( b ) ? static_cast<size_t>( n ) : sizeof( b ) - 1;
    return simFwrite( *s, b, m ) == m ? n : -1;
  }
  return REAL( vfprintf )( f, format, ap );
}

int fseek( FILE* f, long o, int w )
{
  if( auto* s = stream( f ) ) { s->eof = false; s->pushedBack = -1; return simSeek( *descriptor( s->fd ), o, w ) < 0 ? -1 : 0; }
  return REAL( fseek )( f, o, w );
}

int fseeko( FILE* f, off_t o, int w ) { if( stream( f ) ) return fseek( f, o, w ); return REAL( fseeko )( f, o, w ); }
int fseeko64( FILE* f, off64_t o, int w ) { if( stream( f ) ) return fseek( f, o, w ); return REAL( fseeko64 )( f, o, w ); }

long ftell( FILE* f )
{
  if( auto* s = stream( f ) ) return descriptor( s->fd )->position;
  return REAL( ftell )( f );
}

off_t ftello( FILE* f ) { if( stream( f ) ) return ftell( f ); return REAL( ftello )( f ); }
off64_t ftello64( FILE* f ) { if( stream( f ) ) return ftell( f ); return REAL( ftello64 )( f ); }

void rewind( FILE* f )
{
  if( auto* s = stream( f ) ) { fseek( f, 0, SEEK_SET ); s->error = false; return; }
  REAL( rewind )( f );
}

int ferror( FILE* f ) noexcept
{
  if( auto* s = stream( f ) ) return s->error;
  return REAL( ferror )( f );
}

int feof( FILE* f ) noexcept
{
  if( auto* s = stream( f ) ) return s->eof;
  return REAL( feof )( f );
}

void clearerr( FILE* f ) noexcept
{
  if( auto* s = stream( f ) ) { s->eof = s->error = false; return; }
  REAL( clearerr )( f );
}

} // extern "C"
