// Deterministic simulation runtime: fork server, simulated disk, clock, allocator and OpenMP scheduler.
//
// One process image hosts the real command line simulator (its main is compiled as cli_main). Each request forks a child
// that runs cli_main once; everything the child can observe of its environment passes through the seams below and is
// decided by the request (seeds and an explicit fault list), so that one request is one exactly repeatable execution.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "runtime.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <string>
#include <vector>

int cli_main( int argc, char** argv );

extern "C" void* __libc_malloc( size_t );
extern "C" void __libc_free( void* );
extern "C" void* __libc_calloc( size_t, size_t );
extern "C" void* __libc_realloc( void*, size_t );
extern "C" void* __libc_memalign( size_t, size_t );

namespace
{

// ---------------------------------------------------------------------------------------------------------------- state
constexpr std::size_t ARENA_SIZE = 24u << 20;
struct Arena { std::uint32_t len; std::uint32_t ops; std::uint64_t allocs; std::uint64_t yields; std::uint64_t switches; std::uint64_t shash; std::uint32_t overflow; std::uint32_t regions; std::uint64_t clocks; char text[ARENA_SIZE]; };
Arena* g_arena = nullptr;
bool g_live = false; // in a child, executing the simulator

struct Fault { long idx; std::string action; long p1; long p2; bool fired; };
std::vector<Fault>* g_faults = nullptr;
bool g_disk_full = false;
bool g_write_eio = false;
bool g_read_eio = false;
std::string* g_root = nullptr;

std::uint64_t splitmix( std::uint64_t& s )
{
  std::uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
  z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
  z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
  return z ^ ( z >> 31 );
}
std::uint64_t g_seed = 1;

// fd table
constexpr int MAXFD = 1024;
std::string* g_fdpath[MAXFD];

// clock
int g_clock_mode = 0;
std::uint64_t g_clock_seed = 0;
long long g_clock_ns = 1000000000ll * 1420070400ll;

int g_exempt = 0;
// allocator
int g_mem_mode = 0;
std::uint64_t g_mem_seed = 0;
long g_oom_at = -1;

FILE* ( *real_fopen )( const char*, const char* ) = nullptr;
FILE* ( *real_fopen64 )( const char*, const char* ) = nullptr;
int ( *real_fclose )( FILE* ) = nullptr;

[[noreturn]] void crashNow()
{
  syscall( SYS_kill, syscall( SYS_getpid ), SIGKILL );
  for(;;) { pause(); }
}

bool isSimPath( const char* p )
{
  if( !g_live || p == nullptr || p[0] == '\0' ) { return false; }
  if( p[0] != '/' ) { return true; }
  return g_root != nullptr && strncmp( p, g_root->c_str(), g_root->size() ) == 0;
}

std::string cleanPath( const char* p )
{
  std::string s{ p };
  if( g_root != nullptr && s.compare( 0, g_root->size(), *g_root ) == 0 )
  {
    s = s.substr( g_root->size() );
    while( !s.empty() && s[0] == '/' ) { s = s.substr( 1 ); }
  }
  for( char& c : s ) { if( c == ' ' || c == '\n' ) { c = '_'; } }
  return s.empty() ? std::string( "." ) : s;
}

Fault* findFault( const long idx )
{
  if( g_faults == nullptr ) { return nullptr; }
  for( Fault& f : *g_faults ) { if( f.idx == idx && !f.fired ) { return &f; } }
  return nullptr;
}

void fired( Fault* f, const char* kind )
{
  f->fired = true;
  rt::event( "F %ld %s %s %ld %ld", f->idx, f->action.c_str(), kind, f->p1, f->p2 );
}

// Begins an operation: assigns its index, honours crash_before
long g_cur_op = -1;
Fault* beginOp( const char* kind, const char* path, const long n )
{
  const long idx = long( g_arena->ops++ );
  g_cur_op = idx;
  Fault* f = findFault( idx );
  rt::event( "O %ld %s %s %ld", idx, kind, path, n );
  if( f != nullptr && f->action == "crash_before" ) { fired( f, kind ); crashNow(); }
  return f;
}
void endOp( Fault* f, const char* kind )
{
  if( f != nullptr && !f->fired && f->action == "crash_after" ) { fired( f, kind ); crashNow(); }
}

ssize_t rawWrite( int fd, const void* b, size_t n ) { return syscall( SYS_write, fd, b, n ); }
ssize_t rawRead( int fd, void* b, size_t n ) { return syscall( SYS_read, fd, b, n ); }

void rawWriteAll( int fd, const char* b, size_t n )
{
  while( n > 0 )
  {
    const ssize_t r = rawWrite( fd, b, n );
    if( r <= 0 ) { return; }
    b += r; n -= size_t( r );
  }
}

ssize_t simWrite( int fd, const char* buf, size_t n )
{
  const std::string& path = *g_fdpath[fd];
  Fault* f = beginOp( "write", path.c_str(), long( n ) );
  if( f != nullptr )
  {
    const std::string& a = f->action;
    const size_t k = n == 0 ? 0 : size_t( f->p1 ) % n;
    if( a == "torn" ) { fired( f, "write" ); rawWriteAll( fd, buf, k ); crashNow(); }
    if( a == "enospc" ) { fired( f, "write" ); if( f->p2 != 0 ) { g_disk_full = true; } if( k > 0 ) { rawWriteAll( fd, buf, k ); g_disk_full = true; return ssize_t( k ); } errno = ENOSPC; return -1; }
    if( a == "eio" ) { fired( f, "write" ); if( f->p2 != 0 ) { g_write_eio = true; } errno = EIO; return -1; }
    if( a == "short" && n > 1 ) { fired( f, "write" ); const size_t kk = k == 0 ? 1 : k; rawWriteAll( fd, buf, kk ); return ssize_t( kk ); }
    if( a == "eintr" ) { fired( f, "write" ); errno = EINTR; return -1; }
  }
  if( g_disk_full && n > 0 ) { errno = ENOSPC; rt::event( "f enospc write" ); return -1; }
  if( g_write_eio ) { errno = EIO; rt::event( "f eio write" ); return -1; }
  rawWriteAll( fd, buf, n );
  endOp( f, "write" );
  return ssize_t( n );
}

ssize_t simRead( int fd, char* buf, size_t n )
{
  const std::string& path = *g_fdpath[fd];
  Fault* f = beginOp( "read", path.c_str(), long( n ) );
  if( f != nullptr )
  {
    const std::string& a = f->action;
    if( a == "eio" ) { fired( f, "read" ); if( f->p2 != 0 ) { g_read_eio = true; } errno = EIO; return -1; }
    if( a == "eintr" ) { fired( f, "read" ); errno = EINTR; return -1; }
    if( a == "short" && n > 1 ) { fired( f, "read" ); const size_t k = 1 + size_t( f->p1 ) % ( n - 1 ); return rawRead( fd, buf, k ); }
  }
  if( g_read_eio ) { errno = EIO; return -1; }
  const ssize_t r = rawRead( fd, buf, n );
  endOp( f, "read" );
  return r;
}

int openErrno( const long p ) { const int es[] = { EACCES, ENOSPC, EMFILE, EIO, EROFS }; return es[ size_t( p ) % 5 ]; }

void setFd( int fd, const char* path )
{
  if( fd >= 0 && fd < MAXFD )
  {
    delete g_fdpath[fd];
    g_fdpath[fd] = new std::string( cleanPath( path ) );
  }
}
bool isSimFd( int fd ) { return g_live && fd >= 0 && fd < MAXFD && g_fdpath[fd] != nullptr; }
void dropFd( int fd ) { if( fd >= 0 && fd < MAXFD ) { delete g_fdpath[fd]; g_fdpath[fd] = nullptr; } }

// returns 0 to go on, or -1 with errno
int simOpenGate( const char* path, const bool w, Fault*& f )
{
  f = beginOp( w ? "openw" : "openr", cleanPath( path ).c_str(), 0 );
  if( f != nullptr && f->action == "openfail" ) { fired( f, w ? "openw" : "openr" ); errno = w ? openErrno( f->p1 ) : EACCES; return -1; }
  return 0;
}

// Gate for close: returns true if the close must report failure. A failing close loses the tail of the file.
bool simCloseGate( int fd, Fault*& f )
{
  const std::string path = *g_fdpath[fd];
  f = beginOp( "close", path.c_str(), 0 );
  if( f != nullptr && f->action == "closefail" )
  {
    fired( f, "close" );
    const int fl = fcntl( fd, F_GETFL );
    if( ( fl & O_ACCMODE ) != O_RDONLY )
    {
      struct stat st;
      if( fstat( fd, &st ) == 0 ) { if( syscall( SYS_ftruncate, fd, st.st_size / 2 ) != 0 ) {} }
    }
    return true;
  }
  return false;
}

} // namespace

// ------------------------------------------------------------------------------------------------------------ rt helpers
namespace rt
{
void event( const char* fmt, ... )
{
  if( g_arena == nullptr || !g_live ) { return; }
  const std::uint32_t len = g_arena->len;
  if( len + 262144 >= ARENA_SIZE ) { g_arena->overflow = 1; _exit( 98 ); } // a runaway execution ends here, always at the same point
  va_list ap;
  va_start( ap, fmt );
  const int n = vsnprintf( g_arena->text + len, 262100, fmt, ap );
  va_end( ap );
  if( n < 0 ) { return; }
  const std::uint32_t m = n > 262099 ? 262099u : std::uint32_t( n );
  g_arena->text[len + m] = '\n';
  g_arena->len = len + m + 1;
}
static Fault* g_lib_fault = nullptr;
void exempt( int d ) { g_exempt += d; }
bool libOp( const char* kind, const char* what )
{
  g_lib_fault = beginOp( kind, what, 0 );
  if( g_lib_fault != nullptr && g_lib_fault->action == "fail" ) { fired( g_lib_fault, kind ); return true; }
  return false;
}
void libOpDone() { endOp( g_lib_fault, "lib" ); g_lib_fault = nullptr; }
bool faultsActive() { return g_faults != nullptr && !g_faults->empty(); }
std::uint64_t rng() { return splitmix( g_seed ); }
std::string rel( const char* p ) { return cleanPath( p ); }

int diskOpen( const char* path, bool w, bool trunc )
{
  Fault* f = nullptr;
  if( isSimPath( path ) )
  {
    if( simOpenGate( path, w, f ) != 0 ) { return -1; }
  }
  const int fd = int( syscall( SYS_openat, AT_FDCWD, path, w ? ( O_RDWR | ( trunc ? O_CREAT | O_TRUNC : 0 ) ) : O_RDONLY, 0644 ) );
  if( fd >= 0 && isSimPath( path ) ) { setFd( fd, path ); }
  endOp( f, "open" );
  return fd;
}
bool diskWriteAll( int fd, const char* b, std::size_t n )
{
  while( n > 0 )
  {
    const size_t chunk = n > 4096 ? 4096 : n;
    const ssize_t r = isSimFd( fd ) ? simWrite( fd, b, chunk ) : rawWrite( fd, b, chunk );
    if( r < 0 ) { if( errno == EINTR ) { continue; } return false; }
    b += r; n -= size_t( r );
  }
  return true;
}
bool diskReadAll( const char* path, std::string& out )
{
  const int fd = diskOpen( path, false, false );
  if( fd < 0 ) { return false; }
  char buf[8192];
  bool ok = true;
  for(;;)
  {
    const ssize_t r = isSimFd( fd ) ? simRead( fd, buf, sizeof buf ) : rawRead( fd, buf, sizeof buf );
    if( r < 0 ) { if( errno == EINTR ) { continue; } ok = false; break; }
    if( r == 0 ) { break; }
    out.append( buf, size_t( r ) );
  }
  diskClose( fd );
  return ok;
}
int diskClose( int fd )
{
  Fault* f = nullptr;
  bool bad = false;
  if( isSimFd( fd ) ) { bad = simCloseGate( fd, f ); dropFd( fd ); }
  syscall( SYS_close, fd );
  if( bad ) { errno = EIO; return -1; }
  endOp( f, "close" );
  return 0;
}
} // namespace rt

// ---------------------------------------------------------------------------------------------------------- libc: disk
extern "C"
{
static FILE* doFopen( const char* path, const char* mode, bool is64 )
{
  auto real = is64 ? real_fopen64 : real_fopen;
  if( real == nullptr ) { real = reinterpret_cast<FILE*(*)( const char*, const char* )>( dlsym( RTLD_NEXT, is64 ? "fopen64" : "fopen" ) ); }
  if( !isSimPath( path ) ) { return real( path, mode ); }
  Fault* f = nullptr;
  const bool w = strpbrk( mode, "wa+" ) != nullptr;
  if( simOpenGate( path, w, f ) != 0 ) { return nullptr; }
  FILE* r = real( path, mode );
  if( r != nullptr ) { setFd( fileno( r ), path ); }
  endOp( f, "open" );
  return r;
}
FILE* fopen( const char* path, const char* mode ) { return doFopen( path, mode, false ); }
FILE* fopen64( const char* path, const char* mode ) { return doFopen( path, mode, true ); }
int fclose( FILE* s )
{
  if( real_fclose == nullptr ) { real_fclose = reinterpret_cast<int(*)( FILE* )>( dlsym( RTLD_NEXT, "fclose" ) ); }
  const int fd = fileno( s );
  if( !isSimFd( fd ) ) { return real_fclose( s ); }
  Fault* f = nullptr;
  const bool bad = simCloseGate( fd, f );
  dropFd( fd );
  const int r = real_fclose( s );
  if( bad ) { errno = EIO; return EOF; }
  endOp( f, "close" );
  return r;
}
static int doOpen( const char* path, int flags, mode_t mode )
{
  if( !isSimPath( path ) ) { return int( syscall( SYS_openat, AT_FDCWD, path, flags, mode ) ); }
  Fault* f = nullptr;
  if( simOpenGate( path, ( flags & O_ACCMODE ) != O_RDONLY, f ) != 0 ) { return -1; }
  const int fd = int( syscall( SYS_openat, AT_FDCWD, path, flags, mode ) );
  if( fd >= 0 ) { setFd( fd, path ); }
  endOp( f, "open" );
  return fd;
}
int open( const char* path, int flags, ... )
{
  va_list ap; va_start( ap, flags ); const mode_t m = mode_t( va_arg( ap, int ) ); va_end( ap );
  return doOpen( path, flags, m );
}
int open64( const char* path, int flags, ... )
{
  va_list ap; va_start( ap, flags ); const mode_t m = mode_t( va_arg( ap, int ) ); va_end( ap );
  return doOpen( path, flags | O_LARGEFILE, m );
}
ssize_t write( int fd, const void* b, size_t n ) { return isSimFd( fd ) ? simWrite( fd, static_cast<const char*>( b ), n ) : rawWrite( fd, b, n ); }
ssize_t read( int fd, void* b, size_t n ) { return isSimFd( fd ) ? simRead( fd, static_cast<char*>( b ), n ) : rawRead( fd, b, n ); }
ssize_t writev( int fd, const struct iovec* v, int c )
{
  if( !isSimFd( fd ) ) { return syscall( SYS_writev, fd, v, c ); }
  std::string s;
  for( int i = 0; i < c; ++i ) { s.append( static_cast<const char*>( v[i].iov_base ), v[i].iov_len ); }
  return simWrite( fd, s.data(), s.size() );
}
ssize_t readv( int fd, const struct iovec* v, int c )
{
  if( !isSimFd( fd ) ) { return syscall( SYS_readv, fd, v, c ); }
  for( int i = 0; i < c; ++i ) { if( v[i].iov_len > 0 ) { return simRead( fd, static_cast<char*>( v[i].iov_base ), v[i].iov_len ); } }
  return 0;
}
int close( int fd )
{
  if( !isSimFd( fd ) ) { return int( syscall( SYS_close, fd ) ); }
  return rt::diskClose( fd );
}
static int pathOp( const char* kind, const char* a, const char* b, long ( *call )( const char*, const char* ) )
{
  if( !isSimPath( a ) ) { return int( call( a, b ) ); }
  const std::string what = cleanPath( a ) + ( b != nullptr ? ">" + cleanPath( b ) : std::string{} );
  Fault* f = beginOp( kind, what.c_str(), 0 );
  if( f != nullptr && f->action == "fail" ) { fired( f, kind ); errno = ( f->p1 & 1 ) ? EIO : ENOSPC; return -1; }
  const int r = int( call( a, b ) );
  endOp( f, kind );
  return r;
}
int rename( const char* a, const char* b ) noexcept { return pathOp( "rename", a, b, []( const char* x, const char* y ) { return syscall( SYS_rename, x, y ); } ); }
int unlink( const char* a ) noexcept { return pathOp( "unlink", a, nullptr, []( const char* x, const char* ) { return syscall( SYS_unlink, x ); } ); }
int remove( const char* a ) noexcept { return pathOp( "unlink", a, nullptr, []( const char* x, const char* ) { return syscall( SYS_unlink, x ); } ); }
int link( const char* a, const char* b ) noexcept { return pathOp( "link", a, b, []( const char* x, const char* y ) { return syscall( SYS_link, x, y ); } ); }
int symlink( const char* a, const char* b ) noexcept { return pathOp( "symlink", a, b, []( const char* x, const char* y ) { return syscall( SYS_symlink, x, y ); } ); }
int fsync( int fd )
{
  if( !isSimFd( fd ) ) { return int( syscall( SYS_fsync, fd ) ); }
  Fault* f = beginOp( "fsync", g_fdpath[fd]->c_str(), 0 );
  if( f != nullptr && f->action == "fail" ) { fired( f, "fsync" ); errno = EIO; return -1; }
  endOp( f, "fsync" );
  return 0;
}
int fdatasync( int fd ) { return fsync( fd ); }
int ftruncate( int fd, off_t n ) noexcept
{
  if( !isSimFd( fd ) ) { return int( syscall( SYS_ftruncate, fd, n ) ); }
  Fault* f = beginOp( "ftruncate", g_fdpath[fd]->c_str(), long( n ) );
  if( f != nullptr && f->action == "fail" ) { fired( f, "ftruncate" ); errno = EIO; return -1; }
  const int r = int( syscall( SYS_ftruncate, fd, n ) );
  endOp( f, "ftruncate" );
  return r;
}

// -------------------------------------------------------------------------------------------------------- libc: clock
static long long nowNs()
{
  ++g_arena->clocks;
  switch( g_clock_mode )
  {
    case 0: g_clock_ns += 1000000; break; // steady
    case 1: g_clock_ns += (long long)( splitmix( g_clock_seed ) % 5000000000ull ); break; // jumping forwards
    case 2: g_clock_ns += (long long)( splitmix( g_clock_seed ) % 7200000000000ull ) - 3600000000000ll; break; // jumping both ways
    default: break; // frozen
  }
  if( g_clock_ns < 0 ) { g_clock_ns = 0; }
  return g_clock_ns;
}
time_t time( time_t* t ) noexcept
{
  if( !g_live ) { struct timespec ts; syscall( SYS_clock_gettime, CLOCK_REALTIME, &ts ); if( t ) { *t = ts.tv_sec; } return ts.tv_sec; }
  const time_t v = time_t( nowNs() / 1000000000ll );
  if( t != nullptr ) { *t = v; }
  return v;
}
int clock_gettime( clockid_t id, struct timespec* ts ) noexcept
{
  if( !g_live ) { return int( syscall( SYS_clock_gettime, id, ts ) ); }
  const long long n = nowNs();
  ts->tv_sec = n / 1000000000ll; ts->tv_nsec = n % 1000000000ll;
  return 0;
}
int gettimeofday( struct timeval* tv, void* ) noexcept
{
  if( !g_live ) { struct timespec ts; syscall( SYS_clock_gettime, CLOCK_REALTIME, &ts ); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
  const long long n = nowNs();
  tv->tv_sec = n / 1000000000ll; tv->tv_usec = ( n % 1000000000ll ) / 1000;
  return 0;
}
clock_t clock() noexcept { return g_live ? clock_t( nowNs() / 1000 ) : 0; }
int nanosleep( const struct timespec* a, struct timespec* ) { if( g_live ) { g_clock_ns += a->tv_sec * 1000000000ll + a->tv_nsec; return 0; } return int( syscall( SYS_nanosleep, a, nullptr ) ); }
pid_t getpid() noexcept { return g_live ? pid_t( 1000 + g_mem_seed % 30000 ) : pid_t( syscall( SYS_getpid ) ); }
static std::uint64_t g_ent = 0;
ssize_t getrandom( void* b, size_t n, unsigned ) { for( size_t i = 0; i < n; ++i ) { static_cast<unsigned char*>( b )[i] = (unsigned char)( splitmix( g_ent ) ); } return ssize_t( n ); }
int getentropy( void* b, size_t n ) { getrandom( b, n, 0 ); return 0; }

// ---------------------------------------------------------------------------------------------------- libc: allocator
static inline void fillMem( void* p, size_t n )
{
  if( g_mem_mode == 0 || p == nullptr ) { return; }
  unsigned char* c = static_cast<unsigned char*>( p );
  if( n > 65536 ) { n = 65536; }
  switch( g_mem_mode )
  {
    case 1: memset( c, 0, n ); break;
    case 2: memset( c, 0xA5, n ); break;
    case 3: memset( c, 0xFF, n ); break;
    default:
    {
      std::uint64_t s = g_mem_seed + g_arena->allocs;
      size_t i = 0;
      for( ; i + 8 <= n; i += 8 ) { const std::uint64_t v = splitmix( s ); memcpy( c + i, &v, 8 ); }
      for( ; i < n; ++i ) { c[i] = (unsigned char)( s + i ); }
    }
  }
}
static inline bool oomHere()
{
  if( !g_live || g_exempt > 0 ) { return false; }
  const long k = long( g_arena->allocs++ );
  if( g_oom_at >= 0 && k == g_oom_at ) { rt::event( "F %ld oom alloc 0 0", k ); return true; }
  return false;
}
static inline size_t skew( size_t n )
{
  if( !g_live || g_mem_mode < 4 ) { return n; }
  std::uint64_t s = g_mem_seed ^ ( g_arena->allocs * 77 );
  return n + ( splitmix( s ) & 0x70 );
}
void* malloc( size_t n )
{
  if( oomHere() ) { errno = ENOMEM; return nullptr; }
  void* p = __libc_malloc( skew( n ) );
  if( g_live ) { fillMem( p, n ); }
  return p;
}
void free( void* p ) { __libc_free( p ); }
void* calloc( size_t a, size_t b )
{
  if( oomHere() ) { errno = ENOMEM; return nullptr; }
  return __libc_calloc( a, b );
}
void* realloc( void* p, size_t n )
{
  if( oomHere() ) { errno = ENOMEM; return nullptr; }
  return __libc_realloc( p, n );
}
void* memalign( size_t a, size_t n )
{
  if( oomHere() ) { errno = ENOMEM; return nullptr; }
  void* p = __libc_memalign( a, n );
  if( g_live ) { fillMem( p, n ); }
  return p;
}
void* aligned_alloc( size_t a, size_t n ) { return memalign( a, n ); }
int posix_memalign( void** o, size_t a, size_t n )
{
  void* p = memalign( a, n );
  if( p == nullptr ) { return ENOMEM; }
  *o = p;
  return 0;
}
} // extern C

// ------------------------------------------------------------------------------------------- simulated OpenMP scheduler
namespace
{
struct Co { ucontext_t ctx; char* stack; bool done; int wait; }; // wait: 0 runnable, 1 barrier, 2 lock
constexpr size_t CO_STACK = 512 * 1024;
int g_omp_threads = 1;
std::uint64_t g_omp_seed = 0;
int g_omp_rate = 0; // 1/rate chance of a switch at a yield point; 0: never
std::vector<Co>* g_team = nullptr;
int g_cur = -1;
ucontext_t g_sched;
void ( *g_fn )( void* ) = nullptr;
void* g_fn_data = nullptr;
bool g_crit = false;
// current work-sharing loop
struct Loop { bool active; long next, end, incr, chunk; int entered; int left; };
Loop g_loop{};

void coMain()
{
  g_fn( g_fn_data );
  ( *g_team )[ size_t( g_cur ) ].done = true;
  swapcontext( &( *g_team )[ size_t( g_cur ) ].ctx, &g_sched );
}
void coSwitch() { swapcontext( &( *g_team )[ size_t( g_cur ) ].ctx, &g_sched ); }
}

extern "C"
{
void simYield()
{
  if( g_cur < 0 ) { return; }
  ++g_arena->yields;
  if( g_omp_rate > 0 && splitmix( g_omp_seed ) % std::uint64_t( g_omp_rate ) == 0 ) { coSwitch(); }
}

int omp_get_thread_num() { return g_cur < 0 ? 0 : g_cur; }
int omp_get_num_threads() { return g_team == nullptr ? 1 : int( g_team->size() ); }
int omp_get_max_threads() { return g_omp_threads; }
int omp_get_num_procs() { return g_omp_threads; }
void omp_set_num_threads( int n ) { if( n > 0 && n <= 64 ) { g_omp_threads = n; } }
int omp_in_parallel() { return g_cur >= 0; }
double omp_get_wtime() { struct timespec ts; clock_gettime( CLOCK_MONOTONIC, &ts ); return double( ts.tv_sec ) + 1.0e-9 * double( ts.tv_nsec ); }

void GOMP_parallel( void ( *fn )( void* ), void* data, unsigned nt, unsigned )
{
  const int n = nt != 0 ? int( nt ) : g_omp_threads;
  if( g_cur >= 0 || n <= 1 ) // nested or serial
  {
    const int save = g_cur;
    std::vector<Co>* team = g_team;
    std::vector<Co> one( 1 );
    g_team = &one; g_cur = -1;
    const Loop l = g_loop; g_loop = Loop{};
    fn( data );
    g_loop = l;
    g_team = team; g_cur = save;
    return;
  }
  ++g_arena->regions;
  std::vector<Co> team( static_cast<size_t>( n ) );
  g_team = &team; g_fn = fn; g_fn_data = data; g_loop = Loop{};
  for( Co& c : team )
  {
    c.stack = static_cast<char*>( mmap( nullptr, CO_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ) );
    c.done = false; c.wait = 0;
    getcontext( &c.ctx );
    c.ctx.uc_stack.ss_sp = c.stack; c.ctx.uc_stack.ss_size = CO_STACK; c.ctx.uc_link = &g_sched;
    makecontext( &c.ctx, coMain, 0 );
  }
  for(;;)
  {
    std::vector<int> ready;
    int waiting = 0;
    for( int i = 0; i < n; ++i )
    {
      Co& c = team[ size_t( i ) ];
      if( c.done ) { continue; }
      if( c.wait == 1 ) { ++waiting; continue; }
      if( c.wait == 2 && g_crit ) { continue; }
      ready.push_back( i );
    }
    if( ready.empty() )
    {
      if( waiting > 0 ) { for( Co& c : team ) { if( c.wait == 1 ) { c.wait = 0; } } continue; }
      break;
    }
    const int pick = ready[ size_t( splitmix( g_omp_seed ) % ready.size() ) ];
    ++g_arena->switches;
    g_arena->shash = ( g_arena->shash ^ std::uint64_t( pick + 1 + 131 * g_arena->yields ) ) * 0x100000001b3ull;
    g_cur = pick;
    swapcontext( &g_sched, &team[ size_t( pick ) ].ctx );
    g_cur = -1;
  }
  for( Co& c : team ) { munmap( c.stack, CO_STACK ); }
  g_team = nullptr;
}
void GOMP_barrier() { if( g_cur >= 0 ) { ( *g_team )[ size_t( g_cur ) ].wait = 1; coSwitch(); } }
void GOMP_critical_start() { if( g_cur >= 0 ) { while( g_crit ) { ( *g_team )[ size_t( g_cur ) ].wait = 2; coSwitch(); } ( *g_team )[ size_t( g_cur ) ].wait = 0; g_crit = true; simYield(); } }
void GOMP_critical_end() { g_crit = false; }
void GOMP_critical_name_start( void** ) { GOMP_critical_start(); }
void GOMP_critical_name_end( void** ) { GOMP_critical_end(); }
void GOMP_atomic_start() {}
void GOMP_atomic_end() {}
bool GOMP_single_start() { return g_cur <= 0; }

static bool loopNext( long* a, long* b )
{
  simYield();
  Loop& l = g_loop;
  if( l.incr > 0 ? l.next >= l.end : l.next <= l.end ) { return false; }
  const long c = l.chunk > 0 ? l.chunk : 1;
  *a = l.next;
  long e = l.next + c * l.incr;
  if( l.incr > 0 ? e > l.end : e < l.end ) { e = l.end; }
  *b = e;
  l.next = e;
  return true;
}
static void loopInit( long s, long e, long i, long c )
{
  if( !g_loop.active ) { g_loop = Loop{ true, s, e, i, c, 0, 0 }; }
}
static bool loopStart( long s, long e, long i, long c, long* a, long* b ) { loopInit( s, e, i, c ); return loopNext( a, b ); }
static void loopEnd( bool wait )
{
  const int n = omp_get_num_threads();
  if( ++g_loop.left >= n ) { g_loop = Loop{}; }
  if( wait ) { GOMP_barrier(); }
}
bool GOMP_loop_dynamic_start( long s, long e, long i, long c, long* a, long* b ) { return loopStart( s, e, i, c, a, b ); }
bool GOMP_loop_dynamic_next( long* a, long* b ) { return loopNext( a, b ); }
bool GOMP_loop_guided_start( long s, long e, long i, long c, long* a, long* b ) { return loopStart( s, e, i, c, a, b ); }
bool GOMP_loop_guided_next( long* a, long* b ) { return loopNext( a, b ); }
bool GOMP_loop_runtime_start( long s, long e, long i, long* a, long* b ) { return loopStart( s, e, i, 1, a, b ); }
bool GOMP_loop_runtime_next( long* a, long* b ) { return loopNext( a, b ); }
bool GOMP_loop_nonmonotonic_dynamic_start( long s, long e, long i, long c, long* a, long* b ) { return loopStart( s, e, i, c, a, b ); }
bool GOMP_loop_nonmonotonic_dynamic_next( long* a, long* b ) { return loopNext( a, b ); }
bool GOMP_loop_nonmonotonic_guided_start( long s, long e, long i, long c, long* a, long* b ) { return loopStart( s, e, i, c, a, b ); }
bool GOMP_loop_nonmonotonic_guided_next( long* a, long* b ) { return loopNext( a, b ); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start( long s, long e, long i, long* a, long* b ) { return loopStart( s, e, i, 1, a, b ); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next( long* a, long* b ) { return loopNext( a, b ); }
void GOMP_loop_end() { loopEnd( true ); }
void GOMP_loop_end_nowait() { loopEnd( false ); }
static void parLoop( void ( *fn )( void* ), void* d, unsigned nt, long s, long e, long i, long c )
{
  static long S, E, I, C;
  S = s; E = e; I = i; C = c;
  struct Init { static void set() { g_loop = Loop{ true, S, E, I, C, 0, 0 }; } };
  // GOMP_parallel clears the loop, so install it from the first coroutine entry
  struct D { void ( *fn )( void* ); void* d; bool init; } dd{ fn, d, false };
  GOMP_parallel( []( void* p ) { D* q = static_cast<D*>( p ); if( !q->init ) { q->init = true; Init::set(); } q->fn( q->d ); }, &dd, nt, 0 );
}
void GOMP_parallel_loop_dynamic( void ( *fn )( void* ), void* d, unsigned nt, long s, long e, long i, long c, unsigned ) { parLoop( fn, d, nt, s, e, i, c ); }
void GOMP_parallel_loop_guided( void ( *fn )( void* ), void* d, unsigned nt, long s, long e, long i, long c, unsigned ) { parLoop( fn, d, nt, s, e, i, c ); }
void GOMP_parallel_loop_runtime( void ( *fn )( void* ), void* d, unsigned nt, long s, long e, long i, unsigned ) { parLoop( fn, d, nt, s, e, i, 1 ); }
void GOMP_parallel_loop_nonmonotonic_dynamic( void ( *fn )( void* ), void* d, unsigned nt, long s, long e, long i, long c, unsigned ) { parLoop( fn, d, nt, s, e, i, c ); }
void GOMP_parallel_loop_nonmonotonic_guided( void ( *fn )( void* ), void* d, unsigned nt, long s, long e, long i, long c, unsigned ) { parLoop( fn, d, nt, s, e, i, c ); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime( void ( *fn )( void* ), void* d, unsigned nt, long s, long e, long i, unsigned ) { parLoop( fn, d, nt, s, e, i, 1 ); }

// Memory-access instrumentation of the translation units that contain parallel regions: every access is a yield point.
#define TS( name ) void name( void* ) { simYield(); }
TS( __tsan_read1 ) TS( __tsan_read2 ) TS( __tsan_read4 ) TS( __tsan_read8 ) TS( __tsan_read16 )
TS( __tsan_write1 ) TS( __tsan_write2 ) TS( __tsan_write4 ) TS( __tsan_write8 ) TS( __tsan_write16 )
TS( __tsan_unaligned_read2 ) TS( __tsan_unaligned_read4 ) TS( __tsan_unaligned_read8 ) TS( __tsan_unaligned_read16 )
TS( __tsan_unaligned_write2 ) TS( __tsan_unaligned_write4 ) TS( __tsan_unaligned_write8 ) TS( __tsan_unaligned_write16 )
TS( __tsan_volatile_read1 ) TS( __tsan_volatile_read2 ) TS( __tsan_volatile_read4 ) TS( __tsan_volatile_read8 ) TS( __tsan_volatile_read16 )
TS( __tsan_volatile_write1 ) TS( __tsan_volatile_write2 ) TS( __tsan_volatile_write4 ) TS( __tsan_volatile_write8 ) TS( __tsan_volatile_write16 )
TS( __tsan_vptr_read ) TS( __tsan_func_entry )
void __tsan_vptr_update( void**, void* ) { simYield(); }
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_read_range( void*, unsigned long ) { simYield(); }
void __tsan_write_range( void*, unsigned long ) { simYield(); }
void __tsan_atomic_thread_fence( int ) {}
void __tsan_atomic_signal_fence( int ) {}
#define TSA( B, T ) \
  T __tsan_atomic##B##_load( const volatile T* a, int ) { simYield(); return *a; } \
  void __tsan_atomic##B##_store( volatile T* a, T v, int ) { simYield(); *a = v; } \
  T __tsan_atomic##B##_exchange( volatile T* a, T v, int ) { simYield(); const T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add( volatile T* a, T v, int ) { simYield(); const T o = *a; *a = T( o + v ); return o; } \
  T __tsan_atomic##B##_fetch_sub( volatile T* a, T v, int ) { simYield(); const T o = *a; *a = T( o - v ); return o; } \
  T __tsan_atomic##B##_fetch_and( volatile T* a, T v, int ) { simYield(); const T o = *a; *a = T( o & v ); return o; } \
  T __tsan_atomic##B##_fetch_or( volatile T* a, T v, int ) { simYield(); const T o = *a; *a = T( o | v ); return o; } \
  T __tsan_atomic##B##_fetch_xor( volatile T* a, T v, int ) { simYield(); const T o = *a; *a = T( o ^ v ); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong( volatile T* a, T* c, T v, int, int ) { simYield(); if( *a == *c ) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak( volatile T* a, T* c, T v, int, int ) { simYield(); if( *a == *c ) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##B##_compare_exchange_val( volatile T* a, T c, T v, int, int ) { simYield(); const T o = *a; if( o == c ) { *a = v; } return o; }
typedef unsigned char ts_u8; typedef unsigned short ts_u16; typedef unsigned int ts_u32; typedef unsigned long ts_u64;
TSA( 8, ts_u8 ) TSA( 16, ts_u16 ) TSA( 32, ts_u32 ) TSA( 64, ts_u64 )
void* __tsan_memcpy( void* d, const void* s, unsigned long n ) { simYield(); return memcpy( d, s, n ); }
void* __tsan_memset( void* d, int c, unsigned long n ) { simYield(); return memset( d, c, n ); }
void* __tsan_memmove( void* d, const void* s, unsigned long n ) { simYield(); return memmove( d, s, n ); }
} // extern C

// --------------------------------------------------------------------------------------------------------- fork server
namespace
{
bool readN( int fd, void* b, size_t n )
{
  char* c = static_cast<char*>( b );
  while( n > 0 )
  {
    const ssize_t r = rawRead( fd, c, n );
    if( r < 0 && errno == EINTR ) { continue; }
    if( r <= 0 ) { return false; }
    c += r; n -= size_t( r );
  }
  return true;
}
bool writeN( int fd, const void* b, size_t n )
{
  const char* c = static_cast<const char*>( b );
  while( n > 0 )
  {
    const ssize_t r = rawWrite( fd, c, n );
    if( r < 0 && errno == EINTR ) { continue; }
    if( r <= 0 ) { return false; }
    c += r; n -= size_t( r );
  }
  return true;
}

__attribute__( ( noinline ) ) void dirtyStack()
{
  if( g_mem_mode == 0 ) { return; }
  volatile unsigned char buf[192 * 1024];
  std::uint64_t s = g_mem_seed;
  for( size_t i = 0; i < sizeof buf; ++i )
  {
    buf[i] = g_mem_mode == 1 ? 0 : g_mem_mode == 2 ? 0xA5 : g_mem_mode == 3 ? 0xFF : (unsigned char)( splitmix( s ) );
  }
}

[[noreturn]] void childRun( const std::string& spec, int devnull )
{
  std::vector<std::string> args{ "sim" };
  std::string cwd, log;
  std::vector<Fault> faults;
  std::string root;
  long cpu = 20;
  size_t pos = 0;
  while( pos < spec.size() )
  {
    size_t e = spec.find( '\n', pos );
    if( e == std::string::npos ) { e = spec.size(); }
    const std::string line = spec.substr( pos, e - pos );
    pos = e + 1;
    const size_t sp = line.find( ' ' );
    const std::string k = line.substr( 0, sp );
    const std::string v = sp == std::string::npos ? std::string{} : line.substr( sp + 1 );
    if( k == "cwd" ) { cwd = v; }
    else if( k == "root" ) { root = v; }
    else if( k == "log" ) { log = v; }
    else if( k == "arg" ) { args.push_back( v ); }
    else if( k == "cpu" ) { cpu = atol( v.c_str() ); }
    else if( k == "mem" ) { unsigned long long s = 0; sscanf( v.c_str(), "%d %llu", &g_mem_mode, &s ); g_mem_seed = s; }
    else if( k == "clock" ) { unsigned long long s = 0; long long t = 0; sscanf( v.c_str(), "%d %llu %lld", &g_clock_mode, &s, &t ); g_clock_seed = s; g_clock_ns = t * 1000000000ll; }
    else if( k == "omp" ) { unsigned long long s = 0; sscanf( v.c_str(), "%d %llu %d", &g_omp_threads, &s, &g_omp_rate ); g_omp_seed = s; }
    else if( k == "ent" ) { g_ent = strtoull( v.c_str(), nullptr, 10 ); }
    else if( k == "tz" ) { setenv( "TZ", v.c_str(), 1 ); }
    else if( k == "oom" ) { g_oom_at = atol( v.c_str() ); }
    else if( k == "fault" ) { char a[64]; Fault f{}; if( sscanf( v.c_str(), "%ld %63s %ld %ld", &f.idx, a, &f.p1, &f.p2 ) == 4 ) { f.action = a; faults.push_back( f ); } }
  }
  if( chdir( cwd.c_str() ) != 0 ) { _exit( 97 ); }
  const int lfd = int( syscall( SYS_openat, AT_FDCWD, log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644 ) );
  if( lfd < 0 ) { _exit( 97 ); }
  dup2( devnull, 0 ); dup2( lfd, 1 ); dup2( lfd, 2 );
  for( int fd = 3; fd < 64; ++fd ) { syscall( SYS_close, fd ); }
  struct rlimit rl{ rlim_t( 3 ) << 30, rlim_t( 3 ) << 30 };
  setrlimit( RLIMIT_AS, &rl );
  rl.rlim_cur = rlim_t( cpu ); rl.rlim_max = rlim_t( cpu ) + 2;
  setrlimit( RLIMIT_CPU, &rl );
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit( RLIMIT_CORE, &rl );
  rl.rlim_cur = rl.rlim_max = rlim_t( 256 ) << 20;
  setrlimit( RLIMIT_FSIZE, &rl );
  std::vector<char*> argv;
  for( std::string& a : args ) { argv.push_back( &a[0] ); }
  argv.push_back( nullptr );
  g_faults = new std::vector<Fault>( faults );
  g_root = new std::string( root );
  dirtyStack();
  g_live = true;
  const int rc = cli_main( int( args.size() ), argv.data() );
  rt::event( "X %d", rc );
  exit( rc );
}
} // namespace

int main( int argc, char** argv )
{
  if( getenv( "SIM_NO_ASLR_DONE" ) == nullptr )
  {
    setenv( "SIM_NO_ASLR_DONE", "1", 1 );
    const int p = personality( 0xffffffff );
    if( p != -1 && personality( static_cast<unsigned long>( p ) | ADDR_NO_RANDOMIZE ) != -1 ) { execv( "/proc/self/exe", argv ); }
  }
  (void) argc;
  signal( SIGPIPE, SIG_DFL );
  g_arena = static_cast<Arena*>( mmap( nullptr, sizeof( Arena ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  if( g_arena == MAP_FAILED ) { return 98; }
  real_fopen = reinterpret_cast<FILE*(*)( const char*, const char* )>( dlsym( RTLD_NEXT, "fopen" ) );
  real_fopen64 = reinterpret_cast<FILE*(*)( const char*, const char* )>( dlsym( RTLD_NEXT, "fopen64" ) );
  real_fclose = reinterpret_cast<int(*)( FILE* )>( dlsym( RTLD_NEXT, "fclose" ) );
  const int devnull = open( "/dev/null", O_RDWR );
  for(;;)
  {
    std::uint32_t n = 0;
    if( !readN( 0, &n, 4 ) ) { return 0; }
    std::string spec( n, '\0' );
    if( !readN( 0, &spec[0], n ) ) { return 0; }
    g_arena->len = g_arena->ops = g_arena->overflow = g_arena->regions = 0;
    g_arena->allocs = g_arena->yields = g_arena->switches = g_arena->clocks = 0;
    g_arena->shash = 0xcbf29ce484222325ull;
    const pid_t pid = fork();
    if( pid < 0 ) { return 96; }
    if( pid == 0 ) { childRun( spec, devnull ); }
    int st = 0;
    while( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
    char head[256];
    snprintf( head, sizeof head, "%d %d %u %llu %llu %llu %llu %u %u %llu\n", WIFEXITED( st ) ? WEXITSTATUS( st ) : -1, WIFSIGNALED( st ) ? WTERMSIG( st ) : 0,
      g_arena->ops, (unsigned long long) g_arena->allocs, (unsigned long long) g_arena->yields, (unsigned long long) g_arena->switches, (unsigned long long) g_arena->shash, g_arena->regions, g_arena->overflow, (unsigned long long) g_arena->clocks );
    const std::uint32_t hl = std::uint32_t( strlen( head ) ), tl = g_arena->len, total = hl + tl;
    if( !writeN( 1, &total, 4 ) || !writeN( 1, head, hl ) || !writeN( 1, g_arena->text, tl ) ) { return 0; }
  }
}
