// Plain environment for a demonstration: real files, events on descriptor 3 (if open), and one optional failing library call
// DEMO_FAIL=<operation>:<n> (the n-th call, counted from 0, of h5fcreate, h5dwrite, h5fclose, py ...).
#include "runtime.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <unistd.h>
namespace rt
{
void event( const char* fmt, ... )
{
  char b[65536];
  va_list ap;
  va_start( ap, fmt );
  int n = vsnprintf( b, sizeof b - 1, fmt, ap );
  va_end( ap );
  if( n < 0 ) { return; }
  if( n > int( sizeof b - 2 ) ) { n = sizeof b - 2; }
  b[n++] = '\n';
  if( getenv( "DEMO_EVENTS" ) != nullptr && write( 3, b, size_t( n ) ) < 0 ) { return; }
}
static std::map<std::string,long> g_count;
bool libOp( const char* kind, const char* )
{
  const long n = g_count[kind]++;
  const char* f = getenv( "DEMO_FAIL" );
  return f != nullptr && std::string( f ) == std::string( kind ) + ":" + std::to_string( n );
}
void libOpDone() {}
void exempt( int ) {}
bool faultsActive() { return false; }
std::uint64_t rng() { return 4; }
std::string rel( const char* p ) { return p; }
int diskOpen( const char* p, bool w, bool c ) { return open( p, w ? ( c ? O_RDWR | O_CREAT | O_TRUNC : O_RDWR ) : O_RDONLY, 0644 ); }
bool diskWriteAll( int fd, const char* d, std::size_t n ) { while( n ) { const ssize_t r = write( fd, d, n ); if( r <= 0 ) { return false; } d += r; n -= size_t( r ); } return true; }
bool diskReadAll( const char* p, std::string& out )
{
  FILE* f = fopen( p, "rb" );
  if( f == nullptr ) { return false; }
  char b[4096]; size_t n;
  while( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) { out.append( b, n ); }
  fclose( f );
  return true;
}
int diskClose( int fd ) { return close( fd ); }
}
extern "C" void simYield() {}
