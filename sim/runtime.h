// Deterministic simulation runtime: the seams between the simulator under test and its environment.
#ifndef VERIF_RUNTIME_H
#define VERIF_RUNTIME_H
#include <cstddef>
#include <cstdint>
#include <string>
#include <sys/types.h>

namespace rt
{
  // Appends one line to the execution history of the current run.
  void event( const char* fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
  // A library-level fault point (HDF5, python). Returns true if the operation must fail.
  bool libOp( const char* kind, const char* what );
  // The op after which a crash_after fault would fire
  void libOpDone();
  // Allocations of the stand-ins themselves never fail (their failures are injected at the call)
  void exempt( int d );
  struct Exempt { Exempt() { exempt( 1 ); } ~Exempt() { exempt( -1 ); } };
  bool faultsActive();
  std::uint64_t rng();
  std::string rel( const char* path );
  // Simulated disk for stubs
  int diskOpen( const char* path, bool write, bool create_trunc );
  bool diskWriteAll( int fd, const char* data, std::size_t n );
  bool diskReadAll( const char* path, std::string& out );
  int diskClose( int fd );
}
#endif
