// Simulated disk behind the C stdio interface, for paths under /sim/.
// Its content lives in shared memory: it survives the (simulated) death of the process.
#ifndef SIMDISK_H
#define SIMDISK_H

#include "simrt.h"

namespace sim {
namespace disk {

enum FaultKind {
  FailOpen, ///< open: ENOENT/EACCES/EMFILE
  ReadError, ///< read: EIO
  ShortRead, ///< read: fewer bytes than asked (legal)
  WriteError, ///< write: EIO, nothing written
  TornWrite, ///< write: part of the data written, then EIO
  NoSpace, ///< write: part of the data written, then ENOSPC for all the following writes of the operation
  SeekError, ///< seek: EIO
  CloseError, ///< close: EIO (data was written)
  Crash, ///< the process dies before the request is served
  CrashTorn, ///< the process dies in the middle of a write
  EarlyEof, ///< read: end of file reported too early
  FaultKinds
};

/// Create the shared store (call before forking incarnations)
void init();
/// Faults "disk client op kind nth arg" of the scenario are active during this operation
void arm(const Scenario& s, int client, int op);
/// Number of faults fired since arm(), but the legal short reads
int disarm();
/// Number of streams left open by the current client
int openStreams();
/// Number of requests served since arm()
int requests();

bool exists(const std::string& path);
std::string content(const std::string& path);
void put(const std::string& path, const std::string& content);
void drop(const std::string& path);
/// Atomically
void moveTo(const std::string& from, const std::string& to);
/// Bytes available on the disk (for all files), or -1
void setCapacity(i64 bytes);

/// Run f in a forked incarnation of the process. Returns true if it crashed.
bool incarnation(const std::function<void()>& f);
/// Memory which survives crashes
void* durable(std::size_t size);

} // namespace disk
} // namespace sim

#endif
