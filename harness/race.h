// Monitor of memory accesses: the checks and the library are compiled with
// -fsanitize=thread, and linked with race.cpp instead of libtsan.
#pragma once
#include <cstddef>
#include <cstdint>
namespace race {
// from here on, static initialisation is over
void started();
// begin and end of a monitored execution; `base` is an address of the frame
// below which the stack is private to the execution
// `again`: its memory is that of the one before, which is forgotten
void begin(void *base, bool again = false);
void end();
// an execution that is not monitored, but whose memory that remains is shared
void warm(bool on);
// executions from here on find another rounding mode, and have to leave it
void upward(bool on);
// first problem of the last monitored executions, or nullptr
const char *problem();
void forget();
// contents of the static variables of the program, library included
void snapshot();
bool unchanged();
bool once();  // static variables were initialised once (guarded), or changed under a lock or atomically, since snapshot()
// observations of the execution
void observe(uint64_t v);
uint64_t observed();  // and reset
// counters
uint64_t accesses(), sharedReads(), sharedWrites();
}  // namespace race
