// interposed file system calls (the executable's definitions shadow libc's for libstdc++ as well): trace of the calls
// below a directory, faults at chosen calls, and "death" after a chosen modifying call
#pragma once
#include <string>
#include <vector>

namespace fsx {
struct Call { const char * fn; std::string path; std::size_t size; bool mut; int kind; };
enum Kind { PATH, OPEN, READ, WRITE, CLOSEW, MKDIR, REMOVE, RENAME, OPENDIR, READDIR, SEEK, TRUNC, OTHER };
// answer of a call that is made to fail: errno > 0, or a short answer
enum { SHORT = -1, END = -2 };

extern std::vector<Call> trace;
void begin(const std::string & root);       // calls below root are counted from here on
void end();
void fault(long index, int answer);         // the call with this index answers so (may be given several times)
void failFrom(long index, int kindMask, int answer);    // from this index on every call of these kinds answers so
void dieAfter(long mutating, long torn);    // after this many modifying calls nothing has an effect; torn: bytes of the next write that still arrive
bool faulted();
}
