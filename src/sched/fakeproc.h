// Processes of the controlled scheduler: forkPiped (in place of nixd's) starts
// a fiber, and the descriptors it returns are pipes in memory.
#pragma once
#include <functional>
#include <string>

namespace fp {
using Str = std::string;
struct Pipe {
  Str Data;
  bool WriterOpen = true, ReaderOpen = true;
};
struct Proc {
  int Pid;
  Str Name;
  Pipe In, Out, Err; ///< as the process sees them
  bool Dead = false, Reaped = false;
  int Status = 0;
  /// Waits for a whole message on its input. False if there will be none.
  bool message(Str &Body);
  void reply(const Str &Body); ///< writes a framed message
  void exit(int St);
};
extern Str NextName;                     ///< name of the next process
extern std::function<void(Proc &)> Main; ///< what the processes do
void reset();                            ///< forgets all processes and descriptors
int openDescriptors(), unreaped();
} // namespace fp
