#ifndef FM_H
#define FM_H
#include <functional>
#include <string>
#include <vector>
#include "mpi.h"
namespace fm {
struct Options { int rendezvous=0; unsigned long seed=1; int badclock=0; double clockscale=1e-3; };
struct Outcome {
  std::string kind;                 // "" ok, else deadlock/mismatch/truncation/misuse/abort
  std::string msg;
  std::vector<int> exited;          // exit code per rank, -1 if it returned normally
  std::vector<std::string> printed; // what each rank printed (fm_printf)
  int live_comms=0, live_groups=0, live_reqs=0, unmatched=0;
};
Outcome run(int nprocs, std::function<void(int)> body, Options o=Options());
[[noreturn]] void fail(const std::string &kind,const std::string &msg);
bool finalized();
}
extern "C" { [[noreturn]] void fm_exit(int); int fm_printf(const char*,...); int fm_puts(const char*); }
#endif
