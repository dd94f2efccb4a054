// gen.h - support for checks of code generators.
//
// The harness enumerates input descriptions, runs the real generator on each
// (mode --generate DIR, spread over forked workers; a crash is recorded for
// the description in progress), check.py compiles the generated C++ into
// shared objects, and the explorer then runs the generated code.
#ifndef VERIF_GEN_H_
#define VERIF_GEN_H_
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace gen {

struct Produced {
  bool ok = false;
  std::string code;   // C++ text; defines extern "C" vf_<i>
  std::string error;  // why the generator refused, if !ok
};

// Runs --generate if asked to (then returns true; *rc is the exit code).
// Otherwise loads the shared objects of --dir and the status of every item.
bool Handle(int argc, char** argv, size_t count,
            const std::function<Produced(size_t i, const std::string& dir)>& f,
            int* rc);
bool Thorough(int argc, char** argv);

enum Status { kOk, kRejected, kCrashed, kNoCompile };
struct Item {
  Status status = kRejected;
  std::string text;  // message of a rejection, crash or compiler
  uint64_t (*fn)(int op, uint64_t a, uint64_t b) = nullptr;
};
const Item& Get(size_t i);

// The text of a file, without #include "..." lines.
std::string Slurp(const std::string& path);

}  // namespace gen
#endif
