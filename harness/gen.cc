#include "gen.h"

#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>

namespace gen {
namespace {
constexpr int kWorkers = 8;
constexpr size_t kChunk = 60;
std::vector<Item> items;

std::string Arg(int argc, char** argv, const char* name) {
  for (int i = 1; i + 1 < argc; i++) {
    if (!strcmp(argv[i], name)) return argv[i + 1];
  }
  return "";
}
std::string OneLine(std::string s) {
  for (auto& c : s) {
    if (c == '\n') c = ' ';
  }
  return s.substr(0, 400);
}
void Write(const std::string& path, const std::string& text) {
  std::ofstream f(path);
  f << text;
}

// Items i of worker w in [from, count); writes status lines as it goes.
void Work(int w, size_t from, size_t count, const std::string& dir,
          const std::function<Produced(size_t, const std::string&)>& f) {
  std::string mine = dir + "/w" + std::to_string(w);
  mkdir(mine.c_str(), 0755);
  FILE* st = fopen((dir + "/status_" + std::to_string(w)).c_str(), "a");
  for (size_t i = from; i < count; i += kWorkers) {
    fprintf(st, "begin %zu\n", i);
    fflush(st);
    Produced p = f(i, mine);
    if (p.ok) {
      Write(dir + "/d_" + std::to_string(i) + ".inc", p.code);
      fprintf(st, "ok %zu\n", i);
    } else {
      fprintf(st, "rejected %zu %s\n", i, OneLine(p.error).c_str());
    }
  }
  fclose(st);
}
}  // namespace

std::string Slurp(const std::string& path) {
  std::ifstream f(path);
  std::string line, out;
  while (std::getline(f, line)) {
    if (line.rfind("#include \"", 0) == 0) continue;
    out += line + "\n";
  }
  return out;
}

bool Thorough(int argc, char** argv) {
  return Arg(argc, argv, "--tier") == "thorough";
}

bool Handle(int argc, char** argv, size_t count,
            const std::function<Produced(size_t, const std::string&)>& f,
            int* rc) {
  std::string dir = Arg(argc, argv, "--generate");
  if (!dir.empty()) {
    std::vector<pid_t> pid(kWorkers, -1);
    std::vector<size_t> next(kWorkers);
    auto start = [&](int w) {
      fflush(nullptr);
      pid[w] = fork();
      if (pid[w] == 0) {
        alarm(300);
        Work(w, next[w], count, dir, f);
        fflush(nullptr);
        _exit(0);
      }
    };
    for (int w = 0; w < kWorkers; w++) {
      next[w] = w;
      start(w);
    }
    for (int w = 0; w < kWorkers; w++) {
      for (int crashes = 0;; crashes++) {
        int st = 0;
        waitpid(pid[w], &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        // Crashed: on the item begun last.
        std::ifstream in(dir + "/status_" + std::to_string(w));
        std::string line;
        size_t last = next[w];
        while (std::getline(in, line)) {
          sscanf(line.c_str(), "begin %zu", &last);
        }
        in.close();
        FILE* o = fopen((dir + "/status_" + std::to_string(w)).c_str(), "a");
        fprintf(o, "crashed %zu wait status %d\n", last, st);
        fclose(o);
        next[w] = last + kWorkers;
        if (crashes > 20) break;
        start(w);
      }
    }
    // Chunks of what was generated.
    int chunk = 0;
    std::string text;
    size_t n = 0;
    auto flush = [&] {
      if (!n) return;
      Write(dir + "/chunk_" + std::to_string(chunk++) + ".cc",
            "#include \"prelude.h\"\n" + text);
      text.clear();
      n = 0;
    };
    for (size_t i = 0; i < count; i++) {
      std::string p = dir + "/d_" + std::to_string(i) + ".inc";
      if (access(p.c_str(), F_OK)) continue;
      text += "#include \"d_" + std::to_string(i) + ".inc\"\n";
      if (++n == kChunk) flush();
    }
    flush();
    *rc = 0;
    return true;
  }
  // Load.
  items.assign(count, {});
  std::string d = Arg(argc, argv, "--dir") + "/generated";
  for (int w = 0; w <= kWorkers; w++) {  // the last one is check.py's
    std::ifstream in(d + "/status_" + std::to_string(w));
    std::string line;
    while (std::getline(in, line)) {
      std::istringstream ls(line);
      std::string kind, rest;
      size_t i = 0;
      ls >> kind >> i;
      std::getline(ls, rest);
      if (i >= count) continue;
      items[i].text = rest;
      items[i].status = kind == "ok"          ? kOk
                        : kind == "nocompile" ? kNoCompile
                        : kind == "rejected"  ? kRejected
                                              : kCrashed;
    }
  }
  std::vector<void*> libs;
  for (int c = 0;; c++) {
    std::string so = d + "/chunk_" + std::to_string(c) + ".so";
    if (access((d + "/chunk_" + std::to_string(c) + ".cc").c_str(), F_OK)) break;
    void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) {
      fprintf(stderr, "gen: %s\n", dlerror());
      *rc = 3;
      return true;
    }
    libs.push_back(h);
    std::ifstream in(d + "/chunk_" + std::to_string(c) + ".cc");
    std::string line;
    while (std::getline(in, line)) {
      size_t i;
      if (sscanf(line.c_str(), "#include \"d_%zu.inc\"", &i) != 1) continue;
      auto* f2 = dlsym(h, ("vf_" + std::to_string(i)).c_str());
      if (i < count) {
        items[i].fn = reinterpret_cast<uint64_t (*)(int, uint64_t, uint64_t)>(f2);
      }
    }
  }
  return false;
}

const Item& Get(size_t i) { return items[i]; }

}  // namespace gen
