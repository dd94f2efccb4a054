// C11: a stream over a socket, under every environment answer.
#include <cerrno>
#include <cstring>
#include <istream>
#include <ostream>
#include <string>
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#include "mc.h"
#include "mpact/sim/util/renode/socket_streambuf.h"

using mc::Ctx;
using mpact::sim::util::renode::SocketStreambuf;

namespace {
constexpr int kFd = 900;  // virtual descriptor, served by the stand-ins below
struct Env {
  Ctx* c = nullptr;
  std::string in;       // what the peer sends before closing
  size_t pos = 0;
  std::string out;      // what the peer received
  int closes = 0;
  bool bad_use = false;  // use of the descriptor after it was closed
  int faults = 0;        // faults left
  bool in_error = false, out_error = false;
  bool at_end = false;
} *env = nullptr;
}  // namespace

extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_close(int);
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recv(int, void*, size_t, int);

ssize_t __wrap_read(int fd, void* b, size_t n) {
  if (fd != kFd || !env) return __real_read(fd, b, n);
  if (env->closes) env->bad_use = true;
  if (n == 0) return 0;
  if (env->in_error || (env->faults && env->c->flip("read fails"))) {
    if (!env->in_error) env->c->note("read fails");
    env->in_error = true;
    env->faults = 0;
    errno = ECONNRESET;
    return -1;
  }
  size_t avail = env->in.size() - env->pos;
  if (avail == 0) {
    env->at_end = true;
    return 0;
  }
  size_t m = avail < n ? avail : n;
  if (m > 1) m -= env->c->choose((int)m, "short read");
  memcpy(b, env->in.data() + env->pos, m);
  env->pos += m;
  return m;
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int fl) {
  if (fd != kFd || !env) return __real_recv(fd, b, n, fl);
  return __wrap_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (fd != kFd || !env) return __real_write(fd, b, n);
  if (env->closes) env->bad_use = true;
  if (n == 0) return 0;
  if (env->out_error || (env->faults && env->c->flip("write fails"))) {
    if (!env->out_error) env->c->note("write fails");
    env->out_error = true;
    env->faults = 0;
    errno = EPIPE;
    return -1;
  }
  size_t m = n;
  if (n > 1 && env->faults) m -= env->c->choose((int)n, "short write");
  env->out.append((const char*)b, m);
  return m;
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int fl) {
  if (fd != kFd || !env) return __real_send(fd, b, n, fl);
  return __wrap_write(fd, b, n);
}
int __wrap_close(int fd) {
  if (fd != kFd || !env) return __real_close(fd);
  env->closes++;
  return 0;
}
}

namespace {

const char kBytes[] = {'a', '\n', '\r', '\xff', '\0'};

std::string Show(const std::string& s) {
  std::string r;
  for (unsigned char ch : s)
    r += ch >= 32 && ch < 127 ? std::string(1, ch) : mc::S("\\x%02x", ch);
  return r;
}

void Write(Ctx& c) {
  Env e;
  e.c = &c;
  env = &e;
  struct Un { ~Un() { env = nullptr; } } un;
  int n = c.choose(5, "length");
  std::string s, want;
  for (int i = 0; i < n; i++) s += kBytes[c.choose(5, "byte")];
  int how = c.choose(3, "how");  // put, write, flush in between
  e.faults = c.choose(2, "faulty");
  bool eof_at_end = c.flip("overflow(EOF) at the end");
  c.op("write '%s' (%s)", Show(s).c_str(),
       how == 0 ? "put" : how == 1 ? "write" : "put+flush");
  for (char ch : s) want += ch == '\n' ? std::string("\r\n") : std::string(1, ch);
  {
    SocketStreambuf sb(kFd);
    std::ostream os(&sb);
    size_t ok = 0;  // characters reported as written
    if (how == 1) {
      os.write(s.data(), s.size());
    } else {
      for (char ch : s) {
        os.put(ch);
        if (how == 2) os.flush();
        if (os.good()) ok++;
      }
    }
    c.check(os.good() == !e.out_error,
            "the stream is %s although %s", os.good() ? "good" : "bad",
            e.out_error ? "a write failed" : "no write failed");
    if (eof_at_end) {
      struct Open : SocketStreambuf { using SocketStreambuf::overflow; };
      // Closing by the documented end of file character.
      static_cast<std::streambuf&>(sb);
      sb.overflow(EOF);
      c.op("overflow(EOF)");
    }
    if (!e.out_error) {
      c.check(e.out == want, "the peer got '%s', '%s' expected",
              Show(e.out).c_str(), Show(want).c_str());
    } else {
      c.check(want.compare(0, e.out.size(), e.out) == 0,
              "the peer got '%s', which is no prefix of '%s'",
              Show(e.out).c_str(), Show(want).c_str());
      std::string done;
      for (size_t i = 0; i < ok; i++)
        done += s[i] == '\n' ? std::string("\r\n") : std::string(1, s[i]);
      c.check(e.out.size() >= done.size(),
              "%zu characters were reported written, the peer got '%s'", ok,
              Show(e.out).c_str());
    }
    c.check(e.closes == (eof_at_end ? 1 : 0), "closed %d times", e.closes);
  }
  c.check(e.closes == 1, "the descriptor was closed %d times", e.closes);
  c.check(!e.bad_use, "the descriptor was used after it was closed");
  c.state(Show(s) + mc::S("/%d/%zu", how, e.out.size()));
}

void Read(Ctx& c) {
  Env e;
  e.c = &c;
  env = &e;
  struct Un { ~Un() { env = nullptr; } } un;
  int n = c.choose(c.thorough() ? 7 : 6, "length");
  for (int i = 0; i < n; i++) e.in += kBytes[c.choose(5, "byte")];
  e.faults = c.choose(2, "faulty");
  int how = c.choose(3, "how");  // get, peek+get, getline
  c.op("peer sends '%s'", Show(e.in).c_str());
  std::string got;
  {
    SocketStreambuf sb(kFd);
    std::istream is(&sb);
    if (how == 2) {
      std::string line;
      while (std::getline(is, line)) {
        got += line;
        if (!is.eof()) got += '\n';
      }
    } else {
      for (int i = 0; i < 20; i++) {
        if (how == 1) {
          int p = is.peek();
          int p2 = is.peek();
          c.check(p == p2, "peeking consumed a character");
        }
        int ch = is.get();
        if (ch == EOF) break;
        got += (char)ch;
      }
    }
    c.check(is.eof(), "the end of the stream was not reported");
    c.check(got.size() <= e.in.size(), "%zu characters out of %zu", got.size(),
            e.in.size());
    c.check(e.closes == 0, "closed while in use");
  }
  // Each carriage return is dropped, the character after it is delivered.
  std::string want;
  size_t lim = e.in.size();
  if (e.in_error) lim = e.pos;
  for (size_t i = 0; i < lim; i++) {
    if (e.in[i] == '\r' && ++i >= lim) break;
    want += e.in[i];
  }
  c.check(got == want, "read '%s', '%s' expected%s", Show(got).c_str(),
          Show(want).c_str(), e.in_error ? " before the error" : "");
  c.check(e.closes == 1, "the descriptor was closed %d times", e.closes);
  c.check(!e.bad_use, "the descriptor was used after it was closed");
  c.state(Show(e.in) + mc::S("/%d/%zu", how, got.size()));
}

// Reading and writing through one buffer, interleaved.
void Both(Ctx& c) {
  Env e;
  e.c = &c;
  env = &e;
  struct Un { ~Un() { env = nullptr; } } un;
  e.in = "q\r\nw\n";
  std::string want_in = "q\nw\n", want_out, got;
  {
    SocketStreambuf sb(kFd);
    std::iostream ios(&sb);
    int depth = c.thorough() ? 8 : 6;
    for (int i = 0; i < depth; i++) {
      int k = c.choose(3, "op");
      if (k == 0) {
        int ch = ios.get();
        c.op("get %d", ch);
        if (ch == EOF) ios.clear();
        else got += (char)ch;
      } else {
        char ch = k == 1 ? 'x' : '\n';
        ios.put(ch);
        want_out += k == 1 ? "x" : "\r\n";
        c.op("put %d", ch);
      }
      c.check(want_in.compare(0, got.size(), got) == 0, "read '%s'",
              Show(got).c_str());
      c.check(e.out == want_out, "peer got '%s'", Show(e.out).c_str());
    }
    c.state(got + "/" + want_out);
  }
  c.check(e.closes == 1 && !e.bad_use, "closed %d times", e.closes);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, "C11",
                  {{"write", Write}, {"read", Read}, {"both", Both}},
                  "all byte strings of up to 4 written and 5 (6) read bytes "
                  "over 5 byte classes x 3 access styles x every position of "
                  "one failing or short system call; all interleavings of 6 "
                  "(8) reads and writes",
                  {"read/write/close (and send/recv) are replaced at link time "
                   "for one virtual descriptor; any failing call keeps failing"});
}
