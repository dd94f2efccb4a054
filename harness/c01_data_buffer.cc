// C01: data buffers - ownership, isolation, recycling.
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/types/span.h"
#include "mc.h"
#include "mpact/sim/generic/data_buffer.h"

using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::DataBufferDestination;
using mpact::sim::generic::DataBufferFactory;
using mc::Ctx;

namespace {

struct Live {
  DataBuffer* db;
  int refs;
  std::vector<uint8_t> bytes;
  bool written;  // contents are known
};

struct World {
  Ctx& c;
  std::unique_ptr<DataBufferFactory> f{new DataBufferFactory};
  std::vector<Live> live;
  std::map<int, std::set<DataBuffer*>> free_;  // released, not yet reused
  int serial = 0;
  explicit World(Ctx& c) : c(c) {}

  void Adopt(DataBuffer* db, int size, const char* what) {
    c.check(db != nullptr, "%s(%d) returned null", what, size);
    c.check(db->size<uint8_t>() == size, "%s(%d): the buffer holds %d bytes",
            what, size, db->size<uint8_t>());
    c.check(db->ref_count() == 1, "%s(%d): a new buffer has %d references",
            what, size, db->ref_count());
    for (auto& l : live)
      c.check(l.db != db, "%s(%d) handed out a buffer that is still in use",
              what, size);
    auto& fr = free_[size];
    if (!fr.empty()) {
      c.check(fr.count(db) == 1,
              "%s(%d) did not reuse a released buffer of that size", what,
              size);
      fr.erase(db);
    }
    live.push_back({db, 1, std::vector<uint8_t>(size), false});
  }
  void Fill(Live& l) {
    serial++;
    for (size_t i = 0; i < l.bytes.size(); i++)
      l.bytes[i] = static_cast<uint8_t>(serial * 37 + i * 11 + (i >> 8));
    memcpy(l.db->raw_ptr(), l.bytes.data(), l.bytes.size());
    l.written = true;
  }
  void CheckAll() {
    for (size_t i = 0; i < live.size(); i++) {
      auto& l = live[i];
      c.check(l.db->ref_count() == l.refs, "buffer %zu has %d references, %d expected",
              i, l.db->ref_count(), l.refs);
      c.check(l.db->size<uint8_t>() == static_cast<int>(l.bytes.size()),
              "buffer %zu changed size to %d", i, l.db->size<uint8_t>());
      if (l.written)
        c.check(memcmp(l.db->raw_ptr(), l.bytes.data(), l.bytes.size()) == 0,
                "buffer %zu (%zu bytes): contents changed", i, l.bytes.size());
      for (size_t j = 0; j < i; j++) {
        auto* a = static_cast<uint8_t*>(l.db->raw_ptr());
        auto* b = static_cast<uint8_t*>(live[j].db->raw_ptr());
        c.check(a + l.bytes.size() <= b || b + live[j].bytes.size() <= a ||
                    l.bytes.empty() || live[j].bytes.empty(),
                "buffers %zu and %zu share storage", j, i);
      }
    }
  }
  void Drop(size_t i) {
    auto& l = live[i];
    int size = l.bytes.size();
    DataBuffer* db = l.db;
    l.db->DecRef();
    if (--l.refs == 0) {
      free_[size].insert(db);
      live.erase(live.begin() + i);
    }
  }
  std::string Canon() {
    std::string s;
    for (auto& l : live)
      s += mc::S("%zu:%d:%d;", l.bytes.size(), l.refs, l.written);
    for (auto& [k, v] : free_) s += mc::S("f%d=%zu", k, v.size());
    return s;
  }
};

void Lifecycle(Ctx& c, const std::vector<int>& sizes, int depth,
               size_t max_live) {
  World w(c);
  for (int d = 0; d < depth; d++) {
    struct Op {
      int kind;
      size_t arg;
    };
    std::vector<Op> ops;
    {
      mc::NoTrack nt;
      if (w.live.size() < max_live)
        for (size_t s = 0; s < sizes.size(); s++) ops.push_back({0, s});
      for (size_t i = 0; i < w.live.size(); i++) {
        ops.push_back({1, i});
        if (w.live[i].refs < 3) ops.push_back({2, i});
        if (w.live.size() < max_live) ops.push_back({3, i});
      }
      ops.push_back({4, 0});
    }
    Op o = ops[c.choose(ops.size(), "op")];
    switch (o.kind) {
      case 0: {
        int size = sizes[o.arg];
        c.op("Allocate(%d)", size);
        w.Adopt(w.f->Allocate(size), size, "Allocate");
        w.CheckAll();
        w.Fill(w.live.back());
        break;
      }
      case 1:
        c.op("DecRef(buffer %zu, %zu bytes)", o.arg, w.live[o.arg].bytes.size());
        w.Drop(o.arg);
        break;
      case 2:
        c.op("IncRef(buffer %zu)", o.arg);
        w.live[o.arg].db->IncRef();
        w.live[o.arg].refs++;
        break;
      case 3: {
        c.op("MakeCopyOf(buffer %zu)", o.arg);
        auto* n = w.f->MakeCopyOf(w.live[o.arg].db);
        w.Adopt(n, w.live[o.arg].bytes.size(), "MakeCopyOf");
        auto& src = w.live[o.arg];
        c.check(memcmp(n->raw_ptr(), src.bytes.data(), src.bytes.size()) == 0,
                "MakeCopyOf: the copy's contents differ");
        w.live.back().bytes = src.bytes;
        w.live.back().written = true;
        w.CheckAll();
        w.Fill(w.live.back());  // must not show in the original
        break;
      }
      case 4:
        c.op("Clear()");
        w.f->Clear();
        w.free_.clear();
        break;
    }
    w.CheckAll();
    c.state(w.Canon());
  }
  c.op("release everything");
  while (!w.live.empty()) w.Drop(w.live.size() - 1);
  c.op("destroy the factory");
  w.f.reset();
  c.outcome(w.Canon());
}

// Typed views: element i of type T is bytes [i*sizeof(T), (i+1)*sizeof(T)).
template <typename T>
void TypedOps(Ctx& c, DataBuffer* db, std::vector<uint8_t>& m) {
  int n = m.size() / sizeof(T);
  c.check(db->size<T>() == n, "size<%zu-byte>() is %d, %d expected", sizeof(T),
          db->size<T>(), n);
  auto sp = db->Get<T>();
  c.check(static_cast<int>(sp.size()) == n, "span of %zu elements, %d expected",
          sp.size(), n);
  int kind = c.choose(3, "set kind");
  if (kind == 0) {
    if (n > 0) {
      int i = c.choose(n, "index");
      T v = static_cast<T>(0x8796A5B4C3D2E1F0ull >> (8 * c.choose(2, "value")));
      c.op("Set<%zu-byte>(%d, 0x%llx)", sizeof(T), i, (unsigned long long)v);
      db->Set<T>(i, v);
      memcpy(&m[i * sizeof(T)], &v, sizeof(T));
    }
  } else {
    int k = c.choose(n + 1, "span length");
    std::vector<T> v;
    for (int i = 0; i < k; i++)
      v.push_back(static_cast<T>(0x1122334455667788ull * (i + 3)));
    c.op("Set<%zu-byte>(span of %d)", sizeof(T), k);
    if (kind == 1) {
      db->Set<T>(absl::MakeConstSpan(v));
      for (int i = 0; i < k; i++) memcpy(&m[i * sizeof(T)], &v[i], sizeof(T));
    } else {
      std::vector<uint8_t> raw(m.size());
      for (size_t i = 0; i < raw.size(); i++) raw[i] = 0x40 + i * 3 + k;
      db->CopyFrom(raw.data());
      m = raw;
    }
  }
  for (int i = 0; i < n; i++) {
    T e;
    memcpy(&e, &m[i * sizeof(T)], sizeof(T));
    c.check(db->Get<T>(i) == e, "Get<%zu-byte>(%d) differs", sizeof(T), i);
    c.check(db->Get<T>()[i] == e, "span Get<%zu-byte>()[%d] differs", sizeof(T),
            i);
  }
  // One past the end is refused, not read or written.
  c.check(mc::Dies([&] { db->Set<T>(n, T{1}); }),
          "Set<%zu-byte>(%d) on %zu bytes was not refused", sizeof(T), n,
          m.size());
  c.check(mc::Dies([&] { (void)db->Get<T>(n); }),
          "Get<%zu-byte>(%d) on %zu bytes was not refused", sizeof(T), n,
          m.size());
  {
    std::vector<T> big(n + 1);
    c.check(mc::Dies([&] { db->Set<T>(absl::MakeConstSpan(big)); }),
            "Set(span of %d %zu-byte elements) on %zu bytes was not refused",
            n + 1, sizeof(T), m.size());
  }
}

void Typed(Ctx& c) {
  DataBufferFactory f;
  int size = c.pick({0, 1, 2, 3, 4, 7, 8, 12, 16, 17}, "size");
  DataBuffer* db = f.Allocate(size);
  DataBuffer* guard = f.Allocate(size);
  std::vector<uint8_t> m(size);
  memset(db->raw_ptr(), 0, size);
  memset(guard->raw_ptr(), 0x5a, size);
  for (int d = 0; d < 2; d++) {
    switch (c.choose(4, "element size")) {
      case 0: TypedOps<uint8_t>(c, db, m); break;
      case 1: TypedOps<int16_t>(c, db, m); break;
      case 2: TypedOps<uint32_t>(c, db, m); break;
      case 3: TypedOps<uint64_t>(c, db, m); break;
    }
    c.check(memcmp(db->raw_ptr(), m.data(), size) == 0,
            "the buffer's bytes differ from the values written");
    std::vector<uint8_t> o(size + 4, 0x77);
    db->CopyTo(o.data());
    c.check(memcmp(o.data(), m.data(), size) == 0, "CopyTo differs");
    c.check(o[size] == 0x77, "CopyTo wrote too much");
    for (int i = 0; i < size; i++)
      c.check(static_cast<uint8_t*>(guard->raw_ptr())[i] == 0x5a,
              "another buffer was modified");
    auto* cp = f.Allocate(size);
    cp->CopyFrom(db);
    c.check(memcmp(cp->raw_ptr(), m.data(), size) == 0,
            "CopyFrom(buffer) differs");
    cp->DecRef();
    auto* odd = f.Allocate(size + 1);
    c.check(mc::Dies([&] { odd->CopyFrom(db); }),
            "CopyFrom of a buffer of another size was not refused");
    odd->DecRef();
    c.state(std::string(m.begin(), m.end()));
  }
  db->DecRef();
  guard->DecRef();
}

// A buffer handed out again carries nothing of its previous life: submitting
// it goes nowhere unless a destination was set, and its latency is zero.
struct Sink : DataBufferDestination {
  int n = 0;
  void SetDataBuffer(DataBuffer*) override { n++; }
};
void Reuse(Ctx& c) {
  DataBufferFactory f;
  Sink sink;
  mpact::sim::generic::DataBufferDelayLine dl(4);
  int size = c.pick({1, 8, 4096, 4097}, "size");
  bool recycled = c.flip("recycled");
  if (recycled) {
    c.op("Allocate(%d), bind, DecRef", size);
    auto* a = f.Allocate(size);
    a->set_destination(&sink);
    a->set_latency(3);
    a->set_delay_line(&dl);
    a->DecRef();
  }
  c.op("Allocate(%d)", size);
  auto* b = f.Allocate(size);
  c.check(b->latency() == 0, "a newly allocated buffer has latency %d",
          b->latency());
  c.op("Submit()");
  if (c.flip("explicit latency"))
    b->Submit(c.choose(3, "latency"));
  else
    b->Submit();
  for (int i = 0; i < 6; i++) dl.Advance();
  c.check(sink.n == 0,
          "a newly allocated buffer was delivered to a former destination");
  auto* d = f.Allocate(size);
  c.check(d == b, "a submitted buffer without destination was not released");
  d->DecRef();
  c.state(mc::S("%d %d", size, recycled));
}

// Reference counted objects: the zero action runs exactly once, exactly when
// the last reference goes.
struct Counted : mpact::sim::generic::ReferenceCount {
  int* zero;
  int* dtor;
  bool keep;
  Counted(int* z, int* d, bool k) : zero(z), dtor(d), keep(k) {}
  ~Counted() override { ++*dtor; }
  void OnRefCountIsZero() override {
    ++*zero;
    if (!keep) ReferenceCount::OnRefCountIsZero();
  }
};
void RefCount(Ctx& c) {
  int zero = 0, dtor = 0;
  bool keep = c.flip("override keeps the object");
  auto* o = new Counted(&zero, &dtor, keep);
  int refs = 1, zeros = 0;
  c.check(o->ref_count() == 1, "a new object has %d references", o->ref_count());
  for (int d = 0; d < 10; d++) {
    if (refs == 0) {
      if (!keep) break;
      c.check(mc::Dies([&] { o->DecRef(); }),
              "releasing an object without references was not refused");
      // The refused release must not have changed anything; start over.
      c.op("ResetCounts()");
      o->ResetCounts();
      refs = 1;
    } else if (c.flip("DecRef")) {
      c.op("DecRef() with %d references", refs);
      o->DecRef();
      if (--refs == 0) zeros++;
    } else {
      c.op("IncRef() with %d references", refs);
      o->IncRef();
      refs++;
    }
    c.check(zero == zeros, "the zero action ran %d times, %d expected", zero,
            zeros);
    c.check(dtor == (keep ? 0 : zeros), "the destructor ran %d times", dtor);
    if (refs > 0 || keep)
      c.check(o->ref_count() == refs, "ref_count() is %d, %d expected",
              o->ref_count(), refs);
    c.state(mc::S("rc %d %d %d", keep, refs, zeros));
  }
  if (keep)
    delete o;
  else
    while (refs-- > 0) o->DecRef();
  c.check(dtor == 1, "the destructor ran %d times in all", dtor);
}

// Two factories never exchange buffers.
void TwoFactories(Ctx& c) {
  std::unique_ptr<DataBufferFactory> f[2] = {
      std::unique_ptr<DataBufferFactory>(new DataBufferFactory),
      std::unique_ptr<DataBufferFactory>(new DataBufferFactory)};
  int size = c.pick({4, 5000}, "size");
  std::set<DataBuffer*> own[2];
  std::vector<std::pair<int, DataBuffer*>> live;
  for (int d = 0; d < 5; d++) {
    int k = c.choose(2 + live.size(), "op");
    if (k < 2) {
      c.op("factory %d Allocate(%d)", k, size);
      auto* b = f[k]->Allocate(size);
      c.check(own[1 - k].count(b) == 0,
              "factory %d handed out a buffer of the other factory", k);
      own[k].insert(b);
      live.push_back({k, b});
    } else {
      c.op("DecRef buffer %d", k - 2);
      live[k - 2].second->DecRef();
      live.erase(live.begin() + (k - 2));
    }
    c.state(mc::S("%d %zu %zu %zu", size, live.size(), own[0].size(),
                  own[1].size()));
  }
  for (auto& l : live) l.second->DecRef();
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(
      argc, argv, "C01",
      {{"typed_access", Typed, 3},
       {"reuse", Reuse},
       {"ref_count", RefCount},
       {"two_factories", TwoFactories},
       {"lifecycle_short",
        [](Ctx& c) { Lifecycle(c, {1, 8}, c.thorough() ? 9 : 7, 3); }, 3},
       {"lifecycle_limits",
        [](Ctx& c) {
          Lifecycle(c, {4095, 4096, 4097, 4098}, c.thorough() ? 7 : 6, 3);
        },
        3},
       {"lifecycle_long",
        [](Ctx& c) { Lifecycle(c, {4097, 9000}, c.thorough() ? 8 : 7, 3); },
        3}},
      "all histories of 6-7 (thorough 7-9) operations Allocate/IncRef/DecRef/"
      "MakeCopyOf/Clear over at most 3 live buffers, sizes 1, 8, 4095..4098, "
      "9000; typed access for 10 sizes x 4 element sizes");
}
