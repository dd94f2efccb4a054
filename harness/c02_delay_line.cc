// C02: delay lines deliver every entry exactly once, on exactly its cycle.
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "mc.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/delay_line.h"
#include "mpact/sim/generic/function_delay_line.h"

using mc::Ctx;
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::DataBufferDelayLine;
using mpact::sim::generic::DataBufferDestination;
using mpact::sim::generic::DataBufferFactory;
using mpact::sim::generic::DelayLine;
using mpact::sim::generic::FunctionDelayLine;

namespace {

struct Rec {
  std::vector<int>* log;
  int id;
  void Apply() { log->push_back(id); }
  Rec(std::vector<int>* l, int i) : log(l), id(i) {}
};

struct Model {
  // due cycle -> ids in order of Add.
  std::vector<std::pair<int, int>> pending;
  int now = 0;
  std::vector<int> Step() {
    now++;
    std::vector<int> due;
    std::vector<std::pair<int, int>> rest;
    for (auto& p : pending)
      if (p.first == now)
        due.push_back(p.second);
      else
        rest.push_back(p);
    pending = rest;
    return due;
  }
  std::string Canon() {
    std::string s;
    for (auto& p : pending) s += mc::S("%d,", p.first - now);
    return s;
  }
};

template <typename L>
void Expect(Ctx& c, const std::vector<int>& got, const std::vector<int>& want,
            int now, L& line, const Model& m, int ret) {
  if (got != want) {
    std::string g, w;
    for (int i : got) g += mc::S("%d ", i);
    for (int i : want) w += mc::S("%d ", i);
    c.fail("cycle %d delivered [ %s] but [ %s] was due", now, g.c_str(),
           w.c_str());
  }
  c.check(ret == static_cast<int>(m.pending.size()),
          "Advance() reported %d entries left, %zu are pending", ret,
          m.pending.size());
  c.check(line.IsEmpty() == m.pending.empty(), "IsEmpty() is %d with %zu pending",
          line.IsEmpty(), m.pending.size());
}

void Generic(Ctx& c, const std::vector<int>& sizes,
             const std::vector<int>& lats, int depth) {
  int size = c.pick(sizes, "initial size");
  std::vector<int> log;
  log.reserve(64);
  auto line = std::unique_ptr<DelayLine<Rec>>(
      size < 0 ? new DelayLine<Rec>() : new DelayLine<Rec>(size));
  Model m;
  int id = 0;
  c.op("delay line of initial size %d", size);
  c.check(line->IsEmpty(), "a new delay line is not empty");
  auto adv = [&] {
    log.clear();
    int r = line->Advance();
    auto due = m.Step();
    Expect(c, log, due, m.now, *line, m, r);
  };
  for (int d = 0; d < depth; d++) {
    int k = c.choose(lats.size() + 1, "op");
    if (k == 0) {
      c.op("Advance");
      adv();
    } else {
      int lat = lats[k - 1];
      c.op("Add(latency %d) as entry %d", lat, id);
      int r = line->Add(lat, &log, id);
      m.pending.push_back({m.now + lat, id++});
      c.check(r == static_cast<int>(m.pending.size()),
              "Add() reported %d entries, %zu are pending", r,
              m.pending.size());
      c.check(!line->IsEmpty(), "IsEmpty() with entries pending");
    }
    c.state(mc::S("%d|%d|", size, m.now & 63) + m.Canon());
  }
  c.op("Advance until drained");
  int guard = 0;
  while (!m.pending.empty() && guard++ < 4096) adv();
  for (int i = 0; i < 40; i++) adv();
  c.outcome(mc::S("drained after %d", m.now));
}

// The default size with latencies around its length and multi-cycle advances.
void Large(Ctx& c) {
  auto line = std::make_unique<DelayLine<Rec>>();
  std::vector<int> log;
  Model m;
  int id = 0;
  static const std::vector<int> kLat = {1, 2, 15, 16, 17, 31, 32, 33, 64, 100};
  static const std::vector<int> kAdv = {1, 2, 7, 15, 16};
  int depth = c.thorough() ? 6 : 5;
  for (int d = 0; d < depth; d++) {
    int k = c.choose(kLat.size() + kAdv.size(), "op");
    if (k < (int)kAdv.size()) {
      c.op("Advance x %d", kAdv[k]);
      for (int i = 0; i < kAdv[k]; i++) {
        log.clear();
        int r = line->Advance();
        auto due = m.Step();
        Expect(c, log, due, m.now, *line, m, r);
      }
    } else {
      int lat = kLat[k - kAdv.size()];
      c.op("Add(latency %d) as entry %d", lat, id);
      line->Add(lat, &log, id);
      m.pending.push_back({m.now + lat, id++});
    }
    c.state(mc::S("%d|", m.now & 127) + m.Canon());
  }
  while (!m.pending.empty()) {
    log.clear();
    int r = line->Advance();
    auto due = m.Step();
    Expect(c, log, due, m.now, *line, m, r);
  }
  for (int i = 0; i < 160; i++) {
    log.clear();
    int r = line->Advance();
    m.Step();
    Expect(c, log, {}, m.now, *line, m, r);
  }
}

// Functions scheduled by functions while the line is advancing.
void Function(Ctx& c) {
  int size = c.pick({1, 2, 4, 16}, "initial size");
  FunctionDelayLine line(size);
  std::vector<int> log;
  Model m;
  int id = 0;
  static const std::vector<int> kLat = {1, 2, 3, 4, 5, 9};
  struct Sched {
    Ctx& c;
    FunctionDelayLine& l;
    std::vector<int>& log;
    Model& m;
    int& id;
    // chain: latency of a follow-up scheduled when the function runs (0: none)
    void Add(int lat, int chain) {
      int me = id++;
      c.op("Add(latency %d) as function %d%s", lat, me,
           chain ? mc::S(", which schedules another after %d", chain).c_str()
                 : "");
      l.Add(lat, [this, me, chain]() {
        log.push_back(me);
        if (chain) Add(chain, 0);
      });
      m.pending.push_back({m.now + lat, me});
    }
  } s{c, line, log, m, id};
  auto adv = [&] {
    log.clear();
    auto due = m.Step();
    int r = line.Advance();
    if (log != due) {
      std::string g, w;
      for (int i : log) g += mc::S("%d ", i);
      for (int i : due) w += mc::S("%d ", i);
      c.fail("cycle %d ran [ %s] but [ %s] was due", m.now, g.c_str(),
             w.c_str());
    }
    c.check(r == (int)m.pending.size(), "Advance() says %d left, %zu pending",
            r, m.pending.size());
    c.check(line.IsEmpty() == m.pending.empty(), "IsEmpty() is wrong");
  };
  int depth = c.thorough() ? 5 : 4;
  for (int d = 0; d < depth; d++) {
    int k = c.choose(2 + kLat.size(), "op");
    if (k == 0) {
      c.op("Advance");
      adv();
    } else if (k == 1) {
      int lat = c.pick({1, 2}, "latency");
      int chain = c.pick({1, 2, 4, 8, 33}, "follow-up latency");
      s.Add(lat, chain);
    } else {
      s.Add(kLat[k - 2], 0);
    }
    c.state(mc::S("%d|%d|", size, m.now) + m.Canon());
  }
  for (int i = 0; i < 200 && !m.pending.empty(); i++) adv();
  for (int i = 0; i < 3; i++) adv();
  c.check(m.pending.empty(), "entries were never delivered");
}

// Data buffers in flight: exactly-once delivery to the right destination, one
// reference held by the line, all of it returned afterwards; also when the
// line is destroyed or resized with entries in flight.
struct Dest : DataBufferDestination {
  std::vector<std::pair<int, DataBuffer*>>* log;
  int id;
  DataBuffer* held = nullptr;
  void SetDataBuffer(DataBuffer* db) override {
    log->push_back({id, db});
    db->IncRef();
    if (held) held->DecRef();
    held = db;
  }
};
void Buffers(Ctx& c) {
  DataBufferFactory f;
  std::vector<std::pair<int, DataBuffer*>> log;
  Dest dest[2];
  for (int i = 0; i < 2; i++) dest[i].log = &log, dest[i].id = i;
  int size = c.pick({1, 2, 4}, "initial size");
  bool early = c.flip("destroy with entries in flight");
  auto line = std::make_unique<DataBufferDelayLine>(size);
  struct P {
    int due, dest, tag;
    DataBuffer* db;
  };
  std::vector<P> pend;
  int now = 0, tag = 0;
  int depth = c.thorough() ? 5 : 4;
  int val[2] = {-1, -1};
  auto adv = [&] {
    log.clear();
    now++;
    int r = line->Advance();
    size_t k = 0;
    std::vector<P> rest;
    for (auto& p : pend) {
      if (p.due != now) {
        rest.push_back(p);
        continue;
      }
      c.check(k < log.size() && log[k].first == p.dest && log[k].second == p.db,
              "cycle %d: delivery %zu is not the expected buffer/destination",
              now, k);
      val[p.dest] = p.tag;
      k++;
    }
    c.check(k == log.size(), "cycle %d: %zu deliveries, %zu expected", now,
            log.size(), k);
    pend = rest;
    c.check(r == (int)pend.size(), "Advance() says %d left, %zu pending", r,
            pend.size());
  };
  auto verify = [&] {
    for (auto& p : pend) {
      c.check(p.db->ref_count() == 1, "a buffer in flight has %d references",
              p.db->ref_count());
      c.check(p.db->Get<uint32_t>(0) == (uint32_t)p.tag,
              "a buffer in flight changed its value");
    }
    for (int i = 0; i < 2; i++) {
      if (val[i] < 0) {
        c.check(dest[i].held == nullptr, "destination %d got a value early", i);
      } else {
        c.check(dest[i].held->ref_count() == 1,
                "the delivered buffer has %d references",
                dest[i].held->ref_count());
        c.check(dest[i].held->Get<uint32_t>(0) == (uint32_t)val[i],
                "destination %d holds %u, expected %d", i,
                dest[i].held->Get<uint32_t>(0), val[i]);
      }
    }
  };
  static const std::vector<int> kLat = {0, 1, 2, 4, 5, 8};
  for (int d = 0; d < depth; d++) {
    int k = c.choose(1 + kLat.size(), "op");
    if (k == 0) {
      c.op("Advance");
      adv();
    } else {
      int lat = kLat[k - 1];
      int t = c.choose(2, "destination");
      auto* db = f.Allocate<uint32_t>(1);
      db->set_destination(&dest[t]);
      db->set_delay_line(line.get());
      db->set_latency(lat);
      c.op("Submit value %d to destination %d with latency %d", tag, t, lat);
      log.clear();
      if (c.flip("SetSubmit")) {
        db->SetSubmit<uint32_t>(0, tag);
      } else {
        db->Set<uint32_t>(0, tag);
        db->Submit(lat);
      }
      if (lat == 0) {
        c.check(log.size() == 1 && log[0].first == t && log[0].second == db,
                "a submit with latency 0 was not delivered at once");
        val[t] = tag;
      } else {
        c.check(log.empty(), "a submit with latency %d was delivered at once",
                lat);
        pend.push_back({now + lat, t, tag, db});
      }
      tag++;
    }
    verify();
    std::string s = mc::S("%d|%d|", size, now);
    for (auto& p : pend) s += mc::S("%d.%d ", p.due - now, p.dest);
    c.state(s);
  }
  if (!early)
    for (int i = 0; i < 40; i++) {
      adv();
      verify();
    }
  c.op("destroy the delay line with %zu entries in flight", pend.size());
  line.reset();
  for (auto& d : dest)
    if (d.held) d.held->DecRef();
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(
      argc, argv, "C02",
      {{"generic_small",
        [](Ctx& c) {
          Generic(c, {1, 2, 3, 4}, {1, 2, 3, 4, 5, 8, 9}, c.thorough() ? 7 : 6);
        },
        3},
       {"generic_default",
        [](Ctx& c) {
          Generic(c, {-1, 5, 16}, {1, 15, 16, 17, 32}, c.thorough() ? 7 : 6);
        },
        3},
       {"generic_deep",
        [](Ctx& c) { Generic(c, {1, 2, 4}, {1, 2, 4}, c.thorough() ? 10 : 9); },
        3},
       {"large", Large, 2},
       {"functions", Function, 2},
       {"buffers", Buffers, 3}},
      "every sequence of up to 6 (9 with 4 operations; thorough 7/10) Add and "
      "Advance operations for initial sizes 1..16 and latencies 1..100, "
      "including latencies equal to and beyond the current length, followed by "
      "a full drain; functions that schedule functions; data buffers with "
      "reference counts");
}
