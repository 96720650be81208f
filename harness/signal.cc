// Runs small random programs on the signal brokers and the wait counter under many schedules and
// writes all executions of a program as one tree of events.
#include "core.h"
#include "trie.h"
using namespace vh;

namespace {
struct Step { std::string op; int k = 0, n = 0; bool all = false, timed = false; };

struct Broker {
  virtual ~Broker() {}
  virtual bool Send(int k, bool all) = 0;
  virtual std::shared_ptr<void> Make(int k) = 0;
  virtual bool Wait(void* w, double to) = 0;
};
struct One : public Broker {
  SignalBroker b;
  bool Send(int, bool all) override { return b.Send(all); }
  std::shared_ptr<void> Make(int) override { return std::shared_ptr<void>(new SignalBroker::Waiter(&b), [](void* p) { delete (SignalBroker::Waiter*)p; }); }
  bool Wait(void* w, double to) override { return ((SignalBroker::Waiter*)w)->Wait(to); }
};
struct Keyed : public Broker {
  typedef KeySignalBroker<std::string> KB;
  KB b;
  bool Send(int k, bool all) override { return b.Send("k" + jn(k), all); }
  std::shared_ptr<void> Make(int k) override { return std::shared_ptr<void>(new KB::Waiter(&b, "k" + jn(k)), [](void* p) { delete (KB::Waiter*)p; }); }
  bool Wait(void* w, double to) override { return ((KB::Waiter*)w)->Wait(to); }
};
struct SlotKeyed : public Broker {
  typedef SlottedKeySignalBroker<int64_t> KB;
  KB b;
  explicit SlotKeyed(int n) : b(n) {}
  bool Send(int k, bool all) override { return b.Send(k, all); }
  std::shared_ptr<void> Make(int k) override { return std::shared_ptr<void>(new KB::Waiter(&b, k), [](void* p) { delete (KB::Waiter*)p; }); }
  bool Wait(void* w, double to) override { return ((KB::Waiter*)w)->Wait(to); }
};
// Tasks added by several threads to a queue which is started and stopped meanwhile.
int MainTask(const Args& a) {
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), maxnodes = a.n("nodes", 2000);
  FILE* out = fopen(a.s("out", "/tmp/signal.nd").c_str(), "w");
  for (int i = 0; i < n; i++) {
    Rng r(seed * 1000003 + i);
    const int P = r.in(1, 3), nw = r.in(1, 3);
    std::vector<int> cnt(P);
    for (auto& c : cnt) c = r.in(0, 2);
    const bool drain = r.pct(70), early = r.pct(30), again = r.pct(20);
    Trie tree("{\"o\":\"init\",\"P\":" + jn(P) + ",\"nw\":" + jn(nw) + ",\"drain\":" + jn(drain));
    Trace dummy;
    Watchdog(&dummy, out, 60);
    vsched::S().onstuck = nullptr;
    tree.Explore(seed * 7919 + i * 211, 1, 300, 150, maxnodes, 80, [&]() {
      TaskQueue* q = new TaskQueue;
      return tree.Threads(P, [&, q](int p) {
        auto add = [&, q, p](int from, int to) {
          for (int k = from; k < to; k++) {
            const int id = p * 10 + k;
            tree.L("{\"o\":\"add\",\"x\":" + jn(id) + "}");
            q->Add([&tree, id]() {
              tree.L("{\"o\":\"run\",\"x\":" + jn(id) + "}");
              vsched::Point();
              tree.L("{\"o\":\"end\",\"x\":" + jn(id) + "}");
            });
            tree.L("{\"o\":\"added\",\"x\":" + jn(id) + "}");
          }
        };
        if (p > 0) { add(0, cnt[p]); return; }
        for (int round = 0; round <= (int)again; round++) {
          tree.L("{\"o\":\"start\"}");
          if (early) add(round * 3, round * 3 + cnt[0]);
          q->Start(nw);
          if (!early) add(round * 3, round * 3 + cnt[0]);
          tree.L("{\"o\":\"stop\"}");
          q->Stop(drain ? 1000 : 0);
          tree.L("{\"o\":\"stopped\",\"n\":" + jn(q->GetSize()) + "}");
        }
      }, [&, q]() { delete q; });
    });
    fputs(tree.Line().c_str(), out);
    fflush(out);
    alarm(0);
  }
  fclose(out);
  return 0;
}
}  // namespace

int main(int argc, char** argv) {
  Args a(argc, argv);
  if (a.s("mode") == "task") return MainTask(a);
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10);
  const int maxnodes = a.n("nodes", 2000);
  FILE* out = fopen(a.s("out", "/tmp/signal.nd").c_str(), "w");
  int64_t execs = 0;
  for (int i = 0; i < n; i++) {
    Rng r(seed * 1000003 + i);
    const std::string kind = r.pick({"one", "one", "key", "key", "slot", "count"});
    const int P = r.pct(40) ? 2 : 3;
    const int nk = kind == "one" ? 1 : r.in(1, 3);
    const int ns = r.in(1, 3), init = r.in(0, 3);
    std::vector<std::vector<Step>> pr(P);
    for (int p = 0; p < P; p++) {
      if (kind == "count") {
        for (int m = r.in(1, 3); m > 0; m--) {
          Step s;
          const int w = r.in(0, 9);
          s.op = p == 0 && m == 1 ? "wait" : w < 2 ? "add" : w < 7 ? "done" : w < 8 ? "get" : "wait";
          s.n = r.in(1, 2);
          s.timed = r.pct(35);
          pr[p].push_back(s);
        }
        continue;
      }
      const bool sender = p > 0 && r.pct(50);
      for (int m = P == 2 ? r.in(1, 3) : r.in(1, 2); m > 0; m--) {
        const int k = r.in(0, nk - 1);
        if (sender || r.pct(20)) pr[p].push_back(Step{"send", k, 0, r.pct(55)});
        else {
          pr[p].push_back(Step{"ctor", k});
          const int w = r.pickn({0, 1, 1, 1, 1, 2});
          for (int q = 0; q < w; q++) pr[p].push_back(Step{"wait", k, 0, false, r.pct(45)});
          pr[p].push_back(Step{"dtor", k});
        }
      }
    }
    Trie tree("{\"o\":\"init\",\"P\":" + jn(P) + ",\"kind\":\"" + kind + "\",\"init\":" + jn(init));
    Trace dummy;
    Watchdog(&dummy, out, 60);
    vsched::S().onstuck = nullptr;
    tree.Explore(seed * 7919 + i * 211, P == 2 ? 2 : 1 + r.in(0, 1), 1000, 200, maxnodes, 60, [&]() {
      execs++;
      Broker* b = kind == "one" ? (Broker*)new One : kind == "key" ? (Broker*)new Keyed : (Broker*)new SlotKeyed(ns);
      WaitCounter* wc = new WaitCounter(init);
      return tree.Threads(P, [&, b, wc](int p) {
        const std::string I = "\"i\":" + jn(p + 1);
        auto* w = new std::shared_ptr<void>;
        for (const Step& s : pr[p]) {
          tree.L("{\"o\":\"inv\"," + I + ",\"op\":\"" + s.op + "\",\"k\":" + jn(s.k) + ",\"n\":" + jn(s.n) + ",\"all\":" + jn(s.all) + ",\"tm\":" + jn(s.timed) + "}");
          int64_t rv = 0;
          if (kind == "count") {
            if (s.op == "add") wc->Add(s.n);
            else if (s.op == "done") wc->Done(s.n);
            else if (s.op == "get") rv = wc->Get();
            else rv = wc->Wait(s.timed ? (s.n == 1 ? 0 : 0.001) : -1);
          } else if (s.op == "send") rv = b->Send(s.k, s.all);
          else if (s.op == "ctor") *w = b->Make(s.k);
          else if (s.op == "dtor") w->reset();
          else rv = b->Wait(w->get(), s.timed ? 0.001 : -1);
          tree.L("{\"o\":\"ret\"," + I + ",\"r\":" + jn(rv) + "}");
        }
        delete w;
      }, [&, b, wc]() { delete b; delete wc; });
    });
    fputs(tree.Line().c_str(), out);
    fflush(out);
    alarm(0);
  }
  fclose(out);
  printf("executions %" PRId64 "\n", execs);
  return 0;
}
