// Runs small random programs of two or three threads on the locks of the library under many
// schedules (systematic ones with few preemptions, then random ones) and writes all executions of a
// program as one tree of events.
#include "core.h"
using namespace vh;

namespace {
struct Step { std::string op, by; std::vector<int> ks; bool all = false; int after = 0, nb = 0; };
typedef std::vector<std::vector<Step>> Prog;

std::vector<std::string> g_log;
void L(const std::string& s) { g_log.push_back(s); }
bool g_waitlog = false;
std::vector<bool> g_waited(8, false), g_acq(8, false);
void OnYield(int id) {
  if (!g_waitlog || id < 1 || id > 4 || !g_acq[id] || g_waited[id]) return;
  g_waited[id] = true;
  L("{\"o\":\"wait\",\"i\":" + jn(id) + "}");
}

uint64_t HashFunc(std::string_view s, uint64_t nb) { return (uint8_t)s[0] % nb; }

struct Locker {
  virtual ~Locker() {}
  virtual bool Acq(const Step& s, std::vector<int>* b) = 0;
  virtual void Rel(const Step& s, bool x, const std::vector<int>& b) = 0;
  virtual bool Upgrade(bool wait) { return false; }
  virtual void Down() {}
  virtual void Rehash(int n) {}
};
template <class M> struct Simple : public Locker {
  M m;
  bool Acq(const Step& s, std::vector<int>* b) override {
    b->assign(1, 0);
    if (s.op == "x") { m.lock(); return true; }
    if (s.op == "tx") return m.try_lock();
    if constexpr (!std::is_same_v<M, SpinMutex>) {
      if (s.op == "s") { m.lock_shared(); return true; }
      if (s.op == "ts") return m.try_lock_shared();
    }
    abort();
  }
  void Rel(const Step& s, bool x, const std::vector<int>&) override {
    if (x) m.unlock();
    else if constexpr (!std::is_same_v<M, SpinMutex>) m.unlock_shared();
  }
  bool Upgrade(bool wait) override {
    if constexpr (std::is_same_v<M, SpinSharedMutex> || std::is_same_v<M, SpinWPSharedMutex>) return m.try_upgrade(wait);
    else return false;
  }
  void Down() override {
    if constexpr (std::is_same_v<M, SpinSharedMutex> || std::is_same_v<M, SpinWPSharedMutex>) m.downgrade();
  }
};
template <class M> struct Slotted : public Locker {
  SlottedMutex<M> m;
  bool scoped;
  std::map<const Step*, std::unique_ptr<ScopedSlottedLock<M>>> held;
  Slotted(int n, bool sc) : m(n), scoped(sc) {}
  bool Acq(const Step& s, std::vector<int>* b) override {
    const bool x = s.op == "x";
    b->clear();
    if (!s.all) *b = s.ks;
    if (scoped) held[&s] = std::make_unique<ScopedSlottedLock<M>>(m, s.all ? -1 : s.ks[0], x);
    else if (s.all) { if (x) m.LockAll(); else m.LockAllShared(); }
    else if (x) m.LockOne(s.ks[0]);
    else m.LockOneShared(s.ks[0]);
    return true;
  }
  void Rel(const Step& s, bool x, const std::vector<int>&) override {
    if (scoped) { auto h = std::move(held[&s]); h.reset(); }
    else if (s.all) { if (x) m.UnlockAll(); else m.UnlockAllShared(); }
    else if (x) m.UnlockOne(s.ks[0]);
    else m.UnlockOneShared(s.ks[0]);
  }
};
template <class M> struct Hash : public Locker {
  HashMutex<M> m;
  bool scoped;
  std::map<const Step*, std::unique_ptr<ScopedHashLock<M>>> h1;
  std::map<const Step*, std::unique_ptr<ScopedHashLockMulti<M>>> h2;
  std::vector<std::string> keys;
  Hash(int ns, int nb, bool sc) : m(ns, nb, HashFunc), scoped(sc) {
    for (int i = 0; i < 16; i++) keys.push_back(std::string(1, (char)i) + "key");
  }
  bool Acq(const Step& s, std::vector<int>* b) override {
    const bool x = s.op == "x";
    b->clear();
    if (s.all) {
      if (scoped) h1[&s] = std::make_unique<ScopedHashLock<M>>(m, x);
      else if (x) m.LockAll();
      else m.LockAllShared();
    } else if (s.by == "idx") {
      *b = s.ks;
      if (scoped) {
        auto h = std::make_unique<ScopedHashLock<M>>(m, (int64_t)s.ks[0], x);
        if (h->GetBucketIndex() < 0) return false;
        b->assign(1, h->GetBucketIndex());
        h1[&s] = std::move(h);
      } else return x ? m.LockOne((int64_t)s.ks[0]) : m.LockOneShared((int64_t)s.ks[0]);
    } else if (s.by == "key") {
      const std::string_view k = keys[s.ks[0]];
      if (scoped) {
        auto h = std::make_unique<ScopedHashLock<M>>(m, k, x);
        b->assign(1, h->GetBucketIndex());
        h1[&s] = std::move(h);
      } else b->assign(1, x ? m.LockOne(k) : m.LockOneShared(k));
    } else {
      std::vector<std::string_view> l;
      for (int k : s.ks) l.push_back(keys[k]);
      std::vector<int64_t> r;
      if (scoped) {
        auto h = std::make_unique<ScopedHashLockMulti<M>>(m, l, x);
        r = h->GetBucketIndices();
        h2[&s] = std::move(h);
      } else r = x ? m.LockMulti(l) : m.LockMultiShared(l);
      b->assign(r.begin(), r.end());
    }
    return true;
  }
  void Rel(const Step& s, bool x, const std::vector<int>& b) override {
    if (scoped) {
      auto a = std::move(h1[&s]);
      auto c = std::move(h2[&s]);
      a.reset();
      c.reset();
    } else if (s.all) { if (x) m.UnlockAll(); else m.UnlockAllShared(); }
    else if (s.by == "multi") {
      std::vector<int64_t> r(b.begin(), b.end());
      if (x) m.UnlockMulti(r); else m.UnlockMultiShared(r);
    } else if (x) m.UnlockOne(b[0]);
    else m.UnlockOneShared(b[0]);
  }
  void Rehash(int n) override { m.Rehash(n); }
};

Locker* Make(const std::string& kind, const std::string& mt, int ns, int nb, bool sc) {
  if (kind == "spin") return new Simple<SpinMutex>;
  if (kind == "sspin") return new Simple<SpinSharedMutex>;
  if (kind == "wp") return new Simple<SpinWPSharedMutex>;
  if (kind == "slot") {
    if (mt == "std") return new Slotted<std::shared_mutex>(ns, sc);
    if (mt == "sspin") return new Slotted<SpinSharedMutex>(ns, sc);
    return new Slotted<SpinWPSharedMutex>(ns, sc);
  }
  if (mt == "std") return new Hash<std::shared_mutex>(ns, nb, sc);
  if (mt == "sspin") return new Hash<SpinSharedMutex>(ns, nb, sc);
  return new Hash<SpinWPSharedMutex>(ns, nb, sc);
}

void Run(Locker* lk, const std::vector<Step>& th, int id) {
  const std::string I = "\"i\":" + jn(id);
  auto call = [&](const std::string& op, const Step& s) {
    L("{\"o\":\"call\"," + I + ",\"op\":\"" + op + "\",\"by\":\"" + s.by + "\",\"a\":" + jn(s.all) + ",\"ks\":" + jv(s.ks) + "}");
    g_waited[id] = false;
  };
  for (const Step& s : th) {
    bool x = s.op == "x" || s.op == "tx";
    std::vector<int> b;
    call(s.op, s);
    g_acq[id] = s.op == "x";
    const bool ok = lk->Acq(s, &b);
    g_acq[id] = false;
    if (!ok) { L("{\"o\":\"fail\"," + I + "}"); continue; }
    L("{\"o\":\"got\"," + I + ",\"b\":" + jv(b) + "}");
    vsched::Point();
    if (s.after == 1 && !x) {
      for (int k = 0; k < 1 + (int)(s.nb & 1); k++) {
        call(s.nb & 2 ? "upw" : "up", s);
        g_acq[id] = true;
        const bool up = lk->Upgrade((s.nb & 2) != 0);
        g_acq[id] = false;
        if (up) { L("{\"o\":\"got\"," + I + ",\"b\":" + jv(b) + "}"); x = true; break; }
        L("{\"o\":\"fail\"," + I + "}");
      }
      vsched::Point();
      if (x && (s.nb & 4)) { L("{\"o\":\"down\"," + I + "}"); lk->Down(); x = false; L("{\"o\":\"downd\"," + I + "}"); vsched::Point(); }
    } else if (s.after == 2 && x) {
      L("{\"o\":\"down\"," + I + "}");
      lk->Down();
      L("{\"o\":\"downd\"," + I + "}");
      x = false;
      vsched::Point();
    } else if (s.after == 3 && x && s.all) {
      lk->Rehash(s.nb);
      L("{\"o\":\"rehash\"," + I + ",\"n\":" + jn(s.nb) + "}");
      vsched::Point();
    }
    L("{\"o\":\"rel\"," + I + "}");
    lk->Rel(s, x, b);
    L("{\"o\":\"reld\"," + I + "}");
  }
}

struct Node { std::string ev; std::vector<int> ch; std::map<std::string, int> idx; };
}  // namespace

int main(int argc, char** argv) {
  Args a(argc, argv);
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10);
  const int maxnodes = a.n("nodes", 3000);
  FILE* out = fopen(a.s("out", "/tmp/lock.nd").c_str(), "w");
  vsched::S().onyield = OnYield;
  int64_t execs = 0;
  for (int i = 0; i < n; i++) {
    Rng r(seed * 1000003 + i);
    const std::string kind = r.pick({"spin", "sspin", "sspin", "wp", "wp", "slot", "hash", "hash", "hash"});
    const std::string mt = r.pick({"std", "sspin", "wp"});
    const bool sc = r.pct(40);
    const int ns = r.in(1, 3), nb = r.in(1, 5);
    const int P = r.pct(60) ? 2 : 3;
    Prog pr(P);
    for (auto& th : pr) {
      const int m = P == 2 ? r.in(1, 3) : r.in(1, 2);
      for (int j = 0; j < m; j++) {
        Step s;
        s.by = "key";
        if (kind == "spin") s.op = r.pick({"x", "x", "tx"});
        else if (kind == "sspin" || kind == "wp") {
          s.op = r.pick({"x", "x", "s", "s", "s", "tx", "ts"});
          if (r.pct(50)) s.after = r.pct(50) || s.op == "s" || s.op == "ts" ? 1 : 2;
          s.nb = r.in(0, 7);
        } else {
          s.op = r.pick({"x", "s"});
          s.all = r.pct(30);
          if (kind == "slot") s.ks.push_back(r.in(0, ns - 1));
          else {
            const int w = r.in(0, 9);
            s.by = w < 4 ? "key" : w < 7 ? "idx" : "multi";
            if (s.by == "multi") { for (int k = r.in(1, 3); k > 0; k--) s.ks.push_back(r.in(0, 9)); }
            else s.ks.push_back(s.by == "idx" ? r.in(0, 5) : r.in(0, 9));
            if (s.all && s.op == "x" && r.pct(70)) { s.after = 3; s.nb = r.in(1, 6); }
          }
        }
        th.push_back(s);
      }
    }
    g_waitlog = kind == "wp";
    std::vector<Node> tree(1);
    tree[0].ev = "{\"o\":\"init\",\"P\":" + jn(P) + ",\"kind\":\"" + kind + "\",\"mt\":\"" + mt + "\",\"nb\":" + jn(nb) +
                 ",\"ns\":" + jn(ns) + ",\"sc\":" + jn(sc);
    Trace dummy;
    Watchdog(&dummy, out, 60);
    vsched::S().onstuck = nullptr;
    auto once = [&]() {
      execs++;
      g_log.clear();
      std::fill(g_acq.begin(), g_acq.end(), false);
      Locker* lk = Make(kind, mt, ns, nb, sc);
      bool stuck = false;
      try {
        std::vector<std::thread> ths;
        for (int p = 0; p < P; p++) ths.emplace_back([&, p]() { Run(lk, pr[p], p + 1); });
        for (auto& t : ths) t.join();
      } catch (vsched::Stuck&) {
        stuck = true;
        L("{\"o\":\"stuck\"}");
      }
      if (!stuck) delete lk;
      auto tr = vsched::S().trail;
      vsched::Reset();
      vsched::S().trail = tr;
      int at = 0;
      for (auto& e : g_log) {
        auto it = tree[at].idx.find(e);
        if (it == tree[at].idx.end()) {
          tree.emplace_back();
          tree.back().ev = e.substr(0, e.size() - 1);
          const int id = tree.size() - 1;
          tree[at].idx[e] = id;
          tree[at].ch.push_back(id + 1);
          at = id;
        } else at = it->second;
      }
      return !stuck;
    };
    vsched::S().cap = 4000;
    vsched::S().bound = P == 2 ? 2 : 1 + r.in(0, 1);
    vsched::S().ybound = 3;
    vsched::S().prefix.clear();
    bool go = true;
    for (int k = 0; go && k < 1500 && (int)tree.size() < maxnodes * 2 / 3; k++) {
      vsched::Policy(1, 2);
      vsched::S().trail.clear();
      go = once() && vsched::NextSchedule();
    }
    vsched::S().prefix.clear();
    for (int k = 0; k < 200 && (int)tree.size() < maxnodes; k++) {
      vsched::Policy(seed * 7919 + i * 211 + k, -1, 60);
      vsched::S().aperiod = 0;
      if (!once()) break;
    }
    std::string line = "[";
    for (auto& nd : tree) {
      if (line.size() > 1) line += ",";
      line += nd.ev + ",\"c\":" + jv(nd.ch) + "}";
    }
    line += "]\n";
    fputs(line.c_str(), out);
    fflush(out);
    alarm(0);
  }
  fclose(out);
  printf("executions %" PRId64 "\n", execs);
  return 0;
}
