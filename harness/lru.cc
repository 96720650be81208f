// The bounded cache database and the containers.
// args: seed= n= ops= out= mode=cache|cont|set [only=]
#include "core.h"
#include <atomic>
#include "tkrzw_containers.h"
#include "tkrzw_dbm_cache.h"
using namespace vh;

// ---------------------------------------------------------------- cache database
// Keys of the same partition are found by watching them evict each other from the smallest cache.
static std::vector<std::vector<std::string>> Partitions(Rng& r, int S, int per) {
  auto rnd = [&]() {
    const int q = r.in(0, 9);
    const int n = q < 6 ? r.in(1, 12) : q < 9 ? r.in(8, 60) : r.in(120, 200);
    std::string s(n, 0);
    for (auto& c : s) c = (char)r.in(0, 255);
    return s;
  };
  CacheDBM db(1, -1);
  std::vector<std::vector<std::string>> res;
  std::set<std::string> used;
  for (int tries = 0; tries < 60 && (int)res.size() < S; tries++) {
    const std::string a = rnd();
    if (used.count(a)) continue;
    bool known = false;
    for (auto& p : res) {
      db.Clear();
      db.Set(p[0], "x");
      db.Set(a, "x");
      if (db.Get(p[0]) != Status::SUCCESS) known = true;
    }
    if (known) continue;
    std::vector<std::string> part = {a};
    used.insert(a);
    for (int i = 0; i < 3000 && (int)part.size() < per; i++) {
      const std::string b = rnd();
      if (used.count(b)) continue;
      db.Clear();
      db.Set(a, "x");
      db.Set(b, "x");
      if (db.Get(a) != Status::SUCCESS) { part.push_back(b); used.insert(b); }
    }
    res.push_back(part);
  }
  return res;
}

static void CacheRun(Rng& r, Trace& t, const std::string& dir, int nops, int idx, const std::vector<std::vector<std::string>>& parts) {
  const bool bymem = r.pct(25);
  auto Caps = [&]() { return (int64_t)(bymem ? r.pickn({64, 300, 600}) : r.pickn({1, 31, 32, 64, 96, 96, 160, 200})); };
  auto Mems = [&]() { return (int64_t)(bymem ? 32 * r.in(300, 4000) : 0); };
  int64_t cap = Caps(), mem = Mems();
  const int S = parts.empty() ? 1 : r.in(1, (int)parts.size());
  KeyTab kt;
  std::vector<std::pair<std::string, int>> ks;
  for (int s = 0; s < S && s < (int)parts.size(); s++) {
    const int n = r.in(2, (int)parts[s].size());
    for (int i = 0; i < n && i < (int)parts[s].size(); i++) ks.emplace_back(parts[s][i], s + 1);
  }
  for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[r.in(0, i - 1)]);
  std::vector<std::string> names;
  Val sl, kb, tb;
  for (auto& k : ks) { names.push_back(k.first); sl.push_back(k.second); kb.push_back(k.first.size()); }
  kt.finish(names);
  TokTab tt;
  tt.build(r, r.pct(80) ? 0 : 1);
  for (int i = 1; i <= 200; i++) tb.push_back(tt.toks[i].size());
  GenCfg g;
  g.K = kt.K();
  g.maxtok = r.pickn({4, 40, 200});
  g.intmod = r.pickn({0, 3, 5});
  g.rempct = r.pickn({5, 10, 20});
  g.clear = false;
  t.ev("init").n("K", kt.K()).n("S", S).n("cap", cap).n("mem", mem).v("sl", sl).v("kb", kb).v("tb", tb)
    .n("fo", 0).n("eo", 0).n("so", 0).n("i", idx);
  if (parts.empty() || g.K < 2) { t.ev("nopartitions"); return; }
  auto db = std::make_unique<CacheDBM>(cap, mem > 0 ? mem : -1);
  Rng mix(r.next());
  Ctx cx{&kt, &tt, &mix};
  const bool file = r.pct(60);
  if (file) {
    const Status s = db->Open(dir + "/x.tkc", true, r.pct(40) ? File::OPEN_TRUNCATE : 0);
    if (s != Status::SUCCESS) { fprintf(stderr, "open: %s\n", ToString(s).c_str()); exit(3); }
  }
  auto Each = [&]() {
    struct P : public DBM::RecordProcessor {
      Ctx* c;
      JList l;
      std::string_view ProcessFull(std::string_view k, std::string_view v) override {
        l.add("[" + std::to_string(c->kt->of(k)) + "," + jv(c->tt->dec(v)) + "]");
        return NOOP;
      }
    } p;
    p.c = &cx;
    const Status s = db->ProcessEach(&p, false);
    t.ev("each").raw("r", "[\"" + std::string(stname(s)) + "\"," + p.l.str() + "]");
  };
  Shadow sh;
  const int steps = r.in(nops / 2, nops * 3 / 2);
  static const std::set<std::string> ok = {"get", "getsz", "set", "rem", "app", "cmpx", "incr", "proc", "procm", "count", "scan", "proceach", "popfirst", "procfirst"};
  for (int j = 0; j < steps; j++) {
    const int q = r.in(0, 999);
    if (q < 15 && !bymem) {
      int64_t ncap = r.pct(30) ? -1 : Caps();
      Status s(Status::SUCCESS);
      if (ncap < 0) s = db->Rebuild(); else s = db->RebuildAdvanced(ncap);
      if (ncap > 0) cap = ncap;
      t.ev("rebuild").n("cap", cap).raw("r", "[\"" + std::string(stname(s)) + "\"]");
      if (r.pct(70)) Each();
    } else if (q < 35 && file) {
      Status s = db->Close();
      t.ev("close").raw("r", "[\"" + std::string(stname(s)) + "\"]");
      const int v = r.in(0, 2);
      if (v == 1) db = std::make_unique<CacheDBM>(cap, mem > 0 ? mem : -1);
      if (v == 2) { cap = Caps(); mem = Mems(); db = std::make_unique<CacheDBM>(cap, mem > 0 ? mem : -1); }
      const bool w = r.pct(75);
      s = db->Open(dir + "/x.tkc", w, 0);
      t.ev("open").n("cap", cap).n("mem", mem).n("w", w).raw("r", "[\"" + std::string(stname(s)) + "\"]");
      t.ev("load");
      Each();
      if (!w) {
        t.ev("close").raw("r", "[\"" + std::string(stname(db->Close())) + "\"]");
        s = db->Open(dir + "/x.tkc", true, 0);
        t.ev("open").n("cap", cap).n("mem", mem).n("w", 1).raw("r", "[\"" + std::string(stname(s)) + "\"]");
        t.ev("load");
      }
    } else if (q < 45 && file) {
      t.ev("sync").raw("r", "[\"" + std::string(stname(db->Synchronize(r.pct(50)))) + "\"]");
    } else if (q < 49) {
      t.ev("clear").raw("r", "[\"" + std::string(stname(db->Clear())) + "\"]");
    } else if (q < 110) {
      Each();
    } else {
      ShadowFromDB(db.get(), cx, &sh);
      const Op op = GenOp(r, g, sh);
      if (!ok.count(op.o)) { j--; continue; }
      if (bymem && op.o == "procfirst" && op.fa.t == 2) { j--; continue; }
      LogOp(t, op);
      t.raw("r", ExecOp(db.get(), op, cx));
    }
  }
  Each();
  if (db->IsOpen()) db->Close();
}

// ---------------------------------------------------------------- containers
struct Weak {
  static int mod;
  size_t operator()(int k) const { return k % mod; }
};
int Weak::mod = 3;
typedef LinkedHashMap<int, int, Weak> LMap;

static std::string P(int k, int v) { return "[" + std::to_string(k) + "," + std::to_string(v) + "]"; }
static std::string One(const LMap::Record* x) { return x == nullptr ? "[]" : "[" + std::to_string(x->value) + "]"; }

static void ContRun(Rng& r, Trace& t, int nops, int idx) {
  const int what = r.in(0, 9);
  const int steps = r.in(nops / 2, nops * 3 / 2);
  const int K = r.pickn({2, 4, 8, 12});
  int val = 0;
  if (what < 4) {
    Weak::mod = r.pickn({1, 2, 3, 1000});
    std::unique_ptr<LMap> m[2];
    for (auto& x : m) x = r.pct(30) ? std::make_unique<LMap>() : std::make_unique<LMap>(r.pickn({0, 1, 2, 5, 50}));
    t.ev("init").s("what", "map").n("i", idx);
    for (int j = 0; j < steps; j++) {
      const int x = r.in(1, 2);
      LMap& a = *m[x - 1];
      const int k = r.in(1, K);
      const int mode = r.in(0, 2);
      const LMap::MoveMode mm = (LMap::MoveMode)mode;
      const int q = r.in(0, 99);
      if (q < 15) {
        if (r.pct(30)) {
          const int v = a.GetSimple(k, -5, mm);
          t.ev("get").n("x", x).n("k", k).n("m", mode).raw("r", v == -5 ? "[]" : "[" + std::to_string(v) + "]");
        } else {
          const LMap::Record* rec = a.Get(k, mm);
          t.ev("get").n("x", x).n("k", k).n("m", mode).raw("r", One(rec));
        }
      } else if (q < 38) {
        const bool w = r.pct(75);
        const LMap::Record* rec = a.Set(k, ++val, w, mm);
        t.ev("set").n("x", x).n("k", k).n("v", val).n("w", w).n("m", mode).raw("r", One(rec));
      } else if (q < 44) {
        int& ref = a[k];
        const int old = ref;
        const int v = r.pct(50) ? ++val : 0;
        if (v) ref = v;
        t.ev("ref").n("x", x).n("k", k).n("v", v).raw("r", "[" + std::to_string(old) + "]");
      } else if (q < 50) {
        auto res = a.insert(LMap::Record(k, ++val));
        t.ev("ins").n("x", x).n("k", k).n("v", val).raw("r", P(res.second, res.first->value));
      } else if (q < 54) {
        auto it = a.find(k);
        t.ev("find").n("x", x).n("k", k).raw("r", it == a.end() ? "[]" : "[" + std::to_string(it->value) + "]");
      } else if (q < 68) {
        const int ok = r.pct(50) ? (int)a.Remove(k) : (int)a.erase(k);
        t.ev("rem").n("x", x).n("k", k).raw("r", "[" + std::to_string(ok) + "]");
      } else if (q < 80) {
        const LMap::Record* rec = a.Migrate(k, m[2 - x].get(), mm);
        t.ev("mig").n("x", x).n("k", k).n("m", mode).raw("r", One(rec));
      } else if (q < 81) {
        a.clear();
        t.ev("clear").n("x", x).raw("r", "[]");
      } else if (q < 84) {
        a.rehash(r.pickn({1, 2, 7, 50}));
        t.ev("rehash").n("x", x).raw("r", "[]");
      } else if (q < 88) {
        t.ev("ends").n("x", x).raw("r", a.empty() ? "[]" : "[" + P(a.front().key, a.front().value) + "," + P(a.back().key, a.back().value) + "]");
      } else {
        JList f, b;
        if (r.pct(50)) { for (auto it = a.begin(); it != a.end(); ++it) f.add(P(it->key, it->value)); }
        else { const LMap& ca = a; for (auto it = ca.begin(); it != ca.end(); it++) f.add(P(it->key, it->value)); }
        auto it = a.end();
        for (size_t i = 0; i < a.size(); i++) { --it; b.add(P(it->key, it->value)); }
        t.ev("scan").n("x", x).raw("r", "[" + f.str() + "," + b.str() + "," + std::to_string(a.size()) + "," + std::to_string((int)a.empty()) + "]");
      }
    }
  } else if (what < 9) {
    const bool dbl = what >= 6;
    const int c1 = r.in(1, 4), c2 = r.in(1, 4);
    LRUCache<int> lc(c1);
    DoubleLRUCache<int> dc(c1, c2);
    t.ev("init").s("what", dbl ? "dbl" : "lru").n("c1", c1).n("c2", c2).n("i", idx);
    auto S1 = [](const std::shared_ptr<int>& p) { return p == nullptr ? std::string("[]") : "[" + std::to_string(*p) + "]"; };
    auto Scan = [&](std::set<int>* ids) {
      JList l;
      if (dbl) { auto it = dc.MakeIterator(); int64_t id; while (auto p = it.Get(&id)) { l.add(P(id, *p)); if (ids) ids->insert(id); it.Next(); } }
      else { auto it = lc.MakeIterator(); int64_t id; while (auto p = it.Get(&id)) { l.add(P(id, *p)); if (ids) ids->insert(id); it.Next(); } }
      return l.str();
    };
    for (int j = 0; j < steps; j++) {
      const int k = r.in(1, K);
      const int q = r.in(0, 99);
      if (q < 25) {
        ++val;
        auto p = dbl ? dc.Add(k, new int(val)) : lc.Add(k, new int(val));
        t.ev("add").n("k", k).n("v", val).raw("r", S1(p));
      } else if (q < 50) {
        const bool w = r.pct(50);
        auto p = dbl ? dc.Get(k, w) : lc.Get(k);
        t.ev("get").n("k", k).n("w", w).raw("r", S1(p));
      } else if (q < 57) {
        if (dbl) dc.Remove(k); else lc.Remove(k);
        t.ev("rem").n("k", k);
      } else if (q < 67) {
        int64_t id = -1;
        auto p = dbl ? dc.RemoveLRU(&id) : lc.RemoveLRU(&id);
        t.ev("lru").raw("r", p == nullptr ? "[]" : P(id, *p));
        if (p != nullptr && r.pct(40)) {
          t.ev("back").n("k", id).n("v", *p);
          if (dbl) dc.GiveBack(id, std::move(p)); else lc.GiveBack(id, std::move(p));
        }
      } else if (q < 80) {
        t.ev("stat").raw("r", dbl ? "[" + std::to_string(dc.Size()) + "," + std::to_string((int)dc.IsEmpty()) + "," + std::to_string((int)dc.IsSaturated()) + "]"
                            : "[" + std::to_string(lc.Size()) + "," + std::to_string((int)lc.IsEmpty()) + "," + std::to_string((int)lc.IsSaturated()) + "]");
      } else if (q < 98) {
        t.ev("scan").raw("r", Scan(nullptr));
      } else {
        if (dbl) dc.Clear(); else lc.Clear();
        t.ev("clear");
      }
    }
    t.ev("scan").raw("r", Scan(nullptr));
  } else {
    t.ev("init").s("what", "heap").n("i", idx);
    for (int j = 0; j < 5; j++) {
      const int n = r.in(0, 14), cap = r.in(1, 8), C = r.pickn({2, 5, 50}), PL = r.pickn({1, 3, 50});
      std::vector<std::pair<int, int>> heap;
      JList in, out;
      for (int i = 0; i < n; i++) {
        const int c = r.in(0, C), p = r.in(0, PL);
        in.add(P(c, p));
        HeapByCostAdd(c, p, cap, &heap);
      }
      HeapByCostFinish(&heap);
      for (auto& x : heap) out.add(P(x.first, x.second));
      t.ev("heap").raw("in", in.str()).n("cap", cap).raw("r", out.str());
    }
  }
}

// ---------------------------------------------------------------- atomic set with threads
static void SetRun(Rng& r, Trace& t, int nops, int idx) {
  const int T = r.in(2, 4);
  t.ev("init").n("P", T).n("i", idx);
  AtomicSet<int> s;
  struct Ev { int64_t at; std::string js; };
  std::atomic<int64_t> clk{0};
  std::atomic<int> ready{0};
  std::vector<std::vector<Ev>> evs(T);
  std::vector<uint64_t> seeds;
  for (int i = 0; i < T; i++) seeds.push_back(r.next());
  const int per = std::max(2, nops / T);
  const int V = r.in(1, 4);
  auto Body = [&](int th) {
    Rng rr(seeds[th]);
    ready.fetch_add(1);
    while (ready.load() < T) {}
    for (int j = 0; j < per; j++) {
      const int q = rr.in(0, 99), v = rr.in(1, V);
      const char* o = q < 30 ? "ins" : q < 50 ? "rem" : q < 65 ? "chk" : q < 80 ? "emp" : q < 97 ? "pop" : "clr";
      const bool mv = rr.pct(50);
      for (volatile int i = 0; i < rr.in(0, 60); i++) {}
      const int64_t a = clk.fetch_add(1);
      int res = 0;
      switch (o[0] == 'c' && o[1] == 'l' ? 'l' : o[0]) {
        case 'i': if (mv) { int x = v; res = s.Insert(std::move(x)); } else res = s.Insert(v); break;
        case 'r': res = s.Remove(v); break;
        case 'c': res = s.Check(v); break;
        case 'e': res = s.IsEmpty(); break;
        case 'p': res = s.Pop(); break;
        default: s.Clear(); break;
      }
      const int64_t b = clk.fetch_add(1);
      evs[th].push_back({a, "{\"o\":\"inv\",\"id\":" + jn(th + 1) + ",\"op\":{\"o\":\"" + o + "\",\"v\":" + jn(v) + ",\"r\":" + jn(res) + "}}"});
      evs[th].push_back({b, "{\"o\":\"ret\",\"id\":" + jn(th + 1) + "}"});
    }
  };
  std::vector<std::thread> ths;
  for (int i = 0; i < T; i++) ths.emplace_back(Body, i);
  for (auto& x : ths) x.join();
  std::vector<Ev> all;
  for (auto& e : evs) for (auto& x : e) all.push_back(x);
  std::sort(all.begin(), all.end(), [](const Ev& a, const Ev& b) { return a.at < b.at; });
  t.flush();
  for (auto& e : all) { t.line += "," + e.js; t.events++; }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 80), only = a.n("only", -1);
  FILE* out = fopen(a.s("out", "/dev/stdout").c_str(), "w");
  const std::string dir = MakeScratch();
  const std::string mode = a.s("mode", "cache");
  std::vector<std::vector<std::string>> parts;
  if (mode == "cache") { Rng r(seed * 77 + 5); parts = Partitions(r, 3, 9); }
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    Rng r(seed * 7000003 + i);
    Trace t;
    Watchdog(&t, out, 30);
    if (mode == "cache") CacheRun(r, t, dir, nops, i, parts);
    else if (mode == "cont") ContRun(r, t, nops, i);
    else SetRun(r, t, nops, i);
    fputs(t.done().c_str(), out);
    fflush(out);
  }
  fclose(out);
  WipeDir(dir, true);
  return 0;
}
