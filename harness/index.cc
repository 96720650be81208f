// Secondary indices.
// args: seed= n= ops= out= mode=seq|conc [only=]
#include "core.h"
#include <atomic>
#include <thread>
#include "tkrzw_index.h"
using namespace vh;

typedef std::vector<std::string> SV;
struct It {
  virtual ~It() {}
  virtual void First() = 0;
  virtual void Last() = 0;
  virtual void Jump(const std::string& k, const std::string* v) = 0;
  virtual void Next() = 0;
  virtual void Prev() = 0;
  virtual bool Get(std::string* k, std::string* v) = 0;
};
struct Idx {
  virtual ~Idx() {}
  virtual std::string Add(const std::string& k, const std::string& v) = 0;
  virtual std::string Rem(const std::string& k, const std::string& v) = 0;
  virtual bool Check(const std::string& k, const std::string& v) = 0;
  virtual SV Values(const std::string& k, size_t max) = 0;
  virtual int64_t Count() = 0;
  virtual std::string Clear() = 0;
  virtual std::unique_ptr<It> Iter() = 0;
  virtual std::string Maint(int, const std::string&, bool) { return ""; }
};
static std::string SN(const Status& s) { return stname(s); }

template <class T>
struct StrIt : public It {
  std::unique_ptr<typename T::Iterator> it;
  void First() override { it->First(); }
  void Last() override { it->Last(); }
  void Jump(const std::string& k, const std::string* v) override { if (v) it->Jump(k, *v); else it->Jump(k); }
  void Next() override { it->Next(); }
  void Prev() override { it->Previous(); }
  bool Get(std::string* k, std::string* v) override { return it->Get(k, v); }
};
template <class T>
struct StrBase : public Idx {
  std::unique_ptr<T> x;
  bool Check(const std::string& k, const std::string& v) override { return x->Check(k, v); }
  SV Values(const std::string& k, size_t m) override { return m == 0 ? x->GetValues(k) : x->GetValues(k, m); }
  int64_t Count() override { return x->Count(); }
  std::unique_ptr<It> Iter() override { auto r = std::make_unique<StrIt<T>>(); r->it = x->MakeIterator(); return r; }
};
template <class T>
struct Void : public StrBase<T> {
  std::string Add(const std::string& k, const std::string& v) override { this->x->Add(k, v); return "ok"; }
  std::string Rem(const std::string& k, const std::string& v) override { this->x->Remove(k, v); return "void"; }
  std::string Clear() override { this->x->Clear(); return "ok"; }
};
template <class T>
struct Stat : public StrBase<T> {
  std::string Add(const std::string& k, const std::string& v) override { return SN(this->x->Add(k, v)); }
  std::string Rem(const std::string& k, const std::string& v) override { return SN(this->x->Remove(k, v)); }
  std::string Clear() override { return SN(this->x->Clear()); }
};
struct FileIdx : public Stat<FileIndex> {
  std::string path;
  TreeDBM::TuningParameters tp;
  std::string Maint(int q, const std::string&, bool w) override {
    if (q == 0) return SN(x->Rebuild());
    if (q == 1) return SN(x->Synchronize(false));
    if (q == 2) return SN(x->Close());
    if (q == 4) { x = std::make_unique<FileIndex>(); return SN(x->Open(path, w)); }
    if (q == 5) x = std::make_unique<FileIndex>(std::make_unique<PositionalParallelFile>());
    return SN(x->Open(path, w, 0, tp));
  }
};
#ifdef LANGC
struct CIt : public It {
  TkrzwIndexIter* it;
  ~CIt() { tkrzw_index_iter_free(it); }
  void First() override { tkrzw_index_iter_first(it); }
  void Last() override { tkrzw_index_iter_last(it); }
  void Jump(const std::string& k, const std::string* v) override {
    CArg a; auto x = a(k); auto y = a(v ? std::string_view(*v) : std::string_view(""));
    tkrzw_index_iter_jump(it, x.p, x.n, y.p, y.n);
  }
  void Next() override { tkrzw_index_iter_next(it); }
  void Prev() override { tkrzw_index_iter_previous(it); }
  bool Get(std::string* k, std::string* v) override {
    char *kp = nullptr, *vp = nullptr;
    int32_t kn = -7, vn = -7;
    const bool ok = tkrzw_index_iter_get(it, k ? &kp : nullptr, k ? &kn : nullptr, v ? &vp : nullptr, v ? &vn : nullptr);
    if (!ok) return false;
    if (k) *k = CTake(kp, kn);
    if (v) *v = CTake(vp, vn);
    return LS().bad == 0;
  }
};
struct PolyIdx : public Idx {
  TkrzwIndex* x = nullptr;
  std::string path;
  std::map<std::string, std::string> params;
  ~PolyIdx() { if (x) tkrzw_index_close(x); }
  Status Open(bool w, int opts, bool tuned) {
    auto p = tuned ? params : std::map<std::string, std::string>();
    if (opts & File::OPEN_TRUNCATE) p["truncate"] = "true";
    CPoison();
    x = tkrzw_index_open(path.c_str(), w, CDBM::PS(p).c_str());
    if (x && tkrzw_index_is_writable(x) != w && !path.empty()) LS().fail("is_writable");
    if (x && CDBM::PS({}) == "") {
      char* fp = tkrzw_index_get_file_path(x);
      if (CTake(fp, strlen(fp)) != path) LS().fail("index path");
    }
    return CRes(x != nullptr);
  }
  std::string Add(const std::string& k, const std::string& v) override { CArg a; auto p = a(k); auto q = a(v); CPoison(); return SN(CRes(tkrzw_index_add(x, p.p, p.n, q.p, q.n))); }
  std::string Rem(const std::string& k, const std::string& v) override { CArg a; auto p = a(k); auto q = a(v); CPoison(); return SN(CRes(tkrzw_index_remove(x, p.p, p.n, q.p, q.n))); }
  bool Check(const std::string& k, const std::string& v) override { CArg a; auto p = a(k); auto q = a(v); return tkrzw_index_check(x, p.p, p.n, q.p, q.n); }
  SV Values(const std::string& k, size_t m) override { CArg a; auto p = a(k); int32_t n = -7; TkrzwStr* r = tkrzw_index_get_values(x, p.p, p.n, m, &n); return CTakeArr(r, n); }
  int64_t Count() override { return tkrzw_index_count(x); }
  std::string Clear() override { CPoison(); return SN(CRes(tkrzw_index_clear(x))); }
  std::unique_ptr<It> Iter() override { auto r = std::make_unique<CIt>(); r->it = tkrzw_index_make_iterator(x); return r; }
  std::string Maint(int q, const std::string&, bool w) override {
    CPoison();
    if (q == 0) return SN(CRes(tkrzw_index_rebuild(x)));
    if (q == 1) return SN(CRes(tkrzw_index_synchronize(x, false)));
    if (q == 2) { const bool rv = tkrzw_index_close(x); x = nullptr; const std::string s = SN(CRes(rv)); LS().drain(); return s; }
    return SN(Open(w, 0, q != 4));
  }
};
#else
struct PolyIdx : public Stat<PolyIndex> {
  std::string path;
  std::map<std::string, std::string> params;
  std::string Maint(int q, const std::string&, bool w) override {
    if (q == 0) return SN(x->Rebuild());
    if (q == 1) return SN(x->Synchronize(false));
    if (q == 2) return SN(x->Close());
    if (q == 4) { x = std::make_unique<PolyIndex>(); return SN(x->Open(path, w)); }
    return SN(x->Open(path, w, 0, params));
  }
};
#endif
typedef StdIndex<int64_t, int64_t> IntI;
struct IntIt : public It {
  std::unique_ptr<IntI::Iterator> it;
  void First() override { it->First(); }
  void Last() override { it->Last(); }
  void Jump(const std::string& k, const std::string* v) override { it->Jump(StrToInt(k), StrToInt(v ? *v : "")); }
  void Next() override { it->Next(); }
  void Prev() override { it->Previous(); }
  bool Get(std::string* k, std::string* v) override {
    int64_t a = 0, b = 0;
    if (!it->Get(k ? &a : nullptr, v ? &b : nullptr)) return false;
    if (k) *k = ToString(a);
    if (v) *v = ToString(b);
    return true;
  }
};
struct IntIdx : public Idx {
  IntI x;
  std::string Add(const std::string& k, const std::string& v) override { x.Add(StrToInt(k), StrToInt(v)); return "ok"; }
  std::string Rem(const std::string& k, const std::string& v) override { x.Remove(StrToInt(k), StrToInt(v)); return "void"; }
  bool Check(const std::string& k, const std::string& v) override { return x.Check(StrToInt(k), StrToInt(v)); }
  SV Values(const std::string& k, size_t m) override { SV r; for (auto v : x.GetValues(StrToInt(k), m)) r.push_back(ToString(v)); return r; }
  int64_t Count() override { return x.Count(); }
  std::string Clear() override { x.Clear(); return "ok"; }
  std::unique_ptr<It> Iter() override { auto r = std::make_unique<IntIt>(); r->it = x.MakeIterator(); return r; }
};

struct Pool {
  std::vector<SV> keys;  // spellings, in key order
  SV vals;               // in value order
  std::map<std::string, int> kid, vid;
  int K = 0, V = 0;
  const std::string& key(Rng& r, int k) const { return keys[k - 1][r.in(0, (int)keys[k - 1].size() - 1)]; }
  int pair(const std::string& k, const std::string& v) const {
    auto a = kid.find(k);
    auto b = vid.find(v);
    return a == kid.end() || b == vid.end() ? -1 : (a->second - 1) * V + b->second;
  }
  int val(const std::string& v) const { auto b = vid.find(v); return b == vid.end() ? -1 : b->second; }
  int kof(int p) const { return (p - 1) / V + 1; }
  const std::string& v(int p) const { return vals[(p - 1) % V]; }
};
static std::string Bytes(Rng& r, int kind) {
  static const std::string al = std::string("ab\0\xff\x01\x02", 6);
  const int q = r.in(0, 9);
  int n = q < 6 ? r.in(0, 4) : q < 8 ? r.in(1, 20) : q < 9 ? r.in(124, 132) : r.in(200, 400);
  if (kind == 1) n = r.in(0, 3);
  std::string s(n, 0);
  const int wide = r.pct(40);
  for (auto& c : s) c = wide ? (char)r.in(0, 255) : al[r.in(0, 5)];
  return s;
}
static std::string BE(uint64_t v, int n) { std::string s(n, 0); for (int i = n - 1; i >= 0; i--) { s[i] = (char)v; v >>= 8; } return s; }
static Pool MakePool(Rng& r, int comp, int K, int V, bool ints, bool spell) {
  Pool p;
  if (ints) {
    std::set<int64_t> a, b;
    while ((int)a.size() < K) a.insert(r.pct(50) ? r.in(-9, 9) : (int64_t)r.next());
    while ((int)b.size() < V) b.insert(r.pct(50) ? r.in(-9, 9) : (int64_t)r.next());
    for (auto x : a) p.keys.push_back({ToString(x)});
    for (auto x : b) p.vals.push_back(ToString(x));
  } else {
    std::set<std::string> vs;
    while ((int)vs.size() < V) vs.insert(Bytes(r, 0));
    p.vals.assign(vs.begin(), vs.end());
    if (comp == 0) {
      std::set<std::string> ks;
      const std::string stem = r.pct(30) ? Bytes(r, 0) : "";
      for (int i = 0; (int)ks.size() < K; i++) ks.insert((i < 200 ? stem : "") + Bytes(r, r.pct(50)));
      for (auto& x : ks) p.keys.push_back({x});
    } else if (comp == 1) {
      std::set<std::string> ks;
      while ((int)ks.size() < K) {
        std::string s = Bytes(r, 0);
        for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32;
        ks.insert(s);
      }
      for (auto& x : ks) {
        std::set<std::string> sp = {x};
        for (int j = 0; spell && j < 3; j++) {
          std::string s = x;
          for (auto& c : s) if (c >= 'a' && c <= 'z' && r.pct(50)) c -= 32;
          sp.insert(s);
        }
        p.keys.emplace_back(sp.begin(), sp.end());
      }
    } else if (comp == 4 || comp == 6) {
      std::set<int> ks;
      while ((int)ks.size() < K) ks.insert(r.in(-4000, 4000));
      for (int x : ks) {
        std::set<std::string> sp;
        const double d = x / 8.0;
        if (comp == 4) {
          char b[64];
          sprintf(b, "%.3f", d); sp.insert(b);
          sprintf(b, "%.5f", d); if (spell) sp.insert(b);
          sprintf(b, "  %.4f", d); if (spell) sp.insert(b);
        } else {
          const float f = d;
          uint32_t u; memcpy(&u, &f, 4);
          uint64_t w; memcpy(&w, &d, 8);
          sp.insert(BE(w, 8));
          if (spell) sp.insert(BE(u, 4));
        }
        p.keys.emplace_back(sp.begin(), sp.end());
      }
    } else {
      std::set<int64_t> ks;
      while ((int)ks.size() < K) {
        const int q = r.in(0, 3);
        int64_t x = q == 0 ? r.in(0, 9) : q == 1 ? r.in(0, 120) : q == 2 ? r.in(0, 32000) : r.in(0, 2000000000);
        if (comp != 3 && r.pct(40)) x = -x;
        ks.insert(x);
      }
      for (int64_t x : ks) {
        std::set<std::string> sp;
        char b[64];
        if (comp == 2) {
          sp.insert(ToString(x));
          sprintf(b, "%012lld", (long long)x); if (spell) sp.insert(b);
          if (spell) sp.insert(" " + ToString(x));
          if (spell && x >= 0) sp.insert("+" + ToString(x));
        } else if (comp == 3) {
          sprintf(b, "%llx", (long long)x); sp.insert(b);
          sprintf(b, "%llX", (long long)x); if (spell) sp.insert(b);
          sprintf(b, "0x%llx", (long long)x); if (spell) sp.insert(b);
          sprintf(b, "%012llx", (long long)x); if (spell) sp.insert(b);
        } else {
          sp.insert(BE(x, 8));
          if (spell && x >= -128 && x < 128) sp.insert(BE(x, 1));
          if (spell && x >= -32768 && x < 32768) sp.insert(BE(x, 2));
          if (spell && x >= -2147483647 && x < 2147483647) sp.insert(BE(x, 4));
        }
        p.keys.emplace_back(sp.begin(), sp.end());
      }
    }
  }
  p.K = p.keys.size();
  p.V = p.vals.size();
  for (int i = 0; i < p.K; i++) for (auto& s : p.keys[i]) p.kid[s] = i + 1;
  for (int i = 0; i < p.V; i++) p.vid[p.vals[i]] = i + 1;
  return p;
}
static const KeyComparator kComp[] = {PairLexicalKeyComparator, PairLexicalCaseKeyComparator, PairDecimalKeyComparator, PairHexadecimalKeyComparator,
                                      PairRealNumberKeyComparator, PairSignedBigEndianKeyComparator, PairFloatBigEndianKeyComparator};
static const char* kName[] = {"PairLexicalKeyComparator", "PairLexicalCaseKeyComparator", "PairDecimalKeyComparator", "PairHexadecimalKeyComparator",
                              "PairRealNumberKeyComparator", "PairSignedBigEndianKeyComparator", "PairFloatBigEndianKeyComparator"};
static const char* kShort[] = {"pairlexical", "pairlexicalcase", "pairdecimal", "pairhexadecimal", "pairrealnumber", "pairsignedbigendian", "pairfloatbigendian"};

struct Made { std::unique_ptr<Idx> x; int cls; int comp; bool file; bool std; };
static Made MakeIdx(Rng& r, const std::string& dir) {
  Made m;
#ifdef LANGC
  m.cls = r.in(2, 3);
#else
  m.cls = r.in(0, 6);
#endif
  m.comp = m.cls <= 3 && r.pct(65) ? r.in(1, 6) : 0;
  m.file = m.cls == 0 || m.cls == 2;
  m.std = m.cls >= 4;
  if (m.cls == 0) {
    auto x = std::make_unique<FileIdx>();
    x->path = dir + "/i.tkt";
    if (m.comp > 0 || r.pct(50)) x->tp.key_comparator = kComp[m.comp];
    if (r.pct(60)) { x->tp.max_page_size = r.pickn({1, 100, 300}); x->tp.max_branches = r.pickn({2, 3, 8}); x->tp.max_cached_pages = r.pickn({1, 4, 64}); }
    x->x = r.pct(30) ? std::make_unique<FileIndex>(std::make_unique<PositionalParallelFile>()) : std::make_unique<FileIndex>();
    if (x->x->Open(x->path, true, 0, x->tp) != Status::SUCCESS) exit(3);
    m.x = std::move(x);
  } else if (m.cls == 1) {
    auto x = std::make_unique<Void<MemIndex>>();
    x->x = m.comp == 0 && r.pct(50) ? std::make_unique<MemIndex>() : std::make_unique<MemIndex>(kComp[m.comp]);
    m.x = std::move(x);
  } else if (m.cls <= 3) {
    auto x = std::make_unique<PolyIdx>();
#ifndef LANGC
    x->x = std::make_unique<PolyIndex>();
#endif
    if (m.cls == 2) x->path = dir + "/i.tkt";
    if (m.comp > 0 || r.pct(50)) x->params["key_comparator"] = r.pct(50) ? kName[m.comp] : kShort[m.comp];
    if (m.cls == 2 && r.pct(60)) { x->params["max_page_size"] = ToString(r.pickn({1, 100, 300})); x->params["max_branches"] = "3"; x->params["max_cached_pages"] = "4"; }
    const int opts = r.pct(30) ? File::OPEN_TRUNCATE : 0;
#ifdef LANGC
    const Status st = x->Open(true, opts, true);
#else
    const Status st = x->x->Open(x->path, true, opts, x->params);
#endif
    if (st != Status::SUCCESS) { fprintf(stderr, "index: %s\n", ToString(st).c_str()); exit(3); }
    m.x = std::move(x);
  } else if (m.cls == 4) {
    auto x = std::make_unique<Void<StdIndexStr>>();
    x->x = std::make_unique<StdIndexStr>();
    m.x = std::move(x);
  } else if (m.cls == 5) {
    m.x = nullptr;
  } else {
    m.x = std::make_unique<IntIdx>();
  }
  return m;
}
typedef StdIndex<std::string, std::string> SS;
struct SSIt : public It {
  std::unique_ptr<SS::Iterator> it;
  void First() override { it->First(); }
  void Last() override { it->Last(); }
  void Jump(const std::string& k, const std::string* v) override { if (v) it->Jump(k, *v); else it->Jump(k); }
  void Next() override { it->Next(); }
  void Prev() override { it->Previous(); }
  bool Get(std::string* k, std::string* v) override { return it->Get(k, v); }
};
struct SSIdx : public Void<SS> {
  std::unique_ptr<It> Iter() override { auto r = std::make_unique<SSIt>(); r->it = x->MakeIterator(); return r; }
};

static std::string Arr(const std::vector<int>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]"; }
static int GetP(It* it, const Pool& p, Rng& r) {
  std::string k, v;
  if (r.pct(10)) return it->Get(nullptr, nullptr) && it->Get(&k, nullptr) && it->Get(nullptr, &v) ? p.pair(k, v) : it->Get(&k, &v) ? -2 : 0;
  return it->Get(&k, &v) ? p.pair(k, v) : 0;
}

static void SeqRun(Rng& r, Trace& t, const std::string& dir, int nops, int idx) {
  Made m = MakeIdx(r, dir);
  if (m.cls == 5) { auto x = std::make_unique<SSIdx>(); x->x = std::make_unique<SS>(); m.x = std::move(x); }
  const bool big = r.pct(20);
  const Pool p = MakePool(r, m.comp, big ? r.in(6, 14) : r.in(1, 5), big ? r.in(6, 14) : r.in(1, 6), m.cls == 6, r.pct(70));
  const int N = p.K * p.V;
  const int I = 3;
  t.ev("init").n("K", p.K).n("V", p.V).n("std", m.std).n("I", I).n("cls", m.cls).n("comp", m.comp).n("i", idx);
  Idx* x = m.x.get();
  std::unique_ptr<It> its[I];
  const int steps = big ? nops * 2 : r.in(nops / 2, nops * 3 / 2);
  const int addp = r.pickn({20, 30, 40}), remp = r.pickn({5, 12, 25});
  bool w = true;
  auto Scan = [&](bool fwd) {
    std::vector<int> l;
    auto it = x->Iter();
    if (fwd) it->First(); else it->Last();
    for (int i = 0; i < 1000; i++) {
      const int q = GetP(it.get(), p, r);
      if (q == 0) break;
      l.push_back(q);
      if (fwd) it->Next(); else it->Prev();
    }
    t.ev(fwd ? "scan" : "scanr").raw("r", Arr(l));
  };
  for (int j = 0; j < steps; j++) {
    const int pr = r.in(1, N);
    const int k = p.kof(pr);
    int q = r.in(0, 99);
    if (q < addp) {
      if (!w) continue;
      t.ev("add").n("p", pr).s("r", x->Add(p.key(r, k), p.v(pr)));
    } else if (q < addp + remp) {
      if (!w) continue;
      t.ev("rem").n("p", pr).s("r", x->Rem(p.key(r, k), p.v(pr)));
    } else if (q < 74) {
      const int z = r.in(0, 9);
      if (z < 3) t.ev("chk").n("p", pr).n("r", x->Check(p.key(r, k), p.v(pr)));
      else if (z < 7) {
        const int mx = r.pct(60) ? 0 : r.in(1, 4);
        std::vector<int> l;
        for (auto& v : x->Values(p.key(r, k), mx)) l.push_back(p.val(v));
        t.ev("vals").n("k", k).n("mx", mx).raw("r", Arr(l));
      } else if (z < 8) t.ev("cnt").n("r", x->Count());
      else Scan(r.pct(60));
    } else if (q < 92) {
      // iterators
      const int id = r.in(1, I);
      auto& it = its[id - 1];
      int burst = m.std ? r.in(1, 3) : r.in(2, 8);
      if (it == nullptr || r.pct(10)) { it.reset(); it = x->Iter(); t.ev("inew").n("id", id); }
      bool fresh = !m.std;
      for (int b = 0; b < burst; b++) {
        int z = r.in(0, 99);
        if (fresh) z = r.in(0, 39);
        fresh = false;
        if (z < 8) { it->First(); t.ev("ifirst").n("id", id); }
        else if (z < 16) { it->Last(); t.ev("ilast").n("id", id); }
        else if (z < 40) {
          const int p2 = r.in(1, N);
          const bool dflt = m.cls != 6 && p.vals[0].empty() && r.pct(30);
          const int tgt = dflt ? (p.kof(p2) - 1) * p.V + 1 : p2;
          it->Jump(p.key(r, p.kof(tgt)), dflt ? nullptr : &p.v(tgt));
          t.ev("ijump").n("id", id).n("p", tgt);
        } else if (z < 72) { it->Next(); t.ev("inext").n("id", id); }
        else { it->Prev(); t.ev("iprev").n("id", id); }
        t.ev("iget").n("id", id).n("r", GetP(it.get(), p, r));
      }
    } else if (q < 93) {
      if (r.pct(40) && w) t.ev("clear").s("r", x->Clear());
    } else if (m.cls == 0 || m.cls == 2) {
      const int z = r.in(0, 9);
      if (z < 2) { if (w) t.ev("keep").s("r", x->Maint(0, dir, w)); }
      else if (z < 5) { if (w) t.ev("keep").s("r", x->Maint(1, dir, w)); }
      else {
        for (auto& it : its) it.reset();
        for (int id = 1; id <= I; id++) t.ev("inew").n("id", id);
        t.ev("keep").s("r", x->Maint(2, dir, w));
        w = w ? r.pct(80) : true;
        t.ev("keep").s("r", x->Maint(r.in(3, m.cls == 0 ? 5 : 4), dir, w));
        for (int id = 1; id <= I; id++) its[id - 1] = x->Iter();
        Scan(true);
      }
    }
  }
  Scan(true);
  for (auto& it : its) it.reset();
  if (m.file) x->Maint(2, dir, w);
}

static void ConcRun(Rng& r, Trace& t, const std::string& dir, int nops, int idx) {
  Made m = MakeIdx(r, dir);
  if (m.cls == 5) { auto x = std::make_unique<SSIdx>(); x->x = std::make_unique<SS>(); m.x = std::move(x); }
  const Pool p = MakePool(r, m.comp, r.in(1, 2), r.in(1, 3), m.cls == 6, r.pct(50));
  const int T = r.in(2, 3), N = p.K * p.V;
  t.ev("init").n("K", p.K).n("V", p.V).n("std", m.std).n("I", T).n("cls", m.cls).n("comp", m.comp).n("i", idx);
  Idx* x = m.x.get();
  struct Ev { int64_t at; std::string js; };
  std::atomic<int64_t> clk{0};
  std::atomic<int> ready{0};
  std::vector<std::vector<Ev>> evs(T);
  std::vector<uint64_t> seeds;
  for (int i = 0; i < T; i++) seeds.push_back(r.next());
  const int per = std::max(2, nops / T);
  auto Body = [&](int th) {
    Rng rr(seeds[th]);
    std::unique_ptr<It> it = x->Iter();
    ready.fetch_add(1);
    while (ready.load() < T) {}
    for (int j = 0; j < per; j++) {
      const int q = rr.in(0, 99), pr = rr.in(1, N);
      const std::string key = p.key(rr, p.kof(pr)), v = p.v(pr);
      std::string o, res;
      for (volatile int i = 0; i < rr.in(0, 60); i++) {}
      const int64_t a = clk.fetch_add(1);
      if (q < 30) { o = "add"; res = "\"" + x->Add(key, v) + "\""; }
      else if (q < 50) { o = "rem"; res = "\"" + x->Rem(key, v) + "\""; }
      else if (q < 65) { o = "chk"; res = jn(x->Check(key, v)); }
      else if (q < 72) { o = "cnt"; res = jn(x->Count()); }
      else if (q < 75) { o = "clear"; res = "\"" + x->Clear() + "\""; }
      else if (!m.std) { o = "chk"; res = jn(x->Check(key, v)); }
      else if (q < 82) { o = "vals"; std::vector<int> l; for (auto& z : x->Values(key, 0)) l.push_back(p.val(z)); res = Arr(l); }
      else if (q < 85) { o = "ifirst"; it->First(); res = "0"; }
      else if (q < 89) { o = "inext"; it->Next(); res = "0"; }
      else if (q < 92) { o = "iprev"; it->Prev(); res = "0"; }
      else if (q < 94) { o = "ijump"; it->Jump(key, &v); res = "0"; }
      else { o = "iget"; std::string k2, v2; res = jn(it->Get(&k2, &v2) ? p.pair(k2, v2) : 0); }
      const int64_t b = clk.fetch_add(1);
      evs[th].push_back({a, "{\"o\":\"inv\",\"id\":" + jn(th + 1) + ",\"op\":{\"o\":\"" + o + "\",\"id\":" + jn(th + 1) + ",\"p\":" + jn(pr) + ",\"k\":" + jn(p.kof(pr)) + ",\"mx\":0,\"r\":" + res + "}}"});
      evs[th].push_back({b, "{\"o\":\"ret\",\"id\":" + jn(th + 1) + "}"});
    }
  };
  std::vector<std::thread> ths;
  for (int i = 0; i < T; i++) ths.emplace_back(Body, i);
  for (auto& z : ths) z.join();
  std::vector<Ev> all;
  for (auto& e : evs) for (auto& z : e) all.push_back(z);
  std::sort(all.begin(), all.end(), [](const Ev& a, const Ev& b) { return a.at < b.at; });
  // the final contents, as one more call
  std::vector<int> l;
  auto it = x->Iter();
  std::string k, v;
  for (it->First(); it->Get(&k, &v) && l.size() < 100; it->Next()) l.push_back(p.pair(k, v));
  t.flush();
  for (auto& e : all) { t.line += "," + e.js; t.events++; }
  t.line += ",{\"o\":\"inv\",\"id\":1,\"op\":{\"o\":\"scan\",\"id\":1,\"r\":" + Arr(l) + "}},{\"o\":\"ret\",\"id\":1}";
  if (m.file) x->Maint(2, dir, true);
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 80), only = a.n("only", -1);
  FILE* out = fopen(a.s("out", "/dev/stdout").c_str(), "w");
  const std::string dir = MakeScratch();
  const bool conc = a.s("mode", "seq") == "conc";
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    Rng r(seed * 7000003 + i);
    SeedTrace(seed * 1000 + i);
    Trace t;
    Watchdog(&t, out, 30);
    if (conc) ConcRun(r, t, dir, nops, i); else SeqRun(r, t, dir, nops, i);
    fputs(t.done().c_str(), out);
    fflush(out);
  }
  fclose(out);
  WipeDir(dir, true);
  return 0;
}
