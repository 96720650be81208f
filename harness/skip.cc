// The skip database: batches of updates, published in key order.
// args: seed= n= ops= out= mode=seq|conc [only=]
#include "core.h"
#include <atomic>
#include <thread>
using namespace vh;

typedef std::vector<std::pair<int, Val>> Recs;

struct Coder {
  TokTab tt;
  int kind = 0;  // 0 texts, 1 big-endian integers, 2 decimal integers
  void build(Rng& r, int k) {
    kind = k;
    tt.build(r, r.pct(80) ? 0 : 1);
    tt.toks[9] = "\t";
    tt.toks[10] = "\n";
  }
  std::string enc(const Val& v) const {
    if (kind == 2) return v.empty() ? "" : ToString(v[0] - INT_BASE);
    std::string s;
    for (int x : v) {
      if (x == 300) s.push_back(0);
      else if (x >= 0 && (x < 255 || x >= 1000000)) s += tt.enc({x});
    }
    return s;
  }
  Val dec(std::string_view s) const {
    if (kind == 1) return tt.dec(s);
    if (kind == 2) {
      const int64_t n = StrToInt(s);
      if (ToString(n) != s || n < -900000 || n > 900000) return TokTab::bad(s);
      return {INT_BASE + (int)n};
    }
    Val v;
    size_t p = 0;
    while (p < s.size()) {
      const uint8_t b = s[p];
      if (b == 0) { v.push_back(300); p++; continue; }
      if (b == 255) return TokTab::bad(s);
      const std::string& x = tt.toks[b];
      if (x.empty() || s.compare(p, x.size(), x) != 0) return TokTab::bad(s);
      v.push_back(b);
      p += x.size();
    }
    return v;
  }
  Val gen(Rng& r) const {
    if (kind) return {INT_BASE + (int)r.in(-60, 60)};
    const int c = r.in(0, 99);
    if (c < 5) return {};
    if (c < 20) return {(int)r.in(201, 254)};
    if (c < 92) return {(int)r.in(11, 40)};
    return {(int)r.in(11, 40), (int)r.in(11, 40)};
  }
};
static const Val RM = {-9};
static std::string jrec(int k, const Val& v) { return "[" + jn(k) + "," + jv(v) + "]"; }
static std::string jrecs(const Recs& l) { JList j; for (auto& x : l) j.add(jrec(x.first, x.second)); return j.str(); }
static std::string SN(const Status& s) { return stname(s); }

struct Log : public DBM::UpdateLogger {
  const KeyTab* kt = nullptr;
  const Coder* c = nullptr;
  Recs l;
  Status WriteSet(std::string_view k, std::string_view v) override { l.emplace_back(kt->of(k), c->dec(v)); return Status(Status::SUCCESS); }
  Status WriteRemove(std::string_view k) override { l.emplace_back(kt->of(k), RM); return Status(Status::SUCCESS); }
  Status WriteClear() override { l.emplace_back(0, Val()); return Status(Status::SUCCESS); }
};
struct Proc : public DBM::RecordProcessor {
  const Coder* c;
  Act fa, ea;
  std::string buf, key;
  Val seen = ABSENT;
  int calls = 0;
  std::string_view Do(const Act& a) {
    if (a.t == 0) return NOOP;
    if (a.t == 1) return REMOVE;
    buf = c->enc(a.v);
    return buf;
  }
  std::string_view ProcessFull(std::string_view k, std::string_view v) override { calls++; key = k; seen = c->dec(v); return Do(fa); }
  std::string_view ProcessEmpty(std::string_view k) override { calls++; key = k; seen = ABSENT; return Do(ea); }
};
struct Each : public DBM::RecordProcessor {
  const Coder* c;
  const KeyTab* kt;
  const std::vector<Act>* as = nullptr;
  std::string buf;
  Recs l;
  int nb = 0;
  std::string_view ProcessFull(std::string_view k, std::string_view v) override {
    const int q = kt->of(k);
    l.emplace_back(q, c->dec(v));
    if (!as || q < 1) return NOOP;
    const Act& a = (*as)[q];
    if (a.t == 0) return NOOP;
    if (a.t == 1) return REMOVE;
    buf = c->enc(a.v);
    return buf;
  }
  std::string_view ProcessEmpty(std::string_view) override { nb++; return NOOP; }
};

struct Tune {
  std::map<std::string, std::string> params;
  SkipDBM::TuningParameters tp;
  bool inorder = false, poly = false;
};
static Tune RandTune(Rng& r, bool mt) {
  Tune t;
  auto& p = t.params;
  p["dbm"] = "SkipDBM";
  RandFile(r, &p, mt);
  const int ow = r.pickn({3, 4, 5, 6}), su = r.pickn({2, 2, 3, 4, 16}), ml = r.pickn({1, 2, 3, 4, 14, 32});
  const int sm = r.pickn({1, 1024, 1500, 3000, 100000}), mc = r.pickn({1, 2, 4, 16, 100, 65536});
  t.inorder = r.pct(25);
  t.tp.offset_width = ow; t.tp.step_unit = su; t.tp.max_level = ml; t.tp.sort_mem_size = sm;
  t.tp.max_cached_records = mc; t.tp.insert_in_order = t.inorder;
  p["offset_width"] = ToString(ow); p["step_unit"] = ToString(su); p["max_level"] = ToString(ml);
  p["sort_mem_size"] = ToString(sm); p["max_cached_records"] = ToString(mc);
  if (t.inorder) p["insert_in_order"] = "true";
  t.poly = r.pct(35) || p.count("block_size");
  return t;
}
static std::unique_ptr<File> MakeFileOf(const std::string& f) {
  if (f == "mmap-para") return std::make_unique<MemoryMapParallelFile>();
  if (f == "mmap-atom") return std::make_unique<MemoryMapAtomicFile>();
  if (f == "pos-para") return std::make_unique<PositionalParallelFile>();
  if (f == "pos-atom") return std::make_unique<PositionalAtomicFile>();
  return std::make_unique<StdFile>();
}
struct DB {
  std::unique_ptr<DBM> own;
  PolyDBM* poly = nullptr;
  DBM* d = nullptr;
  SkipDBM* sk = nullptr;
  Status Open(const std::string& path, const Tune& t) {
    poly = nullptr;
    if (t.poly) {
      auto p = std::make_unique<PolyDBM>();
      const Status s = p->OpenAdvanced(path, true, File::OPEN_DEFAULT, t.params);
      if (s != Status::SUCCESS) return s;
      poly = p.get();
      sk = dynamic_cast<SkipDBM*>(p->GetInternalDBM());
      own = std::move(p);
    } else {
      auto p = std::make_unique<SkipDBM>(MakeFileOf(t.params.at("file")));
      const Status s = p->OpenAdvanced(path, true, File::OPEN_DEFAULT, t.tp);
      if (s != Status::SUCCESS) return s;
      sk = p.get();
      own = std::move(p);
    }
    d = own.get();
    return Status(Status::SUCCESS);
  }
};
static std::vector<std::string> Rev(const std::string&, const std::vector<std::string>& v) { return std::vector<std::string>(v.rbegin(), v.rend()); }
static std::vector<std::string> Twice(const std::string&, const std::vector<std::string>& v) {
  std::vector<std::string> r;
  for (auto& x : v) { r.push_back(x); r.push_back(x); }
  return r;
}
static std::vector<std::string> Drop(const std::string&, const std::vector<std::string>&) { return {}; }

struct Sess {
  Rng& r;
  KeyTab kt;
  Coder cd;
  Tune tune;
  DB db;
  Log log;
  bool haslog = false;
  std::string dir, path;
  explicit Sess(Rng& rr) : r(rr) {}
  const std::string& K(int k) const { return kt[k]; }
  int rk(Rng& q) const { return q.in(1, kt.K()); }
  std::string ReadAll(DBM* d, int* nb = nullptr) {
    Each e;
    e.c = &cd; e.kt = &kt;
    const Status s = d->ProcessEach(&e, false);
    if (nb) *nb = e.nb;
    if (s != Status::SUCCESS || (nb == nullptr && e.nb != 2)) return "[[-1,[]]]";
    return jrecs(e.l);
  }
  // A string for the reducer, and the reducer of the same name.
  std::string RandRed(Rng& q) {
    if (q.pct(35)) return "none";
    if (cd.kind == 0) return q.pick({"first", "second", "last", "concat", "concatnull", "concattab", "concatline", "remove", "rev", "twice", "drop"});
    return q.pick({"first", "second", "last", "total", "total", "total", "rev", "remove"});
  }
  static SkipDBM::ReducerType Red(const std::string& n, int kind) {
    if (n == "first") return SkipDBM::ReduceToFirst;
    if (n == "second") return SkipDBM::ReduceToSecond;
    if (n == "last") return SkipDBM::ReduceToLast;
    if (n == "concat") return SkipDBM::ReduceConcat;
    if (n == "concatnull") return SkipDBM::ReduceConcatWithNull;
    if (n == "concattab") return SkipDBM::ReduceConcatWithTab;
    if (n == "concatline") return SkipDBM::ReduceConcatWithLine;
    if (n == "remove") return SkipDBM::ReduceRemove;
    if (n == "total") return kind == 1 ? SkipDBM::ReduceToTotalBigEndian : SkipDBM::ReduceToTotal;
    if (n == "rev") return Rev;
    if (n == "twice") return Twice;
    if (n == "drop") return Drop;
    return nullptr;
  }
  std::string ReadFile(const std::string& p) {
    SkipDBM o(std::make_unique<PositionalParallelFile>());
    if (o.Open(p, true) != Status::SUCCESS) return "[[-2,[]]]";
    std::string s = ReadAll(&o);
    if (o.Close() != Status::SUCCESS) return "[[-3,[]]]";
    return s;
  }
};

struct Ev {
  std::string s;
  explicit Ev(const std::string& o, int id) { s = "{\"o\":\"" + o + "\",\"id\":" + jn(id); }
  Ev& n(const char* k, int64_t v) { s += ",\"" + std::string(k) + "\":" + std::to_string(v); return *this; }
  Ev& st(const Status& x) { s += ",\"st\":\"" + SN(x) + "\""; return *this; }
  Ev& str(const char* k, const std::string& v) { s += ",\"" + std::string(k) + "\":\"" + v + "\""; return *this; }
  Ev& raw(const char* k, const std::string& v) { s += ",\"" + std::string(k) + "\":" + v; return *this; }
  Ev& v(const char* k, const Val& x) { return raw(k, jv(x)); }
  std::string done() const { return s + "}"; }
};
static std::string opt(const Val& v) { return v == ABSENT ? "[]" : "[" + jv(v) + "]"; }
static const std::string MARK = "\x02*untouched*";

struct User {
  Sess& z;
  Rng& r;
  int id;
  std::unique_ptr<DBM::Iterator> it;
  int last = 0;  // the last key updated since the publication, in the ascending mode
  int adds = 0;
  User(Sess& s, Rng& q, int i) : z(s), r(q), id(i) {}
  int UpKey() {
    if (!z.tune.inorder) return z.rk(r);
    if (last < 1) last = r.in(1, std::max(1, z.kt.K() / 3));
    else if (r.pct(60)) last = std::min(z.kt.K(), last + (int)r.in(1, 3));
    return last;
  }
  bool CanUp() const { return adds < 150; }
  Act RandAct(bool rem = true) {
    Act a;
    a.t = r.pct(30) ? 0 : rem && r.pct(30) ? 1 : 2;
    if (a.t == 2) a.v = z.cd.gen(r);
    return a;
  }
  std::string Set() {
    const int k = UpKey();
    const Val v = z.cd.gen(r);
    const bool w = r.pct(75), x = r.pct(35);
    std::string old = MARK;
    const Status s = z.db.d->Set(z.K(k), z.cd.enc(v), w, x ? &old : nullptr);
    adds++;
    return Ev("set", id).n("k", k).v("v", v).n("w", w).n("x", x).raw("r", x && old != MARK ? opt(z.cd.dec(old)) : "[]").st(s).done();
  }
  std::string Remove() {
    const int k = UpKey();
    const bool x = r.pct(40);
    std::string old = MARK;
    const Status s = z.db.d->Remove(z.K(k), x ? &old : nullptr);
    adds++;
    return Ev("rem", id).n("k", k).n("x", x).raw("r", x && old != MARK ? opt(z.cd.dec(old)) : "[]").st(s).done();
  }
  std::string Update() {
    DBM* d = z.db.d;
    const int q = r.in(0, 99);
    if (q < 50) return Set();
    if (q < 68) return Remove();
    adds++;
    if (q < 74 && z.cd.kind == 0) {
      const int k = UpKey();
      const Val v = z.cd.gen(r), dl = r.pct(50) ? Val() : Val{(int)r.in(201, 220)};
      const Status s = d->Append(z.K(k), z.cd.enc(v), z.cd.enc(dl));
      return Ev("app", id).n("k", k).v("v", v).v("d", dl).st(s).done();
    }
    if (q < 80) {
      const int k = UpKey();
      const int m = r.in(0, 3);
      Val e = m == 0 ? ABSENT : m == 1 ? ANY : z.cd.gen(r), ds = z.cd.gen(r);
      if (m >= 2 && r.pct(70)) { std::string c; e = d->Get(z.K(k), &c) == Status::SUCCESS ? z.cd.dec(c) : ABSENT; }
      if (e != ABSENT && r.pct(20)) ds = ABSENT;
      if (r.pct(10)) ds = ANY;
      const std::string eb = e == ABSENT || e == ANY ? "" : z.cd.enc(e), db = ds == ABSENT || ds == ANY ? "" : z.cd.enc(ds);
      auto sv = [](const Val& v, const std::string& b) { return v == ABSENT ? std::string_view() : v == ANY ? DBM::ANY_DATA : std::string_view(b.data(), b.size()); };
      std::string act = MARK;
      bool found = false;
      const Status s = d->CompareExchange(z.K(k), sv(e, eb), sv(ds, db), &act, &found);
      return Ev("cas", id).n("k", k).v("e", e).v("d", ds).raw("r", found ? opt(z.cd.dec(act)) : "[]").st(s).done();
    }
    if (q < 84 && z.cd.kind == 1) {
      const int k = UpKey();
      const int n = r.in(-9, 9), i = r.in(-9, 9);
      int64_t c = 0;
      const Status s = d->Increment(z.K(k), n, &c, i);
      return Ev("inc", id).n("k", k).n("n", n).n("i", i).n("r", c).st(s).done();
    }
    if (q < 90) {
      const int k = UpKey();
      const bool w = r.pct(80);
      Proc p;
      p.c = &z.cd;
      p.fa = RandAct();
      p.ea = RandAct(false);
      const Status s = d->Process(z.K(k), &p, w);
      return Ev("proc", id).n("k", k).n("w", w).raw("fa", ja(p.fa)).raw("ea", ja(p.ea))
          .raw("r", p.calls == 1 && p.key == z.K(k) ? opt(p.seen) : "[-5]").st(s).done();
    }
    if (z.tune.inorder) return Set();
    if (q < 92) {
      const int n = r.in(1, 4);
      std::vector<std::unique_ptr<Proc>> ps;
      std::vector<std::pair<std::string_view, DBM::RecordProcessor*>> l;
      const bool w = r.pct(80);
      JList pl;
      std::vector<int> ks;
      for (int i = 0; i < n; i++) {
        ps.emplace_back(new Proc);
        Proc& p = *ps.back();
        p.c = &z.cd; p.fa = RandAct(); p.ea = RandAct(false);
        ks.push_back(z.rk(r));
        l.emplace_back(z.K(ks.back()), &p);
        pl.add("[" + jn(ks.back()) + "," + ja(p.fa) + "," + ja(p.ea) + "]");
      }
      const Status s = d->ProcessMulti(l, w);
      JList rs;
      for (auto& p : ps) rs.add(p->calls == 1 ? opt(p->seen) : "[-5]");
      return Ev("procm", id).raw("pl", pl.str()).n("w", w).raw("r", rs.str()).st(s).done();
    }
    if (q < 94) {
      const int k = z.rk(r), k2 = z.rk(r);
      if (k == k2) return Set();
      const bool w = r.pct(60), c = r.pct(40);
      std::string v = MARK;
      const Status s = d->Rekey(z.K(k), z.K(k2), w, c, &v);
      return Ev("rekey", id).n("k", k).n("k2", k2).n("w", w).n("c", c).raw("r", v == MARK ? "[]" : opt(z.cd.dec(v))).st(s).done();
    }
    if (q < 96) {
      Proc p;
      p.c = &z.cd;
      const bool w = r.pct(70);
      p.fa = RandAct();
      const Status s = d->ProcessFirst(&p, w);
      return Ev("first", id).n("w", w).raw("fa", ja(p.fa)).raw("r", p.calls == 0 ? "[]" : "[" + jrec(z.kt.of(p.key), p.seen) + "]").st(s).done();
    }
    if (q < 97) {
      std::vector<Act> as(z.kt.K() + 1);
      JList ja2;
      for (int k = 1; k <= z.kt.K(); k++) { if (r.pct(30)) as[k] = RandAct(); ja2.add(ja(as[k])); }
      Each e;
      e.c = &z.cd; e.kt = &z.kt; e.as = &as;
      const bool w = r.pct(60);
      const Status s = d->ProcessEach(&e, w);
      adds += e.l.size() / 3;
      return Ev("each", id).n("w", w).raw("as", ja2.str()).raw("r", jrecs(e.l)).n("nb", e.nb).st(s).done();
    }
    if (q < 99) {
      const int k = z.rk(r), k2 = z.rk(r);
      const Val v1 = z.cd.gen(r), v2 = z.cd.gen(r);
      std::string c, e1b;
      const Val e1 = r.pct(70) ? (d->Get(z.K(k), &c) == Status::SUCCESS ? z.cd.dec(c) : ABSENT) : ANY;
      e1b = e1 == ABSENT || e1 == ANY ? "" : z.cd.enc(e1);
      const std::string b1 = z.cd.enc(v1), b2 = z.cd.enc(v2);
      std::vector<std::pair<std::string_view, std::string_view>> es, ds;
      es.emplace_back(z.K(k), e1 == ABSENT ? std::string_view() : e1 == ANY ? DBM::ANY_DATA : std::string_view(e1b));
      ds.emplace_back(z.K(k), b1);
      ds.emplace_back(z.K(k2), b2);
      const Status s = d->CompareExchangeMulti(es, ds);
      return Ev("cxm", id).raw("es", "[" + jrec(k, e1) + "]").raw("ds", "[" + jrec(k, v1) + "," + jrec(k2, v2) + "]").st(s).done();
    }
    return IterUp(r.pct(50));
  }
  std::string IterUp(bool set) {
    if (!it) { it = z.db.d->MakeIterator(); return Ev("inew", id).done(); }
    Proc p;
    p.c = &z.cd;
    if (set) p.fa = {2, z.cd.gen(r)}; else p.fa = {1, {}};
    const Status s = it->Process(&p, true);
    return Ev(set ? "iset" : "irem", id).v("v", p.fa.v).raw("r", p.calls == 0 ? "[]" : "[" + jrec(z.kt.of(p.key), p.seen) + "]").st(s).done();
  }
  std::string Read() {
    DBM* d = z.db.d;
    const int q = r.in(0, 99);
    if (q < 30) {
      const int k = z.rk(r);
      std::string v = MARK;
      const Status s = d->Get(z.K(k), &v);
      return Ev("get", id).n("k", k).raw("r", s == Status::SUCCESS ? opt(z.cd.dec(v)) : s == Status::NOT_FOUND_ERROR ? "[]" : "[-5]").done();
    }
    if (q < 42) return Ev("count", id).n("io", z.tune.inorder).n("r", d->CountSimple()).done();
    if (q < 65) {
      const int64_t n = d->CountSimple();
      const int64_t i = r.in(0, std::max<int64_t>(n, 1) + (r.pct(10) ? 40 : 0));
      std::string k, v;
      const Status s = z.db.sk->GetByIndex(i, &k, &v);
      return Ev("byidx", id).n("i", i).raw("r", s == Status::SUCCESS ? "[" + jrec(z.kt.of(k), z.cd.dec(v)) + "]" : s == Status::NOT_FOUND_ERROR ? "[]" : "[-5]").done();
    }
    if (q < 75) return Ev("isupd", id).n("r", z.db.sk->IsUpdated()).done();
    return Ev("scan", id).raw("r", z.ReadAll(d)).done();
  }
  std::string Iter() {
    if (!it || r.pct(3)) { it.reset(); it = z.db.d->MakeIterator(); return Ev("inew", id).done(); }
    const int q = r.in(0, 99);
    const int k = z.rk(r), inc = r.pct(50);
    if (q < 4) return Ev("ifirst", id).st(it->First()).done();
    if (q < 9) return Ev("ilast", id).st(it->Last()).done();
    if (q < 16) return Ev("ijump", id).n("k", k).st(it->Jump(z.K(k))).done();
    if (q < 24) return Ev("ilower", id).n("k", k).n("inc", inc).st(it->JumpLower(z.K(k), inc)).done();
    if (q < 32) return Ev("iupper", id).n("k", k).n("inc", inc).st(it->JumpUpper(z.K(k), inc)).done();
    if (q < 50) return Ev("inext", id).st(it->Next()).done();
    if (q < 60) return Ev("iprev", id).st(it->Previous()).done();
    if (q < 64 && CanUp() && !z.tune.inorder) { adds++; return IterUp(r.pct(50)); }
    std::string kk, v;
    const Status s = it->Get(&kk, &v);
    return Ev("iget", id).raw("r", s == Status::SUCCESS ? "[" + jrec(z.kt.of(kk), z.cd.dec(v)) + "]" : s == Status::NOT_FOUND_ERROR ? "[]" : "[-5]").done();
  }
  std::string Sync(bool copy, const std::string& red, const std::string& merge = "") {
    const std::string dest = z.dir + "/copy";
    Status cs(Status::SUCCESS), s(Status::SUCCESS);
    RemoveFile(dest);
    DBM::FileProcessorCopyFileData proc(&cs, dest);
    const bool named = red != "rev" && red != "twice" && red != "drop";
    if (!merge.empty() || (z.db.poly && named && r.pct(70))) {
      std::map<std::string, std::string> ps;
      if (red != "none") ps["reducer"] = red == "total" && z.cd.kind == 1 ? r.pick({"totalbe", "ReduceToTotalBigEndian"}) : red == "last" && r.pct(50) ? "ReduceToLast" : red;
      if (!merge.empty()) ps["merge"] = merge;
      s = z.db.poly->SynchronizeAdvanced(false, copy ? &proc : nullptr, ps);
    } else if (red == "none" && r.pct(50)) {
      s = z.db.d->Synchronize(false, copy ? &proc : nullptr);
    } else {
      s = z.db.sk->SynchronizeAdvanced(false, copy ? &proc : nullptr, Sess::Red(red, z.cd.kind));
    }
    last = 0;
    std::string cp = "[]";
    if (copy) cp = cs == Status::SUCCESS ? z.ReadFile(dest) : "[[-4,[]]]";
    return Ev("sync", id).str("red", red).n("hc", copy).raw("cp", cp).st(s).done();
  }
};

// Another skip database file, and what was inserted into it.
static std::string MakeSource(Sess& z, const std::string& p, Recs* recs) {
  Rng& r = z.r;
  RemoveFile(p);
  Tune t = RandTune(r, false);
  SkipDBM s(MakeFileOf(t.params.at("file")));
  if (s.OpenAdvanced(p, true, File::OPEN_TRUNCATE, t.tp) != Status::SUCCESS) return "open";
  const int n = r.pct(10) ? 0 : r.in(1, 14);
  std::vector<int> ks;
  for (int i = 0; i < n; i++) ks.push_back(z.rk(r));
  if (t.inorder) std::sort(ks.begin(), ks.end());
  for (int k : ks) {
    const Val v = z.cd.gen(r);
    if (s.Set(z.K(k), z.cd.enc(v)) != Status::SUCCESS) return "set";
    recs->emplace_back(k, v);
  }
  return SN(s.Close());
}

static void Begin(Sess& z, Trace& t, const std::string& dir, int K, int I, int idx, bool mt) {
  Rng& r = z.r;
  z.dir = dir;
  z.path = dir + "/db.tks";
  z.kt = MakeKeys(r.pick({"adv", "adv", "short", "num"}), K, r);
  z.cd.build(r, r.pct(60) ? 0 : r.in(1, 2));
  z.tune = RandTune(r, mt);
  t.ev("init").n("I", I).n("K", z.kt.K()).n("inorder", z.tune.inorder).n("kind", z.cd.kind).n("i", idx);
}

static void SeqRun(Rng& r, Trace& t, const std::string& dir, int nops, int idx) {
  Sess z(r);
  const int I = 2;
  Begin(z, t, dir, r.pct(70) ? r.in(2, 9) : r.in(10, 60), I, idx, false);
  auto Put = [&](const std::string& js) { t.flush(); t.line += "," + js; t.events++; };
  if (z.db.Open(z.path, z.tune) != Status::SUCCESS) { t.ev("badopen"); return; }
  z.log.kt = &z.kt;
  z.log.c = &z.cd;
  z.haslog = r.pct(60);
  if (z.haslog) z.db.d->SetUpdateLogger(&z.log);
  User u[2] = {User(z, r, 1), User(z, r, 2)};
  const int burst = r.pct(50) ? r.in(1, 3) : r.in(8, 40), wild = r.pct(30);
  auto Pending = [&](int n) { u[0].adds = n; u[1].adds = n; u[0].last = 0; u[1].last = 0; };
  int since = 0;
  for (int j = 0; j < nops; j++) {
    User& x = u[r.in(0, 1)];
    const int q = r.in(0, 99);
    int64_t size = z.db.d->CountSimple();
    if (q < 34) {
      if (size + since > 160) { Put(u[0].Sync(false, r.pct(50) ? "first" : "last")); since = 0; Pending(0); continue; }
      const int m = r.in(1, burst);
      for (int i = 0; i < m; i++) { Put(u[0].Update()); since++; }
    } else if (q < 52) Put(x.Read());
    else if (q < 76) {
      const int m = r.in(3, 8);
      for (int i = 0; i < m; i++) { if (u[0].adds > u[1].adds) u[1].adds = u[0].adds; if (z.tune.inorder) x.last = u[0].last; Put(x.Iter()); }
    } else if (q < 86) {
      if (z.db.poly && r.pct(20)) {
        std::string red = z.RandRed(r);
        if (red == "rev" || red == "twice" || red == "drop") red = "none";
        Recs recs;
        const std::string p = dir + "/src" + ToString(j);
        const std::string s = MakeSource(z, p, &recs);
        if (s != "ok") { t.ev("badsrc").s("s", s); return; }
        Put(Ev("merge", 1).raw("recs", jrecs(recs)).str("st", "ok").done());
        Put(u[0].Sync(r.pct(30), red, p));
      } else Put(u[0].Sync(r.pct(20), z.RandRed(r)));
      since = 0; Pending(0);
      if (r.pct(50)) Put(Ev("scan", 1).raw("r", z.ReadAll(z.db.d)).done());
    } else if (q < 90) {
      Recs recs;
      const std::string p = dir + "/src" + ToString(j);
      const std::string s = MakeSource(z, p, &recs);
      if (s != "ok") { t.ev("badsrc").s("s", s); return; }
      Put(Ev("merge", 1).raw("recs", jrecs(recs)).st(z.db.sk->MergeSkipDatabase(p)).done());
      since += recs.size();
    } else if (q < 92) {
      Put(Ev("revert", 1).st(z.db.sk->Revert()).done());
      since = 0; Pending(0);
    } else if (q < 93) {
      if (!wild) continue;
      Put(Ev("clear", 1).st(z.db.d->Clear()).done());
      since = 0; Pending(0);
    } else if (q < 95) {
      Status s;
      if (r.pct(50)) s = z.db.d->Rebuild();
      else {
        SkipDBM::TuningParameters tp;
        tp.offset_width = r.pickn({-1, 3, 4, 6});
        tp.step_unit = r.pickn({-1, 2, 3, 8});
        tp.max_level = r.pickn({-1, 1, 2, 5});
        s = z.db.sk->RebuildAdvanced(tp);
      }
      Put(Ev("rebuild", 1).st(s).done());
      since = 0; Pending(0);
    } else if (q < 96) {
      Put(Ev("valid", 1).st(z.db.sk->ValidateRecords()).done());
    } else if (q < 98) {
      // buffered files do not show their contents before they are flushed
      if (z.tune.params["file"] == "std" || (z.tune.poly && z.tune.params.count("access_options"))) continue;
      const std::string p = dir + "/image";
      RemoveFile(p);
      const bool ok = CopyFileData(z.path, p) == Status::SUCCESS;
      Put(Ev("image", 1).raw("r", ok ? z.ReadFile(p) : "[[-4,[]]]").done());
    } else {
      for (auto& y : u) y.it.reset();
      Status s = z.db.d->Close();
      if (r.pct(50)) { const bool b = z.tune.inorder; z.tune = RandTune(r, false); (void)b; }
      z.db.own.reset();
      s |= z.db.Open(z.path, z.tune);
      Put(Ev("reopen", 1).st(s).done());
      if (s != Status::SUCCESS) return;
      if (z.haslog) z.db.d->SetUpdateLogger(&z.log);
      since = 0; Pending(0);
    }
    if (z.haslog && r.pct(10)) { Put(Ev("log", 1).raw("r", jrecs(z.log.l)).done()); z.log.l.clear(); }
  }
  Put(u[0].Sync(false, "none"));
  Put(Ev("scan", 1).raw("r", z.ReadAll(z.db.d)).done());
  if (z.haslog) Put(Ev("log", 1).raw("r", jrecs(z.log.l)).done());
  for (auto& y : u) y.it.reset();
  z.db.d->Close();
}

static void ConcRun(Rng& r, Trace& t, const std::string& dir, int nops, int idx) {
  Sess z(r);
  const int T = r.in(2, 3);
  Begin(z, t, dir, r.in(2, 5), T, idx, true);
  z.tune.inorder = z.tune.tp.insert_in_order = false;
  z.tune.params.erase("insert_in_order");
  if (z.db.Open(z.path, z.tune) != Status::SUCCESS) { t.ev("badopen"); return; }
  auto Put = [&](const std::string& js) { t.flush(); t.line += ",{\"o\":\"inv\",\"id\":1,\"op\":" + js + "},{\"o\":\"ret\",\"id\":1}"; t.events++; };
  {
    User u(z, r, 1);
    for (int i = r.in(0, 12); i > 0; i--) Put(u.Set());
    Put(u.Sync(false, "none"));
    for (int i = r.in(0, 3); i > 0; i--) Put(u.Update());
  }
  struct Rec { int64_t at; std::string js; };
  std::atomic<int64_t> clk{0};
  std::vector<std::vector<Rec>> evs(T);
  std::vector<uint64_t> seeds;
  for (int i = 0; i < T; i++) seeds.push_back(r.next());
  const int per = std::max(2, nops / T);
  const int reads = r.in(20, 60);
  Recs recs;
  const std::string src = dir + "/src";
  const bool hassrc = r.pct(40) && MakeSource(z, src, &recs) == "ok";
  auto Body = [&](int th) {
    Rng rr(seeds[th]);
    User u(z, rr, th + 1);
    u.it = z.db.d->MakeIterator();
    for (int j = 0; j < per; j++) {
      const int q = rr.in(0, 99);
      std::string js;
      const int64_t a = clk.fetch_add(1);
      if (q < reads) js = u.Read();
      else if (q < 70) js = u.Iter();
      else if (q < 88) js = rr.pct(70) ? u.Set() : u.Remove();
      else if (q < 94) js = u.Sync(false, rr.pct(50) ? "none" : rr.pick({"first", "last"}));
      else if (q < 96) js = Ev("revert", th + 1).st(z.db.sk->Revert()).done();
      else if (q < 98) js = hassrc ? Ev("merge", th + 1).raw("recs", jrecs(recs)).st(z.db.sk->MergeSkipDatabase(src)).done() : u.Set();
      else if (q < 99) js = Ev("rebuild", th + 1).st(z.db.d->Rebuild()).done();
      else js = Ev("clear", th + 1).st(z.db.d->Clear()).done();
      const int64_t b = clk.fetch_add(1);
      evs[th].push_back({a, "{\"o\":\"inv\",\"id\":" + jn(th + 1) + ",\"op\":" + js + "}"});
      evs[th].push_back({b, "{\"o\":\"ret\",\"id\":" + jn(th + 1) + "}"});
    }
  };
  std::vector<std::thread> ths;
  for (int i = 0; i < T; i++) ths.emplace_back(Body, i);
  for (auto& x : ths) x.join();
  std::vector<Rec> all;
  for (auto& e : evs) for (auto& x : e) all.push_back(x);
  std::sort(all.begin(), all.end(), [](const Rec& a, const Rec& b) { return a.at < b.at; });
  t.flush();
  for (auto& e : all) { t.line += "," + e.js; t.events++; }
  User u(z, r, 1);
  Put(u.Sync(false, "none"));
  Put(Ev("scan", 1).raw("r", z.ReadAll(z.db.d)).done());
  z.db.d->Close();
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 60), only = a.n("only", -1);
  FILE* out = fopen(a.s("out", "/dev/stdout").c_str(), "w");
  const std::string dir = MakeScratch();
  const bool conc = a.s("mode", "seq") == "conc";
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    Rng r(seed * 7000003 + i);
    Trace t;
    Watchdog(&t, out, 30);
#ifdef VSCHED_H
    vsched::Policy(seed * 7000003 + i, -1, 100 * nops);
#endif
    if (conc) ConcRun(r, t, dir, nops, i); else SeqRun(r, t, dir, nops, i);
    fputs(t.done().c_str(), out);
    fflush(out);
  }
  fclose(out);
  WipeDir(dir, true);
  return 0;
}
