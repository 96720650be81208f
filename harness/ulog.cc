// Update logs: sequential histories of several databases sharing a message queue, and concurrent ones of one database.
// args: seed= n= ops= out= mode=seq|conc [only=]
#include "core.h"
#include <atomic>
using namespace vh;

static std::atomic<int> g_jit{0};
static thread_local uint64_t tl_rnd = 88172645463325252ULL ^ (uint64_t)pthread_self();
static void Jit() {
  const int j = g_jit.load(std::memory_order_relaxed);
  if (j == 0) return;
  tl_rnd ^= tl_rnd << 13; tl_rnd ^= tl_rnd >> 7; tl_rnd ^= tl_rnd << 17;
  const uint32_t c = (tl_rnd >> 20) % 1000;
  if (c < (uint32_t)j) {
    if (c % 8 == 0) usleep(1 + (tl_rnd >> 40) % 60);
    else sched_yield();
  }
}
void* operator new(size_t n) {
  Jit();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

// Records the changes and passes them on.
struct Tee : public DBM::UpdateLogger {
  std::mutex m;
  const KeyTab* kt;
  const TokTab* tt;
  std::vector<std::string> l;
  std::atomic<int> n{0};
  std::unique_ptr<DBMUpdateLoggerMQ> mq;
  std::unique_ptr<DBMUpdateLoggerDBM> dl;
  std::vector<std::unique_ptr<DBMUpdateLoggerMQ>> old;
  Status WriteSet(std::string_view k, std::string_view v) override {
    Jit();
    std::lock_guard<std::mutex> g(m);
    l.push_back("[" + jn(kt->of(k)) + "," + jv(tt->dec(v)) + "]");
    n++;
    Status s(Status::SUCCESS);
    if (mq) s |= mq->WriteSet(k, v);
    if (dl) s |= dl->WriteSet(k, v);
    return s;
  }
  Status WriteRemove(std::string_view k) override {
    Jit();
    std::lock_guard<std::mutex> g(m);
    l.push_back("[" + jn(kt->of(k)) + "," + jv(ABSENT) + "]");
    n++;
    Status s(Status::SUCCESS);
    if (mq) s |= mq->WriteRemove(k);
    if (dl) s |= dl->WriteRemove(k);
    return s;
  }
  Status WriteClear() override {
    std::lock_guard<std::mutex> g(m);
    l.push_back("[0," + jv(ABSENT) + "]");
    n++;
    Status s(Status::SUCCESS);
    if (mq) s |= mq->WriteClear();
    if (dl) s |= dl->WriteClear();
    return s;
  }
  Status Synchronize(bool hard) override {
    Status s(Status::SUCCESS);
    if (mq) s |= mq->Synchronize(hard);
    if (dl) s |= dl->Synchronize(hard);
    return s;
  }
  std::string take() {
    JList j;
    for (auto& x : l) j.add(x);
    l.clear();
    return j.str();
  }
};

static std::string Contents(DBM* db, const Ctx& c) {
  Shadow sh;
  struct P : public DBM::RecordProcessor {
    const Ctx* c;
    Shadow* sh;
    int bad = 0;
    std::string_view ProcessFull(std::string_view k, std::string_view v) override {
      const int r = c->kt->of(k);
      if (r < 1 || sh->count(r)) bad++;
      else (*sh)[r] = c->tt->dec(v);
      return NOOP;
    }
  } p;
  p.c = &c;
  p.sh = &sh;
  db->ProcessEach(&p, false);
  std::vector<KV> l;
  for (auto& x : sh) l.push_back({x.first, x.second});
  if (p.bad) l.push_back({0, {p.bad}});
  return jkvs(l);
}

static Cfg PickCfg(Rng& r, const std::string& dir, const std::string& name, const std::string& kind, bool mt) {
  static const std::vector<std::string> classes = {"hash", "hash", "tree", "tree", "tiny", "baby", "cache", "stdhash", "stdtree", "shard"};
  for (;;) {
    Cfg c = RandCfg(r, r.pick(classes), dir, mt);
    if (!kind.empty() && c.keykind != kind && (c.ordered || !(kind == "adv" || kind == "short" || kind == "num"))) continue;
    if (c.ordered && !kind.empty() && c.keykind != kind) continue;
    if (!c.path.empty()) c.path = dir + "/" + name;
    if (mt && c.params["file"].compare(0, 8, "pos-para") == 0 && c.params.count("block_size")) c.params["file"] = "pos-atom";
    return c;
  }
}

static int RunSeq(Args& a, FILE* out) {
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 60), only = a.n("only", -1);
  const std::string dir = MakeScratch(), qdir = MakeScratch();
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    WipeDir(qdir, false);
    Rng r(seed * 1300021 + i);
    const int D = r.pickn({1, 1, 2, 3});
    std::vector<Cfg> cf;
    cf.push_back(PickCfg(r, dir, "d0", "", false));
    for (int d = 1; d < D; d++) cf.push_back(PickCfg(r, dir, "d" + std::to_string(d), cf[0].keykind, false));
    KeyTab kt = MakeKeys(cf[0].keykind, r.pickn({3, 6, 10}), r);
    TokTab tt;
    const int profile = r.pct(80) ? 0 : 1;
    tt.build(r, profile);
    GenCfg g;
    g.K = kt.K();
    g.maxtok = r.pickn({4, 40, 200});
    g.intmod = r.pickn({0, 3, 5});
    g.rempct = r.pickn({10, 20, 30});
    Rng mix(r.next());
    Ctx cx{&kt, &tt, &mix};
    Trace t;
    Watchdog(&t, out, 30);
    JList ord, cfgs;
    for (auto& c : cf) { ord.add(jn(c.ordered && c.shards < 2)); cfgs.add(js(c.str())); }
    t.ev("init").n("K", kt.K()).n("D", D).raw("ord", ord.str()).raw("cfg", cfgs.str()).n("i", i);
    auto mq = std::make_unique<MessageQueue>();
    const std::string prefix = qdir + "/q";
    const int mfs = r.pickn({1, 100, 500, 100000});
    bool bad = mq->Open(prefix, mfs) != Status::SUCCESS;
    std::vector<std::unique_ptr<Tee>> tee;
    std::vector<std::unique_ptr<ParamDBM>> db;
    std::vector<int> sid, idx;
    std::vector<std::unique_ptr<TinyDBM>> mirror;
    int ts = 1;
    const bool bigid = r.pct(20);
    for (int d = 0; d < D; d++) {
      sid.push_back(bigid ? r.pickn({127, 128, 20000, 1000000}) : r.in(0, 2));
      idx.push_back(bigid && r.pct(50) ? 300 + d : d);
      tee.push_back(std::make_unique<Tee>());
      tee[d]->kt = &kt;
      tee[d]->tt = &tt;
      tee[d]->mq = std::make_unique<DBMUpdateLoggerMQ>(mq.get(), sid[d], idx[d], ts);
      mirror.push_back(std::make_unique<TinyDBM>());
      tee[d]->dl = std::make_unique<DBMUpdateLoggerDBM>(mirror[d].get());
      db.push_back(MakeDB(cf[d]));
      if (db[d]->OpenAdvanced(cf[d].path, true, 0, cf[d].params) != Status::SUCCESS) bad = true;
      if (db[d]->GetUpdateLogger() != nullptr) bad = true;
      db[d]->SetUpdateLogger(tee[d].get());
      if (db[d]->GetUpdateLogger() != tee[d].get()) bad = true;
    }
    if (bad) { t.ev("openfail"); fputs(t.done().c_str(), out); continue; }
    auto step = [&](int by) {
      ts += by;
      for (int d = 0; d < D; d++) tee[d]->mq = std::make_unique<DBMUpdateLoggerMQ>(mq.get(), sid[d], idx[d], ts);
    };
    struct Rep { std::unique_ptr<DBM> db; int base; int d; std::unique_ptr<MessageQueue::Reader> rd; };
    std::vector<Rep> reps;
    std::vector<Shadow> sh(D);
    int over = -1;  // the thread's own server ID; -2: not logged
    const int len = r.in(nops / 2, nops * 3 / 2);
    for (int j = 0; j < len; j++) {
      const int d = r.in(0, D - 1);
      if (r.pct(15) || j == 0) ShadowFromDB(db[d].get(), cx, &sh[d]);
      const int c = r.in(0, 99);
      if (c < 4) { step(r.in(1, 3)); continue; }
      if (c < 6) {
        over = r.pickn({-1, -1, -2, 5, 1});
        DBMUpdateLoggerMQ::OverwriteThreadServerID(over == -2 ? INT32MIN : over);
        continue;
      }
      if (c < 9 && reps.size() < 3) {
        Rep p;
        const int q = r.in(0, 2);
        p.db = q == 0 ? std::unique_ptr<DBM>(new TinyDBM()) : q == 1 ? std::unique_ptr<DBM>(new BabyDBM()) : std::unique_ptr<DBM>(new StdHashDBM());
        p.d = d;
        step(1);
        p.base = ts;
        const Status s = db[d]->Export(p.db.get());
        t.ev("snap").n("dbi", d + 1).raw("r", "[\"" + std::string(stname(s)) + "\"," + Contents(p.db.get(), cx) + "]");
        if (r.pct(50)) p.rd = mq->MakeReader(p.base);
        reps.push_back(std::move(p));
        continue;
      }
      if (c < 15 && !reps.empty()) {
        const int x = r.in(0, reps.size() - 1);
        Rep& p = reps[x];
        int fs, fi;
        const int q = r.in(0, 9);
        const int any = 999999999;
        if (q < 6) { fs = over == -1 ? sid[p.d] : any; fi = idx[p.d]; }
        else if (q < 8) { fs = any; fi = r.pct(50) ? any : idx[r.in(0, D - 1)]; }
        else { fs = r.pickn({1, -1, -2, 5, -5, 0}); fi = r.pct(50) ? any : r.pickn({0, 1, -1, -2}); }
        if (bigid && r.pct(30)) fs = -sid[p.d] ? -sid[p.d] : any;
        const int xs = fs == any ? INT32MIN + 1 : fs, xi = fi == any ? INT32MIN + 1 : fi;
        if (p.rd && r.pct(60)) {
          // follow the living queue
          Status s(Status::SUCCESS);
          std::string m;
          int64_t mts;
          while ((s = p.rd->Read(&mts, &m, 0)) == Status::SUCCESS) {
            const Status u = DBMUpdateLoggerMQ::ApplyUpdateLog(p.db.get(), m, xs, xi);
            if (u != Status::SUCCESS && u != Status::INFEASIBLE_ERROR) { s = u; break; }
          }
          t.ev("follow").n("p", x + 1).n("fs", fs).n("fi", fi).n("any", any)
            .raw("r", "[\"" + std::string(stname(s)) + "\"," + Contents(p.db.get(), cx) + "]");
        } else {
          const int min = r.pct(60) ? p.base : r.in(0, ts + 1);
          const bool viadb = r.pct(30);
          Status s = viadb ? db[r.in(0, D - 1)]->Synchronize(false) : mq->Synchronize(false);
          if (viadb) mq->Synchronize(false);
          s |= DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(p.db.get(), prefix, min, xs, xi);
          t.ev("replay").n("p", x + 1).n("min", min).n("fs", fs).n("fi", fi).n("any", any)
            .raw("r", "[\"" + std::string(stname(s)) + "\"," + Contents(p.db.get(), cx) + "]");
        }
        continue;
      }
      if (c < 17 && reps.size() > 1) { /* drop nothing: replicas keep their numbers */ }
      if (c < 19) {
        t.ev("mirror").n("dbi", d + 1).raw("r", Contents(mirror[d].get(), cx));
        continue;
      }
      if (c < 24) {
        // maintenance publishes nothing
        const int q = r.in(0, 3);
        Status s(Status::SUCCESS);
        if (q == 0) s = db[d]->Synchronize(false);
        else if (q == 1) s = db[d]->Rebuild();
        else if (q == 2 && cf[d].file) {
          s = db[d]->Close();
          s |= db[d]->OpenAdvanced(cf[d].path, true, 0, cf[d].params);
          db[d]->SetUpdateLogger(tee[d].get());
        } else { bool tobe; db[d]->ShouldBeRebuilt(&tobe); db[d]->Inspect(); }
        t.ev("maint").n("dbi", d + 1).n("q", q).raw("lg", tee[d]->take()).raw("r", "[\"" + std::string(stname(s)) + "\"]");
        if (s != Status::SUCCESS) break;
        continue;
      }
      if (c < 27) {
        // through the iterator
        auto it = db[d]->MakeIterator();
        it->First();
        for (int x = r.in(0, 3); x > 0; x--) it->Next();
        std::string k, v;
        if (it->Get(&k, &v) != Status::SUCCESS) continue;
        Op op;
        op.o = "proc";
        op.k = kt.of(k);
        op.w = true;
        Status s;
        const int q = r.in(0, 1);
        if (q == 0) { op.fa.t = 2; op.fa.v = GenFor(r, g, op.k); s = it->Set(tt.enc(op.fa.v)); }
        else { op.fa.t = 1; s = it->Remove(); }
        LogOp(t, op);
        t.raw("r", "[\"" + std::string(stname(s)) + "\"]").n("dbi", d + 1).n("ts", ts).n("sid", over == -1 ? sid[d] : over).n("idx", idx[d]).raw("lg", tee[d]->take());
        continue;
      }
      Op op = GenOp(r, g, sh[d]);
      LogOp(t, op);
      t.raw("r", ExecOp(db[d].get(), op, cx)).n("dbi", d + 1).n("ts", ts).n("sid", over == -1 ? sid[d] : over).n("idx", idx[d]).raw("lg", tee[d]->take());
    }
    DBMUpdateLoggerMQ::OverwriteThreadServerID(-1);
    for (int d = 0; d < D; d++) {
      t.ev("mirror").n("dbi", d + 1).raw("r", Contents(mirror[d].get(), cx));
      Op op;
      op.o = "scan";
      LogOp(t, op);
      t.raw("r", ExecOp(db[d].get(), op, cx)).n("dbi", d + 1).n("ts", ts).n("sid", 0).n("idx", 0).raw("lg", tee[d]->take());
      db[d]->Close();
      t.ev("maint").n("dbi", d + 1).n("q", 9).raw("lg", tee[d]->take()).raw("r", "[\"ok\"]");
    }
    fputs(t.done().c_str(), out);
    for (auto& p : reps) p.rd.reset();
    reps.clear();
    db.clear();
    tee.clear();
  }
  WipeDir(dir, true);
  WipeDir(qdir, true);
  return 0;
}

static int RunConc(Args& a, FILE* out) {
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 30), only = a.n("only", -1);
  const std::string dir = MakeScratch(), qdir = MakeScratch();
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    WipeDir(qdir, false);
    Rng r(seed * 1300021 + i);
    Cfg c = PickCfg(r, dir, "d0", "", true);
    KeyTab kt = MakeKeys(c.keykind, r.pickn({1, 2, 4, 10}), r);
    TokTab tt;
    tt.build(r, 0);
    GenCfg g;
    g.K = kt.K();
    g.maxtok = 200;
    g.intmod = r.pickn({0, 2});
    g.rempct = r.pickn({10, 25});
    g.clear = false;  // replaced below
    const bool shard = c.cls == "shard";
    Trace t;
    Watchdog(&t, out, 40);
    auto mq = std::make_unique<MessageQueue>();
    const std::string prefix = qdir + "/q";
    if (mq->Open(prefix, r.pickn({1, 500, 100000})) != Status::SUCCESS) exit(3);
    Tee tee;
    tee.kt = &kt;
    tee.tt = &tt;
    tee.mq = std::make_unique<DBMUpdateLoggerMQ>(mq.get(), 1, 2, r.pct(50) ? 5 : -1);
    TinyDBM mirror;
    tee.dl = std::make_unique<DBMUpdateLoggerDBM>(&mirror);
    auto db = MakeDB(c);
    if (db->OpenAdvanced(c.path, true, 0, c.params) != Status::SUCCESS) exit(3);
    db->SetUpdateLogger(&tee);
    const int T = r.in(2, 4);
    std::vector<uint64_t> seeds;
    for (int x = 0; x < T; x++) seeds.push_back(r.next());
    std::vector<std::vector<std::string>> seen(T);
    const bool clears = !shard && r.pct(30);
    g_jit = r.pickn({0, 5, 30, 100});
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int x = 0; x < T; x++) th.emplace_back([&, x] {
      Rng rr(seeds[x]);
      Rng mix(rr.next());
      Ctx cx{&kt, &tt, &mix};
      Shadow sh;
      ready++;
      while (ready.load() < T) {}
      for (int j = 0; j < nops; j++) {
        if (rr.pct(35)) {
          const int k = rr.in(1, kt.K());
          std::string v;
          if (db->Get(kt[k], &v) == Status::SUCCESS) {
            const int ln = tee.n.load();
            seen[x].push_back("[" + jn(k) + "," + jv(tt.dec(v)) + "," + jn(ln) + "]");
          }
          continue;
        }
        Op op = GenOp(rr, g, sh);
        if (clears && rr.pct(2)) { op = Op(); op.o = "clear"; }
        if (shard && (op.o == "rekey")) continue;
        if (op.o == "scan" || op.o == "count" || op.o == "get") continue;
        ExecOp(db.get(), op, cx);
      }
    });
    bool run = true;
    std::thread mt([&] {
      Rng rr(seed + i);
      for (int x = 0; x < 3; x++) {
        usleep(rr.in(1, 200));
        if (rr.pct(50)) db->Rebuild(); else db->Synchronize(false);
      }
    });
    for (auto& x : th) x.join();
    mt.join();
    (void)run;
    g_jit = 0;
    Ctx cx{&kt, &tt, nullptr};
    JList sj, lj;
    for (auto& v : seen) for (auto& x : v) sj.add(x);
    for (auto& x : tee.l) lj.add(x);
    t.ev("init").n("K", kt.K()).n("D", 1).raw("ord", "[0]").s("cfg", c.str()).n("i", i);
    t.ev("conc").raw("lg", lj.str()).raw("seen", sj.str()).raw("db", Contents(db.get(), cx)).raw("mirror", Contents(&mirror, cx));
    Status s = mq->Synchronize(false);
    TinyDBM rep;
    s |= DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(&rep, prefix, 0, 1, 2);
    t.raw("rep", Contents(&rep, cx)).s("st", stname(s));
    // a suffix of the log again
    s = DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(&rep, prefix, r.pct(50) ? 5 : 0);
    t.raw("rep2", Contents(&rep, cx)).s("st2", stname(s));
    fputs(t.done().c_str(), out);
    db->Close();
  }
  WipeDir(dir, true);
  WipeDir(qdir, true);
  return 0;
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  FILE* out = fopen(a.s("out", "/dev/stdout").c_str(), "w");
  const int rc = a.s("mode", "seq") == "seq" ? RunSeq(a, out) : RunConc(a, out);
  fclose(out);
  return rc;
}
