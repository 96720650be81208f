// Crash histories. args: seed= n= ops= out= mode=all|sync|loss|tree|whole [cls=] [only=]
#define CRASHSIM_IMPL
#include "crashsim.h"
using namespace vh;
typedef std::map<std::string, std::string> SM;

struct Rec {       // what a recovery found
  std::string st;
  int healthy = 0, mism = 0;
  int64_t count = -1;
  std::vector<KV> l;
  std::string J() const {
    JList j;
    j.add(js(st)).add(jn(healthy)).add(jn(mism)).add(jn(count)).add(jkvs(l));
    return j.str();
  }
};

static Rec Look(ParamDBM* db, const Cfg& c, const Ctx& cx) {
  Rec x;
  x.st = "ok";
  x.healthy = db->IsHealthy();
  struct P : public DBM::RecordProcessor {
    const Ctx* cx;
    std::vector<KV>* l;
    std::string_view ProcessFull(std::string_view k, std::string_view v) override {
      l->push_back({cx->kt->of(k), cx->tt->dec(v)});
      return NOOP;
    }
  } p;
  p.cx = &cx;
  p.l = &x.l;
  const Status s = db->ProcessEach(&p, false);
  if (s != Status::SUCCESS) x.st = std::string("each-") + stname(s);
  if (c.ordered) {
    for (size_t i = 1; i < x.l.size(); i++) if (x.l[i - 1].k >= x.l[i].k) x.mism += 1000;
  }
  std::stable_sort(x.l.begin(), x.l.end(), [](const KV& a, const KV& b) { return a.k < b.k; });
  Status cs = db->Count(&x.count);
  if (cs != Status::SUCCESS) x.count = -2;
  for (int k = 1; k <= cx.kt->K(); k++) {
    std::string v;
    const Status g = db->Get((*cx.kt)[k], &v);
    const Val got = g == Status::SUCCESS ? cx.tt->dec(v) : ABSENT;
    Val want = ABSENT;
    for (auto& e : x.l) if (e.k == k) want = e.v;
    if (got != want || (g != Status::SUCCESS && g != Status::NOT_FOUND_ERROR)) x.mism++;
  }
  return x;
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 40), only = a.n("only", -1);
  const std::string mode = a.s("mode", "all");
  FILE* out = fopen(a.s("out", "/dev/stdout").c_str(), "w");
  const std::string dir = MakeScratch(), rdir = MakeScratch();
  int64_t shots = 0, points = 0;
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    Rng r(seed * 9000011 + i);
    std::string cls = a.s("cls", "");
    if (cls.empty()) {
      if (mode == "all") cls = "hash";
      else if (mode == "tree") cls = "tree";
      else if (mode == "sync" || mode == "loss") cls = r.pct(60) ? "hash" : "tree";
      else cls = r.pick({"tiny", "baby", "cache", "stdhash", "stdtree"});
    }
    Cfg c = RandCfg(r, cls, dir);
    if (c.path.empty()) { c.path = dir + "/db"; c.file = true; }
    auto& P = c.params;
    const bool whole = mode == "whole";
    if (!whole || mode == "loss") {
      P["file"] = r.pick({"mmap-para", "mmap-atom", "pos-para", "pos-atom"});
      // Buffering in the process is not durable by definition.
      P.erase("cache_buckets");
      P.erase("access_options");
      P.erase("block_size");
    }
    if (mode == "sync" || mode == "loss") P["update_mode"] = "appending";
    std::string rmode;
    if (mode == "sync" || mode == "loss") rmode = "restore_sync";
    if (!whole && r.pct(30)) rmode += (rmode.empty() ? "" : ":") + std::string("no_shortcuts");
    if (!whole && r.pct(20)) rmode += (rmode.empty() ? "" : ":") + std::string("with_hardsync");
    KeyTab kt = MakeKeys(c.keykind, r.pickn({2, 4, 7, 12}), r);
    TokTab tt;
    tt.build(r, r.pct(80) ? 0 : 1);
    GenCfg g;
    g.K = kt.K();
    g.clear = false;
    g.maxtok = r.pickn({4, 40, 200});
    g.intmod = r.pickn({0, 3});
    g.rempct = r.pickn({10, 20, 30});
    Rng mix(r.next());
    Ctx cx{&kt, &tt, &mix};
    Trace t;
    Watchdog(&t, out, 30);
    std::string cs = c.str() + " restore=" + rmode;
    t.ev("init").n("K", kt.K()).n("fo", c.ordered).n("eo", c.ordered).n("so", c.ordered)
      .s("mode", mode).n("strict", a.n("strict", 0)).s("cls", cls).s("cfg", cs).n("i", i);
    CrashSim sim;
    sim.dir = dir;
    sim.r = &r;
    sim.pct = r.pickn({20, 60, 100});
    sim.torn = mode != "loss" && r.pct(50) &&
        (whole || P["record_crc_mode"] == "crc_32");
    // A tree whose metadata is torn is restored record by record, without its key comparator.
    sim.tornhead = cls != "tree";
    sim.loss = mode == "loss";
    sim.strict = a.n("strict", 0);
    sim.alloc_init = r.pickn({1, 4096, 20000, 1048576});
    sim.alloc_inc = r.pickn({101, 120, 200}) / 100.0;
    g_sim = &sim;
    SM rp = P;   // parameters of the recovery: default settings, or the requested restore mode
    for (auto it = rp.begin(); it != rp.end();) {
      const std::string& q = it->first;
      if (q == "dbm" || q == "file" || q == "cipher_key" || q == "block_size" || q == "access_options" ||
          (q == "key_comparator" && P["dbm"] != "TreeDBM") || r.pct(30)) ++it;
      else it = rp.erase(it);
    }
    if (P["dbm"] == "CacheDBM") rp["cap_rec_num"] = "100000";
    if (!rmode.empty()) rp["restore_mode"] = rmode;
    std::unique_ptr<ParamDBM> db = MakeDB(c);
    std::vector<std::string> crs;
    std::vector<Snap> kept;
    std::vector<Rec> recs;
    // Runs f under observation and recovers from every photograph taken meanwhile.
    auto Watch = [&](const std::function<void()>& f) {
      sim.Reset();
      sim.on = true;
      f();
      sim.on = false;
      kept.clear();
      recs.clear();
      for (auto& s : sim.shots) {
        shots++;
        PutDir(rdir, s);
        CrashSim* const sv = g_sim;
        g_sim = nullptr;
        auto rdb = MakeDB(c);
        const Status st = rdb->OpenAdvanced(rdir + "/db", true, 0, rp);
        Rec x;
        if (st == Status::SUCCESS) {
          x = Look(rdb.get(), c, cx);
          const Status cst = rdb->Close();
          if (cst != Status::SUCCESS) x.st = std::string("close-") + stname(cst);
          if (r.pct(15)) {   // what was recovered stays
            const Status st2 = rdb->OpenAdvanced(rdir + "/db", true, 0, rp);
            if (st2 != Status::SUCCESS) x.mism += 100000;
            else {
              Rec y = Look(rdb.get(), c, cx);
              if (y.J() != x.J()) x.mism += 10000;
              rdb->Close();
            }
          }
        } else {
          x.st = stname(st);
          if (a.n("verbose", 0)) fprintf(stderr, "recovery: %s\n", ToString(st).c_str());
        }
        g_sim = sv;
        recs.push_back(x);
        kept.push_back(s);
      }
    };
    auto EmitCr = [&](int cont) {
      JList j;
      for (auto& x : recs) j.add(x.J());
      t.raw("cr", j.str()).n("cont", cont);
    };
    Status s;
    Watch([&]() { });
    SM op0 = P;
    s = db->OpenAdvanced(c.path, true, 0, op0);
    if (s != Status::SUCCESS) { t.ev("openfail").raw("r", "[\"" + std::string(stname(s)) + "\"]"); fputs(t.done().c_str(), out); g_sim = nullptr; continue; }
    s = db->Synchronize(true);
    t.ev("hsync").raw("r", "[\"" + std::string(stname(s)) + "\"]").raw("cr", "[]").n("cont", 0);
    std::vector<int64_t> marks;   // file sizes at synchronized moments
    Shadow sh;
    const int len = r.in(nops / 2, nops * 3 / 2);
    const int maint = r.pickn({5, 12, 25}), contpct = r.pickn({0, 3, 8});
    const int prefill = r.pct(60) ? (int)r.in(0, len) : 0;
    bool dead = false;
    for (int j = 0; j < len && !dead; j++) {
      ShadowFromDB(db.get(), cx, &sh);
      const bool quiet = j < prefill;
      auto Do = [&](const std::function<void()>& f) {
        if (quiet) { f(); recs.clear(); kept.clear(); }
        else Watch(f);
      };
      bool closed = false;
      if (r.pct(maint)) {
        const int q = r.in(0, 9);
        if (q < 5 || (sim.loss && q < 9)) {
          const bool hard = sim.loss || r.pct(50);
          Status st;
          Do([&]() { st = db->Synchronize(hard); });
          t.ev(hard ? "hsync" : "sync").raw("r", "[\"" + std::string(stname(st)) + "\"]");
        } else if (q < 7 && !sim.loss) {
          SM p;
          if ((cls == "hash" || cls == "tree") && r.pct(60)) {
            SM z;
            RandHashTune(r, &z, cls == "tree");
            if (cls == "tree") RandTreeTune(r, &z);
            for (auto& x : z) {
              if (x.first == "record_comp_mode" || x.first == "cipher_key" || x.first == "cache_buckets") continue;
              if (x.first == "update_mode" && mode == "sync") continue;
              if (x.first == "record_crc_mode" && sim.torn) continue;
              if (r.pct(50)) p[x.first] = x.second;
            }
          }
          Status st;
          Do([&]() { st = db->RebuildAdvanced(p); });
          t.ev("rebuild").raw("r", "[\"" + std::string(stname(st)) + "\"]");
        } else if (!sim.loss) {
          Status st;
          Do([&]() { st = db->Close(); });
          closed = true;
          t.ev("close").raw("r", "[\"" + std::string(stname(st)) + "\"]");
        } else continue;
      } else {
        Op op = GenOp(r, g, sh);
        if (op.o == "scan" || op.o == "get" || op.o == "getsz" || op.o == "getm" || op.o == "count") { if (!r.pct(20)) continue; }
        std::string res;
        Do([&]() { res = ExecOp(db.get(), op, cx); });
        LogOp(t, op);
        t.raw("r", res);
      }
      int cont = 0;
      if (!recs.empty() && r.pct(contpct)) cont = r.in(1, recs.size());
      EmitCr(cont);
      if (cont > 0) {
        sim.on = false;
        db->Close();
        PutDir(dir, kept[cont - 1]);
        closed = true;
      }
      if (closed) {
        Status st;
        SM p = rp;
        if (!cont && r.pct(50)) { p = P; if (!rmode.empty()) p["restore_mode"] = rmode; }
        db = MakeDB(c);
        if (sim.loss) sim.durable = SnapDir(dir);
        auto F = [&]() { st = db->OpenAdvanced(c.path, true, 0, p); };
        // What a restoration writes is made durable only on request.
        if (sim.loss && (cls != "hash" || rmode.find("with_hardsync") == std::string::npos || p["restore_mode"] != rmode)) {
          F();
          recs.clear();
          kept.clear();
        } else Watch(F);
        t.ev("open").raw("r", "[\"" + std::string(stname(st)) + "\"]");
        cont = 0;
        EmitCr(0);
        if (st != Status::SUCCESS) { dead = true; break; }
        if (sim.loss) {
          st = db->Synchronize(true);
          t.ev("hsync").raw("r", "[\"" + std::string(stname(st)) + "\"]").raw("cr", "[]").n("cont", 0);
        }
      }
      // Fault injection: a failing write in the middle of saving a whole-file database.
      if (whole && r.pct(4)) {
        Status st;
        sim.fail_at = r.in(0, 12);
        const int64_t f0 = sim.fails;
        Watch([&]() { st = r.pct(50) ? db->Synchronize(r.pct(50)) : db->Close(); });
        const bool hit = sim.fails > f0;
        sim.fail_at = -1;
        t.ev(hit ? "faultsave" : "save").raw("r", "[\"" + std::string(stname(st)) + "\"]");
        // Whatever happened, the file is left as it is now and opened again.
        CrashSim* const sv = g_sim;
        Snap now = SnapDir(dir);
        g_sim = nullptr;
        PutDir(rdir, now);
        auto rdb = MakeDB(c);
        const Status st2 = rdb->OpenAdvanced(rdir + "/db", true, 0, rp);
        Rec x;
        if (st2 == Status::SUCCESS) { x = Look(rdb.get(), c, cx); rdb->Close(); }
        else x.st = stname(st2);
        g_sim = sv;
        recs.push_back(x);
        EmitCr(recs.size());
        db.reset();
        PutDir(dir, now);
        db = MakeDB(c);
        st = db->OpenAdvanced(c.path, true, 0, rp);
        t.ev("open").raw("r", "[\"" + std::string(stname(st)) + "\"]").raw("cr", "[]").n("cont", 0);
        if (st != Status::SUCCESS) { dead = true; break; }
      }
    }
    if (!dead) {
      Op op;
      op.o = "scan";
      LogOp(t, op);
      t.raw("r", ExecOp(db.get(), op, cx)).raw("cr", "[]").n("cont", 0);
    }
    db->Close();
    db.reset();
    points += sim.points;
    g_sim = nullptr;
    fputs(t.done().c_str(), out);
  }
  fclose(out);
  WipeDir(dir, true);
  WipeDir(rdir, true);
  printf("STAT points %lld shots %lld\n", (long long)points, (long long)shots);
  return 0;
}
