// Iterators mixed with updates in one thread. args: seed= n= ops= out= [cls=] [only=]
#include "core.h"
using namespace vh;

int main(int argc, char** argv) {
  Args a(argc, argv);
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 80), only = a.n("only", -1);
  FILE* out = fopen(a.s("out", "/dev/stdout").c_str(), "w");
  const std::string dir = MakeScratch();
  const char* classes[] = {"tree", "tree", "tree", "baby", "baby", "hash", "tiny", "cache", "stdtree", "stdhash"};
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    Rng r(seed * 7000003 + i);
    std::string cls = a.s("cls", "");
    if (cls.empty()) cls = classes[r.in(0, 9)];
    Cfg c = RandCfg(r, cls, dir);
    KeyTab kt = MakeKeys(c.keykind, r.pickn({2, 4, 8, 14, 24, 40, 60}), r);
    TokTab tt;
    tt.build(r, r.pct(80) ? 0 : 1);
    GenCfg g;
    g.K = kt.K();
    g.maxtok = r.pickn({4, 40, 200});
    g.intmod = 0;
    g.rempct = r.pickn({10, 25});
    const bool std_ = cls == "stdhash" || cls == "stdtree";
    if (std_) g.multi = false;
    const char* kind = cls == "tree" || cls == "baby" ? "lazy" : cls == "stdtree" ? "eager" : "hash";
    Trace t;
    Watchdog(&t, out, 30);
    t.ev("init").n("K", kt.K()).n("fo", c.ordered).n("eo", c.ordered).n("so", c.ordered)
      .s("kind", kind).n("reh", cls == "stdhash").s("cfg", c.str()).n("i", i);
    auto db = MakeDB(c);
    Rng mix(r.next());
    SeedTrace(seed * 1000 + i);
    Ctx cx{&kt, &tt, &mix};
    Status s = db->OpenAdvanced(c.path, true, 0, c.params);
    if (s != Status::SUCCESS) {
      t.ev("openfail").raw("r", "[\"" + std::string(stname(s)) + "\"]");
      fputs(t.done().c_str(), out);
      continue;
    }
    std::unique_ptr<DBM::Iterator> its[3];
    its[1] = db->MakeIterator();
    its[2] = db->MakeIterator();
    bool gap[3] = {false, false, false};   // the current record may be gone (std only)
    const int fill = r.pickn({0, 30, 60, 90, 100});
    for (int k = 1; k <= kt.K(); k++) {
      if (!r.pct(fill)) continue;
      Op op;
      op.o = "set"; op.k = r.pct(50) ? k : r.in(1, kt.K()); op.v = GenVal(r, g); op.w = true;
      LogOp(t, op);
      t.raw("r", ExecOp(db.get(), op, cx));
    }
    auto Again = [&](int how) {   // close and open, or rebuild: iterators start afresh
      its[1].reset();
      its[2].reset();
      Status st(Status::SUCCESS);
      if (how == 0) {
        st |= db->Close();
        if (r.pct(50)) db = MakeDB(c);
        auto p = c.params;
        if (p.count("max_cached_pages") && r.pct(50)) p["max_cached_pages"] = "1";
        st |= db->OpenAdvanced(c.path, true, 0, p);
      } else {
        st |= db->RebuildAdvanced({});
      }
      t.ev("again").n("q", how).raw("r", "[\"" + std::string(stname(st)) + "\"]");
      its[1] = db->MakeIterator();
      its[2] = db->MakeIterator();
      return st == Status::SUCCESS;
    };
    Shadow sh;
    if (c.file && r.pct(25) && !Again(0)) { fputs(t.done().c_str(), out); continue; }
    const int upd = r.pickn({0, 5, 20, 45});
    const int len = r.in(nops / 2, nops * 3 / 2);
    int mode = 0, run = 0, mi = 1;
    for (int j = 0; j < len; j++) {
      if (j % 8 == 0) ShadowFromDB(db.get(), cx, &sh);
      if (r.pct(upd)) {
        Op op = GenOp(r, g, sh);
        if (std_ && op.o == "rekey") continue;  // two steps: removal, insertion
        if (op.o == "rekey" && op.k == op.k2) op.k2 = op.k2 % kt.K() + 1;
        if (op.o == "rekey" && op.k == op.k2) continue;
        if (op.o == "clear" && !r.pct(20)) continue;
        if (op.o == "proceach" && r.pct(70)) continue;
        LogOp(t, op);
        t.raw("r", ExecOp(db.get(), op, cx));
        continue;
      }
      if (r.pct(2) && run == 0) {
        const bool re = c.file && r.pct(60);
        if (!Again(re ? 0 : 1)) break;
        continue;
      }
      if (r.pct(2)) {
        if (r.pct(50)) { t.ev("sync").raw("r", "[\"" + std::string(stname(db->Synchronize(false))) + "\"]"); continue; }
        const int q = r.in(1, 2);
        its[q].reset();
        its[q] = db->MakeIterator();
        t.ev("newit").n("i", q).raw("r", "[\"ok\"]");
        continue;
      }
      const int ii = run > 0 ? mi : (int)r.in(1, 2);
      DBM::Iterator* it = its[ii].get();
      // Runs of the same direction cross page boundaries.
      int q;
      if (run > 0) { run--; q = mode; if (r.pct(50)) q = 9; }
      else {
        q = r.in(0, 15);
        if (q == 14) { mode = 7; run = r.in(2, 20); mi = ii; q = 0; }
        if (q == 15) { mode = 8; run = r.in(2, 20); mi = ii; q = 1; }
      }
      const int k = r.in(1, kt.K());
      const bool inc = r.pct(50);
      auto st1 = [&](const Status& st) { t.raw("r", "[\"" + std::string(stname(st)) + "\"]"); };
      if (q == 0 || q == 2) { t.ev("first").n("i", ii); st1(it->First()); }
      else if (q == 1) { t.ev("last").n("i", ii); st1(it->Last()); }
      else if (q == 3 || q == 4) { t.ev("jump").n("i", ii).n("k", k); st1(it->Jump(kt[k])); }
      else if (q == 5) { t.ev("jl").n("i", ii).n("k", k).n("c", inc); st1(it->JumpLower(kt[k], inc)); }
      else if (q == 6) { t.ev("ju").n("i", ii).n("k", k).n("c", inc); st1(it->JumpUpper(kt[k], inc)); }
      else if (q == 7) { t.ev("next").n("i", ii); st1(it->Next()); }
      else if (q == 8) { t.ev("prev").n("i", ii); st1(it->Previous()); }
      else {
        int u = q <= 9 ? 0 : (int)r.in(0, 9);
        std::string rk, rv;
        Status st;
        if (u <= 4) {
          t.ev("iget").n("i", ii);
          st = it->Get(&rk, &rv);
        } else if (u == 5) {
          t.ev("istep").n("i", ii);
          st = it->Step(&rk, &rv);
        } else if (u <= 7) {
          t.ev("irem").n("i", ii);
          st = it->Remove(&rk, &rv);
        } else if (u == 8) {
          const Val v = GenVal(r, g);
          t.ev("iset").n("i", ii).v("v", v);
          const std::string e = tt.enc(v);
          st = it->Set(e, &rk, &rv);
        } else {
          RecProc p;
          p.tt = &tt;
          p.fa = GenAct(r, g, 1);
          p.ea = GenAct(r, g, 1);
          p.prep();
          const bool w = r.pct(75);
          if (!w) p.fa = Act();
          t.ev("iproc").n("i", ii).raw("fa", ja(p.fa)).n("w", w);
          st = it->Process(&p, w);
          if (st == Status::SUCCESS) {
            rk = p.rawkey;
            t.raw("r", "[\"ok\"," + jn(p.called == 1 ? kt.of(rk) : -5) + "," + jv(p.seen) + "]");
            continue;
          }
        }
        if (st == Status::SUCCESS) t.raw("r", "[\"ok\"," + jn(kt.of(rk)) + "," + jv(tt.dec(rv)) + "]");
        else st1(st);
      }
    }
    its[1].reset();
    Op op;
    op.o = "scan";
    LogOp(t, op);
    t.raw("r", ExecOp(db.get(), op, cx));
    if (r.pct(50)) db->Close();   // an iterator may outlive the open state
    its[2].reset();
    fputs(t.done().c_str(), out);
  }
  fclose(out);
  WipeDir(dir, true);
  return 0;
}
