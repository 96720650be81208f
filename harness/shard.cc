// Sharded databases as one database: catalogs of shard files, detection of the number of shards,
// iterators merging the shards, aggregate operations. args: seed= n= ops= out= [only=]
#include "core.h"
using namespace vh;

static const char* NAMES[] = {"", "db", "db-0", "adb", "b"};

int main(int argc, char** argv) {
  Args a(argc, argv);
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 80), only = a.n("only", -1);
  FILE* out = fopen(a.s("out", "/dev/stdout").c_str(), "w");
  const std::string dir = MakeScratch();
  std::string name4;
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    Rng r(seed * 9000011 + i);
    Cfg c = RandCfg(r, "shard", dir);
    const std::string base = c.params["dbm"];
    if (base == "StdTreeDBM") NoPadding(&c.params);
    if (c.path.empty()) { c.path = dir + "/db"; c.file = true; }
    c.params.erase("num_shards");
    name4 = base == "HashDBM" ? r.pick({"b.tkh", "b.hash"}) : base == "TreeDBM" ? r.pick({"b.tkt", "b.tree"}) : base == "TinyDBM" ? r.pick({"b.tkmt", "b.tiny"}) :
      base == "BabyDBM" ? r.pick({"b.tkmb", "b.baby"}) : base == "CacheDBM" ? r.pick({"b.tkmc", "b.cache"}) : r.pick({"b.tkst", "b.stdtree"});
    KeyTab kt = MakeKeys(c.keykind, r.pickn({3, 8, 14, 24, 40}), r);
    TokTab tt;
    tt.build(r, r.pct(85) ? 0 : 1);
    GenCfg g;
    g.K = kt.K();
    g.maxtok = r.pickn({4, 40, 200});
    g.intmod = r.pickn({0, 4});
    g.rempct = r.pickn({10, 25});
    Trace t;
    Watchdog(&t, out, 30);
    t.ev("init").n("K", kt.K()).n("fo", 0).n("eo", 0).n("so", c.ordered)
      .s("kind", c.ordered ? "eager" : "hash").n("reh", 0).s("cfg", c.str()).n("i", i);
    Rng mix(r.next());
    Ctx cx{&kt, &tt, &mix};
    ShardDBM db;
    std::unique_ptr<DBM::Iterator> its[3];
    bool stale[3] = {true, true, true};
    int cur = 0, curn = 0;
    bool writable = true;
    auto st1 = [&](const Status& st) { t.raw("r", "[\"" + std::string(stname(st)) + "\"]"); };
    auto path = [&](int q) { return dir + "/" + (q == 4 ? name4 : std::string(NAMES[q])); };
    auto exists = [&](int q, int m) { return PathIsFile(path(q) + SPrintF("-%05d-of-%05d", 0, m)); };
    auto Open = [&](int q, int m, bool w, int opts) {
      auto p = c.params;
      if (m > 0) p["num_shards"] = std::to_string(m);
      if (q == 4) p.erase("dbm");   // the class is known from the path
      const Status st = db.OpenAdvanced(path(q), w, opts, p);
      int real = 0;
      if (st == Status::SUCCESS) {
        for (auto& x : db.Inspect()) if (x.first.size() > 6 && x.first[5] == '-') real = std::max(real, atoi(x.first.c_str()) + 1);
      }
      t.ev("open").n("q", q).n("m", m).n("w", w).n("nc", !!(opts & File::OPEN_NO_CREATE)).n("tr", !!(opts & File::OPEN_TRUNCATE))
        .raw("r", "[\"" + std::string(stname(st)) + "\"," + jn(real) + "]");
      if (st == Status::SUCCESS) {
        cur = q; curn = real; writable = w;
        for (int x = 1; x <= 2; x++) { its[x] = db.MakeIterator(); stale[x] = true; }
        t.ev("again").raw("r", "[\"ok\"]");
      }
    };
    auto Close = [&]() {
      its[1].reset();
      its[2].reset();
      t.ev("close");
      st1(db.Close());
      cur = 0;
    };
    auto Parts = [&](int q, int m) {
      JList all;
      for (int x = 0; x < m; x++) {
        PolyDBM p;
        auto prm = c.params;
        std::string pth = path(q) + SPrintF("-%05d-of-%05d", x, m);
        if (p.OpenAdvanced(pth, false, 0, prm) != Status::SUCCESS) { all.add("[[-1,[]]]"); continue; }
        Shadow sh;
        ShadowFromDB(&p, cx, &sh);
        std::vector<KV> l;
        for (auto& y : sh) l.push_back({y.first, y.second});
        all.add(jkvs(l));
      }
      t.ev("parts").n("q", q).n("m", m).raw("r", all.str());
    };
    const int len = r.in(nops / 2, nops * 3 / 2);
    Shadow sh;
    Open(1, r.pct(70) ? r.pickn({1, 2, 3, 5}) : 0, true, 0);
    int run = 0, mode = 0, mi = 1;
    const int upd = r.pickn({10, 30, 60});
    for (int j = 0; j < len; j++) {
      if (cur == 0) {
        // Closed: work on the files.
        const int q = r.in(1, 4);
        const int x = r.in(0, 9);
        if (x < 4) {
          const int m = r.pct(60) ? 0 : r.pct(60) && curn > 0 ? curn : r.pickn({1, 2, 3, 5});
          int opts = r.pct(40) ? File::OPEN_NO_CREATE : r.pct(5) ? File::OPEN_TRUNCATE : 0;
          Open(q, m, opts & File::OPEN_TRUNCATE ? true : r.pct(85), opts);
        } else if (x == 4) {
          int32_t m = 0;
          const Status st = ShardDBM::GetNumberOfShards(path(q), &m);
          t.ev("nsh").n("q", q).raw("r", "[\"" + std::string(stname(st)) + "\"," + jn(m) + "]");
        } else if (x == 5) {
          int q2 = r.in(1, 4);
          if (q2 == q) q2 = q % 4 + 1;
          t.ev("rename").n("q", q).n("q2", q2);
          st1(ShardDBM::RenameDatabase(path(q), path(q2)));
        } else if (x == 6 && (base == "HashDBM" || base == "TreeDBM")) {
          int q2 = 0;
          for (int y = 1; y <= 4; y++) {
            bool any = false;
            for (int m : {1, 2, 3, 5}) any = any || exists(y, m);
            if (!any && y != q) q2 = y;
          }
          if (q2 == 0) continue;
          t.ev("restore").n("q", q).n("q2", q2);
          auto ck = c.params.find("cipher_key");
          st1(ShardDBM::RestoreDatabase(path(q), path(q2), q == 4 && r.pct(70) ? "" : base, -1, ck == c.params.end() ? "" : ck->second));
        } else if (x == 7) {
          // Not opened: every operation is refused.
          JList l;
          std::string v;
          int64_t num = 0;
          l.add(js(stname(db.Get(kt[1], &v)))).add(js(stname(db.Set(kt[1], "x")))).add(js(stname(db.Remove(kt[1]))))
            .add(js(stname(db.Append(kt[1], "x")))).add(js(stname(db.Count(&num)))).add(js(stname(db.Clear())))
            .add(js(stname(db.Rebuild()))).add(js(stname(db.Synchronize(false)))).add(js(stname(db.Close())))
            .add(js(stname(db.GetFileSize(&num)))).add(js(stname(db.GetFilePath(&v))))
            .add(js(stname(db.CopyFileData(path(1) + "copy")))).add(js(stname(db.PopFirst(&v, &v))))
            .add(js(stname(db.CompareExchangeMulti({{kt[1], ""}}, {{kt[1], ""}}))))
            .add(js(stname(db.MakeIterator()->First())));
          t.ev("closed").raw("r", l.str());
        } else {
          for (int m : {1, 2, 3, 5}) if (exists(q, m)) Parts(q, m);
        }
        continue;
      }
      if (r.pct(2)) { const int q = cur, m = curn; Close(); if (r.pct(50)) Parts(q, m); if (r.pct(50)) Open(q, r.pct(60) ? 0 : m, r.pct(85), 0); continue; }
      if (r.pct(2)) {   // already opened
        t.ev("opened");
        st1(db.OpenAdvanced(path(r.in(1, 4)), true, 0, c.params));
        continue;
      }
      if (r.pct(2)) {
        int q = r.in(1, 4);
        if (q == cur) q = q % 4 + 1;
        t.ev("copy").n("q", q);
        st1(db.CopyFileData(path(q), r.pct(30)));
        continue;
      }
      if (r.pct(2)) {
        TinyDBM dest;
        dest.Open("", true, 0);
        Status st = db.Export(&dest);
        Shadow d;
        ShadowFromDB(&dest, cx, &d);
        std::vector<KV> l;
        for (auto& y : d) l.push_back({y.first, y.second});
        t.ev("export").raw("r", "[\"" + std::string(stname(st)) + "\"," + jkvs(l) + "]");
        continue;
      }
      if (r.pct(2)) {
        int64_t num = -1, size = -1, isz = 0, ico = 0, ts = -1, tc = -1;
        const Status s1 = db.Count(&num);
        const Status s2 = db.GetFileSize(&size);
        for (auto& x : db.Inspect()) {
          if (x.first.size() > 6 && x.first[5] == '-') {
            if (x.first.substr(6) == "num_records") ico += StrToInt(x.second);
            if (x.first.substr(6) == "file_size") isz += StrToInt(x.second);
          } else {
            if (x.first == "num_records") tc = StrToInt(x.second);
            if (x.first == "file_size") ts = StrToInt(x.second);
          }
        }
        std::string p;
        db.GetFilePath(&p);
        const bool file_size_known = base == "HashDBM" || base == "TreeDBM";
        t.ev("agg").raw("r", "[\"" + std::string(stname(s1)) + "\",\"" + stname(s2) + "\"," + jn(num) + "," + jn(ico) + "," + jn(tc) + "," +
          jn(size == ts && (!file_size_known || ts == isz)) + "," + jn(db.IsOpen()) + "," + jn(db.IsWritable()) + "," + jn(db.IsHealthy()) + "," +
          jn(db.IsOrdered()) + "," + jn(p == path(cur)) + "]");
        continue;
      }
      if (writable && r.pct(3)) {
        if (r.pct(60)) { const bool h = r.pct(30); t.ev("sync"); st1(db.Synchronize(h)); }
        else {
          its[1].reset(); its[2].reset();
          const Status st = db.RebuildAdvanced({});
          its[1] = db.MakeIterator(); its[2] = db.MakeIterator();
          stale[1] = stale[2] = true;
          t.ev("again"); st1(st);
        }
        continue;
      }
      if (r.pct(upd) && run == 0) {
        if (j % 4 == 0) ShadowFromDB(&db, cx, &sh);
        Op op = GenOp(r, g, sh);
        static const std::set<std::string> ro = {"get", "getsz", "getm", "count", "scan"};
        if (!writable && !ro.count(op.o)) continue;
        if (op.o == "rekey" && op.k == op.k2) continue;
        if (op.o == "clear" && !r.pct(20)) continue;
        if (op.o == "proceach" && r.pct(70)) continue;
        LogOp(t, op);
        t.raw("r", ExecOp(&db, op, cx));
        if (!ro.count(op.o)) stale[1] = stale[2] = true;
        continue;
      }
      const int ii = run > 0 ? mi : (int)r.in(1, 2);
      DBM::Iterator* it = its[ii].get();
      int q;
      if (run > 0) { run--; q = mode; if (r.pct(50)) q = 9; }
      else {
        q = r.in(0, 15);
        if (stale[ii] && q >= 7 && q <= 13) q = r.in(0, 6);
        if (q == 14) { mode = 7; run = r.in(2, 20); mi = ii; q = 0; }
        if (q == 15) { mode = 8; run = r.in(2, 20); mi = ii; q = 1; }
      }
      if (stale[ii] && q >= 7) { run = 0; continue; }
      if (!c.ordered && (q == 1 || q == 5 || q == 6 || q == 8)) { run = 0; q = 0; }
      const int k = r.in(1, kt.K());
      const bool inc = r.pct(50);
      if (q <= 6) stale[ii] = false;
      if (q == 0 || q == 2) { t.ev("first").n("i", ii); st1(it->First()); }
      else if (q == 1) { t.ev("last").n("i", ii); st1(it->Last()); }
      else if (q == 3 || q == 4) {
        if (!c.ordered) { run = 0; stale[ii] = true;
          // In an unordered database only the record itself is promised.
          const Status st = it->Jump(kt[k]);
          std::string rk, rv;
          const Status s2 = it->Get(&rk, &rv);
          t.ev("ujump").n("k", k).raw("r", "[\"" + std::string(stname(st)) + "\",\"" + stname(s2) + "\"," +
            (s2 == Status::SUCCESS ? jn(kt.of(rk)) + "," + jv(tt.dec(rv)) : "0," + jv(ABSENT)) + "]");
          continue;
        }
        t.ev("jump").n("i", ii).n("k", k); st1(it->Jump(kt[k]));
      }
      else if (q == 5) { t.ev("jl").n("i", ii).n("k", k).n("c", inc); st1(it->JumpLower(kt[k], inc)); }
      else if (q == 6) { t.ev("ju").n("i", ii).n("k", k).n("c", inc); st1(it->JumpUpper(kt[k], inc)); }
      else if (q == 7) { t.ev("next").n("i", ii); st1(it->Next()); }
      else if (q == 8) { t.ev("prev").n("i", ii); st1(it->Previous()); }
      else {
        int u = q <= 9 ? 0 : (int)r.in(0, 9);
        if (!writable && u > 5) u = 5;
        std::string rk, rv;
        Status st;
        if (u > 5) stale[3 - ii] = true;
        if (u <= 4) { t.ev("iget").n("i", ii); st = it->Get(&rk, &rv); }
        else if (u == 5) { t.ev("istep").n("i", ii); st = it->Step(&rk, &rv); }
        else if (u <= 7) { t.ev("irem").n("i", ii); st = it->Remove(&rk, &rv); }
        else if (u == 8) {
          const Val v = GenVal(r, g);
          t.ev("iset").n("i", ii).v("v", v);
          const std::string e = tt.enc(v);
          st = it->Set(e, &rk, &rv);
        } else {
          RecProc p;
          p.tt = &tt;
          p.fa = GenAct(r, g, 1);
          p.prep();
          const bool w = r.pct(75);
          if (!w) p.fa = Act();
          t.ev("iproc").n("i", ii).raw("fa", ja(p.fa)).n("w", w);
          st = it->Process(&p, w);
          if (st == Status::SUCCESS) {
            t.raw("r", "[\"ok\"," + jn(p.called == 1 ? kt.of(p.rawkey) : -5) + "," + jv(p.seen) + "]");
            continue;
          }
        }
        if (st == Status::SUCCESS) t.raw("r", "[\"ok\"," + jn(kt.of(rk)) + "," + jv(tt.dec(rv)) + "]");
        else st1(st);
      }
    }
    if (cur != 0) {
      Op op;
      op.o = "scan";
      LogOp(t, op);
      t.raw("r", ExecOp(&db, op, cx));
      const int q = cur, m = curn;
      Close();
      Parts(q, m);
    }
    fputs(t.done().c_str(), out);
  }
  fclose(out);
  WipeDir(dir, true);
  return 0;
}
