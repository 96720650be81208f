// Sequential histories of every database class: random operations with maintenance in between.
// args: seed= n= ops= out= [cls=] [only=index]
#include "core.h"
using namespace vh;

static std::map<std::string, std::string> RebuildParams(Rng& r, const Cfg& c) {
  std::map<std::string, std::string> p;
  const std::string d = c.params.at("dbm");
  if (r.pct(40)) return p;
  if (d == "HashDBM" || d == "TreeDBM") {
    std::map<std::string, std::string> q;
    RandHashTune(r, &q, d == "TreeDBM");
    if (d == "TreeDBM") RandTreeTune(r, &q);
    for (auto& x : q) {
      if (x.first == "record_comp_mode" || x.first == "cipher_key") continue;
      if (r.pct(50)) p[x.first] = x.second;
    }
  } else if (d == "TinyDBM") {
    p["num_buckets"] = r.pick({"1", "3", "50", "1000"});
  }
  return p;
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 80);
  const int only = a.n("only", -1);
  FILE* out = fopen(a.s("out", "/dev/stdout").c_str(), "w");
  const std::string dir = MakeScratch();
  const char* classes[] = {"hash", "hash", "tree", "tree", "tree", "tiny", "baby", "cache", "stdhash", "stdtree", "shard"};
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    Rng r(seed * 1000003 + i);
    std::string cls = a.s("cls", "");
    if (cls.empty()) cls = classes[r.in(0, 10)];
    Cfg c = RandCfg(r, cls, dir);
    const int K = r.pickn({3, 6, 10, 14, 24, 40});
    KeyTab kt = MakeKeys(c.keykind, K, r);
    TokTab tt;
    const int profile = r.pct(60) ? 0 : r.pct(85) ? 1 : 2;
    tt.build(r, profile);
    if (profile == 2 && c.params.count("offset_width") && c.params["offset_width"] == "3") c.params["offset_width"] = "4";
    GenCfg g;
    g.K = kt.K();
    g.maxtok = r.pickn({4, 40, 200});
    g.intmod = r.pickn({0, 3, 5});
    g.rempct = r.pickn({10, 20, 30});
    Trace t;
    Watchdog(&t, out, 30);
    const bool sharded = c.shards > 1;
    t.ev("init").n("K", kt.K()).n("fo", c.ordered && !sharded).n("eo", c.ordered && !sharded).n("so", c.ordered)
      .s("cfg", c.str()).n("i", i).n("profile", profile);
    auto db = MakeDB(c);
    Rng mix(r.next());
    SeedTrace(seed * 1000 + i);
    Ctx cx{&kt, &tt, &mix};
    Status s = db->OpenAdvanced(c.path, true, r.pct(30) ? File::OPEN_TRUNCATE : 0, c.params);
    if (s != Status::SUCCESS) {
      fprintf(stderr, "cannot open %s: %s\n", c.str().c_str(), ToString(s).c_str());
      t.ev("openfail").raw("r", "[\"" + std::string(stname(s)) + "\"]");
      fputs(t.done().c_str(), out);
      continue;
    }
    const int len = r.in(nops / 2, nops * 3 / 2);
    const int maint = r.pickn({2, 6, 15});
    Shadow sh;
    bool failed = false;
    for (int j = 0; j < len; j++) {
      if (r.pct(15) || j == 0) ShadowFromDB(db.get(), cx, &sh);
      if (r.pct(maint)) {
        const int q = r.in(0, 9);
        if (q < 3) {
          const bool hard = r.pct(50);
          t.ev("sync").raw("r", "[\"" + std::string(stname(db->Synchronize(hard))) + "\"]");
        } else if (q < 5) {
          auto p = RebuildParams(r, c);
          const Status st = db->RebuildAdvanced(p);
          std::string ps;
          for (auto& x : p) ps += x.first + "=" + x.second + " ";
          t.ev("rebuild").s("p", ps).raw("r", "[\"" + std::string(stname(st)) + "\"]");
        } else if (q < 8 && c.file) {
          Status st = db->Close();
          auto p = c.params;
          if (r.pct(30)) {
            for (auto it = p.begin(); it != p.end();) {
              if (it->first == "dbm" || it->first == "file" || it->first == "num_shards" || it->first == "cipher_key" || it->first == "access_options" || it->first == "block_size" ||
                  (it->first == "key_comparator" && c.params["dbm"] != "TreeDBM")) ++it;
              else it = p.erase(it);
            }
            if (c.params["dbm"] == "TinyDBM") p["num_buckets"] = r.pick({"1", "9", "200"});
            if (c.params["dbm"] == "CacheDBM") p["cap_rec_num"] = "50000";
          }
          if (c.shards && r.pct(30)) p.erase("num_shards");
          if (r.pct(50)) db = MakeDB(c);
          st |= db->OpenAdvanced(c.path, true, 0, p);
          t.ev("reopen").raw("r", "[\"" + std::string(stname(st)) + "\"]");
          if (st != Status::SUCCESS) {
            fprintf(stderr, "cannot reopen %s: %s\n", c.str().c_str(), ToString(st).c_str());
            failed = true;
            break;
          }
        } else {
          if (r.pct(50)) {
            auto recs = db->Inspect();
            (void)recs;
            int64_t cnt = -1;
            db->Count(&cnt);
            t.ev("inspect").raw("r", "[\"ok\"," + jn(db->IsHealthy()) + "," + jn(c.file ? db->IsOpen() : 1) + "," + jn(cnt) + "]");
          } else {
            bool tobe = false;
            const Status st = db->ShouldBeRebuilt(&tobe);
            t.ev("sbr").raw("r", "[\"" + std::string(stname(st)) + "\"," + jn(tobe) + "]");
          }
        }
        continue;
      }
      Op op = GenOp(r, g, sh);
      LogOp(t, op);
      t.raw("r", ExecOp(db.get(), op, cx));
    }
    if (!failed) {
      Op op;
      op.o = "scan";
      LogOp(t, op);
      t.raw("r", ExecOp(db.get(), op, cx));
      if (c.file) {
        Status st = db->Close();
        st |= db->OpenAdvanced(c.path, r.pct(50), 0, c.params);
        t.ev("reopen").raw("r", "[\"" + std::string(stname(st)) + "\"]");
        LogOp(t, op);
        t.raw("r", ExecOp(db.get(), op, cx));
        op.o = "count";
        LogOp(t, op);
        t.raw("r", ExecOp(db.get(), op, cx));
        db->Close();
      }
    }
    fputs(t.done().c_str(), out);
  }
  fclose(out);
  WipeDir(dir, true);
  return 0;
}
