// Misuse of the database objects: every call in every state (closed, open, read-only, unhealthy, file missing,
// file of another kind, file held by another process, invalid parameters).
// Byte images of the files are compared around every step by a helper process, because opening and closing the
// files in this process would drop its own record locks.
// args: seed= n= ops= out= [only=index] [cls=]
#include "core.h"
#include <fcntl.h>
#include "tkrzw_file_poly.h"
#include <sys/wait.h>
using namespace vh;

// ---------------------------------------------------------------- helper process computing file images
struct Helper {
  int in = -1, out = -1;
  pid_t pid = 0;
  void start(const std::string& dir) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) { perror("pipe"); exit(3); }
    pid = fork();
    if (pid == 0) {
      close(a[1]); close(b[0]);
      char c;
      while (read(a[0], &c, 1) == 1) {
        std::map<std::string, std::string> m;
        DIR* d = opendir(dir.c_str());
        if (d) {
          while (dirent* e = readdir(d)) {
            const std::string n = e->d_name;
            if (n.substr(0, 2) != "db") continue;
            std::string data;
            int fd = open((dir + "/" + n).c_str(), O_RDONLY);
            char buf[65536];
            ssize_t k;
            while (fd >= 0 && (k = read(fd, buf, sizeof buf)) > 0) data.append(buf, k);
            if (fd >= 0) close(fd);
            m[n] = data;
          }
          closedir(d);
        }
        uint64_t h = 1469598103934665603ULL;
        auto mixb = [&](const std::string& s) {
          const uint64_t z = std::hash<std::string>()(s) + s.size() * 0x9E3779B97F4A7C15ULL;
          h = (h ^ z) * 1099511628211ULL;
          h ^= h >> 29;
        };
        for (auto& x : m) { mixb(x.first); mixb(x.second); }
        if (write(b[1], &h, 8) != 8) _exit(1);
      }
      _exit(0);
    }
    close(a[0]); close(b[1]);
    in = b[0]; out = a[1];
  }
  uint64_t image() {
    uint64_t h = 0;
    if (write(out, "S", 1) != 1 || read(in, &h, 8) != 8) { fprintf(stderr, "helper failed\n"); exit(3); }
    return h;
  }
  void stop() {
    close(out);
    close(in);
    int st;
    waitpid(pid, &st, 0);
  }
};

// ---------------------------------------------------------------- objects
typedef std::map<std::string, std::string> SMap;
static std::string P(const SMap& m, const char* k, const char* d = "") {
  auto it = m.find(k);
  return it == m.end() ? d : it->second;
}
static void HashTune(const SMap& p, HashDBM::TuningParameters* t) {
  const std::string um = P(p, "update_mode"), cm = P(p, "record_crc_mode"), zm = P(p, "record_comp_mode"),
      rm = P(p, "restore_mode");
  if (um == "in_place") t->update_mode = HashDBM::UPDATE_IN_PLACE;
  if (um == "appending") t->update_mode = HashDBM::UPDATE_APPENDING;
  if (cm == "none") t->record_crc_mode = HashDBM::RECORD_CRC_NONE;
  if (cm == "crc_8") t->record_crc_mode = HashDBM::RECORD_CRC_8;
  if (cm == "crc_16") t->record_crc_mode = HashDBM::RECORD_CRC_16;
  if (cm == "crc_32") t->record_crc_mode = HashDBM::RECORD_CRC_32;
  if (zm == "none") t->record_comp_mode = HashDBM::RECORD_COMP_NONE;
  if (zm == "zlib") t->record_comp_mode = HashDBM::RECORD_COMP_ZLIB;
  if (zm == "zstd") t->record_comp_mode = HashDBM::RECORD_COMP_ZSTD;
  if (zm == "lz4") t->record_comp_mode = HashDBM::RECORD_COMP_LZ4;
  if (zm == "lzma") t->record_comp_mode = HashDBM::RECORD_COMP_LZMA;
  if (zm == "rc4") t->record_comp_mode = HashDBM::RECORD_COMP_RC4;
  if (zm == "aes") t->record_comp_mode = HashDBM::RECORD_COMP_AES;
  t->offset_width = atoi(P(p, "offset_width", "-1").c_str());
  t->align_pow = atoi(P(p, "align_pow", "-1").c_str());
  t->num_buckets = atoi(P(p, "num_buckets", "-1").c_str());
  t->fbp_capacity = atoi(P(p, "fbp_capacity", "-1").c_str());
  t->min_read_size = atoi(P(p, "min_read_size", "-1").c_str());
  if (p.count("cache_buckets")) t->cache_buckets = P(p, "cache_buckets") == "true";
  t->cipher_key = P(p, "cipher_key");
  if (rm == "read_only") t->restore_mode = HashDBM::RESTORE_READ_ONLY;
  if (rm == "noop") t->restore_mode = HashDBM::RESTORE_NOOP;
  if (rm == "sync") t->restore_mode = HashDBM::RESTORE_SYNC;
}

struct Obj {
  std::string base;  // hash tree skip tiny baby cache stdhash stdtree shard
  bool direct = false;
  std::unique_ptr<DBM> db;
  ParamDBM* pdb = nullptr;
  KeyComparator comp = nullptr;
  void make(const Cfg& c, const std::string& b, bool dir) {
    base = b;
    direct = dir;
    pdb = nullptr;
    if (!direct) {
      auto p = MakeDB(c);
      pdb = p.get();
      db = std::move(p);
      return;
    }
    SMap fp;
    for (const char* k : {"file", "block_size", "access_options"}) if (c.params.count(k)) fp[k] = c.params.at(k);
    auto file = PolyFile::MakeFileInstance(&fp);
    comp = LexicalKeyComparator;
    const std::string kc = P(c.params, "key_comparator");
    if (kc == "LexicalCase") comp = LexicalCaseKeyComparator;
    if (kc == "DecimalKeyComparator") comp = DecimalKeyComparator;
    if (kc == "HexadecimalKeyComparator") comp = HexadecimalKeyComparator;
    if (kc == "RealNumberKeyComparator") comp = RealNumberKeyComparator;
    if (kc == "SignedBigEndianKeyComparator") comp = SignedBigEndianKeyComparator;
    if (kc == "FloatBigEndianKeyComparator") comp = FloatBigEndianKeyComparator;
    if (base == "hash") db = std::make_unique<HashDBM>(std::move(file));
    else if (base == "tree") db = std::make_unique<TreeDBM>(std::move(file));
    else if (base == "skip") db = std::make_unique<SkipDBM>(std::move(file));
    else if (base == "tiny") db = std::make_unique<TinyDBM>(std::move(file), 7);
    else if (base == "baby") db = std::make_unique<BabyDBM>(std::move(file), comp);
    else if (base == "cache") db = std::make_unique<CacheDBM>(std::move(file), 100000, 1000000000);
    else if (base == "stdhash") db = std::make_unique<StdHashDBM>(std::move(file));
    else db = std::make_unique<StdTreeDBM>(std::move(file));
  }
  Status open(const std::string& path, bool w, int opt, const SMap& p) {
    if (pdb) return pdb->OpenAdvanced(path, w, opt, p);
    if (base == "hash") {
      HashDBM::TuningParameters t;
      HashTune(p, &t);
      return ((HashDBM*)db.get())->OpenAdvanced(path, w, opt, t);
    }
    if (base == "tree") {
      TreeDBM::TuningParameters t;
      HashTune(p, &t);
      if (p.count("max_page_size")) t.max_page_size = atoi(P(p, "max_page_size").c_str());
      if (p.count("max_branches")) t.max_branches = atoi(P(p, "max_branches").c_str());
      if (p.count("max_cached_pages")) t.max_cached_pages = atoi(P(p, "max_cached_pages").c_str());
      t.key_comparator = comp;
      return ((TreeDBM*)db.get())->OpenAdvanced(path, w, opt, t);
    }
    if (base == "skip") {
      SkipDBM::TuningParameters t;
      if (p.count("offset_width")) t.offset_width = atoi(P(p, "offset_width").c_str());
      if (p.count("step_unit")) t.step_unit = atoi(P(p, "step_unit").c_str());
      if (p.count("max_level")) t.max_level = atoi(P(p, "max_level").c_str());
      const std::string rm = P(p, "restore_mode");
      if (rm == "read_only") t.restore_mode = SkipDBM::RESTORE_READ_ONLY;
      if (rm == "noop") t.restore_mode = SkipDBM::RESTORE_NOOP;
      return ((SkipDBM*)db.get())->OpenAdvanced(path, w, opt, t);
    }
    return db->Open(path, w, opt);
  }
  Status syncskip(bool hard) {
    if (pdb) {
      SMap p;
      p["reducer"] = "ReduceToLast";
      return pdb->SynchronizeAdvanced(hard, nullptr, p);
    }
    return ((SkipDBM*)db.get())->SynchronizeAdvanced(hard, nullptr, SkipDBM::ReduceToLast);
  }
};

static std::vector<std::pair<std::string, std::string>> Tunes(const std::string& base) {
  if (base == "skip") return {{"offset_width", "4"}, {"step_unit", "4"}, {"max_level", "14"}};
  std::vector<std::pair<std::string, std::string>> v = {
    {"update_mode", "in-place"}, {"record_crc_mode", "none"}, {"record_comp_mode", "none"}, {"offset_width", "4"},
    {"align_pow", base == "hash" ? "3" : "10"}};
  if (base == "tree") {
    v.push_back({"max_page_size", "8130"});
    v.push_back({"max_branches", "256"});
  }
  return v;
}
static std::string Norm(const std::string& v) {
  if (v == "in_place") return "in-place";
  if (v == "crc_8") return "crc-8";
  if (v == "crc_16") return "crc-16";
  if (v == "crc_32") return "crc-32";
  return v;
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 60);
  const int only = a.n("only", -1);
  const int lostpct = a.n("lost", 0);  // chance of another process after a copy has dropped the locks
  FILE* out = fopen(a.s("out", "/dev/stdout").c_str(), "w");
  const std::string dir = MakeScratch();
  Helper hp;
  hp.start(dir);
  signal(SIGPIPE, SIG_IGN);
  const char* classes[] = {"hash", "hash", "tree", "tree", "skip", "skip", "tiny", "baby", "cache", "stdhash", "stdtree", "shard"};
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    Rng r(seed * 1000003 + i);
    std::string cls = a.s("cls", "");
    if (cls.empty()) cls = classes[r.in(0, 11)];
    Cfg c;
    do {
      c = RandCfg(r, cls, dir, r.pct(85));
    } while (c.path.empty());
    const std::string d = c.params.at("dbm");
    const std::string base = d == "HashDBM" ? "hash" : d == "TreeDBM" ? "tree" : d == "SkipDBM" ? "skip" : "mem";
    const bool direct = cls != "shard" && r.pct(50);
    NoPadding(&c.params);
    // Buffering file classes keep their contents in the process: no live images and no crashes with them.
    const bool plain = c.params["file"] != "std" && P(c.params, "access_options").empty() &&
        P(c.params, "cache_buckets") != "true";
    const bool locks = c.params["file"] != "std";
    c.params["cipher_key"] = "hogehoge";
    if (base != "hash" && base != "tree") c.params.erase("cipher_key");
    const int K = r.pickn({3, 6, 10, 14});
    KeyTab kt = MakeKeys(c.keykind, K, r);
    TokTab tt;
    tt.build(r, 0);
    GenCfg g;
    g.K = kt.K();
    g.maxtok = 40;
    g.intmod = 3;
    g.push = false;
    Trace t;
    Watchdog(&t, out, 60);
    const bool sharded = c.shards > 1;
    t.ev("init").n("K", kt.K()).n("fo", c.ordered && !sharded).n("eo", c.ordered && !sharded).n("so", c.ordered)
      .s("cfg", c.str() + (direct ? " direct" : "")).s("base", base).n("direct", direct).n("sh", cls == "shard").n("i", i);
    Obj o;
    o.make(c, cls == "shard" ? "shard" : cls, direct);
    Rng mix(r.next());
    Shadow sh;
    enum St { CLOSED, RW, RO, SICKRW, SICKRO } st = CLOSED;
    enum Fs { NONE, GOOD, SICK, BAD } fs = NONE;
    int held = 0;  // 1 ro, 2 rw
    int lost = 0;  // the record locks of this process are gone since a copy was made
    pid_t hpid = 0;
    int hin = -1, hout = -1;
    std::unique_ptr<DBM::Iterator> it;
    uint64_t img = hp.image();
    auto chg = [&]() {  // whether the files differ from the last image; unknown (0) when open for updating
      const uint64_t x = hp.image();
      const int c = x != img;
      img = x;
      return c;
    };
    auto files = [&]() {
      std::vector<std::string> v;
      if (cls == "shard") for (int j = 0; j < c.shards; j++) v.push_back(c.path + SPrintF("-%05d-of-%05d", j, c.shards));
      else v.push_back(c.path);
      return v;
    };
    auto retune = [&](SMap p) {
      if (base == "mem") return p;
      SMap q;
      if (base == "skip") {
        q["offset_width"] = r.pick({"3", "4", "5"});
        q["step_unit"] = r.pick({"2", "3", "4", "16"});
        q["max_level"] = r.pick({"1", "2", "3", "14"});
      } else {
        RandHashTune(r, &q, base == "tree");
        if (base == "tree") RandTreeTune(r, &q);
      }
      for (auto& x : q) {
        if (x.first == "cipher_key") continue;
        p.erase(x.first);
        if (r.pct(60) && !x.second.empty()) p[x.first] = x.second;
      }
      if (P(p, "offset_width") == "3") p["offset_width"] = "4";
      return p;
    };
    auto child = [&](bool w, int* in, int* ou, pid_t* pid) {
      int x[2], y[2];
      if (pipe(x) || pipe(y)) { perror("pipe"); exit(3); }
      const pid_t p = fork();
      if (p == 0) {
        alarm(0);
        close(x[1]); close(y[0]);
        auto db = MakeDB(c);
        const Status s = db->OpenAdvanced(c.path, w, File::OPEN_NO_WAIT | File::OPEN_NO_CREATE, c.params);
        char cc = s == Status::SUCCESS ? 1 : 0;
        if (cc && w) db->Synchronize(false);
        if (write(y[1], &cc, 1) != 1) _exit(1);
        if (cc == 0) _exit(0);
        cc = 'd';
        if (read(x[0], &cc, 1) != 1) cc = 'd';
        if (cc == 'd') _exit(0);
        cc = db->Close() == Status::SUCCESS;
        if (write(y[1], &cc, 1) != 1) _exit(1);
        _exit(0);
      }
      close(x[0]); close(y[1]);
      char cc = 0;
      if (read(y[0], &cc, 1) != 1) cc = 0;
      *in = y[0]; *ou = x[1]; *pid = p;
      if (!cc) { close(y[0]); close(x[1]); int s; waitpid(p, &s, 0); }
      return cc == 1;
    };
    auto release = [&](bool dirty) {
      char cc = dirty ? 'd' : 'c', rr = 1;
      if (write(hout, &cc, 1) != 1) rr = 0;
      if (!dirty && read(hin, &rr, 1) != 1) rr = 0;
      int s;
      waitpid(hpid, &s, 0);
      close(hin); close(hout);
      held = 0;
      return (int)rr;
    };
    const int len = r.in(nops / 2, nops * 3 / 2);
    const bool diskcls = base != "mem";
    for (int j = 0; j < len; j++) {
      const bool rw = st == RW;
      const bool force = lostpct == 100 && st != CLOSED && locks && !held && r.pct(20);
      const int q = force ? (lost ? 38 : 14) : r.in(0, 99);
      if (st == CLOSED && fs == GOOD && !held && !lost && locks && diskcls && plain && r.pct(8)) {  // a process dies with the file
        const bool ok = child(true, &hin, &hout, &hpid);
        t.ev("hold").n("w", 1).n("lost", 0).raw("r", ok ? "[\"ok\"]" : "[\"err\"]").n("ch", (chg(), 0));
        if (ok) {
          held = 2;
          const int y = release(true);
          t.ev("release").n("dirty", 1).raw("r", y ? "[\"ok\"]" : "[\"err\"]").n("ch", (chg(), 0));
          fs = SICK;
        }
        continue;
      }
      const bool doopen = force ? false : st == CLOSED ? r.pct(35) : r.pct(4);
      if (doopen) {
        const bool w = r.pct(fs == NONE || fs == SICK ? 80 : 50);
        const bool trunc = r.pct(fs == BAD ? 40 : 12), nocreate = r.pct(25);
        const int opt = File::OPEN_NO_WAIT | (trunc ? File::OPEN_TRUNCATE : 0) | (nocreate ? File::OPEN_NO_CREATE : 0);
        SMap p = retune(c.params);
        int args = 1;
        std::string path = c.path;
        std::string what;
        if (r.pct(12)) {
          const int z = r.in(0, 5);
          args = 0;
          if (z == 0 || direct) { path = dir + "/nodir/db"; what = "nodir"; }
          else if (z == 1) { p["xyz"] = "1"; what = "param"; }
          else if (z == 2) { p["dbm"] = "FooDBM"; what = "class"; }
          else if (z == 3) { p["file"] = "foo"; what = "file"; }
          else if (z == 4) { p["ulog_foo"] = "1"; what = "ulog"; }
          else if (base == "tree" || d == "BabyDBM") { p["key_comparator"] = "foo"; what = "comp"; }
          else { p["num_bucketz"] = "1"; what = "param"; }
        }
        std::string rm = "default";
        if (fs == SICK && w) {
          rm = r.pick({"default", "read_only", "read_only", "noop"});
          if (diskcls && rm != "default") p["restore_mode"] = rm;
        }
        const Status s = o.open(path, w, opt, p);
        JList tw, tg;
        if (s == Status::SUCCESS && st == CLOSED && base != "mem" && cls != "shard") {
          SMap m;
          for (auto& x : o.db->Inspect()) m[x.first] = x.second;
          for (auto& z : Tunes(base)) {
            std::string v = P(p, z.first.c_str(), z.second.c_str());
            if (v.empty()) v = z.second;
            tw.add(js(Norm(v)));
            tg.add(js(m[z.first]));
          }
        }
        const bool fresh = w && (fs == NONE || trunc);
        t.ev("open").n("w", w).n("trunc", trunc).n("nocreate", nocreate).n("args", args).s("what", what).s("rm", rm)
          .raw("tw", tw.str()).raw("tg", tg.str()).n("fresh", fresh)
          .raw("r", "[\"" + std::string(stname(s)) + "\"]").n("ch", rw ? 0 : chg());
        if (s == Status::SUCCESS) {
          if (st != CLOSED) break;  // rejected by the specification anyway
          if (w) {
            if (fs == SICK && !trunc && rm == "read_only") st = SICKRW;
            else { st = RW; fs = GOOD; }
          } else {
            st = fs == SICK ? SICKRO : RO;
          }
        }
      } else if (st != CLOSED ? q < 7 : q < 4) {
        if (!direct) it.reset();
        const bool ro = st != RW;
        const Status s = o.db->Close();
        const int ch = ro && st != SICKRW ? chg() : (chg(), 0);
        t.ev("close").raw("r", "[\"" + std::string(stname(s)) + "\"]").n("ch", ch);
        st = CLOSED;
        lost = 0;
      } else if (q < 14) {  // attributes
        JList l;
        l.add(jn(o.db->IsOpen())).add(jn(o.db->IsWritable())).add(jn(o.db->IsHealthy()));
        std::string path;
        double ts = 0;
        int64_t sz = 0;
        l.add(js(stname(o.db->GetFilePath(&path)))).add(js(stname(o.db->GetTimestamp(&ts)))).add(js(stname(o.db->GetFileSize(&sz))));
        o.db->Inspect();
        t.ev("at").raw("r", l.str()).n("ch", rw ? 0 : chg());
      } else if (q < 24 || (st == SICKRW && q < 40)) {  // maintenance
        if (st == CLOSED && direct && !diskcls) continue;
        const std::string m = force ? "copy" : r.pick({"sync", "rebuild", "clear", "dbtype", "opaque", "revert", "merge", "copy", "sbr"});
        Status s;
        if (m == "sync") s = cls == "skip" ? o.syncskip(r.pct(50)) : o.db->Synchronize(r.pct(50));
        else if (m == "rebuild") s = o.db->Rebuild();
        else if (m == "clear") { if (rw) continue; s = o.db->Clear(); }
        else if (m == "copy") { s = o.db->CopyFileData(dir + "/copy"); lost = st != CLOSED; }
        else if (m == "sbr") { bool tobe; s = o.db->ShouldBeRebuilt(&tobe); }
        else {
          if (!direct || !diskcls || rw) continue;
          if (m == "dbtype") s = base == "hash" ? ((HashDBM*)o.db.get())->SetDatabaseType(77) :
              base == "tree" ? ((TreeDBM*)o.db.get())->SetDatabaseType(77) : ((SkipDBM*)o.db.get())->SetDatabaseType(77);
          else if (m == "opaque") s = base == "hash" ? ((HashDBM*)o.db.get())->SetOpaqueMetadata("hello") :
              base == "tree" ? ((TreeDBM*)o.db.get())->SetOpaqueMetadata("hello") : ((SkipDBM*)o.db.get())->SetOpaqueMetadata("hello");
          else if (base == "skip" && m == "revert") s = ((SkipDBM*)o.db.get())->Revert();
          else if (base == "skip") s = ((SkipDBM*)o.db.get())->MergeSkipDatabase(dir + "/none");
          else continue;
        }
        t.ev("maint").s("m", m).raw("r", "[\"" + std::string(stname(s)) + "\"]").n("ch", rw ? 0 : chg());
      } else if (q < 38) {  // iterators
        if (!o.db) continue;
        if (!it || r.pct(15)) {
          if (!direct && st == CLOSED) continue;
          it = o.db->MakeIterator();
        }
        if (st == CLOSED && !diskcls) continue;
        const std::string m = r.pick({"first", "last", "jump", "lower", "upper", "next", "prev", "get", "set", "rem", "procw", "procr"});
        Status s;
        int gk = 0;
        Val gv = ABSENT;
        const std::string k = kt[r.in(1, kt.K())];
        if (rw && (m == "set" || m == "rem" || m == "procw")) continue;
        if (st == RO && !diskcls && (m == "set" || m == "rem" || m == "procw")) continue;
        if (m == "first") s = it->First();
        else if (m == "last") s = it->Last();
        else if (m == "jump") s = it->Jump(k);
        else if (m == "lower") s = it->JumpLower(k, r.pct(50));
        else if (m == "upper") s = it->JumpUpper(k, r.pct(50));
        else if (m == "next") s = it->Next();
        else if (m == "prev") s = it->Previous();
        else if (m == "get") {
          std::string kk, vv;
          s = it->Get(&kk, &vv);
          if (s == Status::SUCCESS) { gk = kt.of(kk); gv = tt.dec(vv); }
        } else if (m == "set") s = it->Set("zzz");
        else if (m == "rem") s = it->Remove();
        else {
          RecProc p;
          p.tt = &tt;
          p.fa = m == "procw" ? GenAct(r, g, 1) : Act();
          if (m == "procw" && p.fa.t == 0) p.fa.t = 1;
          p.prep();
          s = it->Process(&p, m == "procw");
          if (p.called) { gk = kt.of(p.rawkey); gv = p.seen; }
        }
        t.ev("iter").s("m", m).n("k", gk).v("v", gv).raw("r", "[\"" + std::string(stname(s)) + "\"]").n("ch", rw ? 0 : chg());
      } else if (q < 48) {  // the outer world
        const int z = force ? 0 : r.in(0, 9);
        if (z < 4) {
          if (!locks || fs == NONE || fs == BAD || held) continue;
          if (fs == SICK) continue;
          if (lost && !r.pct(lostpct)) continue;
          const bool w = r.pct(50);
          const bool ok = child(w, &hin, &hout, &hpid);
          t.ev("hold").n("w", w).n("lost", lost).raw("r", ok ? "[\"ok\"]" : "[\"err\"]").n("ch", !ok && !rw ? chg() : (chg(), 0));
          if (ok) held = w ? 2 : 1;
          if (ok && lost) break;
        } else if (z < 7) {
          if (!held) continue;
          const bool w = held == 2;
          const bool dirty = w && diskcls && plain && r.pct(50);
          const int ok = release(dirty);
          t.ev("release").n("dirty", dirty).raw("r", ok ? "[\"ok\"]" : "[\"err\"]").n("ch", w ? (chg(), 0) : chg());
          if (dirty) fs = SICK;
        } else if (z < 8) {
          if (st != CLOSED || held || (fs != NONE && diskcls && !r.pct(30))) continue;
          std::string junk;
          const int m = r.pickn({5, 40, 500, 3000});
          for (int b = 0; b < m; b++) junk += (char)r.in('a', 'z');
          const int keep = !diskcls && fs == GOOD && r.pct(70) ? 0 : O_TRUNC;  // valid records and then junk
          for (auto& f : files()) {
            const int fd = open(f.c_str(), O_WRONLY | O_CREAT | (keep ? keep : O_APPEND), 0644);
            if (fd < 0 || write(fd, junk.data(), junk.size()) < 0) exit(3);
            close(fd);
          }
          fs = BAD;
          chg();
          t.ev("junk");
        } else if (z < 9) {
          if (st != CLOSED || held || (fs != NONE && !r.pct(20))) continue;
          for (auto& f : files()) unlink(f.c_str());
          fs = NONE;
          chg();
          t.ev("wipe");
        } else {
          if (st != CLOSED || held == 2 || (fs != GOOD && fs != SICK)) continue;
          Obj x;
          x.make(c, o.base, false);
          const Status s = x.open(c.path, false, File::OPEN_NO_WAIT, c.params);
          JList l;
          l.add(js(stname(s)));
          if (s == Status::SUCCESS) {
            Op op;
            op.o = "scan";
            Ctx cx{&kt, &tt, nullptr};
            std::string sc = ExecOp(x.db.get(), op, cx);
            l.add(sc);
            l.add(jn(x.db->IsHealthy()));
            x.db->Close();
          }
          t.ev("peek").raw("r", l.str()).n("ch", chg());
        }
      } else if (st == CLOSED && direct && !diskcls) {
        continue;
      } else {
        const bool biased = r.pct(25) || j < 5;
        if ((st == RW || st == RO) && biased) {
          sh.clear();
          Ctx c0{&kt, &tt, nullptr};
          ShadowFromDB(o.db.get(), c0, &sh);
        }
        Ctx cx{&kt, &tt, st == CLOSED ? nullptr : &mix};
        if (cls == "skip" && rw) {
          if (r.pct(50)) {
            JList kv;
            Status s;
            const int m = r.in(1, 4);
            for (int z = 0; z < m; z++) {
              const int k = r.in(1, kt.K());
              const Val v = GenFor(r, g, k);
              kv.add("[" + std::to_string(k) + "," + jv(v) + "]");
              s |= o.db->Set(kt[k], tt.enc(v));
            }
            s |= o.syncskip(false);
            t.ev("put").raw("kvs", kv.str()).raw("r", "[\"" + std::string(stname(s)) + "\"]").n("ch", 0);
            continue;
          }
          Op op;
          do { op = GenOp(r, g, sh); } while (op.o != "get" && op.o != "getsz" && op.o != "scan" && op.o != "count" && op.o != "getm" && op.o != "clear");
          LogOp(t, op);
          t.raw("r", ExecOp(o.db.get(), op, cx)).n("ch", 0);
          continue;
        }
        Op op = GenOp(r, g, sh);
        if (cls == "skip" && op.o == "push") continue;
        LogOp(t, op);
        t.raw("r", ExecOp(o.db.get(), op, cx)).n("ch", rw ? 0 : chg());
      }
    }
    it.reset();
    if (held) { const int ok = release(false); t.ev("release").n("dirty", 0).raw("r", ok ? "[\"ok\"]" : "[\"err\"]").n("ch", 0); }
    if (st != CLOSED) {
      const Status s = o.db->Close();
      t.ev("close").raw("r", "[\"" + std::string(stname(s)) + "\"]").n("ch", 0);
      st = CLOSED;
    }
    if (fs == GOOD || fs == SICK) {
      Obj x;
      x.make(c, o.base, false);
      const Status s = x.open(c.path, false, File::OPEN_NO_WAIT, c.params);
      JList l;
      l.add(js(stname(s)));
      if (s == Status::SUCCESS) {
        Op op;
        op.o = "scan";
        Ctx cx{&kt, &tt, nullptr};
        l.add(ExecOp(x.db.get(), op, cx));
        l.add(jn(x.db->IsHealthy()));
        x.db->Close();
      }
      chg();
      t.ev("peek").raw("r", l.str()).n("ch", 0);
    }
    fputs(t.done().c_str(), out);
  }
  fclose(out);
  hp.stop();
  WipeDir(dir, true);
  return 0;
}
