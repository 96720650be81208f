// Message queue histories. args: seed= n= ops= out= mode=seq|conc [only=]
#include "core.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <fcntl.h>
#include <fstream>
#include <sstream>
using namespace vh;

// ---- storage calls: snapshots of the directory before each of them (sequential mode)
typedef std::map<std::string, std::string> Snap;
static std::string g_dir;
static bool g_probe = false;
static int g_depth = 0;
struct Point { Snap before; std::string path; std::string data; int64_t off; };
static std::vector<Point> g_points;
static std::string Slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static Snap TakeSnap(const std::string& dir) {
  Snap s;
  DIR* d = opendir(dir.c_str());
  while (dirent* e = readdir(d)) if (e->d_name[0] != '.') s[e->d_name] = Slurp(dir + "/" + e->d_name);
  closedir(d);
  return s;
}
static std::atomic<int> g_jit{0};
static thread_local uint64_t tl_rnd = 88172645463325252ULL ^ (uint64_t)pthread_self();
static void Jit() {
  const int j = g_jit.load(std::memory_order_relaxed);
  if (j == 0) return;
  tl_rnd ^= tl_rnd << 13; tl_rnd ^= tl_rnd >> 7; tl_rnd ^= tl_rnd << 17;
  const uint32_t c = (tl_rnd >> 20) % 1000;
  if (c < (uint32_t)j) {
    if (c % 8 == 0) usleep(1 + (tl_rnd >> 40) % 60);
    else sched_yield();
  }
}
static void Probe(int fd, const void* b, size_t n, int64_t off) {
  if (!g_probe || g_depth) return;
  g_depth++;
  char link[64], path[512];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  const ssize_t l = readlink(link, path, sizeof path - 1);
  path[l < 0 ? 0 : l] = 0;
  if (strncmp(path, g_dir.c_str(), g_dir.size()) == 0 && g_points.size() < 12)
    g_points.push_back({TakeSnap(g_dir), std::string(path).substr(g_dir.size() + 1), std::string((const char*)b, n), off});
  g_depth--;
}
extern "C" {
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { Jit(); Probe(fd, b, n, o); return __real_pwrite(fd, b, n, o); }
ssize_t __real_pwrite64(int, const void*, size_t, off_t);
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { Jit(); Probe(fd, b, n, o); return __real_pwrite64(fd, b, n, o); }
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t o) { Jit(); Probe(fd, "", 0, -1); return __real_ftruncate(fd, o); }
int __real_ftruncate64(int, off_t);
int __wrap_ftruncate64(int fd, off_t o) { Jit(); Probe(fd, "", 0, -1); return __real_ftruncate64(fd, o); }
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { Jit(); return __real_pread(fd, b, n, o); }
ssize_t __real_pread64(int, void*, size_t, off_t);
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { Jit(); return __real_pread64(fd, b, n, o); }
}

// ---- messages
static std::string Body(int id, int sz) {
  if (sz == 0) return "";
  std::string s = std::to_string(id) + ":";
  uint32_t h = id * 2654435761u + sz;
  while ((int)s.size() < sz) { h = h * 1664525u + 1013904223u; s.push_back((char)(h >> 24)); }
  return s;
}
static int Decode(const std::string& s) {
  if (s.empty()) return 0;
  const int id = atoi(s.c_str());
  const std::string want = Body(id, s.size());
  return want == s ? id : -1;
}
static std::string Msgs(const std::vector<std::pair<int64_t, int>>& l) {
  JList j;
  for (auto& x : l) j.add("[" + jn(x.first) + "," + jn(x.second) + "]");
  return j.str();
}
// The messages of every file, read with the static interface.
static std::string FileLists(const std::string& prefix) {
  std::vector<std::string> paths;
  MessageQueue::FindFiles(prefix, &paths);
  JList fs;
  for (auto& p : paths) {
    std::vector<std::pair<int64_t, int>> l;
    PositionalParallelFile f;
    if (f.Open(p, false) != Status::SUCCESS) { l.push_back({-5, -5}); fs.add(Msgs(l)); continue; }
    int64_t off = 0, ts = 0;
    std::string m;
    while (std::max<int64_t>(off, 32) + 11 <= f.GetSizeSimple()) {
      const Status s = MessageQueue::ReadNextMessage(&f, &off, &ts, &m);
      if (s != Status::SUCCESS) {
        if (s != Status::CANCELED_ERROR) l.push_back({-6, -6});  // the rest is zero
        break;
      }
      l.push_back({ts, Decode(m)});
    }
    f.Close();
    fs.add(Msgs(l));
  }
  return fs.str();
}
static std::string ReadAll(MessageQueue* q, bool ro, std::vector<std::pair<int64_t, int>>* l) {
  auto rd = q->MakeReader(0);
  while (l->size() < 10000) {
    int64_t ts = -1;
    std::string m = "?";
    const Status s = rd->Read(&ts, &m, 0);
    if (s != Status::SUCCESS) return stname(s);
    l->push_back({ts, Decode(m)});
  }
  return "endless";
}
static void PutSnap(const std::string& dir, const Snap& s) {
  WipeDir(dir, false);
  for (auto& x : s) { std::ofstream f(dir + "/" + x.first, std::ios::binary); f << x.second; }
}
// Recovers a snapshot: [kind, open status, end of reading, messages, timestamp, write status, then last message, all same]
static std::string Recover(const std::string& rdir, const Snap& s, int kind, int mfs) {
  g_depth++;
  PutSnap(rdir, s);
  JList r;
  r.add(jn(kind));
  {
    MessageQueue q;
    const Status os = q.Open(rdir + "/q", mfs, kind == 1 ? MessageQueue::OPEN_IGNORE_BROKEN : 0);
    r.add(js(stname(os)));
    std::vector<std::pair<int64_t, int>> l, l2;
    const std::string e = os == Status::SUCCESS ? ReadAll(&q, false, &l) : "x";
    r.add(js(e)).add(Msgs(l)).add(jn(q.GetTimestamp()));
    const Status ws = q.Write(0, Body(7777, 20));
    r.add(js(stname(ws)));
    if (os == Status::SUCCESS) ReadAll(&q, false, &l2);
    const bool same = l2.size() == l.size() + 1 && std::equal(l.begin(), l.end(), l2.begin()) && l2.back().second == 7777;
    r.add(jn(l2.empty() ? -1 : l2.back().first)).add(jn(same));
    q.Close();
    MessageQueue q2;
    std::vector<std::pair<int64_t, int>> l3;
    if (q2.Open(rdir + "/q", mfs) == Status::SUCCESS) ReadAll(&q2, false, &l3);
    r.add(jn(l3 == l2));
  }
  g_depth--;
  return r.str();
}

static int RunSeq(Args& a, FILE* out) {
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 60), only = a.n("only", -1);
  const std::string dir = MakeScratch(), rdir = MakeScratch();
  g_dir = dir;
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    g_probe = false;
    WipeDir(dir, false);
    Rng r(seed * 900007 + i);
    const int mfs = r.pickn({1, 33, 60, 200, 500, 2000, 100000});
    const int opt0 = r.pct(15) ? MessageQueue::OPEN_SYNC_HARD : 0;
    const int tsmode = r.in(0, 2);  // increasing, random, constant
    const int crashpct = r.pct(60) ? r.pickn({5, 30}) : 0;
    const std::string prefix = dir + "/q";
    Trace t;
    Watchdog(&t, out, 40);
    t.ev("init").n("mfs", mfs).n("hard", opt0 != 0).n("i", i);
    auto q = std::make_unique<MessageQueue>();
    bool open = q->Open(prefix, mfs, opt0) == Status::SUCCESS;
    t.ev("open").raw("r", open ? "[\"ok\"]" : "[\"bad\"]");
    std::map<int, std::unique_ptr<MessageQueue::Reader>> rds;
    int nid = 1, nrid = 1, now = 1;
    const int len = r.in(nops / 2, nops * 3 / 2);
    auto probes = [&](const Snap& after) {
      // the interrupted operation: each storage call, whole, torn, or with its data missing
      JList recs;
      int k = 0;
      for (auto& p : g_points) {
        if (k >= 3) break;
        if (r.pct(60)) { recs.add(Recover(rdir, p.before, 0, mfs)); k++; }
        if (p.off >= 32 && p.data.size() > 1 && r.pct(50)) {
          Snap s = p.before;
          std::string& f = s[p.path];
          if ((int64_t)f.size() == p.off) {
            f += p.data.substr(0, r.in(1, p.data.size() - 1));
            recs.add(Recover(rdir, s, 1, mfs));
            f.resize(p.off);
            f += std::string(r.pct(50) ? p.data.size() : r.in(1, 100), 0);
            recs.add(Recover(rdir, s, 2, mfs));
            k++;
          }
        }
      }
      if (r.pct(40)) recs.add(Recover(rdir, after, 0, mfs));
      return recs.str();
    };
    for (int j = 0; j < len; j++) {
      const int c = r.in(0, 99);
      g_points.clear();
      const bool crash = crashpct && r.pct(crashpct);
      if (!open) {
        if (c < 55) {
          if (r.pct(50)) q = std::make_unique<MessageQueue>(), rds.clear();
          g_probe = crash;
          const Status s = q->Open(prefix, mfs, opt0);
          g_probe = false;
          open = s == Status::SUCCESS;
          t.ev("open").raw("r", "[\"" + std::string(stname(s)) + "\"]");
          if (crash) t.raw("recs", probes(TakeSnap(dir)));
          rds.clear();
          if (!open) break;
        } else if (c < 70) {
          const int thr = r.pct(20) ? 100000 : r.in(0, now + 2);
          const bool ex = r.pct(50);
          const std::string b = FileLists(prefix);
          const Status s = MessageQueue::RemoveOldFiles(prefix, thr, ex);
          t.ev("rm").n("thr", thr).n("ex", ex).raw("b", b).raw("a", FileLists(prefix)).raw("r", "[\"" + std::string(stname(s)) + "\"]");
          if (FileLists(prefix) == "[]") now = 1;
        } else if (c < 80) {
          MessageQueue q2;
          const Status s = q2.Open(prefix, mfs, MessageQueue::OPEN_READ_ONLY);
          std::vector<std::pair<int64_t, int>> l;
          std::string e = s == Status::SUCCESS ? ReadAll(&q2, true, &l) : "x";
          std::string e2 = "nf";
          if (s == Status::SUCCESS) {
            auto rd = q2.MakeReader(0);
            int64_t ts;
            std::string m;
            for (size_t x = 0; x < l.size(); x++) rd->Read(&ts, &m, 0);
            for (int x = 0; x < 3; x++) { const Status u = rd->Read(&ts, &m, 0); if (u != Status::NOT_FOUND_ERROR) e2 = stname(u); }
          }
          t.ev("ro").raw("r", "[\"" + std::string(stname(s)) + "\",\"" + e + "\"," + Msgs(l) + ",\"" + e2 + "\",\"" +
                              stname(q2.Write(5, "zz")) + "\"]");
        } else if (c < 90) {
          t.ev("wclosed").raw("r", "[\"" + std::string(stname(q->Write(now, "xx"))) + "\",\"" + stname(q->Synchronize(false)) + "\",\"" +
                                   stname(q->Close()) + "\"," + jn(q->GetTimestamp()) + "]");
        } else if (!rds.empty()) {
          int64_t ts = -1;
          std::string m;
          auto it = std::next(rds.begin(), r.in(0, rds.size() - 1));
          const Status s = it->second->Read(&ts, &m, r.pickn({0, -1}));
          t.ev("rd").n("id", it->first).raw("r", "[\"" + std::string(stname(s)) + "\",0,0]");
        }
        continue;
      }
      if (c < 40) {
        const int ts = tsmode == 0 ? now : tsmode == 1 ? r.in(0, 40) : 7;
        now += r.in(0, 2);
        const int sz = r.pct(10) ? 0 : r.pct(80) ? r.in(4, 60) : r.pct(90) ? r.in(60, 700) : r.in(8100, 9000);
        if (r.pct(2)) {
          const Status s = q->Write((1LL << 48) - 1 + r.in(0, 3), "zz");
          t.ev("wbad").raw("r", "[\"" + std::string(stname(s)) + "\"]");
          continue;
        }
        const int id = sz == 0 ? 0 : nid++;
        g_probe = crash;
        const Status s = q->Write(ts, Body(id, std::max(sz, id ? (int)std::to_string(id).size() + 1 : 0)));
        g_probe = false;
        t.ev("w").n("ts", ts).n("id", id).raw("r", "[\"" + std::string(stname(s)) + "\"]");
        if (crash) t.raw("recs", probes(TakeSnap(dir)));
      } else if (c < 65) {
        if (rds.empty()) continue;
        auto it = std::next(rds.begin(), r.in(0, rds.size() - 1));
        const int reps = r.pct(20) ? 30 : r.in(1, 3);
        for (int x = 0; x < reps; x++) {
          int64_t ts = -1;
          std::string m = "?";
          const Status s = it->second->Read(&ts, &m, r.pct(95) ? 0 : 0.0005);
          t.ev("rd").n("id", it->first).raw("r", "[\"" + std::string(stname(s)) + "\"," + jn(ts) + "," + jn(s == Status::SUCCESS ? Decode(m) : 0) + "]");
          if (s != Status::SUCCESS) break;
        }
      } else if (c < 68) {
        if (rds.empty()) continue;
        auto it = std::next(rds.begin(), r.in(0, rds.size() - 1));
        t.ev("wt").n("id", it->first).raw("r", "[\"" + std::string(stname(it->second->Wait(r.pct(50) ? 0 : 0.0005))) + "\"]");
        t.ev("rgt").n("id", it->first).raw("r", "[" + jn(it->second->GetTimestamp()) + "]");
      } else if (c < 77) {
        if (rds.size() >= 4) { t.ev("del").n("id", rds.begin()->first); rds.erase(rds.begin()); }
        const int mn = r.pct(50) ? 0 : r.in(0, tsmode == 1 ? 42 : now + 3);
        rds[nrid] = q->MakeReader(mn);
        t.ev("mk").n("id", nrid).n("min", mn);
        nrid++;
      } else if (c < 80) {
        const int ts = r.pct(50) ? r.in(0, 40) : now + r.in(0, 3);
        t.ev("upts").n("ts", ts).raw("r", "[\"" + std::string(stname(q->UpdateTimestamp(ts))) + "\"]");
      } else if (c < 84) {
        g_probe = crash;
        const Status s = q->Synchronize(r.pct(30));
        g_probe = false;
        t.ev("sync").raw("r", "[\"" + std::string(stname(s)) + "\"]");
        if (crash) t.raw("recs", probes(TakeSnap(dir)));
      } else if (c < 86) {
        t.ev("gts").raw("r", "[" + jn(q->GetTimestamp()) + "]");
      } else if (c < 87) {
        t.ev("cancel").raw("r", "[\"" + std::string(stname(q->CancelReaders())) + "\"]");
      } else if (c < 89) {
        t.ev("dump").raw("b", FileLists(prefix));
      } else if (c < 91) {
        // another process reads the files of the living queue, up to what was synchronized
        MessageQueue q2;
        const Status s = q2.Open(prefix, mfs, MessageQueue::OPEN_READ_ONLY | MessageQueue::OPEN_IGNORE_BROKEN);
        std::vector<std::pair<int64_t, int>> l;
        const std::string e = s == Status::SUCCESS ? ReadAll(&q2, true, &l) : "x";
        t.ev("rolive").raw("r", "[\"" + std::string(stname(s)) + "\",\"" + e + "\"," + Msgs(l) + "]");
      } else if (c < 94) {
        const int thr = r.in(0, now + 2);
        const std::string b = FileLists(prefix);
        const Status s = MessageQueue::RemoveOldFiles(prefix, thr, true);
        t.ev("rm").n("thr", thr).n("ex", 1).raw("b", b).raw("a", FileLists(prefix)).raw("r", "[\"" + std::string(stname(s)) + "\"]");
        rds.clear();
      } else if (c < 98) {
        g_probe = crash;
        const Status s = q->Close();
        g_probe = false;
        t.ev("close").raw("r", "[\"" + std::string(stname(s)) + "\"]");
        if (crash) t.raw("recs", probes(TakeSnap(dir)));
        open = false;
      } else {
        // the process dies: the file stays as it is
        const Snap s = TakeSnap(dir);
        q.reset();
        for (auto& x : rds) x.second.release();  // readers of a dead process
        rds.clear();
        PutSnap(dir, s);
        q = std::make_unique<MessageQueue>();
        const Status st = q->Open(prefix, mfs, opt0);
        open = st == Status::SUCCESS;
        t.ev("die").raw("r", "[\"" + std::string(stname(st)) + "\"," + jn(q->GetTimestamp()) + "]");
        if (!open) break;
      }
    }
    if (open) {
      t.ev("dump").raw("b", FileLists(prefix));
      std::vector<std::pair<int64_t, int>> l;
      const std::string e = ReadAll(q.get(), false, &l);
      t.ev("all").raw("r", "[\"" + e + "\"," + Msgs(l) + "]");
    }
    rds.clear();
    q.reset();
    alarm(0);
    fputs(t.done().c_str(), out);
  }
  WipeDir(dir, true);
  WipeDir(rdir, true);
  return 0;
}

struct Ev { int64_t ts; std::string js; };
static int RunConc(Args& a, FILE* out) {
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 20), only = a.n("only", -1);
  const std::string dir = MakeScratch();
  const std::string prefix = dir + "/q";
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    Rng r(seed * 900007 + i);
    const int mfs = r.pickn({1, 60, 200, 500, 100000});
    const int W = r.in(1, 3), RD = r.in(1, 3);
    const bool hard = r.pct(5);
    const int waitmode = r.in(0, 3);
    const int tsmode = r.in(0, 1);
    const int ending = r.in(0, 2);  // cancel, close, wait for everything
    auto q = std::make_unique<MessageQueue>();
    if (q->Open(prefix, mfs, hard ? MessageQueue::OPEN_SYNC_HARD : 0) != Status::SUCCESS) exit(3);
    g_jit = r.pickn({0, 20, 100, 300});
    std::atomic<int64_t> clk{0};
    std::atomic<int> nid{1};
    std::vector<std::vector<Ev>> evs(W + RD + 1);
    std::vector<int> mins(RD);
    for (auto& m : mins) m = r.pct(60) ? 0 : r.in(0, 20);
    std::vector<uint64_t> seeds;
    for (int x = 0; x < W + RD; x++) seeds.push_back(r.next());
    std::vector<std::unique_ptr<MessageQueue::Reader>> rds;
    std::atomic<int> writing{W};
    std::vector<std::atomic<int>> got(RD);
    for (auto& g : got) g = 0;
    std::atomic<bool> ended{false};
    Trace wd;
    Watchdog(&wd, out, 30);
    wd.ev("init").n("hangcase", i);
    for (int x = 0; x < RD; x++) rds.push_back(q->MakeReader(mins[x]));
    std::vector<std::thread> th;
    for (int w = 0; w < W; w++) th.emplace_back([&, w] {
      Rng q_(seeds[w]);
      for (int j = 0; j < nops; j++) {
        const int id = nid++;
        const int ts = tsmode ? q_.in(0, 30) : j;
        const std::string b = Body(id, q_.pct(85) ? q_.in(5, 50) : q_.in(50, 700));
        const int64_t t0 = clk++;
        evs[w].push_back({t0, "{\"o\":\"wi\",\"id\":" + jn(id) + ",\"ts\":" + jn(ts) + "}"});
        const Status s = q->Write(ts, b);
        evs[w].push_back({clk++, "{\"o\":\"wr\",\"id\":" + jn(id) + ",\"r\":\"" + stname(s) + "\"}"});
        if (q_.pct(20)) usleep(q_.in(1, 100));
        if (q_.pct(3)) q->Synchronize(false);
      }
      writing--;
    });
    for (int d = 0; d < RD; d++) th.emplace_back([&, d] {
      Rng q_(seeds[W + d]);
      int infs = 0;
      while (true) {
        const double w = waitmode == 0 ? 0 : waitmode == 1 ? -1 : waitmode == 2 ? 0.0003 : (q_.pct(50) ? -1 : q_.pct(50) ? 0 : 0.0002);
        const bool isw = q_.pct(5);
        auto& E = evs[W + d];
        const bool was = ended.load();
        const int64_t t0 = clk++;
        E.push_back({t0, "{\"o\":\"ri\",\"rd\":" + jn(d + 1) + "}"});
        int64_t ts = -1;
        std::string m = "?";
        const auto c0 = std::chrono::steady_clock::now();
        const Status s = isw ? rds[d]->Wait(w) : rds[d]->Read(&ts, &m, w);
        const int64_t el = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - c0).count();
        E.push_back({clk++, "{\"o\":\"rr\",\"rd\":" + jn(d + 1) + ",\"wt\":" + jn(isw) + ",\"r\":\"" + stname(s) + "\",\"ts\":" + jn(ts) + ",\"id\":" +
                            jn(s == Status::SUCCESS && !isw ? Decode(m) : 0) + ",\"el\":" + jn(std::min<int64_t>(el, 1000000)) + ",\"w\":" + jn((int64_t)(w * 1000000)) + "}"});
        if (s == Status::SUCCESS && !isw) got[d]++;
        if (s != Status::SUCCESS && s != Status::INFEASIBLE_ERROR) break;
        if (s == Status::INFEASIBLE_ERROR) { if (was) break; if (++infs > 60) usleep(2000); }
      }
    });
    for (int w = 0; w < W; w++) th[w].join();
    if (r.pct(50)) usleep(r.in(1, 500));
    if (r.pct(60)) {
      // every reader gets everything that was written without any further help
      std::vector<std::pair<int64_t, int>> l;
      ReadAll(q.get(), false, &l);
      for (int k = 0; k < 1300; k++) {
        bool all = true;
        for (int d = 0; d < RD; d++) {
          int64_t want = 0;
          for (auto& m : l) want += m.first >= mins[d];
          if (got[d] < want) all = false;
        }
        if (all) break;
        usleep(k < 1000 ? 200 : 10000);
      }
      evs[W + RD].push_back({clk++, "{\"o\":\"quiet\"}"});
    }
    if (ending == 2 && waitmode != 1 && waitmode != 3) {
      ended = true;
      for (int d = 0; d < RD; d++) th[W + d].join();
    } else {
      evs[W + RD].push_back({clk++, "{\"o\":\"ei\"}"});
      const Status s = ending == 1 ? q->Close() : q->CancelReaders();
      evs[W + RD].push_back({clk++, "{\"o\":\"er\",\"r\":\"" + std::string(stname(s)) + "\"}"});
      ended = true;
      for (int d = 0; d < RD; d++) th[W + d].join();
      if (ending == 1 && r.pct(50)) q = std::make_unique<MessageQueue>();
      if (ending == 1) { rds.clear(); q->Open(prefix, mfs); }
    }
    g_jit = 0;
    alarm(0);
    std::vector<std::pair<int64_t, int>> l;
    const std::string e = ReadAll(q.get(), false, &l);
    Trace t;
    JList mj;
    for (int m : mins) mj.add(jn(m));
    // position of every message in the final order
    std::vector<int> pos(nid.load(), 0);
    for (size_t x = 0; x < l.size(); x++) if (l[x].second > 0 && l[x].second < (int)pos.size()) pos[l[x].second] = x + 1;
    JList pj;
    for (size_t x = 1; x < pos.size(); x++) pj.add(jn(pos[x]));
    t.ev("init").n("R", RD).n("N", nid.load() - 1).raw("min", mj.str()).raw("order", Msgs(l)).raw("pos", pj.str()).raw("files", FileLists(prefix))
      .s("end", e).n("ending", ending).n("mfs", mfs).n("i", i);
    std::vector<Ev> all;
    for (auto& v : evs) all.insert(all.end(), v.begin(), v.end());
    std::sort(all.begin(), all.end(), [](const Ev& x, const Ev& y) { return x.ts < y.ts; });
    t.flush();
    for (auto& x : all) t.line += "," + x.js;
    t.ev("fin");
    fputs(t.done().c_str(), out);
    rds.clear();
    q.reset();
  }
  WipeDir(dir, true);
  return 0;
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  FILE* out = fopen(a.s("out", "/dev/stdout").c_str(), "w");
  const int rc = a.s("mode", "seq") == "seq" ? RunSeq(a, out) : RunConc(a, out);
  fclose(out);
  return rc;
}
