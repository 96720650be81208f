// File objects as byte arrays. The unit of the model is a cell of U bytes filled with a pattern.
// args: seed= n= ops= out= mode=seq|conc [only=]
#include "core.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <atomic>
#include <fstream>
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_pos.h"
#include "tkrzw_file_std.h"
using namespace vh;

static int U = 1;
static std::string Cell(int t) {
  std::string s(U, 0);
  if (t == 0) return s;
  for (int j = 0; j < U; j++) s[j] = (char)(t * 37 + j * 11 + (j >> 8) * 5 + 1);
  s[0] = (char)t;
  return s;
}
static std::string Enc(const Val& v) { std::string s; for (int t : v) s += Cell(t); return s; }
static Val Dec(const std::string& s) {
  Val v;
  for (size_t p = 0; p < s.size(); p += U) {
    if (s.size() - p < (size_t)U) { v.push_back(-98); break; }
    const int t = (uint8_t)s[p];
    v.push_back(memcmp(Cell(t).data(), s.data() + p, U) == 0 ? t : -99);
  }
  return v;
}
static int64_t InCells(int64_t n) { return n % U == 0 ? n / U : -990; }
static Val Toks(Rng& r, int n) { Val v; for (int i = 0; i < n; i++) v.push_back(r.in(1, 250)); return v; }
static std::string S1(const Status& s) { return "[\"" + std::string(stname(s)) + "\"]"; }

struct Conf {
  std::string cls;
  int64_t init = File::DEFAULT_ALLOC_INIT_SIZE;
  double inc = 2.0;
  int bs = 1, acc = 0;
  // Without an increasing factor, positional files don't materialize expanded space.
  void Fix() { if (cls.compare(0, 3, "pos") == 0 && inc <= 0) inc = 0.1; }
};
static std::unique_ptr<File> Make(const Conf& c) {
  std::unique_ptr<File> f;
#ifdef LANGC
  std::string q = "file=" + c.cls;
  if (c.bs > 1) q += ",block_size=" + std::to_string(c.bs);
  if (c.acc) q += std::string(",access_options=") + (c.acc & PositionalFile::ACCESS_PADDING ? "padding:" : "") + (c.acc & PositionalFile::ACCESS_PAGECACHE ? "pagecache:" : "") + (c.acc & PositionalFile::ACCESS_SYNC ? "sync" : "");
  return std::make_unique<CFile>(q);
#endif
  if (c.cls == "mmap-para") f = std::make_unique<MemoryMapParallelFile>();
  else if (c.cls == "mmap-atom") f = std::make_unique<MemoryMapAtomicFile>();
  else if (c.cls == "pos-para") f = std::make_unique<PositionalParallelFile>();
  else if (c.cls == "pos-atom") f = std::make_unique<PositionalAtomicFile>();
  else f = std::make_unique<StdFile>();
  f->SetAllocationStrategy(c.init, c.inc);
  auto* p = dynamic_cast<PositionalFile*>(f.get());
  if (p != nullptr && (c.bs > 1 || c.acc)) p->SetAccessStrategy(c.bs, c.acc);
  return f;
}

static void Seq(Rng& r, Trace& t, const std::string& dir, int nops, int idx) {
  const char* classes[] = {"mmap-para", "mmap-atom", "pos-para", "pos-atom", "std"};
  const bool padding = r.pct(15);
  const int bs = r.pct(55) ? 1 : r.pickn({512, 1024, 4096, 100});
  U = r.pickn({1, 3, 7, 64, 512, 600, 1024, 4096});
  int rbs = bs;
  if (bs == 100) rbs = 128;
  if (padding && bs > 1) U = r.pickn({64, rbs, rbs / 2});
  auto NewConf = [&]() {
    Conf c;
    c.cls = padding ? classes[2 + r.in(0, 1)] : classes[r.in(0, 4)];
    c.init = r.pickn({0, 1, 100, 4096, 10000, 1 << 20});
    c.inc = r.pickn({0, 1, 1, 2}) + r.in(0, 1) * 0.1;
    c.Fix();
#ifdef LANGC
    c.init = File::DEFAULT_ALLOC_INIT_SIZE;
    c.inc = 2.0;
#endif
    if (c.cls.compare(0, 3, "pos") == 0) {
      c.bs = bs;
      if (padding) c.acc |= PositionalFile::ACCESS_PADDING;
      if (bs > 1 && r.pct(45)) c.acc |= PositionalFile::ACCESS_PAGECACHE;
      if (r.pct(5)) c.acc |= PositionalFile::ACCESS_SYNC;
    }
    return c;
  };
  Conf c = NewConf();
  t.ev("init").n("pad", padding && bs > 1 ? rbs / U : 0).n("U", U).s("cfg", c.cls + " bs=" + std::to_string(bs)).n("i", idx);
  std::unique_ptr<File> f = Make(c);
  std::string path = dir + "/f0";
  bool open = false, writable = false, nolock = false, unlocked = false;
  int64_t len = 0;   // the generator's own idea of the size
  auto Ext = [&](bool closed) {
    unlocked = true;   // closing a descriptor of the file drops the locks of the process
    std::ifstream in(path, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    if (!closed && s.size() % U) s.resize(s.size() - s.size() % U);
    if (!closed && s.size() > (size_t)U * 300) s.resize((size_t)U * 300);
    t.ev("ext").n("cl", closed).raw("r", jv(Dec(s)));
  };
  auto Open = [&](bool w, int opts) {
    const Status s = f->Open(path, w, opts);
    t.ev("open").n("w", w).n("tr", !!(opts & File::OPEN_TRUNCATE)).n("nc", !!(opts & File::OPEN_NO_CREATE)).s("c", c.cls).n("init", c.init).n("pc", !!(c.acc & PositionalFile::ACCESS_PAGECACHE)).raw("r", S1(s));
    if (s == Status::SUCCESS) {
      open = true; unlocked = false; writable = w; nolock = opts & File::OPEN_NO_LOCK;
      f->GetSize(&len);
      len /= U;
    }
  };
  const int steps = r.in(nops / 2, nops * 3 / 2);
  for (int j = 0; j < steps; j++) {
    if (!open) {
      if (r.pct(10)) {
        JList l;
        char buf[16] = {};
        int64_t n = 0;
        std::string p;
        l.add(js(stname(f->Read(0, buf, 1)))).add(js(stname(f->Write(0, buf, 1)))).add(js(stname(f->Append(buf, 1)))).add(js(stname(f->Expand(1))))
          .add(js(stname(f->Truncate(0)))).add(js(stname(f->Synchronize(false)))).add(js(stname(f->GetSize(&n)))).add(js(stname(f->GetPath(&p))))
          .add(js(stname(f->Rename(dir + "/zz")))).add(js(stname(f->Close()))).add(js(f->IsOpen() ? "open" : "pre"));
        t.ev("closed").raw("r", l.str());
        continue;
      }
      if (r.pct(60)) {
        if (r.pct(40)) { f = f->MakeFile(); f->SetAllocationStrategy(c.init, c.inc); auto* p = dynamic_cast<PositionalFile*>(f.get()); if (p) p->SetAccessStrategy(c.bs, c.acc); }
        else { c = NewConf(); f = Make(c); }
      }
      int opts = 0;
      if (r.pct(15)) opts |= File::OPEN_NO_CREATE;
      if (r.pct(6)) opts |= File::OPEN_TRUNCATE;
      if (r.pct(15)) opts |= File::OPEN_NO_LOCK;
      if (r.pct(15)) opts |= File::OPEN_NO_WAIT;
      if (r.pct(10)) opts |= File::OPEN_SYNC_HARD;
      bool w = r.pct(80);
      Open(w, w ? opts : opts & ~File::OPEN_TRUNCATE);
      auto* p = dynamic_cast<PositionalFile*>(f.get());
      if (open && p != nullptr && r.pct(25)) {
        t.ev("head").raw("r", S1(p->SetHeadBuffer(r.pickn({U, 2 * U, 100, 128, 5 * U, 0}))));
      }
      continue;
    }
    const int q = r.in(0, 99);
    auto* mf = dynamic_cast<MemoryMapParallelFile*>(f.get());
    auto* ma = dynamic_cast<MemoryMapAtomicFile*>(f.get());
    if (q < 22) {
      const int64_t off = r.in(0, len + (r.pct(10) ? 2 : 0));
      const int n = r.pct(85) ? r.in(0, std::max<int64_t>(0, len - off)) : r.in(0, 6);
      std::string buf((size_t)n * U, 'z');
      Status s(Status::SUCCESS);
      const int v = r.in(0, 4);
      if (v == 0 && n > 0) {
        buf = f->ReadSimple(off * U, n * U);
        if (buf.empty()) s = Status(Status::INFEASIBLE_ERROR);
      } else if (v == 1 && mf != nullptr && n > 0) {
        std::unique_ptr<MemoryMapParallelFile::Zone> z;
        s = mf->MakeZone(false, off * U, n * U, &z);
        if (s == Status::SUCCESS) {
          if (z->Size() != buf.size() || z->Offset() != off * U) s = Status(Status::INFEASIBLE_ERROR);
          else buf.assign(z->Pointer(), z->Size());
        }
      } else if (v == 1 && ma != nullptr && n > 0) {
        std::unique_ptr<MemoryMapAtomicFile::Zone> z;
        s = ma->MakeZone(false, off * U, n * U, &z);
        if (s == Status::SUCCESS) {
          if (z->Size() != buf.size() || z->Offset() != off * U) s = Status(Status::INFEASIBLE_ERROR);
          else buf.assign(z->Pointer(), z->Size());
        }
      } else {
        s = f->Read(off * U, &buf[0], n * U);
      }
      t.ev("read").n("off", off).n("n", n).raw("r", "[\"" + std::string(stname(s)) + "\"," + (s == Status::SUCCESS ? jv(Dec(buf)) : "[]") + "]");
    } else if (q < 47) {
      const int64_t off = r.pct(10) ? len + r.in(0, 9) : r.in(0, len);
      const Val v = Toks(r, r.pct(10) ? r.in(0, 40) : r.in(0, 6));
      const std::string b = Enc(v);
      Status s(Status::SUCCESS);
      const int how = r.in(0, 3);
      if (how == 0 && mf != nullptr) {
        std::unique_ptr<MemoryMapParallelFile::Zone> z;
        s = mf->MakeZone(true, off * U, b.size(), &z);
        if (s == Status::SUCCESS) { if (z->Size() != b.size() || z->Offset() != off * U) s = Status(Status::UNKNOWN_ERROR); else memcpy(z->Pointer(), b.data(), b.size()); }
      } else if (how == 0 && ma != nullptr) {
        std::unique_ptr<MemoryMapAtomicFile::Zone> z;
        s = ma->MakeZone(true, off * U, b.size(), &z);
        if (s == Status::SUCCESS) { if (z->Size() != b.size() || z->Offset() != off * U) s = Status(Status::UNKNOWN_ERROR); else memcpy(z->Pointer(), b.data(), b.size()); }
      } else s = f->Write(off * U, b.data(), b.size());
      t.ev("write").n("off", off).v("v", v).raw("r", S1(s));
      if (s == Status::SUCCESS) len = std::max<int64_t>(len, off + v.size());
    } else if (q < 60) {
      const Val v = Toks(r, r.pct(10) ? r.in(0, 40) : r.in(0, 6));
      const std::string b = Enc(v);
      int64_t off = -777;
      const Status s = f->Append(b.data(), b.size(), &off);
      t.ev("append").v("v", v).raw("r", "[\"" + std::string(stname(s)) + "\"," + (s == Status::SUCCESS ? jn(InCells(off)) : "0") + "]");
      if (s == Status::SUCCESS) len += v.size();
    } else if (q < 67) {
      const int n = r.in(0, 12);
      int64_t off = -777;
      const Status s = f->Expand(n * U, &off);
      t.ev("expand").n("n", n).raw("r", "[\"" + std::string(stname(s)) + "\"," + (s == Status::SUCCESS ? jn(InCells(off)) : "0") + "]");
      if (s == Status::SUCCESS) len += n;
    } else if (q < 73) {
      const int64_t n = r.pct(60) ? r.in(0, len) : r.in(0, len + 15);
      const Status s = f->Truncate(n * U);
      t.ev("trunc").n("n", n).raw("r", S1(s));
      if (s == Status::SUCCESS) len = n;
    } else if (q < 75) {
      if (!writable) continue;
      const bool big = r.pct(30);
      const int64_t n = r.in(0, len);
      const Status s = f->TruncateFakely(big ? 1LL << 40 : n * U);
      t.ev("fake").n("n", n).n("big", big).raw("r", S1(s));
      if (s == Status::SUCCESS && !big) len = n;
    } else if (q < 81) {
      const bool part = r.pct(30);
      const Status s = f->Synchronize(r.pct(30), part ? r.in(0, len) * U : 0, part ? r.in(0, len) * U : 0);
      t.ev("sync").n("part", part).s("c", c.cls).raw("r", S1(s));
      if (s == Status::SUCCESS && !part && r.pct(60)) Ext(false);
    } else if (q < 85) {
      int64_t n = -1;
      const Status s = f->GetSize(&n);
      std::string p;
      f->GetPath(&p);
      t.ev("size").raw("r", "[\"" + std::string(stname(s)) + "\"," + jn(InCells(n)) + "," + jn(f->GetSizeSimple() == n) + "," + jn(p == path) + "," + jn(f->IsOpen()) + "]");
    } else if (q < 87) {
      const bool bad = r.pct(40);
      const std::string to = bad ? dir + "/nodir/x" : dir + "/f" + std::to_string(r.in(0, 3));
      const Status s = f->Rename(to);
      if (s == Status::SUCCESS) path = to;
      t.ev(bad ? "renamebad" : "rename").raw("r", S1(s));
      if (!f->IsOpen()) { t.ev("lost"); break; }
    } else if (q < 88) {
      t.ev("again").raw("r", S1(f->Open(path, true, 0)));
    } else if (q < 90 && c.cls != "std" && !unlocked) {
      // Another process tries to open the file.
      if (nolock && r.pct(80)) continue;
      const bool w = nolock ? false : r.pct(60);
      int pfd[2];
      if (pipe(pfd) != 0) exit(3);
      const pid_t pid = fork();
      if (pid == 0) {
        signal(SIGALRM, SIG_DFL);
        alarm(20);
        Conf c2 = c;
        auto g = Make(c2);
        const Status s = g->Open(path, w, File::OPEN_NO_WAIT | File::OPEN_NO_CREATE);
        const char ch = s == Status::SUCCESS ? 'o' : s == Status::SYSTEM_ERROR || s == Status::PERMISSION_ERROR ? 'l' : '?';
        if (write(pfd[1], &ch, 1) != 1) _exit(1);
        _exit(0);
      }
      char ch = '!';
      close(pfd[1]);
      if (read(pfd[0], &ch, 1) != 1) ch = '!';
      close(pfd[0]);
      waitpid(pid, nullptr, 0);
      t.ev("child").n("w", w).n("nl", nolock).raw("r", "[\"" + std::string(ch == 'o' ? "ok" : ch == 'l' ? "locked" : "odd") + "\"]");
    } else if (q < 91 && c.cls != "std" && !nolock && !unlocked && writable && !padding) {
      // Another process waits until the file is closed and then sees everything.
      int pfd[2];
      if (pipe(pfd) != 0) exit(3);
      const pid_t pid = fork();
      if (pid == 0) {
        signal(SIGALRM, SIG_DFL);
        alarm(20);
        auto g = Make(c);
        std::string res = "?";
        if (g->Open(path, false, 0) == Status::SUCCESS) {
          const int64_t n = g->GetSizeSimple();
          std::string b = n > 0 ? g->ReadSimple(0, n) : std::string();
          res = jv(Dec(b));
        }
        res = "r" + res;
        size_t p = 0;
        while (p < res.size()) { const ssize_t k = write(pfd[1], res.data() + p, res.size() - p); if (k <= 0) break; p += k; }
        _exit(0);
      }
      close(pfd[1]);
      usleep(3000);
      fcntl(pfd[0], F_SETFL, O_NONBLOCK);
      char ch;
      const bool early = read(pfd[0], &ch, 1) == 1;
      fcntl(pfd[0], F_SETFL, 0);
      open = false;
      t.ev("close").raw("r", S1(f->Close()));
      std::string res;
      char buf[4096];
      ssize_t k;
      while ((k = read(pfd[0], buf, sizeof buf)) > 0) res.append(buf, k);
      close(pfd[0]);
      waitpid(pid, nullptr, 0);
      if (early) res = "[-97]"; else if (res.size() < 3) res = "[-96]"; else res = res.substr(1);
      t.ev("ext").n("cl", 1).raw("r", res);
    } else if (q < 97) {
      const Status s = f->Close();
      open = false;
      t.ev("close").raw("r", S1(s));
      if (r.pct(70)) Ext(true);
    }
  }
  if (open) { t.ev("close").raw("r", S1(f->Close())); Ext(true); }
}

// ---------------------------------------------------------------- threads
static thread_local uint64_t tl_r = 1;
static std::atomic<int> g_jit{0};
static void Jit() {
  tl_r = tl_r * 6364136223846793005ULL + 1442695040888963407ULL;
  const int x = (tl_r >> 33) % 100;
  if (x < g_jit) { if (x & 1) std::this_thread::yield(); else for (volatile int i = 0; i < (int)((tl_r >> 40) % 800); i++) {} }
}
extern "C" {
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_pwrite64(int, const void*, size_t, off_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pread64(int, void*, size_t, off_t);
int __real_ftruncate(int, off_t);
int __real_ftruncate64(int, off_t);
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { Jit(); const ssize_t k = __real_pwrite(fd, b, n, o); Jit(); return k; }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { Jit(); const ssize_t k = __real_pwrite64(fd, b, n, o); Jit(); return k; }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { Jit(); const ssize_t k = __real_pread(fd, b, n, o); Jit(); return k; }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { Jit(); const ssize_t k = __real_pread64(fd, b, n, o); Jit(); return k; }
int __wrap_ftruncate(int fd, off_t n) { Jit(); const int k = __real_ftruncate(fd, n); Jit(); return k; }
int __wrap_ftruncate64(int fd, off_t n) { Jit(); const int k = __real_ftruncate64(fd, n); Jit(); return k; }
}

static void Conc(Rng& r, Trace& t, const std::string& dir, int nops, int idx) {
  const char* classes[] = {"mmap-para", "mmap-atom", "pos-para", "pos-atom", "std"};
  Conf c;
  c.cls = classes[r.in(0, 4)];
  const bool atomic = c.cls == "mmap-atom" || c.cls == "pos-atom" || c.cls == "std";
  c.init = r.pickn({0, 1, 4096, 4096, 10000});
  c.inc = r.pickn({0, 1, 1, 2}) + r.in(0, 1) * 0.1;
  c.Fix();
  U = r.pickn({1, 7, 64, 512, 600, 4096, 20000});
  if (c.cls.compare(0, 3, "pos") == 0 && r.pct(50)) {
    c.bs = r.pickn({512, 1024});
    if (r.pct(50)) c.acc |= PositionalFile::ACCESS_PAGECACHE;
    // Blocks shared by threads need the atomic class.
    if (c.cls == "pos-para" && !(c.acc & PositionalFile::ACCESS_PAGECACHE)) U = c.bs * r.in(1, 4);
  }
  const int T = r.in(2, 3);
  const int init = r.in(0, 2) * T;
  t.ev("init").n("P", T).n("at", atomic).n("U", U).s("cfg", c.cls + " bs=" + std::to_string(c.bs) + " acc=" + std::to_string(c.acc)).n("i", idx);
  auto f = Make(c);
  Status s = f->Open(dir + "/c", true, File::OPEN_TRUNCATE);
  const Val v0 = Toks(r, init);
  const std::string b0 = Enc(v0);
  if (init) s |= f->Write(0, b0.data(), b0.size());
  auto* pf = dynamic_cast<PositionalFile*>(f.get());
  if (pf != nullptr && init && r.pct(20)) s |= pf->SetHeadBuffer(U);
  t.ev("begin").v("v", v0).raw("r", S1(s));
  struct Ev { int64_t at; std::string js; };
  std::atomic<int64_t> clk{0};
  std::atomic<int> ready{0};
  std::vector<std::vector<Ev>> evs(T);
  std::vector<uint64_t> seeds;
  for (int i = 0; i < T; i++) seeds.push_back(r.next());
  g_jit = r.pickn({0, 30, 60});
  const int per = std::max(2, nops / T);
  auto Body = [&](int th) {
    Rng rr(seeds[th]);
    tl_r = seeds[th] | 1;
    struct Reg { int64_t off, n; };
    std::vector<Reg> own;
    if (init) own.push_back({(int64_t)th * init / T, init / T});
    ready.fetch_add(1);
    while (ready.load() < T) {}
    for (int j = 0; j < per; j++) {

      std::string res, pre;
      int q = rr.in(0, 99);
      if (q < 55 && !atomic && own.empty()) q = 60;
      if (q < 30) {
        int64_t off, n;
        if (atomic) { off = rr.in(0, init + 2); n = rr.in(1, 4); }
        else { const Reg g = rr.pick(own); off = g.off; n = g.n; }
        std::string buf((size_t)n * U, 'z');
        pre = "\"o\":\"read\",\"off\":" + jn(off) + ",\"n\":" + jn(n);
        const int64_t a = clk.fetch_add(1);
        const Status st = f->Read(off * U, &buf[0], n * U);
        const int64_t b = clk.fetch_add(1);
        res = "[\"" + std::string(stname(st)) + "\"," + (st == Status::SUCCESS ? jv(Dec(buf)) : "[]") + "]";
        evs[th].push_back({a, "I"}); evs[th].push_back({b, ""});
      } else if (q < 55) {
        int64_t off, n;
        if (atomic) { off = rr.in(0, init + 1); n = rr.in(1, 4); }
        else { const Reg g = rr.pick(own); off = g.off + rr.in(0, g.n - 1); n = rr.in(1, g.off + g.n - off); }
        const Val v = Toks(rr, n);
        const std::string d = Enc(v);
        pre = "\"o\":\"write\",\"off\":" + jn(off) + ",\"v\":" + jv(v);
        const int64_t a = clk.fetch_add(1);
        const Status st = f->Write(off * U, d.data(), d.size());
        const int64_t b = clk.fetch_add(1);
        res = S1(st);
        evs[th].push_back({a, "I"}); evs[th].push_back({b, ""});
      } else if (q < 78) {
        const Val v = Toks(rr, rr.in(1, 4));
        const std::string d = Enc(v);
        int64_t off = -777;
        pre = "\"o\":\"append\",\"v\":" + jv(v);
        const int64_t a = clk.fetch_add(1);
        const Status st = f->Append(d.data(), d.size(), &off);
        const int64_t b = clk.fetch_add(1);
        res = "[\"" + std::string(stname(st)) + "\"," + jn(InCells(off)) + "]";
        own.push_back({off / U, (int64_t)v.size()});
        evs[th].push_back({a, "I"}); evs[th].push_back({b, ""});
      } else if (q < 88) {
        const int n = rr.in(1, 3);
        int64_t off = -777;
        pre = "\"o\":\"expand\",\"n\":" + jn(n);
        const int64_t a = clk.fetch_add(1);
        const Status st = f->Expand(n * U, &off);
        const int64_t b = clk.fetch_add(1);
        res = "[\"" + std::string(stname(st)) + "\"," + jn(InCells(off)) + "]";
        own.push_back({off / U, n});
        evs[th].push_back({a, "I"}); evs[th].push_back({b, ""});
      } else if (q < 94 || !atomic) {
        int64_t n = -1;
        pre = "\"o\":\"size\"";
        const int64_t a = clk.fetch_add(1);
        const Status st = f->GetSize(&n);
        const int64_t b = clk.fetch_add(1);
        res = "[\"" + std::string(stname(st)) + "\"," + jn(InCells(n)) + "]";
        evs[th].push_back({a, "I"}); evs[th].push_back({b, ""});
      } else if (q < 97) {
        const bool h = rr.pct(30);
        pre = "\"o\":\"sync\"";
        const int64_t a = clk.fetch_add(1);
        const Status st = f->Synchronize(h);
        const int64_t b = clk.fetch_add(1);
        res = S1(st);
        evs[th].push_back({a, "I"}); evs[th].push_back({b, ""});
      } else {
        const int64_t n = rr.in(0, init + 3);
        pre = "\"o\":\"trunc\",\"n\":" + jn(n);
        const int64_t a = clk.fetch_add(1);
        const Status st = f->Truncate(n * U);
        const int64_t b = clk.fetch_add(1);
        res = S1(st);
        evs[th].push_back({a, "I"}); evs[th].push_back({b, ""});
      }
      auto& E = evs[th];
      E[E.size() - 2].js = "{\"o\":\"inv\",\"id\":" + jn(th + 1) + ",\"op\":{" + pre + ",\"r\":" + res + "}}";
      E[E.size() - 1].js = "{\"o\":\"ret\",\"id\":" + jn(th + 1) + "}";
    }
  };
  std::vector<std::thread> ths;
  for (int i = 0; i < T; i++) ths.emplace_back(Body, i);
  for (auto& x : ths) x.join();
  g_jit = 0;
  std::vector<Ev> all;
  for (auto& e : evs) for (auto& x : e) if (!x.js.empty()) all.push_back(x);
  std::sort(all.begin(), all.end(), [](const Ev& a, const Ev& b) { return a.at < b.at; });
  t.flush();
  for (auto& e : all) { t.line += "," + e.js; t.events++; }
  int64_t n = f->GetSizeSimple();
  t.ev("final").raw("r", jv(Dec(n > 0 ? f->ReadSimple(0, n) : std::string())));
  s = f->Close();
  std::ifstream in(dir + "/c", std::ios::binary);
  std::string d((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  t.ev("final").raw("r", s == Status::SUCCESS ? jv(Dec(d)) : "[-95]");
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 60), only = a.n("only", -1);
  FILE* out = fopen(a.s("out", "/dev/stdout").c_str(), "w");
  const std::string dir = MakeScratch();
  const bool conc = a.s("mode", "seq") == "conc";
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    Rng r(seed * 5000011 + i);
    SeedTrace(seed * 1000 + i);
    Trace t;
    Watchdog(&t, out, 30);
    if (conc) Conc(r, t, dir, nops, i);
    else Seq(r, t, dir, nops, i);
    fputs(t.done().c_str(), out);
    fflush(out);
  }
  fclose(out);
  WipeDir(dir, true);
  return 0;
}
