// Crash simulation: wraps every File object which the library makes through PolyFile, and the system calls
// that change directory entries or make data durable. Before every mutating step the directory may be
// photographed; a photograph is what a process crash at that instant leaves behind. With loss enabled,
// data not yet made durable by fsync/msync is dropped at random in the photograph.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include "core.h"
#include "tkrzw_file.h"
#include "tkrzw_file_poly.h"
#include "tkrzw_file_pos.h"

namespace vh {
typedef std::map<std::string, std::string> Snap;  // file name -> bytes

inline std::string ReadAll(const std::string& path) {
  std::string s;
  const int fd = open(path.c_str(), O_RDONLY);
  if (fd < 0) return s;
  struct stat st;
  if (fstat(fd, &st) == 0) {
    s.resize(st.st_size);
    size_t p = 0;
    while (p < s.size()) {
      const ssize_t n = pread(fd, &s[p], s.size() - p, p);
      if (n <= 0) break;
      p += n;
    }
    s.resize(p);
  }
  close(fd);
  return s;
}
inline Snap SnapDir(const std::string& dir) {
  Snap m;
  DIR* d = opendir(dir.c_str());
  if (!d) return m;
  while (dirent* e = readdir(d)) {
    const std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    m[n] = ReadAll(dir + "/" + n);
  }
  closedir(d);
  return m;
}
inline void PutDir(const std::string& dir, const Snap& m) {
  WipeDir(dir, false);
  for (auto& x : m) {
    const int fd = open((dir + "/" + x.first).c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644);
    if (fd < 0) { perror("PutDir"); exit(3); }
    size_t p = 0;
    while (p < x.second.size()) {
      const ssize_t n = pwrite(fd, x.second.data() + p, x.second.size() - p, p);
      if (n <= 0) { perror("PutDir"); exit(3); }
      p += n;
    }
    close(fd);
  }
}

struct CrashSim {
  bool on = false;           // inside an operation under observation
  std::string dir;
  Rng* r = nullptr;
  int pct = 100;             // probability of taking each photograph
  int cap = 6;               // at most this many per operation
  bool tornhead = true;      // also of the metadata
  bool torn = false;         // also photographs with partly done appends
  bool strict = false;       // lose even the mark of not being closed
  bool loss = false;         // lose data which is not durable
  int64_t alloc_init = 0;
  double alloc_inc = 2;
  int64_t points = 0;        // crash points seen
  int fail_at = -1;          // fault injection: the n-th write from now fails
  int64_t fails = 0;
  void (*yield)() = nullptr;  // instead of photographs: let other threads run
  std::vector<Snap> shots;
  // Durable state: contents by name, as of the last synchronization of each file.
  Snap durable;
  void Reset() { shots.clear(); }
  bool Fault() {
    if (!on || fail_at < 0) return false;
    if (fail_at-- == 0) { fails++; return true; }
    return false;
  }
  static std::string Base(const std::string& p) {
    const size_t q = p.rfind('/');
    return q == std::string::npos ? p : p.substr(q + 1);
  }
  bool Mine(const std::string& p) const { return p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0; }
  void Keep(Snap s) {
    if ((int)shots.size() < cap) { shots.push_back(std::move(s)); return; }
    // reservoir
    const int64_t j = r->in(0, points);
    if (j < cap) shots[j] = std::move(s);
  }
  Snap Lose(const Snap& cur) {
    Snap s = cur;
    const int mode = r->in(0, 3);
    for (auto& x : s) {
      auto it = durable.find(x.first);
      const std::string old = it == durable.end() ? std::string() : it->second;
      std::string& now = x.second;
      // The mark of not being closed is assumed to reach the disk before later updates (see DESIGN.md).
      const std::string head = now.substr(0, 128);
      if (mode == 0) {
        now = old;
        if (!old.empty() && !strict) memcpy(&now[0], head.data(), std::min(head.size(), now.size()));
        continue;
      }
      if (mode == 1) continue;
      size_t size = now.size();
      if (size > old.size() && r->pct(40)) size = r->pct(50) ? old.size() : old.size() + r->in(0, size - old.size());
      const int keep = mode == 2 ? 50 : r->in(5, 95);
      std::string res = now;
      res.resize(size);
      for (size_t p = 0; p < size; p += 512) {
        if (r->pct(keep)) continue;
        for (size_t q = std::max<size_t>(p, strict ? 0 : 128); q < std::min(size, p + 512); q++) res[q] = q < old.size() ? old[q] : 0;
      }
      now = std::move(res);
    }
    return s;
  }
  void Point() {
    if (yield) { yield(); return; }
    if (!on) return;
    points++;
    if ((int)shots.size() >= cap && !r->pct(30)) return;
    if (!r->pct(pct)) return;
    Snap s = SnapDir(dir);
    if (loss) s = Lose(s);
    Keep(std::move(s));
  }
  // A crash in the middle of a write at `off`: only a prefix of the data got there.
  void TornPoint(const std::string& path, int64_t off, const char* buf, size_t size) {
    // A few first bytes of a record cannot be told from a complete empty record by any checksum.
    const size_t least = off == 0 ? 1 : 8;
    if (!on || !torn || size <= least || (off == 0 && !tornhead) || !Mine(path)) return;
    points++;
    if (!r->pct(pct)) return;
    Snap s = SnapDir(dir);
    std::string& f = s[Base(path)];
    const size_t part = r->in(least, size - 1);
    if (r->pct(50) && f.size() < off + size) f.resize(off + size);
    if (f.size() < off + part) f.resize(off + part);
    memcpy(&f[off], buf, part);
    Keep(std::move(s));
  }
  void Durable(const std::string& path, int64_t off, int64_t len) {
    if (!Mine(path)) return;
    const std::string now = ReadAll(path);
    std::string& d = durable[Base(path)];
    if (len <= 0) { d = now; return; }
    if (d.size() < now.size()) d.resize(now.size());
    for (int64_t i = off; i < off + len && i < (int64_t)now.size(); i++) d[i] = now[i];
  }
  void Renamed(const std::string& a, const std::string& b) {
    auto it = durable.find(Base(a));
    const std::string d = it == durable.end() ? std::string() : it->second;
    durable[Base(b)] = d;
    durable.erase(Base(a));
  }
};
inline CrashSim* g_sim = nullptr;
}  // namespace vh

namespace tkrzw {
template <class BASE>
class HookFileT : public BASE {
 public:
  explicit HookFileT(std::unique_ptr<File> f) : f_(std::move(f)) {}
  Status Open(const std::string& path, bool writable, int32_t options = File::OPEN_DEFAULT) override {
    if (writable) P();
    const Status s = f_->Open(path, writable, options);
    return s;
  }
  Status Close() override { P(); return f_->Close(); }
  Status Read(int64_t off, void* buf, size_t size) override {
    if (vh::g_sim && vh::g_sim->yield) vh::g_sim->yield();
    return f_->Read(off, buf, size);
  }
  Status Write(int64_t off, const void* buf, size_t size) override {
    if (vh::g_sim && vh::g_sim->Fault()) return Status(Status::SYSTEM_ERROR, "injected");
    P();
    if (off + (int64_t)size > f_->GetSizeSimple() || off == 0) T(off, buf, size);
    return f_->Write(off, buf, size);
  }
  Status Append(const void* buf, size_t size, int64_t* off = nullptr) override {
    if (vh::g_sim && vh::g_sim->Fault()) return Status(Status::SYSTEM_ERROR, "injected");
    P();
    T(f_->GetSizeSimple(), buf, size);
    return f_->Append(buf, size, off);
  }
  Status Expand(size_t inc, int64_t* old_size = nullptr) override { P(); return f_->Expand(inc, old_size); }
  Status Truncate(int64_t size) override { P(); return f_->Truncate(size); }
  Status TruncateFakely(int64_t size) override { P(); return f_->TruncateFakely(size); }
  Status Synchronize(bool hard, int64_t off = 0, int64_t size = 0) override {
    if (vh::g_sim && vh::g_sim->Fault()) return Status(Status::SYSTEM_ERROR, "injected");
    P();
    return f_->Synchronize(hard, off, size);
  }
  Status GetSize(int64_t* size) override { return f_->GetSize(size); }
  Status SetAllocationStrategy(int64_t a, double b) override { return f_->SetAllocationStrategy(a, b); }
  Status CopyProperties(File* file) override {
    if (auto* h = dynamic_cast<HookFileT<BASE>*>(file)) return f_->CopyProperties(h->f_.get());
    return f_->CopyProperties(file);
  }
  Status GetPath(std::string* path) override { return f_->GetPath(path); }
  Status Rename(const std::string& p) override { return f_->Rename(p); }
  Status DisablePathOperations() override { return f_->DisablePathOperations(); }
  bool IsOpen() const override { return f_->IsOpen(); }
  bool IsMemoryMapping() const override { return f_->IsMemoryMapping(); }
  bool IsAtomic() const override { return f_->IsAtomic(); }
 protected:
  void P() { if (vh::g_sim) vh::g_sim->Point(); }
  void T(int64_t off, const void* buf, size_t size) {
    if (!vh::g_sim || !vh::g_sim->torn) return;
    std::string p;
    if (f_->GetPath(&p) == Status::SUCCESS) vh::g_sim->TornPoint(p, off, (const char*)buf, size);
  }
  std::unique_ptr<File> f_;
};
class HookFile final : public HookFileT<File> {
 public:
  using HookFileT<File>::HookFileT;
  std::unique_ptr<File> MakeFile() const override { return std::make_unique<HookFile>(f_->MakeFile()); }
};
class HookPosFile final : public HookFileT<PositionalFile> {
 public:
  using HookFileT<PositionalFile>::HookFileT;
  std::unique_ptr<File> MakeFile() const override { return std::make_unique<HookPosFile>(f_->MakeFile()); }
  Status SetHeadBuffer(int64_t size) override { return Pf()->SetHeadBuffer(size); }
  Status SetAccessStrategy(int64_t b, int32_t o) override { return Pf()->SetAccessStrategy(b, o); }
  int64_t GetBlockSize() const override { return Pf()->GetBlockSize(); }
  bool IsDirectIO() const override { return Pf()->IsDirectIO(); }
 private:
  PositionalFile* Pf() const { return static_cast<PositionalFile*>(f_.get()); }
};
inline std::unique_ptr<File> HookOf(std::unique_ptr<File> f) {
  if (f == nullptr || vh::g_sim == nullptr) return f;
  if (vh::g_sim->alloc_init > 0) f->SetAllocationStrategy(vh::g_sim->alloc_init, vh::g_sim->alloc_inc);
  if (dynamic_cast<PositionalFile*>(f.get()) != nullptr) return std::make_unique<HookPosFile>(std::move(f));
  return std::make_unique<HookFile>(std::move(f));
}
}  // namespace tkrzw

#ifdef CRASHSIM_IMPL
#define MFI "_ZN5tkrzw8PolyFile16MakeFileInstanceEPSt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES7_St4lessIS7_ESaISt4pairIKS7_S7_EEE"
namespace tkrzw {
typedef std::map<std::string, std::string> SSMap;
std::unique_ptr<File> RealMakeFileInstance(SSMap* params) __asm__("__real_" MFI);
std::unique_ptr<File> WrapMakeFileInstance(SSMap* params) __asm__("__wrap_" MFI);
std::unique_ptr<File> WrapMakeFileInstance(SSMap* params) { return HookOf(RealMakeFileInstance(params)); }
}  // namespace tkrzw
static std::string FdPath(int fd) {
  char b[64], o[4096];
  snprintf(b, sizeof b, "/proc/self/fd/%d", fd);
  const ssize_t n = readlink(b, o, sizeof o);
  return n > 0 ? std::string(o, n) : "";
}
extern "C" {
int __real_rename(const char* a, const char* b);
int __real_unlink(const char* a);
int __real_fsync(int fd);
int __real_fdatasync(int fd);
int __real_msync(void* p, size_t n, int fl);
int __wrap_rename(const char* a, const char* b) {
  if (vh::g_sim) vh::g_sim->Point();
  const int rv = __real_rename(a, b);
  if (rv == 0 && vh::g_sim && vh::g_sim->loss) vh::g_sim->Renamed(a, b);
  return rv;
}
int __wrap_unlink(const char* a) {
  if (vh::g_sim) vh::g_sim->Point();
  return __real_unlink(a);
}
int __wrap_fsync(int fd) {
  const int rv = vh::g_sim && vh::g_sim->dir.compare(0, 8, "/dev/shm") == 0 ? 0 : __real_fsync(fd);
  if (rv == 0 && vh::g_sim && vh::g_sim->loss) vh::g_sim->Durable(FdPath(fd), 0, 0);
  return rv;
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __real_sync_file_range(int fd, off_t off, off_t n, unsigned int fl);
int __wrap_sync_file_range(int fd, off_t off, off_t n, unsigned int fl) {
  const int rv = vh::g_sim && vh::g_sim->dir.compare(0, 8, "/dev/shm") == 0 ? 0 : __real_sync_file_range(fd, off, n, fl);
  if (rv == 0 && vh::g_sim && vh::g_sim->loss) vh::g_sim->Durable(FdPath(fd), off, n);
  return rv;
}
int __wrap_msync(void* p, size_t n, int fl) {
  const int rv = __real_msync(p, n, fl);
  if (rv == 0 && (fl & MS_SYNC) && vh::g_sim && vh::g_sim->loss) {
    FILE* f = fopen("/proc/self/maps", "r");
    char line[8192];
    while (f && fgets(line, sizeof line, f)) {
      unsigned long lo, hi, off;
      char perm[8], path[4096] = "";
      if (sscanf(line, "%lx-%lx %7s %lx %*s %*s %4095s", &lo, &hi, perm, &off, path) < 4) continue;
      if ((unsigned long)p >= lo && (unsigned long)p < hi) {
        vh::g_sim->Durable(path, (unsigned long)p - lo + off, n);
        break;
      }
    }
    if (f) fclose(f);
  }
  return rv;
}
}
#endif
