// The C interface behind the C++ interface: every DBM and iterator virtual is a call of tkrzw_langc.h,
// chosen at random among the equivalent functions (direct, asynchronous, with or without returned data),
// so that the drivers and specifications of the C++ interface decide the C interface too.
// Strings are passed as unterminated copies, or terminated ones with a negative size; everything the
// library returns is kept for a while and compared with what it was before it is freed.
#pragma once
#include <deque>
extern "C" {
#include "tkrzw_langc.h"
}
#include "tkrzw_dbm_poly.h"
#include "tkrzw_file_poly.h"
#include "tkrzw_index.h"
#include "tkrzw_dbm_shard.h"
namespace vh {

struct LState {
  Rng r{1};
  int bad = 0;
  std::string why;
  struct Kept { void* p; std::vector<std::pair<const char*, std::string>> parts; int kind; int n; };  // 0 free, 1 str array, 2 map
  std::deque<Kept> kept;
  void fail(const std::string& w) { bad++; if (getenv("LANGC_WHY")) fprintf(stderr, "langc: %s\n", w.c_str()); if (why.empty()) why = w; }
  void release(Kept& k) {
    for (auto& x : k.parts)
      if (memcmp(x.first, x.second.data(), x.second.size()) != 0 || x.first[x.second.size()] != 0) fail("returned data changed or unterminated");
    if (k.kind == 0) free(k.p);
    else if (k.kind == 1) tkrzw_free_str_array((TkrzwStr*)k.p, k.n);
    else tkrzw_free_str_map((TkrzwKeyValuePair*)k.p, k.n);
  }
  void keep(Kept k) {
    kept.push_back(std::move(k));
    const size_t cap = 6;
    while (kept.size() > cap) { release(kept.front()); kept.pop_front(); }
  }
  void drain() { while (!kept.empty()) { release(kept.front()); kept.pop_front(); } }
};
inline LState& LS() { static LState s; return s; }

// An argument: an exact copy in its own allocation, which is destroyed after the call.
struct CArg {
  std::vector<std::unique_ptr<char[]>> bufs;
  struct S { const char* p; int32_t n; };
  S operator()(std::string_view s) {
    const bool term = s.find('\0') == std::string_view::npos && LS().r.pct(30);
    std::unique_ptr<char[]> b(new char[s.size() + (term ? 1 : 0) + (s.empty() && !term ? 1 : 0)]);
    memcpy(b.get(), s.data() ? s.data() : "", s.size());
    if (term) b[s.size()] = 0;
    S r{b.get(), term ? -1 : (int32_t)s.size()};
    bufs.push_back(std::move(b));
    return r;
  }
  ~CArg() { clear(); }
  void clear() { bufs.clear(); }
};
inline Status CLast() {
  const TkrzwStatus st = tkrzw_get_last_status();
  if (st.code != tkrzw_get_last_status_code()) LS().fail("status code");
  const std::string msg = st.message;
  if (msg != tkrzw_get_last_status_message()) LS().fail("status message");
  return Status((Status::Code)st.code, msg);
}
// Before each call the last status is set to something the call must replace.
inline void CPoison() { tkrzw_set_last_status(TKRZW_STATUS_NETWORK_ERROR, "poison"); }
inline Status CRes(bool rv) {
  Status st = CLast();
  if (rv != (st == Status::SUCCESS)) { LS().fail("result and last status differ"); return Status(Status::APPLICATION_ERROR); }
  if (LS().bad) return Status(Status::APPLICATION_ERROR, LS().why);
  return st;
}
inline std::string CTake(char* p, int32_t n) {
  if (!p) { LS().fail("null result"); return ""; }
  if (n < 0) { LS().fail("negative size"); return ""; }
  std::string s(p, n);
  LS().keep({p, {{p, s}}, 0, 0});
  return s;
}
inline std::map<std::string, std::string> CTakeMap(TkrzwKeyValuePair* a, int32_t n, std::vector<std::pair<std::string, std::string>>* ord = nullptr) {
  std::map<std::string, std::string> m;
  if (!a) { LS().fail("null map"); return m; }
  LState::Kept k{a, {}, 2, n};
  for (int i = 0; i < n; i++) {
    std::string key(a[i].key_ptr, a[i].key_size), val(a[i].value_ptr, a[i].value_size);
    k.parts.emplace_back(a[i].key_ptr, key);
    k.parts.emplace_back(a[i].value_ptr, val);
    if (ord) ord->emplace_back(key, val);
    else {
      TkrzwKeyValuePair* hit = tkrzw_search_str_map(a, n, a[i].key_ptr, a[i].key_size);
      if (hit != a + i) LS().fail("search_str_map");
      if (!m.emplace(key, val).second) LS().fail("repeated key in map");
    }
  }
  LS().keep(std::move(k));
  return m;
}
inline std::vector<std::string> CTakeArr(TkrzwStr* a, int32_t n) {
  std::vector<std::string> v;
  if (!a) { LS().fail("null array"); return v; }
  LState::Kept k{a, {}, 1, n};
  for (int i = 0; i < n; i++) {
    v.emplace_back(a[i].ptr, a[i].size);
    k.parts.emplace_back(a[i].ptr, v.back());
  }
  LS().keep(std::move(k));
  return v;
}

struct CProc {
  DBM::RecordProcessor* p;
  std::string_view expkey;
  bool each = false, bykey = false;
  int calls = 0;
  std::string out;
  static const char* call(void* arg, const char* kp, int32_t ks, const char* vp, int32_t vs, int32_t* ns) {
    CProc* c = (CProc*)arg;
    c->calls++;
    std::string key, val;
    if (kp) { key.assign(kp, ks); }
    else if (!c->each || ks >= 0) LS().fail("callback without key");
    if (kp && c->bykey && key != c->expkey) LS().fail("callback with another key");
    std::string_view r;
    if (vp == nullptr) {
      if (vs != -1 && !(c->each)) LS().fail("callback size without value");
      r = c->p->ProcessEmpty(key);
    } else {
      val.assign(vp, vs);
      r = c->p->ProcessFull(key, val);
    }
    if (r.data() == DBM::RecordProcessor::NOOP.data()) return TKRZW_REC_PROC_NOOP;
    if (r.data() == DBM::RecordProcessor::REMOVE.data()) return TKRZW_REC_PROC_REMOVE;
    c->out.assign(r);
    *ns = c->out.size();
    return c->out.data();
  }
};

class CIter : public DBM::Iterator {
 public:
  TkrzwDBMIter* it;
  explicit CIter(TkrzwDBMIter* i) : it(i) {}
  ~CIter() { tkrzw_dbm_iter_free(it); }
  Status First() override { CPoison(); return CRes(tkrzw_dbm_iter_first(it)); }
  Status Last() override { CPoison(); return CRes(tkrzw_dbm_iter_last(it)); }
  Status Jump(std::string_view k) override { CArg a; auto x = a(k); CPoison(); const bool b = tkrzw_dbm_iter_jump(it, x.p, x.n); a.clear(); return CRes(b); }
  Status JumpLower(std::string_view k, bool inc) override { CArg a; auto x = a(k); CPoison(); return CRes(tkrzw_dbm_iter_jump_lower(it, x.p, x.n, inc)); }
  Status JumpUpper(std::string_view k, bool inc) override { CArg a; auto x = a(k); CPoison(); return CRes(tkrzw_dbm_iter_jump_upper(it, x.p, x.n, inc)); }
  Status Next() override { CPoison(); return CRes(tkrzw_dbm_iter_next(it)); }
  Status Previous() override { CPoison(); return CRes(tkrzw_dbm_iter_previous(it)); }
  Status Process(DBM::RecordProcessor* p, bool w) override {
    CProc c; c.p = p;
    CPoison();
    return CRes(tkrzw_dbm_iter_process(it, CProc::call, &c, w));
  }
  Status Process(DBM::RecordLambdaType f, bool w) override { DBM::RecordProcessorLambda p(f); return Process(&p, w); }
  static void Out(bool rv, char* kp, int32_t ks, char* vp, int32_t vs, std::string* key, std::string* value) {
    if (!rv) return;
    if (key) *key = CTake(kp, ks);
    if (value) *value = CTake(vp, vs);
  }
  Status Get(std::string* key, std::string* value) override {
    char *kp = nullptr, *vp = nullptr;
    int32_t ks = -7, vs = -7;
    CPoison();
    bool rv;
    if (key && !value && LS().r.pct(40)) { kp = tkrzw_dbm_iter_get_key(it, &ks); rv = kp != nullptr; }
    else if (value && !key && LS().r.pct(40)) { vp = tkrzw_dbm_iter_get_value(it, &vs); rv = vp != nullptr; }
    else rv = tkrzw_dbm_iter_get(it, key ? &kp : nullptr, key ? &ks : nullptr, value ? &vp : nullptr, value ? &vs : nullptr);
    const Status st = CRes(rv);
    Out(rv, kp, ks, vp, vs, key, value);
    return st;
  }
  std::string GetKey(std::string_view d) override { std::string s; return Get(&s, nullptr) == Status::SUCCESS ? s : std::string(d); }
  std::string GetValue(std::string_view d) override { std::string s; return Get(nullptr, &s) == Status::SUCCESS ? s : std::string(d); }
  void Before(std::string* k, std::string* v) {
    if (!k && !v) return;
    std::string a, b;
    if (Get(&a, &b) == Status::SUCCESS) { if (k) *k = a; if (v) *v = b; }
  }
  Status Set(std::string_view v, std::string* ok, std::string* ov) override {
    Before(ok, ov);
    CArg a; auto x = a(v);
    CPoison();
    const bool rv = tkrzw_dbm_iter_set(it, x.p, x.n);
    return CRes(rv);
  }
  Status Remove(std::string* ok, std::string* ov) override { Before(ok, ov); CPoison(); return CRes(tkrzw_dbm_iter_remove(it)); }
  Status Step(std::string* key, std::string* value) override {
    char *kp = nullptr, *vp = nullptr;
    int32_t ks = -7, vs = -7;
    CPoison();
    const bool rv = tkrzw_dbm_iter_step(it, key ? &kp : nullptr, key ? &ks : nullptr, value ? &vp : nullptr, value ? &vs : nullptr);
    const Status st = CRes(rv);
    Out(rv, kp, ks, vp, vs, key, value);
    return st;
  }
};

class CDBM : public ParamDBM {
 public:
  TkrzwDBM* h = nullptr;
  TkrzwAsyncDBM* as = nullptr;
  bool shard;
  explicit CDBM(bool s) : shard(s) {}
  ~CDBM() { if (h) Close(); }
  Rng& R() const { return LS().r; }
  static Status Pre() { return Status(Status::PRECONDITION_ERROR, "not opened"); }
  static std::string PS(const std::map<std::string, std::string>& m) {
    std::string s;
    for (auto& x : m) s += (s.empty() ? "" : ",") + x.first + "=" + x.second;
    return s;
  }
  bool async(int pct = 35) {
    if (!h || !R().pct(pct)) return false;
    if (!as) as = tkrzw_async_dbm_new(h, R().in(1, 3));
    return true;
  }
  // Takes a future's bare status.
  Status Fut(TkrzwFuture* f) {
    if (!f) { LS().fail("null future"); return Status(Status::APPLICATION_ERROR); }
    if (R().pct(30)) { if (!tkrzw_future_wait(f, R().pct(50) ? -1 : 20)) LS().fail("future_wait"); }
    CPoison();
    tkrzw_future_get(f);
    const Status st = CLast();
    tkrzw_future_free(f);
    if (LS().bad) return Status(Status::APPLICATION_ERROR, LS().why);
    return st;
  }
  TkrzwFuture* W(TkrzwFuture* f) {
    if (R().pct(30) && !tkrzw_future_wait(f, R().pct(50) ? -1 : 20)) LS().fail("future_wait");
    CPoison();
    return f;
  }
  Status Fin(TkrzwFuture* f) {
    const Status st = CLast();
    tkrzw_future_free(f);
    if (LS().bad) return Status(Status::APPLICATION_ERROR, LS().why);
    return st;
  }
  Status Open(const std::string& path, bool w, int32_t o) override { return OpenAdvanced(path, w, o, {}); }
  Status OpenAdvanced(const std::string& path, bool w, int32_t o, const std::map<std::string, std::string>& params) override {
    if (h) return Pre();
    auto p = params;
    if (shard && !p.count("num_shards")) p["num_shards"] = "0";
    if (o & File::OPEN_TRUNCATE) p["truncate"] = "true";
    if (o & File::OPEN_NO_CREATE) p["no_create"] = "1";
    if (o & File::OPEN_NO_WAIT) p["no_wait"] = "true";
    if (o & File::OPEN_NO_LOCK) p["no_lock"] = "true";
    if (o & File::OPEN_SYNC_HARD) p["sync_hard"] = "true";
    CPoison();
    h = tkrzw_dbm_open(path.c_str(), w, PS(p).c_str());
    if (h && CRes(true) == Status::SUCCESS && tkrzw_dbm_is_writable(h) != X()->IsWritable()) LS().fail("is_writable");
    return CRes(h != nullptr);
  }
  Status Close() override {
    if (!h) return Pre();
    if (as) { tkrzw_async_dbm_free(as); as = nullptr; }
    CPoison();
    const bool rv = tkrzw_dbm_close(h);
    h = nullptr;
    const Status st = CRes(rv);
    LS().drain();
    return st;
  }
  Status Process(std::string_view k, DBM::RecordProcessor* p, bool w) override {
    if (!h) return Pre();
    CArg a; auto x = a(k);
    CProc c; c.p = p; c.bykey = true; c.expkey = k;
    CPoison();
    return CRes(tkrzw_dbm_process(h, x.p, x.n, CProc::call, &c, w));
  }
  Status Process(std::string_view k, RecordLambdaType f, bool w) override { RecordProcessorLambda p(f); return Process(k, &p, w); }
  bool Peek(std::string_view k, std::string* v) {
    CArg a; auto x = a(k);
    int32_t n = -7;
    char* p = tkrzw_dbm_get(h, x.p, x.n, &n);
    if (!p) return false;
    if (v) v->assign(p, n);
    free(p);
    return true;
  }
  Status Get(std::string_view k, std::string* v) override {
    if (!h) return Pre();
    CArg a; auto x = a(k);
    if (v == nullptr) { 
      if (R().pct(80)) { const bool rv = tkrzw_dbm_check(h, x.p, x.n); return CRes(rv); }
    }
    int32_t n = -7;
    if (async()) {
      TkrzwFuture* f = tkrzw_async_dbm_get(as, x.p, x.n);
      a.clear();
      W(f);
      char* p = tkrzw_future_get_str(f, &n);
      const Status st = Fin(f);
      const std::string s = CTake(p, n);
      if (st == Status::SUCCESS && v) *v = s;
      return st;
    }
    CPoison();
    char* p = tkrzw_dbm_get(h, x.p, x.n, &n);
    const Status st = CRes(p != nullptr);
    if (p) { const std::string s = CTake(p, n); if (v) *v = s; }
    return st;
  }
  std::string GetSimple(std::string_view k, std::string_view d) override { std::string s; return Get(k, &s) == Status::SUCCESS ? s : std::string(d); }
  Status GetMulti(const std::vector<std::string>& ks, std::map<std::string, std::string>* m) override {
    if (!h) return Pre();
    CArg a;
    std::vector<TkrzwStr> v;
    for (auto& k : ks) { auto x = a(k); v.push_back({x.p, x.n}); }
    v.push_back({});
    int32_t n = -7;
    if (async()) {
      TkrzwFuture* f = tkrzw_async_dbm_get_multi(as, v.data(), ks.size());
      a.clear();
      W(f);
      auto* r = tkrzw_future_get_str_map(f, &n);
      const Status st = Fin(f);
      *m = CTakeMap(r, n);
      return st;
    }
    CPoison();
    auto* r = tkrzw_dbm_get_multi(h, v.data(), ks.size(), &n);
    const Status st = CLast();
    *m = CTakeMap(r, n);
    return LS().bad ? Status(Status::APPLICATION_ERROR, LS().why) : st;
  }
  Status Set(std::string_view k, std::string_view v, bool ow, std::string* old) override {
    if (!h) return Pre();
    CArg a; auto x = a(k); auto y = a(v);
    const int q = R().in(0, 2);
    if (old && q == 0) {
      int32_t n = -7;
      CPoison();
      char* p = tkrzw_dbm_set_and_get(h, x.p, x.n, y.p, y.n, ow, &n);
      const Status st = CLast();
      if (p) { *old = CTake(p, n); }
      return LS().bad ? Status(Status::APPLICATION_ERROR, LS().why) : st;
    }
    if (old) Peek(k, old);
    if (async()) {
      TkrzwFuture* f = tkrzw_async_dbm_set(as, x.p, x.n, y.p, y.n, ow);
      a.clear();
      return Fut(f);
    }
    CPoison();
    const bool rv = tkrzw_dbm_set(h, x.p, x.n, y.p, y.n, ow);
    return CRes(rv);
  }
  std::vector<TkrzwKeyValuePair> Recs(CArg& a, const std::map<std::string, std::string>& m) {
    std::vector<TkrzwKeyValuePair> v;
    for (auto& r : m) { auto x = a(r.first); auto y = a(r.second); v.push_back({x.p, x.n, y.p, y.n}); }
    if (R().pct(50)) std::reverse(v.begin(), v.end());
    v.push_back({});
    return v;
  }
  Status SetMulti(const std::map<std::string, std::string>& m, bool ow) override {
    if (!h) return Pre();
    CArg a;
    auto v = Recs(a, m);
    if (async()) { TkrzwFuture* f = tkrzw_async_dbm_set_multi(as, v.data(), m.size(), ow); a.clear(); return Fut(f); }
    CPoison();
    return CRes(tkrzw_dbm_set_multi(h, v.data(), m.size(), ow));
  }
  Status Remove(std::string_view k, std::string* old) override {
    if (!h) return Pre();
    CArg a; auto x = a(k);
    if (old && R().pct(40)) {
      int32_t n = -7;
      CPoison();
      char* p = tkrzw_dbm_remove_and_get(h, x.p, x.n, &n);
      const Status st = CRes(p != nullptr);
      if (p) *old = CTake(p, n);
      return st;
    }
    if (old) Peek(k, old);
    if (async()) { TkrzwFuture* f = tkrzw_async_dbm_remove(as, x.p, x.n); a.clear(); return Fut(f); }
    CPoison();
    return CRes(tkrzw_dbm_remove(h, x.p, x.n));
  }
  Status RemoveMulti(const std::vector<std::string>& ks) override {
    if (!h) return Pre();
    CArg a;
    std::vector<TkrzwStr> v;
    for (auto& k : ks) { auto x = a(k); v.push_back({x.p, x.n}); }
    v.push_back({});
    if (async()) { TkrzwFuture* f = tkrzw_async_dbm_remove_multi(as, v.data(), ks.size()); a.clear(); return Fut(f); }
    CPoison();
    return CRes(tkrzw_dbm_remove_multi(h, v.data(), ks.size()));
  }
  Status Append(std::string_view k, std::string_view v, std::string_view d) override {
    if (!h) return Pre();
    CArg a; auto x = a(k); auto y = a(v); auto z = a(d);
    if (async()) { TkrzwFuture* f = tkrzw_async_dbm_append(as, x.p, x.n, y.p, y.n, z.p, z.n); a.clear(); return Fut(f); }
    CPoison();
    return CRes(tkrzw_dbm_append(h, x.p, x.n, y.p, y.n, z.p, z.n));
  }
  Status AppendMulti(const std::map<std::string, std::string>& m, std::string_view d) override {
    if (!h) return Pre();
    CArg a;
    auto v = Recs(a, m);
    auto z = a(d);
    if (async()) { TkrzwFuture* f = tkrzw_async_dbm_append_multi(as, v.data(), m.size(), z.p, z.n); a.clear(); return Fut(f); }
    CPoison();
    return CRes(tkrzw_dbm_append_multi(h, v.data(), m.size(), z.p, z.n));
  }
  static CArg::S Opt(CArg& a, std::string_view v) {
    if (v.data() == nullptr) return {nullptr, 0};
    if (v.data() == DBM::ANY_DATA.data()) return {TKRZW_ANY_DATA, (int32_t)LS().r.in(-1, 3)};
    return a(v);
  }
  Status CompareExchange(std::string_view k, std::string_view e, std::string_view d, std::string* act, bool* found) override {
    if (!h) return Pre();
    CArg a; auto x = a(k); auto y = Opt(a, e); auto z = Opt(a, d);
    if (y.p == TKRZW_ANY_DATA || z.p == TKRZW_ANY_DATA) { if (y.p == TKRZW_ANY_DATA) y.n = 0; if (z.p == TKRZW_ANY_DATA) z.n = 0; }
    if ((act || found) && R().pct(40)) {
      int32_t n = -7;
      CPoison();
      char* p = tkrzw_dbm_compare_exchange_and_get(h, x.p, x.n, y.p, y.n, z.p, z.n, &n);
      const Status st = CLast();
      if (found) *found = p != nullptr;
      if (p) { const std::string s = CTake(p, n); if (act) *act = s; }
      return LS().bad ? Status(Status::APPLICATION_ERROR, LS().why) : st;
    }
    std::string cur;
    const bool has = Peek(k, &cur);
    if (found) *found = has;
    if (act && has) *act = cur;
    if (async()) { TkrzwFuture* f = tkrzw_async_dbm_compare_exchange(as, x.p, x.n, y.p, y.n, z.p, z.n); a.clear(); return Fut(f); }
    CPoison();
    return CRes(tkrzw_dbm_compare_exchange(h, x.p, x.n, y.p, y.n, z.p, z.n));
  }
  Status Increment(std::string_view k, int64_t inc, int64_t* cur, int64_t init) override {
    if (!h) return Pre();
    CArg a; auto x = a(k);
    if (async()) {
      TkrzwFuture* f = tkrzw_async_dbm_increment(as, x.p, x.n, inc, init);
      a.clear();
      W(f);
      const int64_t r = tkrzw_future_get_int(f);
      const Status st = Fin(f);
      if (st == Status::SUCCESS && cur) *cur = r;
      return st;
    }
    CPoison();
    const int64_t r = tkrzw_dbm_increment(h, x.p, x.n, inc, init);
    const Status st = CRes(r != TKRZW_INT64MIN);
    if (st == Status::SUCCESS && cur) *cur = r;
    return st;
  }
  int64_t IncrementSimple(std::string_view k, int64_t inc, int64_t init) override { int64_t c = 0; return Increment(k, inc, &c, init) == Status::SUCCESS ? c : INT64MIN; }
  Status ProcessMulti(const std::vector<std::pair<std::string_view, RecordProcessor*>>& l, bool w) override {
    if (!h) return Pre();
    CArg a;
    std::vector<CProc> ps(l.size());
    std::vector<TkrzwKeyProcPair> v;
    for (size_t i = 0; i < l.size(); i++) {
      auto x = a(l[i].first);
      ps[i].p = l[i].second;
      ps[i].bykey = true;
      ps[i].expkey = l[i].first;
      v.push_back({x.p, x.n, CProc::call, &ps[i]});
    }
    v.push_back({});
    CPoison();
    return CRes(tkrzw_dbm_process_multi(h, v.data(), l.size(), w));
  }
  Status CompareExchangeMulti(const std::vector<std::pair<std::string_view, std::string_view>>& es,
                              const std::vector<std::pair<std::string_view, std::string_view>>& ds) override {
    if (!h) return Pre();
    CArg a;
    auto conv = [&](const std::vector<std::pair<std::string_view, std::string_view>>& l) {
      std::vector<TkrzwKeyValuePair> v;
      for (auto& r : l) { auto x = a(r.first); auto y = Opt(a, r.second); if (y.p == TKRZW_ANY_DATA) y.n = 0; v.push_back({x.p, x.n, y.p, y.n}); }
      v.push_back({});
      return v;
    };
    auto e = conv(es), d = conv(ds);
    if (async()) { TkrzwFuture* f = tkrzw_async_dbm_compare_exchange_multi(as, e.data(), es.size(), d.data(), ds.size()); a.clear(); return Fut(f); }
    CPoison();
    return CRes(tkrzw_dbm_compare_exchange_multi(h, e.data(), es.size(), d.data(), ds.size()));
  }
  Status Rekey(std::string_view k, std::string_view k2, bool ow, bool copy, std::string* v) override {
    if (!h) return Pre();
    if (v) Peek(k, v);
    CArg a; auto x = a(k); auto y = a(k2);
    if (async()) { TkrzwFuture* f = tkrzw_async_dbm_rekey(as, x.p, x.n, y.p, y.n, ow, copy); a.clear(); return Fut(f); }
    CPoison();
    return CRes(tkrzw_dbm_rekey(h, x.p, x.n, y.p, y.n, ow, copy));
  }
  Status ProcessFirst(RecordProcessor* p, bool w) override {
    if (!h) return Pre();
    CProc c; c.p = p;
    CPoison();
    return CRes(tkrzw_dbm_process_first(h, CProc::call, &c, w));
  }
  Status PopFirst(std::string* key, std::string* value) override {
    if (!h) return Pre();
    if (async()) {
      TkrzwFuture* f = tkrzw_async_dbm_pop_first(as);
      W(f);
      TkrzwKeyValuePair* p = tkrzw_future_get_str_pair(f);
      const Status st = Fin(f);
      if (!p) { LS().fail("null pair"); return Status(Status::APPLICATION_ERROR); }
      std::string k(p->key_ptr, p->key_size), v(p->value_ptr, p->value_size);
      LS().keep({p, {{p->key_ptr, k}, {p->value_ptr, v}}, 0, 0});
      if (st == Status::SUCCESS) { if (key) *key = k; if (value) *value = v; }
      return st;
    }
    const bool nk = key || R().pct(50), nv = value || R().pct(50);
    char *kp = nullptr, *vp = nullptr;
    int32_t ks = -7, vs = -7;
    CPoison();
    const bool rv = tkrzw_dbm_pop_first(h, nk ? &kp : nullptr, nk ? &ks : nullptr, nv ? &vp : nullptr, nv ? &vs : nullptr);
    const Status st = CRes(rv);
    if (rv) {
      if (nk) { const std::string s = CTake(kp, ks); if (key) *key = s; }
      if (nv) { const std::string s = CTake(vp, vs); if (value) *value = s; }
    }
    return st;
  }
  std::set<std::string> Keys() {
    std::set<std::string> s;
    struct P : public RecordProcessor {
      std::set<std::string>* s;
      std::string_view ProcessFull(std::string_view k, std::string_view) override { s->emplace(k); return NOOP; }
    } p;
    p.s = &s;
    ProcessEach(&p, false);
    return s;
  }
  Status PushLast(std::string_view v, double t, std::string* key) override {
    if (!h) return Pre();
    auto before = Keys();
    CArg a; auto x = a(v);
    Status st;
    if (async()) { TkrzwFuture* f = tkrzw_async_dbm_push_last(as, x.p, x.n, t); a.clear(); st = Fut(f); }
    else { CPoison(); st = CRes(tkrzw_dbm_push_last(h, x.p, x.n, t)); }
    if (key) for (auto& k : Keys()) if (!before.count(k)) *key = k;
    return st;
  }
  Status ProcessEach(RecordProcessor* p, bool w) override {
    if (!h) return Pre();
    CProc c; c.p = p; c.each = true;
    CPoison();
    return CRes(tkrzw_dbm_process_each(h, CProc::call, &c, w));
  }
  Status ProcessEach(RecordLambdaType f, bool w) override { RecordProcessorLambda p(f); return ProcessEach(&p, w); }
  ParamDBM* X() { return reinterpret_cast<ParamDBM*>(h); }
  Status Count(int64_t* n) override {
    if (!h) return Pre();
    CPoison();
    const int64_t c = tkrzw_dbm_count(h);
    const Status st = CRes(c >= 0);
    if (c >= 0) *n = c;
    return st;
  }
  int64_t CountSimple() override { int64_t n = -1; return Count(&n) == Status::SUCCESS ? n : -1; }
  Status GetFileSize(int64_t* n) override {
    if (!h) return Pre();
    CPoison();
    const int64_t c = tkrzw_dbm_get_file_size(h);
    if (c != X()->GetFileSizeSimple()) LS().fail("get_file_size");
    *n = c;
    return CRes(c >= 0);
  }
  Status GetFilePath(std::string* path) override {
    if (!h) return Pre();
    CPoison();
    char* p = tkrzw_dbm_get_file_path(h);
    const Status st = CRes(p != nullptr);
    if (p) *path = CTake(p, strlen(p));
    std::string q;
    const Status st2 = X()->GetFilePath(&q);
    if (st2 != st || (p && q != *path)) { LS().fail("get_file_path " + ToString(st2) + "/" + ToString(st) + " " + q + " " + *path); }
    return st;
  }
  Status GetTimestamp(double* t) override {
    if (!h) return Pre();
    CPoison();
    const double d = tkrzw_dbm_get_timestamp(h);
    const Status st = CLast();
    double e = -1;
    if (X()->GetTimestamp(&e) != st || (st == Status::SUCCESS ? d != e : d == d && d >= 0)) LS().fail("get_timestamp");
    *t = d;
    return LS().bad ? Status(Status::APPLICATION_ERROR, LS().why) : st;
  }
  Status Clear() override {
    if (!h) return Pre();
    if (async()) return Fut(tkrzw_async_dbm_clear(as));
    CPoison();
    return CRes(tkrzw_dbm_clear(h));
  }
  Status Rebuild() override { return RebuildAdvanced({}); }
  Status RebuildAdvanced(const std::map<std::string, std::string>& p) override {
    if (!h) return Pre();
    if (async()) return Fut(tkrzw_async_dbm_rebuild(as, PS(p).c_str()));
    CPoison();
    return CRes(tkrzw_dbm_rebuild(h, PS(p).c_str()));
  }
  Status ShouldBeRebuilt(bool* tobe) override {
    if (!h) return Pre();
    CPoison();
    *tobe = tkrzw_dbm_should_be_rebuilt(h);
    const Status st = CLast();
    bool x = false;
    if (X()->ShouldBeRebuilt(&x) != st || x != *tobe) LS().fail("should_be_rebuilt");
    return LS().bad ? Status(Status::APPLICATION_ERROR, LS().why) : st;
  }
  Status Synchronize(bool hard, FileProcessor* p) override { return SynchronizeAdvanced(hard, p, {}); }
  Status SynchronizeAdvanced(bool hard, FileProcessor* p, const std::map<std::string, std::string>& params) override {
    if (!h) return Pre();
    if (!p && async()) return Fut(tkrzw_async_dbm_synchronize(as, hard, PS(params).c_str()));
    struct Arg { FileProcessor* p; int n; std::string path; } a{p, 0, ""};
    auto f = [](void* x, const char* path) { Arg* a = (Arg*)x; a->n++; a->path = path; if (a->p) a->p->Process(path); };
    CPoison();
    const bool use = p || R().pct(50);
    const Status st = CRes(tkrzw_dbm_synchronize(h, hard, use ? (tkrzw_file_processor)f : nullptr, &a, PS(params).c_str()));
    return st;
  }
  Status CopyFileData(const std::string& dest, bool hard) override {
    if (!h) return Pre();
    if (async()) return Fut(tkrzw_async_dbm_copy_file_data(as, dest.c_str(), hard));
    CPoison();
    return CRes(tkrzw_dbm_copy_file_data(h, dest.c_str(), hard));
  }
  Status Export(DBM* dest) override {
    if (!h) return Pre();
    CDBM* d = (CDBM*)dest;
    if (async()) return Fut(tkrzw_async_dbm_export(as, d->h));
    CPoison();
    return CRes(tkrzw_dbm_export(h, d->h));
  }
  Status Search(const std::string& mode, std::string_view pat, std::vector<std::string>* out, int cap) {
    if (!h) return Pre();
    CArg a; auto x = a(pat);
    int32_t n = -7;
    if (async()) {
      TkrzwFuture* f = tkrzw_async_dbm_search(as, mode.c_str(), x.p, x.n, cap);
      a.clear();
      W(f);
      TkrzwStr* r = tkrzw_future_get_str_array(f, &n);
      const Status st = Fin(f);
      *out = CTakeArr(r, n);
      return st;
    }
    CPoison();
    TkrzwStr* r = tkrzw_dbm_search(h, mode.c_str(), x.p, x.n, cap, &n);
    const Status st = CRes(r != nullptr);
    if (r) *out = CTakeArr(r, n);
    return st;
  }
  std::vector<std::pair<std::string, std::string>> Inspect() override {
    std::vector<std::pair<std::string, std::string>> v;
    if (!h) return v;
    int32_t n = -7;
    TkrzwKeyValuePair* a = tkrzw_dbm_inspect(h, &n);
    CTakeMap(a, n, &v);
    if (v != X()->Inspect()) LS().fail("inspect");
    int64_t sz = 0;
    std::string path;
    double ts = 0;
    GetFileSize(&sz);
    GetFilePath(&path);
    GetTimestamp(&ts);
    if (tkrzw_dbm_is_healthy(h) != X()->IsHealthy() || tkrzw_dbm_is_ordered(h) != X()->IsOrdered() || tkrzw_dbm_is_writable(h) != X()->IsWritable()) LS().fail("is_*");
    return v;
  }
  bool IsOpen() const override { return h != nullptr; }
  bool IsWritable() const override { return h && tkrzw_dbm_is_writable(h); }
  bool IsHealthy() const override { return h && !LS().bad && tkrzw_dbm_is_healthy(h); }
  bool IsOrdered() const override { return h && tkrzw_dbm_is_ordered(h); }
  std::unique_ptr<Iterator> MakeIterator() override { return std::make_unique<CIter>(tkrzw_dbm_make_iterator(h)); }
  std::unique_ptr<DBM> MakeDBM() const override { return std::make_unique<CDBM>(shard); }
  UpdateLogger* GetUpdateLogger() const override { return nullptr; }
  void SetUpdateLogger(UpdateLogger*) override {}
};

class CFile : public File {
 public:
  TkrzwFile* h = nullptr;
  std::string params;
  explicit CFile(const std::string& p) : params(p) {}
  ~CFile() { if (h) Close(); }
  static Status Pre() { return Status(Status::PRECONDITION_ERROR, "not opened"); }
  PolyFile* X() const { return reinterpret_cast<PolyFile*>(h); }
  Status Open(const std::string& path, bool w, int32_t o) override {
    if (h) return Pre();
    std::string p = params;
    if (o & File::OPEN_TRUNCATE) p += ",truncate=true";
    if (o & File::OPEN_NO_CREATE) p += ",no_create=true";
    if (o & File::OPEN_NO_WAIT) p += ",no_wait=true";
    if (o & File::OPEN_NO_LOCK) p += ",no_lock=true";
    if (o & File::OPEN_SYNC_HARD) p += ",sync_hard=true";
    CPoison();
    h = tkrzw_file_open(path.c_str(), w, p.c_str());
    return CRes(h != nullptr);
  }
  Status Close() override {
    if (!h) return Pre();
    CPoison();
    const bool rv = tkrzw_file_close(h);
    h = nullptr;
    const Status st = CRes(rv);
    LS().drain();
    return st;
  }
  Status Read(int64_t off, void* buf, size_t size) override { if (!h) return Pre(); CPoison(); return CRes(tkrzw_file_read(h, off, buf, size)); }
  Status Write(int64_t off, const void* buf, size_t size) override { if (!h) return Pre(); CPoison(); return CRes(tkrzw_file_write(h, off, buf, size)); }
  Status Append(const void* buf, size_t size, int64_t* off) override { if (!h) return Pre(); CPoison(); return CRes(tkrzw_file_append(h, buf, size, off)); }
  Status Truncate(int64_t size) override { if (!h) return Pre(); CPoison(); return CRes(tkrzw_file_truncate(h, size)); }
  Status Synchronize(bool hard, int64_t off, int64_t size) override { if (!h) return Pre(); CPoison(); return CRes(tkrzw_file_synchronize(h, hard, off, size)); }
  Status GetSize(int64_t* size) override {
    if (!h) return Pre();
    CPoison();
    const int64_t n = tkrzw_file_get_size(h);
    *size = n;
    return CRes(n >= 0);
  }
  Status GetPath(std::string* path) override {
    if (!h) return Pre();
    CPoison();
    char* p = tkrzw_file_get_path(h);
    const Status st = CRes(p != nullptr);
    if (p) *path = CTake(p, strlen(p));
    return st;
  }
  Status Expand(size_t n, int64_t* old) override { return h ? X()->Expand(n, old) : Pre(); }
  Status TruncateFakely(int64_t n) override { return h ? X()->TruncateFakely(n) : Pre(); }
  Status Rename(const std::string& p) override { return h ? X()->Rename(p) : Pre(); }
  Status SetAllocationStrategy(int64_t, double) override { return Status(Status::SUCCESS); }
  Status CopyProperties(File*) override { return Status(Status::SUCCESS); }
  Status DisablePathOperations() override { return h ? X()->DisablePathOperations() : Pre(); }
  bool IsOpen() const override { return h != nullptr; }
  bool IsMemoryMapping() const override { return h && X()->IsMemoryMapping(); }
  bool IsAtomic() const override { return h && X()->IsAtomic(); }
  std::unique_ptr<File> MakeFile() const override { return std::make_unique<CFile>(params); }
};
}  // namespace vh
