// Shared harness core: random source, abstract keys/values, operation generator and executor,
// and JSON trace writer.  Keys are abstracted to ranks 1..K in comparator order; values are
// sequences of integer tokens (see TokTab).
#pragma once
#include <cassert>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <string_view>
#include <thread>
#include <unordered_map>
#include <vector>
#include <csignal>
#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
#include <unistd.h>
#include "tkrzw_cmd_util.h"
#include "tkrzw_dbm.h"
#include "tkrzw_dbm_async.h"
#include "tkrzw_dbm_baby.h"
#include "tkrzw_dbm_cache.h"
#include "tkrzw_dbm_common_impl.h"
#include "tkrzw_dbm_hash.h"
#include "tkrzw_dbm_poly.h"
#include "tkrzw_dbm_shard.h"
#include "tkrzw_dbm_skip.h"
#include "tkrzw_dbm_std.h"
#include "tkrzw_dbm_tiny.h"
#include "tkrzw_dbm_tree.h"
#include "tkrzw_dbm_ulog.h"
#include "tkrzw_file_util.h"
#include "tkrzw_key_comparators.h"
#include "tkrzw_lib_common.h"
#include "tkrzw_message_queue.h"
#include "tkrzw_str_util.h"

namespace vh {
using namespace tkrzw;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  int64_t in(int64_t lo, int64_t hi) { return lo + next() % (uint64_t)(hi - lo + 1); }
  bool pct(int p) { return (int)(next() % 100) < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
  std::string pick(std::initializer_list<const char*> l) {
    return *(l.begin() + next() % l.size());
  }
  int pickn(std::initializer_list<int> l) { return *(l.begin() + next() % l.size()); }
};

typedef std::vector<int> Val;
static const Val ABSENT = {-7};
static const Val ANY = {-8};
static const int INT_BASE = 2000000;

// ---------------------------------------------------------------- JSON building
inline void JV(std::string* o, const Val& v) {
  o->push_back('[');
  char b[16];
  for (size_t i = 0; i < v.size(); i++) {
    if (i) o->push_back(',');
    snprintf(b, sizeof b, "%d", v[i]);
    o->append(b);
  }
  o->push_back(']');
}
inline std::string js(const std::string& s) { return "\"" + s + "\""; }
inline std::string jn(int64_t n) { return std::to_string(n); }
inline std::string jv(const Val& v) { std::string o; JV(&o, v); return o; }

inline const char* stname(const Status& s) {
  switch (s.GetCode()) {
    case Status::SUCCESS: return "ok";
    case Status::UNKNOWN_ERROR: return "unk";
    case Status::SYSTEM_ERROR: return "sys";
    case Status::NOT_IMPLEMENTED_ERROR: return "nimp";
    case Status::PRECONDITION_ERROR: return "pre";
    case Status::INVALID_ARGUMENT_ERROR: return "inv";
    case Status::CANCELED_ERROR: return "can";
    case Status::NOT_FOUND_ERROR: return "nf";
    case Status::PERMISSION_ERROR: return "perm";
    case Status::INFEASIBLE_ERROR: return "infs";
    case Status::DUPLICATION_ERROR: return "dup";
    case Status::BROKEN_DATA_ERROR: return "brk";
    case Status::NETWORK_ERROR: return "net";
    default: return "app";
  }
}

// ---------------------------------------------------------------- keys
struct KeyTab {
  std::vector<std::string> keys;  // index 0 unused
  std::unordered_map<std::string, int> rank;
  std::string kind;
  int K() const { return (int)keys.size() - 1; }
  const std::string& operator[](int k) const { return keys[k]; }
  int of(std::string_view s) const {
    auto it = rank.find(std::string(s));
    return it == rank.end() ? -1 : it->second;
  }
  void finish(const std::vector<std::string>& sorted) {
    keys.assign(1, "");
    rank.clear();
    for (auto& s : sorted) { keys.push_back(s); rank[s] = (int)keys.size() - 1; }
  }
};

inline std::string be8(uint64_t n) {
  std::string s(8, 0);
  for (int i = 7; i >= 0; i--) { s[i] = n & 0xff; n >>= 8; }
  return s;
}
inline bool bytelt(const std::string& a, const std::string& b) {
  const size_t n = std::min(a.size(), b.size());
  const int c = memcmp(a.data(), b.data(), n);
  return c != 0 ? c < 0 : a.size() < b.size();
}

// Kinds whose order is the byte order: adv, short, num, be8.  The others are ordered by the
// construction, independently from the comparators of the library.
inline KeyTab MakeKeys(const std::string& kind, int n, Rng& r) {
  KeyTab t;
  t.kind = kind;
  std::vector<std::string> ks;
  if (kind == "dec") {
    int64_t v = -(int64_t)r.in(1, 50);
    for (int i = 0; i < n; i++) {
      char b[64];
      snprintf(b, sizeof b, r.pct(30) ? "%05" PRId64 : "%" PRId64, v);
      ks.push_back(b);
      v += r.in(1, 40);
      if (v == 0) v = 1;
    }
    t.finish(ks);
    return t;
  }
  if (kind == "hex") {
    uint64_t v = r.in(0, 9);
    for (int i = 0; i < n; i++) {
      char b[64];
      const char* f[] = {"%" PRIx64, "%" PRIX64, "%04" PRIx64, "0x%" PRIx64};
      snprintf(b, sizeof b, f[r.in(0, 2)], v);
      ks.push_back(b);
      v += r.in(1, 40);
    }
    t.finish(ks);
    return t;
  }
  if (kind == "real") {
    double v = -(double)r.in(0, 30) - 0.5;
    for (int i = 0; i < n; i++) {
      char b[64];
      snprintf(b, sizeof b, "%.2f", v);
      ks.push_back(b);
      v += r.in(1, 400) / 8.0;
    }
    t.finish(ks);
    return t;
  }
  if (kind == "sbe") {
    int64_t v = -(int64_t)r.in(0, 300);
    for (int i = 0; i < n; i++) {
      ks.push_back(be8((uint64_t)v));
      v += r.in(1, 70);
    }
    t.finish(ks);
    return t;
  }
  if (kind == "fbe") {
    double v = -(double)r.in(0, 30) - 0.25;
    for (int i = 0; i < n; i++) {
      uint64_t u;
      memcpy(&u, &v, 8);
      ks.push_back(be8(u));
      v += r.in(1, 40) / 8.0;
    }
    t.finish(ks);
    return t;
  }
  if (kind == "case") {
    // Distinct after case folding; the order is the order of the folded strings.
    std::set<std::string> low;
    while ((int)low.size() < n) {
      std::string s;
      const int len = r.in(0, 6);
      for (int i = 0; i < len; i++) s.push_back("abcxyz09_~"[r.in(0, 9)]);
      low.insert(s);
    }
    for (auto s : low) {
      for (auto& c : s) if (c >= 'a' && c <= 'z' && r.pct(50)) c -= 32;
      ks.push_back(s);
    }
    t.finish(ks);
    return t;
  }
  std::set<std::string, bool (*)(const std::string&, const std::string&)> st(bytelt);
  if (kind == "be8") {
    // Consecutive timestamps for queue use: rank i is base + i.
    uint64_t base = 150000000000000000ULL + r.in(0, 100000000);
    for (int i = 0; i < n; i++) ks.push_back(be8(base + i));
    t.finish(ks);
    return t;
  }
  const std::vector<std::string> adv = {
    "", std::string("\0", 1), std::string("\0\0", 2), "a", std::string("a\0", 2),
    std::string("a\0b", 3), "aa", "ab", "b", "\x7f", "\x80", "\xff", "\xff\xff",
    std::string(126, 'c'), std::string(127, 'c'), std::string(128, 'c'), std::string(129, 'c'),
    std::string(255, 'd'), std::string(256, 'd'), std::string(300, 'e') + "1",
    std::string(300, 'e') + "2", std::string(48, 'f'), std::string(49, 'f'),
    "\n", "\t", "\r\n", "a\tb", "a\nb", "=", ",", " "};
  if (kind == "adv") {
    for (auto& s : adv) {
      if ((int)st.size() >= n) break;
      if (r.pct(60)) st.insert(s);
    }
    if ((int)st.size() < n && r.pct(30)) {
      st.insert(std::string(4000 + r.in(0, 200), 'g') + "x");
      st.insert(std::string(4000 + r.in(0, 200), 'g') + "y");
    }
  }
  while ((int)st.size() < n) {
    std::string s;
    if (kind == "num") {
      char b[32];
      snprintf(b, sizeof b, "%08d", (int)r.in(0, 99999999));
      s = b;
    } else {
      const int len = r.pct(10) ? r.in(1, 40) : r.in(1, 6);
      for (int i = 0; i < len; i++) s.push_back(r.pct(5) ? (char)r.in(0, 255) : (char)("abcd"[r.in(0, 3)]));
    }
    st.insert(s);
  }
  while ((int)st.size() > n) st.erase(std::next(st.begin(), r.in(0, st.size() - 1)));
  for (auto& s : st) ks.push_back(s);
  t.finish(ks);
  return t;
}

// ---------------------------------------------------------------- values
// Token t in 1..200: bytes {t, len(3 bytes), payload}; token t in 201..254: the single byte t.
// INT_BASE+n: 8-byte big-endian integer (first byte is 0x00 or 0xff).
struct TokTab {
  std::vector<std::string> toks;  // index 0 unused
  void build(Rng& r, int profile) {
    toks.assign(255, "");
    for (int t = 1; t <= 200; t++) {
      int len;
      const int c = r.in(0, 99);
      if (profile == 0) {
        len = c < 50 ? r.in(0, 12) : c < 90 ? r.in(0, 60) : r.in(60, 140);
      } else if (profile == 1) {
        len = c < 50 ? r.in(0, 40) : c < 90 ? r.in(30, 300) : r.in(300, 1200);
      } else {
        len = c < 60 ? r.in(0, 100) : c < 85 ? r.in(100, 5000) : c < 97 ? r.in(4000, 20000) : r.in(60000, 70000);
      }
      std::string s(4 + len, 0);
      s[0] = (char)t;
      s[1] = (char)((len >> 16) & 0xff);
      s[2] = (char)((len >> 8) & 0xff);
      s[3] = (char)(len & 0xff);
      uint64_t h = r.next();
      const bool runs = r.pct(40);
      for (int i = 0; i < len; i++) {
        if (!runs || (i & 15) == 0) h = h * 6364136223846793005ULL + 1442695040888963407ULL;
        s[4 + i] = (char)(h >> 56);
      }
      toks[t] = s;
    }
    for (int t = 201; t <= 254; t++) toks[t] = std::string(1, (char)t);
  }
  std::string enc(const Val& v) const {
    std::string s;
    for (int t : v) {
      if (t >= 1000000) s += be8((uint64_t)(int64_t)(t - INT_BASE));
      else s += toks[t];
    }
    return s;
  }
  Val dec(std::string_view s) const {
    Val v;
    size_t p = 0;
    while (p < s.size()) {
      const uint8_t b = s[p];
      if (b == 0x00 || b == 0xff) {
        if (s.size() - p < 8) return bad(s);
        uint64_t u = 0;
        for (int i = 0; i < 8; i++) u = (u << 8) | (uint8_t)s[p + i];
        const int64_t n = (int64_t)u;
        if (n < -900000 || n > 900000) return bad(s);
        v.push_back(INT_BASE + (int)n);
        p += 8;
      } else {
        const std::string& t = toks[b];
        if (s.size() - p < t.size() || memcmp(s.data() + p, t.data(), t.size()) != 0) return bad(s);
        v.push_back(b);
        p += t.size();
      }
    }
    return v;
  }
  static Val bad(std::string_view s) {
    uint32_t h = 2166136261u;
    for (char c : s) h = (h ^ (uint8_t)c) * 16777619u;
    return {-99, (int)(h % 100000), (int)s.size()};
  }
};

// ---------------------------------------------------------------- trace
struct Trace {
  std::string line;      // one scenario: a JSON array of events
  std::string cur;
  bool first = true;
  int64_t events = 0;
  Trace() { line = "["; }
  Trace& ev(const std::string& op) {
    flush();
    cur = "{\"o\":\"" + op + "\"";
    return *this;
  }
  Trace& n(const char* k, int64_t v) { cur += ",\""; cur += k; cur += "\":"; cur += std::to_string(v); return *this; }
  Trace& s(const char* k, const std::string& v) { cur += ",\""; cur += k; cur += "\":\""; cur += v; cur += "\""; return *this; }
  Trace& v(const char* k, const Val& x) { cur += ",\""; cur += k; cur += "\":"; JV(&cur, x); return *this; }
  Trace& raw(const char* k, const std::string& x) { cur += ",\""; cur += k; cur += "\":"; cur += x; return *this; }
  void flush() {
    if (cur.empty()) return;
    if (!first) line += ",";
    first = false;
    line += cur + "}";
    cur.clear();
    events++;
  }
  std::string done() { flush(); return line + "]\n"; }
};

// A call of the library that never returns is reported as an event no specification allows.
inline Trace* g_wd_trace = nullptr;
inline FILE* g_wd_out = nullptr;
inline void WatchdogFire(int) {
  if (g_wd_trace && g_wd_out) {
    g_wd_trace->ev("hang");
    fputs(g_wd_trace->done().c_str(), g_wd_out);
    fflush(g_wd_out);
  }
  _exit(0);
}
inline void Watchdog(Trace* t, FILE* out, int sec) {
  g_wd_trace = t;
  g_wd_out = out;
  signal(SIGALRM, WatchdogFire);
#ifdef VSCHED_H
  vsched::S().onstuck = []() { WatchdogFire(0); };
#endif
  alarm(sec);
}

struct JList {
  std::string s = "[";
  bool f = true;
  JList& add(const std::string& x) { if (!f) s += ","; f = false; s += x; return *this; }
  std::string str() const { return s + "]"; }
};

// ---------------------------------------------------------------- operations
struct Act { int t = 0; Val v; };  // 0 noop, 1 remove, 2 set
inline std::string ja(const Act& a) { return "[" + std::to_string(a.t) + "," + jv(a.v) + "]"; }
struct KV { int k; Val v; };
struct Op {
  std::string o;
  int k = 0, k2 = 0, n = 0, n2 = 0;
  Val v, d;
  bool w = false, c = false;
  std::vector<int> ks;
  std::vector<KV> kvs, kvs2;
  std::vector<std::pair<int, std::pair<Act, Act>>> pl;
  Act fa, ea;
  std::vector<Act> acts;  // by rank, for proceach
};
inline std::string jkvs(const std::vector<KV>& l) {
  JList j;
  for (auto& x : l) j.add("[" + std::to_string(x.k) + "," + jv(x.v) + "]");
  return j.str();
}
inline std::string jints(const std::vector<int>& l) { return jv(l); }

// Logs the invocation part of an operation.
inline void LogOp(Trace& t, const Op& op) {
  t.ev(op.o);
  const std::string& o = op.o;
  if (o == "get" || o == "getsz") t.n("k", op.k);
  else if (o == "set") t.n("k", op.k).v("v", op.v).n("w", op.w);
  else if (o == "rem") t.n("k", op.k);
  else if (o == "app") t.n("k", op.k).v("v", op.v).v("d", op.d);
  else if (o == "cmpx") t.n("k", op.k).v("e", op.v).v("d", op.d);
  else if (o == "incr") t.n("k", op.k).n("n", op.n).n("i", op.n2).n("c", op.c);
  else if (o == "getm" || o == "remm") t.raw("ks", jints(op.ks));
  else if (o == "setm") t.raw("kvs", jkvs(op.kvs)).n("w", op.w);
  else if (o == "appm") t.raw("kvs", jkvs(op.kvs)).v("d", op.d);
  else if (o == "cxm") t.raw("es", jkvs(op.kvs)).raw("ds", jkvs(op.kvs2));
  else if (o == "rekey") t.n("k", op.k).n("k2", op.k2).n("w", op.w).n("c", op.c);
  else if (o == "push") t.n("k", op.k).v("v", op.v);
  else if (o == "proc") t.n("k", op.k).raw("fa", ja(op.fa)).raw("ea", ja(op.ea)).n("w", op.w);
  else if (o == "procm") {
    JList j;
    for (auto& x : op.pl) j.add("[" + std::to_string(x.first) + "," + ja(x.second.first) + "," + ja(x.second.second) + "]");
    t.raw("pl", j.str()).n("w", op.w);
  } else if (o == "procfirst") t.raw("fa", ja(op.fa)).n("w", op.w);
  else if (o == "proceach") {
    JList j;
    for (size_t i = 1; i < op.acts.size(); i++) j.add(ja(op.acts[i]));
    t.raw("as", j.str()).n("w", op.w);
  }
}

struct RecProc : public DBM::RecordProcessor {
  const TokTab* tt;
  const KeyTab* kt = nullptr;
  Act fa, ea;
  std::string fv, ev;
  int called = 0;
  int badkey = 0;
  std::string expkey;
  bool checkkey = false;
  Val seen = ABSENT;
  std::string rawkey;
  bool full = false;
  bool rd = true;
  void prep() { fv = tt->enc(fa.v); ev = tt->enc(ea.v); }
  static std::string_view res(const Act& a, const std::string& s) {
    if (a.t == 0) return DBM::RecordProcessor::NOOP;
    if (a.t == 1) return DBM::RecordProcessor::REMOVE;
    return s;
  }
  std::string_view ProcessFull(std::string_view key, std::string_view value) override {
    called++;
    full = true;
    if (checkkey && key != expkey) badkey++;
    rawkey = std::string(key);
    seen = tt->dec(value);
    return res(fa, fv);
  }
  std::string_view ProcessEmpty(std::string_view key) override {
    called++;
    if (checkkey && key != expkey) badkey++;
    seen = ABSENT;
    return res(ea, ev);
  }
};

struct Ctx {
  const KeyTab* kt;
  const TokTab* tt;
  Rng* mix = nullptr;  // for choosing among API overloads; may be null
};

inline std::string_view sv(const std::string& s) { return std::string_view(s); }

// Executes the operation and returns the JSON of the result list [status, ...].
inline std::string ExecOp(DBM* db, const Op& op, const Ctx& c) {
  const KeyTab& K = *c.kt;
  const TokTab& T = *c.tt;
  const std::string& o = op.o;
  const int alt = c.mix ? (int)c.mix->in(0, 3) : 0;
  JList r;
  if (o == "get") {
    std::string v = "*stale*";
    if (alt == 1) {
      const std::string d = "\x01!default";
      v = db->GetSimple(K[op.k], d);
      if (v == d) r.add(js("nf")).add(jv(ABSENT));
      else r.add(js("ok")).add(jv(T.dec(v)));
      return r.str();
    }
    const Status s = db->Get(K[op.k], &v);
    r.add(js(stname(s))).add(jv(s == Status::SUCCESS ? T.dec(v) : ABSENT));
  } else if (o == "getsz") {
    const Status s = db->Get(K[op.k]);
    r.add(js(stname(s)));
  } else if (o == "set") {
    const std::string v = T.enc(op.v);
    if (alt == 1) {
      const Status s = db->Set(K[op.k], v, op.w);
      r.add(js(stname(s)));
      return r.str();
    }
    const std::string mark = "\x02*untouched*";
    std::string old = mark;
    const Status s = db->Set(K[op.k], v, op.w, &old);
    r.add(js(stname(s))).add(jv(old == mark ? ABSENT : T.dec(old)));
  } else if (o == "rem") {
    if (alt == 1) {
      const Status s = db->Remove(K[op.k]);
      r.add(js(stname(s)));
      return r.str();
    }
    const std::string mark = "\x02*untouched*";
    std::string old = mark;
    const Status s = db->Remove(K[op.k], &old);
    r.add(js(stname(s))).add(jv(old == mark ? ABSENT : T.dec(old)));
  } else if (o == "app") {
    const std::string v = T.enc(op.v), d = T.enc(op.d);
    r.add(js(stname(db->Append(K[op.k], v, d))));
  } else if (o == "cmpx") {
    const std::string e = T.enc(op.v == ABSENT || op.v == ANY ? Val{} : op.v);
    const std::string d = T.enc(op.d == ABSENT || op.d == ANY ? Val{} : op.d);
    const std::string_view ev = op.v == ABSENT ? std::string_view() : op.v == ANY ? DBM::ANY_DATA : sv(e);
    const std::string_view dv = op.d == ABSENT ? std::string_view() : op.d == ANY ? DBM::ANY_DATA : sv(d);
    std::string act;
    bool found = false;
    const Status s = db->CompareExchange(K[op.k], ev, dv, &act, &found);
    r.add(js(stname(s))).add(jv(found ? T.dec(act) : ABSENT));
  } else if (o == "incr") {
    int64_t cur = -12345;
    const Status s = db->Increment(K[op.k], op.n == 0 && op.c ? INT64MIN : op.n, &cur, op.n2);
    r.add(js(stname(s))).add(jn(cur < -1000000 || cur > 1000000 ? -999999 : cur));
  } else if (o == "getm") {
    std::vector<std::string> ks;
    for (int k : op.ks) ks.push_back(K[k]);
    std::map<std::string, std::string> m;
    const Status s = db->GetMulti(ks, &m);
    JList l;
    std::map<int, Val> sm;
    for (auto& x : m) sm[K.of(x.first)] = T.dec(x.second);
    for (auto& x : sm) l.add("[" + std::to_string(x.first) + "," + jv(x.second) + "]");
    r.add(js(stname(s))).add(l.str());
  } else if (o == "remm") {
    std::vector<std::string> ks;
    for (int k : op.ks) ks.push_back(K[k]);
    r.add(js(stname(db->RemoveMulti(ks))));
  } else if (o == "setm" || o == "appm") {
    std::map<std::string, std::string> m;
    for (auto& x : op.kvs) m[K[x.k]] = T.enc(x.v);
    if (o == "setm") r.add(js(stname(db->SetMulti(m, op.w))));
    else r.add(js(stname(db->AppendMulti(m, T.enc(op.d)))));
  } else if (o == "cxm") {
    std::vector<std::string> buf;
    buf.reserve(op.kvs.size() + op.kvs2.size());
    std::vector<std::pair<std::string_view, std::string_view>> es, ds;
    auto conv = [&](const Val& v) -> std::string_view {
      if (v == ABSENT) return std::string_view();
      if (v == ANY) return DBM::ANY_DATA;
      buf.push_back(T.enc(v));
      return sv(buf.back());
    };
    for (auto& x : op.kvs) es.emplace_back(K[x.k], conv(x.v));
    for (auto& x : op.kvs2) ds.emplace_back(K[x.k], conv(x.v));
    r.add(js(stname(db->CompareExchangeMulti(es, ds))));
  } else if (o == "rekey") {
    const std::string mark = "\x02*untouched*";
    std::string v = mark;
    const Status s = db->Rekey(K[op.k], K[op.k2], op.w, op.c, &v);
    r.add(js(stname(s))).add(jv(s == Status::SUCCESS ? T.dec(v) : ABSENT));
  } else if (o == "popfirst") {
    std::string k, v;
    const Status s = db->PopFirst(&k, &v);
    if (s == Status::SUCCESS) r.add(js("ok")).add(jn(K.of(k))).add(jv(T.dec(v)));
    else r.add(js(stname(s))).add("0").add(jv(ABSENT));
  } else if (o == "push") {
    std::string key;
    uint64_t ts = 0;
    for (char ch : K[op.k]) ts = (ts << 8) | (uint8_t)ch;
    const Status s = db->PushLast(T.enc(op.v), ts / 100000000.0, &key);
    // The floating-point time may denote a neighbouring rank; the resulting key is what counts.
    r.add(js(stname(s))).add(jn(K.of(key)));
  } else if (o == "proc") {
    RecProc p;
    p.tt = &T;
    p.fa = op.fa; p.ea = op.ea;
    p.prep();
    p.checkkey = true;
    p.expkey = K[op.k];
    Status s;
    if (alt == 1) {
      s = db->Process(K[op.k], [&](std::string_view k, std::string_view v) -> std::string_view {
        return v.data() == DBM::RecordProcessor::NOOP.data() ? p.ProcessEmpty(k) : p.ProcessFull(k, v); }, op.w);
    } else {
      s = db->Process(K[op.k], &p, op.w);
    }
    r.add(js(stname(s))).add(jv(p.seen)).add(jn(p.called)).add(jn(p.badkey));
  } else if (o == "procm") {
    std::vector<RecProc> ps(op.pl.size());
    std::vector<std::pair<std::string_view, DBM::RecordProcessor*>> l;
    for (size_t i = 0; i < op.pl.size(); i++) {
      ps[i].tt = &T;
      ps[i].fa = op.pl[i].second.first;
      ps[i].ea = op.pl[i].second.second;
      ps[i].prep();
      ps[i].checkkey = true;
      ps[i].expkey = K[op.pl[i].first];
      l.emplace_back(K[op.pl[i].first], &ps[i]);
    }
    const Status s = db->ProcessMulti(l, op.w);
    JList seen;
    int called = 0, bad = 0;
    for (auto& p : ps) { seen.add(jv(p.seen)); called += p.called; bad += p.badkey; }
    r.add(js(stname(s))).add(seen.str()).add(jn(called)).add(jn(bad));
  } else if (o == "procfirst") {
    RecProc p;
    p.tt = &T;
    p.fa = op.fa;
    p.prep();
    const Status s = db->ProcessFirst(&p, op.w);
    r.add(js(stname(s))).add(jn(p.full ? K.of(p.rawkey) : 0)).add(jv(p.seen));
  } else if (o == "proceach") {
    struct Each : public DBM::RecordProcessor {
      const Ctx* c;
      const Op* op;
      JList l;
      int empties = 0, n = 0;
      bool order_ok = true;
      std::string tmp;
      std::string_view ProcessFull(std::string_view key, std::string_view value) override {
        const int k = c->kt->of(key);
        if (empties != 1) order_ok = false;
        n++;
        l.add("[" + std::to_string(k) + "," + jv(c->tt->dec(value)) + "]");
        if (k < 1) return NOOP;
        const Act& a = op->acts[k];
        if (a.t == 0) return NOOP;
        if (a.t == 1) return REMOVE;
        tmp = c->tt->enc(a.v);
        return tmp;
      }
      std::string_view ProcessEmpty(std::string_view key) override { empties++; return NOOP; }
    } p;
    p.c = &c;
    p.op = &op;
    const Status s = db->ProcessEach(&p, op.w);
    r.add(js(stname(s))).add(p.l.str()).add(jn(p.empties)).add(jn(p.order_ok ? 1 : 0));
  } else if (o == "count") {
    int64_t n = -1;
    if (alt == 1) { n = db->CountSimple(); r.add(js("ok")).add(jn(n)); return r.str(); }
    const Status s = db->Count(&n);
    r.add(js(stname(s))).add(jn(n));
  } else if (o == "clear") {
    r.add(js(stname(db->Clear())));
  } else if (o == "scan") {
    std::vector<KV> l;
    auto it = db->MakeIterator();
    Status s = it->First();
    int guard = 0;
    while (guard++ < 100000) {
      std::string k, v;
      const Status t = it->Get(&k, &v);
      if (t != Status::SUCCESS) {
        if (t != Status::NOT_FOUND_ERROR) s |= t;
        break;
      }
      l.push_back({K.of(k), T.dec(v)});
      it->Next();
    }
    r.add(js(stname(s))).add(jkvs(l));
  } else {
    fprintf(stderr, "unknown op %s\n", o.c_str());
    abort();
  }
  return r.str();
}

// ---------------------------------------------------------------- generator
struct GenCfg {
  int K = 10;
  int maxtok = 40;         // token ids used (1..200)
  int intmod = 5;          // keys with k % intmod == 0 hold integers only (0: none)
  bool each = true, first = true, multi = true, clear = true, readonly_proc = true;
  bool push = false;
  int rempct = 20;
};
inline Val GenVal(Rng& r, const GenCfg& g) {
  const int c = r.in(0, 99);
  if (c < 6) return {};
  if (c < 16) return {(int)r.in(201, 254)};
  if (c < 90) return {(int)r.in(1, g.maxtok)};
  Val v;
  const int n = r.in(2, 4);
  for (int i = 0; i < n; i++) v.push_back(r.in(1, g.maxtok));
  return v;
}
inline bool IsIntKey(const GenCfg& g, int k) { return g.intmod > 0 && k % g.intmod == 0; }
inline Val GenFor(Rng& r, const GenCfg& g, int k) {
  if (IsIntKey(g, k)) return {INT_BASE + (int)r.in(-50, 50)};
  return GenVal(r, g);
}
inline Act GenAct(Rng& r, const GenCfg& g, int k, int prem = 25) {
  Act a;
  const int c = r.in(0, 99);
  if (c < 30) a.t = 0;
  else if (c < 30 + prem) a.t = 1;
  else { a.t = 2; a.v = GenFor(r, g, k); }
  return a;
}
// `model` is the generator's own shadow used only to make interesting arguments.
typedef std::map<int, Val> Shadow;
inline Val GenExpect(Rng& r, const GenCfg& g, int k, const Shadow& sh) {
  auto it = sh.find(k);
  const int c = r.in(0, 99);
  if (c < 55) return it == sh.end() ? ABSENT : it->second;
  if (c < 70) return ABSENT;
  if (c < 85) return ANY;
  return GenFor(r, g, k);
}
inline Op GenOp(Rng& r, const GenCfg& g, const Shadow& sh) {
  Op op;
  auto key = [&]() { return (int)r.in(1, g.K); };
  auto pkey = [&]() {  // biased to present keys
    if (!sh.empty() && r.pct(60)) return std::next(sh.begin(), r.in(0, sh.size() - 1))->first;
    return key();
  };
  auto keys = [&](int n) {
    std::set<int> s;
    for (int i = 0; i < n; i++) s.insert(pkey());
    return std::vector<int>(s.begin(), s.end());
  };
  const int c = r.in(0, 999);
  if (c < 160) { op.o = r.pct(15) ? "getsz" : "get"; op.k = pkey(); }
  else if (c < 400) { op.o = "set"; op.k = key(); op.v = GenFor(r, g, op.k); op.w = r.pct(75); }
  else if (c < 400 + g.rempct * 8) { op.o = "rem"; op.k = pkey(); }
  else if (c < 640) {
    op.o = "app"; op.k = key();
    if (IsIntKey(g, op.k)) { op.o = "incr"; op.n = r.in(-9, 9); op.n2 = r.in(-5, 5); if (r.pct(15)) { op.n = 0; op.c = true; } }
    else { op.v = GenVal(r, g); op.d = r.pct(50) ? Val{} : GenVal(r, g); }
  } else if (c < 720) {
    op.o = "cmpx"; op.k = key(); op.v = GenExpect(r, g, op.k, sh);
    const int q = r.in(0, 99);
    op.d = q < 20 ? ABSENT : q < 30 ? ANY : GenFor(r, g, op.k);
  } else if (c < 800) {
    op.o = "proc"; op.k = pkey(); op.fa = GenAct(r, g, op.k); op.ea = GenAct(r, g, op.k); op.w = true;
    if (g.readonly_proc && r.pct(20)) { op.w = false; }
  } else if (c < 830) {
    op.o = "rekey"; op.k = pkey(); op.k2 = r.pct(10) ? op.k : key();
    if (g.intmod > 0 && IsIntKey(g, op.k) != IsIntKey(g, op.k2)) { op.o = "get"; op.k2 = 0; return op; }
    op.w = r.pct(60); op.c = r.pct(30);
  } else if (c < 940) {
    if (!g.multi) { op.o = "get"; op.k = pkey(); return op; }
    const int q = r.in(0, 5);
    if (q == 0) { op.o = "getm"; op.ks = keys(r.in(1, 5)); }
    else if (q == 1) { op.o = "remm"; op.ks = keys(r.in(1, 4)); }
    else if (q == 2) { op.o = "setm"; for (int k : keys(r.in(1, 5))) op.kvs.push_back({k, GenFor(r, g, k)}); op.w = r.pct(70); }
    else if (q == 3) {
      op.o = "appm";
      for (int k : keys(r.in(1, 4))) if (!IsIntKey(g, k)) op.kvs.push_back({k, GenVal(r, g)});
      op.d = r.pct(50) ? Val{} : GenVal(r, g);
    } else if (q == 4) {
      op.o = "cxm";
      const bool all = r.pct(60);
      for (int k : keys(r.in(0, 4))) {
        auto it = sh.find(k);
        op.kvs.push_back({k, all ? (it == sh.end() ? ABSENT : r.pct(20) ? ANY : it->second) : GenExpect(r, g, k, sh)});
      }
      for (int k : keys(r.in(0, 4))) op.kvs2.push_back({k, r.pct(25) ? ABSENT : GenFor(r, g, k)});
    } else {
      op.o = "procm";
      const int n = r.in(1, 5);
      op.w = true;
      if (g.readonly_proc && r.pct(20)) op.w = false;
      for (int i = 0; i < n; i++) {
        const int k = pkey();
        op.pl.push_back({k, {GenAct(r, g, k), GenAct(r, g, k)}});
      }
    }
  } else if (c < 965) {
    if (!g.first) { op.o = "count"; return op; }
    if (r.pct(50)) op.o = "popfirst";
    else { op.o = "procfirst"; op.w = r.pct(80); if (op.w && g.intmod == 0) op.fa = GenAct(r, g, 1); else { op.fa.t = op.w && r.pct(40) ? 1 : 0; } }
  } else if (c < 975) {
    op.o = "count";
  } else if (c < 985) {
    op.o = "scan";
  } else if (c < 997 || !g.clear) {
    if (!g.each) { op.o = "count"; return op; }
    op.o = "proceach";
    op.w = r.pct(70);
    op.acts.resize(g.K + 1);
    const int pr = r.pickn({5, 30, 70});
    for (int k = 1; k <= g.K; k++) { op.acts[k] = GenAct(r, g, k, pr); if (op.acts[k].t == 2 && r.pct(60)) op.acts[k] = Act(); }
    if (!op.w) for (auto& a : op.acts) a = Act();
  } else {
    op.o = "clear";
  }
  if (g.push && r.pct(10)) { op = Op(); op.o = "push"; op.k = key(); op.v = GenVal(r, g); }
  return op;
}

// ---------------------------------------------------------------- scratch directories
inline std::string MakeScratch() {
  std::string base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
  std::string tpl = base + "/vh-XXXXXX";
  std::vector<char> b(tpl.begin(), tpl.end());
  b.push_back(0);
  if (mkdtemp(b.data()) == nullptr) { perror("mkdtemp"); exit(3); }
  return b.data();
}
inline void WipeDir(const std::string& dir, bool self) {
  // Only ever called with a directory made by MakeScratch; it holds plain files only.
  if (dir.find("/vh-") == std::string::npos) abort();
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  while (dirent* e = readdir(d)) {
    const std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    unlink((dir + "/" + n).c_str());
  }
  closedir(d);
  if (self) rmdir(dir.c_str());
}

// ---------------------------------------------------------------- configurations
struct Cfg {
  std::string cls;                            // hash tree tiny baby cache stdhash stdtree shard
  std::map<std::string, std::string> params;  // for OpenAdvanced
  std::string path;
  std::string keykind = "adv";
  bool ordered = false, file = false;
  int shards = 0;
  std::string str() const {
    std::string s = cls + (shards ? "*" + std::to_string(shards) : "") + " keys=" + keykind;
    for (auto& p : params) if (p.first != "dbm" && p.first != "num_shards") s += " " + p.first + "=" + p.second;
    return s;
  }
};

inline void RandFile(Rng& r, std::map<std::string, std::string>* p, bool mt = false) {
  const std::string f = mt ? r.pick({"mmap-para", "mmap-atom", "pos-para", "pos-atom"})
      : r.pick({"mmap-para", "mmap-atom", "pos-para", "pos-atom", "std"});
  (*p)["file"] = f;
  if ((f == "pos-para" || f == "pos-atom") && r.pct(30)) {
    (*p)["block_size"] = r.pick({"1", "512", "1024"});
    if ((*p)["block_size"] != "1") (*p)["access_options"] = r.pick({"padding", "padding:pagecache", "pagecache", ""});
    if ((*p)["access_options"].empty()) p->erase("access_options");
  }
}
// Padding of the file is documented for the formats which record their own size.
inline void NoPadding(std::map<std::string, std::string>* p) {
  auto it = p->find("access_options");
  if (it != p->end() && it->second.find("padding") == 0) {
    if (it->second == "padding") p->erase(it);
    else it->second = "pagecache";
  }
}
inline void RandHashTune(Rng& r, std::map<std::string, std::string>* p, bool tree) {
  (*p)["update_mode"] = r.pick({"in_place", "in_place", "appending"});
  if (r.pct(50)) (*p)["record_crc_mode"] = r.pick({"none", "crc_8", "crc_16", "crc_32"});
  const int c = r.in(0, 99);
  if (c < 40) (*p)["record_comp_mode"] = c < 10 ? "zlib" : c < 18 ? "zstd" : c < 26 ? "lz4" : c < 28 ? "lzma" : c < 34 ? "rc4" : "aes";
  if ((*p)["record_comp_mode"] == "rc4" || (*p)["record_comp_mode"] == "aes") (*p)["cipher_key"] = "hogehoge";
  (*p)["offset_width"] = r.pick({"3", "4", "5", "6"});
  (*p)["align_pow"] = tree ? r.pick({"3", "6", "8", "10"}) : r.pick({"0", "1", "2", "3", "4", "6", "10"});
  (*p)["num_buckets"] = tree ? r.pick({"1", "7", "31", "1000"}) : r.pick({"1", "2", "3", "5", "7", "31", "1000"});
  if (r.pct(50)) (*p)["fbp_capacity"] = r.pick({"1", "2", "4", "16", "2048"});
  if (r.pct(50)) (*p)["min_read_size"] = r.pick({"1", "16", "48", "100", "512", "4096"});
  if (r.pct(30)) (*p)["cache_buckets"] = "true";
}
inline void RandTreeTune(Rng& r, std::map<std::string, std::string>* p) {
  (*p)["max_page_size"] = r.pick({"1", "32", "64", "130", "260", "500", "1500", "8130"});
  (*p)["max_branches"] = r.pick({"2", "3", "4", "5", "8", "256"});
  (*p)["max_cached_pages"] = r.pick({"1", "1", "8", "64", "10000"});
  if (r.pct(30)) (*p)["page_update_mode"] = "write";
}
inline Cfg RandCfg(Rng& r, const std::string& cls, const std::string& dir, bool mt = false) {
  Cfg c;
  c.cls = cls;
  std::string base = cls;
  if (cls == "shard") {
    base = r.pick({"hash", "tree", "baby", "tiny", "cache", "stdtree"});
    c.shards = r.pickn({1, 2, 3, 5});
    c.params["num_shards"] = std::to_string(c.shards);
  }
  c.params["dbm"] = base == "hash" ? "HashDBM" : base == "tree" ? "TreeDBM" : base == "skip" ? "SkipDBM" :
      base == "tiny" ? "TinyDBM" : base == "baby" ? "BabyDBM" : base == "cache" ? "CacheDBM" :
      base == "stdhash" ? "StdHashDBM" : "StdTreeDBM";
  c.ordered = base == "tree" || base == "baby" || base == "stdtree" || base == "skip";
  c.keykind = r.pick({"adv", "adv", "short", "num"});
  RandFile(r, &c.params, mt);
  c.path = dir + "/db";
  c.file = true;
  if (base == "hash") RandHashTune(r, &c.params, false);
  if (base == "tree") { RandHashTune(r, &c.params, true); RandTreeTune(r, &c.params); }
  if (base != "hash" && base != "tree" && base != "skip") NoPadding(&c.params);
  if (base == "tiny") c.params["num_buckets"] = r.pick({"1", "2", "7", "100"});
  if (base == "cache") {
    c.params["cap_rec_num"] = "100000";
    c.params["cap_mem_size"] = "1000000000";
    if (r.pct(30)) c.params.erase("cap_mem_size");
  }
  if (base == "skip") {
    c.params["offset_width"] = r.pick({"3", "4", "5"});
    c.params["step_unit"] = r.pick({"2", "3", "4", "16"});
    c.params["max_level"] = r.pick({"1", "2", "3", "14"});
    if (r.pct(60)) c.params["sort_mem_size"] = r.pick({"1", "100", "1000", "100000"});
    if (r.pct(60)) c.params["max_cached_records"] = r.pick({"1", "4", "100"});
  }
  if ((base == "tree" || base == "baby") && r.pct(50)) {
    const int q = r.in(0, 6);
    static const char* kinds[] = {"case", "dec", "hex", "real", "sbe", "fbe", "adv"};
    static const char* comps[] = {"LexicalCase", "DecimalKeyComparator", "HexadecimalKeyComparator",
      "RealNumberKeyComparator", "SignedBigEndianKeyComparator", "FloatBigEndianKeyComparator",
      "LexicalKeyComparator"};
    c.keykind = kinds[q];
    c.params["key_comparator"] = comps[q];
  }
  if ((base == "tiny" || base == "baby" || base == "cache" || base == "stdhash" || base == "stdtree") && r.pct(30)) {
    c.path = "";
    c.file = false;
  }
  return c;
}
#ifdef LANGC
}  // namespace vh
#include "langc.h"
namespace vh {
inline void SeedTrace(uint64_t s) { LS().drain(); LS().r = Rng(s * 77 + 5); LS().bad = 0; LS().why.clear(); }
inline std::unique_ptr<ParamDBM> MakeDB(const Cfg& c) { return std::make_unique<CDBM>(c.cls == "shard"); }
#else
inline void SeedTrace(uint64_t) {}
inline std::unique_ptr<ParamDBM> MakeDB(const Cfg& c) {
  if (c.cls == "shard") return std::make_unique<ShardDBM>();
  return std::make_unique<PolyDBM>();
}
#endif

// ---------------------------------------------------------------- result checking by the generator
// Tracks the shadow from a returned result only to bias generation; it decides nothing.
inline void ShadowFromDB(DBM* db, const Ctx& c, Shadow* sh) {
  sh->clear();
  struct P : public DBM::RecordProcessor {
    const Ctx* c;
    Shadow* sh;
    std::string_view ProcessFull(std::string_view k, std::string_view v) override {
      (*sh)[c->kt->of(k)] = c->tt->dec(v);
      return NOOP;
    }
  } p;
  p.c = &c;
  p.sh = sh;
  db->ProcessEach(&p, false);
  sh->erase(-1);
}

struct Args {
  std::map<std::string, std::string> m;
  Args(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      const size_t p = a.find('=');
      if (p != std::string::npos) m[a.substr(0, p)] = a.substr(p + 1);
    }
  }
  std::string s(const std::string& k, const std::string& d = "") const {
    auto it = m.find(k);
    return it == m.end() ? d : it->second;
  }
  int64_t n(const std::string& k, int64_t d) const {
    auto it = m.find(k);
    return it == m.end() ? d : atoll(it->second.c_str());
  }
};
}  // namespace vh
