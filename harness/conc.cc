// Concurrent histories. args: seed= n= ops= out= mode=direct|async|maint [cls=] [ulog=pct] [copying=1]
#define CRASHSIM_IMPL
#include "crashsim.h"
#include "tkrzw_dbm_ulog.h"
using namespace vh;
typedef std::map<std::string, std::string> SM;

// Calls of the allocator and of the file layer are where threads are made to give way.
static std::atomic<int> g_jit{0};
static thread_local uint64_t tl_rnd = 88172645463325252ULL ^ (uint64_t)pthread_self();
#ifdef VSCHED_H
static void Jit() { if (g_jit.v) vsched::Point(); }
#else
static void Jit() {
  const int j = g_jit.load(std::memory_order_relaxed);
  if (j == 0) return;
  tl_rnd ^= tl_rnd << 13; tl_rnd ^= tl_rnd >> 7; tl_rnd ^= tl_rnd << 17;
  const uint32_t c = (tl_rnd >> 20) % 1000;
  if (c < (uint32_t)j) {
    if (c % 8 == 0) usleep(1 + (tl_rnd >> 40) % 60);
    else sched_yield();
  }
}
#endif
void* operator new(size_t n) {
  Jit();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

struct Ev { int64_t ts; int id, th; bool inv; std::string js; };

// One asynchronous operation in flight.
struct Flight {
  int id;
  std::function<bool(bool wait, std::string* r)> poll;
};

int main(int argc, char** argv) {
  Args a(argc, argv);
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 16), only = a.n("only", -1), ulogpct = a.n("ulog", 20), cxmpct = a.n("cxm", 0), copying = a.n("copying", 0);
  const std::string mode = a.s("mode", "direct");
  FILE* out = fopen(a.s("out", "/dev/stdout").c_str(), "w");
  const std::string dir = MakeScratch(), cdir = MakeScratch();
  CrashSim sim;
  sim.yield = Jit;
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    WipeDir(cdir, false);
    Rng r(seed * 7000003 + i);
    std::string cls = a.s("cls", "");
    if (cls.empty()) {
      if (mode == "maint") cls = r.pick({"hash", "hash", "hash", "tree", "tree", "tree", "tiny", "baby", "cache", "stdhash", "stdtree", "shard"});
      else cls = r.pick({"hash", "hash", "hash", "tree", "tree", "tree", "tiny", "baby", "baby", "cache", "stdhash", "stdtree", "shard", "shard"});
    }
    Cfg c = RandCfg(r, cls, dir, true);
    if (c.params["file"] == "std") c.params["file"] = "mmap-para";
    // Records smaller than a block need the atomic file class when there are many threads.
    if (c.params["file"].compare(0, 8, "pos-para") == 0 && c.params.count("block_size")) {
      const int bs = atoi(c.params["block_size"].c_str());
      const int al = c.params.count("align_pow") ? 1 << atoi(c.params["align_pow"].c_str()) : 0;
      if (bs > 1 && (c.params["access_options"].find("direct") == std::string::npos || al < bs)) c.params["file"] = "pos-atom";
    }
    const std::string base = c.params["dbm"];
    KeyTab kt = MakeKeys(c.keykind, r.pickn({1, 2, 3, 4, 6}), r);
    if (base == "TreeDBM") { c.params["max_page_size"] = r.pick({"1", "32", "100", "300"}); c.params["max_branches"] = r.pick({"2", "3"}); }
    TokTab tt;
    tt.build(r, 0);
    GenCfg g;
    g.K = kt.K();
    g.maxtok = r.pickn({2, 4, 30});
    g.intmod = r.pickn({0, 2, 2, 3});
    g.rempct = r.pickn({10, 25});
    g.clear = false;
    g.each = false;
    const bool shard = c.cls == "shard";
    g.multi = !shard;
    g.first = !shard;
    // With a count, no operation may change the number of records in several steps.
    const bool counts = r.pct(25) && !shard && base != "CacheDBM";
    const int T = mode == "async" ? r.in(1, 2) : r.in(2, 4);
    const int workers = mode == "async" ? r.pickn({1, 1, 2, 4}) : 0;
    const int depth = mode == "async" ? r.in(1, 4) : 1;
    const bool ulog = r.pct(ulogpct);
    Trace t;
    Watchdog(&t, out, 60);
    t.ev("init").n("K", kt.K()).n("fo", c.ordered).n("eo", c.ordered).n("so", c.ordered).n("sf", base == "StdHashDBM" || base == "StdTreeDBM")
      .n("fifo", workers == 1).n("P", mode == "async" ? T * depth + 1 : T + 1 + (mode == "maint" ? kt.K() : 0)).s("mode", mode).s("cfg", c.str()).n("i", i);
    g_sim = r.pct(60) ? &sim : nullptr;
    std::unique_ptr<ParamDBM> db = MakeDB(c);
    Rng mix0(r.next());
    Ctx cx0{&kt, &tt, &mix0};
    Status s = db->OpenAdvanced(c.path, true, 0, c.params);
    if (s != Status::SUCCESS) {
      t.ev("openfail").raw("r", "[\"" + std::string(stname(s)) + "\"]");
      fputs(t.done().c_str(), out);
      continue;
    }
    // The logger sees the changes in the order of their publication.
    struct Log : public DBM::UpdateLogger {
      std::mutex m;
      const KeyTab* kt;
      const TokTab* tt;
      JList l;
      Status WriteSet(std::string_view k, std::string_view v) override {
        Jit();
        std::lock_guard<std::mutex> g(m);
        l.add("[" + jn(kt->of(k)) + "," + jv(tt->dec(v)) + "]");
        return Status(Status::SUCCESS);
      }
      Status WriteRemove(std::string_view k) override {
        Jit();
        std::lock_guard<std::mutex> g(m);
        l.add("[" + jn(kt->of(k)) + "," + jv(ABSENT) + "]");
        return Status(Status::SUCCESS);
      }
      Status WriteClear() override {
        std::lock_guard<std::mutex> g(m);
        l.add("[0," + jv(ABSENT) + "]");
        return Status(Status::SUCCESS);
      }
    } log;
    log.kt = &kt;
    log.tt = &tt;
    if (ulog) db->SetUpdateLogger(&log);
    std::atomic<int64_t> clk{0};
    std::atomic<int> ready{0};
    std::vector<std::vector<Ev>> evs(T + 1);
    const int opsper = std::max(3, nops / T + (int)r.in(-2, 3));
    const int jit = r.pickn({0, 5, 30, 100});
    std::vector<uint64_t> seeds;
    for (int x = 0; x <= T; x++) seeds.push_back(r.next());
    std::unique_ptr<AsyncDBM> async;
    struct Post : public AsyncDBM::CommonPostprocessor {
      std::atomic<int64_t>* n;
      void Postprocess(const char* name, const Status& status) override { n->fetch_add(1); }
    };
    std::atomic<int64_t> posts{0};
    int64_t started = 0;
    std::atomic<int64_t> started_a{0};
    if (mode == "async") {
      async = std::make_unique<AsyncDBM>(db.get(), workers);
      if (r.pct(50)) {
        auto p = std::make_unique<Post>();
        p->n = &posts;
        async->SetCommonPostprocessor(std::move(p));
      } else posts = -1;
    }
    const bool want_post = posts.load() >= 0;
    std::atomic<int> alive{T};
    auto GenOne = [&](Rng& rr, Shadow& sh) {
      if (shard && mode == "direct" && rr.pct(cxmpct)) {
        GenCfg g2 = g;
        g2.multi = true;
        Op op;
        do op = GenOp(rr, g2, sh); while (op.o != "cxm" || op.kvs.size() + op.kvs2.size() == 0);
        return op;
      }
      while (true) {
        Op op = GenOp(rr, g, sh);
        const std::string& o = op.o;
        if (o == "getm" || o == "setm" || o == "remm" || o == "appm" || o == "scan" || o == "clear" || o == "proceach") continue;
        if (o == "count" && !counts) continue;
        if (counts && (o == "procm" || o == "cxm" || o == "rekey")) continue;
        if (shard && o == "rekey") continue;
        return op;
      }
    };
    auto Learn = [&](Shadow& sh, const Op& op, const std::string& res) {
      if (op.o == "set" && res.compare(0, 5, "[\"ok\"") == 0) sh[op.k] = op.v;
      if (op.o == "rem") sh.erase(op.k);
    };
    auto Body = [&](int th) {
      Rng rr(seeds[th]);
      Rng mix(rr.next());
      Ctx cx{&kt, &tt, &mix};
      Shadow sh;
      auto& E = evs[th];
      tl_rnd ^= seeds[th] | 1;
      ready.fetch_add(1);
#ifndef VSCHED_H
      while (ready.load() < T) {}
#endif
      if (mode != "async") {
        for (int j = 0; j < opsper; j++) {
          Op op = GenOne(rr, sh);
          Trace tmp;
          LogOp(tmp, op);
          std::string head = tmp.cur;
          tmp.cur.clear();
          const int64_t t0 = clk.fetch_add(1);
          const std::string res = ExecOp(db.get(), op, cx);
          const int64_t t1 = clk.fetch_add(1);
          Learn(sh, op, res);
          E.push_back({t0, th, th, true, head + ",\"r\":" + res + "}"});
          E.push_back({t1, th, th, false, ""});
          if (rr.pct(20)) Jit();
        }
        alive.fetch_sub(1);
        return;
      }
      std::vector<Flight> fl;
      std::set<int> freeids;
      for (int d = 0; d < depth; d++) freeids.insert((th - 1) * depth + d + 1);
      std::map<int, std::string> heads;
      std::map<int, int64_t> t0s;
      auto Reap = [&](bool wait) {
        for (size_t x = 0; x < fl.size();) {
          std::string res;
          if (!fl[x].poll(wait, &res)) { x++; continue; }
          const int64_t t1 = clk.fetch_add(1);
          const int id = fl[x].id;
          E.push_back({t0s[id], id, th, true, heads[id] + ",\"r\":" + res + "}"});
          E.push_back({t1, id, th, false, ""});
          freeids.insert(id);
          fl.erase(fl.begin() + x);
          wait = false;
        }
      };
      for (int j = 0; j < opsper; j++) {
        if (freeids.empty()) Reap(true);
        else Reap(false);
        Op op = GenOne(rr, sh);
        while (op.o == "count" || op.o == "getsz") op = GenOne(rr, sh);
        if (op.o == "incr") op.c = false;
        Trace tmp;
        LogOp(tmp, op);
        const int id = *freeids.begin();
        freeids.erase(freeids.begin());
        heads[id] = tmp.cur;
        tmp.cur.clear();
        // The arguments die as soon as the call has returned.
        auto buf = std::make_unique<std::vector<std::string>>();
        buf->reserve(64);
        auto B = [&](const std::string& x) -> std::string_view { buf->push_back(x); return buf->back(); };
        auto X = [&](const Val& v) -> std::string_view {
          if (v == ABSENT) return std::string_view();
          if (v == ANY) return DBM::ANY_DATA;
          return B(tt.enc(v));
        };
        auto St = [](std::future<Status>&& f) {
          auto sf = std::make_shared<std::future<Status>>(std::move(f));
          return [sf](bool wait, std::string* r) {
            if (!wait && sf->wait_for(std::chrono::seconds(0)) != std::future_status::ready) return false;
            *r = "[\"" + std::string(stname(sf->get())) + "\"]";
            return true;
          };
        };
        Flight f;
        f.id = id;
        // Record processors have a callback of their own instead of the common one.
        if (op.o != "proc" && op.o != "procfirst" && op.o != "procm") started_a.fetch_add(1);
        t0s[id] = clk.fetch_add(1);
        const std::string& o = op.o;
        const TokTab* T_ = &tt;
        const KeyTab* K_ = &kt;
        if (o == "get") {
          auto sf = std::make_shared<std::future<std::pair<Status, std::string>>>(async->Get(B(kt[op.k])));
          f.poll = [sf, T_](bool wait, std::string* r) {
            if (!wait && sf->wait_for(std::chrono::seconds(0)) != std::future_status::ready) return false;
            auto p = sf->get();
            *r = "[\"" + std::string(stname(p.first)) + "\"," + jv(p.first == Status::SUCCESS ? T_->dec(p.second) : ABSENT) + "]";
            return true;
          };
        } else if (o == "set") f.poll = St(async->Set(B(kt[op.k]), B(tt.enc(op.v)), op.w));
        else if (o == "rem") f.poll = St(async->Remove(B(kt[op.k])));
        else if (o == "app") f.poll = St(async->Append(B(kt[op.k]), B(tt.enc(op.v)), B(tt.enc(op.d))));
        else if (o == "cmpx") f.poll = St(async->CompareExchange(B(kt[op.k]), X(op.v), X(op.d)));
        else if (o == "rekey") f.poll = St(async->Rekey(B(kt[op.k]), B(kt[op.k2]), op.w, op.c));
        else if (o == "cxm") {
          std::vector<std::pair<std::string_view, std::string_view>> es, ds;
          for (auto& x : op.kvs) es.emplace_back(B(kt[x.k]), X(x.v));
          for (auto& x : op.kvs2) ds.emplace_back(B(kt[x.k]), X(x.v));
          f.poll = St(async->CompareExchangeMulti(es, ds));
        } else if (o == "incr") {
          auto sf = std::make_shared<std::future<std::pair<Status, int64_t>>>(async->Increment(B(kt[op.k]), op.n, op.n2));
          f.poll = [sf](bool wait, std::string* r) {
            if (!wait && sf->wait_for(std::chrono::seconds(0)) != std::future_status::ready) return false;
            auto p = sf->get();
            *r = "[\"" + std::string(stname(p.first)) + "\"," + jn(p.second < -1000000 || p.second > 1000000 ? -999999 : p.second) + "]";
            return true;
          };
        } else if (o == "popfirst") {
          auto sf = std::make_shared<std::future<std::pair<Status, std::pair<std::string, std::string>>>>(async->PopFirst());
          f.poll = [sf, T_, K_](bool wait, std::string* r) {
            if (!wait && sf->wait_for(std::chrono::seconds(0)) != std::future_status::ready) return false;
            auto p = sf->get();
            if (p.first == Status::SUCCESS) *r = "[\"ok\"," + jn(K_->of(p.second.first)) + "," + jv(T_->dec(p.second.second)) + "]";
            else *r = "[\"" + std::string(stname(p.first)) + "\",0," + jv(ABSENT) + "]";
            return true;
          };
        } else if (o == "proc" || o == "procfirst") {
          struct AP : public AsyncDBM::RecordProcessor {
            RecProc p;
            Status st{Status::UNKNOWN_ERROR};
            int sts = 0;
            std::string_view ProcessFull(std::string_view k, std::string_view v) override { Jit(); return p.ProcessFull(k, v); }
            std::string_view ProcessEmpty(std::string_view k) override { Jit(); return p.ProcessEmpty(k); }
            void ProcessStatus(const Status& s) override { st = s; sts++; }
          };
          auto ap = std::make_unique<AP>();
          ap->p.tt = &tt;
          ap->p.fa = op.fa; ap->p.ea = op.ea;
          ap->p.prep();
          const bool first = o == "procfirst";
          if (!first) { ap->p.checkkey = true; ap->p.expkey = kt[op.k]; }
          typedef std::pair<Status, std::unique_ptr<AP>> PR;
          auto sf = std::make_shared<std::future<PR>>(first ? async->ProcessFirst(std::move(ap), op.w) : async->Process(B(kt[op.k]), std::move(ap), op.w));
          f.poll = [sf, first, K_](bool wait, std::string* r) {
            if (!wait && sf->wait_for(std::chrono::seconds(0)) != std::future_status::ready) return false;
            auto p = sf->get();
            AP& q = *p.second;
            const int bad = q.p.badkey + (q.sts != 1) + (q.st != p.first);
            if (first) *r = "[\"" + std::string(bad ? "badstatus" : stname(p.first)) + "\"," + jn(q.p.full ? K_->of(q.p.rawkey) : 0) + "," + jv(q.p.seen) + "]";
            else *r = "[\"" + std::string(stname(p.first)) + "\"," + jv(q.p.seen) + "," + jn(q.p.called) + "," + jn(bad) + "]";
            return true;
          };
        } else if (o == "procm") {
          struct MP : public RecProc {};
          struct AM : public AsyncDBM::RecordProcessor {
            RecProc p;
            int sts = 0;
            std::string_view ProcessFull(std::string_view k, std::string_view v) override { return p.ProcessFull(k, v); }
            std::string_view ProcessEmpty(std::string_view k) override { return p.ProcessEmpty(k); }
            void ProcessStatus(const Status& s) override { sts++; }
          };
          std::vector<std::pair<std::string_view, std::shared_ptr<AM>>> l;
          for (auto& x : op.pl) {
            auto ap = std::make_shared<AM>();
            ap->p.tt = &tt;
            ap->p.fa = x.second.first;
            ap->p.ea = x.second.second;
            ap->p.prep();
            ap->p.checkkey = true;
            ap->p.expkey = kt[x.first];
            l.emplace_back(B(kt[x.first]), ap);
          }
          typedef std::pair<Status, std::vector<std::shared_ptr<AM>>> PR;
          auto sf = std::make_shared<std::future<PR>>(async->ProcessMulti(l, op.w));
          f.poll = [sf](bool wait, std::string* r) {
            if (!wait && sf->wait_for(std::chrono::seconds(0)) != std::future_status::ready) return false;
            auto p = sf->get();
            JList seen;
            int called = 0, bad = 0;
            for (auto& q : p.second) { seen.add(jv(q->p.seen)); called += q->p.called; bad += q->p.badkey + (q->sts != 1); }
            *r = "[\"" + std::string(stname(p.first)) + "\"," + seen.str() + "," + jn(called) + "," + jn(bad) + "]";
            return true;
          };
        } else abort();
        for (auto& x : *buf) for (auto& ch : x) ch = '#';
        fl.push_back(std::move(f));
      }
      while (!fl.empty()) Reap(true);
      alive.fetch_sub(1);
    };
    // Maintenance, at the same time.
    std::vector<std::string> copies;
    auto Maint = [&]() {
      Rng rr(seeds[0]);
      auto& E = evs[0];
      const int id = T + 1;
      tl_rnd ^= seeds[0] | 1;
      const int max = rr.in(1, 6);
      for (int j = 0; j < max; j++) {
        const int q = copying && rr.pct(70) ? rr.in(7, 11) : rr.in(0, 11);
        if (j > 1 && alive.load() == 0) break;
        if (!c.file && q >= 4 && q < 10) continue;
        if (q >= 10) {
          // An export is one visit of all records, which are those of one instant where the visit locks
          // the whole database, and each one of an instant of its own elsewhere.
          const bool whole = !shard && (base == "HashDBM" || base == "StdHashDBM" || base == "StdTreeDBM");
          if (rr.pct(35)) {
            // A visit which updates the records.
            struct Each : public DBM::RecordProcessor {
              const TokTab* tt;
              const KeyTab* kt;
              std::vector<Act> acts;
              std::vector<int> order;
              std::map<int, std::vector<Val>> seen;
              std::string tmp;
              std::string_view ProcessFull(std::string_view key, std::string_view value) override {
                Jit();
                const int k = kt->of(key);
                seen[k].push_back(tt->dec(value));
                order.push_back(k);
                if (k < 1) return NOOP;
                if (acts[k].t == 1) return REMOVE;
                if (acts[k].t == 0) return NOOP;
                tmp = tt->enc(acts[k].v);
                return tmp;
              }
            } p;
            p.tt = &tt;
            p.kt = &kt;
            for (int k = 0; k <= kt.K(); k++) p.acts.push_back(k ? GenAct(rr, g, k) : Act());
            const int64_t t0 = clk.fetch_add(1);
            const Status st = db->ProcessEach(&p, true);
            const int64_t t1 = clk.fetch_add(1);
            bool sane = st == Status::SUCCESS;
            for (auto& x : p.seen) if (x.first < 1 || x.second.size() != 1) sane = false;
            if (!sane) {
              E.push_back({t0, id, id, true, "{\"o\":\"badvisit\",\"r\":[\"" + std::string(stname(st)) + "\"]}"});
              E.push_back({t1, id, id, false, ""});
            } else if (whole) {
              JList l, as;
              for (int k : p.order) l.add("[" + jn(k) + "," + jv(p.seen[k][0]) + "]");
              for (int k = 1; k <= kt.K(); k++) as.add(ja(p.acts[k]));
              E.push_back({t0, id, id, true, "{\"o\":\"proceach\",\"w\":1,\"as\":" + as.str() + ",\"r\":[\"ok\"," + l.str() + ",2,1]}"});
              E.push_back({t1, id, id, false, ""});
            } else {
              for (int k = 1; k <= kt.K(); k++) {
                auto it = p.seen.find(k);
                const std::string r2 = it == p.seen.end() ? "[\"ok\"," + jv(ABSENT) + ",1,0]" : "[\"ok\"," + jv(it->second[0]) + ",1,0]";
                E.push_back({t0, id + k, id, true, "{\"o\":\"proc\",\"k\":" + jn(k) + ",\"fa\":" + ja(p.acts[k]) + ",\"ea\":[0,[]],\"w\":1,\"r\":" + r2 + "}"});
                E.push_back({t1, id + k, id, false, ""});
              }
            }
            continue;
          }
          JList l;
          std::map<int, Val> got;
          bool dupl = false;
          const int64_t t0 = clk.fetch_add(1);
          Status st;
          if (rr.pct(50)) {
            StdTreeDBM dst;
            st |= db->Export(&dst);
            auto it = dst.MakeIterator();
            it->First();
            std::string k, v;
            std::vector<KV> kvs;
            while (it->Get(&k, &v) == Status::SUCCESS) { kvs.push_back({kt.of(k), tt.dec(v)}); it->Next(); }
            std::sort(kvs.begin(), kvs.end(), [](const KV& x, const KV& y) { return x.k < y.k; });
            for (auto& x : kvs) { l.add("[" + jn(x.k) + "," + jv(x.v) + "]"); got[x.k] = x.v; }
          } else {
            StdFile f;
            st = f.Open(cdir + "/x", true, File::OPEN_TRUNCATE);
            st |= ExportDBMToFlatRecords(db.get(), &f);
            FlatRecordReader rd(&f);
            std::string_view k, v;
            while (rd.Read(&k) == Status::SUCCESS) {
              const int id2 = kt.of(k);
              if (rd.Read(&v) != Status::SUCCESS) break;
              l.add("[" + jn(id2) + "," + jv(tt.dec(v)) + "]");
              if (id2 < 1 || !got.emplace(id2, tt.dec(v)).second) dupl = true;
            }
            st |= f.Close();
          }
          const int64_t t1 = clk.fetch_add(1);
          if (whole) {
            E.push_back({t0, id, id, true, "{\"o\":\"proceach\",\"w\":0,\"r\":[\"" + std::string(stname(st)) + "\"," + l.str() + ",2,1]}"});
            E.push_back({t1, id, id, false, ""});
          } else {
            for (int k = 1; k <= kt.K(); k++) {
              auto it = got.find(k);
              std::string r2 = it == got.end() ? "[\"nf\"," + jv(ABSENT) + "]" : "[\"ok\"," + jv(it->second) + "]";
              if (st != Status::SUCCESS || dupl) r2 = "[\"badexport\"]";
              E.push_back({t0, id + k, id, true, "{\"o\":\"get\",\"k\":" + jn(k) + ",\"r\":" + r2 + "}"});
              E.push_back({t1, id + k, id, false, ""});
            }
          }
          continue;
        }
        if (q < 4) {
          SM p;
          if ((base == "HashDBM" || base == "TreeDBM") && rr.pct(60)) {
            SM z;
            RandHashTune(rr, &z, base == "TreeDBM");
            if (base == "TreeDBM") RandTreeTune(rr, &z);
            for (auto& x : z) {
              if (x.first == "record_comp_mode" || x.first == "cipher_key" || x.first == "cache_buckets") continue;
              if (rr.pct(50)) p[x.first] = x.second;
            }
          }
          const int64_t t0 = clk.fetch_add(1);
          const Status st = db->RebuildAdvanced(p);
          const int64_t t1 = clk.fetch_add(1);
          E.push_back({t0, id, id, true, "{\"o\":\"rebuild\",\"r\":[\"" + std::string(stname(st)) + "\"]}"});
          E.push_back({t1, id, id, false, ""});
        } else if (q < 7) {
          const int64_t t0 = clk.fetch_add(1);
          const Status st = db->Synchronize(rr.pct(30));
          const int64_t t1 = clk.fetch_add(1);
          E.push_back({t0, id, id, true, "{\"o\":\"sync\",\"r\":[\"" + std::string(stname(st)) + "\"]}"});
          E.push_back({t1, id, id, false, ""});
        } else {
          const std::string dest = cdir + "/c" + jn(j);
          const int64_t t0 = clk.fetch_add(1);
          Status st = db->CopyFileData(dest, rr.pct(20));
          const int64_t t1 = clk.fetch_add(1);
          if (st == Status::SUCCESS) {
            auto cp = MakeDB(c);
            auto p = c.params;
            if (rr.pct(60)) { p.erase("restore_mode"); p["restore_mode"] = "read_only"; }
            const bool wr = rr.pct(50);
            if (base != "HashDBM" && base != "TreeDBM") p.erase("restore_mode");
            st = cp->OpenAdvanced(dest, wr, 0, p);
            if (st == Status::SUCCESS) {
              Op op;
              op.o = "scan";
              Ctx cx{&kt, &tt, nullptr};
              const bool hl = cp->IsHealthy();
              if (shard && hl) {
                // Every shard is copied at an instant of its own.
                for (int k = 1; k <= kt.K(); k++) {
                  Op g2;
                  g2.o = "get";
                  g2.k = k;
                  E.push_back({t0, id + k, id, true, "{\"o\":\"get\",\"cp\":1,\"k\":" + jn(k) + ",\"r\":" + ExecOp(cp.get(), g2, cx) + "}"});
                  E.push_back({t1, id + k, id, false, ""});
                }
                cp->Close();
                continue;
              }
              std::string res = ExecOp(cp.get(), op, cx);
              if (!hl) res = "[\"unhealthy\"]";
              cp->Close();
              E.push_back({t0, id, id, true, "{\"o\":\"scan\",\"cp\":1,\"r\":" + res + "}"});
              E.push_back({t1, id, id, false, ""});
            }
          }
          if (st != Status::SUCCESS) {
            E.push_back({t0, id, id, true, "{\"o\":\"sync\",\"cp\":1,\"r\":[\"" + std::string(stname(st)) + "\"]}"});
            E.push_back({t1, id, id, false, ""});
          }
        }
      }
    };
#ifdef VSCHED_H
    vsched::Policy(seed * 7000003 + i, -1, 100 * nops);
    vsched::S().cap = 20000000;
    g_jit = jit > 0;
#else
    g_jit = jit;
#endif
    {
      std::vector<std::thread> ths;
      for (int th = 1; th <= T; th++) ths.emplace_back(Body, th);
      if (mode == "maint") Maint();
      for (auto& th : ths) th.join();
      g_jit = 0;
      started = started_a.load();
      async.reset();
    }
    std::vector<Ev> all;
    for (auto& x : evs) for (auto& e : x) all.push_back(e);
    std::sort(all.begin(), all.end(), [](const Ev& x, const Ev& y) { return x.ts < y.ts; });
    for (auto& e : all) {
      if (e.inv) t.ev("inv").n("id", e.id).n("th", e.th).raw("op", e.js);
      else t.ev("ret").n("id", e.id);
    }
    if (mode == "async" && want_post && posts.load() != started) t.ev("lost").n("posts", posts.load()).n("started", started);
    Op op;
    op.o = "scan";
    auto Final = [&](const std::string& o) {
      op = Op();
      op.o = o;
      Trace tmp;
      LogOp(tmp, op);
      std::string head = tmp.cur;
      tmp.cur.clear();
      t.ev("seq").raw("op", head + ",\"r\":" + ExecOp(db.get(), op, cx0) + "}");
    };
    Final("scan");
    Final("count");
    if (ulog) {
      t.ev("ulog").raw("l", log.l.str());
      db->SetUpdateLogger(nullptr);
    }
    s = db->Close();
    if (c.file) {
      s |= db->OpenAdvanced(c.path, true, 0, c.params);
      t.ev("reopen").raw("r", "[\"" + std::string(stname(s)) + "\"]");
      if (s == Status::SUCCESS) { Final("scan"); Final("count"); db->Close(); }
    }
    db.reset();
    g_sim = nullptr;
    fputs(t.done().c_str(), out);
  }
  fclose(out);
  WipeDir(dir, true);
  WipeDir(cdir, true);
  return 0;
}
