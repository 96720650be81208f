// Exports, imports and copies between two databases of random classes and interchange files.
// args: seed= n= ops= out= [only=index]
#include "core.h"
#include "tkrzw_file_poly.h"
#include <fstream>
#include <sstream>
using namespace vh;

typedef std::vector<std::pair<int, Val>> Items;
static std::string jitems(const Items& l) {
  JList j;
  for (auto& x : l) j.add("[" + jn(x.first) + "," + jv(x.second) + "]");
  return j.str();
}
static std::string Slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static void Spit(const std::string& p, const std::string& d) {
  std::ofstream f(p, std::ios::binary | std::ios::app);
  f << d;
}
// The format of flat records, written down once more.
static std::string EncRec(const std::string& d, bool meta) {
  std::string s(1, (char)(meta ? 0xFE : 0xFF));
  uint64_t n = d.size();
  std::string num;
  num.push_back(n & 0x7f);
  for (n >>= 7; n; n >>= 7) num.push_back((n & 0x7f) | 0x80);
  std::reverse(num.begin(), num.end());
  return s + num + d;
}
static bool DecRecs(const std::string& s, std::vector<std::pair<bool, std::string>>* out) {
  size_t p = 0;
  while (p < s.size()) {
    const uint8_t m = s[p++];
    if (m != 0xFE && m != 0xFF) return false;
    uint64_t n = 0;
    while (true) {
      if (p >= s.size()) return false;
      const uint8_t c = s[p++];
      n = (n << 7) | (c & 0x7f);
      if (c < 0x80) break;
    }
    if (n > s.size() - p) return false;
    out->emplace_back(m == 0xFE, s.substr(p, n));
    p += n;
  }
  return true;
}
static Items Pair(const std::vector<std::pair<bool, std::string>>& recs, const Ctx& c) {
  Items it;
  for (size_t i = 0; i < recs.size(); i++) {
    if (recs[i].first) it.emplace_back(0, c.tt->dec(recs[i].second));
    else if (i + 1 < recs.size() && !recs[i + 1].first) { const int k = c.kt->of(recs[i].second); it.emplace_back(k < 1 ? -2 : k, c.tt->dec(recs[i + 1].second)); i++; }
    else it.emplace_back(-1, Val{c.kt->of(recs[i].second)});
  }
  return it;
}
static std::string EncC(const std::string& s, Rng& r) {
  std::string o;
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '\\' || ch < 32 || ch == 127 || r.pct(20)) { snprintf(b, sizeof b, r.pct(50) ? "\\x%02x" : "\\x%02X", ch); o += b; }
    else o.push_back(ch);
  }
  return o;
}
static std::string DecC(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\') { o.push_back(s[i]); continue; }
    if (++i >= s.size()) return "*bad escape*";
    const char* q = strchr("a\ab\bt\tn\nv\vf\fr\r\\\\", s[i]);
    static const char* from = "abtnvfr\\";
    static const char* to = "\a\b\t\n\v\f\r\\";
    (void)q;
    const char* f = strchr(from, s[i]);
    if (f && *f) { o.push_back(to[f - from]); continue; }
    if (s[i] == 'x') { o.push_back((char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; continue; }
    int v = 0, n = 0;
    while (n < 3 && i < s.size() && s[i] >= '0' && s[i] <= '7') { v = v * 8 + s[i] - '0'; i++; n++; }
    if (n == 0) return "*bad escape*";
    i--;
    o.push_back((char)v);
  }
  return o;
}
static std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p < s.size()) {
    size_t q = s.find('\n', p);
    if (q == std::string::npos) q = s.size();
    v.push_back(s.substr(p, q - p));
    p = q + 1;
  }
  return v;
}
static Items TSV(const std::string& s, bool esc, const Ctx& c) {
  Items it;
  for (auto& l : Lines(s)) {
    const size_t p = l.find('\t');
    if (p == std::string::npos) { it.emplace_back(0, Val{}); continue; }
    std::string k = l.substr(0, p), v = l.substr(p + 1);
    if (esc) { k = DecC(k); v = DecC(v); }
    const int id = c.kt->of(k);
    it.emplace_back(id < 1 ? -2 : id, c.tt->dec(v));
  }
  return it;
}
static std::unique_ptr<File> MakeF(Rng& r, bool w, const std::string& path, Status* st) {
  const std::string f = r.pick({"mmap-para", "mmap-atom", "pos-para", "pos-atom", "std"});
#ifdef LANGC
  auto x = std::make_unique<CFile>("file=" + f);
  *st = x->Open(path, w, 0);
  return x;
#else
  auto x = std::make_unique<PolyFile>();
  *st = x->OpenAdvanced(path, w, 0, {{"file", f}});
  return x;
#endif
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 60);
  const int only = a.n("only", -1);
  FILE* out = fopen(a.s("out", "/dev/stdout").c_str(), "w");
  const std::string dir = MakeScratch();
  const char* classes[] = {"hash", "hash", "tree", "tree", "tiny", "baby", "cache", "stdhash", "stdtree", "shard"};
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    Rng r(seed * 1000033 + i);
    const int profile = r.pct(50) ? 0 : r.pct(60) ? 1 : 2;
    const bool txt = profile < 2 && r.pct(35);
    Cfg c[2];
    c[0] = RandCfg(r, classes[r.in(0, 9)], dir);
    const bool twin = r.pct(30) && c[0].file;
    if (twin) c[1] = c[0];
    else c[1] = RandCfg(r, classes[r.in(0, 9)], dir);
    static const std::set<std::string> special = {"case", "dec", "hex", "real", "sbe", "fbe"};
    bool cmpok[2] = {true, true};
    if (!twin) {
      // One key table for both: the second follows the order of the first where it can.
      const bool s0 = special.count(c[0].keykind);
      c[1].params.erase("key_comparator");
      if (s0) {
        const std::string d = c[1].params["dbm"];
        if (d == "TreeDBM" || d == "BabyDBM") c[1].params["key_comparator"] = c[0].params["key_comparator"];
        else cmpok[1] = false;
      }
      c[1].keykind = c[0].keykind;
    }
    if (txt && !special.count(c[0].keykind)) c[0].keykind = "num";
    else if (txt && (c[0].keykind == "sbe" || c[0].keykind == "fbe")) {
      for (int q = 0; q < 2; q++) { c[q].params.erase("key_comparator"); cmpok[q] = true; }
      c[0].keykind = "num";
    }
    c[1].keykind = c[0].keykind;
    for (int q = 0; q < 2; q++) {
      c[q].path = c[q].file ? dir + "/db" + jn(q) : "";
      if (profile == 2 && c[q].params.count("offset_width") && c[q].params["offset_width"] == "3") c[q].params["offset_width"] = "4";
    }
    KeyTab kt = MakeKeys(c[0].keykind, r.pickn({3, 6, 10, 16, 24}), r);
    TokTab tt;
    tt.build(r, profile);
    if (txt) for (int q = 1; q <= 200; q++) tt.toks[q] = std::string(1, (char)q);
    bool lines = true;  // keys which can be lines of text
    for (int k = 1; k <= kt.K(); k++) if (kt[k].find('\n') != std::string::npos) lines = false;
    GenCfg g;
    g.K = kt.K();
    g.maxtok = r.pickn({30, 200});
    g.intmod = 0;
    g.rempct = r.pickn({10, 30});
    Trace t;
    Watchdog(&t, out, 30);
    JList cf;
    for (int q = 0; q < 2; q++) {
      const bool ord = c[q].ordered && cmpok[q], sharded = c[q].shards > 1;
      cf.add("{\"fo\":" + jn(ord && !sharded) + ",\"eo\":" + jn(ord && !sharded) + ",\"so\":" + jn(ord) + "}");
    }
    t.ev("init").n("K", kt.K()).raw("cfgs", cf.str()).s("cfg1", c[0].str()).s("cfg2", c[1].str()).n("i", i).n("profile", profile).n("txt", txt).n("twin", twin);
    Rng mix(r.next());
    SeedTrace(seed * 1000 + i);
    Ctx cx{&kt, &tt, &mix};
    std::unique_ptr<ParamDBM> db[2];
    bool failed = false;
    for (int q = 0; q < 2; q++) {
      db[q] = MakeDB(c[q]);
      const Status s = db[q]->OpenAdvanced(c[q].path, true, 0, c[q].params);
      if (s != Status::SUCCESS) { t.ev("openfail").raw("r", "[\"" + std::string(stname(s)) + "\"]"); failed = true; }
    }
    enum { NONE, FLAT, TSVE, TSVP };
    int kind[3] = {NONE, NONE, NONE};
    auto FP = [&](int f) { return dir + "/f" + jn(f); };
    // A random half of the calls goes through the asynchronous adapter.
    const int len = r.in(nops / 2, nops * 3 / 2);
    Shadow sh;
    for (int j = 0; j < len && !failed; j++) {
      const int x = r.in(0, 1), y = 1 - x, f = r.in(0, 2);
      const int q = r.in(0, 99);
      if (q < 55) {
        ShadowFromDB(db[x].get(), cx, &sh);
        Op op = GenOp(r, g, sh);
        if (op.o == "clear" && r.pct(50)) op.o = "count";
        LogOp(t, op);
        t.n("x", x + 1).raw("r", ExecOp(db[x].get(), op, cx));
      } else if (q < 60) {
        Status st;
#ifndef LANGC
        if (r.pct(30)) { AsyncDBM as(db[x].get(), r.in(1, 2)); st = as.Export(db[y].get()).get(); }
        else
#endif
        st = db[x]->Export(db[y].get());
        t.ev("exp").n("x", x + 1).n("y", y + 1).raw("r", "[\"" + std::string(stname(st)) + "\"]");
      } else if (q < 72) {
        const int what = r.in(0, 3);   // flat, tsv, keys in flat records, keys as lines
        bool esc = !txt || r.pct(50);
        const bool uselines = what == 3;
        if (uselines && !lines) continue;
        Status st;
        const std::string path = what >= 2 ? dir + "/k" : FP(f);
        auto file = MakeF(r, true, path, &st);
        if (st == Status::SUCCESS) {
#ifdef LANGC
          CDBM* h = (CDBM*)db[x].get();
          CFile* cf2 = (CFile*)file.get();
          if (what == 0 && h->async()) st = h->Fut(tkrzw_async_dbm_export_to_flat_records(h->as, cf2->h));
          else if (what == 0) { CPoison(); st = CRes(tkrzw_dbm_export_to_flat_records(h->h, cf2->h)); }
          else if (what == 1) st = ExportDBMToTSV(h, file.get(), esc);
          else if (what == 2) st = ExportDBMKeysToFlatRecords(h, file.get());
          else { CPoison(); st = CRes(tkrzw_dbm_export_keys_as_lines(h->h, cf2->h)); }
#else
          if (what == 0 && r.pct(40)) { AsyncDBM as(db[x].get(), r.in(1, 2)); st = as.ExportToFlatRecords(file.get()).get(); }
          else if (what == 0) st = ExportDBMToFlatRecords(db[x].get(), file.get());
          else if (what == 1) st = ExportDBMToTSV(db[x].get(), file.get(), esc);
          else if (what == 2) st = ExportDBMKeysToFlatRecords(db[x].get(), file.get());
          else st = ExportDBMKeysAsLines(db[x].get(), file.get());
#endif
          st |= file->Close();
        }
        const std::string raw = Slurp(path);
        std::string res;
        if (what == 0 || what == 2) {
          std::vector<std::pair<bool, std::string>> recs;
          if (!DecRecs(raw, &recs)) res = "[]", st = Status(Status::APPLICATION_ERROR);
          else if (what == 0) { res = jitems(Pair(recs, cx)); kind[f] = FLAT; }
          else { Val ks; for (auto& z : recs) ks.push_back(z.first ? -3 : kt.of(z.second)); res = jv(ks); }
        } else if (what == 1) {
          res = jitems(TSV(raw, esc, cx));
          kind[f] = esc ? TSVE : TSVP;
        } else {
          Val ks;
          if (!raw.empty() && raw.back() != '\n') st = Status(Status::APPLICATION_ERROR);
          for (auto& z : Lines(raw)) ks.push_back(kt.of(z));
          res = jv(ks);
        }
        t.ev(what == 0 ? "toflat" : what == 1 ? "totsv" : "tokeys").n("x", x + 1).n("f", f + 1).n("esc", esc)
          .raw("r", "[\"" + std::string(stname(st)) + "\"," + res + "]");
      } else if (q < 78) {
        if (kind[f] == NONE) { if (r.pct(60)) continue; kind[f] = txt ? (int)r.in(1, 3) : (int)r.in(1, 2); }
        Items it;
        std::string raw;
        const int m = r.in(1, 4);
        // A file closed without its last line feed gets no more lines.
        const std::string cur = Slurp(FP(f));
        if (kind[f] != FLAT && !cur.empty() && cur.back() != '\n') continue;
        bool odd = kind[f] == FLAT && r.pct(8);
        {  // no more records behind a lone key: they would pair up differently
          std::vector<std::pair<bool, std::string>> recs;
          if (kind[f] == FLAT && DecRecs(cur, &recs)) {
            Items have = Pair(recs, cx);
            bool bad = false;
            for (auto& z : have) if (z.first == -1) bad = true;
            if (bad) continue;
          }
        }
        const bool through = kind[f] == FLAT && r.pct(50);
        Status st;
        std::unique_ptr<File> file;
        if (through) file = MakeF(r, true, FP(f), &st);
        auto Put = [&](const std::string& d, bool meta) {
          if (through) { FlatRecord fr(file.get()); st |= fr.Write(d, meta ? FlatRecord::RECORD_METADATA : FlatRecord::RECORD_NORMAL); }
          else raw += EncRec(d, meta);
        };
        for (int z = 0; z < m; z++) {
          const int k = r.in(1, kt.K());
          Val v = GenVal(r, g);
          if (kind[f] == FLAT) {
            if (r.pct(30)) { Put(tt.enc(v), true); it.emplace_back(0, v); }
            else { Put(kt[k], false); Put(tt.enc(v), false); it.emplace_back(k, v); }
          } else if (r.pct(25)) {
            raw += r.pick({"\n", "no record here\n", " \n", "x\\ty\n"});
            it.emplace_back(0, Val{});
          } else if (kind[f] == TSVE) {
            raw += EncC(kt[k], r) + "\t" + EncC(tt.enc(v), r) + "\n";
            it.emplace_back(k, v);
          } else {
            v.erase(std::remove(v.begin(), v.end(), 10), v.end());
            raw += kt[k] + "\t" + tt.enc(v) + "\n";
            it.emplace_back(k, v);
          }
        }
        if (odd) {
          const int k = r.in(1, kt.K());
          Put(kt[k], false);
          it.emplace_back(-1, Val{k});
          if (r.pct(50)) { Put("", true); it.emplace_back(0, Val{}); }
        }
        if (kind[f] != FLAT && it.back().first > 0 && r.pct(20)) raw.pop_back();
        if (through) st |= file->Close();
        else Spit(FP(f), raw);
        if (st != Status::SUCCESS) { t.ev("addfail"); failed = true; break; }
        t.ev("add").n("f", f + 1).raw("items", jitems(it));
      } else if (q < 84) {
        if (kind[f] != FLAT) continue;
        Status st;
        auto file = MakeF(r, false, FP(f), &st);
        std::vector<std::pair<bool, std::string>> recs;
        if (st == Status::SUCCESS) {
          if (r.pct(70)) {
            FlatRecordReader rd(file.get(), r.pickn({0, 1, 8, 9, 12, 64, 1000, 5000}));
            while (recs.size() < 100000) {
              std::string_view s;
              FlatRecord::RecordType ty;
              const Status u = r.pct(90) ? rd.Read(&s, &ty) : rd.Read(&s, &ty);
              if (u == Status::NOT_FOUND_ERROR) break;
              st |= u;
              if (u != Status::SUCCESS) break;
              recs.emplace_back(ty == FlatRecord::RECORD_METADATA, std::string(s));
            }
          } else {
            FlatRecord fr(file.get());
            int64_t off = 0, size = file->GetSizeSimple();
            while (off < size) {
              const Status u = fr.Read(off);
              st |= u;
              if (u != Status::SUCCESS) break;
              if ((int64_t)fr.GetOffset() != off) st |= Status(Status::APPLICATION_ERROR);
              recs.emplace_back(fr.GetRecordType() == FlatRecord::RECORD_METADATA, std::string(fr.GetData()));
              off += fr.GetWholeSize();
            }
          }
          st |= file->Close();
        }
        t.ev("rdflat").n("f", f + 1).raw("r", "[\"" + std::string(stname(st)) + "\"," + jitems(Pair(recs, cx)) + "]");
      } else if (q < 90) {
        if (kind[f] == NONE) continue;
        Status st;
        auto file = MakeF(r, r.pct(20), FP(f), &st);
        if (st == Status::SUCCESS) {
          if (kind[f] != FLAT) st = ImportDBMFromTSV(db[x].get(), file.get(), kind[f] == TSVE);
#ifdef LANGC
          else {
            CDBM* h = (CDBM*)db[x].get();
            CFile* cf2 = (CFile*)file.get();
            if (h->async()) st = h->Fut(tkrzw_async_dbm_import_from_flat_records(h->as, cf2->h));
            else { CPoison(); st = CRes(tkrzw_dbm_import_from_flat_records(h->h, cf2->h)); }
          }
#else
          else if (r.pct(40)) { AsyncDBM as(db[x].get(), r.in(1, 2)); st = as.ImportFromFlatRecords(file.get()).get(); }
          else st = ImportDBMFromFlatRecords(db[x].get(), file.get());
#endif
          const Status u = file->Close();
          if (st == Status::SUCCESS) st |= u;
        }
        t.ev("imp").n("x", x + 1).n("f", f + 1).raw("r", "[\"" + std::string(stname(st)) + "\"]");
      } else if (q < 95) {
        if (!c[x].file) continue;
        const bool ro = r.pct(25);
        Status st;
        if (ro) { st |= db[x]->Close(); st |= db[x]->OpenAdvanced(c[x].path, false, 0, c[x].params); }
        const std::string dest = dir + "/copy";
        if (r.pct(50)) for (int s = 0; s < std::max(1, c[x].shards); s++) {
          char b[32];
          snprintf(b, sizeof b, "-%05d-of-%05d", s, c[x].shards);
          Spit(dest + (c[x].shards ? b : ""), std::string(r.in(1, 70000), '\xee'));  // something to overwrite
        }
#ifndef LANGC
        if (r.pct(30)) { AsyncDBM as(db[x].get(), r.in(1, 2)); st |= as.CopyFileData(dest, r.pct(30)).get(); }
        else
#endif
        st |= db[x]->CopyFileData(dest, r.pct(30));
        if (ro) { Status u = db[x]->Close(); u |= db[x]->OpenAdvanced(c[x].path, true, 0, c[x].params); if (u != Status::SUCCESS) { t.ev("reopenfail"); failed = true; break; } }
        auto cp = MakeDB(c[x]);
        auto p = c[x].params;
        const bool wr = r.pct(50);
        // A healthy copy needs no restoration.
        if (p["dbm"] == "HashDBM" || p["dbm"] == "TreeDBM") p["restore_mode"] = "read_only";
        const Status u = cp->OpenAdvanced(dest, wr, wr && r.pct(50) ? File::OPEN_NO_CREATE : 0, p);
        std::string res = "[\"" + std::string(stname(st)) + "\",\"" + stname(u) + "\"";
        if (u == Status::SUCCESS) {
          Op op;
          op.o = "scan";
          const int64_t cnt = cp->CountSimple();
          JList l;
          auto it = cp->MakeIterator();
          it->First();
          int guard = 0;
          std::string k, v;
          while (guard++ < 100000 && it->Get(&k, &v) == Status::SUCCESS) { l.add("[" + jn(kt.of(k)) + "," + jv(tt.dec(v)) + "]"); it->Next(); }
          it.reset();
          res += "," + jn(cp->IsHealthy()) + "," + jn(cnt) + "," + l.str();
          cp->Close();
        }
        t.ev("copy").n("x", x + 1).n("ro", ro).raw("r", res + "]");
        cp.reset();
        for (int s = 0; s < std::max(1, c[x].shards); s++) {
          char b[32];
          snprintf(b, sizeof b, "-%05d-of-%05d", s, c[x].shards);
          unlink((dest + (c[x].shards ? b : "")).c_str());
        }
      } else if (q < 97) {
        if (!twin) continue;
        Status st = db[y]->Close();
        st |= db[x]->CopyFileData(c[y].path);
        st |= db[y]->OpenAdvanced(c[y].path, true, 0, c[y].params);
        t.ev("replace").n("x", x + 1).n("y", y + 1).raw("r", "[\"" + std::string(stname(st)) + "\"]");
      } else {
        Status st;
        const int z = r.in(0, 2);
        if (z == 0) st = db[x]->Synchronize(r.pct(30));
        else if (z == 1) st = db[x]->Rebuild();
        else if (c[x].file) { st = db[x]->Close(); st |= db[x]->OpenAdvanced(c[x].path, true, 0, c[x].params); }
        t.ev(z == 0 ? "sync" : z == 1 ? "rebuild" : "reopen").n("x", x + 1).raw("r", "[\"" + std::string(stname(st)) + "\"]");
        if (z == 2 && st != Status::SUCCESS) break;
      }
    }
    for (int q = 0; q < 2 && !failed; q++) {
      Op op;
      op.o = "scan";
      LogOp(t, op);
      t.n("x", q + 1).raw("r", ExecOp(db[q].get(), op, cx));
      if (c[q].file) db[q]->Close();
    }
    db[0].reset();
    db[1].reset();
    fputs(t.done().c_str(), out);
  }
  fclose(out);
  WipeDir(dir, true);
  return 0;
}
