// Searching the keys of databases and the lines of text files.
// args: seed= n= ops= out= [only=index]
#include "core.h"
#include "tkrzw_file_poly.h"
#include "tkrzw_dbm_async.h"
#include <fstream>
using namespace vh;

static std::string jc(const std::string& s) {
  Val v;
  for (unsigned char ch : s) v.push_back(ch);
  return jv(v);
}
static std::string jcs(const std::vector<std::string>& l) {
  JList j;
  for (auto& s : l) j.add(jc(s));
  return j.str();
}
static std::string Lo(std::string s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }

// Units of which strings are made.
struct Alpha {
  std::vector<std::string> u;
  bool wordy = false;   // words which overlap and adjoin
  std::string one(Rng& r) const { return u[r.in(0, u.size() - 1)]; }
  std::string str(Rng& r, int n) const { std::string s; while (n-- > 0) s += one(r); return s; }
};
static Alpha MakeAlpha(Rng& r, int profile) {
  Alpha a;
  static const std::vector<std::string> ascii = {"a", "b", "c", "A", "B", "z", "Z", "0", "9", "-", " ", "_", "/", ":", "@", "[", "`", "{"};
  static const std::vector<std::string> wide = {"\xc3\xa9", "\xc3\x89", "\xe3\x81\x82", "\xe3\x81\x84", "\xf0\x9f\x98\x80"};
  static const std::vector<std::string> bin = {std::string(1, '\0'), "\x01", "\x7f", "\x80", "\xc1", "\xe1", "\xff", "\r"};
  const int n = r.in(2, 6);
  for (int i = 0; i < n; i++) a.u.push_back(ascii[r.in(0, r.pct(50) ? 4 : (int)ascii.size() - 1)]);
  a.wordy = r.pct(30);
  if (a.wordy) a.u = {r.pick({"a", "A", "0"}), r.pick({"-", " ", "_"})};
  if (profile == 1) for (int i = 0; i < 3; i++) a.u.push_back(r.pick(wide));
  if (profile == 2) for (int i = 0; i < 3; i++) a.u.push_back(r.pick(bin));
  return a;
}

// A regular expression: its source and its tree.
struct Re { std::string src, tree; };
static std::string Lit(unsigned char ch) {
  std::string s;
  if (strchr("\\^$.|?*+()[]{}/-", ch)) s = "\\";
  return s + (char)ch;
}
static Re GenRe(Rng& r, const std::string& pool, int depth, bool ic) {
  auto code = [&](unsigned char ch) { return jn(ic && ch >= 'A' && ch <= 'Z' ? ch + 32 : ch); };
  const int q = depth <= 0 ? r.in(0, 59) : r.in(0, 99);
  auto any = [&]() { return (unsigned char)pool[r.in(0, pool.size() - 1)]; };
  if (q < 40) { const auto ch = any(); return {Lit(ch), "[\"c\"," + code(ch) + "]"}; }
  if (q < 48) return {".", "[\"any\",0]"};
  if (q < 60) {
    const bool no = r.pct(40);
    std::string s = no ? "[^" : "[";
    JList j;
    for (int i = r.in(1, 3); i > 0; i--) {
      const auto ch = any();
      if (strchr("\\]^-[", ch)) s += "\\";
      s += (char)ch;
      j.add(code(ch));
    }
    return {s + "]", std::string("[\"") + (no ? "not" : "set") + "\"," + j.str() + "]"};
  }
  const Re a = GenRe(r, pool, depth - 1, ic);
  if (q < 80) { const Re b = GenRe(r, pool, depth - 1, ic); return {a.src + b.src, "[\"cat\"," + a.tree + "," + b.tree + "]"}; }
  if (q < 88) { const Re b = GenRe(r, pool, depth - 1, ic); return {"(" + a.src + "|" + b.src + ")", "[\"alt\"," + a.tree + "," + b.tree + "]"}; }
  const int k = r.in(0, 2);
  return {"(" + a.src + ")" + "*?+"[k] + (r.pct(20) ? "?" : ""), std::string("[\"") + (k == 0 ? "star" : k == 1 ? "opt" : "plus") + "\"," + a.tree + "]"};
}
static Re TopRe(Rng& r, const std::string& pool, bool ic) {
  Re x = GenRe(r, pool, r.in(0, 3), ic);
  if (r.pct(25)) x = {"^" + x.src, "[\"cat\",[\"bol\",0]," + x.tree + "]"};
  if (r.pct(25)) x = {x.src + "$", "[\"cat\"," + x.tree + ",[\"eol\",0]]"};
  return x;
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  const uint64_t seed = a.n("seed", 1);
  const int n = a.n("n", 10), nops = a.n("ops", 40);
  const int only = a.n("only", -1);
  FILE* out = fopen(a.s("out", "/dev/stdout").c_str(), "w");
  const std::string dir = MakeScratch();
  const char* classes[] = {"hash", "tree", "tree", "baby", "skip", "stdtree", "shard", "shard", "tiny", "cache", "stdhash"};
  for (int i = 0; i < n; i++) {
    if (only >= 0 && i != only) continue;
    WipeDir(dir, false);
    Rng r(seed * 1000033 + i);
    const int profile = r.pct(50) ? 0 : r.pct(60) ? 1 : 2;
    Cfg c = RandCfg(r, classes[r.in(0, 10)], dir);
    c.params.erase("key_comparator");
    int ord = c.ordered ? 1 : 0;
    if ((c.params["dbm"] == "TreeDBM" || c.params["dbm"] == "BabyDBM") && r.pct(25)) {
      c.params["key_comparator"] = "LexicalCaseKeyComparator";
      ord = 2;
    }
    if (c.params["dbm"] == "HashDBM" || c.params["dbm"] == "TreeDBM" || c.params["dbm"] == "SkipDBM")
      if (c.params.count("offset_width") && c.params["offset_width"] == "3") c.params["offset_width"] = "4";
    const bool skip = c.params["dbm"] == "SkipDBM";
    const Alpha al = MakeAlpha(r, profile);
    Trace t;
    Watchdog(&t, out, 30);
    t.ev("init").n("ord", ord).s("cfg", c.str()).n("i", i).n("profile", profile);
    SeedTrace(seed * 1000 + i);
    auto db = MakeDB(c);
    Status st = db->OpenAdvanced(c.path, true, 0, c.params);
    if (st != Status::SUCCESS) { t.ev("openfail").s("r", stname(st)); fputs(t.done().c_str(), out); continue; }
    const std::string fcls = r.pick({"mmap-para", "mmap-atom", "pos-para", "pos-atom", "std"});
#ifdef LANGC
    auto file = std::make_unique<CFile>("file=" + fcls);
    st = file->Open(dir + "/text", true, 0);
#else
    auto file = std::make_unique<PolyFile>();
    st = file->OpenAdvanced(dir + "/text", true, 0, {{"file", fcls}});
#endif
    if (st != Status::SUCCESS) { t.ev("openfail").s("r", stname(st)); fputs(t.done().c_str(), out); continue; }
    const bool big = r.pct(6);   // more text than one reading of the file takes
    std::set<std::string> keys;
    std::set<std::string> low;
    std::vector<std::string> lines;
    auto Sync = [&]() { if (skip) t.ev("keep").s("r", stname(db->Synchronize(false))); };
    auto AddKeys = [&](int m) {
      for (int z = 0; z < m; z++) {
        std::string k = al.str(r, r.pct(10) ? 0 : r.in(1, al.wordy ? 9 : r.pct(20) ? 8 : 4));
        if (!keys.empty() && r.pct(40)) k = *std::next(keys.begin(), r.in(0, keys.size() - 1)) + al.one(r);
        if (k.size() > 16) continue;
        if (ord == 2 && !keys.count(k) && low.count(Lo(k))) continue;  // two spellings of one key
        if (skip && keys.count(k)) continue;
        t.ev("set").raw("k", jc(k)).s("r", stname(db->Set(k, std::string(r.in(0, 40), 'v'))));
        keys.insert(k);
        low.insert(Lo(k));
      }
      Sync();
    };
    auto SetText = [&]() {
      lines.clear();
      int m = r.in(0, 14);
      if (big) m = r.in(700, 1500);
      for (int z = 0; z < m; z++) lines.push_back(r.pct(10) ? "" : al.str(r, r.in(1, big || al.wordy ? 9 : 5)));
      if (big && r.pct(50)) lines[r.in(0, m - 1)] = al.str(r, 5000);
      std::string text;
      for (auto& s : lines) text += s + "\n";
      if (!lines.empty() && !lines.back().empty() && r.pct(40)) text.pop_back();
      Status s = file->Truncate(0);
      if (!text.empty()) s |= file->Append(text.data(), text.size(), nullptr);
      t.ev("text").raw("x", jcs(lines)).s("r", stname(s));
    };
    AddKeys(r.in(0, 16));
    SetText();
    const int len = r.in(nops / 2, nops * 3 / 2);
    for (int j = 0; j < len; j++) {
      const int q = r.in(0, 99);
      if (q < 4) { AddKeys(r.in(1, 4)); continue; }
      if (q < 8) {
        if (keys.empty()) continue;
        std::string k = *std::next(keys.begin(), r.in(0, keys.size() - 1));
        t.ev("rem").raw("k", jc(k)).s("r", stname(db->Remove(k)));
        keys.erase(k);
        low.erase(Lo(k));
        Sync();
        continue;
      }
      if (q < 11) { if (!big) SetText(); continue; }
      const bool indb = big ? r.pct(30) : r.pct(65);
      std::string mode = r.pick({"contain", "begin", "end", "regex", "edit", "editbin", "containcase", "containword", "containcaseword",
          "contain*", "containcase*", "containword*", "containcaseword*", "upper", "lower", "upperinc", "lowerinc", "begin", "regex", "bad"});
      if (al.wordy && r.pct(50)) mode = r.pick({"containword", "containcaseword", "containword*", "containcaseword*"});
      if (indb && r.pct(15)) mode = r.pick({"upper", "lower", "upperinc", "lowerinc"});
      if (mode == "edit" && profile == 2) mode = "editbin";
      if (!indb && big && (mode == "edit" || mode == "editbin" || mode == "regex")) mode = "contain";
      if (profile == 2 && mode == "regex") mode = "containword";
      // What to look for: often a piece of what is there.
      std::string src = al.str(r, r.in(0, 4));
      if (r.pct(70)) {
        if (indb && !keys.empty()) src = *std::next(keys.begin(), r.in(0, keys.size() - 1));
        if (!indb && !lines.empty()) src = lines[r.in(0, lines.size() - 1)];
      }
      auto piece = [&](std::string s) {
        if (mode != "edit" && !s.empty() && r.pct(70)) {
          const int b = mode == "begin" ? 0 : r.in(0, s.size() - 1), e = mode == "end" ? s.size() : r.in(b, s.size());
          s = s.substr(b, e - b);
        }
        if (mode.find("case") != std::string::npos) for (auto& ch : s) if (r.pct(40)) ch = isupper(ch) && (ch & 0x80) == 0 ? ch + 32 : ch >= 'a' && ch <= 'z' ? ch - 32 : ch;
        if (s.size() > 12 && mode != "edit") s.resize(12);
        return s;
      };
      std::string pat = piece(src);
      if (mode == "edit" && r.pct(50)) pat = al.one(r) + pat;
      if (mode == "edit" && pat.size() > 40) pat = al.str(r, 3);
      std::string tree = "[\"\"]";
      bool ic = false;
      std::string flags;
      if (mode == "regex") {
        std::string pool = "abAB09- ";
        for (auto& u : al.u) if (u.size() == 1 && u[0] > 0) pool += u + u;
        ic = r.pct(30);
        Re re = TopRe(r, pool, ic);
        if (r.pct(5)) re = {r.pick({"(a", "[", "*", "a)"}), "[\"bad\",0]"};
        else if (r.pct(3)) { flags = r.pick({"(?x)", "(?", "(?i"}); re.tree = "[\"bad\",0]"; re.src = flags == "(?x)" ? re.src : ""; ic = false; }
        pat = (flags.empty() ? (ic ? "(?i)" : r.pct(10) ? "(?)" : "") : flags) + re.src;
        tree = re.tree;
      }
      if (mode.back() == '*') {
        for (int z = r.in(0, 2); z > 0; z--) pat += "\n" + piece(al.str(r, r.in(0, 3)));
        if (r.pct(15)) pat += "\n";
      }
      const int cap = r.pct(40) ? 0 : r.pct(50) ? r.in(1, 3) : r.in(1, 20);
      std::vector<std::string> res;
      if (r.pct(30)) res = {"junk", "\xff\xff"};
      const std::string md = mode == "bad" ? r.pick({"", "contains", "BEGIN", "containcase**", "upperex", "re"}) : mode;
      if (indb) {
#ifdef LANGC
        st = ((CDBM*)db.get())->Search(md, pat, &res, cap);
#else
        if (r.pct(25)) {
          AsyncDBM as(db.get(), 1);
          auto f = as.SearchModal(md, pat, cap);
          auto p = f.get();
          st = p.first;
          res = p.second;
        } else {
          st = SearchDBMModal(db.get(), md, pat, &res, cap);
        }
#endif
      } else {
#ifdef LANGC
        CArg ca; auto x = ca(pat);
        int32_t m = -7;
        CPoison();
        TkrzwStr* p = tkrzw_file_search(file->h, md.c_str(), x.p, x.n, r.pct(20) && cap == 0 ? -1 : cap, &m);
        st = CRes(p != nullptr);
        if (p) res = CTakeArr(p, m);
#else
        st = SearchTextFileModal(file.get(), md, pat, &res, cap);
#endif
      }
      if (st != Status::SUCCESS) res.clear();
      t.ev(indb ? "keys" : "lines").s("m", mode).raw("p", jc(mode == "regex" ? "" : pat)).raw("re", tree).n("ic", ic).n("cap", cap)
        .raw("r", "[\"" + std::string(stname(st)) + "\"," + jcs(res) + "]");
    }
    st = file->Close();
    st |= db->Close();
    t.ev("keep").s("r", stname(st));
    fputs(t.done().c_str(), out);
  }
  fclose(out);
  WipeDir(dir, true);
  return 0;
}
