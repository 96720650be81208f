// The tree of all executions of a small program under many schedules.
#pragma once
#include "core.h"

namespace vh {
struct Trie {
  struct Node { std::string ev; std::vector<int> ch; std::map<std::string, int> idx; };
  std::vector<Node> nodes;
  std::vector<std::string> log;
  bool stuck = false;
  explicit Trie(const std::string& init) { nodes.resize(1); nodes[0].ev = init; }
  void L(const std::string& s) { vsched::Quiet q; log.push_back(s); }
  // Runs the threads of one execution; true unless they got stuck.
  bool Threads(int P, std::function<void(int)> body, std::function<void()> fin) {
    stuck = false;
    try {
      std::vector<std::thread> ths;
      for (int p = 0; p < P; p++) ths.emplace_back([body, p]() { body(p); });
      for (auto& t : ths) t.join();
    } catch (vsched::Stuck&) {
      stuck = true;
      L("{\"o\":\"stuck\"}");
    }
    if (!stuck) fin();
    return !stuck;
  }
  void Merge() {
    int at = 0;
    for (auto& e : log) {
      auto it = nodes[at].idx.find(e);
      if (it == nodes[at].idx.end()) {
        nodes.emplace_back();
        nodes.back().ev = e.substr(0, e.size() - 1);
        const int id = nodes.size() - 1;
        nodes[at].idx[e] = id;
        nodes[at].ch.push_back(id + 1);
        at = id;
      } else at = it->second;
    }
    log.clear();
  }
  // All schedules with at most `bound` preemptions (at most nsys), then nrand random ones.
  void Explore(uint64_t seed, int bound, int nsys, int nrand, int maxnodes, int len, std::function<bool()> once) {
    auto& S = vsched::S();
    S.cap = 20000;
    S.bound = bound;
    S.ybound = 3;
    S.prefix.clear();
    auto run = [&]() {
      log.clear();
      once();
      auto tr = S.trail;
      vsched::Reset();
      S.trail = tr;
      Merge();
    };
    bool go = true;
    for (int k = 0; go && k < nsys && (int)nodes.size() < maxnodes * 2 / 3; k++) {
      vsched::Policy(1, 2);
      S.trail.clear();
      run();
      go = vsched::NextSchedule();
    }
    S.prefix.clear();
    for (int k = 0; k < nrand && (int)nodes.size() < maxnodes; k++) {
      vsched::Policy(seed + k, -1, len);
      run();
    }
  }
  std::string Line() const {
    std::string line = "[";
    for (auto& nd : nodes) {
      if (line.size() > 1) line += ",";
      line += nd.ev + ",\"c\":" + jv(nd.ch) + "}";
    }
    return line + "]\n";
  }
};
}  // namespace vh
