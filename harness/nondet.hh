// Automata with choice (several initial states, overlapping guards) and with unobservable transitions.
#pragma once

#include <set>

#include "gen.hh"

namespace nondet {

//! An automaton in which anything may overlap
struct NTA {
  ref::RefTA ta; // ta.initial is unused
  std::vector<int> initials;
};

inline ref::Edge edge(pbt::Source &s, int clocks, int target, const gen::TAOptions &o) {
  ref::Edge e;
  e.target = target;
  for (int k = clocks ? s.range(0, 2) : 0; k > 0; --k) {
    const auto cmp = static_cast<ref::Cmp>(s.draw(4));
    const int c = s.range(cmp == ref::Cmp::lt ? 1 : 0, o.maxConst);
    e.guard.push_back({static_cast<int>(s.draw(clocks)), cmp, c});
  }
  e.resets = gen::resets(s, clocks, o);
  return e;
}

inline NTA automaton(pbt::Source &s, const gen::TAOptions &o, const std::vector<char> &alphabet, bool silent) {
  NTA n;
  auto &a = n.ta;
  a.clocks = s.range(o.minClocks, o.maxClocks);
  const int locs = s.range(o.minLocs, o.maxLocs);
  a.locs.resize(locs);
  a.initial = 0;
  for (int i = s.chance(1, 3) ? s.range(0, 3) : 1; i > 0; --i) {
    const int l = static_cast<int>(s.draw(locs));
    if (std::find(n.initials.begin(), n.initials.end(), l) == n.initials.end()) {
      n.initials.push_back(l);
    }
  }
  for (int l = 0; l < locs; ++l) {
    a.locs[l].accepting = s.coin();
    for (char c: alphabet) {
      const int k = s.range(0, 3);
      for (int i = 0; i < k; ++i) {
        // Now and then parallel transitions that differ in guard or resets only
        auto &es = a.locs[l].next[c];
        const int t = !es.empty() && s.coin() ? es.back().target : static_cast<int>(s.draw(locs));
        auto e = edge(s, a.clocks, t, o);
        if (!es.empty() && s.chance(1, 3)) {
          e.guard = es.back().guard;
        } else if (!es.empty() && s.chance(1, 4)) {
          e.resets = es.back().resets;
        }
        es.push_back(std::move(e));
      }
    }
    if (silent && s.chance(1, 2)) {
      for (int i = s.range(1, 2); i > 0; --i) {
        a.locs[l].next[0].push_back(edge(s, a.clocks, static_cast<int>(s.draw(locs)), o));
      }
    }
  }
  return n;
}

inline learnta::TimedAutomaton build(const NTA &n) {
  auto ta = ref::build(n.ta);
  ta.initialStates.clear();
  for (int l: n.initials) {
    ta.initialStates.push_back(ta.states.at(l));
  }
  return ta;
}

inline NTA convert(const learnta::TimedAutomaton &ta) {
  NTA n;
  n.ta = ref::convert(ta, true);
  for (const auto &s: ta.initialStates) {
    bool found = false;
    for (std::size_t i = 0; i < ta.states.size(); ++i) {
      if (ta.states[i] == s) {
        n.initials.push_back(static_cast<int>(i));
        found = true;
      }
    }
    if (!found) {
      throw ref::ConversionError{"an initial state is not among the states"};
    }
  }
  return n;
}

inline std::string show(const NTA &n) {
  std::ostringstream os;
  os << ref::show(n.ta) << "  initial:";
  for (int l: n.initials) {
    os << " " << l;
  }
  os << "\n";
  return os.str();
}

using Configs = std::set<std::pair<int, std::vector<double>>>;

//! Everything reachable by unobservable transitions without delay; nullopt if there is too much of it
inline bool close(const NTA &n, Configs &cs, std::size_t limit = 4000) {
  std::vector<std::pair<int, std::vector<double>>> todo(cs.begin(), cs.end());
  while (!todo.empty()) {
    const auto c = todo.back();
    todo.pop_back();
    auto it = n.ta.locs[c.first].next.find(0);
    if (it == n.ta.locs[c.first].next.end()) {
      continue;
    }
    for (const auto &e: it->second) {
      if (ref::holds(e.guard, c.second)) {
        auto d = std::make_pair(e.target, ref::assign(c.second, e.resets));
        if (cs.insert(d).second) {
          todo.push_back(std::move(d));
        }
      }
    }
    if (cs.size() > limit) {
      return false;
    }
  }
  return true;
}

inline Configs start(const NTA &n) {
  Configs cs;
  for (int l: n.initials) {
    cs.insert({l, std::vector<double>(n.ta.clocks, 0.0)});
  }
  return cs;
}

inline Configs delayed(const Configs &cs, double d) {
  Configs r;
  for (auto [l, v]: cs) {
    for (auto &x: v) {
      x += d;
    }
    r.insert({l, v});
  }
  return r;
}

//! Unobservable transitions are taken at multiples of 1/grid only (0: never)
inline bool delay(const NTA &n, Configs &cs, double d, int grid) {
  if (grid == 0) {
    cs = delayed(cs, d);
    return true;
  }
  if (!close(n, cs)) {
    return false;
  }
  for (int k = static_cast<int>(d * grid); k > 0; --k) {
    cs = delayed(cs, 1.0 / grid);
    if (!close(n, cs)) {
      return false;
    }
  }
  return true;
}

inline Configs act(const NTA &n, const Configs &cs, char action) {
  Configs r;
  for (const auto &[l, v]: cs) {
    auto it = n.ta.locs[l].next.find(action);
    if (it == n.ta.locs[l].next.end()) {
      continue;
    }
    for (const auto &e: it->second) {
      if (ref::holds(e.guard, v)) {
        r.insert({e.target, ref::assign(v, e.resets)});
      }
    }
  }
  return r;
}

inline bool accepting(const NTA &n, const Configs &cs) {
  return std::any_of(cs.begin(), cs.end(), [&](const auto &c) { return n.ta.locs[c.first].accepting; });
}

//! Membership without unobservable transitions
inline bool accepts(const NTA &n, const std::string &w, const std::vector<double> &d) {
  auto cs = start(n);
  for (std::size_t k = 0; k < w.size(); ++k) {
    cs = act(n, delayed(cs, d.at(k)), w[k]);
  }
  return accepting(n, cs);
}

//! The reachable locations, by search of the regions; all constants are integers. nullopt: too large
inline std::optional<std::set<int>> reachable(const NTA &n, std::size_t maxStates = 100000) {
  std::set<int> locations;
  const int K = [&] {
    int k = n.ta.maxConstant();
    return k;
  }();
  const int C = n.ta.clocks;
  struct Region {
    int loc;
    std::vector<int> ip, rank; // as in ref::explore
    bool operator<(const Region &o) const { return std::tie(loc, ip, rank) < std::tie(o.loc, o.ip, o.rank); }
  };
  const auto normalize = [&](Region &s) {
    std::vector<int> ranks;
    for (int i = 0; i < C; ++i) {
      if (s.ip[i] > K || (s.ip[i] == K && s.rank[i] > 0)) {
        s.ip[i] = K + 1;
        s.rank[i] = 0;
      } else if (s.rank[i] > 0) {
        ranks.push_back(s.rank[i]);
      }
    }
    std::sort(ranks.begin(), ranks.end());
    ranks.erase(std::unique(ranks.begin(), ranks.end()), ranks.end());
    for (int i = 0; i < C; ++i) {
      if (s.rank[i] > 0) {
        s.rank[i] = static_cast<int>(std::lower_bound(ranks.begin(), ranks.end(), s.rank[i]) - ranks.begin()) + 1;
      }
    }
  };
  // A representative valuation decides the guards: fractional parts are rank / (C + 1), values beyond K are K + 1/2
  const auto value = [&](const Region &s) {
    std::vector<double> v(C);
    for (int i = 0; i < C; ++i) {
      v[i] = s.ip[i] > K ? K + 0.5 : s.ip[i] + static_cast<double>(s.rank[i]) / (C + 1);
    }
    return v;
  };
  std::set<Region> seen;
  std::vector<Region> todo;
  const auto visit = [&](Region r) {
    normalize(r);
    if (seen.insert(r).second) {
      todo.push_back(std::move(r));
    }
  };
  for (int l: n.initials) {
    visit(Region{l, std::vector<int>(C, 0), std::vector<int>(C, 0)});
  }
  while (!todo.empty()) {
    if (seen.size() > maxStates) {
      return std::nullopt;
    }
    const Region s = todo.back();
    todo.pop_back();
    locations.insert(s.loc);
    Region t = s;
    bool integral = false;
    int top = 0;
    for (int i = 0; i < C; ++i) {
      if (s.ip[i] <= K) {
        integral = integral || s.rank[i] == 0;
        top = std::max(top, s.rank[i]);
      }
    }
    for (int i = 0; i < C; ++i) {
      if (s.ip[i] > K) {
        continue;
      }
      if (integral) {
        ++t.rank[i];
      } else if (s.rank[i] == top) {
        t.rank[i] = 0;
        ++t.ip[i];
      }
    }
    visit(t);
    const auto v = value(s);
    for (const auto &[action, es]: n.ta.locs[s.loc].next) {
      for (const auto &e: es) {
        if (!ref::holds(e.guard, v)) {
          continue;
        }
        Region u = s;
        u.loc = e.target;
        for (const auto &r: e.resets) {
          if (r.copy) {
            u.ip[r.x] = s.ip[r.from];
            u.rank[r.x] = s.rank[r.from];
          } else {
            u.ip[r.x] = r.value > K ? K + 1 : static_cast<int>(r.value);
            u.rank[r.x] = 0;
          }
        }
        visit(u);
      }
    }
  }
  return locations;
}

//! A timed word steered along some run
inline std::pair<std::string, std::vector<double>> guidedWord(pbt::Source &s, const NTA &n, const std::vector<char> &alphabet,
                                                              int maxLen, int maxDelay) {
  if (n.initials.empty() || s.chance(1, 5)) {
    return gen::word(s, alphabet, maxLen, maxDelay, false);
  }
  std::string w;
  std::vector<double> d;
  std::pair<int, std::vector<double>> c{s.pick(n.initials), std::vector<double>(n.ta.clocks, 0.0)};
  for (int i = s.size(0, maxLen); i >= 0; --i) {
    double delay = s.coin() ? s.range(0, maxDelay) : s.range(0, 4 * maxDelay) / 4.0;
    char action = s.pick(alphabet);
    const ref::Edge *e = nullptr;
    auto it = n.ta.locs[c.first].next.find(action);
    if (it != n.ta.locs[c.first].next.end() && !it->second.empty()) {
      e = &s.pick(it->second);
      if (!e->guard.empty() && s.chance(3, 4)) {
        const auto &g = s.pick(e->guard);
        static const double offsets[] = {0, 0.25, -0.25, 0.5, -0.5};
        delay = std::max(0.0, g.c - c.second[g.x] + offsets[s.draw(5)]);
      }
    }
    d.push_back(delay);
    for (auto &x: c.second) {
      x += delay;
    }
    if (i > 0) {
      w.push_back(action);
      if (e) {
        c = {e->target, ref::assign(c.second, e->resets)};
      }
    }
  }
  return {w, d};
}

/*!
 * Unobservable transitions that are taken as soon as they are enabled: guards with attained lower bounds, leading to
 * later locations only. Returns true if some location has several.
 */
inline bool addUrgent(pbt::Source &s, ref::RefTA &a, const gen::TAOptions &o) {
  const int L = static_cast<int>(a.locs.size());
  bool several = false;
  for (int l = 0; l + 1 < L; ++l) {
    const int n = s.range(0, 3);
    auto &es = a.locs[l].next[0];
    const int x = static_cast<int>(s.draw(a.clocks));
    int c = 0;
    for (int i = 0; i < n; ++i) {
      // Disjoint intervals of one clock, in any order
      ref::Edge e;
      e.target = s.range(l + 1, L - 1);
      c += s.range(0, 2);
      e.guard.push_back({x, ref::Cmp::ge, c});
      const int hi = c + s.range(0, 1);
      e.guard.push_back({x, hi > c ? ref::Cmp::lt : ref::Cmp::le, hi});
      c = hi + 1;
      if (a.clocks > 1 && s.chance(1, 3)) {
        const int y = static_cast<int>(s.draw(a.clocks));
        const int b = s.range(0, 3);
        const auto cmp = s.pick(std::vector<ref::Cmp>{ref::Cmp::lt, ref::Cmp::le, ref::Cmp::ge});
        if (y != x) {
          e.guard.push_back({y, cmp, b});
        }
      }
      e.resets = gen::resets(s, a.clocks, o);
      if (s.coin()) {
        es.insert(es.begin(), e);
      } else {
        es.push_back(e);
      }
    }
    several = several || es.size() > 1;
    if (es.empty()) {
      a.locs[l].next.erase(0);
    }
  }
  return several;
}

//! A run in which unobservable transitions are taken as soon as they are enabled
struct Urgent {
  const ref::RefTA &a;
  ref::Config c;
  std::size_t fired = 0;

  explicit Urgent(const ref::RefTA &a) : a(a), c(ref::start(a)) {}

  //! false if something happens at the very end of the delay: the order is open
  bool delay(double rest) {
    while (true) {
      std::pair<double, const ref::Edge *> best{1e9, nullptr};
      auto none = std::map<char, std::vector<ref::Edge>>{};
      const auto &next = c.loc < 0 ? none : a.locs[c.loc].next;
      if (auto it = next.find(0); it != next.end()) {
        for (const auto &e: it->second) {
          double t = 0;
          for (const auto &at: e.guard) {
            if (at.cmp == ref::Cmp::ge) {
              t = std::max(t, at.c - c.v[at.x]);
            }
          }
          auto v = c.v;
          for (auto &y: v) {
            y += t;
          }
          if (t <= rest && ref::holds(e.guard, v) && t < best.first) {
            best = {t, &e};
          }
        }
      }
      const auto [t, e] = best;
      if (!e) {
        break;
      }
      if (t == rest) {
        return false;
      }
      ref::delay(c, t);
      rest -= t;
      c.v = ref::assign(c.v, e->resets);
      c.loc = e->target;
      ++fired;
    }
    ref::delay(c, rest);
    return true;
  }

  void act(char action) { ref::act(a, c, action); }

  [[nodiscard]] bool accepting() const { return ref::accepting(a, c); }
};

//! Membership; nullopt if the order of events is open
inline std::optional<bool> urgentAccepts(const ref::RefTA &a, const std::string &w, const std::vector<double> &d) {
  Urgent u{a};
  for (std::size_t k = 0; k <= w.size(); ++k) {
    if (!u.delay(d[k])) {
      return std::nullopt;
    }
    if (k < w.size()) {
      u.act(w[k]);
    }
  }
  return u.accepting();
}

} // namespace nondet
