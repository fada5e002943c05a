// Generators of automata, words and guards.
#pragma once

#include "pbt.hh"
#include "ref.hh"

namespace gen {

struct TAOptions {
  int minLocs = 1, maxLocs = 4;
  int minClocks = 1, maxClocks = 2;
  int minActions = 1, maxActions = 2;
  int maxConst = 3;
  int maxDepth = 2;         // depth of the decision tree that splits a location's guards
  bool copies = false;      // x := y
  bool constants = false;   // x := integer
  bool fractions = false;   // x := k + 0.5
  bool redundantGuards = false;
  bool complete = false;    // no missing transitions
  int stuckNum = 1, stuckDen = 4;
  bool singleClockGuards = false;
};

inline std::vector<char> alphabetOf(int n) {
  std::vector<char> a;
  for (int i = 0; i < n; ++i) {
    a.push_back(static_cast<char>('a' + i));
  }
  return a;
}

inline std::vector<ref::Reset> resets(pbt::Source &s, int clocks, const TAOptions &o) {
  std::vector<ref::Reset> r;
  for (int x = 0; x < clocks; ++x) {
    switch (s.draw(6)) {
      case 1:
      case 2:
        r.push_back({x, false, 0, 0.0});
        break;
      case 3:
        if (o.copies && clocks > 1) {
          int y = static_cast<int>(s.draw(clocks));
          r.push_back({x, true, y, 0});
        }
        break;
      case 4:
        if (o.constants) {
          r.push_back({x, false, 0, static_cast<double>(s.range(0, o.maxConst))});
        } else if (o.fractions && s.coin()) {
          r.push_back({x, false, 0, s.range(0, o.maxConst) + 0.5});
        }
        break;
      default:
        break;
    }
  }
  return r;
}

//! Disjoint guards by recursive splitting
inline void splitGuards(pbt::Source &s, const TAOptions &o, int clocks, int locs, int depth,
                        std::vector<ref::Atom> path, std::vector<ref::Edge> &out) {
  if (depth < o.maxDepth && clocks > 0 && s.chance(depth == 0 ? 2 : 1, 3)) {
    const int x = static_cast<int>(s.draw(clocks));
    const int c = s.range(0, o.maxConst);
    const bool strict = s.coin();
    if (!(strict && c == 0)) { // x < 0 is empty
      auto left = path, right = path;
      left.push_back({x, strict ? ref::Cmp::lt : ref::Cmp::le, c});
      right.push_back({x, strict ? ref::Cmp::ge : ref::Cmp::gt, c});
      splitGuards(s, o, clocks, locs, depth + 1, left, out);
      splitGuards(s, o, clocks, locs, depth + 1, right, out);
      return;
    }
  }
  if (!o.complete && s.chance(o.stuckNum, o.stuckDen)) {
    return; // no transition here
  }
  // An unsatisfiable conjunction is left out
  for (int x = 0; x < clocks; ++x) {
    double lo = 0, hi = 1e9;
    bool loStrict = false, hiStrict = false;
    for (const auto &g: path) {
      if (g.x != x) {
        continue;
      }
      if (g.cmp == ref::Cmp::lt || g.cmp == ref::Cmp::le) {
        const bool st = g.cmp == ref::Cmp::lt;
        if (g.c < hi || (g.c == hi && st)) {
          hi = g.c;
          hiStrict = st;
        }
      } else {
        const bool st = g.cmp == ref::Cmp::gt;
        if (g.c > lo || (g.c == lo && st)) {
          lo = g.c;
          loStrict = st;
        }
      }
    }
    if (lo > hi || (lo == hi && (loStrict || hiStrict))) {
      return;
    }
  }
  ref::Edge e;
  e.target = static_cast<int>(s.draw(locs));
  e.guard = std::move(path);
  if (!o.redundantGuards) {
    // Keep only the strongest bound of each clock and side
    std::vector<ref::Atom> g2;
    for (int x = 0; x < clocks; ++x) {
      const ref::Atom *lo = nullptr, *hi = nullptr;
      for (const auto &g: e.guard) {
        if (g.x != x) {
          continue;
        }
        if (g.cmp == ref::Cmp::lt || g.cmp == ref::Cmp::le) {
          if (!hi || g.c < hi->c || (g.c == hi->c && g.cmp == ref::Cmp::lt)) {
            hi = &g;
          }
        } else if (!lo || g.c > lo->c || (g.c == lo->c && g.cmp == ref::Cmp::gt)) {
          lo = &g;
        }
      }
      if (lo) {
        g2.push_back(*lo);
      }
      if (hi) {
        g2.push_back(*hi);
      }
    }
    e.guard = g2;
  }
  e.resets = resets(s, clocks, o);
  out.push_back(std::move(e));
}

struct Generated {
  ref::RefTA ta;
  std::vector<char> alphabet;
};

inline ref::RefTA automaton(pbt::Source &s, const TAOptions &o, const std::vector<char> &alphabet) {
  ref::RefTA a;
  a.clocks = s.range(o.minClocks, o.maxClocks);
  const int locs = s.range(o.minLocs, o.maxLocs);
  a.locs.resize(locs);
  a.initial = 0;
  for (int l = 0; l < locs; ++l) {
    a.locs[l].accepting = s.coin();
    for (char c: alphabet) {
      std::vector<ref::Edge> out;
      splitGuards(s, o, a.clocks, locs, 0, {}, out);
      if (!out.empty()) {
        a.locs[l].next[c] = std::move(out);
      }
    }
  }
  return a;
}

inline Generated automaton(pbt::Source &s, const TAOptions &o) {
  Generated g;
  g.alphabet = alphabetOf(s.range(o.minActions, o.maxActions));
  g.ta = automaton(s, o, g.alphabet);
  return g;
}

//! The unit of the durations of a word: mostly 1/4, rarely tiny, so that tolerances show
inline double grain(pbt::Source &s) {
  static const double units[] = {0.25, 0.25, 0.25, 0.25, 0.25, 0.125, 1.0 / 128, 1.0 / (1 << 20)};
  return units[s.draw(8)];
}

//! A duration up to maxDelay + 1 that is a multiple of the unit, often near an integer or a half
inline double nearby(pbt::Source &s, int maxDelay, double unit) {
  if (unit >= 0.25) {
    return s.range(0, 4 * maxDelay) / 4.0;
  }
  return s.range(0, 2 * maxDelay) / 2.0 + s.range(0, 4) * unit;
}

//! A timed word with durations that are multiples of 1/4, or of a smaller power of 2 if fine
inline std::pair<std::string, std::vector<double>> word(pbt::Source &s, const std::vector<char> &alphabet, int maxLen,
                                                        int maxDelay, bool fine = true) {
  const double unit = fine ? grain(s) : 0.25;
  std::string w;
  std::vector<double> d;
  const int n = s.size(0, maxLen);
  const auto dur = [&] {
    switch (s.draw(3)) {
      case 0:
        return static_cast<double>(s.range(0, maxDelay));
      case 1:
        return s.range(0, 2 * maxDelay) / 2.0;
      default:
        return nearby(s, maxDelay, unit);
    }
  };
  d.push_back(dur());
  for (int i = 0; i < n; ++i) {
    w.push_back(s.pick(alphabet));
    d.push_back(dur());
  }
  return {w, d};
}

} // namespace gen

namespace gen {

//! Switch features of the generator on and off per case, so that simple and intricate automata both appear
inline TAOptions flavour(pbt::Source &s, TAOptions o) {
  o.copies = o.copies && s.chance(1, 2);
  o.constants = o.constants && s.chance(1, 2);
  o.redundantGuards = o.redundantGuards && s.chance(1, 3);
  o.complete = s.chance(1, 5);
  return o;
}

/*!
 * A timed word steered along the runs of an automaton: the delays put clocks just below, at and just above the
 * constants of the guards of the current location.
 */
inline std::pair<std::string, std::vector<double>> guidedWord(pbt::Source &s, const ref::RefTA &a,
                                                              const std::vector<char> &alphabet, int maxLen,
                                                              int maxDelay) {
  std::string w;
  std::vector<double> d;
  auto c = ref::start(a);
  const double unit = grain(s);
  const int n = s.size(0, maxLen);
  for (int i = 0; i <= n; ++i) {
    double delay = 0;
    char action = s.pick(alphabet);
    bool chosen = false;
    if (c.loc >= 0 && s.chance(3, 4)) {
      auto it = a.locs[c.loc].next.find(action);
      if (it != a.locs[c.loc].next.end() && !it->second.empty()) {
        const auto &e = s.pick(it->second);
        if (!e.guard.empty()) {
          const auto &g = s.pick(e.guard);
          const double offsets[] = {0, unit, -unit, 0.5, -0.5};
          delay = g.c - c.v.at(g.x) + offsets[s.draw(5)];
          chosen = delay >= 0;
        }
      }
    }
    if (!chosen) {
      delay = s.coin() ? s.range(0, maxDelay) : nearby(s, maxDelay, unit);
    }
    d.push_back(delay);
    ref::delay(c, delay);
    if (i < n) {
      w.push_back(action);
      ref::act(a, c, action);
    }
  }
  return {w, d};
}

} // namespace gen
