// Reference model of deterministic timed automata, independent of the library's algorithms.
//
// * RefTA is a plain copy of an automaton's data (locations, guards, resets).
// * simulate() runs a timed word step by step.
// * explore() walks the region graph of the synchronous product of several automata, breadth first, with one global
//   maximal constant (so that copying a clock into another one is exact) and reports the first product state whose
//   vector of acceptance bits violates a predicate, together with a concrete timed word leading there.
#pragma once

#include <cmath>
#include <deque>
#include <functional>
#include <map>
#include <optional>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

#include "timed_automaton.hh"
#include "timed_word.hh"

namespace ref {

enum class Cmp { lt, le, ge, gt };

struct Atom {
  int x;
  Cmp cmp;
  int c;
};

struct Reset {
  int x;
  bool copy;
  int from;     // if copy
  double value; // if not copy
};

struct Edge {
  int target;
  std::vector<Atom> guard;
  std::vector<Reset> resets;
};

//! Two simultaneously enabled transitions with the same effect are no choice
inline bool sameEffect(const Edge &a, const Edge &b) {
  if (a.target != b.target) {
    return false;
  }
  std::map<int, std::pair<int, double>> ma, mb;
  for (const auto &r: a.resets) {
    ma[r.x] = r.copy ? std::make_pair(r.from, 0.0) : std::make_pair(-1, r.value);
  }
  for (const auto &r: b.resets) {
    mb[r.x] = r.copy ? std::make_pair(r.from, 0.0) : std::make_pair(-1, r.value);
  }
  return ma == mb;
}

struct Loc {
  bool accepting = false;
  std::map<char, std::vector<Edge>> next;
};

struct RefTA {
  std::vector<Loc> locs;
  int initial = -1; // -1: the empty language
  int clocks = 0;

  [[nodiscard]] bool hasSilent() const {
    for (const auto &l: locs) {
      auto it = l.next.find(0);
      if (it != l.next.end() && !it->second.empty()) {
        return true;
      }
    }
    return false;
  }

  [[nodiscard]] std::size_t edges() const {
    std::size_t n = 0;
    for (const auto &l: locs) {
      for (const auto &[a, es]: l.next) {
        n += es.size();
      }
    }
    return n;
  }

  [[nodiscard]] int maxConstant() const {
    int m = 0;
    for (const auto &l: locs) {
      for (const auto &[a, es]: l.next) {
        for (const auto &e: es) {
          for (const auto &g: e.guard) {
            m = std::max(m, std::abs(g.c));
          }
        }
      }
    }
    return m;
  }
};

struct ConversionError {
  std::string what;
};

//! Copy the data of an automaton; throws ConversionError on dangling targets or more than one initial state
inline RefTA convert(const learnta::TimedAutomaton &ta, bool allowManyInitial = false) {
  RefTA r;
  std::unordered_map<const learnta::TAState *, int> id;
  for (std::size_t i = 0; i < ta.states.size(); ++i) {
    id[ta.states[i].get()] = static_cast<int>(i);
  }
  r.clocks = static_cast<int>(ta.maxConstraints.size());
  r.locs.resize(ta.states.size());
  if (ta.initialStates.size() > 1 && !allowManyInitial) {
    throw ConversionError{"more than one initial state"};
  }
  if (!ta.initialStates.empty()) {
    auto it = id.find(ta.initialStates.front().get());
    if (it == id.end()) {
      throw ConversionError{"the initial state is not among the states"};
    }
    r.initial = it->second;
  }
  for (std::size_t i = 0; i < ta.states.size(); ++i) {
    const auto &s = *ta.states[i];
    r.locs[i].accepting = s.isMatch;
    for (const auto &[action, transitions]: s.next) {
      for (const auto &t: transitions) {
        Edge e;
        auto it = id.find(t.target);
        if (it == id.end()) {
          throw ConversionError{"a transition leads to a state that is not part of the automaton"};
        }
        e.target = it->second;
        for (const auto &g: t.guard) {
          Atom a{};
          a.x = g.x;
          a.c = g.c;
          switch (g.odr) {
            case learnta::Constraint::Order::lt:
              a.cmp = Cmp::lt;
              break;
            case learnta::Constraint::Order::le:
              a.cmp = Cmp::le;
              break;
            case learnta::Constraint::Order::ge:
              a.cmp = Cmp::ge;
              break;
            case learnta::Constraint::Order::gt:
              a.cmp = Cmp::gt;
              break;
          }
          if (a.x >= r.clocks) {
            throw ConversionError{"a guard mentions a clock the automaton does not have"};
          }
          e.guard.push_back(a);
        }
        for (const auto &[x, v]: t.resetVars) {
          Reset rs{};
          rs.x = x;
          rs.copy = v.index() == 1;
          if (rs.copy) {
            rs.from = std::get<learnta::ClockVariables>(v);
          } else {
            rs.value = std::get<double>(v);
          }
          if (rs.x >= r.clocks || (rs.copy && rs.from >= r.clocks)) {
            throw ConversionError{"a reset mentions a clock the automaton does not have"};
          }
          e.resets.push_back(rs);
        }
        r.locs[i].next[action].push_back(std::move(e));
      }
    }
  }
  return r;
}

inline bool holds(Cmp cmp, double v, int c) {
  switch (cmp) {
    case Cmp::lt:
      return v < c;
    case Cmp::le:
      return v <= c;
    case Cmp::ge:
      return v >= c;
    case Cmp::gt:
      return v > c;
  }
  return false;
}

inline bool holds(const std::vector<Atom> &guard, const std::vector<double> &v) {
  for (const auto &g: guard) {
    if (!holds(g.cmp, v.at(g.x), g.c)) {
      return false;
    }
  }
  return true;
}

//! Simultaneous assignment
inline std::vector<double> assign(const std::vector<double> &v, const std::vector<Reset> &resets) {
  auto w = v;
  for (const auto &r: resets) {
    w.at(r.x) = r.copy ? v.at(r.from) : r.value;
  }
  return w;
}

struct Config {
  int loc; // -1: stuck
  std::vector<double> v;
};

inline Config start(const RefTA &a) { return Config{a.initial, std::vector<double>(a.clocks, 0.0)}; }

inline void delay(Config &c, double d) {
  for (auto &x: c.v) {
    x += d;
  }
}

//! Returns the number of enabled transitions (taking the first one)
inline int act(const RefTA &a, Config &c, char action) {
  if (c.loc < 0) {
    return 0;
  }
  auto it = a.locs[c.loc].next.find(action);
  const Edge *taken = nullptr;
  int enabled = 0;
  if (it != a.locs[c.loc].next.end()) {
    for (const auto &e: it->second) {
      if (holds(e.guard, c.v)) {
        ++enabled;
        if (!taken) {
          taken = &e;
        }
      }
    }
  }
  if (!taken) {
    c.loc = -1;
  } else {
    c.v = assign(c.v, taken->resets);
    c.loc = taken->target;
  }
  return enabled;
}

inline bool accepting(const RefTA &a, const Config &c) { return c.loc >= 0 && a.locs[c.loc].accepting; }

//! Membership of a timed word (no silent transitions)
inline bool accepts(const RefTA &a, const std::string &word, const std::vector<double> &durations) {
  Config c = start(a);
  for (std::size_t i = 0; i < word.size(); ++i) {
    delay(c, durations.at(i));
    act(a, c, word[i]);
  }
  return accepting(a, c);
}

inline bool accepts(const RefTA &a, const learnta::TimedWord &w) { return accepts(a, w.getWord(), w.getDurations()); }

//! Membership in a (possibly non-deterministic) automaton whose silent transitions may be taken at any time their guard holds.
//! Only words without need of interior silent firing times: see acceptsNondet in the checks.

struct Found {
  std::string word;
  std::vector<double> durations;
  std::vector<bool> accept;
  std::string reason;

  [[nodiscard]] std::string str() const {
    std::ostringstream os;
    os << durations.at(0);
    for (std::size_t i = 0; i < word.size(); ++i) {
      os << " " << word[i] << " " << durations.at(i + 1);
    }
    return os.str();
  }
};

struct ExploreResult {
  std::optional<Found> found; // a violation of the predicate
  bool capped = false;        // the state limit was hit: no verdict
  std::size_t states = 0;
  std::size_t acceptingSeen = 0; // states where at least one automaton accepts
};

struct ExploreOptions {
  std::size_t maxStates = 200000;
  bool failOnNondeterminism = true; // report two simultaneously enabled transitions as a finding
};

/*!
 * Breadth-first search of the region graph of the product.
 * A clock value is (integer part, rank of its fractional part); values beyond K are one class.
 */
inline ExploreResult explore(const std::vector<const RefTA *> &tas, const std::vector<char> &alphabet,
                             const std::function<bool(const std::vector<bool> &)> &ok,
                             const ExploreOptions &opt = {}) {
  ExploreResult result;
  // Scale so that all constants are integers
  int scale = 1;
  int K = 0;
  for (const auto *a: tas) {
    K = std::max(K, a->maxConstant());
    for (const auto &l: a->locs) {
      for (const auto &[act, es]: l.next) {
        for (const auto &e: es) {
          for (const auto &r: e.resets) {
            if (!r.copy) {
              while (scale < 1024 && r.value * scale != std::floor(r.value * scale)) {
                scale *= 2;
              }
            }
          }
        }
      }
    }
  }
  K *= scale;
  int clocks = 0;
  std::vector<int> base;
  for (const auto *a: tas) {
    base.push_back(clocks);
    clocks += a->clocks;
  }
  const int n = static_cast<int>(tas.size());

  struct Node {
    std::vector<int16_t> loc;
    std::vector<int16_t> ip;   // integer part, K + 1 for "beyond K"
    std::vector<int16_t> rank; // rank of the fractional part, 0 for integral
    int parent;
    char via; // 1: delay step, otherwise an action
  };
  std::vector<Node> nodes;
  std::unordered_set<std::string> seen;
  const auto keyOf = [&](const Node &s) {
    std::string k;
    k.reserve(2 * (s.loc.size() + 2 * s.ip.size()));
    for (auto v: s.loc) {
      k.append(reinterpret_cast<const char *>(&v), 2);
    }
    for (auto v: s.ip) {
      k.append(reinterpret_cast<const char *>(&v), 2);
    }
    for (auto v: s.rank) {
      k.append(reinterpret_cast<const char *>(&v), 2);
    }
    return k;
  };
  const auto normalize = [&](Node &s) {
    // Compress the ranks of the clocks not beyond K
    std::vector<int16_t> ranks;
    for (int i = 0; i < clocks; ++i) {
      if (s.ip[i] > K || (s.ip[i] == K && s.rank[i] > 0)) {
        s.ip[i] = static_cast<int16_t>(K + 1);
        s.rank[i] = 0;
      } else if (s.rank[i] > 0) {
        ranks.push_back(s.rank[i]);
      }
    }
    std::sort(ranks.begin(), ranks.end());
    ranks.erase(std::unique(ranks.begin(), ranks.end()), ranks.end());
    for (int i = 0; i < clocks; ++i) {
      if (s.rank[i] > 0) {
        s.rank[i] = static_cast<int16_t>(std::lower_bound(ranks.begin(), ranks.end(), s.rank[i]) - ranks.begin() + 1);
      }
    }
  };
  const auto enabled = [&](const Edge &e, const Node &s, int b) {
    for (const auto &g: e.guard) {
      const int c = g.c * scale;
      const int ip = s.ip[b + g.x];
      const bool integral = s.rank[b + g.x] == 0;
      bool h = false;
      if (ip > K) {
        h = g.cmp == Cmp::ge || g.cmp == Cmp::gt;
      } else {
        switch (g.cmp) {
          case Cmp::lt:
            h = ip < c;
            break;
          case Cmp::le:
            h = ip < c || (ip == c && integral);
            break;
          case Cmp::ge:
            h = ip >= c;
            break;
          case Cmp::gt:
            h = ip > c || (ip == c && !integral);
            break;
        }
      }
      if (!h) {
        return false;
      }
    }
    return true;
  };
  const auto concretize = [&](int index) {
    std::vector<char> path;
    std::vector<int> at;
    for (int i = index; nodes[i].parent >= 0; i = nodes[i].parent) {
      path.push_back(nodes[i].via);
      at.push_back(i);
    }
    std::reverse(path.begin(), path.end());
    std::reverse(at.begin(), at.end());
    Found f;
    std::vector<Config> cs;
    for (const auto *a: tas) {
      cs.push_back(start(*a));
    }
    double pending = 0;
    for (char c: path) {
      if (c == 1) {
        bool anyIntegral = false;
        double maxFrac = 0;
        for (int k = 0; k < n; ++k) {
          if (cs[k].loc < 0) {
            continue; // the clocks of a stuck automaton do not count
          }
          for (double v: cs[k].v) {
            const double sv = v * scale;
            if (sv <= K) {
              const double fr = sv - std::floor(sv);
              anyIntegral = anyIntegral || fr == 0;
              maxFrac = std::max(maxFrac, fr);
            }
          }
        }
        const double d = (anyIntegral ? (1 - maxFrac) / 2 : 1 - maxFrac) / scale;
        pending += d;
        for (auto &cfg: cs) {
          delay(cfg, d);
        }
      } else {
        f.word.push_back(c);
        f.durations.push_back(pending);
        pending = 0;
        for (int k = 0; k < n; ++k) {
          act(*tas[k], cs[k], c);
        }
      }
    }
    f.durations.push_back(pending);
    for (int k = 0; k < n; ++k) {
      f.accept.push_back(accepting(*tas[k], cs[k]));
      if ((cs[k].loc < 0 ? -1 : cs[k].loc) != nodes[index].loc[k]) {
        throw std::logic_error("reference model: a region path has a wrong concretisation"); // a defect of this model
      }
    }
    return f;
  };

  Node init;
  for (const auto *a: tas) {
    init.loc.push_back(static_cast<int16_t>(a->initial));
  }
  init.ip.assign(clocks, 0);
  init.rank.assign(clocks, 0);
  for (int k = 0; k < n; ++k) {
    for (int c = 0; tas[k]->initial < 0 && c < tas[k]->clocks; ++c) {
      init.ip[base[k] + c] = static_cast<int16_t>(K + 1);
    }
  }
  init.parent = -1;
  init.via = 0;
  normalize(init);
  seen.insert(keyOf(init));
  nodes.push_back(init);
  const auto test = [&](int index) {
    const auto &s = nodes[index];
    std::vector<bool> acc;
    bool any = false;
    for (int k = 0; k < n; ++k) {
      acc.push_back(s.loc[k] >= 0 && tas[k]->locs[s.loc[k]].accepting);
      any = any || acc.back();
    }
    if (any) {
      ++result.acceptingSeen;
    }
    if (!ok(acc)) {
      result.found = concretize(index);
      result.found->reason = "acceptance";
      return false;
    }
    return true;
  };
  if (!test(0)) {
    result.states = 1;
    return result;
  }
  for (std::size_t i = 0; i < nodes.size(); ++i) {
    if (nodes.size() > opt.maxStates) {
      result.capped = true;
      break;
    }
    // All automata stuck: nothing will change
    if (std::all_of(nodes[i].loc.begin(), nodes[i].loc.end(), [](int16_t l) { return l < 0; })) {
      continue;
    }
    // The time successor
    {
      Node s = nodes[i];
      bool any = false, integral = false;
      int16_t top = 0;
      for (int c = 0; c < clocks; ++c) {
        if (s.ip[c] <= K) {
          any = true;
          integral = integral || s.rank[c] == 0;
          top = std::max(top, s.rank[c]);
        }
      }
      if (any) {
        for (int c = 0; c < clocks; ++c) {
          if (s.ip[c] > K) {
            continue;
          }
          if (integral) {
            // Every fractional part grows a little; the integral ones become the smallest fraction
            s.rank[c] = static_cast<int16_t>(s.rank[c] + 1);
          } else if (s.rank[c] == top) {
            s.rank[c] = 0;
            s.ip[c] = static_cast<int16_t>(s.ip[c] + 1);
          }
        }
        normalize(s);
        s.parent = static_cast<int>(i);
        s.via = 1;
        if (seen.insert(keyOf(s)).second) {
          nodes.push_back(s);
        }
      }
    }
    for (char action: alphabet) {
      Node s = nodes[i];
      std::vector<int16_t> ip = s.ip, rank = s.rank;
      for (int k = 0; k < n; ++k) {
        if (s.loc[k] < 0) {
          continue;
        }
        const Edge *taken = nullptr;
        int count = 0;
        auto it = tas[k]->locs[s.loc[k]].next.find(action);
        if (it != tas[k]->locs[s.loc[k]].next.end()) {
          for (const auto &e: it->second) {
            if (enabled(e, nodes[i], base[k])) {
              if (!taken) {
                taken = &e;
                ++count;
              } else if (!sameEffect(e, *taken)) {
                ++count;
              }
            }
          }
        }
        if (count > 1 && opt.failOnNondeterminism) {
          result.found = concretize(static_cast<int>(i));
          result.found->reason = std::string("nondeterminism of automaton ") + std::to_string(k) + " on " + action;
          result.states = nodes.size();
          return result;
        }
        if (!taken) {
          s.loc[k] = -1;
          // The clocks of a stuck automaton no longer matter
          for (int c = 0; c < tas[k]->clocks; ++c) {
            ip[base[k] + c] = static_cast<int16_t>(K + 1);
            rank[base[k] + c] = 0;
          }
        } else {
          s.loc[k] = static_cast<int16_t>(taken->target);
          for (const auto &r: taken->resets) {
            if (r.copy) {
              ip[base[k] + r.x] = s.ip[base[k] + r.from];
              rank[base[k] + r.x] = s.rank[base[k] + r.from];
            } else {
              const double sv = r.value * scale;
              ip[base[k] + r.x] = static_cast<int16_t>(sv > K ? K + 1 : static_cast<int>(sv));
              rank[base[k] + r.x] = 0;
            }
          }
        }
      }
      s.ip = std::move(ip);
      s.rank = std::move(rank);
      normalize(s);
      s.parent = static_cast<int>(i);
      s.via = action;
      if (seen.insert(keyOf(s)).second) {
        nodes.push_back(s);
        if (!test(static_cast<int>(nodes.size()) - 1)) {
          result.states = nodes.size();
          return result;
        }
      }
    }
  }
  result.states = nodes.size();
  return result;
}

inline ExploreResult equivalent(const RefTA &a, const RefTA &b, const std::vector<char> &alphabet,
                                const ExploreOptions &opt = {}) {
  return explore({&a, &b}, alphabet, [](const std::vector<bool> &acc) { return acc[0] == acc[1]; }, opt);
}

inline std::string show(const RefTA &a) {
  std::ostringstream os;
  os << "TA with " << a.clocks << " clocks, initial " << a.initial << "\n";
  for (std::size_t i = 0; i < a.locs.size(); ++i) {
    os << "  " << i << (a.locs[i].accepting ? " (accepting)" : "") << "\n";
    for (const auto &[act, es]: a.locs[i].next) {
      for (const auto &e: es) {
        os << "    -" << (act ? std::string(1, act) : std::string("eps")) << "-> " << e.target << " [";
        for (std::size_t k = 0; k < e.guard.size(); ++k) {
          static const char *names[] = {"<", "<=", ">=", ">"};
          os << (k ? ", " : "") << "x" << e.guard[k].x << names[static_cast<int>(e.guard[k].cmp)] << e.guard[k].c;
        }
        os << "] {";
        for (std::size_t k = 0; k < e.resets.size(); ++k) {
          os << (k ? ", " : "") << "x" << e.resets[k].x << ":=";
          if (e.resets[k].copy) {
            os << "x" << e.resets[k].from;
          } else {
            os << e.resets[k].value;
          }
        }
        os << "}\n";
      }
    }
  }
  return os.str();
}

//! One line of text, and back
inline std::string dump(const RefTA &a) {
  std::ostringstream os;
  os << a.clocks << " " << a.locs.size() << " " << a.initial;
  for (const auto &l: a.locs) {
    os << " " << l.accepting << " " << l.next.size();
    for (const auto &[act, es]: l.next) {
      os << " " << static_cast<int>(act) << " " << es.size();
      for (const auto &e: es) {
        os << " " << e.target << " " << e.guard.size();
        for (const auto &g: e.guard) {
          os << " " << g.x << " " << static_cast<int>(g.cmp) << " " << g.c;
        }
        os << " " << e.resets.size();
        for (const auto &r: e.resets) {
          os << " " << r.x << " " << r.copy << " " << (r.copy ? static_cast<double>(r.from) : r.value);
        }
      }
    }
  }
  return os.str();
}

inline RefTA parse(const std::string &line) {
  std::istringstream is(line);
  RefTA a;
  std::size_t n = 0;
  is >> a.clocks >> n >> a.initial;
  a.locs.resize(n);
  for (auto &l: a.locs) {
    std::size_t acts = 0;
    is >> l.accepting >> acts;
    for (; acts > 0; --acts) {
      int act = 0;
      std::size_t es = 0;
      is >> act >> es;
      auto &v = l.next[static_cast<char>(act)];
      v.resize(es);
      for (auto &e: v) {
        std::size_t k = 0;
        is >> e.target >> k;
        e.guard.resize(k);
        for (auto &g: e.guard) {
          int cmp = 0;
          is >> g.x >> cmp >> g.c;
          g.cmp = static_cast<Cmp>(cmp);
        }
        is >> k;
        e.resets.resize(k);
        for (auto &r: e.resets) {
          double v2 = 0;
          is >> r.x >> r.copy >> v2;
          r.from = r.copy ? static_cast<int>(v2) : 0;
          r.value = r.copy ? 0 : v2;
        }
      }
    }
  }
  if (!is) {
    throw ConversionError{"not an automaton: " + line};
  }
  return a;
}

//! Build a library automaton from the model
inline learnta::TimedAutomaton build(const RefTA &a, const std::vector<int> &maxConstants = {}) {
  learnta::TimedAutomaton ta;
  for (const auto &l: a.locs) {
    ta.states.push_back(std::make_shared<learnta::TAState>(l.accepting));
  }
  if (a.initial >= 0) {
    ta.initialStates.push_back(ta.states.at(a.initial));
  }
  std::vector<int> maxC(a.clocks, 0);
  for (std::size_t i = 0; i < a.locs.size(); ++i) {
    for (const auto &[act, es]: a.locs[i].next) {
      for (const auto &e: es) {
        std::vector<learnta::Constraint> guard;
        for (const auto &g: e.guard) {
          learnta::ConstraintMaker m(static_cast<learnta::ClockVariables>(g.x));
          switch (g.cmp) {
            case Cmp::lt:
              guard.push_back(m < g.c);
              break;
            case Cmp::le:
              guard.push_back(m <= g.c);
              break;
            case Cmp::ge:
              guard.push_back(m >= g.c);
              break;
            case Cmp::gt:
              guard.push_back(m > g.c);
              break;
          }
          maxC.at(g.x) = std::max(maxC.at(g.x), g.c);
        }
        learnta::TATransition::Resets resets;
        for (const auto &r: e.resets) {
          if (r.copy) {
            resets.emplace_back(static_cast<learnta::ClockVariables>(r.x), static_cast<learnta::ClockVariables>(r.from));
          } else {
            resets.emplace_back(static_cast<learnta::ClockVariables>(r.x), r.value);
          }
        }
        ta.states.at(i)->next[act].emplace_back(ta.states.at(e.target).get(), resets, guard);
      }
    }
  }
  ta.maxConstraints = maxConstants.empty() ? maxC : maxConstants;
  return ta;
}

} // namespace ref
