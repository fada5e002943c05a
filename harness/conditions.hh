// Timed conditions read off as difference constraints over the suffix sums T_i = tau_i + ... + tau_N, and words in them.
#pragma once

#include "common.hh"
#include "dbm.hh"
#include "elementary_language.hh"

namespace conditions {

using dbm::Point;
using dbm::Matrix;
using dbm::kInf;

//! Read through the accessors for T_{i, j}
inline Matrix read(const learnta::TimedCondition &c) {
  const std::size_t n = c.size();
  Matrix m(n + 1, std::vector<dbm::Bounds>(n + 1, dbm::Bounds{kInf, false}));
  for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t j = i; j < n; ++j) {
      const std::size_t other = j + 1 == n ? 0 : j + 2;
      m[i + 1][other] = c.getUpperBound(i, j);
      m[other][i + 1] = c.getLowerBound(i, j);
    }
  }
  for (std::size_t i = 0; i <= n; ++i) {
    m[i][i] = {0, true};
  }
  return m;
}

inline Point sums(const std::vector<double> &durations) {
  Point t = durations;
  for (int i = static_cast<int>(t.size()) - 2; i >= 0; --i) {
    t[i] += t[i + 1];
  }
  return t;
}

inline std::vector<double> differences(Point t) {
  for (std::size_t i = 0; i + 1 < t.size(); ++i) {
    t[i] -= t[i + 1];
  }
  return t;
}

inline bool nonNegative(const std::vector<double> &d) {
  return std::all_of(d.begin(), d.end(), [](double x) { return x >= 0; });
}

//! Whether the word with these durations is in the condition
inline bool contains(const Matrix &m, const std::vector<double> &durations) { return dbm::contains(m, sums(durations)); }

//! The bounds of all sums are a point or an open interval of length one
inline bool simple(Matrix m) {
  dbm::close(m);
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t j = 0; j < i; ++j) {
      const auto up = m[i][j], lo = m[j][i];
      const bool point = up.second && lo.second && up.first == -lo.first;
      const bool unit = !up.second && !lo.second && up.first == 1 - lo.first;
      if (!point && !unit) {
        return false;
      }
    }
  }
  return true;
}

inline std::vector<double> durations(pbt::Source &s, std::size_t n, int maxConst, int parts = 8) {
  std::vector<double> d;
  for (std::size_t i = 0; i < n; ++i) {
    d.push_back(s.chance(1, 3) ? s.range(0, maxConst) : s.range(0, maxConst * parts) / static_cast<double>(parts));
  }
  return d;
}

//! A solution near the bounds, as durations; empty if the random walk failed
inline std::vector<double> solution(pbt::Source &s, const Matrix &m, int maxConst, double step = 0.125, bool inside = true) {
  Matrix d = m;
  if (!dbm::close(d)) {
    return {};
  }
  Point p(m.size() - 1, 0);
  for (std::size_t x = m.size() - 1; x >= 1; --x) {
    const double lo = d[0][x].first >= kInf ? 0 : -d[0][x].first;
    const double hi = std::max(lo, d[x][0].first >= kInf ? std::max(maxConst + 1.0, lo + 1) : d[x][0].first);
    double v = 0;
    switch (s.draw(6)) {
      case 0:
        v = lo;
        break;
      case 1:
        v = hi;
        break;
      case 2:
        v = lo + step;
        break;
      case 3:
        v = hi - step;
        break;
      default:
        v = lo + s.range(0, static_cast<int>((hi - lo) / step)) * step;
        break;
    }
    const bool in = dbm::below(v, d[x][0]) && dbm::below(-v, d[0][x]);
    if (inside && !in) {
      v = (lo + hi) / 2;
    }
    p[x - 1] = v;
    d[x][0] = std::min(d[x][0], dbm::Bounds{v, true});
    d[0][x] = std::min(d[0][x], dbm::Bounds{-v, true});
    if (!dbm::close(d)) {
      if (inside) {
        return {};
      }
      d = m; // go on regardless
      dbm::close(d);
    }
  }
  return differences(p);
}

inline std::string str(const Matrix &m) {
  std::stringstream ss;
  const std::size_t n = m.size() - 1;
  for (std::size_t i = 0; i < n; ++i) {
    for (std::size_t j = i; j < n; ++j) {
      const std::size_t other = j + 1 == n ? 0 : j + 2;
      const auto up = m[i + 1][other], lo = m[other][i + 1];
      ss << (i || j ? ", " : "");
      if (lo.first < kInf) {
        ss << -lo.first << (lo.second ? "<=" : "<");
      }
      ss << "T" << i << j;
      if (up.first < kInf) {
        ss << (up.second ? "<=" : "<") << up.first;
      }
    }
  }
  return ss.str();
}

inline std::string str(const std::vector<double> &d) { return dbm::str(d); }

//! A random satisfiable bounded condition, canonical, built with the public operations
inline learnta::TimedCondition condition(pbt::Source &s, std::size_t n, int maxConst, std::vector<double> start = {}) {
  using learnta::TimedCondition;
  if (start.empty()) {
    start = durations(s, n, maxConst, 4);
  }
  TimedCondition c{sums(start)};
  for (int i = s.size(0, 3); i > 0; --i) {
    if (s.chance(3, 4)) {
      // Nearby words give small hulls
      auto d = solution(s, read(c), maxConst);
      if (d.empty()) {
        continue;
      }
      for (auto &x: d) {
        if (s.chance(1, 3)) {
          x = std::max(0.0, x + s.range(-4, 4) / 4.0);
        }
      }
      if (nonNegative(d)) {
        c = c.convexHull(TimedCondition{sums(d)});
      }
    } else {
      TimedCondition e = c;
      const std::size_t a = s.draw(n), b = a + s.draw(n - a);
      const learnta::Bounds bound{s.range(0, maxConst), s.coin()};
      if (s.coin()) {
        e.restrictUpperBound(a, b, bound);
      } else {
        e.restrictLowerBound(a, b, learnta::Bounds{-bound.first, bound.second});
      }
      Matrix m = read(e);
      if (dbm::close(m)) {
        c = e;
      }
    }
  }
  return c;
}

} // namespace conditions
