// Difference constraints: membership of points and closure, independent of the library's zones.
#pragma once

#include <limits>
#include <sstream>
#include <string>
#include <vector>

namespace dbm {

//! An upper bound and whether it is included
using Bounds = std::pair<double, bool>;
using Point = std::vector<double>;
using Matrix = std::vector<std::vector<Bounds>>;

constexpr double kInf = std::numeric_limits<double>::max();

inline bool below(double x, const Bounds &b) { return b.first == kInf || (b.second ? x <= b.first : x < b.first); }

inline bool contains(const Matrix &m, const Point &p) {
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t j = 0; j < m.size(); ++j) {
      if (!below((i ? p[i - 1] : 0) - (j ? p[j - 1] : 0), m[i][j])) {
        return false;
      }
    }
  }
  return true;
}

inline Bounds plus(const Bounds &a, const Bounds &b) {
  return a.first >= kInf || b.first >= kInf ? Bounds{kInf, false} : Bounds{a.first + b.first, a.second && b.second};
}

//! The tightest equivalent constraints; false if there is no solution
inline bool close(Matrix &m) {
  for (std::size_t i = 0; i < m.size(); ++i) {
    m[i][i] = std::min(m[i][i], Bounds{0, true});
  }
  for (std::size_t k = 0; k < m.size(); ++k) {
    for (std::size_t i = 0; i < m.size(); ++i) {
      for (std::size_t j = 0; j < m.size(); ++j) {
        m[i][j] = std::min(m[i][j], plus(m[i][k], m[k][j]));
      }
    }
  }
  for (std::size_t i = 0; i < m.size(); ++i) {
    if (m[i][i] < Bounds{0, true}) {
      return false;
    }
  }
  return true;
}

inline std::string str(const Matrix &m) {
  std::stringstream ss;
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t j = 0; j < m.size(); ++j) {
      if (i != j && m[i][j].first < kInf) {
        ss << (i ? "x" + std::to_string(i - 1) : "0") << "-" << (j ? "x" + std::to_string(j - 1) : "0")
           << (m[i][j].second ? "<=" : "<") << m[i][j].first << " ";
      }
    }
  }
  return ss.str();
}

inline std::string str(const Point &p) {
  std::stringstream ss;
  ss << "(";
  for (double d: p) {
    ss << " " << d;
  }
  ss << " )";
  return ss.str();
}

} // namespace dbm

namespace dbm {

/*!
 * @brief A part of the zone that is in none of the others, closed; nothing if they cover it
 *
 * @pre all are closed
 */
inline bool uncovered(const Matrix &zone, const std::vector<Matrix> &others, Matrix &witness, std::size_t from = 0) {
  if (from == others.size()) {
    witness = zone;
    return true;
  }
  const Matrix &other = others[from];
  Matrix rest = zone;
  for (std::size_t i = 0; i < zone.size(); ++i) {
    for (std::size_t j = 0; j < zone.size(); ++j) {
      if (i != j && other[i][j] < rest[i][j]) {
        // The part that violates this bound; then go on with the part that satisfies it
        Matrix out = rest;
        out[j][i] = std::min(out[j][i], Bounds{-other[i][j].first, !other[i][j].second});
        if (close(out) && uncovered(out, others, witness, from + 1)) {
          return true;
        }
        rest[i][j] = other[i][j];
        if (!close(rest)) {
          return false;
        }
      }
    }
  }
  return false;
}

//! A solution of closed constraints
inline Point solve(Matrix m) {
  Point p(m.size() - 1, 0);
  for (std::size_t x = 1; x < m.size(); ++x) {
    const double lo = -m[0][x].first, hi = m[x][0].first >= kInf ? lo + 1 : m[x][0].first;
    const double v = m[0][x].second ? lo : m[x][0].second && m[x][0].first < kInf ? hi : (lo + hi) / 2;
    p[x - 1] = v;
    m[x][0] = {v, true};
    m[0][x] = {-v, true};
    if (!close(m)) {
      return {};
    }
  }
  return p;
}

} // namespace dbm
