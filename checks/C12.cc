// C12: the operations on zones agree with the sets of clock valuations the zones denote.
#include "common.hh"
#include "dbm.hh"
#include "zone.hh"

using namespace learnta;

namespace {

using dbm::Point, dbm::Matrix, dbm::kInf, dbm::below, dbm::contains, dbm::plus, dbm::close, dbm::str;
using Resets = std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>>;

//! The constraints of a zone, read off once; entry (i, j) bounds x_i - x_j with x_0 = 0
Matrix read(const Zone &z) {
  const auto n = z.value.cols();
  Matrix m(n, std::vector<Bounds>(n, Bounds{kInf, false}));
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      m[i][j] = z.value(i, j);
    }
  }
  return m;
}

std::string str(const Resets &r) {
  std::stringstream ss;
  for (const auto &[x, v]: r) {
    ss << "x" << int(x) << ":=";
    if (v.index() == 1) {
      ss << "x" << int(std::get<ClockVariables>(v)) << " ";
    } else {
      ss << std::get<double>(v) << " ";
    }
  }
  return ss.str();
}

struct World {
  pbt::Ctx &ctx;
  int clocks;
  double unit; // all constants are multiples
  int maxConst;
  double negative; // how far below zero the points reach

  std::vector<Point> points() const {
    // Points of every region of up to three clocks, exact in binary
    std::vector<Point> out;
    const int lo = -static_cast<int>(negative / unit) * 4;
    const int hi = static_cast<int>((maxConst + 2) / unit) * 4;
    if (clocks == 1) {
      for (int k = lo; k <= hi; ++k) {
        out.push_back({k * unit / 4});
      }
      return out;
    }
    for (int i = 0; i < 150; ++i) {
      Point p;
      for (int x = 0; x < clocks; ++x) {
        p.push_back(ctx.src.range(lo, hi) * unit / 4);
      }
      out.push_back(p);
    }
    return out;
  }

  //! A point near the surface of the zone: a random walk through its bounds
  void near(const Matrix &m, std::vector<Point> &out) const {
    Matrix c = m;
    if (!close(c)) {
      return;
    }
    for (int rep = 0; rep < 60; ++rep) {
      Matrix d = c;
      Point p;
      bool ok = true;
      for (int x = 1; x <= clocks && ok; ++x) {
        const double lo = d[0][x].first >= kInf ? -negative : -d[0][x].first;
        const double hi = d[x][0].first >= kInf ? maxConst + 2 : d[x][0].first;
        const double step = unit / 4;
        double v = 0;
        switch (ctx.src.draw(5)) {
          case 0:
            v = lo;
            break;
          case 1:
            v = hi;
            break;
          case 2:
            v = lo + step;
            break;
          case 3:
            v = hi - step;
            break;
          default:
            v = lo + std::floor((hi - lo) / step / 2) * step;
            break;
        }
        p.push_back(v);
        if (ctx.src.chance(4, 5)) { // otherwise the remaining clocks ignore this one
          d[x][0] = std::min(d[x][0], Bounds{v, true});
          d[0][x] = std::min(d[0][x], Bounds{-v, true});
          ok = close(d);
        }
      }
      if (static_cast<int>(p.size()) == clocks) {
        out.push_back(p);
      }
    }
  }

  double constant() const { return ctx.src.range(0, static_cast<int>(maxConst / unit)) * unit; }

  Resets resets(bool simultaneous) const {
    Resets r;
    for (int x = 0; x < clocks; ++x) {
      if (!ctx.src.coin()) {
        continue;
      }
      if (simultaneous && ctx.src.coin()) {
        r.emplace_back(x, static_cast<ClockVariables>(ctx.src.draw(clocks)));
      } else {
        r.emplace_back(x, ctx.src.chance(1, 3) ? constant() : 0.0);
      }
    }
    return r;
  }
};

Point reset(const Point &p, const Resets &r) {
  Point q = p;
  for (const auto &[x, v]: r) {
    q[x] = v.index() == 1 ? p[std::get<ClockVariables>(v)] : std::get<double>(v);
  }
  return q;
}

//! Whether a solution of m becomes q by the resets
bool hasPreimage(Matrix m, const Point &q, const Resets &r) {
  std::vector<char> assigned(q.size(), 0);
  const auto fix = [&m](std::size_t x, double v) {
    m[x + 1][0] = std::min(m[x + 1][0], Bounds{v, true});
    m[0][x + 1] = std::min(m[0][x + 1], Bounds{-v, true});
  };
  for (const auto &[x, v]: r) {
    assigned[x] = 1;
    if (v.index() == 1) {
      fix(std::get<ClockVariables>(v), q[x]);
    } else if (std::get<double>(v) != q[x]) {
      return false;
    }
  }
  for (std::size_t x = 0; x < q.size(); ++x) {
    if (!assigned[x]) {
      fix(x, q[x]);
    }
  }
  return close(m);
}

//! Whether some t >= 0 takes p into m, forwards or backwards
bool shifted(const Matrix &m, const Point &p, bool forwards) {
  Matrix c(2, std::vector<Bounds>(2, Bounds{kInf, false})); // the constraints on t
  c[0][1] = {0, true};
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t j = 0; j < m.size(); ++j) {
      const double diff = (i ? p[i - 1] : 0) - (j ? p[j - 1] : 0);
      if ((i > 0) == (j > 0)) {
        if (!below(diff, m[i][j])) {
          return false;
        }
      } else if (m[i][j].first < kInf) {
        // diff + sign * t is below the bound
        const bool up = (i > 0) == forwards;
        auto &entry = up ? c[1][0] : c[0][1];
        entry = std::min(entry, Bounds{m[i][j].first - diff, m[i][j].second});
      }
    }
  }
  return close(c);
}

//! Whether a solution of m agrees with p in all that a diagonal-free guard with constants up to M can ever observe
bool equivalentTo(Matrix m, const Point &p, const std::vector<double> &M) {
  const auto bound = [&m](std::size_t i, std::size_t j, double diff) {
    const double f = std::floor(diff);
    if (f == diff) {
      m[i][j] = std::min(m[i][j], Bounds{f, true});
      m[j][i] = std::min(m[j][i], Bounds{-f, true});
    } else {
      m[i][j] = std::min(m[i][j], Bounds{f + 1, false});
      m[j][i] = std::min(m[j][i], Bounds{-f, false});
    }
  };
  for (std::size_t x = 0; x < p.size(); ++x) {
    if (p[x] > M[x]) {
      m[0][x + 1] = std::min(m[0][x + 1], Bounds{-M[x], false});
      continue;
    }
    bound(x + 1, 0, p[x]);
    for (std::size_t y = 0; y < x; ++y) {
      if (p[y] <= M[y]) {
        bound(x + 1, y + 1, p[x] - p[y]);
      }
    }
  }
  return close(m);
}

struct Machine {
  pbt::Ctx &ctx;
  World w;
  Zone zone;
  std::string steps;
  int nonEmpty = 0, changes = 0;

  //! The matrix of the zone has to be the tightest one
  void canonical(const std::string &op) {
    Matrix m = read(zone);
    Matrix c = m;
    if (!close(c)) {
      return;
    }
    for (std::size_t i = 0; i < m.size(); ++i) {
      for (std::size_t j = 0; j < m.size(); ++j) {
        REQUIRE(ctx, i == j || std::min(m[i][j], Bounds{kInf, false}) == c[i][j],
                "after " + op + " the zone is not canonical: " + str(m) + " is equivalent to " + str(c));
      }
    }
  }

  //! Compare the zone with a predicate on points
  template<class P>
  void compare(const std::string &op, const Matrix &before, P predicate) {
    const Matrix after = read(zone);
    auto points = w.points();
    w.near(before, points);
    w.near(after, points);
    for (const auto &p: points) {
      const bool expected = predicate(p);
      REQUIRE(ctx, contains(after, p) == expected,
              "after " + op + " the zone " + str(after) + (expected ? " misses " : " contains ") + str(p) + "; it was " + str(before));
    }
  }

  void step() {
    auto &src = ctx.src;
    const Matrix before = read(zone);
    const int n = w.clocks;
    Matrix tmp = before;
    const bool sat = close(tmp);
    switch (src.draw(sat ? 12 : 2)) {
      case 0: { // intersection with another zone
        Zone other = make();
        const Matrix o = read(other);
        ctx.note("intersect with " + str(o));
        if (src.coin()) {
          zone &= other;
        } else {
          zone = zone && other;
          zone.maxConstraints.resize(n);
        }
        compare("the intersection", before, [&](const Point &p) { return contains(before, p) && contains(o, p); });
        canonical("the intersection");
        break;
      }
      case 1: { // satisfiability
        Zone copy = zone;
        REQUIRE(ctx, copy.isSatisfiable() == sat, "satisfiability of " + str(before) + " is wrong");
        Zone copy2 = zone;
        REQUIRE(ctx, static_cast<bool>(copy2) == sat, "satisfiability of " + str(before) + " is wrong");
        if (!sat) {
          zone = make();
        }
        break;
      }
      case 2: { // a constraint of a guard
        static const Constraint::Order orders[] = {Constraint::Order::lt, Constraint::Order::le, Constraint::Order::ge,
                                                   Constraint::Order::gt};
        std::vector<Constraint> g;
        for (int i = src.range(1, 2); i > 0; --i) {
          g.push_back(Constraint{static_cast<ClockVariables>(src.draw(n)), orders[src.draw(4)], src.range(0, w.maxConst)});
        }
        std::stringstream ss;
        ss << g;
        ctx.note("tighten " + ss.str());
        zone.tighten(g);
        compare("tightening", before, [&](const Point &p) {
          return contains(before, p) && std::all_of(g.begin(), g.end(), [&](const auto &c) { return c.satisfy(p[c.x]); });
        });
        canonical("tightening");
        break;
      }
      case 3: { // a difference constraint
        const int x = src.range(-1, n - 1), y = src.range(-1, n - 1);
        if (x == y) {
          break;
        }
        const Bounds b{src.range(-w.maxConst, w.maxConst) * 1.0, src.coin()};
        ctx.note("tighten x" + std::to_string(x) + "-x" + std::to_string(y) + (b.second ? "<=" : "<") + std::to_string(b.first));
        zone.tighten(static_cast<ClockVariables>(x), static_cast<ClockVariables>(y), b);
        compare("tightening", before, [&](const Point &p) {
          return contains(before, p) && below((x < 0 ? 0 : p[x]) - (y < 0 ? 0 : p[y]), b);
        });
        canonical("tightening");
        break;
      }
      case 4: {
        ctx.note("elapse");
        zone.elapse();
        compare("elapse", before, [&](const Point &p) { return shifted(before, p, false); });
        zone.canonize();
        compare("elapse and canonize", before, [&](const Point &p) { return shifted(before, p, false); });
        break;
      }
      case 5: {
        ctx.note("reverse elapse");
        zone.reverseElapse();
        compare("reverse elapse", before, [&](const Point &p) {
          return std::all_of(p.begin(), p.end(), [](double d) { return d >= 0; }) && shifted(before, p, true);
        });
        zone.canonize();
        canonical("reverse elapse and canonize");
        break;
      }
      case 6: {
        const int x = src.draw(n);
        ctx.note("reset x" + std::to_string(x));
        zone.reset(x);
        const Resets r = {{x, 0.0}};
        compare("reset", before, [&](const Point &p) { return hasPreimage(before, p, r); });
        zone.canonize();
        canonical("reset and canonize");
        break;
      }
      case 7:
      case 8: {
        const auto r = w.resets(true);
        ctx.note("apply " + str(r));
        zone.applyResets(r);
        compare("applying resets", before, [&](const Point &p) { return hasPreimage(before, p, r); });
        canonical("applying resets");
        break;
      }
      case 9: {
        const auto r = w.resets(true);
        ctx.note("revert " + str(r));
        zone.revertResets(r);
        compare("reverting resets", before, [&](const Point &p) { return contains(before, reset(p, r)); });
        canonical("reverting resets");
        break;
      }
      case 10: {
        const int x = src.draw(n);
        ctx.note("unconstrain x" + std::to_string(x));
        zone.unconstrain(x);
        compare("unconstrain", before, [&](Point p) {
          Matrix m = before;
          for (int y = 0; y < n; ++y) {
            if (y != x) {
              m[y + 1][0] = std::min(m[y + 1][0], Bounds{p[y], true});
              m[0][y + 1] = std::min(m[0][y + 1], Bounds{-p[y], true});
            }
          }
          return close(m);
        });
        zone.canonize();
        canonical("unconstrain and canonize");
        for (int y = 0; y < n; ++y) { // clocks are never negative
          zone.tighten(static_cast<ClockVariables>(-1), y, Bounds{0, true});
        }
        break;
      }
      default: {
        if (w.unit != 1) {
          break;
        }
        Zone copy = zone;
        copy.value.diagonal().fill(Bounds{0, true});
        const bool global = src.chance(1, 3);
        std::vector<double> M(n);
        if (global) {
          copy.M = Bounds{src.range(0, w.maxConst), true};
          M.assign(n, copy.M.first);
        } else {
          for (auto &m: M) {
            m = src.range(0, w.maxConst);
          }
          copy.maxConstraints = M;
        }
        ctx.note(std::string(global ? "abstractize " : "extrapolate ") + str(M));
        if (global) {
          copy.abstractize();
        } else {
          copy.extrapolate();
        }
        const Matrix after = read(copy);
        auto points = w.points();
        w.near(before, points);
        w.near(after, points);
        for (const auto &p: points) {
          const bool in = contains(after, p);
          REQUIRE(ctx, in || !contains(before, p), "extrapolation of " + str(before) + " to " + str(after) + " lost " + str(p));
          if (in && std::all_of(p.begin(), p.end(), [](double d) { return d >= 0; })) {
            REQUIRE(ctx, equivalentTo(before, p, M), "extrapolation of " + str(before) + " to " + str(after) + " added " + str(p) +
                                                     ", which can be told apart from all of the zone");
          }
        }
        for (int x = 0; x < n; ++x) {
          const auto up = copy.value(x + 1, 0);
          REQUIRE(ctx, up.first >= kInf || up.first <= M[x], "extrapolation left a large upper bound");
          REQUIRE(ctx, -copy.value(0, x + 1).first <= M[x], "extrapolation left a large lower bound");
        }
        changes += !(after == before);
        break;
      }
    }
    Matrix now = read(zone);
    nonEmpty += close(now);
    changes += !(read(zone) == before);
  }

  //! A fresh zone
  Zone make() {
    auto &src = ctx.src;
    const int n = w.clocks;
    Zone z;
    Matrix m;
    switch (src.draw(3)) {
      case 0: {
        z = Zone::zero(n + 1);
        ctx.note("zero");
        for (int x = 0; x < n; ++x) {
          REQUIRE(ctx, z.value(x + 1, 0) == Bounds(0, true) && z.value(0, x + 1) == Bounds(0, true), "zero is not zero");
        }
        break;
      }
      case 1: {
        Point p;
        for (int x = 0; x < n; ++x) {
          p.push_back(w.constant());
        }
        ctx.note("point " + str(p));
        z = Zone{p, Bounds{w.maxConst, true}};
        z.canonize();
        REQUIRE(ctx, contains(read(z), p), "the zone of a point does not contain the point");
        for (const auto &q: w.points()) {
          REQUIRE(ctx, q == p || !contains(read(z), q), "the zone of a point contains another one");
        }
        break;
      }
      default: {
        z = Zone::top(n + 1);
        ctx.note("top");
        for (const auto &q: w.points()) {
          REQUIRE(ctx, contains(read(z), q), "top does not contain " + str(q));
        }
        for (int x = 0; x < n; ++x) {
          z.tighten(static_cast<ClockVariables>(-1), x, Bounds{0, true});
        }
        for (int i = src.size(0, 4); i > 0; --i) {
          const int x = src.range(-1, n - 1), y = src.range(-1, n - 1);
          if (x != y) {
            const Bounds b{src.range(-w.maxConst, w.maxConst) * w.unit, src.coin()};
            Zone copy = z;
            copy.tighten(static_cast<ClockVariables>(x), static_cast<ClockVariables>(y), b);
            if (copy.isSatisfiable()) {
              z = copy;
            }
          }
        }
        ctx.note(str(read(z)));
        break;
      }
    }
    z.M = Bounds{w.maxConst, true};
    z.maxConstraints.assign(n, w.maxConst);
    return z;
  }
};

World world(pbt::Ctx &ctx) {
  World w{ctx, ctx.src.range(1, 3), ctx.src.chance(1, 4) ? 0.5 : 1.0, ctx.src.range(1, 4), 1};
  return w;
}

void history(pbt::Ctx &ctx) {
  Machine m{ctx, world(ctx), {}, {}};
  m.zone = m.make();
  for (int i = ctx.src.range(2, 8); i > 0; --i) {
    m.step();
  }
  if (m.changes > 1 && m.nonEmpty > 1) {
    ctx.nontrivialNote();
  }
  Matrix f = read(m.zone);
  ctx.label(close(f) ? "ends satisfiable" : "ends empty");
}

//! Comparisons of two canonical zones, and their hash values
void compareTwo(pbt::Ctx &ctx) {
  Machine m{ctx, world(ctx), {}, {}};
  Zone a = m.make();
  Zone b = ctx.src.coin() ? a : m.make();
  if (ctx.src.coin()) {
    // Other ways of writing the same zone
    for (int x = 0; x < m.w.clocks; ++x) {
      if (ctx.src.coin()) {
        b.tighten(static_cast<ClockVariables>(-1), x, Bounds{-0.0, true});
      }
    }
    if (ctx.src.chance(1, 3)) {
      const int x = ctx.src.draw(m.w.clocks);
      b.tighten(x, static_cast<ClockVariables>(-1), Bounds{m.w.maxConst, ctx.src.coin()});
      ctx.note("bound x" + std::to_string(x));
    }
  }
  a.canonize();
  b.canonize();
  a.value.diagonal().fill(Bounds{0, true});
  b.value.diagonal().fill(Bounds{0, true});
  Matrix ma = read(a), mb = read(b);
  if (!close(ma) || !close(mb)) {
    ctx.discard();
  }
  ctx.note(str(ma) + "\nand " + str(mb));
  bool included = true;
  for (std::size_t i = 0; i < ma.size(); ++i) {
    for (std::size_t j = 0; j < ma.size(); ++j) {
      included = included && mb[i][j] <= ma[i][j];
    }
  }
  const bool equal = ma == mb;
  REQUIRE(ctx, a.includes(b) == included, "includes is wrong");
  REQUIRE(ctx, (a == b) == equal, "equality is wrong");
  REQUIRE(ctx, a.strictEqual(b) == equal && a.equalIgnoreZero(b) == equal, "equality is wrong");
  REQUIRE(ctx, !equal || hash_value(a) == hash_value(b), "equal zones have different hash values");
  ctx.label(equal ? "equal" : included ? "included" : "different");
  ctx.nontrivialNote();
}

//! A sampled valuation is in the zone
void sampling(pbt::Ctx &ctx) {
  Machine m{ctx, world(ctx), {}, {}};
  Zone z = m.make();
  for (int i = ctx.src.range(0, 4); i > 0; --i) {
    Zone before = z;
    const int n = m.w.clocks;
    switch (ctx.src.draw(3)) {
      case 0:
        z.elapse();
        z.canonize();
        break;
      case 1:
        z.applyResets(m.w.resets(true));
        break;
      default: {
        const int x = ctx.src.range(-1, n - 1), y = ctx.src.range(-1, n - 1);
        if (x != y) {
          z.tighten(static_cast<ClockVariables>(x), static_cast<ClockVariables>(y),
                    Bounds{ctx.src.range(-m.w.maxConst, m.w.maxConst) * m.w.unit, ctx.src.chance(1, 3)});
        }
        break;
      }
    }
    if (!z.isSatisfiable()) {
      z = before;
    }
  }
  Matrix c = read(z);
  if (!close(c)) {
    ctx.discard();
  }
  ctx.note(str(c));
  const auto p = z.sample();
  REQUIRE(ctx, p.size() == static_cast<std::size_t>(m.w.clocks), "a sample of a wrong dimension");
  REQUIRE(ctx, contains(c, p), "the sample " + str(p) + " is not in the zone");
  ctx.label("clocks: " + std::to_string(m.w.clocks));
  ctx.nontrivialNote();
}

} // namespace

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C12";
  info.rule = "Histories of operations on zones of up to three clocks (guards, differences, delays in both directions, simultaneous resets "
              "with copies and fractional constants and their inversion, intersections, extrapolation); after every step the zone is "
              "compared with the set of valuations defined by the previous one, on random points of all regions and points near the "
              "bounds; non-trivial: two steps or more that changed a satisfiable zone; distinct by history";
  info.assumptions = {"clocks are never negative", "extrapolation may add valuations only if a region equivalent one is in the zone"};
  info.subs = {sub("history", 40000, 600000, history), sub("compare", 100000, 1000000, compareTwo), sub("sample", 150000, 2000000, sampling)};
  return pbt::checkMain(argc, argv, info);
}
