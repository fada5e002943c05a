// C13: the algebra of guards agrees with the sets of clock valuations the guards denote.
#include "common.hh"
#include "constraint.hh"

using namespace learnta;
using Guard = std::vector<Constraint>;

namespace {

constexpr int kMaxConst = 4;

using Valuation = std::vector<double>;

//! The meaning of one inequality, independent of the library
bool holds(const Constraint &c, const Valuation &v) {
  const double x = v.at(c.x);
  switch (c.odr) {
    case Constraint::Order::lt:
      return x < c.c;
    case Constraint::Order::le:
      return x <= c.c;
    case Constraint::Order::ge:
      return x >= c.c;
    default:
      return x > c.c;
  }
}

bool holds(const Guard &g, const Valuation &v) {
  for (const auto &c: g) {
    if (!holds(c, v)) {
      return false;
    }
  }
  return true;
}

bool holds(const std::vector<Guard> &dnf, const Valuation &v) {
  for (const auto &g: dnf) {
    if (holds(g, v)) {
      return true;
    }
  }
  return false;
}

//! One valuation of every clock region without diagonals: integers and the middles between them
std::vector<Valuation> grid(int clocks, int maxConst) {
  std::vector<Valuation> out(1);
  for (int i = 0; i < clocks; ++i) {
    std::vector<Valuation> next;
    for (const auto &v: out) {
      for (int k = 0; k <= 2 * maxConst + 3; ++k) {
        auto w = v;
        w.push_back(k / 2.0);
        next.push_back(std::move(w));
      }
    }
    out = std::move(next);
  }
  return out;
}

const std::vector<Valuation> &gridOf(int clocks) {
  static const std::vector<Valuation> g[] = {grid(0, kMaxConst), grid(1, kMaxConst), grid(2, kMaxConst), grid(3, kMaxConst)};
  return g[clocks];
}

Constraint constraint(pbt::Source &s, int clocks) {
  const auto x = static_cast<ClockVariables>(s.draw(clocks));
  const int c = s.range(0, kMaxConst);
  static const Constraint::Order orders[] = {Constraint::Order::lt, Constraint::Order::le, Constraint::Order::ge,
                                             Constraint::Order::gt};
  return Constraint{x, orders[s.draw(4)], c};
}

Guard guard(pbt::Source &s, int clocks, int minSize, int maxSize) {
  Guard g;
  for (int i = s.chance(2, 3) ? s.range(minSize, maxSize) : s.size(minSize, maxSize); i > 0; --i) {
    g.push_back(constraint(s, clocks));
  }
  return g;
}

//! A guard with at most one lower and one upper bound of each clock
Guard lean(pbt::Source &s, int clocks) {
  Guard g;
  for (int x = 0; x < clocks; ++x) {
    const int lo = s.range(0, kMaxConst);
    switch (s.draw(3)) {
      case 1:
        if (lo > 0) {
          g.push_back(ConstraintMaker(x) >= lo);
        }
        break;
      case 2:
        g.push_back(ConstraintMaker(x) > lo);
        break;
      default:
        break;
    }
    const int up = s.range(0, kMaxConst);
    switch (s.draw(3)) {
      case 1:
        g.push_back(ConstraintMaker(x) <= up);
        break;
      case 2:
        g.push_back(ConstraintMaker(x) < up);
        break;
      default:
        break;
    }
  }
  return g;
}

std::string str(const Guard &g) {
  std::stringstream ss;
  if (g.empty()) {
    return "true";
  }
  for (std::size_t i = 0; i < g.size(); ++i) {
    static const char *names[] = {"<", "<=", ">=", ">"};
    ss << (i ? " && " : "") << "x" << int(g[i].x) << names[static_cast<int>(g[i].odr)] << g[i].c;
  }
  return ss.str();
}

std::string str(const std::vector<Guard> &d) {
  if (d.empty()) {
    return "false";
  }
  std::string s;
  for (std::size_t i = 0; i < d.size(); ++i) {
    s += (i ? "  ||  " : "") + str(d[i]);
  }
  return s;
}

std::string str(const Valuation &v) {
  std::stringstream ss;
  for (double d: v) {
    ss << d << " ";
  }
  return ss.str();
}

bool empty(const Guard &g, int clocks) {
  for (const auto &v: gridOf(clocks)) {
    if (holds(g, v)) {
      return false;
    }
  }
  return true;
}

//! Whether there is at most one lower and one upper bound for each clock, none of them trivial
void checkLean(pbt::Ctx &ctx, const Guard &g, const std::string &what) {
  std::set<std::pair<int, bool>> seen;
  for (const auto &c: g) {
    REQUIRE(ctx, seen.insert({c.x, c.odr == Constraint::Order::lt || c.odr == Constraint::Order::le}).second,
              what + " bounds a clock twice: " + str(g));
    REQUIRE(ctx, !(c.odr == Constraint::Order::ge && c.c == 0), what + " has a trivial bound: " + str(g));
  }
}

void single(pbt::Ctx &ctx) {
  const int clocks = ctx.src.range(1, 3);
  const Guard g = guard(ctx.src, clocks, 0, 7);
  const Guard h = guard(ctx.src, clocks, 0, 4);
  ctx.note("g: " + str(g) + "\nh: " + str(h));
  const bool isEmpty = empty(g, clocks);
  REQUIRE(ctx, satisfiable(g) == !isEmpty, "satisfiable is wrong");
  const Guard simple = simplify(g);
  checkLean(ctx, simple, "the simplified guard");
  const Guard both = conjunction(g, h);
  const Guard wide = [&] {
    Guard w = g;
    widen(w);
    return w;
  }();
  const Guard negated = negateAll(g);
  REQUIRE(ctx, negated.size() == g.size(), "negateAll changed the number of constraints");
  for (const auto &v: gridOf(clocks)) {
    const bool in = holds(g, v);
    REQUIRE(ctx, holds(simple, v) == in, "simplify changed the guard at " + str(v) + " to " + str(simple));
    REQUIRE(ctx, holds(both, v) == (in && holds(h, v)), "conjunction is wrong at " + str(v));
    bool upper = true;
    for (std::size_t i = 0; i < g.size(); ++i) {
      const bool a = holds(g[i], v);
      REQUIRE(ctx, g[i].satisfy(v) == a && g[i].satisfy(v.at(g[i].x)) == a, "satisfy is wrong at " + str(v));
      REQUIRE(ctx, holds(g[i].negate(), v) == !a && holds(negated[i], v) == !a, "negation is wrong at " + str(v));
      const bool isUpper = g[i].odr == Constraint::Order::lt || g[i].odr == Constraint::Order::le;
      REQUIRE(ctx, g[i].isUpperBound() == isUpper, "isUpperBound is wrong");
      REQUIRE(ctx, g[i](v) == (a ? learnta::Order::EQ : isUpper ? learnta::Order::GT : learnta::Order::LT),
                "the ordering of a value and a constraint is wrong at " + str(v));
      upper = upper && (!isUpper || a);
    }
    REQUIRE(ctx, holds(wide, v) == upper, "widen does not keep exactly the upper bounds at " + str(v));
  }
  // Clocks whose values are within a point or an open unit interval
  if (!isEmpty) {
    std::vector<ClockVariables> expected;
    for (int x = 0; x < clocks; ++x) {
      std::set<double> values;
      for (const auto &v: gridOf(clocks)) {
        if (holds(g, v)) {
          values.insert(v[x]);
        }
      }
      if (values.size() == 1) {
        expected.push_back(x);
      }
    }
    REQUIRE(ctx, simpleVariables(g) == expected, "simpleVariables is wrong");
  }
  ctx.label(isEmpty ? "unsatisfiable" : g.empty() ? "true" : "satisfiable");
  if (g.size() >= 2) {
    ctx.nontrivialNote();
  }
}

void negation(pbt::Ctx &ctx) {
  const int clocks = ctx.src.range(1, 3);
  std::vector<Guard> dnf;
  for (int i = ctx.src.range(1, 4); i > 0; --i) {
    dnf.push_back(guard(ctx.src, clocks, 1, 4));
  }
  ctx.note(str(dnf));
  const auto result = negate(dnf);
  int inside = 0, outside = 0;
  for (const auto &v: gridOf(clocks)) {
    const bool in = holds(dnf, v);
    (in ? inside : outside)++;
    REQUIRE(ctx, holds(result, v) == !in, "the negation is wrong at " + str(v) + ": " + str(result));
  }
  ctx.label(!inside ? "unsatisfiable" : !outside ? "valid" : "neither");
  if (dnf.size() > 1 && inside && outside) {
    ctx.nontrivialNote();
  }
}

void order(pbt::Ctx &ctx) {
  const int clocks = ctx.src.range(1, 2);
  const bool isLean = ctx.src.coin();
  const Guard l = isLean ? lean(ctx.src, clocks) : guard(ctx.src, clocks, 0, 5);
  Guard r = isLean ? lean(ctx.src, clocks) : guard(ctx.src, clocks, 0, 5);
  if (ctx.src.coin()) {
    // Close to l
    r = l;
    if (!r.empty()) {
      auto &c = r[ctx.src.draw(r.size())];
      c.c = std::max(0, c.c + ctx.src.range(-1, 1));
      if (ctx.src.coin()) {
        c.odr = c.odr == Constraint::Order::lt ? Constraint::Order::le : c.odr == Constraint::Order::le ? Constraint::Order::lt
                : c.odr == Constraint::Order::ge ? Constraint::Order::gt : Constraint::Order::ge;
      }
    }
    if (isLean) {
      r = simplify(r);
    }
  }
  ctx.note("left " + str(l) + "\nright " + str(r));
  bool included = true, rEmpty = true;
  for (const auto &v: gridOf(clocks)) {
    const bool inR = holds(r, v);
    rEmpty = rEmpty && !inR;
    included = included && (!inR || holds(l, v));
  }
  const bool weaker = isWeaker(l, r);
  if (weaker) {
    REQUIRE(ctx, included, "isWeaker(left, right), but a valuation satisfies right only");
  }
  if (isLean && !rEmpty && included) {
    REQUIRE(ctx, weaker, "left is weaker than right, but isWeaker says no");
  }
  for (const auto &a: l) {
    for (const auto &b: r) {
      const bool upperA = a.isUpperBound(), upperB = b.isUpperBound();
      bool inc = a.x == b.x && upperA == upperB;
      for (int k = 0; k <= 2 * kMaxConst + 5; ++k) {
        Valuation v(clocks, k / 2.0 - 1);
        inc = inc && (!holds(b, v) || holds(a, v));
      }
      REQUIRE(ctx, a.isWeaker(b) == inc, "isWeaker of single constraints is wrong");
      const bool same = a.x == b.x && a.odr == b.odr && a.c == b.c;
      REQUIRE(ctx, (a == b) == same, "equality of constraints is wrong");
      REQUIRE(ctx, !same || hash_value(a) == hash_value(b), "equal constraints with different hash values");
    }
  }
  ctx.label(weaker ? "weaker" : included ? "included" : "not included");
  if (!l.empty() && !r.empty()) {
    ctx.nontrivialNote();
  }
}

void hull(pbt::Ctx &ctx) {
  const int clocks = ctx.src.range(1, 3);
  std::vector<Guard> guards;
  for (int i = ctx.src.range(1, 4); i > 0; --i) {
    guards.push_back(lean(ctx.src, clocks));
    if (empty(guards.back(), clocks)) {
      guards.pop_back();
    }
  }
  if (guards.empty()) {
    guards.push_back({});
  }
  ctx.note(str(guards));
  const auto pair = ctx.src.coin() && guards.size() == 2;
  const Guard result = pair ? unionHull(guards[0], guards[1]) : unionHull(guards);
  // The strongest guard weaker than all is, clock by clock, the interval between the least and the greatest value
  std::vector<double> lo(clocks, 1e9), hi(clocks, -1);
  for (const auto &v: gridOf(clocks)) {
    if (holds(guards, v)) {
      for (int x = 0; x < clocks; ++x) {
        lo[x] = std::min(lo[x], v[x]);
        hi[x] = std::max(hi[x], v[x]);
      }
    }
  }
  for (const auto &v: gridOf(clocks)) {
    bool inside = true;
    for (int x = 0; x < clocks; ++x) {
      inside = inside && lo[x] <= v[x] && v[x] <= hi[x];
    }
    REQUIRE(ctx, holds(result, v) == inside, "the hull " + str(result) + " is wrong at " + str(v));
  }
  ctx.label(result.empty() ? "hull is true" : "hull is bounded");
  if (guards.size() > 1 && !result.empty()) {
    ctx.nontrivialNote();
  }
}

//! The least delay after which a guard holds
void delay(pbt::Ctx &ctx) {
  const int clocks = ctx.src.range(1, 3);
  const Guard g = guard(ctx.src, clocks, 0, 4);
  Valuation v;
  for (int x = 0; x < clocks; ++x) {
    v.push_back(ctx.src.range(0, 4 * kMaxConst + 4) / 4.0);
  }
  ctx.note(str(g) + "\nat " + str(v));
  // On the grid of the boundaries and the middles between them, an eighth apart
  double first = -1;
  for (int k = 0; k <= 8 * (kMaxConst + 2) && first < 0; ++k) {
    Valuation w = v;
    for (auto &d: w) {
      d += k / 8.0;
    }
    if (holds(g, w)) {
      first = k / 8.0;
    }
  }
  const auto b = lowerBoundDurationToSatisfy(g, v);
  ctx.label(first < 0 ? "never" : first == 0 ? "now" : "later");
  if (first < 0) {
    REQUIRE(ctx, std::isinf(b.first), "a delay was found, but the guard never holds");
    return;
  }
  REQUIRE(ctx, std::isfinite(b.first) && b.first <= 0, "no delay was found, but the guard holds after " + std::to_string(first));
  // Boundaries are multiples of 1/4: an odd multiple of 1/8 stands for the open interval around it
  const bool open = std::fmod(first * 8, 2) == 1;
  REQUIRE(ctx, -b.first == (open ? first - 0.125 : first) && b.second == !open,
            "the least delay is " + std::to_string(-b.first) + (b.second ? "" : " (excluded)") + ", but the guard holds first after " +
            std::to_string(first));
  if (g.size() >= 2) {
    ctx.nontrivialNote();
  }
}

} // namespace

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C13";
  info.rule = "Random guards over up to three clocks with constants up to 4 (redundant, contradictory, empty), compared with the sets of "
              "valuations they denote on the grid of all integers and midpoints; non-trivial: two constraints or more (negation: two "
              "conjunctions or more, neither valid nor unsatisfiable); distinct by the rendered guards";
  info.assumptions = {"negate is only used on disjunctions of non-empty conjunctions; completeness of isWeaker and exactness of unionHull "
                      "are only required of guards without redundant bounds"};
  info.subs = {sub("single", 200000, 3000000, single), sub("negation", 150000, 2000000, negation), sub("order", 600000, 6000000, order),
               sub("hull", 200000, 3000000, hull), sub("delay", 600000, 6000000, delay)};
  return pbt::checkMain(argc, argv, info);
}
