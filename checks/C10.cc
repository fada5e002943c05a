// C10: timed conditions and elementary languages agree with the sets of timed words they denote.
#include "conditions.hh"

using namespace learnta;
using namespace conditions;

namespace {

std::size_t size(pbt::Source &s, std::size_t most) { return 1 + s.draw(most); }

//! The words on which a condition is compared with its expected meaning
std::vector<std::vector<double>> words(pbt::Ctx &ctx, std::size_t n, int maxConst, const std::vector<Matrix> &around) {
  std::vector<std::vector<double>> out;
  for (int i = 0; i < 30; ++i) {
    out.push_back(durations(ctx.src, n, maxConst));
  }
  for (const auto &m: around) {
    for (int i = 0; i < 30; ++i) {
      auto d = solution(ctx.src, m, maxConst, 0.125, ctx.src.coin());
      if (!d.empty() && nonNegative(d)) {
        out.push_back(std::move(d));
      }
    }
  }
  return out;
}

template<class P>
void compare(pbt::Ctx &ctx, const std::string &what, const TimedCondition &c, std::size_t n, int maxConst,
             std::vector<Matrix> around, P predicate) {
  REQUIRE(ctx, c.size() == n, what + " has a wrong dimension");
  const Matrix m = read(c);
  around.push_back(m);
  for (const auto &d: words(ctx, n, maxConst, around)) {
    const bool expected = predicate(d);
    REQUIRE(ctx, conditions::contains(m, d) == expected,
            what + (expected ? " misses " : " contains ") + str(d) + ": " + str(m));
  }
  Matrix k = m;
  if (dbm::close(k)) {
    for (std::size_t i = 0; i < m.size(); ++i) {
      for (std::size_t j = 0; j < m.size(); ++j) {
        REQUIRE(ctx, m[i][j] == k[i][j] || (m[i][j].first >= kInf && k[i][j].first >= kInf),
                what + " is not canonical: " + str(m) + " is equivalent to " + str(k));
      }
    }
  }
}

void shown(pbt::Ctx &ctx, const std::string &name, const TimedCondition &c) { ctx.note(name + ": " + str(read(c))); }

//! A word with the durations d is the concatenation of words in the conditions
bool concatenated(const Matrix &left, const Matrix &right, const std::vector<double> &d) {
  const std::size_t n = left.size() - 1;
  // The last duration of the left word, a, is what is unknown; the right one starts with the rest
  Matrix bounds(2, std::vector<dbm::Bounds>(2, dbm::Bounds{kInf, false}));
  const auto add = [&bounds](double base, bool plusA, const dbm::Bounds &b) { // base +- a is below b
    if (b.first < kInf) {
      auto &e = plusA ? bounds[1][0] : bounds[0][1];
      e = std::min(e, dbm::Bounds{b.first - base, b.second});
    }
  };
  add(0, false, {0, true});
  add(0, true, {d[n - 1], true});
  const std::vector<double> l(d.begin(), d.begin() + static_cast<long>(n - 1));
  for (std::size_t i = 0; i < n; ++i) {
    double sum = 0;
    for (std::size_t j = i; j < n; ++j) {
      const std::size_t other = j + 1 == n ? 0 : j + 2;
      if (j + 1 < n) {
        sum += l[j];
        if (!dbm::below(sum, left[i + 1][other]) || !dbm::below(-sum, left[other][i + 1])) {
          return false;
        }
      } else {
        add(sum, true, left[i + 1][other]);
        add(-sum, false, left[other][i + 1]);
      }
    }
  }
  const std::size_t m = right.size() - 1;
  for (std::size_t i = 0; i < m; ++i) {
    double sum = 0;
    for (std::size_t j = i; j < m; ++j) {
      const std::size_t other = j + 1 == m ? 0 : j + 2;
      sum += d[n - 1 + j];
      if (i == 0) {
        add(sum, false, right[i + 1][other]);
        add(-sum, true, right[other][i + 1]);
      } else if (!dbm::below(sum, right[i + 1][other]) || !dbm::below(-sum, right[other][i + 1])) {
        return false;
      }
    }
  }
  return dbm::close(bounds);
}

void algebra(pbt::Ctx &ctx) {
  const int K = ctx.src.range(1, 4);
  const std::size_t n = size(ctx.src, 3);
  const auto a = condition(ctx.src, n, K);
  shown(ctx, "a", a);
  const Matrix ma = read(a);
  compare(ctx, "the condition itself", a, n, K, {}, [&](const auto &d) { return conditions::contains(ma, d); });
  switch (ctx.src.draw(6)) {
    case 0: {
      auto b = condition(ctx.src, n, K);
      shown(ctx, "and b", b);
      const Matrix mb = read(b);
      auto c = a && b;
      compare(ctx, "the intersection", c, n, K, {ma, mb},
              [&](const auto &d) { return conditions::contains(ma, d) && conditions::contains(mb, d); });
      Matrix mc = read(c);
      const bool sat = dbm::close(mc);
      ctx.check(c.isSatisfiableNoCanonize() == sat && static_cast<bool>(c) == sat, "satisfiability is wrong");
      break;
    }
    case 1: {
      auto b = condition(ctx.src, n, K);
      shown(ctx, "hull with b", b);
      const Matrix mb = read(b);
      Matrix hull = ma;
      for (std::size_t i = 0; i <= n; ++i) {
        for (std::size_t j = 0; j <= n; ++j) {
          hull[i][j] = std::max(ma[i][j], mb[i][j]);
        }
      }
      const auto inHull = [&](const auto &d) { return conditions::contains(hull, d); };
      compare(ctx, "the convex hull", a.convexHull(b), n, K, {ma, mb}, inHull);
      auto c = a;
      c.convexHullAssign(b);
      compare(ctx, "the assigned convex hull", c, n, K, {ma, mb}, inHull);
      ctx.check(c.includes(a) && c.includes(b), "the hull does not include the operands");
      break;
    }
    case 2: {
      const std::size_t k = size(ctx.src, 3);
      const auto b = condition(ctx.src, k, K);
      shown(ctx, "followed by b", b);
      const Matrix mb = read(b);
      compare(ctx, "the concatenation", a + b, n + k - 1, K, {}, [&](const auto &d) { return concatenated(ma, mb, d); });
      break;
    }
    case 3: {
      auto c = a;
      const std::size_t i = ctx.src.draw(n), j = i + ctx.src.draw(n - i);
      const Bounds b{ctx.src.range(0, K), ctx.src.coin()};
      const bool upper = ctx.src.coin();
      ctx.note("restrict T" + std::to_string(i) + std::to_string(j) + (upper ? " from above by " : " from below by ") +
               std::to_string(b.first) + (b.second ? "" : " (excluded)"));
      if (upper) {
        c.restrictUpperBound(i, j, b);
      } else {
        c.restrictLowerBound(i, j, Bounds{-b.first, b.second});
      }
      compare(ctx, "the restricted condition", c, n, K, {ma}, [&](const auto &d) {
        double sum = 0;
        for (std::size_t k = i; k <= j; ++k) {
          sum += d[k];
        }
        return conditions::contains(ma, d) && dbm::below(upper ? sum : -sum, Bounds{upper ? b.first : -b.first, b.second});
      });
      break;
    }
    case 4: {
      ctx.note("extended by an action without delay");
      compare(ctx, "the extension at the end", a.extendN(), n + 1, K, {}, [&](auto d) {
        const bool zero = d.back() == 0;
        d.pop_back();
        return zero && conditions::contains(ma, d);
      });
      compare(ctx, "the extension at the beginning", a.extendZero(), n + 1, K, {}, [&](auto d) {
        const bool zero = d.front() == 0;
        d.erase(d.begin());
        return zero && conditions::contains(ma, d);
      });
      compare(ctx, "the extension undone", a.extendN().removeN(), n, K, {ma},
              [&](const auto &d) { return conditions::contains(ma, d); });
      break;
    }
    default: {
      ctx.note("without bounds on the last delay");
      auto c = a;
      c.removeUpperBoundAssign();
      compare(ctx, "the condition without upper bounds", c, n, K, {ma}, [&](const auto &d) {
        // Shortening the last delay leads back; only the sums up to the end matter
        auto t = sums(d);
        Matrix m = ma;
        for (std::size_t i = 0; i < n; ++i) {
          m[i + 1][0] = {kInf, false};
        }
        return dbm::contains(m, t);
      });
      break;
    }
  }
  ctx.label("dimension " + std::to_string(n));
  if (!conditions::simple(ma)) {
    ctx.nontrivialNote();
  }
}

void enumerate(pbt::Ctx &ctx) {
  const int K = ctx.src.range(1, 3);
  const std::size_t n = size(ctx.src, 3);
  auto c = condition(ctx.src, n, K);
  if (ctx.src.chance(1, 4)) {
    c = c + condition(ctx.src, size(ctx.src, 2), K);
  }
  shown(ctx, "condition", c);
  const Matrix m = read(c);
  const auto parts = c.enumerate();
  std::vector<TimedCondition> more = {c};
  c.enumerate(more = {});
  ctx.check(more.size() == parts.size(), "the two enumerations differ");
  std::vector<Matrix> ms;
  std::set<std::string> seen;
  for (const auto &p: parts) {
    const Matrix mp = read(p);
    Matrix k = mp;
    REQUIRE(ctx, p.isSimple() && conditions::simple(mp), "an enumerated condition is not simple: " + str(mp));
    REQUIRE(ctx, dbm::close(k), "an enumerated condition is empty");
    REQUIRE(ctx, seen.insert(str(mp)).second, "a condition is enumerated twice: " + str(mp));
    REQUIRE(ctx, c.includes(p), "an enumerated condition is not included: " + str(mp));
    ms.push_back(mp);
  }
  ctx.check(c.isSimple() == conditions::simple(m), "isSimple is wrong");
  ctx.check(!c.isSimple() || parts.size() == 1, "a simple condition was split");
  for (int i = 0; i < 150; ++i) {
    const auto d = ctx.src.chance(1, 4) ? durations(ctx.src, c.size(), K) : solution(ctx.src, m, K);
    if (d.empty()) {
      continue;
    }
    int in = 0;
    for (const auto &mp: ms) {
      in += conditions::contains(mp, d);
    }
    REQUIRE(ctx, in == (conditions::contains(m, d) ? 1 : 0), str(d) + " is in " + std::to_string(in) + " of the enumerated conditions");
  }
  ctx.label("parts: " + std::string(parts.size() == 1 ? "1" : parts.size() < 5 ? "2 to 4" : "5 or more"));
  if (parts.size() > 1) {
    ctx.nontrivialNote();
  }
}

//! Comparisons and observations
void observe(pbt::Ctx &ctx) {
  const int K = ctx.src.range(1, 4);
  const std::size_t n = size(ctx.src, 3);
  const auto a = condition(ctx.src, n, K);
  auto b = ctx.src.coin() ? condition(ctx.src, n, K) : a;
  if (ctx.src.coin()) {
    // Other routes to similar conditions
    switch (ctx.src.draw(3)) {
      case 0:
        b = b.convexHull(a);
        break;
      case 1: {
        const auto c = b && a;
        Matrix m = read(c);
        b = dbm::close(m) ? c : b;
        break;
      }
      default:
        b = b.extendN().removeN() + TimedCondition::empty();
        break;
    }
  }
  shown(ctx, "a", a);
  shown(ctx, "b", b);
  const Matrix ma = read(a), mb = read(b);
  bool included = true;
  for (std::size_t i = 0; i <= n; ++i) {
    for (std::size_t j = 0; j <= n; ++j) {
      included = included && mb[i][j] <= ma[i][j];
    }
  }
  const bool equal = ma == mb;
  ctx.check((a == b) == equal && (a != b) == !equal, "equality is wrong");
  ctx.check(!equal || hash_value(a) == hash_value(b), "equal conditions have different hash values");
  ctx.check(a.includes(b) == included, "includes is wrong");
  ctx.check(a.isSimple() == conditions::simple(ma), "isSimple is wrong");
  bool equality = false;
  for (std::size_t i = 0; i < n; ++i) {
    const auto up = ma[i + 1][0], lo = ma[0][i + 1];
    const bool point = up.second && lo.second && up.first == -lo.first;
    ctx.check(a.isPoint(i) == point, "isPoint is wrong");
    equality = equality || point;
  }
  if (a.isSimple()) {
    ctx.check(a.hasEqualityN() == equality, "hasEqualityN is wrong");
    const auto last = ma[n][0];
    ctx.check(a.hasPrefix() == !(last == dbm::Bounds{0, true}), "hasPrefix is wrong");
    const auto first = ma[1][n == 1 ? 0 : 2];
    ctx.check(a.hasSuffix() == !(first == dbm::Bounds{0, true}), "hasSuffix is wrong");
  }
  // The guard bounds the sums up to the end
  auto c = a;
  if (ctx.src.coin()) {
    c.removeUpperBoundAssign();
    ctx.note("no upper bounds");
  }
  const Matrix mc = read(c);
  const auto guard = c.toGuard();
  for (int i = 0; i < 60; ++i) {
    const auto d = ctx.src.coin() ? solution(ctx.src, mc, K, 0.125, false) : durations(ctx.src, n, K + 1);
    if (d.empty() || !nonNegative(d)) {
      continue;
    }
    const auto t = sums(d);
    bool expected = true;
    for (std::size_t x = 0; x < n; ++x) {
      expected = expected && dbm::below(t[x], mc[x + 1][0]) && dbm::below(-t[x], mc[0][x + 1]);
    }
    REQUIRE(ctx, expected == std::all_of(guard.begin(), guard.end(), [&](const auto &g) { return g.satisfy(t.at(g.x)); }),
            "the guard is wrong on " + str(d));
  }
  ctx.label(equal ? "equal" : included ? "included" : "different");
  if (!a.isSimple()) {
    ctx.nontrivialNote();
  }
}

//! Two conditions over variables of their own or with common ones at the end
void juxtapose(pbt::Ctx &ctx) {
  const int K = ctx.src.range(1, 3);
  const std::size_t n = size(ctx.src, 3), k = size(ctx.src, 3);
  const auto a = condition(ctx.src, n, K), b = condition(ctx.src, k, K);
  shown(ctx, "left", a);
  shown(ctx, "right", b);
  const Matrix ma = read(a), mb = read(b);
  const std::size_t common = ctx.src.coin() ? 0 : ctx.src.draw(std::min(n, k) + 1);
  ctx.note("common: " + std::to_string(common));
  JuxtaposedZone z = common == 0 && ctx.src.coin() ? (a ^ b)
                     : ctx.src.coin() ? a.juxtaposeRight(b, static_cast<Eigen::Index>(common))
                                      : b.juxtaposeLeft(a, static_cast<Eigen::Index>(common));
  const std::size_t total = n + k - common;
  ctx.check(z.getNumOfVar() == total && z.getLeftSize() == static_cast<Eigen::Index>(n), "a wrong dimension");
  std::vector<std::pair<std::size_t, std::size_t>> renaming;
  if (common == 0) {
    for (int i = ctx.src.range(0, 3); i > 0; --i) {
      renaming.emplace_back(ctx.src.draw(n), ctx.src.draw(k));
      ctx.note("t" + std::to_string(renaming.back().first) + " = t'" + std::to_string(renaming.back().second));
    }
    z.addRenaming(renaming);
  }
  // Expected: the variables of the left, then those of the right which are not common
  Matrix e(total + 1, std::vector<dbm::Bounds>(total + 1, dbm::Bounds{kInf, false}));
  const auto conjoin = [&e](std::size_t i, std::size_t j, const dbm::Bounds &bound) { e[i][j] = std::min(e[i][j], bound); };
  for (std::size_t i = 0; i <= n; ++i) {
    for (std::size_t j = 0; j <= n; ++j) {
      conjoin(i, j, ma[i][j]);
    }
  }
  const auto place = [&](std::size_t i) { return i == 0 ? 0 : i > k - common ? n - common + (i - (k - common)) : n + i; };
  for (std::size_t i = 0; i <= k; ++i) {
    for (std::size_t j = 0; j <= k; ++j) {
      conjoin(place(i), place(j), mb[i][j]);
    }
  }
  for (const auto &[l, r]: renaming) {
    conjoin(l + 1, n + r + 1, {0, true});
    conjoin(n + r + 1, l + 1, {0, true});
  }
  const bool sat = dbm::close(e);
  Zone copy = z;
  ctx.check(copy.isSatisfiable() == sat, "satisfiability is wrong");
  ctx.label(sat ? "satisfiable" : "unsatisfiable");
  if (!sat) {
    return;
  }
  for (std::size_t i = 0; i <= total; ++i) {
    for (std::size_t j = 0; j <= total; ++j) {
      const auto got = z.value(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j));
      REQUIRE(ctx, i == j || got == e[i][j] || (got.first >= kInf && e[i][j].first >= kInf),
              "the bound of variables " + std::to_string(i) + " and " + std::to_string(j) + " is " + std::to_string(got.first) +
              (got.second ? "" : " (excluded)") + " instead of " + std::to_string(e[i][j].first) + (e[i][j].second ? "" : " (excluded)"));
    }
  }
  if (common == 0) {
    // All equal pairs, and the projection to the right
    std::set<std::pair<std::size_t, std::size_t>> expected;
    for (std::size_t i = 1; i <= n; ++i) {
      for (std::size_t j = 1; j <= k; ++j) {
        if (e[i][n + j] == dbm::Bounds{0, true} && e[n + j][i] == dbm::Bounds{0, true}) {
          expected.insert({i - 1, j - 1});
        }
      }
    }
    const auto made = z.makeRenaming();
    ctx.check(std::set<std::pair<std::size_t, std::size_t>>(made.begin(), made.end()) == expected && made.size() == expected.size(),
              "makeRenaming is wrong");
    const auto right = z.getRight();
    for (std::size_t i = 0; i <= k; ++i) {
      for (std::size_t j = 0; j <= k; ++j) {
        const auto &want = e[i ? n + i : 0][j ? n + j : 0];
        const auto got = right.value(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j));
        REQUIRE(ctx, i == j || got == want, "getRight is wrong");
      }
    }
  }
  if (!renaming.empty() || common > 0) {
    ctx.nontrivialNote();
  }
}

//! Values of clocks after resets
void resets(pbt::Ctx &ctx) {
  const int K = ctx.src.range(1, 3);
  const std::size_t n = size(ctx.src, 3);
  const auto a = condition(ctx.src, n, K);
  shown(ctx, "condition", a);
  const Matrix ma = read(a);
  const bool renaming = ctx.src.coin();
  const std::size_t target = renaming ? size(ctx.src, 3) : n;
  TATransition::Resets r;
  bool fractional = false;
  for (std::size_t x = 0; x < target; ++x) {
    if (x >= n || ctx.src.chance(2, 3)) {
      if (renaming && ctx.src.coin()) {
        r.emplace_back(x, static_cast<ClockVariables>(ctx.src.draw(n)));
      } else if (ctx.src.chance(1, 4)) {
        r.emplace_back(x, ctx.src.range(0, K) + 0.5);
        fractional = true;
      } else {
        r.emplace_back(x, static_cast<double>(ctx.src.range(0, K)));
      }
    }
  }
  std::stringstream ss;
  ss << r;
  ctx.note(std::to_string(target) + " clocks, " + ss.str());
  const auto c = renaming ? a.applyResets(r, target) : a.applyResets(r);
  ctx.check(c.size() == target, "a wrong dimension");
  const Matrix mc = read(c);
  Matrix k = mc;
  ctx.check(dbm::close(k), "no valuation is left");
  // Sound: every valuation of the condition, reset
  for (int i = 0; i < 40; ++i) {
    const auto d = solution(ctx.src, ma, K);
    if (d.empty()) {
      continue;
    }
    const auto t = sums(d);
    Point q(target);
    for (std::size_t x = 0; x < target; ++x) {
      q[x] = x < n ? t[x] : 0;
    }
    for (const auto &[x, v]: r) {
      q[x] = v.index() == 1 ? t[std::get<ClockVariables>(v)] : std::get<double>(v);
    }
    REQUIRE(ctx, dbm::contains(mc, q), "the clocks " + str(t) + " become " + str(q) + ", which is missing in " + str(mc));
  }
  // Exact for integers
  if (!fractional) {
    for (int i = 0; i < 60; ++i) {
      Point q = sums(solution(ctx.src, mc, K, 0.125, ctx.src.coin()));
      if (q.empty()) {
        continue;
      }
      Matrix pre = ma;
      bool possible = true;
      std::set<std::size_t> assigned;
      const auto fix = [&pre](std::size_t x, double v) {
        pre[x + 1][0] = std::min(pre[x + 1][0], dbm::Bounds{v, true});
        pre[0][x + 1] = std::min(pre[0][x + 1], dbm::Bounds{-v, true});
      };
      for (const auto &[x, v]: r) {
        assigned.insert(x);
        if (v.index() == 1) {
          fix(std::get<ClockVariables>(v), q[x]);
        } else {
          possible = possible && std::get<double>(v) == q[x];
        }
      }
      for (std::size_t x = 0; x < target; ++x) {
        if (!assigned.count(x)) {
          fix(x, q[x]);
        }
      }
      possible = possible && dbm::close(pre);
      REQUIRE(ctx, dbm::contains(mc, q) == possible,
              "the clocks " + str(q) + (possible ? " are reachable but missing in " : " are unreachable but in ") + str(mc));
    }
  }
  ctx.label(fractional ? "fractional" : renaming ? "with copies" : "constants");
  if (!r.empty()) {
    ctx.nontrivialNote();
  }
}

//! Elementary languages: membership, samples, restriction to a prefix, enumeration, hull
void languages(pbt::Ctx &ctx) {
  const int K = ctx.src.range(1, 3);
  const std::size_t n = size(ctx.src, 4);
  std::string word;
  for (std::size_t i = 1; i < n; ++i) {
    word += static_cast<char>('a' + ctx.src.draw(2));
  }
  const auto c = condition(ctx.src, n, K);
  const ElementaryLanguage lang{word, c};
  ctx.note(word);
  shown(ctx, "condition", c);
  const Matrix m = read(c);
  ctx.check(lang.isSimple() == conditions::simple(m) && lang.wordSize() == word.size(), "isSimple or wordSize is wrong");
  for (const auto &d: words(ctx, n, K, {m})) {
    REQUIRE(ctx, lang.contains(TimedWord{word, d}) == conditions::contains(m, d), "contains is wrong on " + str(d));
  }
  if (!word.empty()) {
    auto other = word;
    other[ctx.src.draw(other.size())] ^= 3;
    ctx.check(!lang.contains(TimedWord{other, lang.sample().getDurations()}), "contains ignores the actions");
  }
  const auto s = lang.sample();
  ctx.check(s.getWord() == word && s.getDurations().size() == n && nonNegative(s.getDurations()), "a malformed sample");
  ctx.check(conditions::contains(m, s.getDurations()), "the sample " + str(s.getDurations()) + " is not in the language");
  // Restriction to a prefix of a word of the language
  const auto d = solution(ctx.src, m, K);
  if (!d.empty() && conditions::contains(m, d)) {
    const std::size_t k = ctx.src.draw(n);
    std::vector<double> p(d.begin(), d.begin() + static_cast<long>(k) + 1);
    const double full = p.back();
    p.back() = ctx.src.range(0, static_cast<int>(full * 8)) / 8.0;
    ctx.note("constrained by " + str(p));
    const auto restricted = lang.constrain(TimedWord{word.substr(0, k), p});
    ctx.check(restricted.getWord() == word, "constrain changed the actions");
    const Matrix mr = read(restricted.getTimedCondition());
    for (auto e: words(ctx, n, K, {m, mr})) {
      if (ctx.src.chance(3, 4)) {
        std::copy(d.begin(), d.begin() + static_cast<long>(k), e.begin());
      }
      const bool expected = conditions::contains(m, e) && std::equal(d.begin(), d.begin() + static_cast<long>(k), e.begin());
      REQUIRE(ctx, conditions::contains(mr, e) == expected, "constrain is wrong on " + str(e));
    }
  }
  const auto parts = lang.enumerate();
  ctx.check(parts.size() == c.enumerate().size(), "the enumeration of the language differs from that of the condition");
  for (const auto &p: parts) {
    ctx.check(p.getWord() == word && lang.contains(p.sample()), "an enumerated language is not included");
  }
  // The hull of some of the parts
  std::list<ElementaryLanguage> some;
  for (const auto &p: parts) {
    if (ctx.src.coin()) {
      some.push_back(p);
    }
  }
  if (!some.empty()) {
    const auto hull = ElementaryLanguage::convexHull(some);
    const Matrix mh = read(hull.getTimedCondition());
    for (std::size_t i = 0; i <= n; ++i) {
      for (std::size_t j = 0; j <= n; ++j) {
        dbm::Bounds most{-kInf, false};
        for (const auto &p: some) {
          most = std::max(most, read(p.getTimedCondition())[i][j]);
        }
        REQUIRE(ctx, i == j || mh[i][j] == most, "the hull of some parts is wrong: " + str(mh));
      }
    }
  }
  // Conditions of a single word
  const auto e = durations(ctx.src, n, K, 4);
  const Matrix exact = read(TimedCondition::makeExact(sums(e))), around = read(TimedCondition{sums(e)});
  ctx.check(conditions::contains(exact, e) && conditions::contains(around, e), "the condition of a word does not contain the word");
  ctx.check(conditions::simple(around) && TimedCondition{sums(e)}.isSimple(), "the condition of a word is not simple");
  for (const auto &f: words(ctx, n, K, {around, exact})) {
    REQUIRE(ctx, conditions::contains(exact, f) == (f == e), "makeExact contains " + str(f));
    bool same = true;
    for (std::size_t i = 0; i < n; ++i) {
      double se = 0, sf = 0;
      for (std::size_t j = i; j < n; ++j) {
        se += e[j];
        sf += f[j];
        same = same && std::floor(se) == std::floor(sf) && std::ceil(se) == std::ceil(sf);
      }
    }
    REQUIRE(ctx, conditions::contains(around, f) == same, "the condition of " + str(e) + " is wrong on " + str(f));
  }
  ctx.label("parts: " + std::string(parts.size() == 1 ? "1" : "several"));
  if (parts.size() > 1) {
    ctx.nontrivialNote();
  }
}

} // namespace

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C10";
  info.rule = "Random satisfiable timed conditions of one to four delays (hulls, restrictions and concatenations of simple ones); every "
              "operation is compared with the set of timed words it should denote, on words near the bounds and random ones; "
              "non-trivial: the condition is not simple (juxtaposition: with common variables or a renaming; resets: some reset); "
              "distinct by condition and operation";
  info.assumptions = {"conditions are bounded and satisfiable, as those built by the library; delays are not negative",
                      "resets to fractional values are only required to keep the valuations that can be reached"};
  info.subs = {sub("algebra", 150000, 2000000, algebra), sub("enumerate", 60000, 1000000, enumerate),
               sub("observe", 200000, 2000000, observe), sub("juxtapose", 200000, 2000000, juxtapose),
               sub("resets", 100000, 2000000, resets), sub("languages", 50000, 800000, languages)};
  return pbt::checkMain(argc, argv, info);
}
