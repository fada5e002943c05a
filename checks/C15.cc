// C15: two prefixes are taken as equivalent only if no suffix of the table tells related words apart.
#include "conditions.hh"
#include "equivalence.hh"
#include "external_transition_maker.hh"
#include "forward_regional_elementary_language.hh"
#include "symbolic_membership_oracle.hh"
#include "timed_automaton_runner.hh"

using namespace learnta;
using namespace conditions;

namespace {

using Row = std::vector<TimedConditionSet>;

std::string str(const RenamingRelation &r) {
  std::ostringstream os;
  os << r;
  return os.str();
}

std::string str(const ElementaryLanguage &e) { return "(" + e.getWord() + ", " + conditions::str(read(e.getTimedCondition())) + ")"; }

std::string str(const TimedConditionSet &s) {
  std::string r = "{";
  for (const auto &c: s.getConditions()) {
    r += (r.size() > 1 ? " | " : "") + conditions::str(read(c));
  }
  return r + "}";
}

struct Pair {
  ElementaryLanguage left, right;
  std::vector<BackwardRegionalElementaryLanguage> suffixes;
  Row leftRow, rightRow;
  std::vector<TimedCondition> leftConcat, rightConcat;
  bool partial = false; //!< Some cell is neither empty nor the whole language
  bool convex = true; //!< All cells are one condition at most
};

//! Constraints over T of the left word, T of the right word and T of the suffix after its first duration
struct Joint {
  std::size_t left, right, common;
  const RenamingRelation &renaming;

  [[nodiscard]] Matrix top() const {
    const std::size_t n = left + right + common + 1;
    Matrix m(n, std::vector<dbm::Bounds>(n, dbm::Bounds{kInf, false}));
    for (std::size_t i = 0; i < n; ++i) {
      m[i][i] = {0, true};
    }
    for (const auto &[i, j]: renaming) {
      m[1 + i][1 + left + j] = {0, true};
      m[1 + left + j][1 + i] = {0, true};
    }
    return m;
  }

  void add(Matrix &m, const Matrix &c, bool isLeft) const {
    const std::size_t own = isLeft ? left : right;
    const auto index = [&](std::size_t i) {
      return i == 0 ? 0 : i <= own ? i + (isLeft ? 0 : left) : i - own + left + right;
    };
    for (std::size_t i = 0; i < c.size(); ++i) {
      for (std::size_t j = 0; j < c.size(); ++j) {
        auto &b = m[index(i)][index(j)];
        b = std::min(b, c[i][j]);
      }
    }
  }
};

std::string showJoint(const Joint &joint, const std::string &word, const Point &p, bool isLeft) {
  Point t(p.begin() + (isLeft ? 0 : joint.left), p.begin() + (isLeft ? joint.left : joint.left + joint.right));
  t.insert(t.end(), p.end() - joint.common, p.end());
  return showWord(word, differences(t));
}

//! What related words the suffixes tell apart, if any
std::string difference(const Pair &p, const RenamingRelation &renaming) {
  const std::size_t n = p.left.wordSize() + 1, k = p.right.wordSize() + 1;
  {
    const Joint joint{n, k, 0, renaming};
    auto m = joint.top();
    joint.add(m, read(p.left.getTimedCondition()), true);
    joint.add(m, read(p.right.getTimedCondition()), false);
    if (!dbm::close(m)) {
      return "no words are related";
    }
  }
  for (std::size_t i = 0; i < p.suffixes.size(); ++i) {
    const Joint joint{n, k, p.suffixes[i].wordSize(), renaming};
    std::vector<Matrix> zones[2];
    for (const auto &c: p.leftRow[i].getConditions()) {
      auto m = joint.top();
      joint.add(m, read(c), true);
      joint.add(m, read(p.rightConcat[i]), false);
      if (dbm::close(m)) {
        zones[0].push_back(m);
      }
    }
    for (const auto &c: p.rightRow[i].getConditions()) {
      auto m = joint.top();
      joint.add(m, read(c), false);
      joint.add(m, read(p.leftConcat[i]), true);
      if (dbm::close(m)) {
        zones[1].push_back(m);
      }
    }
    for (int side = 0; side < 2; ++side) {
      for (const auto &z: zones[side]) {
        Matrix w;
        if (dbm::uncovered(z, zones[1 - side], w)) {
          const auto point = dbm::solve(w);
          return "with suffix " + std::to_string(i) + ", " + showJoint(joint, p.left.getWord() + p.suffixes[i].getWord(), point, true) + " and " +
                 showJoint(joint, p.right.getWord() + p.suffixes[i].getWord(), point, false) + " are related, but only the " +
                 (side ? "second" : "first") + " is accepted";
        }
      }
    }
  }
  return "";
}

std::vector<double> randomDurations(pbt::Source &s, std::size_t n, int maxConst) {
  std::vector<double> d;
  for (std::size_t i = 0; i < n; ++i) {
    d.push_back(s.chance(1, 4) ? s.range(0, maxConst) : s.range(0, 4 * maxConst) / 4.0);
  }
  return d;
}

void fill(Pair &p) {
  for (const auto &s: p.suffixes) {
    p.leftConcat.push_back((p.left + s).getTimedCondition());
    p.rightConcat.push_back((p.right + s).getTimedCondition());
  }
}

//! The parts of the language that satisfy a predicate over the suffix sums
template<class F>
TimedConditionSet cell(const std::string &word, const TimedCondition &c, F &&accepted) {
  std::list<ElementaryLanguage> in;
  std::size_t count = 0;
  for (const auto &part: c.enumerate()) {
    const ElementaryLanguage e{word, part};
    ++count;
    if (accepted(sums(e.sample().getDurations()))) {
      in.push_back(e);
    }
  }
  if (in.size() == count) {
    return TimedConditionSet{c};
  }
  return TimedConditionSet::reduce(std::move(in));
}

std::vector<std::pair<std::size_t, std::size_t>> compatible(const ElementaryLanguage &left, const ElementaryLanguage &right) {
  std::vector<std::pair<std::size_t, std::size_t>> r;
  const auto a = read(left.getTimedCondition()), b = read(right.getTimedCondition());
  for (std::size_t i = 1; i < a.size(); ++i) {
    for (std::size_t j = 1; j < b.size(); ++j) {
      if (a[i][0] == b[j][0]) {
        r.emplace_back(i - 1, j - 1);
      }
    }
  }
  return r;
}

/*!
 * Rows as they occur in a table: the membership of the words in a target automaton, or one that is a function of some
 * clocks of the prefixes
 */
Pair generate(pbt::Ctx &ctx, RenamingRelation &planted) {
  auto &s = ctx.src;
  const int maxConst = 2;
  gen::TAOptions o;
  o.constants = s.chance(1, 4);
  o.minClocks = o.maxClocks = s.chance(1, 4) ? 2 : 1;
  o.minLocs = 1;
  o.maxLocs = 3;
  o.maxConst = maxConst;
  o.maxActions = 2;
  const auto [ta, alphabet] = gen::automaton(s, o);
  Pair p;
  const int count = s.range(1, 3);
  for (int i = 0; i < count; ++i) {
    const std::size_t n = s.draw(3);
    std::string w;
    for (std::size_t j = 0; j < n; ++j) {
      w.push_back(s.pick(alphabet));
    }
    auto d = randomDurations(s, n + 1, n ? 1 : 2);
    p.suffixes.push_back(BackwardRegionalElementaryLanguage::fromTimedWord(TimedWord{w, d}));
  }
  const bool real = s.chance(1, 3);
  const auto word = [&] {
    if (real) {
      auto [w, d] = gen::guidedWord(s, ta, alphabet, 2, maxConst);
      for (auto &x: d) {
        x = std::floor(4 * x) / 4;
      }
      return TimedWord{w, d};
    }
    auto d = randomDurations(s, 1 + s.draw(3), maxConst);
    std::string w;
    while (w.size() + 1 < d.size()) {
      w.push_back(s.pick(alphabet));
    }
    return TimedWord{w, d};
  };
  const auto left = word();
  auto right = word();
  if (s.chance(2, 3)) {
    // The same clocks in another place or with other values
    auto w = left.getWord();
    auto d = left.getDurations();
    if (s.coin() && d.size() > 1) {
      w.erase(0, 1);
      d.erase(d.begin());
    }
    if (s.chance(1, 4)) {
      auto &x = d[s.draw(d.size())];
      x = std::max(0.0, x + s.range(-2, 2) / 4.0);
    }
    if (s.coin()) {
      w = "a" + w;
      d.insert(d.begin(), randomDurations(s, 1, maxConst)[0]);
    }
    right = TimedWord{w, d};
  }
  p.left = ForwardRegionalElementaryLanguage::fromTimedWord(left);
  p.right = ForwardRegionalElementaryLanguage::fromTimedWord(right);
  fill(p);
  ctx.note("left  " + str(p.left) + "\nright " + str(p.right));
  for (const auto &x: p.suffixes) {
    ctx.note("suffix (" + x.getWord() + ", " + conditions::str(read(x.getTimedCondition())) + ")");
  }
  if (real) {
    ctx.note(ref::show(ta));
    const auto accepted = [&, &ta = ta](const std::string &w) {
      return [&ta, w](const Point &t) { return ref::accepts(ta, w, differences(t)); };
    };
    for (std::size_t i = 0; i < p.suffixes.size(); ++i) {
      const auto l = p.left.getWord() + p.suffixes[i].getWord(), r = p.right.getWord() + p.suffixes[i].getWord();
      p.leftRow.push_back(cell(l, p.leftConcat[i], accepted(l)));
      p.rightRow.push_back(cell(r, p.rightConcat[i], accepted(r)));
    }
  } else {
    // Conditions over some clocks of the prefixes, at the actions of the suffix or at its end
    const auto edges = compatible(p.left, p.right);
    for (int x = s.range(1, 2); x > 0 && !edges.empty(); --x) {
      planted.push_back(s.pick(edges));
    }
    ctx.note("planted " + str(planted));
    struct Atom {
      std::size_t clock, until; // T of a planted clock, minus T of the suffix from an index on
      double constant;
      bool strict;
    };
    std::vector<std::vector<Atom>> atoms;
    const auto value = [&planted](const Atom &a, const Point &t, bool isLeft, std::size_t own, std::size_t suffix) {
      const double x = a.clock < planted.size() ? t[isLeft ? planted[a.clock].first : planted[a.clock].second] : suffix ? t[own] : 0;
      return x - (a.until < suffix ? t[own + a.until] : 0);
    };
    for (std::size_t i = 0; i < p.suffixes.size(); ++i) {
      atoms.emplace_back();
      const auto &w = p.suffixes[i].getWord();
      std::vector<Point> samples;
      for (const auto &part: p.leftConcat[i].enumerate()) {
        samples.push_back(sums(ElementaryLanguage{p.left.getWord() + w, part}.sample().getDurations()));
      }
      for (int k = s.range(planted.empty() ? 0 : 1, 2); k > 0; --k) {
        Atom a{planted.empty() || s.chance(1, 6) ? planted.size() : s.draw(planted.size()), s.draw(w.size() + 1), 0, s.coin()};
        for (int tries = 0; tries < 4; ++tries) {
          a = Atom{a.clock, s.draw(w.size() + 1), 0, s.coin()};
          const double v = value(a, s.pick(samples), true, p.left.wordSize() + 1, w.size());
          a.constant = s.coin() ? std::floor(v) : std::ceil(v);
          if (std::any_of(samples.begin(), samples.end(), [&](const auto &t) {
                const double u = value(a, t, true, p.left.wordSize() + 1, w.size());
                return (a.strict ? u < a.constant : u <= a.constant) != (a.strict ? v < a.constant : v <= a.constant);
              })) {
            break;
          }
        }
        atoms.back().push_back(a);
      }
    }
    const auto accepted = [&](std::size_t i, bool isLeft) {
      return [&, i, isLeft](const Point &t) {
        bool r = i % 2;
        for (const auto &a: atoms[i]) {
          const double v = value(a, t, isLeft, (isLeft ? p.left : p.right).wordSize() + 1, p.suffixes[i].wordSize());
          r = r != (a.strict ? v < a.constant : v <= a.constant);
        }
        return r;
      };
    };
    const bool disturb = s.chance(1, 4);
    for (std::size_t i = 0; i < p.suffixes.size(); ++i) {
      const auto w = p.suffixes[i].getWord();
      p.leftRow.push_back(cell(p.left.getWord() + w, p.leftConcat[i], accepted(i, true)));
      if (disturb && s.coin()) {
        p.rightRow.push_back(cell(p.right.getWord() + w, p.rightConcat[i], [&](const Point &) { return s.coin(); }));
      } else {
        p.rightRow.push_back(cell(p.right.getWord() + w, p.rightConcat[i], accepted(i, false)));
      }
    }
  }
  for (std::size_t i = 0; i < p.suffixes.size(); ++i) {
    ctx.note("row " + std::to_string(i) + " " + str(p.leftRow[i]) + " / " + str(p.rightRow[i]));
    const auto partial = [](const TimedConditionSet &c, const TimedCondition &all) { return !c.empty() && !(c.size() == 1 && c.getConditions().front() == all); };
    p.partial = p.partial || partial(p.leftRow[i], p.leftConcat[i]) || partial(p.rightRow[i], p.rightConcat[i]);
    p.convex = p.convex && p.leftRow[i].size() <= 1 && p.rightRow[i].size() <= 1;
  }
  return p;
}

bool equivalent(pbt::Ctx &ctx, const Pair &p, const RenamingRelation &r) {
  const bool first = equivalence(p.left, p.leftRow, p.right, p.rightRow, p.suffixes, r);
  const bool second = equivalence(p.left, p.leftRow, p.leftConcat, p.right, p.rightRow, p.rightConcat, p.suffixes, r);
  std::vector<JuxtaposedZoneSet> a, b;
  for (std::size_t i = 0; i < p.suffixes.size(); ++i) {
    a.emplace_back(p.leftRow[i], p.rightConcat[i], p.suffixes[i].wordSize());
    b.emplace_back(p.leftConcat[i], p.rightRow[i], p.suffixes[i].wordSize());
  }
  const bool third = equivalence(p.left.getTimedCondition() ^ p.right.getTimedCondition(), a, b, r);
  REQUIRE(ctx, first == second && second == third, "the ways to compare the rows with " + str(r) + " disagree: " + std::to_string(first) + std::to_string(second) + std::to_string(third));
  return first;
}

//! The comparison for a given renaming
void relate(pbt::Ctx &ctx) {
  RenamingRelation planted;
  const auto p = generate(ctx, planted);
  std::vector<RenamingRelation> candidates = {RenamingRelation{}, planted};
  const auto edges = compatible(p.left, p.right);
  for (int i = 0; i < 3; ++i) {
    RenamingRelation r;
    for (const auto &e: edges) {
      if (ctx.src.chance(1, 3)) {
        r.push_back(e);
      }
    }
    if (ctx.src.chance(1, 6)) {
      r.emplace_back(ctx.src.draw(p.left.wordSize() + 1), ctx.src.draw(p.right.wordSize() + 1));
    }
    candidates.push_back(r);
  }
  bool nontrivial = false;
  ctx.label(p.partial ? "rows partly accepted" : "rows of whole languages");
  for (const auto &r: candidates) {
    const auto reason = difference(p, r);
    const bool yes = equivalent(ctx, p, r);
    REQUIRE(ctx, !yes || reason.empty(), "the prefixes are taken as equivalent with " + str(r) + ", but " + reason);
    REQUIRE(ctx, yes || !p.convex || !reason.empty(), "the prefixes are not taken as equivalent with " + str(r) + ", but no suffix tells them apart");
    nontrivial = nontrivial || (yes && !r.empty());
    ctx.label(yes ? (r.empty() ? "equivalent without renaming" : "equivalent with a renaming") : reason.empty() ? "missed equivalence of unions" : "not equivalent");
  }
  if (nontrivial) {
    ctx.nontrivialNote();
  }
}

//! The reset leads from the one prefix to the other
void checkReset(pbt::Ctx &ctx, const ElementaryLanguage &left, const ElementaryLanguage &right, const RenamingRelation &r) {
  const auto resets = r.toReset(left.getTimedCondition(), right.getTimedCondition());
  const auto target = read(right.getTimedCondition());
  for (int i = 0; i < 4; ++i) {
    const auto d = i == 0 ? left.sample().getDurations() : solution(ctx.src, read(left.getTimedCondition()), 4);
    if (d.empty() || !nonNegative(d)) {
      continue;
    }
    const auto x = sums(d);
    std::vector<double> y(target.size() - 1, -1);
    std::set<std::size_t> assigned;
    for (const auto &[clock, value]: resets) {
      REQUIRE(ctx, clock < y.size() && assigned.insert(clock).second, "a clock is assigned twice or is none of the target");
      y[clock] = value.index() == 0 ? std::get<double>(value) : x.at(std::get<ClockVariables>(value));
    }
    REQUIRE(ctx, assigned.size() == y.size(), "a clock of the target is not assigned");
    REQUIRE(ctx, dbm::contains(target, y), "with " + str(r) + ", the reset leads from " + dbm::str(x) + " to " + dbm::str(y) + ", which is outside of the target");
    for (const auto &[a, b]: r) {
      REQUIRE(ctx, x[a] == y[b], "the reset leads from " + dbm::str(x) + " to " + dbm::str(y) + ", which does not satisfy " + str(r));
    }
  }
}

//! Looking for a renaming
void search(pbt::Ctx &ctx) {
  RenamingRelation planted;
  const auto p = generate(ctx, planted);
  const auto first = findDeterministicEquivalentRenaming(p.left, p.leftRow, p.leftConcat, p.right, p.rightRow, p.rightConcat, p.suffixes);
  const auto second = findDeterministicEquivalentRenaming(p.left, p.leftRow, p.right, p.rightRow, p.suffixes);
  REQUIRE(ctx, first == second, "the searches disagree: " + (first ? str(*first) : "none") + " and " + (second ? str(*second) : "none"));
  if (first) {
    const auto reason = difference(p, *first);
    REQUIRE(ctx, reason.empty(), "the search returned " + str(*first) + ", but " + reason);
    REQUIRE(ctx, !first->hasImpreciseClocks(p.right.getTimedCondition()), "the search returned " + str(*first) + " with imprecise clocks");
    REQUIRE(ctx, first->isRightUnique(), "the search returned " + str(*first) + ", which is ambiguous");
    checkReset(ctx, p.left, p.right, *first);
    if (!first->empty()) {
      ctx.nontrivialNote();
    }
  }
  const bool trivially = difference(p, RenamingRelation{}).empty();
  REQUIRE(ctx, first || !p.convex || !trivially, "the search found nothing, but no suffix tells any words apart");
  for (const bool left: {true, false}) {
    const auto &e = left ? p.left : p.right;
    const auto &row = left ? p.leftRow : p.rightRow;
    const auto &concat = left ? p.leftConcat : p.rightConcat;
    REQUIRE(ctx, findDeterministicEquivalentRenaming(e, row, concat, e, row, concat, p.suffixes), "a row is not equivalent to itself");
  }
  const auto edges = compatible(p.left, p.right);
  // The general search tries all orders of the equations
  std::optional<RenamingRelation> general;
  if (edges.size() <= 4) {
    general = findEquivalentRenaming(p.left, p.leftRow, p.right, p.rightRow, p.suffixes);
  }
  if (general) {
    const auto reason = difference(p, *general);
    REQUIRE(ctx, reason.empty(), "the general search returned " + str(*general) + ", but " + reason);
  }
  ctx.label(first ? (first->empty() ? "found the empty renaming" : "found a renaming") : general ? "only the general search found one" : "none found");
  if (!first) {
    // Is there one?
    if (edges.size() <= 7) {
      for (std::size_t mask = 1; mask < (1u << edges.size()); ++mask) {
        RenamingRelation r;
        for (std::size_t i = 0; i < edges.size(); ++i) {
          if (mask >> i & 1) {
            r.push_back(edges[i]);
          }
        }
        if (r.isRightUnique() && !r.hasImpreciseClocks(p.right.getTimedCondition()) && difference(p, r).empty()) {
          REQUIRE(ctx, !p.convex, "the search found nothing, but no suffix tells the words related by " + str(r) + " apart");
          ctx.label("missed for unions");
          break;
        }
      }
    }
  }
}

//! The renaming relations on their own
void renaming(pbt::Ctx &ctx) {
  auto &s = ctx.src;
  const auto any = [&] {
    const auto d = randomDurations(s, 1 + s.draw(4), 2);
    return ElementaryLanguage{ForwardRegionalElementaryLanguage::fromTimedWord(TimedWord{std::string(d.size() - 1, 'a'), d})};
  };
  const auto left = any();
  auto right = any();
  if (s.chance(1, 3)) {
    right = left;
  }
  const auto edges = compatible(left, right);
  const std::size_t n = left.wordSize() + 1, k = right.wordSize() + 1;
  RenamingRelation r;
  for (int i = s.range(0, 4); i > 0; --i) {
    if (!edges.empty() && s.chance(3, 4)) {
      r.push_back(s.pick(edges));
    } else {
      r.emplace_back(s.draw(n), s.draw(k));
    }
  }
  ctx.note("left  " + str(left) + "\nright " + str(right) + "\n" + str(r));
  const auto source = read(left.getTimedCondition()), target = read(right.getTimedCondition());
  const auto point = [&](std::size_t j) { return target[j + 1][0].second && target[0][j + 1].second && target[j + 1][0].first == -target[0][j + 1].first; };
  std::set<std::size_t> mapped;
  bool trivial = true;
  for (const auto &[i, j]: r) {
    mapped.insert(j);
    trivial = trivial && point(j);
  }
  std::vector<ClockVariables> loose;
  for (std::size_t j = 0; j < k; ++j) {
    if (!point(j) && !mapped.count(j)) {
      loose.push_back(j);
    }
  }
  const auto variables = r.rightVariables();
  REQUIRE(ctx, std::equal(variables.begin(), variables.end(), mapped.begin(), mapped.end()), "rightVariables is wrong");
  REQUIRE(ctx, r.isRightUnique() == (mapped.size() == r.size()), "isRightUnique is wrong");
  REQUIRE(ctx, r.onlyTrivial(right.getTimedCondition()) == trivial, "onlyTrivial is wrong");
  REQUIRE(ctx, r.full(right.getTimedCondition()) == loose.empty(), "full is wrong");
  const bool imprecise = !r.empty() && !trivial && !loose.empty();
  REQUIRE(ctx, r.hasImpreciseClocks(right.getTimedCondition()) == imprecise, "hasImpreciseClocks is wrong");
  REQUIRE(ctx, r.impreciseClocks(right.getTimedCondition()) == (imprecise ? loose : std::vector<ClockVariables>{}), "impreciseClocks is wrong");
  auto erased = r;
  const std::size_t gone = s.draw(n);
  erased.eraseLeft(gone);
  std::vector<std::pair<std::size_t, std::size_t>> kept;
  for (const auto &e: r) {
    if (e.first != gone) {
      kept.push_back(e);
    }
  }
  REQUIRE(ctx, std::equal(erased.begin(), erased.end(), kept.begin(), kept.end()), "eraseLeft(" + std::to_string(gone) + ") gives " + str(erased));
  // The equations that follow
  const Joint joint{n, k, 0, r};
  auto m = joint.top();
  joint.add(m, source, true);
  joint.add(m, target, false);
  if (!dbm::close(m)) {
    return;
  }
  RenamingRelation expected;
  for (std::size_t j = 0; j < k; ++j) {
    for (std::size_t i = 0; i < n; ++i) {
      if (m[i + 1][n + j + 1] == dbm::Bounds{0, true} && m[n + j + 1][i + 1] == dbm::Bounds{0, true}) {
        expected.emplace_back(i, j);
        break;
      }
    }
  }
  auto more = r;
  more.addImplicitConstraints(left.getTimedCondition(), right.getTimedCondition());
  REQUIRE(ctx, more == expected, "the equations that follow are " + str(expected) + ", not " + str(more));
  if (expected.size() > r.size()) {
    ctx.nontrivialNote();
  }
}

} // namespace

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C15";
  info.rule = "Pairs of prefixes and lists of suffixes around random words, with rows from a random automaton or one that takes over some clocks; "
              "the verdict is compared with set differences of the related words; non-trivial: equivalent with a non-empty renaming; distinct by input";
  info.subs = {sub("relate", 200000, 2000000, relate), sub("search", 100000, 2000000, search), sub("renaming", 200000, 2000000, renaming)};
  return pbt::checkMain(argc, argv, info);
}
