// C11: regional elementary languages are the equivalence classes of timed words up to integer parts and fractional order.
#include "conditions.hh"
#include "forward_regional_elementary_language.hh"

using namespace learnta;
using namespace conditions;

namespace {

using Word = std::pair<std::string, std::vector<double>>;

double fraction(double x) { return x - std::floor(x); }

Point prefixSums(const std::vector<double> &d) {
  Point t = d;
  for (std::size_t i = 1; i < t.size(); ++i) {
    t[i] += t[i - 1];
  }
  return t;
}

//! Integer parts, and the classes of the variables ordered by their fractional parts; the first class has fractional part zero
struct Region {
  std::string word;
  std::vector<double> floors;
  std::vector<std::vector<std::size_t>> classes;

  Region(std::string w, const Point &t) : word(std::move(w)), classes(1) {
    std::map<double, std::vector<std::size_t>> by;
    for (std::size_t i = 0; i < t.size(); ++i) {
      floors.push_back(std::floor(t[i]));
      by[fraction(t[i])].push_back(i);
    }
    for (const auto &[f, v]: by) {
      if (f == 0) {
        classes[0] = v;
      } else {
        classes.push_back(v);
      }
    }
  }

  bool operator==(const Region &o) const { return word == o.word && floors == o.floors && classes == o.classes; }
};

//! The delay that leads to the next region
double step(const Point &t) {
  double most = 0;
  bool zero = false;
  for (double x: t) {
    most = std::max(most, fraction(x));
    zero = zero || fraction(x) == 0;
  }
  return zero ? (1 - most) / 2 : 1 - most;
}

template<class Variables>
std::vector<std::size_t> sorted(const Variables &v) {
  std::vector<std::size_t> r(v.begin(), v.end());
  std::sort(r.begin(), r.end());
  return r;
}

//! The condition bounds every sum by the point or the open interval of length one around its value
void simpleAround(pbt::Ctx &ctx, const TimedCondition &c, const std::vector<double> &d) {
  REQUIRE(ctx, c.isSimple(), "the condition is not simple");
  REQUIRE(ctx, c.size() == d.size(), "wrong dimension");
  for (std::size_t i = 0; i < d.size(); ++i) {
    double sum = 0;
    for (std::size_t j = i; j < d.size(); ++j) {
      sum += d[j];
      const bool point = sum == std::floor(sum);
      const dbm::Bounds up{point ? sum : std::ceil(sum), point}, low{-std::floor(sum), point};
      REQUIRE(ctx, c.getUpperBound(i, j) == up && c.getLowerBound(i, j) == low,
              "the condition " + conditions::str(read(c)) + " is not the one around " + conditions::str(d));
    }
  }
}

//! In backward languages, the order is the one of the negated sums
void wellFormed(pbt::Ctx &ctx, const ElementaryLanguage &lang, const FractionalOrder &order, const Word &word, const Point &t, bool negated,
                const std::string &what) {
  REQUIRE(ctx, lang.getWord() == word.first, what + " has a wrong word " + lang.getWord());
  simpleAround(ctx, lang.getTimedCondition(), word.second);
  REQUIRE(ctx, lang.contains(TimedWord{word.first, word.second}), what + " does not contain " + showWord(word.first, word.second));
  REQUIRE(ctx, order.getSize() == t.size(), what + " has a wrong number of variables");
  const Region r{word.first, t};
  const auto &up = r.classes.front().empty() ? r.classes.back() : r.classes.front();
  const auto &down = r.classes.front().empty() ? r.classes[1] : r.classes.front();
  REQUIRE(ctx, sorted(order.successorVariables()) == (negated ? down : up), what + ": wrong variables for the successor");
  REQUIRE(ctx, sorted(order.predecessorVariables()) == (negated ? up : down), what + ": wrong variables for the predecessor");
}

template<class L>
void equal(pbt::Ctx &ctx, const L &a, const L &b, const std::string &what) {
  std::stringstream sa, sb;
  if (!(a == b)) {
    sa << a;
    sb << b;
  }
  REQUIRE(ctx, a == b, what + ": " + sa.str() + " instead of " + sb.str());
  REQUIRE(ctx, hash_value(a) == hash_value(b), what + ": equal languages with different hash values");
}

//! From the empty word on, by actions and by time
void forward(pbt::Ctx &ctx) {
  Word w{"", {0}};
  ForwardRegionalElementaryLanguage lang;
  if (ctx.src.coin()) {
    w.second = {ctx.src.range(0, 8) / 4.0};
    lang = ForwardRegionalElementaryLanguage::fromTimedWord(TimedWord{w.first, w.second});
  }
  std::vector<ForwardRegionalElementaryLanguage> path = {lang};
  const bool fromStart = w.second[0] == 0;
  std::string shown;
  int actions = 0;
  bool fresh = true;
  for (int i = ctx.src.range(1, 14); i > 0; --i) {
    const bool action = actions < 3 && ctx.src.chance(1, 3);
    const auto before = lang;
    if (action) {
      ++actions;
      const char a = static_cast<char>('a' + ctx.src.draw(2));
      w.first.push_back(a);
      w.second.push_back(0);
      lang = lang.successor(a);
    } else {
      w.second.back() += step(sums(w.second));
      if (ctx.src.coin()) {
        lang = lang.successor();
      } else {
        lang.successorAssign();
      }
    }
    shown = showWord(w.first, w.second);
    ctx.note(shown);
    const auto t = sums(w.second);
    wellFormed(ctx, lang, FractionalOrder{[&] {
      auto f = t;
      for (auto &x: f) {
        x = fraction(x);
      }
      return f;
    }()}, w, t, false, "the language of " + shown);
    equal(ctx, lang, ForwardRegionalElementaryLanguage::fromTimedWord(TimedWord{w.first, w.second}), "the successor");
    REQUIRE(ctx, !(lang == before), "the successor is the same");
    REQUIRE(ctx, lang.hasEqualityN() == !Region(w.first, t).classes.front().empty(), "hasEqualityN is wrong for " + shown);
    const auto back = lang.immediatePrefix();
    REQUIRE(ctx, back.has_value(), "no immediate prefix");
    equal(ctx, *back, before, "the immediate prefix of " + shown);
    fresh = fresh && !action;
    path.push_back(lang);
  }
  const auto prefixes = lang.prefixes();
  if (fromStart) {
    REQUIRE(ctx, !prefixes.front().immediatePrefix().has_value(), "the empty word has a prefix");
    REQUIRE(ctx, prefixes.size() == path.size(), "prefixes: " + std::to_string(prefixes.size()) + " instead of " + std::to_string(path.size()));
  }
  REQUIRE(ctx, prefixes.size() >= path.size(), "too few prefixes");
  for (std::size_t i = 0; i < path.size(); ++i) {
    equal(ctx, prefixes[prefixes.size() - path.size() + i], path[i], "prefixes");
  }
  if (actions > 0 && path.size() > 3) {
    ctx.nontrivialNote();
  }
}

//! From the empty word on, to the front
void backward(pbt::Ctx &ctx) {
  Word w{"", {0}};
  BackwardRegionalElementaryLanguage lang;
  if (ctx.src.coin()) {
    w.second = {ctx.src.range(0, 8) / 4.0};
    lang = BackwardRegionalElementaryLanguage::fromTimedWord(TimedWord{w.first, w.second});
  }
  std::vector<BackwardRegionalElementaryLanguage> path = {lang};
  const bool fromStart = w.second[0] == 0;
  int actions = 0;
  for (int i = ctx.src.range(1, 14); i > 0; --i) {
    const bool action = actions < 3 && ctx.src.chance(1, 3);
    const auto before = lang;
    if (action) {
      ++actions;
      const char a = static_cast<char>('a' + ctx.src.draw(2));
      w.first.insert(w.first.begin(), a);
      w.second.insert(w.second.begin(), 0);
      lang = lang.predecessor(a);
    } else {
      w.second.front() += step(prefixSums(w.second));
      lang = lang.predecessor();
    }
    const auto shown = showWord(w.first, w.second);
    ctx.note(shown);
    wellFormed(ctx, lang, lang.getFractionalOrder(), w, prefixSums(w.second), true, "the language of " + shown);
    equal(ctx, lang, BackwardRegionalElementaryLanguage::fromTimedWord(TimedWord{w.first, w.second}), "the predecessor");
    REQUIRE(ctx, !(lang == before), "the predecessor is the same");
    const auto back = lang.immediateSuffix();
    REQUIRE(ctx, back.has_value(), "no immediate suffix");
    equal(ctx, *back, before, "the immediate suffix of " + shown);
    path.push_back(lang);
  }
  const auto suffixes = lang.prefixes();
  if (fromStart) {
    REQUIRE(ctx, !suffixes.front().immediateSuffix().has_value(), "the empty word has a suffix");
    REQUIRE(ctx, suffixes.size() == path.size(), "suffixes: " + std::to_string(suffixes.size()) + " instead of " + std::to_string(path.size()));
  }
  REQUIRE(ctx, suffixes.size() >= path.size(), "too few suffixes");
  for (std::size_t i = 0; i < path.size(); ++i) {
    equal(ctx, suffixes[suffixes.size() - path.size() + i], path[i], "suffixes");
  }
  if (actions > 0 && path.size() > 3) {
    ctx.nontrivialNote();
  }
}

Word randomWord(pbt::Ctx &ctx, std::size_t n) {
  Word w;
  w.second = durations(ctx.src, n, 3);
  const double unit = gen::grain(ctx.src);
  if (unit < 0.25) {
    for (auto &x: w.second) {
      x += ctx.src.range(0, 3) * unit;
    }
  }
  for (std::size_t i = 1; i < n; ++i) {
    w.first += static_cast<char>('a' + ctx.src.draw(2));
  }
  return w;
}

//! Two words are in the same language iff they agree on integer parts and fractional order
void classes(pbt::Ctx &ctx) {
  const std::size_t n = 1 + ctx.src.draw(4);
  const auto v = randomWord(ctx, n);
  auto w = v;
  if (ctx.src.chance(1, 6)) {
    w = randomWord(ctx, 1 + ctx.src.draw(4));
  } else {
    const double unit = std::min(0.125, gen::grain(ctx.src));
    for (auto &x: w.second) {
      if (ctx.src.chance(1, 2)) {
        x = std::max(0.0, x + ctx.src.range(-2, 2) * unit);
      }
    }
    if (n > 1 && ctx.src.chance(1, 8)) {
      w.first[ctx.src.draw(n - 1)] = 'c';
    }
  }
  ctx.note(showWord(v.first, v.second) + "   " + showWord(w.first, w.second));
  const TimedWord tv{v.first, v.second}, tw{w.first, w.second};
  const bool f = Region(v.first, sums(v.second)) == Region(w.first, sums(w.second));
  const bool b = Region(v.first, prefixSums(v.second)) == Region(w.first, prefixSums(w.second));
  const auto fv = ForwardRegionalElementaryLanguage::fromTimedWord(tv), fw = ForwardRegionalElementaryLanguage::fromTimedWord(tw);
  const auto bv = BackwardRegionalElementaryLanguage::fromTimedWord(tv), bw = BackwardRegionalElementaryLanguage::fromTimedWord(tw);
  simpleAround(ctx, fv.getTimedCondition(), v.second);
  simpleAround(ctx, bv.getTimedCondition(), v.second);
  REQUIRE(ctx, fv.getWord() == v.first && bv.getWord() == v.first, "a wrong word");
  REQUIRE(ctx, (fv == fw) == f, "forward: equality is wrong");
  REQUIRE(ctx, (bv == bw) == b, "backward: equality is wrong");
  REQUIRE(ctx, !f || hash_value(fv) == hash_value(fw), "forward: equal languages with different hash values");
  REQUIRE(ctx, !b || hash_value(bv) == hash_value(bw), "backward: equal languages with different hash values");
  wellFormed(ctx, bv, bv.getFractionalOrder(), v, prefixSums(v.second), true, "backward");
  // The regions passed while time elapses after the word
  auto later = fv;
  auto u = v;
  for (std::size_t i = 0; i < 2 * n + 1; ++i) {
    u.second.back() += step(sums(u.second));
    later.successorAssign();
    equal(ctx, later, ForwardRegionalElementaryLanguage::fromTimedWord(TimedWord{u.first, u.second}), "a later region of " + showWord(v.first, v.second));
  }
  if (v != w && (f || b)) {
    ctx.nontrivialNote();
  }
}

/*!
 * Fractional orders on their own: made from fractional parts, equal iff these are ordered alike, and one round of
 * successors passes the classes from the largest to the smallest
 */
void orders(pbt::Ctx &ctx) {
  const auto fractions = [&](std::size_t n) {
    Point p;
    for (std::size_t i = 0; i < n; ++i) {
      const double unit = gen::grain(ctx.src);
      double x = unit >= 0.25 ? ctx.src.range(0, 3) * unit : fraction(1 + ctx.src.range(0, 2) / 2.0 + ctx.src.range(-2, 2) * unit);
      p.push_back(!p.empty() && ctx.src.chance(1, 4) ? ctx.src.pick(p) : x);
    }
    return p;
  };
  const auto p = fractions(1 + ctx.src.draw(5));
  ctx.note(conditions::str(p));
  FractionalOrder o{p};
  auto q = fractions(1 + ctx.src.draw(5));
  if (ctx.src.coin()) {
    // The same order with other numbers: squares are exact and keep it
    q = p;
    for (auto &x: q) {
      x = x * x;
    }
  }
  ctx.note(conditions::str(q));
  const FractionalOrder other{q};
  const bool same = Region("", p).classes == Region("", q).classes;
  REQUIRE(ctx, (o == other) == same, "equality of the fractional orders is wrong");
  REQUIRE(ctx, !same || hash_value(o) == hash_value(other), "equal fractional orders with different hash values");
  auto t = p;
  const std::size_t rounds = 2 * Region("", p).classes.size() + 1;
  for (std::size_t i = 0; i < rounds; ++i) {
    const Region r{"", t};
    const bool zero = !r.classes.front().empty();
    REQUIRE(ctx, o.getSize() == p.size(), "wrong number of variables");
    REQUIRE(ctx, sorted(o.successorVariables()) == (zero ? r.classes.front() : r.classes.back()), "wrong variables for the successor at " + conditions::str(t));
    REQUIRE(ctx, sorted(o.predecessorVariables()) == (zero ? r.classes.front() : r.classes[1]), "wrong variables for the predecessor at " + conditions::str(t));
    const auto next = o.successor();
    REQUIRE(ctx, next.predecessor() == o, "the predecessor of the successor is another order");
    if (!zero) {
      REQUIRE(ctx, o.predecessor().successor() == o, "the successor of the predecessor is another order");
    }
    const auto more = o.extendN();
    REQUIRE(ctx, more.getSize() == p.size() + 1 && more.removeN() == o, "extendN and removeN are not inverse");
    const auto first = o.extendZero();
    REQUIRE(ctx, first.getSize() == p.size() + 1 && first.removeZero() == o, "extendZero and removeZero are not inverse");
    auto z = t;
    z.insert(z.begin(), 0.0);
    const Region rz{"", z};
    REQUIRE(ctx, sorted(first.successorVariables()) == rz.classes.front(), "extendZero does not add a variable with an integral value");
    o.successorAssign();
    REQUIRE(ctx, o == next, "successorAssign is not successor");
    const double d = step(t);
    for (auto &x: t) {
      x = fraction(x + d);
    }
  }
  if (Region("", p).classes.size() > 2) {
    ctx.nontrivialNote();
  }
}

//! A word split in two: the suffix of its language after the language of the first part
void suffix(pbt::Ctx &ctx) {
  const auto w = randomWord(ctx, 1 + ctx.src.draw(4));
  const TimedWord word{w.first, w.second};
  const auto whole = ForwardRegionalElementaryLanguage::fromTimedWord(word);
  const auto prefixes = whole.prefixes();
  const auto &prefix = prefixes[ctx.src.draw(prefixes.size())];
  std::stringstream ss;
  ss << showWord(w.first, w.second) << " after " << prefix;
  ctx.note(ss.str());
  const auto s = whole.suffix(prefix);
  REQUIRE(ctx, s.getWord() == w.first.substr(prefix.wordSize()), "the suffix has the word " + s.getWord());
  REQUIRE(ctx, s.isSimple() && s.getFractionalOrder().getSize() == s.wordSize() + 1, "the suffix is malformed");
  const auto joined = prefix + s;
  REQUIRE(ctx, joined.getWord() == w.first, "the concatenation has the word " + joined.getWord());
  const auto &c = joined.getTimedCondition();
  Matrix both = read(c);
  const Matrix m = read(whole.getTimedCondition());
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t j = 0; j < m.size(); ++j) {
      both[i][j] = std::min(both[i][j], m[i][j]);
    }
  }
  REQUIRE(ctx, dbm::close(both), "no word of the language is in the concatenation of the prefix and the suffix");
  REQUIRE(ctx, c.includes(whole.getTimedCondition()), "not included");
  if (prefix.wordSize() > 0 && prefix.wordSize() < w.first.size()) {
    ctx.nontrivialNote();
  }
}

//! The language reached by resets: its clocks are the values of some word after the resets
void resets(pbt::Ctx &ctx) {
  const auto w = randomWord(ctx, 1 + ctx.src.draw(4));
  const auto lang = ForwardRegionalElementaryLanguage::fromTimedWord(TimedWord{w.first, w.second});
  const auto t = sums(w.second);
  const std::size_t target = ctx.src.coin() ? t.size() : 1 + ctx.src.draw(4);
  TATransition::Resets r;
  Point q(target);
  std::size_t last = 0;
  bool copies = false;
  for (std::size_t x = 0; x < target; ++x) {
    // The values have to be those of a timed word, i.e., descending, for all words of the language
    const double previous = x == 0 ? 10 : q[x - 1];
    const bool precise = x == 0 || previous == std::floor(previous);
    const auto assignable = [&](std::size_t y) {
      return x == 0 || (precise ? t[y] <= previous : y >= last && t[y] <= previous);
    };
    if (x < t.size() && assignable(x) && ctx.src.chance(1, 3)) {
      q[x] = t[x];
      last = std::max(last, x);
      continue;
    }
    const std::size_t y = ctx.src.draw(t.size());
    if (assignable(y) && ctx.src.coin()) {
      r.emplace_back(x, static_cast<ClockVariables>(y));
      q[x] = t[y];
      last = y;
      copies = true;
    } else {
      q[x] = ctx.src.range(0, std::min(2, static_cast<int>(std::floor(previous))));
      r.emplace_back(x, q[x]);
      last = t.size();
    }
  }
  std::stringstream ss;
  ss << r;
  ctx.note(showWord(w.first, w.second) + ", " + std::to_string(target) + " clocks, " + ss.str());
  std::string word;
  for (std::size_t i = 1; i < target; ++i) {
    word += 'c';
  }
  const auto result = target == t.size() && !copies ? lang.applyResets(r) : lang.applyResets(word, r, target);
  REQUIRE(ctx, result.getWord() == (target == t.size() && !copies ? w.first : word), "a wrong word");
  // Some word of the result has clocks that result from some word of the language
  Matrix m = read(result.getTimedCondition());
  const Matrix before = read(lang.getTimedCondition());
  const std::size_t n = t.size();
  Matrix both(1 + target + n, std::vector<dbm::Bounds>(1 + target + n, dbm::Bounds{kInf, false}));
  const auto tighten = [&](std::size_t i, std::size_t j, const dbm::Bounds &b) { both[i][j] = std::min(both[i][j], b); };
  for (std::size_t i = 0; i <= target; ++i) {
    for (std::size_t j = 0; j <= target; ++j) {
      both[i][j] = m[i][j];
    }
  }
  for (std::size_t i = 0; i <= n; ++i) {
    for (std::size_t j = 0; j <= n; ++j) {
      tighten(i == 0 ? 0 : target + i, j == 0 ? 0 : target + j, before[i][j]);
    }
  }
  std::set<std::size_t> assigned;
  const auto same = [&](std::size_t x, std::size_t y) {
    tighten(x + 1, target + y + 1, {0, true});
    tighten(target + y + 1, x + 1, {0, true});
  };
  for (const auto &[x, v]: r) {
    assigned.insert(x);
    if (v.index() == 1) {
      same(x, std::get<ClockVariables>(v));
    } else {
      tighten(x + 1, 0, {std::get<double>(v), true});
      tighten(0, x + 1, {-std::get<double>(v), true});
    }
  }
  for (std::size_t x = 0; x < target; ++x) {
    if (!assigned.count(x)) {
      same(x, x);
    }
  }
  for (std::size_t i = 0; i < both.size(); ++i) {
    both[i][i] = {0, true};
  }
  std::stringstream rs;
  rs << result;
  REQUIRE(ctx, dbm::close(both), "no word of the language leads to " + rs.str());
  if (copies) {
    ctx.nontrivialNote();
  }
}

} // namespace

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C11";
  info.rule = "Walks through regions by actions and by time in both directions next to a concrete timed word, pairs of close words, and words "
              "split at random, and resets to integers and other clocks; non-trivial: a walk of three steps or more with an action (classes: different words in the same language; "
              "suffix: actions on both sides; resets: with copies); distinct by input";
  info.assumptions = {"durations are multiples of 1/8"};
  info.subs = {sub("forward", 300000, 2000000, forward), sub("backward", 300000, 2000000, backward), sub("classes", 1000000, 5000000, classes),
               sub("orders", 300000, 3000000, orders), sub("suffix", 500000, 2000000, suffix), sub("resets", 500000, 5000000, resets)};
  return pbt::checkMain(argc, argv, info);
}
