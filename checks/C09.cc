// C09: the symbolic membership oracle describes exactly the accepted words of an elementary language.
#include "conditions.hh"
#include "symbolic_membership_oracle.hh"
#include "timed_automaton_runner.hh"

using namespace learnta;
using namespace conditions;

namespace {

//! Records the words put to the system under learning
struct Recorder : public SUL {
  TimedAutomatonRunner runner;
  std::vector<std::pair<std::string, std::vector<double>>> asked;

  explicit Recorder(TimedAutomaton ta) : runner(std::move(ta)) {}

  void pre() override {
    asked.emplace_back();
    runner.pre();
  }

  void post() override { runner.post(); }

  bool step(char a) override {
    asked.back().first.push_back(a);
    return runner.step(a);
  }

  bool step(double d) override {
    asked.back().second.push_back(d);
    return runner.step(d);
  }

  [[nodiscard]] std::size_t count() const override { return runner.count(); }
};

std::string str(const TimedConditionSet &s) {
  std::string r = "{";
  for (const auto &c: s.getConditions()) {
    r += (r.size() > 1 ? " | " : "") + conditions::str(read(c));
  }
  return r + "}";
}

bool same(const TimedConditionSet &a, const TimedConditionSet &b) {
  return std::equal(a.getConditions().begin(), a.getConditions().end(), b.getConditions().begin(), b.getConditions().end(),
                    [](const auto &x, const auto &y) { return read(x) == read(y); });
}

std::size_t members(const std::vector<Matrix> &set, const std::vector<double> &d) {
  return std::count_if(set.begin(), set.end(), [&](const Matrix &m) { return conditions::contains(m, d); });
}

std::vector<Matrix> readAll(const TimedConditionSet &s) {
  std::vector<Matrix> r;
  for (const auto &c: s.getConditions()) {
    r.push_back(read(c));
  }
  return r;
}

//! Words in the condition: near the bounds, and some in every simple part
std::vector<std::vector<double>> words(pbt::Ctx &ctx, const TimedCondition &c, const std::vector<TimedCondition> &parts, int maxConst) {
  std::vector<std::vector<double>> out;
  for (int i = 0; i < 10; ++i) {
    out.push_back(solution(ctx.src, read(c), maxConst));
  }
  for (const auto &p: parts) {
    const auto m = read(p);
    out.push_back(ElementaryLanguage{std::string(c.size() - 1, 'a'), p}.sample().getDurations());
    if (parts.size() < 60) {
      out.push_back(solution(ctx.src, m, maxConst));
    }
  }
  out.erase(std::remove_if(out.begin(), out.end(), [](const auto &d) { return d.empty() || !nonNegative(d); }), out.end());
  return out;
}

//! A bound on the work to enumerate the simple parts
double pieces(const Matrix &m) {
  double r = 1;
  for (std::size_t i = 0; i < m.size(); ++i) {
    for (std::size_t j = 0; j < i; ++j) {
      r *= 2 * (m[i][j].first + m[j][i].first) + 1;
    }
  }
  return r;
}

//! The hull of a word and one or two nearby ones, preferably such that some are accepted and some are not
TimedCondition around(pbt::Source &s, const ref::RefTA &ta, const std::string &w, const std::vector<double> &d) {
  TimedCondition c{sums(d)};
  const bool accepted = ref::accepts(ta, w, d);
  for (int i = s.range(0, d.size() > 3 || (d.size() == 3 && !s.chance(1, 4)) ? 1 : 3); i > 0; --i) {
    auto e = d;
    for (int tries = 0; tries < 5; ++tries) {
      e = d;
      int left = d.size() > 3 ? 1 : 2;
      for (auto &x: e) {
        static const double offsets[] = {0, 0, 0.5, -0.5, 0.25, -0.25, 1, -1};
        if (left > 0) {
          const double next = std::max(0.0, x + offsets[s.draw(8)]);
          left -= next != x;
          x = next;
        }
      }
      if (ref::accepts(ta, w, e) != accepted) {
        break;
      }
    }
    const auto hull = c.convexHull(TimedCondition{sums(e)});
    if (pieces(read(hull)) < 1e6) {
      c = hull;
    }
  }
  return c;
}

//! A word steered to the bounds of the guards, preferably one that does not get stuck
std::pair<std::string, std::vector<double>> alive(pbt::Ctx &ctx, const ref::RefTA &ta, const std::vector<char> &alphabet, int maxConst) {
  for (int i = 0;; ++i) {
    auto word = gen::guidedWord(ctx.src, ta, alphabet, 3, maxConst);
    if (i == 3 || ref::accepts(ta, word.first, word.second)) {
      return word;
    }
  }
}

/*!
 * A history of symbolic queries: the conditions of the answer contain exactly the accepted words, asking again gives the
 * same answer, and the system under learning never sees a word twice.
 */
void history(pbt::Ctx &ctx) {
  auto o = gen::flavour(ctx.src, smallAutomata());
  o.minClocks = o.maxClocks = ctx.src.range(1, 2);
  o.minLocs = 2;
  o.maxLocs = 3;
  o.maxConst = 2;
  o.maxDepth = 3;
  const auto [ta, alphabet] = gen::automaton(ctx.src, o);
  ctx.note(ref::show(ta));
  auto owned = std::make_unique<Recorder>(ref::build(ta));
  const Recorder *recorder = owned.get();
  SymbolicMembershipOracle oracle{std::move(owned)};
  std::vector<ElementaryLanguage> asked;
  std::vector<TimedConditionSet> answers;
  std::size_t symbolic = 0, fresh = 0, membership = 0;
  std::set<std::pair<std::string, std::vector<double>>> words;
  bool partly = false;
  for (int i = ctx.src.range(1, 4); i > 0; --i) {
    if (!asked.empty() && ctx.src.chance(1, 4)) {
      const auto k = ctx.src.draw(asked.size());
      const auto again = oracle.query(asked[k]);
      ++symbolic;
      REQUIRE(ctx, same(answers[k], again), "asking again gives " + str(again) + " instead of " + str(answers[k]));
    } else if (ctx.src.chance(1, 5)) {
      const auto [w, d] = gen::guidedWord(ctx.src, ta, alphabet, 3, o.maxConst + 1);
      const bool expected = ref::accepts(ta, w, d);
      REQUIRE(ctx, oracle.answerQuery(TimedWord{w, d}) == expected, "a wrong answer for " + showWord(w, d));
      words.emplace(w, d);
      ++membership;
    } else {
      auto [w, d] = alive(ctx, ta, alphabet, o.maxConst + 1);
      TimedCondition c = around(ctx.src, ta, w, d);
      if (!asked.empty() && ctx.src.chance(1, 3)) {
        // Overlapping with one asked before
        const auto &old = asked[ctx.src.draw(asked.size())];
        w = old.getWord();
        c = around(ctx.src, ta, w, old.sample().getDurations());
      }
      ctx.note("query (" + w + ", " + conditions::str(read(c)) + ")");
      const ElementaryLanguage language{w, c};
      const auto answer = oracle.query(language);
      ++symbolic;
      if (std::find_if(asked.begin(), asked.end(), [&](const auto &l) { return l.getWord() == w && read(l.getTimedCondition()) == read(c); }) ==
          asked.end()) {
        ++fresh;
        const auto parts = c.enumerate();
        membership += parts.size();
        for (const auto &p: parts) {
          const auto s = ElementaryLanguage{w, p}.sample();
          words.emplace(s.getWord(), s.getDurations());
        }
      }
      const auto matrices = readAll(answer);
      std::size_t in = 0, out = 0;
      for (const auto &e: ::words(ctx, c, c.enumerate(), o.maxConst + 1)) {
        const bool expected = ref::accepts(ta, w, e);
        const auto got = members(matrices, e);
        (expected ? in : out)++;
        REQUIRE(ctx, (got > 0) == expected, "the answer " + str(answer) + (expected ? " misses the accepted word " : " contains the rejected word ") +
                                            showWord(w, e));
        REQUIRE(ctx, got <= 1, "the conditions of the answer " + str(answer) + " overlap on " + showWord(w, e));
      }
      for (int j = 0; j < 10; ++j) {
        const auto e = durations(ctx.src, w.size() + 1, o.maxConst + 1);
        REQUIRE(ctx, conditions::contains(read(c), e) || members(matrices, e) == 0, "the answer " + str(answer) + " contains " + showWord(w, e) +
                                                                               ", which is not in the language asked for");
      }
      REQUIRE(ctx, in > 0 || answer.empty(), "no word is accepted, but the answer is " + str(answer));
      REQUIRE(ctx, out > 0 || (answer.size() == 1 && read(answer.getConditions().front()) == read(c)),
              "all words are accepted, but the answer is " + str(answer));
      for (const auto &p: answer.getConditions()) {
        REQUIRE(ctx, c.includes(p), "a condition of the answer is not included in the language asked for: " + conditions::str(read(p)));
      }
      partly = partly || (in > 0 && out > 0);
      ctx.label("conditions in the answer: " + std::string(answer.size() < 3 ? std::to_string(answer.size()) : "3 or more"));
      asked.push_back(language);
      answers.push_back(answer);
    }
    const std::set<std::pair<std::string, std::vector<double>>> seen(recorder->asked.begin(), recorder->asked.end());
    REQUIRE(ctx, seen.size() == recorder->asked.size(), "the system under learning saw a word twice");
    REQUIRE(ctx, seen == words, "the system under learning saw " + std::to_string(seen.size()) + " words instead of " + std::to_string(words.size()));
    REQUIRE(ctx, oracle.count() == seen.size(), "count() is " + std::to_string(oracle.count()));
    std::ostringstream os;
    oracle.printStatistics(os);
    std::ostringstream expected;
    expected << "Number of symbolic membership queries: " << symbolic << "\n"
             << "Number of symbolic membership queries (with cache): " << fresh << "\n"
             << "Number of membership queries: " << membership << "\n"
             << "Number of membership queries (with cache): " << seen.size() << "\n";
    REQUIRE(ctx, os.str() == expected.str(), "wrong statistics:\n" + os.str() + "instead of\n" + expected.str());
  }
  if (partly) {
    ctx.nontrivialNote();
  }
}

//! The union of some simple conditions, described by few conditions
void reduction(pbt::Ctx &ctx) {
  const std::size_t n = 1 + ctx.src.draw(3);
  const auto c = condition(ctx.src, n, 3);
  if (pieces(read(c)) > 2e4) {
    ctx.discard();
  }
  const auto parts = c.enumerate();
  if (parts.size() > 40) {
    ctx.discard();
  }
  std::vector<bool> chosen;
  std::list<ElementaryLanguage> list;
  const std::string word(n - 1, 'a');
  const int num = ctx.src.range(1, 4);
  for (const auto &p: parts) {
    chosen.push_back(ctx.src.chance(num, 5));
    if (chosen.back()) {
      if (ctx.src.coin()) {
        list.emplace_back(word, p);
      } else {
        list.emplace_front(word, p);
      }
    }
  }
  ctx.note(conditions::str(read(c)));
  std::string pattern;
  for (const bool b: chosen) {
    pattern += b ? '1' : '0';
  }
  ctx.note("parts " + pattern);
  const auto size = list.size();
  const auto result = TimedConditionSet::reduce(std::move(list));
  REQUIRE(ctx, result.empty() == (size == 0), "empty is wrong");
  REQUIRE(ctx, result.size() <= size, "more conditions than before");
  const auto matrices = readAll(result);
  for (std::size_t i = 0; i < parts.size(); ++i) {
    const auto s = ElementaryLanguage{word, parts[i]}.sample().getDurations();
    REQUIRE(ctx, members(matrices, s) == (chosen[i] ? 1 : 0),
            str(result) + " contains " + conditions::str(s) + " " + std::to_string(members(matrices, s)) + " times");
    const auto m = read(parts[i]);
    const auto inside = solution(ctx.src, m, 4);
    REQUIRE(ctx, inside.empty() || members(matrices, inside) == (chosen[i] ? 1 : 0),
            str(result) + " contains " + conditions::str(inside) + " " + std::to_string(members(matrices, inside)) + " times");
  }
  for (const auto &r: result.getConditions()) {
    REQUIRE(ctx, c.includes(r), "a condition not included: " + conditions::str(read(r)));
  }
  if (size > 1 && result.size() < size) {
    ctx.nontrivialNote();
  }
}

} // namespace

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C09";
  info.rule = "Histories of symbolic queries about random deterministic targets, on elementary languages around words steered to the bounds "
              "of the guards; the answer is compared with the simulated target on words in every simple part and near the bounds; "
              "non-trivial: a language that is accepted in part (reduction: parts were merged); distinct by input";
  info.assumptions = {"clocks are reset to integers, so a simple elementary language is accepted or rejected as a whole"};
  info.subs = {sub("history", 400000, 3000000, history), sub("reduction", 100000, 800000, reduction)};
  return pbt::checkMain(argc, argv, info);
}
