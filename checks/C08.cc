// C08: running a timed automaton answers membership of timed words, whatever was run before.
#include "common.hh"
#include "nondet.hh"
#include "equivalence_oracle_by_test.hh"
#include "membership_oracle.hh"
#include "timed_automaton_runner.hh"

using namespace learnta;

static void compare(pbt::Ctx &ctx, bool got, bool expected, const std::string &what) {
  ctx.check(got == expected, what + (got ? ": accepted" : ": rejected") + ", but the automaton " + (expected ? "accepts" : "rejects"));
}

static ref::RefTA target(pbt::Ctx &ctx, gen::TAOptions o, std::vector<char> &alphabet) {
  o = gen::flavour(ctx.src, o);
  if (!o.constants) {
    o.fractions = ctx.src.chance(1, 3);
  }
  auto g = gen::automaton(ctx.src, o);
  alphabet = g.alphabet;
  return g.ta;
}

//! A history of runs; every step of every run answers for the prefix fed so far
static void runs(pbt::Ctx &ctx) {
  auto o = ctx.src.coin() ? smallAutomata() : bigAutomata();
  std::vector<char> alphabet;
  auto a = target(ctx, o, alphabet);
  const auto original = a;
  alphabet.push_back('z'); // an action the automaton does not know
  ctx.note(ref::show(a));
  TimedAutomatonRunner runner{ref::build(a)};
  std::size_t queries = 0, accepted = 0, after = 0;
  bool stuckBefore = false;
  for (int i = ctx.src.range(1, 5); i > 0; --i) {
    const auto [w, d] = gen::guidedWord(ctx.src, a, alphabet, 6, o.maxConst + 2);
    // Abandon some of the runs half-way
    const std::size_t cut = ctx.src.chance(1, 4) ? ctx.src.draw(w.size() + 1) : w.size();
    ctx.note("run " + showWord(w, d) + (cut < w.size() ? " up to action " + std::to_string(cut) : ""));
    runner.pre();
    ++queries;
    auto c = ref::start(a);
    for (std::size_t k = 0; k <= cut; ++k) {
      // A delay may be fed in pieces; all of them are multiples of 1/8
      double rest = d[k];
      bool last = false;
      const int pieces = ctx.src.chance(1, 3) ? ctx.src.range(2, 3) : 1;
      for (int p = 0; p < pieces; ++p) {
        const double piece = p + 1 == pieces ? rest : std::floor(rest * 8 / 2) / 8;
        rest -= piece;
        ref::delay(c, piece);
        last = runner.step(piece);
        compare(ctx, last, ref::accepting(a, c), "after a delay in the prefix of length " + std::to_string(k));
      }
      accepted += last;
      if (k < cut) {
        ref::act(a, c, w[k]);
        last = runner.step(w[k]);
        compare(ctx, last, ref::accepting(a, c), "after action " + std::to_string(k + 1));
        accepted += last;
      }
    }
    // As the test-suite oracle does, runs are not always finished
    if (ctx.src.chance(2, 3)) {
      runner.post();
    } else {
      ctx.note("left open");
    }
    ctx.check(runner.count() == queries, "wrong number of queries");
    after += stuckBefore && accepted > 0;
    stuckBefore = c.loc < 0;
  }
  if (queries > 1 && accepted > 1) {
    ctx.nontrivialNote();
  }
  if (after > 0) {
    ctx.label("a run after one that got stuck");
  }
}

//! Counts what is put to it, and answers wrongly if the protocol is not respected
struct Spy : public SUL {
  TimedAutomatonRunner runner;
  std::string log;

  explicit Spy(TimedAutomaton ta) : runner(std::move(ta)) {}

  void pre() override {
    log += "(";
    runner.pre();
  }

  void post() override {
    log += ")";
    runner.post();
  }

  bool step(char a) override {
    log += a;
    return runner.step(a);
  }

  bool step(double d) override {
    log += "t";
    return runner.step(d);
  }

  [[nodiscard]] std::size_t count() const override { return runner.count(); }
};

//! The membership oracle: the protocol of the system under learning, answers, and the cache in front of it
static void oracle(pbt::Ctx &ctx) {
  auto o = smallAutomata();
  std::vector<char> alphabet;
  const auto a = target(ctx, o, alphabet);
  ctx.note(ref::show(a));
  const bool cached = ctx.src.coin();
  auto owned = std::make_unique<Spy>(ref::build(a));
  Spy *spy = owned.get();
  std::unique_ptr<MembershipOracle> oracle = std::make_unique<SULMembershipOracle>(std::move(owned));
  if (cached) {
    oracle = std::make_unique<MembershipOracleCache>(std::move(oracle));
  }
  ctx.note(cached ? "cached" : "not cached");
  std::vector<std::pair<std::string, std::vector<double>>> pool;
  std::size_t calls = 0, expectedCount = 0;
  std::set<std::pair<std::string, std::vector<double>>> seen;
  int accepted = 0, rejected = 0, again = 0;
  for (int i = ctx.src.range(1, 12); i > 0; --i) {
    if (pool.empty() || ctx.src.chance(2, 3)) {
      pool.push_back(gen::guidedWord(ctx.src, a, alphabet, 4, o.maxConst + 2));
      if (pool.size() > 1 && ctx.src.chance(1, 3)) {
        // Similar to one asked before: the same actions, one duration changed
        auto w = pool[ctx.src.draw(pool.size() - 1)];
        auto &x = w.second[ctx.src.draw(w.second.size())];
        x = ctx.src.coin() ? x + 0.25 : std::max(0.0, x - 0.25);
        pool.back() = w;
      }
    }
    const auto &[w, d] = pool[pool.size() - 1 - ctx.src.draw(pool.size())];
    ctx.note("query " + showWord(w, d));
    spy->log.clear();
    const bool answer = oracle->answerQuery(TimedWord{w, d});
    ++calls;
    const bool fresh = seen.insert({w, d}).second;
    again += !fresh;
    compare(ctx, answer, ref::accepts(a, w, d), "query " + showWord(w, d));
    std::string expected;
    if (fresh || !cached) {
      ++expectedCount;
      expected = "(t";
      for (char c: w) {
        expected += c;
        expected += 't';
      }
      expected += ")";
    }
    ctx.check(spy->log == expected, "the system under learning saw " + spy->log + " instead of " + expected);
    ctx.check(oracle->count() == expectedCount, "count() is " + std::to_string(oracle->count()) + " instead of " + std::to_string(expectedCount));
    std::ostringstream os;
    oracle->printStatistics(os);
    std::string stat = "Number of membership queries: " + std::to_string(calls) + "\n";
    if (cached) {
      stat += "Number of membership queries (with cache): " + std::to_string(expectedCount) + "\n";
    }
    ctx.check(os.str() == stat, "wrong statistics: " + os.str());
    (answer ? accepted : rejected)++;
  }
  if (accepted > 0 && rejected > 0 && again > 0) {
    ctx.nontrivialNote();
  }
}

/*!
 * Unobservable transitions are taken as soon as their guard holds. Their guards have attained lower bounds, and they lead to later
 * locations only. Words with an action or an end at the very time of an unobservable transition are left out: the order is open.
 */
static void silent(pbt::Ctx &ctx) {
  auto o = smallAutomata();
  o.constants = o.copies = false;
  o.minLocs = 2;
  o.complete = ctx.src.coin();
  auto g = gen::automaton(ctx.src, o);
  auto &a = g.ta;
  const bool several = nondet::addUrgent(ctx.src, a, o);
  ctx.note(ref::show(a));
  TimedAutomatonRunner runner{ref::build(a)};
  int fired = 0, judged = 0;
  for (int i = 0; i < 4; ++i) {
    const auto [w, d] = gen::guidedWord(ctx.src, a, g.alphabet, 5, o.maxConst + 3);
    runner.pre();
    nondet::Urgent u{a};
    for (std::size_t k = 0; k <= w.size(); ++k) {
      if (!u.delay(d[k])) {
        break;
      }
      const bool got = runner.step(d[k]);
      ++judged;
      compare(ctx, got, u.accepting(), "after delay " + std::to_string(k) + " of " + showWord(w, d));
      if (k < w.size()) {
        u.act(w[k]);
        compare(ctx, runner.step(w[k]), u.accepting(), "after action " + std::to_string(k + 1) + " of " + showWord(w, d));
        ++judged;
      }
    }
    fired += static_cast<int>(u.fired);
    runner.post();
  }
  if (fired > 0) {
    ctx.label("unobservable transitions taken", fired);
    if (several) {
      ctx.label("several unobservable transitions of a location");
    }
    if (judged > 2) {
      ctx.nontrivialNote();
    }
  }
}

//! The empty automaton rejects everything
static void empty(pbt::Ctx &ctx) {
  TimedAutomatonRunner runner{TimedAutomaton{}};
  const std::vector<char> alphabet = gen::alphabetOf(2);
  for (int i = 0; i < 3; ++i) {
    const auto [w, d] = gen::word(ctx.src, alphabet, 4, 3);
    ctx.note(showWord(w, d));
    runner.pre();
    ctx.check(!runner.step(d[0]), "the empty automaton accepts");
    for (std::size_t k = 0; k < w.size(); ++k) {
      ctx.check(!runner.step(w[k]) && !runner.step(d[k + 1]), "the empty automaton accepts");
    }
    runner.post();
    ctx.check(runner.count() == static_cast<std::size_t>(i + 1), "wrong number of queries");
  }
  ctx.nontrivialNote();
}

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C08";
  info.rule = "Histories of runs of random automata on timed words steered to the bounds of their guards, delays fed in pieces, some runs "
              "abandoned; histories of queries to membership oracles; automata with unobservable transitions; non-trivial: several runs with "
              "acceptance (oracle: both answers and a repeated query; unobservable: one was taken); distinct by input";
  info.assumptions = {"durations are multiples of 1/8, so sums are exact",
                      "unobservable transitions have attained lower bounds and no loops; words with an action or end at the very time of "
                      "one are left out"};
  info.subs = {sub("runs", 500000, 6000000, runs), sub("oracle", 500000, 5000000, oracle), sub("silent", 500000, 6000000, silent),
               sub("empty", 500, 2000, empty)};
  return pbt::checkMain(argc, argv, info);
}
