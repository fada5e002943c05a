// C02: a counterexample reported by an equivalence oracle is a word on which target and hypothesis differ.
#include "oracles.hh"

using namespace learnta;
using namespace oracles;

static void exact(pbt::Ctx &ctx) {
  const auto p = generate(ctx, ctx.src.chance(1, 6));
  const auto oracle = exactOracle(p.target, p.alphabet, ctx.src.coin());
  const auto w = oracle->findCounterExample(ref::build(p.hypothesis));
  if (w) {
    genuine(ctx, p, *w, "exact oracle");
    ctx.nontrivialNote();
  }
}

static void testSuite(pbt::Ctx &ctx) {
  const auto p = generate(ctx);
  EquivalenceOracleByTest oracle{ref::build(p.target)};
  const auto hypothesis = ref::build(p.hypothesis);
  std::vector<std::pair<std::string, std::vector<double>>> words;
  for (int i = ctx.src.range(1, 6); i > 0; --i) {
    words.push_back(gen::guidedWord(ctx.src, ctx.src.coin() ? p.target : p.hypothesis, p.alphabet, 5, 4));
    ctx.note("word " + showWord(words.back().first, words.back().second));
    oracle.push_back(TimedWord{words.back().first, words.back().second});
    // Asked again and again while the suite grows
    const auto w = oracle.findCounterExample(hypothesis);
    if (w) {
      genuine(ctx, p, *w, "test-suite oracle");
      ctx.label("found by the test suite");
      ctx.nontrivialNote();
    }
  }
}

static void randomTests(pbt::Ctx &ctx) {
  const auto p = generate(ctx);
  EquivalenceOracleByRandomTest oracle{{p.alphabet.begin(), p.alphabet.end()}, ref::build(p.target), 30,
                                       ctx.src.range(0, 6), ctx.src.range(1, 5)};
  const auto hypothesis = ref::build(p.hypothesis);
  for (int i = 0; i < 3; ++i) {
    const auto w = oracle.findCounterExample(hypothesis);
    if (w) {
      genuine(ctx, p, *w, "random-test oracle");
      ctx.label("found by random tests");
      ctx.nontrivialNote();
    }
  }
}

//! Unobservable transitions change the verdict while time passes, so the durations of the reported word matter
static void silent(pbt::Ctx &ctx) {
  const auto p = silentSuite(ctx, 5);
  EquivalenceOracleByTest oracle{ref::build(p.target)};
  const auto hypothesis = ref::build(p.hypothesis);
  for (const auto &[w, d]: p.words) {
    oracle.push_back(TimedWord{w, d});
    if (const auto c = oracle.findCounterExample(hypothesis)) {
      const auto x = nondet::urgentAccepts(p.target, c->getWord(), c->getDurations());
      const auto y = nondet::urgentAccepts(p.hypothesis, c->getWord(), c->getDurations());
      if (x && y) {
        ctx.check(*x != *y, "test-suite oracle: both automata agree on the counterexample " + str(*c));
        ctx.nontrivialNote();
      } else {
        ctx.label("order of events open");
      }
    }
  }
  EquivalenceOracleByRandomTest random{{p.alphabet.begin(), p.alphabet.end()}, ref::build(p.target), 20, ctx.src.range(0, 3), 4};
  if (const auto c = random.findCounterExample(hypothesis)) {
    ctx.check(c->getDurations().size() == c->getWord().size() + 1, "random-test oracle: a counterexample with a wrong number of durations");
    const auto x = nondet::urgentAccepts(p.target, c->getWord(), c->getDurations());
    const auto y = nondet::urgentAccepts(p.hypothesis, c->getWord(), c->getDurations());
    if (x && y) {
      ctx.check(*x != *y, "random-test oracle: both automata agree on the counterexample " + str(*c));
      ctx.label("found by random tests");
      ctx.nontrivialNote();
    }
  }
}

//! A history of hypotheses put to a caching oracle in front of the exact one
static void history(pbt::Ctx &ctx) {
  auto p = generate(ctx);
  const bool chain = ctx.src.coin();
  std::unique_ptr<EquivalenceOracle> oracle = exactOracle(p.target, p.alphabet, true);
  if (chain) {
    auto c = std::make_unique<EquivalenceOracleChain>();
    auto suite = std::make_unique<EquivalenceOracleByTest>(ref::build(p.target));
    const auto [w, d] = gen::guidedWord(ctx.src, p.target, p.alphabet, 5, 4);
    suite->push_back(TimedWord{w, d});
    c->push_back(std::move(suite));
    c->push_back(std::move(oracle));
    oracle = std::move(c);
  }
  oracle = std::make_unique<EquivalenceOracleMemo>(std::move(oracle), ref::build(p.target));
  auto o = smallAutomata();
  o.maxConst = 2;
  int found = 0;
  for (int i = ctx.src.range(2, 6); i > 0; --i) {
    const auto w = oracle->findCounterExample(ref::build(p.hypothesis));
    if (w) {
      ++found;
      genuine(ctx, p, *w, chain ? "memo of chain" : "memo of exact");
    }
    p.hypothesis = mutant(ctx, ctx.src.coin() ? p.target : p.hypothesis, o, p.alphabet);
    ctx.note("next hypothesis " + ref::show(p.hypothesis));
  }
  if (found > 1) {
    ctx.nontrivialNote();
  }
}

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C02";
  info.rule = "Pairs (histories) of a random target and a random or mutated hypothesis, put to the exact, test-suite, random-test, "
              "memoizing and chained oracles; non-trivial: a counterexample was reported (histories: more than one); "
              "distinct by input";
  info.assumptions = {"deterministic automata, without unobservable transitions except for the test-suite oracle, where they have attained "
                      "lower bounds and no loops; the verdict on a counterexample is by the reference simulator"};
  info.subs = {sub("exact", 80000, 1000000, exact), sub("suite", 100000, 1000000, testSuite),
               sub("random", 60000, 600000, randomTests), sub("history", 60000, 800000, history),
               sub("silent", 100000, 1000000, silent)};
  return pbt::checkMain(argc, argv, info);
}
