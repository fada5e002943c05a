// C03: "no counterexample" means what the oracle promises.
#include "oracles.hh"

using namespace learnta;
using namespace oracles;

//! The exact oracle answers "none" only for equal languages
static void exact(pbt::Ctx &ctx) {
  const auto p = generate(ctx, ctx.src.chance(1, 6));
  const auto oracle = exactOracle(p.target, p.alphabet, ctx.src.coin());
  const auto w = oracle->findCounterExample(ref::build(p.hypothesis));
  if (p.difference) {
    ctx.check(w.has_value(), "exact oracle: none found but the automata differ on " + p.difference->str());
    ctx.nontrivialNote();
  }
  ctx.check(oracle->numEqQueries() == 1, "exact oracle: wrong number of equivalence queries");
}

//! One oracle object asked about several hypotheses
static void reused(pbt::Ctx &ctx) {
  auto p = generate(ctx);
  const bool memo = ctx.src.coin();
  std::unique_ptr<EquivalenceOracle> oracle = exactOracle(p.target, p.alphabet, true);
  if (memo) {
    oracle = std::make_unique<EquivalenceOracleMemo>(std::move(oracle), ref::build(p.target));
  }
  auto o = smallAutomata();
  o.maxConst = 2;
  std::size_t queries = 0, different = 0;
  for (int i = ctx.src.range(2, 5); i > 0; --i) {
    const auto w = oracle->findCounterExample(ref::build(p.hypothesis));
    ++queries;
    ctx.check(oracle->numEqQueries() == queries, "wrong number of equivalence queries");
    if (p.difference) {
      ++different;
      ctx.check(w.has_value(), "none found but the automata differ on " + p.difference->str());
    }
    p.hypothesis = mutant(ctx, ctx.src.coin() ? p.target : p.hypothesis, o, p.alphabet);
    ctx.note("next hypothesis " + ref::show(p.hypothesis));
    const auto e = ref::equivalent(p.target, p.hypothesis, p.alphabet);
    if (e.capped) {
      ctx.discard();
    }
    p.difference = e.found;
  }
  if (different > 1) {
    ctx.nontrivialNote();
  }
}

//! The test-suite oracle answers "none" only if target and hypothesis agree along every word of the suite
static void testSuite(pbt::Ctx &ctx) {
  const auto p = generate(ctx);
  EquivalenceOracleByTest oracle{ref::build(p.target)};
  const auto hypothesis = ref::build(p.hypothesis);
  bool differs = false;
  std::size_t asked = 0;
  std::string witness;
  for (int i = ctx.src.range(1, 8); i > 0; --i) {
    const auto [w, d] = gen::guidedWord(ctx.src, ctx.src.coin() ? p.target : p.hypothesis, p.alphabet, 5, 4);
    ctx.note("word " + showWord(w, d));
    oracle.push_back(TimedWord{w, d});
    const auto diff = firstDifference(p.target, p.hypothesis, w, d);
    if (diff && !differs) {
      differs = true;
      witness = showWord(diff->first, diff->second);
    }
    const auto answer = oracle.findCounterExample(hypothesis);
    ctx.check(answer.has_value() == differs, differs ? "none found but " + witness + " is in the suite"
                                                     : "found one but the automata agree on every word of the suite");
    ctx.check(oracle.numEqQueries() == ++asked, "test suite: wrong number of queries");
  }
  if (differs) {
    ctx.nontrivialNote();
  }
}

//! The same with unobservable transitions, which are taken as soon as they are enabled
static void silent(pbt::Ctx &ctx) {
  const auto p = silentSuite(ctx, 6);
  EquivalenceOracleByTest oracle{ref::build(p.target)};
  const auto hypothesis = ref::build(p.hypothesis);
  for (std::size_t i = 0; i < p.words.size(); ++i) {
    oracle.push_back(TimedWord{p.words[i].first, p.words[i].second});
    const auto answer = oracle.findCounterExample(hypothesis);
    ctx.check(answer.has_value() == p.differs[i], p.differs[i] ? "none found but the suite tells the automata apart"
                                                               : "found one but the automata agree on every word of the suite");
  }
  if (!p.differs.empty() && p.differs.back()) {
    ctx.nontrivialNote();
  }
}

/*!
 * Random tests: a hypothesis that differs from the target everywhere is found, and so is a difference in a region
 * that a test hits with probability at least 1/2
 */
static void randomTests(pbt::Ctx &ctx) {
  const auto p = generate(ctx);
  auto hypothesis = ref::build(p.target).complement({p.alphabet.begin(), p.alphabet.end()});
  EquivalenceOracleByRandomTest oracle{{p.alphabet.begin(), p.alphabet.end()}, ref::build(p.target), 5, 3, 4};
  ctx.check(oracle.findCounterExample(hypothesis).has_value(), "random tests do not tell an automaton from its complement");
  // A target that accepts from the k-th action on if the last delay is more than c, against one that never accepts
  const int k = ctx.src.range(1, 3), c = ctx.src.range(0, 2);
  ref::RefTA t, n;
  t.clocks = n.clocks = 1;
  t.initial = n.initial = 0;
  t.locs.resize(k + 1);
  n.locs.resize(1);
  for (int i = 0; i < k; ++i) {
    for (char a: p.alphabet) {
      ref::Edge e;
      e.target = i + 1;
      e.resets.push_back({0, false, 0, 0.0});
      if (i + 1 == k) {
        e.guard.push_back({0, ref::Cmp::gt, c});
      }
      t.locs[i].next[a].push_back(e);
    }
  }
  t.locs[k].accepting = true;
  ctx.note("chain of " + std::to_string(k) + ", last delay above " + std::to_string(c));
  EquivalenceOracleByRandomTest second{{p.alphabet.begin(), p.alphabet.end()}, ref::build(t), 120, k + ctx.src.range(0, 2), 4};
  ctx.check(second.findCounterExample(ref::build(n)).has_value(), "120 random tests miss a difference hit by half of them");
  static_cast<void>(second.findCounterExample(ref::build(n)));
  std::ostringstream os;
  second.printStatistics(os);
  ctx.check(oracle.numEqQueries() == 1 && second.numEqQueries() == 2 && os.str() == "Number of equivalence queries: 2\n",
            "random tests: wrong number of queries");
  ctx.nontrivialNote();
}

//! A chain answers with the first answer of its members, asking no more of them than needed; "none" only if all do
static void chain(pbt::Ctx &ctx) {
  const int n = ctx.src.range(0, 5);
  std::vector<std::size_t> calls(n, 0);
  std::vector<std::vector<std::optional<TimedWord>>> answers(n);
  const int rounds = ctx.src.range(1, 4);
  EquivalenceOracleChain oracle;
  std::ostringstream os;
  for (int i = 0; i < n; ++i) {
    for (int r = 0; r < rounds; ++r) {
      if (ctx.src.chance(1, 3)) {
        answers[i].emplace_back(TimedWord{std::string(i, 'a') + "b", std::vector<double>(i + 2, r)});
      } else {
        answers[i].emplace_back(std::nullopt);
      }
      os << (answers[i].back() ? "x" : "-");
    }
    os << " ";
    oracle.push_back(std::make_unique<Scripted>(answers[i], &calls[i]));
  }
  ctx.note("members' answers: " + os.str());
  std::vector<std::size_t> expectedCalls(n, 0);
  const TimedAutomaton none;
  for (int r = 0; r < rounds; ++r) {
    std::optional<TimedWord> expected;
    for (int i = 0; i < n && !expected; ++i) {
      expected = answers[i][expectedCalls[i]++];
    }
    const auto got = oracle.findCounterExample(none);
    ctx.check(got.has_value() == expected.has_value(), "chain: found/none differs from its members' answers");
    ctx.check(!got || (got->getWord() == expected->getWord() && got->getDurations() == expected->getDurations()),
              "chain: not the first member's answer");
    ctx.check(calls == expectedCalls, "chain: asked the wrong members");
    ctx.check(oracle.numEqQueries() == static_cast<std::size_t>(r + 1), "chain: wrong number of queries");
  }
  if (n > 1) {
    ctx.nontrivialNote();
  }
}

//! The memo asks the wrapped oracle exactly when no remembered counterexample still works
static void memo(pbt::Ctx &ctx) {
  auto p = generate(ctx);
  std::vector<std::optional<TimedWord>> script;
  std::vector<std::pair<std::string, std::vector<double>>> pool;
  for (int i = 0; i < 6; ++i) {
    const auto w = gen::guidedWord(ctx.src, p.target, p.alphabet, 4, 3);
    pool.push_back(w);
    if (ctx.src.chance(3, 4)) {
      script.emplace_back(TimedWord{w.first, w.second});
    } else {
      script.emplace_back(std::nullopt);
    }
  }
  std::size_t calls = 0;
  EquivalenceOracleMemo oracle{std::make_unique<Scripted>(script, &calls), ref::build(p.target)};
  auto o = smallAutomata();
  o.maxConst = 2;
  std::size_t expectedCalls = 0, hits = 0, queries = 0;
  std::vector<std::pair<std::string, std::vector<double>>> known;
  for (int i = ctx.src.range(2, 6); i > 0; --i) {
    const auto got = oracle.findCounterExample(ref::build(p.hypothesis));
    ++queries;
    bool hit = false;
    for (const auto &[w, d]: known) {
      hit = hit || firstDifference(p.target, p.hypothesis, w, d).has_value();
    }
    if (hit) {
      ++hits;
      ctx.check(got.has_value(), "memo: a remembered counterexample still works but none was reported");
      genuine(ctx, p, *got, "memo");
    } else {
      const auto &expected = expectedCalls < script.size() ? script[expectedCalls] : std::nullopt;
      ctx.check(got.has_value() == expected.has_value() &&
                (!got || (got->getWord() == expected->getWord() && got->getDurations() == expected->getDurations())),
                "memo: not the wrapped oracle's answer");
      if (expected) {
        known.push_back(pool[expectedCalls]);
      }
      ++expectedCalls;
    }
    ctx.check(calls == expectedCalls, "memo: asked the wrapped oracle " + std::to_string(calls) + " times instead of " +
                                      std::to_string(expectedCalls));
    std::ostringstream os;
    oracle.printStatistics(os);
    ctx.check(oracle.numEqQueries() == queries, "memo: wrong number of queries");
    ctx.check(os.str() == "Number of equivalence queries: " + std::to_string(queries) +
                          "\nNumber of equivalence queries (with cache): " + std::to_string(expectedCalls) + "\n",
              "memo: wrong statistics: " + os.str());
    p.hypothesis = mutant(ctx, ctx.src.coin() ? p.target : p.hypothesis, o, p.alphabet);
    ctx.note("next hypothesis " + ref::show(p.hypothesis));
  }
  if (hits > 0) {
    ctx.label("a remembered counterexample was reused");
    ctx.nontrivialNote();
  }
}

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C03";
  info.rule = "Pairs (histories) of a random target and a random or mutated hypothesis, test suites of timed words, and scripted "
              "member oracles; non-trivial: the automata differ (suite: on a word of the suite; memo: a remembered word was "
              "reused; chain: two members); distinct by input";
  info.assumptions = {"whether two automata differ is decided by region-graph search (3 locations, 2 to 3 clocks)",
                      "random tests: a difference hit with probability >= 1/2 by each of 120 tests is missed with probability 2^-120"};
  info.subs = {sub("exact", 80000, 1000000, exact), sub("reused", 30000, 400000, reused), sub("suite", 100000, 1000000, testSuite),
               sub("random", 30000, 300000, randomTests), sub("chain", 100000, 500000, chain), sub("memo", 80000, 800000, memo),
               sub("silent", 100000, 1000000, silent)};
  return pbt::checkMain(argc, argv, info);
}
