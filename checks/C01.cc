// C01: a learned automaton recognizes exactly the target language.
#include "oracles.hh"
#include "learner.hh"

using namespace learnta;

namespace {

using Word = std::pair<std::string, std::vector<double>>;

/*!
 * An exact teacher that is independent of the library. Depending on its mode, it answers with a shortest counterexample or
 * with a word found by steered random walks, cut where target and hypothesis first differ.
 */
struct Teacher : public EquivalenceOracle {
  pbt::Ctx &ctx;
  const ref::RefTA &target;
  const std::vector<char> &alphabet;
  bool randomized;
  std::size_t limit;

  Teacher(pbt::Ctx &ctx, const ref::RefTA &target, const std::vector<char> &alphabet, bool randomized, std::size_t limit)
          : ctx(ctx), target(target), alphabet(alphabet), randomized(randomized), limit(limit) {}

  std::optional<TimedWord> findCounterExample(const TimedAutomaton &hypothesis) override {
    ++eqQueryCount;
    const auto h = toRef(ctx, hypothesis, "a conjecture");
    if (h.hasSilent()) {
      ctx.label("a conjecture with unobservable transitions");
      ctx.discard();
    }
    const auto e = ref::equivalent(target, h, alphabet);
    if (e.capped) {
      ctx.label("state limit of the reference exploration hit");
      ctx.discard();
    }
    if (!e.found) {
      return std::nullopt;
    }
    if (e.found->reason != "acceptance") {
      ctx.fail("a conjecture is not deterministic: " + e.found->reason + "\n" + ref::show(h));
    }
    ctx.check(eqQueryCount <= limit, "no result after " + std::to_string(limit) + " equivalence queries");
    Word word{e.found->word, e.found->durations};
    if (randomized) {
      for (int i = 0; i < 20; ++i) {
        const auto [w, d] = gen::guidedWord(ctx.src, ctx.src.coin() ? target : h, alphabet,
                                            static_cast<int>(e.found->word.size()) + 2, target.maxConstant() + 2);
        if (const auto diff = oracles::firstDifference(target, h, w, d)) {
          word = *diff;
          break;
        }
      }
    }
    return TimedWord{word.first, word.second};
  }
};

enum Mode { kShortest, kRandomized, kLibrary, kSimplified, kChain, kModes };

std::unique_ptr<EquivalenceOracle> teacher(pbt::Ctx &ctx, int mode, const ref::RefTA &target, const std::vector<char> &alphabet) {
  if (mode == kShortest || mode == kRandomized) {
    return std::make_unique<Teacher>(ctx, target, alphabet, mode == kRandomized, 150);
  }
  std::unique_ptr<EquivalenceOracle> exact = oracles::exactOracle(target, alphabet, mode != kLibrary);
  if (mode != kChain) {
    return std::make_unique<EquivalenceOracleMemo>(std::move(exact), ref::build(target));
  }
  auto suite = std::make_unique<EquivalenceOracleByTest>(ref::build(target));
  for (int i = ctx.src.range(1, 5); i > 0; --i) {
    const auto [w, d] = gen::guidedWord(ctx.src, target, alphabet, 4, target.maxConstant() + 2);
    ctx.note("suite: " + showWord(w, d));
    suite->push_back(TimedWord{w, d});
  }
  auto chain = std::make_unique<EquivalenceOracleChain>();
  chain->push_back(std::move(suite));
  chain->push_back(std::move(exact));
  return std::make_unique<EquivalenceOracleMemo>(std::move(chain), ref::build(target));
}

void learn(pbt::Ctx &ctx, const ref::RefTA &target, const std::vector<char> &alphabet, int mode) {
  static const char *names[] = {"reference teacher", "reference teacher with random counterexamples", "exact oracle",
                                "exact oracle, simplified", "chain of suite and exact oracle"};
  ctx.note(names[mode]);
  const std::vector<Alphabet> sigma(alphabet.begin(), alphabet.end());
  Learner learner{sigma,
                  std::make_unique<SymbolicMembershipOracle>(std::make_unique<TimedAutomatonRunner>(ref::build(target))),
                  teacher(ctx, mode, target, alphabet)};
  const auto result = learner.run();
  const auto r = toRef(ctx, result, "the result");
  if (r.hasSilent()) {
    ctx.label("a result with unobservable transitions");
    ctx.discard();
  }
  verdict(ctx, ref::equivalent(target, r, alphabet), "the learned automaton differs from the target", &r);
  const auto queries = learner.numEqQueries();
  ctx.label("equivalence queries: " + std::string(queries < 3 ? std::to_string(queries) : queries < 6 ? "3 to 5" : "6 or more"));
  if (queries > 1) {
    ctx.nontrivialNote();
  }
  ctx.note("equivalence queries: " + std::to_string(queries));
}

gen::TAOptions options(int clocks) {
  gen::TAOptions o;
  o.minClocks = o.maxClocks = clocks;
  o.maxLocs = 3;
  o.maxConst = 2;
  return o;
}

void oneClock(pbt::Ctx &ctx) {
  auto o = options(1);
  o.minLocs = 2;
  o.redundantGuards = ctx.src.chance(1, 4);
  const auto g = gen::automaton(ctx.src, o);
  const int mode = static_cast<int>(ctx.src.draw(kModes));
  ctx.note(ref::show(g.ta));
  learn(ctx, g.ta, g.alphabet, mode);
}

//! Targets outside of the class on which learning is known to terminate: whatever is learned is right
void others(pbt::Ctx &ctx) {
  auto o = options(ctx.src.range(1, 2));
  o.constants = o.maxClocks == 1 || ctx.src.chance(1, 6);
  o.copies = ctx.src.chance(1, 6);
  const auto g = gen::automaton(ctx.src, o);
  const int mode = static_cast<int>(ctx.src.draw(kModes));
  ctx.note(ref::show(g.ta));
  learn(ctx, g.ta, g.alphabet, mode);
}

void pool(pbt::Ctx &ctx) {
  const auto [target, alphabet] = oracles::learnable(ctx);
  ctx.note(ref::show(target));
  learn(ctx, target, alphabet, static_cast<int>(ctx.src.draw(kModes)));
}

} // namespace

int main(int argc, char **argv) {
  quietLibrary();
  if (argc > 2 && std::string(argv[1]) == "dump") {
    // The automaton of case N of a sub-check, for building the corpus
    auto *sh = pbt::mapShared();
    const uint64_t seed = strtoull(argv[3], nullptr, 10);
    pbt::Ctx ctx(sh, pbt::mix(pbt::mix(seed, 77), strtoull(argv[4], nullptr, 10)));
    auto o = options(atoi(argv[2]));
    if (atoi(argv[2]) > 2) {
      o.maxConst = 1;
    }
    o.minLocs = 2;
    o.copies = ctx.src.chance(1, 4);
    const auto g = gen::automaton(ctx.src, o);
    std::cout << std::string(g.alphabet.begin(), g.alphabet.end()) << " " << ref::dump(g.ta) << std::endl;
    return 0;
  }
  pbt::CheckInfo info;
  info.property = "C01";
  info.rule = "Random one- and two-clock targets and a pool of targets with several clocks, each learned to the end with one of five "
              "teachers (reference teacher with shortest or random counterexamples, the library's exact oracle with and without "
              "simplified complement, chain of suite and exact oracle); non-trivial: more than one equivalence query; distinct by target "
              "and teacher";
  info.assumptions = {"the learned automaton is compared with the target by region-graph search",
                      "random two-clock targets: not terminating within the CPU limit is inconclusive, because the learner is known not to "
                      "terminate on some of them; one-clock targets and the pool have to terminate"};
  info.subs = {sub("one", 1600, 20000, oneClock, 60), sub("pool", 1000, 10000, pool, 40), sub("others", 300, 8000, others, 3)};
  for (auto &s: info.subs) {
    s.quick.isolate = s.thorough.isolate = true;
    s.thorough.wallBudget = 600;
  }
  if (argc > 2 && std::string(argv[1]) == "probe") {
    // Whether learning line N of the corpus succeeds with all teachers within 1.5 s, for building the corpus
    auto c = info.subs[1].quick;
    c.caseCpu = 1.5;
    pbt::Runner r(c, pool, 1, false, "/tmp");
    const uint32_t line = strtoul(argv[2], nullptr, 10), reps = argc > 3 ? strtoul(argv[3], nullptr, 10) : 20;
    std::size_t queries = 0;
    for (uint32_t rep = 0; rep < reps; ++rep) {
      std::vector<uint32_t> choices = {line, rep % kModes};
      uint64_t state = rep;
      for (int i = 0; i < 2000; ++i) {
        choices.push_back(static_cast<uint32_t>(pbt::splitmix(state) >> 33));
      }
      const auto o = r.runOnce(choices);
      const auto p = o.note.rfind("equivalence queries: ");
      queries = std::max(queries, p == std::string::npos ? 0 : strtoul(o.note.c_str() + p + 21, nullptr, 10));
      if (o.kind != pbt::kPassed) {
        std::cout << "bad " << line << " " << o.message << std::endl;
        return 0;
      }
    }
    std::cout << "ok " << line << " " << queries << std::endl;
    return 0;
  }
  info.subs.back().quick.timeoutFails = info.subs.back().thorough.timeoutFails = false;
  return pbt::checkMain(argc, argv, info);
}
