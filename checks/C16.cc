// C16: hypotheses and the analysis of counterexamples agree with the observation table.
#include "oracles.hh"
#include "learner.hh"
#include "observation_table.hh"

using namespace learnta;

namespace {

using Word = std::pair<std::string, std::vector<double>>;

std::string str(const TimedWord &w) { return showWord(w.getWord(), w.getDurations()); }

//! A word along the runs of the target or the hypothesis
TimedWord someWord(pbt::Ctx &ctx, const ref::RefTA &target, const ref::RefTA &h, const std::vector<char> &alphabet) {
  const auto [w, d] = gen::guidedWord(ctx.src, ctx.src.coin() ? target : h, alphabet, 4, target.maxConstant() + 2);
  return TimedWord{w, d};
}

//! The words to which a word is mapped one after the other, and the suffixes kept in each step
struct Chain {
  std::vector<TimedWord> words, suffixes;
};

Chain chain(pbt::Ctx &ctx, const ref::RefTA &target, const RecognizableLanguage &language, const TimedWord &word) {
  Chain c;
  c.words.push_back(word);
  while (!language.inPrefixes(c.words.back())) {
    const auto now = c.words.back();
    ctx.check(c.words.size() < 200, "mapping " + str(word) + " does not end");
    const auto triple = language.split(now);
    REQUIRE(ctx, triple, "no prefix of " + str(now) + " can be mapped");
    REQUIRE(ctx, triple->prefix + triple->suffix == now,
            "the parts of " + str(now) + " are " + str(triple->prefix) + " and " + str(triple->suffix));
    REQUIRE(ctx, triple->morphism.inDomain(triple->prefix),
            "the prefix " + str(triple->prefix) + " of " + str(now) + " is not in the domain");
    const auto image = triple->morphism.maps(triple->prefix);
    for (double d: image.getDurations()) {
      ctx.check(d >= 0, "the image " + str(image) + " has a negative duration");
    }
    REQUIRE(ctx, language.inPrefixes(image), "the image " + str(image) + " of " + str(triple->prefix) + " is no prefix");
    REQUIRE(ctx, ref::accepts(target, image) == ref::accepts(target, triple->prefix),
            "the image " + str(image) + " of " + str(triple->prefix) + " differs in membership");
    c.suffixes.push_back(triple->suffix);
    c.words.push_back(triple->apply());
    REQUIRE(ctx, c.words.back() == image + triple->suffix,
            "applying to " + str(triple->prefix) + " and " + str(triple->suffix) + " gives " + str(c.words.back()));
  }
  return c;
}

//! What the analysis of the word returns
void analyze(pbt::Ctx &ctx, const ref::RefTA &target, const RecognizableLanguage &language, const TimedWord &word) {
  const auto c = chain(ctx, target, language, word);
  SymbolicMembershipOracle oracle{std::make_unique<TimedAutomatonRunner>(ref::build(target))};
  std::vector<BackwardRegionalElementaryLanguage> known;
  for (int k = ctx.src.range(0, 3); k > 0; --k) {
    const auto from = ctx.src.coin() || c.suffixes.empty() ? word : ctx.src.pick(c.suffixes);
    auto d = from.getDurations();
    if (ctx.src.chance(1, 3)) {
      d[ctx.src.draw(d.size())] += 0.25;
    }
    known.push_back(BackwardRegionalElementaryLanguage::fromTimedWord(TimedWord{from.getWord(), d}));
  }
  const auto fresh = [&](const TimedWord &s) {
    return std::none_of(known.begin(), known.end(), [&](const auto &l) { return l.contains(s); });
  };
  const auto result = analyzeCEX(word, oracle, language, known);
  bool possible = false, found = false;
  for (std::size_t i = 0; i < c.suffixes.size(); ++i) {
    const bool separates = ref::accepts(target, c.words[i]) != ref::accepts(target, c.words[i + 1]) && fresh(c.suffixes[i]);
    possible = possible || separates;
    found = found || (separates && result && *result == c.suffixes[i]);
  }
  ctx.label(possible ? "analysis: a fresh suffix separates" : "analysis: no fresh suffix separates");
  REQUIRE(ctx, found == possible && result.has_value() == possible,
          "the analysis of " + str(word) + " gives " + (result ? "the suffix " + str(*result) + ", which is not fresh or does not separate" :
                                                       "nothing, but a fresh suffix separates"));
}

void check(pbt::Ctx &ctx, const ref::RefTA &target, const std::vector<char> &alphabet, int rounds) {
  const std::vector<Alphabet> sigma(alphabet.begin(), alphabet.end());
  ObservationTable table{sigma, std::make_unique<SymbolicMembershipOracle>(std::make_unique<TimedAutomatonRunner>(ref::build(target)))};
  const auto member = [&](const TimedWord &w) { return ref::accepts(target, w); };
  const bool randomized = ctx.src.coin();
  for (int round = 0; round < rounds; ++round) {
    for (int k = 0; !(table.close() && table.consistent() && table.exteriorConsistent() && table.timeSaturate()); ++k) {
    }
    REQUIRE(ctx, table.close(), "a closed table is changed by closing it");
    const auto hypothesis = table.generateHypothesis();
    const auto language = table.toRecognizable();
    const auto h = toRef(ctx, hypothesis, "a hypothesis");
    if (h.hasSilent()) {
      ctx.label("a hypothesis with unobservable transitions");
      ctx.discard();
    }
    std::optional<TimedWord> other;
    for (int k = 0; k < 20; ++k) {
      const auto word = someWord(ctx, target, h, alphabet);
      const auto c = chain(ctx, target, language, word);
      const auto &now = c.words.back();
      ctx.label("mapped " + std::string(c.suffixes.empty() ? "never" : c.suffixes.size() == 1 ? "once" : "several times"));
      const bool right = member(now);
      REQUIRE(ctx, language.isFinal(now) == right, "the prefix " + str(now) + " is classified wrongly");
      REQUIRE(ctx, language.contains(word) == right, "contains and repeated mapping disagree on " + str(word));
      REQUIRE(ctx, ref::accepts(h, word) == right,
              "the hypothesis does not classify " + str(word) + " like the prefix " + str(now) + " it is mapped to\n" + ref::show(h));
      if (right != member(word)) {
        other = word;
      }
    }
    const auto e = ref::equivalent(target, h, alphabet);
    if (e.capped) {
      ctx.discard();
    }
    if (round > 0) {
      ctx.nontrivialNote();
    }
    if (!e.found) {
      ctx.check(!other, "the hypothesis is right, but not on " + (other ? str(*other) : ""));
      ctx.label("rounds: " + std::to_string(std::min(round, 5)));
      return;
    }
    ctx.check(e.found->reason == "acceptance", "a hypothesis is not deterministic: " + e.found->reason + "\n" + ref::show(h));
    const TimedWord cex = randomized && other ? *other : TimedWord{e.found->word, e.found->durations};
    analyze(ctx, target, language, cex);
    table.handleCEX(cex);
  }
}

gen::TAOptions options(int clocks) {
  gen::TAOptions o;
  o.minClocks = o.maxClocks = clocks;
  o.maxLocs = 3;
  o.maxConst = 2;
  return o;
}

void oneClock(pbt::Ctx &ctx) {
  auto o = options(1);
  o.minLocs = 2;
  o.redundantGuards = ctx.src.chance(1, 4);
  const auto g = gen::automaton(ctx.src, o);
  ctx.note(ref::show(g.ta));
  check(ctx, g.ta, g.alphabet, 20);
}

//! The learner may not terminate on these, but its hypotheses agree with its tables
void others(pbt::Ctx &ctx) {
  auto o = options(ctx.src.range(1, 2));
  o.constants = o.maxClocks == 1 || ctx.src.chance(1, 6);
  o.copies = ctx.src.chance(1, 6);
  const auto g = gen::automaton(ctx.src, o);
  ctx.note(ref::show(g.ta));
  check(ctx, g.ta, g.alphabet, 6);
}

void pool(pbt::Ctx &ctx) {
  const auto [target, alphabet] = oracles::learnable(ctx);
  ctx.note(ref::show(target));
  check(ctx, target, alphabet, 20);
}

} // namespace

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C16";
  info.rule = "Observation tables of random one- and two-clock targets and of the pool of targets, refined by counterexamples round by round; in "
              "each round, the recognizable language, the hypothesis and the analysis of words are compared; non-trivial: a table refined "
              "by a counterexample; distinct by target";
  info.assumptions = {"the operations of closing and refining a table are called in the order in which the learner calls them",
                      "membership is decided by an independent simulator"};
  info.subs = {sub("one", 1600, 20000, oneClock, 60), sub("pool", 1000, 10000, pool, 40), sub("others", 800, 10000, others, 3)};
  for (auto &s: info.subs) {
    s.quick.isolate = s.thorough.isolate = true;
    s.thorough.wallBudget = 600;
  }
  info.subs.back().quick.timeoutFails = info.subs.back().thorough.timeoutFails = false;
  return pbt::checkMain(argc, argv, info);
}
