// Pieces shared by the checks of the equivalence oracles (C02, C03)
#pragma once

#include "common.hh"
#include "nondet.hh"
#include "equivalance_oracle_chain.hh"
#include "equivalence_oracle_by_random_test.hh"
#include "equivalence_oracle_by_test.hh"
#include "equivalence_oracle_memo.hh"
#include "timed_automata_equivalence_oracle.hh"

namespace oracles {

struct Pair {
  std::vector<char> alphabet;
  ref::RefTA target, hypothesis;
  std::optional<ref::Found> difference; // a shortest word on which they differ
};

//! Mutate an automaton a little, so that it is similar to the original
inline ref::RefTA mutant(pbt::Ctx &ctx, const ref::RefTA &a, const gen::TAOptions &o, const std::vector<char> &alphabet) {
  ref::RefTA h = a;
  for (int n = ctx.src.range(0, 2); n > 0; --n) {
    // Rarely the acceptance of the initial location: the shortest of all differences
    const int kind = static_cast<int>(ctx.src.draw(4));
    const bool avoid = kind == 0 && h.locs.size() > 1 && !ctx.src.chance(1, 5);
    auto &l = avoid ? h.locs[1 + ctx.src.draw(h.locs.size() - 1)] : h.locs[ctx.src.draw(h.locs.size())];
    switch (kind) {
      case 0:
        l.accepting = !l.accepting;
        break;
      case 1: {
        std::vector<ref::Edge> out;
        gen::splitGuards(ctx.src, o, h.clocks, static_cast<int>(h.locs.size()), 0, {}, out);
        l.next[ctx.src.pick(alphabet)] = out;
        break;
      }
      case 2:
        for (auto &[c, es]: l.next) {
          if (!es.empty() && ctx.src.coin()) {
            es[ctx.src.draw(es.size())].resets = gen::resets(ctx.src, h.clocks, o);
          }
        }
        break;
      default:
        for (auto &[c, es]: l.next) {
          if (!es.empty() && ctx.src.coin()) {
            es[ctx.src.draw(es.size())].target = static_cast<int>(ctx.src.draw(h.locs.size()));
          }
        }
        break;
    }
  }
  return h;
}

inline Pair generate(pbt::Ctx &ctx, bool threeClocks = false) {
  auto o = gen::flavour(ctx.src, smallAutomata());
  o.maxLocs = 3;
  o.maxConst = ctx.src.range(1, 3);
  if (threeClocks) {
    o.maxClocks = 3;
    o.maxConst = 2;
  }
  Pair p;
  p.alphabet = gen::alphabetOf(ctx.src.range(1, 2));
  p.target = gen::automaton(ctx.src, o, p.alphabet);
  p.hypothesis = ctx.src.chance(1, 4) ? gen::automaton(ctx.src, o, p.alphabet) : mutant(ctx, p.target, o, p.alphabet);
  if (!ctx.src.chance(1, 6)) {
    p.hypothesis.locs[0].accepting = p.target.locs[0].accepting;
  }
  ctx.note("target " + ref::show(p.target) + "hypothesis " + ref::show(p.hypothesis));
  const auto e = ref::equivalent(p.target, p.hypothesis, p.alphabet);
  if (e.capped) {
    ctx.label("state limit of the reference exploration hit");
    ctx.discard();
  }
  p.difference = e.found;
  ctx.label(e.found ? "different, shortest counterexample of length " + std::to_string(std::min<std::size_t>(5, e.found->word.size())) : "equal");
  return p;
}

inline std::unique_ptr<learnta::ComplementTimedAutomataEquivalenceOracle> exactOracle(const ref::RefTA &target, const std::vector<char> &alphabet,
                                                                             bool simplify) {
  const std::vector<learnta::Alphabet> alpha(alphabet.begin(), alphabet.end());
  const auto ta = ref::build(target);
  auto complement = ta.complement(alpha);
  if (simplify) {
    complement.simplifyStrong();
    complement.simplifyWithZones();
  }
  return std::make_unique<learnta::ComplementTimedAutomataEquivalenceOracle>(ta, complement, alpha);
}

inline std::string str(const learnta::TimedWord &w) { return showWord(w.getWord(), w.getDurations()); }

//! The word is a timed word over the alphabet on which the two automata differ
inline void genuine(pbt::Ctx &ctx, const Pair &p, const learnta::TimedWord &w, const std::string &oracle) {
  ctx.check(w.getDurations().size() == w.getWord().size() + 1, oracle + ": a counterexample with a wrong number of durations");
  for (double d: w.getDurations()) {
    ctx.check(d >= 0, oracle + ": a counterexample with a negative duration: " + str(w));
  }
  for (char c: w.getWord()) {
    ctx.check(std::find(p.alphabet.begin(), p.alphabet.end(), c) != p.alphabet.end(),
              oracle + ": a counterexample with a foreign action: " + str(w));
  }
  ctx.check(ref::accepts(p.target, w) != ref::accepts(p.hypothesis, w),
            oracle + ": both automata agree on the counterexample " + str(w));
}

//! Where the two automata first differ along a word, as (word, durations)
inline std::optional<std::pair<std::string, std::vector<double>>>
firstDifference(const ref::RefTA &a, const ref::RefTA &b, const std::string &w, const std::vector<double> &d) {
  auto ca = ref::start(a), cb = ref::start(b);
  for (std::size_t k = 0; k <= w.size(); ++k) {
    ref::delay(ca, d[k]);
    ref::delay(cb, d[k]);
    if (ref::accepting(a, ca) != ref::accepting(b, cb)) {
      return std::make_pair(w.substr(0, k), std::vector<double>(d.begin(), d.begin() + k + 1));
    }
    if (k < w.size()) {
      ref::act(a, ca, w[k]);
      ref::act(b, cb, w[k]);
      if (ref::accepting(a, ca) != ref::accepting(b, cb)) {
        std::vector<double> dd(d.begin(), d.begin() + k + 1);
        dd.push_back(0);
        return std::make_pair(w.substr(0, k + 1), dd);
      }
    }
  }
  return std::nullopt;
}

struct SilentSuite {
  ref::RefTA target, hypothesis;
  std::vector<char> alphabet;
  std::vector<std::pair<std::string, std::vector<double>>> words;
  std::vector<bool> differs; // somewhere along the first so many words
};

//! Automata with unobservable transitions taken as soon as they are enabled, and words on which nothing happens at the end of a delay
inline SilentSuite silentSuite(pbt::Ctx &ctx, int maxWords) {
  auto o = gen::flavour(ctx.src, smallAutomata());
  o.constants = o.copies = false;
  o.minLocs = 2;
  o.maxConst = 2;
  SilentSuite p;
  p.alphabet = gen::alphabetOf(ctx.src.range(1, 2));
  p.target = gen::automaton(ctx.src, o, p.alphabet);
  p.hypothesis = ctx.src.chance(1, 3) ? gen::automaton(ctx.src, o, p.alphabet) : p.target;
  const int which = static_cast<int>(ctx.src.draw(3));
  if (which != 1) {
    nondet::addUrgent(ctx.src, p.target, o);
  }
  if (which != 0) {
    nondet::addUrgent(ctx.src, p.hypothesis, o);
  }
  p.hypothesis.locs[0].accepting = p.target.locs[0].accepting;
  ctx.note("target " + ref::show(p.target) + "hypothesis " + ref::show(p.hypothesis));
  bool differs = false;
  for (int i = ctx.src.range(1, maxWords); i > 0; --i) {
    const auto [w, d] = gen::guidedWord(ctx.src, ctx.src.coin() ? p.target : p.hypothesis, p.alphabet, 4, 4);
    nondet::Urgent t{p.target}, h{p.hypothesis};
    bool open = false, different = false;
    for (std::size_t k = 0; k <= w.size() && !open; ++k) {
      open = !t.delay(d[k]) || !h.delay(d[k]);
      different = different || t.accepting() != h.accepting();
      if (k < w.size() && !open) {
        t.act(w[k]);
        h.act(w[k]);
        different = different || t.accepting() != h.accepting();
      }
    }
    if (!open) {
      differs = differs || different;
      p.words.emplace_back(w, d);
      p.differs.push_back(differs);
      ctx.note("word " + showWord(w, d));
    }
  }
  return p;
}

//! An oracle that plays back prepared answers and counts its calls
struct Scripted : public learnta::EquivalenceOracle {
  std::vector<std::optional<learnta::TimedWord>> answers;
  std::size_t *calls;

  Scripted(std::vector<std::optional<learnta::TimedWord>> answers, std::size_t *calls)
          : answers(std::move(answers)), calls(calls) {}

  std::optional<learnta::TimedWord> findCounterExample(const learnta::TimedAutomaton &) override {
    ++eqQueryCount;
    const std::size_t i = (*calls)++;
    return i < answers.size() ? answers[i] : std::nullopt;
  }
};

//! A target with several clocks on which learning is known to terminate, and its alphabet
inline std::pair<ref::RefTA, std::vector<char>> learnable(pbt::Ctx &ctx) {
  static const std::vector<std::string> lines = [] {
    std::vector<std::string> v;
    const char *other = getenv("C01_CORPUS"); // for building the corpus
    std::ifstream in(other ? other : "corpus/C01.txt");
    std::string line;
    while (std::getline(in, line)) {
      if (!line.empty() && line[0] != '#') {
        v.push_back(line);
      }
    }
    return v;
  }();
  ctx.check(!lines.empty(), "corpus/C01.txt is missing");
  const auto &line = lines[ctx.src.forced(lines.size(), ctx.caseIndex)];
  const auto sp = line.find(' ');
  return {ref::parse(line.substr(sp + 1)), std::vector<char>(line.begin(), line.begin() + static_cast<long>(sp))};
}

} // namespace oracles
