// C07: the zone automaton decides emptiness, and a sampled word is accepted by the automaton.
#include "common.hh"
#include "intersection.hh"
#include "nondet.hh"
#include "ta2za.hh"

using namespace learnta;
using StateMap = boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>>;

static void wellFormed(pbt::Ctx &ctx, const std::optional<TimedWord> &w, const std::vector<char> &alphabet) {
  if (!w) {
    return;
  }
  ctx.check(w->getDurations().size() == w->getWord().size() + 1, "a sampled word with a wrong number of durations");
  for (double d: w->getDurations()) {
    ctx.check(d >= 0, "a sampled word with a negative duration");
  }
  for (char c: w->getWord()) {
    ctx.check(std::find(alphabet.begin(), alphabet.end(), c) != alphabet.end(), "a sampled word with a foreign action");
  }
}

static std::string str(const std::optional<TimedWord> &w) { return w ? showWord(w->getWord(), w->getDurations()) : "none"; }

static std::set<int> locationsOf(pbt::Ctx &ctx, const nondet::NTA &a) {
  const auto locations = nondet::reachable(a);
  if (!locations) {
    ctx.label("state limit of the reference exploration hit");
    ctx.discard();
  }
  return *locations;
}

//! The completely explored zone automaton has states for exactly the reachable locations
static void sameLocations(pbt::Ctx &ctx, const std::set<int> &locations, const TimedAutomaton &ta, const ZoneAutomaton &za) {
  for (std::size_t l = 0; l < ta.states.size(); ++l) {
    const bool has = std::any_of(za.states.begin(), za.states.end(), [&](const auto &s) { return s->taState == ta.states[l].get(); });
    ctx.check(has == (locations.count(static_cast<int>(l)) > 0), "location " + std::to_string(l) + (has ? " is in the zone automaton but not reachable"
                                                                                                    : " is reachable but not in the zone automaton"));
  }
}

static void judge(pbt::Ctx &ctx, const ref::RefTA &a, const std::vector<char> &alphabet, const TimedAutomaton &ta,
                  int mode) {
  std::optional<TimedWord> w;
  ZoneAutomaton za;
  switch (mode) {
    case 0:
      ta2za(ta, za);
      w = za.sampleWithMemo();
      break;
    case 1:
      ta2za(ta, za, false);
      sameLocations(ctx, locationsOf(ctx, nondet::NTA{a, {a.initial}}), ta, za);
      w = za.sample();
      break;
    case 2:
      ta2za(ta, za, true);
      w = za.sample();
      break;
    default:
      ta2za(ta, za, false);
      za.removeDeadStates();
      w = za.sample();
      break;
  }
  const auto e = ref::explore({&a}, alphabet, [](auto &acc) { return !acc[0]; });
  if (e.capped) {
    ctx.label("state limit of the reference exploration hit");
    ctx.discard();
  }
  wellFormed(ctx, w, alphabet);
  if (w) {
    ctx.check(ref::accepts(a, *w), "the sampled word " + str(w) + " is not accepted");
    const auto again = za.sampleWithMemo();
    ctx.check(again && ref::accepts(a, *again), "the memorized sample " + str(again) + " is not accepted");
  }
  if (e.found) {
    ctx.check(w.has_value(), "no word was sampled but " + e.found->str() + " is accepted");
  }
  ctx.label(e.found ? "non-empty, shortest word of length " + std::to_string(std::min<std::size_t>(e.found->word.size(), 5)) : "empty");
}

//! One accepting location away from the initial one, so that timing decides
static void sparse(pbt::Ctx &ctx, ref::RefTA &a) {
  if (ctx.src.chance(1, 5)) {
    return;
  }
  const std::size_t acc = a.locs.size() - 1 - ctx.src.draw(a.locs.size());
  for (std::size_t i = 0; i < a.locs.size(); ++i) {
    a.locs[i].accepting = i == acc && i != 0;
  }
}

static void single(pbt::Ctx &ctx) {
  auto o = gen::flavour(ctx.src, smallAutomata());
  o.minLocs = 2;
  if (ctx.src.chance(1, 3)) {
    o.maxClocks = 3;
    o.maxLocs = 5;
  }
  auto g = gen::automaton(ctx.src, o);
  sparse(ctx, g.ta);
  const int mode = static_cast<int>(ctx.src.draw(4));
  ctx.note("mode " + std::to_string(mode) + "\n" + ref::show(g.ta));
  judge(ctx, g.ta, g.alphabet, ref::build(g.ta), mode);
  if (!g.ta.locs[0].accepting && g.ta.edges() >= 2) {
    ctx.nontrivialNote();
  }
}

static void products(pbt::Ctx &ctx) {
  auto o = gen::flavour(ctx.src, smallAutomata());
  o.maxLocs = 3;
  o.maxConst = 2;
  const auto alphabet = gen::alphabetOf(ctx.src.range(1, 2));
  auto a = gen::automaton(ctx.src, o, alphabet);
  auto b = gen::automaton(ctx.src, o, alphabet);
  sparse(ctx, a);
  sparse(ctx, b);
  const int mode = static_cast<int>(ctx.src.draw(4));
  ctx.note("mode " + std::to_string(mode) + "\nleft " + ref::show(a) + "right " + ref::show(b));
  TimedAutomaton product;
  StateMap map;
  const auto ta = ref::build(a), tb = ref::build(b);
  intersectionTA(ta, tb, product, map);
  const auto r = toRef(ctx, product, "the product");
  judge(ctx, r, alphabet, product, mode);
  if (a.edges() >= 2 && b.edges() >= 2) {
    ctx.nontrivialNote();
  }
}

//! A chain of transitions with narrow guards on clocks reset at different times: reachability depends on differences
static void chains(pbt::Ctx &ctx) {
  ref::RefTA a;
  a.clocks = ctx.src.range(1, 3);
  const int n = ctx.src.range(2, 5);
  // Every clock has its own maximal constant
  std::vector<int> K;
  for (int x = 0; x < a.clocks; ++x) {
    K.push_back(ctx.src.range(1, 4));
  }
  a.locs.resize(n + 1);
  a.initial = 0;
  a.locs[n].accepting = true;
  const bool copies = ctx.src.chance(1, 2), loops = ctx.src.chance(1, 2);
  const std::vector<char> alphabet = {'a', 'b'};
  const auto edge = [&](int target) {
    ref::Edge e;
    e.target = target;
    for (int k = ctx.src.range(0, 2); k > 0; --k) {
      const int x = static_cast<int>(ctx.src.draw(a.clocks));
      const int c = ctx.src.range(0, K[x]);
      switch (ctx.src.draw(4)) {
        case 0:
          e.guard.push_back({x, ref::Cmp::le, c});
          break;
        case 1:
          e.guard.push_back({x, ref::Cmp::ge, c});
          break;
        case 2:
          e.guard.push_back({x, ref::Cmp::gt, c});
          e.guard.push_back({x, ref::Cmp::lt, c + 1});
          break;
        default:
          e.guard.push_back({x, ref::Cmp::ge, c});
          e.guard.push_back({x, ref::Cmp::le, c});
          break;
      }
    }
    for (int x = 0; x < a.clocks; ++x) {
      switch (ctx.src.draw(5)) {
        case 1:
        case 2:
          e.resets.push_back({x, false, 0, 0.0});
          break;
        case 3:
          if (copies) {
            e.resets.push_back({x, true, static_cast<int>(ctx.src.draw(a.clocks)), 0.0});
          }
          break;
        case 4:
          if (copies) {
            e.resets.push_back({x, false, 0, static_cast<double>(ctx.src.range(0, K[x]))});
          }
          break;
        default:
          break;
      }
    }
    return e;
  };
  for (int i = 0; i < n; ++i) {
    a.locs[i].next['a'].push_back(edge(i + 1));
    if (loops && ctx.src.coin()) {
      a.locs[i].next['b'].push_back(edge(static_cast<int>(ctx.src.draw(i + 1))));
    }
  }
  const int mode = static_cast<int>(ctx.src.draw(4));
  ctx.note("mode " + std::to_string(mode) + "\n" + ref::show(a));
  judge(ctx, a, alphabet, ref::build(a), mode);
  ctx.nontrivialNote();
}

//! Several initial states, overlapping guards, unobservable transitions
static void choice(pbt::Ctx &ctx) {
  auto o = gen::flavour(ctx.src, smallAutomata());
  o.minLocs = 2;
  const auto alphabet = gen::alphabetOf(ctx.src.range(1, 2));
  const bool silent = ctx.src.coin();
  auto a = nondet::automaton(ctx.src, o, alphabet, silent);
  sparse(ctx, a.ta);
  const int mode = static_cast<int>(ctx.src.draw(4));
  ctx.note("mode " + std::to_string(mode) + "\n" + nondet::show(a));
  ZoneAutomaton za;
  const auto ta = nondet::build(a);
  ta2za(ta, za, mode != 1);
  if (mode == 3) {
    za.removeDeadStates();
  }
  const auto w = mode == 0 ? za.sampleWithMemo() : za.sample();
  const auto locations = locationsOf(ctx, a);
  const bool expected = std::any_of(locations.begin(), locations.end(), [&](int l) { return a.ta.locs[l].accepting; });
  if (mode == 1) {
    sameLocations(ctx, locations, ta, za);
  }
  wellFormed(ctx, w, alphabet);
  ctx.check(w.has_value() == expected, expected ? "no word was sampled though an accepting location is reachable"
                                                  : "a word was sampled though no accepting location is reachable: " + str(w));
  if (w && !a.ta.hasSilent()) {
    ctx.check(nondet::accepts(a, w->getWord(), w->getDurations()), "the sampled word " + str(w) + " is not accepted");
  }
  ctx.label(std::string(expected ? "non-empty" : "empty") + (a.ta.hasSilent() ? ", unobservable transitions" : ""));
  if (a.initials.size() != 1 || a.ta.edges() >= 2) {
    ctx.nontrivialNote();
  }
}

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C07";
  info.rule = "Random automata with few accepting locations, products of two automata, and chains of narrow guards on clocks "
              "reset at different times, each through one of four ways of building and sampling the zone automaton; "
              "non-trivial: the initial location is not accepting and there are at least two transitions; distinct by input";
  info.assumptions = {"automata without unobservable transitions; resets to integer constants and other clocks",
                      "emptiness is decided by region-graph search, up to 3 clocks (4 in products), constants up to 5"};
  info.subs = {sub("single", 150000, 2000000, single), sub("products", 50000, 600000, products),
               sub("chains", 200000, 2000000, chains), sub("choice", 100000, 1500000, choice)};
  return pbt::checkMain(argc, argv, info);
}
