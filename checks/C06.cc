// C06: none of the simplifications changes the language.
#include "common.hh"
#include "intersection.hh"
#include "nondet.hh"

using namespace learnta;
using StateMap = boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>>;

static const char *const kNames[] = {"simplify", "simplifyStrong", "simplifyWithZones", "strong then zones",
                                     "zones then simplify", "removeTriviallyUnreachableStates", "removeTriviallyDeadStates",
                                     "removeDeadLoop", "removeUselessTransitions", "removeUnusedClockVariables",
                                     "simplifyTransitions", "twice strong"};

static void apply(TimedAutomaton &ta, int k) {
  switch (k) {
    case 0:
      ta.simplify();
      break;
    case 1:
      ta.simplifyStrong();
      break;
    case 2:
      ta.simplifyWithZones();
      break;
    case 3:
      ta.simplifyStrong();
      ta.simplifyWithZones();
      break;
    case 4:
      ta.simplifyWithZones();
      ta.simplify();
      break;
    case 5:
      ta.removeTriviallyUnreachableStates();
      break;
    case 6:
      ta.removeTriviallyDeadStates();
      break;
    case 7:
      ta.removeDeadLoop();
      break;
    case 8:
      ta.removeUselessTransitions();
      break;
    case 9:
      ta.removeUnusedClockVariables();
      break;
    case 10:
      ta.simplifyTransitions();
      break;
    default:
      ta.simplifyStrong();
      ta.simplifyStrong();
      break;
  }
}

//! Make states dead, unreachable or looping more often than chance would
static void degrade(pbt::Ctx &ctx, gen::Generated &g) {
  for (std::size_t i = 0; i < g.ta.locs.size(); ++i) {
    auto &l = g.ta.locs[i];
    switch (ctx.src.draw(6)) {
      case 1: // a trap
        l.accepting = false;
        for (auto &[a, es]: l.next) {
          for (auto &e: es) {
            e.target = static_cast<int>(i);
          }
        }
        break;
      case 2: // not accepting
        l.accepting = false;
        break;
      case 3: // duplicated transitions
        for (auto &[a, es]: l.next) {
          const auto copy = es;
          for (const auto &e: copy) {
            if (ctx.src.coin()) {
              es.push_back(e);
            }
          }
        }
        break;
      default:
        break;
    }
  }
}

static void check(pbt::Ctx &ctx, const gen::Generated &g, TimedAutomaton ta, int k) {
  const std::size_t before = ta.stateSize(), clocks = ta.clockSize();
  std::size_t edges = toRef(ctx, ta, "the input").edges();
  apply(ta, k);
  const auto r = toRef(ctx, ta, std::string("the result of ") + kNames[k]);
  verdict(ctx, ref::equivalent(g.ta, r, g.alphabet), std::string(kNames[k]) + " changed the language", &r);
  ctx.check(ta.stateSize() <= before && r.edges() <= edges && ta.clockSize() <= clocks,
            std::string(kNames[k]) + " made the automaton larger");
  if (ta.stateSize() < before || r.edges() < edges || ta.clockSize() < clocks) {
    ctx.label(std::string(kNames[k]) + ": reduced");
    ctx.nontrivial(pbt::hashStr(ref::show(g.ta) + kNames[k]));
  } else {
    ctx.label(std::string(kNames[k]) + ": unchanged");
  }
}

static void exact(pbt::Ctx &ctx) {
  auto o = gen::flavour(ctx.src, smallAutomata());
  if (ctx.src.chance(1, 4)) {
    o.maxClocks = 3;
    o.maxLocs = 5;
  }
  auto g = gen::automaton(ctx.src, o);
  degrade(ctx, g);
  const int k = static_cast<int>(ctx.src.draw(12));
  ctx.note(kNames[k] + std::string("\n") + ref::show(g.ta));
  check(ctx, g, ref::build(g.ta), k);
}

//! Products and complements have many dead states, unused clocks and redundant guards
static void products(pbt::Ctx &ctx) {
  auto o = gen::flavour(ctx.src, smallAutomata());
  o.maxLocs = 3;
  o.maxConst = 2;
  const auto alphabet = gen::alphabetOf(ctx.src.range(1, 2));
  const auto a = gen::automaton(ctx.src, o, alphabet);
  const auto b = gen::automaton(ctx.src, o, alphabet);
  const int k = static_cast<int>(ctx.src.draw(12));
  const bool complement = ctx.src.coin();
  ctx.note(kNames[k] + std::string(complement ? " on left and not right\nleft " : " on left and right\nleft ") +
           ref::show(a) + "right " + ref::show(b));
  TimedAutomaton product, tb = ref::build(b);
  const TimedAutomaton ta = ref::build(a);
  if (complement) {
    tb = tb.complement({alphabet.begin(), alphabet.end()});
  }
  StateMap map;
  intersectionTA(ta, tb, product, map);
  gen::Generated g;
  g.alphabet = alphabet;
  g.ta = toRef(ctx, product, "the product");
  check(ctx, g, product, k);
}

static void large(pbt::Ctx &ctx) {
  auto g = gen::automaton(ctx.src, gen::flavour(ctx.src, bigAutomata()));
  degrade(ctx, g);
  // Not the zone-based ones: the zone graph of the largest automata is too big
  const int k = static_cast<int>(ctx.src.draw(2));
  ctx.note(kNames[k] + std::string("\n") + ref::show(g.ta));
  auto ta = ref::build(g.ta);
  apply(ta, k);
  const auto r = toRef(ctx, ta, "the result");
  int accepted = 0;
  for (int i = 0; i < 25; ++i) {
    const auto [w, d] = gen::guidedWord(ctx.src, g.ta, g.alphabet, 8, 14);
    auto c = ref::start(g.ta), cr = ref::start(r);
    for (std::size_t j = 0; j <= w.size(); ++j) {
      ref::delay(c, d[j]);
      ref::delay(cr, d[j]);
      ctx.check(ref::accepting(g.ta, c) == ref::accepting(r, cr),
                std::string(kNames[k]) + " changed the verdict on a prefix of " + showWord(w, d) + "\n" + ref::show(r));
      accepted += ref::accepting(g.ta, c);
      if (j < w.size()) {
        ref::act(g.ta, c, w[j]);
        ref::act(r, cr, w[j]);
      }
    }
  }
  if (accepted > 3) {
    ctx.nontrivialNote();
  }
}

//! Several initial states, overlapping guards and unobservable transitions (taken at multiples of 1/4 only)
static void choice(pbt::Ctx &ctx) {
  auto o = gen::flavour(ctx.src, smallAutomata());
  o.maxConst = ctx.src.range(1, 3);
  const auto alphabet = gen::alphabetOf(ctx.src.range(1, 2));
  const bool silent = ctx.src.coin();
  auto a = nondet::automaton(ctx.src, o, alphabet, silent);
  gen::Generated g{a.ta, alphabet};
  degrade(ctx, g);
  a.ta = g.ta;
  const int k = static_cast<int>(ctx.src.draw(12));
  ctx.note(kNames[k] + std::string("\n") + nondet::show(a));
  auto ta = nondet::build(a);
  apply(ta, k);
  nondet::NTA r;
  try {
    r = nondet::convert(ta);
  } catch (const ref::ConversionError &e) {
    ctx.fail(std::string("the result of ") + kNames[k] + " is malformed: " + e.what);
  }
  const int grid = silent ? 4 : 0;
  int accepted = 0;
  for (int i = 0; i < 8; ++i) {
    const auto [w, d] = nondet::guidedWord(ctx.src, a, alphabet, 5, 4);
    auto ca = nondet::start(a), cr = nondet::start(r);
    for (std::size_t j = 0; j <= w.size(); ++j) {
      if (!nondet::delay(a, ca, d[j], grid) || !nondet::delay(r, cr, d[j], grid)) {
        ctx.label("too many configurations");
        break;
      }
      const bool expected = nondet::accepting(a, ca);
      ctx.check(nondet::accepting(r, cr) == expected,
                std::string(kNames[k]) + " changed the verdict on a prefix of " + showWord(w, d) + "\n" + nondet::show(r));
      accepted += expected;
      if (j < w.size()) {
        ca = nondet::act(a, ca, w[j]);
        cr = nondet::act(r, cr, w[j]);
      }
    }
  }
  if (accepted > 2 && r.ta.edges() < a.ta.edges()) {
    ctx.label(std::string(kNames[k]) + ": reduced");
    ctx.nontrivialNote();
  }
}

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C06";
  info.rule = "Random automata with traps, dead and unreachable locations, duplicated transitions and unused clocks, and "
              "products of two automata, each under one of twelve simplifications; non-trivial: something was removed; "
              "distinct by automaton and simplification";
  info.assumptions = {"automata with choice or unobservable transitions by sampled words, unobservable transitions at multiples of 1/4",
                      "exact comparison by region-graph search up to 5 locations (9 in products), constants up to 3"};
  info.subs = {sub("exact", 200000, 2000000, exact), sub("products", 60000, 800000, products),
               sub("large", 40000, 500000, large),
               sub("choice", 80000, 1000000, choice)};
  return pbt::checkMain(argc, argv, info);
}
