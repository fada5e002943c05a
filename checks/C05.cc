// C05: the product of two automata accepts exactly the words both accept.
#include "common.hh"
#include "intersection.hh"
#include "nondet.hh"

using namespace learnta;
using StateMap = boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>>;

static void exact(pbt::Ctx &ctx) {
  auto o = gen::flavour(ctx.src, smallAutomata());
  o.minClocks = 0;
  const auto alphabet = gen::alphabetOf(ctx.src.range(1, 2));
  const auto a = gen::automaton(ctx.src, o, alphabet);
  const auto b = gen::automaton(ctx.src, o, alphabet);
  ctx.note("left " + ref::show(a) + "right " + ref::show(b));
  const auto ta = ref::build(a), tb = ref::build(b);
  TimedAutomaton product;
  StateMap map;
  intersectionTA(ta, tb, product, map);
  ctx.check(product.clockSize() == static_cast<std::size_t>(a.clocks + b.clocks), "wrong number of clocks");
  const auto r = toRef(ctx, product, "the product");
  const auto e = ref::explore({&a, &b, &r}, alphabet, [](auto &acc) { return acc[2] == (acc[0] && acc[1]); });
  verdict(ctx, e, "the product's verdict is not the conjunction", &r);
  // Every state of the product stands for the pair it is registered under
  ctx.check(map.size() == a.locs.size() * b.locs.size(), "a pair of states is missing in the map");
  for (const auto &[pair, state]: map) {
    ctx.check(state->isMatch == (pair.first->isMatch && pair.second->isMatch), "wrong acceptance of a product state");
  }
  std::size_t both = 0;
  ref::explore({&a, &b}, alphabet, [&](auto &acc) {
    both += acc[0] && acc[1];
    return true;
  });
  ctx.label(both ? "intersection non-empty" : "intersection empty");
  ctx.label("clocks " + std::to_string(a.clocks) + "+" + std::to_string(b.clocks));
  if (both && a.edges() >= 2 && b.edges() >= 2) {
    ctx.nontrivialNote();
  }
}

static void large(pbt::Ctx &ctx) {
  auto o = gen::flavour(ctx.src, bigAutomata());
  const auto alphabet = gen::alphabetOf(ctx.src.range(1, 3));
  const auto a = gen::automaton(ctx.src, o, alphabet);
  const auto b = gen::automaton(ctx.src, o, alphabet);
  ctx.note("left " + ref::show(a) + "right " + ref::show(b));
  TimedAutomaton product;
  StateMap map;
  intersectionTA(ref::build(a), ref::build(b), product, map);
  // The inputs are gone; the product must stand alone
  const auto r = toRef(ctx, product, "the product");
  int both = 0;
  for (int i = 0; i < 20; ++i) {
    const auto [w, d] = gen::guidedWord(ctx.src, i % 2 ? a : b, alphabet, 8, 14);
    auto ca = ref::start(a), cb = ref::start(b), cr = ref::start(r);
    for (std::size_t k = 0; k <= w.size(); ++k) {
      for (auto *c: {&ca, &cb, &cr}) {
        ref::delay(*c, d[k]);
      }
      const bool expected = ref::accepting(a, ca) && ref::accepting(b, cb);
      both += expected;
      ctx.check(ref::accepting(r, cr) == expected,
                "the product's verdict is not the conjunction on a prefix of " + showWord(w, d));
      if (k < w.size()) {
        ref::act(a, ca, w[k]);
        ref::act(b, cb, w[k]);
        ref::act(r, cr, w[k]);
      }
    }
  }
  if (both > 3) {
    ctx.nontrivialNote();
  }
}

/*!
 * Automata with choice and unobservable transitions. The latter are taken at multiples of 1/4 only, by the product
 * and by its components alike, so that the sets of reachable configurations must correspond exactly.
 */
static void choice(pbt::Ctx &ctx) {
  auto o = gen::flavour(ctx.src, smallAutomata());
  o.maxLocs = 3;
  o.minClocks = 0;
  o.maxConst = ctx.src.range(1, 2);
  const auto alphabet = gen::alphabetOf(ctx.src.range(1, 2));
  const bool silent = ctx.src.coin();
  const auto a = nondet::automaton(ctx.src, o, alphabet, silent);
  const auto b = nondet::automaton(ctx.src, o, alphabet, silent && ctx.src.coin());
  ctx.note("left " + nondet::show(a) + "right " + nondet::show(b));
  TimedAutomaton product;
  StateMap map;
  const auto ta = nondet::build(a), tb = nondet::build(b);
  intersectionTA(ta, tb, product, map);
  nondet::NTA r;
  try {
    r = nondet::convert(product);
  } catch (const ref::ConversionError &e) {
    ctx.fail("the product is malformed: " + e.what);
  }
  const int grid = silent ? 4 : 0;
  int both = 0, branching = 0;
  for (int i = 0; i < 8; ++i) {
    const auto [w, d] = nondet::guidedWord(ctx.src, i % 2 ? a : b, alphabet, 5, 3);
    auto ca = nondet::start(a), cb = nondet::start(b), cr = nondet::start(r);
    for (std::size_t k = 0; k <= w.size(); ++k) {
      if (!nondet::delay(a, ca, d[k], grid) || !nondet::delay(b, cb, d[k], grid) || ca.size() * cb.size() > 3000 ||
          !nondet::delay(r, cr, d[k], grid)) {
        ctx.label("too many configurations");
        break;
      }
      const bool expected = nondet::accepting(a, ca) && nondet::accepting(b, cb);
      ctx.check(nondet::accepting(r, cr) == expected,
                "the product's verdict is not the conjunction on a prefix of " + showWord(w, d));
      both += expected;
      branching += ca.size() > 1 || cb.size() > 1;
      if (k < w.size()) {
        ca = nondet::act(a, ca, w[k]);
        cb = nondet::act(b, cb, w[k]);
        cr = nondet::act(r, cr, w[k]);
      }
    }
  }
  ctx.label(silent ? "with unobservable transitions" : "without unobservable transitions");
  if (both > 0 && branching > 0) {
    ctx.nontrivialNote();
  }
}

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C05";
  info.rule = "Pairs of random deterministic automata over one alphabet; non-trivial: both have two transitions and some "
              "reachable pair of locations accepts (automata with choice: on a word with several runs both accept); distinct by the pair";
  info.assumptions = {"exact comparison by region-graph search up to 4 locations, 2 clocks each, constants up to 3; "
                      "beyond that by sampled timed words",
                      "automata with choice or unobservable transitions by sampled words, unobservable transitions at multiples of 1/4"};
  info.subs = {sub("exact", 80000, 1000000, exact), sub("large", 60000, 800000, large),
               sub("choice", 60000, 1000000, choice)};
  return pbt::checkMain(argc, argv, info);
}
