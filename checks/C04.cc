// C04: the complement of a deterministic automaton accepts exactly the words the automaton rejects.
#include "common.hh"

using namespace learnta;

static std::vector<Alphabet> lib(const std::vector<char> &a) { return {a.begin(), a.end()}; }

static void labels(pbt::Ctx &ctx, const ref::RefTA &a) {
  bool stuck = false;
  for (const auto &l: a.locs) {
    stuck = stuck || l.next.empty();
  }
  ctx.label("clocks " + std::to_string(a.clocks));
  if (stuck) {
    ctx.label("a location without transitions");
  }
  bool accepts = false, rejects = false;
  ref::explore({&a}, {'a', 'b'}, [&](auto &acc) {
    (acc[0] ? accepts : rejects) = true;
    return true;
  });
  ctx.label(accepts && rejects ? "language neither empty nor universal" : "language empty or universal");
}

static void exact(pbt::Ctx &ctx) {
  auto g = gen::automaton(ctx.src, gen::flavour(ctx.src, smallAutomata()));
  // The alphabet may have actions the automaton never uses
  if (ctx.src.chance(1, 4)) {
    g.alphabet.push_back('z');
  }
  ctx.note("alphabet " + std::string(g.alphabet.begin(), g.alphabet.end()) + "\n" + ref::show(g.ta));
  const auto ta = ref::build(g.ta);
  const auto complement = ta.complement(lib(g.alphabet));
  const auto r = toRef(ctx, complement, "the complement");
  const auto e = ref::explore({&g.ta, &r}, g.alphabet, [](auto &acc) { return acc[0] != acc[1]; });
  verdict(ctx, e, "complement and original agree", &r);
  ctx.check(ref::show(toRef(ctx, ta, "the original")) == ref::show(g.ta), "complement() modified the original");
  labels(ctx, g.ta);
  if (g.ta.edges() >= 2) {
    ctx.nontrivialNote();
  }
}

//! Total: from no state and at no time can the complement get stuck
static void total(pbt::Ctx &ctx) {
  auto g = gen::automaton(ctx.src, gen::flavour(ctx.src, smallAutomata()));
  ctx.note(ref::show(g.ta));
  auto ta = ref::build(g.ta);
  ta.makeComplete(lib(g.alphabet));
  auto r = toRef(ctx, ta, "the completed automaton");
  auto all = r;
  for (auto &l: all.locs) {
    l.accepting = true;
  }
  auto e = ref::explore({&all}, g.alphabet, [](auto &acc) { return acc[0]; });
  verdict(ctx, e, "the completed automaton is stuck", &r);
  e = ref::equivalent(g.ta, r, g.alphabet);
  verdict(ctx, e, "completing changed the language", &r);
  if (g.ta.edges() >= 2) {
    ctx.nontrivialNote();
  }
}

static void involution(pbt::Ctx &ctx) {
  auto o = smallAutomata();
  o.maxLocs = 3;
  auto g = gen::automaton(ctx.src, gen::flavour(ctx.src, o));
  ctx.note(ref::show(g.ta));
  const auto ta = ref::build(g.ta);
  auto twice = ta.complement(lib(g.alphabet)).complement(lib(g.alphabet));
  const auto r = toRef(ctx, twice, "the double complement");
  verdict(ctx, ref::equivalent(g.ta, r, g.alphabet), "the double complement differs from the original", &r);
  if (g.ta.edges() >= 2) {
    ctx.nontrivialNote();
  }
}

//! Large automata, by words
static void large(pbt::Ctx &ctx) {
  auto g = gen::automaton(ctx.src, gen::flavour(ctx.src, bigAutomata()));
  ctx.note(ref::show(g.ta));
  const auto complement = ref::build(g.ta).complement(lib(g.alphabet));
  const auto r = toRef(ctx, complement, "the complement");
  int accepted = 0;
  for (int i = 0; i < 25; ++i) {
    const auto [w, d] = gen::guidedWord(ctx.src, g.ta, g.alphabet, 8, 14);
    auto c = ref::start(g.ta), cc = ref::start(r);
    for (std::size_t k = 0; k <= w.size(); ++k) {
      ref::delay(c, d[k]);
      ref::delay(cc, d[k]);
      ctx.check(ref::accepting(g.ta, c) != ref::accepting(r, cc),
                "complement and original agree on a prefix of " + showWord(w, d) + "\n" + ref::show(r));
      accepted += ref::accepting(g.ta, c);
      if (k < w.size()) {
        ref::act(g.ta, c, w[k]);
        ref::act(r, cc, w[k]);
      }
    }
  }
  if (accepted > 3) {
    ctx.nontrivialNote();
  }
}

//! deterministic() answers whether two transitions of a state on one action are enabled together
static void deterministic(pbt::Ctx &ctx) {
  auto o = smallAutomata();
  auto g = gen::automaton(ctx.src, gen::flavour(ctx.src, o));
  if (ctx.src.chance(2, 3)) {
    auto &l = g.ta.locs[ctx.src.draw(g.ta.locs.size())];
    std::vector<ref::Edge> more;
    gen::splitGuards(ctx.src, o, g.ta.clocks, static_cast<int>(g.ta.locs.size()), 0, {}, more);
    auto &v = l.next[ctx.src.pick(g.alphabet)];
    v.insert(v.end(), more.begin(), more.end());
  }
  ctx.note(ref::show(g.ta));
  bool expected = true;
  for (const auto &l: g.ta.locs) {
    for (const auto &[a, es]: l.next) {
      for (std::size_t i = 0; i < es.size(); ++i) {
        for (std::size_t j = i + 1; j < es.size(); ++j) {
          auto both = es[i].guard;
          both.insert(both.end(), es[j].guard.begin(), es[j].guard.end());
          bool sat = true;
          for (int x = 0; x < g.ta.clocks; ++x) {
            bool some = false;
            for (int q = 0; q <= 4 * 14 && !some; ++q) {
              std::vector<ref::Atom> mine;
              for (const auto &at: both) {
                if (at.x == x) {
                  mine.push_back(ref::Atom{0, at.cmp, at.c});
                }
              }
              some = ref::holds(mine, {q / 4.0});
            }
            sat = sat && some;
          }
          expected = expected && !sat;
        }
      }
    }
  }
  ctx.label(expected ? "deterministic" : "non-deterministic");
  ctx.check(ref::build(g.ta).deterministic() == expected,
            std::string("deterministic() says ") + (expected ? "no" : "yes"));
  if (g.ta.edges() >= 2) {
    ctx.nontrivialNote();
  }
}

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C04";
  info.rule = "Random deterministic automata (guards by recursive splitting, resets to 0, to integers and to other clocks); "
              "non-trivial: at least two transitions (large: more than three accepted prefixes); distinct by the automaton";
  info.assumptions = {"exact comparison by region-graph search up to 4 locations, 2 clocks, constants up to 3; "
                      "beyond that by sampled timed words",
                      "the input automaton is deterministic, as complement() requires"};
  info.subs = {sub("exact", 160000, 2000000, exact), sub("total", 80000, 1000000, total),
               sub("involution", 50000, 600000, involution), sub("large", 30000, 400000, large),
               sub("deterministic", 100000, 1000000, deterministic)};
  return pbt::checkMain(argc, argv, info);
}
