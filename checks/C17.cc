// C17: automata as data: printing, copying, determinism, merging of transitions, resets.
#include <regex>

#include "nondet.hh"
#include "common.hh"

using namespace learnta;

namespace {

gen::TAOptions some(pbt::Ctx &ctx) {
  gen::TAOptions o;
  o.maxClocks = 3;
  o.copies = ctx.src.coin();
  o.constants = ctx.src.coin();
  o.fractions = !o.constants;
  o.maxConst = ctx.src.chance(1, 8) ? 40 : 3;
  return o;
}

std::vector<char> actions(pbt::Ctx &ctx) {
  static const std::vector<std::vector<char>> sets = {{'a'}, {'a', 'b'}, {'z', 'A', '0'}, {'+', '-'}};
  return ctx.src.pick(sets);
}

using Edges = std::multiset<std::string>;

std::string str(const std::vector<ref::Atom> &guard) {
  std::string r;
  static const char *names[] = {" < ", " <= ", " >= ", " > "};
  for (const auto &g: guard) {
    r += (r.empty() ? "x" : ", x") + std::to_string(g.x) + names[static_cast<int>(g.cmp)] + std::to_string(g.c);
  }
  return r;
}

std::string str(const std::vector<ref::Reset> &resets) {
  std::string r;
  for (const auto &s: resets) {
    std::ostringstream value;
    if (s.copy) {
      value << "x" << s.from;
    } else {
      value << s.value;
    }
    r += (r.empty() ? "x" : ", x") + std::to_string(s.x) + " := " + value.str();
  }
  return r;
}

//! The transitions between numbered locations, in a canonical form
Edges edges(const ref::RefTA &a) {
  Edges r;
  for (std::size_t l = 0; l < a.locs.size(); ++l) {
    for (const auto &[c, es]: a.locs[l].next) {
      for (const auto &e: es) {
        r.insert(std::to_string(l) + " -> " + std::to_string(e.target) + " by " + (c ? std::string(1, c) : "ε") + " if " + str(e.guard) +
                 " then " + str(e.resets));
      }
    }
  }
  return r;
}

std::string str(const Edges &es) {
  std::string r;
  for (const auto &e: es) {
    r += "  " + e + "\n";
  }
  return r;
}

//! What a printed automaton says, is the automaton
void text(pbt::Ctx &ctx) {
  const auto n = nondet::automaton(ctx.src, some(ctx), actions(ctx), true);
  ctx.note(nondet::show(n));
  std::ostringstream os;
  os << nondet::build(n);
  static const std::regex location(R"(\s*loc(\d+) \[init=([01]), match=([01])\])");
  static const std::regex transition(R"xx(\s*loc(\d+)->loc(\d+) \[label="([^"]+)"(?:, guard="\{([^}]+)\}")?(?:, reset="\{([^}]+)\}")?\])xx");
  std::istringstream is(os.str());
  std::string line;
  std::map<int, std::pair<bool, bool>> locs, expected;
  Edges read;
  bool first = true, last = false;
  while (std::getline(is, line)) {
    std::smatch m;
    if (first) {
      ctx.check(line == "digraph G {", "printed: " + line);
      first = false;
    } else if (line == "}") {
      last = true;
    } else if (std::regex_match(line, m, location)) {
      ctx.check(!last && !locs.count(std::stoi(m[1])), "printed twice: " + line);
      locs[std::stoi(m[1])] = {m[2] == "1", m[3] == "1"};
    } else if (std::regex_match(line, m, transition)) {
      read.insert(m[1].str() + " -> " + m[2].str() + " by " + m[3].str() + " if " + m[4].str() + " then " + m[5].str());
    } else {
      ctx.fail("printed: " + line);
    }
  }
  for (std::size_t i = 0; i < n.ta.locs.size(); ++i) {
    expected[static_cast<int>(i)] = {std::find(n.initials.begin(), n.initials.end(), i) != n.initials.end(), n.ta.locs[i].accepting};
  }
  ctx.check(last && locs == expected, "the locations are printed wrongly:\n" + os.str());
  REQUIRE(ctx, read == edges(n.ta), "the transitions are printed wrongly:\n" + os.str() + "expected\n" + str(edges(n.ta)));
  if (n.ta.edges() > 2) {
    ctx.nontrivialNote();
  }
}

//! A deep copy is the same automaton, and nothing done to one of the two shows in the other
void copying(pbt::Ctx &ctx) {
  const auto n = nondet::automaton(ctx.src, some(ctx), actions(ctx), true);
  ctx.note(nondet::show(n));
  auto original = nondet::build(n);
  if (ctx.src.coin()) {
    original.maxConstraints[ctx.src.draw(original.maxConstraints.size())] += 1;
  }
  const auto maxConstants = original.maxConstraints;
  TimedAutomaton copy;
  std::unordered_map<TAState *, std::shared_ptr<TAState>> old2new;
  original.deepCopy(copy, old2new);
  auto expected = n;
  expected.ta.initial = -1;
  const auto before = nondet::show(expected);
  const auto same = [&](const TimedAutomaton &ta, const std::string &what) {
    try {
      auto converted = nondet::convert(ta);
      converted.ta.initial = -1;
      const auto shown = nondet::show(converted);
      REQUIRE(ctx, shown == before && ta.maxConstraints == maxConstants, what + ":\n" + shown);
    } catch (const ref::ConversionError &e) {
      ctx.fail(what + ": " + e.what);
    }
  };
  same(copy, "the copy is different");
  ctx.check(old2new.size() == original.states.size(), "wrong number of copied states reported");
  for (std::size_t i = 0; i < original.states.size(); ++i) {
    ctx.check(original.states[i] != copy.states[i] && old2new.count(original.states[i].get()) && old2new.at(original.states[i].get()) == copy.states[i],
              "a state is reported with the wrong copy");
  }
  auto &changed = ctx.src.coin() ? original : copy;
  const auto &kept = &changed == &copy ? original : copy;
  for (int k = ctx.src.range(1, 3); k > 0; --k) {
    auto &s = *ctx.src.pick(changed.states);
    switch (ctx.src.draw(4)) {
      case 0:
        s.isMatch = !s.isMatch;
        break;
      case 1:
        s.next.clear();
        break;
      case 2:
        changed.states.push_back(std::make_shared<TAState>());
        changed.maxConstraints.push_back(7);
        break;
      default:
        for (auto &[action, transitions]: s.next) {
          for (auto &t: transitions) {
            t.guard.clear();
            t.resetVars.clear();
            t.target = changed.states.front().get();
          }
        }
        break;
    }
  }
  same(kept, "changing the one changed the other");
  if (n.ta.edges() > 2) {
    ctx.nontrivialNote();
  }
}

struct Range {
  int lo = 0, hi = 1000000;
  bool loOpen = false, hiOpen = false;

  void meet(const Range &r) {
    if (r.lo > lo || (r.lo == lo && r.loOpen)) {
      lo = r.lo;
      loOpen = r.loOpen;
    }
    if (r.hi < hi || (r.hi == hi && r.hiOpen)) {
      hi = r.hi;
      hiOpen = r.hiOpen;
    }
  }

  [[nodiscard]] bool empty() const { return lo > hi || (lo == hi && (loOpen || hiOpen)); }
  //! One point, or an open interval between neighboring integers
  [[nodiscard]] bool simple() const { return (lo == hi && !loOpen && !hiOpen) || (lo + 1 == hi && loOpen && hiOpen); }
};

std::vector<Range> box(const std::vector<ref::Atom> &guard, int clocks) {
  std::vector<Range> r(clocks);
  for (const auto &g: guard) {
    Range s;
    if (g.cmp == ref::Cmp::lt || g.cmp == ref::Cmp::le) {
      s.hi = g.c;
      s.hiOpen = g.cmp == ref::Cmp::lt;
    } else {
      s.lo = g.c;
      s.loOpen = g.cmp == ref::Cmp::gt;
    }
    r[g.x].meet(s);
  }
  return r;
}

bool empty(const std::vector<Range> &b) {
  return std::any_of(b.begin(), b.end(), [](const auto &r) { return r.empty(); });
}

bool overlap(const ref::Edge &a, const ref::Edge &b, int clocks) {
  auto x = box(a.guard, clocks);
  const auto y = box(b.guard, clocks);
  for (int i = 0; i < clocks; ++i) {
    x[i].meet(y[i]);
  }
  return !empty(x);
}

bool choice(const ref::Loc &l, int clocks) {
  for (const auto &[c, es]: l.next) {
    for (std::size_t i = 0; i < es.size(); ++i) {
      for (std::size_t j = 0; j < i; ++j) {
        if (overlap(es[i], es[j], clocks)) {
          return true;
        }
      }
    }
  }
  return false;
}

//! A state is reported as deterministic if and only if no two of its transitions are enabled together
void determinism(pbt::Ctx &ctx) {
  nondet::NTA n;
  if (ctx.src.coin()) {
    n = nondet::automaton(ctx.src, some(ctx), actions(ctx), true);
  } else {
    // Deterministic but for one transition
    auto o = some(ctx);
    o.redundantGuards = ctx.src.coin();
    n.ta = gen::automaton(ctx.src, o, actions(ctx));
    n.initials = {0};
    if (ctx.src.coin()) {
      auto &l = n.ta.locs[ctx.src.draw(n.ta.locs.size())];
      l.next[ctx.src.coin() ? 'a' : 0].push_back(nondet::edge(ctx.src, n.ta.clocks, 0, o));
    }
  }
  ctx.note(nondet::show(n));
  const auto ta = nondet::build(n);
  bool all = true;
  for (std::size_t i = 0; i < n.ta.locs.size(); ++i) {
    const bool expected = !choice(n.ta.locs[i], n.ta.clocks);
    all = all && expected;
    REQUIRE(ctx, ta.states[i]->deterministic() == expected, "location " + std::to_string(i) + " is reported as " + (expected ? "non" : "") + "deterministic");
  }
  ctx.check(ta.deterministic() == all, std::string("the automaton is reported as ") + (all ? "non" : "") + "deterministic");
  // The largest constant to which each clock is compared, for each clock that is mentioned
  std::vector<int> constants;
  const auto mention = [&](int x, int c) {
    constants.resize(std::max<std::size_t>(constants.size(), x + 1));
    constants[x] = std::max(constants[x], c);
  };
  for (const auto &l: n.ta.locs) {
    for (const auto &[c, es]: l.next) {
      for (const auto &e: es) {
        for (const auto &g: e.guard) {
          mention(g.x, g.c);
        }
        for (const auto &r: e.resets) {
          mention(r.x, 0);
          if (r.copy) {
            mention(r.from, 0);
          }
        }
      }
    }
  }
  ctx.check(TimedAutomaton::makeMaxConstants(ta.states) == constants, "the largest constants are wrong");
  ctx.label(all ? "deterministic" : "with choice");
  if (n.ta.edges() > 2) {
    ctx.nontrivialNote();
  }
}

std::string str(const ref::Edge &e) {
  return "[" + str(e.guard) + "] {" + str(e.resets) + "} to " + std::to_string(e.target);
}

std::string str(const std::vector<ref::Edge> &es) {
  std::string r;
  for (const auto &e: es) {
    r += "  " + str(e) + "\n";
  }
  return r;
}

//! All valuations with integers and midpoints up to one above the constants
std::vector<std::vector<double>> grid(int clocks, int maxConst) {
  std::vector<std::vector<double>> r = {{}};
  for (int x = 0; x < clocks; ++x) {
    std::vector<std::vector<double>> s;
    for (const auto &v: r) {
      for (int i = 0; i <= 2 * maxConst + 2; ++i) {
        s.push_back(v);
        s.back().push_back(i / 2.0);
      }
    }
    r = s;
  }
  return r;
}

bool includes(const std::vector<Range> &outer, const std::vector<Range> &inner) {
  for (std::size_t i = 0; i < outer.size(); ++i) {
    auto r = inner[i];
    r.meet(outer[i]);
    if (r.lo != inner[i].lo || r.hi != inner[i].hi || r.loOpen != inner[i].loOpen || r.hiOpen != inner[i].hiOpen) {
      return false;
    }
  }
  return true;
}

//! Merging overlapping transitions of a state, and removing redundant ones
void merging(pbt::Ctx &ctx) {
  ref::RefTA a;
  a.clocks = ctx.src.range(1, 2);
  a.initial = 0;
  a.locs.resize(4);
  a.locs[1].accepting = a.locs[2].accepting = a.locs[3].accepting = ctx.src.coin();
  gen::TAOptions o;
  o.copies = o.fractions = true;
  o.maxConst = 3;
  for (int l = 1; l < 4; ++l) {
    a.locs[l].next['a'].push_back(nondet::edge(ctx.src, a.clocks, 1, o));
  }
  for (const char c: {'a', 'b'}) {
    for (int k = ctx.src.range(c == 'a' ? 1 : 0, c == 'a' ? 5 : 2); k > 0; --k) {
      auto e = nondet::edge(ctx.src, a.clocks, ctx.src.range(1, 3), o);
      if (!empty(box(e.guard, a.clocks))) {
        if (!a.locs[0].next[c].empty() && ctx.src.chance(1, 4)) {
          e.guard = ctx.src.pick(a.locs[0].next[c]).guard;
        }
        a.locs[0].next[c].push_back(e);
      }
    }
  }
  ctx.note(ref::show(a));
  auto ta = ref::build(a);
  const int op = static_cast<int>(ctx.src.draw(4));
  static const char *names[] = {"removing redundant transitions", "merging overlapping transitions",
                                "merging overlapping transitions with the same target", "merging overlapping transitions, given precise clocks"};
  ctx.label(names[op]);
  ctx.note(names[op]);
  auto &state = *ta.states[0];
  bool split = false;
  for (const auto &[c, es]: a.locs[0].next) {
    for (std::size_t i = 0; i < es.size(); ++i) {
      for (std::size_t j = 0; j < i; ++j) {
        std::vector<bool> simple[2];
        for (int x = 0; x < a.clocks; ++x) {
          simple[0].push_back(box(es[i].guard, a.clocks)[x].simple());
          simple[1].push_back(box(es[j].guard, a.clocks)[x].simple());
        }
        split = split || (es[i].target != es[j].target && overlap(es[i], es[j], a.clocks) && simple[0] != simple[1]);
      }
    }
  }
  ctx.check(state.needSplitting() == split, std::string("splitting is reported as ") + (split ? "not " : "") + "needed");
  switch (op) {
    case 0:
      state.removeTransitionsWithWeakerGuards();
      break;
    case 1:
      state.mergeNondeterministicBranching();
      break;
    case 2:
      state.mergeNondeterministicBranchingWithSameTarget();
      break;
    default:
      std::unordered_set<ClockVariables> precise;
      for (int x = 0; x < a.clocks; ++x) {
        if (ctx.src.coin()) {
          precise.insert(x);
        }
      }
      state.mergeNondeterministicBranching(precise);
      break;
  }
  ta.maxConstraints.resize(std::max<std::size_t>(ta.maxConstraints.size(), a.clocks));
  const auto r = toRef(ctx, ta, "the result");
  static const std::vector<ref::Edge> none;
  const auto of = [&](const ref::RefTA &b, char c) -> const std::vector<ref::Edge> & {
    const auto it = b.locs[0].next.find(c);
    return it == b.locs[0].next.end() ? none : it->second;
  };
  bool changed = false;
  for (const char c: {'a', 'b'}) {
    const auto &before = of(a, c), &after = of(r, c);
    changed = changed || before.size() != after.size();
    ctx.check(after.size() <= before.size(), "there are more transitions than before");
    const auto enabled = [&](const std::vector<ref::Edge> &es, const std::vector<double> &v, int target) {
      return std::any_of(es.begin(), es.end(), [&](const auto &e) { return (target < 0 || e.target == target) && ref::holds(e.guard, v); });
    };
    if (op != 3) {
      for (const auto &v: grid(a.clocks, 3)) {
        for (int target = op == 1 ? -1 : 1; target <= (op == 1 ? -1 : 3); ++target) {
          const bool was = enabled(before, v, target), is = enabled(after, v, target);
          REQUIRE(ctx, op == 0 ? is == was : is || !was,
                  "where transitions are enabled changed\n" + str(before) + "became\n" + str(after));
        }
      }
    }
    bool hadChoice = false, hasChoice = false;
    for (const auto *es: {&before, &after}) {
      for (std::size_t i = 0; i < es->size(); ++i) {
        for (std::size_t j = 0; j < i; ++j) {
          const bool together = (op != 2 || (*es)[i].target == (*es)[j].target) && overlap((*es)[i], (*es)[j], a.clocks);
          (es == &before ? hadChoice : hasChoice) = (es == &before ? hadChoice : hasChoice) || together;
          // An unwritten bound and the same bound in writing are not compared
          const auto trivial = [](const ref::Atom &g) { return g.cmp == ref::Cmp::ge && g.c == 0; };
          const auto written = [&](const ref::Edge &e) { return std::none_of(e.guard.begin(), e.guard.end(), trivial); };
          if (op == 0 && es == &after && (*es)[i].target == (*es)[j].target && written((*es)[i]) && written((*es)[j])) {
            const auto x = box((*es)[i].guard, a.clocks), y = box((*es)[j].guard, a.clocks);
            REQUIRE(ctx, includes(x, y) == includes(y, x), "a redundant transition is left\n" + str(after));
          }
        }
      }
    }
    if (op != 0) {
      REQUIRE(ctx, !hasChoice, "overlapping transitions are left\n" + str(before) + "became\n" + str(after));
      if (!hadChoice) {
        REQUIRE(ctx, str(before) == str(after), "transitions without overlap changed\n" + str(before) + "became\n" + str(after));
      }
    }
    for (const auto &e: after) {
      const bool known = std::any_of(before.begin(), before.end(), [&](const auto &f) {
        return f.target == e.target && (op == 2 || str(f.resets) == str(e.resets)) &&
               (op == 0 ? str(f.guard) == str(e.guard) : op == 3 || includes(box(e.guard, a.clocks), box(f.guard, a.clocks)));
      });
      REQUIRE(ctx, known, "the transition " + str(e) + " comes from nowhere\n" + str(before) + "became\n" + str(after));
    }
  }
  if (changed) {
    ctx.nontrivialNote();
  }
}

std::vector<double> assigned(const TATransition::Resets &resets, const std::vector<double> &v) {
  auto w = v;
  for (const auto &[x, value]: resets) {
    w.at(x) = value.index() == 1 ? v.at(std::get<ClockVariables>(value)) : std::get<double>(value);
  }
  return w;
}

std::string str(const TATransition::Resets &resets) {
  std::ostringstream os;
  std::operator<<(os, resets);
  return os.str();
}

//! Composing, cleaning and completing resets
void resets(pbt::Ctx &ctx) {
  const int clocks = ctx.src.range(1, 4);
  const auto random = [&] {
    TATransition::Resets r;
    std::vector<ClockVariables> order;
    for (int x = 0; x < clocks; ++x) {
      order.insert(order.begin() + static_cast<long>(ctx.src.draw(order.size() + 1)), static_cast<ClockVariables>(x));
    }
    for (const auto x: order) {
      switch (ctx.src.draw(3)) {
        case 1:
          r.emplace_back(x, static_cast<ClockVariables>(ctx.src.draw(clocks)));
          break;
        case 2:
          r.emplace_back(x, ctx.src.range(0, 6) / 2.0);
          break;
        default:
          break;
      }
    }
    return r;
  };
  const auto left = random(), right = random();
  ctx.note(str(left) + " after " + str(right));
  std::vector<double> v;
  for (int x = 0; x < clocks; ++x) {
    v.push_back(10 + x + 0.25 * ctx.src.range(0, 3));
  }
  const auto once = [&](const TATransition::Resets &r, const std::string &what) {
    std::set<ClockVariables> seen;
    for (const auto &[x, value]: r) {
      REQUIRE(ctx, seen.insert(x).second, what + " assigns a clock twice: " + str(r));
    }
  };
  const auto both = composition(left, right);
  once(both, "the composition");
  REQUIRE(ctx, assigned(both, v) == assigned(left, assigned(right, v)), "the composition is " + str(both));
  REQUIRE(ctx, assigned(clean(left), v) == assigned(left, v) && clean(left).size() <= left.size(), "cleaning gives " + str(clean(left)));
  for (const auto &[x, value]: clean(left)) {
    ctx.check(value.index() == 0 || std::get<ClockVariables>(value) != x, "cleaning leaves " + str(clean(left)));
  }
  const auto map = asMap(left);
  ctx.check(map.size() == left.size() && std::all_of(left.begin(), left.end(), [&](const auto &r) { return map.at(r.first) == r.second; }),
            "the map has other assignments than " + str(left));
  const auto full = addDefault(left, right);
  once(full, "the completed reset");
  auto expected = assigned(right, v);
  for (const auto &[x, value]: left) {
    expected[x] = value.index() == 1 ? v.at(std::get<ClockVariables>(value)) : std::get<double>(value);
  }
  REQUIRE(ctx, assigned(full, v) == expected, "with defaults: " + str(full));
  std::size_t imprecise = 0;
  for (const auto &[x, value]: left) {
    imprecise += value.index() == 0 && std::get<double>(value) != std::floor(std::get<double>(value));
  }
  ctx.check(TATransition::impreciseConstantAssignSize(left) == imprecise, "the number of fractional constants is wrong");
  TATransition t{nullptr, left, {}};
  t.addPreciseConstantAssignments(right);
  once(t.resetVars, "the reset with constants added");
  const auto added = asMap(t.resetVars), wanted = asMap(right);
  for (int x = 0; x < clocks; ++x) {
    const auto cx = static_cast<ClockVariables>(x);
    const auto constant = [&](const auto &m) {
      return m.count(cx) && m.at(cx).index() == 0 && std::get<double>(m.at(cx)) == std::floor(std::get<double>(m.at(cx)));
    };
    const auto &from = !constant(map) && constant(wanted) ? wanted : map;
    ctx.check(added.count(cx) == from.count(cx) && (!added.count(cx) || added.at(cx) == from.at(cx)),
              "adding constants gives " + str(t.resetVars));
  }
  if (left.size() + right.size() > 2) {
    ctx.nontrivialNote();
  }
}

} // namespace

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C17";
  info.rule = "Random automata (with choice, several initial states, unobservable transitions, copied clocks and fractional constants), states with "
              "up to five transitions over one or two clocks, and pairs of resets over up to four clocks; non-trivial: more than two transitions, a "
              "changed set of transitions, or more than two assignments; distinct by input";
  info.assumptions = {"printed actions are single characters other than quotation marks and braces"};
  info.subs = {sub("text", 100000, 1000000, text), sub("copying", 150000, 1500000, copying), sub("determinism", 300000, 3000000, determinism),
               sub("merging", 400000, 4000000, merging), sub("resets", 500000, 5000000, resets)};
  return pbt::checkMain(argc, argv, info);
}
