// C14: timed words are delays and observable actions; concatenation, suffixes, equality and hashing agree with that.
#include "common.hh"
#include "timed_word.hh"

using namespace learnta;

namespace {

//! The observable behaviour: the letters with the time each of them occurs at, and the end
struct Trace {
  std::string letters;
  std::vector<double> times;
  double end = 0;

  bool operator==(const Trace &o) const { return letters == o.letters && times == o.times && end == o.end; }
};

Trace trace(const std::string &w, const std::vector<double> &d) {
  Trace t;
  for (std::size_t i = 0; i < d.size(); ++i) {
    t.end += d[i];
    if (i < w.size() && w[i] != UNOBSERVABLE) {
      t.letters.push_back(w[i]);
      t.times.push_back(t.end);
    }
  }
  return t;
}

Trace trace(pbt::Ctx &ctx, const TimedWord &w) {
  REQUIRE(ctx, w.getDurations().size() == w.getWord().size() + 1, "the number of durations does not fit");
  REQUIRE(ctx, w.wordSize() == w.getWord().size(), "wordSize is wrong");
  REQUIRE(ctx, w.getWord().find(UNOBSERVABLE) == std::string::npos, "an unobservable action is left");
  return trace(w.getWord(), w.getDurations());
}

Trace then(Trace a, const Trace &b) {
  a.letters += b.letters;
  for (const double t: b.times) {
    a.times.push_back(a.end + t);
  }
  a.end += b.end;
  return a;
}

struct Raw {
  std::string w;
  std::vector<double> d;
};

Raw raw(pbt::Source &s, int maxLen) {
  Raw r;
  const double unit = gen::grain(s);
  const auto duration = [&] { return s.chance(1, 4) ? 0.0 : s.range(0, 12) * unit + (s.chance(1, 8) ? s.range(0, 1000) : 0); };
  r.d.push_back(duration());
  for (int n = s.size(0, maxLen); n > 0; --n) {
    r.w.push_back(s.chance(1, 4) ? UNOBSERVABLE : static_cast<char>('a' + s.draw(3)));
    r.d.push_back(duration());
  }
  return r;
}

//! Writing to a stream gives all the letters and durations
void printed(pbt::Ctx &ctx, const TimedWord &w) {
  std::ostringstream a, b;
  a << w;
  w.print(b);
  REQUIRE(ctx, a.str() == b.str(), "printed in two ways: " + a.str() + " and " + b.str());
  std::istringstream in(a.str());
  std::string rest;
  for (std::size_t i = 0; i <= w.wordSize(); ++i) {
    double d = -1;
    char c = 0;
    REQUIRE(ctx, in >> d && std::abs(d - w.getDurations()[i]) <= 1e-5 * w.getDurations()[i] + 1e-12, "a wrong duration in " + a.str());
    REQUIRE(ctx, i == w.wordSize() || (in >> c && c == w.getWord()[i]), "a wrong action in " + a.str());
  }
  REQUIRE(ctx, !(in >> rest), "too long: " + a.str());
}

void algebra(pbt::Ctx &ctx) {
  auto &s = ctx.src;
  const Raw a = raw(s, 6), b = raw(s, 6);
  ctx.note(showWord(a.w, a.d) + "   and   " + showWord(b.w, b.d));
  const TimedWord u{a.w, a.d}, v{b.w, b.d};
  const Trace tu = trace(a.w, a.d), tv = trace(b.w, b.d);
  REQUIRE(ctx, trace(ctx, u) == tu, "the timed word is " + showWord(u.getWord(), u.getDurations()));
  REQUIRE(ctx, trace(ctx, v) == tv, "the timed word is " + showWord(v.getWord(), v.getDurations()));
  printed(ctx, u);
  const auto uv = u + v;
  REQUIRE(ctx, trace(ctx, uv) == then(tu, tv), "the concatenation is " + showWord(uv.getWord(), uv.getDurations()));
  REQUIRE(ctx, trace(ctx, u) == tu, "the concatenation changed its operand");
  // Cut somewhere, in the middle of a delay or between two actions at the same time
  const auto &d = uv.getDurations();
  const std::size_t at = s.draw(d.size());
  std::vector<double> head(d.begin(), d.begin() + at + 1), tail(d.begin() + at, d.end());
  static const double parts[] = {0, 0.25, 0.5, 1};
  head.back() *= parts[s.draw(4)];
  tail.front() -= head.back();
  const TimedWord front{uv.getWord().substr(0, at), head}, back{uv.getWord().substr(at), tail};
  const auto suffix = uv.getSuffix(front);
  ctx.note("cut after " + showWord(front.getWord(), head));
  REQUIRE(ctx, suffix == back, "the suffix is " + showWord(suffix.getWord(), suffix.getDurations()));
  REQUIRE(ctx, front + suffix == uv, "the prefix and the suffix are not the word again");
  REQUIRE(ctx, hash_value(front + suffix) == hash_value(uv), "equal words with different hash values");
  REQUIRE(ctx, uv.getSuffix(uv) == TimedWord{} && uv.getSuffix(TimedWord{}) == uv, "the whole word or the empty word as a prefix");
  // One action or delay at a time
  TimedWord steps;
  Trace ts;
  for (std::size_t i = 0; i < d.size(); ++i) {
    steps = steps + d[i];
    ts.end += d[i];
    if (i < uv.wordSize()) {
      steps = steps + uv.getWord()[i];
      ts.letters.push_back(uv.getWord()[i]);
      ts.times.push_back(ts.end);
    }
    REQUIRE(ctx, trace(ctx, steps) == ts, "step by step, the timed word is " + showWord(steps.getWord(), steps.getDurations()));
  }
  REQUIRE(ctx, steps == uv && hash_value(steps) == hash_value(uv), "step by step, another word comes out");
  const auto sums = uv.getAccumulatedDurations();
  REQUIRE(ctx, sums.size() == d.size(), "wrong number of accumulated durations");
  double sum = 0;
  for (std::size_t i = d.size(); i > 0; --i) {
    sum += d[i - 1];
    REQUIRE(ctx, sums[i - 1] == sum, "a wrong accumulated duration at " + std::to_string(i - 1));
  }
  // Equality
  REQUIRE(ctx, (u == v) == (u.getWord() == v.getWord() && u.getDurations() == v.getDurations()), "equality is wrong");
  auto other = uv.getDurations();
  auto letters = uv.getWord();
  if (!letters.empty() && s.coin()) {
    letters[s.draw(letters.size())] = 'z';
  } else {
    other[s.draw(other.size())] += gen::grain(s);
  }
  REQUIRE(ctx, !(TimedWord{letters, other} == uv), "different words are equal");
  if (a.w.find(UNOBSERVABLE) != std::string::npos && uv.wordSize() > 1) {
    ctx.nontrivialNote();
  }
}

} // namespace

int main(int argc, char **argv) {
  quietLibrary();
  pbt::CheckInfo info;
  info.property = "C14";
  info.rule = "Pairs of random words with unobservable actions and dyadic durations down to 2^-20; compared with the times of the observable actions; "
              "non-trivial: an unobservable action was absorbed and two or more actions are left; distinct by input";
  info.subs = {sub("algebra", 300000, 3000000, algebra)};
  return pbt::checkMain(argc, argv, info);
}
