// Pieces shared by the checks
#pragma once

#include <boost/log/core.hpp>

#include "pbt.hh"
#include "ref.hh"
#include "gen.hh"

//! Like Ctx::check, but the message is only built on failure
#define REQUIRE(ctx, condition, message) \
  do { \
    if (!(condition)) { \
      (ctx).fail(message); \
    } \
  } while (false)

inline void quietLibrary() { boost::log::core::get()->set_logging_enabled(false); }

//! Options shared by the automaton-level checks
inline gen::TAOptions smallAutomata() {
  gen::TAOptions o;
  o.copies = o.constants = o.redundantGuards = true;
  return o;
}

inline gen::TAOptions bigAutomata() {
  gen::TAOptions o = smallAutomata();
  o.maxLocs = 6;
  o.maxClocks = 4;
  o.maxActions = 3;
  o.maxConst = 12;
  o.maxDepth = 4;
  return o;
}

//! A sub-check with the given numbers of cases per tier
inline pbt::SubCheck sub(const std::string &name, uint64_t quick, uint64_t thorough, pbt::Property prop,
                         double caseCpu = 20) {
  pbt::SubCheck s;
  s.name = name;
  s.quick.maxCases = quick;
  s.quick.caseCpu = caseCpu;
  s.quick.wallBudget = 60;
  s.thorough = s.quick;
  s.thorough.maxCases = thorough;
  s.thorough.wallBudget = 240;
  s.prop = std::move(prop);
  return s;
}

inline std::string showWord(const std::string &w, const std::vector<double> &d) {
  return ref::Found{w, d, {}, ""}.str();
}

//! Convert an automaton of the library; anything malformed is a failure
inline ref::RefTA toRef(pbt::Ctx &ctx, const learnta::TimedAutomaton &ta, const std::string &what) {
  try {
    return ref::convert(ta);
  } catch (const ref::ConversionError &e) {
    ctx.fail(what + " is malformed: " + e.what);
  }
}

//! Fail with a rendering if the exploration found something; discard the case if it gave no verdict
inline void verdict(pbt::Ctx &ctx, const ref::ExploreResult &e, const std::string &what, const ref::RefTA *shown = nullptr) {
  if (e.found) {
    ctx.fail(what + " (" + e.found->reason + ") on the timed word " + e.found->str() +
             (shown ? "\nthe result was\n" + ref::show(*shown) : ""));
  }
  if (e.capped) {
    ctx.label("state limit of the reference exploration hit");
    ctx.discard();
  }
}
