#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, check=None, na=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe,
         "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, check, na))


prop("C01", "A learned automaton recognizes exactly the target language",
     "If learning terminates, the automaton it returns accepts exactly the timed words the target accepts, over the given alphabet. "
     "Learning does not abort, and it terminates with an exact teacher on deterministic one-clock targets and on a fixed pool of targets with several clocks. "
     "This holds whatever sound source of counterexamples is used (exact comparison, test suites, random tests, chains and caches of these).",
     ["programs", "inputs", "histories"],
     "every deterministic timed automaton as a target, every genuine counterexample the teacher may choose in every round",
     "the tests and examples learn a dozen fixed targets with one teacher each; correctness depends on the interplay of the table, the "
     "counterexample analysis and the construction of hypotheses on every history of counterexamples",
     ["include/learner.hh", "include/observation_table.hh", "src/observation_table.cc", "include/counterexample_analyzer.hh"],
     [("main loop: close, make consistent, make exterior-consistent, conjecture, analyse", "include/learner.hh Learner::run"),
      ("hypothesis construction", "src/observation_table.cc generateHypothesis"),
      ("counterexample handling", "include/observation_table.hh handleCEX")],
     ["the automaton returned by Learner::run, compared with the target by region-graph search"],
     state=[("observation table", "prefixes, suffixes, timed conditions of the cells", "include/observation_table.hh")],
     check=("end-to-end learning of random targets against a reference teacher and the library's oracles; the result is compared exactly "
            "with the target by region-graph search in an independent model"))

prop("C02", "A reported counterexample is a word on which target and hypothesis differ",
     "Whenever an equivalence oracle (exact, test suite, random test, cache or chain of these) reports a counterexample, it is a timed word "
     "over the alphabet with non-negative durations that exactly one of target and hypothesis accepts.",
     ["inputs", "histories", "programs"],
     "all pairs of deterministic target and hypothesis automata, all suites of words, all histories of queries to one oracle object",
     "the tests put a few fixed pairs to the exact oracle; the other oracles are untested",
     ["include/timed_automata_equivalence_oracle.hh", "include/equivalence_oracle_by_test.hh", "include/equivalence_oracle_by_random_test.hh",
      "include/equivalence_oracle_memo.hh", "include/equivalance_oracle_chain.hh"],
     [("sampling of the two differences", "include/timed_automata_equivalence_oracle.hh subset/superset"),
      ("running words on both automata", "include/equivalence_oracle_by_test.hh findCounterExample")],
     ["the word returned by findCounterExample, run on both automata in the reference simulator"],
     check="random pairs and histories of automata; every reported word is run on both automata in an independent simulator")

prop("C03", "An equivalence oracle answers 'none' only when it has reason to",
     "The exact oracle answers 'no counterexample' only if target and hypothesis accept the same timed words; the test-suite oracle only if they agree "
     "along every word of its suite; a chain only if every member does; a cache only if the wrapped oracle does and no remembered counterexample still works. "
     "Query counts and statistics report the number of queries put to the oracle, and for a cache those passed on.",
     ["inputs", "histories", "programs"],
     "all pairs of deterministic automata, all suites, all histories of hypotheses put to one oracle object",
     "a missed difference is silent: learning ends with a wrong automaton; the tests see only pairs for which the answer was known",
     ["include/timed_automata_equivalence_oracle.hh", "include/equivalence_oracle_by_test.hh", "include/equivalence_oracle_by_random_test.hh",
      "include/equivalence_oracle_memo.hh", "include/equivalance_oracle_chain.hh", "include/equivalence_oracle.hh"],
     [("complement, intersection, zone-based sampling", "include/timed_automata_equivalence_oracle.hh"),
      ("remembered counterexamples", "include/equivalence_oracle_memo.hh")],
     ["findCounterExample, numEqQueries, printStatistics"],
     check="random pairs and histories; equality of the languages is decided by region-graph search; scripted members for chains and caches")

prop("C04", "The complement accepts exactly the rejected words",
     "For every deterministic automaton and every alphabet that includes its actions, the complement accepts a timed word over the alphabet if and only if the "
     "automaton rejects it, and the original is left unchanged. "
     "Completing an automaton keeps its language and leaves no word stuck; the determinism check answers yes exactly if no two transitions of a state on one action are enabled together.",
     ["programs", "inputs"], "all deterministic automata, alphabets and timed words",
     "the tests complement a handful of automata and look at sizes or a few words",
     ["include/timed_automaton.hh"],
     [("complement, makeComplete, deterministic", "include/timed_automaton.hh"), ("negation of guards", "include/constraint.hh negate")],
     ["the automaton returned by complement, explored exactly"],
     check="random automata; original and complement are compared on all timed words by region-graph search of their product")

prop("C05", "The intersection accepts exactly the words both automata accept",
     "The product of two automata accepts a timed word if and only if both automata accept it.",
     ["programs", "inputs"], "all pairs of deterministic automata over any alphabets, all timed words",
     "the tests intersect two fixed pairs",
     ["src/intersection.cc", "include/intersection.hh"],
     [("product construction with shifted clocks", "src/intersection.cc IntersectionBuilder")],
     ["the product automaton, explored exactly together with its operands"],
     check="random pairs; product and operands are compared on all timed words by region-graph search")

prop("C06", "Simplifying an automaton keeps its language",
     "Every simplification of an automaton (removal of unreachable, dead or useless parts and of unused clocks, merging of transitions, zone-based reduction) keeps the "
     "set of accepted timed words, never makes the automaton larger, and leaves it well-formed.",
     ["programs", "inputs"], "all deterministic automata, products and complements, all timed words, all orders of the simplifications",
     "the tests simplify a few fixed automata and compare sizes",
     ["include/timed_automaton.hh", "src/timed_automaton.cc"],
     [("simplify, simplifyStrong, simplifyWithZones and their parts", "src/timed_automaton.cc, include/timed_automaton.hh")],
     ["the simplified automaton, compared exactly with the original"],
     check="random automata and products under each simplification; languages are compared by region-graph search")

prop("C07", "Zone-based emptiness and sampling are exact",
     "Sampling a word from the zone automaton of a timed automaton yields a word exactly if the language is not empty, and every sampled word is accepted by the "
     "automaton and has non-negative durations.",
     ["programs", "inputs"], "all automata, including resets to constants and to other clocks, and products",
     "the tests sample from three fixed automata; guards with several clocks and copied clocks are not sampled",
     ["src/ta2za.cc", "include/zone_automaton.hh", "include/symbolic_run.hh", "include/zone.hh"],
     [("forward exploration with extrapolation", "src/ta2za.cc"), ("breadth-first sampling", "include/zone_automaton.hh sample"),
      ("concretisation of a symbolic run", "include/symbolic_run.hh reconstructWord")],
     ["ZoneAutomaton::sample and sampleWithMemo"],
     check="random automata, products and chains of narrow guards; emptiness is decided by region-graph search, words by simulation")

CHECKS = {
    "C01": "", "C02": "", "C03": "", "C04": "", "C05": "", "C06": "", "C07": "",
}
exec(open(os.path.join(HERE, "tools", "more_properties.py")).read()) if os.path.exists(
    os.path.join(HERE, "tools", "more_properties.py")) else None

P.sort(key=lambda p: p[0]["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, check, reason in P:
    if reason or not os.path.exists(os.path.join(HERE, "checks", p["id"] + ".cc")):
        na.append({"property": p["id"], "reason": reason or "the check is not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./run_check.sh {p['id']} quick",
                   "thorough_cmd": f"./run_check.sh {p['id']} thorough",
                   "technique": "property-based testing: " + check, "level": "exploration",
                   "level_note": "generated-input search against an explicit oracle within the bounds of the generators (DESIGN.md); no proof of absence",
                   "evidence_file": f"evidence/{p['id']}.json"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Every check rebuilds itself from /repo's working tree. known_findings.txt lists the findings and repairs."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
