# Executed by properties.py: the properties on the parts below the learner.

prop("C08", "Running an automaton answers membership, whatever was run before",
     "Feeding a timed word step by step to a runner of a timed automaton reports after every step whether the prefix fed so far is accepted, "
     "also when a delay is fed in pieces, when there are unobservable transitions, and after any number of earlier, possibly abandoned runs. "
     "The membership oracle on top of it gives the same answers and counts every query exactly once.",
     ["inputs", "histories", "programs"],
     "all deterministic automata (with unobservable transitions taken when they become enabled), all timed words, all histories of runs on one runner",
     "state left over from one run shows only in a later one; the tests run one or two words on a fixed automaton",
     ["include/timed_automaton_runner.hh", "include/sul.hh", "include/membership_oracle.hh", "include/timed_automaton.hh"],
     [("configuration, step by delay and by action", "include/timed_automaton_runner.hh TimedAutomatonRunner::step"),
      ("delay until an unobservable transition", "include/timed_automaton.hh lowerBoundDurationToSatisfy"),
      ("feeding a word", "include/membership_oracle.hh answerQuery")],
     ["the answers of step and answerQuery, the calls made to the system under learning, count"],
     state=[("configuration", "location and clock valuation of the current run", "include/timed_automaton_runner.hh")],
     check="model-based random histories of runs and membership queries, compared step by step with an independent simulator")

prop("C10", "Operations on timed conditions agree with the timed words they denote",
     "A timed condition denotes the sequences of delays that satisfy its constraints; satisfiability, inclusion, equality, hashing, hull, "
     "intersection, concatenation, successor, enumeration into simple conditions, restriction and resets agree with that meaning, as do "
     "membership, sampling, restriction and enumeration of elementary languages. Juxtaposing two conditions with common variables or a renaming "
     "keeps exactly the pairs of words that agree on the identified sums.",
     ["inputs", "histories"],
     "all satisfiable bounded timed conditions built by the library, all operations and words",
     "each operation is a dozen index computations over a matrix; the tests fix one or two matrices per operation",
     ["include/timed_condition.hh", "include/timed_condition_set.hh", "include/elementary_language.hh", "include/juxtaposed_zone.hh",
      "include/juxtaposed_zone_set.hh"],
     [("timed conditions", "include/timed_condition.hh"), ("elementary languages", "include/elementary_language.hh"),
      ("juxtaposition", "include/juxtaposed_zone.hh")],
     ["the public operations of TimedCondition, ElementaryLanguage and JuxtaposedZone, compared with sets of points"],
     check="random conditions and operations; the result is compared with the set of words it should denote on words near the bounds and random ones")

prop("C12", "Operations on zones agree with the clock valuations they denote",
     "Guards, difference constraints, passing of time in both directions, simultaneous resets with copies and constants and their inversion, "
     "intersection, restriction, inclusion, equality, hashing, emptiness and sampling of zones agree with the sets of clock valuations the zones "
     "denote. Extrapolation adds only valuations that cannot be told apart by the automaton.",
     ["inputs", "histories"],
     "all sequences of operations on zones of any number of clocks, all valuations",
     "a wrong bound shows only after particular sequences of operations; the tests check a few matrices",
     ["include/zone.hh", "include/bounds.hh"],
     [("operations on difference bound matrices", "include/zone.hh"), ("bounds", "include/bounds.hh")],
     ["the public operations of Zone, compared with sets of valuations"],
     check="stateful random histories of zone operations; after every step the zone is compared with the set defined by the previous one")

prop("C13", "Operations on guards agree with the clock valuations they denote",
     "Satisfaction, simplification, conjunction, negation of a disjunction of guards, widening, satisfiability, weakening, hulls and delays "
     "until a guard holds agree with the sets of clock valuations the guards denote.",
     ["inputs"],
     "all guards over any number of clocks with integer constants, including redundant and contradictory ones",
     "the relevant cases are combinations of strict and attained bounds, redundancy and contradiction; the tests list a handful",
     ["include/constraint.hh", "src/constraint.cc", "include/timed_automaton.hh"],
     [("simplification, negation, hulls", "include/constraint.hh"), ("delays", "include/timed_automaton.hh lowerBoundDurationToSatisfy")],
     ["the public functions on guards, compared with sets of valuations on the grid of integers and midpoints"],
     check="random guards; the meaning of each result is compared with the expected set on all grid points")

prop("C09", "Symbolic membership describes exactly the accepted words",
     "For an elementary language, the symbolic membership oracle returns disjoint timed conditions that contain exactly those of its words that the "
     "target accepts: none if all are rejected, its own condition if all are accepted. Asking again gives the same answer, and however queries overlap, "
     "the system under learning sees every timed word at most once and the reported numbers of queries are right.",
     ["inputs", "histories", "programs"],
     "all deterministic targets with integer resets, all elementary languages, all histories of symbolic and plain queries to one oracle",
     "the cells of the observation table are these answers, so an inexact one silently corrupts learning; the tests ask a few queries about fixed targets",
     ["include/symbolic_membership_oracle.hh", "include/timed_condition_set.hh", "include/elementary_language.hh", "include/membership_oracle.hh"],
     [("deciding the simple parts and joining them", "include/symbolic_membership_oracle.hh query"),
      ("joining simple conditions", "include/timed_condition_set.hh reduce")],
     ["the conditions returned by query, the words seen by the system under learning, count, printStatistics"],
     state=[("caches", "symbolic answers and answered words", "include/symbolic_membership_oracle.hh")],
     check="random histories of symbolic queries about random targets; answers compared with an independent simulator on words of every region")

prop("C11", "Regional languages are the classes of words the table cannot tell apart",
     "A forward (backward) regional elementary language denotes the timed words with the same actions whose sums of durations up to the end (from the "
     "front) agree in integer parts and fractional order; equality and hashing mean exactly this. Its successors (predecessors) by an action and by time "
     "are the languages reached next, immediate prefixes and suffixes undo them, and prefixes lists exactly the languages on the way. "
     "A language is included in the concatenation of any of its prefixes with the suffix it reports, and resets lead to a language that is reached.",
     ["inputs", "histories"],
     "all timed words, all sequences of successors and predecessors, all splits of a word into prefix and suffix",
     "the tests follow a few fixed sequences; errors show only with several different fractional parts",
     ["include/forward_regional_elementary_language.hh", "include/backward_regional_elementary_language.hh", "include/fractional_order.hh",
      "include/timed_condition.hh"],
     [("forward successors and prefixes", "include/forward_regional_elementary_language.hh"),
      ("backward predecessors and suffixes", "include/backward_regional_elementary_language.hh"),
      ("fractional order", "include/fractional_order.hh")],
     ["the languages returned, compared with regions computed from a concrete timed word walked alongside"],
     check="random walks through regions next to a concrete timed word, pairs of close words, random splits and resets")

prop("C14", "Timed words are sequences of delays and observable actions",
     "Building a timed word from actions and durations with unobservable actions in it adds up the durations around them; concatenating words adds the "
     "last duration of the first to the first duration of the second and joins the actions, a suffix of a word by a prefix of it is the word that gives it back "
     "when concatenated, and equality and hashing follow the actions and durations.",
     ["inputs"],
     "all timed words, all splits and concatenations, with any number of unobservable actions at any place",
     "the tests concatenate a few words of one or two actions",
     ["include/timed_word.hh"],
     [("construction, concatenation, suffixes, printing", "include/timed_word.hh")],
     ["the actions and durations of the words returned, their printed form"],
     check="random words and splits; the results are compared with sequences of delays and actions joined independently, and with algebraic laws")

prop("C15", "Prefixes are identified only when no suffix of the table tells them apart",
     "When the comparison of two rows says yes for a renaming, some words of the two prefixes are related by it, and any two related words have the same "
     "membership for each suffix; the converse holds if all cells are convex, and a row always equals itself. The renamings found by the search satisfy "
     "this, relate every clock at most once, are found whenever one exists for convex rows, and the reset made of one leads from every valuation of the "
     "one region to a valuation of the other that it relates.",
     ["inputs", "programs"],
     "all pairs of forward regional elementary languages of a target, all sets of suffixes, all renamings",
     "a wrong comparison merges different states or never closes the table, and shows only for particular pairs of rows; the tests compare a handful",
     ["include/equivalence.hh", "include/renaming_relation.hh", "include/juxtaposed_zone_set.hh", "include/juxtaposed_zone.hh"],
     [("comparison under a renaming and search for one", "include/equivalence.hh"),
      ("renamings and the resets made of them", "include/renaming_relation.hh"),
      ("juxtaposition of rows", "include/juxtaposed_zone_set.hh")],
     ["the verdicts and renamings returned, the resets made of them"],
     check="random targets, prefixes, suffixes and renamings; the verdict is compared with exact set difference of difference bound matrices built independently")

prop("C16", "Hypotheses recognize what the observation table tells",
     "For a closed, consistent and time-saturated table, the recognizable language maps every timed word in finitely many steps to a word of a prefix: each step "
     "splits the word at a prefix outside of the table's and replaces that by a word of an equivalent prefix, with the same membership. The hypothesis made of "
     "the table is deterministic and accepts a word if and only if it is mapped to a final prefix, so it is right on all prefixes. The analysis of a "
     "counterexample returns a suffix that is in none of the given suffix languages and tells a mapped prefix from its image, whenever there is one.",
     ["inputs", "histories"],
     "all targets on which no unobservable transition is needed, all histories of refinements, all timed words",
     "the tests build a few tables; the construction depends on which clocks a renaming leaves imprecise, many rounds into learning",
     ["include/observation_table.hh", "src/observation_table.cc", "include/recognizable_languages.hh", "include/single_morphism.hh",
      "include/counterexample_analyzer.hh", "include/imprecise_clock_handler.hh", "include/neighbor_conditions.hh",
      "include/internal_transition_maker.hh", "include/external_transition_maker.hh", "src/timed_automaton.cc"],
     [("refinement of the table", "include/observation_table.hh close, consistent, exteriorConsistent, timeSaturate, handleCEX"),
      ("hypothesis construction", "include/observation_table.hh generateHypothesis"),
      ("mapping words", "include/recognizable_languages.hh"), ("analysis of counterexamples", "include/counterexample_analyzer.hh")],
     ["the hypotheses and recognizable languages generated, the suffixes returned by the analysis"],
     state=[("observation table", "prefixes, suffixes, cells and morphisms", "include/observation_table.hh")],
     check="tables of random targets refined round by round; hypothesis, repeated mapping and an independent simulator of the target are compared on guided words")

prop("C17", "Automata and resets keep their meaning when printed, copied and merged",
     "The printed form of an automaton says exactly its locations, initial and accepting ones, transitions, guards and resets; a deep copy is the same "
     "automaton and shares nothing with the original. A state is reported deterministic if and only if no two of its transitions are enabled together. "
     "Removing redundant transitions keeps where each target is enabled; merging overlapping ones leaves none that overlap, disables no valuation, invents "
     "no transition and changes nothing without overlap; composed, cleaned or completed resets assign what the originals assign in sequence.",
     ["inputs", "programs"],
     "all automata (with choice, several initial states, unobservable transitions), all transitions leaving a state, all pairs of resets",
     "the tests print, copy and merge a handful; a wrong merge shows only for particular triples of guards",
     ["include/timed_automaton.hh", "src/timed_automaton.cc", "include/constraint.hh"],
     [("printing and deep copy", "include/timed_automaton.hh operator<<, deepCopy, makeMaxConstants"),
      ("determinism and merging of transitions", "src/timed_automaton.cc deterministic, mergeNondeterministicBranching, removeTransitionsWithWeakerGuards"),
      ("resets", "include/timed_automaton.hh composition, clean, addDefault")],
     ["the printed text, the states and transitions of the automata returned, the assignments of the resets returned"],
     check="random automata printed and parsed back, copied and changed; guards compared as boxes and on grids of valuations; resets executed one after the other")
