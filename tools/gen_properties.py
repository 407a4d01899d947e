#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
I = "include/mimic++/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [I + f for f in files],
            "mechanism": [{"name": n, "where": I + w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": I + w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": hook,
        }})

prop("C01", "Every call on a mock is resolved exactly once, by the right outcome",
     "A call on a mock is answered by exactly one live expectation that was set up for that mock and signature, accepts the call with all of its requirements and may still be used; if some expectations accept the call but none of them may be used, exactly one inapplicable-match report is made, and if none accepts it, exactly one no-match report is made. "
     "A call that is not answered changes nothing: no expectation's count, no sequence position, no side effect and no result producer is touched. "
     "An answered call is reported as exactly one full match naming the expectation that answered it, before its side effects run.",
     ["histories", "inputs"],
     "every interleaving of creating, moving, using up and destroying expectations on any number of mocks (including moved mocks), and every argument list",
     "The dispatch unit tests are not in the running suite and the examples use one to three expectations; which of many competing, partly used-up, partly blocked expectations answers depends on the whole history.",
     ["Expectation.hpp", "Mock.hpp", "Reports.hpp"],
     [("ExpectationCollection::handle_call", "Expectation.hpp:ExpectationCollection"), ("evaluate_match_report", "Reports.hpp:evaluate_match_report"), ("pick_best_match", "Expectation.hpp:detail::pick_best_match")],
     [("m_Expectations", "live expectations of one signature in creation order", "Expectation.hpp:ExpectationCollection")],
     ["IReporter::report_full_match / report_no_matches / report_inapplicable_matches", "value returned by the mock call", "side effects and finalizer invocations"])

prop("C02", "Call limits are enforced and unmet lower limits are reported exactly once",
     "An expectation answers at most as many calls as its upper limit allows, and it says it is satisfied exactly when the number of calls it answered lies within its limits. "
     "Destroying an expectation which answered fewer calls than its lower limit makes exactly one unfulfilled-expectation report about it, at that moment, and destroying any other expectation makes none. "
     "Moving the handle of an expectation, or overwriting a handle by move-assignment, neither loses nor duplicates an expectation, its count or its report.",
     ["histories", "inputs"],
     "all lower/upper limits (exact, at least, at most, ranges, never, defaults), all call histories, all ways of moving and destroying handles",
     "Tests fix a handful of limits and call counts; accounting errors show only for particular combinations of limit kinds, near-saturation histories, nested calls and handle moves.",
     ["ControlPolicy.hpp", "Expectation.hpp", "ExpectationBuilder.hpp"],
     [("ControlPolicy::consume/is_satisfied/state", "ControlPolicy.hpp:ControlPolicy"), ("TimesConfig", "ControlPolicy.hpp:detail::TimesConfig"), ("ExpectationCollection::remove", "Expectation.hpp:ExpectationCollection"), ("ScopedExpectation", "Expectation.hpp:ScopedExpectation")],
     [("m_Count", "calls answered so far", "ControlPolicy.hpp:ControlPolicy")],
     ["ScopedExpectation::is_satisfied", "IReporter::report_unfulfilled_expectation", "inapplicable-match reports"])

prop("C03", "Without sequences the latest created usable expectation answers",
     "When several unsequenced live expectations accept a call and may still be used, the one created last answers it, and as soon as that one is used up or destroyed the next most recently created one takes over. "
     "The order is the order of creation and does not change when handles are moved, other expectations are destroyed or used up, or the mock itself is moved.",
     ["histories"],
     "all interleavings of creations, destructions, exhaustion and calls with any overlap of the accepted arguments",
     "Tests exercise two overlapping expectations in nested scopes; preference among many with holes from destroyed and exhausted ones is not sampled.",
     ["Expectation.hpp", "Sequence.hpp"],
     [("reverse iteration over m_Expectations", "Expectation.hpp:ExpectationCollection::handle_call"), ("pick_best_match", "Expectation.hpp:detail::pick_best_match")],
     [], ["identity returned by the answering expectation", "IReporter::report_full_match"])

prop("C04", "Sequenced expectations are answered in order, across mocks and sequences",
     "An expectation attached to sequences answers a call only if, in each of those sequences, every expectation attached before it has reached its lower limit and no expectation attached after it has answered yet; otherwise it is treated as matching but inapplicable. "
     "This holds no matter which mocks the expectations belong to, when they were attached, and whether the other expectations or the sequence objects themselves were meanwhile destroyed. "
     "A sequence that comes to its end with entries short of their lower limit is reported as an error exactly once, and a completed sequence is never reported.",
     ["histories"],
     "all attach/call/destroy histories over several mocks, several sequences of both kinds and all call limits",
     "The sequence unit tests do not run in the suite and the examples show at most two or three entries; ordering errors need particular count/limit/cursor states over multiple sequences.",
     ["Sequence.hpp", "ControlPolicy.hpp"],
     [("BasicSequence::is_consumable/consume/set_satisfied/set_saturated", "Sequence.hpp:detail::BasicSequence"), ("BasicSequence destructor", "Sequence.hpp:detail::BasicSequence"), ("ControlPolicy::update_sequence_states", "ControlPolicy.hpp:ControlPolicy"), ("make_control_state", "ControlPolicy.hpp:detail::make_control_state")],
     [("m_Entries/m_Cursor", "state of each attached expectation and current position", "Sequence.hpp:detail::BasicSequence")],
     ["which expectation answers", "inapplicable-match reports", "IReporter::report_error"])

prop("C05", "Lazy sequences advance least, greedy sequences advance most",
     "If a call could be answered by several expectations of the same lazy sequence, the one attached earliest among them answers; for the same greedy sequence, the one attached latest answers. "
     "This holds independently of the order of creation relative to unrelated expectations, of the current position in the sequence and of how often each of them was used.",
     ["histories"],
     "all sequence lengths, call limits, positions and overlaps of accepted arguments, for both sequence kinds",
     "Two example snippets show one situation per kind; a wrong preference appears only when several optional entries compete at a non-initial position.",
     ["Sequence.hpp", "Expectation.hpp"],
     [("LazyStrategy/GreedyStrategy", "Sequence.hpp:detail"), ("has_better_rating", "Sequence.hpp:detail::has_better_rating"), ("pick_best_match", "Expectation.hpp:detail::pick_best_match")],
     [], ["identity returned by the answering expectation", "sequence ratings in reports"])

prop("C06", "Invalid set-ups are rejected with an exception and leave no trace",
     "Asking for call limits is accepted exactly if both limits are non-negative and the lower does not exceed the upper, attaching one expectation to the same sequence twice is always rejected, and expecting an object's destruction a second time is always rejected; each rejection is an exception of the documented type. "
     "A rejected set-up leaves every mock, sequence and already existing expectation behaving as if it had never been attempted.",
     ["inputs", "histories"],
     "all pairs of integers as limits; all ways and orders of attaching 2 or more sequences with duplicates; all moments of the attempt",
     "Tests check a few negative numbers and one duplicate; the acceptance boundary over all integers and the after-effects on shared state are not sampled.",
     ["ControlPolicy.hpp", "Sequence.hpp", "ExpectationBuilder.hpp", "ObjectWatcher.hpp"],
     [("TimesConfig constructor", "ControlPolicy.hpp:detail::TimesConfig"), ("sequence Config duplicate check", "Sequence.hpp:detail::Config"), ("LifetimeWatcher::expect_destruct", "ObjectWatcher.hpp:LifetimeWatcher")],
     [], ["exceptions thrown while building an expectation", "later behaviour of the involved mocks and sequences"])

prop("C07", "Side effects and result producer run exactly once per answered call, in order",
     "For each answered call, all side effects of the answering expectation run exactly once, in the order they were attached, after the match was decided and before the result is produced, and then the result producer runs exactly once. "
     "The caller receives exactly the produced value, reference or thrown exception, and nothing attached to any other expectation runs. "
     "Result and side-effect producers that keep state observe every answered call exactly once, in call order.",
     ["histories", "inputs"],
     "any number and kind of side effects and producers (fixed values, references, arguments, computed results, exceptions), any call history",
     "Tests attach one or two actions and call once or twice; duplication, omission or reordering for longer chains, repeated calls or other result kinds would not be noticed.",
     ["Expectation.hpp", "ExpectationPolicies.hpp", "ExpectationBuilder.hpp"],
     [("BasicExpectation::consume/finalize_call", "Expectation.hpp:BasicExpectation"), ("SideEffectAction/ReturnsResultOf/Throws", "ExpectationPolicies.hpp:expectation_policies")],
     [], ["trace of user callbacks", "result or exception seen by the caller"])

prop("C08", "Arguments reach matchers and actions by identity; results come back intact",
     "Requirements, side effects and result producers observe the very objects the caller passed (same address and value, reference and const qualification of the parameter), no argument is copied, and none is moved from unless a user action does so explicitly. "
     "Actions addressed to particular argument positions receive exactly those arguments, and results that are references or move-only values reach the caller without a copy. "
     "This holds for every parameter kind: values, lvalue and rvalue references, pointers, move-only types and polymorphic references, at any arity.",
     ["inputs", "programs"],
     "all signatures (arity, parameter categories, return categories) and all argument values",
     "Tests use a few int and reference signatures; index mix-ups, hidden copies or dangling references appear only for particular mixes of parameter categories and positions.",
     ["Mock.hpp", "Call.hpp", "ExpectationPolicies.hpp", "InterfaceMock.hpp"],
     [("BasicMock::handle_call argument wrapping", "Mock.hpp:detail::BasicMock"), ("ApplyArgsAction/ApplyAllArgsAction", "ExpectationPolicies.hpp:expectation_policies"), ("finally::returns_arg / returns_param", "ExpectationPolicies.hpp:finally")],
     [], ["addresses and instance counters of probe arguments", "returned objects"])

prop("C09", "A mock's overload set behaves like the equivalent class",
     "Calling a mock with several signatures selects the same overload as calling a class that declares the same call operators with the same const, reference and noexcept qualifiers, and only expectations set up through an equally qualified view of the mock can answer the call. "
     "Interface methods implemented through the library's macros override the base-class method, forward every argument in its place and return the mocked result, for every supported arity and qualifier combination. "
     "Querying an expectation's or call's origin yields the constness and value category the call was really made with.",
     ["programs", "inputs"],
     "all sets of overloads distinguishable by parameters or const/ref qualifiers; all interface-method shapes",
     "The running tests mock a handful of interfaces; the qualifier matrix times overload sets times arity is a space of programs that no fixed test enumerates.",
     ["Mock.hpp", "InterfaceMock.hpp", "ExpectationPolicies.hpp", "TypeTraits.hpp", "Utility.hpp"],
     [("BasicMockFrontend / Mock overload set", "Mock.hpp:Mock"), ("Category/Constness policies and is_matching", "ExpectationPolicies.hpp:expectation_policies, Utility.hpp:is_matching"), ("MOCK_METHOD macros", "InterfaceMock.hpp")],
     [], ["which expectation answers", "CallReport constness and category", "override called through base reference"])

prop("C10", "Matchers decide exactly their documented relation, and negation its complement",
     "Each value, predicate, instance and range matcher accepts an argument exactly if the relation it stands for holds between the argument and the expected value (with any supplied comparator or predicate), and its negated form accepts exactly the complement. "
     "A matcher gives the same answer each time it is asked about the same argument, and neither building, copying, asking nor describing a matcher modifies the argument, the expected value or any object the user passed in. "
     "Combined element-wise matchers accept a range exactly according to their element matchers, including empty ranges.",
     ["inputs"],
     "all arguments and expected values including boundary values, NaN, empty and long ranges, lvalue and rvalue matchers, nested negation",
     "Matcher unit tests for values and ranges do not run in the suite; the others sample a few constants.",
     ["Matcher.hpp", "ExpectationPolicies.hpp"],
     [("PredicateMatcher and operator !", "Matcher.hpp:PredicateMatcher"), ("matches::eq/ne/lt/le/gt/ge/predicate/instance/type", "Matcher.hpp:matches"), ("matches::range", "Matcher.hpp:matches::range")],
     [], ["answers of matchers and of calls constrained with them", "state of the user's objects afterwards"])

prop("C11", "String matchers agree with the textual relation for all strings, without UB",
     "For every pair of strings, the string matchers for equality, prefix, suffix and containment accept exactly if the relation holds on the character sequences, their case-insensitive forms exactly if it holds after folding the case of every character, and negated forms exactly the complement. "
     "This holds for string literals, pointers, views and owning strings, with embedded zero characters where the type allows them, for empty strings and for patterns longer than the argument, and evaluating or describing them never has undefined behaviour for any character value.",
     ["inputs"],
     "all byte strings and all wide, UTF-8, UTF-16 and UTF-32 code-unit strings supported by the configuration, as pattern and as argument",
     "Tests sample a few ASCII words; lengths relations, repeated prefixes, non-ASCII bytes and zero characters decide correctness.",
     ["String.hpp", "Matcher.hpp"],
     [("string_traits / string_view and fold conversion", "String.hpp"), ("matches::str::*", "Matcher.hpp:matches::str")],
     [], ["answers of the matchers and of calls constrained with them", "arguments passed to the C character functions", "sanitizer reports"])

prop("C12", "Every value can be printed, faithfully and without undefined behaviour",
     "Any argument type can be turned into text: user printers take precedence, strings are shown quoted with their full content, ranges, arrays and tuple-like types show every element in order, optionals, pointers and source locations show their state, and any unknown type yields a placeholder. "
     "Printing terminates, never changes the printed object, and has no undefined behaviour for any value of a printable type, including empty, nested and null ones; two scalars or two strings of the same type which differ do not print alike.",
     ["inputs"],
     "all values of all nested combinations of supported types",
     "Printer tests print a couple of values per type; nesting, empties, null pointers and extreme numbers are not sampled.",
     ["Printer.hpp", "String.hpp"],
     [("Printer specialisations and print overload ranking", "Printer.hpp:detail")],
     [], ["mimicpp::print", "argument text in call reports", "sanitizer reports"])

prop("C13", "Reports tell the truth: all of it and nothing else",
     "A report about a call carries the call's actual argument values and types in order, return type, source location, constness and value category; each listed expectation carries the location where it was created, its actual limits and current count, the state of its sequences, and for each requirement its description and whether the call met it. "
     "No-match reports list exactly the expectations of that mock and signature that rejected the call, inapplicable reports exactly those which accepted it but may not be used, and an unfulfilled report describes exactly the expectation destroyed. "
     "The text rendered from a report states the same facts: matched and violated requirements under the right heading, and call-count phrases agreeing with the numbers; nothing is cut off, however long the values and descriptions are. Two reports compare equal exactly if all they tell is equal.",
     ["histories", "inputs"],
     "all histories leading to a report, all requirement combinations, limits and counts",
     "Report tests render hand-made report objects; whether real histories produce complete and truthful reports is not tested in the running suite.",
     ["Reports.hpp", "Reporter.hpp", "Expectation.hpp", "ControlPolicy.hpp", "ExpectationPolicies.hpp"],
     [("make_call_report", "Reports.hpp:make_call_report"), ("BasicExpectation::report/matches", "Expectation.hpp:BasicExpectation"), ("print_times_state and report printers", "Reports.hpp:detail"), ("stringify_*", "Reporter.hpp:detail")],
     [], ["objects and texts handed to reporters", "what() of thrown errors"])

prop("C14", "An exception inside a requirement is contained and does not disturb dispatch",
     "If checking a requirement against a call throws, exactly one unhandled-exception report is made for that expectation and call carrying that exception, that expectation counts as neither matching nor rejecting, and the call is resolved among the remaining expectations as if it did not exist. "
     "Afterwards every expectation, including the one which threw, keeps its count, position and usability, and the mock remains usable. "
     "An exception produced as the result of a call reaches the caller unchanged and the call still counts as answered.",
     ["fault_sequences", "histories"],
     "all positions and subsets of throwing requirements, all exception types, repeated faults interleaved with normal calls",
     "The single unit test about it is not in the running suite and throws once from one expectation.",
     ["Expectation.hpp", "Reporter.hpp", "ExpectationPolicies.hpp"],
     [("make_match_report", "Expectation.hpp:detail::make_match_report"), ("report_unhandled_exception", "Reporter.hpp:detail"), ("Throws", "ExpectationPolicies.hpp:expectation_policies")],
     [], ["IReporter::report_unhandled_exception", "subsequent calls"])

prop("C15", "Watched objects report destruction and relocation exactly as they happen",
     "A watched object whose destruction is expected satisfies that expectation by being destroyed (or overwritten by copy-assignment) exactly once; one that is destroyed unexpectedly, or outlives its expectation, is reported exactly once, the expectation follows a moved object, and copies start without expectations. "
     "A relocation watcher counts every move construction and move assignment of the object exactly once, and expectations about relocations follow the object to its new place. "
     "The watched object otherwise behaves as the object it wraps, and destruction and relocation expectations can be ordered in sequences like any other.",
     ["histories"],
     "all histories of creating, copying, moving, assigning, swapping, storing in containers and destroying watched objects, with expectations set at any time",
     "Tests perform one copy, move or destruction per case; longer object histories, container reallocation and interplay with sequences are not sampled.",
     ["ObjectWatcher.hpp", "Mock.hpp"],
     [("LifetimeWatcher", "ObjectWatcher.hpp:LifetimeWatcher"), ("RelocationWatcher", "ObjectWatcher.hpp:RelocationWatcher"), ("Watched", "ObjectWatcher.hpp:Watched")],
     [], ["reporter events", "wrapped object's own life-cycle counters"])

prop("C16", "Violations reach the installed reporter and fail the test, nothing else does",
     "Every report goes to the reporter installed at that moment, exactly once and under the right kind; replacing the reporter takes effect for all later reports. "
     "The built-in default reporter and each test-framework adapter make the running test fail with the full message if and only if a violation occurs, treat full matches as success and contained exceptions as warnings, and stay silent about unfulfilled expectations while another exception is unwinding instead of terminating the program. "
     "An unmatched call never returns to its caller normally.",
     ["histories", "configurations"],
     "all violation kinds at all points of a test including during stack unwinding, with each reporter and adapter available here",
     "Adapter tests check a single passing and failing case per framework; combinations with unwinding, several violations and reporter exchange are not sampled.",
     ["Reporter.hpp", "adapters/Catch2.hpp", "adapters/Doctest.hpp", "adapters/gtest.hpp", "adapters/BoostTest.hpp"],
     [("DefaultReporter/BasicReporter", "Reporter.hpp"), ("install_reporter/get_reporter", "Reporter.hpp:install_reporter"), ("adapter reporter functions", "adapters")],
     [], ["exceptions seen by the test", "exit status and output of framework test binaries", "calls into a recording reporter"])

prop("C17", "Expectations can be created and destroyed while other threads call the mock",
     "Creating and destroying unsequenced expectations on a mock concurrently with one another and with other threads' calls on the same mock causes no data race, lost or duplicated expectation, or deadlock, as long as no single expectation answers two calls at the same time (sequences are documented as not thread-safe). "
     "Each call is answered by an expectation that was live during the call, and the total number of answered calls equals the sum of the calls each expectation answered. "
     "Independent mocks can be used by different threads without any synchronisation.",
     ["schedules"],
     "all thread schedules of creation, destruction, unmatched and matched calls within the stated usage rules",
     "No running test uses threads.",
     ["Expectation.hpp", "Mock.hpp"],
     [("m_ExpectationsMx", "Expectation.hpp:ExpectationCollection")],
     [("m_Expectations", "shared list guarded by the mutex", "Expectation.hpp:ExpectationCollection")],
     ["ThreadSanitizer reports", "per-thread answered/failed counts and per-expectation counts"])

prop("C18", "No order of destroying or moving the parts causes memory errors or leaks",
     "Mocks, expectations, sequences, watchers and the values captured in them may be moved and destroyed in any order, including a mock before its expectations and a sequence object before the expectations attached to it, without access to dead or moved-from memory, undefined behaviour, leak or double release. "
     "Expectations stay usable through a mock's new location after the mock is moved, and every object handed to the library is destroyed exactly once.",
     ["histories"],
     "all interleavings of moves and destructions of all participating objects, with calls in between",
     "Tests destroy everything in reverse order of creation at scope exit and are built without sanitizers.",
     ["Mock.hpp", "Expectation.hpp", "Sequence.hpp", "ObjectWatcher.hpp", "ExpectationBuilder.hpp"],
     [("shared ownership of expectation collections", "Mock.hpp:detail::BasicMockFrontend"), ("ScopedExpectation ownership", "Expectation.hpp:ScopedExpectation"), ("shared sequence ownership", "Sequence.hpp:detail::BasicSequenceInterface")],
     [], ["AddressSanitizer / LeakSanitizer / UndefinedBehaviorSanitizer reports", "live-instance counters of captured probes"])

prop("C19", "Actions may use mocks and create expectations re-entrantly",
     "While a call is being answered, its side effects and result producer may call the same or other mocks, create expectations on them and destroy expectations, including the one answering the call, which then answers it to its end; each nested operation behaves as it would on its own. "
     "The outer call counts as already used by the expectation answering it, so that limits and sequence positions are respected across nesting, and its result is not affected by nested calls, including nested ones that fail.",
     ["histories"],
     "all nestings of calls, creations and destructions from within actions up to the explored depth",
     "No running test nests calls.",
     ["Expectation.hpp", "ControlPolicy.hpp"],
     [("lock released before consuming", "Expectation.hpp:ExpectationCollection::handle_call"), ("count before actions", "Expectation.hpp:BasicExpectation::consume")],
     [], ["trace of nested calls, answers and reports"])

prop("C20", "User extensions take part exactly like built-in parts",
     "User-supplied requirement, side-effect, result and times policies are asked, informed and finalised exactly as the built-in ones: all are asked about each candidate call, only those of the answering expectation are informed, once each and in order of attachment, and an expectation counts as satisfied or matching only if all of them agree. "
     "User-supplied printers, matchers and string types are used wherever a value of that type is printed, matched or described, also nested inside other values, and take precedence over built-in behaviour.",
     ["programs", "inputs", "histories"],
     "all combinations of custom and built-in policies, printers, matchers and string types",
     "Tests show one custom policy or printer per case.",
     ["Expectation.hpp", "ExpectationBuilder.hpp", "Printer.hpp", "Matcher.hpp", "String.hpp", "Fwd.hpp"],
     [("policy concepts and builder operators", "ExpectationBuilder.hpp, Expectation.hpp"), ("custom::Printer, custom::matcher_traits, string_traits", "Fwd.hpp, Printer.hpp, Matcher.hpp, String.hpp")],
     [], ["trace of policy invocations", "printed texts and match answers"])

prop("C21", "Wrongly assembled expectations do not compile",
     "An expectation with two times policies, two result producers, a missing result producer for a non-void signature, or with requirements and actions that do not fit the signature is rejected by the compiler, and every well-formed combination is accepted.",
     ["programs"],
     "all ways of composing expectation parts",
     "Only the programs in the test suite are compiled, all well-formed.",
     ["ExpectationBuilder.hpp", "Expectation.hpp", "ExpectationPolicies.hpp"],
     [("builder constraints and static_asserts", "ExpectationBuilder.hpp")],
     [], ["compiler diagnostics"])

prop("C22", "Behaviour does not depend on compiler, optimisation or library configuration",
     "The same program using the library makes the same decisions, results, reports and text (up to implementation-defined type names, addresses and the spelling of values that only the formatting backend formats) under every supported compiler, language standard, optimisation level, assertion setting and formatting backend available.",
     ["configurations", "histories"],
     "all supported build configurations times all workloads",
     "The suite is run in exactly one configuration (gcc, debug, default formatting backend).",
     ["Fwd.hpp", "Printer.hpp", "Utility.hpp", "String.hpp", "Expectation.hpp"],
     [("configuration macros", "Fwd.hpp, Printer.hpp, String.hpp")],
     [], ["recorded event traces of identical seeded workloads"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
