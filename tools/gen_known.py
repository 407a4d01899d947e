#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects (they suppress nothing) and recorded ones (identified by the key a check reports)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("C10", "860cb7c", "each_element/any_element moved from an lvalue matcher given to them"),
    ("C11", "add629b", "case-insensitive matchers called std::toupper with negative values (undefined behaviour)"),
    ("C02", "9f415df", "move-assigning a ScopedExpectation over an unsatisfied one terminated the program instead of reporting (noexcept operator)"),
    ("C12", "9ac3575", "printing a self-recursive range (e.g. std::filesystem::path) recursed endlessly"),
    ("C12", "0894970", "printing a null pointer to characters dereferenced it"),
    ("C07", "3a48cea", "an exception thrown by a side effect terminated the program (noexcept consume)"),
    ("C12", "07f0136", "arrays of non-characters were treated as strings and could not be printed"),
    ("C12", "96847dd", "the elements of a mutable std::vector<bool> could not be printed"),
    ("C08", "1cef597", "std::reference_wrapper as parameter type did not compile"),
    ("C15", "4fc8b4c", "moving from a moved-from RelocationWatcher dereferenced a null pointer"),
    ("C19", "e9cfa4c", "an action destroying the handle of its own expectation caused a use after free"),
    ("C20", "82a5767", "matchers adapted by custom::matcher_traits did not compile nested in each_element/any_element (and matchers with both traits and members were described by the traits but asked by the members)"),
    ("C10", "f600b01", "matches::eq, ne, lt, le, gt, ge unpacked an expected std::pair or std::tuple into several values (did not compile, or compared a one-element tuple's content)"),
    ("C09", "29dc186", "parenthesised types given to the interface macros did not compile"),
]
KNOWN = [
    ("C17", r"conc/concurrent-matching: data race ControlPolicy\.hpp",
     "calls of two threads which are answered at the same time by different expectations of one mock: the count of the answering expectation is written without the mock's lock (ControlPolicy::consume) while the other call reads it under the lock (data race)"),
    ("C16", r"rep-own/seqend: terminate called after throwing an instance of 'mimicpp::Error<.*>'",
     "a sequence which ends unfulfilled while no exception is unwinding (its expectations' reports were caught before): DefaultReporter::report_error throws out of ~BasicSequence through the noexcept deleter of std::shared_ptr and terminates the program"),
]
out = []
for p, c, w in FIXED:
    full = subprocess.run(["git", "-C", "/repo", "rev-parse", c], stdout=subprocess.PIPE, text=True).stdout.strip()
    out.append({"property": p, "status": "fixed", "commit": full, "what": w, "line": "fixed: property=%s %s %s" % (p, full[:7], w)})
for p, key, w in KNOWN:
    out.append({"property": p, "status": "known", "key": key, "what": w})
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
