"""What each property's check builds and runs."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import gen

COMMON = ["-std=c++20", "-g1", "-DLEXY_HAS_UNICODE_DATABASE=1", "-DLEXY_EXPERIMENTAL=1", "-DLEXY_ENABLE_ASSERT=1",
          "-Wno-everything", "-fno-omit-frame-pointer"]
FLAGS = {
    "asan": COMMON + ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "asan0": COMMON + ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": COMMON + ["-O1", "-fsanitize=thread"],
    "plain": COMMON + ["-O2"],
}
CHECKS = {}


def grammars(name, gprofile, header, nseed, quick, thorough, per_tu=2, nfixed=None, shards=8, extra=(), main="gmain.cpp", **more):
    """Engine G: grammars of the committed corpus plus fresh ones for VERIF_SEED, compared with the reference model."""
    def units(seed, tier, scratch):
        prof, _ = gen.PROFILES[gprofile]
        corpus = json.load(open(os.path.join(HERE, "harness", "corpus.json")))[gprofile]
        fixed = [gen.generate(s, prof) for s in (corpus if tier == "thorough" else corpus[:nfixed])]
        n = nseed * (4 if tier == "thorough" else 1)
        fresh = gen.select(n, 5 * n, 1000000 + seed * 1000, prof) if n else []
        srcs = []
        for part, gs in (("f", fixed), ("s", fresh)):
            for i, text in enumerate(gen.emit(gs, part, header, per_tu)):
                path = os.path.join(scratch, f"{name}_{part}{i}.cpp")
                with open(path, "w") as f:
                    f.write(text)
                srcs.append(path)
        return [dict(name=name, src=srcs + [main, ("gm.cpp", [], "plain")] + list(extra), defs=[f"GD_CASES_QUICK={quick}", f"GD_CASES_THOROUGH={thorough}"],
                     shards=shards, **more)]
    return units


def both(*us):
    def units(seed, tier, scratch):
        r = []
        for u in us:
            r += u(seed, tier, scratch) if callable(u) else u
        return r
    return units


GRULE = ("one case = one (grammar, input) pair run through the real parser and the reference interpreter; "
         "distinct = distinct (grammar, event sequence) pairs with more than three parse events")

CHECKS["C04"] = dict(
    units=grammars("grammars", "all", "g04.hpp", 8, 300000, 8000000),
    rule=GRULE, require={"grammars_with_success": 30, "status_success": 2000, "status_recovered": 500, "errors_compared": 5000},
    assumptions=["the reference interpreter harness/gm.cpp states the documented meaning of the rules"])
GA = ["the reference interpreter harness/gm.cpp states the documented meaning of the rules"]
CHECKS["C04"]["assumptions"] = GA

CHECKS["C02"] = dict(
    units=both(grammars("grammars", "inputs", "g02.hpp", 4, 60000, 1500000, per_tu=1),
               [dict(name="representations", src=[("h02.cpp", ["H02_PART=%d" % i]) for i in range(7)] + ["h02main.cpp"], shards=8)]),
    rule=GRULE + "; for the differential harness distinct = distinct (grammar, encoding, outcome)",
    require={"representations_compared": 500000, "status_success": 1000}, assumptions=GA)
CHECKS["C03"] = dict(
    units=grammars("grammars", "actions", "g03.hpp", 8, 120000, 3000000),
    rule=GRULE, require={"trace_events": 100000, "status_success": 1000, "status_recovered": 300}, assumptions=GA)
for _pid, _prof in (("C06", "recovery"), ("C15", "space"), ("C16", "context")):
    CHECKS[_pid] = dict(
        units=grammars("grammars", _prof, "g04.hpp", 8, 250000, 6000000),
        rule=GRULE, require={"status_success": 1000, "status_recovered": 300, "errors_compared": 5000}, assumptions=GA)

CHECKS["C15"]["units"] = both(CHECKS["C15"]["units"], [dict(name=f"insertion{k}", src=[("h15.cpp", ["H15_CASES=6000", f"H15_SPACE={k}"])], shards=2) for k in range(5)])
CHECKS["C15"]["rule"] += "; for insertions distinct = distinct documents before whitespace is inserted"
CHECKS["C15"]["require"].update({"documents": 5000, "insertions": 20000, "insertions_elsewhere": 1000, "documents_with_errors": 1000, "token_lexemes": 5000})
CHECKS["C16"]["units"] = both(CHECKS["C16"]["units"], [dict(name="state", src=[("h16.cpp", ["H16_CASES=500000"])], shards=8)])
CHECKS["C16"]["rule"] += "; for parse-state documents distinct = distinct (maximum depth, document) pairs"
CHECKS["C16"]["require"].update({"state_accesses": 200000, "depth_exceeded": 5000, "depth_reached": 5000, "scans": 10000})

CHECKS["C05"] = dict(
    units=both(grammars("grammars", "trees", "g05.hpp", 5, 120000, 4000000),
               [dict(name="builder", src=["h05.cpp"], shards=8)]),
    rule=GRULE + "; for hand-built trees distinct = distinct resulting trees with several nodes",
    require={"tree_nodes_checked": 500000, "built_trees_over_one_block": 1000, "tree_inputs": 500, "trees_moved": 500}, assumptions=GA)


def unicode_units(seed, tier, scratch):
    import gen07
    srcs = []
    for i, text in enumerate(gen07.emit(seed, 40 if tier == "thorough" else 12, 8)):
        path = os.path.join(scratch, f"h07g{i}.cpp")
        with open(path, "w") as f:
            f.write(text)
        srcs.append(path)
    return [dict(name="unicode", src=srcs + ["h07.cpp", ("u8.cpp", [], "plain")], shards=8)]


CHECKS["C07"] = dict(
    units=unicode_units,
    rule="one case = one code unit sequence, code point or (class, text) pair compared with independent tables; distinct = distinct mixed sequences or (class, text) pairs",
    require={"sequences_decoded": 150000, "class_membership": 500000, "code_points_classified": 1114112, "fold_strings": 10000},
    assumptions=["harness/ucd15.inc is the Unicode 15.0 database (extracted from perl's copy, cross-checked with python's)"])


def generated(name, module, main, n, nthorough, extra=()):
    """Generated instantiation TUs (fixed set plus VERIF_SEED) with one main."""
    def units(seed, tier, scratch):
        mod = __import__(module)
        srcs = []
        for i, text in enumerate(mod.emit(seed, nthorough if tier == "thorough" else n, 8)):
            path = os.path.join(scratch, f"{name}{i}.cpp")
            with open(path, "w") as f:
                f.write(text)
            srcs.append(path)
        return [dict(name=name, src=srcs + [main] + list(extra), shards=8)]
    return units


CHECKS["C08"] = dict(
    units=generated("integers", "gen08", "h08.cpp", 14, 60),
    rule="one case = one (rule, digit string or bytes) pair parsed and compared with exact 128-bit arithmetic; distinct = distinct pairs",
    require={"integers_exact": 50000, "integers_overflow": 20000, "integers_recovered": 1000, "integers_rejected": 1000, "bytes_matched": 10000, "signed_integers": 10000},
    assumptions=["how far recovery skips separators after a malformed digit string, and the value after an overflow, are not judged"])

CHECKS["C09"] = dict(
    units=generated("literals", "gen09", "h09.cpp", 22, 120, [("u8.cpp", [], "plain")]),
    rule="one case = one (rule, encoded text) pair parsed and compared with a search over the decoded text; distinct = distinct pairs",
    require={"literals": 10000, "literal_sets": 10000, "keywords": 10000, "symbols": 10000, "symbols_in_tokens": 10000, "symbols_in_identifiers": 10000, "identifiers": 30000,
             "matched": 50000, "reserved": 5000},
    assumptions=["symbols used with an identifier are themselves valid identifiers; literals used with case folding are in folded form (documented precondition)"])

CHECKS["C10"] = dict(
    units=generated("delimited", "gen10", "h10.cpp", 16, 96, [("u8.cpp", [], "plain")]),
    rule="one case = one (delimited rule, encoded text) pair parsed and compared with a character-by-character loop: errors, sink calls, tokens and built string; distinct = distinct pairs",
    require={"delimited": 50000, "delimited_recovered": 20000, "missing_delimiter": 10000, "escapes": 50000, "invalid_escapes": 5000, "bad_characters": 20000, "strings_built": 20000},
    assumptions=["escape tokens of one rule begin with distinct characters (documented requirement)"])

CHECKS["C11"] = dict(
    units=generated("expressions", "gen11", "h11.cpp", 12, 80),
    rule="one case = one (expression production, text) pair parsed and compared with recursive descent over the levels: grouping, callback arguments, tree, errors, end; distinct = distinct pairs with at least two operators",
    require={"expressions": 50000, "chain_errors": 5000, "nesting_errors": 5000, "mixed_groups": 1500, "recovered": 10000, "trees_compared": 50000},
    assumptions=["operators of different operations do not share a prefix unless guarded by not_followed_by (documented caution)",
                 "the nesting limit counts the operators of one expression, as the tests have it; the value after a failed operand and everything after mixed groups is not judged"])

CHECKS["C12"] = dict(
    units=[dict(name="locations", src=["h12.cpp", ("u8.cpp", [], "plain")], shards=8)],
    rule="one case = one (input, counting policy, position or range) compared with counting from the beginning; distinct = distinct (text, policy)",
    require={"locations": 500000, "annotations": 1000000, "annotations_exact": 500000},
    assumptions=["for positions or ranges that do not begin at a character, only the parts that are well defined are compared"])

WRAP = ["-Wl,--wrap=" + f for f in ("open", "close", "lseek", "read", "mmap", "munmap")]
CHECKS["C13"] = dict(
    units=[dict(name="buffers", src=["h13.cpp", "REPO/src/input/file.cpp"], libs=WRAP + ["-lpthread"], shards=8)],
    rule="one case = one program over a pool of buffers, one conversion of bytes, one file, stdin or argv read; distinct = distinct programs, byte sequences and (size, fault) pairs",
    require={"buffer_operations": 300000, "readers": 1000000, "raw_buffers": 20000, "files_read": 2000, "faults_reported": 1000, "file_errors": 100, "stdin_read": 500,
             "stdin_errors": 100, "argv_inputs": 8000, "resource_allocations": 150000, "resource_trees": 20000},
    assumptions=["file sizes are multiples of the size of a code unit (documented precondition as an assertion)", "system call failures are injected at the libc boundary"])

CHECKS["C14"] = dict(
    units=both(grammars("grammars", "values", "g14.hpp", 6, 150000, 5000000),
               [dict(name="callbacks", src=["h14.cpp", ("u8.cpp", [], "plain")], shards=8)]),
    rule=GRULE + "; every value is an object that records its construction, moves, deliveries and destruction; for the adapters one case = one round of calls of one "
         "adapter family with random arguments compared with its definition, distinct = distinct sets of results",
    require={"values_made": 150000, "values_delivered": 100000, "callbacks_thrown": 30000, "results_compared": 5000000, "status_recovered": 300}, assumptions=GA)

CHECKS["C17"] = dict(
    units=both(grammars("grammars", "diagnostics", "g17.hpp", 4, 60000, 2000000, nfixed=12, extra=[("u8.cpp", [], "plain")]),
               [dict(name="output", src=["h17.cpp", ("u8.cpp", [], "plain")], shards=8)]),
    rule=GRULE + "; every output (code point, lexeme, annotation, report, trace, tree) is compared with an independent renderer under random options, and traces and "
         "lexemes are read back; for the hand-written part distinct = distinct expected outputs",
    require={"outputs_compared": 300000, "trace_events": 500000, "annotations_shown": 100000, "errors_shown": 50000, "reports": 10000, "trees_shown": 20000,
             "far_locations": 1}, assumptions=GA + ["harness/diag.hpp states the documented output"])

CHECKS["C18"] = dict(
    units=both(grammars("grammars", "actions", "g18.hpp", 2, 0, 0, per_tu=1, nfixed=6, shards=4, main="g18main.cpp", profile="tsan"),
               [dict(name="library", src=["h18.cpp", "REPO/src/input/file.cpp"], shards=4, profile="tsan")]),
    rule="one case = one round of jobs (parse with some action, diagnostic, tree walk, buffer, file, callback ...) on shared constant data in six threads under ThreadSanitizer, "
         "or one history of such jobs in one thread; every result is compared with the result of that job alone; distinct = distinct pairs of jobs that were observed "
         "to run at the same time",
    require={"concurrent_jobs": 50000, "overlapping_pairs": 50000, "repeated_jobs": 10000, "shared_inputs": 30},
    assumptions=["ThreadSanitizer reports races on executed accesses only; interleavings come from the scheduler and random job orders"])

CHECKS["C19"] = dict(
    units=grammars("scanning", "scan", "g19.hpp", 5, 100000, 3000000, per_tu=1, nfixed=16),
    rule="one case = one (program, input) pair: a production driven by scanner calls, as dsl::scan under parse, parse_as_tree and validate and as lexy::scan, "
         "compared with the reference interpreter running the same rules declaratively; distinct = distinct (program, event sequence) pairs",
    require={"scanner_steps": 300000, "refused_steps": 100000, "recoveries": 3000, "discarded": 20000, "branches_taken": 20000, "branches_not_taken": 20000,
             "integers": 5000, "status_success": 1000, "status_recovered": 300},
    assumptions=GA + ["lexy::scan does not skip whitespace before its first step"])

CHECKS["C20"] = dict(
    units=[dict(name="shell", src=["h20.cpp"], shards=8)],
    rule="one case = one shell session: characters, results, prompts and output compared with reading the same text from memory through a reader that records how far it looks; distinct = distinct prompt logs and results",
    require={"characters": 5000000, "inputs_walked": 8000, "messages": 8000, "parses": 30000, "standard_sessions": 3000},
    assumptions=["the prompt follows the documented contract of read_line()", "what is left of a line when the next input is prompted for is dropped, as documented"])

_H01 = {"json": 20000, "xml": 20000, "calculator": 16000, "protobuf": 30000, "email": 20000, "config": 20000, "shell": 20000, "language": 16000}


def crash_only(units, scale):
    """Another property's harnesses; only crashes, sanitizer reports, failed assertions and hangs count."""
    def go(seed, tier, scratch):
        us = units(seed, tier, scratch) if callable(units) else units
        return [dict(u, crash_only=True, scale=scale, name="reused-" + u["name"]) for u in us]
    return go


CHECKS["C01"] = dict(
    units=both(crash_only([dict(name="output", src=["h17.cpp", ("u8.cpp", [], "plain")], shards=2)], 15),
               [dict(name="hostile-" + n, src=[("h01.cpp", ["H01_PART=%d" % i, "H01_CASES=%d" % c]), "REPO/src/input/file.cpp"], shards=2)
                for i, (n, c) in sorted(enumerate(_H01.items()), key=lambda x: -x[0])],
               grammars("hostile-grammars", "all", "g01.hpp", 4, 80000, 4000000, per_tu=1, nfixed=8, shards=4, main="g01main.cpp"),
               crash_only([dict(name="builder", src=["h05.cpp"], shards=2)], 25),
               crash_only([dict(name="locations", src=["h12.cpp", ("u8.cpp", [], "plain")], shards=2)], 15),
               crash_only(CHECKS["C13"]["units"], 20),
               crash_only([dict(name="callbacks", src=["h14.cpp", ("u8.cpp", [], "plain")], shards=2)], 10),
               crash_only(CHECKS["C20"]["units"], 20)),
    rule="one case = one hostile input (derived from the grammar and then truncated, mutated, nested, repeated, or random bytes) run through match, validate with reported errors, "
         "parse, parse_as_tree with traversal and visualization, and trace, on exact allocations, buffers and ranges of several encodings under AddressSanitizer, "
         "LeakSanitizer, UndefinedBehaviorSanitizer and the library's assertions, with a time limit; distinct = distinct reports; plus the harnesses of other properties, "
         "where only abnormal ends count",
    require={"accepted": 20000, "recovered": 10000, "rejected": 50000, "errors_reported": 200000, "trees": 100000, "values": 30000, "generated_grammar_inputs": 50000},
    assumptions=["recursion is bounded by the stack where the grammar sets no max_recursion_depth (documented); the harness gives 1 GB"])
CHECKS = {k: CHECKS[k] for k in sorted(CHECKS)}
