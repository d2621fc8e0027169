#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

BM = "src/beider_morse/"
LOADF = [BM+"mod.rs", BM+"languages.rs", BM+"lang.rs", BM+"rule.rs", "src/rules_parser.rs", "src/lib.rs"]
ENCF = ["src/soundex.rs", "src/refined_soundex.rs", "src/phonex.rs", "src/caverphone.rs", "src/cologne.rs", "src/nysiis.rs",
        "src/match_rating_approach.rs", "src/metaphone.rs", "src/double_metaphone.rs", "src/daitch_mokotoff.rs",
        BM+"engine.rs", BM+"rule.rs", BM+"lang.rs", BM+"mod.rs", "src/helper.rs", "src/lib.rs"]

prop("C01", "Loading Beider-Morse rules is all-or-nothing under storage errors",
 "Loading a Beider-Morse rule directory either returns an error or yields a configuration whose encoders give, for every input, name type, rule type and language set, exactly the codes that a load without storage errors gives. This holds whatever storage operation fails, with whatever error and at whatever moment (missing, unreadable or vanishing files and directories, I/O errors before, between or after partial reads, out of descriptors or memory), and the load never panics because of such an error.",
 ["fault_sequences", "crash_points", "configurations"],
 "for every rule directory, every storage operation of the load, and every sequence of errors injected into those operations",
 "the tests load one intact directory (test_assets/cc-rules) from a healthy disk; no test makes a directory read, an open, a read or an allocation fail, so neither 'the error is reported' nor 'nothing was silently left out' is exercised at any operation",
 LOADF,
 [("every std::fs error is propagated with `?`/map_err", BM+"languages.rs TryFrom<&PathBuf>, "+BM+"lang.rs build_langs, "+BM+"rule.rs Resolver::resolve"),
  ("missing name type becomes BMError::UnknownNameType", BM+"rule.rs build_rules, "+BM+"lang.rs build_langs"),
  ("ConfigFiles is only constructed after all three loads succeeded", BM+"mod.rs ConfigFiles::new")],
 observe=["return value of ConfigFiles::new", "codes of encoders built from the result"])

prop("C02", "Harmless storage behaviour never changes what is loaded",
 "Loading a complete and well-formed Beider-Morse rule directory succeeds and yields the same codes whatever order the directory is listed in, however reads are split or interrupted, whatever sizes, entry types or inode numbers the file system reports, whatever way the directory path is spelled, and whatever other files lie beside the rule files. In particular a backup, temporary or similarly named file or directory is never taken for a rule file.",
 ["fault_sequences", "configurations"],
 "for every listing order, every split of reads, every pattern of interrupted calls, every set of unrelated directory entries",
 "the tests see the single listing order, read size and file set that the developer's file system happens to give for one directory",
 LOADF,
 [("only exact file names of language lists are recognised while listing", BM+"mod.rs impl TryFrom<OsString> for NameType"),
  ("languages are kept in ordered maps/sets, not in listing order", BM+"languages.rs"),
  ("whole-file reads through std::fs::read_to_string", BM+"languages.rs, "+BM+"lang.rs, "+BM+"rule.rs")],
 observe=["return value of ConfigFiles::new", "codes"])

prop("C03", "Every load stands alone: failed, repeated and concurrent loads leave no trace",
 "What a load of a rule directory (or a build of a Daitch-Mokotoff encoder from rule text) yields depends only on the files (or text) it was given: not on earlier loads that succeeded, failed part-way or panicked, not on loads of other directories, and not on loads and encodings running at the same time in other threads. After a failed load, loading again once the files are repaired succeeds and sees the repaired contents, and configurations loaded earlier keep giving the codes they gave before.",
 ["histories", "schedules", "fault_sequences"],
 "for every history of loads, repairs, updates and failures over any number of directories, and every interleaving of concurrent loads and encodings",
 "every test performs one successful load in a fresh process; no test loads two different directories, reloads after a failure, or loads concurrently",
 LOADF + ["src/daitch_mokotoff.rs"],
 [("ConfigFiles owns its tables; no static registry of loaded rules", BM+"mod.rs ConfigFiles"),
  ("a Resolver per load, reading each file anew", BM+"rule.rs Resolver"),
  ("builder keeps per-build maps", "src/daitch_mokotoff.rs DaitchMokotoffSoundexBuilder::build")],
 observe=["results of ConfigFiles::new / build along the history", "codes of all live configurations"])

prop("C04", "A loaded configuration needs nothing from storage afterwards",
 "Once loading a rule directory has succeeded, encoding with the resulting configuration performs no storage access of any kind and gives the same codes whatever happens to the directory afterwards: files changed, damaged, removed, unmounted, or every further storage operation failing. The same holds for the configurations and encoders embedded in the library, at any time.",
 ["fault_sequences", "histories", "schedules"],
 "for every change of the directory and every storage failure after (or concurrent with the calls following) the load, and every history of calls",
 "tests never touch the rule directory after loading it, so an encoder that lazily went back to disk would pass them all",
 LOADF + [BM+"engine.rs", "src/daitch_mokotoff.rs"],
 [("all rule files are read and parsed eagerly into owned tables", BM+"rule.rs build_rules, "+BM+"lang.rs build_langs"),
  ("embedded rules are compiled in with include_str!", BM+"rule.rs mod embedded, src/daitch_mokotoff.rs DEFAULT_RULES")],
 observe=["file-system calls made by the process", "codes"])

prop("C05", "Loading is read-only, releases everything it took, and always terminates",
 "Loading a rule directory never creates, changes, locks or removes anything in storage, and when it returns, with success, error or panic, every file and directory handle it opened is closed; dropping the configuration returns the memory the load took. It terminates after a number of storage operations bounded by the size of the directory and its includes, also when rule files include themselves or each other.",
 ["fault_sequences", "crash_points", "configurations"],
 "for every directory content (including include cycles) and every storage error or allocation failure at every operation of the load",
 "no test counts handles, storage operations or memory, fails an operation half-way through a load, or has an include cycle",
 LOADF,
 [("File/ReadDir handles are RAII values dropped on every path", BM+"languages.rs, "+BM+"lang.rs, "+BM+"rule.rs"),
  ("include resolution refuses a file that is already being included", BM+"rule.rs parse_rule")],
 observe=["file-system calls", "open handles", "live heap bytes"])

prop("C06", "A damaged line is reported where it is",
 "When loading Beider-Morse rules or building a Daitch-Mokotoff encoder fails because a line of a rule file or text is not well-formed, and the error carries a location, that location is right: the line number counts the physical lines of the text from 1 (comments, blank lines, multi-line comments and rules before it included), the line content is that line, and the file, when named, is the file that contains the line. An error about a line of unknown form always carries a location and, for Beider-Morse rule files and language-guessing files, names the file; a failing include is reported at the include line.",
 ["fault_sequences", "configurations", "inputs"],
 "for every well-formed rule text and every single damage to one of its lines (lost bytes, lost line break, overwritten or duplicated bytes, unterminated quote or comment), at every position and at any include depth",
 "one test damages the first line of a one-line Daitch-Mokotoff text; no test checks the line number behind a comment, a multi-line comment or an include, or any location in Beider-Morse files",
 LOADF + ["src/daitch_mokotoff.rs"],
 [("line_number counted per parsed item, plus the lines of a multi-line comment", BM+"rule.rs parse_rule, "+BM+"lang.rs parse_lang, "+BM+"languages.rs parse_liste, src/daitch_mokotoff.rs build"),
  ("build_error extracts the offending line", "src/lib.rs build_error")],
 observe=["ParseError fields"])

prop("C07", "Damaged rule text is either refused or taken literally, never a crash",
 "For every content a disk can hand back for the rule files of a directory (torn, truncated, zero-filled, bit-flipped, duplicated, stale or misdirected writes, bytes that are not UTF-8), loading returns an error or a configuration, and never panics, overflows the stack or hangs. A load that succeeds yields exactly the rules, includes and languages which the text it was served denotes line by line: no well-formed rule is dropped, merged with a neighbour, duplicated or attributed to another file or language, and a file with a line that is no rule is refused; the same holds for Daitch-Mokotoff rule text.",
 ["fault_sequences", "inputs", "configurations"],
 "for every damage (any number of torn or corrupted writes, at any offset) to any of the files a load reads",
 "tests parse only intact files and a handful of single lines; the space of damaged files, and what must then be the outcome, is untouched",
 LOADF + ["src/daitch_mokotoff.rs", BM+"regex_optim.rs"],
 [("line grammar", "src/rules_parser.rs"), ("parse loops refuse anything that is no known line", BM+"rule.rs parse_rule, "+BM+"lang.rs parse_lang, "+BM+"languages.rs parse_liste, src/daitch_mokotoff.rs build"),
  ("include overrides rules with the same first letter, as commons-codec does", BM+"rule.rs parse_rule")],
 observe=["return value of ConfigFiles::new / build", "codes compared with an independent reference model of the served bytes"])

prop("C08", "Encoders shared between threads give every caller its own correct code",
 "Any number of threads may encode at the same time through the same encoder values, through clones of them, or through encoders built from one shared configuration, and each call returns exactly what the same call returns when made alone in a fresh process. This holds for every encoder of the library, for every interleaving, also when concurrent calls use different configurations or when some of them panic.",
 ["schedules", "inputs"],
 "for every number of threads, every set of concurrent calls on any encoders, and every interleaving of their steps",
 "all tests call encoders from one thread at a time on private values; the type system rules out data races in safe code but not check-then-act races on shared caches, buffers, counters or global switches, and 'should be thread-safe' in the documentation is otherwise unchecked",
 ENCF,
 [("encoders are immutable values; encode takes &self", "all encoders"),
  ("configuration tables are only read after construction", BM+"rule.rs, "+BM+"lang.rs"),
  ("lazily built statics behind lazy_static", BM+"engine.rs NAME_PREFIXES"),
  ("regex caches are per thread", BM+"lang.rs LangRule::pattern, "+BM+"rule.rs Rule contexts")],
 observe=["return value of every call of a concurrent history"])

prop("C09", "The first use may race with anything",
 "However many threads make the very first calls into the library at the same moment (first encodings, first use of the embedded rules, of default encoders or of prefix tables, concurrent first loads), every call returns what it returns when it is the only call ever made. No call observes a partly built table, deadlocks or panics because another thread is still initialising, and a first call that fails does not make later calls fail.",
 ["schedules", "histories"],
 "for every set of first calls and every interleaving of their steps, including preemption at any point inside one-time initialisation",
 "test threads are started by the harness at uncontrolled moments in a process where some other test usually has initialised everything; a first-use race window is met by chance only and never reproducibly",
 [BM+"engine.rs", BM+"rule.rs", BM+"mod.rs", BM+"languages.rs", "src/daitch_mokotoff.rs"],
 [("lazy_static! NAME_PREFIXES", BM+"engine.rs"), ("lazy_static! EMBEDDED_RULES", BM+"rule.rs mod embedded"),
  ("Default impls build fresh values", BM+"mod.rs ConfigFiles::default, src/daitch_mokotoff.rs DaitchMokotoffSoundex::default")],
 observe=["return value of every first call"])

prop("C10", "A code never depends on the calls made before",
 "The result of an encoding depends only on the encoder's settings, its rules and the input: it is the same as the first and as the millionth call, after any sequence of calls to the same or other encoders with the same or other settings, after calls that panicked or were cut short by a failed allocation, after encoders and configurations were dropped and rebuilt, on long-lived and on new threads, and across jumps of the clock. A failed or panicking call leaves nothing behind that changes a later call.",
 ["histories", "fault_sequences", "inputs"],
 "for every history of calls, panics, allocation failures, thread changes, drops and clock jumps preceding a call",
 "each test makes a few calls on a fresh encoder and none continues after a panicking or aborted call, so any state carried from call to call (memo tables, reused buffers, counters, adaptive switches) is invisible to them",
 ENCF,
 [("encode builds its working state afresh in every call", "all encoders"), ("no mutable statics or thread-locals", "whole crate")],
 observe=["return value of every call of a long history compared with an isolated first call"])

prop("C11", "A stalled or dead caller never blocks the others",
 "When a thread stops making progress in the middle of an encoding or a load (descheduled indefinitely, stuck in a slow or hanging storage operation) or dies there by a panic, every other thread's encodings through the same encoders and configurations and its loads still finish, in a number of steps that does not depend on the stalled thread. There is no deadlock under any interleaving, once one-time initialisation already under way has finished.",
 ["schedules", "fault_sequences"],
 "for every point at which any caller is stopped or killed inside a library call, and every interleaving of the remaining callers",
 "no test stops a caller inside a call; an internal lock held across a call, or poisoned by a panic, passes every single-threaded test",
 ENCF + ["src/rules_parser.rs", BM+"languages.rs"],
 [("no locks on the encoding or loading path", "whole crate"), ("regex cache pool falls back instead of waiting", "regex crate, used by "+BM+"lang.rs and "+BM+"rule.rs")],
 observe=["completion of calls of the surviving threads within a step budget"])

prop("C12", "Saved encoder settings survive a crash and restart",
 "An encoder's settings written to durable storage by one process and read back by another after a crash (only what was durable surviving) give an encoder equal to the saved one that produces the same codes. A snapshot torn by the crash is refused or yields a previously saved state, and never restores as an encoder with other settings than any that were saved; rule-type, name-type, language-set and result values survive in the same way.",
 ["crash_points", "histories", "configurations"],
 "for every encoder and settings, every history of saves, and every crash point within a save",
 "no test serialises anything; the derives are never executed, let alone read back in another process or from a torn file",
 ["src/soundex.rs", "src/refined_soundex.rs", "src/phonex.rs", "src/caverphone.rs", "src/cologne.rs", "src/nysiis.rs", "src/match_rating_approach.rs",
  "src/metaphone.rs", "src/double_metaphone.rs", BM+"mod.rs", BM+"rule.rs", BM+"languages.rs", "src/lib.rs"],
 [("serde derives without skipped or defaulted fields", "all serialisable encoders")],
 observe=["deserialised value and the codes it produces in a fresh process"])

prop("C13", "Replicas agree: same files, same settings, same codes everywhere",
 "Independent processes that load the same rules with the same settings give the same code for every input, and list alternatives in the same order, whatever the process's random seeds (hash keys), memory layout, start time, thread, load order or previous work are. Codes can therefore be stored by one replica and looked up by another.",
 ["histories", "schedules", "configurations"],
 "for every pair of replicas differing in random seed, memory addresses, clock, directory listing order, thread identity and warm-up history, and every input",
 "a test process has one hash seed, one layout, one listing order, and compares a code with a constant once; a dependence on iteration order or addresses shows up, if ever, as an irreproducible failure",
 ENCF + [BM+"languages.rs"],
 [("ordered maps and sets throughout (BTreeMap/BTreeSet), Vec in rule order", BM+"*.rs, src/daitch_mokotoff.rs"),
  ("no use of time, randomness or addresses", "whole crate")],
 observe=["codes from replicas under different simulated seeds, layouts, clocks and listing orders"])

prop("C14", "Memory stays bounded however long the library is used",
 "The heap memory retained by the library after a call has returned and its result was dropped does not grow with the number of calls made, with the number of distinct inputs seen, with the number of failed or panicking calls, with the number of configurations loaded and dropped, or with the number of threads that came and went. A service can encode an unending stream of names in constant memory.",
 ["histories", "fault_sequences"],
 "for every unbounded stream of calls, distinct inputs, failing calls, reloads and short-lived threads",
 "no test measures memory or makes more than a few thousand calls; unbounded memo tables and leaked buffers keep every assertion true",
 ENCF + [BM+"languages.rs"],
 [("no caches; working state is dropped at the end of each call", "all encoders"), ("regex caches are bounded", "regex crate")],
 observe=["live heap bytes at quiescent points of a long history"])

NA = [
("C15", "Encoders accept every string", "Every encoder returns a value for every Unicode input string without panicking.", ENCF,
 "the tests try a few dozen inputs per encoder", [("character-wise processing", "all encoders")]),
("C16", "Codes have their documented shape", "Every code has the length and alphabet documented for its algorithm (four characters for Soundex, six or ten for Caverphone, at most the configured maximum for Metaphone, Double Metaphone and Phonex, six digits per Daitch-Mokotoff branch).", ENCF,
 "the tests compare sample codes only", [("padding and truncation at the end of encode", "all encoders")]),
("C17", "Codes agree with Apache commons-codec", "For every input in the domain of the Java implementation each encoder yields the code that commons-codec yields for the same settings and rules.", ENCF,
 "the tests contain samples copied from commons-codec", [("ported rules", "all encoders")]),
("C18", "Equality and difference follow from the codes", "is_encoded_equals is exactly equality of codes (except where documented otherwise) and hence an equivalence relation, and difference counts the positions where two codes agree, symmetrically.", ["src/lib.rs", "src/match_rating_approach.rs", "src/double_metaphone.rs"],
 "tests compare a few pairs", [("trait defaults", "src/lib.rs Encoder, SoundexCommons")]),
("C19", "Case and non-letters do not matter where documented", "Encoders documented to ignore case, spaces or punctuation give the same code for inputs that differ only in these.", ENCF,
 "tests try a few variants", [("cleaning of the input", "src/lib.rs SoundexUtils")]),
("C20", "Language sets form the documented algebra", "Merging and restricting language sets are union and intersection with the any and none sets as neutral and absorbing elements.", [BM+"languages.rs"],
 "tests try no pairs", [("restrict_to, merge", BM+"languages.rs")]),
("C21", "Character sequences slice by character", "Slicing a character sequence by any range yields the characters at these positions, whatever their encoded length.", ["src/helper.rs"],
 "tests slice two strings", [("Index impls", "src/helper.rs")]),
("C22", "Branches are complete, distinct and start with the plain code", "Daitch-Mokotoff branching yields distinct codes in rule order whose first element is the code without branching.", ["src/daitch_mokotoff.rs"],
 "tests check sample words", [("branch expansion and deduplication", "src/daitch_mokotoff.rs inner_soundex")]),
("C23", "Phoneme limits and language restriction are respected", "Beider-Morse results never hold more alternatives per word than the configured maximum and never alternatives excluded by the given languages.", [BM+"engine.rs"],
 "tests check sample words", [("apply, restrict_to", BM+"engine.rs")]),
("C24", "Simplified context matchers equal the expressions they replace", "Context expressions replaced by string comparisons match exactly the strings the expression matches in commons-codec.", [BM+"regex_optim.rs"],
 "tests check a few expressions", [("OptimizedRegex", BM+"regex_optim.rs")]),
]
for id, t, s, files, why, mech in NA:
    prop(id, t, s, ["inputs"], "for every input (and settings)", why, files, mech)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), max(len(p["title"]) for p in P))
for p in P:
    if p["statement"].count(". ") > 2: print("too many sentences", p["id"])
