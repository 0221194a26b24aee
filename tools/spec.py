"""What each check builds and runs, and how it is described."""
import os

TREES = ("values are random instances (boundary-heavy primitives, nested containers) of every type in the "
         "harness' type zoo: ~60 built-in compositions and ~60 derived declarations")
PROBES = ("random trees of instrumented user values or sinks (all wrappers: option, box, newtype, flatten, "
          "path, owned) whose every callback, emission and drop is logged and compared with a reference "
          "simulation written from the documented protocol")
TRUST = ["the reference model in harness/src (model, zoo, probe simulations, json reference) is right",
         "exploration is random and bounded: it covers the counted executions, not all inputs"]


def simple(name, features=None, env=None, timeout=700):
    def go(c, found, case):
        ok, msg, _ = c.build([name], features=features)
        if not ok:
            raise c.NoVerdict("build failed:\n" + msg)
        c.monitor(found, name, c.binary(name), env=env, timeout=timeout, case=case)
    return go


def both_builds(name):
    """Once with and once without the number formatting speedups."""
    def go(c, found, case):
        for prefix, features in (("plain/", None), ("speedups/", "speedups")):
            ok, msg, _ = c.build([name], features=features)
            if not ok:
                raise c.NoVerdict("build failed:\n" + msg)
            c.monitor(found, name, c.binary(name), prefix=prefix, case=case)
            if found.violations:
                return
    return go


def generated(name, quick=(1, 180), thorough=(6, 180), timeout=700):
    """Declarations generated for this run from the seed, compiled against the derive macros."""
    def go(c, found, case):
        rounds, count = thorough if c.TIER == "thorough" else quick
        out = os.path.join(c.HARNESS, "gen_run.rs")
        for k in range(rounds):
            seed = c.SEED + 1000003 * k
            code, so, se, _ = c.run(["python3", os.path.join(c.ROOT, "tools", "gen_types.py"), out, str(seed), str(count)])
            if code != 0:
                raise c.NoVerdict("generating declarations failed:\n" + so + se)
            ok, msg, _ = c.build([name], features="gen")
            if not ok:
                base, msg0, _ = c.build([name])
                if not base:
                    raise c.NoVerdict("build failed:\n" + msg0)
                found.evaluations += 1
                found.violations.append({
                    "case": "declarations/%d" % seed,
                    "detail": "a valid declaration (tools/gen_types.py harness/gen_run.rs %d %d) does not compile:\n%s"
                              % (seed, count, msg)})
                return
            found.counters["generated declarations"] = found.counters.get("generated declarations", 0) + count
            c.monitor(found, name, c.binary(name), prefix="" if rounds == 1 else "round%d/" % k, case=case, timeout=timeout)
            if found.violations:
                return
    return go


CHECKS = {}


def check(id, level, technique, note, rule, run, assumptions=()):
    CHECKS[id] = {
        "level": level, "technique": technique, "note": note, "rule": rule, "run": run,
        "assumptions": TRUST + list(assumptions),
    }


JSON = ("every string over 15 JSON tokens up to a length, every 1-3 byte text, grammar-generated documents in random "
        "spellings, and mutations of them; texts lie against a guard page")

def c01_run(c, found, case):
    import c01
    c01.run(c, found, case)


check("C01", "exploration", "sanitizers: Miri (Stacked and Tree Borrows, data races), AddressSanitizer with guard pages, compile-time misuse programs",
      "Undefined behaviour is reported by the interpreter or sanitizer on the executions made; what is not executed is not covered. "
      "Programs that misuse the API must be rejected by the compiler, or else run without undefined behaviour.",
      "random executions of hostile user values and sinks (that own memory, look at everything they are shown and touch "
      "what they borrow when dropped) in all built-in and derived containers: completed, cut, failing, panicking, panicking in drops, "
      "continued after errors, with superfluous events; random bytes as JSON; formatting; threads; " + PROBES +
      "; non-trivial: distinct digests of all data looked at",
      c01_run, ["memory errors that only show in compositions of types not in the workload are not covered"])

check("C02", "exploration", "runtime monitor: drop ledger and heap accounting at every cut, error and panic point",
      "Drops of tracked values are counted one by one and the heap of each execution must balance; cut, failing and "
      "panicking positions are enumerated per stream (sampled for long streams).",
      "tracked values and sinks in built-in containers, the type zoo, and " + PROBES + "; each stream is completed, cut at "
      "each event, failed at each callback and panicked at each callback; non-trivial: distinct (stream, fault position)",
      simple("c02"))

check("C03", "exploration", "runtime monitor: round-trip oracle over recorded event streams",
      "Every execution is judged exactly (bit-for-bit values); what is not executed is not covered.",
      TREES + "; each is serialized, its own events are fed back and the result compared; non-trivial: "
      "a distinct event stream (per type for single atoms)",
      simple("c03"))

check("C04", "exploration", "runtime monitor: round-trip oracle through JSON text",
      "Every execution is judged exactly (up to the sign of zero); what is not executed is not covered.",
      TREES + ", every char, boundary-heavy integers, and floats by bit pattern, written and read with and without the "
      "number formatting speedups; non-trivial: distinct value per type",
      both_builds("c04"))

check("C05", "exploration", "runtime monitor: differential verdict oracle against an independent RFC 8259 recognizer, with guard pages and a CPU/memory watchdog",
      "The verdict (and absence of panics, hangs and reads past the end) is judged exactly for each text.",
      JSON + "; read as documents of any shape and as every type of the zoo; non-trivial: distinct texts of more than 2 bytes",
      simple("c05"))

check("C06", "exploration", "runtime monitor: differential event oracle against an independent JSON reader",
      "All delivered events are compared with a reference reading (floats correctly rounded with exact arithmetic).",
      "well-formed documents in many spellings: every char raw and escaped, boundary integers, decimal texts halfway "
      "between doubles, random documents with random whitespace; non-trivial: distinct texts",
      simple("c06"))

check("C07", "exploration", "runtime monitor: output of the writer judged by an independent JSON reader",
      "Each text written is parsed by an independent strict reader and compared with the value's event stream; refusals are compared with a reference verdict.",
      TREES + ", borrowed values and user values emitting arbitrary event trees (bytes, odd map keys), with and without "
      "the number formatting speedups; non-trivial: distinct values",
      both_builds("c07"))

check("C08", "exploration", "runtime monitor: integer oracle over 128-bit arithmetic",
      "8 and 16 bit targets are tried with every value near their range; wider ones at all boundaries and at random.",
      "every (source event kind, target type, container position) with values around all powers of two and type limits, "
      "exhaustive for small types, also as JSON text and through serialization; non-trivial: distinct (case, value)",
      simple("c08"))

check("C09", "exploration", "runtime monitor: measured stack high-water marks and overflow detection in child processes",
      "The stack of each execution is measured exactly, at depth 600 and at depth 200000 (thorough: 1.5 million); the outcome is compared too.",
      "~200 scenarios: random deep user values and sinks (sequences, maps, structs, deep keys, siblings, wrappers) and 12 "
      "recursive derived types, serialized, deserialized, skipped, path tracked, written and read as JSON, completed, cut, "
      "failing or panicking at depth; non-trivial: each (scenario, seed)",
      simple("c09"), ["deep data of the user is itself dropped without recursion", "debug rendering is not covered by the property",
                      "path tracking is installed once, at the root"])

check("C10", "exploration", "runtime monitor: online trace checker for event grammar and metadata",
      "Every event of each execution is compared with a reference trace (event, descriptor, depth, innermost container).",
      TREES + ", borrowed values, and " + PROBES + "; non-trivial: distinct event stream or callback log",
      simple("c10"))

check("C11", "exploration", "runtime monitor: call-log automaton for serialize/finish pairing",
      "Every callback of each execution is checked against the expected total order, also under abandonment and injected errors.",
      PROBES + "; runs to the end, with an injected error, or abandoned; non-trivial: distinct logs of more than 4 records",
      simple("c11"))

check("C12", "exploration", "runtime monitor: call-log automaton for the sink protocol",
      "Every callback and drop of each sink in each execution is checked against a reference simulation.",
      PROBES + "; runs to the end, with an injected error, or abandoned; non-trivial: distinct logs of more than 4 records",
      simple("c12"))

check("C13", "exploration", "runtime monitor: verdict and value oracle over event streams",
      "Verdict, value, error kind and the event at which the error appears are compared with a reference deserializer.",
      "fitting, mutated and unrelated event streams for every built-in type, plus a fixed set of ~6000 small streams "
      "fed to every type; non-trivial: distinct (type, stream)",
      simple("c13"))

check("C14", "exploration", "runtime monitor: random declarations judged by an interpreter of the declaration (value, error, default calls)",
      "Each run compiles declarations it generated; every outcome, and which default functions ran, is compared with an interpreter that never looks at the macros' output.",
      "120 random declarations per run (structs, newtypes, enums; names, aliases, flattening, defaults, skips, type "
      "parameters) besides ~36 fixed ones; all subsets, rotations and repetitions of keys, near-miss, foreign and "
      "non-string keys, mutated values; non-trivial: distinct (type, stream)",
      generated("c14"), ["types whose container default would have to be taken apart although they implement Drop do not compile and are left out"])

check("C15", "exploration", "runtime monitor: random declarations judged by an interpreter of the declaration (full event trace)",
      "Each run compiles declarations it generated; every event with its metadata is compared with what the declaration says.",
      "120 random declarations per run besides ~36 fixed ones and borrowing, const-generic ones; random values, also "
      "serialized interleaved with themselves; non-trivial: distinct (type, stream)",
      generated("c15"))

check("C16", "exploration", "runtime monitor: online path checker at every callback and event",
      "At each callback and event of each execution the tracked path is compared with the location derived from the events so far.",
      TREES + ", deep and wide shapes, and " + PROBES + "; non-trivial: distinct streams or logs",
      simple("c16"))

check("C17", "exploration", "runtime monitor: differential comparison of wrapped and bare executions",
      "The complete recorded behaviour (events, state, metadata, values, errors, callbacks) with and without wrappers is compared.",
      TREES + " under random stacks of wrappers in both directions, wrapped struct fields and flattened structs, and "
      + PROBES + "; non-trivial: distinct (stack, stream)",
      simple("c17"))

check("C18", "exploration", "runtime monitor: reference renderer and failing-writer injection",
      "Each text is compared with a reference rendering of the event stream through the standard library's debug builders; the writer is failed at every position (sampled for long texts).",
      TREES + ", borrowed values, user values emitting arbitrary event trees; compact and pretty, repeated, and from "
      "several threads; non-trivial: distinct values",
      simple("c18"))

check("C19", "exploration", "runtime monitor: per-driver variable model over logged extension accesses",
      "Every read, write and drop of an extension value is compared with a model holding one variable per driver and type.",
      "several drivers in both directions stepped in random interleavings, nested inside callbacks and moved to "
      "threads, with callbacks and consumer accessing 8 extension types, and " + PROBES + "; non-trivial: distinct access logs",
      simple("c19"))

check("C20", "exploration", "runtime monitor: injected errors tracked to the caller, output slots inspected",
      "For each stream the failing position is enumerated or sampled; the error seen by the caller, all results and the "
      "slot are judged against a reference.",
      "errors raised at each callback of user values and sinks in all wrappers, streams and JSON texts cut at each "
      "position, bad end events and events after the end; non-trivial: distinct (stream, fault position)",
      simple("c20"))

check("C21", "exploration", "runtime monitor: made values, recorded copies and error texts compared with a reference",
      "Each event, chunk, atom and error that was made is compared with what it was made from; recorded streams are replayed and their outcomes compared.",
      "all conversions of random atoms, errors of all kinds with random messages and chains of sources, sinks with every "
      "subset of methods, every mismatch of every built-in type, replayed streams; non-trivial: distinct (subject, input)",
      simple("c21"))

check("C22", "exploration", "runtime monitor: counting allocator and CPU clock compared across sizes of the same shape",
      "Peak memory, number of allocations and CPU time of an operation are measured at growing sizes and judged against constant or linear growth.",
      "~60 experiments in which one dimension of the data grows by up to 2^10 (items, depth, keys, fields, aliases, text "
      "length, escapes); time is judged with a wide margin (a quadratic pass is found, a constant factor is not); "
      "non-trivial: distinct (experiment, size)",
      simple("c22"))


def c23_run(c, found, case):
    import c23
    c23.run(c, found, case)


check("C23", "exploration", "runtime monitor: verdicts of the derive macros on random declarations compared with a reference; accepted ones run",
      "Each macro is executed on each declaration; that it refuses or accepts is compared with a reference that reads the declaration. "
      "What is accepted has to compile, and its values are serialized, read back and compared.",
      "4000 random declarations per round, 60 % of them changed at one place (unknown, misplaced, malformed, repeated, "
      "conflicting attributes; values of the wrong kind; names used twice; unsupported types), in modules that shadow "
      "prelude and crate names, some made by macros; non-trivial: distinct declarations",
      c23_run)
