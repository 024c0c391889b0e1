"""The monitors of each property."""
import sys
m = sys.modules.get("__main__")
if not hasattr(m, "plain_stage"):
    import check as m
plain_stage = m.plain_stage
from work import work_stage
from derive import derive_stage, other_stage
from builds import builds_stage
from attacks import attack_stage
from sanitize import miri_stage, sanitizer_stage, memcheck_stage, platform_stage, others_stage

# process of Miri: phase, cases, flags
MIRI_JOBS = [
    ("hostile", 138, ""), ("types", 138, ""), ("types", 138, "-Zmiri-tree-borrows"), ("small", 300, ""), ("text", 120, ""), ("lifetimes", 48, ""),
    ("lifetimes", 36, "-Zmiri-tree-borrows"), ("written", 39, ""), ("derived", 108, ""), ("threads", 42, ""), ("threads", 42, "-Zmiri-preemption-rate=0.1"), ("hostile", 120, "-Zmiri-symbolic-alignment-check"),
    ("types", 138, "-Zmiri-strict-provenance"), ("lifetimes", 36, ""), ("written", 36, "-Zmiri-symbolic-alignment-check"), ("small", 300, ""),
    ("same", 2, ""), ("same", 2, "-Zmiri-preemption-rate=0.2"), ("misuse", 60, ""),
]

PROPS = {
    "C01": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c01"), others_stage("c01")],
        "rule": "Items: every byte string of length <=2 (thorough 3) and every string of length <=4 (thorough 5) over a 24-byte grammar alphabet that is a "
        "complete item, every header width x boundary argument, all half floats, random trees (non-preferred widths, chunks, indefinite lengths, "
        "NaN payloads, both simple forms) between other items, and large ones (strings and chunk lists over 64 KB, 64 Ki elements, nesting of 1030). Each is read and written through every path for its kind (generic, typed, owned, "
        "borrowed again, exact slices, element by element). Non-trivial: the item has a non-preferred encoding, holds other items, or is a float.",
    },
    "C02": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c02"), others_stage("c02")],
        "rule": "Byte strings: exhaustive <=2 bytes (thorough 3), exhaustive <=4 (6) over a 24-byte grammar alphabet, hostile strings, concatenations of random items, "
        "well-formed containers with one grammatical damage, nesting up to 3000, large items (strings over 64 KB, 64 Ki elements). The validator is called until it fails and every verdict and boundary is compared with "
        "an iterative reference scanner. Non-trivial: more than one byte or at least one accepted item; distinct by content.",
    },
    "C03": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c03"), others_stage("c03")],
        "rule": "Byte strings as for C02 plus random well-formed trees, large ones included; every array, map, tag and generic read is compared recursively (offset, bytes and number of elements, "
        "total consumed, refusal) with the reference scanner, also through decoders that read elements with readers of their own. Non-trivial: the bytes start with an array, map or tag header.",
    },
    "C04": {
        "technique": "runtime monitor: crash, panic and hang detection over hostile inputs, overflow-checked build",
        "stages": [plain_stage("c04"), others_stage("c04")],
        "rule": "Byte strings: exhaustive <=2 bytes (thorough 3), exhaustive <=3 (5) over the 24-byte grammar alphabet, hostile strings, near misses of 30 types, "
        "huge declared lengths in every position, operation scripts going on after errors, nesting of 400000 (thorough 3000000) levels on a 256 KB stack. Every entry point is "
        "called and what it returns is used; panics, overflows (checked build), fatal signals, allocations over 2 GB and calls burning 60 CPU seconds are violations. Distinct by content.",
    },
    "C05": {
        "technique": "runtime monitor: allocation accounting and instruction counting (callgrind) against linear bounds",
        "stages": [plain_stage("c05"), work_stage, others_stage("c05")],
        "rule": "Memory: headers claiming up to 2^64 with little behind them (alone, repeated, inside others), hostile strings, near misses of 30 types, 42 scalable shapes (even, uneven: one long part and many short) at 5 sizes; "
        "the peak and total allocation of each call is compared with 512 bytes per input byte + 32 KB (8192 per byte + 256 KB in total). Work: callgrind counts the instructions of 19 operations on "
        "42 shapes at sizes n, 4n, 16n; the instructions per additional byte may not grow by more than 2.5 times + 25 (linear stays equal, quadratic grows 4 times). Distinct by content or (shape, operation, size).",
        "assumptions": ["the bounds' constants are a choice", "growth beyond the largest size measured is not seen"],
    },
    "C07": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c07"), others_stage("c07")],
        "rule": "Byte strings: exhaustive <=2 bytes (thorough 3) and over the 24-byte grammar alphabet, hostile strings, random and large items. On each, every typed accessor, constant and peek is called on a fresh reader; success, value, error kinds named and bytes consumed are compared with the model. Non-trivial: not empty; distinct by content.",
    },
    "C08": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c08"), others_stage("c08")],
        "rule": "Reader operation scripts over exhaustive small strings, hostile strings and concatenated random and large items; consumed, remaining, finished and the not-finished error are compared with the model after every operation, failed ones included. Non-trivial: at least one item read or an operation refused part-way.",
    },
    "C09": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c09"), others_stage("c09")],
        "rule": "Every strict prefix of random well-formed items of every kind, width and nesting (long ones: a sample with all boundaries), given to the validator and to each reader operation for it; the error's part, need and availability are compared with the reference scanner. Complete items, of the asked type or not, are never missing data. Distinct by prefix or item.",
    },
    "C10": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c10"), others_stage("c10")],
        "rule": "Every constructor over all header boundaries +-2, all u8/u16, powers of two, random; every width of every number read and written. Shortest form from the model; canonicity query compared for built and read values. Distinct by (constructor, value) or encoding.",
    },
    "C11": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c11"), others_stage("c11")],
        "rule": "All 65536 half floats, all widths of boundary and random integers, singles (thorough: many millions) and doubles around every rounding boundary compared with an integer-arithmetic IEEE-754 model. Distinct by encoding.",
    },
    "C12": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c12"), others_stage("c12")],
        "rule": "Native values at all boundaries and random, encoded and compared with the documented layout, decoded from the canonical and from re-encoded forms; near misses of each type (kind, range, length, element) have to be refused exactly when the schema model refuses. Distinct by (type, bytes).",
    },
    "C13": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c13"), others_stage("c13")],
        "rule": "Random and enumerated scripts of writer calls (nested closures, builders, initial buffers, encoders using writers of their own) executed on the writer and on the model; output bytes compared, then read back and compared item by item. Distinct by output.",
    },
    "C14": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c14"), others_stage("c14")],
        "rule": "Random, near-miss, re-encoded, hostile and small exhaustive and large inputs for 30 types (and user types taking none or two items) through every way to obtain exact data; success compared with the schema model, and kept bytes, later decoding and every conversion (cloning over another included) compared. Distinct by (type, bytes).",
    },
    "C15": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c15"), others_stage("c15")],
        "rule": "Conforming, re-encoded, near-miss and hostile inputs for the five tagged types; acceptance, exposed content, written bytes, and position after a refusal compared with the model. Distinct by (type, bytes).",
    },
    "C19": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c19"), others_stage("c19")],
        "rule": "Event sequences fed to the state machine: every sequence up to a length over the event alphabet (enumerated, and continued past accepted prefixes), random walks biased to stay acceptable, large counts and deep nesting; acceptance and the finished position compared with a stack model of the grammar after every event. Distinct by event sequence.",
    },
    "C20": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c20"), others_stage("c20")],
        "rule": "Every whole-input entry point (complete bytes, single item, element, owned data, tag content, validation as a type) for 30 types over conforming bytes with each possible byte or item after them, near misses and user types taking none or two items; success only if everything was used, and then equal to decoding from a reader. Distinct by (type, bytes).",
    },
    "C21": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c21"), others_stage("c21")],
        "rule": "Texts and byte sequences of every UTF-8 defect (overlong, surrogate, out of range, truncated, stray continuation) and every valid boundary character, alone, at every offset of longer strings, and split over chunks at every position; acceptance, characters and kind of error compared with a separate UTF-8 decoder. Distinct by bytes.",
    },
    "C22": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c22"), others_stage("c22")],
        "rule": "Random and built values of every kind: pairs of values with the same or nearly the same content (one width, chunk boundary, byte, order changed) compared for equality on both forms and with their bytes; values converted back and forth, cloned over others, written, and looked at again after the buffer they came from was overwritten and freed. Distinct by bytes.",
    },
    "C23": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [plain_stage("c23"), others_stage("c23")],
        "rule": "Strings, containers and tags (all header widths x element counts around the header boundaries, random trees), looked at through every accessor of the borrowed, owned, again borrowed and built forms: length, length encoding, raw values, index (out of range included), iteration, key and value views, chunk lists, element-wise conversion (also failing at each position), iterators advanced by next and nth. Distinct by bytes.",
    },
    "C16": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [derive_stage("c16"), other_stage("c16", [("layout", 25), ("layout", 25), ("encodings", 15), ("encodings", 15)], True)],
        "rule": "Types: the ones of the documentation, each supported form (structures, tags, sizes around header widths, start offsets, skipped keys, enum forms and kinds), and 60 (thorough 10 x 160) random ones with names taken from the generated code, compiled with the derive of /repo; their layout is written down by the generator independently. For each record type random values are written and compared with the layout, read back alone and followed by other items, and read from re-encoded and reordered forms. A type that does not compile is a violation. Distinct by (type, bytes).",
    },
    "C17": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [derive_stage("c17"), other_stage("c17", [("layout", 25), ("layout", 25), ("encodings", 15), ("encodings", 15)])],
        "rule": "Types: the ones of the documentation, each supported form (structures, tags, sizes around header widths, start offsets, skipped keys, enum forms and kinds), and 60 (thorough 10 x 160) random ones with names taken from the generated code, compiled with the derive of /repo; their layout is written down by the generator independently. For each enum type random values of its variants are written and compared with the layout, read back alone and followed by other items, and read from re-encoded forms. A type that does not compile is a violation. Distinct by (type, bytes).",
    },
    "C18": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [derive_stage("c18"), other_stage("c18", [("near", 20), ("near", 20), ("off", 25), ("off", 25), ("off", 25), ("off", 25)])],
        "rule": "Types: the ones of the documentation, each supported form (structures, tags, sizes around header widths, start offsets, skipped keys, enum forms and kinds), and 60 (thorough 10 x 160) random ones with names taken from the generated code, compiled with the derive of /repo; their layout is written down by the generator independently. For each type: every number around its keys, variants and tag (powers of two added, removed, flipped), every number of elements, each key missing, duplicated (other width, other value), replaced, each element of another kind; conforming values damaged at one place, mutated, followed by something; random near misses and hostile bytes. Accepted exactly when the schema model accepts, with the modelled value. Distinct by (type, bytes).",
    },
    "C24": {
        "technique": "runtime monitor: online comparison with an independent reference model over enumerated, generated and hostile inputs",
        "stages": [derive_stage("c24"), other_stage("c24", [("paths", 30), ("paths", 30)], True)],
        "rule": "Types: the ones of the documentation, each supported form (structures, tags, sizes around header widths, start offsets, skipped keys, enum forms and kinds), and 60 (thorough 10 x 160) random ones with names taken from the generated code, compiled with the derive of /repo; their layout is written down by the generator independently. One fault is put at one place of a conforming value (element, count, key, variant number, tag, kind) of each type and of nested vectors, and at any index of vectors of up to 140000 elements; the names in the error's path are compared with the model, the cause and innermost contexts with the error of the failing element alone. Scripts of added contexts are compared with the list and the printed path. Distinct by (type, bytes) or script.",
    },
    "C25": {
        "technique": "runtime monitor: outcomes of the same inputs compared across builds, places, orders, histories and threads",
        "stages": [builds_stage, platform_stage()],
        "rule": "The printed outcome of every reading, validating, decoding and writing call on random, near-miss and hostile inputs is folded into a digest; the digest of an input has to be the same again, at other addresses and alignments with other surroundings (among them data that would continue the input), after other inputs, in a buffer changed in place since the last call, after a caller's panic in the middle of a call, from within another call, on new threads, and on several threads sharing the buffer or the value; scripts of writer calls and of state machine events likewise. The digests of all the cases are then compared between five builds (with and without optimisation, assertions and the derive feature; cases run in other orders and numbers of threads). Distinct by input.",
        "assumptions": ["holds on the executions observed, on this platform (x86-64 Linux)", "payloads of converted NaNs are not compared"],
    },
    "C06": {
        "technique": "sanitizers: Miri, AddressSanitizer, LeakSanitizer, ThreadSanitizer and memcheck over the monitored workload; online UTF-8 check",
        "stages": [
            plain_stage("c06"),
            attack_stage,
            sanitizer_stage("asan", "c06", ["--scale", "0.5"], "AddressSanitizer and LeakSanitizer"),
            sanitizer_stage("tsan", "c06", ["--phase", "threads"], "ThreadSanitizer"),
            sanitizer_stage("tsan", "c06", ["--phase", "same"], "ThreadSanitizer, the same by all"),
            memcheck_stage("c06", [("types", 700, 0), ("lifetimes", 500, 0), ("written", 700, 0), ("text", 400, 0), ("hostile", 300, 0), ("derived", 700, 0), ("small", 500, 0), ("threads", 60, 0), ("misuse", 300, 0)]),
            miri_stage("c06", MIRI_JOBS),
        ],
        "rule": "Hostile, near-miss, re-encoded, enumerated small and valid inputs, each in an allocation of exactly its size, through every reading, validating, decoding and conversion call and everything that can be done with the results; values kept after their buffer was overwritten and freed; values, errors and readers shared between and moved to threads, which do different things or all the same; indices past the end of containers (refused, not followed); writers; derived types. Run in the builds with and without assertions (the standard library then checks unsafe preconditions), and under AddressSanitizer with LeakSanitizer, ThreadSanitizer, memcheck and Miri (smaller inputs; Stacked Borrows, and Tree Borrows for some); every string handed out is checked again to be UTF-8. Distinct by input. Besides, programs in safe Rust that use what they borrowed after its owner was changed or freed, or share values between threads that may not be: those the compiler accepts are run in Miri.",
        "assumptions": ["holds on the executions observed: a checker only reports what an execution does", "Miri interprets the debug MIR of the crate, not the machine code"],
    },
}
