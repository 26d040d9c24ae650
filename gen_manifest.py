#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed and how."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.realpath(__file__))
DONE = open(os.path.join(HERE, "claimed.txt")).read().split()
SPEC = ("The oracle is an independent model of the tree hash written from the design, bound to the code by "
        "comparing every explored execution with it. ")
FAR = "C01 C02 C03 C05 C07 C08 C13 C14 C15 C17".split()
CHECKS = {
    "C01": ("explicit enumeration of (length, mode, backend, key, content) with every execution of the real code compared with the model",
            SPEC + "Exhaustive for every length up to the stated bound in every mode on every backend this machine has, and for block boundaries and tree shapes beyond it; content patterns are enumerated, not all contents."),
    "C02": ("stateless and stateful search over all update histories up to a depth, on the real hasher",
            SPEC + "All sequences of pieces from boundary-derived piece sizes up to a depth, plus breadth-first search over hasher states with exact state deduplication."),
    "C03": ("exhaustive search over interleavings of read and clone on the real output object",
            SPEC + "All read/clone interleavings up to a depth for every root shape; positions near 2^32 are reached by really reading."),
    "C04": ("explicit enumeration of pairs of (mode, key, message) with collision detection over the real code",
            "Complete over the enumerated space of pairs; root-marker discipline is decided against the model on every node kind."),
    "C05": ("explicit enumeration of the kernel parameter space on every backend against the model",
            SPEC + "All flag bytes, block lengths, input counts up to the bound, block counts and lane offsets around carries; single-bit walks over every input bit."),
    "C06": ("controlled scheduler: exhaustive exploration of interleavings of the real fork-join code and of independent threads, plus interruption of one call by another at every instruction",
            "Every schedule of forks, steals and compression calls for small trees, preemption-bounded for larger ones; below that granularity one interruption per execution at every machine instruction. Sequentially consistent memory; rayon itself is replaced by the scheduler."),
    "C07": ("explicit enumeration of chunk positions up to 2^53 and of all short histories from there, on the real hashers placed at the position",
            SPEC + "Placement is calibrated against real histories on every run; a real input beyond 4 GiB is hashed too."),
    "C08": ("fault enumeration: all sequences of reader and writer answers up to a depth, on the real copy_wide",
            "Every sequence of answers up to the stated depth; the oracle is the trace predicate in the statement."),
    "C09": ("exhaustive enumeration of routes x lengths x output lengths x modes x read-splitting patterns on the real binary",
            SPEC + "The real binary is run; short and interrupted reads come from an interposed system call layer."),
    "C10": ("fault injection at every position of every input list up to a bound, on the real binary",
            "Every fault kind at every position in every enumerated list; key validation enumerates every length and every byte value at every position."),
    "C11": ("stateless and stateful search over update histories of the C hasher in every build configuration",
            SPEC + "AVX-512 runs only where the machine has it; NEON is compiled against an emulation of its intrinsics."),
    "C12": ("explicit enumeration of the kernel parameter space of every C kernel against the model",
            SPEC + "AVX-512 runs only where the machine has it; NEON is compiled against an emulation of its intrinsics."),
    "C13": ("explicit enumeration of the kernel parameter space of every 64-bit kernel against the model",
            SPEC + "AVX-512 runs only where the machine has it; NEON is compiled against an emulation of its intrinsics."),
    "C14": ("exhaustive enumeration of lengths x placements against inaccessible pages on the real code",
            "Every stray access that leaves the page is a fault; reads of uninitialised memory are exposed by repainting stack and heap."),
    "C15": ("exhaustive enumeration of byte differences on the real Hash type",
            "Complete for all single and two-byte differences and all sets of up to four positions; the relation is a byte-wise one, so this covers its logic."),
    "C16": ("exhaustive enumeration of difference positions and single-bit changes with instruction traces of the real code compared",
            "Compares complete instruction-address traces; micro-architectural timing is out of scope."),
    "C17": ("stateless and stateful search over update histories of the reference implementation",
            SPEC + "Piece sizes from block and chunk boundaries, exact state deduplication."),
    "C18": ("explicit enumeration of (length, mode, key, output length) on the real Python module",
            SPEC + "Lengths are enumerated up to the stated bound."),
    "C19": ("exhaustive search over interleavings of update, finalize, read and clone on the real hasher",
            SPEC + "All interleavings up to a depth at boundary positions on every backend."),
    "C20": ("exhaustive enumeration of processor descriptions answered to CPUID, with every executed instruction of the real code decoded and compared with the description",
            "Needs CPUID faulting (arch_prctl); where the machine has none, only the backends chosen by the hook are decoded. x86-64 only."),
    "C21": ("exhaustive enumeration of operations, histories and input sizes on the real code with its executed instructions, stack, heap and resource limits monitored",
            "Limits are several times what the code needs (instructions per call, byte and tree level; stack and heap per tree level), so that growth is detected and not style. Instructions are counted on x86-64 only; the emulated NEON build is measured for memory only."),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--reverse"], stdout=subprocess.PIPE, text=True).stdout
    commits = [l.split()[0] for l in hooks.splitlines() if "verification" in l or "clonable reference" in l]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in DONE:
            t, note = CHECKS[i]
            if i in FAR:
                note += (" A smaller space of the same kind is executed under Miri on big-endian, 32-bit and SIMD-less"
                         " processors.")
            checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i,
                           "thorough_cmd": "./check %s --tier thorough" % i,
                           "technique": "model checking: " + t, "level": "model_checking", "level_note": note})
        else:
            na.append({"property": i, "reason": "its check is not built yet"})
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "hooks": {"guard": "rustc --cfg baokeshed_verif and --cfg baokeshed_verif_state",
                  "enable": "RUSTFLAGS='--cfg baokeshed_verif --cfg baokeshed_verif_state' (set by ./check; it falls back to fewer hooks where a changed tree does not compile with them)",
                  "source_commits": commits},
        "checks": checks,
        "not_applicable": na,
    }, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
