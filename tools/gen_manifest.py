"""Writes MANIFEST.json from the list of checks below."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {}


def check(pid, technique, level, note):
    C[pid] = {"property": pid, "quick_cmd": f"./run.sh {pid} --tier quick",
              "thorough_cmd": f"./run.sh {pid} --tier thorough",
              "technique": technique, "level": level, "level_note": note,
              "evidence_file": f"evidence/{pid}.json"}


BFS = "explicit-state model checking of the real code (breadth-first search over the library's own transition functions against a reference model, with direct replay of traces)"
check("C01", BFS, "model_checking",
      "Complete reachable state space of the real Queue for capacities 1-4 (histories of any length), depth-bounded for larger ones; trusts the list model and that values are opaque to the queue.")
check("C02", BFS, "model_checking",
      "Complete reachable state space of the real Stack for capacities 1-4 (histories of any length), depth-bounded for larger ones; trusts the list model and that values are opaque to the stack.")

check("C03", BFS, "model_checking",
      "All insert/extract histories up to the stated depth over a small key domain with ties, on nine queue shapes, every state fully drained on a copy; all arrival orders of 7 blocks through deeper heaps. Trusts the multiset model; deep heaps (more than 5 levels) are not explored in quick.")

check("C04", BFS, "model_checking",
      "Complete reachable state space (or stated depth) of the real HashTable over alphabets containing pairs and triples of records with equal full hashes and the default record, on many capacity/bucket/probe shapes, plus prefilled large tables. The position of a new key is the table's choice; refusals are judged against every position the same key was ever stored at.")
check("C05", BFS, "model_checking",
      "All (keys, validity, cost) batches up to length 5 over the stated domains, applied by the real parallel_insert to tables in several fill states and compared with a reference; longer batches only as permutations and argument forms.")
check("C06", "explicit-state exploration of all interleavings of the real accelerator kernels, interpreted from their Pallas jaxprs, plus end-to-end replay on the real insertion code", "model_checking",
      "The kernels' own jaxprs are executed by a small-step interpreter with every interleaving of memory operations (and every grid order) explored; trusts that the interpreter's atomics match Triton/TPU semantics. Real accelerators are not available here.")

check("C07", "exhaustive lockstep exploration: every history of the bounded menu under every tuning setting (fresh process each, kernels emulated) compared with the default run, plus the explicit-state searches of C03 and C05 under the settings that swap algorithms", "exploration",
      "53 settings; each meets every operation sequence of the stated length on its shapes; in quick each setting meets one to three of the shapes, in thorough all. Accelerator back ends are emulated by JAX's Pallas interpreter.")

check("C08", "exhaustive enumeration of all pairs of ascending runs through the real merge kernels (JAX's Pallas interpreter), plus explicit-state exploration of all interleavings of the kernels' grid programs", "model_checking",
      "All pairs of ascending sequences up to length 5 over 4-value domains (extremes, infinities, ties) for every algorithm, block size, unrolling and dtype listed, step sequences around the block sizes for long runs; kernels are interpreted, the GPU code generator is trusted.")

check("C09", "exhaustive enumeration of every value of small record classes and every single-bit difference of larger ones, on the real hashing code, against a reference implementation of the documented encoding and hash", "exploration",
      "Complete value spaces for records of up to 16 bits, all single-bit (and pairwise) differences from several bases for larger records; the reference hash is the documented xxHash-style function. Collisions outside the enumerated set are not covered.")
check("C10", "exhaustive enumeration of all (value, cost, validity) batches up to a length on the real unique_mask, against a reference", "exploration",
      "All batches within the stated domains including costs one unit apart beyond float precision, infinities, unfilled entries and records with equal hashes; longer batches only as permutations.")
check("C11", "exhaustive enumeration of all (index vector, condition vector) pairs on the real conditional updates, and all masks for conditional selection, against a sequential reference", "exploration",
      "All index/condition vectors up to the stated length for arrays and structured batches, including out-of-range entries and every index dtype.")
check("C12", "exhaustive enumeration of all (operation, argument, batch shape) triples and all operation chains of bounded depth on the real code, against numpy on record numbers (value-independence makes one batch of distinct records decide all contents)", "exploration",
      "All shapes in the list with all axis/shift/permutation/width arguments; per-field maps with negative or absent axes are judged on classes without inner shapes only; trusts numpy for the record-number arrays.")
check("C13", "exhaustive enumeration of packed contents (all contents up to 12 bits, every single and neighbouring bit beyond) for every width 1-32 on the real packing code and kernels, plus all interleavings of the packing kernel's grid programs", "exploration",
      "Every width and every block-boundary count; contents of more than 12 bits are covered bit by bit, not in full. Kernels run on JAX's Pallas interpreter.")

check("C14", "exhaustive fault enumeration on the real save/load: every record class and shape round-trips; every cut-off length, every prefix and sector subset of the issued writes, and every damaged byte of each file is loaded", "fault_enumeration",
      "Crash model: writes reach the disk as any prefix of the issued writes or any subset of 512-byte sectors; damage is one byte at a time (several values) - in files above the stated size only the structured regions and a stride of the bulk. A damaged file must be refused or load as exactly the saved data.")

check("C15", "exhaustive enumeration of all index expressions of a grammar over all batch shapes (and all pairs of successive assignments) on the real indexing code, against numpy on record numbers", "exploration",
      "Every index tuple of the grammar (integers, slices, masks, integer arrays, Ellipsis, None) on every listed batch shape, for every class and every form of assigned value; in-range indices only; trusts numpy for the record-number arrays.")
check("C16", "exhaustive exploration of all operation sequences of bounded depth on every container, branching from every retained version, in every execution mode (eager, jit, vmap, scan, while, cond, and their compositions), compared with the step-by-step run", "exploration",
      "All operation sequences up to the stated depth from every version; every version is re-read after all its descendants were made. Execution modes are compared by the complete content of the resulting trees.")
check("C17", "exhaustive enumeration of class declarations from a grammar (dtype x inner shape x fill x form x nesting) and of all field-value combinations offered to validating classes, on the real code against the declaration", "exploration",
      "Every declaration of the grammar at every listed batch shape; every pair of right and wrong field values of the grid (in quick each deviation beside right and a few wrong partners).")

check("C18", "exhaustive enumeration of all batch shapes up to a bound, all record classes and both text forms on the real printing code, token by token against a model of the documented summary", "exploration",
      "Every batch shape of up to five axes within the stated lengths; record texts short enough for the terminal width; layout (borders, alignment, colours) is not judged.")

ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [C[i] for i in ids if i in C],
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in C],
     "notes": "All checks drive the library's public API in /repo's working tree (PYTHONPATH=/repo); nothing is built or cached outside the run. Findings are listed in known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
