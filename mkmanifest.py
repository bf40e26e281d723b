"""writes MANIFEST.json from the checks present"""
import json, os
T = {
"C01": ("exhaustive enumeration of bounded operand families on the real code", "exploration", "Every product routine is executed on complete operand families (all scaled monomial pairs, every coefficient value, all residue pairs at the pointwise stage for n=16, steered extremal operands) and compared with the schoolbook product. Assumes determinism (C18); does not cover all 12289^2n operands."),
"C02": ("exhaustive enumeration of bounded input families on the real code", "exploration", "Each default/naive transform is run on complete families (all basis vectors x values, all residues at each butterfly, all roots) against the direct evaluation of the transform."),
"C03": ("exhaustive enumeration of bounded input families on the real code", "exploration", "As C02 for the lazy transforms, C and AVX2, signed inputs up to 21499 and every valid root."),
"C04": ("exhaustive differential exploration of C against AVX2", "exploration", "Both implementations execute every case; results compared bit for bit over all lengths, alignments and complete 2^16/low-bit input families."),
"C05": ("explicit-state search over API operation sequences with the real code as transition function", "model_checking", "All operation sequences to the bound from several arrays; the residue-vector model and the implementation step together."),
"C06": ("exhaustive enumeration of all operand pairs on the real code", "exploration", "All 12289^2 operand pairs, lengths and indices to the bound."),
"C07": ("exhaustive enumeration of the 32-bit input space on the real code", "exploration", "All 2^32 inputs (thorough; complete residue/high-part families in quick) in C and AVX2 against the documented contract."),
"C08": ("interval model of every network node, with conformance by extremal witnesses on the real code", "model_checking", "Model covers all valid roots; witnesses executed on the real C (plain and overflow-trapping builds) and AVX2 code."),
"C09": ("exhaustive enumeration of lengths and tables on the real code", "exploration", "All power-of-two lengths to 2^20 and all tables, contents from complete small-alphabet arrays."),
"C10": ("exhaustive enumeration of generator parameters on the real program", "exploration", "All 4094 valid (n, psi) pairs for both generators; every entry recomputed independently."),
"C11": ("exhaustive enumeration of invalid parameters on the real program", "exploration", "All sizes/roots in the accepted numeric range and malformed lists; status and directory contents checked."),
"C12": ("exhaustive fault injection at every I/O operation of the real program", "fault_enumeration", "Every open, write and close fails in turn (transient and persistent), every size limit; status versus complete output."),
"C13": ("exhaustive enumeration of intervals and multipliers on the real code against brute force", "exploration", "All subintervals of many windows, wide intervals via an exact periodicity argument, whole-transform bounds against concrete extremal runs."),
"C14": ("exhaustive enumeration of intervals on the real code against all concrete points", "exploration", "All subintervals of many windows and boundary lists; unrepresentable results run in child processes."),
"C15": ("exhaustive enumeration of interval boxes and concrete points on the real code", "exploration", "All points for n<=8 boxes; extremal, corner and threshold points beyond; warnings demanded at every overflow threshold."),
"C16": ("exhaustive enumeration of lengths and alignments under guard pages on the real code", "exploration", "Every routine, length and alignment to the bound with inaccessible pages on either side and read-only constant arguments."),
"C17": ("exhaustive enumeration of register-state patterns around every call of the real code", "exploration", "Every AVX2 entry point, all lengths to the bound, complete pattern set in callee-saved registers, upper argument halves, flags and control words."),
"C18": ("exhaustive single-preemption schedule exploration by single-stepping the real code", "model_checking", "Every instruction boundary of every routine is preempted by an interfering call; all call histories to the bound."),
"C19": ("exhaustive differential exploration of both code copies with assertion hooks", "exploration", "Benchmark copies and library run on the same complete families; assertion hook and generators compared."),
"C20": ("complete enumeration of the shipped data against its definition", "exploration", "Every entry of every committed table, list and vector."),
"C21": ("exhaustive enumeration of intervals on the real transfer function over a stand-in domain", "exploration", "The repository's source compiled against minimal stand-ins for the analyzer's interval and domain classes."),
"C22": ("exhaustive enumeration of small arrays on the real code under guard pages", "exploration", "All arrays over small alphabets to the length bound, all permutations, structured large arrays."),
"C23": ("exhaustive enumeration of emulated processors by single-stepping the real code", "model_checking", "CPUID and XGETBV are emulated while the real instructions are single-stepped; every combination of the relevant bits and complete families of the irrelevant ones."),
"C24": ("exhaustive exploration of the input families on instrumented and differently compiled builds", "exploration", "The complete input families of the functional checks (one part per family in quick) on a build that traps undefined behaviour and on two builds at opposite ends of optimisation and initial memory contents, results compared with the exact ones."),
"C25": ("exhaustive exploration of operation sequences and allocation failures on the real code under a checking allocator", "model_checking", "All operation sequences to the bound over a pool of intervals and every abstract routine at every size run on a checking allocator (two poisons, no reuse); every allocation of a call fails in turn."),
"C26": ("exhaustive enumeration of single faults in the products under the real programs", "fault_enumeration", "Every fault is one run of the real program in its own process, with stand-in products that are wrong in one coefficient; quick covers every coefficient of three vectors and the critical ones of all others, thorough all."),
"C27": ("exhaustive enumeration of clock histories under the real programs on a virtual time-stamp counter", "exploration", "Each RDTSC of the real program traps and is answered by the history; stand-in products let virtual time pass."),
}
NA = {}
checks, na = [], []
for pid, (t, lv, note) in T.items():
    if os.path.exists("checks/c_%s.py" % pid.lower()):
        checks.append({"property": pid, "quick_cmd": "python3 checks/run.py %s quick" % pid, "thorough_cmd": "python3 checks/run.py %s thorough" % pid,
                       "technique": t, "level": lv, "level_note": note})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'checks'); import vbuild\" && gcc --version >/dev/null", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: every check builds /repo's current sources in a scratch directory. See DESIGN.md."}, open("MANIFEST.json", "w"), indent=1)
