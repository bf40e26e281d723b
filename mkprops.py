import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[state] if isinstance(state,str) else state
    if observe: a["observe_at"]=[observe] if isinstance(observe,str) else observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

S="src/"
per=lambda *k:[S+f"{x}{n}.{e}" for x in k for n in (16,256,512,1024) for e in ("c","h")]

p("C01","Every polynomial product is the exact product modulo X^n+1 and 12289",
"For sizes 16, 256, 512 and 1024, every product routine (five variants each of the default, the naive, the Longa-Naehrig C and the AVX2 implementation) given two coefficient arrays in [0,12288] returns exactly the coefficients of a*b in Z_12289[X]/(X^n+1), in standard order and in [0,12288]. All variants and implementations therefore return the same polynomial for the same operands.",
["inputs","configurations"],"all pairs of operand polynomials with coefficients in [0,12288], all 4 sizes x 4 implementations x 5 variants",
"The tests run a few fixed vectors and unseeded random operands (and 100 KAT pairs at n=1024); rare residues, boundary coefficients and operands that maximise the unreduced intermediates are practically never drawn, and naive product3..5 at n=1024 are not run at all.",
per("ntt","ntt_red","ntt_red_asm","naive_ntt"),
[("pointwise product between forward and inverse transform, final scaling and correction","product1..5 in src/ntt<n>.c, ntt_red<n>.c, ntt_red_asm<n>.c, naive_ntt<n>.c"),("scaling tables (n^-1, 3^-8, 3^-6)","src/make_tables.c, src/make_red_tables.c")],
observe="the output array of the product routines")

p("C02","Default and naive transforms compute the documented number-theoretic transform",
"For every power-of-two size and every valid root, each default transform (Cooley-Tukey and Gentleman-Sande, standard to bit-reversed and back, plain, with input multiplied by powers of psi, with output multiplied by powers of psi) maps an array in [0,12288] to exactly the NTT its header documents, in the documented order, with every output in [0,12288]. The naive transforms produce results congruent to that modulo 12289. Called with tables of inverse powers they compute the corresponding unscaled inverse transform.",
["inputs","configurations"],"all inputs in [0,12288]^n, all n in 1..2048 (powers of two) and n=4096 for the plain forms, all valid roots, all 9 default and 8 naive transforms",
"test_ntt uses a few sizes, one psi per size and random arrays; special values at special positions (Barrett quotient off-by-one for one product, sum exactly equal to the modulus, last block of a level) and other roots are not sampled.",
[S+"ntt.c",S+"ntt.h",S+"naive_ntt.c",S+"naive_ntt.h"]+per("ntt"),
[("butterfly levels and twiddle indexing","transform functions in src/ntt.c and src/naive_ntt.c"),("modular add/sub/multiply","src/ntt.c (Barrett-style reduction)")],
observe="array contents on return")

p("C03","Lazy-reduction transforms are congruent to the exact NTT (C and AVX2)",
"For every power-of-two size up to 2048 (at least 16 for AVX2) and every valid root, each Longa-Naehrig transform, in C and in AVX2 assembly, maps any array with |a[i]| <= 21499 to an array congruent modulo 12289, element by element, to the NTT documented for it, in the documented order. This holds for the plain, pre-multiplied and post-multiplied forms and for the inverse tables.",
["inputs","configurations"],"all inputs with |a[i]|<=21499, all n in 2..2048 (C) and 16..2048 (AVX2), all valid psi, 8 transforms x 2 implementations",
"The tests use random arrays and one root per size; each level of the assembly has its own code (shuffles for blocks of 1, 2, 4, loops for larger ones) and its own twiddle addressing, so a fault for one size, lane, sign or extreme magnitude is missed.",
[S+"ntt_red.c",S+"ntt_red.h",S+"ntt_asm.S",S+"ntt_asm.h"]+per("ntt_red","ntt_red_asm"),
[("lazy butterflies with reduction of w*x","transforms in src/ntt_red.c"),("vectorised levels, permutation constants","src/ntt_asm.S")],
observe="array contents on return, modulo 12289")

p("C04","AVX2 routines return bit-for-bit the same arrays as the portable C routines",
"Every AVX2 routine (shift, single and double reduction, correction, elementwise, 16-bit-table and scalar multiply-reduce, all eight transforms, all products) called with the same valid arguments as its C counterpart leaves exactly the same 32-bit integers in the destination array. It does so for every length that is a positive multiple of 16 (every power of two from 16 for transforms) and any alignment of the arrays.",
["inputs","configurations"],"all inputs in the documented ranges, all lengths, all alignments, all AVX2 entry points including the non-unrolled variants",
"test_avx / test_ntt_avx compare the two on random data for seven sizes; lane-specific, sign-specific, length-specific (e.g. 48) or alignment-specific divergences and rare low-bit patterns are not reached.",
[S+"ntt_asm.S",S+"ntt_asm.h",S+"ntt_red.c",S+"ntt_red.h"]+per("ntt_red_asm","ntt_red"),
[("vector code and its constants","src/ntt_asm.S")],observe="destination arrays of both implementations")

p("C05","Any valid sequence of API steps tracks the exact ring element it represents",
"Any sequence of the per-size operations (transforms, inverse transforms, bit-reversal, multiplication by the psi tables, pointwise product, scaling, reduction, shift, correction) that respects the documented input ranges leaves the array congruent modulo 12289 to the result of the same sequence of exact operations. In particular, each inverse transform followed by division by n restores the original polynomial for every forward/inverse pair with compatible orders, whatever happened to the array before.",
["histories","inputs","configurations"],"all operation sequences up to the bound, from several initial arrays, for sizes 16, 256, 512, 1024 and the four implementations",
"The tests check a handful of fixed two- or three-step compositions on random data; other orders (e.g. GS forward then CT inverse after a shuffle, a second product on an already transformed array) are not exercised.",
per("ntt","ntt_red","ntt_red_asm","naive_ntt"),
[("inline per-size wrappers selecting the table for each transform","src/ntt<n>.h, ntt_red<n>.h, ntt_red_asm<n>.h, naive_ntt<n>.h")],
observe="array contents after every step")

p("C06","Default elementwise arithmetic is exact and canonical modulo 12289",
"For all operands in [0,12288], the default elementwise products (by a 16-bit table in place, of two arrays into a third, by a scalar) store exactly the product modulo 12289, in [0,12288], at every index below the length and for every length, and leave their constant operands unchanged. The naive counterparts do the same.",
["inputs"],"all 12289^2 operand pairs, all indices and lengths up to the bound",
"151 million operand pairs; test_mod (not part of the run suite) and the random tests sample a few thousand, so a reduction that is wrong for a few products near a multiple of 12289 goes unnoticed.",
[S+"ntt.c",S+"ntt.h",S+"naive_ntt.c"],
[("Barrett-style division by constant multiplication and shift","src/ntt.c"),("elementwise loops","src/ntt.c, src/naive_ntt.c")],observe="output arrays")

p("C07","Reduction, shift, correction and normalisation meet their contracts everywhere",
"For every 32-bit input, single reduction yields a value congruent to 3x in [-524287,536573] and double reduction a value congruent to 9x in [-130,12413]; normalisation yields the residue of x (respectively of x/3) in [0,12288]; correction maps [-12289,24577] to the residue in [0,12288]; shift maps [0,12288] to the congruent value in [-6144,6144]. Multiply-reduce yields a value congruent to three times the product that fits 32 bits whenever the product is in the documented range, within [-36864,12285] for operands in [0,12288] and within [-9216,21499] for operands in [-6144,6144]. This holds in C and AVX2, at every index and length.",
["inputs"],"all 2^32 inputs of the unary operations; all operand pairs of the documented ranges for products; all indices and lengths up to the bound",
"The tests draw random values; interval end points, negative multiples of 4096, and the single values at which a mask, shift or comparison is off by one are missed.",
[S+"ntt_red.c",S+"ntt_red.h",S+"ntt_asm.S",S+"ntt_asm.h"],
[("red / double red / multiply-red","src/ntt_red.c, src/ntt_asm.S"),("correct, shift, normalize","src/ntt_red.c, src/ntt_asm.S")],observe="output arrays")

p("C08","No 32-bit overflow on any documented input, even the worst-case one",
"In the Longa-Naehrig products (sizes 16 to 1024, operands in [0,12288]) and in the Longa-Naehrig transforms with generated tables (size up to 2048, |a[i]| <= 21499), no intermediate or final value exceeds the 32-bit range, so results remain congruent to the exact ones even for the operands that drive a given intermediate to its largest or smallest possible value. This holds in C and in AVX2.",
["inputs","configurations"],"all inputs in the documented ranges; all intermediate values of all transforms and product pipelines",
"Random operands keep intermediates two to three orders of magnitude below the worst case; an omitted reduction or a larger table entry only overflows on adversarial operands the tests never draw.",
[S+"ntt_red.c",S+"ntt_asm.S"]+per("ntt_red","ntt_red_asm"),
[("growth of intermediates level by level","transforms in src/ntt_red.c and src/ntt_asm.S"),("reductions between steps of the products","src/ntt_red<n>.c, src/ntt_red_asm<n>.c")],observe="transform and product outputs on extremal witnesses, signed-overflow traps")

p("C09","Bit-reversal shuffles realise exactly the bit-reversal permutation",
"For every power-of-two length, the generic shuffle moves the element at each index to the index with its bits reversed, whatever the contents, so applying it twice restores the array. The table-driven shuffle with a generated or shipped pair table of a given size performs exactly the same permutation.",
["inputs","configurations"],"all power-of-two lengths up to 65536, all contents, all shipped and generatable pair tables",
"Tests check a few sizes with one array each; sizes 1 and 2, large sizes and individual table pairs are not covered.",
[S+"ntt.c",S+"naive_ntt.c",S+"make_bitrev_table.c"]+[S+f"bitrev{n}_table.{e}" for n in (16,256,512,1024) for e in "ch"]+[S+"test_bitrev_tables.c"],
[("carry-propagating reversed counter","generic shuffle in src/ntt.c, src/naive_ntt.c"),("pair tables","src/make_bitrev_table.c")],observe="array contents on return")

p("C10","Generated tables hold exactly the documented constants for every valid root",
"For every size n and every psi with psi^n = -1 modulo 12289, the table generators succeed and write a header and a source file that compile, whose parameters (roots, inverses, inverse of n, rescale factors) and whose every table entry equal the documented powers in the documented order, in [0,12288] for the default tables and in [-6144,6144] for the reduced ones. The bit-reversal generator likewise lists each index pair exactly once.",
["inputs","configurations"],"all 4094 valid (n, psi) pairs for both generators, all power-of-two sizes for the bit-reversal generator",
"The build runs each generator for four parameter pairs only; nothing compares the entries of unused or alternate tables with the formula.",
[S+"make_tables.c",S+"make_red_tables.c",S+"make_bitrev_table.c"],
[("power, inverse and reverse helpers, table builders","src/make_tables.c, src/make_red_tables.c")],observe="the generated files")

p("C11","Generators reject every invalid parameter and leave no output behind",
"The table generators exit with a failure status and create no file for every missing, extra or decimal-integer argument list that is not a power-of-two size n >= 2 followed by a psi with 1 < psi < 12289 and psi^n = -1 modulo 12289 (so for every size of 4096 or more), and the bit-reversal generator does so for every size that is not a power of two between 2 and 32768. They terminate on every such input.",
["inputs","configurations"],"all sizes and all candidate roots in the accepted numeric ranges and beyond, malformed and missing arguments",
"No test runs a generator with bad arguments.",
[S+"make_tables.c",S+"make_red_tables.c",S+"make_bitrev_table.c"],
[("argument validation in main","src/make_tables.c, src/make_red_tables.c, src/make_bitrev_table.c")],observe="exit status and directory contents")

p("C12","A generator never reports success over incomplete output",
"If any operation on an output file fails (it cannot be opened, a write fails or is cut short at any point, or closing fails), the table generators exit with a failure status. Whenever a generator exits with success, both of its output files are complete.",
["fault_sequences"],"a failure injected at every open, write and close the generator performs, persistent or transient, and every size limit on the output",
"No test injects I/O faults.",
[S+"make_tables.c",S+"make_red_tables.c",S+"make_bitrev_table.c"],
[("file output in main","src/make_tables.c, src/make_red_tables.c, src/make_bitrev_table.c")],observe="exit status versus file contents")

p("C13","Reduction-bound functions return the true extremum with a valid witness",
"For every non-empty interval of x and every fixed multiplier w (including zero) or interval of multipliers, the bound functions terminate and return exactly the minimum or maximum of the Longa-Naehrig reduction of x (or of w*x) together with arguments in range that attain it. The per-step and whole-transform growth bounds derived from them are never smaller than any value the corresponding butterfly or transform can produce.",
["inputs"],"all intervals and multipliers in the enumerated windows, all signs and asymmetries",
"The Red-bounds test only prints results; its exit status does not depend on them, and it uses symmetric intervals only.",
[S+"red_bounds.c",S+"red_bounds.h"],
[("search with early termination","src/red_bounds.c")],observe="returned bounds and witnesses")

p("C14","Interval operations over-approximate their concrete counterparts",
"For every pair of intervals and every concrete values inside them, the result of each interval operation (sum, difference, negation, reduction, double reduction, product-and-reduce, scale-and-reduce, normalisation, normalisation with division by 3, shift, correction) contains the concrete result, and is a well-formed interval. A sum, difference or negation whose exact result is not representable, and an interval built with its lower bound above its upper bound, terminate the program with an error instead of returning a wrong interval.",
["inputs"],"all intervals in the enumerated windows (including degenerate and asymmetric ones) and all concrete points in them; boundary values of the 64-bit range",
"No test compares an interval with concrete values: the paper tests only check the exit status of a few runs.",
[S+"intervals.c",S+"intervals.h"],
[("interval transfer functions","src/intervals.c"),("bounds used by them","src/red_bounds.c")],observe="returned intervals, exit status")

p("C15","Abstract transforms enclose every concrete run and warn of every overflow",
"When an abstract transform or array operation runs on intervals, each resulting interval contains the value at that index of every concrete run of the corresponding concrete operation on inputs (and, for the abstract-table variant, twiddles) drawn from the input intervals, computed without wrap-around, and the bounds printed for each round of a transform enclose the array contents at that point. If some concrete run of a transform would leave the 32-bit range at any step (a stored value, a difference or the result of a multiply-reduce), a warning is printed; abstract correction of an interval outside its documented domain ends the program with an error.",
["inputs","configurations"],"all interval inputs in the enumerated families, all concrete points (or all corner points) in them, all 8 transforms x 2 variants and the array operations",
"The paper tests run eight configurations and check the exit status only.",
[S+"ntt_red_interval.c",S+"ntt_red_interval.h",S+"intervals.c"],
[("mirrored loops over interval arrays","src/ntt_red_interval.c")],observe="interval arrays and printed warnings")

p("C16","Routines touch only their own arrays and never alter constant inputs",
"Every array routine reads and writes only elements 0..n-1 of the arrays it is given (and of its twiddle table), never modifies arguments documented as constant, and never touches memory before or after them, for every supported length and every 4-byte (2-byte for tables) alignment. Table-driven routines work on tables in read-only memory.",
["inputs","configurations"],"all exported array routines, all supported lengths up to the bound, all alignments, guard pages on both sides",
"The tests use static arrays with slack and never check for accesses outside them.",
[S+"ntt.c",S+"ntt_red.c",S+"ntt_asm.S",S+"naive_ntt.c"]+per("ntt","ntt_red","ntt_red_asm"),
[("loop bounds and vector loads","src/ntt.c, src/ntt_red.c, src/ntt_asm.S, src/naive_ntt.c")],observe="page faults, canaries, table checksums")

p("C17","Assembly routines honour the platform calling convention",
"Every AVX2 routine preserves all callee-saved registers, the stack pointer, the direction flag and the floating-point control state, works for any stack contents, and depends only on the declared 32-bit (not the undefined upper) bits of its 32-bit arguments. The AVX2 detection routine returns a proper boolean and likewise preserves the caller's registers.",
["inputs","configurations"],"all AVX2 entry points, all supported lengths up to the bound, all patterns of register contents on entry in the enumerated set",
"Compilers rarely keep live values in every callee-saved register around the tests' calls, and almost always happen to zero-extend 32-bit arguments.",
[S+"ntt_asm.S",S+"ntt_asm.h"],
[("register usage, argument handling","src/ntt_asm.S")],observe="register file before and after each call")

p("C18","Calls are independent: reentrant, deterministic and free of hidden state",
"The result of any library routine depends only on its arguments: interrupting a call at any instruction with another call (of the same or another routine, on other arrays) changes neither result, and no earlier call influences a later one. Concurrent calls from several threads on disjoint arrays are therefore safe.",
["schedules","histories"],"every single preemption point (instruction boundary) of every routine with every interfering routine in the enumerated set; all call histories up to the bound",
"All tests are single-threaded and call routines one after another.",
[S+"ntt.c",S+"ntt_red.c",S+"ntt_asm.S",S+"naive_ntt.c"]+per("ntt","ntt_red","ntt_red_asm"),
[("absence of static mutable state","src/*.c, src/ntt_asm.S")],observe="results of both calls")

p("C19","The verification benchmarks agree with the library and their assertions hold",
"The copies of the transforms, products, bound functions, generators and tables shipped with the static-analysis benchmarks return the same values as the library's own, and their embedded range assertions hold, for every input satisfying the benchmark harnesses' assumptions.",
["inputs","configurations"],"all functions of the benchmark copies over the enumerated input families, including extremal inputs",
"The benchmark sources are only compiled; nothing runs them or compares them with the library.",
["verifier/vstte20-benchmarks/"+x for x in ("ntt.c","ntt_red.c","ntt_red1024.c","red_bounds.c","make_tables.c","make_red_tables.c","make_bitrev_table.c","bitrev1024_table.c","clam.h")],
[("assertions on the product before reduction","verifier/vstte20-benchmarks/ntt_red.c")],observe="outputs of both copies, assertion hook")

p("C20","Shipped constant data is mathematically correct",
"Every committed constant table and data list is right: the bit-reversal tables, the size-32 tables, the tables used by the generic tests (default and reduced, all sizes), the lists of primitive roots (complete and free of non-roots) and the known-answer vectors (each listed product is the product of its operands).",
["configurations"],"every entry of every committed table, list and known-answer vector",
"Tests use these data as the reference, so an error in them is either invisible (unused tables) or blamed on the code; most entries are never compared with the definition.",
[S+"ntt32_tables.c",S+"ntt32_tables.h",S+"test_ntt_tables.c",S+"test_ntt_red_tables.c",S+"test_bitrev_tables.c",S+"bitrev16_table.c",S+"bitrev256_table.c",S+"bitrev512_table.c",S+"bitrev1024_table.c",S+"data_poly1024.c","data/primitive-roots-1024.txt","data/primitive-roots-2048.txt","data/primitive-roots-4096.txt"],
[("committed data","src/*_tables.c, src/data_poly1024.c, data/")],observe="file contents")

p("C21","The analyzer's reduction transfer function is sound and exact",
"For every interval of the input variable, the static analyzer's transfer function for the Longa-Naehrig reduction assigns to the output variable exactly the interval spanned by the reduction over it; an unbounded input gives an unconstrained output, unreachable states stay unreachable, and other variables are not changed. Every other operation of the domain has exactly the effect of the underlying interval domain's.",
["inputs"],"all intervals in the enumerated windows, including negative, degenerate and half-bounded ones",
"The analyzer is not built by the test suite at all.",
["verifier/src/ntt_intervals.cpp","verifier/src/ntt_intervals.hpp"],
[("intrinsic red","verifier/src/ntt_intervals.cpp")],observe="abstract state after the intrinsic")

p("C22","The sort behind the timing statistics sorts every array",
"Sorting an array of 64-bit unsigned numbers yields a permutation of the input in non-decreasing order, without touching memory outside it, for every length including zero and one, with duplicates and extreme values.",
["inputs"],"all arrays up to the length bound over the alphabet, all permutations up to the bound, structured large arrays",
"Nothing checks the sort; the speed programs only print medians derived from it.",
[S+"sort.c",S+"sort.h","verifier/vstte20-benchmarks/sort.c"],
[("sort","src/sort.c")],observe="array contents on return")

p("C23","AVX2 detection answers exactly what the CPU and operating system report",
"The AVX2 detection returns true exactly when the processor reports OSXSAVE, AVX and AVX2 and the operating system has enabled both SSE and AVX state (XCR0 bits 1 and 2), on every processor, whatever the other feature bits are. It never executes XGETBV when OSXSAVE is clear, so it never faults on an old processor.",
["configurations"],"all combinations of the feature bits it depends on, all single and pairwise changes of the other bits, all XCR0 low bytes, leaf-7 availability",
"The tests run on one machine, which has AVX2; a wrong answer on any other processor or operating system cannot be seen there.",
[S+"ntt_asm.S",S+"ntt_asm.h"],
[("avx2_supported","src/ntt_asm.S")],observe="the return value and the instructions executed")

p("C24","The C code has no undefined behaviour on documented inputs",
"On every input in its documented domain, no C routine of the library, the interval and bound libraries or the table generators executes undefined behaviour (signed overflow, shift by an invalid amount, out-of-range index, misaligned access, use of an uninitialised variable). Its results are therefore the same, and right, whatever compiler and optimisation level builds it and whatever memory held before.",
["inputs","configurations"],"the input families of the functional properties in each of several builds: trapping on undefined behaviour, and two compilers at opposite optimisation levels with automatic variables preset to opposite patterns",
"The tests exercise one build by one compiler, where undefined behaviour usually happens to do what was meant.",
[S+"ntt.c",S+"naive_ntt.c",S+"ntt_red.c",S+"red_bounds.c",S+"intervals.c",S+"ntt_red_interval.c",S+"sort.c",S+"make_tables.c",S+"make_red_tables.c",S+"make_bitrev_table.c"],
[("all C routines","src/*.c")],observe="traps and results of the differently built code")

p("C25","Interval objects are independently owned and never changed behind the caller",
"Every interval operation returns a newly allocated interval and neither changes nor releases its operands, and its result depends only on the operands' bounds. An abstract transform or in-place array operation consumes the intervals in its array and leaves the same number of distinct live intervals in it, releases every other interval it created exactly once, never uses a released one, and leaves abstract tables and read-only operands untouched. When memory runs out the program stops with an error instead of returning or crashing.",
["inputs","histories","fault_sequences"],"all sequences of interval operations up to the bound, all abstract routines at all sizes, an allocation failure at every allocation of a call",
"The paper tests only print bounds; a shared, leaked or reused interval usually prints the right numbers until an allocation pattern changes.",
[S+"intervals.c",S+"intervals.h",S+"ntt_red_interval.c",S+"ntt_red_interval.h"],
[("constructors, delete_interval","src/intervals.c"),("delete_interval calls","src/ntt_red_interval.c")],observe="allocator calls, object contents, bounds and printed text")

p("C26","The known-answer programs fail exactly when some product is wrong",
"Each known-answer program (default, Longa-Naehrig C, AVX2) tries all five product routines of its implementation on all 100 recorded vector pairs and exits with success if, and only if, every coefficient of every product equals the recorded one. One wrong coefficient, in any product, vector and position and by any amount (a multiple of 12289 or a wrong high half included), makes it exit with a failure status. Products overwriting their operands does not change the verdict.",
["fault_sequences"],"all single wrong coefficients: 5 products x 100 vectors x 1024 coefficients x error values, in each of the three programs",
"The programs run only against correct products, where one that compares nothing passes as well.",
[S+"kat_mul1024.c",S+"kat_mul1024_red.c",S+"kat_mul1024_red_asm.c",S+"data_poly1024.c",S+"data_poly1024.h"],
[("test_mul_from_KAT_values","src/kat_mul1024.c, kat_mul1024_red.c, kat_mul1024_red_asm.c"),("build_kat","src/data_poly1024.c")],observe="the exit status of the programs")

p("C27","The speed programs print the true median and average of the call times",
"Each speed program (default, naive, Longa-Naehrig C, AVX2) times every one of its five product routines and prints, under that routine's name, exactly the median (the upper one of an even number of samples) and the truncated average of the times its calls took, for every history of call durations and wherever the cycle counter starts: no sample is lost, counted twice or cut to 32 bits, and the program ends with success.",
["histories","configurations"],"families of call-duration histories (constant, monotone, one outlier at each critical place, two-valued around the median, values beyond 32 bits) x clock starts, in each of the four programs",
"Real run times are never known, so no test can tell a wrong statistic from a slow machine.",
[S+"speed_mul1024.c",S+"speed_mul1024_naive.c",S+"speed_mul1024_red.c",S+"speed_mul1024_red_asm.c",S+"sort.c"],
[("print_results, median_time, average_time, test_mul","src/speed_mul1024*.c"),("sort","src/sort.c")],observe="the printed text and the exit status")

for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
