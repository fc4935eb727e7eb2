"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
I, C, PR, H, SC = "inputs", "configurations", "programs", "histories", "schedules"
TESTS = "The unit tests evaluate each function at a handful of points and only print the difference; none of them fails on a wrong value."
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"observe_at": observe} if observe else {})),
                  _technique=technique, _note=note))


AI = "static analysis: abstract interpretation of the LLVM IR (floating-point intervals + Taylor models with rounding remainders, trace partitioning over the whole input domain)"
AINOTE = ("All representable inputs of the stated domain are covered by boxes; every trace of the IR of the real header code is interpreted abstractly "
          "with every rounding accounted for, and the enclosure of (result - reference) is compared with the bound. Trusted: clang front end, the engine, libquadmath centre values.")

prop("P01", "Exponential accurate to a few ulp over its whole domain",
     "For every double x with |x| <= 708 the double-precision fast exponential differs from e^x by at most 1e-15*e^x. For every float x in [-87.3, 88.72] the single-precision one differs by at most 3e-7*e^x.",
     [I], "every representable argument of the two domains (2^63 doubles, 2^31 floats)", TESTS, ["include/exp.h", "include/vdtcore_common.h"],
     [("range reduction, rational approximation, power-of-two scaling", "include/exp.h: fast_exp, fast_expf"), ("vectorisable floor", "include/vdtcore_common.h: fpfloor")], AI, AINOTE)
prop("P02", "Logarithm accurate to a few ulp for every positive normal number",
     "For every positive normal double x up to 1e307 the double-precision fast logarithm has relative error at most 5e-16, also next to x=1 where the result vanishes. For every positive normal finite float the single-precision one has relative error at most 2e-7.",
     [I], "every positive normal argument", TESTS, ["include/log.h", "include/vdtcore_common.h"],
     [("mantissa/exponent split", "include/vdtcore_common.h: getMantExponent, getMantExponentf"), ("rational/polynomial approximation and recombination", "include/log.h: fast_log, fast_logf")], AI, AINOTE)
prop("P03", "Sine, cosine and sincos accurate over the operating interval [-5000,5000]",
     "For every x with |x| <= 5000 the fast sine and cosine, and both outputs of the fast combined sincos, differ from sin x and cos x by at most 7e-16 in double and 4e-7 in single precision. For |x| <= 0.78 (normal numbers) the sine has relative error at most 9e-16 (double) and 4e-7 (single).",
     [I], "every representable argument in [-5000,5000], including those next to multiples of pi/4", TESTS, ["include/sincos.h", "include/sin.h", "include/cos.h"],
     [("Cody-Waite reduction to an octant", "include/sincos.h: reduce2quadrant"), ("polynomials", "include/sincos.h: fast_sincos_m45_45, fast_sincosf_m45_45"), ("swap and signs", "include/sincos.h: fast_sincos, fast_sincosf")], AI, AINOTE)
prop("P04", "Tangent accurate over the operating interval [-5000,5000]",
     "For every normal x with |x| <= 5000 the fast tangent differs from tan x by at most 8e-15*|tan x| + 5e-16*(1+tan^2 x) in double and 6e-7*|tan x| + 3e-7*(1+tan^2 x) in single precision. For |x| <= 0.78 the relative error is at most 8e-15 (double) and 6e-7 (single).",
     [I], "every normal argument in [-5000,5000], including those next to the poles", TESTS, ["include/tan.h"],
     [("reduction to an octant", "include/tan.h: reduce2quadranttan"), ("rational approximation and reciprocal", "include/tan.h: fast_tan, fast_tanf")], AI, AINOTE)
prop("P05", "Arcsine and arccosine accurate on the whole of [-1,1]",
     "For every x in [-1,1] the fast arcsine has relative error at most 6e-16 in double and 6e-7 in single precision (normal x). The fast arccosine differs from acos x by at most 1.2e-15 in double and 7e-7 in single precision.",
     [I], "every representable argument in [-1,1], including both ends and the switch between approximations", TESTS, ["include/asin.h"],
     [("two-range rational approximation", "include/asin.h: fast_asin, fast_asinf"), ("complement", "include/asin.h: fast_acos, fast_acosf")], AI, AINOTE)
prop("P06", "Arctangent accurate for every finite argument",
     "For every finite normal x the fast arctangent has relative error at most 7e-16 in double and 6e-7 in single precision.",
     [I], "every finite normal argument", TESTS, ["include/atan.h"],
     [("three-range reduction", "include/atan.h: fast_atan, fast_atanf")], AI, AINOTE)
prop("P07", "Two-argument arctangent returns the right angle in every quadrant",
     "For all finite y and x the fast atan2(y,x) differs from the angle of the point (x,y) by at most 1.2e-15 times the angle plus 1e-300 in double, and 8e-7 times the angle plus 4e-38 in single precision, whatever the quadrant and the ratio; it is 0 at the origin and pi (to that accuracy) for y=0, x<0. If exactly one argument is infinite the result is the limiting angle to the same relative accuracy.",
     [I], "all pairs of finite arguments of either sign (2^128 double pairs) and pairs with one infinity", TESTS, ["include/atan2.h", "include/atan.h"],
     [("reduction to the first octant and back", "include/atan2.h: fast_atan2, fast_atan2f")], AI,
     AINOTE + " The pair (y,x) is abstracted by signs, magnitude order and the ratio min/max as Taylor variable.")
prop("P08", "Hyperbolic tangent accurate for every finite argument",
     "For every finite x with |x| >= 1e-307 (double) or 1e-36 (single) the fast hyperbolic tangent has relative error at most 1.5e-14 in double and 6e-6 in single precision. For |x| <= 0.6 the relative error is at most 6e-15 and 2e-6 respectively.",
     [I], "every finite argument of the stated magnitude", TESTS, ["include/tanh.h"],
     [("Pade approximation, argument doubling, saturation", "include/tanh.h: fast_tanh, fast_tanhf")], AI, AINOTE)
prop("P09", "Fast inverse square root and fast reciprocal reach full iteration accuracy",
     "For every positive normal finite x the fast inverse square root has relative error at most 1.5e-14 in double and 1.5e-5 in single precision. For every normal x of either sign with |x| <= 1e307 (double) or 8e37 (single) the fast reciprocal has relative error at most 3e-14 and 3e-5.",
     [I], "every normal argument of the stated range", TESTS, ["include/sqrt.h", "include/inv.h"],
     [("bit-level seed and Newton iterations", "include/sqrt.h: fast_isqrt_general, fast_isqrtf_general"), ("sign handling", "include/inv.h: fast_inv_general, fast_invf_general")], AI, AINOTE)
prop("P10", "Approximate and reference reciprocal/inverse-root variants keep their accuracy",
     "For every normal argument of the ranges of the fast versions, the approximate inverse square root has relative error at most 2e-9 (double) and 4e-3 (single) and the approximate reciprocal at most 2e-9 and 8e-3. The plain inverse square root and plain reciprocal are within 4.5e-16 (double) and 2.5e-7 (single), and both identity functions return their argument exactly.",
     [I], "every normal argument (every finite argument for the identities)", TESTS, ["include/sqrt.h", "include/inv.h", "include/identity.h"],
     [("iteration counts", "include/sqrt.h: fast_approx_isqrt, fast_approx_isqrtf; include/inv.h: fast_approx_inv, fast_approx_invf"), ("comparison versions", "include/sqrt.h: isqrt, isqrtf; include/inv.h: inv, invf; include/identity.h")], AI, AINOTE)
prop("P11", "Saturated and out-of-domain arguments give the documented special results",
     "The fast exponential is +inf above 708 (float: above 88.72285), 0 below -708 (float: below -88.00001) and a finite nonzero normal number in between (float: on [-87.3,88.72]); the fast logarithm is NaN for negative arguments and +inf above 1e307 (float: at +inf); arcsine and arccosine are NaN outside [-1,1]. The fast hyperbolic tangent is exactly +-1 beyond 20 (float: 9.2) and the fast arctangent of +-inf is the machine value nearest +-pi/2.",
     [I], "every argument beyond the operating domain, infinities included", "No unit test evaluates any function outside its domain.", ["include/exp.h", "include/log.h", "include/asin.h", "include/tanh.h", "include/atan.h"],
     [("limits", "include/exp.h: EXP_LIMIT, MAXLOGF, MINLOGF; include/log.h: LOG_UPPER_LIMIT, LOG_LOWER_LIMIT; include/tanh.h")], AI,
     "Interval + NaN-flag abstract interpretation; out-of-range float-to-int conversions on the way are treated as producing any integer.")
prop("P12", "A NaN argument gives a NaN result",
     "Every scalar function of the library (fast, approximate and plain versions, both precisions, both outputs of sincos) returns NaN when its argument is NaN. The two-argument arctangent returns NaN when either argument is NaN, whatever the other one is.",
     [I], "every NaN argument, every function, every other argument", "No unit test uses a NaN.", ["include/*.h"],
     [("NaN flows through comparisons and bit manipulation", "all scalar functions")], AI, "NaN flag and NaN-bit-pattern abstraction; the payload is not tracked.")
prop("P13", "Odd and even functions are exactly symmetric",
     "For every argument of the operating domain, sine, tangent, arcsine, arctangent, hyperbolic tangent, the reciprocals and the identities satisfy f(-x) = -f(x) exactly, cosine satisfies f(-x) = f(x) exactly, and atan2(-y,x) = -atan2(y,x) exactly for y nonzero; the sincos outputs likewise. This holds in both precisions.",
     [I], "every pair of mirrored arguments of the operating domain (subnormals included where the function accepts them)", TESTS, ["include/*.h"],
     [("sign masks and sign restoration", "include/sincos.h, tan.h, asin.h, atan.h, atan2.h, tanh.h, inv.h")],
     "static analysis: abstract interpretation with signed value numbering; the evaluations at x and -x are compared operation by operation",
     "Equality is decided by congruence of value numbers (same operations on the same values up to sign), hence exact, not approximate.")
prop("P14", "No undefined or floating-point-exceptional operation inside the operating domain",
     "For every argument of the operating domain (zero and subnormals included where the function accepts them) no scalar function divides by zero, performs an invalid floating-point operation, converts an out-of-range floating-point value to an integer, executes an undefined integer operation or reads uninitialised or out-of-bounds storage. The operating domains are: exp |x|<=708 (float [-88,88.72]), log positive normal, sin/cos/sincos/tan |x|<=5000, asin/acos [-1,1], atan/atan2/tanh all finite, inverse square roots positive normal, reciprocals nonzero normal.",
     [I], "every argument of the operating domain", "The unit tests run without trapping or sanitising and on a few points only.", ["include/*.h"],
     [("protected denominators", "include/atan2.h, include/tan.h"), ("int conversions and shifts", "include/vdtcore_common.h, include/exp.h, include/sincos.h")], AI, "Every potentially undefined or exceptional operation is an obligation on every trace of every box.")
prop("P15", "Results stay in the mathematical range and special points are exact",
     "On the operating domain |sin| and |cos| exceed 1 by at most 2.3e-16 (float: 2.4e-7), arcsine and arctangent stay within one ulp of [-pi/2,pi/2], arccosine within [0,pi] plus one ulp, atan2 within one ulp of [-pi,pi], and |tanh| is at most 1+1e-14 (float: 1+6e-6); none of them is ever NaN there. Sine, tangent, arcsine, arctangent and hyperbolic tangent of +-0 are zero, the exponential and cosine of +-0 are one, log 1 = 0 and acos 1 = 0, exactly.",
     [I], "every argument of the operating domain", TESTS, ["include/*.h"],
     [("range restoration", "include/sincos.h, asin.h, atan.h, atan2.h, tanh.h")], AI, AINOTE)

prop("P16", "Array functions apply the scalar function to exactly the requested elements",
     "Every array function (the names ending in v, both precisions, including the plain libm, isqrt, inverse and identity families) sets output[i] to its scalar namesake applied to input[i] (to the pair of inputs at i for the two-argument ones) for every i from 0 to size-1, for every size including 0, 1 and sizes above 2^16. It writes nothing else, in particular nothing at or beyond index size, does not modify its inputs and reads only the first size elements of them.",
     [I, C], "every array function in both precisions, every 32-bit size, every array content, library built with and without preload symbols", "The tests call no array function; sizes around zero, block boundaries and 2^32 cannot be enumerated.",
     ["src/signatures_generator.py", "include/vdtMath.h"],
     [("generated loops", "src/signatures_generator.py: create_vector_signature and its templates"), ("declarations", "include/vdtMath.h")],
     "static analysis: scalar evolution of every memory access in the LLVM IR of the generated library, value provenance of every store",
     "The access functions are closed forms in size; they are compared with [0,size) for every size up to 1030 and around the powers of two up to 2^32-1. A loop without such a closed form is accepted only if it is the same function as the plain element loop after inlining.",
     observe="the arrays after the call")
prop("P17", "Scalar and array functions keep no state and are safe to call concurrently",
     "The result of every scalar and array function depends on its arguments only. No call writes storage that outlives it (other than the output arguments), reads storage that anything else may write, calls a function with side effects, or recurses; so calls from any number of threads, in any order and any history, give the same results as isolated calls.",
     [SC, H], "every call history and every interleaving of calls from any number of threads", "A race or a hidden cache shows only under particular interleavings or histories; the tests are single-threaded and call each function once.",
     ["include/*.h", "src/signatures_generator.py"],
     [("scalar functions", "include/exp.h, log.h, sincos.h, sin.h, cos.h, tan.h, asin.h, atan.h, atan2.h, tanh.h, sqrt.h, inv.h, identity.h"), ("shared helpers", "include/vdtcore_common.h"), ("array loops", "src/signatures_generator.py")],
     "static analysis: transitive effect analysis over the call graph of the LLVM IR",
     "Effects (stores, loads of non-constant globals, external calls, volatile, atomics, inline assembly) are summarised per function and closed over the call graph; sqrt and similar pure maths calls are allow-listed.",
     observe="return values of concurrent callers")
prop("P19", "The preload library replaces exactly the documented libm functions by their fast versions",
     "Generated with -p, the library defines asin, acos, atan, atan2, cos, exp, log, sin, tan and tanh in double, with the f suffix in single precision, and as float overloads; each returns the fast version of the same function and precision for its own arguments in their order. None of them can call back into a replaced symbol. Generated without -p the library defines no libm symbol, and everything it does define is also in the preload library.",
     [C, I], "every replaced symbol, every argument, both generator modes", "The tests never generate with -p nor preload the library.",
     ["src/signatures_generator.py"], [("preload signatures", "src/signatures_generator.py: create_preload_signature, get_impl_file")],
     "static analysis: value flow of every exported symbol in the LLVM IR of the generated source, call-graph reachability",
     "Symbols are resolved to the function whose result they return after promoting locals; arguments must arrive unchanged and in order.",
     observe="dynamic symbols of the library and their results")
prop("P20", "A loop over any fast function can be vectorised",
     "Nothing in a fast function stands in the way of SIMD code: in a plain loop applying it to the elements of an array (both precisions, sincos and atan2 included), the work on one element is an acyclic computation of the output from the input of that element. There is no call left after inlining, no loop whose number of iterations depends on the data, no value carried from one element to the next, no access to a mutable object and no arithmetic wider than a double.",
     [C], "every fast function in both precisions", "The tests compare no machine code; a function that silently falls back to scalar code gives the same values.",
     ["include/*.h"], [("branch-free formulation", "all fast functions"), ("vectorisable floor and bit manipulation", "include/vdtcore_common.h")],
     "static analysis: structural analysis of the inlined LLVM IR of an element loop of each function (loop nest, recurrences by scalar evolution, calls, memory effects)",
     "Whether a given compiler finds vector code profitable is not decided; the vectoriser reports of four gcc and clang configurations are recorded beside the decision.",
     observe="compiler output")
VF = "static analysis: value-flow (dataflow) analysis over the resolved syntax tree with a term domain; branches are joined, loops summarised in closed form, nothing is executed"
prop("P21", "Diagnostic files read back exactly what was written",
     "A random pool, function response or function comparison (1D, 2D and legacy classes, float and double, any number of finite inputs) written to a file and constructed again from that file holds bitwise the same numbers, in the same order, number and columns, and a comparison keeps the same maximum, minimum, mean and RMS of the differing bit. An object constructed from a file and written out again gives a file with the same numbers. This holds whatever a file of that name held before.",
     [I, H], "every content and every size of the nine persistent classes in both precisions; the histories create-write-read and read-write-read", "The tests write files but never read them back, and none uses more than a few elements.",
     ["include/diagnostic/vdtdiag_random.h", "include/diagnostic/vdtdiag_fcnResponse.h", "include/diagnostic/vdtdiag_fcnComparison.h", "include/diagnostic/vdtdiag_filePersistence.h"],
     [("writers", "writeFile of each class, fpToHex"), ("readers", "constructors from a file name, fpFromHex")], VF,
     "The writer's syntax tree is summarised to the grammar of the file, the reader's to a reading plan; every element and field read back is compared with the original as a value term. Trusted: clang front end, the model of iostreams in checks/flow.py. Sizes between 1 and 2^32 are assumed; stream failures other than the end of the data are not modelled.",
     observe="objects constructed from the written file")
prop("P22", "Every response file of the accuracy benchmark holds the function it names, on numbers of its domain",
     "vdtArithmBenchmark writes for each function, precision and form (scalar, array, two-argument) one file <nick>__<name>__response.txt (replacing an older one) whose header names the same function and the right precision. Its records are the requested number of inputs (50000 by default) paired with the results of exactly that function in that precision and form for those inputs. The inputs lie in the function's domain (exponential without overflow, logarithm and inverse square root positive, arcsine and arccosine in [-1,1], otherwise both signs), and all variants of a function in one precision (reference, fast, array) are given the same inputs in the same order. Every fast and approximate function of the library with a scalar or two-argument form, the standard function it replaces and the identity are there in both precisions and forms, and the two arguments of a two-argument function are different numbers.",
     [I, C], "every registered function in both precisions and forms, every requested size and nickname", "No test runs the benchmark programs; a wrong pairing of name, function and pool produces plausible files.",
     ["progs/vdtArithmBenchmark.cpp", "include/diagnostic/vdtdiag_fcnTuples.h", "include/diagnostic/vdtdiag_fcnResponse.h", "include/diagnostic/vdtdiag_random.h"],
     [("registries", "include/diagnostic/vdtdiag_fcnTuples.h: getFunctionTuples, getFunctionTuplesvect"), ("program", "progs/vdtArithmBenchmark.cpp: main, saveResponses"), ("responses", "include/diagnostic/vdtdiag_fcnResponse.h constructors")], VF,
     "The whole program is summarised with symbolic size and nickname; the text of every file is read with the repository's own reader and each column compared as a value term. The command-line class is replaced by its contract, functions of namespace vdt are opaque symbols.",
     observe="the files the program writes")
prop("P25", "Accuracy does not depend on whether the compiler fuses multiplications and additions",
     "The error bounds for the exponential, logarithm, sine, cosine, sincos, tangent, arcsine, arccosine, arctangent, atan2, hyperbolic tangent, inverse square roots, reciprocals and identities hold for every choice of which multiply-add pairs a compiler contracts into a fused operation (as with -mfma or -ffp-contract=fast): relative errors exp 1e-15 (float 3e-7), log 5e-16 (2e-7), asin 6e-16 (6e-7), atan 7e-16 (6e-7), atan2 1.2e-15 (8e-7), tanh 1.5e-14 (6e-6), inverse square root 1.5e-14 (1.5e-5), reciprocal 3e-14 (3e-5), absolute errors sin and cos 7e-16 (4e-7), acos 1.2e-15 (7e-7), and tan 8e-15*|tan|+5e-16*(1+tan^2) (6e-7, 3e-7), for every argument of the operating domain.",
     [I, C], "every argument of the operating domains and every contraction choice, also different choices in different places", "The tests exercise one compiler setting on a few points; the number of contraction choices is exponential.",
     ["include/*.h"], [("polynomials and range reductions", "all scalar functions")], AI,
     AINOTE + " Each addition of a product is replaced by the hull of its fused and unfused results.")
prop("P27", "The timing report gives the time per call of the function it names",
     "Each line of the report of vdtPerfBenchmark, which replaces an older report of the same nickname, names a function; the average is the time spent in exactly that function (precision and form included) over the recorded repetitions, warm-up excluded, divided by the number of calls, in nanoseconds, however many calls there are, and the error is the standard error of that mean over the repetitions (a number also for a single repetition). The clock readings enclose only the calls on all the numbers of the pool. Number of values, repetitions, interval and name pattern follow the command line (50000, 150, +-5000, everything by default), and the identity function of a form precedes the other functions of that form. Every fast and approximate function of the library and the standard function it replaces has a line in both precisions and forms, and the two arguments of a two-argument function are different numbers. Times are given to a hundredth of a nanosecond. The same holds of a timing object made directly from a name, the numbers and a function: getAvg and getAvgErr return these two numbers, print shows them, and with a scale other than 1 also the scale divided by the average as the speedup.",
     [I, C], "every reported function, every size, number of repetitions and pattern; the timing class in both precisions with its four constructors", "The tests construct one timing object and look at no number; wrong labels, counts or units give plausible reports.",
     ["progs/vdtPerfBenchmark.cpp", "include/diagnostic/vdtdiag_fcnPerformance.h", "include/diagnostic/vdtdiag_helper.h", "include/diagnostic/vdtdiag_fcnTuples.h"],
     [("measurement", "include/diagnostic/vdtdiag_fcnPerformance.h: measureTime*, calculate_mean_and_err, print"), ("clock", "include/diagnostic/vdtdiag_helper.h: timer"), ("labels and pools", "include/diagnostic/vdtdiag_fcnTuples.h, progs/vdtPerfBenchmark.cpp")], VF,
     "Averages and errors are compared as rational functions of the clock readings, sizes and repetitions. Rounding of the statistics, clock resolution and sums beyond 2^64 ns are not modelled; narrower sums are reported.",
     observe="the report file")
prop("P23", "Comparison statistics are the true statistics of the bit differences",
     "For two result columns the difference of a pair is 0 if and only if the two numbers have the same bit pattern, and otherwise the number of binary digits of the absolute difference of their bit patterns read as unsigned integers (exactly below 2^47, at most one too many beyond). A comparison computes this for every pair of its own two columns in order; Max and Min are the largest and smallest of these numbers, Mean their arithmetic mean and RMS the square root of their unbiased variance (two values or more), on the screen in both layouts and in the file (in the one-line layout as separate words, whatever the values); hasDifference is true exactly when some pair differs. The columns of the file are input(s), first output, second output, difference, decimal input(s). The bit text of a number is its sign bit, exponent bits and mantissa bits in order.",
     [I, C], "every pair of doubles or floats, every column of two values or more, the three comparison classes", "The tests print statistics and look at none; a wrong moment, label or bit count gives plausible tables, and these tables are how accuracy of the library is judged.",
     ["include/diagnostic/vdtdiag_interfaces.h", "include/diagnostic/vdtdiag_fcnComparison.h", "include/diagnostic/vdtdiag_helper.h"],
     [("bit difference", "include/diagnostic/vdtdiag_helper.h: diffbit, fp2uint64, getbsasstr"), ("statistics", "include/diagnostic/vdtdiag_interfaces.h: IfcnComparison; include/diagnostic/vdtdiag_fcnComparison.h: fcnComparison_old"), ("columns", "include/diagnostic/vdtdiag_fcnComparison.h: writeFile")],
     VF + " The number of bits of a difference is evaluated in an interval domain, one interval per length of the difference.",
     "Mean and RMS are compared as rational functions of the sums over the column: rounding of the sums is not modelled. log2 of the C library is taken to be monotone, correctly rounded and exact at powers of two.",
     observe="printStats, writeFile, hasDifference, diffbit, getbsasstr")
prop("P24", "A random pool holds the requested number of draws from the requested interval",
     "A pool made from limits, size and seed holds exactly that many numbers per column; every number is its own draw from the uniform distribution between the limits given for its column, made in a wider type than the numbers themselves (so that the interval may be the whole range of the type) and rounded to it. The sequence is determined by the seed alone and by all of its bits, the default seed is the same fixed number for every pool, and the two columns of a two-dimensional pool come from different draws. The getters return these numbers in order.",
     [I, C], "every size, seed and pair of limits; the three pool classes in both precisions", "The tests look at a pool of one size and never at its range, its seed or the independence of its columns; a benchmark run on wrong numbers looks like any other.",
     ["include/diagnostic/vdtdiag_random.h", "include/diagnostic/vdtdiag_interfaces.h"],
     [("draws", "include/diagnostic/vdtdiag_interfaces.h: IrandomPool::fillVector"), ("pools", "include/diagnostic/vdtdiag_random.h: constructors and getters")], VF,
     "The generator and the distribution of the standard library are taken as specified.",
     observe="getNumbers, getNumbersX, getNumbersY, getSize")
prop("P32", "A function response holds the function of every input, and files say what they hold",
     "A response made from a name, input column(s) and a function, scalar or array, gives back the input columns unchanged, and as output exactly one value per input: the function of the inputs at the same index, computed by the function given and converted to nothing narrower. An array function is called once, on all the inputs in order and with room for all the results. In the files written by pools, responses and comparisons that were not read from a file, the second line names the precision of the numbers that follow (Double Precision, Single Precision), and the third line of responses and comparisons ends with the name given.",
     [I, C], "every function and every input column, both precisions, the three response classes with both kinds of functions; the header of every class that writes files", "The tests make responses of a few values and look at none of them; everything the comparison programs say about accuracy is computed from these columns, and a column that is short, shifted or made by the wrong call gives plausible tables.",
     ["include/diagnostic/vdtdiag_fcnResponse.h", "include/diagnostic/vdtdiag_interfaces.h", "include/diagnostic/vdtdiag_fcnComparison.h", "include/diagnostic/vdtdiag_random.h"],
     [("responses", "include/diagnostic/vdtdiag_fcnResponse.h: constructors; include/diagnostic/vdtdiag_interfaces.h: IfcnResponse"), ("headers", "writeFile of vdtdiag_fcnResponse.h, vdtdiag_fcnComparison.h, vdtdiag_random.h")], VF,
     "An array function is assumed to write its output array only; fewer than 2^32 numbers.",
     observe="getInput*, getOutput, the header lines of the files")
prop("P33", "What the diagnostic tools print is what they hold",
     "print() of pools, responses and comparisons lists every element once and in order, one line each: a consecutive number out of the total, the name where there is one, and the values of that element in the order of its columns with at least as many digits as the type keeps (15 or 6), no two of them touching; a comparison adds the bit patterns of both results in hexadecimal, the difference in decimal, and the statistics after the last element in decimal. printFuncDiff, in all its forms, calls both functions on the same arguments and prints for every point the arguments, the result of the first and of the second function (ten digits, or all the type has), their bit difference and the bit texts of both in this order. print_instructions_info says of SSE2, SSE3, SSE4.1 and AVX whether the compiler that builds the program may use them.",
     [I], "every content, both precisions, nine printing classes, twelve forms of printFuncDiff, five targets", "The tests print and never look; the screen is how people read single results, and a number in a wrong column, base or precision looks like any other.",
     ["include/diagnostic/vdtdiag_random.h", "include/diagnostic/vdtdiag_fcnResponse.h", "include/diagnostic/vdtdiag_fcnComparison.h", "include/diagnostic/vdtdiag_helper.h"],
     [("lists", "print() of vdtdiag_random.h, vdtdiag_fcnResponse.h, vdtdiag_fcnComparison.h"), ("two functions", "include/diagnostic/vdtdiag_helper.h: printFuncDiff, print_different_bit"), ("instruction sets", "include/diagnostic/vdtdiag_helper.h: print_instructions_info")],
     VF + " Formats of the stream (base, digits, width, fill) are part of its state; lines after the first are read with the formats the line before leaves behind.",
     "std::cout is in its initial state at the call. What diffbit and getbsasstr return is decided by P23.",
     observe="standard output")
prop("P34", "Tables of timings show the numbers of the reports, and accuracy commands pair the right files",
     "scripts/tabulateVDTResults.py runs under Python 3 on one or more complete reports of vdtPerfBenchmark. The summary table (-s) has a row for every function in the order of the report, with time and error of that function in every report in the order of the files and, from the second report on, the speedup: its time in the first report divided by its time in this one. The vector table (-v) has a row for every scalar function that has an array form (also where the scalar name ends in v), with time and error of the scalar function in the first report and, for every report, time and error of the array function and the scalar time of the first report divided by it. The libm table (-l), one per report, has a row for every scalar libm function that has a fast counterpart, with time and error of both and the first time divided by the second. Times and errors have two decimals, speedups one, numbers are separate words, and the columns are headed by the nicknames of the reports. Unless --no-normalise is given the time of the identity function of the same form (arguments, precision, scalar or array) in the same report is subtracted from each time, its error added in quadrature, and the identities have no rows. A time of zero does not stop a table. scripts/checkAccuracy.py prints for a nickname a vdtArithmComparison command with this nickname whose lists -R and -T name response files that vdtArithmBenchmark writes for it: at each position a libm function and the fast function of the same form, each of acos, asin, atan, atan2, cos, exp, isqrt, log, sin, tan, tanh once in each of its four forms.",
     [I, C], "every number in the reports, one to three reports, every table with and without normalisation, alone and together", "No test runs the scripts; published speedup tables come from them, and a column taken from another report, form or function looks as plausible as the right one.",
     ["scripts/tabulateVDTResults.py", "scripts/checkAccuracy.py"],
     [("reading and normalising", "scripts/tabulateVDTResults.py: extractTimings, normaliseTimings"), ("tables", "scripts/tabulateVDTResults.py: createSummaryTable, createVectTable, createLibmVdtTable"), ("command", "scripts/checkAccuracy.py: get_refs, get_tests")],
     "static analysis: abstract evaluation of the Python syntax trees on reports with symbolic numbers; what is printed is compared as rational functions of the numbers of the reports. Lines of the reports and names of the response files come from the value-flow analysis of the two programs",
     "Reports are of complete runs of one version of the benchmark. At most one number at a time is exceptional (a time of zero or below that of the identity). Rounding in the last printed digit is not modelled.",
     observe="standard output of the scripts")
prop("P35", "Histograms of the comparisons hold every compared number",
     "scripts/diffhisto.py, run under Python 3 with a nickname and optionally a directory (default the current one), takes every file comparison__<nick>__<function>.txt of that directory that vdtArithmComparison wrote, whatever characters the nickname has, and no other file. The file <nick>_histos.root then holds two histograms per function: Diffbit_<function> with the number of differing bits of every compared number, once each, and DiffVsInput_<function> with the pairs (decimal argument, differing bits), for functions of two arguments with the first argument. Every possible difference, 0 to 64 in double and 0 to 32 in single precision as the header of the file says, has a bin of its own; the axis of the arguments covers the interval from which vdtArithmBenchmark draws the arguments of the function and is at most twice as wide. Each histogram is written complete, once, and shown alone in an image <nick>_<double or float>_<function>_dbhisto.png or _dbVSinhisto.png. Called without nickname the script writes nothing and ends with a status other than 0.",
     [I, C], "every number in the files, every function and precision the benchmark knows, zero to three records per file, several directories and nicknames", "No test runs the script (ROOT is not installed); a skipped line, a shifted bin or a wrong axis leaves plausible plots.",
     ["scripts/diffhisto.py"],
     [("reading", "scripts/diffhisto.py: getTypeLength, getFilenamesFromDir, fill_histos"), ("axes", "scripts/diffhisto.py: getYaxisRange, compare"), ("output", "scripts/diffhisto.py: compare")],
     "static analysis: abstract evaluation of the Python syntax tree on comparison files with symbolic numbers and a model of the ROOT classes; the text of the files and the intervals come from the value-flow analysis of the C++ sources",
     "ROOT behaves as documented. Colours, titles and line widths are not looked at. No nickname contains two underscores in a row.",
     observe="histograms and images written by the script")
prop("P18", "Public headers stand alone, combine freely and agree with the library",
     "Each of the installed headers compiles when it is the only one included, and any two of them in either order, in C++11, 14, 17 and 20 with gcc and clang. Any number of translation units of one program may include them (they define no symbol that clashes at link time), and every function they declare is defined there or in the generated array library with the same signature. Including vdtMath.h alone makes every scalar function (own and fast, both precisions, sincos and atan2 included) and every array function available under its documented name and signature. Every vdt header an installed header includes is installed too.",
     [I, C], "every installed header, every ordered pair of them, every declared function", "The tests include each header together with others and link a single unit; a missing include or a non-inline definition shows only in someone else's program.",
     ["include/*.h", "CMakeLists.txt", "src/signatures_generator.py"], [("headers", "include/*.h"), ("install list", "CMakeLists.txt"), ("array declarations", "include/vdtMath.h and the headers it includes")],
     "static analysis: type-checking of generated translation units by two compilers, query over the resolved declarations, symbol kinds of the unoptimised object code",
     "Nothing is linked or run. Trusted: clang and gcc front ends.",
     observe="programs that include the headers")
prop("P28", "The comparison program compares the listed pairs, and the programs report misuse",
     "vdtArithmComparison goes through the lists of reference and test files in order. For every position whose two files can be opened it makes one comparison: inputs and first result column from the reference file, second result column from the test file of the same position; in double precision if the second line of the reference file says so and single otherwise; with two arguments for Atan2 and one for every other function. It is named <function> <reference nickname> VS <test nickname>, printed as one table line and written to comparison__<nick>__<function>.txt, where the function is the one named in the reference file without its Fast_ or VC_ prefix. A position with a missing file is skipped and the others are still compared. It, vdtArithmBenchmark and vdtPerfBenchmark end with status 0 after a normal run and after printing the help, and with a nonzero status and without writing any file when the options are not accepted, the nickname or a list is missing, or the lists have different lengths.",
     [I, C], "every length of the lists, every position, every function, precision and form the accuracy benchmark writes, presence or absence of either file; every kind of misuse", "No test runs the programs; exchanged columns, a wrong position or a swallowed misuse give plausible output.",
     ["progs/vdtArithmComparison.cpp", "progs/vdtArithmBenchmark.cpp", "progs/vdtPerfBenchmark.cpp"],
     [("comparison loop", "progs/vdtArithmComparison.cpp: main"), ("exit statuses", "main of the three programs")], VF,
     "One pass of the loop is summarised at a symbolic position; its conditions are evaluated for every kind of pair. The command-line class and the splitting of a list at its commas are taken as specified (see P29); the classes for responses and comparisons are opaque here (see P21, P23).",
     observe="exit status, table and files of the programs")
prop("P26", "The fat library of wrappers gives the named function in every instruction-set version",
     "The library that src/numpy_wrapper_generator.py generates compiles with the repository's headers, and its header declares every function to C and to C++. Each C function vdt_<f> or vdt_<f>f (asin, atan, atan2, cos, exp, inv, log, sin, sincos, isqrt, identity, sqrt, div, fma, fmac) returns that vdt function, in double or single precision, of its arguments in order. Each array function vdt_<f>v or vdt_<f>fv(inputs, outputs, size) stores out[i] = f(in[i]...) for exactly 0 <= i < size, for any size of type long, and touches nothing else; sincos puts sines into its first and cosines into its second output. sqrt and div are the correctly rounded IEEE operations, fma (also myfmaF, myfmaD) is x*y+z in the precision of its arguments and fmac the same with a single rounding. All this holds in each of the instruction-set versions a machine may select and in the plain build outside Linux, and vdt_arch names the version.",
     [I, C], "every function of the library, both precisions, every array size, every instruction-set version", "No test builds the generated library, and a machine executes only one of its versions.",
     ["src/numpy_wrapper_generator.py", "src/fatlib.h", "include/stdwrap.h"],
     [("generator", "src/numpy_wrapper_generator.py"), ("versions", "src/fatlib.h"), ("IEEE operations", "include/stdwrap.h")],
     "static analysis: structural analysis of the LLVM IR of the generated library, one module per instruction-set version (dispatchers resolved): forwarding, index sets by scalar evolution, identity with the IEEE operations; type-checking of the header from C",
     "Which version a machine selects is left to the compiler's dispatcher. Arrays do not overlap.",
     observe="functions and header of the generated library")
prop("P29", "The programs take every option by either of its names, with the text after its first equals sign",
     "A command line of vdtArithmBenchmark (-h --help, -n --nick, -s --size), vdtArithmComparison (-h --help, -n --nick, -R --reference, -T --test) or vdtPerfBenchmark (-h --help, -n --nick, -s --size, -r --repetitions, -M --pool_max, -m --pool_min, -p --pattern) is accepted exactly if every word is the short or the long name of an option of that program, alone or followed by = and any text, and no option appears twice under whatever name. In an accepted line an option counts as given exactly if it appears, and its argument is everything after the first = of its word, further = , and - included, and empty without =; the order of the words does not matter. Every other word (unknown or misspelt names, names cut short or continued, wrong number of dashes, an empty word, a word starting with =) makes the line rejected, wherever it stands. With the help option given, both names of every option are printed. A list of files is split at every comma into exactly the texts between the commas, in order; an empty text after the last comma is dropped, other empty texts are kept, and nothing remains of an earlier list.",
     [I, C], "every set of options in both orders, every pair and triple in every naming, arguments of every kind, every word that is not an option; lists of up to six names", "No test runs the programs; an option read under one of its names only or an argument cut at a later = goes unnoticed.",
     ["include/diagnostic/vdtdiag_simpleCmd.h", "progs/vdtArithmBenchmark.cpp", "progs/vdtArithmComparison.cpp", "progs/vdtPerfBenchmark.cpp"],
     [("option class", "include/diagnostic/vdtdiag_simpleCmd.h: CmdOptions"), ("list of files", "progs/vdtArithmComparison.cpp: list2vector")], VF,
     "Words are abstract texts: known characters and free parts (nonempty, letters, digits, . / _). Words that are no option names are partitioned by the place where they leave the names.",
     observe="acceptance of command lines, options and arguments seen by the programs")
prop("P30", "Every function of the fat library is a NumPy function of its name, for arrays of any length and stride",
     "Importing the module vdtnpfun, built for Python 2 or for Python 3, succeeds and gives the functions vdt_<f> for asin, atan, atan2, cos, exp, inv, log, sin, sincos, isqrt, identity, sqrt, div, fma and fmac, each exactly once and with its own number of arguments and results. On float32 arrays vdt_<f> gives float32 results computed by vdt_<f>fv, on float64 arrays float64 results computed by vdt_<f>v of the fat library. For any length and any strides of inputs and outputs (contiguous, slices, reversed arrays, broadcast scalars) element i of every output is the function of element i of every input, and nothing else is read or written. The initialisation returns the module and gives up no reference it does not own.",
     [I, C], "every function, both precisions, both Python versions, every array length up to a bound and every combination of strides", "No test builds the module; wrong strides or exchanged tables give plausible numbers.",
     ["src/vdtNumpyWrapper.c", "src/numpy_wrapper_generator.py"],
     [("loops and initialisation", "src/vdtNumpyWrapper.c"), ("tables", "src/numpy_wrapper_generator.py")],
     "static analysis: LLVM IR of the module against stub headers; registration table resolved from the initialisation function, memory accesses of the loops in closed form (scalar evolution) over lengths and strides",
     "Calls of the Python interface succeed; the array functions behave as in P26; headers of Python and NumPy are replaced by stubs with the same types.",
     observe="functions of the Python module and their results on arrays")
prop("P31", "The functions of the ctypes module hand whole arrays to the fat library",
     "The module vdt_ctypes.py that src/numpy_wrapper_generator.py writes (on top of scripts/vdtBase.py and scripts/invokeVDT.py) can be imported under Python 3 with a current NumPy and has, for asin, atan, atan2, cos, exp, inv, log, sin, sincos, isqrt, identity, sqrt, div, fma and fmac, the functions vdt_<f> (double) and vdt_<f>f (single). Each takes as many arguments as the operation has (two for atan2 and div, three for fma and fmac, one for the others): numbers, sequences or arrays of any type, shape and memory layout, which are broadcast against each other. It returns new arrays of the precision of its name and of the common shape whose element i is what vdt_<f>v or vdt_<f>fv of libvdtFatLibWrapper computes from element i of the arguments taken in their order and converted once; sincos returns (sine, cosine). The arguments are not written to, nothing outside the arrays is read or written whatever their sizes, and what was called before in the session makes no difference. vdt_arch() returns the text of the library.",
     [I, C], "every function, both precisions, any argument types, shapes and layouts, any order of calls", "No test imports the module; a wrong size, type or order is passed to C without any check there.",
     ["scripts/vdtBase.py", "scripts/invokeVDT.py", "src/numpy_wrapper_generator.py"],
     [("loading and caching", "scripts/vdtBase.py"), ("conversion and call", "scripts/invokeVDT.py"), ("generated functions", "src/numpy_wrapper_generator.py: get_python_function")],
     "static analysis: abstract evaluation of the Python syntax trees; an array is (argument it holds, element type, arguments whose shapes it has, order, owner), the call into C is checked against the prototype",
     "NumPy and ctypes behave as documented (NumPy 1.24 or later, 64-bit Linux); the C functions behave as in P26; alignment is not followed.",
     observe="results of the Python functions")
