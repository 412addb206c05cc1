import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
T="The unit tests call the function on about ten hand picked points, print the difference and never compare it with a bound: "
prop("P01","exp: double and float exponential stay within their error bound everywhere",
 "For every double in [-708,708] the fast exponential differs from e^x by at most 2.5 ulp, and for every float in [-88,88.722] the single precision version differs from e^x by at most 2 ulp (ulp = spacing of the result type at the exact value, subnormal spacing included). In particular no argument of these intervals gives infinity, NaN or a wrong zero, and an argument of zero gives exactly 1.",
 ["inputs"],"every double in [-708,708] and every float in [-88,88.722]",
 T+"they neither cover the ends of the range, nor the borders between two powers of two, nor any of the other 2^62 arguments.",
 ["include/exp.h","include/vdtcore_common.h"],[("range reduction and Pade form, double","vdt::fast_exp"),("polynomial and power of two scaling, float","vdt::fast_expf"),("floor used for the reduction","vdt::details::fpfloor")])
prop("P02","log: double and float logarithm stay within their error bound everywhere",
 "For every normal double in (0,1e307] and for every positive normal finite float the fast logarithm differs from the natural logarithm by at most 1.5 ulp of the result type. In particular log(1) is exactly 0 and the result has the right sign on both sides of 1.",
 ["inputs"],"every positive normal double up to 1e307 and every positive normal finite float",
 T+"an error confined to some exponents, to arguments near 1 or near sqrt(1/2)*2^k is invisible to them.",
 ["include/log.h","include/vdtcore_common.h"],[("mantissa/exponent split","vdt::details::getMantExponent, getMantExponentf"),("blend at sqrt(1/2) and polynomial","vdt::fast_log, vdt::fast_logf")])
prop("P03","sin, cos, sincos: accurate in every octant, close to zeros and mutually equal",
 "For every double with |x| <= 2^28 the fast sine and cosine differ from the exact value by at most 2 ulp plus |x|*1e-31, and for every float with |x| <= 8192 by at most 2 ulp plus |x|*6e-15. The combined sine/cosine function returns, for the same argument, exactly the two values returned by the separate functions. Zero gives exactly 0 and 1.",
 ["inputs"],"every double with |x| <= 2^28 and every float with |x| <= 8192, including the neighbourhoods of all multiples of pi/4",
 T+"they do not visit all octants with both signs, large arguments or the neighbourhood of the zeros, where a wrong reduction constant shows.",
 ["include/sincos.h","include/sin.h","include/cos.h"],[("three step reduction to [-pi/4,pi/4]","vdt::details::reduce2quadrant"),("octant sign and swap logic","vdt::fast_sincos, vdt::fast_sincosf"),("separate functions","vdt::fast_sin, vdt::fast_cos, vdt::fast_sinf, vdt::fast_cosf")])
prop("P04","tan: double and float tangent stay within their relative error bound",
 "For every double with |x| <= 2^28 the fast tangent differs from tan(x) by at most 4 ulp plus a relative 4e-15 where |x mod pi/2| < 1.5e-7 plus |x|*(1+tan(x)^2)*1e-31, and for every float with |x| <= 8192 by at most 4 ulp plus |x|*(1+tan(x)^2)*6e-15. This includes zero, subnormal arguments and the neighbourhood of the poles; no argument of these intervals gives NaN or infinity.",
 ["inputs"],"every double with |x| <= 2^28 and every float with |x| <= 8192",
 T+"poles, zeros, both parities of the octant and tiny arguments are not visited.",
 ["include/tan.h"],[("own reduction","vdt::details::reduce2quadranttan"),("branch free -1/x selection and guard of 1/0","vdt::fast_tan, vdt::fast_tanf")])
prop("P05","asin, acos: accurate on the whole of [-1,1] including the end points",
 "For every argument in [-1,1] the fast arcsine differs from the exact value by at most 1.7 ulp in double and 3 ulp in single precision, and the fast arccosine by at most 6e-16 in double and 4.5e-7 in single precision (absolute). asin(0) is 0, asin(+-1) is +-pi/2 and acos(1) is 0.",
 ["inputs"],"every double and every float in [-1,1]",
 T+"the seam between the two approximations, the linear region and the end points are only touched by luck.",
 ["include/asin.h"],[("two range approximation","vdt::fast_asin, vdt::fast_asinf"),("derived arccosine","vdt::fast_acos, vdt::fast_acosf")])
prop("P06","atan, atan2: accurate in all quadrants and for every magnitude ratio",
 "For every finite argument the fast arctangent differs from the exact value by at most 1.6 ulp (double) or 3.5 ulp (float). For every pair of finite arguments (y,x) the fast two argument arctangent differs from the exact angle in (-pi,pi] by at most 2.2 ulp in double and 4 ulp in single precision (subnormal spacing included), zeros of either sign being taken as +0: (0,0) gives 0, (0,x<0) gives +pi, (y,0) gives +-pi/2.",
 ["inputs"],"every finite double and float; every pair of finite doubles or floats",
 T+"one of eight octants, an extreme ratio, or equal magnitudes can be wrong without any test noticing.",
 ["include/atan.h","include/atan2.h"],[("three range approximation","vdt::fast_atan, vdt::fast_atanf"),("octant move, division guard and relocation","vdt::fast_atan2, vdt::fast_atan2f")])
prop("P07","tanh: accurate from subnormal arguments up to the saturation",
 "For every finite argument the fast hyperbolic tangent differs from the exact value by at most 9 ulp in double and 8 ulp in single precision. Its magnitude never exceeds 1 and it has the sign of the argument.",
 ["inputs"],"every finite double and every float",
 T+"the saturation border and the small argument range are not compared with any bound.",
 ["include/tanh.h"],[("saturation, Pade form and three doublings","vdt::fast_tanh, vdt::fast_tanhf")])
prop("P08","isqrt, inv and their approximate variants keep their relative error bound",
 "For every positive normal argument the fast inverse square root has a relative error of at most 5e-16 (double) or 5e-6 (float), and its approximate variant 4e-11 or 2e-3. For every normal argument of either sign whose reciprocal is normal the fast inverse has a relative error of at most 1e-15 (double) or 1e-5 (float), its approximate variant 8e-11 or 4e-3, and the sign of the argument. The plain (non fast) isqrt and inv return 1/sqrt(x) within 2 ulp and 1/x within 1 ulp.",
 ["inputs"],"every positive normal double and float; every normal one with normal reciprocal of either sign",
 T+"the exponent range (2^-1022 to 2^1023) on which the bit trick must work is not covered.",
 ["include/sqrt.h","include/inv.h"],[("magic constant and Newton iterations","vdt::fast_isqrt_general, fast_isqrtf_general"),("inverse with sign","vdt::fast_inv_general, fast_invf_general"),("reference versions","vdt::isqrt, vdt::isqrtf, vdt::inv, vdt::invf")])
prop("P09","Array functions return element by element what the scalar functions return",
 "For every function, precision, array length (0 included), content, and alignment of the input and output arrays, element i of the output of an array call equals the result of the scalar function of the same name on element i of the input(s), irrespective of length, position, alignment and the other elements. The array functions without the fast prefix equal the standard library function (or identity, 1/sqrt(x), 1/x).",
 ["inputs","configurations"],"every array function of the library, every length, offset and content",
 "No test calls an array function and compares its values; the vectorised main loop, the remainder loop and every element position would have to be covered.",
 ["src/signatures_generator.py","include/exp.h","include/log.h","include/sincos.h","include/sin.h","include/cos.h","include/tan.h","include/tanh.h","include/asin.h","include/atan.h","include/atan2.h","include/sqrt.h","include/inv.h","include/identity.h"],
 [("generated loops","src/signatures_generator.py: create_vector_signature and friends"),("declarations","end of every function header")])
prop("P10","Array functions touch only the memory they are given",
 "An array call of length n reads only the n elements of its input array(s) and writes exactly the n elements of the output array: the inputs, the elements before and after the output, and everything else are unchanged, and every output element is written. This holds for length 0 and for any length and alignment.",
 ["inputs"],"every array function, every length and alignment",
 "Out of bounds accesses of a vectorised loop depend on length and alignment and usually do not crash; no test checks guard areas.",
 ["src/signatures_generator.py"],[("generated loops","src/signatures_generator.py")])
prop("P11","Overflow, underflow, invalid arguments and NaN give the documented special value",
 "exp gives +inf above 708 (float: above 88.7229) and 0 below -708 (float: below -88); log gives NaN for every negative argument, and +inf above 1e307 (float: for +inf); asin and acos give NaN for every |x|>1, infinities included; tanh gives +-1 for |x|>20 (float: >9.1) and infinities; atan of +-inf is +-pi/2 and atan2 with one infinite argument gives the limit angle. A NaN argument of any one argument function gives NaN, never a number. The fast inverse of a zero is the infinity of the same sign.",
 ["inputs"],"every argument outside the accuracy intervals named in the statement, of any magnitude, infinities and NaNs included",
 "Tests probe at most two such points per function and do not assert; saturation must hold for all larger magnitudes, where integer conversions overflow.",
 ["include/exp.h","include/log.h","include/asin.h","include/tanh.h","include/atan.h","include/atan2.h","include/inv.h"],
 [("exp limits","EXP_LIMIT, MAXLOGF, MINLOGF in include/exp.h"),("log limits","LOG_UPPER_LIMIT, LOG_LOWER_LIMIT in include/log.h"),("tanh saturation","include/tanh.h"),("asin/acos domain","include/asin.h")])
prop("P12","Exact symmetries and ranges of the functions hold for every argument",
 "On their accuracy intervals sin, tan, asin, atan, tanh and the inverses are exactly odd, cos is exactly even, and atan2(-y,x) = -atan2(y,x) for y != 0. Results stay inside the mathematical range up to rounding: |sin|,|cos|,|tanh| <= 1, |asin|,|atan| <= pi/2, 0 <= acos <= pi, |atan2| <= pi (each constant rounded to the result type, acos and |sin|,|cos| with one ulp of 1 allowance), exp and isqrt are not negative. Exchanging the arguments of atan2 in the first quadrant gives the complementary angle within 3 ulp of pi/2.",
 ["inputs"],"every argument (pair) of the accuracy intervals",
 "Relations between two calls are never examined by the tests.",
 ["include/sincos.h","include/tan.h","include/asin.h","include/atan.h","include/atan2.h","include/tanh.h","include/inv.h"],
 [("sign handling by bit masks","vdt::details::getSignMask and users"),("octant logic","vdt::fast_sincos, vdt::fast_atan2")])
prop("P13","Functions are pure: history, threads and surrounding code do not matter",
 "The value returned by any function for given arguments is always the same bit pattern, whatever calls with whatever arguments were made before, from however many threads at the same time, and whether the call is inlined in a loop, stands alone or goes through a function pointer. Calls leave the floating point rounding mode unchanged and write nothing but their result.",
 ["histories","schedules","inputs"],"every sequence of calls to any functions of the library, every interleaving of threads",
 "Tests call each function a few times in one thread; a hidden cache or static state needs particular sequences or races to show.",
 ["include/vdtcore_common.h","include/exp.h","include/log.h","include/sincos.h","include/tan.h","include/tanh.h","include/asin.h","include/atan.h","include/atan2.h","include/sqrt.h","include/inv.h"],
 [("inline functions without state","all function headers")])
prop("P14","No spurious invalid or divide-by-zero exception for valid arguments",
 "For every argument (pair) inside the accuracy intervals, zeros included, no scalar and no array function raises the floating point invalid or divide-by-zero flag, so that programs running with trapping enabled are not interrupted. In particular tan(0), atan2(0,0) and atan2(y,0) raise neither in single nor in double precision.",
 ["inputs"],"every argument of the accuracy intervals of all functions, scalar and array, alone or mixed with other elements",
 "No test looks at the exception flags.",
 ["include/tan.h","include/atan2.h","include/asin.h","include/exp.h"],
 [("guard of 1/0","vdt::fast_tan, fast_tanf"),("guard of 0/0","vdt::fast_atan2, vdt::fast_atan2f")])
prop("P15","Preload library: unmodified programs get the fast functions for libm symbols",
 "When the library is built with the preload option and preloaded, calls of an unrelated program to the standard asin, acos, atan, atan2, cos, exp, log, sin, tan and tanh, in double and in single precision, return exactly the value of the corresponding fast function for every argument, in the right argument order. The array functions of the preloaded library still return the fast values, and other standard functions (such as sqrt, pow, floor) are unaffected.",
 ["programs","inputs","configurations"],"every argument of each of the ten replaced functions in both precisions",
 "The preload variant is not built by the tests at all.",
 ["src/signatures_generator.py"],[("preload definitions","src/signatures_generator.py: option -p"),("fast implementations","include/*.h")])
prop("P16","Accuracy and array=scalar hold for every supported compiler and SIMD setting",
 "Whatever the compiler (gcc, clang), the optimisation level (0 to 3) and the instruction set (SSE2, AVX, AVX2, AVX2 with FMA, AVX-512), all functions stay within the error bounds stated for the default build. Without FMA the results are bit for bit those of the default build, with FMA array and scalar results both stay within the bounds.",
 ["configurations","inputs"],"the listed compilers, optimisation levels and instruction sets, each over all functions and generated arguments",
 "The tests run in one configuration only.",
 ["include/vdtcore_common.h","include/exp.h","include/log.h","include/sincos.h","include/tan.h","include/tanh.h","include/asin.h","include/atan.h","include/atan2.h","include/sqrt.h","include/inv.h","CMakeLists.txt"],
 [("plain C++ without intrinsics","all function headers"),("SIMD options","CMakeLists.txt, CMakeDefaults.txt")])
prop("P17","Average accuracy over the operative interval is not worse than documented",
 "Over uniformly distributed arguments of the operative interval ([-5000,5000]; (0,5000] for log and isqrt; [-1,1] for asin and acos; [-705,705] for exp) the mean number of differing bits with respect to a correctly rounded result does not exceed the documented double precision figure by more than 0.05: acos 0.39, asin 0.32, atan 0.33, cos 0.25, exp 0.14, isqrt 0.45, log 0.42, sin 0.25, tan 0.35. The single precision averages stay below: acosf 0.45, asinf 0.38, atanf 0.42, cosf 0.21, expf 0.32, logf 0.06, sinf 0.21, tanf 0.42 ([-85,85] for expf).",
 ["inputs"],"random samples of the operative intervals of every size from a million on",
 "The tests compare about ten points and assert nothing; an average needs a distribution.",
 ["ReadMe.md","include/exp.h","include/log.h","include/sincos.h","include/tan.h","include/asin.h","include/atan.h","include/sqrt.h"],
 [("documented averages","ReadMe.md, section Accuracy"),("implementations","include/*.h")])
D="include/diagnostic/"
prop("P18","Random pools: size, range, reproducibility and lossless file round trip",
 "A pool built from limits, size and seed holds exactly size numbers per coordinate, all within the limits, spread uniformly over the whole interval (in two dimensions over the whole rectangle), identical for identical parameters and different for a different seed. Writing a pool to a file and reading it back, any number of times, through intermediate pools and also onto the same file, gives bit for bit the same numbers in the same order, in one and two dimensions and both precisions.",
 ["inputs","histories"],"every interval, size and seed; every chain of write and read operations",
 "The test prints one pool of a few numbers and never compares anything.",
 [D+"vdtdiag_random.h",D+"vdtdiag_interfaces.h",D+"vdtdiag_filePersistence.h"],
 [("generation","IrandomPool::fillVector"),("persistence","randomPool1D/2D::writeFile and file constructors"),("hex coding","fpToHex, fpFromHex")])
prop("P19","Function responses: outputs belong to inputs and survive files losslessly",
 "A response built from a function (scalar or array form, one or two arguments) and input numbers holds the inputs unchanged and in order, and for each of them the value of the function at that input. Writing it to a file and reading it back, any number of times, also onto the same file, gives bit for bit the same inputs and outputs, infinities, NaNs, signed zeros and subnormals included, for any number of entries; a copied object carries the same data.",
 ["inputs","histories"],"every function, every input list, every chain of write and read operations",
 "The test prints one response and never compares anything.",
 [D+"vdtdiag_fcnResponse.h",D+"vdtdiag_interfaces.h",D+"vdtdiag_filePersistence.h"],
 [("evaluation","fcnResponse1D/2D constructors"),("persistence","writeFile and file constructors")])
prop("P20","Comparisons: bit differences and statistics are right and survive files",
 "A comparison of two output lists reports for each entry the number of differing bits, and over all entries their exact maximum, minimum and mean, and as spread the (n-1) normalised variance (-1 for a single entry); it reports a difference if and only if some entry differs. Files written by a comparison contain the inputs, outputs and differences bit for bit in order, and reading and rewriting them any number of times, also onto the same file, preserves statistics and entries, whatever the values (infinities and NaNs included), for one and two inputs and both precisions.",
 ["inputs","histories"],"every pair of equally long output lists with their inputs, every chain of write and read operations",
 "The test prints one comparison and never compares anything.",
 [D+"vdtdiag_fcnComparison.h",D+"vdtdiag_interfaces.h",D+"vdtdiag_helper.h",D+"vdtdiag_filePersistence.h"],
 [("statistics","IfcnComparison::m_calcStats"),("persistence","fcnComparison1D/2D::writeFile and file constructors"),("difference","vdth::diffbit")])
prop("P21","Bit level helpers: differing bits, bit strings and hexadecimal coding are exact",
 "For every pair of numbers of the same precision the number of differing bits is the bit length of the distance of their bit patterns: 0 exactly for identical patterns, symmetric, and 1 for neighbouring numbers. The printed bit string is the exact pattern in sign, exponent, mantissa order, and a number written in hexadecimal and read back through a text stream is the same bit pattern, in both precisions and in any sequence of numbers. The function comparison printers show the differing bits and bit strings of the two functions' values at every given argument, in order.",
 ["inputs"],"every pair of doubles and of floats; every sequence of numbers",
 "The helpers are only used for printing in the tests.",
 [D+"vdtdiag_helper.h",D+"vdtdiag_filePersistence.h"],[("difference","vdth::diffbit"),("bit string","vdth::getbsasstr"),("hex coding","fpToHex, fpFromHex")])
prop("P22","Command line options: every command line is accepted or rejected correctly",
 "A command line is accepted if and only if each of its arguments is a declared option in short or long form, optionally followed by = and a value, and no option occurs twice in whatever form. After acceptance exactly the given options are reported as set, with exactly the text after the first = as argument (empty if none), whatever the form, order and characters used; options that were not given have an empty argument.",
 ["inputs"],"every set of declared options and every command line",
 "No test exercises the option parser.",
 [D+"vdtdiag_simpleCmd.h"],[("parser","CmdOptions::parseCmd, isSet, getArgument")])
prop("P23","Benchmark catalogue: every name is bound to the function and inputs it claims",
 "Every entry of the catalogue of functions used by the tools evaluates the function its name says (reference or fast, single or double, scalar or array, one or two arguments) and is attached to the input pool of its domain: exp to the exponential pool, log and inverse square root to the positive pool, arcsine and arccosine to the [-1,1] pool, the others to the symmetric pool, and the two coordinates of two argument functions in order. Names are unique, and each fast function of one or two arguments and one result appears, in both precisions, scalar and array, together with its reference and the same inputs.",
 ["inputs","configurations"],"all catalogue entries, every content of the pools",
 "No test uses the catalogue.",
 [D+"vdtdiag_fcnTuples.h",D+"vdtdiag_helper.h"],[("tables","getFunctionTuples, getFunctionTuplesvect"),("reference functions","namespace refMath")])
prop("P24","Accuracy tools end to end: response and comparison files say the truth",
 "For every nickname and size the accuracy benchmark writes one response file per catalogue function whose entries are the pool numbers and the function values at them, and the comparison tool run on any lists of existing response files writes for each pair the file named after nickname and function with inputs, both outputs and the bit differences, and prints the matching maximum, minimum, mean and spread. Missing files are skipped without affecting the other pairs, and invalid command lines produce no output files.",
 ["inputs","programs","histories"],"every nickname, size and list of response files, including generated ones with any values",
 "The programs are built but never run by the tests.",
 ["progs/vdtArithmBenchmark.cpp","progs/vdtArithmComparison.cpp",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h",D+"vdtdiag_fcnTuples.h",D+"vdtdiag_simpleCmd.h"],
 [("response tool","progs/vdtArithmBenchmark.cpp"),("comparison tool","progs/vdtArithmComparison.cpp"),("list splitting","list2vector")])
prop("P25","Timing: elapsed time, call counts and averages are right for every clock reading",
 "The timer returns exactly the nanoseconds between start and stop for any two clock readings, also across second boundaries. A performance measurement calls the function on all inputs, in order, once per repetition for a warm-up and once per repetition for the measurement, and the average it reports and prints is the measured time of the second half divided by the number of calls, for scalar and array functions of one and two arguments. The reported error is the standard error of that average given the times of the repetitions, and never negative or not finite when there is more than one call.",
 ["inputs","schedules","histories"],"every sequence of clock readings, every input list and number of repetitions",
 "The test prints real timings, which no assertion could check; second boundaries occur by chance.",
 [D+"vdtdiag_helper.h",D+"vdtdiag_fcnPerformance.h"],[("timer","vdth::timer"),("measurement loops","fcnPerformance::measureTime, measureTimev, measureTime2D, measureTime2Dv")])
prop("P26","C wrapper library: generated entry points compute what their names say",
 "Every entry point emitted by the wrapper generator (scalar and array, both precisions, one to three inputs, one or two outputs) returns for every argument and length the value of the fast function of the same name, with arguments and outputs in order, and declarations and definitions agree. The division, square root and fmac entry points return the correctly rounded quotient, root and product sum, and the fma entry point the product sum with one or two roundings.",
 ["programs","inputs"],"all generated entry points, every argument, every array length",
 "The generator is not run by the build or the tests.",
 ["src/numpy_wrapper_generator.py","src/fatlib.h","include/stdwrap.h"],[("generator","src/numpy_wrapper_generator.py"),("templates","include/stdwrap.h"),("non multi-versioned expansion","src/fatlib.h")])
prop("P27","Public headers work alone, in any order and in any number of translation units",
 "Every non empty selection of the public headers, included in any order and any number of times, compiles without errors in C++11 and later, offers its functions with unchanged results, and can be used in several translation units of one program without link conflicts. The array functions declared by the headers are exactly those the library provides: every declared one links.",
 ["programs","configurations"],"every selection, order and repetition of the public headers, several translation units",
 "The tests always include the headers in the same way.",
 ["include/vdtMath.h","include/identity.h","include/stdwrap.h","include/vdtcore_common.h","include/sincos.h","src/signatures_generator.py"],
 [("include guards and includes","all public headers"),("declarations vs generated definitions","src/signatures_generator.py")])
prop("P28","Python bindings: results equal the scalar functions for every array layout",
 "Every function of the NumPy module and of the generated ctypes module returns, for arguments of any shape, stride, order, byte order, alignment and element type, broadcast or not, element by element the value of the scalar fast function of the same name and precision, with the shape and precision NumPy prescribes. Results go exactly to the array given as output (also in place, overlapping, strided or masked), nothing else is written and the arguments stay unchanged; reduce, accumulate and outer of the two argument functions equal the element by element evaluation.",
 ["inputs","programs"],"every function, number and layout of arguments and outputs, element types that convert to float or double",
 "The extension module and the ctypes module are not built or run by the tests, and array layouts are too many to list.",
 ["src/vdtNumpyWrapper.c","src/numpy_wrapper_generator.py","scripts/vdtBase.py","scripts/invokeVDT.py"],[("loops over array elements","vdt_vf, vdt_vd, vdt_vf21, vdt_vf12, vdt_vf31, vdt_vd21, vdt_vd12, vdt_vd31"),("module registration","PyInit_vdtnpfun"),("tables of functions","create_numpy_header, create_python"),("ctypes calls","invokeVDT.load, invoke, invoke2to1, invoke1to2")])
prop("P29","Performance tool: measures the selected functions as asked, file equals screen",
 "For every nickname, size, number of repetitions, pool limits and pattern, the performance benchmark measures exactly the catalogue functions whose whole name the regular expression matches, each once, on size numbers of its pool within the given limits, each number once per repetition in the warm-up and once per repetition in the measurement. It writes to the file named after the nickname the same lines it prints: name, average time per call and its error. Invalid command lines produce no file.",
 ["inputs","programs","schedules"],"every nickname, size, number of repetitions, pool limits, pattern and clock step",
 "The program is built but never run by the tests, and its results depend on the clock.",
 ["progs/vdtPerfBenchmark.cpp",D+"vdtdiag_fcnPerformance.h",D+"vdtdiag_fcnTuples.h",D+"vdtdiag_simpleCmd.h",D+"vdtdiag_random.h"],[("performance tool","progs/vdtPerfBenchmark.cpp"),("measurement","fcnPerformance"),("selection","std::regex_match")])
prop("P30","Vc wrapper: generated functions apply the library operation element by element",
 "For every vector width of the Vc library, every array length (0 and lengths which are no multiple of the width included), content and placement, the generated Vc wrapper functions return for each element the result of the Vc operation of their name at this element (inv: reciprocal, isqrt: rsqrt, identity: the element), in scalar and array form and both precisions. They read only the given input, write exactly the given output and make no alignment assumption. The VC_ entries of the benchmark catalogue evaluate the wrapper function their name says, on the pool of the reference function.",
 ["inputs","configurations","programs"],"all generated functions, every vector width, length, placement and content",
 "The wrapper needs the external Vc library, so neither build nor tests ever run it.",
 ["src/vc_wrapper_generator.py",D+"vdtdiag_fcnTuples.h"],[("generator","src/vc_wrapper_generator.py"),("catalogue entries","getFunctionTuples, getFunctionTuplesvect under _VC_AVAILABLE_")])
prop("P31","Result scripts: tables, commands and histograms show what the files say",
 "For any performance files of the same functions the summary, vector and libm tables show for each function and file the average and error of the file, by default after subtraction of the identity function measured before it and quadratic addition of its error, and as speedup the ratio to the first column. The accuracy script prints, for any nickname, the command which compares the response file of each reference function with that of the fast function of the same name, scalar and array, in both precisions. For any directory and nickname the histogram script enters each entry of each comparison file of this nickname, and of no other, once into the histograms of its function, with its number of differing bits and its (first) input, on axes which cover the inputs of the benchmark and separate all numbers of differing bits.",
 ["inputs","configurations"],"all sets of result files, nicknames, directories and options",
 "No test runs the scripts.",
 ["scripts/tabulateVDTResults.py","scripts/checkAccuracy.py","scripts/diffhisto.py"],[("tables","createSummaryTable, createVectTable, createLibmVdtTable, normaliseTimings"),("command","get_refs, get_tests"),("histograms","compare, fill_histos, getYaxisRange")])
prop("P32","Printed listings: every entry, in order, with its full decimal value",
 "Printing a pool, a response or a comparison, of one or two inputs, in either precision, created or read from a file, shows all of its entries in order, each with its position and the total number, with every number right to the decimal precision of its type (infinities and NaNs by name). A comparison shows in addition the exact bit patterns of both outputs and the number of differing bits of every entry, and its statistics at the end. This holds for any sequence of such objects and statistics printed on the screen one after the other: what was printed before never changes what a later listing shows.",
 ["inputs","histories"],"every object, length, content, and sequence of listings on one screen",
 "Tests print a few ordinary numbers and nobody compares the text.",
 [D+"vdtdiag_random.h",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h",D+"vdtdiag_interfaces.h"],[("listings","print of randomPool1D, randomPool2D, fcnResponse1D, fcnResponse2D, fcnComparison1D, fcnComparison2D"),("statistics","IfcnComparison::printStats")])
prop("P33","Build options: any history of configurations gives a working installation",
 "For every combination of the build options (instruction set, FMA, shared or static, preload, debug, diagnostics, Vc without Vc present), both compilers, and any sequence of configurations of the same tree, the library builds and installs, and what is installed corresponds to the options of the last configuration alone. A program which uses only the installed headers and library gets the function values of the default build (with FMA: within rounding); the standard function names are in the library exactly when preload is asked for. The diagnostic programs of every build write the files of the default build and report the instruction sets which are enabled.",
 ["configurations","histories","programs"],"all combinations and sequences of build options, compilers and generators",
 "The tests are run for one configuration in a fresh tree.",
 ["CMakeLists.txt","CMakeDefaults.txt","src/CMakeLists.txt","lib/CMakeLists.txt","src/signatures_generator.py","include/vdtMath.h",D+"vdtdiag_helper.h"],[("options and installation","CMakeLists.txt"),("generation of the array functions","src/signatures_generator.py"),("enabled instruction sets","print_instructions_info")])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
