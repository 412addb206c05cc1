T.update({
 "P09": ("differential testing of array calls against scalar calls over generated lengths, offsets and contents", "every length 0..200, generated longer ones, arrays beyond 2^31 elements; offsets and contents generated"),
 "P10": ("generated array calls between guard pages and canaries", "invariant: no access outside the arrays, inputs unchanged, outputs written; every length 0..200 at both page edges"),
 "P13": ("stateful testing of generated call histories, orders, threads and call forms", "oracle: the first call of a freshly loaded library and the same calls in another order; thread schedules are those the machine produces"),
 "P15": ("differential testing of a program under the preload library over generated arguments", "the ten functions in both precisions (floats enumerated, sampled in quick), their array forms, 64 untouched libm functions; bit comparison"),
})

T.update({
 "P18": ("stateful property-based testing of pool and file histories against a model", "rapidcheck histories of create, write, read, copy, print, overwrite and delete on four objects and four files; bit comparison with the model, statistical bound on the spread"),
 "P19": ("stateful property-based testing of response and file histories against a model", "generated functions (bit hashes), inputs with all special values, histories over four objects and files; bit comparison"),
 "P20": ("stateful property-based testing of comparison and file histories against an exact model", "exact integer statistics, independent parser of the written files and of the printed statistics"),
 "P21": ("property-based testing of bit helpers against an independent model", "lists of generated pairs, arbitrary patterns including signalling NaNs, streams mixed with other text"),
 "P22": ("property-based testing of the command line parser against a reference parser", "generated option declarations and command lines with distortions"),
 "P23": ("differential testing of the function catalogue against an independent name table", "generated pools and arguments, every entry evaluated"),
 "P25": ("model-based testing of timing under a generated clock", "clock_gettime replaced by a clock which only the measured function advances; call sequence, average and error compared with the model"),
})

T.update({
 "P26": ("differential testing of generated wrapper entry points against scalar functions and exact arithmetic", "rapidcheck cases: argument tuples and guarded arrays of generated length, place and content, four builds of the wrapper; arrays beyond 2^31 elements"),
 "P28": ("property-based testing of the Python bindings with generated array layouts", "Hypothesis cases: shape, strides, order, broadcasting, type, output array; oracle: scalar calls on contiguous copies; crash reproduction shrunk by the driver"),
})

T.update({
 "P27": ("generated programs including the public headers in generated ways", "compiler, language standard, flags, header selections, orders and repetitions, several translation units; oracle: a reference unit including every header once, compared bit for bit; shrunk greedily"),
})

T.update({
 "P24": ("property-based testing of the accuracy programs end to end", "Hypothesis cases: command lines, nicknames, sizes, generated response files, missing files; oracle: independent parsers, libm and scalar fast functions, exact integer statistics"),
 "P29": ("property-based testing of the performance program under a generated clock", "Hypothesis cases: command lines, patterns, sizes, repetitions, limits; oracle: names matched by an independent regular expression engine, recorded calls of the standard functions, consistency of averages with the clock"),
})

T.update({
 "P30": ("differential testing of the generated Vc wrapper over generated arrays and vector widths", "rapidcheck cases: function, guarded arrays of generated length, place and content, five vector widths, catalogue entries; the Vc library is replaced by a stand-in whose operations are distinct bit hashes"),
 "P31": ("property-based testing of the result scripts on generated files", "Hypothesis cases: performance files and table options, comparison files and histogram options with a recording stand-in of ROOT, nicknames for the comparison command, which is executed in part of the cases; oracle: the numbers of the generated files"),
 "P32": ("stateful property-based testing of printed listings against the objects' contents", "rapidcheck histories of objects, files and statistics printed on one stream; oracle: every number parsed back from the text and compared with the pattern held by the object"),
 "P33": ("generated histories of build configurations compared with reference builds", "options, compiler, build tool and one to three successive configurations of a scratch copy of the tree; oracle: results of directly compiled references, symbols of the library, files of the accuracy benchmark"),
})
