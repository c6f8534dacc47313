OBJS = ["mappable_vector.hpp", "mapper.hpp", "bit_vector.hpp", "rs_bit_vector.hpp", "bp_vector.hpp", "darray.hpp", "darray64.hpp", "elias_fano.hpp", "elias_fano_list.hpp",
        "elias_fano_compressed_list.hpp", "gamma_vector.hpp", "gamma_bit_vector.hpp", "nibble_vector.hpp", "cartesian_tree.hpp", "topk_vector.hpp"]
TS = "typestate/ownership analysis on the abstract interpreter for LLVM IR, with the complete field layout taken from the compiler"

prop("C11", "Freezing then mapping restores the structure exactly",
     "For every persistent structure, freezing it to a file and mapping the file (at any offset within a larger file, with or without warm-up) gives an object that is "
     "indistinguishable from the original in every field and every array element; freezing never changes the original, and a mapped object can be frozen and mapped again.",
     ["inputs", "histories"], "all field values and array contents of every persistent structure, chained files, repeated generations",
     "tests freeze a few objects and query some positions; a forgotten, duplicated or reordered field shows only for particular structures or options",
     OBJS, [("freeze/map visitors", "mapper.hpp: freeze_visitor, map_visitor"), ("member visit order", "every class: map(Visitor&)")],
     AI + " with a virtual output stream", BASE + "array shapes are enumerated per class, contents and scalar fields are free.")

prop("C12", "Size accounting equals the bytes really written",
     "For every persistent structure the size reported in advance, the byte count returned by freezing and by mapping, and the size-report tree all equal the number of bytes that freezing really writes, "
     "and the parts of the report add up to the total.",
     ["inputs"], "every structure and shape, any array contents",
     "tests compare sizes for few types and contents",
     OBJS, [("size_of/size_tree_of/freeze/map visitors", "mapper.hpp")],
     AI + " with a virtual output stream", BASE + "array shapes are enumerated per class.")

prop("C13", "Owned memory is released exactly once, mapped memory never",
     "Along any history of filling, stealing, swapping, clearing, mapping and destroying, each structure releases every array it owns exactly once, never releases or writes memory it was mapped onto, "
     "and always shows the elements last given to it; structures that own memory cannot be copied.",
     ["histories"], "all histories of up to three operations over two vectors plus life cycles of every structure; all contents",
     "leaks and double frees do not fail a unit test; histories multiply",
     OBJS, [("deleter ownership", "mappable_vector.hpp: mappable_vector"), ("noncopyable bases", "every class")],
     TS + "; compile-fail witnesses for copying", BASE + "histories of up to 3 operations (4 thorough).")

prop("C14", "Swap exchanges and takeover transfers the complete state",
     "Swapping two structures of the same type exchanges every field and array of the one with the other, swapping twice restores both, and building a structure from a builder takes over its complete content "
     "and leaves the builder usable as an empty one where that is offered.",
     ["inputs", "histories"], "all pairs of shapes with free contents, self swap",
     "a member omitted from a swap shows only if both objects differ in that member and it is queried afterwards",
     OBJS, [("swap members", "every class: swap"), ("bit_vector(bit_vector_builder*)", "bit_vector.hpp")],
     AI + ", complete field layout from the compiler", BASE + "shapes enumerated per class.")

prop("C18", "Default-constructed objects are valid empty objects",
     "Every default-constructed structure is a valid empty one: all its fields have definite values, it reports length zero, and it can be swapped, frozen, mapped over, assigned and destroyed like any other.",
     ["inputs", "histories"], "every structure; any previous memory content",
     "uninitialised fields usually happen to be zero in tests",
     OBJS, [("default constructors", "every class")],
     AI + " tracking uninitialised storage", BASE + "every class, every field.")

prop("C21", "Select inventories locate the k-th one or zero, dense or sparse",
     "For every bit sequence and every valid k, the select inventories over ones, over zeros and over clustered 64-bit words return exactly the position of the k-th selected bit, whether the surrounding block is dense or sparse.",
     ["inputs"], "profiles covering dense, sparse and mixed blocks around every threshold, with positions free within them",
     "block kinds and thresholds only switch for long vectors with particular gaps",
     ["darray.hpp", "darray64.hpp"], [("block inventory, subblock inventory, overflow positions", "darray.hpp: darray::select, build"), ("64-element blocks", "darray64.hpp")],
     AI, BASE + "profiles of gaps are enumerated, chosen positions vary symbolically.")

SM = AI + ", with exact truth tables for functions of few free bits"
prop("C22", "Balanced parentheses: matching, enclosing, excess and range minima",
     "For every balanced sequence, the closing and opening partner of every parenthesis, the pair enclosing it, the excess before every position, and the leftmost position of minimum excess "
     "(with its value) in every range are exactly those defined by the sequence, whatever its length and however far apart the partners are.",
     ["inputs"], "sequences with free sub-choices from a few bits to several minimum-tree levels; all positions of short ones, boundary positions and longest pairs of long ones, ranges at every level",
     "the search switches algorithm at byte, word, block, superblock and tree boundaries; random trees rarely reach the rare transitions, ties or far partners",
     ["bp_vector.hpp", "bp_vector.cpp", "broadword.hpp"], [("in-word tables, in-block search", "bp_vector.cpp: find_close_in_word, find_open_in_word, find_*_in_block"),
                                                        ("minimum tree", "bp_vector.cpp: build_min_tree, search_min_tree, find_min_superblock"),
                                                        ("range minima", "bp_vector.cpp: excess_rmq*")],
     SM, BASE + "the skeleton of each sequence is decided, independent local and far-reaching choices are free.")

prop("C23", "Range minimum queries return the leftmost minimum",
     "For every list of values, every comparator and every range, the range-minimum structure returns the index of the leftmost best value in the range, whether it was built from a range or value by value.",
     ["inputs"], "all order types (with ties) of up to 5 values (6 thorough) and ten families of up to 12,300 (20,500 thorough) values; free low bits",
     "ties, monotone runs and ranges crossing the index blocks are rare in random lists",
     ["cartesian_tree.hpp", "bp_vector.cpp"], [("2d-min-heap construction and reversed indices", "cartesian_tree.hpp: builder, rmq"), ("select0 + excess minimum", "bp_vector.cpp, rs_bit_vector.hpp")],
     AI + " partitioned by order type", BASE + "larger lists are covered by families of order types with sampled ranges.")

prop("C24", "Top-k returns the greatest entries of a range in order",
     "For every list of values and every range, asking for the top k returns the min(k, range length) greatest entries with their indices, in decreasing order of value and increasing index among equals; "
     "enumeration yields the same sequence, ends after the last entry, and stays correct when enumerators are restarted part-way, cleared or swapped.",
     ["inputs", "histories"], "all order types of up to 4 values with every range and k, a sample of 5, families up to 1,100 values; plain and compressed value lists",
     "ties, exhausted ranges and reused enumerators are hardly exercised",
     ["topk_vector.hpp", "cartesian_tree.hpp", "elias_fano_list.hpp"], [("priority queue of sub-ranges", "topk_vector.hpp: enumerator"), ("topk", "topk_vector.hpp: topk")],
     AI + " partitioned by order type", BASE + "larger lists are covered by families of order types with sampled ranges.")

prop("C19", "Line readers deliver every line once, in order, unaltered",
     "Reading a text line by line, from a stream, from a memory buffer or from a mapped file, delivers each line exactly once, in order and with every character (however long the line and with or without a final newline), then reports the end and nothing more. "
     "Trimming removes exactly the trailing newline and carriage-return characters; copies of an iterator keep the line they stand on.",
     ["inputs"], "all placements of line ends in short texts, lines around multiples of the read buffer; all other characters arbitrary (NUL excluded)",
     "no test exercises the readers; mistakes show only at buffer edges, on empty lines or on a missing final newline",
     ["util.hpp"], [("fast_getline, line_iterator, lines", "util.hpp"), ("buffer_line_iterator, mmap_lines", "util.hpp"), ("trim_newline_chars", "util.hpp")],
     AI + ", with a model of a C stream", BASE + "texts of up to 5 line-structure characters (7 thorough) plus long ones; std::string is interpreted from the library's own code.")

prop("C20", "Files are opened as asked, completely written and closed exactly once",
     "A file handle opens exactly the named file in the requested mode, keeps it open while its owner lives and closes it exactly once; if opening fails an error naming the file is raised and nothing leaks. "
     "Freezing to a named file replaces that file by exactly the bytes that freezing to a stream produces, and mapping that file consumes all of them and restores the structure.",
     ["inputs", "fault_sequences"], "success and failure of opening; every persistent structure, arbitrary contents",
     "handle leaks and double closes do not fail a test; the failing open is never tested",
     ["util.hpp", "mapper.hpp"], [("auto_file", "util.hpp: auto_file"), ("freeze(val, filename), map(val, mapped_file_source)", "mapper.hpp")],
     TS + ", exceptional paths included", BASE + "a successfully opened stream is assumed to accept every write (write errors are not reported by the library).")

SW = AI + ", re-running the contexts of the value checks with this class of obligation only"

prop("C10", "Valid use never touches memory it must not touch",
     "Building, querying, persisting, mapping, exchanging and destroying any structure with valid arguments reads and writes only live storage inside its bounds, never through a null or dangling pointer, "
     "never writes constant or mapped data, and no result or decision depends on memory that was never written.",
     ["inputs", "histories"], "every load, store, copy and release executed in the contexts of all the other checks, contents free",
     "an over-read of the last word or a stale pointer usually still returns the right answer in a test",
     OBJS + ["broadword.hpp", "vbyte.hpp", "util.hpp", "forward_enumerator.hpp", "rs_bit_vector.cpp", "bp_vector.cpp"],
     [("every load and store", "all headers and both .cpp files"), ("reads at the last word", "bit_vector.hpp: get_bits, get_word"), ("table and block lookups", "rs_bit_vector.cpp, bp_vector.cpp, darray.hpp")],
     SW, BASE + "get_word56 reads past the end by design and is excluded; quick tier takes a fixed part of the contexts, thorough all.")

prop("C15", "Queries change nothing, so readers can share a structure",
     "From its construction until the next modifying call, no query writes to the queried structure, to anything reachable from it or to any mutable global or hidden cache (one-time initialisation of a function-local constant aside), "
     "so any number of threads may query the same structure at the same time.",
     ["inputs", "schedules"], "every store executed by every query entry point of every structure, object contents free",
     "a hidden cache or a lazily built table gives right answers in every single-threaded test",
     OBJS + ["rs_bit_vector.cpp", "bp_vector.cpp"], [("const member functions", "every class"), ("enumerators over a shared structure", "topk_vector.hpp, gamma_vector.hpp, elias_fano.hpp")],
     SW + ": the structure and all it reaches are frozen from the first query on", BASE + "schedules need no enumeration: without writes there is no race. Function-local statics are assumed to be initialised thread-safely by the compiler.")

prop("C16", "Build options change no result",
     "Compiling with or without hardware intrinsics and population count, with or without assertions, and with signed or unsigned plain characters gives the same results for every operation.",
     ["configurations", "inputs"], "two further configurations of every module against the same oracles, contents free",
     "the test suite is built in one configuration",
     OBJS + ["broadword.hpp", "intrinsics.hpp", "rs_bit_vector.cpp", "bp_vector.cpp", "vbyte.hpp"],
     [("SUCCINCT_USE_INTRINSICS, SUCCINCT_USE_POPCNT branches", "broadword.hpp, intrinsics.hpp"), ("assert arguments", "all headers")],
     AI + " of differently configured modules against one oracle", BASE + "64-bit targets and one compiler; the word primitives themselves are compared exhaustively by C04.")

prop("C17", "Arithmetic stays within its defined range",
     "In valid use no shift amount reaches the width of its operand, no signed addition, subtraction or multiplication overflows, nothing is divided by zero and no zero word is scanned for its first or last bit.",
     ["inputs"], "every shift, signed operation, division and bit scan executed in the contexts of all the other checks",
     "undefined shifts and overflows happen to give the expected value on one compiler and another one on the next",
     OBJS + ["broadword.hpp", "intrinsics.hpp", "rs_bit_vector.cpp", "bp_vector.cpp", "vbyte.hpp", "util.hpp"],
     [("word-boundary shifts", "bit_vector.hpp, darray.hpp, bp_vector.cpp, broadword.hpp")],
     SW, BASE + "quick tier takes a fixed part of the contexts, thorough all.")

prop("C25", "Internal consistency assertions never fail in valid use",
     "With assertions enabled, no call with valid arguments ever fails an internal assertion or raises an exception (other than the documented failure to open a file).",
     ["inputs", "histories"], "every assertion reached in the contexts of all the other checks",
     "tests reach each assertion with a few values only",
     OBJS + ["broadword.hpp", "rs_bit_vector.cpp", "bp_vector.cpp", "vbyte.hpp", "util.hpp"], [("assert statements", "all headers and both .cpp files")],
     SW, BASE + "the asserted conditions are the code's own; quick tier takes a fixed part of the contexts, thorough all.")

prop("C29", "Sizes beyond 32 bits are carried without truncation",
     "Lengths, positions, ranks and counts keep all their bits through construction, queries, enumeration, freezing and mapping, so structures larger than 2^32 bits behave like smaller ones; only the nesting depth of parentheses is limited to 32 bits.",
     ["inputs"], "every narrowing met by a quantity that grows with the input, anywhere in the library",
     "a test with more than 2^32 bits is too large to run, and every smaller one passes with 32-bit counters",
     OBJS + ["rs_bit_vector.cpp", "bp_vector.cpp", "util.hpp"], [("sums, counters and sentinels over the length", "rs_bit_vector.cpp, bp_vector.cpp, mapper.hpp, elias_fano.hpp, cartesian_tree.hpp")],
     "static dataflow on LLVM IR: growth marks followed through fields, variables, containers, parameters and results to every narrowing", BASE + "quantities whose growth cannot be established are not held to a width; narrowings that only show above 2^39 bits are not reported.")

prop("C30", "Equal content freezes to identical bytes",
     "The frozen bytes depend only on the stored content: no indeterminate byte and no memory address is ever written. Freezing again, freezing a mapped copy, building again from the same values (whichever way the bits were put together), or passing through exchanged and reused objects gives the same file.",
     ["inputs", "histories"], "every byte of the file traced back to the input; all classes, contents free",
     "tests compare restored values, not file bytes, and stale or indeterminate bytes rarely show in one process",
     OBJS + ["rs_bit_vector.cpp", "bp_vector.cpp"], [("freeze and every build path", "mapper.hpp, bit_vector.hpp, all classes")],
     AI + " with initialisation tracking; byte-wise comparison of files of equal objects with different histories", BASE + "contents as for C11; ways of building as for C01, up to 320 bits.")

prop("C26", "Query time and space stay within the succinct bounds",
     "Rank takes constant time, select and parenthesis matching logarithmic or better, and every index adds only a small fraction to the size of the data.",
     ["inputs"], "all inputs", "tests do not measure", OBJS, [("indexes", "rs_bit_vector.cpp, bp_vector.cpp, darray.hpp, elias_fano.hpp")], "none",
     na="running time and asymptotic space quantify over machine cost and unbounded input growth; no static argument in reach bounds them, and a measurement would be a runtime test")

prop("C27", "Mapping a damaged or foreign file is detected",
     "Mapping a file that was truncated, damaged or written by another version raises an error instead of giving an object that reads outside the file.",
     ["inputs", "fault_sequences"], "all byte strings", "tests map only files they wrote", ["mapper.hpp"], [("map_visitor", "mapper.hpp")], "none",
     na="the library deliberately maps trusted files without any check and its interface receives no file length, so the code makes no such promise for an analysis to decide")

prop("C28", "A failed write while freezing is reported",
     "If the disk fills up or the file cannot be written, freezing reports the failure instead of returning a byte count.",
     ["fault_sequences"], "all failures of the output stream", "tests write to a working disk", ["mapper.hpp"], [("freeze_visitor", "mapper.hpp")], "none",
     na="stream errors are left to the caller's stream by design and the named-file variant offers no channel to report them; there is no guarantee in the interface to decide")
