"""Sizes beyond 32 bits: lengths, positions, ranks and counts never pass through a narrow integer."""
TITLE = "width of growing quantities"
WIDTH = r"."
MODS = {}
EXPLAIN = "dataflow on the LLVM IR of the library: quantities that grow with the input are marked from the public interface, container sizes and counters of loops over them, followed through arithmetic, fields, variables, elements of containers, parameters and results, and every narrowing they meet is examined"
RULE = "a marked quantity must not be cut below the width it can reach, unless it was compared with a small bound, only its low bits are used, or its upper part is kept as well; counters and sums over growing ranges and the public results are held to the same width"
ASSUME = ["inputs of up to 2^39 bits (64 GiB); the nesting depth of a parentheses sequence stays below 2^31, as its interface (32-bit excess) requires",
          "quantities whose growth the analysis cannot establish (differences, remainders, clamped values) are not held to a width"]
