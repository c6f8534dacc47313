#!/usr/bin/env python3
"""The property list: writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
CLAIM = {}
NA = {}


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na:
        NA[id] = na
    else:
        CLAIM[id] = (tech, note)


AI = "abstract interpretation of LLVM IR (bit-provenance + affine domain, trace partitioning)"
BASE = ("Every obligation is discharged for all values of the free bits of its context by comparing normal forms; no solver, "
        "nothing is run. Trusted: clang's front end at -O0, the models of libstdc++/libc functions, the abstract domain. "
        "Bounded by the listed partition of sizes, offsets and shapes; ")

prop("C01", "Bit builder stores exactly the bits it was given",
     "Whatever sequence of construction, push, append, overwrite, extend, resize, reserve and reverse operations builds a bit sequence, "
     "the result contains exactly the bits written by those operations, in order, with the exact length and no stray bits beyond it.",
     ["inputs", "histories"], "all bit contents, all lengths modulo the word size (any number of words), all operand widths and offsets",
     "tests push random bits at a few lengths; alignment/width/word-boundary combinations and every content cannot be sampled",
     ["bit_vector.hpp"], [("append_bits/push_back/set_bits/append/reverse keep the current-word pointer and the partial last word", "bit_vector.hpp: bit_vector_builder"),
                          ("reverse_bits/reverse_bytes", "broadword.hpp")],
     AI, BASE + "lengths are 64*B+s with symbolic B, every s and every operand width.")

prop("C02", "Bit vector reads return exactly the stored bits",
     "Reading any single bit, any field of up to 64 bits, a word starting at any bit position, or a stream of consecutive fields returns exactly "
     "the stored bits, with zeros where a word read extends past the end.",
     ["inputs"], "all contents, lengths, positions and widths (0..64), including reads touching the last word",
     "tests read random positions of a few vectors",
     ["bit_vector.hpp"], [("get_bits/get_word/get_word56/enumerator::take assemble fields from two adjacent words", "bit_vector.hpp: bit_vector")],
     AI, BASE + "positions are 64*j+s with symbolic j; every s, width and distance to the end.")

prop("C03", "Neighbour queries and unary scans find exactly the nearest set bits",
     "Searching forwards or backwards for the nearest one or zero from any position, skipping runs of zeros, and enumerating or skipping ones or zeros with a scanner "
     "report exactly the positions defined by the stored bits, for every interleaving of scanner moves.",
     ["inputs", "histories"], "all contents within the inspected window, all start offsets, all sequences of next/skip moves",
     "tests use random vectors where long gaps, word-boundary hits and mixed scanner moves are rare or absent",
     ["bit_vector.hpp"], [("predecessor/successor loops over words", "bit_vector.hpp: predecessor0/1, successor0/1"),
                          ("unary_enumerator buffer and position", "bit_vector.hpp: unary_enumerator")],
     AI, BASE + "gaps of up to a few words; all offsets.")

prop("C04", "Word-level primitives compute their mathematical definition in every build",
     "Population count, in-word selection, first/last set bit, bit and byte reversal, bytewise sums and packed comparisons return exactly their "
     "mathematical definition for every 64-bit operand (packed signed comparison for operands of equal sign), both with compiler intrinsics and with the portable code.",
     ["inputs", "configurations"], "all 2^64 operands (and all in-range indices), intrinsic and portable builds",
     "2^64 operands and table entries; the tests only ever run one configuration",
     ["broadword.hpp", "intrinsics.hpp", "tables.hpp"], [("broadword algorithms and lookup tables", "broadword.hpp, tables.hpp"), ("intrinsic wrappers", "intrinsics.hpp")],
     AI, BASE + "all operands; select is partitioned by (rank, position).")

prop("C05", "Rank counts exactly",
     "For every bit sequence and every position up to and including the end, the rank structure reports exactly the number of ones (and zeros) before that position, "
     "and the exact totals.",
     ["inputs"], "all contents of vectors of up to 1152 bits (2100 thorough), positions across every block and sub-block boundary",
     "random vectors do not reach every saturation of the packed counters",
     ["rs_bit_vector.hpp", "rs_bit_vector.cpp"], [("two-level packed block ranks", "rs_bit_vector.cpp: build_indices; rs_bit_vector.hpp: rank, sub_block_rank")],
     AI, BASE + "vector lengths up to 1152 (quick) / 2100 (thorough) bits, every bit free.")

prop("C06", "Select inverts rank, with and without hint tables",
     "For every bit sequence and every k below the number of ones (zeros), select (select0) returns exactly the position of the k-th one (zero); the optional hint tables never change an answer.",
     ["inputs", "configurations"], "all contents up to 1100 bits without hints; with hints, all contents with fixed word populations up to 6200 bits",
     "hint thresholds and packed comparisons fail only for particular population patterns",
     ["rs_bit_vector.hpp", "rs_bit_vector.cpp", "broadword.hpp"], [("binary search over block ranks, packed 9-bit comparison, in-word select", "rs_bit_vector.hpp: select, select0"),
                                                                   ("hint tables", "rs_bit_vector.cpp: build_indices")],
     AI + ", with a function summary for the packed comparison established in the same run", BASE + "contexts are partitioned by the answer position.")

prop("C07", "Compressed integer lists return every stored value",
     "Each compressed list (both gamma-coded vectors, both Elias-Fano lists, the nibble vector) returns for every index exactly the integer stored there, reports its exact length (and sum, where offered), "
     "and its forward scanner started at any index yields the same values in order.",
     ["inputs", "histories"], "all values of every bit length up to the codec's limit, list lengths crossing inventory blocks",
     "tests use random small values; large values, runs, and scanner restarts at block edges are not covered",
     ["gamma_vector.hpp", "gamma_bit_vector.hpp", "elias_fano_compressed_list.hpp", "elias_fano_list.hpp", "nibble_vector.hpp", "darray64.hpp", "forward_enumerator.hpp"],
     [("unary lengths + packed payload", "gamma_vector.hpp, gamma_bit_vector.hpp, elias_fano_compressed_list.hpp"), ("select inventory", "darray64.hpp"), ("prefix sums in Elias-Fano", "elias_fano_list.hpp")],
     AI, BASE + "partitioned by the bit lengths of the values; the value 2^64-1 (2^64-2 for the sign-bit variant) is outside the codecs' domain.")

prop("C08", "Elias-Fano queries agree with the encoded sequence",
     "For every non-decreasing sequence of positions, Elias-Fano select, consecutive differences, consecutive pairs, and sequential enumeration from any index return exactly the encoded positions; "
     "with the rank index, rank, membership, predecessor and successor also agree with the encoded set.",
     ["inputs", "histories"], "all low parts, low-part widths 0..21 (56 thorough), clustered and spread high parts, duplicates",
     "tests use one density at a time; low-part widths that do not divide the word, enumeration restarts and duplicate positions are unsampled",
     ["elias_fano.hpp", "darray.hpp"], [("split into unary high part and packed low part", "elias_fano.hpp: elias_fano_builder, select, delta, select_range"),
                                        ("select_enumerator low-bit buffering", "elias_fano.hpp: select_enumerator"), ("rank via select0 and backward scan", "elias_fano.hpp: rank, operator[]")],
     AI, BASE + "partitioned by high-part profiles and low-part width.")

prop("C09", "Scalar codecs are exact inverses",
     "Mapping signed integers to naturals and back, and encoding naturals as variable-length bytes and decoding them, are lossless for every 64-bit value without overflow; the announced, written and consumed byte counts agree and codes can be concatenated.",
     ["inputs"], "all 64-bit values, any following codes",
     "no test exercises these functions",
     ["util.hpp", "vbyte.hpp"], [("int2nat/nat2int", "util.hpp"), ("append_vbyte/decode_vbyte/vbyte_size", "vbyte.hpp")],
     AI, BASE + "all values (partitioned by sign and highest bit).")

exec(open(os.path.join(ROOT, "tools", "props_more.py")).read())


def main():
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    na = []
    for p in P:
        i = p["id"]
        have = os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py"))
        if i in CLAIM and have:
            t, n = CLAIM[i]
            checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                               technique=t, level="other", level_note=n))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check has been built for it yet")))
    m = dict(version=1, setup_cmd="python3 -m compileall -q engine checks check.py && clang++-18 --version", checks=checks, not_applicable=na,
             notes="all checks are static: /repo's current sources are compiled to LLVM IR (or an AST) on every run and analysed; nothing from /repo is executed")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not applicable")


main()
