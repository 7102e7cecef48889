CHECKS = {}
CORE = ["ron/uuid.cc", "ron/uuid-parser.cc", "ron/text.cc", "ron/text-parser.cc", "ron/text-builder.cc",
        "ron/cp-parser.cc", "ron/utf8-parser.cc", "ron/status.cc"]


def check(prop, jobs, **kw):
    CHECKS[prop] = dict(jobs=jobs, **kw)


check("C20", [dict(name="key", harness="c20_key.cc", sources=CORE + ["db/key.cc"], reach=["equal", "differ"],
                   bound="none: all 60-bit values, 60-bit origins, 8-bit forms, pairs of keys")])
check("C01", [
    dict(name="value-text-value", harness="c01_uuid_text.cc", params=dict(mode=0), reach=["longest", "shortest"], bound="none: all UUIDs (4+60+2+60 bits)"),
    dict(name="text-value-text", harness="c01_uuid_text.cc", params=dict(mode=1, w=10), reach=["shortened", "shortened origin"], bound="none: every accepted text (words of 1..10 characters)"),
])
check("C02", [
    dict(name="bytes", harness="c02_uuid_accept.cc", params=dict(max=26), thorough=dict(params=dict(max=40)), reach=["accepted", "rejected", "with origin", "with variety", "too long"], bound="all byte strings of 0..26 (thorough: 0..40) bytes; the longest UUID text has 23"),
])
check("C03", [dict(name="order", harness="c03_uuid_order.cc", reach=["end"], bound="none: all triples of UUIDs")])
NOT_APPLICABLE = {}
check("C04", [dict(name="pairs", harness="c04_time.cc", reach=["pair"], bound="all pairs of UTC instants 2010-01-01..2350-12-31, nanosecond resolution (leap seconds excluded)")],
      assumptions=["gmtime() and gettimeofday() are replaced by models returning an arbitrary valid broken-down time; the native replays use the real gmtime()."])
check("C05", [dict(name="codepoints", harness="c05_utf8.cc", params=dict(mode=0), reach=["4+3", "1+1"], bound="all pairs of code points 0..0x10FFFF, every truncation"),
              dict(name="bytes", harness="c05_utf8.cc", params=dict(mode=1, max=6), thorough=dict(params=dict(max=9)), reach=["valid", "invalid"], bound="all byte strings of 0..6 (thorough 0..9) bytes")])
check("C06", [dict(name="pairs", harness="c06_utf16.cc", reach=["bmp", "pair"], bound="all pairs of Unicode scalar values")])
check("C22", [dict(name="full", harness="c22_hash.cc", params=dict(mode=0), reach=["full"], bound="all 256-bit hashes"),
              dict(name="prefix", harness="c22_hash.cc", params=dict(mode=1), reach=["hex prefix", "base64 prefix"], bound="all hex texts of 0..64 and Base64 texts of 0..43 digits"),
              dict(name="wrongchar", harness="c22_hash.cc", params=dict(mode=2, maxn=64), reach=["bad char"], bound="hex texts of 1..64 and Base64 texts of 1..43 characters, one arbitrary wrong character anywhere"),
              dict(name="match", harness="c22_hash.cc", params=dict(mode=3), reach=["match", "mismatch"], bound="all pairs of hashes with 14 known-bit counts each")],
      assumptions=["Botan's SHA-512/256 is replaced by a stand-in; no statement depends on its value."])
check("C23", [dict(name="ints", harness="c23_incstack.cc", params=dict(ops=7), thorough=dict(params=dict(ops=9)), reach=["compressed", "advance"], bound="all sequences of up to 7 (thorough 9) pushes/pops of arbitrary 32-bit values"),
              dict(name="uuids", harness="c23_incstack.cc", params=dict(ops=6, uuid=1), thorough=dict(params=dict(ops=8)), reach=["compressed", "advance"], bound="same with 6 (8) operations on UUIDs")])
check("C28", [dict(name="numbers", harness="c28_forms.cc", params=dict(mode=0), reach=["registered", "unregistered"], bound="all 256 numbers"),
              dict(name="names", harness="c28_forms.cc", params=dict(mode=1), reach=["reg", "unreg"], bound="all 128-bit UUIDs")])
check("C08", [dict(name="values", harness="c08_ints.cc", params=dict(mode=0), reach=["alone", "with others", "min", "max"], bound="all 64-bit integers; alone, after a string, before a UUID; written, read, copied and read again"),
              dict(name="texts", harness="c08_ints.cc", params=dict(mode=1, max=21), thorough=dict(params=dict(max=24)), reach=["fits", "fits long", "too big"], bound="all integer texts of 1..21 (thorough 1..24) digits with an optional sign, bare and with '='")],
      assumptions=["sprintf(\"%ld\") is modelled: for a symbolic value it yields the decimal digits of the value."])
check("C07", [dict(name="values", harness="c07_strings.cc", params=dict(mode=0, max=3, places=3), thorough=dict(params=dict(max=4, places=1)), reach=["empty", "one", "many"], bound="all strings of 0..3 (thorough 0..4) Unicode scalar values without U+0000; alone, after another string, before an integer; written, read as code points, UTF-8 and UTF-16, copied and amended"),
              dict(name="long", harness="c07_strings.cc", params=dict(mode=2, max=6, places=1), thorough=dict(params=dict(max=7, places=3)), reach=["long"], bound="strings of 15, 16, 17, 255, 256 and 1000 (thorough also 4096) characters of one, two or four bytes or quotes, with an arbitrary character at the start, in the middle or at the end"),
              dict(name="texts", harness="c07_strings.cc", params=dict(mode=1, max=3), thorough=dict(params=dict(max=4)), reach=["one", "many"], bound="all string texts of 1..3 (thorough 1..4) characters, each spelled as itself, by any escape or by \\\\uXXXX in either case")],
      assumptions=["U+0000 is reserved by the grammar (it ends a string) and excluded."])
check("C09", [dict(name="values", harness="c09_floats.cc", params=dict(mode=0), reach=["integral", "fraction", "exponent"], bound="every %.17G text shape of a finite double up to exponent +-307 with arbitrary digits; alone and among other values; written, read, copied and read again"),
              dict(name="texts", harness="c09_floats.cc", params=dict(mode=1, max=25), reach=["too long", "longest", "shorter"], bound="float texts with 1, 2, 9, 17, 21..25 integer digits, up to 20 fraction digits and up to 3 exponent digits, all signs, bare and with '^'")],
      assumptions=["sprintf(\"%.17G\") and strtod() are modelled as mutually inverse: printing a value read from a text yields that text, equal texts read as equal values; the native replays use the real functions."])
check("C10", [dict(name="ids", harness="c10_frames.cc", params=dict(mode=0, max=2), thorough=dict(params=dict(max=3)), reach=["ids"], bound="2 (thorough 3) ops with arbitrary full-length ids and references of any relation to each other (the second of any kind and variety)"),
              dict(name="runs", harness="c10_frames.cc", params=dict(mode=1, max=3, chunks=0, lite=1), thorough=dict(params=dict(lite=0)), reach=["runs"], bound="sequences of 3 ops: ids following the previous one, near or far; references to the previous op or another; values none, UUIDs, arbitrary letters (thorough: ASCII characters) or three-byte characters, strings, integers, pairs"),
              dict(name="chunks", harness="c10_frames.cc", params=dict(mode=1, max=3, chunks=1, lite=1), thorough=dict(params=dict(lite=0)), reach=["runs"], bound="3 such ops with any of them ending a chunk"),
              dict(name="spans", harness="c10_frames.cc", params=dict(mode=2, max=101, chars=3, lite=1), thorough=dict(params=dict(max=125, chars=4)), reach=["single", "span"], bound="runs of 1..101 (thorough 1..125) ops with consecutive ids from an arbitrary start: the same UUID, arbitrary letters, a changing last value, or (1..3, thorough 1..4) arbitrary one- and two-byte characters")])
CONTEXTS = "texts made of windows of arbitrary bytes in 20 fixed surroundings (after ids, references, in strings, escapes, spans, spreads, numbers, near the length limits, between ops, at the frame end)"
check("C11", [dict(name="start", harness="c11_bytes.cc", params=dict(ctx=0, k=5), thorough=dict(params=dict(k=6)), reach=["end", "error", "read"], bound="all texts of 0..5 (thorough 0..6) bytes"),
              dict(name="windows", harness="c11_bytes.cc", params=dict(ctx=1, to=99, k=3, k2=2), thorough=dict(params=dict(k=4, k2=3)), reach=["end", "error", "read", "long span"], bound=CONTEXTS + "; windows of 3 bytes or 2+2 (thorough 4, 3+3)")],
      assumptions=["At most 4 ops of one span are read out.", "Only the buffer of the text itself and heap, stack and global objects of the code are checked for bounds, each as its own object."])
check("C12", [dict(name="start", harness="c12_grammar.cc", params=dict(ctx=0, k=5), thorough=dict(params=dict(k=6)), reach=["empty frame", "frame", "error", "error after an op", "span"], bound="all texts of 0..5 (thorough 0..6) bytes"),
              dict(name="windows", harness="c12_grammar.cc", params=dict(ctx=1, to=99, k=3, k2=2), thorough=dict(params=dict(k=4, k2=3)), reach=["frame", "error", "error after an op", "span", "long span"], bound=CONTEXTS + "; windows of 3 bytes or 2+2 (thorough 4, 3+3)")],
      assumptions=["The oracle is a second parser, written from the grammar's definition (harness/grammar.hpp).", "Strings holding U+0000 (only as an overlong sequence or \\u0000) are excluded, the grammar reserves it.", "The first 4 ops of a span are compared, and its length."])
check("C13", [dict(name="terms", harness="c13_terms.cc", params=dict(mode=1, max=3), thorough=dict(params=dict(max=4)), reach=["terms"], bound="sequences of 3 (thorough 4) ops with every combination of terms, consecutive or distant ids, no value, a UUID, an arbitrary letter or an integer; written and copied twice"),
              dict(name="copies", harness="c13_terms.cc", params=dict(mode=0, ctx=0, to=99, k=3, k2=2), thorough=dict(params=dict(k=4)), reach=["copied", "malformed"], bound="copies of every well-formed frame among: " + CONTEXTS + "; windows of 3 bytes or 2+2 (thorough 4)"),
              dict(name="split", harness="c13_terms.cc", defs=["SPLIT"], params=dict(ctx=0, to=99, k=4, k2=2), thorough=dict(params=dict(k=5, k2=3)), reach=["one piece", "pieces"], bound="well-formed texts of several frames with a window of 4 or 2+2 (thorough 5, 3+3) arbitrary bytes in 6 surroundings")],
      assumptions=["Spans of more than 3 ops and U+0000 are left out here."])
check("C29", [dict(name="values", harness="c29_compare.cc", params=dict(min=1, ops=1, values=2), reach=["equal", "different"], bound="pairs of ops of 0..2 values each: integers, floats, UUIDs, strings of 0..2 characters, with free bits in every value"),
              dict(name="specs", harness="c29_compare.cc", params=dict(ops=2, values=0, specs=1, chunks=1), thorough=dict(params=dict(ops=3)), reach=["equal", "different"], bound="pairs of frames of 0..2 (thorough 3) ops without values, with free bits in ids and references, in one chunk or several"),
              dict(name="long", harness="c29_compare.cc", params=dict(long=1, lengths=7, many=40), thorough=dict(params=dict(lengths=8, many=120)), reach=["equal", "different"], bound="pairs of frames of up to 40 (thorough 120) ops, or of strings of 15..256 (thorough 15..1000) characters, differing at most in one character, one value, one id, one reference or the length"),
              dict(name="frames", harness="c29_compare.cc", params=dict(ops=2, values=1), reach=["equal", "different"], thorough_only=True, bound="pairs of frames of 0..2 ops of 0..1 values each"),
              dict(name="comments", harness="c29_compare.cc", params=dict(ops=2, values=0, comments=1, chunks=1), thorough=dict(params=dict(values=1)), reach=["equal", "different"], bound="pairs of frames of 0..2 ops (thorough: with values), each with a comment op anywhere or nowhere, in one chunk or several")])
check("C21", [dict(name="layouts", harness="c21_opstream.cc", sources=CORE + ["ron/hash.cc"], params=dict(mode=0, values=1, chars=3), thorough=dict(params=dict(values=2, chars=2)), reach=["layouts", "escaped"], bound="ops of 0..1 (thorough 0..2) values: integers, floats, UUIDs with free bits, strings of 0..3 (thorough 0..2) characters of every length; hashed in memory, from a frame, from inside a span or spread, from a copy, from an escaped spelling"),
              dict(name="long", harness="c21_opstream.cc", params=dict(mode=2, lengths=7, many=30), thorough=dict(params=dict(lengths=8, many=60)), reach=["equal", "different"], bound="pairs of ops with a string of 15..256 (thorough 15..1000) characters of one, two or four bytes, differing at most in an arbitrary character at the start, in the middle or at the end; or with 1..30 (thorough 60) integers, differing at most in one; in memory and from a frame"),
              dict(name="injective", harness="c21_opstream.cc", sources=CORE + ["ron/hash.cc"], params=dict(mode=1, values=1, chars=2), thorough=dict(params=dict(values=2)), reach=["equal", "different"], bound="pairs of ops with arbitrary ids, references and hashes and 0..1 (thorough 2) values each: any integers, floats, UUIDs, strings of 0..2 characters")],
      assumptions=["The byte stream handed to the hash function is compared; the hash function itself (Botan's SHA-512/256) is replaced by a stand-in."])
HASHED = CORE + ["ron/hash.cc"]
check("C14", [dict(name="subsets", harness="c14_ordered.cc", params=dict(mode=0, n=3, m=3), thorough=dict(params=dict(n=4, m=3)), reach=["empty", "one op", "many ops"], bound="3 inputs, any subsets of 3 (thorough 4) ops with arbitrary ordered ids and values"),
              dict(name="many", harness="c14_ordered.cc", params=dict(mode=1, n=3, m=4), thorough=dict(params=dict(n=4, m=4)), reach=["many ops"], bound="3 (thorough 4) ops over 4 inputs, every distribution, one op in two inputs"),
              dict(name="inputs", harness="c14_ordered.cc", params=dict(mode=4, n=6), thorough=dict(params=dict(n=7)), reach=["many ops"], bound="6 (thorough 7) inputs of one op each in any order of arbitrary ids, two of them possibly the same op"),
              dict(name="spans", harness="c14_ordered.cc", params=dict(mode=2, n=6, m=2), thorough=dict(params=dict(n=6, m=3)), reach=["empty", "one op", "many ops"], bound="2 (thorough 3) inputs, any subsets of 6 ops with consecutive ids, so of overlapping spans"),
              dict(name="meta", harness="c14_ordered.cc", params=dict(mode=3, n=2, m=2), thorough=dict(params=dict(n=3)), reach=["empty", "one op", "many ops"], bound="2 inputs, any subsets of 4 (thorough 6) metadata records, 2 (3) for each of 2 ids, with arbitrary ids and references")])
check("C15", [dict(name="trees", harness="c15_array.cc", params=dict(n=5, m=2), thorough=dict(params=dict(n=5, m=3)), sources=HASHED, reach=["unattached", "grouped", "root", "tree"], bound="all trees of 5 ops with arbitrary ordered ids, any part of them as each of 2 (thorough 3) inputs, as far as it is a tree or a patch to one op"),
              dict(name="many", harness="c15_array.cc", params=dict(n=3, m=4), thorough=dict(params=dict(n=4, m=4)), sources=HASHED, reach=["unattached", "grouped", "root", "tree"], bound="the same with 3 (thorough 4) ops and 4 inputs"),
              dict(name="single", harness="c15_array.cc", params=dict(n=5, single=1), thorough=dict(params=dict(n=6)), reach=["tree"], bound="all trees of 5 (thorough 6) ops, each an input of its own, in any order"),
              dict(name="spans", harness="c15_array.cc", params=dict(n=4, m=2, spans=1), thorough=dict(params=dict(n=5, m=3)), sources=HASHED, reach=["unattached", "grouped", "root", "tree"], bound="4 (thorough 5) ops with consecutive or close ids, so of spans, 2 (thorough 3) inputs")])
check("C16", [dict(name="entries", harness="c16_scan.cc", params=dict(n=5, values=2), thorough=dict(params=dict(n=6)), sources=HASHED, reach=["hidden", "all visible", "undone"], bound="all trees of 5 (thorough 6) ops, each an entry, a removal or an undo, with any ids"),
              dict(name="values", harness="c16_scan.cc", params=dict(n=4, values=5), thorough=dict(params=dict(n=5)), sources=HASHED, reach=["hidden", "all visible", "undone"], bound="all trees of 4 (thorough 5) ops with a letter, an integer, one of four words, a removal word and a letter, or no value"),
              dict(name="chains", harness="c16_scan.cc", params=dict(n=7, mode=2, values=1), thorough=dict(params=dict(n=8)), sources=HASHED, reach=["hidden", "all visible", "undone"], bound="7 (thorough 8) ops, each an entry, a removal or an undo after the previous op or after the root"),
              dict(name="broken", harness="c16_scan.cc", params=dict(n=4, values=1, mode=1), thorough=dict(params=dict(n=5)), sources=HASHED, reach=["broken", "no array"], bound="trees of 4 (thorough 5) ops with one reference changed to an op out of reach or to an unknown op, or another type")])
check("C18", [dict(name="types", harness="c18_lww.cc", params=dict(n=2, m=2, kinds=9), thorough=dict(params=dict(n=3)), sources=HASHED, reach=["written", "not written"], bound="2 (thorough 3) writes with arbitrary ordered ids to 2 keys: integers, strings, UUIDs, floats, several values, and ops that are no writes; any distribution over 2 inputs; 3 keys and 4 types read"),
              dict(name="writes", harness="c18_lww.cc", params=dict(n=3, m=2, kinds=2), thorough=dict(params=dict(n=4, kinds=3)), sources=HASHED, reach=["written", "not written"], bound="the same with 3 (thorough 4) writes of integers and strings (thorough: and UUIDs)")])
check("C17", [dict(name="values", harness="c17_max.cc", params=dict(n=3, m=2), thorough=dict(params=dict(n=3, m=3)), sources=HASHED, reach=["header", "no header"], bound="3 updates with arbitrary ordered ids: integers of both signs, floats out of 5, UUIDs or strings of 1 or 2 letters; any distribution over 2 (thorough 3) inputs, header in one of them or none; every order, grouping, repetition"),
              dict(name="wide", harness="c17_max.cc", params=dict(n=2, m=2, wide=1), thorough=dict(params=dict(m=3)), reach=["header", "no header"], bound="2 updates with integers out of 12 from the whole 64-bit range, floats out of 10, UUIDs differing in their last digits, strings of 4..23 letters with a common start"),
              dict(name="mixed", harness="c17_max.cc", params=dict(n=2, m=2, mixed=1), thorough=dict(params=dict(n=3, m=2)), sources=HASHED, reach=["header", "no header"], bound="the same with 2 (thorough 3) updates of different types or none, in one or both inputs")],
      assumptions=["Which of two values of different types is greater is left to the code, as long as every merge agrees."])
check("C19", [dict(name="merges", harness="c19_logs.cc", params=dict(mode=0, m=2, ops=2), thorough=dict(params=dict(m=3, far=1)), sources=HASHED, reach=["empty", "log", "record"], bound="2 (thorough 3) logs or records of 0..2 ops each, with consecutive or close (thorough: or distant) ids from an arbitrary start, any chunks and terms"),
              dict(name="inputs", harness="c19_logs.cc", params=dict(mode=0, m=6, ops=1, lite=1), thorough=dict(params=dict(m=8)), reach=["log", "record"], bound="6 (thorough 8) logs or records of 0..1 ops"),
              dict(name="long", harness="c19_logs.cc", params=dict(mode=0, m=2, ops=4, lite=1), thorough=dict(params=dict(m=3)), reach=["log", "record"], bound="2 (thorough 3) logs or records of 0..4 ops"),
              dict(name="types", harness="c19_logs.cc", params=dict(mode=1), sources=HASHED, reach=["merged", "refused"], bound="all 256 type numbers"),
              dict(name="names", harness="c19_logs.cc", params=dict(mode=2, m=3), thorough=dict(params=dict(m=4)), sources=HASHED, reach=["conflict", "no type", "type", "unknown type"], bound="3 (thorough 4) inputs referencing known types, any of 64 unknown names, or events")])
check("C25", [dict(name="graph", harness="c25_meta.cc", params=dict(mode=0, n=5), thorough=dict(params=dict(n=6)), sources=HASHED, reach=["root", "chain goes on", "chain starts"], bound="all graphs of 5 (thorough 6) ops by two authors with arbitrary ordered (possibly equal) times and arbitrary author ids, each op referencing any earlier one or starting an object"),
              dict(name="saved", harness="c25_meta.cc", params=dict(mode=1), sources=HASHED, reach=["saved"], bound="all 256-bit hashes, arbitrary ids and objects, 3 types"),
              dict(name="wrong", harness="c25_meta.cc", params=dict(mode=2), sources=HASHED, reach=["refused"], bound="records with one part missing or of the wrong kind")],
      assumptions=["Botan's SHA-512/256 is replaced by a stand-in; no statement depends on its value."])
check("C24", [dict(name="logs", harness="c24_chains.cc", params=dict(n=4), thorough=dict(params=dict(n=5)), sources=HASHED, reach=["array", "ordered", "chains", "one chain"], bound="all logs of 4 (thorough 5) ops of an array or an ordered type with arbitrary causally ordered ids, cut off at any op, an unknown one or none"),
              dict(name="long", harness="c24_chains.cc", params=dict(n=8, spans=2), thorough=dict(params=dict(n=10)), reach=["array", "ordered", "chains", "one chain"], bound="logs of 8 (thorough 10) ops with consecutive ids, each referencing the one before or the third one before, cut off anywhere"),
              dict(name="spans", harness="c24_chains.cc", params=dict(n=5, spans=1), thorough=dict(params=dict(n=6)), sources=HASHED, reach=["array", "ordered", "chains", "one chain"], bound="logs of 5 (thorough 6) ops with consecutive or distant ids, so of spans, cut off anywhere")])
STORE = HASHED + ["db/key.cc", "db/rocks_store.cc"]
MODEL = ["RocksDB is replaced by a model written from its documentation, behind its real headers (harness/rocks_model.hpp): it holds merge operands per key and column family and folds them with the code's merge operator in parts, or only on reading, at any time; batches are atomic; writes may fail."]
check("C26", [dict(name="folding", harness="c26_store.cc", sources=STORE, stubs="7rocksdb", params=dict(mode=0, n=2, writes=3), thorough=dict(params=dict(writes=4)), reach=["many"], bound="3 (thorough 4) writes to one key, each any of 2 ops of an object or an empty change, 8 types, arbitrary ordered ids and values; folded by the database in any parts at any time"),
              dict(name="wide", harness="c26_store.cc", sources=STORE, stubs="7rocksdb", params=dict(mode=0, n=3, writes=3, kinds=3), thorough_only=True, reach=["many"], bound="3 writes of any of 3 ops, two of them in order, or none"),
              dict(name="batches", harness="c26_store.cc", sources=STORE, stubs="7rocksdb", params=dict(mode=1, n=2, writes=2, keys=2, forms=3), thorough=dict(params=dict(writes=3, forms=8)), reach=["batch", "refused batch"], bound="2 (thorough 3) writes to 2 keys, single or in batches, any of them to the end key; 3 (8) types"),
              dict(name="failures", harness="c26_store.cc", sources=STORE, stubs="7rocksdb", params=dict(mode=2, n=2, writes=2, keys=2, forms=3), thorough=dict(params=dict(writes=3, forms=8)), reach=["failed write", "failed batch"], bound="the same with any of the database's writes failing")],
      assumptions=MODEL)
check("C27", [dict(name="iteration", harness="c27_store.cc", sources=STORE, stubs="7rocksdb", params=dict(mode=0, writes=3, free=1), thorough=dict(params=dict(forms=3, free=2)), reach=["all different", "same key", "previous", "next", "behind all"], bound="3 writes to keys with any order of ids and origins (thorough: 3 record types), iteration from the start or from any key, before or after it"),
              dict(name="branches", harness="c27_store.cc", sources=STORE, stubs="7rocksdb", params=dict(mode=1, writes=2, branches=2, free=1), thorough=dict(params=dict(writes=3)), reach=["dropped", "opened", "branches", "one branch"], bound="2 branches with arbitrary ids, 2 (thorough 3) writes or batches, drop, close in both orders, reopen, write again"),
              dict(name="three", harness="c27_store.cc", sources=STORE, stubs="7rocksdb", params=dict(mode=1, writes=2, branches=3, free=1), thorough=dict(params=dict(writes=3)), reach=["dropped", "branches"], bound="the same with 3 branches")],
      assumptions=MODEL)
NOT_APPLICABLE["C31"] = "db/replica.cc is not part of the build here (its dependencies are missing), so no bitcode of it can be made"
NOT_APPLICABLE["C32"] = "the differ needs the missing myers-diff submodule and is not part of the build here"
KEYED = HASHED + ["db/key.cc"]
check("C30", [dict(name="writes", harness="c30_store.cc", sources=KEYED, params=dict(mode=0, writes=2, reads=1, free=1), thorough=dict(params=dict(writes=3, forms=2)), reach=["batch", "refused batch", "no merge"], bound="2 (thorough 3) writes to any keys, single or in batches, of 3 record types (thorough 2; one without a merge), with reads in between"),
              dict(name="iteration", harness="c30_store.cc", sources=KEYED, params=dict(mode=0, writes=2, iterate=1, batches=0, free=1, seeks=1), thorough=dict(params=dict(seeks=2)), reach=["found", "previous", "next", "behind all"], bound="2 writes to any keys of 3 record types, then an iterator moved (thorough: twice) to any key, forth or back, and another one to the end"),
              dict(name="moves", harness="c30_store.cc", sources=KEYED, params=dict(mode=0, writes=3, iterate=1, batches=0, free=1, forms=1, seeks=2, one_origin=1), thorough=dict(params=dict(writes=3, one_origin=0)), reach=["found", "previous", "next", "behind all"], bound="3 writes to any keys of one type and one origin (thorough: any origins), an iterator moved twice"),
              dict(name="joined", harness="c30_store.cc", sources=KEYED, params=dict(mode=1, wa=1, wb=1, free=1), thorough=dict(params=dict(wa=2)), reach=["found", "previous", "next", "behind all", "no merge"], bound="1 (thorough 2) writes to the first member, 1 to both, any keys, of 3 record types; reads, moves and iteration"),
              dict(name="both", harness="c30_store.cc", sources=KEYED, params=dict(mode=1, wa=1, wb=2, free=1, forms=1, opened=1, one_origin=1), thorough=dict(params=dict(wa=2, opened=2)), reach=["found", "previous", "next", "behind all"], bound="1 (thorough 2) writes to the first member and 2, single or a batch, to both, of one type and origin")],
      assumptions=["cpp-btree is not installed; it is replaced by a stand-in with the same interface, which also reports the use of invalidated iterators (harness/shadow/btree_map.h).", "No writes and reads while an iterator is in use."])

def _limits(kind, bound):
    return dict(name="limits", harness="c_limits.cc", params=dict(kind=kind), reach=["fits", "too big"], bound=bound)
AROUND = " in every surrounding: after a reference, id, value of each type, op, line start, bare or quoted; before each term, value of each type, span"
CHECKS["C08"]["jobs"].append(_limits(0, "integer texts around the 64-bit limits" + AROUND))
CHECKS["C09"]["jobs"].append(_limits(1, "float texts of 23 to 25 characters" + AROUND))
CHECKS["C12"]["jobs"].append(_limits(2, "UUIDs of words of 1, 10 and 11 digits, as ids, references and values," + AROUND))
