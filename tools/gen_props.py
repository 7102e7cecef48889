#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator only because JSONL is awkward to edit by hand).
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,**kw):
    a={"files":files,"mechanism":mech}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","UUID text form is lossless, canonical and unique",
 "Every 128-bit UUID value (any kind, any 60-bit payloads, any variety) written as text and parsed back gives the same UUID, and parsing any accepted text and writing it again gives the canonical form, i.e. the same text up to dropped trailing zeros, a nil variety and a nil name origin. Two different UUIDs never share a text form.",
 ["inputs"],"all UUID values: 4+60+2+60 bits, symbolic in full",
 "Tests print and parse about a dozen literals; the mapping has 2^126 inputs and its edge cases (zero digits inside, nil origin, non-zero variety) are value dependent.",
 ["ron/uuid.cc","ron/uuid.hpp","ron/uuid-parser.cc","ragel/uuid-grammar.rl"],"Word/Uuid::write_base64, Uuid(Slice) and the Base64 tables")
prop("C02","UUID text acceptance is exact",
 "A stand-alone text is taken as a UUID exactly when it is an optional variety digit with slash, one Base64 word of 1 to 10 characters, and optionally a version sign followed by another such word; anything else yields the error UUID, never some ordinary UUID, an abort or an out-of-bounds read.",
 ["inputs"],"all byte strings up to the stated length",
 "Tests feed a handful of good strings and almost no bad ones; acceptance is a property of the whole byte-string space.",
 ["ron/uuid-parser.cc","ron/uuid.hpp","ragel/uuid-parser.rl","ragel/uuid-grammar.rl"],"Uuid::Uuid(Slice), Word(flags,Slice)")
prop("C03","UUID ordering, equality and event/derived views are consistent",
 "UUID comparison is a strict total order by value first and origin second, all six comparison operators agree with it, equal UUIDs have equal hashes, and increment/decrement are inverse. Turning a UUID into its event or derived form changes only the kind, keeps the payloads and is idempotent.",
 ["inputs"],"all pairs and triples of 128-bit UUIDs",
 "Order laws are universally quantified over pairs/triples of 128-bit values; tests compare a few fixed pairs.",
 ["ron/uuid.hpp"],"Uuid/Word operators, Time/Derived/event/derived, std::hash")
prop("C04","Hybrid timestamps are strictly ordered like calendar time",
 "Timestamps produced for two calendar instants between 2010 and the end of the representable range compare exactly as the instants do (at 100 ns resolution), fit the 60-bit payload, and carry no flag bits.",
 ["inputs"],"all pairs of valid broken-down UTC times with nanoseconds",
 "The existing tests check one or two dates; monotonicity across every field carry needs all pairs.",
 ["ron/uuid.cc"],"Uuid::HybridTime, Uuid::Now")
prop("C05","UTF-8 encoding and decoding of code points is lossless",
 "Every Unicode code point encoded to UTF-8 gives the standard byte sequence and decodes back to itself consuming exactly those bytes, and a byte string as a whole is decoded to code points only if it is structurally valid UTF-8 (lead bytes followed by the right number of continuation bytes); otherwise an error is returned. Decoding one code point of a truncated sequence is an error, and decoding never reads past the end of the string.",
 ["inputs"],"all code points 0..0x10FFFF; all byte strings up to the stated length",
 "1.1 million code points and unbounded malformed strings; tests try a few characters.",
 ["ron/encdec.hpp","ron/utf8-parser.cc","ragel/utf8-grammar.rl","ragel/utf8-parser.rl"],"utf8append, utf8read, ParseUtf8")
prop("C06","UTF-16 encoding and decoding of code points is lossless",
 "Every Unicode scalar value appended to a UTF-16 string is one code unit below U+10000 and the standard surrogate pair above, and reading it back yields the same value and consumes exactly those units.",
 ["inputs"],"all Unicode scalar values",
 "Boundary values around the surrogate range and U+10000 are not sampled by the tests.",
 ["ron/encdec.hpp"],"utf16append, utf16read")
prop("C07","String values survive writing and reading",
 "Any string value of Unicode characters put in an op and written to a frame is read back as the identical sequence of code points, whatever quotes, backslashes, control or multibyte characters it contains; copying the op into another frame, or amending it, preserves it too. The recorded character count is the number of code points. (U+0000 is reserved by the format.)",
 ["inputs"],"all strings of up to the stated number of code points, every code point U+0001..U+10FFFF outside surrogates",
 "Escaping is per-character and context dependent; tests use a few escaped literals.",
 ["ron/text.hpp","ron/text-builder.cc","ron/cp-parser.cc","ron/text-parser.cc","ron/encdec.hpp","ragel/text-grammar.rl","ragel/cp-parser.rl"],"utf8esc_append, Builder::WriteValues, Cursor::Next, Cursor::NextCodepoint, Op::WriteAtoms")
prop("C08","Integer values survive writing and reading",
 "Every 64-bit signed integer written as a value is read back as the same integer, and every decimal integer text that fits 64 bits is accepted with its exact value while texts outside that range are reported as an error and never silently wrapped.",
 ["inputs"],"all int64 values; all signed decimal strings up to the stated number of digits",
 "Tests use small integers; the range check works on digit strings near 2^63.",
 ["ron/text.cc","ron/text-builder.cc","ron/text-parser.cc","ragel/text-grammar.rl"],"Cursor::ParseInteger, int_too_big, Builder::WriteInt")
prop("C09","Float values survive writing and reading",
 "A finite double written as a value is read back as a float (never as an integer or a UUID) equal to the original, alone or among other values. Float texts that do not fit the supported length are reported as an error.",
 ["inputs"],"all texts the 17-digit printf conversion can produce; all float literals up to the stated length",
 "Whether a float keeps its type depends on the digits printed (integral values print without a point); tests use 3.14-like values.",
 ["ron/text.cc","ron/text-builder.cc","ron/text-parser.cc","ragel/text-grammar.rl"],"Builder::WriteFloat, Cursor::ParseFloat, FLOAT grammar")
prop("C10","Frames read back op for op what was written",
 "Any sequence of ops (ids, references and values of every type) appended to a frame builder is read back as the same ops in the same order, regardless of how consecutive ids, implied references and repeated values were compressed into spans and spreads. Re-writing a parsed frame preserves its content.",
 ["inputs","histories"],"all op sequences up to the stated length with symbolic ids, references and values, relations between neighbours unconstrained",
 "Compression depends on equality and succession between neighbouring ops; tests hold a few hand-written frames with a few of those combinations.",
 ["ron/text.hpp","ron/text-builder.cc","ron/text-parser.cc"],"Builder::AppendOp/is_same_span/ExtendSpan/WriteSpec, Cursor::Next span expansion")
prop("C11","Parsing arbitrary bytes is memory safe and terminates",
 "Reading a frame from arbitrary bytes never reads or writes outside the buffer, never aborts the process, and always ends after a number of ops the text spells out; this includes reading out every value of every op found.",
 ["inputs"],"all byte strings up to the stated length over the full 0..255 alphabet (deeper for the frame alphabet)",
 "Robustness against hostile network input quantifies over all byte strings; tests only parse well-formed frames and a few bad ones.",
 ["ron/text-parser.cc","ron/cp-parser.cc","ron/text.cc","ron/text.hpp","ragel/text-grammar.rl"],"Cursor::Next, NextCodepoint, ParseInteger, ParseFloat")
prop("C12","Malformed frames are reported, well-formed ones accepted",
 "A reader gets the end-of-frame result exactly when the whole text is a well-formed frame; any text outside the grammar, or with an over-long UUID word, integer or float, yields an error status after the ops preceding the defect and is never silently cut short. The ops delivered are those the grammar assigns to the text. (Texts with U+0000 inside a string are left open: the format reserves it.)",
 ["inputs"],"all byte strings up to the stated length; all over-limit words, integers and floats around each limit",
 "Accept/reject is a language equality; tests probe individual points of it.",
 ["ron/text-parser.cc","ragel/text-grammar.rl","ragel/text-parser.rl"],"generated state machine and its limit actions")
prop("C13","Op terms and frame boundaries are preserved",
 "The term of each op (raw, reduced, header, query) is reported as spelled; copying a well-formed frame keeps every chunk boundary and its term (a last chunk left open by ',' gets closed); and splitting a text at frame terminators yields pieces which, read one after another, give exactly the original ops.",
 ["inputs"],"all sequences of terms and separators up to the stated number of ops and bytes",
 "Tests check one or two fixed chunkings.",
 ["ron/text.cc","ron/text.hpp","ron/frames.hpp","ron/text-parser.cc"],"op_term, Builder::EndChunk/WriteTerm, AppendAll/AppendFrame, TextFrame::Split")
prop("C14","Ordered merges are a sorted duplicate-free union and converge",
 "Merging any number of ordered frames of a last-write-wins object, a yarn, a matrix or metadata gives every distinct op, as told by its id, exactly once in order (metadata: of the records of one id, the one with the newest reference represents it), so the result does not depend on input order, grouping or repetition of the inputs. Values travel with their ops unchanged.",
 ["inputs","histories"],"all sets of up to the stated number of frames and ops with symbolic ids (all orders, overlaps, duplicates)",
 "Convergence is quantified over all interleavings and overlaps; tests merge two or three fixed frames.",
 ["rdt/merge.hpp","rdt/lww.hpp","rdt/mx.hpp","rdt/meta.hpp","rdt/rdt.hpp"],"MergeCursor heap, LastWriteWinsRDT/MatrixRDT/MetaRDT::Merge")
prop("C15","Array merges are causal trees that converge",
 "Merging a causal-tree array with any patches gives every op once, each after its parent, siblings' subtrees newest first, identical for every order of the inputs and for repeated inputs, for any number of inputs. If some patch cannot be attached the merge reports a causality error.",
 ["inputs","histories"],"all trees and partitions into patches up to the stated number of ops and inputs",
 "Convergence over all concurrent edit histories; tests use a few three-op examples.",
 ["rdt/rga.hpp","rdt/merge.hpp","rdt/rdt.hpp"],"RGArrayRDT::Merge, MergeCursor")
prop("C16","Array visibility follows removals and undos",
 "Scanning a well-formed array frame marks as hidden exactly the root, every remove/undo op and whatever they attach to beyond an ordinary entry, and every element with an effective (not undone) removal; all other elements are visible, and there is one mark per op. A frame that is not a causal tree is reported as an error, not scanned.",
 ["inputs","histories"],"all causal trees up to the stated number of ops with symbolic parents and op kinds",
 "Remove/undo nesting and tree shapes multiply quickly; tests have a few fixed frames.",
 ["rdt/rga.hpp","ron/inc_stack.hpp"],"ScanRGA")
prop("C17","Max register merge keeps the greatest value",
 "Merging max-register states and updates yields a header when any input has one and exactly one op carrying the greatest value present in any input (values of different types being ordered by type, consistently), whatever the input order, grouping or repetition.",
 ["inputs","histories"],"all sets of up to the stated number of inputs and ops with symbolic values",
 "Idempotence/commutativity over all value orders; tests merge one pair.",
 ["rdt/max.hpp","rdt/rdt.hpp"],"MaxRDT::Merge")
prop("C18","Last write wins: object view returns the newest value per key",
 "An object view over a merged last-write-wins frame returns for each key the value of the latest op that wrote that key, with the right type, and nothing for keys never written.",
 ["inputs","histories"],"all frames up to the stated number of ops with symbolic keys and values",
 "The answer depends on every order of writes per key.",
 ["rdt/lww_obj.hpp","rdt/lww.hpp"],"LWWObject::Update/uuid/atom")
prop("C19","Logs and plain records concatenate or replace exactly",
 "Merging logs yields the ops of all inputs in input order with chunk boundaries kept; merging plain records yields the last input. Registered data types that have no merge are refused, inputs naming no registered type are treated as plain records, and the data type of a merge is the one its inputs name, with conflicting types refused.",
 ["inputs","histories"],"all inputs up to the stated number of frames and ops, symbolic ids/terms",
 "Dispatch covers 20 data types and all input multiplicities; tests try a few.",
 ["rdt/log.hpp","rdt/rdt.hpp"],"OpLog::Merge, MasterRDT::Merge, GetForm")
prop("C20","Store keys encode object and type losslessly and keep order",
 "A store key built from an event id and a data type gives back exactly that id and type, distinct (id,type) pairs give distinct keys, and the byte-wise order of encoded keys is by type, then origin, then time value. Encoding to bytes and back is lossless.",
 ["inputs"],"all pairs of (origin, value, type): full 60+60+8 bits each",
 "2^128 keys; the packing shifts bits across the word boundary, which samples with zero low bits do not exercise.",
 ["db/key.hpp","db/key.cc"],"Key")
prop("C21","Op hashes depend on op content only and on all of it",
 "The byte stream hashed for an op is a function of its id, reference, predecessor hashes and values only - not of text layout, compression or escaping - and different contents give different streams.",
 ["inputs"],"all pairs of ops within the stated bounds, in both text and in-memory form",
 "Merkle compatibility is over all encodings of the same op; tests hash a few literals.",
 ["ron/hash.hpp","ron/frames.hpp"],"WriteOpHashable, Stream")
prop("C22","Hash text forms round-trip and partial hashes match by prefix",
 "A full hash written in hex or Base64 and parsed back is the same hash; a shortened text gives a hash with as many known bits as it spells, and two hashes match exactly when their common known prefix agrees. A text with a wrong character defines no bits.",
 ["inputs"],"all 256-bit hashes (symbolic bytes), all text lengths",
 "Existing tests for this already fail and use single literals.",
 ["ron/hash.hpp","ron/encdec.hpp"],"SHA2::hex/base64/ParseHex/ParseBase64/matches, encode/decode")
prop("C23","Compressed sequences behave like plain sequences",
 "The run-compressed stack used for ids and positions is observationally a plain stack and sequence: size, front, back, push, pop, iteration, advancing an iterator by any count and skipping runs agree with an ordinary vector for every sequence of operations.",
 ["inputs","histories"],"all operation sequences up to the stated length with symbolic values",
 "Run merging depends on neighbouring values and popping partial runs; tests use one scenario.",
 ["ron/inc_stack.hpp"],"inc_stack")
prop("C24","A log splits into causal chains and folds into the same state",
 "Splitting an object log gives its maximal causal chains in order, together exactly the ops of the log up to and including the cut-off op; folding the chains gives the state that merging the individual ops would give.",
 ["inputs","histories"],"all logs up to the stated number of ops, symbolic chain breaks, every cut-off",
 "Chain breaks, spans and cut-offs combine; tests use a fixed log.",
 ["rdt/rdt.hpp","ron/frames.hpp"],"SplitLogIntoChains, ObjectLogIntoState")
prop("C25","Op metadata follows the op graph",
 "Metadata of a root op names the op itself as object and its reference as type; each next op inherits object and type from the op it references, records its predecessor in its author's sequence, and stays in the current chain exactly when it references that predecessor. Saving and loading metadata keeps the op, object, type and hash.",
 ["inputs","histories"],"all op histories up to the stated length with symbolic ids and references",
 "Chain and inheritance rules depend on id relations over histories.",
 ["ron/opmeta.hpp","ron/hash.hpp"],"OpMeta")
prop("C26","Store reads equal the merge of everything written",
 "Reading a key from the persistent store returns the merge, by that key's data type, of all changes ever written to it - whatever their number, whether written singly or in batches, and whenever the database folds pending changes - and reading an unwritten key returns an empty frame. A batch is applied entirely or not at all.",
 ["histories","fault_sequences"],"all write/read/fold histories up to the stated length over a model of the key-value engine with nondeterministic folding and failures",
 "Folding schedules are chosen by the database engine, not by tests.",
 ["db/rocks_store.cc","db/rocks_store.hpp","rdt/rdt.hpp"],"RocksDBStore::Write/Read, RDTMerge")
prop("C27","Store iteration, branches and lifecycle",
 "Iteration visits the keys of one branch in ascending key order exactly once with their merged values and ends with the end key; branches never see each other's data, reopening finds each branch under its own id with its data, and using a closed store is reported as an error. The reserved end key holds no data.",
 ["histories","fault_sequences"],"all histories up to the stated length over the key-value engine model",
 "Order and isolation are quantified over key sets and histories.",
 ["db/rocks_store.cc","db/key.hpp"],"RocksDBStore::Iterator, Create, Open, OpenAll, Close")
prop("C28","Data type names and numbers map one to one",
 "Every registered data type number maps to a type name UUID that maps back to the same number; unregistered numbers map to the error UUID and unregistered names to the zero type; the persistent numbers stay as documented.",
 ["inputs"],"all 256 type numbers and all 128-bit UUIDs",
 "Only the types in use are touched by tests.",
 ["ron/form.hpp","ron/forms.txt"],"uuid2form, form2uuid, UUID2FORM")
prop("C29","Frame comparison is exact",
 "Comparing two frames reports equality exactly when both hold the same ops (ids, references, value types and values) in the same order, ignoring comment ops; otherwise it reports a difference, in either argument order.",
 ["inputs"],"all pairs of frames up to the stated number of ops with symbolic content",
 "All other checks and users rely on comparison; tests only compare a few pairs.",
 ["ron/frames.hpp"],"CompareOps, CompareWithCursors, CompareFrames")
prop("C30","In-memory and joined stores behave like the persistent one",
 "The in-memory store reads back the merge of all changes written to a key, iterates keys in ascending order from any position it is moved to, and applies a batch entirely or, if it addresses the reserved end key, not at all; a joined store shows the merge of its two members key by key, in reads and in iteration, and sends all writes, single or batched, to the same member. Changes that do not merge are reported and not lost.",
 ["histories"],"all write/read/iterate histories up to the stated length",
 "Not compiled into the test build at all (third-party container missing).",
 ["db/mem_store.hpp","db/joined_store.hpp"],"InMemoryStore, JoinedStore")
prop("C31","A replica applies a received frame all or nothing",
 "Receiving a frame of new ops, chains and checks either records all of them with consistent logs, states and metadata, or leaves the replica unchanged and reports the error; duplicates are harmless and causality or hash violations are refused.",
 ["histories","fault_sequences","crash_points"],"all frames and histories",
 "Needs all histories of ops and faults; the replica is not even part of the default test build.",
 ["db/replica.cc","db/replica.hpp"],"Replica::Receive and friends")
prop("C32","Text and CSV projections of an array match its visible content",
 "Mapping an array object to plain text yields its visible characters in order, and mapping an edited text back produces ops whose merge yields exactly the edited text.",
 ["inputs","histories"],"all arrays and edits",
 "Edits and tombstones combine freely.",
 ["db/map","rdt/rga.hpp"],"TxtMapper and other maps")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
