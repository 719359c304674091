#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements can be edited readably)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

SER="steit/src/ser.rs"; DE="steit/src/de/de.rs"; RD="steit/src/de/reader.rs"; ST="steit/src/state.rs"
RT="steit/src/rt/runtime.rs"; RL="steit/src/rt/logger.rs"; LI="steit/src/types/list.rs"; MA="steit/src/types/map/map.rs"
MB="steit/src/types/maybe.rs"; EN="steit/src/log/entry.rs"; DS="steit-derive/src/derive/struct.rs"; DEN="steit-derive/src/derive/enum.rs"
DF="steit-derive/src/derive/field.rs"; IMP="steit/src/impls"; CS="steit/src/gen/generators/csharp.rs"; WF="steit/src/wire_fmt.rs"

p("C01","A snapshot decodes back to an equal value",
 "Encoding any value of any supported or derived type and decoding the bytes into a fresh value yields a value equal to the original in every field, and encoding that value again yields the same bytes (up to the order of hash-map entries). This holds for every combination of nested structs, enums, lists, maps, options, boxes, arrays, tuples, hash maps, strings, byte blobs and integers of any magnitude, whether the value was built directly or reached by a history of mutations.",
 ["inputs","programs","histories"],"every derivable schema, every value of it (extreme integers, empty and very long collections, deep nesting, high field tags), every mutation history leading to it",
 "the unit tests round-trip a few dozen constants of single types; the composition of derive output, size caches and container codecs over all schemas and values is not sampled at all",
 [SER,DE,DS,DEN,DF,IMP,"steit/src/types"],[("derived serializers and mergers",DS+", "+DEN+", "+DF),("container codecs",IMP+", "+LI+", "+MA)],
 ["bytes returned by to_bytes / steit_serialize","value returned by deserialize"])

p("C02","Replaying the change log reproduces the state",
 "For every history of mutations made through the public mutators, a replica that starts from the same initial snapshot and replays the recorded change log equals the original at every point of the history, not only at the end. The same holds for a replica that starts from a snapshot taken anywhere in the middle and replays only what was recorded after it, however the log is cut into pieces on entry boundaries. Fields marked as not part of the synchronised state are the only exception.",
 ["histories","programs"],"every state schema (including roots that are enums, lists, maps, boxes and optional wrappers), every finite sequence of setters, variant switches, pushes, pops, swap-removals, inserts, replacements and removals at any depth, every snapshot point",
 "tests check single log entries of hand-written lists and maps; no test replays a log of more than two entries, none uses enums inside lists or lists inside maps",
 [ST,EN,RT,LI,MA,MB,DS,DEN,DF],[("log entry per mutation",DF+" setter, "+LI+", "+MA),("replay dispatch",ST+" replay; handle in "+DS+", "+DEN+", "+LI+", "+MA)],
 ["bytes of the recording logger","state after replay"],[("runtime path","address of each nested state","steit/src/rt/node.rs")])

p("C03","Declared sizes always match the bytes written",
 "For every value, at every moment of every history of mutations and encodings, the size announced beforehand equals the number of bytes then written, for the value alone, for the value as a nested field or element, and for every log entry. Announcing, caching or repeating sizes never changes the bytes, and a value that announces nothing to write as an optional field writes nothing.",
 ["histories","inputs","programs"],"every schema with and without size caching (per type or per variant), every value crossing varint length boundaries, every interleaving of mutation, size query and encoding",
 "tests compare sizes of about thirty constants that were never mutated after being measured; stale caches need mutate-measure-mutate-encode histories at depth",
 [SER,"steit/src/rt/size_cache.rs",IMP,DS,DEN,"steit/src/impls/varint.rs"],[("two-phase size caching",SER),("varint sizing","steit/src/impls/varint.rs size_32/size_64")],
 ["compute_size, cache_size, cached_size, compute_size_nested versus bytes written"])

p("C04","The encoding follows the wire format exactly",
 "The bytes produced for every value and every log entry are exactly those of the documented wire format, as computed by an independent encoder: little-endian base-128 varints, zigzag for signed integers, field tags carrying number and wire type, length-prefixed nested values, default fields omitted, elements without tags, entries framed by their length. Bytes produced by such an independent encoder for any value are decoded to that value.",
 ["inputs","programs"],"every schema, field number up to 2^29-1, variant tag, value and log entry",
 "tests pin a few dozen byte strings; a change that alters both writer and reader consistently keeps round trips but breaks deployed peers and stored snapshots",
 [WF,SER,IMP,DS,DEN,EN,LI,MA],[("tag layout",WF),("field omission",SER+" is_omissible"),("entry layout",EN)],["encoded bytes"])

p("C05","Hostile bytes never panic, hang or exhaust memory",
 "Decoding, merging or replaying arbitrary bytes, and reading log entries or fields from them, always returns promptly with either success or an error: it never panics, never loops, and never allocates memory out of proportion to the input received. After either outcome the value is still fully usable: it can be encoded, compared, mutated, iterated and decoded into again.",
 ["inputs"],"every byte string (random, truncated, mutated and grammar-aware corruptions of valid encodings, huge declared lengths, overlong varints, invalid keys and variants), every non-recursive schema, recursive schemas up to a bounded depth",
 "tests feed only valid bytes plus five hand-made errors; the decoder is the trust boundary of the client-server protocol",
 [RD,DE,IMP,"steit/src/impls/varint.rs",ST,LI,MA,DS,DEN],[("bounded nested readers",RD+" nested"),("skipping of unknown fields",RD+" skip_field"),("key validation","steit/src/types/map/key.rs")],
 ["panic hook","counting allocator","thread CPU time"])

p("C06","Unknown or foreign fields never disturb the known ones",
 "When the input contains fields the schema does not know, or known fields encoded with another wire type, those are skipped whole and every other field decodes exactly as if they were absent, wherever they appear and however large they are; known fields may come in any order. Fields absent from the input keep the value they had, which is the default for a fresh value. Hence peers whose schemas differ by added or removed fields read each other's data and keep all shared fields.",
 ["inputs","programs"],"every schema, every position and nesting depth of injected fields, every field number, every varint up to ten bytes, every sized payload, every permutation of known fields, every pair of schemas related by field addition, removal or wire type change",
 "the tests never decode an unknown field; schema evolution needs pairs of schemas times values times field orders",
 [RD,DE,DS,DEN,MA],[("skip of unknown fields",RD+" skip_field"),("wire type check",DE+" merge_nested")],["decoded value"])

p("C07","Merging encodings composes and overwrites as documented",
 "Merging one encoding after another into a value gives the same result as merging their concatenation wherever concatenation is meaningful, and equals the documented per-kind rule: scalars, strings and tuples are replaced, nested structs and present options merge field by field, vectors, lists and byte blobs append, array prefixes are overwritten, keyed state collections merge into existing entries in place and append new ones, hash maps replace the values of existing keys, an enum keeps its fields when the variant is the same and restarts from that variant's defaults when it differs. Merging an empty encoding into a struct, list or map changes nothing.",
 ["inputs","histories"],"every schema, every pair or longer sequence of encodings, merged one by one, concatenated, or split at field boundaries",
 "tests merge one short encoding into about twenty constants of flat types",
 [DE,IMP,LI,MA,DS,DEN],[("merge implementations",IMP+", "+DS+" merger, "+DEN+" impl_deserialize")],["value after merge"])

p("C08","Every nested state always knows its true address",
 "At every moment of every history each state reachable inside a root carries exactly the path that leads to it from the root, whichever way it got there: construction, default, decoding, merging, replay, setters, variant switches, push, insert, replacement, swap-removal, construction from iterators, optional wrappers, boxing or attachment of the whole tree to another root. Consequently a change made to it is recorded under that path, and only the top of the tree regards itself as root.",
 ["histories","programs"],"every state schema, every history of mutators, merges, decodes, replays and re-attachments",
 "tests look at paths of freshly pushed points only; wrong addresses need moves (swap-remove, insert of prebuilt values, enum items) followed by a later change",
 [RT,"steit/src/rt/node.rs",LI,MA,MB,"steit/src/impls/box.rs",DS,DEN,DF],[("address assignment","set_runtime / with_runtime in "+LI+", "+MA+", "+DS+", "+DEN)],
 ["runtime().path() of every reachable state","path of the entry a probe mutation records"],[("path","position from the root","steit/src/rt/node.rs")])

p("C09","Each change is recorded exactly once and nothing else is",
 "Each effective mutation of a state appends exactly the entries that describe it, in order, to the logger shared by its tree. Nothing is recorded by reading, comparing, hashing, cloning, encoding, decoding, merging, replaying, by removals that find nothing, by building values inside construction callbacks, by changes to values already removed from the tree, or by fields excluded from synchronisation. Changes made elsewhere on the same logger while a construction callback runs are recorded normally.",
 ["histories","programs"],"every state schema and every history mixing mutators, no-op calls, reads, construction callbacks (nested to any depth), and later use of removed values",
 "tests assert the log after one to three calls; silent duplicates, losses or spurious entries only show over mixed histories with an independent account of what should have been recorded",
 [RT,RL,LI,MA,DF,DEN],[("logging before mutation",LI+", "+MA+", "+DF+" setter"),("construction callbacks",DF+" setter_with, "+LI+" push_with, "+MA+" insert_with")],
 ["entries delivered to the logger"])

p("C10","Failed recording or a panicking callback changes nothing",
 "If the logger refuses an entry, or a construction callback panics, the mutation does not take effect beyond what was recorded: replaying what the logger accepted still reproduces the state, and all addresses stay correct. Afterwards logging continues to work: later mutations are recorded and replayed normally.",
 ["fault_sequences","histories"],"every mutator at every depth, every index k of the refused entry, every history before and after, panics in construction callbacks at any nesting",
 "no test ever uses a failing logger or a panicking callback",
 [RT,RL,LI,MA,DF],[("log before mutate",LI+", "+MA+", "+DF)],["state, accepted entries, later entries"])

p("C11","Concurrent use of one logger or one value loses nothing",
 "Parts of one tree, or several trees, that share a logger may be mutated from different threads: every entry arrives whole and exactly once, each thread's entries keep their order, compound removals stay adjacent, and replaying the log reproduces the final state. Encoding, measuring, comparing or hashing the same value from several threads at once gives every thread the sequential result, without data races or deadlock.",
 ["schedules"],"every interleaving of 2 to 8 threads over disjoint parts of a tree or a shared read-only value, including construction callbacks and logger pauses inside other threads",
 "the tests are single-threaded",
 [RT,RL,"steit/src/rt/size_cache.rs",LI,MA,DF],[("logger mutex",RT),("atomic size cache","steit/src/rt/size_cache.rs")],["log order, per-thread order, final replay, sanitizer reports"])

p("C12","Log entries that do not fit are rejected without effect",
 "Replaying an entry whose path leads nowhere, whose kind does not suit its target, that pops an empty list, removes or descends into an absent key, names a key or variant the type does not allow, or carries a malformed value, returns an error and leaves the state exactly as it was before that entry, while entries before it stay applied. Replay is accepted only on a root; on anything else it is an error without effect.",
 ["inputs","histories"],"every state schema and reachable state, every entry kind crossed with every kind of wrong path, key or value, at every position in a log",
 "two tests cover an out-of-bounds index and a missing key on flat collections",
 [ST,DS,DEN,LI,MA,"steit/src/impls/macros.rs"],[("replay dispatch","handle in "+DS+", "+DEN+", "+LI+", "+MA),("root check",ST+" replay")],["result and state after each entry"])

p("C13","Invalid schemas are rejected at compile time, valid ones compile",
 "A schema with duplicate or reserved tags among fields or variants, missing or out-of-range tags, no default variant, zero variants, an unknown, malformed or duplicated attribute, or an unsupported item or field type never compiles, and the error names the problem. Every schema that respects the rules compiles, and its constructors, setters, default and encodings refer to the fields and variants as declared.",
 ["programs"],"every struct and enum definition: named, tuple, unit, generic, nested; every attribute combination; rules violated singly at every position",
 "the test crate contains only valid schemas; no test checks that anything is refused",
 ["steit-derive/src/attr.rs","steit-derive/src/ctx.rs","steit-derive/src/derive/tag.rs",DS,DEN,DF,"steit-derive/src/derive/variant.rs","steit-derive/src/derive/derive.rs"],
 [("error accumulation","steit-derive/src/ctx.rs"),("tag validation","steit-derive/src/derive/tag.rs, parse_fields, parse_variants")],["compiler verdict and diagnostics"])

p("C14","Equality and hashing see the data and nothing but the data",
 "Two values are equal exactly when all their compared fields are equal (and for enums the variant): where they live in a tree, which logger they use, what sizes they have cached, and fields excluded from comparison never matter, and any difference in a compared field always does. Equal values hash equally, the hash ignores fields excluded from hashing and all bookkeeping, and equality is reflexive, symmetric and transitive, also for keyed collections filled in another order and optional wrappers compared with options.",
 ["inputs","programs","histories"],"every schema deriving equality or hashing, every pair of values differing in zero or one place at any depth, every pair of histories leading to the same data",
 "tests compare a handful of points; none checks hashes or exclusion attributes",
 [DS,DEN,DF,"steit/src/rt/size_cache.rs",RT,MA,LI,MB],[("derived comparison and hashing",DS+", "+DEN+", "+DF),("bookkeeping is neutral","PartialEq/Hash of Runtime and SizeCache")],["results of == and hash"])

p("C15","A generated client stays in sync with the server",
 "A client made of the classes generated for a schema and the shipped client library, which reads a snapshot and then replays the log the server recorded, holds after every entry the same values as the server in every synchronised field, list, map, variant and optional wrapper. It keeps doing so when the server's schema has extra fields the client does not know.",
 ["histories","programs"],"every schema whose generated classes the client library supports, every snapshot, every log of mutations at any depth",
 "no test executes the generated code or the client library at all",
 [CS,"steit-csharp/src"],[("generated classes",CS),("client codec and replayer","steit-csharp/src/Codec, steit-csharp/src/State/StateReplayer.cs, steit-csharp/src/Collections")],["client state under an interpreter of the generated and shipped sources"])

p("C16","Generated clients are complete, deterministic and as configured",
 "Generating client code for a schema writes exactly one file for each message reachable from it, however indirectly, except the skipped ones, returns exactly those names, and writes the same bytes every time. Each class declares every field and variant with its tag, type and name, honours renames, namespace and imports, and refers only to types that are generated, shipped or parameters.",
 ["programs","configurations"],"every schema with metadata (generic, recursive, nested in any container), every generator setting",
 "one test regenerates fourteen files without looking at them",
 ["steit/src/gen",CS,"steit/src/meta",DS,DEN,DF],[("message discovery","steit/src/gen/gen_util.rs"),("class emission",CS)],["files written and names returned"])

p("C17","Every mutator does exactly what it names",
 "Each setter, variant setter, push, pop, swap-removal, insert and removal changes exactly the named field, variant or element, returns what it displaced or the index it used, and leaves everything else untouched; lookups, lengths, membership tests, indexing and iteration agree with a plain sequential model, lists keeping order with the last element filling a swap-removed slot and keyed collections keeping insertion order with the last entry filling a removed slot. Setting a field of another variant first resets to that variant's defaults, and constructors and defaults yield exactly the default data.",
 ["histories","programs"],"every state schema, every history of mutators and lookups at any depth, empty and boundary cases included",
 "tests perform at most five operations on flat collections and never check that neighbours stay untouched",
 [LI,MA,"steit/src/types/map/iter.rs",MB,DF,DEN,DS],[("collection operations",LI+", "+MA),("derived setters",DF)],["return values and full state after each operation"])

p("C18","A torn log or snapshot is noticed and never half-applied",
 "If a recorded log is cut at any byte, replaying it applies exactly the complete entries before the cut and reports an error unless the cut is on an entry boundary. If the encoding of a value is cut at any byte, decoding reports an error unless the cut falls between two top-level fields or elements, in which case it yields a value holding exactly those before the cut; a field or element that is only partly present is never accepted.",
 ["crash_points","inputs"],"every log and snapshot of every schema, cut at every byte offset",
 "no test truncates anything",
 [RD,DE,ST,EN],[("framing of entries and nested values",RD+" nested, "+DE+" merge_nested")],["result and state per cut point"])

p("C19","Decoding and encoding do not depend on how I/O is delivered",
 "Reading from a source that delivers bytes in any chunk sizes, or is interrupted by retryable signals, gives exactly the result of reading from memory, and writing to a sink that accepts any number of bytes at a time gives the same bytes. A genuine read or write failure at any byte is reported as an error, never ignored, never a panic, and what was written until then is a prefix of the right bytes; decoding a value embedded in a longer stream consumes exactly its own bytes.",
 ["fault_sequences","inputs"],"every value and log, every chunking, interruption or failure at every byte offset",
 "all tests read from complete in-memory slices and write to vectors",
 [RD,DE,SER,IMP,ST],[("one-byte lookahead",RD+" eof"),("write_all everywhere",IMP)],["results with faulty readers and writers"])

p("C20","Loggers hand over exactly the entries they were given",
 "A buffering logger returns all entries recorded since it was last emptied, in order, each framed so that reading them back yields the same entries, and emptying it loses or repeats none; a writing logger emits each entry once to its sink and reports sink errors; a discarding logger discards. Pausing suppresses recording until every pause has been undone, surplus resumes are harmless, and replacing the logger directs all later entries of the whole tree to the new one.",
 ["histories"],"every interleaving of recordings, snapshots of the log, emptying, pausing and resuming to any depth, logger replacement, and sink failures",
 "tests read the buffer after a few pushes; pausing, emptying by taking, replacement and the writing logger are untested",
 ["steit/src/log",RL,RT],[("buffer","steit/src/log/loggers/buffer.rs"),("writer","steit/src/log/loggers/writer.rs"),("pause counter and replacement",RL)],["entries and bytes obtained from the logger"])

p("C21","A generated client reports each change once, where it happened",
 "Replaying a log entry that updates a field, variant, list element or map value, or pushes, pops, inserts or removes one, raises exactly one event: on the container at the entry's address and of that field or kind, and nowhere else. The event carries the container, the right tag, index or key, the new value held afterwards, and the old value, which the container still holds while handlers run. Reading a snapshot, entries about fields or elements the client does not know, and the replacement of the whole root raise nothing. Clearing the handlers of one field or class silences those and no others. After a snapshot and after every entry, each object of the client carries the path that leads to it from the root.",
 ["histories","programs"],"every schema whose generated classes the client library supports, every snapshot, every log of mutations at any depth, any handlers attached or cleared",
 "no test executes the generated code or the client library at all",
 [CS,"steit-csharp/src"],[("events of generated classes",CS),("events of collections","steit-csharp/src/Collections, steit-csharp/src/State/Event"),("paths","steit-csharp/src/State/Path.cs")],["events and paths of a client under an interpreter of the generated and shipped sources"])

p("C22","A generated client is never left half updated",
 "If a client is given a log entry that cannot be applied (cut or garbled so that reading it fails, of a kind it does not know, of the wrong kind for its target, or about a list element, map key, variant or field that is not there), it either throws or ignores it: state, root and paths stay exactly as they were, no event is raised, and it goes on replaying later entries correctly. Reading a snapshot that was cut throws, unless the cut falls between two top-level fields or elements, in which case the result holds exactly those before it. It always ends.",
 ["crash_points","inputs","histories"],"every schema whose generated classes the client library supports, every cut of a snapshot or entry, every changed or misplaced entry at any moment of a history",
 "no test executes the generated code or the client library at all",
 [CS,"steit-csharp/src"],[("replayer and readers","steit-csharp/src/State/StateReplayer.cs, steit-csharp/src/State/State.cs, steit-csharp/src/Codec"),("collections","steit-csharp/src/Collections"),("class emission",CS)],["client state and events under an interpreter of the generated and shipped sources"])

p("C23","A generated client reads through what it does not know",
 "A client that is given snapshots and log entries in which, at any level, unknown fields of either wire type are added, fields it knows occur with another wire type, or fields stand in another order, holds the same values as with the plain encoding. So a server whose schema has gained, lost or retyped fields can still be followed.",
 ["inputs","histories"],"every schema whose generated classes the client library supports, every snapshot and log, every addition and order of fields at every level, those of the log entry itself included",
 "no test executes the generated code or the client library at all",
 [CS,"steit-csharp/src"],[("reading of fields","steit-csharp/src/State/State.cs, steit-csharp/src/Codec"),("collections","steit-csharp/src/Collections"),("class emission",CS)],["client state under an interpreter of the generated and shipped sources"])

p("C24","Work is proportional to what is encoded or changed",
 "Measuring and encoding a value write each of its parts exactly once, and measure it a fixed number of times however deep it lies, or a number of times proportional to how many of the things around it keep no size cache; decoding reads each part once. Recording a change measures and writes only the parts its entries carry, and gives a new address only to parts that are added, removed or moved, however large the rest of the tree is; replaying an entry reads only what the entry carries. Looking up, iterating, comparing, copying, and taking the log measure, write and move nothing.",
 ["inputs","histories"],"every value of every nesting depth and mix of containers with and without size caches, every change anywhere in every tree",
 "tests look at results, never at how often a part is visited; nesting in tests is two or three levels deep",
 [SER,IMP,ST,"steit/src/types","steit/src/rt/size_cache.rs"],[("sizes cached once, used when writing",SER),("size caches","steit/src/rt/size_cache.rs"),("addresses of moved parts","steit/src/types/list.rs, steit/src/types/map/map.rs")],["visits counted by leaf types of the harness"])

p("C25","Handlers cannot harm a generated client",
 "If a handler of an event throws, the exception reaches the caller of Replay, the entry that raised the event is not applied, nor is any after it, those before it in the log stay applied, nothing else changes, and replaying the log again from that entry goes on as if nothing had happened. While an event is raised a handler finds the whole state as it was before the entry, and may read it, remove itself or any other handler, or build another replica from a snapshot and log: what the client holds afterwards is what one holds whose handlers do nothing.",
 ["histories","fault_sequences","inputs"],"every schema whose generated classes the client library supports, every history, split into logs in any way, every event of it at which a handler throws, reads, removes handlers or makes another replica",
 "no test executes the generated code or the client library at all",
 [CS,"steit-csharp/src"],[("replayer","steit-csharp/src/State/StateReplayer.cs"),("events before changes","steit-csharp/src/Collections"),("class emission",CS)],["client state under an interpreter of the generated and shipped sources"])

p("C26","Handles of a runtime stand for their address and share one logger",
 "A runtime made from another by going to a child, its parent or a sibling, or by copying it, stands for the address so formed, at any depth and with any field numbers, for as long as it is kept, whatever becomes of the runtimes, states and roots it was made from, and says so when asked for its path, its last number and whether it is the root. Entries built or logged through it carry this address and the value, item or key given. All handles of a tree record with the logger of the tree and with no other, in the order in which they are told to, also when several entries of several addresses are given at once; pausing through one pauses all, and what the logger refuses is reported to the caller, is not recorded, and nothing after it in the same call is. States made with a handle live at its address. Runtimes never make values unequal.",
 ["histories"],"every tree of handles, every order of making, copying, dropping, pausing and logging through them, every refusal, any entries",
 "tests make one level of children and never ask for parents or siblings, share a logger between more than one state, or drop a handle others were made from",
 [RT,"steit/src/rt/node.rs",RL,"steit/src/log"],[("addresses","steit/src/rt/node.rs"),("handles and entries",RT),("shared logger",RL)],["answers of every handle, entries given to the logger"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
