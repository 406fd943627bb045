#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

# --- digest -----------------------------------------------------------------
p("D01","MD5, SHA-1 and SHA-2 digests equal the published standards for every message",
  "For every byte string, the MD5, SHA-1, SHA-224, SHA-256, SHA-384, SHA-512, SHA-512/224 and SHA-512/256 digests are exactly those the published standards (RFC 1321, FIPS 180-4) define, whatever the message length or content, also for messages beyond 512 MiB and 4 GiB. The lowercase hex rendering of a digest is its bytes in order, two digits each. The value is the same whether computed at compile time or at run time.",
  ["inputs"],"every byte string (all lengths, including every padding boundary and very long ones)",
  "Tests pin a few dozen vectors; padding, schedule and length-counter errors at other lengths, contents or sizes are not sampled.",
  ["mbo/digest/digest_md5.h","mbo/digest/digest_sha1.h","mbo/digest/digest_sha256.h","mbo/digest/digest_sha512.h","mbo/digest/digest.h"],
  [("Compression functions, padding and length encoding","mbo/digest/digest_sha256.h, digest_sha512.h, digest_sha1.h, digest_md5.h"),("ToHexString","mbo/digest/digest.h")],
  [("chain state","running hash words, buffered partial block and total length","StreamState in each header")],["Digest(), Streamer::Finalize(), ToHexString()"])
p("D02","SHA-3 and SHAKE outputs equal FIPS 202 for every message and output length",
  "For every byte string, the SHA3-224/256/384/512 digests and the SHAKE128/SHAKE256 outputs of every requested length are exactly those FIPS 202 defines. A shorter extendable output is always a prefix of a longer one for the same message.",
  ["inputs"],"every byte string and every output length",
  "Tests pin a few vectors; rate boundaries, multi-block squeezing and other lengths are unsampled.",
  ["mbo/digest/digest_sha3.h","mbo/digest/digest_shake.h"],
  [("Keccak-f permutation, sponge absorb/squeeze and domain padding","mbo/digest/digest_sha3.h, digest_shake.h")])
p("D03","BLAKE2b and BLAKE3 equal their specifications in every mode",
  "For every message, BLAKE2b (64 and 32 byte, unkeyed and with keys up to 64 bytes) equals RFC 7693, and BLAKE3 (plain, keyed, key derivation, extendable output of every length) equals the BLAKE3 specification. Keyed and derived values depend on the whole key, context and material.",
  ["inputs"],"every message, key, context string and output length",
  "Tests pin vectors at a few lengths; tree shapes, chunk/block boundaries, counters, key lengths and output positions in between are unsampled.",
  ["mbo/digest/digest_blake2b.h","mbo/digest/digest_blake3.h"],
  [("BLAKE2b compression, key block and parameter word","mbo/digest/digest_blake2b.h"),("BLAKE3 chunk chaining, subtree stack and output counter","mbo/digest/digest_blake3.h")],
  [("chaining value stack","completed subtrees per bit of the chunk count","mbo/digest/digest_blake3.h")])
p("D04","Streamed digests equal the one-shot digest for every chunking history",
  "For every streaming digest algorithm and every way of splitting a message into updates (including empty ones), the streamed result equals the one-shot digest of the concatenation. Finalizing is a pure peek: it can be repeated, interleaved with further updates and done on copies without changing any other result.",
  ["histories","inputs"],"every sequence of construct, update, copy and finalize operations on any number of streams, for every message",
  "Tests split a few messages in a few ways; the space of histories is unbounded.",
  ["mbo/digest/digest.h","mbo/digest/digest_concepts.h","mbo/digest/digest_sha256.h","mbo/digest/digest_sha512.h","mbo/digest/digest_sha1.h","mbo/digest/digest_md5.h","mbo/digest/digest_sha3.h","mbo/digest/digest_shake.h","mbo/digest/digest_blake2b.h","mbo/digest/digest_blake3.h"],
  [("StreamInit/StreamUpdate/StreamFinalize buffering","each mbo/digest/digest_*.h"),("Streamer","mbo/digest/digest.h")],
  [("buffer","unprocessed tail bytes and total length","StreamState in each header")])
p("D05","HMAC over every digest equals RFC 2104, one-shot and streamed",
  "For every supported digest, key and message the keyed message authentication code equals RFC 2104 with that digest and its own block size: keys longer than a block are hashed first and shorter ones are zero padded. The streaming form gives the same value for every chunking and can be finalized repeatedly and continued.",
  ["inputs","histories"],"every key length and content, every message, every chunking, every algorithm",
  "Tests pin a few RFC vectors for some algorithms; key lengths around the block size per algorithm and streaming histories are unsampled.",
  ["mbo/digest/digest_hmac.h"],[("Hmac / HmacStreamer","mbo/digest/digest_hmac.h")])
p("D06","Checksum file lines are accepted exactly when well formed and split exactly",
  "A checksum line is accepted exactly when it is the expected number of hexadecimal digits, one space, a space or an asterisk, and a non-empty file name; then the digest text is the hex part and the name is everything that follows, byte for byte. Every other line is rejected.",
  ["inputs"],"every line and every expected digest width",
  "Tests try a handful of good and bad lines; acceptance must be decided for every byte string.",
  ["mbo/digest/checksum.cc","mbo/digest/checksum.h","mbo/digest/digest_main.cc"],
  [("ParseChecksumLine","mbo/digest/checksum.cc")])
p("D07","The digest tool reports a mismatch for every file that differs and only those",
  "Verifying a checksum file reports success for exactly those listed files whose current content has the listed digest, fails otherwise (mismatch, unreadable, or malformed lines under strict mode), and its exit status is success only if nothing failed. What the tool prints in generate mode verifies cleanly with the same algorithm as long as the files are unchanged.",
  ["inputs","configurations"],"every set of files, contents, checksum lists and flag combinations",
  "One shell script samples a few fixed files and flags.",
  ["mbo/digest/digest_main.cc","mbo/digest/checksum.cc"],
  [("check mode and exit status","mbo/digest/digest_main.cc")])
# --- hash -------------------------------------------------------------------
p("H01","Canonical hashes equal their reference definitions for every input and seed",
  "For every byte string and every seed or key, FNV-1a, SipHash-2-4 and -1-3, XXH64, XXH3 (64 and 128 bit), MurmurHash3 x64-128 and rapidhash V3 produce exactly the values of their published reference definitions.",
  ["inputs"],"every byte string (every length class) and every 64-bit seed or key pair",
  "Tests pin vectors for a limited set of lengths and seeds; every length class, stripe and tail has its own code path.",
  ["mbo/hash/hash_fnv1a.h","mbo/hash/hash_siphash.h","mbo/hash/hash_xxh64.h","mbo/hash/hash_xxh3.h","mbo/hash/hash_murmur3.h","mbo/hash/hash_rapidhash.h","mbo/hash/hash_internal_util.h"],
  [("Per-algorithm GetHash64/GetHash128","mbo/hash/hash_*.h")])
p("H02","Streamed hashes equal the one-shot hash for every chunking history",
  "For every streaming hash algorithm, every seed and every way of splitting the input into updates (including empty ones), the streamed value equals the one-shot hash of the concatenated input. Finalizing never disturbs the stream: it may be repeated, continued after, and done on copies.",
  ["histories","inputs"],"every history of update, finalize and copy operations for every seed and input",
  "Tests use a few split points; block and window boundaries with all buffered amounts are not enumerated.",
  ["mbo/hash/hash.h","mbo/hash/hash_types.h","mbo/hash/hash_mumbo.h","mbo/hash/hash_xxh64.h","mbo/hash/hash_siphash.h"],
  [("StreamInit/StreamUpdate/StreamFinalize","mbo/hash/hash_mumbo.h, hash_xxh64.h, hash_siphash.h"),("Streamer","mbo/hash/hash.h")])
p("H03","Derived hash widths, combination and mangling follow their definitions",
  "For every algorithm, input and seed: the 32-bit hash is the algorithm's own one or the exclusive-or of the two halves of its 64-bit hash; missing 64- and 128-bit forms are derived by the documented fold and two-pass constructions; the functor forms return the 64-bit hash. Combining two hashes depends on both values and their order, and mangling xors one build-wide constant into the 64-bit hash, so it never merges two different hashes.",
  ["inputs","configurations"],"every algorithm, input, seed and pair of hashes",
  "Tests sample a few strings for a few algorithms.",
  ["mbo/hash/hash.h","mbo/hash/hash_types.h","mbo/hash/hash_mangle.h"],
  [("Hasher<Algo>, Hash64To32, Hash128To64, CombineHashes","mbo/hash/hash.h, hash_types.h"),("GetHash/HashMangle/MangledHasher","mbo/hash/hash_mangle.h")])
p("H04","A hash is a function of the bytes and the seed, and of all of them",
  "The hash of a byte string depends only on its bytes, its length and the seed: not on its address, alignment, surrounding memory or whether it is evaluated at compile time. It depends on all of them: no algorithm ignores a byte position, the length (including trailing zero bytes), or the seed it is given.",
  ["inputs"],"every input, alignment, surrounding memory and seed, for every algorithm including the in-house ones",
  "Tests hash literals at whatever address they have; over-reads, position-dependent omissions and alignment are not explored.",
  ["mbo/hash/hash_internal_util.h","mbo/hash/hash_mumbo.h","mbo/hash/hash_tembo.h","mbo/hash/hash_fambo.h","mbo/hash/hash_dumbo.h","mbo/hash/hash_xxh3.h","mbo/hash/hash_rapidhash.h"],
  [("Load/LoadTail/LoadSmall and the length dispatch","mbo/hash/hash_internal_util.h and every algorithm")])
p("H05","In-house hash values stay the ones this release defines",
  "Within this release, mumbo, jumbo, tembo, fambo and dumbo each map every input and seed to one fixed value, on every platform, at compile time and run time alike. The values are those of the algorithm definitions pinned by the repository's own published test vectors, at every input length.",
  ["inputs"],"every input and seed of the in-house algorithms",
  "The vectors pin selected lengths and seeds only.",
  ["mbo/hash/hash_mumbo.h","mbo/hash/hash_tembo.h","mbo/hash/hash_fambo.h","mbo/hash/hash_dumbo.h"],
  [("mumbo/jumbo/tembo/fambo/dumbo","mbo/hash/hash_*.h")])
p("H06","The build-time hash functions compute what the C++ library computes",
  "Every hash the build rules offer (mumbo, dumbo, fnv1a) yields, for every list of byte values or printable text and every seed including the default, exactly the 64-bit value of the C++ algorithm of the same name; text outside printable ASCII is refused.",
  ["inputs"],"every byte list, printable string and seed",
  "The comparison tests sample a few inputs per algorithm, and run only under the build tool.",
  ["mbo/hash/hash.bzl"],[("hash struct (Starlark)","mbo/hash/hash.bzl")])
# --- types ------------------------------------------------------------------
p("T01","Required and reference wrappers behave like the value or reference they hold",
  "A wrapped required value always holds a value: after every history of construction, copy, move, assignment, emplacement and modification it compares, converts and dereferences as the value most recently stored, and moved-to objects take over that value. A reference wrapper always designates the object it was bound to (reads see and writes change that object) and copies designate the same object; comparison and hashing are those of the designated value.",
  ["histories","inputs"],"every operation history over any number of wrappers and values",
  "Tests execute a few straight-line uses.",
  ["mbo/types/required.h","mbo/types/ref_wrap.h","mbo/types/no_destruct.h"],
  [("Required","mbo/types/required.h"),("RefWrap","mbo/types/ref_wrap.h"),("NoDestruct","mbo/types/no_destruct.h")])
p("T02","Scalar comparison is one mathematically correct total order",
  "Comparing two arithmetic values of any types orders them by mathematical value regardless of signedness and width, and comparison of floating point values is a total order in which NaN equals itself and is greater than every other value. The transparent less-than orders mixed key types consistently with that order, so that it is irreflexive, asymmetric and transitive on every combination.",
  ["inputs"],"every pair and triple of values of every arithmetic type combination",
  "Tests sample a few pairs; boundaries between types are combinatorial.",
  ["mbo/types/compare.h"],[("CompareScalar, CompareFloat, CompareIntegral, CompareLess, WeakToStrong","mbo/types/compare.h")])
p("T03","Structs decompose into all their fields in declaration order",
  "Converting an aggregate to a tuple yields exactly its fields, all of them, in declaration order with their types and values, for every field count supported; mutating through a tuple of references mutates that field of the aggregate and nothing else, and moving from an aggregate moves each field exactly once.",
  ["programs","inputs"],"every supported aggregate shape (field counts, types, nesting) and all field values",
  "Tests use a handful of aggregate shapes.",
  ["mbo/types/tuple_extras.h","mbo/types/tuple.h","mbo/types/internal/decompose_count.h","mbo/types/internal/is_braces_constructible.h"],
  [("StructToTuple / DecomposeCount","mbo/types/internal/decompose_count.h")])
p("T04","Compile-time search and case selection return the first, last or max match",
  "For every predicate over an index range, the linear search returns the first match from the start, the reverse search the last match, the binary search the first index satisfying a monotone predicate, the max variants the largest one, and the documented not-found value when there is none. Case selection picks the type of the first true case and the default otherwise.",
  ["programs","inputs"],"every range and every predicate table",
  "Tests instantiate a few ranges and predicates.",
  ["mbo/types/template_search.h","mbo/types/cases.h","mbo/types/internal/cases.h"],
  [("BinarySearch/LinearSearch/MaxSearch/ReverseSearch","mbo/types/template_search.h"),("Cases/CaseIndex","mbo/types/internal/cases.h")])
p("T05","Compile-time strings answer every string query like the run-time string",
  "For every compile-time string, its length, characters, comparison, search, prefix/suffix and substring queries give the same answer as the same queries on the string it denotes, including embedded NULs and empty strings.",
  ["programs","inputs"],"every pair of strings and every query argument",
  "Tests instantiate a few literals.",
  ["mbo/types/tstring.h"],[("tstring","mbo/types/tstring.h")])
p("T06","Optional references and data-or-reference holders track their state exactly",
  "After every history of construction, copy, move, assignment, reset, emplacement and conversion, an optional reference designates exactly the object it was last bound to or nothing, and a data-or-reference holder is in exactly one of the states empty, owning a value or referring to an object; reads yield the owned or referred value and modification never silently changes the wrong object. Owned values are destroyed exactly once.",
  ["histories"],"every operation history over any number of holders and objects",
  "Tests run a few short sequences.",
  ["mbo/types/optional_ref.h","mbo/types/optional_data_or_ref.h"],
  [("OptionalRef","mbo/types/optional_ref.h"),("OptionalDataOrRef","mbo/types/optional_data_or_ref.h")])
p("T07","Opaque values copy deeply, compare by value and release exactly once",
  "An opaque pointer-like holder owns its value: a copied holder has an independent equal value, moving transfers the value, comparison and hashing are by value, and every owned value is destroyed exactly once over every history.",
  ["histories"],"every history of constructing, copying, moving, assigning, swapping and destroying holders",
  "Tests cover a few operations once each.",
  ["mbo/types/opaque.h"],[("OpaquePtr/OpaqueValue/OpaqueContainer","mbo/types/opaque.h")])
p("T08","Container proxies and typed views expose exactly the underlying container",
  "Every element access, iteration, search, size query and modification through a container proxy has exactly the effect and result of the same operation on the wrapped container, and a typed view yields exactly the underlying range's elements in order.",
  ["histories","inputs"],"every container content and operation history",
  "Tests use a few fixed containers.",
  ["mbo/types/container_proxy.h","mbo/types/typed_view.h"],[("ContainerProxy","mbo/types/container_proxy.h"),("TypedView","mbo/types/typed_view.h")])
p("T09","Extended structs compare, hash and print consistently with all their fields",
  "For extended aggregates, comparison is the lexicographic comparison of all fields in order, equal aggregates hash equally, and the printed form contains every field exactly once in order, with names, values, delimiters and escapes as the selected format prescribes; printed JSON is valid and denotes the field values (types with a printed form of their own keep that form).",
  ["inputs","programs","configurations"],"every supported aggregate, field value and output format",
  "Tests print a few fixed structs.",
  ["mbo/types/stringify.h","mbo/types/extend.h","mbo/types/extender.h","mbo/types/internal/extend.h","mbo/types/internal/extender.h"],
  [("Stringify","mbo/types/stringify.h"),("Extend extenders","mbo/types/extender.h")])
p("T10","Overloaded visitors and variant tests select by the held alternative",
  "Visiting a variant with a set of overloads calls exactly the overload for the alternative held and returns its result, and the variant type tests are true exactly for variants (and variants holding the named alternative) for every variant type.",
  ["programs","inputs"],"every variant type and held alternative",
  "Tests instantiate a few types.",
  ["mbo/types/variant.h"],[("Overloaded, IsVariant...","mbo/types/variant.h")])
# --- log --------------------------------------------------------------------
p("L01","A scoped stream emits its one complete line exactly once",
  "Everything streamed into a scoped stream appears exactly once, in streaming order, in one line with location, message and newline, at the end of its scope and never earlier, whatever other scopes are open at the same time; a scope without sink or content emits accordingly less. A failed check (or a scope that is to quit) emits its line and then ends the program with status 1 and no other open scope emits anything; a check macro that holds evaluates its condition once and none of its message, and emits nothing.",
  ["histories","inputs"],"every history of opening, streaming into and ending scopes of every kind, and every check condition",
  "Tests cover a few linear uses.",
  ["mbo/log/scoped_stream.h","mbo/log/scoped_log_check.h"],
  [("ScopedStream destructor","mbo/log/scoped_stream.h"),("MBO_LOG_CHECK","mbo/log/scoped_log_check.h")])
p("L02","Timing logs appear exactly once when enabled and long enough",
  "A timing scope logs exactly once when it ends if its severity is enabled and its duration reaches the configured minimum, never otherwise, and a moved-from scope logs nothing. The message has the time taken, the function and all that was streamed into the scope, at the severity and source location of its creation. The function name shown is the source function's qualified name without return type, parameters and template noise (for functions that do not return function pointers or arrays).",
  ["histories","inputs"],"every history of nested and moved scopes, every configuration and every function signature text",
  "Tests time a few scopes.",
  ["mbo/log/log_timing.cc","mbo/log/log_timing.h"],[("LogTiming","mbo/log/log_timing.cc")])
p("L03","Demangling returns the type's name or leaves the text unchanged",
  "Demangling the mangled name of any type returns that type's readable name, any text that is not a mangled name is returned unchanged byte for byte, and repeated or interleaved calls do not affect one another.",
  ["inputs"],"every text and every type name",
  "Tests try a few names.",
  ["mbo/log/demangle.cc","mbo/log/demangle.h"],[("Demangle","mbo/log/demangle.cc")])
# --- containers -------------------------------------------------------------
p("C01","The bounded vector behaves exactly like a sequence with a capacity",
  "After every history of operations (append, insert, erase, assign, resize, swap, copy, move, clear) the bounded vector's size, elements in order, returned iterators and comparisons are those of an ideal sequence to which the same operations were applied. An operation that would exceed the capacity is refused instead of corrupting anything.",
  ["histories","inputs"],"every history of operations on any number of vectors of every capacity",
  "Tests run one or a few operations from fixed states.",
  ["mbo/container/limited_vector.h","mbo/config/require.h"],[("LimitedVector","mbo/container/limited_vector.h")])
p("C02","The bounded ordered set behaves exactly like a sorted set with a capacity",
  "After every history of operations the bounded set contains exactly the ideal set's elements in order without duplicates; membership, position, bounds, insertion and removal results, and iteration are those of the ideal sorted set under its comparator, for every capacity, tuning option and comparator. An insertion beyond the capacity is refused and never corrupts.",
  ["histories","inputs","configurations"],"every history, key universe, capacity and option combination",
  "Tests run a few operations on a few instantiations; the unrolled, custom and library searches are separate code.",
  ["mbo/container/limited_set.h","mbo/container/internal/limited_ordered.h","mbo/container/limited_options.h"],[("LimitedOrdered index_of/lower_bound/emplace/erase","mbo/container/internal/limited_ordered.h")])
p("C03","The bounded ordered map behaves exactly like a sorted map with a capacity",
  "After every history of operations the bounded map associates exactly the keys and values the ideal sorted map would, with at most one value per key, in key order; lookup, bounds, insertion, assignment and removal results and iteration match, for every capacity, tuning option and comparator. An insertion beyond the capacity is refused and never corrupts.",
  ["histories","inputs","configurations"],"every history, key and value, capacity and option combination",
  "Tests run a few operations from fixed maps.",
  ["mbo/container/limited_map.h","mbo/container/internal/limited_ordered.h"],[("LimitedMap","mbo/container/limited_map.h")])
p("C04","Bounded containers construct and destroy every element exactly once",
  "Over every history, every element object a bounded container creates is destroyed exactly once, no element is used before construction or after destruction, and after the container is gone no element remains alive.",
  ["histories"],"every history of operations over element types with non-trivial lifetime",
  "Tests mostly use trivial element types and never account for lifetimes over histories.",
  ["mbo/container/limited_vector.h","mbo/container/internal/limited_ordered.h"],[("construct_at/destroy_at bookkeeping","mbo/container/limited_vector.h, internal/limited_ordered.h")])
p("C05","Type-erased scans yield exactly the underlying container's elements",
  "Iterating a type-erased scan over any container or initializer list yields exactly that container's elements in order, as references to the originals where offered, any number of times; its size and emptiness match, and conversions yield the converted elements in the same order. Converting a container yields all its elements in order.",
  ["inputs","histories"],"every container type and content, every iteration history",
  "Tests iterate a few containers once.",
  ["mbo/container/any_scan.h","mbo/container/convert_container.h"],[("AnyScan/ConstScan/ConvertingScan","mbo/container/any_scan.h"),("ConvertContainer","mbo/container/convert_container.h")])
# --- strings ----------------------------------------------------------------
p("S01","Quoted string parsing decodes every input as documented",
  "For every input and option combination, parsing consumes exactly the text up to the first active stop or separator outside quotes, and yields exactly that text with quotes removed and escape sequences decoded; malformed quotes or escapes are errors. Parsing a list yields exactly the elements in order, consumes through its end, and agrees with parsing the elements one at a time.",
  ["inputs","configurations"],"every byte string and option combination",
  "Tests and a fuzz smoke sample; decoding must be decided for every input.",
  ["mbo/strings/parse.cc","mbo/strings/parse.h"],[("ParseString/ParseStringList","mbo/strings/parse.cc")])
p("S02","Comment stripping removes exactly the comments and nothing else",
  "For every text and option combination, comment stripping removes exactly the comment starting at the first comment marker (in the parsing variants: the first active stop outside of quotes, with quotes and escapes read as the options say) and the trailing whitespace the options name; all other bytes are kept in order, and stripping a multi-line text is stripping each of its lines. Removing a prefix or suffix removes exactly it if it is there and nothing otherwise.",
  ["inputs","configurations"],"every text, marker and option combination",
  "Tests sample a few lines.",
  ["mbo/strings/strip.cc","mbo/strings/strip.h"],[("StripComments/StripParsedComments","mbo/strings/strip.cc")])
p("S03","Indentation removal strips exactly the indentation of the first line that counts",
  "For every text, dropping indentation removes an empty first line, takes the leading blanks of the then first line (or, when the first line had content, of the second one, leaving the first alone) as the indentation, removes it from every line that starts with it and leaves lines that do not as they are, clears a last line of only blanks, and keeps the line structure and all other bytes; dropping directly equals joining the split lines.",
  ["inputs"],"every text",
  "Tests sample a few layouts.",
  ["mbo/strings/indent.cc","mbo/strings/indent.h"],[("DropIndent, DropIndentAndSplit","mbo/strings/indent.cc")])
p("S04","Grouped number formatting round-trips and groups digits by three",
  "Formatting any integer with grouping yields the decimal digits of that integer with a sign if negative and a separator exactly between every group of three digits counted from the right; removing the separators gives the number back.",
  ["inputs"],"every integer of every width",
  "Tests sample a few numbers.",
  ["mbo/strings/numbers.h"],[("BigNumber","mbo/strings/numbers.h")])
p("S05","Substring containment and last-occurrence splitting are exact",
  "A containment query is true exactly if the needle (text or character) occurs in the haystack, and splitting at the last occurrence cuts exactly once at the last position where the delimiter occurs, or not at all when it does not.",
  ["inputs"],"every text, needle and delimiter",
  "Tests sample a few strings.",
  ["mbo/strings/contains.h","mbo/strings/split.h"],[("Contains","mbo/strings/contains.h"),("AtLast","mbo/strings/split.h")])
# --- files ------------------------------------------------------------------
p("F01","Path joining and normalization are lexically exact and idempotent",
  "Joining path elements yields the elements separated by exactly one separator (or starting over at an absolute element in the variant that respects them), and normalization yields the shortest lexically equivalent path: idempotent, never changing absoluteness, and resolving '.' and '..' components.",
  ["inputs"],"every sequence of path elements",
  "Tests sample a table of paths.",
  ["mbo/file/file.cc","mbo/file/file.h"],[("JoinPaths, JoinPathsRespectAbsolute, NormalizePath","mbo/file/file.cc")])
p("F02","Glob patterns match exactly the paths glob semantics define",
  "A path matches a glob pattern exactly if it does under the documented glob semantics: '*' and '?' never match a separator, '**' matches across directories, ranges and negated sets match their members (which may include the separator), and escapes match literally; malformed patterns are errors. Splitting a pattern separates the longest literal directory prefix from the rest.",
  ["inputs","configurations"],"every pattern, path and option combination",
  "Tests sample a table of patterns.",
  ["mbo/file/glob.cc","mbo/file/glob.h"],[("Glob2Re2Expression, GlobSplit","mbo/file/glob.cc")])
p("F03","Globbing visits every matching entry of the tree exactly once",
  "Globbing a directory tree reports every entry below the root that matches the pattern exactly once and nothing else, honours depth and recursion options and the callback's decisions, and reports errors instead of silently skipping.",
  ["inputs","configurations","histories"],"every directory tree, pattern, option combination and callback decision sequence",
  "Tests glob one fixed tree.",
  ["mbo/file/glob.cc"],[("GlobRe2/Glob traversal","mbo/file/glob.cc")])
p("F04","INI content survives editing, writing and re-reading",
  "Reading an INI text yields exactly its groups, keys and values, later assignments win, and after any sequence of edits every lookup returns the last value set. Writing and re-reading gives back the same groups, keys and values whenever they can be expressed as INI text (no line breaks or surrounding blanks, keys without '=', and the like).",
  ["histories","inputs"],"every text and every edit history",
  "Tests read one or two fixed texts.",
  ["mbo/file/ini/ini_file.cc","mbo/file/ini/ini_file.h"],[("IniFile","mbo/file/ini/ini_file.cc")])
p("F05","Reading back a written file returns exactly the bytes written",
  "After any history of writes, reading a file returns exactly the bytes last written (including NUL and newline bytes and empty content), reading at most a number of lines returns exactly that many leading lines, and every missing or unreadable file is an error, never empty content.",
  ["histories","inputs","fault_sequences"],"every write history, content and line limit",
  "Tests write a few small texts.",
  ["mbo/file/file.cc","mbo/file/artefact.cc"],[("GetContents/SetContents/GetMaxLines","mbo/file/file.cc"),("Artefact::Read","mbo/file/artefact.cc")])
p("F06","The glob program lists exactly the wanted entries and counts them truly",
  "For every tree, root, pattern and combination of flags the glob program shows exactly the entries below the root that match the pattern (or regular expression), each once and by its path from the root, however the root is given; without those below or being dot directories if --nodotdir, without dot files if --nodotfile, and nothing below a match if --norecurse_match. Size, type and depth are shown as asked for and aligned unless --fast; --noentries shows none. The summary counts every entry listed as one of directory, link, file or other, with the total size, depth and, if asked for, counts and sizes for each extension that add up. A root that does not exist, a bad pattern or a wrong number of arguments gives exit code 1 and no output.",
  ["inputs","configurations"],"every tree, root, pattern and command line",
  "The program has no tests.",
  ["mbo/file/glob_main.cc","mbo/file/glob.cc","mbo/file/glob.h"],[("Entries::Add, PrintEntry, PrintSummary, main","mbo/file/glob_main.cc"),("GlobSplit, Glob, GlobRe2","mbo/file/glob.cc")])
# --- diff -------------------------------------------------------------------
p("X01","A diff is empty iff the texts are equal and applying it reproduces the target",
  "For every pair of texts, algorithm and context size, applying the unified diff to the left text reproduces the right text exactly, and the diff is empty exactly when the texts are equal. Hunk headers state the true line positions and counts, context lines are unchanged lines, and missing final newlines are marked on exactly the side that lacks them.",
  ["inputs","configurations"],"every pair of texts, algorithm and context size",
  "Tests compare a few golden diffs.",
  ["mbo/diff/impl","mbo/diff/internal","mbo/diff/base_diff.cc","mbo/diff/chunked_diff.cc","mbo/diff/diff.cc"],[("Chunk/Context output and the line matchers","mbo/diff/internal, mbo/diff/impl")])
p("X02","The default diff algorithm is minimal where it guarantees to be",
  "Under the minimal guarantee, the number of added plus deleted lines is the smallest possible for the pair of texts, and never more than the naive or direct algorithm reports.",
  ["inputs"],"every pair of texts",
  "Tests check a few hand-made pairs.",
  ["mbo/diff/impl"],[("Myers diff","mbo/diff/impl")])
p("X03","Diff comparison options change only which lines count as equal",
  "Under every combination of the ignore options (case, whitespace, blank lines, comments, regular expression replacement), two lines count as equal exactly when their normalized forms are equal, the printed lines are the original ones, and a pair of texts whose normalized lines are all equal produces no diff.",
  ["inputs","configurations"],"every pair of texts and option combination",
  "Tests sample single options.",
  ["mbo/diff/internal","mbo/diff/diff_options.cc"],[("line normalization","mbo/diff/internal/data.cc")])
p("X04","The diff program shows exactly the diff its command line asks for and says so",
  "For every command line and pair of files, the diff program compares the two files (the first lines of them if asked to) under exactly the options its flags describe, wherever and in whatever spelling they stand, a later flag overriding an earlier one and defaults depending on algorithm and format as documented; it prints the header (names without the prefix, times of the files or the epoch) and the diff in the asked for format, and exits with 0 and no output if nothing differs under the options, with 1 and the diff if something does, and otherwise - missing, unreadable or superfluous files, names of algorithms, formats or header uses that do not exist or do not go together - with 2 and no output.",
  ["inputs","configurations"],"every command line and pair of files",
  "Shell tests run a few command lines on two small files.",
  ["mbo/diff/diff_main.cc","mbo/diff/diff.cc","mbo/diff/base_diff.cc","mbo/diff/diff_options.cc","mbo/file/artefact.cc"],[("MakeDiffOptions, Diff, main","mbo/diff/diff_main.cc"),("FileHeaders","mbo/diff/base_diff.cc")])
# --- json -------------------------------------------------------------------
p("J01","A JSON document holds exactly what its edit history put there",
  "After every history of assignments, insertions, appends, removals, copies and moves, every query of a JSON value (kind, size, members, elements, comparison, iteration) answers as the ideal JSON value would. Copies are independent and moved-to values take over the content.",
  ["histories","inputs"],"every edit history on any number of documents",
  "Tests perform a few edits on fixed values.",
  ["mbo/json/json.h"],[("Json","mbo/json/json.h")])
p("J02","Serialized JSON is valid and denotes exactly the document",
  "For every document and output mode the serialization is syntactically valid JSON, and parsing it yields the same document: every string byte escaped as required, every number exactly represented, every member once.",
  ["inputs","configurations"],"every document and output mode",
  "Tests compare a few golden strings.",
  ["mbo/json/json.h","mbo/types/stringify.h"],[("Json::Serialize/Stream","mbo/json/json.h")])
# --- mope -------------------------------------------------------------------
p("M01","Template expansion yields exactly the documented text",
  "For every template text and data, expansion replaces each value tag by its value, repeats each section once per entry or configured item in order with the configured joiner and removes it when there is none, and copies everything else verbatim; expansion is deterministic and malformed or inconsistent tags are errors, never partial silent output.",
  ["inputs","histories"],"every template, data tree and edit history of the data",
  "Tests expand a few fixed templates.",
  ["mbo/mope/mope.cc","mbo/mope/mope.h","mbo/mope/ini.cc"],[("Template::Expand","mbo/mope/mope.cc"),("ReadIniToTemplate","mbo/mope/ini.cc")])
p("M02","The template program writes the expansion asked for, or fails and writes nothing",
  "For every command line, template file and INI file, the template program expands the template under exactly the settings its flags describe - every --set item key=value with a value of any text (but a comma), sections by ':' each adding one more showing, global values by an empty section, then the groups of the INI file if one is named - and writes the result to the file named by --generate or, without one, to the standard output, exiting with 0. In every other case - missing or unreadable template or INI file, an invalid or repeated key, a template that does not expand, superfluous arguments, an output that cannot be written - it exits with 1, prints nothing on the standard output and changes no file.",
  ["inputs","configurations"],"every command line, template and INI file",
  "Golden tests run a few command lines on fixed templates.",
  ["mbo/mope/mope_main.cc","mbo/mope/ini.cc","mbo/mope/mope.cc","mbo/file/ini/ini_file.cc"],[("ApplySetFlag, Process, main","mbo/mope/mope_main.cc"),("ReadIniToTemlate","mbo/mope/ini.cc")])
# --- status -----------------------------------------------------------------
p("U01","Status building and propagation never lose code, message or payload",
  "A status built from another keeps its code and payloads unless explicitly replaced, its message is the original with exactly the requested prefixes and suffixes in order, an ok status stays ok and unmodified, and the propagation macros return the first error and otherwise continue with the value.",
  ["histories","inputs"],"every chain of builder operations on every status",
  "Tests chain a few operations.",
  ["mbo/status/status_builder.cc","mbo/status/status_builder.h","mbo/status/status_macros.h","mbo/status/status.h"],[("StatusBuilder","mbo/status/status_builder.cc"),("MBO_RETURN_IF_ERROR / MBO_ASSIGN_OR_RETURN","mbo/status/status_macros.h")])
# --- testing ----------------------------------------------------------------
p("G01","Test matchers and test macros judge exactly what they say, whenever used",
  "Every matcher the library offers accepts a value exactly if the value is what the matcher describes: an element, key or value of the container given; a container with such a capacity, or whose transformed elements match; the very text given (or that text without its indentation); a status that is OK, has such a code and message or such payloads, or holds such a value. Its verdict is the same with or without explanation, negated, composed, through copies and after everything it was made from is gone. Each asserting or expecting macro evaluates its expression once, fails exactly when the status is not OK (fatally and leaving the function if asserting), and otherwise hands on the value.",
  ["inputs","programs"],"every matcher term, value and sequence of macros",
  "Tests sample a few literal matchers within one expression each, and the tests of all other parts rely on them.",
  ["mbo/testing/matchers.h","mbo/testing/status.h"],[("IsElementOf, IsKeyOf, IsValueOf, CapacityIs, WhenTransformedBy, EqualsText, WithDropIndent","mbo/testing/matchers.h"),("IsOk, IsOkAndHolds, StatusIs, StatusHasPayload, StatusPayloads, MBO_ASSERT_OK_AND_ASSIGN","mbo/testing/status.h")])
# --- tools ------------------------------------------------------------------
p("P01","Markdown table alignment changes only padding and is idempotent",
  "Aligning a markdown document changes only padding inside tables (a header row, a delimiter row, body rows, equally indented): every cell's text, the column alignment markers, all non-table lines, everything inside fenced code blocks, the line structure and the form of line ends are preserved; all rows of an aligned table get the same column boundaries with cells justified as their column's marker says, and aligning twice equals aligning once.",
  ["inputs"],"every document",
  "Tests align a few literal tables.",
  ["tools/align_markdown_tables.py"],[("align_text, _format_table, _split_cells","tools/align_markdown_tables.py")])
p("P02","The coverage gate passes exactly when coverage meets policy",
  "Coverage is counted per selected file as the distinct instrumented and executed lines, functions and branches of all of its records together, without those the source's exclusion markers take out and with functions below one merge marker counted once; the gate fails exactly if a metric (as reported, in hundredths of a percent) of the whole or of a category is below the minimum the policy states for it or has no data, or the coverable lines or branches the change touches are below the policy's patch minimum, and names exactly those metrics; reported counts, percentages and statuses agree; grouping puts every selected source with data below its one category and refuses sources with none or several.",
  ["inputs","configurations"],"every coverage report, source, policy and change",
  "Tests feed a few fixed reports.",
  ["tools/coverage.py","tools/coverage_sources.py"],[("parse_lcov, counts, failures, coverage_status","tools/coverage.py"),("grouped","tools/coverage_sources.py")])
p("P03","Cache cleanup expires all but the newest matching entry and nothing else",
  "Given any list of cache entries (with UTC times, with or without fractions of a second), cleanup selects exactly the entries whose key has the given prefix except the newest such entry, and never one that does not match; with fewer than two matching entries it selects nothing.",
  ["inputs"],"every cache listing and prefix",
  "Tests use a fixed listing.",
  ["tools/cache_cleanup.py"],[("expired_cache_ids","tools/cache_cleanup.py")])
p("P04","Build rule checks flag exactly the violating targets",
  "For every set of build rules laid out as buildifier formats them, reading them sees every named top-level rule exactly once with its kind, opening line and dependency labels (none from comments); the naming check reports exactly those C++ libraries whose name lacks the required suffix, the tested-library check exactly those that no test rule of the same package lists in its dependencies (allow-listed ones aside), and scanning a tree reads exactly the build files outside generated, external, vendored and version-control directories.",
  ["inputs","programs"],"every build file text in that layout, every tree",
  "Tests use a few literal snippets.",
  ["tools/build_rules.py","tools/check_cc_target_naming.py","tools/check_cc_library_tested.py"],[("parse_rules, find_build_files","tools/build_rules.py"),("violations","tools/check_cc_target_naming.py"),("untested_libraries","tools/check_cc_library_tested.py")])
p("P05","The coverage site shows the newest report of every target, once and in order",
  "In whatever order reports of runs are offered to the published coverage site, for each target the report of the newest run (by creation, then run, then attempt) stays, a late older run never replaces it and the same run offered again may; the overview lists each target exactly once: main, releases by version and pull requests by number, newest first, with the figures, completion time (UTC), commit and run of that report; a report page shows every row's figures and marks as failing exactly the rows the gate fails.",
  ["histories","inputs"],"every order of finishing runs, every set of retained reports",
  "Tests offer three reports in one order.",
  ["tools/coverage_index.py"],[("is_newer, latest_metadata, render_site, _status","tools/coverage_index.py")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
