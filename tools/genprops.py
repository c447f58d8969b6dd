#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit the wording)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook or "none: observed through the public packages"
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("A01", "Values survive a round trip through guest memory",
 "Any value of any component type that the host writes into guest memory is read back from the same address as an equal value, whatever the string encoding, the nesting of the type and the place in memory. Only NaNs may change, and only into the canonical NaN.",
 ["inputs", "configurations"], "all value types (scalars, strings, lists, records, tuples, flags, variants, enums, unions, options, results, nested), all values of each, the three guest string encodings, all aligned addresses",
 "Tests store a couple of dozen hand-picked values; offsets, discriminant widths, padding and transcoding interact over an unbounded space of nested types and boundary sizes.",
 ["abi/io/store.go", "abi/io/load.go", "abi/io/size.go", "abi/io/alignment.go", "abi/io/despecialize.go"],
 [("memory store", "abi/io/store.go Store"), ("memory load", "abi/io/load.go Load"), ("string transcoding", "encoding/codec.go"), ("variant refinement labels", "abi/io/load.go CaseLabelWithRefinements")],
 observe=["value returned by Load after Store"])

prop("A02", "Values survive flat lowering and lifting",
 "Any value of any component type that is lowered to core wasm values lifts back to an equal value, and lifting consumes exactly the core values that lowering produced. This holds inside variants too, where different cases share and reinterpret the same core slots.",
 ["inputs", "configurations"], "all value types and values, three string encodings, variants whose cases mix integer and float slots of both widths",
 "The slot sharing between variant cases is combinatorial in the case payloads; tests use a few variants with one or two payload shapes.",
 ["abi/io/lower.go", "abi/io/lift.go", "abi/io/flatten.go", "abi/values/coerce_value_iterator.go", "abi/values/value.go"],
 [("flat lowering", "abi/io/lower.go LowerFlat"), ("flat lifting", "abi/io/lift.go LiftFlat"), ("slot coercion", "abi/values/coerce_value_iterator.go"), ("core value iteration", "abi/values/value.go")],
 observe=["value returned by LiftFlat over the result of LowerFlat, and the iterator position"])

prop("A03", "Memory images follow the canonical layout byte for byte",
 "The size and alignment reported for every type, and every byte written when a value is stored, are those of the Canonical ABI: little-endian, naturally aligned, minimal discriminants, packed flags, pointer and length pairs for strings and lists. No byte outside the value's own fields and the blocks obtained from the guest allocator is modified.",
 ["inputs", "configurations"], "all value types, values, encodings, addresses and prior memory contents",
 "A store/load pair can agree with itself and still be incompatible with every other toolchain; only comparison with an independent layout model over many types shows it.",
 ["abi/io/store.go", "abi/io/size.go", "abi/io/alignment.go", "abi/io/code_units.go", "abi/io/despecialize.go"],
 [("size", "abi/io/size.go"), ("alignment and discriminant width", "abi/io/alignment.go"), ("stores", "abi/io/store.go"), ("string length tag", "abi/io/code_units.go")],
 observe=["the guest memory bytes before and after a store", "arguments of the allocator calls"])

prop("A04", "Core signatures and flat values follow canonical flattening",
 "The core signature computed for every component type and function type, on the lifting and on the lowering side and for any flat limits, is the canonical one, including the joined slots of variants and the spilling of large parameter and result lists. Lowering a value yields exactly one core value per slot, of that slot's kind, with the canonical bits and zero-filled unused slots.",
 ["inputs", "configurations"], "all value and function types, values, and flat parameter/result limits",
 "Tests check a dozen signatures; joins depend on every pair of slot kinds at every position of every case.",
 ["abi/io/flatten.go", "abi/io/lower.go", "abi/values/factory.go", "abi/values/int.go", "abi/values/float.go"],
 [("flattening", "abi/io/flatten.go"), ("kind join", "abi/io/flatten.go join"), ("flat lowering", "abi/io/lower.go"), ("zero values", "abi/values/factory.go")],
 observe=["kinds returned by the flattening functions", "kinds and bits of lowered values"])

prop("A05", "Lifting arbitrary guest data yields the canonical value or a trap",
 "For every sequence of core values of the right kinds, and every guest memory image, lifting returns precisely the value the Canonical ABI assigns: any non-zero boolean is true, integers wrap to their width, unused flag bits are ignored, floats keep their bits. It traps exactly when the ABI does: surrogate or out-of-range characters, case numbers out of range, ill-formed text, bad addresses.",
 ["inputs"], "all types x arbitrary core values and arbitrary memory contents (not only those produced by lowering)",
 "Round trips only ever see well-formed data; a guest is free to supply anything, and tests try a handful of out-of-range numbers.",
 ["abi/io/lift.go", "abi/io/load.go", "abi/values/coerce_value_iterator.go", "abi/io/canonicalize.go"],
 [("flat lifting", "abi/io/lift.go"), ("memory loads", "abi/io/load.go"), ("character validation", "abi/io/load.go ConvertU32ToRune"), ("slot coercion", "abi/values/coerce_value_iterator.go")],
 observe=["value or error returned by lifting"])

prop("A06", "Guest pointers and lengths never reach outside guest memory",
 "Whatever 32-bit address, length or case number a guest supplies, directly or nested inside its memory, lifting either returns a value built only from bytes inside the guest memory or reports an error. It never panics and never wraps around the address space.",
 ["inputs"], "all types, memory sizes, addresses and lengths over the full 32-bit range, including sums and products that overflow 32 bits",
 "The failing inputs sit at arithmetic edges (address plus length near 2^32, length times size wrapping to a small number) that hand-written tests do not visit.",
 ["abi/io/load.go", "abi/io/lift.go", "abi/io/canon_lift.go", "abi/io/canon_lower.go", "abi/values/value.go"],
 [("list bounds", "abi/io/load.go LoadListFromRange"), ("string bounds", "abi/io/load.go LoadStringFromRange"), ("spilled values", "abi/io/canon_lift.go LiftValues"), ("core value iteration", "abi/values/value.go")],
 observe=["returned value or error; panics"])

prop("A07", "A misbehaving guest allocator is contained",
 "When the guest's allocator returns a misaligned, out-of-range or overlapping-the-end address, fails, or grows the memory while being called, lowering reports an error unless the block really fits, never panics, and modifies no byte outside the blocks the allocator handed out and the destination of the store. The allocator is always asked for the exact canonical size and alignment.",
 ["inputs", "fault_sequences"], "all types and values x sequences of allocator replies (valid, misaligned, past the end, near 2^32, error, growing memory)",
 "Tests use one well-behaved bump allocator; replies are guest controlled and the k-th of several nested allocations may be the bad one.",
 ["abi/io/store.go", "abi/io/lower.go", "abi/io/canon_lower.go"],
 [("string allocation", "abi/io/store.go StoreStringDynamic"), ("list allocation", "abi/io/store.go StoreListIntoRange"), ("spilled tuples", "abi/io/canon_lower.go LowerValuesToTuple"), ("destination check", "abi/io/store.go StoreValidate")],
 observe=["allocator arguments", "memory before and after", "returned error"])

prop("A08", "Text survives every guest string encoding unchanged",
 "Any Unicode text passed to a guest in any supported encoding and passed on to a guest with any other encoding arrives as the same text, stored as well-formed bytes of that encoding with the right length in code units and the right Latin-1/UTF-16 tag. Ill-formed text in guest memory is reported as a trap instead of being silently altered.",
 ["inputs", "configurations"], "all strings of Unicode scalar values (empty, astral, byte-order marks, NULs, long ones crossing buffer sizes) x all pairs of encodings; arbitrary byte strings on the way in",
 "Tests use a few short strings; truncation, BOM stripping, surrogate handling and buffer-boundary errors depend on content and length.",
 ["abi/io/store.go", "abi/io/load.go", "abi/io/code_units.go", "encoding/codec.go", "encoding/utf8.go", "encoding/utf16.go", "encoding/latin1.go", "encoding/factory.go", "encoding/helper.go"],
 [("store string", "abi/io/store.go StoreStringIntoRange"), ("load string", "abi/io/load.go LoadStringFromRange"), ("length tag", "abi/io/code_units.go"), ("codecs", "encoding/")],
 observe=["guest bytes, code unit counts and lifted strings"])

prop("A09", "Ill-typed host values are refused, never coerced or fatal",
 "Passing a host value that does not belong to the declared component type (wrong dynamic type, missing field or flag, unknown or ambiguous case, invalid character, integer out of range, wrong number of arguments, text or a list longer than a guest can hold, a type the component model does not define) makes lowering and storing return an error. It never panics and never silently writes or passes some other value.",
 ["inputs"], "all types x values obtained by breaking one leaf, at any depth, of a well-typed value; texts and lists of up to 8 GiB",
 "Each conversion has its own failure path per type and per depth; tests cover nearly none of them.",
 ["abi/io/lower.go", "abi/io/store.go", "abi/io/canon_lower.go", "abi/types/cast.go"],
 [("flat lowering casts", "abi/io/lower.go"), ("integer stores", "abi/io/store.go StoreInt"), ("case matching", "abi/io/lower.go MatchCase"), ("argument lowering", "abi/io/canon_lower.go LowerValues")],
 observe=["returned error; panics; memory written"])

prop("A10", "Calls deliver every argument and result intact and in order",
 "For every function type, every choice of flat limits and every pair of caller and callee memories and encodings, the callee of a lifted or lowered call receives exactly the arguments the caller passed and the caller receives exactly the results, in declaration order, whether they travel as core values or through memory. The core values exchanged match the declared core signature and the post-return function runs exactly once, after the results have been read. When a side fails, or passes core values that denote no values of the declared types, the call fails with an error and a callee is not run with anything else.",
 ["inputs", "programs", "configurations"], "all function types (0..300 parameters and results), argument values, flat limits, encodings of both sides; also chains caller -> lower -> lift -> callee, failing sides and garbled core values and memories",
 "Spilling depends on the total flat width of the signature; tests call a handful of fixed signatures, none of which exercise spilled parameters and results end to end.",
 ["abi/io/canon_lift.go", "abi/io/canon_lower.go", "abi/io/flatten.go", "abi/types/func.go"],
 [("lifted call", "abi/io/canon_lift.go CanonLift"), ("lowered call", "abi/io/canon_lower.go CanonLower"), ("spilled results", "abi/io/canon_lift.go LiftValues"), ("spilled parameters", "abi/io/canon_lower.go LowerValuesToTuple")],
 state=[("guest memories", "hold the arguments and results that are passed by address", "abi/types/context.go Options.Memory of either side")], observe=["arguments seen by the callee", "core values exchanged", "results seen by the caller", "post-return calls"])

prop("A11", "Floats cross the boundary bit-exactly and NaNs become canonical",
 "Every non-NaN float, including negative zero, subnormals and infinities, keeps its exact bits across lowering, storing, lifting and loading, alone or nested in any type. Every NaN, whatever its sign, quietness and payload, comes out as the one canonical quiet NaN of its width on both directions.",
 ["inputs"], "all 2^32 single and 2^64 double bit patterns, in any enclosing type and slot coercion",
 "Tests check a few NaN patterns; float conversions silently lose payloads, signs or subnormals for specific bit patterns only.",
 ["abi/io/canonicalize.go", "abi/io/lift.go", "abi/io/lower.go", "abi/io/load.go", "abi/io/store.go", "abi/values/float.go", "abi/values/coerce_value_iterator.go"],
 [("NaN canonicalisation", "abi/io/canonicalize.go"), ("float stores and loads", "abi/io/store.go, abi/io/load.go"), ("slot coercion", "abi/values/coerce_value_iterator.go")],
 observe=["bits of floats in core values, memory and host values"])

prop("R01", "Handle tables name live resources uniquely and reuse freed slots",
 "Over any history of adding, looking up and removing handles of several resource types, every live handle keeps designating the resource it was created for, no two live handles of one type share a number, freed numbers are reused before the table grows, and a number that is unused, freed or belongs to another resource type is rejected with a trap.",
 ["histories"], "all interleavings of new, lookup, drop, lower and lift operations on several instances and resource types",
 "Slot reuse only goes wrong after particular orders of removal; the tests run one linear scenario.",
 ["abi/types/handle.go", "abi/io/canon.go", "internal/collections/stack/stack.go"],
 [("add/get/remove", "abi/types/handle.go HandleTable"), ("free list", "internal/collections/stack/stack.go"), ("resource intrinsics", "abi/io/canon.go")],
 state=[("handle tables", "per resource type, the handles an instance holds and the numbers that are free", "abi/types/handle.go HandleTables and HandleTable")], observe=["handle numbers, representations and errors returned"])

prop("R02", "Owned handles move exactly once and borrows never outlive their lender",
 "Over any history, passing an owned handle removes it from the giver, only owned handles can be passed as owned, a handle that is lent out can be neither dropped nor given away until the borrowing call ends, and the call cannot end while borrows it handed out are still in a table. The destructor runs exactly once, with the right representation, when an owned handle is dropped, and never for a borrow.",
 ["histories"], "all interleavings of resource creation, calls passing own/borrow handles, nested calls, drops and call exits",
 "Lifetimes are a protocol over histories with several instances; tests cover one happy path and two traps.",
 ["abi/types/handle.go", "abi/types/context.go", "abi/io/canon.go", "abi/io/lift.go", "abi/io/lower.go", "abi/io/load.go", "abi/io/store.go"],
 [("lend counting", "abi/types/context.go"), ("own/borrow lifting", "abi/io/lift.go LiftOwn, LiftBorrow"), ("own/borrow lowering", "abi/io/lower.go LowerOwn, LowerBorrow"), ("drop", "abi/io/canon.go CanonResourceDrop")],
 state=[("handle tables", "which handles an instance holds, owned or borrowed", "abi/types/handle.go"), ("lend counts", "how many running calls have borrowed an owned handle", "abi/types/handle.go HandleElem.LendCount"), ("borrow counts", "how many borrowed handles a call has not dropped yet", "abi/types/context.go CallContext")], observe=["handles, errors and destructor calls"])

prop("R03", "Instances cannot be entered or left while they must not be",
 "A component instance that may not be entered refuses to run a lifted function, and one that may not be left refuses to call out, with an error and without running the other side. While values are being lowered into an instance it may not be left, while it is calling an import it may not be entered, and after any successful call both permissions are as before.",
 ["histories", "programs"], "all nestings of lifted and lowered calls over several instances, including re-entrant attempts from callees, allocators and destructors",
 "Re-entrance happens only when callbacks call back into the instance at particular moments; the tests never do this.",
 ["abi/io/canon_lift.go", "abi/io/canon_lower.go", "abi/io/canon.go", "abi/types/component_instance.go"],
 [("lift guards", "abi/io/canon_lift.go CanonLift"), ("lower guards", "abi/io/canon_lower.go CanonLower"), ("destructor guard", "abi/io/canon.go CanonResourceDrop")],
 state=[("permissions", "whether an instance may be entered and left at the moment", "abi/types/component_instance.go MayEnter and MayLeave")], observe=["permissions seen inside callbacks and after calls", "errors", "whether the callee ran"])

prop("B01", "Binary modules decode to what they encode",
 "Decoding the binary encoding of any module made of supported types, functions, locals, instructions and exports yields a module with exactly those types, functions (type, locals, body) and exports in order. Custom and unsupported sections, redundantly long integer encodings and the way the input stream is chunked make no difference.",
 ["programs", "configurations"], "all modules over the supported section and instruction set, all legal re-encodings of them, all stream chunkings",
 "Tests decode six tiny fixture files; counts, index widths, section combinations and interleaved unknown sections are unbounded.",
 ["binary/read.go", "binary/binary.go", "leb128/decode.go", "api/directive.go"],
 [("module reader", "binary/read.go"), ("integer decoding", "leb128/")],
 observe=["decoded module value"])

prop("B02", "Malformed binary modules are rejected",
 "A byte stream that is not a well-formed module of the supported subset is reported as an error: wrong magic or version, truncation at any point other than a section boundary, section or body sizes that disagree with their contents, counts that disagree between the function and code sections, unknown type codes, opcodes or export kinds, ill-formed names, over-long or overflowing integers, repeated or out-of-order sections.",
 ["inputs", "fault_sequences"], "every truncation point and every single structural corruption of generated modules",
 "The tests contain no malformed input; each acceptance bug needs a particular corruption at a particular place.",
 ["binary/read.go", "binary/binary.go", "leb128/decode.go"],
 [("preamble", "binary/read.go ReadPreamble"), ("sections", "binary/read.go"), ("integer decoding", "leb128/")],
 observe=["error returned by the reader"])

prop("B03", "The binary reader is total and bounded by its input",
 "On any byte stream whatsoever, delivered in any chunks and possibly ending in a read error, the binary reader returns a document or an error without panicking, always terminates, and allocates memory proportional to the bytes it was given, never to a count or size merely claimed by the input. Only a run of equal local variables, which is a count by design, may be larger, and it is bounded by a fixed limit.",
 ["inputs", "fault_sequences"], "arbitrary byte strings, mutated modules with huge claimed counts, failing readers",
 "Claimed counts up to 2^32-1 and hostile byte strings form a space no unit test enumerates.",
 ["binary/read.go", "leb128/decode.go"],
 [("vector allocation", "binary/read.go"), ("integer decoding", "leb128/")],
 observe=["panics, bytes allocated, termination, result"])

prop("L01", "LEB128 integers round-trip in minimal form",
 "Every unsigned 32-bit integer is encoded in the unique shortest form, and decoding it from a reader, a stream or a byte slice gives back the integer, the number of bytes used and leaves everything after those bytes unread.",
 ["inputs", "configurations"], "all 2^32 integers, any trailing bytes, any reader behaviour permitted by the io.Reader contract",
 "Tests check a few constants with one reader implementation.",
 ["leb128/encode.go", "leb128/decode.go"],
 [("encoder", "leb128/encode.go"), ("decoders", "leb128/decode.go")],
 observe=["bytes, values, counts and remaining input"])

prop("L02", "Malformed LEB128 input is rejected the same way by every decoder",
 "Input that ends inside an integer, uses more than five bytes or encodes a value of 2^32 or more is reported as an error by each of the decoding entry points, and on all inputs the entry points agree on value, length and acceptance. Redundant but legal zero padding up to five bytes is accepted.",
 ["inputs"], "all byte strings",
 "Overflow in the last byte and over-long forms need particular bit patterns; the tests contain no malformed input.",
 ["leb128/decode.go"],
 [("decoders", "leb128/decode.go")],
 observe=["value, count and error of each decoder"])

prop("W01", "Text-format tokens tile the source with exact positions",
 "Lexing any WebAssembly text yields tokens whose captures, concatenated, are exactly the source, each carrying its true byte offset, line and column, followed by end-of-stream forever; anything else is an error. Looking ahead never changes what is read next, a copy of the lexer proceeds independently of the original, and progress is always made.",
 ["inputs", "histories"], "all input strings and all interleavings of peek, next and clone",
 "Tests lex short single tokens; lost characters and wrong positions only show in combinations of tokens, newlines and comments.",
 ["wat/lex/lexer.go", "wat/lex/dfa.go", "wat/lex/state.go", "wat/lex/string.go", "wat/lex/factory.go", "wat/token/token.go"],
 [("lexer", "wat/lex/"), ("token", "wat/token/token.go")],
 observe=["token stream, positions, errors"])

prop("W02", "Text-format lexemes are classified as the grammar says",
 "Every identifier, integer, float, string, comment, whitespace run, parenthesis and keyword spelled according to the WebAssembly text grammar is lexed as one token of its own kind, with the longest possible extent, whatever token follows. Spellings the grammar does not allow as numbers are never classified as numbers, nested comments close where they should, escapes in strings are honoured, and unterminated strings and comments are errors.",
 ["inputs"], "all lexemes derivable from the grammar, near-misses of them, and all pairs of adjacent tokens",
 "The literal grammar (signs, underscores, hex, fractions, exponents, NaN payloads) has thousands of shapes; the tests list some dozens.",
 ["wat/lex/lexer.go", "wat/lex/dfa.go", "wat/lex/factory.go", "wat/lex/registry.go", "wat/token/token.go"],
 [("number recognition", "wat/lex/"), ("string and comment rules", "wat/lex/")],
 observe=["token types and captures"])

prop("W03", "Parsing the text format preserves every part of the module",
 "Printing any module of the supported text format in any legal layout (spacing, comments, plain or folded instructions, symbolic or numeric references) and parsing it gives back exactly that module: every section, name, type, limit, immediate and instruction, in order. Whitespace and comments never change the result.",
 ["programs", "configurations"], "all modules over the supported grammar and all layouts of each",
 "Tests parse a few dozen fixed snippets; dropped or misplaced parts show only in combinations.",
 ["wat/parse/parser.go", "wat/ast/ast.go"],
 [("parser", "wat/parse/parser.go"), ("tree", "wat/ast/")],
 observe=["syntax tree returned by the parser"])

prop("W04", "Numeric literals denote exactly the value the grammar gives them",
 "Every integer and float literal accepted for a 32- or 64-bit constant, an index or a limit, in decimal or hexadecimal, with sign, underscores, fraction, exponent, infinity or NaN payload, is parsed to the correctly rounded value with the exact bits. Literals out of range for their type are errors, never wrapped or saturated.",
 ["inputs"], "all literals derivable from the grammar at each constant, index and limit position, with boundary values",
 "Wrong bases, widths and roundings affect only particular digits and magnitudes, which the tests' small numbers never reach.",
 ["wat/parse/parser.go", "wat/lex/lexer.go"],
 [("integer parsing", "wat/parse/parser.go"), ("float parsing", "wat/parse/parser.go")],
 observe=["constants in the syntax tree, compared with arbitrary-precision arithmetic"])

prop("W05", "Malformed text is an error, never a panic, hang or partial module",
 "On any input the text-format lexer, parser and decoder terminate and return either a result or an error, without panicking. A module that is cut short, has unbalanced parentheses, an unknown keyword or a missing or ill-typed part is reported as an error rather than accepted with parts missing.",
 ["inputs", "fault_sequences"], "arbitrary strings, every truncation and every single-token deletion, duplication or replacement of generated modules",
 "The malformed neighbourhood of valid programs is vast and the tests contain almost none of it.",
 ["wat/parse/parser.go", "wat/lex/lexer.go", "wat/decoder.go"],
 [("parser errors", "wat/parse/parser.go"), ("lexer errors", "wat/lex/"), ("decoder", "wat/")],
 observe=["result, error, panics, termination"])

prop("S01", "Test scripts parse to exactly the directives they contain",
 "Printing any script of modules, quoted modules and assertions about modules and invocations, in any legal layout, and parsing it gives back exactly those directives in order, with every function name, argument constant, expected result, expected message and module preserved.",
 ["programs", "configurations"], "all scripts over the supported directives and all layouts",
 "The existing integration test needs files that are not in the repository, and the unit tests cover single directives.",
 ["wast/parse/parser.go", "wast/ast/ast.go", "wat/parse/parser.go"],
 [("script parser", "wast/parse/"), ("module parser", "wat/parse/parser.go")],
 observe=["syntax tree returned by the script parser"])

prop("S02", "Malformed scripts are errors, never panics or half-read directives",
 "On any input the script parser terminates with a script or an error and does not panic; a script cut short, or with an unknown directive, action or constant, or a missing part, is reported as an error.",
 ["inputs", "fault_sequences"], "arbitrary strings, every truncation and single-token edit of generated scripts",
 "The tests contain no malformed scripts.",
 ["wast/parse/parser.go"],
 [("script parser", "wast/parse/")],
 observe=["result, error, panics, termination"])

prop("I01", "Interface-language tokens tile the source with exact positions and kinds",
 "Lexing any interface definition text yields tokens whose captures concatenate to the source, each with its true offset, line and column and its own kind: keywords, identifiers, escaped identifiers, integers, punctuation, nested comments. Looking ahead does not change the stream, and text that is no token is an error.",
 ["inputs", "histories"], "all strings, all token sequences, all interleavings of peek and next",
 "Tests lex single tokens; keyword/identifier boundaries, comment nesting and positions interact in sequences.",
 ["wit/lex/lexer.go", "wit/token/token.go", "wit/token/types.go"],
 [("lexer", "wit/lex/"), ("keywords", "wit/token/")],
 observe=["token stream, positions, errors"])

prop("I02", "Parsing interface definitions preserves every declaration",
 "Printing any package of worlds, interfaces, types, resources, functions, uses and includes in any legal layout and parsing it gives back exactly that package: names, versions, parameter and field order, and every type at every nesting depth. Whitespace, comments and optional trailing commas never change the result.",
 ["programs", "configurations"], "all packages over the supported grammar and all layouts of each",
 "The parser tests depend on files that are not in the repository and do not run, so nothing here is exercised end to end.",
 ["wit/parse/parser.go", "wit/ast/ast.go"],
 [("parser", "wit/parse/"), ("tree", "wit/ast/")],
 observe=["syntax tree returned by the parser"])

prop("I03", "Malformed interface definitions are errors, never panics or guesses",
 "On any input the interface parser terminates with a tree or an error and does not panic; a definition that is cut short, has a stray or missing token, or uses punctuation or a keyword where a name or type is required is reported as an error rather than skipped or taken for a name.",
 ["inputs", "fault_sequences"], "arbitrary strings, every truncation and single-token edit of generated packages",
 "No test supplies malformed definitions.",
 ["wit/parse/parser.go", "wit/lex/lexer.go"],
 [("parser errors", "wit/parse/"), ("lexer errors", "wit/lex/")],
 observe=["result, error, panics, termination"])

prop("E01", "Character codecs agree with the Unicode standard and with themselves",
 "Each character codec encodes every string it can represent to the standard bytes of its encoding and decodes them back to the same string, independent of how the byte stream is chunked; a string it cannot represent is an error. Encodings are found by name or identifier and unknown ones are errors. Ill-formed input is an error or shows up as replacement characters, never silently dropped, and a failing stream is reported.",
 ["inputs", "configurations", "fault_sequences"], "all strings of Unicode scalar values, all ill-formed byte sequences, all codecs, all chunkings of the stream, streams that fail at any point",
 "Streaming transforms fail only when a multi-byte sequence straddles an internal buffer edge.",
 ["encoding/codec.go", "encoding/utf8.go", "encoding/utf16.go", "encoding/latin1.go", "encoding/factory.go", "encoding/helper.go"],
 [("codecs", "encoding/"), ("factory", "encoding/factory.go")],
 observe=["bytes and strings produced, errors"])

prop("T01", "Instantiation gives every function its own stable store address",
 "Instantiating any sequence of modules against one store gives each function a fresh address that designates that very function in declaration order, leaves all earlier addresses and instances untouched, and exports are found by exactly their name.",
 ["histories"], "all sequences of module instantiations on one or several stores",
 "Tests instantiate one module once; aliasing only appears with several instances.",
 ["runtime/instance.go", "runtime/store.go", "instance/module.go", "instance/export.go"],
 [("module instantiation", "runtime/instance.go"), ("store", "runtime/store.go")],
 state=[("function list", "the functions of all instances; the position is the address", "runtime/store.go")], observe=["addresses and store contents"])

prop("D01", "Lexing, parsing, decoding and lifting are pure and isolated",
 "Running any of the lexers, parsers, decoders or value conversions twice on equal inputs, or many of them at once on separate goroutines, gives the same results and errors as running each alone, and never modifies the inputs.",
 ["schedules", "inputs"], "all inputs of the other properties, repeated and run concurrently",
 "Shared tables, iteration over unordered maps and reused buffers only show up under repetition and concurrency.",
 ["wat/lex/lexer.go", "wit/lex/lexer.go", "binary/read.go", "abi/io/load.go", "abi/io/store.go", "encoding/factory.go"],
 [("shared rule tables", "wat/lex/"), ("codec factory", "encoding/factory.go"), ("conversions", "abi/io/")],
 observe=["results of repeated and concurrent runs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
