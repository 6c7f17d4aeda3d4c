#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, cant, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=cant,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "A live resource handle is never aliased and a dead one is never usable",
  "A component instance hands out a resource handle index that no other live handle of that resource type in that instance has, and until that handle is removed the index keeps denoting the same resource with the same ownership, whatever happens to other handles, other resource types and other instances. Any use (read, transfer, lend, drop) of an index that was never handed out or has been removed traps and changes nothing. A removed index becomes available again: new handles reuse the most recently freed index before the table grows, and never fail because of earlier removals.",
  ["histories"], "every history of create/read/lend/transfer/drop operations over any number of handles, resource types and component instances",
  "TestHandles replays one fixed history whose only two removals happen to free index 0 first; no test removes in another order, uses several resource types, or interleaves re-use with lookups, so the free list is exercised on one path only.",
  ["abi/types/handle.go", "abi/io/canon.go", "abi/io/lift.go", "abi/io/lower.go", "internal/collections/stack/stack.go"],
  [("per-resource-type handle table with a free list", "abi/types/handle.go: HandleTable.Add/Get/Remove"), ("table selection by resource type identity", "abi/types/handle.go: HandleTables.Table")],
  [("handle table", "slot -> live handle or empty, plus the stack of freed indices", "abi/types/handle.go")],
  ["CanonResourceNew/Rep/Drop and LiftOwn/LiftBorrow/LowerOwn/LowerBorrow results", "HandleTables contents"])

p("C02", "A lent handle is pinned until the borrowing call ends, then fully released",
  "While a call that borrowed a handle is in progress, that handle can be neither dropped nor transferred (the attempt traps and changes nothing), however many times it was lent and by however many calls. When a call ends successfully every loan it took is returned exactly once, so a handle's outstanding-loan count is always the number of unfinished loans, and it becomes droppable exactly when that number is zero. A call context still holding borrowed handles in its instance's table cannot be exited: the exit traps and returns no loan.",
  ["histories"], "every interleaving of borrows, nested calls, drops and call exits over any handles",
  "One test borrows two handles once in a single call; nested calls, double lending of one handle, drop attempts during the loan and exits with undropped borrows are never reached.",
  ["abi/types/context.go", "abi/types/handle.go", "abi/io/lift.go", "abi/io/lower.go", "abi/io/canon_lower.go", "abi/io/canon_lift.go"],
  [("lend counting in the lending handle and list of lenders in the call context", "abi/types/context.go: LiftBorrowFrom/ExitCall"), ("borrow counting of lowered borrows", "abi/types/handle.go: HandleTable.Add/Remove via Scope")],
  [("LendCount", "loans of this handle that have not been returned", "abi/types/handle.go"), ("BorrowCount", "borrowed handles lowered for this call and not yet dropped", "abi/types/context.go")],
  ["trap/ok outcome of CanonResourceDrop, LiftOwn, ExitCall", "CanonLower/CanonLift outcomes"])

p("C03", "Resource ownership is linear and destructors run exactly once",
  "Transferring an owned handle out of an instance removes it there and yields the representation it was created with, so at any time each resource is owned by at most one handle and cannot be transferred or destroyed twice; a borrowed handle can never be turned into an owned one. Dropping an owned handle runs the resource type's destructor exactly once, with that resource's representation; dropping a borrowed handle, a failed drop and a transfer never run it. A drop that would have to enter the implementing instance while that instance may not be entered traps without running the destructor.",
  ["histories"], "every history of creation, transfer between instances, borrowing and dropping, with the implementing instance enterable or not",
  "TestHandles counts destructor calls for two drops in one instance; transferring a borrowed handle as owned, cross-instance drops, locked implementing instances and repeated drops are untested.",
  ["abi/io/canon.go", "abi/io/lift.go", "abi/io/lower.go", "abi/types/handle.go", "abi/types/resource_type.go"],
  [("removal on lift of an owned handle and destructor call on drop", "abi/io/canon.go: CanonResourceDrop; abi/io/lift.go: LiftOwn")],
  [("Own", "whether the handle owns the resource", "abi/types/handle.go")],
  ["destructor invocations with their argument", "LiftOwn/CanonResourceDrop outcomes"])

p("C04", "Calls obey the enter/leave discipline of component instances",
  "An instance that may not be entered traps every lifted call into it, and one that may not leave traps every lowered call out of it, in both cases before any argument is processed or any callee runs. An instance may not leave while values are being lowered into it (as seen by its allocator), and may not be entered while an import it called is running; in every other phase of a call both permissions are as they were, and after a successful call both are as they were before it. A successful lifted call runs its callee once, and its post-return hook runs once, only after the results have been lowered into the caller.",
  ["histories", "schedules"], "every nesting of lifted and lowered calls between any instances, including re-entrant attempts from the callee and from the allocator",
  "The tests make one straight-line lift/lower pair and never look at the permissions inside a callee or an allocator, nor attempt a re-entrant call.",
  ["abi/io/canon_lift.go", "abi/io/canon_lower.go", "abi/types/component_instance.go"],
  [("MayEnter/MayLeave flags toggled around lowering and import calls", "abi/io/canon_lift.go: CanonLift; abi/io/canon_lower.go: CanonLower")],
  [("MayEnter/MayLeave", "whether the instance can be entered / can call out", "abi/types/component_instance.go")],
  ["flags observed before, inside and after each phase", "outcome of re-entrant calls", "post-return invocations"])

p("C05", "Size, alignment and discriminants follow the Canonical ABI for every type",
  "For every component value type the reported alignment and size are those of the Canonical ABI: primitives by width, records by aligning each field in order and rounding up to the record's alignment, variants by the smallest of 1, 2 or 4 bytes that can number the cases followed by the largest aligned payload, flags by 1, 2 or a multiple of 4 bytes, strings and lists as pointer-length pairs, handles as 4 bytes. Tuples, unions, enums, options and results have exactly the layout of the records and variants they abbreviate. A type that has no layout is reported as an error, also as part of a record or variant.",
  ["inputs"], "every value type, of any nesting depth, field count and case count (including around 256 and 65536 cases and 8, 16, 32 and more flags)",
  "TestSizeAndAlignment-style tables list a few dozen types; combinations of nesting, padding and boundary case/flag counts are unbounded.",
  ["abi/io/alignment.go", "abi/io/size.go", "abi/io/despecialize.go"],
  [("recursive layout computation", "abi/io/alignment.go: Alignment; abi/io/size.go: Size; abi/io/despecialize.go: Despecialize")],
  (), ["Alignment, Size, DiscriminantType results"])

p("C06", "Flattening gives the Canonical ABI core types and core signatures",
  "Every value type flattens to exactly the sequence of core value kinds the Canonical ABI prescribes, with the payloads of a variant's cases joined position by position after the discriminant, and a type without a flat form is rejected. A function type's core signature passes parameters flat up to the parameter limit and by a single pointer beyond it; results beyond the result limit become a returned pointer when the function is lifted, and an extra trailing pointer parameter with no result when it is lowered.",
  ["inputs", "configurations"], "every value type and function type, every flat parameter/result limit, lift and lower direction",
  "The flatten tests list a few signatures with the default limits; joins of nested variants and flat counts exactly at the limit are not enumerated.",
  ["abi/io/flatten.go", "abi/types/core_func_type.go"],
  [("recursive flattening and join", "abi/io/flatten.go: FlattenType, FlattenVariant, join, FlattenFuncTypeLift/Lower")],
  (), ["FlattenType, FlattenTypes, FlattenFuncTypeLift, FlattenFuncTypeLower results"])

p("C07", "Values written to linear memory have canonical bytes and read back unchanged",
  "Storing a well-typed value writes exactly the bytes of its Canonical ABI representation at the given address and in the blocks obtained from the allocator, requests from the allocator exactly the sizes and alignments that representation needs, and changes no other byte of memory. Loading from that address yields the same value, with every NaN replaced by the canonical NaN and nothing else altered. A case label listing refinements stores the first listed case the variant knows, and loading names the case together with everything it refines.",
  ["inputs"], "every value type and value, address, prior memory contents and allocator placement",
  "Tests store or load a few values per type into fresh zeroed memory and never look at neighbouring bytes, padding, allocator requests or deep combinations.",
  ["abi/io/store.go", "abi/io/load.go", "abi/io/lower.go", "abi/io/canonicalize.go"],
  [("type-directed store and load", "abi/io/store.go: Store; abi/io/load.go: Load")],
  [("linear memory", "bytes addressed by the guest", "abi/types: CanonicalOptions.Memory")],
  ["memory image before and after", "allocator calls", "value returned by Load"])

p("C08", "Values lowered to core values match the flat type and lift back unchanged",
  "Lowering a well-typed value to core values yields exactly as many values, of exactly the kinds, as the type's flattened form, with the Canonical ABI bit patterns: small integers extended, variant payloads coerced to the joined kind, unused positions zero, NaNs canonical. Lifting those core values consumes exactly them and yields the same value, up to NaN canonicalisation.",
  ["inputs"], "every value type and value, in particular every case of variants whose payloads join different core kinds, at any nesting",
  "Tests lift a few dozen literal value lists; the cross product of case, payload kind and join is covered only by a handful of examples, and lowering kinds are checked for a few.",
  ["abi/io/lower.go", "abi/io/lift.go", "abi/values/coerce_value_iterator.go", "abi/values/value.go"],
  [("type-directed flat lowering/lifting with coercion", "abi/io/lower.go: LowerFlat; abi/io/lift.go: LiftFlat; abi/values: coerceValueIterator")],
  (), ["LowerFlat values and kinds", "LiftFlat value and consumed count"])

p("C09", "Lifting untrusted guest data either yields the denoted value or fails cleanly",
  "Lifting or loading a value from arbitrary core values and arbitrary memory contents returns exactly the value they denote under the Canonical ABI, or traps; it never panics, never reads beyond memory and never returns made-up data. It traps on a misaligned or out-of-range string or list (also when address plus length exceeds 2^32), an unknown case number, an invalid character code, and text that is ill-formed in its encoding. Too few core values, or core values of the wrong kind, are reported as an error.",
  ["inputs", "fault_sequences"], "every type, every sequence of core values and every memory content of any size, including pointers and lengths near 2^32",
  "Tests give a few well-placed pointers and a few bad ones near the end of memory; wrap-around, nested corrupt data and exhausted value lists are not reached.",
  ["abi/io/lift.go", "abi/io/load.go", "abi/values/value.go", "abi/values/coerce_value_iterator.go"],
  [("alignment and bounds traps before each indirect access", "abi/io/load.go: LoadListFromRange, LoadStringFromRange, LoadVariant, ConvertU32ToRune; abi/io/canon_lift.go: LiftValues")],
  (), ["LiftFlat/Load/LiftValues outcome (value, trap, error, panic)"])

p("C10", "Lowering never writes outside the memory it was given, whatever goes wrong",
  "When the guest allocator fails, or returns a block that is misaligned or does not lie inside memory, lowering stops with an error at that call, requests nothing more from the allocator and never panics. A host value that does not fit the declared type (wrong kind, out of range, missing field, unknown case, wrong number of values) is rejected with an error, not stored in altered form. In both cases, and when the target address itself is misaligned or out of range, no byte outside the target area and the blocks actually granted is changed.",
  ["inputs", "fault_sequences"], "every value type and value, every allocator fault at every call position, every ill-typed host value and every target address",
  "Tests use one well-behaved allocator and well-typed values only.",
  ["abi/io/store.go", "abi/io/lower.go", "abi/io/canon_lower.go"],
  [("checks after each allocator call and checked conversions of host values", "abi/io/store.go: StoreValidate, StoreListIntoRange, StoreStringDynamic, StoreInt; abi/io/lower.go")],
  (), ["outcome", "allocator calls", "memory image"])

p("C11", "Strings keep their exact code points in every encoding",
  "A string of Unicode scalar values lowered under any supported encoding occupies exactly its encoded bytes in an area requested with that encoding's alignment, is described by its number of code units, and lifts back to the same scalar values; under the combined latin1/utf-16 encoding it is stored as latin1 exactly when every scalar value is below 256 and as tagged utf-16 otherwise. Encoding and then decoding with one codec is the identity for every string the codec can represent, a string it cannot represent is an error, and byte order marks are ordinary characters.",
  ["inputs", "configurations"], "every string of scalar values (including NUL, surrogate-pair and byte-order-mark characters, and any length) and every encoding",
  "The string tests use seven fixed strings; boundaries between encoded lengths and the latin1/utf-16 switch are sampled, not covered.",
  ["abi/io/store.go", "abi/io/load.go", "abi/io/code_units.go", "encoding/"],
  [("codec selection, code unit counting and tagging", "abi/io/store.go: StoreStringIntoRange; abi/io/load.go: LoadStringFromRange; encoding/codec.go")],
  (), ["memory bytes, pointer and tagged length", "lifted string", "codec output"])

p("C12", "Cross-component calls deliver arguments and results unchanged and in order",
  "When one component calls another through a lowered import of a lifted export, the callee receives the caller's arguments and the caller receives the callee's results with the same values and in declaration order, for every function signature, for both string encodings involved, and regardless of whether parameters or results are passed flat or spilled through memory by the flat limits. The core values exchanged on each side have exactly the kinds of that side's core signature.",
  ["inputs", "configurations"], "every function type, argument and result values, flat limits, and memory/encoding configuration of the two components",
  "One round-trip helper is used with signatures that stay below the flat limits, so the spilled paths have no test at all.",
  ["abi/io/canon_lift.go", "abi/io/canon_lower.go"],
  [("LiftValues/LowerValues with spilling to a tuple in memory", "abi/io/canon_lift.go: LiftValues; abi/io/canon_lower.go: LowerValues, LowerValuesToTuple")],
  (), ["arguments seen by the callee, results seen by the caller", "core values at both boundaries"])

p("C13", "LEB128 integers encode minimally and decode exactly or fail",
  "Every 32-bit unsigned integer is encoded as the unique shortest LEB128 byte string, and each decoder returns the encoded integer together with the number of bytes it occupied and takes nothing beyond them from its input. Non-minimal encodings of at most five bytes decode to the integer they denote; input that ends inside an integer, or denotes one that does not fit in 32 bits, is an error in every decoder. The decoders agree with each other however the reader delivers its bytes, and a failing reader or writer is reported.",
  ["inputs", "fault_sequences"], "every 32-bit value, every byte string, every way a reader can split its data",
  "Fifteen literal vectors; no truncated, overlong or overflowing input and no slow reader is tried.",
  ["leb128/encode.go", "leb128/decode.go"],
  [("7-bit group loop", "leb128/encode.go: Encode; leb128/decode.go: Decode, DecodeReader, DecodeSlice")],
  (), ["bytes written", "value, count and error returned", "bytes left in the reader"])

p("C14", "A well-formed core module decodes to exactly the module it encodes",
  "Decoding the binary form of any module within the supported subset (function types, functions, locals, function exports, code made of the supported instructions, and any other sections) returns exactly those types, functions with their type, locals and instruction sequence, and exports, in order, and ignores the other sections wherever they appear. The result does not depend on how the reader splits the bytes, on non-minimal integer encodings, nor on what other sections contain. A component preamble is recognised as a component and any other preamble is an error.",
  ["inputs", "programs"], "every module of the supported subset, every valid encoding of it, every reader behaviour",
  "Five fixture files, none with locals, several functions, several exports or skipped sections between known ones.",
  ["binary/read.go", "binary/binary.go", "leb128/decode.go"],
  [("section dispatch and vector decoding", "binary/read.go")],
  (), ["returned document or error"])

p("C15", "A damaged or truncated binary is always reported, never misread",
  "Cutting a valid module binary anywhere except after the preamble or at the end of a section, and giving a section a size that differs from its contents, yields an error, and so does a reader that fails anywhere. The same holds for unknown instructions, value types, export kinds and type constructors, names that are not UTF-8, repeated or misplaced known sections, and function and code sections of different length. For arbitrary bytes decoding terminates without a panic and without allocating memory out of proportion to the input and the locals it declares.",
  ["crash_points", "inputs", "fault_sequences"], "every prefix of every valid binary, every single-field corruption, every byte string",
  "No test decodes a malformed binary.",
  ["binary/read.go", "leb128/decode.go"],
  [("error propagation from every read and section size accounting", "binary/read.go")],
  (), ["returned document or error, panic, memory used"])

p("C16", "Lexing WebAssembly text loses nothing and classifies every token",
  "The captures of the tokens a lexer returns, in order, are consecutive pieces of the input that together make up all of it, and each token carries the byte offset, line and column where it starts. Each token is the longest one starting there and has the class the text format gives it (parenthesis, string, identifier, integer, float, keyword or reserved word, white space, line or block comment); input that starts no token, such as an unterminated string or comment, is an error. Peeking never changes what is read next, and a cloned lexer and its original advance independently.",
  ["inputs", "histories"], "every text and every sequence of next/peek/clone operations",
  "Thirty-three literal inputs, one token class each; positions across lines, errors, peeks and clones are untested.",
  ["wat/lex/lexer.go", "wat/lex/dfa.go", "wat/lex/string.go", "wat/token/token.go"],
  [("longest match over automata and string rules, reserved words classified afterwards", "wat/lex/lexer.go")],
  [("lexer cursor", "offset, line, column and peeked token", "wat/lex/lexer.go")],
  ["token stream with types, captures and positions", "errors"])

p("C17", "Numeric literals in WebAssembly text denote their exact values",
  "An integer literal (decimal or hexadecimal, optionally signed, with digit separators) used as an i32 or i64 constant denotes its value modulo 2^32 or 2^64 when it lies between the most negative signed and the largest unsigned number of that width, and is an error otherwise. A float literal (decimal or hexadecimal, with or without fraction and exponent, an integer literal, inf or nan with optional payload, each optionally signed) used as an f32 or f64 constant denotes the nearest representable number of that width, or exactly the stated infinity or NaN; a number too large for the width is an error.",
  ["inputs"], "every numeric literal and the four constant types",
  "The parse tests contain a handful of small constants; widths, signs, range limits, rounding and NaN payloads are not covered.",
  ["wat/parse/parser.go", "wat/lex/lexer.go"],
  [("literal classification and conversion", "wat/lex/lexer.go: isInteger, isFloat; wat/parse/parser.go: parseInt32, parseInt64, parseFloat32, parseFloat64")],
  (), ["constant instruction in the parsed module", "error"])

p("C18", "Parsing a WebAssembly text module yields exactly the module written",
  "For every text in the supported module grammar the parsed module contains exactly the written functions, types, memories, tables and globals, with their identifiers, export names, parameters, results, locals and instruction trees, in the written order and with nothing added, dropped or left empty. White space and comments between tokens never change the result. A text that does not start with a module of the grammar is rejected with an error, what follows the module is left unread, and parsing never panics.",
  ["inputs", "programs"], "every token sequence up to a bound and every module text of the grammar, with arbitrary layout",
  "Seven literal modules.",
  ["wat/parse/parser.go", "wat/ast/ast.go"],
  [("recursive descent over the token stream", "wat/parse/parser.go")],
  (), ["returned syntax tree or error"])

p("C19", "Parsing a WebAssembly script yields exactly the directives written",
  "For every script in the supported grammar (modules, components and quoted modules, and return, trap, invalid and malformed assertions over invocations with constant arguments and expected results) parsing returns exactly those directives in order, each with the written module, export name, arguments, expected results and failure message. A script with an unsupported or malformed directive, action or constant anywhere is rejected, and parsing never panics.",
  ["inputs", "programs"], "every script of the grammar and every token-level corruption of one",
  "Six literal scripts, one directive each; the integration test needs files that are not part of the repository.",
  ["wast/parse/parser.go", "wast/ast/ast.go"],
  [("recursive descent over the WAT token stream", "wast/parse/parser.go")],
  (), ["returned directives or error"])

p("C20", "Lexing WIT text loses nothing and classifies every token",
  "The captures of the tokens a WIT lexer returns, in order, are consecutive pieces of the input that together make up all of it, and each token carries the byte offset, line and column where it starts. Keywords, identifiers, explicit identifiers, integers, punctuation, white space, line comments and nested block comments are recognised by longest match; anything else, such as an unterminated block comment, is an error. Peeking never changes what is read next, and a cloned lexer and its original advance independently.",
  ["inputs", "histories"], "every text and every sequence of next/peek/clone operations",
  "Ten literal inputs; positions, comment nesting, errors, peeks and clones are untested.",
  ["wit/lex/lexer.go", "wit/token/types.go"],
  [("hand-written scanner", "wit/lex/lexer.go")],
  [("lexer cursor", "offset, line, column and peeked token", "wit/lex/lexer.go")],
  ["token stream with types, captures and positions", "errors"])

p("C21", "Parsing WIT text yields exactly the interfaces, worlds and types written",
  "For every text in the supported WIT grammar the parsed document contains exactly the written package declaration, uses, interfaces, worlds, type definitions, resources and functions, with their names, fields, cases, parameters, results and complete types, in order and with nothing added, dropped or left empty. White space and comments between tokens never change the result. A text outside the grammar is rejected with an error, and parsing never panics.",
  ["inputs", "programs"], "every token sequence up to a bound and every document of the grammar, with arbitrary layout",
  "The parser tests read files from a submodule that is absent, so nothing about the parser is tested at all.",
  ["wit/parse/parser.go", "wit/ast/ast.go"],
  [("recursive descent over the token stream", "wit/parse/parser.go")],
  (), ["returned syntax tree or error"])

p("C22", "Instantiating modules gives every function its own store address",
  "Instantiating a module in a store adds exactly its functions, in order, behind everything already in the store, and gives the instance exactly their addresses in order; nothing that was in the store changes, so addresses held by other instances keep denoting the same functions, and other stores are unaffected. Looking up an exported function by name in an instance yields that function's address, and looking up any other name finds nothing. A module that exports a function it does not have is rejected without changing the store.",
  ["histories", "programs"], "every sequence of instantiations of any modules in any number of stores",
  "No test touches the package.",
  ["runtime/instance.go", "runtime/store.go"],
  [("appending to the store", "runtime/instance.go: NewModuleInstance; GetExport")],
  [("store functions", "address -> function instance", "runtime/store.go")],
  ["store contents, instance addresses, export lookup"])

p("C23", "Text conversion is exact, however the data arrives",
  "Encoding any text with any of the supported codecs and decoding the result gives the same code points, and the bytes are those of the named encoding, without byte order marks. The result does not depend on the pieces in which a reader delivers its data, and a failing reader or writer, or a character that the encoding can not express, is reported. Malformed data never becomes a different well-formed text silently: what precedes the damage is kept, and the damage shows as an error or as a replacement character.",
  ["inputs", "faults"], "any codec, any text, any malformed bytes, any division into reads, a failure after any byte",
  "The tests convert sixteen short well-formed strings held in memory.",
  ["encoding/codec.go", "encoding/utf8.go", "encoding/utf16.go", "encoding/latin1.go", "encoding/factory.go", "encoding/helper.go"],
  [("converting while reading and writing", "encoding/codec.go: Encode; Decode"), ("finding a codec", "encoding/factory.go: Get; Lookup")],
  [("converted text", "bytes read -> bytes written", "encoding/codec.go")],
  ["bytes written, status"])

p("C24", "Flat values are handed out once each, in order, at their own kind",
  "An iterator over flat core values hands out every value exactly once and in order, with all of its bits, and reports how many have been taken and how many there are; asking for a value of another kind than the next one has, or for one more than there are, is an error. A coercing view over an iterator takes the same values in the same order and reads each as the low bits of the joined kind it was stored at, so 32-bit and floating point values come out exactly as they were put in. The zero of every core kind is a value of that kind with all bits clear.",
  ["inputs", "histories"], "any values, any nesting of views, any sequence of requests",
  "The tests reach the iterators only by lifting a handful of variants; kinds that do not match, exhaustion, positions and nested views are untested.",
  ["abi/values/value.go", "abi/values/coerce_value_iterator.go", "abi/values/factory.go", "abi/values/int.go", "abi/values/float.go"],
  [("taking the next value", "abi/values/value.go: Next"), ("reading at another kind", "abi/values/coerce_value_iterator.go: Next")],
  [("iterator position", "values taken so far", "abi/values/value.go")],
  ["values taken, index, length, errors"])

p("C25", "Decoding text from a reader accepts exactly the well-formed modules",
  "Decoding a text from a reader gives a module for every well-formed module, a component for every well-formed component, and an error for everything else. The outcome does not depend on the pieces in which the reader delivers the text or on what was decoded before. A reader that fails makes decoding fail, whatever it delivered before, and decoding never panics.",
  ["inputs", "faults"], "any text, any division into reads, a failure after any byte",
  "No test decodes text from a reader.",
  ["wat/decoder.go", "wat/parse/parser.go", "wat/lex/lexer.go"],
  [("reading all of the text", "wat/decoder.go: Decode"), ("telling modules from components", "wat/decoder.go: directive")],
  (), ["kind of the result, errors"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P))
