#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["restruct.Pack", "restruct.Unpack", "restruct.SizeOf", "restruct.BitSize"]
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Unpack inverts Pack",
 "For every struct type the tag language can describe and every value of it that fits its declared binary layout, packing the value and unpacking the bytes into a fresh value with the same byte order gives back an equal value, and packing that again gives identical bytes. This holds for every mix of features in one type: nesting, slices, strings, pointers, casts, bit-fields, counters, padding, skips, byte orders, boolean encodings, conditions, switches, custom codecs.",
 ["inputs", "programs"], "every type built from the supported kinds and tags x every value that fits x both byte orders",
 "The tests pack a few dozen hand-written structs; the space of types x tags x values is unbounded and features interact (offsets, skip, order, counters), so only a generator over types reaches the combinations.",
 ["encoder.go", "decoder.go", "field.go", "structstack.go", "packing.go"],
 [("encoder walk", "encoder.go: encoder.write"), ("decoder walk", "decoder.go: decoder.read"), ("field table", "field.go: fieldsFromStruct")])

prop("C02", "Packed bytes are exactly the documented layout",
 "Packing writes the fields in declaration order, flat, with no padding or metadata of its own: each scalar in its declared binary type's width and the byte order in force, IEEE-754 floats, complex numbers as real then imaginary part, arrays and slices element by element, nested structs inline, skipped and padding bytes as zero. The output bytes therefore depend only on the type, its tags, the value and the byte order, and equal what an independent reading of the layout gives.",
 ["inputs", "programs"], "every supported type, tag set, value and byte order, compared bit for bit with a reference encoder",
 "A round trip cannot see an encoder and a decoder that are wrong in the same way; the tests compare literal bytes for only a handful of layouts.",
 ["encoder.go", "structstack.go", "field.go"],
 [("scalar writers", "encoder.go: encoder.write, write8..write64"), ("bit writer", "encoder.go: writeBits"), ("skip", "encoder.go: skipBits")])

prop("C03", "Unpack reads any long enough input by the layout",
 "For every supported type and every byte string that is long enough for it, unpacking succeeds and every field holds what an independent reading of the layout gives, whatever the bytes are (not only bytes that packing would produce). Bytes after the end of the layout are ignored, and packing the result gives the canonical form of the bytes that were read.",
 ["inputs", "programs"], "every supported type x arbitrary input bytes, including non-canonical booleans, garbage in padding, strings without terminator and trailing data",
 "Tests only unpack bytes that correspond to nice values; arbitrary bit patterns (NaNs, non-0/1 booleans, garbage padding, odd counter values) are never tried.",
 ["decoder.go", "field.go"],
 [("decoder walk", "decoder.go: decoder.read"), ("bit reader", "decoder.go: readBits, readBytes, skipBits")])

prop("C04", "Reported sizes equal what Pack produces and Unpack consumes",
 "For every packable value, the reported bit size is exactly the number of bits its layout occupies, the reported byte size is that rounded up to whole bytes, and packing returns exactly that many bytes. Unpacking that many bytes of a packed value succeeds and consumes exactly the layout, also when elements of one slice or array have different sizes.",
 ["inputs", "programs"], "every supported type and value, with per-element sizes that vary (custom codecs, conditions, counted members, nil pointers)",
 "The size is computed by a separate walk with shortcuts for constant-size types; tests check it on about 50 literals and never compare it with the encoder on varied values.",
 ["structstack.go", "field.go", "packing.go"],
 [("size walk", "structstack.go: fieldbits, switcbits"), ("constant-size shortcut", "field.go: isTypeTrivial"), ("buffer allocation", "packing.go: Pack")])

prop("C05", "Byte order tags scope exactly over the fields they cover",
 "A field's multi-byte scalars are laid out in the order given by the nearest enclosing tag (the field's own, else that of the closest enclosing struct, slice, array or pointer field that has one), else the order passed by the caller. The effect ends with that field: siblings and later fields are laid out as if the tag were not there, on packing, on unpacking, in custom codecs, and after errors or early returns inside the tagged field.",
 ["inputs", "programs"], "every placement of order tags over nested structs, slices, pointers, switches and custom codecs x both caller orders",
 "Tests have two structs with order tags; leaking or losing the order depends on nesting, repetition and early exits that they do not combine.",
 ["encoder.go", "decoder.go", "field.go"],
 [("order save and restore", "encoder.go / decoder.go: write/read, deferred restore"), ("inheritance through elements", "field.go: Elem")])

prop("C06", "Bit-fields occupy exactly their declared bits, in order",
 "Consecutive bit-fields are packed most significant bit first with no gap, each taking exactly its declared or computed number of bits at any bit offset, across byte boundaries; other fields may follow at any bit offset. Packing stores the low bits of the value without disturbing neighbours; unpacking returns exactly those bits, zero-extended for unsigned and sign-extended for signed types, and little-endian bit-fields store their low-order bytes first.",
 ["inputs", "programs"], "every sequence of widths 1..63 over every integer base, both orders, mixed with unaligned non-bit fields, skips and padding x arbitrary bit patterns",
 "Tests use about ten width sequences, most of them aligned or unsigned; width x offset x order x signedness x value is far larger.",
 ["encoder.go", "decoder.go", "structstack.go", "tag.go"],
 [("bit numbering", "encoder.go: getBit, writeBit, writeBits; decoder.go: putBit, readBit, readBits"), ("sign extension", "decoder.go: extend8..extend64"), ("width evaluation", "structstack.go: evalBits")])

prop("C07", "Counted sequences: the counter and the sequence always agree",
 "When a field is declared as the count of another (in either tag form), packing writes the actual length of the slice or string into it whatever value it held, and unpacking reads exactly that many elements; this holds wherever counter and sequence stand in the struct, with ignored, unexported or unrelated fields between or before them, for several pairs per struct, for any integer counter type, and inside nested or repeated structs. Lengths given by an expression behave the same on unpacking.",
 ["inputs", "programs"], "every arrangement of counter and counted fields x lengths from 0 past every width boundary x element types",
 "Tests have counters as the immediately preceding field with tiny lengths; the pairing is by field position and breaks only with particular arrangements.",
 ["field.go", "encoder.go", "decoder.go"],
 [("pairing", "field.go: fieldsFromStruct sizeof/sizefrom"), ("counter update", "encoder.go: write TIndex"), ("length lookup", "decoder.go: read SIndex")])

prop("C08", "Unpack of hostile or truncated input fails cleanly",
 "For every type and every input bytes, unpacking returns (no panic, crash or hang); input shorter than the layout it announces gives an error, never a silent partial result (counts that no input can satisfy included, for elements that occupy at least one bit). The input bytes are never modified, and no byte beyond the given slice is ever used, even if the underlying array is longer.",
 ["inputs", "programs", "fault_sequences"], "every supported type x every truncation point of valid input x corrupted counters (huge, negative) x random bytes",
 "Tests have a few truncated inputs; every cut point and every hostile counter value on every layout is a search problem.",
 ["decoder.go", "packing.go"],
 [("recover to error", "packing.go: Unpack"), ("slice bounds as truncation check", "decoder.go: readBits, readBytes, skipBits"), ("allocation from counts", "decoder.go: read")])

prop("C09", "Pack rejects values that do not fit their layout",
 "Packing a value that its declared layout cannot hold gives an error and no bytes, and never panics: a string or slice longer than its fixed array, a length that its counter's width cannot represent, a length different from its size expression, a failing custom codec. (A scalar wider than its declared binary type is cut to that width: that is not a misfit.) A failed pack or size request leaves nothing behind that affects later calls.",
 ["inputs", "programs", "fault_sequences"], "every kind of misfit at every position of every supported layout, by every amount",
 "Tests have one length mismatch; overflow amounts and positions (and silent corruption of neighbouring fields) are not explored.",
 ["encoder.go", "packing.go"],
 [("size expression check", "encoder.go: write"), ("counter update", "encoder.go: write TIndex"), ("recover to error", "packing.go: Pack, SizeOf, BitSize")])

prop("C10", "Custom codecs are used wherever their type appears",
 "A type that supplies its own packing, unpacking and size is handled by exactly those methods wherever it appears (top level, field, array, slice or pointer element, switch case, conditional field), with value or pointer receivers, whatever its underlying kind; they get the byte order in force and a buffer that starts at the value's first byte, and the layout continues where they stop. An error they return becomes the error of the call.",
 ["inputs", "programs"], "every custom type shape (receiver kind, fixed or value-dependent size, underlying kind) x every position x every neighbouring layout",
 "Tests have two custom types at top level; elements, nested positions and value-dependent sizes are not covered.",
 ["encoder.go", "decoder.go", "field.go", "structstack.go"],
 [("codec lookup", "encoder.go: packer; decoder.go: unpacker; field.go: sizer, bitSizer"), ("size by interface", "field.go: bitSizeUsingInterface")])

prop("C11", "Conditional fields and computed widths follow their expressions",
 "A field with a condition takes part exactly when the condition, evaluated over the fields of its struct, is true: then it behaves like the same field without condition, otherwise it occupies no bits at all (no skip either) and its value is left alone; a condition that is not boolean is an error. Widths and lengths given by expressions equal the value of the expression at that point, and packing, unpacking and sizes always agree on all of these.",
 ["inputs", "programs"], "every field kind x conditions, widths and lengths over earlier fields x values that make them true and false",
 "Tests have one conditional, one width and one length expression; interaction with skip, bits, nesting, order and sizes is not covered.",
 ["structstack.go", "encoder.go", "decoder.go", "field.go"],
 [("condition", "structstack.go: evalIf"), ("width and length", "structstack.go: evalBits, evalSize"), ("size walk", "structstack.go: fieldbits")])

prop("C12", "Switches select exactly one case",
 "A switch lays out exactly one of its cases: the first whose value equals the switch value (compared as the expression language compares, so a literal matches a field of any integer width), else the default wherever it is declared, else nothing. Packing, unpacking and sizes select the same case; unpacking clears every other case, and skip, order and condition tags on the switch and on its cases apply.",
 ["inputs", "programs"], "every switch type (integers, strings, booleans, expressions), case order, default position, nesting and target state x selector values",
 "One PNG file and one small test use switches; selection order, default placement, widths and stale target contents are not varied.",
 ["encoder.go", "decoder.go", "structstack.go"],
 [("selection", "encoder.go / decoder.go: switc; structstack.go: switcbits"), ("clearing", "decoder.go: switc")])

prop("C13", "Loops read elements exactly while their condition holds",
 "A slice with a loop condition is unpacked as exactly the elements read before the condition first evaluates to false, replacing what the target held before; the end-of-input variable is true exactly when no input is left. Packing such a slice writes all its elements, so unpacking the packed bytes gives the same slice if its elements fill whole bytes, and input that ends inside an element is an error, as is a loop condition that is not boolean.",
 ["inputs", "programs"], "element types of every size (also below a byte) x element counts from 0 x conditions over the end-of-input variable and fields x truncation points",
 "One PNG file exercises the loop; element sizes, zero iterations, nested loops, dirty targets and cut inputs are not covered.",
 ["decoder.go", "structstack.go"],
 [("loop", "decoder.go: read WhileExpr"), ("end of input", "structstack.go: Resolve _eof")])

prop("C14", "Value transforms are applied once, in the right direction",
 "A field with an unpacking transform holds the transform of what was read (it sees the value just read), and one with a packing transform is written as the transform of its value, without changing the value in memory; transforms see the struct's other fields as they stand at that point. With transforms that are inverse to each other, packing and unpacking round-trip, and a numeric result is converted to the field's type.",
 ["inputs", "programs"], "transform expressions over integers, floats, strings and booleans x field types x values x combinations with order, bits, skip and conditions",
 "Two tests use one transform each; types, combinations and side effects on the source value are not explored.",
 ["encoder.go", "decoder.go", "structstack.go"],
 [("in transform", "decoder.go: read InExpr"), ("out transform", "encoder.go: write OutExpr")])

prop("C15", "Parent and root references point at the enclosing structs",
 "After packing, sizing or unpacking, a field marked as parent points to the nearest enclosing struct of its type and a field marked as root points to the outermost value, so expressions below can use fields of enclosing structs; such fields occupy no bits. This holds at every depth, through slices, arrays, pointers and switches, and for every element of a sequence of known length.",
 ["inputs", "programs"], "recursive and mutually nested struct types with parent and root references x depths x sequence lengths x values read through them",
 "PNG chunks are the only nested use; depth, several candidate ancestors, arrays of elements and root references are not covered.",
 ["structstack.go", "encoder.go", "decoder.go"],
 [("ancestor search", "structstack.go: setancestor, ancestor, root"), ("struct stack", "structstack.go: push, pop")],
 [("stack", "structs being processed, outermost first", "structstack.go: structstack.stack")])

prop("C16", "Expression operators compute what Go computes",
 "Every operator of the expression language, applied to operands of any supported type, gives the value and type Go gives for the same operation: wrap-around at each integer width, signed and unsigned shifts, truncated division, float rounding at each width, string equality and concatenation, short-circuit logic, named types like their underlying types. Untyped literals that fit take the type of the other operand. An operator that the types of its operands do not support is reported as an InvalidOpError or a ConversionError.",
 ["inputs", "programs"], "operators x operand types x values with all boundary values, and nested expression trees",
 "Tests check a few dozen expressions on small values; each operator is written out per type (hundreds of near-identical lines) and a slip in any of them is only seen by that operator x type x value.",
 ["expr/value.go", "expr/eval.go", "expr/type.go"],
 [("operators", "expr/value.go: methods of val"), ("coercion", "expr/value.go: coerce, promote"), ("dispatch", "expr/eval.go: evalnode, evalbinary, evalunary")],
 observe=["expr.Eval", "expr.EvalProgram", "expr.Value methods"])

prop("C17", "Expression text is parsed with the documented structure",
 "For every expression, the parsed program computes the value of the expression grouped by Go's operator precedence and left associativity (conditional operator loosest and right-associative), independent of spaces and tabs wherever tokens stay separate and of redundant parentheses. Integer, float, string, rune and boolean literals in every notation and escape denote the values they denote in Go.",
 ["inputs", "programs"], "random expression trees printed with minimal, redundant or no parentheses and random spacing; literals in all bases and escapes",
 "Tests parse seven expressions; adjacent-operator combinations and literal notations grow combinatorially.",
 ["expr/lex.go", "expr/parse.go", "expr/ast.go"],
 [("precedence climbing", "expr/parse.go: parseexpr"), ("scanner", "expr/lex.go: scan, scannumber, scanescape")],
 observe=["expr.ParseString", "expr.Parse", "expr.Eval"])

prop("C18", "Bad expressions give errors, never panics or hangs",
 "For every text and every resolver contents, evaluating an expression terminates and returns either a value or an error: syntax errors, unbalanced brackets, unterminated literals, unknown names, type mismatches, division by zero, nil dereference, out-of-range indexes and wrong calls are all errors, not panics. What a function or a resolver of the user panics with is such an error too, and the same one if it is an error. Text that is not a complete well-formed expression is never evaluated as if its malformed part were absent.",
 ["inputs", "programs", "fault_sequences"], "arbitrary text, mutated valid expressions and well-formed expressions with ill-typed operands",
 "Tests list a few error cases; hostile text and operator x type mismatches are unbounded.",
 ["expr/lex.go", "expr/parse.go", "expr/eval.go", "expr/value.go"],
 [("recover to error", "expr/eval.go: EvalProgram, Eval"), ("scanner errors", "expr/lex.go: scan"), ("parser errors", "expr/parse.go: expect")],
 observe=["expr.Eval", "expr.EvalProgram"])

prop("C19", "Tags mean what they say, in any order; bad tags are always errors",
 "The meaning of a struct tag does not depend on the order of its options or on which synonym is used (lsb or little; msb, big or network; byte or uint8; an option in the tag or as its own tag key), and an expression option may contain commas inside brackets or quotes. A malformed or inapplicable tag makes every call that reaches its type return an error, on first and on later use, never a panic or a silently different layout; a count, length or width on a field that cannot have one gives the exported error value for it.",
 ["inputs", "programs", "configurations"], "option sets x permutations x synonyms x literal notations, and mutated or invalid tags on every field kind",
 "Tests parse about 30 tags; permutations, synonyms and malformed variants grow combinatorially, and only behaviour of the layouts shows their meaning.",
 ["tag.go", "typestr.go", "field.go"],
 [("tag parser", "tag.go: tagOptions.parse"), ("type strings", "typestr.go: parseType"), ("tag validation", "field.go: fieldsFromStruct")])

prop("C20", "Concurrent use is safe and gives the serial results",
 "Any number of goroutines may pack, unpack, size and evaluate expressions at the same time, with the same or different types including types never seen before, as long as they do not share the values they write to; every call gives the result it gives alone, and there is no data race.",
 ["schedules", "inputs", "histories"], "goroutine counts, fresh and shared types, mixes of operations and interleavings under the race detector",
 "No test runs anything concurrently; races in the type caches need first-use collisions.",
 ["field.go", "expr/type.go", "packing.go"],
 [("field cache", "field.go: cachedFieldsFromStruct, cacheMutex"), ("type cache", "expr/type.go: typemap, typemutex, fromreflecttype")],
 [("field cache", "struct type -> field table", "field.go: fieldCache"), ("type cache", "runtime type -> expression type", "expr/type.go: typemap")],
 observe=["all exported functions called from many goroutines in a race-detector build"])

prop("C21", "Calls are independent of history and touch only what they should",
 "The result of a call depends only on its arguments: not on earlier calls (successful or failed), on which operation or type was used first, or on what the target held before. Unpacking overwrites every field that is read and leaves ignored, unexported, padding and switched-off fields alone; packing and sizing leave the value as it was, apart from setting count, parent and root fields, and the returned bytes share no memory with the value or with later results.",
 ["histories", "inputs"], "sequences of pack, unpack, size and failing calls over a pool of types, values and pre-filled targets",
 "Tests call each function once on a fresh value; caches, leftovers in the target and aliasing need sequences.",
 ["packing.go", "decoder.go", "encoder.go", "field.go"],
 [("per-call state", "packing.go: Pack, Unpack"), ("field cache", "field.go: cachedFieldsFromStruct")])

prop("C22", "PNG files round-trip through the PNG format",
 "Every well-formed sequence of PNG chunks (header first; known and unknown chunk types; any lengths, contents and check sums) unpacks into the corresponding chunk values, with the body of each chunk selected by its type and sized by its length, and packs back to exactly the same bytes. Cutting the file inside a chunk gives an error.",
 ["inputs"], "chunk sequences with arbitrary types, lengths (0 to large), contents and truncation points",
 "One fixed image is tested.",
 ["formats/png/png.go", "decoder.go", "encoder.go", "structstack.go"],
 [("format description", "formats/png/png.go: File, Chunk"), ("loop, switch and parent", "decoder.go: read, switc; structstack.go: setancestor")])

prop("C23", "Values, pointers and supported top-level kinds are treated alike",
 "Packing and sizing give the same result for a value passed directly or by pointer (also a pointer to a pointer), for structs and for any other packable top-level kind (scalars, arrays, slices, strings, custom codecs). Unpacking into a pointer fills it; unpacking into something that cannot be set, into a nil pointer or into nil gives an error and never silently does nothing or panics.",
 ["inputs", "programs"], "every supported type x value x way of passing it",
 "Tests pass nearly everything by pointer; direct values are only tried for one custom type.",
 ["packing.go", "encoder.go", "decoder.go"],
 [("argument handling", "packing.go: fieldFromIntf"), ("settability", "encoder.go: write CanSet; decoder.go: read CanSet")])

prop("C24", "Names in expressions resolve to the right value and type",
 "Looking up fields, promoted fields, map entries, package members, elements and pointer targets from an expression yields exactly the value Go code would read, for any nesting of structs, pointers, arrays, slices and maps; combined resolvers use the first that knows the name. The type reported by a type resolver is that of the value the matching resolver yields, and unknown names are unknown to both.",
 ["inputs", "programs"], "generated data structures x access paths x resolver combinations",
 "Tests use one flat struct; nesting, recursion, maps and precedence between resolvers are not covered.",
 ["expr/env.go", "expr/type.go", "expr/value.go", "expr/package.go"],
 [("resolvers", "expr/env.go"), ("type conversion", "expr/type.go: fromreflecttype, toreflecttype"), ("member, index and call", "expr/value.go: Dot, Index, Call, Deref, Ref")],
 observe=["expr.Eval with Struct, Map and Meta resolvers", "expr.TypeOf", "TypeResolve methods"])

prop("C25", "The bits library of expressions equals Go's math/bits",
 "Each function of the expression standard library returns, for every argument, what the function of the same name in Go's math/bits returns, with the same argument and result types.",
 ["inputs"], "all 8-bit arguments exhaustively, boundary and random arguments for the wider functions, through tags that call them",
 "No test calls these 30 functions; a table entry bound to the wrong function is invisible to the tests.",
 ["expr_19.go", "structstack.go", "expr/package.go"],
 [("library table", "expr_19.go: exprStdLib"), ("name lookup", "structstack.go: Resolve")])

prop("C26", "Skips, padding and ignored fields affect layout exactly as declared",
 "A skip of n moves exactly that field and everything after it by n bytes, on any kind of field; a padding field occupies exactly its type's size (bits if it is a bit-field); both are written as zeros, whatever is stored there is disregarded when reading, and both count in sizes. Fields that are ignored or unexported occupy nothing, wherever they stand, and removing them from the type changes no bytes.",
 ["inputs", "programs"], "every field kind x skip counts x padding types x ignored and unexported fields, at any bit offset",
 "Tests skip before a few aligned byte fields only; bit offsets, bit-fields, pointers, strings, custom codecs and elements are not covered.",
 ["encoder.go", "decoder.go", "structstack.go", "field.go"],
 [("skip", "encoder.go / decoder.go: skipBits, skip"), ("padding size", "structstack.go: fieldbits for _"), ("field selection", "field.go: fieldsFromStruct")])

prop("C27", "Fixed-length strings and arrays fill exactly their space",
 "A string or slice declared with a fixed-length array occupies exactly that array's size: shorter content is padded with zeros, a fixed-length string is read back up to its first zero byte (the whole array if there is none), and a fixed-length slice is read back with the full length. This holds at any position, inside elements of arrays and slices, and at any bit offset.",
 ["inputs", "programs"], "lengths 0..capacity, contents with zero bytes and non-ASCII bytes, element types, positions and offsets",
 "Tests use two fixed strings; full-length, empty, embedded-zero and unaligned cases are not covered.",
 ["encoder.go", "decoder.go", "field.go"],
 [("padding", "encoder.go: write array"), ("C string reading", "decoder.go: read array"), ("element cast", "field.go: Elem")])

prop("C28", "Pointers are transparent in the layout",
 "A pointer field or element is laid out exactly as the value it points to, at any depth of indirection; a nil pointer occupies nothing. Unpacking allocates a fresh target for each pointer it reads, so values unpacked earlier and values previously reachable from the target are not changed, and recursive types work as far as the data is finite.",
 ["inputs", "programs", "histories"], "pointer chains to every kind, slices and arrays of pointers, recursive types, nil pattern x values",
 "Tests have pointers only in switch cases; slices of pointers, nil, recursion and aliasing are not covered.",
 ["encoder.go", "decoder.go", "structstack.go", "field.go"],
 [("pointer handling", "encoder.go / decoder.go: write/read Ptr; structstack.go: fieldbits Ptr"), ("recursion guard", "field.go: isTypeTrivial")])

prop("C29", "Expressions stay off until they are enabled",
 "Until expressions are enabled, every call that would have to evaluate an expression fails without producing a result, and every layout without expressions works; after they are enabled once, all of them work for the rest of the process, including types first seen while disabled. Enabling changes nothing for layouts without expressions.",
 ["configurations", "histories"], "sequences of calls over types with and without expressions before and after enabling, in fresh processes",
 "Tests enable expressions globally in the same process and never look at the disabled state.",
 ["expr.go", "structstack.go", "packing.go"],
 [("switch", "expr.go: EnableExprBeta"), ("gate", "structstack.go: evalExpr")])

prop("C30", "Boolean encodings follow their flags at every width",
 "A boolean is written as 0 or 1 in its binary type (any integer width or bit-field), as all-ones for true when the variant flag is set, with true and false swapped when the inverted flag is set, and the two flags combine. When reading, zero means false and anything else true, swapped when inverted.",
 ["inputs", "programs"], "flags x integer types x bit widths x offsets x byte orders x arbitrary stored patterns",
 "Tests cover byte-wide booleans and one single-bit one; other widths, signedness and non-canonical patterns are not covered.",
 ["encoder.go", "decoder.go"],
 [("encoding", "encoder.go: intFromField, uintFromField"), ("decoding", "decoder.go: setInt, setUint")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
