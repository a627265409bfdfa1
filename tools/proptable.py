BUF = "butte/src/"
p("C01", "Safe API never touches memory outside the buffer or makes invalid values",
  "However the safe public API of the runtime is used, and whatever bytes are read, every raw memory access stays inside the buffer it was derived from, is suitably aligned and produces only valid values. No input can cause undefined behaviour.",
  ["inputs", "histories"], "all buffers, locations, slots, builder states and values accepted by the safe API",
  "The tests read a handful of well formed buffers; the accesses are in unsafe code whose bounds depend on offsets stored in untrusted data.",
  [BUF+"endian_scalar.rs", BUF+"primitives.rs", BUF+"vector.rs", BUF+"table.rs", BUF+"vtable.rs", BUF+"vtable_writer.rs", BUF+"builder.rs"],
  [("bounds checks before pointer reads", "butte/src/endian_scalar.rs read_scalar, read_scalar_at"), ("slice length checks", "butte/src/vector.rs follow_cast_slice"), ("zero fill of grown buffer", "butte/src/builder.rs grow_owned_buf")])
p("C02", "Reading any bytes never panics",
  "Every read operation on arbitrary, truncated or malicious bytes returns a value or an error; it never panics, overflows or loops without end.",
  ["inputs"], "every buffer content and length, every location up to 2^62, every slot and index admitted by the API's documented preconditions",
  "Tests only read buffers the crate itself wrote plus a few truncations.",
  [BUF+"primitives.rs", BUF+"vector.rs", BUF+"table.rs", BUF+"vtable.rs", BUF+"follow.rs", BUF+"table.rs"],
  [("checked slicing with get(..)", "butte/src/primitives.rs"), ("Result-returning follow", "butte/src/follow.rs")])
p("C03", "A returned string is exactly the stored, terminated, valid UTF-8 bytes",
  "Reading a string succeeds exactly when its length field, its bytes and its terminator lie in the buffer, the terminator is zero and the bytes are valid UTF-8; the result is then precisely those bytes. Every other input is rejected with the matching error.",
  ["inputs"], "every buffer and location", "Tests cover a few malformed strings at fixed places.",
  [BUF+"vector.rs", BUF+"primitives.rs"], [("validated string follow", "butte/src/vector.rs Follow for &str")])
p("C04", "Vector length, element addressing and iterators agree with the stored data",
  "A vector has exactly the stored number of elements, element i is read at its own place, and forward, backward, nth and cloned iteration visit each stored element exactly once in order with an exact remaining length. Slice views have the stored length and start at the first element.",
  ["inputs", "histories"], "every buffer, location, index and mix of iterator operations", "Tests iterate vectors of a few fixed lengths from one end.",
  [BUF+"vector.rs"], [("stride arithmetic", "butte/src/vector.rs Vector::get, VectorIter"), ("remaining count", "butte/src/vector.rs VectorIter")])
p("C05", "Field lookup follows the vtable: stored value, or default/absent",
  "Looking up a slot yields the value stored where the vtable entry says when the entry is present and nonzero, and the given default or absence when the slot is beyond the vtable or zero; offsets are followed from where they are stored.",
  ["inputs"], "every buffer, table location, slot and default", "Tests use vtables the builder writes with a few slots.",
  [BUF+"vtable.rs", BUF+"table.rs", BUF+"primitives.rs"], [("VTable::get", "butte/src/vtable.rs"), ("Table::get", "butte/src/table.rs")])
p("C06", "Malformed data is reported as an error, never as absent, empty or default",
  "When bytes needed to answer a read are missing or malformed the caller gets the corresponding error; it is never replaced by a default, by absence or by a shorter result (only iterating a vector whose own length is unreadable is documented to yield nothing).",
  ["inputs"], "every buffer and location", "Tests exercise only a few truncated buffers.",
  [BUF+"table.rs", BUF+"vtable.rs", BUF+"vector.rs", BUF+"primitives.rs"], [("error propagation with ?", "butte/src/table.rs, vtable.rs, vector.rs")])
p("C07", "Scalars are little-endian on the wire and decode to what was encoded",
  "Every integer and float type is written as its little-endian bytes and read back as the same value, booleans are written as 0 or 1 and any nonzero byte reads as true, independent of position and neighbouring data.",
  ["inputs"], "every value of every scalar type at every position", "Tests sample values; 64-bit domains cannot be enumerated.",
  [BUF+"endian_scalar.rs", BUF+"push.rs", BUF+"primitives.rs"], [("to/from little endian", "butte/src/endian_scalar.rs"), ("Push for scalars", "butte/src/push.rs")])
p("C08", "What the builder writes reads back: strings, vectors, tables, references",
  "Strings, byte strings, vectors, tables and references written through the builder in any state are found again at the returned offset with exactly the content given; fields left out or equal to their default read as absent or default.",
  ["inputs", "histories"], "every prior content and capacity of the builder and every value written", "Tests check a few fixed layouts from an empty builder.",
  [BUF+"builder.rs", BUF+"push.rs", BUF+"primitives.rs", BUF+"vtable_writer.rs"],
  [("offsets relative to the end", "butte/src/builder.rs push, used_space"), ("vtable serialisation", "butte/src/builder.rs write_vtable"), ("relative offset push", "butte/src/primitives.rs Push for WIPOffset")])
p("C09", "Bytes already written are never changed or lost, also across growth",
  "Any further building step, including ones that reallocate the buffer, leaves every byte written before exactly as it was, and collapsing hands out exactly those bytes.",
  ["histories", "inputs"], "every builder content and capacity followed by every kind of write", "Growth happens at capacity boundaries tests hit only at a few sizes.",
  [BUF+"builder.rs"], [("growth copies the tail", "butte/src/builder.rs grow_owned_buf"), ("writes only in front of head", "butte/src/builder.rs make_space")])
p("C10", "Every value, object and finished buffer is aligned",
  "Each scalar, offset, vector element, string, table and field is placed at a multiple of its alignment from the end of the buffer, and a finished buffer's length is a multiple of the largest alignment used, with or without prefix and identifier.",
  ["inputs", "histories"], "every preceding content", "Alignment errors show only for particular preceding sizes.",
  [BUF+"builder.rs", BUF+"push.rs"], [("align", "butte/src/builder.rs align, track_min_align, padding_bytes")])
p("C11", "Padding and unused space are zero; a reset builder equals a new one",
  "All padding bytes are zero whatever happened before, including over discarded data, and after a reset in any state the builder behaves and writes exactly as a new one.",
  ["histories", "inputs"], "every builder history up to reset", "Stale state shows only in particular histories.",
  [BUF+"builder.rs"], [("reset", "butte/src/builder.rs reset"), ("zeroing of discarded vtables", "butte/src/builder.rs write_vtable")])
p("C12", "Finished buffers have root, identifier and size prefix where readers look",
  "Finishing puts the root offset, the optional identifier and the optional size prefix where the readers look for them: the root is reached, the identifier is recognised, the prefix is the number of bytes that follow; nothing else changes.",
  ["inputs", "histories"], "every content, root and identifier, every finish variant", "Tests check two or three fixed buffers per variant.",
  [BUF+"builder.rs", BUF+"table.rs", BUF+"primitives.rs", BUF+"table.rs"], [("finish", "butte/src/builder.rs finish_root"), ("readers", "butte/src/table.rs get_root, buffer_has_identifier")])
p("C13", "Vtable sharing is invisible: equal shapes share, all fields still read back",
  "Tables of equal shape share one vtable without extra space, tables of different shape never do, and in both cases every field of every table still reads back.",
  ["inputs", "histories"], "every field value and preceding content for the analysed table shapes", "Tests look at the number of vtables or at bytes of a few examples.",
  [BUF+"builder.rs", BUF+"vtable.rs"], [("find duplicate", "butte/src/builder.rs find_duplicate_stored_vtable_revloc")],
  note=TB+" The shapes are those of four client programs; the number of vtables already stored is bounded by them.")
p("C14", "Builder protocol misuse is detected, correct use is not rejected",
  "Nesting objects, ending what was not started, finishing twice or too early, reading unfinished data, storing a field twice, wrong identifier lengths and missing required fields are rejected by a panic (field-level checks in debug builds); correctly sequenced calls never panic.",
  ["histories"], "every builder content and capacity for each misuse sequence", "Tests have a few should_panic cases from an empty builder.",
  [BUF+"builder.rs"], [("assert_nested, assert_not_nested, assert_finished", "butte/src/builder.rs")])
p("C15", "Size limits are enforced and no offset or length is truncated",
  "Data never exceeds 2 GiB and no table 64 KiB: such a request panics. For everything accepted, stored lengths, offsets and vtable entries equal the true quantities, never a truncation.",
  ["inputs", "histories"], "all sizes up to the address space", "Tests cannot allocate gigabytes for every boundary.",
  [BUF+"builder.rs"], [("limit checks", "butte/src/builder.rs ensure_capacity, write_vtable, new_with_capacity")])
p("C16", "No hidden state or side effects in the library and in generated code",
  "Reading, building and everything generated code does depends on the arguments alone and affects nothing else: there is no state shared between builders, buffers or calls, no input or output, no clock, environment or randomness, so independent uses never influence each other, in any thread or order.",
  ["schedules", "histories"], "every function of the library and of generated code, every call site and static access",
  "Tests run each operation in isolation and cannot see state carried between uses.",
  [BUF+"builder.rs", BUF+"vector.rs", BUF+"table.rs", "butte-build/src/codegen.rs"], [("all state is in the builder", "butte/src/builder.rs FlatBufferBuilder")],
  technique="call-graph effect analysis of MIR (calls and statics)", level="other",
  note="Covers all functions of the crate butte and the code generated for the client schemas; calls into core and alloc are taken to be free of effects; trusts rustc's MIR and the exporter.")
p("C17", "Views cannot outlive or race with their buffer, offsets keep their type",
  "No safe program can keep a string, slice, vector, iterator, table or union view beyond the life of its buffer, change a builder while its data is viewed, use a collapsed builder, or store an offset to one kind of object where another is expected; correct programs of the same form compile. Views, builders and generated types may be shared between threads.",
  ["programs"], "every use of the shape of the witnesses: each public way to obtain a view, in library and generated code",
  "A test that compiles shows nothing about programs that must not compile.",
  [BUF+"vector.rs", BUF+"table.rs", BUF+"primitives.rs", BUF+"builder.rs", BUF+"follow.rs", "butte-build/src/codegen.rs"], [("lifetimes of Follow", "butte/src/follow.rs"), ("typed offsets", "butte/src/primitives.rs WIPOffset"), ("borrowed data", "butte/src/builder.rs finished_data")],
  technique="compile-fail witnesses with compiling twins (borrow and type checker)", level="other",
  note="Decided by rustc's type and borrow checker for witness programs of every public way to obtain a view; lifetimes are parametric, so a rejected witness stands for all programs of its form.")
BB = "butte-build/src/"
CI = "abstract interpretation of the compiler's MIR over schema classes"
CG = CI + "; clients of the generated code analysed for all arguments"
CN = ("Decided for every identifier, documentation text and layout of the schema classes in /verif/sa/families.py and clients.py (the token structure of a class is fixed, "
      "so the classes bound the claim), and there for every argument. Trusts rustc's MIR, the exporter in /verif/driver, the engine and its models of core/alloc/std, nom, syn, quote "
      "and proc_macro2 in /verif/sa; what the models cannot decide is counted as undecided in the evidence and is quiet.")
p("C18", "Compiling any schema text never panics",
  "Whatever text is given, valid, truncated, garbled or hostile, the schema compiler returns generated code or an error; it never panics, overflows or runs on without end.",
  ["inputs"], "all schema texts of the analysed classes: well formed, truncated at every token, with tokens deleted, repeated, swapped, replaced or inserted",
  "Tests compile a handful of schemas; the parser and the generator have conversions and unwraps that only particular names, numbers or combinations reach.",
  [BB+"ast/parser.rs", BB+"ast/parser_macros.rs", BB+"ir/transform.rs", BB+"ir/types.rs", BB+"codegen.rs", BB+"compile.rs"],
  [("nom parsers", "butte-build/src/ast/parser.rs"), ("conversion of identifiers to Rust identifiers", "butte-build/src/ir/types.rs, keywords.rs"), ("value computation", "butte-build/src/ir/transform.rs")],
  technique=CI, level="other", note=CN)
p("C19", "Errors are reported and leave no output; success writes all of it",
  "When the schema is in error, or reading, formatting or writing fails, compile_fbs and compile_fbs_generic return an error and nothing has been written (unless writing itself failed); no part of a rejected schema is compiled. On success the whole generated code, formatted or not, reaches the output, for compile_fbs the file <schema>.rs in OUT_DIR.",
  ["inputs", "crash_points"], "all rejected schema classes and every failing environment operation",
  "Tests never make the formatter, the reader or the writer fail, and check few rejected schemas.",
  [BB+"compile.rs"], [("generate before output", "butte-build/src/compile.rs"), ("incomplete parse is an error", "butte-build/src/compile.rs generate")],
  technique=CI+"; effect traces with injected failures", level="other", note=CN)
p("C20", "The same schema always generates the same code",
  "The generated code is a function of the schema text (and generator) alone: it does not depend on hash iteration order, time, environment, addresses or randomness, so builds are reproducible.",
  ["inputs", "schedules"], "all iteration orders of hash tables sampled by reversal and rotation, all call paths from compile_fbs_generic",
  "One process sees one hash seed; tests compare token streams of small schemas.",
  [BB+"ir/transform.rs", BB+"codegen.rs", BB+"compile.rs"], [("ordered traversal of declarations and namespaces", "butte-build/src/ir/transform.rs, codegen.rs")],
  technique=CI+"; call-graph effect analysis", level="other", note=CN)
p("C21", "Generated tables read back what create was given; defaults and required hold",
  "For every table, create followed by the accessors returns exactly the values given; a scalar or enum left out or equal to its default reads as the declared default, an absent optional reference reads as nothing, a required field is demanded by create and its absence is an error when read. A default that does not fit the type is rejected by the compiler.",
  ["inputs"], "all values of all field types, given or left out; all defaults of the analysed schemas",
  "The tests of generated code cover two tiny schemas.",
  [BB+"codegen.rs", BB+"ir/transform.rs", BB+"ir/types.rs"], [("accessors, Args and create", "butte-build/src/codegen.rs ToTokens for Table"), ("defaults", "butte-build/src/ir/transform.rs")],
  technique=CG, level="other", note=CN)
p("C22", "Fields are stored in the slots the FlatBuffers format assigns",
  "Field number i of a table, in order of declaration and a union counting as two (its kind, then its value), is stored in vtable slot 4 + 2i by create and read from there, whatever the types, sizes and metadata of the fields; so code generated from the same schema by other FlatBuffers compilers agrees and appending fields keeps old data readable.",
  ["inputs"], "all values of all fields of the analysed tables", "Generated writers and readers agree with each other even if both use wrong slots, so round-trip tests cannot see it.",
  [BB+"codegen.rs", BB+"ir/transform.rs"], [("slot numbering", "butte-build/src/codegen.rs VT_ constants")], technique=CG, level="other", note=CN)
p("C23", "Enums: declared values, base type and no other value accepted",
  "Variants have their declared value or the previous plus one from zero, are stored with the declared base type, and reading any other number is an error, never another variant. Enums whose values do not fit, repeat, or that have no integer base type or no variant are rejected.",
  ["inputs"], "all numbers of the base type, all base types", "Tests look at tokens of two enums.",
  [BB+"codegen.rs", BB+"ir/transform.rs"], [("TryFrom of the base type", "butte-build/src/codegen.rs ToTokens for Enum"), ("next value", "butte-build/src/ir/transform.rs")], technique=CG, level="other", note=CN)
p("C24", "Unions: the kind selects the member, nothing else is accepted",
  "A union field reads as the member its kind says with the value stored for it; kind NONE, absence or a kind without a value reads as nothing (an error if required), an unknown kind is an error. Members have their declared kind or the previous plus one from 1. Unions that cannot be represented are rejected.",
  ["inputs"], "all kinds and member values", "Tests have no union round trip with unknown kinds.",
  [BB+"codegen.rs", BB+"ir/transform.rs"], [("union accessors and kinds", "butte-build/src/codegen.rs ToTokens for Union, Table")], technique=CG, level="other", note=CN)
p("C25", "Names resolve to the declared type of that namespace, in any declaration order",
  "A type reference means the type declared under that name in the current namespace, or under the full path given, wherever in the schema it is declared; generated modules mirror the namespaces and refer to each other correctly. Undefined, duplicate and misused names are rejected, and reordering declarations changes nothing for them.",
  ["inputs"], "all identifiers and declaration orders of the analysed schemas", "Tests fix one order and one nesting.",
  [BB+"ir/transform.rs", BB+"codegen.rs"], [("deferred resolution of forward references", "butte-build/src/ir/transform.rs"), ("relative paths between modules", "butte-build/src/codegen.rs")], technique=CG, level="other", note=CN)
p("C26", "Any identifier, also Rust keywords and names used by generated code, works",
  "Tables, fields, enums, variants, unions, namespaces and arguments may have any name of the schema language, including Rust keywords, prelude names and names that look like parts of generated code: the generated code compiles and behaves as for other names (unless two of them become the same Rust name, or a type is named like a Rust primitive type).",
  ["inputs"], "keywords and special names in every position", "Tests use harmless names.",
  [BB+"ir/keywords.rs", BB+"ir/types.rs", BB+"codegen.rs"], [("keyword escaping", "butte-build/src/ir/keywords.rs"), ("hygienic names", "butte-build/src/codegen.rs")], technique=CG, level="other",
  note=CN+" Excluded: two names of which generated items get the same Rust name (fooBar and foo_bar, X and XArgs), names of underscores only, and types named like primitive types of Rust.")
p("C27", "The parser accepts the whole schema language in every layout, nothing else",
  "Every schema of the supported language compiles, to the same code whatever white space, line ends and comments separate its tokens; identifiers may begin like keywords or literals. Text that is not of the language, anywhere in the file, is rejected.",
  ["inputs"], "all layouts of the schema classes, all identifiers, junk at every token", "Tests write each construct in one layout.",
  [BB+"ast/parser.rs"], [("comment and space handling", "butte-build/src/ast/parser.rs comment_or_space"), ("literals and identifiers", "butte-build/src/ast/parser.rs")], technique=CI, level="other", note=CN)
p("C28", "Documentation comments reach the item they document, unchanged and in order",
  "Every documentation line of a table, field, enum, variant, union, member, service or method is attached to what is generated for it, in order and with its text unchanged, and to nothing else.",
  ["inputs"], "all documentation texts and layouts", "Tests have one documented table.",
  [BB+"ast/parser.rs", BB+"ir/transform.rs", BB+"codegen.rs"], [("doc comments", "butte-build/src/ast/parser.rs doc_comment, butte-build/src/codegen.rs")], technique=CI, level="other", note=CN)
p("C29", "Services are passed to the rpc generator completely and exactly once",
  "The rpc generator is called once for each service, in order of declaration, with its methods in order and each method's name, resolved request and response type, streaming mode and documentation; what it emits is in the module of the service's namespace. Services never change what is generated for types, and services of undeclared types or unknown streaming modes are rejected.",
  ["inputs"], "all identifiers and layouts of the analysed services", "Tests compare one service without generator.",
  [BB+"codegen.rs", BB+"ir/transform.rs", BB+"ir/types.rs"], [("RpcGenerator", "butte-build/src/codegen.rs"), ("streaming metadata", "butte-build/src/ir/transform.rs")], technique=CI, level="other", note=CN)
p("C30", "Generated readers return what the buffer holds or an error, for any bytes",
  "Whatever the bytes, get_root and every accessor of generated code return without panicking: the value, string, vector, table, enum or union member the field's slot holds, the declared default or nothing if it is absent, and the error of the reading library (missing, out of bounds, unknown variant) otherwise; an error is never turned into a value or into absence.",
  ["inputs"], "all byte strings, all field kinds", "Tests read buffers butte built.",
  [BB+"codegen.rs", "butte/src/table.rs"], [("accessors", "butte-build/src/codegen.rs"), ("Table::get", "butte/src/table.rs")], technique=CG, level="other", note=CN)
