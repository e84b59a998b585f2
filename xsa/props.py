"""The table behind properties.jsonl and MANIFEST.json: python3 -m xsa.props writes both."""
import json, os
from . import groups

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # (id, title, statement, over, text, why, files, mechanism)
NA = []     # same + reason

SER, DE, OPQ = "serde-xdr/src/ser.rs", "serde-xdr/src/de.rs", "serde-xdr/src/opaque.rs"
PRIM, ERR = "serde-xdr/src/primitive.rs", "serde-xdr/src/error.rs"


def p(id, title, statement, text, why, files, mech, over=("inputs",)):
    P.append((id, title, statement, over, text, why, files, mech))


def na(id, title, statement, text, why, files, mech, reason, over=("inputs",)):
    NA.append((id, title, statement, over, text, why, files, mech, reason))


p("C01", "Scalar values encode to the RFC 4506 words",
  "Every integer, boolean, character and floating-point value is encoded in exactly the big-endian form RFC 4506 gives its type: four bytes for values up to 32 bits (sign- or zero-extended, booleans 0 or 1, characters as their code point), eight bytes for 64-bit values, the IEEE bits for floats. Nothing else is written and everything written before stays as it was. Void values write nothing.",
  "every value of every scalar type, at every position of the output",
  "The tests encode a handful of values per type; the type has up to 2^64 of them, and an error in one byte lane or for one sign goes unseen.",
  [SER], [("Serializer scalar methods", SER)])
p("C02", "Scalar values decode from the RFC 4506 words, or are rejected",
  "Decoding a scalar reads exactly the four or eight bytes RFC 4506 gives its type, big-endian, and yields the value they denote. When the bytes are missing, or the word denotes no value of the requested type (a 16-bit or 8-bit integer out of range, an invalid character), decoding reports an error instead of inventing a value; a boolean is false for the word 0 and true for 1.",
  "every byte string at every position of the input, for every scalar type",
  "The tests decode one or two words per type; the other 2^32 or 2^64 words, and all truncated inputs, are not tried.",
  [DE], [("Deserializer scalar methods", DE)])
p("C03", "Strings and byte strings encode with length, content and zero padding",
  "A string or byte string is encoded as its length in bytes as a 32-bit word, then its bytes unchanged, then the smallest number of zero bytes (0 to 3) that brings the total to a multiple of four. A string too long for the length word is refused.",
  "every string and byte string, of any length and length residue modulo four",
  "The tests use short strings with a few residues; a wrong padding rule or padding byte shows only for particular lengths.",
  [SER], [("serialize_str, serialize_bytes", SER)])
p("C04", "Strings and byte strings decode exactly, and truncated ones are rejected",
  "Decoding a string or byte string reads the length word, then exactly that many bytes, then exactly the padding up to a multiple of four, and yields those bytes. Missing bytes or padding, and strings that are not UTF-8, are reported as errors.",
  "every byte string given as input, for every announced length",
  "The tests decode a few well-formed strings and no truncated ones; lengths, residues and truncation points are unbounded.",
  [DE], [("read_string, read_bytes", DE)])
p("C05", "Arrays, maps and structures encode their parts in order with the right counts",
  "A variable-length array or a map is encoded as its element count followed by every element (key then value) in order; fixed-length arrays, tuples and structures are their elements or fields in order with no count and nothing in between. A sequence or map whose length is not known beforehand is refused, and an element that fails makes the whole encoding fail.",
  "every sequence, map, tuple and structure, with elements of any type",
  "The tests encode small arrays of a few element types; order and count must hold for any length and any element type.",
  [SER], [("SerializeSeq, SerializeMap, SerializeTuple, SerializeStruct implementations", SER)])
p("C06", "Optional data is a zero word, or a one word and the value",
  "An absent optional value is encoded as the word 0 and a present one as the word 1 followed by the encoding of the value. Decoding the word 0 yields absence, decoding the word 1 yields the value that follows, and a truncated discriminator is an error.",
  "every optional value of any type, every input word",
  "Tests try one present and one absent value of simple types.",
  [SER, DE], [("serialize_none, serialize_some", SER), ("deserialize_option", DE)])
p("C07", "Enumerations and unions carry the variant number as a signed word",
  "An enumeration value, or a union value of any shape, is encoded as its variant number in one signed 32-bit word followed by the fields of the variant in order. Decoding reads that word, selects the variant by exactly that number and reads exactly the fields of the variant; a negative or truncated discriminant is an error.",
  "every variant number, every variant shape and payload type, every input word",
  "The tests use enumerations with few variants; large and negative discriminants and other payload shapes are not reached.",
  [SER, DE], [("serialize_*_variant", SER), ("EnumAccess and VariantAccess", DE)])
p("C08", "Opaque data keeps its length, bytes and padding in both directions",
  "Fixed opaque data of n bytes is encoded as those bytes plus zero padding to a multiple of four, variable opaque data as its length word followed by the same. Decoding yields exactly the bytes announced (or the n fixed ones), consumes exactly the padded data, and reports an error when bytes are missing.",
  "every byte array length (all residues modulo four) and content, every input",
  "The tests use three or four lengths; each residue class has unboundedly many lengths and the regrouping into words must be right for all.",
  [OPQ], [("opaque::fixed, opaque::variable", OPQ), ("enumerate_u32, enumerate_u8", OPQ)])
p("C09", "Lengths and discriminants are never truncated",
  "No length, element count or variant number is ever shortened to fit its 32-bit word: a value that does not fit makes the encoding fail, and a decoded length or discriminant is used as the exact number on the wire.",
  "every length and every discriminant",
  "Lengths above 2^31 or 2^32 need gigabytes of data, so no test reaches them.",
  [SER, DE], [("try_from conversions of lengths and variant numbers", SER)])
p("C10", "Encoding and decoding never panic",
  "Whatever bytes are given to decode and whatever value is given to encode, the codec returns a result or an error; it never panics, overflows, or reads out of bounds.",
  "every input byte string, every value, every requested type",
  "Tests feed well-formed data; a panic needs a particular malformed or truncated input.",
  [SER, DE, OPQ, PRIM], [("bounds checks before every read", DE), ("checked conversions", SER)])
p("C11", "Decoding succeeds only when the whole input is consumed",
  "Decoding from bytes succeeds only when the value's encoding is the complete input: surplus bytes are reported as an error, errors of the value are returned unchanged, and on success the result is the decoded value.",
  "every input and every requested type",
  "The tests check one trailing-data case for one type.",
  [DE], [("from_bytes", DE)])
p("C12", "Memory used while decoding is bounded by the input",
  "A length or count announced by the input never makes the decoder reserve memory in proportion to the announced number before that much data has been seen to exist.",
  "every input, in particular those announcing lengths up to 2^32-1",
  "A test would have to feed hostile lengths and measure allocation; none does.",
  [DE, OPQ], [("read before allocate", DE), ("enumerate_u8", OPQ)])
p("C13", "Errors are never swallowed",
  "When encoding or decoding a part fails - an element, a field, a key, a word - the operation that contains it fails too with that error; a failed part never yields a successful result or a partial value taken for a complete one.",
  "every position at which a nested operation can fail",
  "The tests exercise hardly any failing part; each position needs its own failure.",
  [SER, DE, OPQ, PRIM], [("? on every nested call", DE)])
p("C14", "Every encoding is a multiple of four bytes",
  "Every operation that writes to the output, taken by itself, adds a multiple of four bytes, and every operation that reads consumes a multiple of four bytes when it succeeds, so that items always stay aligned.",
  "every value and every input",
  "Alignment depends on the residue of every length; the tests sample a few.",
  [SER, DE, OPQ], [("padding arithmetic", SER), ("padding arithmetic", DE)])
p("C15", "The codec is pure, safe code without shared state",
  "Encoding and decoding depend on nothing but their arguments: they touch no global or thread-local mutable state, no operating system resource, and contain no unsafe code, so equal inputs always give equal results on every thread and in every order of calls.",
  "every call history and thread interleaving, every input",
  "A test observes one history; independence from history cannot be sampled.",
  [SER, DE, OPQ, PRIM, ERR], [("no statics, no unsafe", "serde-xdr/src")], over=("schedules", "histories", "inputs"))
p("C19", "The signed 32-bit adapter writes and reads the exact number",
  "A value adapted as a signed 32-bit number is encoded as exactly the number it refers to; decoding reads that number, hands it unchanged to the conversion of the type, yields the converted value, and reports an error when the type has no such value.",
  "every number and every adapted type",
  "The tests use one small enumeration.",
  [PRIM], [("primitive::signed32", PRIM)])
p("C20", "Encoder and decoder agree on the kind of representation",
  "The encoder and the decoder give the same answer when a type asks whether the format is human readable, so that a type with two representations is decoded in the representation it was encoded in.",
  "every user type that distinguishes the two representations",
  "No test uses such a type.",
  [SER, DE], [("is_human_readable", SER), ("is_human_readable", DE)], over=("inputs", "programs"))
p("C21", "Encoding to bytes returns exactly the encoding of the value",
  "Encoding a value to bytes starts from an empty output, applies the value's encoding once, and returns exactly what it wrote, or exactly its error.",
  "every value of every type",
  "The tests look at particular values only.",
  [SER], [("to_bytes", SER)])
p("C22", "Errors name the fault",
  "When exactly one thing is wrong, the error says which: missing bytes are reported as NotEnoughData, surplus bytes as TrailingData with their exact number, a number that the requested type or the 32-bit word cannot hold as Convert, text that is not UTF-8 as Encoding, a sequence or map of unknown length and a request for self-describing data as not supported (or not implemented), and a message of the value's own code as Custom with exactly that message.",
  "every fault, in every operation, at every position",
  "The tests hardly look at errors at all; each operation has faults of its own.",
  [SER, DE, ERR], [("conversions into the error type", ERR), ("Deserializer::read", DE), ("from_bytes", DE)])

DRV = "serde-xdr-derive/src/lib.rs"
p("C16", "Index-mapped enumerations use their table in both directions",
  "A value of an enumeration mapped by an index table is encoded as the index the table gives for it, as one signed word, followed by the fields of its variant in declaration order and nothing else. Decoding reads one signed word, selects exactly the variant whose name the table gives for that number, and fills its fields in order with the values that follow.",
  "every such enumeration: any number of variants, any number and type of fields, any table, every value and input",
  "The tests derive one enumeration with at most two fields per variant; the macro works for unboundedly many shapes.",
  [DRV, "serde-xdr/src/lib.rs"], [("XdrIndexer derive macro", DRV)], over=("programs", "inputs"))
p("C17", "Discriminant-carrying unions keep the discriminant as their first field",
  "A value of a union whose variants carry their discriminant is encoded as the discriminant stored in its first field followed by the other fields in order. Decoding reads the discriminant once, selects exactly the variant whose name the table gives for it, stores the discriminant as read in the first field and fills the other fields in order.",
  "every such union: any number of variants and fields, any table, every value and input",
  "The tests derive three unions with at most one further field; other shapes and truncated inputs are not tried.",
  [DRV, "serde-xdr/src/lib.rs"], [("XdrUnion derive macro", DRV)], over=("programs", "inputs"))
p("C18", "Derived decoders reject unknown or truncated data without panicking",
  "Decoding a derived enumeration or union never panics, whatever the input, the table and the number of fields: an unknown discriminant, a table entry that names no variant, missing fields and missing bytes are all reported as errors.",
  "every input, every table, every number of fields",
  "No test decodes an unknown discriminant or a truncated value of a derived type.",
  [DRV], [("generated visitor", DRV)], over=("programs", "inputs"))

PAR, KW = "rpcgen/src/parser.rs", "rpcgen/src/keyword.rs"
p("G01", "Parsing a specification ends and never panics",
  "Parsing any text ends with a list of definitions or an error: no repetition can go on without consuming text, no rule can re-enter itself before it has consumed text, and no step of the parser panics. (Nesting so deep that the stack is exhausted is left aside.)",
  "every text", "The tests parse a few dozen short, mostly valid snippets.",
  [PAR], [("parse", PAR), ("nom rules", PAR)])
p("G02", "A specification is accepted only as a whole, blanks and comments aside",
  "A text is accepted only if all of it is a sequence of definitions; what is left over is an error, never ignored. White space and /* */ comments before, between and after definitions (and around the punctuation inside bodies where the language allows them) mean nothing: they neither change nor hide a definition, and a comment ends at the first */. The definitions are returned all, once each, in order.",
  "every text", "Tests place comments in a few spots and check no text with something left over after many definitions.",
  [PAR], [("parse", PAR), ("specification", PAR), ("comment0", PAR)])
p("G03", "Identifiers are letters, digits and underscores, and no keyword",
  "An identifier is the longest run of letters, digits and underscores that does not start with a digit; it is returned as written, and it is refused exactly if it is one of the keywords of the language. A name that merely begins with a keyword is an ordinary name.",
  "every text at every place where a name may stand", "The tests use a handful of names; keyword prefixes and positions multiply without end.",
  [PAR, KW], [("identifier", PAR), ("xdr_reserved", KW)])
p("G04", "Constants keep their digits and base",
  "A constant is decimal (a digit other than zero and more digits, with an optional minus sign, or a single zero), hexadecimal (0x and hexadecimal digits) or octal (0 and octal digits); it is recorded with its base and exactly its digits, and the number it denotes is those digits read in that base, or an error if the number does not fit the type asked for.",
  "every constant and every integer type asked for", "The tests read one or two constants of each base.",
  [PAR], [("constant, decimal_nonzero, hexadecimal, octal", PAR), ("TryFrom<&Constant>", PAR)])
p("G05", "Declarations and types are read as what they say",
  "Every declaration is read as exactly the form it has: void, a variable, a fixed array [n], a variable array <n> or <>, opaque and string data, or an optional pointer, with its name, its type and its bound. Every type name is read as the type it denotes, with its signedness, and every other name as a reference to the type of that name; a name that begins with a type keyword is still a name.",
  "every declaration of every type, at any nesting", "The tests read some twenty declarations; the forms combine with types, names and bounds without end.",
  [PAR], [("declaration", PAR), ("type_specifier", PAR)])
p("G06", "Enumerations, structures, unions and definitions keep all their parts",
  "A constant, typedef, enumeration, structure or union definition is read with its name and all its parts in order: every enumerator with its value, every field, the discriminant, every case with all its labels and its arm, and the default arm if there is one; parts that are required may not be missing, and nothing is accepted in the place of one.",
  "every definition, with any number of parts", "The tests read bodies with at most three parts.",
  [PAR], [("enum_body, struct_body, union_body, case_spec", PAR), ("definition, type_def, constant_def", PAR)])
p("G07", "Programs keep their versions, procedures and numbers",
  "A program is read with its name, its number and all its versions in order, each with its name, its number and all its procedures in order, each with its name, its number, its result type and its argument type, void included.",
  "every program definition", "The tests read one program with one procedure.",
  [PAR], [("program, version, procedure", PAR)])

GEN, MAIN = "rpcgen/src/gen_code.rs", "rpcgen/src/main.rs"
p("G08", "Generating code ends with code or an error, never a panic",
  "For every list of definitions and every setting of the options, generating code ends and yields code or an error; it never panics, overflows or recurses without end. What has no representation is refused with an error: quadruple, void members and anonymous enum, struct or union types; discriminants that are neither an integer, a bool, an enum nor a name; values that are out of range or name nothing; negative values where the position must equal the value; a typedef of opaque data that is kept as an alias; and constants, enumerators or typedefs that refer back to themselves.",
  "every list of definitions, every setting of the options",
  "The tests generate code for some thirty small, valid specifications.",
  [GEN], [("gen_code", GEN), ("verify_references", GEN), ("convert_*_token", GEN)], over=("inputs", "configurations"))
p("G09", "Members get the Rust type that stands for their XDR type",
  "Every member, arm and typedef gets the Rust type that stands for its declaration: int, hyper, short and char the signed or unsigned integer of 32, 64, 16 and 8 bits, float, double and bool theirs, a named type its name; a fixed array [T; n] with exactly the declared length (a number, or the named constant as usize), a variable array Vec<T>, optional data Option<T>.",
  "every declaration of every type, wherever it stands, with any length",
  "The tests generate a few declarations; kinds of declaration, types, positions and options multiply.",
  [GEN], [("convert_type_token, convert_primitive_token", GEN)], over=("inputs", "configurations"))
p("G10", "Opaque data and strings are generated with their representation",
  "Fixed opaque data of n bytes becomes [u8; n] with the adapter for fixed opaque data, variable opaque data becomes Vec<u8> with the adapter for variable opaque data (or the wrapper type for it, where no attribute can stand and in arrays), and strings become String - for members of structures, arms and default arms of unions, and through typedefs.",
  "every opaque or string declaration, of any length, wherever it stands, under every setting of the options",
  "An adapter that is missing in one position under one option compiles and encodes wrongly; the tests look at few positions.",
  [GEN], [("convert_struct_token, convert_payload_token", GEN), ("OpaqueType", GEN)], over=("inputs", "configurations"))
p("G11", "Enumerations keep every name and value",
  "An enumeration becomes an enum with exactly its enumerators, each with its value, in the order of the values, whatever order they are declared in, and a default that is one of them. With the standard traits, AsRef gives each enumerator its value and TryFrom gives each value its enumerator and every other value an error; with the indexer, index gives each its value and name_by_index each value its name, and every other value an error or the default. With neither, reserved variants fill every gap from 0 on, so that the position of each enumerator is its value. Structure members and arms of such a type are written by value when the standard traits are asked for.",
  "every enumeration: any names and values, in any order, under every setting of the options",
  "The tests use enumerations with consecutive or few values in ascending order.",
  [GEN], [("convert_enum_token", GEN)], over=("inputs", "configurations"))
p("G12", "Unions keep every case, its discriminant and its arm",
  "A union becomes an enum with one variant for every case label, in the order of the discriminants, with the type of its arm as payload (none for void), one for the default arm if there is one, and a default value that is one of them. With the indexer, index and name_by_index give each variant its discriminant and each discriminant its variant; in union mode the discriminant is the first field and name_by_value gives each discriminant its variant; any other discriminant gives the default arm, or an error if there is none. With neither, reserved variants fill every gap from 0 on. A discriminant may be an integer, a bool, an enum, or a typedef of one; labels may be numbers, constants, enumerators, TRUE and FALSE.",
  "every union: any discriminant type, labels, values, arms and default, under every setting of the options",
  "The tests use unions with two or three small consecutive labels and few kinds of arm.",
  [GEN], [("convert_union_token, convert_case_token", GEN)], over=("inputs", "configurations"))
p("G13", "Structures keep every member in order",
  "A structure becomes a struct with exactly its members, in the order of the declaration, each public, under its own name and with its own type; a member of the structure's own type is boxed; a member that is an enum is written by its value when the standard traits are asked for.",
  "every structure: any number and kind of members", "The tests use structures with at most a few members.",
  [GEN], [("convert_struct_token", GEN)], over=("inputs", "configurations"))
p("G14", "Constants and names stand for their values",
  "A constant becomes a public constant with exactly its value, as u32 if it fits and else as u64. Wherever a name stands for a value - in a constant, an enumerator, or a case label - it stands for the value of the constant of that name, or else of the enumerator of that name in any enumeration, through any number of names and wherever it is defined; a name that is not defined is an error.",
  "every constant and every chain of names", "The tests resolve one or two names.",
  [GEN], [("constants_token", GEN), ("resolve_value, resolve_name", GEN)], over=("inputs",))
p("G18", "Typedefs are kept as aliases, or replaced everywhere they are used",
  "When typedefs are kept, each becomes a type alias of its name for its type, and uses refer to the name. When they are to be removed, no alias is generated and every use - in structures, arms and default arms, discriminants and other typedefs, before or after the typedef, through any chain - is replaced by the type it stands for, together with the representation it needs.",
  "every typedef of every kind of declaration, every use of it", "The tests resolve a typedef in few positions.",
  [GEN], [("resolve_type_token", GEN), ("types_token", GEN)], over=("inputs", "configurations"))
p("G19", "Every definition is generated exactly once",
  "The generated code holds exactly one item for every constant, enumeration, structure and union (and every typedef that is kept), with the implementations the options ask for and no others, nothing for comments and programs, and the imports its code needs.",
  "every list of definitions, under every setting of the options", "The tests generate one definition at a time.",
  [GEN], [("gen_code", GEN), ("types_token, constants_token", GEN)], over=("inputs", "configurations"))
p("G15", "Every identifier that is written is a Rust identifier",
  "Every identifier the generator writes - for constants, types, members, enumerators, case labels, reserved variants - is a valid Rust identifier, whatever the name it is made from: it is not empty and not a lone underscore, begins with a letter or an underscore, holds only letters, digits and underscores, and is no Rust keyword (of the 2015 to 2024 editions) unless written as a raw identifier, which it is only where Rust allows it. Turning a name into an identifier never panics.",
  "every name a specification can give, wherever it stands",
  "The tests convert a dozen ordinary names; keywords, underscores, digits and capitals combine without end.",
  [GEN, KW], [("to_ident, snake_case, upper_camel_case", GEN), ("rust_reserved", KW)], over=("inputs",))
p("G20", "Identifiers keep the letters and digits of their names",
  "The identifier made from a name holds exactly the letters and digits of the name, all of them and in order; only letter case and underscores may differ, and a constant keeps its letter case as well. Names of members hold no capital letter, and names of types and enumerators do not begin with a small one.",
  "every name a specification can give",
  "The tests convert a dozen names; a letter that is lost or doubled at some boundary (digits, runs of capitals, underscores at an end) does not show in them.",
  [GEN], [("snake_case, upper_camel_case, capitalize", GEN)], over=("inputs",))
p("G16", "Generated code depends on the specification and the options only",
  "Parsing and generating depend on nothing but their arguments: no global or thread-local mutable state, no hash order, no environment, clock or file, and no unsafe code. The same specification and options always give the same code, in whatever order and on whatever thread the calls are made.",
  "every specification, every history of calls and interleaving of threads", "A test observes one history and one run; order that differs between processes does not show in it.",
  [GEN, PAR, KW], [("gen_code", GEN), ("parse", PAR)], over=("inputs", "schedules", "histories"))
p("G17", "The command line tool follows its flags and reports every failure",
  "rpcgen reads the file it is given, parses exactly its text, generates code from exactly what was parsed, and prints exactly that code and nothing else; if reading, parsing or generating fails it prints no code and ends with that error. The generator is configured as the flags say: --use-std-trait asks for the standard traits on enumerations and rules out the indexer there, --use-indexer asks for the indexer on enumerations and unions, --use-extra-trait for the indexer on unions, --use-union for the union trait, which rules out the indexer on unions; type definitions are always resolved.",
  "every combination of flags, every file, every outcome of reading, parsing and generating", "No test runs the tool.",
  [MAIN], [("main", MAIN)], over=("inputs", "configurations"))

na("C90", "Every value of every serialisable type survives a round trip",
   "Decoding the encoding of a value yields an equal value, for every user-defined type whose serialisation follows the data model.",
   "every user type and value", "Types are unbounded.", [SER, DE], [("to_bytes, from_bytes", SER)],
   "It quantifies over the Serialize and Deserialize implementations of arbitrary user types, which are not in this source; C01-C08, C19 and C20 decide, method by method, that what is written and what is read agree with the same wire format.", over=("programs", "inputs"))
na("C91", "Decoding needs bounded stack",
   "Decoding nested data never overflows the stack, whatever the nesting depth of the input.",
   "every input", "Depth is unbounded.", [DE], [("recursion through Deserialize", DE)],
   "The recursion runs through the Deserialize implementations of user types (a linked list type recurses as deep as its data), and frame sizes are decided by the code generator; no static argument on this source bounds the depth.")


def write():
    ids = {}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for row in P + [r[:-1] for r in NA]:
            id, title, st, over, text, why, files, mech = row
            assert len(title) <= 80, title
            assert id not in ids, id
            ids[id] = 1
            f.write(json.dumps({"id": id, "title": title, "statement": st,
                                "quantifier": {"over": list(over), "text": text},
                                "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}) + "\n")
    checks = []
    for row in P:
        id = row[0]
        checks.append({"property": id, "quick_cmd": "python3 check.py " + id,
                       "thorough_cmd": "python3 check.py %s thorough" % id,
                       "technique": groups.TECHNIQUE[id], "level": "other", "level_note": groups.NOTE[id]})
    doc = {"version": 1, "setup_cmd": "python3 -m xsa.frontend", "checks": checks,
           "not_applicable": [{"property": r[0], "reason": r[-1]} for r in NA],
           "notes": "All checks are static: the deciding step reads rustc's MIR (and syntax) of /repo's current source; nothing of /repo is executed. DESIGN.md describes the analysis; KNOWN_FINDINGS lists repaired and recorded defects."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
