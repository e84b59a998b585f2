"""Which analyses decide which property."""

CODEC = ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C19 C20 C21 C22").split()

CODEC_RULE = ("Every function of the codec that carries the property is evaluated symbolically over rustc's MIR for all "
              "inputs (byte strings and integers are terms, loops are summarised); each resulting path is compared with "
              "the RFC 4506 expectation written down for it.")
EFFECT_RULE = ("Call graph of the crate over rustc's MIR: no reachable function may touch shared, thread-local or mutable "
               "static state, the operating system, raw memory or unchecked operations; rustc's unsafe_code lint (forced on) must be silent.")

RULE = {p: CODEC_RULE for p in CODEC}
RULE["C15"] = EFFECT_RULE
SRC_CODEC = ["serde-xdr/src/ser.rs", "serde-xdr/src/de.rs", "serde-xdr/src/opaque.rs", "serde-xdr/src/primitive.rs", "serde-xdr/src/error.rs"]
SOURCES = {p: SRC_CODEC for p in CODEC}
ASSUME = [
    "rustc's MIR construction and the dumper that serialises it",
    "the transfer functions written for library functions (xsa/models.py, witness/src/models.rs)",
    "memory allocation succeeds; stack depth is not modelled",
]
GROUPS = {p: ("codec",) for p in CODEC}
GROUPS["C10"] = GROUPS["C13"] = ("codec", "derive")


DERIVE = ("C16 C17 C18").split()
DERIVE_RULE = ("The derive macros are expanded for enumerations of all structural kinds (witness_derive/) and the expansion is evaluated symbolically "
               "through the codec, for all values and inputs; the macro's own MIR is checked to distinguish shapes only by structure or by numbers the witnesses lie on both sides of.")
for _p in DERIVE:
    RULE[_p] = DERIVE_RULE
    SOURCES[_p] = ["serde-xdr-derive/src/lib.rs"] + SRC_CODEC
    GROUPS[_p] = ("derive",)


PARSER = ("G01 G02 G03 G04 G05 G06 G07").split()
PARSER_RULE = ("The parser functions' MIR is evaluated to one grammar expression (ordered choice, repetition, lookahead, guards, and the value each "
               "alternative builds); after normalisation it is compared, item by item, with the grammar written down from RFC 4506 section 6 and RFC 5531.")
for _p in PARSER:
    RULE[_p] = PARSER_RULE
    SOURCES[_p] = ["rpcgen/src/parser.rs", "rpcgen/src/keyword.rs"]
    GROUPS[_p] = ("parser",)

RULE["G16"] = ("Call graph of the rpcgen library over rustc's MIR: no reachable function may touch shared, thread-local or mutable static state, "
               "the operating system, hash-ordered collections, raw memory or unchecked operations; rustc's unsafe_code lint (forced on) must be silent.")
SOURCES["G16"] = ["rpcgen/src/gen_code.rs", "rpcgen/src/parser.rs", "rpcgen/src/keyword.rs", "rpcgen/src/error.rs"]
GROUPS["G16"] = ("pure",)
RULE["G17"] = ("The tool's main function is evaluated symbolically over rustc's MIR for all arguments, files and results of the parser and the generator; every path's "
               "output and result, and the configuration under every combination of flags, are compared with what is documented.")
SOURCES["G17"] = ["rpcgen/src/main.rs"]
GROUPS["G17"] = ("cli",)

GENP = "G08 G09 G10 G11 G12 G13 G14 G15 G18 G19 G20".split()
GEN_RULE = ("The code generator's MIR is evaluated symbolically on skeletons of definition lists (the shape of each definition is fixed; all names, numbers and "
            "options of the generator are symbolic): each path's token sequence is compared with the code written down for those definitions from RFC 4506 and the "
            "documented options, and each path must end in code or an error.")
for _p in GENP:
    RULE[_p] = GEN_RULE
    SOURCES[_p] = ["rpcgen/src/gen_code.rs", "rpcgen/src/parser.rs", "rpcgen/src/keyword.rs"]
    GROUPS[_p] = ("gen",)


for _p in ("G15", "G20"):
    RULE[_p] = ("Every distinct identifier shape that occurs in the generated token sequences (a composition of the generator's functions on names) is evaluated over rustc's MIR "
                "for all names, in a domain of texts that keeps character classes, excluded words and the stretches of the name a text is made of; every outcome must be a valid identifier (G15) "
                "and be made of exactly the letters and digits of the name (G20).")


def analysis(name, pid, tier):
    if name == "gen":
        from . import gencheck
        return gencheck.GenCheck().run(pid, tier)
    if name == "pure":
        from . import cli
        return cli.Pure().run(pid)
    if name == "cli":
        from . import cli
        return cli.Cli().run(pid)
    if name == "parser":
        from . import rpcl
        return rpcl.Parser().run(pid)
    if name == "codec":
        from . import codec
        return codec.Codec().run(pid)
    if name == "derive":
        from . import derive
        return derive.Derive().run(pid)
    raise KeyError(name)


def run(pid, tier):
    return [analysis(g, pid, tier) for g in GROUPS[pid]]


T_CODEC = "abstract interpretation of rustc MIR (all paths, symbolic byte strings, loop summaries) against RFC 4506"
N_CODEC = ("All paths of the functions that carry the property are covered for all inputs, without bounds. Trusts rustc's MIR, the "
           "transfer functions written for library calls, and that allocation succeeds. What the analysis cannot follow is printed as UNDECIDED and does not count as covered.")
TECHNIQUE = {p: T_CODEC for p in CODEC}
NOTE = {p: N_CODEC for p in CODEC}
T_DERIVE = "abstract interpretation of the macro expansion's MIR end to end, plus a uniformity (branch provenance) analysis of the macro"
N_DERIVE = ("All paths of the expansions of the witness shapes, for all values, inputs and tables. Other shapes are covered as far as the macro "
            "distinguishes shapes by structure only, which is checked. " + N_CODEC)
for _p in DERIVE:
    TECHNIQUE[_p], NOTE[_p] = T_DERIVE, N_DERIVE
T_PARSER = "abstract interpretation of the parser's MIR to a grammar with semantic actions, normalised and compared with a reference grammar"
N_PARSER = ("The grammar of all texts, without bounds on length or nesting, and the syntax tree built for each. Trusts the meaning written down for nom's "
            "combinators and the normalisation rules (xsa/grammar.py); a parser it cannot follow is printed as UNDECIDED. Stack depth and running time are not modelled.")
for _p in PARSER:
    TECHNIQUE[_p], NOTE[_p] = T_PARSER, N_PARSER
T_GEN = "abstract interpretation of the generator's MIR to token sequences on symbolic definitions, compared with a reference generator"
N_GEN = ("All names, numbers and option settings on about two hundred skeletons of definition lists that put every kind of declaration, type and reference in every "
         "position; other lists (longer bodies, other mixtures) are not covered. Trusts the meaning written down for quote! and the library calls; a skeleton the "
         "analysis cannot decide is reported as UNDECIDED and does not count as covered.")
for _p in GENP:
    TECHNIQUE[_p], NOTE[_p] = T_GEN, N_GEN
for _p in ("G15", "G20"):
    TECHNIQUE[_p] = "abstract interpretation of the name functions' MIR over a domain of texts (character classes, excluded words, provenance of stretches), to a fixpoint"
    NOTE[_p] = ("All names, without bounds. The identifiers are those that occur in the code generated for the skeletons of definition lists (see G08). Trusts the meaning written down "
                "for the text and character functions of the library (xsa/names.py); a conversion that cannot be followed is reported as UNDECIDED. That two names "
                "stay different is not claimed.")
TECHNIQUE["C15"] = "call-graph effect analysis over rustc MIR, plus the compiler's unsafe_code lint"
TECHNIQUE["G16"] = TECHNIQUE["C15"]
NOTE["G16"] = ("Covers every function of the library and every library function it calls by name. Trusts the list of effectful library functions "
               "(xsa/effects.py, xsa/deny.txt) and that the other library functions called are pure; generic calls into other crates are not followed.")
TECHNIQUE["G17"] = "abstract interpretation of the main function's MIR (all paths), with the parser and the generator uninterpreted"
NOTE["G17"] = ("All paths of main, for all arguments and files. Trusts the meaning written down for clap's builder (xsa/cli.py), which itself ends the "
               "program on wrong usage, and that an error returned from main makes the exit status non-zero.")
NOTE["C15"] = ("Covers every function of the crate and every library function it calls by name. Trusts the list of effectful library functions "
               "(xsa/effects.py, xsa/deny.txt) and that the other library functions called are pure.")
