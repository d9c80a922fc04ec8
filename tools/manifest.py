#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "static analysis: path-sensitive abstract interpretation of MIR"
ASSUME = (" The verdict covers all inputs, since inputs are symbolic octets and loops are summarised by a fixpoint. Trusted: rustc's MIR, the engine's"
          " transfer functions and models of std. A construct outside the engine's models is reported as UNDECIDED and counted as not discharged"
          " (none on the unchanged tree).")
MODEL = (" Elements are represented by what the element decoder means (established by C06-C15).")
GRAPH = "static analysis: call graph of the monomorphised program"
SEEN = " All analyses of the other checks are run and watched; the call graph shows that every function reachable from the outside was gone through (derived impls excepted)."
CLAIMS = {
    "C01": (AI + "; panics: overflow, index, unwrap, unreachable on every path", "Every assertion and panic reached by any analysed function, on symbolic input of any length; bit strings delivered are shown to be valid before their accessors are asked." + SEEN + MODEL + ASSUME),
    "C02": (AI + "; lexicographic measure for every loop", "Every loop of every function on symbolic input: either unrolled to its end or summarised with a measure bounded below that every iteration lowers; iterators end; decoding an element takes octets." + SEEN + MODEL + ASSUME),
    "C04": (AI + "; sizes of allocations against the octets present", "Every allocation on any decoding path: its size is bounded by a constant or by the octets handed in, no octets or text are copied, and lists grow only in iterations that take something from the input. The growth of Vec itself by amortised doubling is std's." + SEEN + MODEL + ASSUME),
    "C03": (GRAPH + "; no cycle through code of the program", "Instances reached from every function of both crates, through the bodies of core and alloc, objects by the types behind them where known; drop glue included. Depth of the loops of std's own functions is trusted. A cycle with a counted and compared parameter, or one by way of an object of unknown type, is reported as UNDECIDED (none on the unchanged tree)."),
    "C05": (GRAPH + "; effects of std functions propagated to who brings them to run", "Every call of a function defined in the std crate is classified by what it does; statics are judged by their types, unsafe code by the syntax tree, dependencies by where the compiler found them. Trusted: that functions of core and alloc compute from their arguments; the classification of std modules. An unknown function is reported as UNDECIDED (none on the unchanged tree)."),
    "C06": (AI + "; lengths octet by octet", "parse_length and parse_one_type: every path over a symbolic octet string accepts exactly the minimal definite lengths, with their value and extent." + MODEL + ASSUME),
    "C07": (AI + "; extent of each content", "parse_one_type: on every path the content and what is left after it are exactly the octets the length states." + MODEL + ASSUME),
    "C08": (AI + "; identifier octets by value sets", "Identifier::from for every octet; parse_one_type: the identifier sets of all types and of everything rejected." + MODEL + ASSUME),
    "C09": (AI, "Boolean and null contents on every path of parse_one_type." + MODEL + ASSUME),
    "C10": (AI + "; exact linear forms over the octets", "Integer contents on every path of parse_one_type, ASNInteger::as_i32 for every content." + MODEL + ASSUME),
    "C11": (AI + "; induction over the bit iterator", "Bit string contents on every path of parse_one_type; size, octets and the iterator of every bit string of the decoder: its counter for any length, the bits of up to three octets one by one." + MODEL + ASSUME),
    "C12": (AI + "; loop invariant of the arc list", "Object identifiers: first subidentifier on every path, every other by one obligation per loop iteration." + MODEL + ASSUME),
    "C13": (AI + "; digit value sets", "Time contents of any length: the accepted ones are exactly those of the calendar, on every path." + MODEL + ASSUME),
    "C14": (AI + "; exact forms with quotients over the digits", "The number of seconds on every accepting path equals the calendar formula." + MODEL + ASSUME),
    "C15": (AI + "; provenance of slices", "Text and octet contents on every path of parse_one_type." + MODEL + ASSUME),
    "C16": (AI + "; walk of each path against the element grammar", "Every path of the four decoding entry points accepts, and reports a wrong or missing element, exactly as the grammar demands." + MODEL + ASSUME),
    "C17": (AI + "; error-propagation rule on each path and loop iteration", "No path that has looked at a malformed element succeeds, goes on, or reports another error." + MODEL + ASSUME),
    "C18": (AI + "; end-of-content obligation on each accepting path", "On every accepting path each content ends exactly after its last expected element." + MODEL + ASSUME),
    "C19": (AI + "; provenance of slices on each accepting path", "Certificate::parse against the three-part grammar; every delivered slice is located in the input." + MODEL + ASSUME),
    "C20": (AI + "; provenance of each field on each accepting path", "Each field of the result has the provenance of its own element." + MODEL + ASSUME),
    "C21": (AI + "; tag dispatch and optional fields on each path", "Version, unique identifiers and extensions against their tags on every path." + MODEL + ASSUME),
    "C22": (AI + "; loop summary of the extension list", "Extension::parse and Extensions::parse on every path, the list by one obligation per loop iteration." + MODEL + ASSUME),
    "C23": (AI + "; bit provenance of each flag", "Each flag is compared with its own bit of the symbolic bit string on every path." + MODEL + ASSUME),
    "C24": (AI, "Basic constraints on every path of Extension::parse." + MODEL + ASSUME),
    "C25": (AI + "; loop summary of the list", "Purposes by one obligation per loop iteration." + MODEL + ASSUME),
    "C26": (AI + "; loop summary of the list", "Names by one obligation per loop iteration." + MODEL + ASSUME),
    "C27": (AI + "; loop summaries of both nested lists", "Name::parse: each iteration of both loops adds exactly its attribute to the components." + MODEL + ASSUME),
    "C28": (AI, "Certificate::parse for the decoded window, and Validity::is_valid on symbolic moments." + MODEL + ASSUME),
    "C29": (AI + "; provenance of each field", "Algorithms and public keys on every path of Certificate::parse." + MODEL + ASSUME),
    "C30": (AI + "; provenance of each field", "Key identifier and role on every path of Extension::parse." + MODEL + ASSUME),
    "C31": (AI + "; exact set of arc sequences per name", "Display of object identifiers: each path that prints a name excludes every arc sequence but its own; the dotted form by one obligation per loop iteration." + ASSUME),
    "C32": (AI + "; each path through the decoding loop simulated on a stack machine (transducer equivalence)", "parse_all: the loop keeps a stack of open contents of any depth; from every stack, each path makes exactly the machine's reports and leaves the machine's stack." + MODEL + ASSUME),
    "C33": (AI + "; typestate of the printer along the event trace of each path and loop iteration", "Every implementation of Printable and both printers." + ASSUME),
    "C34": (AI + "; typestate of the line along the event trace of each path and loop iteration", "Every implementation of Printable and both printers." + ASSUME),
    "C35": (AI + "; labelled lines of each path against the fields they must show", "Printing of every decoded value on every path; lists by one obligation per loop iteration." + ASSUME),
    "C36": (AI + "; loop summaries of the text emitted for a symbolic octet sequence", "Octets, integers and the generic printer's dumps." + ASSUME),
    "C37": (AI + "; effects of every path over a symbolic argument list", "main of the decoder tool: number and text of the arguments, the file opened, what is read and decoded, and how each path ends." + ASSUME),
    "C38": (AI, "The cause and value of each error on every path of the length and element decoders, and the message of every kind of error; errors of the certificate layer are decided with C16-C30." + ASSUME),
    "C40": (AI + "; text emitted for each kind of element and each report", "Display of every kind of element, and every method of the printing handler." + ASSUME),
}
NOT = {
    "C39": "bounds running time and memory as quantities; a static cost bound with the stated constants is out of reach of the analyses here (termination, allocation size and absence of copying are decided by C02 and C04)",
}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = dict(
        version=1,
        setup_cmd="cd engine && cargo +nightly build --release --offline",
        checks=[dict(property=p, quick_cmd="./check " + p, thorough_cmd="./check " + p, technique=CLAIMS[p][0], level="proof", level_note=CLAIMS[p][1]) for p in props if p in CLAIMS],
        not_applicable=[dict(property=p, reason=NOT.get(p, "check under construction")) for p in props if p not in CLAIMS],
        notes="Every check type-checks /repo's working tree with the engine as rustc wrapper in a scratch target directory; nothing of rasn is executed.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as h:
        json.dump(m, h, indent=1)
        h.write("\n")


main()
