#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the bounds of the harnesses,
tools/detection.txt (last output of detect.sh) and known_findings.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl") if l.strip()]
bounds = json.load(open(here + "/harness/bounds.json"))["bounds"]
HOW = {
"C01": "Parse, then every element move and every string of every token (`use` in robust.go), of arbitrary bytes. The engine reports any run-time panic, index error, nil dereference, failed type assertion or negative make; a path over the step limit is reported as not terminating. No oracle needed.",
"C02": "Parse versus `judge` (oracle.go), a recursive-descent recogniser of the XML 1.0 productions the library covers, written from the specification and executed symbolically on the same bytes: whatever is accepted must not be rejected by the oracle. Open points (vOpen) are those the documentation leaves open.",
"C03": "Same oracle, other direction: what `judge` accepts must be accepted.",
"C04": "Same oracle: it also yields the expected token list (type, offset, length, prefix length, depth); compared token by token through the public accessors.",
"C05": "Same oracle plus documents built from a description whose expected outcome follows from the description (names equal or not), with up to 1000 attributes.",
"C06": "Names with arbitrary prefixes against declarations in scope; oracle resolves prefixes by a stack of scopes; large counts by construction.",
"C07": "All reserved names and namespace names with arbitrary bytes or references in them, oracle compares the resolved value.",
"C08": "Declarations built from parts with arbitrary bytes; oracle parses the pseudo attributes in order.",
"C09": "References with arbitrary digits and names in all places; oracle computes the code point in unbounded arithmetic (saturating).",
"C10": "Lengths around each documented limit; the outcome follows from the length alone, which the harness controls.",
"C11": "Runs that are longer than one record; records must be adjacent, add up, and the length accessor must give the sum.",
"C12": "The same document parsed in place and as a copy: outcome, message, tokens (shifted) and strings must agree while the bytes outside the window stay symbolic.",
"C13": "Two parsers, another document in between, input bytes and exported error values compared before and after; output to stdout is an intrinsic that fails the path.",
"C14": "The message's line number is parsed back and compared with the number of line feeds before the offence, which the oracle locates.",
"C15": "The oracle's token list gives the tree; depth-first traversal with FirstChild/NextSibling/Parent must visit exactly its elements in order.",
"C16": "A navigation object is built over a token buffer whose 64-bit records are arbitrary; accessors are compared with the documented bit layout.",
"C17": "Every sequence of moves (direction symbolic) compared with the tree model after each step.",
"C18": "As C17, with failed and illegal moves in between; position and later results must be those of the model.",
"C19": "Raw strings of tokens and ranges of arbitrary bytes compared with the bytes themselves after line-end normalisation.",
"C20": "As C19 with references resolved by the oracle's own decoder.",
"C21": "Any index, offset and length (64-bit symbolic) on documents and buffers; never a panic, and success only inside the document.",
"C22": "Arbitrary operation sequences on real buffers against a slice as model.",
"C23": "As C22 with truncations and clears.",
"C24": "Arbitrary 64-bit values; halves compared bit by bit with the value stored.",
"C25": "Arbitrary contents, index, offset and length (64-bit).",
"C26": "Arbitrary page-size exponent (64-bit): invalid-argument error or a buffer that passes C22's model.",
"C27": "Arbitrary bytes, windows and sequences of reader operations against a decoder written from the UTF-8 definition.",
"C28": "One arbitrary 32-bit value per class; the real table lookup is executed symbolically and its result compared with the productions as ranges; a direct proof over all 2^32 values.",
"C29": "Arbitrary window offsets and lengths (64-bit), with and without spare capacity behind the slice, all options.",
"C30": "Arbitrary encoding values and token counts; the hash width compared with its definition; documents parsed first.",
"C31": "Arbitrary messages and causes for each constructor; errors.As/Is/Unwrap are executed for real; kinds of errors of failing calls within parsing bounds.",
"C32": "One arbitrary character of 2 to 4 bytes (every byte free, valid or not) in every place of a document; decoder written from the definition decides.",
"C33": "GetNav before, after a failed and after a successful parse; after success the root must be reachable and be a start tag.",
"C34": "Reads with any index between moves; two or three navigation objects used alternately; everything is read twice and compared.",
"C35": "The same document under default options and under arbitrary ones (cache depth and reuse symbolic, three orders); outcome, message, tokens and elements must agree; namespace awareness off versus on.",
"C36": "Consequences of the token format that need no grammar: order, disjointness, delimiters, levels, one root. Holds for accepted documents whether or not C02's oracle understands them.",
}
o = [open(here + "/tools/design_head.md").read().rstrip(), "", "## Properties and how each is decided", ""]
for p in props:
    i = p["id"]
    o.append("### %s %s" % (i, p["title"]))
    o.append("")
    o.append(HOW[i])
    o.append("")
    for h in sorted(h for h in bounds if h.startswith("H_%s_" % i)):
        o.append("- `%s`: %s" % (h[6:], bounds[h]))
    o.append("")
o += ["## Not applicable", "", "None: every property listed is claimed within its bounds.", ""]
o += ["## Known findings and repairs", ""]
for f in json.load(open(here + "/known_findings.json"))["findings"]:
    o.append("- %s %s: %s" % (f["property"], f["status"] + (" " + f["commit"] if "commit" in f else " (" + f["id"] + ")"), f["what"]))
o += ["", "The five open ones are behaviour the existing tests pin, so they cannot be repaired without editing tests. The checks print a KNOWN-FINDING line for each, and only for paths on which exactly that behaviour occurs; any other deviation is a violation.", ""]
o += ["## Planted changes and the checks that catch them", "", "Last run of `tools/detect.sh` (quick tier, check of the property the change breaks):", ""]
o += ["| change | property | needs | caught |", "|---|---|---|---|"]
for l in sorted(open(here + "/tools/detection.txt")):
    w = l.split()
    if len(w) < 3 or not os.path.exists(here + "/seeded/%s/meta.json" % w[0]):
        continue
    m = json.load(open(here + "/seeded/%s/meta.json" % w[0]))
    o.append("| %s | %s | %s | %s |" % (w[0], w[1], m["needs"].replace("|", "\\|").replace("\n", " "), "yes, %s" % w[3] if w[2] == "rc=1" else "NO"))
open(here + "/DESIGN.md", "w").write("\n".join(o) + "\n")
