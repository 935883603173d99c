#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the table below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the compiler's monomorphised MIR (symbolic values, trace partitioning, library models)"
EFF = "effect analysis over the call graph of the compiler's monomorphised MIR"
CHECKS = {
    "C01": (AI + ": the engine before and after a rejected program compared cell by cell", "every program of a family of shapes followed by every kind of rejected program, and every node description that is refused; sample rate, tempo, seed and written numbers arbitrary"),
    "C02": (AI + ": identities of referenced chains followed to the node that mixes them", "every node description of the language that refers to chains, fresh and edited, both iteration orders of the chain table"),
    "C03": (AI + ": the edges of the graph after each update compared with the program", "every program of a family of 24 shapes, every ordered pair of them as an edit, every node description of the language"),
    "C04": (AI + ": the node after a message compared cell by cell with the node made from code", "every node description of the language, every parameter position it has and two beyond, any number"),
    "C05": (AI + " of parser and node construction, with the grammar read as data: each written text followed to the setting it ends up in", "every node description the grammar can spell, repetitions of lists bounded, every written number a symbol of its own; settings compared by name and by the calculation that derives them"),
    "C06": ("value-origin (taint) analysis by " + AI, "every node description of the language, any configured sample rate, nested nodes included; delays written in samples are not times"),
    "C07": ("value-origin (taint) analysis by " + AI, "every node description of the language, any two tempi"),
    "C08": (AI + ": which buffers each node is handed while a block is rendered", "every set of connections among two nodes and the output (self connections included), chosen three-node graphs, every program of the family, cyclic programs; after edits, rejections and resets"),
    "C09": (AI + ": transfer function of each message on the order list", "every node kind that keeps an order list, arbitrary list contents up to the analysed length, arbitrary other state"),
    "C10": (AI + ": forwarding of each wrapper", "every wrapper implementation in the workspace, each message kind and render, inner node opaque"),
    "C11": (AI + ": fixpoint over histories of blocks and messages for every wiring", "every node description of the language; inputs bounded to three of at most two channels; indices into a node's own unbounded lists counted but not judged"),
    "C12": ("abstract interpretation of the compiler's monomorphised MIR of the parser over all pair trees the grammar allows; grammar read as data (left recursion, empty repetition)", "every child sequence of every grammar rule, repetitions up to two and unbounded; number and name texts arbitrary; the generated matcher of the pest library trusted"),
    "C13": (AI + ": obligations of everything an update runs", "every node description of the language with lists of any of the analysed lengths, as first program, as edit and as replacement; every ordered pair of a family of program shapes; numbers arbitrary"),
    "C14": (AI + ": obligations of the message entry and of every node's message handling over histories", "arbitrary message text; engines playing every node description, edited, rejected, reset and empty"),
    "C15": (AI + ": integer intervals of divisors and delay lengths over histories", "every node description of the language, arbitrary numbers in code, messages and tempo"),
    "C16": (EFF, "every function reachable from every render entry, dynamic calls over-approximated by all implementations; scripts interpreted by rhai/fasteval excluded"),
    "C17": (EFF + " and " + AI + " of the seeds of random generators", "every function of the workspace and what it reaches; every node description of the language"),
    "C18": (AI + " of parser and node construction, with the grammar read as data: each spelling of each keyword followed to the type of the node", "every keyword spelling of the grammar; keywords without a node must be refused"),
    "C19": (AI + ": the clocks of a node after a block compared with the frames rendered", "every node description of the language that keeps a clock or phase, any events, one and two channels"),
    "C20": (AI + ": a reset engine compared cell by cell with a new one", "engines playing every node description and every program of the family; sample rate, tempo and seed arbitrary"),
    "C21": (AI + ": an edited engine compared cell by cell with one that never knew the old program", "each parameter of each node description changed in turn, each description exchanged for another, and every ordered pair of programs of the family"),
    "C22": (AI + ": symbolic samples followed from the input to the chain that plays them", "blocks of four frames with no, one and two input channels, on new, edited, rejected, reset and playing engines"),
    "C23": (AI + ": every name written in a program withheld in turn", "every node description of the language that names a sample or a chain, fresh and as an edit"),
    "C24": (AI + " of the web boundary, and origin of every code and byte of its result", "every kind of error, messages of any length, every order of calls after a failed one"),
    "C25": ("compiler-plugin lint over the typed syntax tree (inventory of unsafe code, visibility) and compile-fail witnesses with compiling twins", "all crates of the workspace"),
    "C26": ("ranking-function and bounded-iteration analysis of every loop and recursion over the compiler's monomorphised MIR", "every loop and recursion reachable from rendering; scripts interpreted by rhai/fasteval excluded"),
    "C27": (AI + ": marks left in every buffer before a block must be gone after it; both sides compared as value-flow terms", "every node description of the language with the inputs a chain can give it (one and two channels), two blocks of four frames; scripts interpreted by rhai/fasteval excluded; mono comparison reports how many sides it could not decide"),
    "C28": (AI + " into value-flow terms, compared with the defining difference equation by polynomial identity testing over a prime field", "two blocks of four frames, every input sample, written number and sample rate a symbol; delay lines of 0 to 6 samples; rounding not considered"),
    "C29": (AI + " into value-flow terms over the sample values, with intervals for speeds, compared with the defining interpolation", "samples of 1 to 8 frames, one and two channels, several rates and spacings of triggers over twelve frames; for one trigger every speed between a half and four, except next to the edges of a frame; sample values arbitrary; rounding not considered"),
    "C30": (AI + " into value-flow terms over the values, with intervals for times and tempi, compared with the defining timeline", "bars of 4 to 32 frames, lists of two to four events, tempi, speeds and spans within intervals that fix the frame of each event; values arbitrary; rounding not considered"),
    "C31": (AI + " into value-flow terms, with intervals for frequencies, lengths and triggers, compared with the defining course", "every frequency below the sample rate over twelve frames, except next to those at which a frame falls on an edge; envelopes of one to six frames with seven gate patterns, one to three notes; rounding not considered"),
    "C32": (AI + " of the constructors into inner graphs, compared node by node with reference patches written in the language (partition refinement), and of passing blocks in and out", "every written number (one symbol each), three sample rates, every input sample; drums and voices modulated by a reference are left out"),
    "C33": (AI + " with the script languages replaced by any answer or failure, comparing what each run knows and what is handed on", "three eval scripts and the meta node over four blocks of four frames, every input sample, two replacements; the script languages themselves are trusted"),
}
NA = {}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 -m engine.extract",
         "hooks": {"guard": "none", "enable": "", "source_commits": []},
         "checks": [], "not_applicable": [],
         "notes": "Every check reads /repo's working tree through the compiler (driver/) and never runs it. fix: commits in /repo are listed in known-findings.txt."}
    for i in ids:
        if i in CHECKS:
            tech, note = CHECKS[i]
            m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                                "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "other", "level_note": note})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
