"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ model of %s checked with TLC; its behaviours replayed into the code and recorded behaviours of the code validated against it"
T = {
 "C01": ("the lexer", "every text of up to 5 pieces (thorough 6) of two alphabets of 12, exhaustively; longer texts by validation of recorded token streams"),
 "C02": ("the lexer and the parser", "line numbers of every short text, exhaustively, with and without Lua; structured texts and included files by validation"),
 "C03": ("the parser", "every sequence of up to 5 pieces (thorough 6) of several sets of statements; longer texts by validation"),
 "C04": ("directive validation", "every combination of mask shape, argument shape, ending and block context over the catalogue vocabulary; structured texts by validation"),
 "C05": ("directive validation over the recorded catalogues", "every directive of every shipped source in every context with every argument count and ending; the reference is the catalogue recorded from the pinned tree"),
 "C06": ("map-like blocks", "every short body of every map-like block; longer texts by validation"),
 "C07": ("the parser's error handling", "every sequence of up to 5 pieces with errors anywhere; broken projects by validation"),
 "C08": ("the parser's two error modes", "the outcomes of both modes of every short text on the model and the code; random projects"),
 "C09": ("include resolution", "all small file systems of the model, wildcards on the real file system, random projects"),
 "C10": ("include graphs", "all include graphs of 3 and 4 files with TLC's proof that parsing ends; large graphs by validation"),
 "C11": ("combining", "all payloads of the model (up to 3 configs); combinations of parses and odd payloads by validation"),
 "C12": ("parsing and building", "round trips of every short text, proved on the model and replayed; random configs under random layouts"),
 "C13": ("quoting and lexing", "every word of up to 5 characters that a token can have; random words"),
 "C14": ("building and of the files written", "all small trees under seven layouts; random trees, file systems and creators"),
 "C15": ("the JSON form", "all combinations of fields of a directive and small payloads; payloads of parses"),
 "C16": ("Lua blocks", "every short text with Lua registered and not; structured texts and built code by validation"),
 "C17": ("the goroutines and channels", "all schedules of the model replayed with a gated reader and channel; capacities and read chunkings; parallel calls under the race detector"),
 "C18": ("the open/read/glob/create/write/close protocol with faults", "every fault at every operation of small projects and payloads; recorded histories validated, goroutines and descriptors counted"),
 "C19": ("the generator's command tables", "all small tables in several notations, run through the real generator; the generated Go is compiled and its tables compared"),
 "C20": ("the calls (liveness of parser and channel models)", "every short text and small payload, repetitive, long and broken ones through the whole pipeline: every call must return"),
 "C21": ("the filtering options", "every short text under every filtering option on model and code; random projects"),
 "C22": ("histories of calls", "every history of up to 3 calls and samples of longer ones; results, inputs and earlier results compared"),
 "C24": ("registered lexers", "every short text under several sets of registrations, exhaustively; random programs on random texts and projects by validation"),
 "C25": ("errors", "the errors of every short text in both modes, exhaustively; broken projects with failing reads, opens and globs, and hand-made errors by validation"),
 "C26": ("a directive's views and the creator that keeps strings", "all combinations of fields of a directive, every history of 5 uses of a creator; directives of parses and longer histories by validation"),
 "C23": ("directive equality", "all pairs of directives over small values of every field, several levels of blocks"),
}
def main():
    have = [p for p in sorted(T) if os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py"))]
    m = {"version": 1,
         "setup_cmd": "bash tools/setup.sh",
         "hooks": {"guard": "none", "enable": "the checks need no changes to /repo: the driver is put in through a build overlay", "source_commits": []},
         "checks": [], "not_applicable": [],
         "notes": "Specification in TLA+ under spec/, checked with TLC; see DESIGN.md. known_findings.txt lists the repaired defects; no finding is open."}
    for p in have:
        what, cov = T[p]
        m["checks"].append({"property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                            "technique": TV % what, "level": "model_checking",
                            "level_note": "Bounded: " + cov + ". Trusts TLC, the Go toolchain and the driver's conversion of values; inputs are UTF-8 of the basic multilingual plane."})
    for p in sorted(T):
        if p not in have:
            m["not_applicable"].append({"property": p, "reason": "its check is not built yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
