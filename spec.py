#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 spec.py rewrites both."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))

P = []


def claim(pid, title, statement, over, text, why, files, mech, tech, note):
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), ("claim", tech, note)))


def na(pid, title, statement, over, text, why, files, mech, reason):
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), ("na", reason)))


IO, CORE, WORD = "src/io.rs", "src/core.rs", "src/word.rs"
B = lambda *t: ["src/bin/%s.rs" % x for x in t]
NOTE = ("Static over-approximation of the compiler's MIR of the current tree: every path of the flattened program is covered; trusts rustc's "
        "MIR, the documented behaviour of std/clap calls named in the rule, and the value-graph engine in sa/. ")

claim("C01", "An input that cannot be opened or read never counts as success",
      "If opening the input or any read of it fails, the tool does not end with exit status 0. In particular a failing read is never taken for "
      "the end of the input, for empty input or for data.",
      ["fault_sequences", "inputs"], "every tool, every open/read call, an error at any of them",
      "The tests read from in-memory slices only; no test makes a read or an open fail, and a fault can come at any call.",
      [IO, CORE] + B("escape", "rle", "mtf", "count_runs"),
      [("read_char", IO + " read_char"), ("whole-input readers", IO + " file2byte_vector, stdin2byte_vector"), ("openers", IO + " stream_or_stdin")],
      "path-sensitive forward dataflow on MIR from a failing call to the program's endings",
      NOTE + "Error kinds that the code does not name are assumed; an error kind the code names (e.g. Interrupted) may be retried.")

claim("C02", "Exit status 0 means the complete output has reached the operating system",
      "If a tool ends with exit status 0, every byte it produced has been handed to the operating system: no error of creating, writing or "
      "flushing an output is ignored, no partial write is taken for a whole one, nothing is left in a user-space buffer whose final flush can "
      "fail unnoticed, and no byte of a previous file content survives in the output file.",
      ["fault_sequences", "inputs"], "every tool, every output operation, an error at any of them (disk full, closed pipe)",
      "No test writes to a real sink, and none makes a write or flush fail; a missing flush shows only when the last flush fails.",
      [IO] + B("bwt", "reverse", "mtf", "rle", "escape", "word", "randomstring", "lyndonwords", "lyndonfactorization", "count_z", "count_lexparse"),
      [("stream_or_stdout", IO + " stream_or_stdout"), ("final flush", "flush().unwrap() at the end of each writing tool")],
      "typestate of every output sink over all feasible MIR paths",
      NOTE + "Standard output is assumed line buffered (std's LineWriter), a plain File unbuffered.")

claim("C03", "The output file is touched only after the input and the arguments are accepted",
      "A tool creates or truncates its output file only after its input has been opened, after the whole input has been read if the tool loads "
      "it, and after every check of the command line that can reject it. So a failing start never destroys an existing output file.",
      ["fault_sequences", "inputs", "configurations"], "every tool, every order of failing open, failing read, rejected arguments",
      "No test runs a tool's main; the order matters only when something fails.",
      [IO] + B("bwt", "reverse", "mtf", "rle", "escape", "lyndonwords", "lyndonfactorization", "count_z", "count_lexparse"),
      [("creation", IO + " stream_or_stdout"), ("argument checks", "src/bin/escape.rs main, src/bin/lyndonwords.rs main")],
      "typestate (output created / not yet) over all feasible MIR paths",
      NOTE + "A check of the command line is a branch that depends on parsed arguments alone and has a side that cannot end normally.")

claim("C04", "With -i exactly the named file is read, without it exactly standard input",
      "When an input file is named, the tool opens exactly the path given and reads nothing from standard input; when none is named it reads "
      "standard input and opens no file. Tools without an input option read nothing.",
      ["configurations", "inputs"], "every tool, both presences of the option, every path value",
      "The tests never run a tool with its options.",
      [IO] + B("bwt", "count_r", "count_runs", "rle", "mtf", "escape"),
      [("file_or_stdin2byte_vector", IO), ("stream_or_stdin", IO), ("stringopt_stropt", IO)],
      "value-graph analysis of each tool specialised to the presence of the option",
      NOTE)

claim("C05", "With -o exactly the named file is written, without it no file is touched",
      "When an output file is named, the tool creates exactly that path and writes its transformed data there and not to standard output; when "
      "none is named, no file is created and the data goes to standard output. Tools without an output option touch no file.",
      ["configurations", "inputs"], "every tool, both presences of the option, every path value",
      "The tests never run a tool with its options.",
      [IO] + B("bwt", "reverse", "mtf", "rle", "escape", "word", "randomstring", "lyndonwords", "lyndonfactorization", "count_z", "count_lexparse"),
      [("stream_or_stdout", IO), ("factor files", "src/bin/count_z.rs, count_lexparse.rs, lyndonfactorization.rs main")],
      "value-graph analysis of each tool specialised to the presence of the option",
      NOTE + "count_z, count_lexparse and lyndonfactorization print their RESULT line to standard output in both cases.")

claim("C06", "A prefix length of N limits the input to exactly N bytes, 0 to everything",
      "With a prefix length of 0 the entire input is processed, whatever kind of file it is; with N > 0 exactly the first N bytes are, or all of "
      "it if it is shorter, whether it comes from a file or from standard input. Reads that deliver less than asked for never shorten the text.",
      ["configurations", "inputs"], "every tool with a prefix option, file and standard input, every N, every way of splitting the reads",
      "The tests never read through the option; short reads, pipes and prefixes longer than the input need a real stream.",
      [IO] + B("escape"),
      [("prefix readers", IO + " file2byte_vector, stdin2byte_vector"), ("prefix loop", "src/bin/escape.rs main")],
      "value-graph analysis specialised to prefix 0 and prefix > 0: limit of every read derived from the option",
      NOTE + "In escape the prefix counts source symbols; the symbol after an escape symbol belongs to it.")

if os.path.exists(os.path.join(HERE, "spec_more.py")):
    exec(open(os.path.join(HERE, "spec_more.py")).read())


def main():
    P.sort(key=lambda x: x[0]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _ in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks, nas = [], []
    for d, k in P:
        if k[0] == "claim":
            checks.append(dict(property=d["id"], quick_cmd="python3 check.py --property %s --tier quick" % d["id"],
                               thorough_cmd="python3 check.py --property %s --tier thorough" % d["id"],
                               evidence_file="evidence/%s.json" % d["id"], technique=k[1], level="other", level_note=k[2]))
        else:
            nas.append(dict(property=d["id"], reason=k[1]))
    json.dump(dict(version=1, setup_cmd="python3 sa/extract.py release dev", checks=checks, not_applicable=nas,
                   notes="All checks are static: they read the MIR of /repo's current tree (driver/ is a rustc driver) and never run it."),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
