#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T="property-based testing: "
REF="Trusts the reference implementation in harness/refimpl (scanner rules transcribed from PostgreSQL's scan.l, the grammar read from spec/gram.y, an LALR(1) construction of its own), which was cross-checked against bison. "
SEARCH="A search over generated inputs: it finds violations, it does not prove their absence. "
C={
"P01":(T+"round trip and invariants over generated statements","Round trip of text and ranges over generated sentences with all trivia and token forms. "),
"P02":(T+"exhaustive short strings, every character, grammar and byte soups, big inputs in subprocesses","Panic, abort, signal and hang detection. Nesting deeper than 2000 levels is not explored (known finding: the tree library recurses). "),
"P03":(T+"every leaf against a reference scanner",REF),
"P04":(T+"differential against a reference scanner, with enumerated short strings and automaton cell coverage",REF),
"P05":(T+"every node of every tree against the grammar's productions",REF),
"P06":(T+"differential against a reference LALR(1) parser, steered by state/terminal coverage",REF),
"P07":(T+"error position against the reference parser's first offending token",REF),
"P08":(T+"metamorphic relation over trivia edits",""),
"P09":(T+"metamorphic relation over letter case",""),
"P10":(T+"metamorphic relation over statement lists",""),
"P11":(T+"expressions against a precedence-climbing model written from the documented table","Trusts the precedence table in harness/checks/src/prec.rs. "),
"P12":(T+"token pairs with any trivia between against a reference filter",REF),
"P13":(T+"metamorphic relation over literal, name and comment contents",""),
"P14":(T+"stateful histories of parses, drops and threads against fresh processes","Thread schedules are the operating system's. "),
"P15":(T+"differential between two builds of the parser",""),
"P16":(T+"differential between two builds of the parser, plus tree invariants",REF),
"P17":(T+"differential between the front ends and the library","The WebAssembly entry point is run as a native function. "),
"P18":(T+"generated flex patterns against a reference regular-expression matcher","Trusts the NFA-based matcher in harness/refimpl/src/rx.rs. "),
"P19":(T+"generated scanner descriptions, printed in many layouts and read back","The generated model is the oracle. "),
"P20":(T+"generated grammar files, printed in many layouts and read back","The generated model is the oracle. "),
"P21":(T+"generated grammars and sentences against a reference LALR(1) parser",REF),
"P22":(T+"generated grammars, every state and symbol, compressed against uncompressed tables",""),
"P23":(T+"regeneration from the committed inputs, determinism, and differential parsing of generated inputs",""),
"P24":(T+"position of every whitespace and comment leaf against a model",REF),
"P25":(T+"every keyword in every name position against the keyword list",REF),
"P26":(T+"metamorphic relation between texts that repeat a fragment and their measured work","Counts branches and allocations; work inside the precompiled standard library is seen by CPU time only, with a wide margin. "),
}
import sys
DONE=set(sys.argv[1:]) or set(C)
NA={}
checks=[];na=[]
for p,(t,n) in C.items():
    if p in DONE:
        checks.append({"property":p,"quick_cmd":f"./run.sh {p}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh {p}","technique":t,"level":"exploration","level_note":SEARCH+n.strip()})
    else: na.append({"property":p,"reason":"no check yet: in preparation"})
m={"version":1,"setup_cmd":"mkdir -p target evidence replays","hooks":{"guard":"cfg(verif)","enable":"RUSTFLAGS='--cfg verif' cargo build ... (run.sh does so for P04, P12 and P20 to P22)","source_commits":["1bdae50","06a07a6"]},
"checks":checks,"not_applicable":na,"notes":"./run.sh PROP runs a check, ./run.sh PROP --replay FILE replays a violation; known_findings.txt lists the defects found."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
