#!/usr/bin/env python3
"""Writes /verif/known_findings.json: recorded findings, and one line per fix: commit in /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property of each fix: commit, by words in its subject, first match wins
RULES = [
 ("hash map order", "C07"), ("either order is the same", "C08"), ("seed of a configuration file", "C07"),
 ("comment on mutations", "C09"), ("deleted Solidity statement in its comment", "C09"), ("commented Solidity block", "C09"),
 ("restrict mutations by name", "C06"), ("preferences with a /", "C19"), ("flowing text", "C16"),
 ("only literal arguments", "C05"), ("require two statements", "C05"), ("require a statement that can be wrapped", "C05"),
 ("only offer assignments", "C05"), ("let Assignment choose true", "C03"), ("do not overflow when choosing", "C15"), ("let Integer handle every notation", "C03"),
 ("do not delete the mutability", "C04"), ("from being empty", "C04"), ("let Integer change all Vyper", "C04"), ("random Vyper decimals", "C04"),
 ("do not panic on Vyper operators", "C15"), ("support the shift operators", "C02"),
 ("to stdout, not only the first", "C18"), ("allow paths", "C12"), ("--stop-after", "C12"), ("seeds larger", "C13"), ("language that is not a string", "C14"),
 ("usable version number", "C14"), ("plain Vyper compiler version", "C14"), ("not valid UTF-8", "C10"), ("do not name a file", "C14"),
 ("temporary files", "C11"), ("overwrite the input", "C11"), ("terminals that report no width", "C17"), ("children of permitted nodes", "C22"),
 ("report errors when writing", "C23"),
]
KNOWN = [
 {"property": "C02", "sig": "big-int",
  "what": "a Vyper integer literal above 2^64-1 in an AST file is printed as a rounded float: serde_json reads it as f64 unless the arbitrary_precision feature of the dependency is on"},
 {"property": "C14", "sig": "deep-ast",
  "what": "an AST file nested more than 128 JSON levels deep is not recognised: serde_json's recursion limit, which only its unbounded_depth feature lifts"},
]
fixed = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "93d3fe6..HEAD"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = next((q for w, q in RULES if w in s), None) or ("C02" if "Vyper" in s else "C01")
    fixed.append(f"fixed: property={p} {h} {s}")
json.dump({"known": KNOWN, "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(fixed))
