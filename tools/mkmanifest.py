#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the table below.
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
DERIV = ("explicit-state exploration of a reference grammar (every derivation within shape/spelling/length deviation "
         "bounds, every wrapper nest, every one-token edit), each execution run through the real parser; oracle: ")
T = {
 "P01": ("exhaustive enumeration of byte strings, derivations, nests and one-token/one-byte edits, each executed on the real parser, formatter, walkers and JSON encoder under a step counter with a fixed budget; oracle: no panic, no fatal error, budget never exhausted, error is a ParseError",
         "bounded: small byte strings over 34 byte classes, one edit away from derivations with up to 2 deviations, one byte away from seed files"),
 "P04": (DERIV + "parse(format(x)) has the same AST modulo positions and formats to the same text",
         "bounded by the deviation budgets, nesting depth 33 and one edit; larger combinations only in the thorough tier"),
 "P05": (DERIV + "the token sequence of beautified text equals that of compact text for every indent, re-lexed with an independent reference lexer",
         "bounded by the deviation budgets; four indent strings"),
 "P15": (DERIV + "every derivation is accepted and its compact text has exactly the token sequence the grammar predicts",
         "bounded by the deviation budgets; the reference grammar covers 29 statement families"),
}
exec(open(R + '/tools/manifest_more.py').read()) if os.path.exists(R + '/tools/manifest_more.py') else None
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        checks.append(dict(property=i, quick_cmd=f"bash run.sh -prop {i}", thorough_cmd=f"bash run.sh -prop {i} -tier thorough",
            technique="model checking: " + T[i][0], level="model_checking", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="bash run.sh -build", checks=checks, not_applicable=na)
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1); open(R + '/MANIFEST.json', 'a').write('\n')
