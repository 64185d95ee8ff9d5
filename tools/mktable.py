#!/usr/bin/env python3
# prints the table of planted bugs for DESIGN.md from seeded/*/meta.json
import json, glob, os
first_missed = {'p01-hash-wrap', 'p02-hex-case', 'p03-handle-leak', 'p04-block-comment', 'p04-line-comment', 'p06-literal-overrun'}
print('| id | caught by | manifests with |\n|---|---|---|')
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '..', 'seeded', '*', 'meta.json'))):
    d = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    print(f"| {i}{' *' if i in first_missed else ''} | {d['property']} | {d['needs']} |")
print('\n\\* missed when it was planted; the generator of the named check was extended until it was caught.')
