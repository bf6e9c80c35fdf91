#!/usr/bin/env python3
# Helper used while listing P07's findings: reads the output of a collecting
# run (id ||| smallest case >>> what) and prints finding lines.  Not run by any check.
import sys,re,json
d={}
for f in sys.argv[1:]:
    for l in open(f):
        m=re.match(r'\d+ (\S+) \|\|\| "pos (.*?)"? >>> (.*)$',l.rstrip())
        if m and m.group(1) not in d: d[m.group(1)]=(m.group(2),m.group(3))
for k,(c,w) in sorted(d.items()):
    c=re.sub(r'^\\"(.*?)\\".*',r'\1',c)
    print(f"finding: property=P07 {k} {c[:110]} :: {w[:100]}")
