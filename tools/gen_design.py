#!/usr/bin/env python3
# assembles DESIGN.md from its hand-written parts and the descriptions of the planted bugs
import json, os, glob, re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[json.loads(l) for l in open(here+"/properties.jsonl")]
src=''.join(open(f).read() for f in glob.glob(here+"/harness/src/props/*.rs"))
def amount(i):
    blk=src[src.index('const ID: &\'static str = "%s"'%i):]
    blk=blk[:blk.index('fn check(')]
    n=re.search(r'fn quick_cases\(\) -> u64 \{\s*([0-9_]+)',blk).group(1).replace('_','')
    k=re.search(r'fn fast_factor\(\) -> u64 \{\s*([0-9]+)',blk)
    return "{:,}".format(int(n)).replace(',',' ')+(" + %s times as many fast"%(k.group(1) if k else "2") if 'fn fast(' in blk else "")
D=json.load(open(here+"/tools/design_props.json"))
out=open(here+"/tools/design_head.md").read()
for p in P:
    d=D[p["id"]]
    out+="**%s %s.** Amount %s. *Oracle:* %s *Generated:* %s *Bounds:* %s\n\n"%(p["id"],p["title"],amount(p["id"]),d[0],d[1],d[2])
out+=open(here+"/tools/design_tail.md").read()
out+="\n## 8. Planted bugs\n\nEach is caught by its own property's quick check (run against a patched /repo, `VIOLATION` line seen)"
extra=here+"/tools/catches.json"
C=json.load(open(extra)) if os.path.exists(extra) else {}
out+="; the last column lists the other checks seen to report it where this was measured.\n\n| bug | property | needs | breaks | also caught by |\n|---|---|---|---|---|\n"
for f in sorted(glob.glob(here+"/seeded/*/meta.json")):
    m=json.load(open(f)); b=f.split('/')[-2]
    c=lambda s: s.replace('|','/').replace('\n',' ')
    out+="| %s | %s | %s | %s | %s |\n"%(b,m["property"],c(m["needs"]),c(m["what_it_breaks"]),' '.join(x for x in C.get(b,[]) if x!=m["property"]))
open(here+"/DESIGN.md","w").write(out)
