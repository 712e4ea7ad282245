#!/usr/bin/env python3
"""Collects short formulas from the test files of /repo into symex/props/src/corpus.rs (run by hand; the result is committed)."""
import re,glob
out=[]
for f in ["conversion_test","error_test","wiki_test","custom_cmd_test"]:
    s=open("/repo/crates/math-core/tests/%s.rs"%f).read()
    for m in re.finditer(r'r#"(.*?)"#|r"([^"]*)"',s,re.S):
        t=m.group(1) if m.group(1) is not None else m.group(2)
        t=t.strip("\n")
        if 2<=len(t.encode())<=48 and t not in out and ("\\" in t or any(c in t for c in "^_{}'&=+(|")):
            out.append(t)
# one representative per "shape": the sequence of commands and special characters, letters and digits collapsed
seen=set(); keep=[]
for t in sorted(out,key=len):
    k=re.sub(r"\d+","0",re.sub(r"(?<!\\)\b[a-zA-Z]\b","x",re.sub(r"\s+"," ",t)))
    if k in seen: continue
    seen.add(k); keep.append(t)
def lit(t):
    return '"'+"".join("\\\\" if c=="\\" else '\\"' if c=='"' else "\\n" if c=="\n" else "\\t" if c=="\t" else c for c in t)+'"'
open("/verif/symex/props/src/corpus.rs","w").write("//! Formulas from the repository's own tests (tools/corpus.py), shortest first.\npub const CORPUS: &[&str] = &[\n"+"".join("    %s,\n"%lit(t) for t in keep)+"];\n")
print(len(out),len(keep),sum(len(t) for t in keep), sum(len(t)<=24 for t in keep), sum(len(t) for t in keep if len(t)<=24))
