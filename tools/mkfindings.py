#!/usr/bin/env python3
"""Writes known-findings.txt: the open findings below and the fix: commits of /repo with the property each belongs to."""
import subprocess
OPEN = [
 # property, text
 ("C08", "RestartedGMResSolver (and the flexible variant) with several right-hand sides in one SIMD field type: if the Krylov space of one lane is exhausted (residual at roundoff level) before the other lanes have converged, later basis vectors of this lane are normalised noise and the lane may be reported as converged although its residual is not small. Example: A=diag(5,16,1280), b=(1,1,1) in lane 0 and (8,0,1) in lane 2, x0=0, reduction 1e-6, maxit 3."),
]
PROP = {}
def m(p, *hs):
    for h in hs: PROP[h] = p
m("C01","31506bf","7bef268","036ae72","8eac22b","8da164f","e0bec86")
m("C02","db3233f","846533f","4acde62")
m("C03","9426a7b","b58a523","12f3033","6cf7092","1f288cf")
m("C04","56d4064","e7697a4","a0a990c","cc6a845")
m("C05","ed7f87e")
m("C06","288f4bf","dd75dff","829e356","b814462","679a20c","2acf2c2")
m("C19","d92cf7c","c9b4e47")
m("C07","1ec5270","8e26831","4ec9378","ee5ec05")
m("C08","03f366c","830de4f","8624a09","61f7fdc","d0d65a3","c54063a","41db1f1","8f45937","8f50a83","988e5b9","9bef094")
m("C09","9fd3355","a24492a")
exec(open(__file__.replace("mkfindings.py","findings_more.py")).read())
log = subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","1b40bb9.."],text=True).splitlines()
out = ["# Findings recorded by the checks of /verif (see DESIGN.md).",
       "# known: defects of the code that are recorded, not repaired; the check exempts exactly this history.",
       "# fixed: defects repaired by a commit in /repo; these suppress nothing."]
for p,t in OPEN: out.append("known: property=%s %s" % (p,t))
missing=[]
for l in log:
    h,s = l.split(" ",1)
    if not s.startswith("fix:"): continue
    p = PROP.get(h[:7])
    if not p: missing.append(l); continue
    out.append("fixed: property=%s %s %s" % (p,h,s[5:]))
open(__file__.replace("tools/mkfindings.py","known-findings.txt"),"w").write("\n".join(out)+"\n")
for l in missing: print("no property for", l)
