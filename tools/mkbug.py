#!/usr/bin/env python3
"""mkbug.py SPEC.py: a spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust text, or None with SH=shell text).
Writes /verif/seeded/ID. Works in a clone of /repo."""
import sys, os, json, shutil, subprocess, runpy
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = f"/verif/seeded/{s['ID']}"
    W="/tmp/mkbug-src"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git","clone","-q","--no-hardlinks","/repo",W],check=True)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        for f, old, new in s['EDITS']:
            p = W+"/"+f; t = open(p).read()
            assert t.count(old)==1, (spec, f, t.count(old), old)
            open(p,"w").write(t.replace(old,new))
        diff = subprocess.run(["git","-C",W,"diff"],capture_output=True,text=True).stdout
        open(d+"/patch.diff","w").write(diff)
    finally:
        shutil.rmtree(W)
    json.dump({"property":s['PROP'],"needs":s['NEEDS'],"what_it_breaks":s['BREAKS']}, open(d+"/meta.json","w"), indent=1)
    if s.get('SH'):
        open(d+"/demo.sh","w").write(s['SH'])
        for n, t in s.get('FILES', {}).items(): os.makedirs(os.path.dirname(d+"/"+n) or d, exist_ok=True); open(d+"/"+n,"w").write(t)
    else:
        shutil.copytree("/verif/tools/demokit", d+"/kit")
        open(d+"/demo.rs","w").write("use crate::{exec::*, run, scn::*, seam::*, value::*, wstp::*};\n"+s['DEMO'])
        open(d+"/demo.sh","w").write('#!/bin/bash\n. "$(dirname "$0")/kit/build.sh"\n"$DEMO"\n')
    os.chmod(d+"/demo.sh",0o755)
    print("wrote", d)
