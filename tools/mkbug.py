"""Writes a planted bug: bug(id, property, needs, breaks, edits, main_rs). Used from throw-away scripts."""
import difflib, json, os, shutil, subprocess
REPO="/repo"; SEED="/verif/seeded"; DEMO="/verif/tools/demo"
def bug(id, prop, needs, breaks, edits, main):
    files={}
    for f,old,new in edits:
        src=files.get(f) or subprocess.check_output(["git","-C",REPO,"show","HEAD:"+f],text=True)
        assert src.count(old)==1,(id,f,src.count(old),old)
        files[f]=src.replace(old,new)
    d=os.path.join(SEED,id); os.makedirs(d,exist_ok=True)
    out=""
    for f,new in files.items():
        old=subprocess.check_output(["git","-C",REPO,"show","HEAD:"+f],text=True)
        out+=f"diff --git a/{f} b/{f}\n"+"".join(difflib.unified_diff(old.splitlines(True),new.splitlines(True),"a/"+f,"b/"+f))
    open(d+"/patch.diff","w").write(out)
    for x in ("demo.sh","demo.toml","common.rs"): shutil.copy(f"{DEMO}/{x}",d)
    shutil.copy("/verif/sim/Cargo.lock",d+"/demo.lock")
    open(d+"/main.rs","w").write("mod common;\nuse common::*;\n"+main)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    subprocess.check_call(["git","-C",REPO,"apply","--check",d+"/patch.diff"])
