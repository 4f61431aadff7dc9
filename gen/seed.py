#!/usr/bin/env python3
"""seed.py ID: (re)builds and validates /verif/seeded/ID/patch.diff from a scratch worktree edit.
usage: seed.py new ID PROP FILE <<< python edits   (old\n===\nnew blocks separated by ---)"""
import sys, os, subprocess, json, tempfile, shutil
V="/verif"
def sh(c,cwd=None,t=300):
    r=subprocess.run(["bash","-c",c],cwd=cwd,capture_output=True,text=True, errors="replace",timeout=t); return r.returncode,r.stdout+r.stderr
def main():
    spec=json.load(sys.stdin)  # id, property, needs, breaks, edits:[{file,old,new}], demo(go test text), pkg
    d=V+"/seeded/"+spec["id"]; os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix="seed-"); 
    try:
        sh("cp -a /repo %s/repo"%w)
        R=w+"/repo"
        for e in spec["edits"]:
            p=R+"/"+e["file"]; s=open(p).read()
            assert s.count(e["old"])==1,(e["file"],s.count(e["old"]),e["old"])
            open(p,"w").write(s.replace(e["old"],e["new"]))
        rc,o=sh("git diff",R); open(d+"/patch.diff","w").write(o)
        assert rc==0 and o
        if spec.get("demo"):
            open(d+"/demo_test.go.txt","w").write(spec["demo"])
        name=spec.get("run","TestDemo"); flags=spec.get("flags","")
        open(d+"/demo.sh","w").write('''#!/bin/bash
# exit 0: the property holds on this demonstration; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
w=$(mktemp -d)
repo=$(pwd)
{ printf '{"Replace":{'
for t in "$repo/%(pkg)s"/*_test.go; do [ -e "$t" ] && printf '"%%s":"",' "$t"; done
printf '"%%s":"%%s"}}' "$repo/%(pkg)s/zz_demo_test.go" "$here/demo_test.go.txt"; } > "$w/o.json"
go test -count=1 -vet=off %(flags)s -timeout 120s -overlay "$w/o.json" -run '^TestDemo$' ./%(pkg)s
rc=$?
rm -rf "$w"
exit $rc
'''%dict(pkg=spec["pkg"],flags=flags)); os.chmod(d+"/demo.sh",0o755)
        json.dump(dict(property=spec["property"],needs=spec["needs"],what_it_breaks=spec["breaks"]),open(d+"/meta.json","w"),indent=1)
        rc,o=sh("bash %s/demo.sh"%d,"/repo"); assert rc==0,("demo fails on unchanged",o[-1500:])
        rc,o=sh("bash %s/demo.sh"%d,R); assert rc!=0,("demo passes with patch",o[-1500:])
        rc,o=sh(". /opt/vp/env.sh; go build ./... && go test -timeout 60s ./... 2>&1 | grep -v -e '^ok' -e 'no test files'",R)
        print("tests:",o.strip()[-600:] or "pass")
        rc,o=sh("git apply --check %s/patch.diff"%d,"/repo"); assert rc==0,o
        if "-n" not in sys.argv:
            e=dict(os.environ,VERIF_REPO=R)
            r=subprocess.run([V+"/check",spec["property"],"quick"],cwd=V,env=e,capture_output=True,text=True, errors="replace")
            print("check exit",r.returncode); print("\n".join(l[:260] for l in r.stdout.splitlines()[-5:]))
    finally:
        shutil.rmtree(w)
main()
