#!/usr/bin/env python3
"""Development aid: plant.py SPEC.py [ID...] builds /verif/seeded/<id>/ from specs.

A spec file defines BUGS, a list of dicts:
  id, prop, edits=[(file, old, new)...], main (body of the demonstration's
  main.go), needs, breaks.  Each is confirmed in a scratch clone: compiles,
  stable tests pass, demonstration passes without and fails with the change.
  Then the check of the property is run against it (tools/try.sh).
"""
import json, os, subprocess, sys, runpy, shutil, textwrap
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local",
           GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
BASE = "ba4ea92"
DEMO = '''#!/bin/bash
# Run with the library's root as working directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go" "$tmp/main.go"
cp "$repo/go.sum" "$tmp/go.sum"
cat > "$tmp/go.mod" <<EOF
module demo

go 1.23

require github.com/nlpodyssey/gotokenizers v0.0.0

replace github.com/nlpodyssey/gotokenizers => $repo
EOF
cd "$tmp" && timeout 250 go run %s.
'''
def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, env=ENV, **kw)

def goimports(body):
    pk = {"normalizedstring":"normalizedstring","splitpattern":"splitpattern","pretokenizedstring":"pretokenizedstring",
      "models":"models","bpemodel":"models/bpemodel","wordpiecemodel":"models/wordpiecemodel","vocabulary":"vocabulary",
      "strutils":"strutils","encodings":"encodings","normalizers":"normalizers"}
    for n in ("bert","lowercase","sequence","strip"): pk[n+"normalizer"]="normalizers/%snormalizer"%n
    for n in ("bert","bytelevel","metaspace","runedelimiter","whitespace","whitespacesplit"): pk[n+"pretokenizer"]="pretokenizers/%spretokenizer"%n
    std = {"fmt":"fmt","os":"os","strings":"strings","errors":"errors","regexp":"regexp","sync":"sync","unicode":"unicode","utf8":"unicode/utf8","filepath":"path/filepath","reflect":"reflect","rand":"math/rand"}
    out=[]
    import re
    for k,v in std.items():
        if re.search(r'(?<![\w.])%s\.'%k, body): out.append('"%s"'%v)
    for k,v in pk.items():
        if re.search(r'(?<![\w.])%s\.'%k, body): out.append('"github.com/nlpodyssey/gotokenizers/%s"'%v)
    if re.search(r'(?<![\w.])regexp2\.', body): out.append('"github.com/dlclark/regexp2"')
    return "import (\n"+"".join("\t%s\n"%o for o in sorted(out))+")\n"

HELP = '''
func expect(got, want any) {
	if g, w := fmt.Sprintf("%+v", got), fmt.Sprintf("%+v", want); g != w {
		fmt.Printf("got  %q\\nwant %q\\n", g, w)
		os.Exit(1)
	}
}
'''
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    nocheck = "-n" in sys.argv
    wt = "/tmp/plant/wt"
    os.makedirs("/tmp/plant", exist_ok=True)
    for b in bugs:
        if only and b["id"] not in only: continue
        shutil.rmtree(wt, ignore_errors=True)
        r = run(["git","clone","-q","/repo",wt]); assert r.returncode==0, r.stderr
        d = "/verif/seeded/"+b["id"]; os.makedirs(d, exist_ok=True)
        body = textwrap.dedent(b["main"])
        if "func main()" not in body:
            body = "func main() {\n"+textwrap.indent(body.strip("\n"),"\t")+"\n}\n"
        body += b.get("extra", "") + HELP
        src = "// Demonstration: exits non-zero when the property is broken.\npackage main\n\n"+goimports(body)+"\n"+body
        open(d+"/main.go","w").write(src)
        run(["gofmt","-w",d+"/main.go"])
        open(d+"/demo.sh","w").write(DEMO % ("-race " if b.get("race") else "")); os.chmod(d+"/demo.sh",0o755)
        json.dump({"property":b["prop"],"needs":b["needs"],"what_it_breaks":b["breaks"]}, open(d+"/meta.json","w"), indent=1)
        r0 = run(["bash",d+"/demo.sh"],cwd=wt)
        bad=[]
        if r0.returncode!=0: bad.append("demo fails unpatched: "+(r0.stdout+r0.stderr)[-600:])
        notes=[]
        for f,old,new in b["edits"]:
            p=wt+"/"+f; s=open(p).read()
            if s.count(old)!=1: bad.append("edit matches %d times in %s: %r"%(s.count(old),f,old[:60])); continue
            open(p,"w").write(s.replace(old,new))
        run(["gofmt","-l","-w"]+[wt+"/"+f for f,_,_ in b["edits"]])
        diff = run(["git","-C",wt,"diff","--no-color"]).stdout
        open(d+"/patch.diff","w").write(diff)
        removed=[l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        base="".join(run(["git","-C","/repo","show",BASE+":"+f]).stdout for f,_,_ in b["edits"])
        orig=[l for l in removed if l.strip() and l in base.splitlines()]
        if not orig: bad.append("no original line changed: %r"%removed)
        r = run(["go","build","./..."],cwd=wt)
        if r.returncode: bad.append("build: "+r.stderr[-800:])
        else:
            r = run(["go","test","-vet=off","-count=1","./..."],cwd=wt)
            if r.returncode: bad.append("tests: "+"\n".join(l for l in r.stdout.splitlines() if "FAIL" in l)[:400])
            r1 = run(["bash",d+"/demo.sh"],cwd=wt)
            if r1.returncode==0: bad.append("demo passes patched")
            notes.append("demo: "+(r1.stdout+r1.stderr).strip().replace("\n"," | ")[:160])
        if bad:
            print(b["id"],"REJECTED",*bad,sep="\n   "); shutil.rmtree(d); continue
        if nocheck: print(b["id"],"ok",notes); continue
        ids = [b["prop"]]+b.get("also",[])
        r = run(["/verif/tools/try.sh",wt,"/tmp/plant/out"]+ids)
        ok = "VIOLATION property=%s "%b["prop"] in r.stdout
        print(b["id"], "CAUGHT" if ok else "MISSED", "(%s)"%",".join(sorted({l.split()[1][9:] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})), notes)
        if not ok: print("   ", "\n    ".join((r.stdout+r.stderr)[-700:].splitlines()))
        else:
            ls=[l for l in r.stdout.splitlines() if not l.startswith("VIOL")]
            print("    ", (ls[0] if ls else "")[:200])
        sys.stdout.flush()
    shutil.rmtree(wt, ignore_errors=True)
main()
