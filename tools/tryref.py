#!/usr/bin/env python3
"""tryref.py NAME...: applies each behaviour-preserving edit refactors/NAME.py to a scratch
copy of /repo and runs the verifier of each property it names on the copy.
A spec defines edits [(file, old, new)] and props."""
import glob, os, shutil, subprocess, sys, tempfile, re, time
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
def sh(c, cwd, t=900):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, timeout=t)
def one(name, only):
    g = {}
    exec(open(f"{D}/refactors/{name}.py").read(), g)
    tmp = tempfile.mkdtemp(prefix="ref-")
    try:
        r = tmp + "/repo"
        sh(f"git clone -q /repo {r}", "/")
        for f, old, new in g["edits"]:
            t = open(f"{r}/{f}").read()
            if t.count(old) != 1: return print(name, "EDIT matches", t.count(old), "times in", f, repr(old[:60]))
            open(f"{r}/{f}", "w").write(t.replace(old, new))
        p = sh("go build ./...", r)
        if p.returncode: return print(name, "DOES NOT BUILD", p.stdout)
        for prop in only or g["props"].split():
            s = time.time()
            p = sh(f"timeout 800 {D}/bin/gocv -repo {r} -dir {D} -prop {prop} -noreplay -v", r)
            last = [l for l in p.stdout.splitlines() if l.startswith(prop + ":")]
            last = last[-1] if last else p.stdout[-200:]
            ok = "0 refuted, 0 undecided, 0 out of reach" in last and p.returncode == 0
            print(name, prop, "ok" if ok else "** " + last, f"rc={p.returncode} {time.time()-s:.0f}s", flush=True)
            if not ok:
                for l in p.stdout.splitlines():
                    if re.search(r"failed|unknown|refuted|undecided|unsupported|out of reach|missing|vacuous|not ", l): print("     ", l[:220])
    finally:
        shutil.rmtree(tmp)
args = [a for a in sys.argv[1:] if not re.fullmatch(r"C\d\d", a)]
only = [a for a in sys.argv[1:] if re.fullmatch(r"C\d\d", a)]
for n in args or sorted(os.path.basename(f)[:-3] for f in glob.glob(D + "/refactors/*.py")):
    one(n, only)
