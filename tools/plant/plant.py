#!/usr/bin/env python3
"""plant.py make FILE...   makes /verif/seeded/<id>/ from descriptions of planted bugs, after trying each in a scratch copy
plant.py run [ID...]     runs the checks of /verif against planted bugs, in /repo itself, and undoes them
plant.py quiet [ID...]   the same with changes that change no behaviour (bugs/same.py)"""
import json, os, shutil, subprocess, sys, runpy, time
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.abspath(__file__))
COPY = "/tmp/plant/krates"

def sh(cmd, cwd, timeout=1200, **kw):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def tests():
    # what build.sh and test.sh do, in the copy (which is called krates, as the snapshots want)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", INSTA_UPDATE="no", CARGO_TERM_COLOR="never")
    for m in ["package-rename", "chained-weak/app"]:
        shutil.copy(f"/opt/vp/locks/{m}/Cargo.lock", f"{COPY}/tests/{m}/Cargo.lock")
    logs = ""
    for f in ["", " --features targets"]:
        r = sh(f"cargo test --workspace --no-fail-fast --offline{f} -- --test-threads 8", COPY, env=env)
        logs += r.stdout
        open(f"/tmp/plant/test{'-t' if f else '-d'}.log", "w").write(r.stdout)
    r = sh("cargo check --workspace --all-targets --offline --all-features", COPY, env=env)
    if r.returncode:
        return ["does not build: " + r.stdout[-2000:]]
    sh("rm -f /tmp/plant/o.json; python3 /opt/vp/results.py /tmp/plant/o.json 'cargo:/tmp/plant/test-*.log'", "/tmp/plant")
    passed = set(json.load(open("/tmp/plant/o.json"))["passed"])
    broken = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]
    return broken + ([logs[-1500:]] if len(broken) > 20 else [])

def demo(d):
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    t = time.time()
    try:
        r = sh(f"bash {d}/demo.sh", COPY, timeout=300, env=env)
        return r.returncode, r.stdout[-600:], time.time() - t
    except subprocess.TimeoutExpired:
        return 124, "", 300

def make(files):
    if not os.path.isdir(COPY):
        os.makedirs("/tmp/plant", exist_ok=True)
        sh(f"cp -a /repo {COPY}", "/")
    sh("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD", COPY)
    for f in files:
        for bug in runpy.run_path(f)["BUGS"]:
            d = f"{VERIF}/seeded/{bug['id']}"
            if os.path.exists(f"{d}/patch.diff") and not os.environ.get("REMAKE"):
                continue
            sh("git checkout -qf .", COPY)
            w = f"/tmp/plant/{bug['id']}"
            shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
            for (path, old, new) in bug["edits"]:
                t = open(f"{COPY}/{path}").read()
                n = t.count(old)
                if n != 1:
                    print(bug["id"], f"the text to replace in {path} occurs {n} times: {old[:60]!r}"); break
                open(f"{COPY}/{path}", "w").write(t.replace(old, new))
            else:
                open(f"{w}/patch.diff", "w").write(sh("git diff", COPY).stdout)
                shutil.copy(f"{HERE}/demo.sh", w); shutil.copy(f"{HERE}/doc.rs", w)
                open(f"{w}/main.rs", "w").write("mod doc;\n#[allow(unused_imports)]\nuse doc::*;\n" + bug["demo"].lstrip("\n"))
                json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(f"{w}/meta.json", "w"), indent=1)
                broken = tests()
                code, out, took = demo(w)
                sh("git checkout -qf .", COPY)
                code0, out0, took0 = demo(w)
                ok = not broken and code not in (0, 3) and code0 == 0
                print(bug["id"], "KEPT" if ok else "NO", "broken:", broken, f"demo with: {code} without: {code0} ({took:.0f} s)", flush=True)
                if not ok or os.environ.get("SHOW"):
                    print("   with:", out[-500:]); print("   without:", out0[-500:])
                if ok:
                    shutil.rmtree(d, ignore_errors=True); shutil.copytree(w, d)

def run(ids):
    for i in sorted(ids or os.listdir(f"{VERIF}/seeded")):
        d = f"{VERIF}/seeded/{i}"
        p = json.load(open(f"{d}/meta.json"))["property"]
        if sh(f"git apply {d}/patch.diff", "/repo").returncode:
            print(i, "does not apply"); continue
        try:
            t = time.time()
            r = sh(f"./check {p} {os.environ.get('TIER', 'quick')}", VERIF, timeout=1800, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        finally:
            sh("git checkout -q -- .", "/repo")
        line = next((l for l in r.stdout.splitlines() if l.startswith("VIOLATION")), r.stdout[-300:] if r.returncode else "")
        print(f"{i:28} {p} {'CAUGHT' if r.returncode == 1 and line.startswith('VIOLATION') else 'missed' if r.returncode == 0 else 'ERROR'} {time.time()-t:.0f} s  {line[:int(os.environ.get('WIDTH', '260'))]}", flush=True)

def quiet(ids):
    for s in runpy.run_path(f"{HERE}/bugs/same.py")["SAME"]:
        if ids and s["id"] not in ids:
            continue
        try:
            for (path, old, new) in s["edits"]:
                t = open(f"/repo/{path}").read()
                if t.count(old) != 1:
                    print(s["id"], f"occurs {t.count(old)} times: {old[:60]!r}"); break
                open(f"/repo/{path}", "w").write(t.replace(old, new))
            else:
                for p in s["checks"]:
                    t = time.time()
                    r = sh(f"./check {p} quick", VERIF, timeout=1800, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                    if r.returncode or "VIOLATION" in r.stdout:
                        print(f"{s['id']:20} {p} ALARM {r.returncode} {time.time()-t:.0f} s\n{r.stdout[-1500:]}", flush=True)
                        if "could not be built" in r.stdout:
                            break
                else:
                    print(f"{s['id']:20} quiet, last check {time.time()-t:.0f} s", flush=True)
        finally:
            sh("git checkout -q -- .", "/repo")

{"make": make, "run": run, "quiet": quiet}[sys.argv[1]](sys.argv[2:])
