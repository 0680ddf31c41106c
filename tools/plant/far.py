#!/usr/bin/env python3
"""far.py run [ID...]     the quick checks against planted bugs, each its own property's (or ALL=1: every)
far.py probe [ID...]   the same with bugs/probes.py, against the properties each names
far.py quiet [ID...]   the same with changes that change no behaviour (bugs/same.py; ALL=1: every check)
What plant.py does, in copies of /repo and of the simulator in /tmp/far, several at a time (WORKERS=3)."""
import json, os, runpy, subprocess, sys, threading, queue, time, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get("FAR", "/tmp/far")
IDS = [c["property"] for c in json.load(open(f"{VERIF}/MANIFEST.json"))["checks"]]
ALT = open(f"{VERIF}/check").read().split('case "')[1].split('"')[0].split()

def sh(cmd, cwd, timeout=1800):
    p = subprocess.Popen(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, ""

def prepare(w):
    d = f"{ROOT}/{w}"
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(f"{d}/krates"):
        sh(f"git clone -q /repo {d}/krates", "/")
    sh("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -qf .", f"{d}/krates")
    shutil.rmtree(f"{d}/sim", ignore_errors=True)
    sh(f"mkdir -p {d}/sim && cp -a {VERIF}/sim/Cargo.* {VERIF}/sim/src {d}/sim/ && cp {VERIF}/known-findings.txt {d}/ && sed -i 's#\"/repo\"#\"{d}/krates\"#' {d}/sim/Cargo.toml", "/")
    return d

def build(d, v):
    feats = " --features targets" if v == "targets" else ""
    code, out = sh(f"CARGO_TARGET_DIR={d}/t-{v} cargo build --release --offline --locked{feats}", f"{d}/sim")
    return None if code == 0 else out[-1500:]

def check(d, p):
    alt = f"--alt {d}/t-targets/release/krates-sim" if p in ALT else ""
    if p in ALT and not os.path.exists(f"{d}/.alt"):
        e = build(d, "targets")
        if e:
            return 3, e
        open(f"{d}/.alt", "w")
    return sh(f"ulimit -c 0; {d}/t-default/release/krates-sim check {p} --tier quick --seed {os.environ.get('SEED', '1')} {alt} --known {d}/known-findings.txt --evidence {d}/ev.json --replays {d}/rp", d)

def tasks(mode, ids):
    if mode == "run":
        for i in sorted(ids or os.listdir(f"{VERIF}/seeded")):
            p = json.load(open(f"{VERIF}/seeded/{i}/meta.json"))["property"]
            yield i, f"{VERIF}/seeded/{i}/patch.diff", [p] + ([q for q in IDS if q != p] if os.environ.get("ALL") else [])
    elif mode == "probe":
        for (i, props, edits) in runpy.run_path(f"{HERE}/bugs/probes.py")["PROBES"]:
            if not ids or any(i.startswith(x) for x in ids):
                yield i, edits, props
    else:
        for s in runpy.run_path(f"{HERE}/bugs/same.py")["SAME"]:
            if not ids or s["id"] in ids:
                yield s["id"], s["edits"], IDS if os.environ.get("ALL") else s["checks"]

def main():
    mode, ids = sys.argv[1], sys.argv[2:]
    q = queue.Queue()
    for t in tasks(mode, ids):
        q.put(t)
    def work(w):
        d = prepare(w)
        while True:
            try:
                i, edit, checks = q.get_nowait()
            except queue.Empty:
                return
            sh("git checkout -qf .", f"{d}/krates")
            sh(f"rm -f {d}/.alt", d)
            bad = ""
            if isinstance(edit, str):
                code, out = sh(f"git apply {edit}", f"{d}/krates")
                bad = out if code else ""
            else:
                for (path, old, new) in edit:
                    t = open(f"{d}/krates/{path}").read()
                    if t.count(old) != 1:
                        bad = f"occurs {t.count(old)} times: {old[:80]!r}"; break
                    open(f"{d}/krates/{path}", "w").write(t.replace(old, new))
            if not bad:
                bad = build(d, "default")
            if bad:
                print(f"{i:28} ERROR {bad[:1500]}", flush=True); continue
            took, caught, alarms = time.time(), [], 0
            for p in checks:
                code, out = check(d, p)
                line = next((l for l in reversed(out.splitlines()) if "(seed " in l), out[-300:] if code else "")
                if code == 1:
                    caught.append(p)
                if mode == "quiet" and (code or "VIOLATION" in out):
                    alarms += 1
                    print(f"{i:28} {p} ALARM {code}\n{out[-800:]}", flush=True)
                elif mode != "quiet" and not os.environ.get("ALL"):
                    print(f"{i:28} {p} {'CAUGHT' if code == 1 else 'missed' if code == 0 else 'ERROR'} {time.time()-took:.0f} s  {line[:int(os.environ.get('WIDTH', '230'))]}", flush=True)
            if mode == "run" and os.environ.get("ALL"):
                print(f"{i:28} {'own' if checks[0] in caught else 'MISSED by own'}: {' '.join(caught)}", flush=True)
            if mode == "quiet" and not alarms:
                print(f"{i:28} quiet {len(checks)} checks, {time.time()-took:.0f} s", flush=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(int(os.environ.get("WORKERS", "3")))]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
