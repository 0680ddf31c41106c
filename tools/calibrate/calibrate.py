#!/usr/bin/env python3
"""calibrate.py [SEED [N]] - compares the simulated cargo with the real one.

Every drawn world is written down as the packages it consists of (path packages where they are;
registry and git packages as directory sources that take the place of the real ones), with the lock
file it implies; `cargo metadata --offline` is asked what the simulated cargo was asked, and what
krates reads of the two documents is compared, lists that have no order as sets.

Not part of a check: it is how the stub was brought in line with what it stands for."""

import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from urllib.parse import quote

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.environ.get("SIM", os.path.join(HERE, "../../sim/target/default/release/krates-sim"))
CRATES_IO = "registry+https://github.com/rust-lang/crates.io-index"


def q(v):
    return json.dumps(v, ensure_ascii=False)


def enc(v):
    return quote(v, safe="*-._").replace("~", "%7E").replace("%20", "+")


def source(src, precise=True, encode=True):
    if "path" in src:
        return None
    if "crates_io" in src:
        return CRATES_IO
    if "registry" in src:
        return src["registry"]
    v = enc(src["value"]) if encode else src["value"]
    out = "git+" + src["git"] + ("" if src["ref"] == "default" else f"?{src['ref']}={v}")
    return out + ("#" + src["commit"] if precise else "")


def origin(src):
    return source(src, precise=False)


def place(t, src):
    """The keys that say where a package is"""
    if "path" in src:
        return [f"path = {q(t['dir'])}"]
    if "registry" in src:
        return [f"registry-index = {q(src['registry'].removeprefix('registry+'))}"]
    if "git" in src:
        return [f"git = {q(src['git'])}"] + ([f"{src['ref']} = {q(src['value'])}"] if src["ref"] != "default" else [])
    return []


def manifest(w, k):
    p = w["pkgs"][k]
    out = ["[package]", f"name = {q(p['name'])}", f"version = {q(p['version'])}", 'edition = "2021"']
    if p["has_lib"]:
        out += ["[lib]"]
        if p["lib_name"]:
            out.append(f"name = {q(p['lib_name'])}")
        if p["lib_kinds"] == ["proc-macro"]:
            out.append("proc-macro = true")
        elif p["lib_kinds"] != ["lib"]:
            out.append(f"crate-type = {json.dumps(p['lib_kinds'])}")
    tables = collections.OrderedDict()
    for d in p["deps"]:
        t = w["pkgs"][d["to"]]
        name = d["kind"] if d["target"] is None else f"target.{q(d['target'])}.{d['kind']}"
        f = []
        src = t["stands_for"] if d["patched"] else t["src"]
        f += place(t, src)
        if d["req"] != "*" or "path" not in src and "git" not in src:
            f.append(f"version = {q(d['req'])}")
        if d["key"] != t["name"] or d["explicit"]:
            f.append(f"package = {q(t['name'])}")
        if d["optional"]:
            f.append("optional = true")
        if not d["uses_default"]:
            f.append("default-features = false")
        if d["features"]:
            f.append(f"features = [{', '.join(map(q, d['features']))}]")
        tables.setdefault(name, []).append(f"{q(d['key'])} = {{ {', '.join(f)} }}")
    for name, lines in tables.items():
        out += [f"[{name}]"] + lines
    feats = []
    said = collections.Counter(v for vs in p["features"].values() for v in set(vs))
    for f, vs in p["features"].items():
        # the implicit feature of an optional dependency is not written down, every other time
        if vs == ["dep:" + f] and said["dep:" + f] == 1 and (k + len(f)) % 2:
            continue
        feats.append(f"{q(f)} = [{', '.join(map(q, vs))}]")
    if feats:
        out += ["[features]"] + feats
    return "\n".join(out) + "\n"


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def lay(w, base):
    """The world, on disk"""
    vendors = {}
    for k, p in enumerate(w["pkgs"]):
        o = origin(p["src"])
        if o is None:
            d = p["dir"]
        else:
            v = vendors.setdefault(o, (os.path.join(base, "vendor", str(len(vendors))), p["src"]))[0]
            d = os.path.join(v, f"{k}-{p['name']}")
            write(os.path.join(d, ".cargo-checksum.json"), '{"files":{}}')
        text = manifest(w, k)
        if w["root_pkg"] == k:
            text += workspace(w)
        write(os.path.join(d, "Cargo.toml"), text)
        write(os.path.join(d, "src/lib.rs" if p["has_lib"] else "src/main.rs"), "")
    if w["root_pkg"] is None:
        write(os.path.join(w["ws_root"], "Cargo.toml"), workspace(w))
    conf = []
    # what crates.io is replaced by has to be there, even if nothing is
    if CRATES_IO not in vendors:
        vendors[CRATES_IO] = (os.path.join(base, "vendor", "none"), {"crates_io": True})
        os.makedirs(os.path.join(base, "vendor", "none"), exist_ok=True)
    for n, (o, (d, src)) in enumerate(vendors.items()):
        if "crates_io" in src:
            conf.append(f'[source.crates-io]\nreplace-with = "v{n}"')
        elif "registry" in src:
            conf.append(f'[source.s{n}]\nregistry = {q(src["registry"].removeprefix("registry+"))}\nreplace-with = "v{n}"')
        else:
            rf = "" if src["ref"] == "default" else f'\n{src["ref"]} = {q(src["value"])}'
            conf.append(f'[source.s{n}]\ngit = {q(src["git"])}{rf}\nreplace-with = "v{n}"')
        conf.append(f"[source.v{n}]\ndirectory = {q(d)}")
    write(os.path.join(base, "home/config.toml"), "\n".join(conf) + "\n")
    lock = ["version = 4", ""]
    for k, to in enumerate(w["lock"]):
        if to is None:
            continue
        p = w["pkgs"][k]
        lock += ["[[package]]", f"name = {q(p['name'])}", f"version = {q(p['version'])}"]
        if source(p["src"]):
            lock.append(f"source = {q(source(p['src']))}")
        if to:
            lock.append("dependencies = [")
            for t in to:
                t = w["pkgs"][t]
                s = source(t["src"])
                lock.append(f' {q(t["name"] + " " + t["version"] + (f" ({s})" if s else ""))},')
            lock.append("]")
        lock.append("")
    write(os.path.join(w["ws_root"], "Cargo.lock"), "\n".join(lock))


def workspace(w):
    root = w["ws_root"]
    rel = [os.path.relpath(w["pkgs"][m]["dir"], root) for m in w["members"] if m != w["root_pkg"]]
    patch = collections.OrderedDict()
    for k, p in enumerate(w["pkgs"]):
        if p["stands_for"] and w["lock"][k] is not None:
            of = p["stands_for"]
            of = "crates-io" if "crates_io" in of else of["registry"].removeprefix("registry+")
            f = ", ".join(place(p, p["src"]) + [f"package = {q(p['name'])}"])
            patch.setdefault(of, []).append(f"{p['name']}-{k} = {{ {f} }}")
    patches = "".join(f"[patch.{q(of)}]\n" + "\n".join(v) + "\n" for of, v in patch.items())
    default = ""
    if w["default_members"] is not None:
        default = f"default-members = [{', '.join(q(os.path.relpath(w['pkgs'][m]['dir'], root)) for m in w['default_members'])}]\n"
    return patches + f'[workspace]\nresolver = "2"\nmembers = [{", ".join(map(q, rel))}]\n{default}'


def view(doc, base):
    """What krates reads of a document, without the order of things that have none"""

    def dep(d):
        # the packages of a repository are laid out on their own here, without paths between them
        src = d["source"].split("#")[0] if (d["source"] or "").startswith("git+") else d["source"]
        return json.dumps(
            [d["name"], src, d["req"], d["kind"], d["rename"], d["optional"], d["uses_default_features"]]
            + [sorted(d["features"]), d["target"], d.get("path"), d.get("registry")]
        )

    def lib(p):
        return sorted((t["name"], tuple(t["kind"])) for t in p["targets"] if set(t["kind"]) & {"lib", "rlib", "cdylib", "staticlib", "proc-macro"})

    out = {}
    for p in doc["packages"]:
        out["package " + p["id"]] = {
            "name": p["name"],
            "version": p["version"],
            "source": p["source"],
            "dependencies": sorted(map(dep, p["dependencies"])),
            "features": p["features"],
            "manifest": p["manifest_path"] if p["source"] is None else None,
            "lib": lib(p),
        }
    for n in doc["resolve"]["nodes"]:
        out["node " + n["id"]] = {
            "dependencies": sorted(n["dependencies"]),
            "deps": sorted((d["name"], d["pkg"], json.dumps(sorted(map(json.dumps, d["dep_kinds"])))) for d in n["deps"]),
            "features": sorted(n["features"]),
        }
    out["members"] = sorted(doc["workspace_members"])
    out["default members"] = sorted(doc["workspace_default_members"])
    out["root"] = doc["resolve"]["root"]
    out["workspace_root"] = doc["workspace_root"]
    out["version"] = doc["version"]
    out["counts"] = [len(doc["packages"]), len(doc["resolve"]["nodes"])]
    return out


def sorted_lists(doc):
    """Which lists come sorted"""
    r = {}
    r["packages"] = [p["id"] for p in doc["packages"]]
    r["nodes"] = [n["id"] for n in doc["resolve"]["nodes"]]
    r["members"] = doc["workspace_members"]
    return {k: v == sorted(v) for k, v in r.items()}


def one(args):
    line, base = args
    case = json.loads(line)
    w = case["world"]
    n = w["ws_root"][len(base) + 1 :].split("/")[0]
    here = os.path.join(base, n)
    res = []
    try:
        lay(w, here)
        env = {"PATH": os.environ["PATH"], "HOME": os.environ["HOME"], "CARGO_HOME": os.path.join(here, "home"), "RUSTUP_TOOLCHAIN": "stable"}
        for r in case["requests"]:
            at = w["ws_root"] if r["at"] is None else w["pkgs"][r["at"]]["dir"]
            cmd = ["cargo", "metadata", "--offline", "--format-version", "1", "--manifest-path", at + "/Cargo.toml"]
            if r["all_features"]:
                cmd.append("--all-features")
            if r["no_default"]:
                cmd.append("--no-default-features")
            if r["features"]:
                cmd += ["--features", ",".join(r["features"])]
            o = subprocess.run(cmd, env=env, cwd="/", capture_output=True, text=True)
            if o.returncode:
                res.append(("error", o.stderr, {}))
                continue
            doc = json.loads(o.stdout)
            a, b = view(doc, here), view(r["doc"], here)
            diff = []
            for key in sorted(set(a) | set(b)):
                if a.get(key) != b.get(key):
                    diff.append((key, "cargo", a.get(key), "simulated", b.get(key)))
            res.append(("same" if not diff else "differ", diff, sorted_lists(doc)))
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(here, ignore_errors=True)
    return n, res


def main():
    seed = sys.argv[1] if len(sys.argv) > 1 else "1"
    count = sys.argv[2] if len(sys.argv) > 2 else "200"
    base = tempfile.mkdtemp(prefix="calibrate-")
    tally, shown, order = collections.Counter(), 0, collections.Counter()
    try:
        out = subprocess.run([SIM, "worlds", base, "--seed", seed, "--n", count], capture_output=True, text=True, check=True)
        with ThreadPoolExecutor(4) as ex:
            for n, res in ex.map(one, ((line, base) for line in out.stdout.splitlines())):
                for i, (what, info, srt) in enumerate(res):
                    tally[what] += 1
                    for k, v in srt.items():
                        order[k, v] += 1
                    if what != "same" and shown < int(os.environ.get("SHOW", "5")):
                        shown += 1
                        print(f"--- world {n} request {i}: {what}")
                        print(info if what == "error" else "\n".join(str(d) for d in info[:4]))
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(base, ignore_errors=True)
        else:
            print(base)
    print(dict(tally), {f"{k} sorted {v}": n for (k, v), n in order.items()})
    return 0 if set(tally) == {"same"} else 1


sys.exit(main())
