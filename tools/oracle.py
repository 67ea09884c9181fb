#!/usr/bin/env python3
"""oracle.py [seconds]: compares the harness's model of cargo's resolver with cargo itself.

Not a check: worlds drawn at random from the families are written to a scratch directory as
workspaces of path packages, and `cargo metadata` is asked about them.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NATIVE = R + "/harness/target/plain/release/kharness"
KINDS = ["dependencies", "build-dependencies", "dev-dependencies"]
FAMS = [(0, [24, 14, 15]), (1, range(8)), (2, range(8)), (3, range(8)), (4, range(5)), (5, range(8)), (6, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 80, 81, 82, 83, 90]), (7, range(6)),
        (8, range(4)), (9, range(4)), (10, range(6)), (11, range(8)), (13, range(4)), (14, range(8)), (15, range(8)), (16, range(8))]


def q(s):
    return json.dumps(s, ensure_ascii=False)


def draw(rng, tmp):
    f, vs = rng.choice(FAMS)
    v = rng.choice(list(vs)) + rng.choice([0, 100, 200])
    if f == 15:
        v = v % 100 + 200
    p = os.path.join(tmp, f"{rng.getrandbits(60)}")
    try:
        for _ in range(60):
            with open(p, "w") as o:
                print("h_dump", f, v, 0, file=o)
                for _ in range(255):
                    print(rng.getrandbits(8), 8, "x", file=o)
            r = subprocess.run([NATIVE, p], capture_output=True, text=True)
            l = [x for x in r.stdout.splitlines() if x.startswith("{")]
            if l:
                return (f, v), json.loads(l[0])
    finally:
        os.remove(p)
    return (f, v), None


def write(d, w):
    ps = w["pkgs"]
    # Packages that only their source tells apart: not so here.
    for i, p in enumerate(ps):
        while any(p["name"] == x["name"] and p["version"] == x["version"] for x in ps[:i]):
            v = re.match(r"(\d+\.\d+\.)(\d+)(.*)", p["version"])
            p["version"] = v[1] + str(int(v[2]) + 1) + v[3]
    dirs = [f"ws/m{i}" if p["member"] else f"ext/e{i}" for i, p in enumerate(ps)]
    os.makedirs(d + "/ws")
    with open(d + "/ws/Cargo.toml", "w") as o:
        o.write("[workspace]\nresolver = \"2\"\nmembers = [" + ", ".join(q(x[3:]) for x in dirs if x.startswith("ws")) + "]\n")
    for i, p in enumerate(ps):
        os.makedirs(f"{d}/{dirs[i]}/src")
        open(f"{d}/{dirs[i]}/src/{'main' if p['bin_only'] else 'lib'}.rs", "w").close()
        if p["lib"] != p["name"] and "-" in p["lib"]:
            return "hyphen in library name"
        with open(f"{d}/{dirs[i]}/Cargo.toml", "w") as o:
            o.write(f"[package]\nname = {q(p['name'])}\nversion = {q(p['version'])}\nedition = \"2021\"\n" + ("" if p["bin_only"] else "[lib]\n"))
            if p["lib"] != p["name"]:
                o.write(f"name = {q(p['lib'])}\n")
            if p["kinds"] == ["proc-macro"]:
                o.write("proc-macro = true\n")
            elif p["kinds"] != ["lib"]:
                o.write(f"crate-type = {json.dumps(p['kinds'])}\n")
            o.write("[features]\n")
            for f, v in p["features"]:
                if v == ["dep:" + f] and any(x["name"] == f for x in p["deps"]) and not any("dep:" + f in v2 for f2, v2 in p["features"] if f2 != f):
                    continue  # implied by cargo
                o.write(f"{q(f)} = {json.dumps(v)}\n")
            seen = set()
            for x in p["deps"]:
                t = f"target.{q(x['target'])}." if x["target"] else ""
                if (x["name"], x["kind"], t) in seen:
                    return "declared twice"
                seen.add((x["name"], x["kind"], t))
                o.write(f"[{t}{KINDS[x['kind']]}.{q(x['name'])}]\npath = {q(d + '/' + dirs[x['to']])}\n")
                if x["name"] != ps[x["to"]]["name"]:
                    o.write(f"package = {q(ps[x['to']]['name'])}\n")
                if x["req"] != "*":
                    o.write(f"version = {q(x['req'])}\n")
                if x["optional"]:
                    o.write("optional = true\n")
                if not x["default"]:
                    o.write("default-features = false\n")
                if x["features"]:
                    o.write(f"features = {json.dumps(x['features'])}\n")
    return None


def one(seed, tmp):
    rng = random.Random(seed)
    at, w = draw(rng, tmp)
    if w is None:
        return at, "no draw", ""
    if any(p["hidden"] for p in w["pkgs"]):
        return at, "hidden", ""
    d = os.path.join(tmp, f"w{seed}")
    try:
        bad = write(d, w)
        if bad:
            return at, bad, ""
        root = w["root"]
        if root is not None and not w["pkgs"][root]["member"]:
            root = None
        a = ["cargo", "metadata", "--offline", "--format-version", "1", "--no-default-features", "--manifest-path",
             d + "/ws/" + (f"m{root}/" if root is not None else "") + "Cargo.toml"]
        if w["requested"]:
            a += ["--features", ",".join(f"{w['pkgs'][p]['name']}/{f}" for p, f in w["requested"])]
        r = subprocess.run(a, capture_output=True, text=True)
        if r.returncode:
            return at, "cargo: " + re.sub(r"Blocking[^\n]*\n|/\S*|`[^`]*`|[0-9]+", "", r.stderr).strip().split("Caused by:")[-1].strip()[:90].replace("\n", " "), r.stderr[-700:]
        md = json.loads(r.stdout)
        num = {}
        for p in md["packages"]:
            num[p["id"]] = int(re.search(r"/[me](\d+)/Cargo.toml$", p["manifest_path"]).group(1))
        kinds = {None: "normal", "dev": "dev", "build": "build", "normal": "normal"}

        def norm(n, f):
            return (f(n), sorted(n["features"]), sorted((x["name"], x["p"], sorted((kinds[k["kind"]], k["target"] or "") for k in x["dep_kinds"])) for x in n["deps"]))
        real = []
        for n in md["resolve"]["nodes"]:
            for x in n["deps"]:
                x["p"] = num[x["pkg"]]
            real.append(norm(n, lambda n: num[n["id"]]))
        model = []
        for n in w["nodes"]:
            for x in n["deps"]:
                x["p"] = x["pkg"]
            model.append(norm(n, lambda n: n["pkg"]))
        real.sort(); model.sort()
        if real != model:
            df = [f"cargo {x}" for x in real if x not in model] + [f"model {x}" for x in model if x not in real]
            return at, "DIFFERENT", "\n".join(df)[:1500] + "\n" + json.dumps(w["pkgs"])[:2500] + json.dumps(w["requested"])
        return at, "same", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    secs = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    tmp = tempfile.mkdtemp(prefix="oracle")
    t0, count, shown = time.time(), {}, {}
    base = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    try:
        with ThreadPoolExecutor(8) as ex:
            seed = base
            while time.time() - t0 < secs:
                for at, res, more in ex.map(lambda s: one(s, tmp), range(seed, seed + 64)):
                    k = (at[0], res)
                    count[k] = count.get(k, 0) + 1
                    if res not in ("same", "no draw", "hidden") and shown.setdefault(k, 0) < 2:
                        shown[k] += 1
                        print(at, res, more, flush=True)
                seed += 64
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for k in sorted(count):
        print(*k, count[k])


main()
