#!/usr/bin/env python3
"""Runs the checks of one property: check.py ID [quick|thorough]
   or replays a saved case:           check.py --replay FILE [REPEAT]

Exit 0: the property held on everything explored.
Exit 1: a line "VIOLATION property=<id> replay=<path>" names a violation.
Exit 2: the check could not give an answer (infrastructure).
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
WORKERS = 8


class Infra(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("PV_") or k in ("GORACE", "GODEBUG", "GOGC", "GOMEMLIMIT", "GOTRACEBACK", "GOMAXPROCS", "GOEXPERIMENT"):
            del e[k]
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOENV="off", GOTOOLCHAIN="local", GOPATH=e.get("GOPATH", "/root/go"))
    e.update(kw)
    return e


# Not Mutex.Unlock: sync.Pool calls it where yielding is not allowed.
HOOKED = re.compile(r"^func \(\w+ \*(?:Mutex\) Lock|RWMutex\) (?:Lock|Unlock|RLock|RUnlock)|WaitGroup\) (?:Add|Wait)|Cond\) (?:Wait|Signal|Broadcast))\(.*\) \{$", re.M)


def overlay(out):
    """Lets the harness widen the windows between synchronisation operations:
    package sync of the installed Go gets a hook that is called at the start
    of each of them. (Only the binaries built here; nothing is installed.)"""
    root = subprocess.run(["go", "env", "GOROOT"], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    src = os.path.join(root, "src", "sync")
    dst = os.path.join(out, "sync")
    os.makedirs(dst)
    repl = {}
    for f in ("mutex.go", "rwmutex.go", "waitgroup.go", "cond.go"):
        with open(os.path.join(src, f)) as fh:
            text = fh.read()
        text, n = HOOKED.subn(lambda m: m.group(0) + "\n\tif PVHook != nil {\n\t\tPVHook()\n\t}", text)
        if n == 0:
            raise Infra("package sync has changed: no functions found in " + f)
        with open(os.path.join(dst, f), "w") as fh:
            fh.write(text)
        repl[os.path.join(src, f)] = os.path.join(dst, f)
    with open(os.path.join(dst, "pvhook.go"), "w") as fh:
        fh.write("package sync\n\nvar PVHook func()\n")
    repl[os.path.join(src, "pvhook.go")] = os.path.join(dst, "pvhook.go")
    name = os.path.join(out, "overlay.json")
    with open(name, "w") as fh:
        json.dump({"Replace": repl}, fh)
    return name


def build(out, race, over):
    name = os.path.join(out, "race.test" if race else "plain.test")
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", over, "-o", name]
    if race:
        cmd.append("-race")
    p = subprocess.run(cmd + ["."], cwd=HARNESS, env=env(CGO_ENABLED="1" if race else "0"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(name):
        raise Infra("build failed:\n" + p.stdout)
    return name


def build_all(out, races):
    """Builds the binaries; the harness's own sources are copied so that the
    go command never writes into /verif."""
    global HARNESS
    src = os.path.join(out, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), src, ignore=shutil.ignore_patterns("testdata"))
    HARNESS = src
    over = overlay(out)
    with ThreadPoolExecutor(2) as ex:
        fs = [ex.submit(build, out, r, over) for r in ([False, True] if races else [False])]
        res = [f.result() for f in fs]
    return res[0], (res[1] if races else "")


def run(binary, out, **kw):
    return subprocess.run([binary, "-test.timeout", "0", "-test.v"], cwd=out, env=env(TMPDIR=out, **kw),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def replay(plain, race, out, path, repeat=0):
    p = run(plain, out, PV_ROLE="replay", PV_REPLAY=path, PV_PLAIN=plain, PV_RACE=race,
            PV_REPEAT=str(repeat) if repeat else "")
    res = []
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            res.append(json.loads(line))
    if not res:
        raise Infra("replay of %s gave no answer: %s" % (path, p.stdout[-2000:]))
    return res


def known(prop):
    """Recorded findings of the property: (case file, text)."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop and w[2].startswith("case="):
                res.append((os.path.join(VERIF, w[2][5:]), w[3].strip()))
    return res


def save(prop, failure):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(failure, indent=1)
    h = hashlib.sha256(json.dumps([failure["exec"], failure["case"]]).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    out = tempfile.mkdtemp(prefix="pargo-verif-")
    failures, infra = [], []
    try:
        corpus = sorted(glob.glob(os.path.join(VERIF, "corpus", prop, "*.json")))
        finds = known(prop)
        plain, race = build_all(out, True)
        p = run(plain, out, PV_ROLE="list")
        items = None
        for line in p.stdout.splitlines():
            if line.startswith("["):
                items = json.loads(line)
        if items is None:
            raise Infra("no campaign list: " + p.stdout[-2000:])
        items = [c for c in items if c["Prop"] == prop]
        if not items:
            raise Infra("no campaign for " + prop)

        jobs = []
        for c in items:
            total = c["Quick"] if tier == "quick" else c["Thorough"]
            scale = float(os.environ.get("PV_SCALE_CASES", "1"))
            total = max(1, int(total * scale))
            shards = max(1, min(WORKERS if tier == "quick" else 4 * WORKERS, total // 20))
            for s in range(shards):
                n = total // shards + (1 if s < total % shards else 0)
                jobs.append((c, s, n))
        # big shards first
        jobs.sort(key=lambda j: (not j[0]["Race"], j[1]))

        def shard(job):
            c, s, n = job
            h = hashlib.sha256(("%d/%s/%d" % (seed, c["Name"], s)).encode()).digest()
            sd = int.from_bytes(h[:7], "big") or 1
            of = os.path.join(out, "%s-%d.json" % (c["Name"], s))
            p = run(plain, out, PV_ROLE="campaign", PV_CAMPAIGN=c["Name"], PV_PROP=c["Prop"], PV_CASES=str(n), PV_SEED=str(sd),
                    PV_OUT=of, PV_PLAIN=plain, PV_RACE=race)
            try:
                return json.load(open(of))
            except Exception:
                return {"campaign": c["Name"], "infra": "shard gave no result: " + p.stdout[-3000:]}

        def corp(path):
            return replay(plain, race, out, path)[0]

        with ThreadPoolExecutor(WORKERS) as ex:
            cf = [(f, ex.submit(corp, f)) for f in corpus]
            kf = [(f, text, ex.submit(corp, f)) for f, text in finds]
            sf = [ex.submit(shard, j) for j in jobs]
            for f, fu in cf:
                r = fu.result()
                if r["Msg"]:
                    fl = json.load(open(f))
                    fl["message"] = r["Msg"]
                    failures.append(fl)
                elif r["Infra"]:
                    infra.append("%s: %s" % (f, r["Infra"]))
            for f, text, fu in kf:
                r = fu.result()
                fl = json.load(open(f))
                if r["Msg"] and r["Msg"].startswith(fl["message"]):
                    print("KNOWN-FINDING: property=%s %s" % (prop, text))
                elif r["Msg"]:  # it fails, but in another way than recorded
                    fl["message"] = r["Msg"]
                    failures.append(fl)
                elif r["Infra"]:
                    infra.append("%s: %s" % (f, r["Infra"]))
            results = [fu.result() for fu in sf]

        evals = nontriv = 0
        distinct, per, samples = set(), {}, []
        for r in results:
            if r.get("infra"):
                infra.append("%s: %s" % (r["campaign"], r["infra"]))
            if r.get("failure"):
                failures.append(r["failure"])
            d = per.setdefault(r["campaign"], {"cases": 0, "nontrivial": 0, "classes": {}})
            d["cases"] += r.get("evaluations", 0)
            d["nontrivial"] += r.get("nontrivial", 0)
            for k, v in (r.get("labels") or {}).items():
                d["classes"][k] = d["classes"].get(k, 0) + v
            evals += r.get("evaluations", 0)
            distinct.update(r["campaign"] + h for h in r.get("distinct") or [])
            if sum(1 for s in samples if s["campaign"] == r["campaign"]) < 2:
                for s in (r.get("samples") or [])[:1]:
                    samples.append({"campaign": r["campaign"], "case": s})
        rules = json.load(open(os.path.join(VERIF, "rules.json")))
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evals + len(corpus) + len(finds),
                "distinct_nontrivial": len(distinct),
                "rule": rules.get(prop, ""),
                "samples": samples[:8],
                "campaigns": per,
                "corpus_cases": len(corpus),
                "known_finding_cases": len(finds),
            },
            "wall_s": round(time.time() - t0, 1),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        txt = json.dumps(ev, indent=1)
        if len(txt) > 60000:
            ev["coverage"]["samples"] = samples[:1]
            for d in per.values():
                d["classes"] = dict(sorted(d["classes"].items(), key=lambda kv: -kv[1])[:20])
            txt = json.dumps(ev, indent=1)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            f.write(txt + "\n")

        if failures:
            failures.sort(key=lambda f: len(json.dumps(f["case"])))
            for f in failures[:3]:
                path = save(prop, f)
                print("%s: %s" % (f["campaign"], f["message"]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if infra:
            print("ERROR: no answer: " + infra[0], file=sys.stderr)
            return 2
        print("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs" % (prop, tier, seed, evals, len(distinct), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def do_replay(path, repeat):
    out = tempfile.mkdtemp(prefix="pargo-verif-")
    try:
        plain, race = build_all(out, True)
        rc = 0
        for r in replay(plain, race, out, os.path.abspath(path), repeat):
            if r["Msg"]:
                print(r["Msg"])
                print("VIOLATION property=%s replay=%s" % (r["Property"], r["File"]))
                rc = 1
            elif r["Infra"]:
                print("ERROR: " + r["Infra"], file=sys.stderr)
                rc = rc or 2
            else:
                print("OK %s" % r["File"])
        return rc
    finally:
        shutil.rmtree(out, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--replay":
            return do_replay(a[1], int(a[2]) if len(a) > 2 else 0)
        if a and a[0] == "--setup":
            out = tempfile.mkdtemp(prefix="pargo-verif-")
            try:
                build_all(out, True)
            finally:
                shutil.rmtree(out, ignore_errors=True)
            print("setup: harness builds")
            return 0
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier)
    except Infra as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
