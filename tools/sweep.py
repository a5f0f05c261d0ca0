#!/usr/bin/env python3
"""Development tool: measures the checks with a random sample of mutants.

sweep.py WORKDIR PACKAGE COUNT SEED    (mutate binary at /tmp/mutate)

Works on copies of /repo and /verif below WORKDIR; writes WORKDIR/result.jsonl.
"""
import importlib.util, io, signal, json, os, random, shutil, subprocess, sys, contextlib

GROUPS = {"parallel": ["P02", "P01", "P03", "P04", "P05"],
          "sequential": ["P02", "P01", "P03", "P05"],
          "speculative": ["P06", "P07", "P02", "P03", "P05", "P04", "P01"],
          "internal": ["P05", "P02", "P01", "P03", "P06", "P07"],
          "sort": ["S01", "S02", "S03", "S04", "S05", "S06"],
          "sync": ["M01", "M02", "M03", "M04", "M05", "M06", "M07"],
          "pipeline": ["L01", "L02", "L03", "L04", "L05", "L06", "L07", "L08", "L09", "L10", "L11"]}


def main():
    work, pkg, count, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    repo, verif = work + "/repo", work + "/verif"
    shutil.copytree("/repo", repo)
    shutil.copytree("/verif", verif, ignore=shutil.ignore_patterns("seeded", "replays", ".git"))
    gm = verif + "/harness/go.mod"
    txt = open(gm).read().replace("=> /repo", "=> " + repo)
    open(gm, "w").write(txt)
    spec = importlib.util.spec_from_file_location("chk", verif + "/check.py")
    chk = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(chk)
    real_build = chk.build_all
    files = [repo + "/" + pkg + "/" + f for f in os.listdir(repo + "/" + pkg) if f.endswith(".go") and not f.endswith("_test.go")]
    ms = [json.loads(l) for l in subprocess.run(["/tmp/mutate"] + sorted(files), stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()]
    random.Random(seed).shuffle(ms)
    env = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off")
    done = 0
    with open(work + "/result.jsonl", "a") as res:
        for m in ms:
            if done >= count:
                break
            src = open(m["file"], "rb").read()
            try:
                open(m["file"], "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
                r = {"file": m["file"][len(repo) + 1:], "line": m["line"], "func": m["func"], "desc": m["desc"]}
                if subprocess.run(["go", "build", "./..."], cwd=repo, env=env, stderr=subprocess.DEVNULL, stdout=subprocess.DEVNULL).returncode:
                    continue
                try:
                    t = subprocess.Popen(["bash", "-c", "ulimit -v 60000000; go test -vet=off -timeout 60s ./..."], cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
                    rc = t.wait(100)
                    if rc:
                        continue
                except subprocess.TimeoutExpired:
                    os.killpg(t.pid, signal.SIGKILL)
                    t.wait()
                    continue
                done += 1
                out = work + "/bin"
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                chk.HARNESS = verif + "/harness"
                try:
                    bins = real_build(out, True)
                except chk.Infra as e:
                    r["result"] = "infra " + str(e)[:300]
                    bins = None
                if bins:
                    chk.build_all = lambda o, x: bins
                    r["result"] = "MISSED"
                    for p in GROUPS[pkg]:
                        buf = io.StringIO()
                        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                            try:
                                rc = chk.check(p, "quick")
                            except chk.Infra as e:
                                rc = 2
                                print(e)
                        if rc == 1:
                            lines = [l for l in buf.getvalue().splitlines() if not l.startswith(("KNOWN", "VIOL"))]
                            r["result"] = "caught " + p + ": " + (lines[0][:200] if lines else "")
                            break
                        if rc == 2:
                            r.setdefault("infra", []).append(p + ": " + buf.getvalue()[-300:])
                res.write(json.dumps(r) + "\n")
                res.flush()
            finally:
                open(m["file"], "wb").write(src)
    shutil.rmtree(work + "/bin", ignore_errors=True)


main()
