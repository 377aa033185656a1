#!/usr/bin/env python3
"""check.py ID [quick|thorough]: builds the test binary from /repo's working tree and decides one property.
   check.py build: only builds.   check.py replay FILE: re-runs the sub-check of a replay file."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
PBT = os.path.join(V, "pbt")
GO = "/opt/veriftools/go1.27.3/bin"
ENV = dict(os.environ)
ENV.update(HOME="/root", PATH=GO + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod")
ENV.setdefault("GOCACHE", "/root/.cache/go-build")
RACE = {"C01"}
# cheap checks explore more cases in the same time
SCALE = {"T01": 40, "T02": 40, "T03": 7, "L01": 20, "L02": 30, "L03": 25, "F01": 6, "F02": 6, "F03": 8, "F04": 6, "X01": 25, "X02": 2,
         "E01": 3, "E02": 8, "E03": 5, "E04": 12, "E05": 12, "E06": 4, "P02": 10, "P03": 2, "P04": 3, "P05": 4, "P06": 1.5, "P07": 2, "D02": 3, "S01": 1.5}

def build(outdir, race=False):
    out = os.path.join(outdir, "pbt-race.test" if race else "pbt.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["."]
    r = subprocess.run(cmd, cwd=PBT, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout)
        print("check error: the test binary does not build")
        sys.exit(3)
    return out

def run(binary, ID, tier, seed, scale, outdir, idx, sub=None, timeout=880):
    env = dict(ENV)
    ev = os.path.join(outdir, "ev%d.json" % idx)
    env.update(VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_OUT=ev, VERIF_SCALE=str(scale),
               VERIF_KNOWN=os.path.join(V, "known_findings.json"),
               VERIF_REPLAY_DIR=os.path.join(V, "evidence", "replay"))
    env.pop("VERIF_SUB", None)
    if sub: env["VERIF_SUB"] = sub
    if ID in RACE:
        env["GORACE"] = "halt_on_error=0 exitcode=66 suppress_equal_stacks=0 suppress_equal_addresses=0"
    log = open(os.path.join(outdir, "log%d.txt" % idx), "w")
    p = subprocess.Popen([binary, "-test.run", "^Test%s$" % ID, "-test.timeout", "0", "-test.v=false"],
                         cwd=PBT, env=env, stdout=log, stderr=subprocess.STDOUT)
    return p, log.name, ev

def main():
    if len(sys.argv) < 2:
        print(__doc__); sys.exit(3)
    if sys.argv[1] == "build":
        d = tempfile.mkdtemp(prefix="verif-")
        try:
            build(d); build(d, True)
        finally:
            shutil.rmtree(d)
        return
    sub = None
    if sys.argv[1] == "replay":
        h = open(sys.argv[2]).readline()
        m = re.match(r"property=(\S+) sub=(\S+) seed=(\d+) tier=(\S+) scale=(\S+)", h)
        ID, sub, seed, tier, scale = m[1], m[2], int(m[3]), m[4], float(m[5])
        if sub == "crash": sub = None
        shards = 1
    else:
        ID = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else ENV.get("VERIF_TIER", "quick")
        try: seed = int(ENV.get("VERIF_SEED", "1"))
        except ValueError: seed = 1
        scale = float(ENV.get("VERIF_SCALE", "1")) * SCALE.get(ID, 1)
        shards = 6 if tier == "thorough" else 1
    os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="verif-")
    rc = 3
    try:
        b = build(d, ID in RACE)
        procs = []
        for i in range(shards):
            procs.append(run(b, ID, tier, seed + i * 1000003, scale, d, i, sub))
        limit = 860 if tier == "quick" else 6 * 3600
        evs, violations, bad, knownlines = [], [], [], []
        for i, (p, log, ev) in enumerate(procs):
            try:
                code = p.wait(timeout=max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); code = None
            out = open(log, errors="replace").read()
            vs = [l for l in out.splitlines() if l.startswith("VIOLATION property=")]
            knownlines += [l for l in out.splitlines() if l.startswith("KNOWN-FINDING:")]
            if os.path.exists(ev):
                e = json.load(open(ev))
                hs = open(ev + ".hashes", "rb").read()
                e["_h"] = set(struct.unpack("<%dQ" % (len(hs) // 8), hs))
                evs.append(e)
            crash = code not in (0, 1) and code is not None and (
                "WARNING: DATA RACE" in out or "fatal error: concurrent map" in out
                or "goroutine stack exceeds" in out or "fatal error: all goroutines are asleep" in out
                or "panic:" in out and "substrait-go" in out)
            if vs:
                for l in out.splitlines():
                    if "[rapid] draw" not in l and not l.startswith("VIOLATION property="):
                        print(l[:2000])
                violations += vs
            elif crash:
                path = os.path.join(V, "evidence", "replay", "%s-crash-seed%d.txt" % (ID, seed))
                with open(path, "w") as f:
                    f.write("property=%s sub=crash seed=%d tier=%s scale=%g\n" % (ID, seed + i * 1000003, tier, scale) + out[:60000])
                print(out[:6000])
                l = "VIOLATION property=%s replay=%s" % (ID, path)
                violations.append(l)
            elif code != 0:
                sys.stdout.write(out[-6000:])
                bad.append("shard %d ended with %s" % (i, code))
        for l in sorted(set(knownlines)):
            if not any(l in v for v in violations): print(l)
        if evs:
            m = evs[0]
            cov = m["coverage"]
            hs = set().union(*[e["_h"] for e in evs])
            for e in evs[1:]:
                c = e["coverage"]
                cov["evaluations"] += c["evaluations"]
                for k in ("cases_per_sub_check", "classes", "known_finding_hits"):
                    for kk, n in (c[k] or {}).items():
                        cov[k][kk] = cov[k].get(kk, 0) + n
                m["violations"] += e["violations"]
            cov["distinct_nontrivial"] = len(hs)
            m.pop("_h", None)
            m["wall_s"] = round(time.time() - t0, 3)
            m["seed"] = seed
            if sub is None:
                json.dump(m, open(os.path.join(V, "evidence", ID + ".json"), "w"), indent=1)
            print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
                ID, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], m["wall_s"]))
        for l in violations: print(l)
        if violations: rc = 1
        elif bad or not evs:
            print("check error:", "; ".join(bad) or "no evidence written"); rc = 3
        else: rc = 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)

main()
