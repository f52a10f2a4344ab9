#!/usr/bin/env python3
"""Builds and runs the monitors of one property; see DESIGN.md."""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MAXSHARDS = int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4)

def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local",
             GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", GONOSUMDB="*", GOFLAGS_EXTRA="")
    e["CGO_ENABLED"] = "1"
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    return e

def sh(cmd, **kw):
    return subprocess.run(cmd, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def patch(src, dst, edits):
    s = open(src).read()
    for old, new in edits:
        if s.count(old) != 1:
            raise RuntimeError("cannot instrument %s: %r occurs %d times" % (src, old, s.count(old)))
        s = s.replace(old, new)
    write(dst, s)

def gnark_module():
    """Makes an instrumented copy of gnark-crypto and a go.mod that uses it."""
    mf = os.path.join(BUILD, "go.mod")
    gm = open(os.path.join(REPO, "go.mod")).read()
    gs = open(os.path.join(REPO, "go.sum")).read()
    r = sh(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/consensys/gnark-crypto"], cwd=REPO)
    src = r.stdout.strip()
    dst = os.path.join(BUILD, os.path.basename(src))
    if not os.path.exists(os.path.join(dst, ".ok")):
        tmp = dst + ".tmp%d" % os.getpid()
        shutil.copytree(src, tmp, ignore=shutil.ignore_patterns("ecc", "*_test.go", ".github"), copy_function=shutil.copyfile)
        for d, _, fs in os.walk(tmp):
            os.chmod(d, 0o755)
        patch(os.path.join(src, "fiat-shamir/transcript.go"), os.path.join(tmp, "fiat-shamir/transcript.go"), [
            ("// Transcript handles the creation", "// VerifTrace observes bindings and challenges.\nvar VerifTrace func(op, name string, p []byte) []byte\n\n// Transcript handles the creation"),
            ("\tt.challenges[challengeID] = currentChallenge\n", "\tt.challenges[challengeID] = currentChallenge\n\tif VerifTrace != nil {\n\t\tVerifTrace(\"bind\", challengeID, bCopy)\n\t}\n"),
            ("\tres := t.h.Sum(nil)\n", "\tres := t.h.Sum(nil)\n\tif VerifTrace != nil {\n\t\tres = VerifTrace(\"chal\", challengeID, res)\n\t}\n"),
        ])
        open(os.path.join(tmp, ".ok"), "w").close()
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp)
    write(mf, gm + "\nreplace github.com/consensys/gnark-crypto => %s\n" % dst)
    write(os.path.join(BUILD, "go.sum"), gs)
    return mf

def write(p, s):
    if os.path.exists(p) and open(p).read() == s:
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    tmp = p + ".%d" % os.getpid()
    open(tmp, "w").write(s)
    os.replace(tmp, p)

def overlay():
    """Creates the overlay file: harness packages and instrumented dependencies."""
    rep = {}
    h = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(os.path.join(h, "verifmon"))):
        if f.endswith(".go"):
            rep[os.path.join(REPO, "verifmon", f)] = os.path.join(h, "verifmon", f)
    rep[os.path.join(REPO, "buckler/verifzp/zp.go")] = os.path.join(h, "zpx/buckler.go")
    rep[os.path.join(REPO, "jindo/verifzp/zp.go")] = os.path.join(h, "zpx/jindo.go")
    goroot = sh(["go", "env", "GOROOT"], cwd=REPO).stdout.strip()
    gnark_module()
    s3 = os.path.join(goroot, "src/crypto/sha3/sha3.go")
    dst = os.path.join(BUILD, "instr/sha3.go")
    patch(s3, dst, [
        ("import (\n", 'import (\n\t"unsafe"\n'),
        ("func (s *SHAKE) init() {", "// VerifTrace observes the use of SHAKE instances.\nvar VerifTrace func(op string, id uintptr, p []byte)\n\nfunc (s *SHAKE) init() {"),
        ("func (s *SHAKE) Write(p []byte) (n int, err error) {\n", "func (s *SHAKE) Write(p []byte) (n int, err error) {\n\tif VerifTrace != nil {\n\t\tVerifTrace(\"write\", uintptr(unsafe.Pointer(s)), p)\n\t}\n"),
        ("func (s *SHAKE) Read(p []byte) (n int, err error) {\n", "func (s *SHAKE) Read(p []byte) (n int, err error) {\n\tif VerifTrace != nil {\n\t\tdefer func() { VerifTrace(\"read\", uintptr(unsafe.Pointer(s)), p) }()\n\t}\n"),
        ("func (s *SHAKE) Reset() {\n", "func (s *SHAKE) Reset() {\n\tif VerifTrace != nil {\n\t\tVerifTrace(\"reset\", uintptr(unsafe.Pointer(s)), nil)\n\t}\n"),
    ])
    rep[s3] = dst
    p = os.path.join(BUILD, "overlay.json")
    write(p, json.dumps({"Replace": rep}, indent=1))
    return p

VARIANTS = {
    "plain": dict(tags="verif", flags=[]),
    "race": dict(tags="verif", flags=["-race"]),
    "checkptr": dict(tags="verif", flags=["-gcflags=all=-d=checkptr=2"]),
    "asan": dict(tags="verif", flags=["-asan"]),
    "purego": dict(tags="verif,purego", flags=[]),
    "noadx": dict(tags="verif,noadx,noavx", flags=[]),
}

def build(variant):
    v = VARIANTS[variant]
    ov = overlay()
    outp = os.path.join(BUILD, "bin", "verifmon-" + variant)
    os.makedirs(os.path.dirname(outp), exist_ok=True)
    cmd = ["go", "build", "-modfile", os.path.join(BUILD, "go.mod"), "-overlay", ov, "-tags", v["tags"], "-o", outp] + v["flags"] + ["./verifmon"]
    t0 = time.time()
    r = sh(cmd, cwd=REPO)
    if r.returncode != 0:
        sys.stderr.write("build failed (%s):\n%s\n" % (" ".join(cmd), r.stderr[-4000:]))
        sys.exit(3)
    return outp, time.time() - t0

class Shard:
    """One process of the harness; restarted after a crash with the remaining cases not rerun."""
    def __init__(self, binp, prop, variant, tier, seed, i, n, env, limit):
        self.args = [binp, "-prop", prop, "-variant", variant, "-tier", tier, "-seed", str(seed), "-shard", "%d/%d" % (i, n)]
        self.env, self.limit = env, limit
        self.events, self.err, self.rc, self.timeout = [], "", None, False
        self.variant, self.i, self.n = variant, i, n

    def run(self):
        p = subprocess.Popen(self.args, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        errbuf = []
        def rd_err():
            for b in iter(lambda: p.stderr.read(65536), b""):
                if sum(map(len, errbuf)) < 1 << 20:
                    errbuf.append(b)
        te = threading.Thread(target=rd_err); te.start()
        def kill():
            self.timeout = True
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
        tm = threading.Timer(self.limit, kill); tm.start()
        for line in p.stdout:
            try: self.events.append(json.loads(line))
            except ValueError: pass
        p.wait(); te.join(); tm.cancel()
        self.rc = p.returncode
        self.err = b"".join(errbuf).decode("utf-8", "replace")

def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

def main():
    from checks import CHECKS
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case")
    ap.add_argument("--variant")
    a = ap.parse_args()
    if a.prop == "setup":
        for v in ("plain", "race"):
            build(v)
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        a.prop, a.seed, a.tier, a.case, a.variant = r["property"], r["seed"], r["tier"], r["case"], r["variant"]
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    chk = CHECKS[a.prop]
    t0 = time.time()
    if chk.get("script"):
        import importlib
        res = importlib.import_module(chk["script"]).run(a, sys.modules["__main__"])
        ctr, distinct, samples, viols, extra = res
    else:
        ctr, distinct, samples, viols, extra = run_harness(a, chk)
    return finish(a, chk, ctr, distinct, samples, viols, extra, t0)

def run_harness(a, chk):
    """Runs the Go harness; returns counters, distinct set, samples, violations and extra evidence."""
    ctr, distinct, samples, viols, extra = {}, set(), [], [], {}
    runs = chk["runs"]
    if a.variant:
        runs = [r for r in runs if r["variant"] == a.variant][:1] or [dict(variant=a.variant)]
    for r in runs:
        v = r["variant"]
        prop = r.get("cases", a.prop)
        binp, bt = build(v)
        extra["build_s_" + v] = round(bt, 1)
        run_shards(a, r, prop, binp, v, ctr, distinct, samples, viols)
    return ctr, distinct, samples, viols, extra

def run_shards(a, r, prop, binp, v, ctr, distinct, samples, viols):
    """Runs the cases of one build in parallel processes and collects their events."""
    env = goenv()
    env["GOMAXPROCS"] = str(r.get("procs", 1))
    env["GOGC"] = "200"
    env["GORACE"] = "halt_on_error=1 exitcode=66 history_size=3"
    env["GOTRACEBACK"] = "all"
    env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:allow_user_segv_handler=1"
    n = 1 if a.case else max(1, MAXSHARDS // r.get("procs", 1))
    limit = r.get("limit", 780 if a.tier == "quick" else 4 * 3600)
    claim = tempfile.mkdtemp(prefix="claim-", dir=BUILD)
    shards = [Shard(binp, prop, v, a.tier, a.seed, i, n, env, limit) for i in range(n)]
    if a.case:
        shards[0].args += ["-case", a.case]
    else:
        for s in shards: s.args += ["-claim", claim]
    ths = [threading.Thread(target=s.run) for s in shards]
    [t.start() for t in ths]; [t.join() for t in ths]
    shutil.rmtree(claim)
    for s in shards:
        cur, done = None, False
        for e in s.events:
            if e["t"] == "start": cur = e["case"]
            elif e["t"] == "end":
                cur = None
                for k, x in e["ctr"].items(): ctr[k] = ctr.get(k, 0) + x
                distinct.update(e["distinct"] or [])
                if e["samples"]: samples += [(e["case"], x) for x in e["samples"]]
                ctr["cases"] = ctr.get("cases", 0) + 1
            elif e["t"] == "viol": viols.append(dict(case=e["case"], key=e["key"], msg=e["msg"], variant=v, cases=prop))
            elif e["t"] == "done": done = True
        if not done:
            m = s.err
            if s.timeout: key, msg = "timeout", "no result after %d s" % limit
            elif "DATA RACE" in m: key, msg = "data-race", cut(m, "WARNING: DATA RACE")
            elif "checkptr" in m: key, msg = "checkptr", cut(m, "checkptr")
            elif "AddressSanitizer" in m: key, msg = "asan", cut(m, "ERROR: AddressSanitizer")
            elif s.rc == 3: sys.stderr.write(m); sys.exit(3)
            elif s.rc == -9 and not m: sys.stderr.write("harness was killed\n"); sys.exit(3)
            else: key, msg = "crash", "exit status %s: %s" % (s.rc, m[:1500])
            viols.append(dict(case=cur or "?", key=key, msg=msg, variant=v, cases=prop))
    ctr["runs_" + v] = ctr.get("runs_" + v, 0) + 1

def cut(s, mark):
    i = s.find(mark)
    return s[i:i + 2500]

def finish(a, chk, ctr, distinct, samples, viols, extra, t0):
    kf = load_findings()
    new, known = [], {}
    for v in viols:
        hit = None
        for f in kf["findings"]:
            if f["property"] == a.prop and f["key"] == v["key"] and re.search(f["case"], v["case"]) and re.search(f.get("match", ""), v["msg"]):
                hit = f; break
        if hit: known.setdefault(hit["id"], (hit, []))[1].append(v)
        else: new.append(v)
    rc = 0
    for f in kf["findings"]:
        if f["property"] == a.prop and f["id"] in known:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, f["what"]))
    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    for k, v in enumerate(new[:5]):
        rp = os.path.join(rdir, "%s-%d.json" % (a.prop, k))
        json.dump(dict(property=a.prop, seed=a.seed, tier=a.tier, case=v["case"], variant=v["variant"], key=v["key"], message=v["msg"],
                       how="python3 /verif/run.py %s --replay %s" % (a.prop, rp)), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        print("  case %s [%s] %s: %s" % (v["case"], v["variant"], v["key"], v["msg"].replace("\n", "\n    ")))
        rc = 1
    wall = time.time() - t0
    if not a.case:
        ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level="exploration", wall_s=round(wall, 2), violations=len(new),
                  assumptions=chk.get("assumptions", []),
                  coverage=dict(evaluations=ctr.get("evaluations", 0), distinct_nontrivial=len(distinct), rule=chk["rule"],
                                samples=[dict(case=c, observed=s) for c, s in samples[:: max(1, len(samples) // 12)][:12]],
                                observed=dict(sorted(ctr.items())), known_findings_seen=sorted(known), **extra))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", a.prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)
    print("%s: %d evaluations, %d distinct, %d cases, %d violations, %d known, %.1f s" % (a.prop, ctr.get("evaluations", 0), len(distinct), ctr.get("cases", 0), len(new), len(known), wall))
    return rc

if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.exit(main())
