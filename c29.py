"""C29: runs the modulus generator and monitors what it writes."""
import concurrent.futures, os, random, re, shutil, subprocess, sys, tempfile, time

BASE = 1 << 25   # largest base the generator considers
ADIC = 31        # 2-adicity the generator asks for

def prime(n):
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True

def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo

def exists(lo, hi):
    """Whether a modulus of lo..hi-1 bits exists (independent of the order of the search)."""
    k = 2
    while k < hi:
        step = 1 << -(-ADIC // k)
        b0, b1 = iroot(max((1 << max(lo - 1, 0)) - 1, 0), k), min(iroot((1 << (hi - 1)) - 1, k) + 1, BASE)
        b = (b0 + step - 1) // step * step
        while b <= b1:
            p = b ** k + 1
            if b > 1 and lo <= p.bit_length() < hi and prime(p): return True
            b += step
        k *= 2
    return False

# requests that cannot be met; each must end with a non-zero exit and write nothing
REFUSED = [["-n", "20"], ["-n", "0"], ["-n", "1"], ["-n", "abc"], ["-n", "-5"], ["-n", "100-90"], ["-n", "70-70"], ["-n", "1-2-3"], ["-n", "12x"], ["-n", "100-"], ["-n", "0-20"],
           [], ["-b", "6"], ["-k", "4"], ["-b", "0", "-k", "4"], ["-b", "15", "-k", "4"], ["-b", "7", "-k", "1"], ["-b", "8", "-k", "3"], ["-b", "28228350", "-k", "4"],
           ["-b", "28228352", "-k", "8"], ["-b", "-2", "-k", "4"], ["-b", "x", "-k", "4"], ["-b", "2", "-k", "16"], ["-b", "6", "-k", "2"], ["-b", "1", "-k", "8"], ["-b", "4294967296", "-k", "4"], ["-n", " 100"], ["-n", "1e2"], ["-n", "51"], ["-n", "25"],
           # Fermat numbers and other composites of the form b^k + 1 that pass weak tests
           ["-b", "2", "-k", "32"], ["-b", "65536", "-k", "2"], ["-b", "256", "-k", "4"], ["-b", "2", "-k", "64"], ["-b", "65536", "-k", "4"], ["-b", "2", "-k", "128"], ["-b", "65536", "-k", "16"], ["-b", "2", "-k", "512"]]

def run(a, m):
    rnd = random.Random("%s/%s" % (a.seed, a.tier))
    thorough = a.tier == "thorough"
    ctr, distinct, samples, viols, extra = {}, set(), [], [], {}
    def viol(case, key, msg): viols.append(dict(case=case, key=key, msg=msg, variant="plain", cases="C29"))
    def n(k, x=1): ctr[k] = ctr.get(k, 0) + x
    gm = m.gnark_module()
    ov = m.overlay()
    work = tempfile.mkdtemp(prefix="gen-", dir=m.BUILD)
    try:
        gen = os.path.join(work, "jindo-modulus")
        r = m.sh(["go", "build", "-o", gen, "./jindo-modulus"], cwd=m.REPO)
        if r.returncode != 0:
            sys.stderr.write(r.stderr); sys.exit(3)
        # the generator formats assembly with a program that need not be installed
        os.makedirs(os.path.join(work, "path"))
        p = os.path.join(work, "path", "asmfmt")
        open(p, "w").write("#!/bin/sh\nexit 0\n"); os.chmod(p, 0o755)
        env = m.goenv(); env["PATH"] = os.path.join(work, "path") + ":" + env["PATH"]
        mod = os.path.join(work, "mod"); os.makedirs(mod)
        gmod = open(gm).read()
        gmod = re.sub(r"(?m)^module .*$", "module gentest", gmod)
        gmod += "\nrequire github.com/sp301415/ringo-snark v0.0.0\nreplace github.com/sp301415/ringo-snark => %s\n" % m.REPO
        open(os.path.join(mod, "go.mod"), "w").write(gmod)
        shutil.copyfile(os.path.join(m.REPO, "go.sum"), os.path.join(mod, "go.sum"))

        def generate(args, pkg, limit=240):
            c = ["prlimit", "--as=8000000000", gen] + args + ["-p", pkg, "-o", mod]
            try:
                r = subprocess.run(c, env=env, cwd=mod, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
                return r.returncode, r.stdout
            except subprocess.TimeoutExpired as e:
                return None, ""

        # bit lengths: a sweep, and ranges
        lens = list(range(33, 49, 5)) + [50, 56, 62, 63, 64, 65, 75, 76, 90, 100, 101, 126, 127, 128, 129, 150, 175, 191, 192, 193, 200, 201, 240, 255, 256, 257, 300, 320, 385, 400, 401, 500, 512, 600]
        if thorough:
            lens = list(range(30, 420)) + list(range(420, 1000, 13))
        reqs = [(["-n", str(x)], x, x + 1, 0, 0) for x in lens]
        rng = [(33, 60), (51, 80), (51, 4000), (100, 101), (100, 110), (250, 260), (20, 64), (60, 61), (1, 50), (26, 40), (76, 300), (101, 102), (0, 60)]
        for _ in range(3 if not thorough else 40):
            x = rnd.randrange(30, 300); rng.append((x, x + rnd.randrange(1, 40)))
        reqs += [(["-n", "%d-%d" % x], x[0], x[1], 0, 0) for x in rng]
        # explicit bases: known primes of the form b^k + 1
        exp = []
        while len(exp) < (10 if not thorough else 60):
            k = rnd.choice([2, 4, 8, 16, 32]); b = rnd.randrange(2, min(BASE, 1 << (700 // k))) & ~1
            if rnd.random() < 0.5: b = b & ~((1 << -(-ADIC // k)) - 1)
            if b > 1 and (b ** k).bit_length() > 32 and (b ** k).bit_length() < 700 and prime(b ** k + 1) and (b, k) not in exp: exp.append((b, k))
        for bits, k in [(27, 4), (33, 2), (41, 4)] + [(rnd.randrange(26, 64), rnd.choice([2, 4, 8])) for _ in range(0 if not thorough else 20)]:   # bases beyond the limit of the search
            while True:
                b = rnd.randrange(1 << (bits - 1), 1 << bits) & ~1
                if prime(b ** k + 1): break
            exp.append((b, k))
        exp.append((1 << 16, 2) if prime((1 << 32) + 1) else (1073741836, 2))
        reqs += [(["-b", str(b), "-k", str(k)], 0, 0, b, k) for b, k in exp if prime(b ** k + 1)]
        made = {}
        def one(i):
            args, lo, hi, b, k = reqs[i]
            rc, out = generate(args, "Z%d" % i if i % 5 == 0 else "z%d" % i)
            return i, rc, out
        with concurrent.futures.ThreadPoolExecutor(max(2, m.MAXSHARDS)) as ex:
            for i, rc, out in ex.map(one, range(len(reqs))):
                args, lo, hi, b, k = reqs[i]
                case = "request " + " ".join(args)
                n("evaluations"); n("requests"); distinct.add(case)
                d = os.path.join(mod, "z%d" % i)
                can = prime(b ** k + 1) if b else exists(lo, hi)
                if rc is None:
                    viol(case, "hang", "%s: no answer within 240 s" % case)
                elif can and rc != 0:
                    viol(case, "refused", "%s: exit %d although a modulus exists: %s" % (case, rc, out[-600:]))
                elif not can and rc == 0:
                    viol(case, "written", "%s: exit 0 although no modulus exists: %s" % (case, out[-600:]))
                elif rc == 0:
                    if not os.path.exists(os.path.join(d, "element.go")):
                        viol(case, "missing", "%s: exit 0 but no package in %s" % (case, d))
                    else:
                        made[i] = args; n("packages_written")
                        # the same request gives the same modulus as it announced
                        mm = re.search(r"Using (\d+)-bit modulus: (\d+) = (\d+)\^(\d+) \+ 1", out)
                        if mm and (int(mm[2]) != int(mm[3]) ** int(mm[4]) + 1 or int(mm[2]).bit_length() != int(mm[1])):
                            viol(case, "announced", "%s: %s" % (case, mm[0]))
                        samples.append((case, out.strip().split("\n")[0][:200]))
                else:
                    n("requests_without_modulus")
            for args, (rc, out) in zip(REFUSED, ex.map(lambda i: generate(REFUSED[i], "refused%d" % i), range(len(REFUSED)))):
                case = "unusable request " + " ".join(args)
                i = REFUSED.index(args)
                n("evaluations"); n("unusable_requests"); distinct.add(case)
                if rc is None: viol(case, "hang", "%s: no answer within 240 s" % case)
                elif rc == 0: viol(case, "written", "%s: exit 0: %s" % (case, out[-600:]))
                elif os.path.exists(os.path.join(mod, "refused%d" % i, "element.go")):
                    viol(case, "leftover", "%s: wrote a package" % case)
        # another directory, and the default package name
        sub = os.path.join(mod, "deep", "er"); os.makedirs(sub)
        r = subprocess.run([gen, "-n", "64", "-o", sub], env=env, cwd=mod, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
        case = "default package name"
        n("evaluations"); distinct.add(case)
        if r.returncode != 0 or not os.path.exists(os.path.join(sub, "zp", "element.go")):
            viol(case, "missing", "exit %d, %s" % (r.returncode, sorted(os.listdir(sub))))
        elif not re.search(r"(?m)^package zp$", open(os.path.join(sub, "zp", "element.go")).read()):
            viol(case, "missing", "wrong package name")
        if a.case and a.case.split()[0] in ("request", "unusable", "default"):
            return ctr, distinct, samples, viols, extra

        # the packages are compiled into the harness
        pick = sorted(made)
        if not thorough:
            # different numbers of limbs, all explicit requests with roots of unity, some ranges
            byl = {}
            for i in pick:
                w = reqs[i][1] or (reqs[i][3] ** reqs[i][4]).bit_length()
                byl.setdefault((w + 63) // 64 if reqs[i][1] else "x%d" % (i % 4), []).append(i)
            pick = sorted({i for i in pick if reqs[i][0] == ["-n", "100"] or reqs[i][3] > BASE} | {rnd.choice(x) for x in byl.values()} | {x[0] for x in byl.values()})[-20:]
        else:
            rnd.shuffle(pick); pick = sorted(pick[:40])
        vm = os.path.join(mod, "verifmon"); os.makedirs(vm)
        for f in os.listdir(os.path.join(m.VERIF, "harness/verifmon")):
            shutil.copyfile(os.path.join(m.VERIF, "harness/verifmon", f), os.path.join(vm, f))
        imp, body = "", ""
        for i in pick:
            args, lo, hi, b, k = reqs[i]
            imp += '\tz%d "gentest/z%d"\n' % (i, i)
            body += """\tgenFields = append(genFields, genField{name: "Z", req: "REQ", lo: LO, hi: HI, b: B0, k: K0, f: mkField[*Z.Uint]("Z", Z.Modulus()),
		z: mkZp[Z.Uint, *Z.Uint, Z.Vector]("Z", Z.Modulus(), fns[Z.Uint]{Z.MulBy3, Z.MulBy5, Z.MulBy13, Z.Butterfly, Z.BatchInvert,
			func(e Z.Uint) []byte { var b [Z.Bytes]byte; Z.LittleEndian.PutElement(&b, e); return b[:] },
			func(p []byte) (Z.Uint, error) { var b [Z.Bytes]byte; copy(b[:], p); return Z.LittleEndian.Element(&b) },
			Z.NewUint, Z.One}, bignum.Exp[*Z.Uint])})
""".replace("Z.", "z%d." % i).replace('"Z"', '"z%d"' % i).replace("REQ", " ".join(args)).replace("LO", str(lo)).replace("HI", str(hi)).replace("B0", str(b)).replace("K0", str(k))
        open(os.path.join(vm, "genfields.go"), "w").write(
            "package main\n\nimport (\n\t\"github.com/sp301415/ringo-snark/math/bignum\"\n" + imp + ")\n\nfunc init() {\n" + body + "}\n")
        for variant in (["plain", "purego"] if thorough else ["plain"]):
            v = m.VARIANTS[variant]
            binp = os.path.join(work, "verifmon-" + variant)
            t0 = time.time()
            e2 = m.goenv(); e2["GOFLAGS"] = "-mod=mod"
            r = subprocess.run(["go", "build", "-overlay", ov, "-tags", v["tags"], "-o", binp] + v["flags"] + ["./verifmon"], cwd=mod, env=e2, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            extra["build_s_gen_" + variant] = round(time.time() - t0, 1)
            if r.returncode != 0:
                bad = sorted(set(re.findall(r"(?m)^(z\d+)/", r.stderr)))
                if not bad and not re.search(r"gentest/z\d+|z\d+\.", r.stderr):
                    sys.stderr.write(r.stderr[-4000:]); sys.exit(3)
                viol("build " + " ".join(" ".join(reqs[int(b[1:])][0]) for b in bad), "build", "the generated packages do not compile: " + r.stderr[-1500:])
                return ctr, distinct, samples, viols, extra
            n("packages_compiled", len(pick))
            m.run_shards(a, dict(variant=variant), "C29", binp, variant, ctr, distinct, samples, viols)
        return ctr, distinct, samples, viols, extra
    finally:
        shutil.rmtree(work)
