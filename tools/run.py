#!/usr/bin/env python3
"""Runner of the value-analysis checks: run.py PROPERTY.

Rebuilds the analyser and the library's IR from /repo's working tree, runs the analyser's obligations
for the property, writes evidence/<PROPERTY>.json and reports.
Exit 0: every obligation discharged.  Exit 1: at least one `VIOLATION property=...` line.  Exit 2: the
check itself could not run (for example /repo does not build).
"""
import concurrent.futures as cf, fnmatch, hashlib, json, os, subprocess, sys, time, glob, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
ANALYZER = os.path.join(TARGET, "analyzer/release/analyzer")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
CONFIGS = {"std": "std", "std_fma": "std,fma", "none": "", "fma": "fma"}


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_analyzer():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, "analyzer"), CARGO_NET_OFFLINE="true")
    r = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "analyzer"), env=env)
    if r.returncode or not os.path.exists(ANALYZER):
        die("the analyser does not build:\n" + r.stdout[-3000:])


def tree_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)) + [REPO + "/Cargo.toml"]
    files += sorted(glob.glob(VERIF + "/roots/**/*.rs", recursive=True)) + [VERIF + "/roots/Cargo.toml", VERIF + "/tools/irbuild.sh", VERIF + "/tools/shadow.py"]
    if not any(f.endswith("/src/lib.rs") for f in files):
        die("no sources in " + REPO)
    for f in files:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build_ir(cfg, soft=False):
    out = os.path.join(TARGET, "ir", cfg)
    stamp = os.path.join(out, "stamp")
    want = tree_hash()
    pat = out + "/debug/build/roots/*/out/roots-*.ll"
    lls = glob.glob(pat)
    if len(lls) == 1 and os.path.exists(stamp) and open(stamp).read() == want:
        return lls[0]
    for p in glob.glob(out + "/debug/build/roots/*"):
        shutil.rmtree(p, ignore_errors=True)
    for p in glob.glob(out + "/debug/build/interpn/*"):
        shutil.rmtree(p, ignore_errors=True)
    for p in glob.glob(out + "/debug/.fingerprint/*"):
        if os.path.basename(p).startswith(("roots-", "interpn-")):
            shutil.rmtree(p, ignore_errors=True)
    r = sh(["python3", os.path.join(VERIF, "tools/shadow.py"), REPO, os.path.join(TARGET, "shadow")])
    if r.returncode:
        die("shadow manifest: " + r.stdout[-2000:])
    r = sh(["bash", os.path.join(VERIF, "tools/irbuild.sh"), CONFIGS[cfg], cfg])
    lls = glob.glob(pat)
    if r.returncode or len(lls) != 1:
        if soft:
            raise RuntimeError(r.stdout)
        die(f"the library does not build to IR with features [{CONFIGS[cfg]}]:\n" + r.stdout[-4000:])
    open(stamp, "w").write(want)
    return lls[0]


def roots():
    return [l.rstrip("\n").split("|") for l in open(os.path.join(VERIF, "roots/roots.txt"))]


def expand(pats):
    """pattern[@nd,nd..] -> [(root, nd)] ; every pattern must match something"""
    rs = roots()
    jobs = []
    for p in pats:
        pat, _, nds = p.partition("@")
        hit = [r[0] for r in rs if fnmatch.fnmatch(r[0], pat)]
        if not hit:
            die("no entry point matches " + pat)
        for r in hit:
            for nd in nds.split(",") if nds else ["x"]:
                if (r, nd) not in jobs:
                    jobs.append((r, nd))
    return jobs


FIRST = [None]  # when the first violation was found (early stop)
GRACE = 60
DEADLINE = 5400 if os.environ.get("VERIF_TIER") == "thorough" else 820


def one(job, early=False, gb=4):
    ll, prop, root, nd, cap, limit = job[:6]
    soft = len(job) > 6  # a thorough-only bound: out of reach means "not explored", never an alarm
    t = time.time()
    blank = dict(root=root, nd=nd, obligations=0, regions=0, violations=[], fns=[], info={}, seconds=0.0)
    if early and FIRST[0] and t > FIRST[0] + GRACE:
        return dict(blank, skipped=True)
    if t - T0 > DEADLINE and soft:
        return dict(blank, skipped=True, unexplored=True)
    if t - T0 > DEADLINE:
        return dict(blank, violations=[f"{root}[ndims={nd}]: not analysed within {DEADLINE} s"])
    env = dict(os.environ, ROOTS_TXT=os.path.join(VERIF, "roots/roots.txt"))
    o = subprocess.Popen(["prlimit", f"--as={gb * 1000000000 if soft else 12000000000}", ANALYZER, "check", ll, prop, root, nd, str(cap)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    while True:
        try:
            out, err = o.communicate(timeout=3)
            break
        except subprocess.TimeoutExpired:
            now = time.time()
            stop = early and FIRST[0] and now > FIRST[0] + GRACE
            if stop or now - t > limit or now - T0 > DEADLINE:
                o.kill()
                o.communicate()
                if stop:
                    return dict(blank, skipped=True)
                if soft:
                    return dict(blank, skipped=True, unexplored=True, seconds=now - t)
                return dict(blank, violations=[f"{root}[ndims={nd}]: not analysable within {int(now - t)} s"], seconds=now - t)
    try:
        j = json.loads(out.strip().splitlines()[-1])
        if j["root"] != root:
            raise ValueError
    except Exception:
        if soft and o.returncode < 0:
            return dict(blank, skipped=True, unexplored=True, seconds=time.time() - t)
        j = dict(blank, violations=[f"{root}[ndims={nd}]: the analysis failed: " + (out[-200:] + err[-400:]).replace("\n", " ")], seconds=time.time() - t)
    if j["violations"] and not FIRST[0]:
        FIRST[0] = time.time()
    return j


def analyse(jobs, early=False):
    # longest first is unknown; keep the given order but start the big ones early
    def weight(j):
        r, nd = j[2], j[3]
        n = int(nd) if nd not in ("x",) else next((int(x) for x in r.split("_") if x.isdigit()), 1)
        return -((4 if "cubic" in r else 2) ** max(0, min(n, 8)) * (3 if "rect" in r else 1))
    order = sorted(range(len(jobs)), key=lambda i: weight(jobs[i]))
    res = [None] * len(jobs)
    with cf.ThreadPoolExecutor(8) as ex:
        for i, r in zip(order, ex.map(lambda j: one(j, early), [jobs[i] for i in order])):
            res[i] = r
    # thorough-only bounds that ran out of memory get another try, few at a time and with more of it
    again = [i for i in order if res[i].get("unexplored") and res[i]["seconds"] < jobs[i][5]]
    with cf.ThreadPoolExecutor(2) as ex:
        for i, r in zip(again, ex.map(lambda j: one(j, early, 14), [jobs[i] for i in again])):
            res[i] = r
    return res


# --------------------------------------------------------------------------- known findings
def known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d.get("status") == "open":
                    out.append(d)
    return out


def finish(prop, level, coverage, violations, assumptions):
    ks = [k for k in known() if k["property"] == prop]
    news, olds = [], []
    for v in violations:
        k = next((k for k in ks if k["key"] in v), None)
        (olds if k else news).append((v, k))
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=coverage, assumptions=assumptions, wall_s=round(time.time() - T0, 2), violations=len(news))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    if news:
        ev["coverage"]["violations_found"] = [v for v, _ in news][:40]
    open(path, "w").write(json.dumps(ev, indent=1) + "\n")
    for k in {id(k): k for _, k in olds}.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if news:
        for v, _ in news[:12]:
            print(f"VIOLATION property={prop} replay=evidence/{prop}.json  {v[:900]}")
        if len(news) > 12:
            print(f"... and {len(news) - 12} more")
        sys.exit(1)
    print(f"OK property={prop}: {coverage.get('discharged', '')} obligations discharged in {ev['wall_s']} s")
    sys.exit(0)


TRUST = ["rustc's lowering of the library to LLVM IR (nightly, -C no-prepopulate-passes)", "the analyser's model of LLVM IR and of the core/num-traits functions it treats as primitives", "identity of rational functions is decided by evaluation in the field of order 2^61-1 at fixed pseudo-random points (Schwartz-Zippel)"]


def value_cov(res, rule, extra=None):
    fns = sorted({f for r in res for f in r["fns"] if "interpn::" in f or f.startswith("<interpn") or "/src/" in f})
    un = [f"{r['root']}[{r['nd']}]" for r in res if r.get("unexplored")]
    res = [r for r in res if not r.get("unexplored")]
    ob = sum(r["obligations"] for r in res)
    c = dict(explanation=rule, obligations=ob, discharged=ob - sum(len(r["violations"]) for r in res), entry_points=len({r["root"] for r in res}), entry_point_instances=len(res), regions=sum(r["regions"] for r in res), library_functions=len(fns), functions=fns[:400],
             slowest=[[r["root"], r["nd"], round(r["seconds"], 1)] for r in sorted(res, key=lambda r: -r["seconds"])[:5]], checker_cmd="python3 tools/run.py (analyzer check IR PROPERTY ENTRY_POINT)", trusted_base=TRUST,
             samples=[f"{r['root']}[{r['nd']}]: {r['obligations']} obligations, {r['regions']} regions" for r in res[:3]])
    if un:
        c["not_explored_within_limits"] = un
    if extra:
        c.update(extra)
    return c


NDX = "0,1,2,3,4,5,6,7,8,9,10"
T = TIER == "thorough"
FLOOR = {}

# property -> (analyser check, [(config, pattern@nds, cap)], rule)
def table(prop):
    q = {
        "C01": [("panic", ["one_*_flat_*", "one_1d*", "bat_*_flat_*", "bat_1d*", "at_*", "idx_*", "new_1d*", "one_*_rec_8_*@0,1,2,3", "one_*_rec_3_*@2,3,4", "bat_linear_*_rec_8_*@0,1,2,3,4,5,6,7,8,9,10", "bat_cubic_*_rec_8_*@0,1,2,3,9,10", "bat_*_rec_3_*@0,1,2,3,4", "fn_linear_*@0,1,3,5,6,7,8,9", "fn_nearest_*@0,1,3,5,6,7,9", "fn_cubic_*@0,1,2,3,9", "alloc_[cln]*@0,1,2,9", "alloc_1d*", "cb_*@0,1,2,3,8"], 20, "no call of a panicking function is feasible on any path from the entry point")],
        "C02": [("grid", ["new_*_flat_*", "new_1d*", "new_*_rec_8_*@0,1,2,3,4,5,6,7,8,9,10", "new_*_rec_3_*@0,1,3,4", "fn_linear_*_f@0,1,2,3,4,5,6,7,8,9", "fn_nearest_*_f@0,1,2,3,4,5,6,7,8", "fn_cubic_*_f@0,1,2,3,4,5,6,7,8,9"], 20, "the result is Ok under all acceptance conditions and Err when any one of them fails")],
        "C03": [("batch", ["bat_*_flat_*", "bat_1d*", "bat_*_rec_8_*@1,2,3,4,5,6,7,8", "bat_*_rec_3_*@1,2,3", "one_*_rec_8_*@1,2,3,4,5,6,7,8", "fn_[l]*_f@1,2,3,5,6,7,8", "fn_n*_f@1,2,3,4,5,6", "fn_c*_f@1,2,3,5,6,7,8", "cb_*_f@1,2,3,8"], 20, "batch length conditions decide success; no output write is feasible without them")],
        "C04": [("point", ["bat_linear_*_flat_*", "bat_nearest_*_flat_*", "bat_1d*"], 100, "every output element is written on success, by a value depending on its own point only and equal to single-point evaluation"), ("point", ["bat_cubic_*_flat_*", "bat_*_rec_8_*@1,2,3", "bat_linear_*_rec_8_f@4,5,6,7,8", "bat_cubic_*_rec_8_f@4", "bat_*_rec_3_*@1,2,3", "fn_linear_*_f@1,2,3,4,5,6,7,8", "fn_nearest_*_f@1,2,3,4,5,6", "fn_cubic_*_f@1,2,3,4", "fn_*_flat_g@2", "alloc_[cln]*@1,2,3", "alloc_1d*"], 9, "every output element is written on success, by a value depending on its own point only and equal to single-point evaluation")],
        "C05": [("reads", ["one_linear_*_flat_*", "one_cubic_*_flat_*", "one_nearest_*", "one_linear_*_rec_8_*@1,2,3,4,5,6,7,8", "one_cubic_*_rec_8_*@1,2,3,4", "one_cubic_*_rec_8_f@5", "one_*_rec_3_*@3", "one_1d*"], 150, "in every region the value array is read only at C-order offsets of the containing cell's footprint")],
        "C06": [("val", ["one_linear_*_flat_*", "one_linear_*_rec_8_f@1,2,3,4,5,6,7,8", "one_linear_*_rec_8_g@2,3", "one_linear_*_rec_3_*@1,2,3"], 216, "in every region the value equals the tensor-product linear interpolant as a rational function")],
        "C07": [("val", ["one_cubic_*_flat_*", "one_cubic_*_rec_8_f@1,2,3,4,5", "one_cubic_*_rec_8_g@2", "one_cubic_*_rec_3_*@1,2,3"], 150, "in every interior region the value equals the tensor-product cubic Hermite interpolant as a rational function")],
        "C09": [("val", ["one_nearest_*"], 512, "in every region the value is the stored value of the closest grid point")],
        "C10": [("sample", ["at_*", "idx_*"], 20, "in every region the sample's points, values and flag are those of the containing cell")],
        "C11": [("val", ["one_1d*"], 20, "in every region the value equals the documented 1-D rule as a rational function")],
        "C14": [("bounds", ["cb_*_f@1,2,3,4", "cb_*_g@2", "cb_*_f@0,9"], 20, "each flag equals the documented comparison for every class of coordinate")],
        "C17": [("prec", ["one_*_flat_*_f", "one_1d*_f", "one_linear_*_rec_8_f@1,2,3", "one_cubic_*_rec_8_f@1,2,3", "bat_*_flat_[123]_f", "bat_1d*_f"], 20, "no value on the way to a double-precision result passes through single precision or an integer other than the cell index; constants are exact")],
        "C18": [("repr", ["one_*_reg_flat_*", "one_*_rect_flat_*", "bat_*_flat_*", "one_1d*", "bat_1d*", "one_*_rec_8_*@1,2,3,4,5,6,7,8", "bat_*_rec_8_f@2,5,8", "fn_[lc]*_reg_*_f@1,2,3,5,8", "fn_n*_reg_*_f@1,2,3"], 20, "an unrepresentable cell number in any dimension is an Err; every other coordinate evaluates without error")],
    }
    q["C08"] = [("val",) + q["C07"][0][1:2] + (1000, "in every edge-cell and extrapolation region the value equals the tensor product of the documented one-dimensional rules as a rational function")]
    if T:
        # thorough: further dimension counts and more regions of each
        deep = {
            "C04": [("bat_linear_*_rec_8_*@4,5,6,7,8", 30), ("bat_cubic_*_rec_8_*@4,5", 8), ("bat_cubic_*_rec_8_f@6", 3), ("fn_cubic_*_f@5", 8), ("fn_cubic_*_f@6", 3)],
            "C05": [("one_cubic_*_rec_8_*@5,6", 10), ("one_cubic_*_rec_8_f@7", 3), ("one_linear_*_flat_*", 60), ("one_linear_*_rec_8_*@1,2,3,4,5,6", 60)],
            "C06": [("one_linear_*_rec_8_*@1,2,3,4,5,6,7,8", 400), ("one_linear_*_flat_*", 400)],
            "C07": [("one_cubic_*_rec_8_*@4,5", 80), ("one_cubic_*_rec_8_*@6", 12), ("one_cubic_*_rec_8_f@7", 4), ("one_cubic_*_flat_*", 200)],
            "C09": [("one_nearest_*", 800)],
            "C17": [("one_*_rec_8_f@4,5,6", 20), ("one_linear_*_rec_8_f@7,8", 20), ("bat_*_flat_[456]_f", 20), ("bat_*_rec_8_f@1,2,3", 20)],
            "C18": [("bat_*_rec_8_*@1,2,3,4,5,6,7,8", 20), ("fn_*_reg_*@1,2,3,4,5,6", 20)],
            "C02": [("fn_*_g@1,2,3,4,5,6,7,8,9,10", 20)],
            "C03": [("fn_*_g@1,2,3,4,5,6", 20), ("cb_*@1,2,3,4,5,6,7,8", 20)],
            "C14": [("cb_*@0,1,2,3,4,5,6,7,8", 20)],
        }
        deep["C08"] = deep["C07"]
        first = q[prop][0]
        for pat, cap in deep.get(prop, []):
            q[prop].append((first[0], [pat], cap, first[3], "soft"))
    return q[prop]


def values(prop):
    ll = build_ir("std")
    jobs = []
    rules = []
    for check, pats, cap, rule, *soft in table(prop):
        if rule not in rules:
            rules.append(rule)
        for root, nd in expand(pats):
            if bad_combo(root, nd, check):
                continue
            jobs.append((ll, {"C07": "val7", "C08": "val8"}.get(prop, check), root, nd, cap, 600 if T else 300, *soft))
    res = analyse(jobs, early=True)
    viol = [v for r in res for v in r["violations"]]
    for r in res:
        if r["obligations"] == 0 and not r["violations"] and not r.get("skipped"):
            viol.append(f"{r['root']}[{r['nd']}]: no obligation was generated")
    finish(prop, "other", value_cov(res, "; ".join(rules)), viol, ASSUME.get(prop, []) + ["exact (real-number) arithmetic for value comparisons; NaN and infinities only where a condition names them"])


def bad_combo(root, nd, check):
    return False


ASSUME = {}


def norm(violations):
    """violated acceptance conditions, without the entry point's name or the implementation's expressions"""
    out = set()
    for v in violations:
        t = v.split(": ", 1)[1] if ": " in v else v
        if t.startswith("refuses"):
            t = "refuses valid input"
        out.add(t.split(" (write happens")[0])
    return out


def img_diff(a, b, la, lb):
    """regions in which two entry points have different images"""
    out = []
    ka, kb = set(a["info"]), set(b["info"])
    out += [f"{la}: {v.split(': ', 1)[-1]}" for v in a["violations"]] + [f"{lb}: {v.split(': ', 1)[-1]}" for v in b["violations"]]
    if out:
        return out, 0
    if ka != kb or not ka:
        return [f"{la} and {lb}: analysed in different regions"], 0
    for k in a["info"]:
        x, y = a["info"][k], b["info"][k]
        if "," in x or x.startswith("error"):
            out.append(f"{la}: region [{k}]: {x[:300]}")
        elif "," in y or y.startswith("error"):
            out.append(f"{lb}: region [{k}]: {y[:300]}")
        elif x != y:
            out.append(f"{la} and {lb} compute different functions in region [{k}]")
    return out, len(ka)


def siblings():
    """C12: flattened = recursive = convenience function, per method, grid kind and dimension count"""
    ll = build_ir("std")
    pairs = []  # (left, right, nd)
    for g in ("reg", "rect"):
        for n in range(1, 7):
            pairs.append(((f"one_linear_{g}_flat_{n}_f", "x"), (f"one_linear_{g}_rec_8_f", str(n)), 216))
        for n in range(1, 5):
            pairs.append(((f"one_cubic_{g}_flat_{n}_f", "x"), (f"one_cubic_{g}_rec_8_f", str(n)), 150))
        for m in ("linear", "cubic"):
            pairs.append(((f"one_{m}_{g}_flat_2_g", "x"), (f"one_{m}_{g}_rec_8_g", "2"), 60))
        for sh_ in ("flat", "rec"):
            for n in range(1, 9):
                pairs.append(((f"fn_linear_{g}_{sh_}_f", str(n)), (f"one_linear_{g}_rec_8_f", str(n)), 60))
            for n in range(1, (7 if T else 5)):
                pairs.append(((f"fn_cubic_{g}_{sh_}_f", str(n)), (f"one_cubic_{g}_rec_8_f", str(n)), 150 if n < 4 else 30))
            for m in ("linear", "cubic"):
                pairs.append(((f"fn_{m}_{g}_{sh_}_g", "2"), (f"one_{m}_{g}_rec_8_g", "2"), 30))
        for n in range(1, 7):
            pairs.append(((f"fn_nearest_{g}_flat_f", str(n)), (f"one_nearest_{g}_flat_{n}_f", "x"), 100))
    names = {r[0] for r in roots()}
    need = {}
    for a, b, cap in pairs:
        for k in (a, b):
            if k[0] not in names:
                die("no entry point " + k[0])
            need[("img",) + k + (cap,)] = None
    acc = []  # acceptance: (left, right)
    for g in ("reg", "rect"):
        for m, mx in (("linear", 6), ("cubic", 4)):
            for n in range(1, mx + 1):
                acc.append(((f"bat_{m}_{g}_flat_{n}_f", "x"), (f"bat_{m}_{g}_rec_8_f", str(n))))
        for sh_ in ("flat", "rec"):
            for m, mx in (("linear", 6), ("cubic", 3)):
                for n in range(1, mx + 1):
                    acc.append(((f"fn_{m}_{g}_{sh_}_f", str(n)), (f"bat_{m}_{g}_rec_8_f", str(n))))
        for n in range(1, 7):
            acc.append(((f"fn_nearest_{g}_flat_f", str(n)), (f"bat_nearest_{g}_flat_{n}_f", "x")))
    for a, b in acc:
        for k in (a, b):
            for c in ("grid", "batch", "repr"):
                need[(c,) + k + (20,)] = None
    # more dimensions: the arguments that reach the recursive evaluation
    disp = []
    for g in ("reg", "rect"):
        for sh_ in ("flat", "rec"):
            for n in range(5, 9):
                a, bs = (f"fn_cubic_{g}_{sh_}_f", str(n)), [(f"bat_cubic_{g}_rec_{k}_f", str(n)) for k in sorted({n, 8})]
                disp.append((a, bs))
                for k in [a] + bs:
                    need[("imgo",) + k + (6,)] = None
    over = []
    for r in roots():
        if r[0].startswith("fn_"):
            for nd in ("0", "7", "8", "9", "10") if "nearest" in r[0] else ("0", "9", "10"):
                over.append(("grid", r[0], nd, 20))
                need[over[-1]] = None
    # the highest supported counts must be accepted
    full = []
    for r in roots():
        if r[0].startswith("fn_") and r[0].endswith("_f"):
            for nd in ("6",) if "nearest" in r[0] else ("5", "6", "7", "8"):
                full.append(("accept", r[0], nd, 20))
                need[full[-1]] = None
    keys = list(need)
    for k, r in zip(keys, analyse([(ll, k[0], k[1], k[2], k[3], 600 if T else 300) for k in keys])):
        need[k] = r
    viol, regions = [], 0
    for a, b, cap in pairs:
        d, n = img_diff(need[("img",) + a + (cap,)], need[("img",) + b + (cap,)], f"{a[0]}[{a[1]}]", f"{b[0]}[{b[1]}]")
        viol += d
        regions += n
    flows = skipped = 0
    for a, bs in disp:
        x = need[("imgo",) + a + (6,)]
        ys = [need[("imgo",) + b + (6,)] for b in bs]
        viol += x["violations"] + [v for y in ys for v in y["violations"]]
        ys = [y for y in ys if y["info"].get("@callee") == x["info"].get("@callee") != ""]
        if not ys:
            skipped += 1
            continue
        if any(set(y["info"]) != set(x["info"]) for y in ys):
            viol.append(f"{a[0]}[{a[1]}]: analysed in other regions than its interpolator")
            continue
        flows += len(x["info"])
        bad = [[k for k in x["info"] if x["info"][k] != y["info"][k] or "," in x["info"][k] or x["info"][k].startswith("error")] for y in ys]
        bad = [[k for k in b if k != "@callee"] for b in bad]
        if all(bad):
            viol.append(f"{a[0]}[{a[1]}] hands other data to {x['info']['@callee']} than the interpolator built from its own grid, values and flags, in region [{bad[0][0]}]")
    cmp_ = 0
    for a, b in acc:
        for c in ("grid", "batch", "repr"):
            x, y = norm(need[(c,) + a + (20,)]["violations"]), norm(need[(c,) + b + (20,)]["violations"])
            if "flat" in a[0] and a[0].startswith("bat") or "flat" in b[0] and b[0].startswith("bat"):
                x = {v for v in x if "per dimension" not in v}
                y = {v for v in y if "per dimension" not in v}
            cmp_ += 1
            if x != y:
                viol.append(f"{a[0]}[{a[1]}] and {b[0]}[{b[1]}] accept different inputs: {sorted(x ^ y)[0][:400]}")
    for k in over + full:
        viol += need[k]["violations"]
    res = list(need.values())
    for r in res:
        if r["obligations"] == 0 and not r["violations"]:
            viol.append(f"{r['root']}[{r['nd']}]: no obligation was generated")
    cov = value_cov(res, "sibling implementations have the same image in every region and the same violated acceptance conditions (none on the unchanged tree); unsupported dimension counts are Err and the highest supported ones are accepted",
                    dict(sibling_pairs=len(pairs), regions_compared=regions, acceptance_comparisons=cmp_, argument_flows_compared=flows, argument_flows_not_comparable=skipped, dispatch_limits=len(over)))
    cov["obligations"] = regions + flows + cmp_ + len(over) + len(full)
    cov["discharged"] = cov["obligations"] - len(viol)
    finish("C12", "other", cov, viol, ["exact (real-number) arithmetic"])


def configs():
    """C13: the same entry point in the four feature configurations"""
    with cf.ThreadPoolExecutor(4) as ex:
        lls = dict(zip(CONFIGS, ex.map(build_ir, CONFIGS)))
    pats = ["one_linear_*_flat_*", "one_nearest_*", "one_cubic_*_flat_[1234]_*", "one_linear_*_rec_8_*@1,2,3,4", "one_cubic_*_rec_8_*@1,2,3", "one_1d*", "fn_*_f@2,3", "at_*"]
    if T:
        pats += ["one_linear_*_rec_8_f@5,6,7,8", "one_cubic_*_rec_8_f@4,5", "bat_*_flat_*"]
    jobs, keys = [], []
    for cfg, ll in lls.items():
        for root, nd in expand(pats):
            if root.startswith("at_"):
                cs = [("sample", 20)]
            elif "1d" in root:
                cs = [("img", 30), ("repr", 20)]
            else:
                n = int(nd) if nd != "x" else int(next(x for x in root.split("_") if x.isdigit()))
                cs = [("img", (150 if n < 4 else 30) if "cubic" in root else 100)]
                if n <= 3:
                    cs += [("repr", 20)]
            for c, cap in cs:
                keys.append((cfg, c, root, nd))
                jobs.append((ll, c, root, nd, cap, 600 if T else 300))
        for root, nd in expand(["new_*_flat_*", "new_1d*", "new_*_rec_8_*@1,3,8", "bat_*_flat_[123]_*", "bat_1d*", "cb_*@2"]):
            for c in ["grid"] if root.startswith("new") else ["batch"]:
                if root.startswith("cb_"):
                    c = "bounds"
                keys.append((cfg, c, root, nd))
                jobs.append((ll, c, root, nd, 20, 300))
    res = dict(zip(keys, analyse(jobs)))
    viol, n, m = [], 0, 0
    for (cfg, c, root, nd), r in res.items():
        if cfg == "std":
            continue
        b = res[("std", c, root, nd)]
        la, lb = f"{root}[{nd}] with features [{CONFIGS[cfg]}]", f"{root}[{nd}] with features [{CONFIGS['std']}]"
        if c == "img":
            d, k = img_diff(r, b, la, lb)
            viol += d
            n += k
        else:
            m += 1
            x, y = norm(r["violations"]), norm(b["violations"])
            if x != y:
                viol.append(f"{la} and {lb} differ in the inputs they accept: {sorted(x ^ y)[0][:400]}")
        if r["obligations"] == 0 and not r["violations"]:
            viol.append(f"{la}: no obligation was generated")
    cov = value_cov(list(res.values()), "each entry point has the same image in every region and the same violated acceptance conditions (none on the unchanged tree) in all four feature configurations",
                    dict(configurations=list(CONFIGS.values()), regions_compared=n, acceptance_comparisons=m))
    cov["obligations"] = n + m
    cov["discharged"] = n + m - len(viol)
    finish("C13", "other", cov, viol, ["exact (real-number) arithmetic: fma(a,b,c) = a*b+c"])

def effects():
    """C15: call graph closure of every non-allocating entry point; recursion depth; crates of the no-std build"""
    ll = build_ir("std")
    rs = [r[0] for r in roots()]
    sel = [r for r in rs if not r.startswith("alloc_")]
    res, viol = [], []
    configs_ = {"std": ll}
    for c in ("none", "fma", "std_fma") if T else ("none",):
        try:
            configs_[c] = build_ir(c, soft=True)
        except RuntimeError as e:
            viol.append(f"the crate does not build with features [{CONFIGS[c]}]: {str(e)[-600:]}")
    for c, l in configs_.items():
        part = [p for p in sel]
        names = set(l2.split("(")[0].rsplit("@", 1)[1] for l2 in open(l) if l2.startswith("define") and "@" in l2.split("(")[0])
        if c != "std":
            part = [p for p in part if p in names]
        chunks = [part[i::8] for i in range(8)]
        with cf.ThreadPoolExecutor(8) as ex:
            for o in ex.map(lambda ch: subprocess.run([ANALYZER, "effects", l, ",".join(ch)], capture_output=True, text=True), chunks):
                if o.returncode:
                    die("effects: " + o.stderr[-500:])
                for line in o.stdout.splitlines():
                    j = json.loads(line)
                    if c != "std":
                        j["violations"] = [v + f" (features [{CONFIGS[c]}])" for v in j["violations"]]
                    res.append(j)
        if len(part) < (200 if c == "std" else 180):
            viol.append(f"only {len(part)} entry points analysed with features [{CONFIGS[c]}]")
    # a rule that must match: the allocating variants reach the allocator
    o = subprocess.run([ANALYZER, "effects", ll, "alloc_linear_reg_flat_f"], capture_output=True, text=True)
    if "__rust_alloc" not in o.stdout:
        die("the effect rule does not recognise the allocator any more")
    # recursion depth
    jobs = [(ll, "rec", r, nd, 10, 300) for r, nd in expand(["one_linear_*_rec_8_f@1,2,3,4,5,6", "one_cubic_*_rec_8_f@1,2,3", "one_*_rec_3_*@2,3", "one_*_flat_3_f", "fn_*_f@2,3"])]
    deep = analyse(jobs)
    # crates the no-std build depends on
    dep = 0
    for c in ("none", "fma"):
        if c not in configs_:
            continue
        ms = glob.glob(os.path.join(TARGET, "ir", c, "debug/build/interpn/*/out/libinterpn-*.rmeta")) + glob.glob(os.path.join(TARGET, "ir", c, "debug/deps/libinterpn-*.rmeta"))
        if len(ms) != 1:
            die("no unique no-std library")
        o = sh(["rustc", "+nightly", "-Zls=root", ms[0]])
        crates = [l.split()[1].rsplit("-", 1)[0] for l in o.stdout.splitlines() if l[:1].isdigit()]
        if "core" not in crates:
            die("cannot read the dependencies of the no-std library")
        dep += len(crates)
        for x in ("std", "alloc"):
            if x in crates:
                viol.append(f"the library built with features [{CONFIGS[c]}] depends on {x}")
    for r in res + deep:
        viol += r["violations"]
    cov = value_cov(res + deep, "closure of everything referenced from an entry point: no allocator, OS or other external function, no mutable or thread-local global, no atomic, volatile or assembly operation; recursion depth at most dimensions + 1 frames; the no-std build depends on neither std nor alloc",
                    dict(call_sites=sum(r["obligations"] for r in res), nostd_dependencies=dep, recursive_functions=sorted({r["info"].get("recursive", "") for r in res} - {""})[:12]))
    finish("C15", "other", cov, viol, ["panic paths (excluded by C01) may format their message"])


def build_py_ir():
    """IR of the library with its Python bindings, against the models in pystub/"""
    out = os.path.join(TARGET, "ir", "py")
    stamp = os.path.join(out, "stamp")
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)) + [REPO + "/Cargo.toml"] + sorted(glob.glob(VERIF + "/pystub/**/*.rs", recursive=True)) + [VERIF + "/tools/pyirbuild.sh", VERIF + "/tools/shadow.py"]:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    want = h.hexdigest()
    pat = out + "/debug/build/interpn/*/out/interpn-*.ll"
    lls = glob.glob(pat)
    if len(lls) == 1 and os.path.exists(stamp) and open(stamp).read() == want:
        return lls[0]
    for p in glob.glob(out + "/debug/build/interpn/*"):
        shutil.rmtree(p, ignore_errors=True)
    for p in glob.glob(out + "/debug/.fingerprint/interpn-*"):
        shutil.rmtree(p, ignore_errors=True)
    sd = os.path.join(TARGET, "pyshadow")
    r = sh(["python3", os.path.join(VERIF, "tools/shadow.py"), REPO, sd, os.path.join(VERIF, "pystub")])
    if r.returncode:
        die("shadow manifest: " + r.stdout[-2000:])
    if not os.path.exists(sd + "/Cargo.lock"):
        shutil.copy(os.path.join(VERIF, "pystub/Cargo.lock"), sd)
    r = sh(["bash", os.path.join(VERIF, "tools/pyirbuild.sh"), "py"])
    lls = glob.glob(pat)
    if r.returncode or len(lls) != 1:
        die("the library does not build with its Python bindings (against the models of pyo3 and numpy):\n" + r.stdout[-4000:])
    open(stamp, "w").write(want)
    return lls[0]


RAWS = [f"{k}_{g}_{t}" for k in ("interpn_linear", "interpn_cubic", "interpn_nearest", "check_bounds") for g in ("regular", "rectilinear") for t in ("f64", "f32")]


def binding(prop):
    """C19, C20: every raw function, for every number of arrays in each list, contiguity and borrow state open"""
    import itertools, re
    ll = build_py_ir()
    text = []
    names = []
    for l in open(ll, errors="replace"):
        if l.startswith("define"):
            break
        m = re.match(r'@py_sig_(\w+) = .*c"([^"]*)"', l)
        if m:
            names.append(m[1])
            ps = [p.split(":") for p in m[2].split(";")]
            ss = [i for i, p in enumerate(ps) if p[0] == "SS"]
            for c in itertools.product([*range(1, 10), -10], repeat=len(ss)):
                q = [list(p) for p in ps]
                for i, n in zip(ss, c):
                    q[i][3] = str(n)
                text.append(f"py_root_{m[1]}|py|py|py|py|0|{'g' if m[1].endswith('32') else 'f'}|" + ";".join(":".join(p) for p in q))
    rt = os.path.join(TARGET, "pyroots.txt")
    open(rt, "w").write("\n".join(text) + "\n")
    viol = [f"call: there is no raw function {n}" for n in RAWS if n not in names]
    res = []
    chunks = [names[i::8] for i in range(8)]
    env = dict(os.environ, ROOTS_TXT=rt)
    with cf.ThreadPoolExecutor(8) as ex:
        for o in ex.map(lambda ch: subprocess.run([ANALYZER, "check", ll, "py", ",".join("py_root_" + n for n in ch)], capture_output=True, text=True, env=env, timeout=800), [c for c in chunks if c]):
            if o.returncode:
                die("analyser: " + o.stderr[-500:])
            res += [json.loads(l) for l in o.stdout.splitlines()]
    if len(res) != len(text):
        die(f"{len(res)} of {len(text)} instances analysed")
    want = {"C19": "call: ", "C20": "panic: "}[prop]
    for r in res:
        r["violations"] = [v[len(want):] for v in r["violations"] if v.startswith(want)]
        viol += [v for v in r["violations"]]
    viol = [v[len(want):] if v.startswith(want) else v for v in viol if want == "call: " or not v.startswith("call: ")]
    rule = {"C19": "the one library call reachable in a raw function is the one it is named after, every argument (array pointers and lengths element by element) is the parameter of that name, the result is success exactly when that call's is, and otherwise AssertionError with its message", "C20": "no call of a panicking function is feasible in the binding layer for any count, length, contiguity or borrow state of the arrays; success requires every array to be contiguous, the output to be borrowable and at most eight arrays in each list"}[prop]
    finish(prop, "other", value_cov(res, rule, dict(raw_functions=sorted(names))), viol, ["the models of pyo3 and numpy in pystub/ (arrays are pointer and length; contiguity and borrow state open; exceptions a kind and a message)", "the library functions behind the boundary do not panic (C01)"])


if __name__ == "__main__":
    prop = sys.argv[1]
    build_analyzer()
    if prop == "C12":
        siblings()
    elif prop == "C15":
        effects()
    elif prop == "C13":
        configs()
    elif prop in ("C19", "C20"):
        binding(prop)
    else:
        values(prop)
