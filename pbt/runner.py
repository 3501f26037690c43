"""Generated-input search for one property: cases -> oracle -> shrink -> replay file -> verdict and evidence.

A check module registers Check objects. A case is plain JSON, made from (VERIF_SEED, property, index) only, so every case of
every run can be made again. A violation is only reported after it has been reproduced from its shrunk JSON."""
import hashlib, json, multiprocessing as mp, os, random, sys, time, traceback, collections, copy
import build
from server import ServerDied, Inconclusive, Hang
from world import Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}
# kinds of divergence that are another property's business; that property's check reports them
OWNED = {"oversize": {"D07"}, "alias": {"D06"}, "pid-reuse": {"D03"}, "receive-max": {"D03"}, "order": {"R03"}}


class Check:
    def __init__(self, pid, gen, run, n_quick, n_thorough, rule, nontrivial, variants=("rel",), technique="", note="", cap=100, confirm=(3, 2),
                 shrink=None, jobs=None, assumptions=(), thorough_cap=780, fixed=None, shrink_s=40):
        self.pid, self.gen, self.run, self.n_quick, self.n_thorough = pid, gen, run, n_quick, n_thorough
        self.rule, self.nontrivial, self.variants, self.cap, self.confirm = rule, nontrivial, variants, cap, confirm
        self.technique, self.note, self.shrink_fn, self.jobs, self.assumptions = technique, note, shrink, jobs, list(assumptions)
        self.thorough_cap, self.fixed, self.shrink_s = thorough_cap, fixed, shrink_s
        CHECKS[pid] = self


def case_seed(seed, pid, i):
    return int.from_bytes(hashlib.sha256(("%s:%s:%s" % (seed, pid, i)).encode()).digest()[:8], "big")


def make_case(ck, seed, i):
    if ck.fixed and i < len(ck.fixed):
        return copy.deepcopy(ck.fixed[i])
    return ck.gen(random.Random(case_seed(seed, ck.pid, i)), i)


def execute(ck, exes, case):
    """-> (status, detail, stats): 'ok', 'bad', 'foreign', 'unclear'"""
    stats = {}
    try:
        r = ck.run(exes, case, stats)
        if r: stats.update(r)
        return "ok", "", stats
    except Violation as e:
        if ck.pid not in OWNED.get(e.kind, {ck.pid}):
            return "foreign", str(e), stats
        return "bad", str(e), stats
    except ServerDied as e:
        return "bad", "server died: " + str(e), stats
    except Hang as e:
        return "hang", str(e), stats
    except Inconclusive as e:
        return "unclear", str(e), stats


def steady(ck, exes, case):
    """As execute, but a hang is only believed when it comes again."""
    s, d, st = execute(ck, exes, case)
    if s == "hang":
        for _ in range(2):
            s2, d2, st2 = execute(ck, exes, case)
            if s2 != "hang": return s2, d2, st2
        return "bad", "hang: " + d, st
    return s, d, st


def worker(ck, exes, seed, n, nxt, stop, out, deadline):
    os.environ["PYTHONHASHSEED"] = "0"
    while not stop.is_set() and time.monotonic() < deadline:
        with nxt.get_lock():
            i = nxt.value
            if i >= n: break
            nxt.value += 1
        t = time.monotonic()
        case = None
        try:
            case = make_case(ck, seed, i)
            s, d, st = steady(ck, exes, case)
            nt = bool(s == "ok" and ck.nontrivial(case, st))
        except Exception:
            s, d, st, nt = "error", traceback.format_exc(), {}, False
        h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
        out.put((i, s, d, {k: v for k, v in st.items() if isinstance(v, (int, float))}, nt, h, time.monotonic() - t, st.get("sample")))
    out.put(None)


def ddmin_list(items, test, deadline):
    n = max(1, len(items) // 2)
    while True:
        i = 0
        changed = False
        while i < len(items):
            if time.monotonic() > deadline: return items
            cand = items[:i] + items[i + n:]
            if test(cand):
                items = cand
                changed = True
            else:
                i += n
        if n == 1 and not changed: return items
        n = max(1, n // 2)


def shrink_case(ck, exes, case, limit):
    deadline = time.monotonic() + limit

    def fails(c):
        try:
            return any(steady(ck, exes, c)[0] == "bad" for _ in range(6 if c.get("racy") else 1))
        except Exception:
            return False
    if ck.shrink_fn:
        return ck.shrink_fn(case, fails, deadline)
    for key in ("ops", "items", "steps", "pubs", "subs"):
        if isinstance(case.get(key), list):
            def with_key(l, key=key):
                c = dict(case); c[key] = l
                return c
            case = with_key(ddmin_list(case[key], lambda l: fails(with_key(l)), deadline))
    if case.get("threads", 1) > 1:
        c = dict(case, threads=1)
        if fails(c): case = c
    # smaller operations
    for key in ("ops",):
        for i in range(len(case.get(key, []))):
            op = case[key][i]
            if not isinstance(op, dict): continue
            for f in [k for k in op if k not in ("o", "k")]:
                if time.monotonic() > deadline: return case
                if isinstance(op[f], list) and len(op[f]) > 1 and f in ("subs", "msgs", "fs"):
                    for j in reversed(range(len(op[f]))):
                        if len(op[f]) == 1: break
                        o2 = dict(op); o2[f] = op[f][:j] + op[f][j + 1:]
                        c = dict(case); c[key] = case[key][:i] + [o2] + case[key][i + 1:]
                        if fails(c): case, op = c, o2
                elif f in ("props", "sid", "rm", "mp", "am", "exp", "al", "al_only", "hold", "will", "r", "down", "ka"):
                    o2 = {k: v for k, v in op.items() if k != f}
                    c = dict(case); c[key] = case[key][:i] + [o2] + case[key][i + 1:]
                    if fails(c): case, op = c, o2
    return case


def load_known():
    out = []
    try:
        for l in open(VERIF + "/known_findings.txt"):
            l = l.strip()
            if l.startswith("known:"):
                out.append(dict(x.split("=", 1) for x in l[6:].strip().split(" ", 2)[:2]) | {"text": l[6:].strip().split(" ", 2)[2]})
    except OSError:
        pass
    return out


def main(argv):
    pid = argv[0]
    ck = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    try:
        exes = {v: build.build_server(v) if not callable(v) else v() for v in ck.variants}
        for v in list(exes):
            if callable(v): exes[v.__name__] = exes.pop(v)
    except build.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    if "--replay" in argv:
        case = json.load(open(argv[argv.index("--replay") + 1]))
        case = case.get("case", case)
        for _ in range(40 if case.get("racy") else ck.confirm[0]):
            s, d, st = steady(ck, exes, case)
            if s == "bad" or not case.get("racy"): print(s, d)
            if s == "bad":
                print("VIOLATION property=%s replay=%s" % (pid, argv[argv.index("--replay") + 1]))
                return 1
        return 0
    if "--case" in argv:
        i = int(argv[argv.index("--case") + 1])
        case = make_case(ck, seed, i)
        print(json.dumps(case))
        print(steady(ck, exes, case))
        return 0
    n = ck.n_quick if tier == "quick" else ck.n_thorough
    if "--n" in argv: n = int(argv[argv.index("--n") + 1])
    n = int(os.environ.get("VERIF_N", n))
    cap = ck.cap if tier == "quick" else ck.thorough_cap
    tb = time.monotonic()
    ctx = mp.get_context("fork")
    nxt, stop, out = ctx.Value("i", 0), ctx.Event(), ctx.Queue()
    jobs = ck.jobs or min(8, os.cpu_count() or 4)
    deadline = tb + cap
    ps = [ctx.Process(target=worker, args=(ck, exes, seed, n, nxt, stop, out, deadline), daemon=True) for _ in range(jobs)]
    for p in ps: p.start()
    tot = collections.Counter()
    st_all = collections.Counter()
    distinct = set()
    samples, notes = [], []
    found = None
    done = 0
    violations = []
    rejected = []
    hard = deadline + 200

    def consider(i, d):
        """shrink and confirm a failing case"""
        case = make_case(ck, seed, i)
        small = shrink_case(ck, exes, case, ck.shrink_s if tier == "quick" else 120)
        tries, need = (25, 1) if case.get("racy") else ck.confirm
        for c in ([small, case] if small != case else [case]):
            hits, det = 0, d
            for _ in range(tries):
                s, dd, st = steady(ck, exes, c)
                if s == "bad":
                    hits += 1
                    det = dd
                if hits >= need: break
            if hits >= need:
                return c, det
        return None, d

    while done < len(ps):
        try:
            r = out.get(timeout=5)
        except Exception:
            if time.monotonic() > hard or not any(p.is_alive() for p in ps): break
            continue
        if r is None:
            done += 1
            continue
        i, s, d, st, nt, h, w, sample = r
        tot[s] += 1
        for k, v in st.items(): st_all[k] += v
        if nt and h not in distinct:
            distinct.add(h)
            if len(samples) < 3 and (len(samples) == 0 or i % 7 == 0):
                c = make_case(ck, seed, i)
                if len(json.dumps(c)) < 9000: samples.append({"index": i, "case": c, "observed": sample if sample is not None else st})
        if s in ("error", "unclear", "foreign") and len(notes) < 8: notes.append("%s case %d: %s" % (s, i, d[-1500:]))
        if s == "bad" and not violations:
            stop.set()
            for p in ps:
                p.join(25)
                if p.is_alive(): p.terminate()
            c, det = consider(i, d)
            if c is None:
                rejected.append("case %d: %s" % (i, d[:800]))
                if len(rejected) >= 4: break
                # go on with the rest of the cases
                while not out.empty():
                    x = out.get()
                    if x: tot[x[1]] += 1
                stop.clear(); done = 0
                deadline += 60; hard = deadline + 200
                ps = [ctx.Process(target=worker, args=(ck, exes, seed, n, nxt, stop, out, deadline), daemon=True) for _ in range(jobs)]
                for p in ps: p.start()
                continue
            violations.append((c, det, i))
            break
    stop.set()
    for p in ps:
        p.join(1)
        if p.is_alive(): p.terminate()
    wall = time.monotonic() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=len(violations),
              coverage=dict(evaluations=sum(tot.values()), distinct_nontrivial=len(distinct), rule=ck.rule, samples=samples or [{"note": "none"}],
                            outcomes=dict(tot), observed={k: round(v, 3) for k, v in sorted(st_all.items())}),
              assumptions=ck.assumptions + ["virtual clock and idle detection of pbt/shim.c", "case time limits: not answering in time counts as inconclusive unless it repeats three times"])
    if notes: ev["coverage"]["inconclusive"] = notes
    if rejected: ev["coverage"]["not_reproduced"] = rejected
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    rc = 0
    if violations:
        c, det, i = violations[0]
        os.makedirs(VERIF + "/replays", exist_ok=True)
        path = "replays/%s-%s.json" % (pid, hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:10])
        with open(VERIF + "/" + path, "w") as f:
            json.dump(dict(property=pid, seed=seed, index=i, detail=det, case=c), f, indent=1)
        print(det[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    for x in notes[:3]: print("note:", x)
    for x in rejected: print("not reproduced:", x)
    print("%s %s: %d cases, %d non-trivial, %s, build %.1fs, total %.1fs" % (pid, tier, sum(tot.values()), len(distinct), dict(tot), tb - t0, wall))
    if "-v" in argv: print(dict(st_all))
    if rc == 0 and tot["ok"] < sum(tot.values()) / 2:
        print("most cases gave no answer")
        return 2
    return rc
