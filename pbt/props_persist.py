"""P02: faults and crashes while state is saved; P03: damaged state files."""
import os, random, resource, shutil, signal, time
import mqtt
from mqtt import *
from gen import Gen
from model import match
from props_world import Check, W, STORE
from server import Server, Conn, ServerDied, Inconclusive, Hang, S_IOCNT, S_IOFAIL, S_IOMODE, S_REAL, S_DIRTY, S_DIRTYMAX, S_IODONE
from world import World, Violation

FAIL, KILL, KILL_AFTER, SHORT, FAIL_ON, LIMIT, LIMIT_KILL, POWER, POWER_AFTER, FAIL_POWER = range(1, 11)
NAMES = {FAIL: "fails", KILL: "kill before", KILL_AFTER: "kill after", SHORT: "short write", FAIL_ON: "fails from then on", LIMIT: "disk full at byte",
         LIMIT_KILL: "kill at byte", POWER: "power failure before", POWER_AFTER: "power failure after",
         FAIL_POWER: "power failure after the save, in which there was an error in"}
DEADLY = (KILL, KILL_AFTER, LIMIT_KILL, POWER, POWER_AFTER)
CFG = STORE + "save_state_interval 300\nlog_file @DIR@/log.fifo\nlog_level notice\n"


def files_of(d):
    out = {}
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            with open(p, "rb") as h: out[f] = h.read()
    return out


class Obs:
    """What clients can see of the state in a storage directory: pending messages and subscriptions of each session, and the retained messages."""
    def __init__(self, exe, store, real, cids, topics, env=None):
        srv = Server(exe, STORE, start=False, env=env)
        conns = []
        try:
            shutil.rmtree(srv.storage)
            shutil.copytree(store, srv.storage, symlinks=True)
            srv.set(S_REAL, real)
            try:
                srv.start()
            except ServerDied as e:
                e.rc, e.files = srv.proc.returncode, files_of(srv.storage)
                raise
            self.files = files_of(srv.storage)
            self.sessions, self.retained = {}, None
            con = {}
            for cid in cids:
                c = Conn(srv.sock)
                conns.append(c)
                con[cid] = c
                c.send(mqtt.connect(cid, 5, False, 0, props=[("session_expiry", 100000)]))
            first = self.collect(srv, con)
            for cid, pk in first.items():
                if not pk or pk[0].t != CONNACK or pk[0].rc: raise Violation("state", "session of %s can't be used: %r" % (cid, pk[:1]))
                self.sessions[cid] = [pk[0].present, [self.seen(p) for p in pk[1:] if p.t == PUBLISH], sum(1 for p in pk if p.t == PUBREL)]
            pub = Conn(srv.sock)
            conns.append(pub)
            con["?pub"] = pub
            pub.send(mqtt.connect("?pub", 4, True))
            for i, t in enumerate(topics):
                pub.send(mqtt.publish(4, t, b"probe", 2, False, i + 1))
            got = self.collect(srv, con)
            for cid in cids:
                self.sessions[cid].append(sorted((p.topic, p.qos, p.retain, tuple(p.props.get("sid", ()))) for p in got[cid] if p.t == PUBLISH))
            sub = Conn(srv.sock)
            conns.append(sub)
            sub.send(mqtt.connect("?sub", 5, True) + mqtt.subscribe(5, 1, [("#", 2)]))
            got = self.collect(srv, {"s": sub})["s"]
            self.retained = sorted(self.seen(p) for p in got if p.t == PUBLISH)
            srv.stop()
        finally:
            for c in conns: c.close()
            srv.close()

    @staticmethod
    def seen(p):
        return (p.topic, p.payload, p.qos, p.retain, tuple(sorted((k, repr(v)) for k, v in p.props.items() if k not in ("expiry", "alias"))))

    @staticmethod
    def collect(srv, con):
        out = {k: [] for k in con}
        while True:
            srv.quiesce()
            if not any([c.pump() for c in con.values()]): break
        for k, c in con.items():
            ver = 4 if k == "?pub" else 5
            try:
                for a, b in mqtt.split(c.buf):
                    out[k].append(mqtt.decode(a, b, ver))
            except mqtt.Malformed as e:
                raise Violation("state", "malformed packet after a restart: %s" % e)
        return out


class Log:
    """The broker's log through a pipe, so that file size limits don't apply to it."""
    def __init__(self, path):
        os.mkfifo(path)
        self.fd = os.open(path, os.O_RDWR | os.O_NONBLOCK)
        self.text = ""

    def read(self):
        try:
            while True:
                self.text += os.read(self.fd, 65536).decode("latin1")
        except BlockingIOError:
            pass
        return self.text

    def close(self):
        os.close(self.fd)


class Run:
    """One broker with the history of the case in its memory."""
    def __init__(self, exe, case, env=None):
        self.w = World(exe, CFG, threads=case["threads"], server_kw=dict(iodir=True, start=False, env=env))
        self.srv = self.w.srv
        self.log = Log(self.srv.dir + "/log.fifo")
        self.store1 = self.srv.dir + "/before"
        self.case = case
        self.env_kill = bool(env)
        self.srv.start()
        for op in case["ops"]:
            self.log.read()
            if op["o"] == "restart":
                self.w.apply(op)
                shutil.rmtree(self.store1, ignore_errors=True)
                # what the start itself may have done to the files counts as the previous state
                shutil.copytree(self.srv.storage, self.store1)
                continue
            self.w.apply(op)
        for k in list(self.w.h):
            self.w.apply(dict(o="drop", k=k))
        self.log.read()
        if not os.path.exists(self.store1): os.makedirs(self.store1)

    def close(self):
        self.w.close()
        self.log.close()

    def arm(self, mode, at):
        s = self.srv
        if mode in (LIMIT, LIMIT_KILL):
            resource.prlimit(s.proc.pid, resource.RLIMIT_FSIZE, (at, resource.RLIM_INFINITY))
        else:
            s.set(S_IOMODE, {POWER: KILL, POWER_AFTER: KILL_AFTER, FAIL_POWER: FAIL}.get(mode, mode))
            s.set(S_IOCNT, 0)
            s.set(S_IOFAIL, at)

    def disarm(self):
        self.srv.set(S_IOFAIL, -1)
        if self.srv.alive(): resource.prlimit(self.srv.proc.pid, resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))

    def save(self, how):
        """-> 'done', 'error' or 'dead' (by the fault)"""
        s = self.srv
        self.log.text = ""
        end = time.monotonic() + 25
        if how == "stop":
            s.proc.send_signal(signal.SIGTERM)
            while s.proc.poll() is None:
                self.log.read()
                time.sleep(.0005)
                if time.monotonic() > end: raise Hang("server does not stop")
            t = self.log.read()
        else:
            s.step_clock(301_000)
            while True:
                t = self.log.read()
                if "Saving states done" in t or "Error saving state" in t or s.proc.poll() is not None: break
                time.sleep(.0005)
                if time.monotonic() > end: raise Hang("no end of the save in sight: %s" % t[-300:])
        if s.proc.poll() is not None and s.proc.returncode < 0: return "dead"
        return "error" if "Error saving state" in t else "done" if "Saving states done" in t else "exit %s" % s.proc.returncode


def unsynced(srv):
    """After a power failure: data which no fsync made durable is gone."""
    ino = {srv.get(S_DIRTY + i) for i in range(S_DIRTYMAX)} - {0}
    n = 0
    for f in os.listdir(srv.storage):
        p = srv.storage + "/" + f
        st = os.stat(p)
        if st.st_ino in ino:
            n += 1
            os.truncate(p, random.Random(st.st_size).choice([0, st.st_size // 2, max(0, st.st_size - 1)]))
    return n


def run_p02(exes, case, stats):
    exe = exes[case.get("variant", "rel")]
    how = case["how"]
    topics, cids = case["topics"], case["cids"]
    runs = []

    def new(env=None):
        r = Run(exe, case, env)
        runs.append(r)
        return r

    def done(r):
        r.close()
        runs.remove(r)

    try:
        ref = new()
        ref.srv.set(S_IOCNT, 0)
        real = lambda r: r.srv.get(S_REAL) + 10**7
        res = ref.save(how)
        if res != "done": raise Violation("save", "a save without any fault: %s: %s" % (res, ref.log.text[-500:]))
        n_io = ref.srv.get(S_IOCNT)
        ref.srv.kill()
        now = real(ref)
        old = Obs(exe, ref.store1, now, cids, topics)
        new_ = Obs(exe, ref.srv.storage, now, cids, topics)
        sizes = [os.path.getsize(ref.srv.storage + "/" + f) for f in os.listdir(ref.srv.storage)]
        done(ref)
        stats["differs"] = int(old.sessions != new_.sessions) + int(old.retained != new_.retained)
        stats["io_points"] = n_io
        r = None

        def judge(store, what, only=None):
            try:
                o = Obs(exe, store, now, cids, topics)
            except ServerDied as e:
                raise Violation("state", "%s: the broker doesn't start any more: %s" % (what, e))
            for part in ("sessions", "retained"):
                a, b, c = getattr(old, part), getattr(new_, part), getattr(o, part)
                if only is None and c == a: stats["kept_old"] = stats.get("kept_old", 0) + 1
                elif c == b: stats["got_new"] = stats.get("got_new", 0) + 1
                else:
                    raise Violation("state", "%s: %s are neither the old nor the new state:\n found %r\n old   %r\n new   %r\n files %s" % (what, part, c, a, b, sorted(os.listdir(store))))

        for mode, frac in case["items"]:
            at = int(frac * (max(sizes) + 20)) if mode in (LIMIT, LIMIT_KILL) else int(frac * n_io)
            what = "%s, %s %s %d of %d" % (how, NAMES[mode], "" if mode in (LIMIT, LIMIT_KILL) else "operation", at, max(sizes) if mode in (LIMIT, LIMIT_KILL) else n_io)
            if r is None or mode == LIMIT_KILL or r.env_kill or how == "stop" or not r.srv.alive():
                if r: done(r)
                r = new(dict(FMQ_SHIM_XFSZ="kill") if mode == LIMIT_KILL else None)
            r.arm(mode, at)
            res = r.save(how)
            stats["faults"] = stats.get("faults", 0) + 1
            if res == "dead" and mode not in DEADLY:
                raise Violation("crash", "%s: the broker died with signal %d: %s" % (what, -r.srv.proc.returncode, r.srv.tail() + r.log.text[-300:]))
            if res == "error": stats["save_error"] = stats.get("save_error", 0) + 1
            if res == "dead":
                stats["died"] = stats.get("died", 0) + 1
                if mode in (POWER, POWER_AFTER): stats["unsynced"] = stats.get("unsynced", 0) + unsynced(r.srv)
            if mode == FAIL_POWER:
                if r.srv.alive(): r.srv.kill()
                stats["unsynced"] = stats.get("unsynced", 0) + unsynced(r.srv)
                res = "dead"
            if how == "interval" and res != "dead":
                serves(r, what)
                judge(r.srv.storage, what)
                r.disarm()
                # the next save, without a fault, is complete
                res = r.save(how)
                if res != "done": raise Violation("save", "%s: and then the next save: %s: %s" % (what, res, r.log.text[-500:]))
                judge(r.srv.storage, what + ", and then saved again", only="new")
                for f in os.listdir(r.srv.storage): os.unlink(r.srv.storage + "/" + f)
                for f in os.listdir(r.store1): shutil.copy2(r.store1 + "/" + f, r.srv.storage)
            else:
                judge(r.srv.storage, what)
                done(r)
                r = None
    finally:
        for r in list(runs): r.close()


def serves(r, what):
    c = Conn(r.srv.sock)
    try:
        c.send(mqtt.connect("?canary", 4, True) + mqtt.subscribe(4, 1, [("?canary/x", 0)]) + mqtt.publish(4, "?canary/x", b"sing") + mqtt.pingreq())
        end = time.monotonic() + 10
        pk = []
        while len(pk) < 4:
            r.srv.quiesce()
            c.pump()
            pk += [a >> 4 for a, b in mqtt.split(c.buf)]
            if c.eof or time.monotonic() > end: raise Violation("serve", "%s: the broker does not serve any more: %r" % (what, pk))
        if sorted(pk) != sorted([CONNACK, SUBACK, PUBLISH, PINGRESP]): raise Violation("serve", "%s: answers to a client: %r" % (what, pk))
        c.send(mqtt.disconnect(4))
        r.srv.quiesce()
    finally:
        c.close()


PST = dict(vers=[4, 5, 5], clean=.1, exps=[100000], retain=.4, clear=.2, sub_qos=[0, 1, 2], qos=[1, 1, 2, 0], n_cids=(2, 3), n_topics=(2, 5), depth=(1, 3), levels=["a", "b", "c", "dd"],
           props=.3, msg_exp=[None], epilogue=False, dollar=0, ams=[None], sids=.5, nl=.1, rap=.3, hold=.2, w=W(sub=7, unsub=1.5, pub=14, burst=3, drop=6, disc=2, conn=5, ping=0))


def gen_p02(rng, i):
    g = Gen(rng, **dict(PST, n_ops=rng.choice([(4, 12), (10, 25)]), sizes=rng.choice([[(0, 20)], [(0, 20), (0, 20), (2000, 9000)]])))
    ops = g.ops()
    ops.append(dict(o="restart"))
    g.on.clear()
    if rng.random() < .85: ops += g.ops()
    else: ops = ops[:-1]
    topics = sorted(set(g.topics))[:10]
    how = rng.choice(["stop", "interval"])
    modes = [FAIL, FAIL, KILL, KILL_AFTER, SHORT, SHORT, FAIL_ON, LIMIT, LIMIT, LIMIT, LIMIT_KILL, POWER, POWER_AFTER, POWER_AFTER, FAIL_POWER, FAIL_POWER, FAIL_POWER]
    faults = []
    for _ in range(6 if how == "interval" else 5):
        m = rng.choice(modes)
        # the interesting operations are around the ends of the files
        faults.append([m, round(rng.random() if rng.random() < .6 else 1 - rng.random() * .15, 4)])
    return dict(ops=ops, items=faults, how=how, threads=rng.randint(1, 2), topics=topics, cids=g.cids)


Check("P02", gen_p02, run_p02, 250, 5000,
      "Case: history, restart, further history, then a save (at shutdown or periodic) in which one operation fails, is short, or the process dies there (also with loss of what was not synced), or the "
      "disk is full at a byte position, for 5-6 such faults; then the state loaded by the next start is compared with that of the previous and of an undisturbed save. Distinct = different "
      "case JSON. Non-trivial = the states before and after differ, and a fault of the case came to effect (process died or the save reported an error).",
      lambda c, s: s.get("differs", 0) >= 1 and s.get("died", 0) + s.get("save_error", 0) >= 1,
      technique="fault injection at generated points of generated histories, old-or-new oracle by differential observation, ddmin shrinking")


# ---------------------------------------------------------------------------------------------------------------- P03
FILES = ["retained.db", "sessions.db", "bridgenames.db"]
HDR = 32 + 64


def damage(rng_seed, kind, files, name):
    """-> damaged content of the file (bytes), or None for a directory, or False when impossible"""
    r = random.Random(rng_seed)
    b = bytearray(files[name])
    n = len(b)
    other = [f for f in sorted(files) if f != name]
    pos = lambda: r.choice([r.randrange(n), r.randrange(min(n, HDR + 40)), n - 1 - r.randrange(min(n, 40))])
    if kind == "trunc": return bytes(b[:r.choice([0, 1, 31, 32, 33, 95, 96, 97, 104, 105, n - 1, n - 2, n // 2, pos(), pos()])])
    if kind == "flip":
        for _ in range(r.choice([1, 1, 1, 2, 5])): b[pos()] ^= 1 << r.randrange(8)
        return bytes(b)
    if kind == "zero":
        a = pos()
        k = r.choice([1, 4, 64, 512, 4096])
        b[a:a + k] = bytes(len(b[a:a + k]))
        return bytes(b)
    if kind == "noise":
        a = pos()
        k = r.choice([1, 2, 4, 16, 600])
        b[a:a + k] = r.randbytes(len(b[a:a + k]))
        return bytes(b)
    if kind == "append": return bytes(b + r.choice([b"\0", b"\n", r.randbytes(r.randint(1, 300)), bytes(4096), bytes(b)]))
    if kind == "insert":
        a = pos()
        return bytes(b[:a] + r.randbytes(r.choice([1, 4, 100])) + b[a:])
    if kind == "cut":
        a = pos()
        return bytes(b[:a] + b[a + r.choice([1, 4, 100]):])
    if kind == "tail":
        # the beginning is on disk, the rest never was
        a = pos()
        return bytes(b[:a] + bytes(n - a))
    if kind == "swapped": return files[r.choice(other)] if other else False
    if kind == "headswap": return bytes(files[r.choice(other)][:r.choice([32, 96])] + b[r.choice([32, 96]):]) if other else False
    if kind == "magic":
        m = r.choice([b"FlashMQSessionDBv%d" % r.randint(0, 9), b"FlashMQRetainedDBv%d" % r.randint(0, 9), b"BridgeInfoDbV%d" % r.randint(0, 4), b"", b"x" * 32, b"SQLite format 3"])
        return bytes(m.ljust(32, b"\0") + b[32:])
    if kind == "foreign":
        return r.choice([r.randbytes(r.choice([1, 50, 96, 100, 5000, 2000000])), b"hello world\n" * r.randint(1, 50), b"\0" * r.choice([1, 96, 97, 110, 5000]), b"\xff" * r.choice([96, 110, 5000]),
                         b"SQLite format 3\0" + bytes(5000)])
    if kind == "dir": return None


KINDS = ["trunc"] * 4 + ["flip"] * 5 + ["zero", "noise", "append", "insert", "cut", "tail", "tail", "swapped", "headswap", "magic", "foreign", "dir"]


def run_p03(exes, case, stats):
    exe = exes["rel"]
    r = Run(exe, dict(case, ops=case["ops"] + [dict(o="adv", ms=10)]))
    work = r.srv.dir + "/damaged"
    try:
        if r.save("stop") != "done": raise Inconclusive("save")
        now = r.srv.get(S_REAL) + 10**7
        good = Obs(exe, r.srv.storage, now, case["cids"], case["topics"])
        files = {k: v for k, v in files_of(r.srv.storage).items() if k in FILES}
        empty_s = {c: [False, [], 0, []] for c in case["cids"]}
        if good.sessions != empty_s: stats["sessions"] = 1
        if good.retained: stats["retained"] = 1
        stats["bytes"] = max(len(v) for v in files.values())
        for kind, name, seed in case["items"]:
            bad = damage(seed, kind, files, name)
            if bad is False or bad == files[name]: continue
            hashed = bad is not None and bad[32:] == files[name][32:]       # damage that the hash does not cover: the version
            what = "%s of %s (%s)" % (kind, name, "a directory" if bad is None else "%d bytes, now %d, first difference at %s" % (
                len(files[name]), len(bad), next((i for i, (x, y) in enumerate(zip(files[name], bad)) if x != y), "the end")))
            shutil.rmtree(work, ignore_errors=True)
            os.makedirs(work)
            for f, c in files.items():
                if f != name:
                    with open(work + "/" + f, "wb") as h: h.write(c)
            if bad is None: os.makedirs(work + "/" + name + "/x")
            else:
                with open(work + "/" + name, "wb") as h: h.write(bad)
            stats["damaged"] = stats.get("damaged", 0) + 1
            for attempt in (1, 2):
                try:
                    o = Obs(exes["asan"] if case.get("asan") else exe, work, now, case["cids"], case["topics"], env=ASAN)
                except ServerDied as e:
                    if not hasattr(e, "rc"): raise
                    if e.rc <= 0: raise Violation("crash", "%s: start %d of the broker ends with status %s: %s" % (what, attempt, e.rc, e))
                    stats["refused"] = stats.get("refused", 0) + 1
                    kept(what, bad, e.files, files, name)
                    if e.files == files_of(work): break
                    for f in os.listdir(work):
                        if os.path.isfile(work + "/" + f): os.unlink(work + "/" + f)
                    for f, c in e.files.items():
                        with open(work + "/" + f, "wb") as h: h.write(c)
                    continue
                except Inconclusive as e:
                    if "did not start" in str(e):
                        # a file of another version label: the old reader may take long over the counts it sees in there
                        if hashed:
                            stats["slow"] = stats.get("slow", 0) + 1
                            break
                        raise Hang("%s: %s" % (what, e))
                    raise
                stats["started"] = stats.get("started", 0) + 1
                if not hashed: kept(what, bad, o.files, files, name)
                exp_s = [good.sessions] if name != "sessions.db" else [empty_s] + ([good.sessions] if hashed else [])
                exp_r = [good.retained] if name != "retained.db" else [[]] + ([good.retained] if hashed else [])
                if hashed and kind in ("magic", "swapped", "headswap", "flip", "noise", "zero"):
                    # an earlier file version lacks some fields
                    if name == "sessions.db": exp_s.append(o.sessions)
                    else: exp_r.append(o.retained)
                if o.sessions not in exp_s: raise Violation("altered", "%s: sessions are %r; were %r" % (what, o.sessions, good.sessions))
                if o.retained not in exp_r: raise Violation("altered", "%s: retained messages are %r; were %r" % (what, o.retained, good.retained))
                break
            else:
                raise Violation("start", "%s: the broker moved the damaged file aside and still does not start" % what)
    finally:
        r.close()


def kept(what, bad, now, files, name):
    if bad is not None and bad not in now.values():
        raise Violation("lost", "%s: the damaged file is not kept anywhere; files: %s" % (what, {k: len(v) for k, v in now.items()}))
    for f in files:
        if f != name and now.get(f) != files[f]: raise Violation("lost", "%s: the undamaged %s was touched" % (what, f))


ASAN = dict(ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=300")


def gen_p03(rng, i):
    big = rng.random() < .08        # files of more than a megabyte
    g = Gen(rng, **dict(PST, n_ops=(30, 45) if big else rng.choice([(6, 14), (10, 25)]), retain=.5, clear=.02 if big else .1, manual=.2, n_topics=(12, 20) if big else (2, 5),
                        sizes=[(50000, 65000)] if big else rng.choice([[(0, 20)], [(0, 20)], [(0, 20), (2000, 9000)]])))
    ops = g.ops()
    items = [[rng.choice(KINDS), rng.choice(FILES[:2] * 4 + FILES[2:]), rng.randrange(1 << 30)] for _ in range(8)]
    return dict(ops=ops, items=items, threads=1, topics=sorted(set(g.topics))[:8], cids=g.cids, asan=rng.random() < .5)


Check("P03", gen_p03, run_p03, 200, 5000,
      "Case: history with retained messages and sessions, saved; then 8 damages (truncation, flipped bits, zeroed/overwritten/inserted/removed parts, swapped and foreign files, other version, directory) of one of "
      "the state files, each followed by a start. Distinct = different case JSON. Non-trivial = there were sessions and retained messages in the files, and damaged files were met at least twice.",
      lambda c, s: s.get("sessions", 0) and s.get("retained", 0) and s.get("damaged", 0) >= 2, variants=("rel", "asan"),
      technique="mutation-based fuzzing of state files of generated histories, oracle: absent-or-refused, never altered; sanitizers; ddmin shrinking")
