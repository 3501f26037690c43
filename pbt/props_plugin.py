"""G01: a plugin sees the true arguments of every operation and its answers bind."""
import glob, hashlib, os, random, signal, subprocess
import mqtt, build
from mqtt import *
from runner import Check
from server import Server, Conn, ServerDied, Hang
from world import Violation

SRC = os.path.join(build.VERIF, "plugin", "rec.cpp")
MSRC = os.path.join(build.VERIF, "plugin", "mosq.cpp")
_so = {}


def plugin(pv):
    """the recording plugin for one interface version (0: a Mosquitto v2 one)"""
    if pv in _so: return _so[pv]
    src = SRC if pv else MSRC
    h = hashlib.sha256(open(src, "rb").read())
    for x in ("flashmq_public.h",): h.update(open(os.path.join(build.REPO, x), "rb").read())
    d = os.path.join(build.OUT, "plugin")
    os.makedirs(d, exist_ok=True)
    p = "%s/rec%d-%s.so" % (d, pv, h.hexdigest()[:16])
    if not os.path.exists(p):
        tmp = "%s.%d" % (p, os.getpid())
        r = subprocess.run(["g++", "-std=c++20", "-DPV=%d" % pv, "-fPIC", "-shared", "-O1", "-w", "-fvisibility=hidden", "-I" + build.REPO, src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise build.BuildError(r.stdout[-3000:])
        os.rename(tmp, p)
    _so[pv] = p
    return p


def hx(s):
    return "x" + b2(s).hex()


def hup(l):
    return "u" + "".join(",%s=%s" % (hx(k), hx(v)) for k, v in l)


def uh(s):
    return None if s == "-" else bytes.fromhex(s[1:])


def uups(s):
    return tuple(tuple(uh(x) for x in p.split("=")) for p in s.split(",")[1:])


def b(s):
    return None if s is None else b2(s)


def bup(l):
    return tuple((b2(k), b2(v)) for k, v in (l or []))


READ, WRITE, SUB, WILL = 1, 2, 4, 100
ACC = {READ: "read", WRITE: "write", SUB: "subscribe", WILL: "register_will"}
DENY = [11, 12, 13, 14, 10, "throw"]


def match(f, t):
    fs, ts = f.split("/"), t.split("/")
    if t.startswith("$") and fs[0] in ("+", "#"): return False
    for i, x in enumerate(fs):
        if x == "#": return True
        if i >= len(ts) or (x != "+" and x != ts[i]): return False
    return len(fs) == len(ts)


# ------------------------------------------------------------------------------------------------------------- generator
TOPICS = ["a", "a/b", "/a", "a/", "x/y/z", "deny/a", "b b/c", "a//c", "é/€"]
FILTERS = ["#", "+/b", "a/#", "a", "/a", "a/b", "x/+/z", "deny/#", "+", "a//c", "+/+/+", "é/+", "/+", "b b/#"]
CIDS = ["c0", "c1", "c2", "p3", "p4"]
USERS = ["u1", "user two", "é", None, None]


def g_up(rng):
    return [[rng.choice(["k", "key", "é", ""]), rng.choice(["v", "", "x" * 30, "v v"])] for _ in range(rng.choice([0, 0, 1, 2, 3]))]


def g_msg(rng):
    m = dict(topic=rng.choice(TOPICS), payload=rng.choice(["", "p", "payload %d" % rng.randint(0, 99), "b\0in", "x" * 40]), qos=rng.choice([0, 0, 1, 2]), retain=rng.random() < .3, up=g_up(rng))
    for k, v in (("rt", "resp/t"), ("cd", "corr"), ("ct", "text/x"), ("expiry", rng.choice([10, 5000]))):
        if rng.random() < .25: m[k] = v
    return m


def g_altpub(rng):
    if rng.random() < .1: return "throw"
    a = dict(topic=rng.choice([None, None, "alt/" + rng.choice(TOPICS), rng.choice(TOPICS)]), qos=rng.choice([None, None, 0, 1, 2]), retain=rng.choice([None, None, True, False]))
    for k in ("cd", "rt", "ct"): a[k] = rng.choice([None, None, "new" + k, "none"])
    a["up"] = rng.choice([None, None, [["added", "by plugin"]], []])
    return a


def g_async(rng, ok=.7):
    return dict(how=rng.choice(["task", "delay", "thread"]), delay=rng.choice([0, 0, 300, 2000]), res=0 if rng.random() < ok else rng.choice([11, 12, 13, 14]), data=rng.choice(["", "data", "\0b"]))


def g_conn(rng, cid):
    o = dict(o="conn", cid=cid, ver=rng.choice([3, 4, 5, 5]), user=rng.choice(USERS), pw=rng.choice(["pw", "", "p\0w", "x" * 100]), up=g_up(rng), login=rng.choice([0, 0, 0, 0, 0, 0] + DENY + [51, 53]), pend=[], drop=False)
    if rng.random() < .4:
        o["will"] = g_msg(rng)
        o["willacl"] = rng.choice([0, 0, 0] + DENY + [52, 53, 51])
    if o["ver"] == 5 and rng.random() < .35:
        st = []
        for _ in range(rng.choice([0, 0, 1, 2])): st.append(dict(res=-4, data=rng.choice(["", "challenge"]), user=rng.choice([None, None, "mid"])))
        st.append(dict(res=rng.choice([0, 0, 0, 0] + DENY), data=rng.choice(["", "final", "\0\1"]), user=rng.choice([None, None, "changed", "é2"])))
        for s in st:
            s["send"] = rng.choice(["", "cd", "\0z"])
            s["up"] = g_up(rng)
            if rng.random() < .2 and s["res"] != "throw": s["async"] = dict(g_async(rng), res=s["res"], data=s["data"])
        o["ext"] = st
        o["method"] = rng.choice(["m", "SCRAM-X", "é"])
    elif rng.random() < .3 and o["user"] is not None:
        o["login"] = g_async(rng)
    if (isinstance(o["login"], dict) and not o.get("ext") and o["user"] is not None):
        if rng.random() < .6: o["pend"].append(g_sub(rng, cid))
        if rng.random() < .6: o["pend"].append(g_pub(rng, cid))
        if rng.random() < .5: o["pend"].reverse()
        if rng.random() < .15: o["drop"] = True
    return o


def g_sub(rng, cid):
    fs = rng.sample(FILTERS, rng.choice([1, 1, 2, 3]))
    o = dict(o="sub", cid=cid, up=g_up(rng), id=rng.choice([0, 0, 1, 300]), subs=[])
    for f in fs:
        s = dict(f=f, qos=rng.choice([0, 1, 2]), nl=rng.random() < .2, rap=rng.random() < .4, rh=rng.choice([0, 0, 2]), acl=rng.choice([0] * 8 + DENY + [51, 51, 53, 53, 52]))
        if cid[0] != "p" and rng.random() < .2: s["f"], s["nl"] = "$share/%s/%s" % (rng.choice(["g" + cid, "h" + cid]), f), False
        if rng.random() < .2:
            s["alt"] = rng.choice(["throw", dict(f=None, qos=rng.choice([0, 1, 2])), dict(f="alt/" + f, qos=None), dict(f=rng.choice(FILTERS), qos=rng.choice([None, 1]))])
        o["subs"].append(s)
    return o


def g_pub(rng, cid):
    o = dict(o="pub", cid=cid, m=g_msg(rng), acl=rng.choice([0] * 9 + DENY + [51, 52, 52, 53]), reads={}, again=rng.choice([0, 0, 1]))
    if rng.random() < .3: o["alt"] = g_altpub(rng)
    for c in CIDS:
        if rng.random() < .2: o["reads"][c] = rng.choice(DENY + [51, 52, 53])
    return o


def gen_plugin(rng, i):
    ops = []
    on = set()
    pv = rng.choice([5, 5, 5, 5, 4, 3, 2, 1, 0, 0])
    cids = CIDS if rng.random() < .7 else CIDS[:3]
    for _ in range(rng.randint(14, 30)):
        cid = rng.choice(cids)
        if cid not in on or rng.random() < .08:
            o = g_conn(rng, cid)
            on.add(cid)
        else:
            r = rng.random()
            if r < .25: o = g_sub(rng, cid)
            elif r < .65: o = g_pub(rng, cid)
            elif r < .72: o = dict(o="unsub", cid=cid, fs=rng.sample(FILTERS, rng.randint(1, 2)), up=g_up(rng), rule=rng.choice([None, None, "throw"]), share=rng.random() < .3)
            elif r < .82:
                o = dict(o="disc", cid=cid, how=rng.choice(["ok", "drop", "drop", "will"]), acl=rng.choice([0, 0, 0, 0] + DENY + [52, 53]), rule=rng.choice([None, None, None, "throw"]), reads={})
                for c in CIDS:
                    if rng.random() < .15: o["reads"][c] = rng.choice(DENY)
                on.discard(cid)
            elif r < .88: o = dict(o="reauth", cid=cid, send="re", up=g_up(rng), res=rng.choice([0, 0, 0, -4] + DENY), data=rng.choice(["", "rd"]))
            elif r < .96: o = g_api(rng, cid)
            elif r < .98: o = dict(o="adv", ms=rng.choice([3000, 20000]))
            else: o = dict(o="hup", bad=rng.random() < .5)
        ops.append(o)
        if o["o"] == "hup" and o["bad"]:
            for _ in range(rng.randint(1, 4)):
                c = rng.choice(cids)
                ops.append(rng.choice([g_conn, g_sub, g_pub])(rng, c))
                ops[-1]["pend"] = []
                on.add(c)
            ops.append(dict(o="hup", bad=False))
    return dict(pv=pv, threads=rng.randint(1, 3), anon=rng.random() < .5, ser=rng.random() < .3, aclfile=rng.random() < .3, pwfile=rng.random() < .3, ops=ops, asan=i % 8 == 0)


def g_api(rng, cid):
    k = rng.choice(["publish", "publish", "remove", "addsub", "remsub"])
    o = dict(o="api", cid=cid, k=k, own=rng.random() < .4, to=rng.choice(CIDS), wronguser=rng.random() < .1)
    if k == "publish": o["m"] = g_msg(rng)
    elif k == "remove": o.update(also=rng.random() < .5, rc=rng.choice([0, 128, 135, 137]))
    elif k == "addsub": o.update(f=rng.choice(FILTERS), qos=rng.choice([0, 1, 2]), nl=rng.random() < .2, rap=rng.random() < .4, id=rng.choice([0, 7]))
    else: o.update(f=rng.choice(FILTERS))
    return o


# ------------------------------------------------------------------------------------------------------------- harness
class Cl:
    def __init__(self, w, cid, ver):
        self.w, self.cid, self.ver = w, cid, ver
        self.conn = Conn(w.srv.sock)
        self.user, self.will, self.method = "", None, ""
        self.up = False
        w.pids = self.pid = getattr(w, "pids", 0) + 300     # not those of an unfinished QoS 2 exchange of an earlier connection
        self.in_pubs = []
        self.other = []
        self.need = []          # deliveries expected by now
        self.opt = []           # deliveries that may be seen as well

    def newpid(self):
        self.pid = self.pid % 60000 + 1
        return self.pid

    def pump(self):
        """take what came, acknowledging publishes; True when there was something"""
        got = self.conn.pump()
        for first, body in mqtt.split(self.conn.buf):
            try:
                p = mqtt.decode(first, body, self.ver)
            except Malformed as e:
                raise Violation("malformed", "%s got a malformed packet: %s" % (self.cid, e))
            if p.t == PUBLISH:
                self.in_pubs.append(p)
                if p.qos: self.conn.send(mqtt.ack(PUBACK if p.qos == 1 else PUBREC, p.pid, self.ver))
            elif p.t == PUBREL: self.conn.send(mqtt.ack(PUBCOMP, p.pid, self.ver))
            elif p.t == PUBREC and p.rc < 0x80:
                self.other.append(p)
            else: self.other.append(p)
        return got


class PW:
    def __init__(self, exe, case, st):
        self.st, self.case, self.pv = st, case, case["pv"]
        cfg = "plugin %s\nplugin_opt_log @DIR@/plugin.log\nplugin_opt_rules @DIR@/rules\nplugin_opt_extra \"some value\"\nallow_anonymous %s\nplugin_serialize_auth_checks %s\nlog_level none\n" % (
            plugin(self.pv), "true" if case["anon"] else "false", "true" if case["ser"] else "false")
        if case["aclfile"]: cfg += "mosquitto_acl_file @DIR@/acl\n"
        if case["pwfile"]: cfg += "mosquitto_password_file @DIR@/pw\n"
        self.srv = Server(exe, cfg, threads=case["threads"], start=False)
        d = self.srv.dir
        with open(d + "/acl", "w") as f: f.write("pattern readwrite #\npattern deny deny/#\n")
        with open(d + "/pw", "w") as f:
            salt = b"saltsalt"
            import base64
            f.write("u1:$6$%s$%s\n" % (base64.b64encode(salt).decode(), base64.b64encode(hashlib.sha512(b"pw" + salt).digest()).decode()))
        self.rules = []
        self.write_rules([])
        self.off = 0
        self.cl = {}            # cid -> Cl of the current connection
        self.sess = {}          # cid -> session
        self.retained = {}
        self.phases = []
        self.broken = False
        self.now = 0
        self.dirty_none = False
        self.srv.start()
        n = case["threads"]
        lines = self.read_log()
        if self.pv:
            want = sorted(["alloc " + hx("some value")] * n + ["init 0 " + hx("some value")] * n)
            if sorted(lines) != want: raise Violation("init", "at the start the plugin should see one allocation and one init per thread, with its options:\n  saw %s" % lines)

    # --- rules and log
    def write_rules(self, rules):
        p = self.srv.dir + "/rules"
        with open(p + ".n", "w") as f: f.write("".join(" ".join(str(x) for x in r) + "\n" for r in rules))
        os.rename(p + ".n", p)

    def read_log(self):
        try:
            with open(self.srv.dir + "/plugin.log", "rb") as f:
                f.seek(self.off)
                d = f.read()
                d = d[:d.rfind(b"\n") + 1]
                self.off += len(d)
        except FileNotFoundError:
            return []
        return [l for l in d.decode().splitlines() if not (l.startswith("acl ") and l.split(" ", 5)[4].startswith("x24535953"))]

    def parse(self, l):
        if l.split(" ")[0] in ("added", "notadded", "nosession", "cmdthrow"): return (l.split(" ")[0],)
        if l.endswith(" BADTHREAD"): raise Violation("thread", "a callback was called with the data of another thread: " + l)
        if l.endswith(" NOSESSION"): raise Violation("session", "the session given to on_unsubscribe is gone: " + l)
        w = l.split(" ")
        k = w[0]

        def st(t, s, what):
            lev = [uh(x) for x in s.split(",")[1:]]
            if lev != uh(t).split(b"/"): raise Violation("subtopics", "%s: topic %r comes with the levels %r" % (what, uh(t), lev))
        if k == "acl":
            if self.pv: st(w[4], w[5], "acl check")
            return ("acl", int(w[1]), uh(w[2]), uh(w[3]), uh(w[4]), uh(w[6]), uh(w[7]), int(w[8]), int(w[9]), uh(w[10]), uh(w[11]), uh(w[12]), w[13], uups(w[14]))
        if k == "altpub":
            st(w[2], w[3], "alter publish")
            return ("altpub", uh(w[1]), uh(w[2]), uh(w[4]), int(w[5]), int(w[6]), uh(w[7]), uh(w[8]), uh(w[9]), uups(w[10]))
        if k == "altsub":
            st(w[2], w[3], "alter subscription")
            return ("altsub", uh(w[1]), uh(w[2]), int(w[4]), uups(w[5]))
        if k == "login": return ("login", uh(w[1]), uh(w[2]), uh(w[3]), uups(w[4]))
        if k == "ext": return ("ext", uh(w[1]), int(w[2]), uh(w[3]), uh(w[4]), uups(w[5]), uh(w[6]))
        if k == "gone": return ("gone", uh(w[1]))
        if k == "unsub":
            st(w[3], w[4], "unsubscribe")
            return ("unsub", uh(w[1]), uh(w[2]), uh(w[3]), uh(w[5]), uups(w[6]))
        return tuple(w)

    # --- expected calls
    def phase(self): self.phases.append([])

    def call(self, *c):
        if not self.broken: self.phases[-1].append(c)

    def call_acl(self, access, cid, user, topic, share, m, qos, retain, exp=None):
        """-> the plugin's answer as the rules of this operation have it"""
        if access != SUB and self.case["aclfile"] and match("deny/#", topic): return 12
        if self.broken: return 13
        pv = self.pv
        if pv == 0:
            if access in (SUB, WILL): return 0
            self.call("acl", access, b(cid), b(user), b(topic), b"", b"", 0, 0, None, None, None, "-", ())
        else:
            m = m or {}
            self.call("acl", access, b(cid), b(user), b(topic), b(share) if pv >= 4 else b"", b(m.get("payload", "")) if pv >= 2 else b"", qos, int(retain),
                      b(m.get("cd")) if pv >= 3 else None, b(m.get("rt")) if pv >= 3 else None, b(m.get("ct")) if pv >= 5 else None, exp if pv >= 5 else None, bup(m.get("up")))
        for r in self.rules:
            if r[0] == "acl" and r[1] in (access, "*") and r[2] in (hx(cid), "*") and r[3] in (hx(topic), "*"): return r[4] if r[4] != "throw" else 13
        return 0

    def exp(self, m):
        return None if m.get("expiry") is None else m["expiry"] * 1000 - (self.now - m["at"])

    def expired(self, m):
        return m.get("expiry") is not None and self.now - m["at"] >= m["expiry"] * 1000

    # --- expected deliveries
    def give(self, s, m, qos, retain, sid):
        cl = self.cl.get(s["cid"])
        if cl and (cl.up or (qos and self.taking == s["cid"])): cl.need.append((dict(m), qos, retain, sid))
        elif qos: s["queue"].append((dict(m), qos, retain, sid))
        elif cl and self.taking == s["cid"]: cl.opt.append((dict(m), qos, retain, sid))

    def route(self, m, own):
        """m: message as the plugin left it; own: (publisher, user)"""
        self.phase()
        for cid, s in self.sess.items():
            for (f, share), (q, nl, rap, sid) in s["subs"].items():
                if not match(f, m["topic"]): continue
                if nl and own[0] == cid: continue
                eq, er = min(q, m["qos"]), bool(m["retain"] and rap)
                if self.call_acl(READ, cid, s["user"], m["topic"], "", m, eq, er, self.exp(m)) == 0: self.give(s, m, eq, er, sid)
                else: self.st["withheld"] = self.st.get("withheld", 0) + 1

    def set_retained(self, m, own):
        if m["payload"]: self.retained[m["topic"]] = (dict(m), own)
        else: self.retained.pop(m["topic"], None)

    def give_retained(self, s, f, q, sid):
        self.phase()
        for t, (m, own) in self.retained.items():
            if not match(f, t) or self.expired(m): continue
            e = self.exp(m)
            if e is None: e = "far"
            if self.call_acl(WRITE, own[0], own[1], t, "", m, m["qos"], True, e) != 0 and own[0]: continue
            eq = min(q, m["qos"])
            if self.call_acl(READ, s["cid"], s["user"], t, "", m, eq, True, e) == 0: self.give(s, m, eq, True, sid)

    def session_end(self, cid):
        s = self.sess.get(cid)
        if s and not s["keep"]: del self.sess[cid]

    def gone(self, cl, will, rules_will=None):
        """the connection ended: disconnected callback, and the will"""
        cl.up = False
        self.phase()
        if self.pv: self.call("gone", b(cl.cid))
        # whether the will goes out before or after the end of the session, which could be subscribed to it, is open
        if will and cl.will and not self.sess[cl.cid]["keep"]: self.optional = (b(cl.cid), b(cl.will["topic"]))
        self.session_end(cl.cid)
        if will and cl.will: self.send_will(cl)
        cl.will = None

    def send_will(self, cl):
        m = dict(cl.will, at=self.now)
        self.phase()
        r = self.call_acl(WRITE, cl.cid, cl.user, m["topic"], "", m, m["qos"], m["retain"], self.exp(m))
        if r not in (0, 52):
            self.st["will_refused"] = self.st.get("will_refused", 0) + 1
            return
        m["own"] = (cl.cid, cl.user)
        self.route(m, (cl.cid, cl.user))
        if m["retain"] and r == 0: self.set_retained(m, (cl.cid, cl.user))

    # --- settle and compare
    def settle(self, clock=False):
        for _ in range(60):
            self.srv.quiesce(clock=clock)
            clock = False
            got = False
            for c in list(self.cl.values()) + self.old: got |= c.pump()
            if not got: return
        raise Hang("the broker does not come to rest")

    old = []
    optional = None
    twice = None
    taking = None           # client whose connection is being taken over: whether the new one sees the will of the old one is open

    def compare(self, what):
        got = []
        for l in self.read_log():
            p = self.parse(l)
            if p[0] == "acl" and p[2] == b"" and p[4].startswith(b"$SYS"): continue
            if self.optional and p[:2] == ("acl", READ) and (p[2], p[4]) == self.optional: continue
            got.append(p)
        self.optional = None
        if self.twice:
            # queued for the session in between and looked at again, or not
            x = [i for i, p in enumerate(got) if p[:2] == ("acl", WRITE) and (p[2], p[4]) == self.twice]
            if len(x) > 1: del got[x[-1]]
            self.twice = None
        # when the end of a connection is told is not laid down in relation to its will
        gone = [[x for x in c if x[0] == "gone"] for c in (got, [x for ph in self.phases for x in ph])]
        if sorted(gone[0]) != sorted(gone[1]): raise Violation("gone", "%s: the disconnected callback should have been called for %s, but was for %s" % (what, gone[1], gone[0]))
        self.st["calls"] = self.st.get("calls", 0) + len(gone[0])
        got = [x for x in got if x[0] != "gone"]
        self.phases = [[x for x in ph if x[0] != "gone"] for ph in self.phases]
        i = 0
        for ph in self.phases:
            part = got[i:i + len(ph)]
            i += len(ph)
            self.cmp_phase(ph, part, what, got)
        if i != len(got): raise Violation("extra_call", "%s: calls that should not have been made:\n  %s" % (what, self.show(got[i:])))
        self.st["calls"] = self.st.get("calls", 0) + len(got)
        self.phases = []
        # deliveries
        for c in list(self.cl.values()):
            got = c.in_pubs
            c.in_pubs = []
            want = c.need
            c.need = []
            gk = sorted(self.pk(c, p) for p in got)
            wk = sorted(self.wk(c, *n) for n in want)
            opt = [self.wk(c, *n) for n in c.opt]
            c.opt = []
            for x in opt:
                if gk.count(x) > wk.count(x): gk.remove(x)
            if gk != wk:
                raise Violation("delivery", "%s: %s (v%d) should get\n  %s\ngot\n  %s" % (what, c.cid, c.ver, "\n  ".join(map(str, wk)), "\n  ".join(map(str, gk))))
            self.st["deliveries"] = self.st.get("deliveries", 0) + len(gk)
            if c.up and c.conn.eof: raise Violation("closed", "%s: the connection of %s was closed" % (what, c.cid))

    def pk(self, c, p):
        pr = p.props
        g = lambda k: (-1 if pr.get(k) is None else b2(pr[k])).__repr__()
        return (b2(p.topic), bytes(p.payload), p.qos, int(p.retain), g("rt"), g("cd"), g("ct"), repr([(b2(k), b2(v)) for k, v in pr.get("user", [])]), repr(pr.get("sid", [])),
                "" if pr.get("expiry", 1 << 31) > 10**9 else str(pr["expiry"]))

    def wk(self, c, m, qos, retain, sid):
        v5 = c.ver >= 5
        g = lambda k: (b(m[k]) if v5 and m.get(k) is not None else -1).__repr__()
        e = self.exp(m) if v5 else None
        return (b(m["topic"]), b(m["payload"]), qos, int(retain), g("rt"), g("cd"), g("ct"), repr(list(bup(m.get("up"))) if v5 else []), repr([sid] if v5 and sid else []), "" if e is None else str(-(-e // 1000)))

    def show(self, calls): return "\n  ".join(map(str, calls))

    def cmp_phase(self, want, got, what, all_got):
        left = list(got)
        for w in want:
            for g in left:
                if self.same(w, g):
                    left.remove(g)
                    break
            else:
                raise Violation("call", "%s: the plugin should have been called with\n  %s\nin a group of\n  %s\nbut in its place saw\n  %s\nall calls:\n  %s" % (
                    what, w, self.show(want), self.show(got), self.show(all_got)))

    def same(self, w, g):
        if w[0] != g[0] or len(w) != len(g): return False
        if w[0] == "acl":
            if w[:12] != g[:12] or w[13] != g[13]: return False
            if w[12] is None or w[12] == "-": return g[12] == "-"
            if g[12] == "-": return False
            if w[12] == "far": return int(g[12]) > 10**12
            return abs(int(g[12]) - w[12]) <= 1500
        return w == g

    # --- operations
    def expect_other(self, c, t, what):
        for p in c.other:
            if p.t == t:
                c.other.remove(p)
                return p
        raise Violation("no_answer", "%s: no %s for %s, only %s%s" % (what, NAMES[t], c.cid, c.other, " and the end of the connection" if c.conn.eof else ""))

    def op(self, o):
        if o["cid"] if "cid" in o else None:
            c = self.cl.get(o["cid"])
            if o["o"] != "conn" and (not c or not c.up): return
        for c in self.cl.values(): c.other = []
        self.rules = []
        getattr(self, "op_" + o["o"])(o)
        self.st["op_" + o["o"]] = self.st.get("op_" + o["o"], 0) + 1

    def step(self, ms):
        self.srv.step_clock(ms)
        self.now += ms
        self.settle(clock=True)

    def deny_code(self, c, r):
        """the reason in a CONNACK for an answer of the plugin"""
        if r == "throw": r = 13
        v5 = {10: 0x8c, 11: 0x87, 12: 0x87, 13: 0x80, 14: 0x88}.get(r, 0x80)
        return v5

    def op_conn(self, o):
        cid, ver, case = o["cid"], o["ver"], self.case
        keep = cid[0] == "p"
        c = Cl(self, cid, ver)
        user, pw = o["user"], o["pw"]
        if user is None: pw = None
        if ver < 5 and user is None: pw = None
        what = "CONNECT of %s (user %r)" % (cid, user)
        ext = o.get("ext") if ver == 5 else None
        up = o["up"] if ver == 5 else []
        will = None
        if o.get("will"):
            will = dict(o["will"])
            if ver < 5: will = {k: will[k] for k in ("topic", "payload", "qos", "retain")}
            will.setdefault("up", [])
            will["at"] = self.now
        props = {}
        if ver == 5:
            if keep: props["session_expiry"] = 100000
            if up: props["user"] = up
            if ext:
                props["auth_method"] = o["method"]
                if ext[0]["send"]: props["auth_data"] = ext[0]["send"]
        wp = None
        if will:
            wp = {k: will[k] for k in ("topic", "payload", "qos", "retain")}
            wp["props"] = self.mprops(will)
        pkt = mqtt.connect(cid, ver, not keep, 65535, user, pw, wp, props or None)
        rules = self.rules
        if will: rules.append(["acl", WILL, hx(cid), hx(will["topic"]), o["willacl"]])
        # what the answer will be
        eff = user or ""
        state = "?"
        retdata = ""
        mid = []                                        # (kind, ...) of each further step
        if ext and self.pv == 0:
            # a Mosquitto plugin does not know extended authentication
            old = self.cl.get(cid)
            self.write_rules(rules)
            c.conn.send(pkt)
            self.settle_with(c)
            if not c.conn.eof and not any(p.t == CONNACK and p.rc for p in c.other): raise Violation("accepted", "%s: extended authentication without support for it does not end the connection: %s" % (what, c.other))
            self.phases = []
            self.compare(what)
            c.conn.close()
            return
        if ext:
            r = None
        elif user is None and case["anon"]: r = 0
        else:
            pwok = case["pwfile"] and user == "u1" and pw == "pw"
            unknown = case["pwfile"] and user != "u1"
            if pwok: r = 0
            elif unknown and case["anon"]: r = 0
            else:
                r = 13 if self.broken else o["login"]
                self.phase()
                if self.pv: self.call("login", b(cid), b(eff), b(pw or ""), bup(up))
                else: self.call("login", b(""), b(eff), b(pw or "").split(b"\0")[0], ())
                if self.pv == 0 and (isinstance(r, dict) or r == "throw"): r = 0 if isinstance(r, dict) and r["res"] == 0 else 11
                if not self.broken:
                    if isinstance(r, dict): rules.append(["login", hx(cid), "async", r["how"], r["delay"], r["res"], hx(r["data"])])
                    else: rules.append(["login", hx(cid) if self.pv else hx(eff), r])
        if ext and self.broken: ext = [dict(ext[0], res=13, user=None)]
        if ext:
            for s in ext:
                s = dict(s)
            self.ext_rule(cid, 10, ext[0], rules)
            self.phase()
            self.call("ext", b(cid), 10, b(o["method"]), b(ext[0]["send"]), bup(up), b(eff))
        self.write_rules(rules)
        c.conn.send(pkt)
        pend = [dict(p) for p in o["pend"]] if isinstance(r, dict) else []
        # when the will of the connection taken over goes out in relation to those is open
        if cid in self.cl and self.cl[cid].will: pend = []
        self.settle_with(c)
        if isinstance(r, dict):
            d = r
            held = []
            if d["delay"]:
                if c.other or c.conn.eof: raise Violation("early", "%s: the plugin has not decided yet, but %s%s" % (what, c.other, " end of connection" if c.conn.eof else ""))
                self.compare(what + " (waiting for the plugin)")
                if pend:
                    # these wait
                    for p in pend: held.append(self.send_held(c, p, rules))
                    self.write_rules(rules)
                    self.settle_with(c)
                    if c.other or c.conn.eof or c.in_pubs: raise Violation("early", "%s: the plugin has not decided yet, but after more packets: %s%s" % (what, c.other + c.in_pubs, " end of connection" if c.conn.eof else ""))
                    self.compare(what + " (packets while waiting for the plugin)")
                if o["drop"]:
                    c.conn.close()
                    self.settle()
                    self.step(d["delay"] + 100)
                    self.compare(what + " (left while the plugin was busy)")
                    self.st["left_waiting"] = self.st.get("left_waiting", 0) + 1
                    return
                self.st["async"] = self.st.get("async", 0) + 1
                if d["how"] == "task" and d["delay"]:
                    pass
                self.srv.step_clock(d["delay"] + 100)
                self.now += d["delay"] + 100
                self.settle_with(c, clock=True)
            r = d["res"]
            retdata = d["data"] if r == 0 else ""
            self.finish_conn(o, c, what, eff, r, retdata, keep, will, "", held)
            return
        if not ext:
            self.finish_conn(o, c, what, eff, r, "", keep, will, "", [])
            return
        # extended authentication
        for n, s in enumerate(ext):
            if s["user"] is not None and not self.broken: eff = s["user"]
            a = s.get("async")
            if a and not self.broken and a["delay"]:
                if c.other or c.conn.eof: raise Violation("early", "%s: the plugin has not decided yet, but %s" % (what, c.other))
                self.compare(what + " (waiting for the plugin)")
                self.srv.step_clock(a["delay"] + 100)
                self.now += a["delay"] + 100
                self.settle_with(c, clock=True)
                self.st["async"] = self.st.get("async", 0) + 1
            if s["res"] == -4 and n + 1 < len(ext):
                if self.broken: raise AssertionError
                p = self.expect_other(c, AUTH, what)
                if p.rc != 0x18 or p.props.get("auth_method") != o["method"] or bytes(p.props.get("auth_data", b"")) != b(s["data"]): raise Violation("auth", "%s: the plugin asks to go on with %r, the client got %r" % (what, s["data"], p))
                if c.conn.eof: raise Violation("closed", what + ": closed in the middle of the authentication")
                self.compare(what + " step %d" % n)
                nx = ext[n + 1]
                rules = self.rules = [x for x in rules if x[0] != "ext"]
                self.ext_rule(cid, 30, nx, rules)
                self.phase()
                self.call("ext", b(cid), 30, b(o["method"]), b(nx["send"]), bup(nx["up"]), b(eff))
                self.write_rules(rules)
                pr = dict(auth_method=o["method"])
                if nx["send"]: pr["auth_data"] = nx["send"]
                if nx["up"]: pr["user"] = nx["up"]
                c.conn.send(mqtt.auth(0x18, pr))
                self.settle_with(c)
                self.st["ext_steps"] = self.st.get("ext_steps", 0) + 1
                continue
            r = s["res"]
            c.method = o["method"]
            self.finish_conn(o, c, what, eff, r, s["data"] if r == 0 else "", keep, will, o["method"], [])
            return

    def ext_rule(self, cid, stage, s, rules):
        r = ["ext", hx(cid), stage, "-" if s["user"] is None else hx(s["user"])]
        a = s.get("async")
        if a: r += ["async", a["how"], a["delay"], s["res"], hx(s["data"])]
        else: r += [s["res"], hx(s["data"])]
        rules.append(r)

    def settle_with(self, c, clock=False):
        self.old = [c]
        self.settle(clock)
        self.old = []

    def mprops(self, m):
        p = {}
        for k in ("rt", "cd", "ct", "expiry"):
            if m.get(k) is not None: p[k] = m[k]
        if m.get("up"): p["user"] = m["up"]
        return p or None

    def finish_conn(self, o, c, what, eff, r, retdata, keep, will, method, held):
        cid = c.cid
        if r == "throw": r = 13
        s = self.sess.get(cid)
        if r != 0:
            p = self.expect_other(c, CONNACK, what)
            want = self.deny_code(c, r)
            if p.rc == 0: raise Violation("accepted", "%s: the plugin answered %s, and the client is let in" % (what, r))
            if c.ver == 5 and p.rc != want: raise Violation("connack", "%s: the plugin answered %s, the client sees 0x%02x, not 0x%02x" % (what, r, p.rc, want))
            if not c.conn.eof: raise Violation("open", "%s: refused, but the connection stays" % what)
            self.compare(what)
            self.st["login_refused"] = self.st.get("login_refused", 0) + 1
            return
        self.phase()
        c.user = eff
        if will:
            a = self.call_acl(WILL, cid, eff, will["topic"], "", will, will["qos"], will["retain"], self.exp(will))
            if a == 0: c.will = will
            else: self.st["will_not_registered"] = self.st.get("will_not_registered", 0) + 1
        if s and s["user"] != eff:
            # somebody else's session
            if c.conn.eof or any(p.t == CONNACK and p.rc for p in c.other):
                self.compare(what + " (session of somebody else)")
                self.st["other_user"] = self.st.get("other_user", 0) + 1
                c.conn.close()
                return
        old = self.cl.get(cid)
        p = self.expect_other(c, CONNACK, what)
        if p.rc: raise Violation("connack", "%s: accepted by the plugin, but the client sees 0x%02x" % (what, p.rc))
        if c.conn.eof: raise Violation("closed", "%s: accepted, but closed" % what)
        if c.ver == 5:
            if method and bytes(p.props.get("auth_data", b"")) != b(retdata): raise Violation("auth", "%s: the plugin returned %r, the CONNACK has %r" % (what, retdata, p.props))
            if method and p.props.get("auth_method") != method: raise Violation("auth", "%s: method missing in CONNACK: %r" % (what, p.props))
        self.cl[cid] = c
        if old and old.up:
            old.pump()
            old.up = False
            self.taking = cid
            if old.will: self.twice = (b(cid), b(old.will["topic"]))
            self.gone(old, True)
            self.taking = None
            old.conn.close()
        if not s or not keep:
            s = self.sess[cid] = dict(cid=cid, user=eff, subs={}, queue=[], keep=keep)
        self.takeover_will = None
        c.up = True
        # queued messages: looked at again with the publisher's rights
        q, s["queue"] = s["queue"], []
        if q:
            self.phase()
            for m, qos, retain, sid in q:
                if self.expired(m): continue
                if self.call_acl(WRITE, m["own"][0], m["own"][1], m["topic"], "", m, qos, retain, self.exp(m)) != 0 and m["own"][0]: continue
                c.need.append((m, qos, retain, sid))
            self.st["resent"] = self.st.get("resent", 0) + len(q)
        for h in held: h()
        self.compare(what)
        self.st["logins"] = self.st.get("logins", 0) + 1

    def send_held(self, c, p, rules):
        """send one packet of a client that waits for its login; returns what to expect once it is in"""
        old = self.rules
        self.rules = rules
        try:
            fn = getattr(self, "prep_" + p["o"])
            return fn(c, p)
        finally:
            self.rules = old

    # subscribe
    def prep_sub(self, c, o):
        ver = c.ver
        up = o["up"] if ver == 5 else []
        subs, seen = [], set()
        for s in o["subs"]:
            if s["f"] in seen: continue
            seen.add(s["f"])
            subs.append(s)
        props = {}
        if ver == 5:
            if up: props["user"] = up
            if o["id"]: props["sid"] = o["id"]
        pid = c.newpid()
        for s in subs:
            a = s.get("alt")
            if a == "throw": self.rules.append(["altsub", hx(c.cid), hx(s["f"]), "throw"])
            elif a: self.rules.append(["altsub", hx(c.cid), hx(s["f"]), 1, "-" if a["f"] is None else hx(a["f"]), "-" if a["qos"] is None else a["qos"]])
            f = s["f"] if not a or a == "throw" or a["f"] is None or not self.pv or self.broken else a["f"]
            plain = f.split("/", 2)[2] if f.startswith("$share/") else f
            self.rules.append(["acl", SUB, hx(c.cid), hx(plain), s["acl"]])
        c.conn.send(mqtt.subscribe(ver, pid, [(s["f"], s["qos"] | ((s["nl"] << 2 | s["rap"] << 3 | s["rh"] << 4) if ver == 5 else 0)) for s in subs], props or None))

        def expect():
            codes, add = [], []
            for s in subs:
                f, q = s["f"], s["qos"]
                a = s.get("alt")
                if self.pv and not self.broken:
                    self.phase()
                    self.call("altsub", b(c.cid), b(f), q, bup(up))
                    if a and a != "throw":
                        if a["f"] is not None: f = a["f"]
                        if a["qos"] is not None: q = a["qos"]
                share, plain = "", f
                if f.startswith("$share/"): share, plain = f.split("/", 2)[1:]
                self.phase()
                r = self.call_acl(SUB, c.cid, c.user, plain, share, dict(up=up), q, False)
                if r in (0, 51, 53):
                    codes.append(q)
                    if r != 53: add.append((plain, share, q, s, r))
                else:
                    codes.append(q if ver == 3 else 0x87 if ver == 5 else 0x80)
                    self.st["sub_refused"] = self.st.get("sub_refused", 0) + 1
            p = self.expect_other(c, SUBACK, "SUBSCRIBE of %s" % c.cid)
            if p.pid != pid or p.codes != codes: raise Violation("suback", "SUBSCRIBE of %s %s: expected the codes %s, got %s" % (c.cid, subs, codes, p))
            ss = self.sess[c.cid]
            for plain, share, q, s, r in add:
                nl, rap, rh = (s["nl"], s["rap"], s["rh"]) if ver == 5 else (False, False, 0)
                sid = o["id"] if ver == 5 else 0
                ss["subs"][(plain, share)] = (q, nl, rap, sid)
                if r == 0 and not share and rh == 0: self.give_retained(ss, plain, q, sid)
        return expect

    def op_sub(self, o):
        c = self.cl[o["cid"]]
        # altered filters could make a shared no-local subscription: not generated
        rules = self.rules
        fn = None
        self.write_rules([])
        conn = c.conn
        buf = []
        real = conn.send
        conn.send = lambda d, srv=None: buf.append(d)
        try:
            fn = self.prep_sub(c, o)
        finally:
            conn.send = real
        self.write_rules(rules)
        for d in buf: conn.send(d)
        self.settle()
        fn()
        self.compare("SUBSCRIBE of %s %s" % (c.cid, o["subs"]))

    # publish
    def prep_pub(self, c, o):
        ver = c.ver
        m = dict(o["m"])
        if ver < 5: m = dict({k: m[k] for k in ("topic", "payload", "qos", "retain")}, up=[])
        m["at"] = self.now
        pid = c.newpid() if m["qos"] else 0
        alt = o.get("alt") if self.pv else None
        cid = c.cid
        if alt == "throw": self.rules.append(["altpub", hx(cid), hx(m["topic"]), "throw"])
        elif alt:
            g = lambda v: "-" if v is None else "none" if v == "none" else hx(v)
            chg = any(alt[k] is not None for k in ("topic", "qos", "cd", "rt", "ct", "up"))
            self.rules.append(["altpub", hx(cid), hx(m["topic"]), int(chg), "-" if alt["topic"] is None else hx(alt["topic"]), "-" if alt["qos"] is None else alt["qos"],
                               "-" if alt["retain"] is None else int(alt["retain"]), g(alt["cd"]), g(alt["rt"]), g(alt["ct"]), "-" if alt["up"] is None else hup(alt["up"])])
        after = dict(m)
        if alt and alt != "throw" and not self.broken:
            for k in ("topic", "qos", "retain"):
                if alt[k] is not None: after[k] = alt[k]
            for k, v in (("cd", 3), ("rt", 3), ("ct", 5)):
                if alt[k] is not None and self.pv >= v and self.pv not in (3, 4): after[k] = None if alt[k] == "none" else alt[k]
            if alt["up"] is not None and ver == 5 and m["up"]: after["up"] = alt["up"]
        self.rules.append(["acl", WRITE, hx(cid), hx(after["topic"]), o["acl"]])
        for k, v in o["reads"].items(): self.rules.append(["acl", READ, hx(k), hx(after["topic"]), v])
        pkt = lambda dup=False: mqtt.publish(ver, m["topic"], m["payload"], m["qos"], m["retain"], pid, dup, self.mprops(m) if ver == 5 else None)
        c.conn.send(pkt())

        def expect():
            own = (cid, c.user)
            m["at"] = after["at"] = self.now
            if self.pv and not self.broken:
                self.phase()
                pv = self.pv
                self.call("altpub", b(cid), b(m["topic"]), b(m["payload"]) if pv >= 2 else b"", m["qos"], int(m["retain"]), b(m.get("cd")) if pv >= 3 else None, b(m.get("rt")) if pv >= 3 else None,
                          b(m.get("ct")) if pv >= 5 else None, bup(m["up"]))
            self.phase()
            r = self.call_acl(WRITE, cid, c.user, after["topic"], "", after, after["qos"], after["retain"], self.exp(after))
            rc = 0
            if r in (0, 52):
                after["own"] = own
                if after["retain"] and r == 0: self.set_retained(after, own)
                self.route(after, own)
            elif r != 53:
                rc = 0x87
                self.st["pub_refused"] = self.st.get("pub_refused", 0) + 1
            else: self.st["pub_dropped"] = self.st.get("pub_dropped", 0) + 1
            if m["qos"]:
                t = PUBACK if m["qos"] == 1 else PUBREC
                p = self.expect_other(c, t, "PUBLISH of %s" % cid)
                if p.pid != pid or (ver == 5 and p.rc not in ((rc,) if rc else (0, 0x10))): raise Violation("puback", "PUBLISH of %s %s: the plugin says %s, the client is told %s" % (cid, m, r, p))
            return rc
        expect.pid, expect.pkt, expect.qos = pid, pkt, m["qos"]
        return expect

    def op_pub(self, o, pre=()):
        c = self.cl[o["cid"]]
        self.rules += list(pre)
        buf = []
        conn = c.conn
        real = conn.send
        conn.send = lambda d, srv=None: buf.append(d)
        try:
            fn = self.prep_pub(c, o)
        finally:
            conn.send = real
        self.write_rules(self.rules)
        for d in buf: conn.send(d)
        self.settle()
        rc = fn()
        what = "PUBLISH of %s %s" % (c.cid, {k: v for k, v in o.items() if k != "o"})
        self.compare(what)
        if fn.qos == 2 and (rc == 0 or c.ver < 5):
            if o["again"]:
                conn.send(fn.pkt(True))
                self.settle()
                p = self.expect_other(c, PUBREC, what + " repeated")
                self.compare(what + " (repeated: not to be looked at again)")
            conn.send(mqtt.ack(PUBREL, fn.pid, c.ver))
            self.settle()
            self.expect_other(c, PUBCOMP, what)
            self.compare(what)

    def op_unsub(self, o):
        c = self.cl[o["cid"]]
        up = o["up"] if c.ver == 5 else []
        fs = list(o["fs"])
        ss = self.sess[c.cid]
        if o["share"]: fs += ["$share/%s/%s" % (k[1], k[0]) for k in list(ss["subs"]) if k[1]][:1]
        if o["rule"] and self.pv >= 4: self.rules.append(["unsub", hx(c.cid), "throw"])
        self.write_rules(self.rules)
        pid = c.newpid()
        c.conn.send(mqtt.unsubscribe(c.ver, pid, fs, {"user": up} if up else None))
        self.settle()
        for f in fs:
            share, plain = "", f
            if f.startswith("$share/"): share, plain = f.split("/", 2)[1:]
            ss["subs"].pop((plain, share), None)
            self.phase()
            if self.pv >= 4: self.call("unsub", b(c.cid), b(c.user), b(plain), b(share), bup(up))
        p = self.expect_other(c, UNSUBACK, "UNSUBSCRIBE")
        if p.pid != pid: raise Violation("unsuback", "wrong packet id %r" % p)
        self.compare("UNSUBSCRIBE of %s %s" % (c.cid, fs))

    def op_disc(self, o):
        c = self.cl[o["cid"]]
        cid = c.cid
        if c.will:
            self.rules.append(["acl", WRITE, hx(cid), hx(c.will["topic"]), o["acl"]])
            for k, v in o["reads"].items(): self.rules.append(["acl", READ, hx(k), hx(c.will["topic"]), v])
        if o["rule"]: self.rules.append(["gone", hx(cid), "throw"])
        self.write_rules(self.rules)
        will = True
        if o["how"] == "ok" or (o["how"] == "will" and c.ver < 5):
            c.conn.send(mqtt.disconnect(c.ver))
            will = False
        elif o["how"] == "will": c.conn.send(mqtt.disconnect(5, 4))
        else: c.conn.close()
        if o["how"] == "drop": del self.cl[cid]
        self.settle()
        if o["how"] != "drop": del self.cl[cid]
        self.gone(c, will)
        self.compare("the end of %s (%s)" % (cid, o["how"]))
        if o["how"] != "drop": c.conn.close()

    def op_reauth(self, o):
        c = self.cl[o["cid"]]
        if c.ver < 5 or not c.method or self.broken or not self.pv: return
        self.rules.append(["ext", hx(c.cid), 20, "-", o["res"], hx(o["data"])])
        if c.will: self.rules.append(["acl", WRITE, hx(c.cid), hx(c.will["topic"]), 0])
        self.write_rules(self.rules)
        pr = dict(auth_method=c.method, auth_data=o["send"])
        if o["up"]: pr["user"] = o["up"]
        c.conn.send(mqtt.auth(0x19, pr))
        self.settle()
        what = "reauthentication of %s" % c.cid
        self.phase()
        self.call("ext", b(c.cid), 20, b(c.method), b(o["send"]), bup(o["up"]), b(c.user))
        r = o["res"]
        if r in (0, -4):
            p = self.expect_other(c, AUTH, what)
            if p.rc != (0 if r == 0 else 0x18) or p.props.get("auth_method") != c.method or bytes(p.props.get("auth_data", b"")) != b(o["data"]): raise Violation("auth", "%s: the plugin answered %s %r, the client got %r" % (what, r, o["data"], p))
            self.compare(what)
            return
        p = self.expect_other(c, DISCONNECT, what)
        if p.rc != self.deny_code(c, r): raise Violation("disconnect", "%s: the plugin answered %s, the client is told 0x%02x" % (what, r, p.rc))
        if not c.conn.eof: raise Violation("open", what + " refused, but the connection stays")
        del self.cl[c.cid]
        self.gone(c, True)
        self.compare(what)
        self.st["reauth_refused"] = self.st.get("reauth_refused", 0) + 1

    def op_adv(self, o):
        self.write_rules([])
        self.step(o["ms"])
        # sessions do not expire in these times
        self.compare("time passes")

    def op_hup(self, o):
        n = self.case["threads"]
        if o["bad"]: self.rules.append(["init", "throw"])
        if not self.pv and o["bad"]: self.rules[-1] = ["init", 1]
        self.write_rules(self.rules)
        self.srv.signal(signal.SIGHUP)
        want = sorted(["deinit 1"] * n + ["init 1 " + hx("some value")] * n) if self.pv else ["init 1"] * n
        seen = []
        import time
        end = time.monotonic() + 15
        while len(seen) < len(want) and time.monotonic() < end:
            seen += [l for l in self.read_log() if " $SYS" not in l and not l.startswith("acl")]
            time.sleep(.002)
        self.settle()
        seen += [l for l in self.read_log() if not l.startswith("acl")]
        if sorted(seen) != want: raise Violation("reload", "on reloading each thread's plugin should be ended and started once, but the calls were %s" % seen)
        self.broken = o["bad"]
        self.phases = []
        self.write_rules([])
        self.compare("reload")

    def op_api(self, o):
        c = self.cl[o["cid"]]
        if not self.pv or self.broken: return
        k = o["k"]
        to = self.sess.get(o["to"])
        tcl = self.cl.get(o["to"])
        topic = "trig/" + k
        w = ["thread"] if o["own"] else []
        tuser = (to["user"] if to else "") + ("x" if o["wronguser"] else "")
        found = to is not None and not o["wronguser"]
        lines = []
        g = lambda v: "-" if v is None else hx(v)
        if k == "publish":
            m = dict(o["m"], at=self.now)
            w += ["publish", hx(m["topic"]), m["qos"], int(m["retain"]), hx(m["payload"]), m.get("expiry") or 0, hup(m["up"]) if m["up"] else "-", g(m.get("rt")), g(m.get("cd")), g(m.get("ct"))]
        elif k == "remove": w += ["remove", hx(o["to"]), hx(tuser), int(o["also"]), o["rc"]]
        elif k == "addsub": w += ["addsub", hx(o["to"]), hx(tuser), hx(o["f"]), o["qos"], int(o["nl"]), int(o["rap"]), o["id"]]
        else: w += ["remsub", hx(o["to"]), hx(tuser), hx(o["f"])]
        self.rules += [["do", hx(topic)] + w, ["acl", WRITE, hx(c.cid), hx(topic), 53]]
        if k == "remove" and tcl and tcl.will: self.rules.append(["acl", WRITE, hx(o["to"]), hx(tcl.will["topic"]), 0])
        self.write_rules(self.rules)
        c.conn.send(mqtt.publish(c.ver, topic, "x", 0))
        self.settle()
        self.phase()
        self.call("altpub", b(c.cid), b(topic), b"x" if self.pv >= 2 else b"", 0, 0, None, None, None, ())
        self.phase()
        self.call_acl(WRITE, c.cid, c.user, topic, "", dict(payload="x"), 0, False, None)
        what = "%s by the plugin %s" % (k, {x: y for x, y in o.items() if x != "o"})
        if k == "publish":
            m["own"] = ("", "")
            if m["retain"]: self.set_retained(m, ("", ""))
            self.route(m, ("", ""))
        else:
            self.phase()
            if not found: self.phases[-1].append(("nosession",))
            elif k == "addsub":
                self.phases[-1].append(("added",))
                to["subs"][(o["f"], "")] = (o["qos"], o["nl"], o["rap"], o["id"])
            elif k == "remsub": to["subs"].pop((o["f"], ""), None)
            elif k == "remove":
                if tcl and tcl.up:
                    tcl.pump()
                    if tcl.ver == 5:
                        p = self.expect_other(tcl, DISCONNECT, what)
                        if p.rc != o["rc"]: raise Violation("disconnect", "%s: the client is told 0x%02x" % (what, p.rc))
                    if not tcl.conn.eof: raise Violation("open", what + ": the connection stays")
                    del self.cl[o["to"]]
                    self.gone(tcl, True)
                    tcl.conn.close()
                if o["also"]: self.sess.pop(o["to"], None)
        self.compare(what)
        self.st["api"] = self.st.get("api", 0) + 1

    def stop(self):
        # connections still there at the end are told to the plugin too, one thread's end per thread
        pass

    def close(self):
        for c in self.cl.values(): c.conn.close()
        self.srv.close()


def run_plugin(exes, case, st):
    w = None
    done = []
    try:
        w = PW(exes["asan" if case.get("asan") and "asan" in exes else "rel"], case, st)
        for o in case["ops"]:
            done.append(o)
            w.op(o)
        w.srv.check_alive()
        st["pv"] = case["pv"]
    except Violation as e:
        e.args = (e.args[0] + "\n(plugin version %d, threads %d, anonymous %s, acl file %s, password file %s)" % (case["pv"], case["threads"], case["anon"], case["aclfile"], case["pwfile"]),)
        raise
    finally:
        if w: w.close()


Check("G01", gen_plugin, run_plugin, 2500, 60000,
      "a server with a recording plugin of interface version 1 to 5 (or of Mosquitto's version 2), 14 to 30 logins (simple, extended, asynchronous), reauthentications, subscriptions, publishes, wills, unsubscribes, "
      "API calls and reloads with the plugin's answers generated; non-trivial: at least 3 accepted logins, 2 refused operations and 20 calls compared with their arguments",
      lambda c, s: s.get("logins", 0) >= 3 and s.get("calls", 0) >= 20 and sum(s.get(k, 0) for k in ("pub_refused", "sub_refused", "login_refused", "will_refused", "withheld", "will_not_registered", "pub_dropped")) >= 2,
      variants=("rel", "asan"),
      technique="stateful model-based testing: a recording plugin's calls and the clients' view against a reference model, ddmin shrinking")
