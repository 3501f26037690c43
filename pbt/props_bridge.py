"""B01: a bridge relays what its filters, prefixes, QoS and retain settings say: once, to the right topic, never back where it came from,
over link losses, reloads and restarts. The harness plays the remote brokers of the bridges of one real FlashMQ."""
import os, random, signal, socket, struct, time
import mqtt
from mqtt import *
from runner import Check
from server import Server, Conn, free_port, ServerDied, Hang, Inconclusive
from world import Violation

PV = {3: "mqtt3.1", 4: "mqtt3.1.1", 5: "mqtt5"}


def match(f, t):
    fs, ts = f.split("/"), t.split("/")
    if t.startswith("$") and fs[0] in ("+", "#"): return False
    for i, x in enumerate(fs):
        if x == "#": return True
        if i >= len(ts) or (x != "+" and x != ts[i]): return False
    return len(fs) == len(ts)


def effective(b):
    """what the configuration of a bridge says, with the defaults filled in"""
    if b is None: return None
    d = {k: v for k, v in b.items() if k != "mq"}
    for k, v in (("bit", True), ("keep", 60), ("lclean", True), ("rclean", True), ("lexp", 0), ("rexp", 0), ("ain", 0), ("aout", 0), ("retain", True), ("pw", "")):
        if d[k] is None: d[k] = v
    return d


def unshare(f):
    return f.split("/", 2)[2] if f.startswith("$share/") else f


# ------------------------------------------------------------------------------------------------------------- generator
PFX = [None, None, "L/", "R/", "L/R/", "a/", "é/"]
REST = ["a", "b", "a/b", "b/c", "a/b/c", "R/a", "L/b", "a/", "/a", ""]


def g_topic(rng, *pfx):
    t = rng.choice([p or "" for p in pfx] + ["", "a/"]) + rng.choice(REST)
    return t or "a"


def g_filter(rng, pfx):
    p = rng.choice([pfx or "", pfx or "", pfx or "", ""])
    return p + rng.choice(["#", "#", "a", "a/#", "+", "+/b", "b/c", "a/+", "a/b/#", "+/+"])


def g_bridge(rng, name, multi=False):
    v = 5 if multi else rng.choice([3, 4, 5, 5])
    lp, rp = rng.choice(PFX), rng.choice(PFX)
    b = dict(name=name, ver=v, lp=lp, rp=rp, pub=[], sub=[], count=rng.choice([2, 3]) if multi else 1)
    for k, p in (("pub", lp), ("sub", rp)):
        fs = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            f = g_filter(rng, p)
            if f not in fs: fs.append(f)
        b[k] = [[f, rng.choice([0, 1, 1, 2])] for f in fs]
    if not b["pub"] and not b["sub"]: b["pub"] = [["#", rng.choice([0, 1, 2])]]
    if not multi and b["pub"] and rng.random() < .12: b["pub"][0][0] = "$share/g%s/%s" % (name, b["pub"][0][0])
    if not multi and b["sub"] and rng.random() < .08: b["sub"][0][0] = "$share/rg/" + b["sub"][0][0]
    b["bit"] = rng.choice([None, True, False])
    b["user"] = rng.choice([None, None, "ru", "é"])
    b["pw"] = rng.choice([None, "pw", ""]) if b["user"] is not None else None
    b["keep"] = rng.choice([None, 600, 600, 3600])
    b["lclean"] = rng.choice([None, True, False, False])
    b["rclean"] = rng.choice([None, False, False])
    b["lexp"] = rng.choice([None, 36000]) if b["lclean"] is not False else 36000
    b["rexp"] = rng.choice([None, 5000])
    b["saved"] = rng.random() < .5
    b["luser"] = rng.choice([None, None, "bu"])
    b["retain"] = rng.choice([None, None, None, False])
    b["ain"] = rng.choice([None, 1, 3])
    b["aout"] = rng.choice([None, 1, 3])
    b["mq"] = rng.choice([None] * 8 + [0, 1])
    b["cadir"] = rng.choice([None, None, "ca1", "ca2"])
    return b


def g_msg(rng, *pfx):
    m = dict(t=g_topic(rng, *pfx), q=rng.choice([0, 1, 1, 2]), r=rng.random() < .3, z=rng.choice([0, 0, 0, 0, 200, 2000]))
    if rng.random() < .12: m["z"] = -1      # empty payload
    if rng.random() < .25:
        m["props"] = dict(rng.sample([("ct", "text/x"), ("rt", "resp/t"), ("user", [["k", "v"], ["k", "é"]]), ("pfi", 1), ("expiry", 50000)], rng.choice([1, 2])))
    return m


def g_msgs(rng, *pfx):
    return [g_msg(rng, *pfx) for _ in range(rng.choice([1, 1, 1, 2, 4]))]


def g_up(rng, b):
    o = dict(o="up", b=b["name"], mode=rng.choice(["ok", "ok", "ok", "rc", "close", "slow", "refuse"]), n=rng.choice([1, 1, 2]), present=rng.random() < .75, ack=rng.choice([0, 0, 0, 0x80]), props={})
    if o["mode"] == "slow": o["m"] = g_msgs(rng, b["lp"])
    if b["ver"] == 5:
        for k, v in (("retain_avail", 0), ("alias_max", rng.choice([1, 2, 65535])), ("max_packet", rng.choice([150, 1000])), ("server_keepalive", 900), ("recv_max", 500)):
            if rng.random() < (.4 if k == "alias_max" else .12): o["props"][k] = v
        if b["mq"] is not None: o["props"]["max_qos"] = b["mq"]
        if "max_packet" in o["props"]: o["props"].pop("alias_max", None)
    return o


def gen_b01(rng, i):
    multi = rng.random() < .15
    bs = [g_bridge(rng, "x", multi)]
    if rng.random() < .4: bs.append(g_bridge(rng, "yy"))
    pf = [p for b in bs for p in (b["lp"], b["rp"])]
    case = dict(seed=rng.randrange(1 << 30), threads=rng.choice([1, 1, 2, 3]), bridges=bs, acl=None, clients=[], steps=[])
    if rng.random() < .25:
        case["acl"] = dict(read=[g_filter(rng, rng.choice(pf)) for _ in range(rng.choice([1, 2]))], write=[g_filter(rng, rng.choice(pf)) for _ in range(rng.choice([1, 2]))])
    for c in range(rng.choice([1, 2, 3])):
        fs = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            f = rng.choice(["#", "#", g_filter(rng, rng.choice(pf))])
            if f not in [x[0] for x in fs]: fs.append([f, rng.choice([0, 1, 2]), rng.random() < .4])
        case["clients"].append(dict(ver=rng.choice([4, 5, 5]), subs=fs))
    st = case["steps"]
    for _ in range(rng.choice([0, 0, 1, 2])): st.append(dict(o="pub", c=rng.randrange(8), m=[dict(g_msg(rng, *pf), r=True)]))
    for b in bs: st.append(g_up(rng, b))
    for _ in range(rng.randint(3, 9)):
        b = rng.choice(bs)
        k = rng.random()
        if k < .3: st.append(dict(o="pub", c=rng.randrange(8), m=g_msgs(rng, b["lp"], b["rp"], *pf)))
        elif k < .57: st.append(dict(o="rpub", b=b["name"], l=rng.randrange(8), m=g_msgs(rng, b["rp"], b["rp"], b["lp"]), alias=rng.choice([0, 0, 1, 2])))
        elif k < .64: st.append(dict(o="sub", c=rng.randrange(8), f=g_filter(rng, rng.choice(pf)), q=rng.choice([0, 1, 2]), rap=rng.random() < .4))
        elif k < .84 and not multi:
            st.append(dict(o="cut", b=b["name"], hold=rng.choice([0, 0, 1, 2]), m=g_msgs(rng, b["lp"]), how=rng.choice(["close", "rst", "disc", "bad"])))
            if rng.random() < .5: st.append(dict(o="pub", c=rng.randrange(8), m=g_msgs(rng, b["lp"])))
            if rng.random() < .8: st.append(g_up(rng, b))
        elif k < .93 and not multi:
            nb = dict(b)
            ch = rng.choice(["none", "drop", "filters", "prefix", "opts", "all", "add"])
            o = g_bridge(rng, b["name"])
            o["mq"] = b["mq"]
            if ch == "filters": nb.update(pub=o["pub"], sub=o["sub"])
            elif ch == "prefix": nb.update(lp=o["lp"], rp=o["rp"])
            elif ch == "opts":
                nb.update({k: o[k] for k in rng.sample(["keep", "retain", "ain", "aout", "user", "pw", "rexp", "cadir", "rclean", "luser", "bit"], rng.choice([1, 1, 3]))})
                if nb["user"] is None: nb["pw"] = None
            elif ch == "all": nb = o
            elif ch == "add": nb = g_bridge(rng, "z")
            elif ch == "drop": nb = None
            st.append(dict(o="reload", b="z" if ch == "add" else b["name"], cfg=nb))
            if ch != "none" and ch != "drop": st.append(dict(g_up(rng, nb), props={} if nb["ver"] < 5 else g_up(rng, nb)["props"]))
            if nb:
                if ch != "add": bs = [nb if x["name"] == nb["name"] else x for x in bs]
                else: bs = [x for x in bs if x["name"] != "z"] + [nb]
            if ch == "drop" and len(bs) > 1: bs = [x for x in bs if x["name"] != b["name"]]
        elif k < .97 and not multi:
            st.append(dict(o="restart"))
            for x in bs: st.append(g_up(rng, x))
        else: st.append(dict(o="ping", b=b["name"], answer=rng.random() < .6))
    return case


# ------------------------------------------------------------------------------------------------------------- peers
class Peer:
    """one connection: a test client of the broker, or the remote end of a bridge"""
    def __init__(self, name, conn, ver):
        self.name, self.c, self.ver = name, conn, ver
        self.hold = 0
        self.got = []           # PUBLISHes since last look
        self.other = []         # everything else
        self.rels = []          # PUBRELs
        self.acks = []
        self.pings = 0
        self.open = {}          # packet ids of the broker's QoS publishes which are not finished: pid -> "pub" | "rec"
        self.dups = set()       # packet ids that may come again
        self.alias = {}
        self.alias_max = 0
        self.alias_used = 0
        self.answer_pings = True
        self.nid = 0
        self.mine = {}          # our own QoS publishes: pid -> [qos, state]
        self.out_alias = {}
        self.remote = False

    def pid(self):
        self.nid += 1
        return self.nid

    def decode(self, first, body):
        t = first >> 4
        r = mqtt.R(body)
        if self.remote and t == CONNECT:
            k = mqtt.Pkt(t=t, name=r.s(), level=r.u8(), flags=r.u8(), keep=r.u16(), raw_len=len(body))
            v = k.level & 0x7f
            k["props"] = {}
            if v == 5:
                n = r.v()
                end = r.p + n
                p = {}
                while r.p < end:
                    i = r.v()
                    nm, ty = mqtt.PROPS[i]
                    if ty == "H": p[nm] = r.u16()
                    elif ty == "I": p[nm] = r.u32()
                    elif ty == "p": p.setdefault("user", []).append((r.s(), r.s()))
                    elif ty == "b": p[nm] = r.u8()
                    else: raise Malformed("CONNECT property %d" % i)
                k["props"] = p
            k["cid"] = r.s()
            k["user"] = r.s() if k.flags & 0x80 else None
            k["pw"] = r.data().decode() if k.flags & 0x40 else None
            if k.flags & 0x3d: raise Malformed("CONNECT flags %02x" % k.flags)
            if r.more(): raise Malformed("trailing bytes in CONNECT")
            return k
        if self.remote and t == SUBSCRIBE:
            if first & 15 != 2: raise Malformed("SUBSCRIBE flags")
            k = mqtt.Pkt(t=t, pid=r.u16(), raw_len=len(body))
            if self.ver == 5 and r.v(): raise Malformed("SUBSCRIBE with properties")
            k["subs"] = []
            while r.more(): k["subs"].append((r.s(), r.u8()))
            return k
        if self.remote and t == PINGREQ and not body: return mqtt.Pkt(t=t, raw_len=2)
        if self.remote and t == DISCONNECT:
            k = mqtt.Pkt(t=t, rc=body[0] if body else 0, raw_len=len(body))
            if self.ver < 5 and body: raise Malformed("DISCONNECT with body")
            return k
        return mqtt.decode(first, body, self.ver)

    def send(self, d):
        return self.c.send(d)

    def handle(self, run):
        """Process complete packets; True when there were any."""
        self.c.pump()
        try:
            pk = mqtt.split(self.c.buf)
            pk = [self.decode(f, b) for f, b in pk]
        except Malformed as e:
            raise Violation("b-wire", "%s: %s" % (self.name, e))
        for p in pk:
            run.trace.append((run.srv.now, "<-", self.name, repr(p)))
            if p.t == PUBLISH:
                a = p.props.get("alias")
                if a is not None:
                    if a == 0 or a > self.alias_max: raise Violation("b-alias", "%s received topic alias %d, maximum %d" % (self.name, a, self.alias_max))
                    if p.topic: self.alias[a] = p.topic
                    elif a in self.alias: p["topic"] = self.alias[a]
                    else: raise Violation("b-alias", "%s received unknown alias %d" % (self.name, a))
                    self.alias_used += 1
                elif not p.topic: raise Violation("b-alias", "%s received PUBLISH without topic" % self.name)
                if p.qos:
                    if p.pid in self.open and p.pid not in self.dups: raise Violation("b-packetid", "%s received packet id %d again while it is in use" % (self.name, p.pid))
                    if p.dup and p.pid not in self.dups: raise Violation("b-dup", "%s received a first-time PUBLISH with DUP: %r" % (self.name, p))
                    p["again"] = p.pid in self.dups
                    self.dups.discard(p.pid)
                    self.open[p.pid] = "pub"
                    if self.hold == 0:
                        self.send(ack(PUBACK if p.qos == 1 else PUBREC, p.pid))
                        if p.qos == 1: del self.open[p.pid]
                    elif self.hold == 2 and p.qos == 2:
                        self.send(ack(PUBREC, p.pid))
                        self.open[p.pid] = "rec"
                self.got.append(p)
            elif p.t == PUBREL:
                if p.pid not in self.open: raise Violation("b-packetid", "%s received PUBREL for unknown packet id %d" % (self.name, p.pid))
                self.rels.append(p.pid)
                if self.hold == 0:
                    self.send(ack(PUBCOMP, p.pid))
                    del self.open[p.pid]
            elif p.t in (PUBACK, PUBREC, PUBCOMP):
                m = self.mine.get(p.pid)
                if not m or (p.t == PUBACK) != (m[0] == 1) or (p.t == PUBCOMP) != (m[1] == 1): raise Violation("b-ack", "%s received %r for its publish %r" % (self.name, p, m))
                if p.t == PUBREC and p.rc < 0x80:
                    m[1] = 1
                    self.send(ack(PUBREL, p.pid))
                else: del self.mine[p.pid]
            elif p.t == PINGREQ:
                self.pings += 1
                if self.answer_pings: self.send(b"\xd0\0")
            else:
                if p.t == SUBSCRIBE and p.pid in self.open: raise Violation("b-packetid", "SUBSCRIBE of %s uses packet id %d, which is in use" % (self.name, p.pid))
                self.other.append(p)
        return bool(pk)


# ------------------------------------------------------------------------------------------------------------- run
class Msg:
    def __init__(self, topic, payload, qos, retain, props, born):
        self.topic, self.payload, self.qos, self.retain, self.props, self.born = topic, payload, qos, retain, props, born


class Exp:
    __slots__ = ("topic", "msg", "qos", "retain", "retain0", "n", "queued", "opt")

    def __init__(self, topic, msg, qos, retain, n=0, queued=False, opt=False):
        self.topic, self.msg, self.qos, self.retain, self.n, self.queued, self.opt = topic, msg, qos, retain, n, queued, opt
        self.retain0 = retain

    def __repr__(self):
        return "(%r %r qos%d%s)" % (self.topic, self.msg.payload[:20], self.qos, " retained" if self.retain else "")


class LinkState:
    """model of one bridge connection and its local session"""
    def __init__(self, br, idx):
        self.br, self.idx = br, idx
        self.name = br["name"] if br["count"] == 1 else "%s_%d" % (br["name"], idx)
        self.peer = None
        self.up = False
        self.sess = None        # {filter: qos}
        self.queue = []         # Exp, still to be sent or unacknowledged
        self.rec = set()        # packet ids waiting for PUBCOMP
        self.fresh = True
        self.cid = None
        self.caps = {}
        self.remote_sess = False
        self.persist = False
        self.uncertain = None   # None, or why what arrives next is not known
        self.starts = 0

    def out(self, t):
        lp, rp = self.br["lp"], self.br["rp"]
        if lp and t.startswith(lp) and len(t) > len(lp): t = t[len(lp):]
        return (rp or "") + t

    def inn(self, t):
        lp, rp = self.br["lp"], self.br["rp"]
        if rp and t.startswith(rp) and len(t) > len(rp): t = t[len(rp):]
        return (lp or "") + t


class Run:
    def __init__(self, exes, case, stats):
        self.case, self.stats = case, stats
        self.trace = []
        self.n = 0
        self.old = []
        self.retained = {}
        self.listen = {}
        self.links = {}
        self.clients = []
        self.srv = None
        self.share = {}
        self.group = {}
        self.stale = set()
        self.cfgs = {b["name"]: b for b in case["bridges"]}
        self.exe = exes["rel"]
        for b in case["bridges"]: self.add_links(b)
        self.srv = Server(self.exe, self.config(), threads=case["threads"], start=False)
        for d in ("ca1", "ca2"): os.mkdir(self.srv.dir + "/" + d)
        if case["acl"]:
            with open(self.srv.dir + "/acl", "w") as f:
                f.write("topic readwrite #\ntopic read $SYS/#\nuser bu\n" + "".join("topic read %s\n" % x for x in case["acl"]["read"]) + "".join("topic write %s\n" % x for x in case["acl"]["write"]))

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def close(self):
        for l in self.listen.values():
            if l[0]: l[0].close()
        for l in self.links.values():
            if l.peer: l.peer.c.close()
        for c in self.clients: c.c.close()
        self.srv.close()

    def bad(self, k, t):
        raise Violation("b-" + k, t)

    # ---- configuration
    def port(self, name):
        if name not in self.listen:
            self.listen[name] = [None, free_port()]
            self.bind(name)
        return self.listen[name][1]

    def bind(self, name):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try: s.bind(("127.0.0.1", self.listen[name][1]))
        except OSError: raise Inconclusive("port taken")
        s.listen(16)
        s.setblocking(False)
        self.listen[name][0] = s

    def add_links(self, b):
        self.port(b["name"])
        for i in range(b["count"]):
            l = LinkState(b, i)
            self.links[l.name] = l

    def config(self):
        t = "storage_dir @DIR@/store\nmax_qos_msg_pending_per_client 1000\nmax_qos_bytes_pending_per_client 1000000\nexpire_sessions_after_seconds 100000\n"
        if self.case["acl"]: t += "mosquitto_acl_file @DIR@/acl\n"
        for b in self.cfgs.values():
            t += "bridge {\n address 127.0.0.1\n port %d\n clientid_prefix %s\n tcp_nodelay true\n" % (self.port(b["name"]), b["name"])
            if b["ver"] != 4 or b["bit"] is not None: t += " protocol_version %s\n" % PV[b["ver"]]
            for k, f in (("pub", "publish"), ("sub", "subscribe")):
                for x, q in b[k]: t += " %s %s%s\n" % (f, x, " %d" % q if q or b["keep"] else "")
            for k, o in (("lp", "local_prefix"), ("rp", "remote_prefix")):
                if b[k]: t += ' %s %s\n' % (o, b[k])
            for k, o in (("bit", "bridge_protocol_bit"), ("lclean", "local_clean_start"), ("rclean", "remote_clean_start"), ("retain", "remote_retain_available"), ("saved", "use_saved_clientid")):
                if b[k] is not None: t += " %s %s\n" % (o, "true" if b[k] else "false")
            for k, o in (("keep", "keepalive"), ("lexp", "local_session_expiry_interval"), ("rexp", "remote_session_expiry_interval"), ("ain", "max_incoming_topic_aliases"), ("aout", "max_outgoing_topic_aliases"), ("user", "remote_username"), ("luser", "local_username")):
                if b[k] is not None: t += " %s %s\n" % (o, b[k])
            if b["pw"]: t += " remote_password %s\n" % b["pw"]
            if b["cadir"]: t += " ca_dir @DIR@/%s\n" % b["cadir"]
            if b["count"] > 1: t += " connection_count %d\n" % b["count"]
            t += "}\n"
        return t

    # ---- traffic
    def peers(self):
        return self.clients + [l.peer for l in self.links.values() if l.peer] + [p for p in self.old]

    def settle(self, clock=False):
        idle = 0
        for i in range(2000):
            self.srv.quiesce(clock=clock and i == 0)
            busy = False
            for p in self.peers():
                if p.handle(self): busy = True
            if not busy and any(p.c.inflight() for p in self.peers()):
                time.sleep(.0005)
                continue
            if busy: idle = 0
            else:
                idle += 1
                if idle >= 2: return
        raise Hang("traffic does not settle")

    def allowed(self, luser, acc, topic):
        if not self.case["acl"] or luser != "bu": return True
        return any(match(f, topic) for f in self.case["acl"][acc])

    def encode(self, peer, m, pid, topic=None, alias=None):
        props = None
        if peer.ver == 5:
            props = dict(m.props or {})
            if alias: props["alias"] = alias
        return publish(peer.ver, m.topic if topic is None else topic, m.payload, m.qos, m.retain, pid, props=props)

    def mk(self, spec, ver):
        self.n += 1
        pl = b"" if spec["z"] < 0 else (b"m%d." % self.n).ljust(spec["z"], b"x")
        props = dict(spec.get("props") or {}) if ver == 5 else {}
        if "user" in props: props["user"] = [tuple(x) for x in props["user"]]
        return Msg(spec["t"], pl, spec["q"], spec["r"], props, self.srv.now)

    def put(self, peer, msgs, alias=0):
        """publish through one connection, in one write; returns the messages"""
        out, ms = b"", []
        for s in msgs:
            m = self.mk(s, peer.ver)
            pid = peer.pid() if m.qos else 0
            if m.qos: peer.mine[pid] = [m.qos, 0]
            a, topic = None, None
            if alias and peer.ver == 5 and peer.remote:
                mx = min(peer.in_alias, alias)
                if mx:
                    a = 1 + len(m.topic) % mx
                    if peer.out_alias.get(a) == m.topic:
                        topic = ""
                        self.stat("alias_in")
                    peer.out_alias[a] = m.topic
            out += self.encode(peer, m, pid, topic, a)
            ms.append(m)
            self.trace.append((self.srv.now, "->", peer.name, "PUBLISH %r %r qos%d%s pid %d alias %s" % (m.topic, m.payload[:20], m.qos, " retain" if m.retain else "", pid, a)))
        peer.send(out)
        return ms

    # ---- the model
    def route(self, m, src, want):
        """src: ("c", idx) or ("l", link name). m.topic is the local topic already. Adds expectations to want."""
        if m.retain:
            if m.payload: self.retained[m.topic] = m
            else: self.retained.pop(m.topic, None)
        self.n += 1
        n = self.n
        for c in self.clients:
            for f, (q, rap) in c.subs.items():
                if match(f, m.topic): want.setdefault(c.name, []).append(Exp(m.topic, m, min(q, m.qos), m.retain and rap, n))
        groups = {}
        for l in self.links.values():
            if l.sess is None: continue
            for f, q in l.sess.items():
                if not match(unshare(f), m.topic): continue
                if l.br["count"] > 1: groups.setdefault((l.br["name"], f), []).append((l, q))
                elif f.startswith("$share/") or src != ("l", l.name): self.to_link(l, m, q, n, want, opt=f in self.stale)
        for (b, f), ls in groups.items():
            if src[0] == "l" and self.links[src[1]].br["name"] == b: continue
            l, q = ls[0]
            e = Exp(l.out(m.topic), m, min(q, m.qos), m.retain and not (l.br["retain"] is False), n)
            if not self.allowed(l.br["luser"], "read", m.topic): continue
            want.setdefault("group " + b, []).append(e)

    def to_link(self, l, m, q, n, want, retained=False, opt=False):
        if not self.allowed(l.br["luser"], "read", m.topic): return
        qos = min(q, m.qos)
        e = Exp(l.out(m.topic), m, qos, m.retain or retained, n)
        if l.peer and l.up:
            ok = self.fits(l, e)
            e.opt = ok is None or opt
            if ok is not False:
                want.setdefault(l.name, []).append(e)
                if qos and l.peer.hold: l.queue.append(e)
        elif qos:
            e.opt = opt
            l.queue.append(e)
            self.stat("queued")

    def fits(self, l, e):
        mx = l.caps.get("max_packet")
        e.retain = e.retain0 and l.caps.get("retain_avail", 1) != 0 and l.br["retain"] is not False
        if not mx: return True
        props = dict(e.msg.props) if l.br["ver"] == 5 else None
        d = publish(l.br["ver"], e.topic, e.msg.payload, e.qos, e.retain, 1, props=props)
        n = len(d)
        if e.msg.retain and props is not None and "expiry" not in props: return True if n + 5 <= mx else None if n <= mx else False
        return n <= mx

    def eq(self, e, p, ver):
        if (e.topic, e.msg.payload, e.qos, bool(e.retain)) != (p.topic, p.payload, p.qos, p.retain): return False
        if ver == 5:
            a = {k: v for k, v in p.props.items() if k not in ("alias", "expiry")}
            b = {k: v for k, v in e.msg.props.items() if k != "expiry"}
            if a != b: return False
            x, y = e.msg.props.get("expiry"), p.props.get("expiry")
            if x is None:
                if y is not None and not e.msg.retain: return False
            elif y is None or not x - (self.srv.now - e.msg.born) // 1000 - 2 <= y <= x: return False
        return True

    def compare(self, want, who=""):
        """what arrived is what was expected, for every connection"""
        got = {p.name: p for p in self.peers()}
        for name in want:
            if name.startswith("group "): continue
            if name not in got: self.bad("model", "no connection %s for %r" % (name, want[name]))
        gw = {k[6:]: v for k, v in want.items() if k.startswith("group ")}
        for name, p in got.items():
            l = self.links.get(name)
            exp = list(want.get(name, []))
            rest = []
            last = 0
            for x in p.got:
                hit = [e for e in exp if self.eq(e, x, p.ver)]
                if not hit and l is not None and l.br["count"] > 1:
                    g = gw.get(l.br["name"], [])
                    hit = [e for e in g if self.eq(e, x, p.ver)]
                    if hit:
                        g.remove(hit[0])
                        self.order(p, hit[0], name)
                        self.stat("grouped")
                        self.where.append((hit[0], name))
                        continue
                if not hit:
                    rest.append(x)
                    continue
                e = min(hit, key=lambda e: e.n)
                exp.remove(e)
                if not e.queued and e.n:
                    if e.n < last: self.bad("order", "%s received %r after a later message%s" % (name, x, who))
                    last = e.n
                self.stat("to_remote" if p.remote else "to_local")
                if p.remote and e.topic != e.msg.topic: self.stat("mapped")
            p.got = []
            exp = [e for e in exp if not e.opt]
            if rest: self.bad("unexpected", "%s received %r; still expected %r%s" % (name, rest[0], exp[:4], who))
            if exp: self.bad("missing", "%s did not receive %r (%d missing)%s" % (name, exp[0], len(exp), who))
            if p.mine: self.bad("noack", "%s got no complete acknowledgement for its publishes %r" % (name, p.mine))
        for b, g in gw.items():
            if g: self.bad("missing", "none of the connections of bridge %s received %r" % (b, g[0]))

    def order(self, p, e, name):
        if e.n < getattr(p, "last_n", 0): self.bad("order", "%s received %r after a later message" % (name, e))
        p.last_n = e.n

    # ---- life cycle
    def start(self):
        self.srv.start()
        self.clients = []
        s = Peer("sys", Conn(self.srv.sock), 4)
        s.subs = {}
        s.send(connect("sysclient", 4) + subscribe(4, 1, [("$SYS/broker/bridge/+/connected", 0)]))
        self.sys = s
        self.sysval = {}
        for i, c in enumerate(self.case["clients"]): self.client(i, c)

    def client(self, i, c):
        p = Peer("client%d" % i, Conn(self.srv.sock), c["ver"])
        p.subs = {}
        p.send(connect("c%d" % i, c["ver"], keepalive=65535))
        self.clients.append(p)
        self.settle()
        if [x.t for x in p.other] != [CONNACK]: self.bad("connect", "client got %r" % p.other)
        p.other = []
        for f, q, rap in c["subs"]: self.subscribe(p, f, q, rap)

    def subscribe(self, p, f, q, rap):
        rap = bool(rap and p.ver == 5)
        p.subs[f] = (q, rap)
        p.send(subscribe(p.ver, p.pid(), [(f, q | (8 if rap else 0))]))
        self.settle()
        self.drain_sys()
        if [x.t for x in p.other] != [SUBACK]: self.bad("subscribe", "client got %r" % p.other)
        p.other = []
        want = {p.name: [Exp(t, m, min(q, m.qos), True) for t, m in self.retained.items() if match(f, t)]}
        self.compare(want)

    def drain_sys(self):
        s = self.sys
        for _ in range(3):
            s.handle(self)
        for x in s.got: self.sysval[x.topic.split("/")[3]] = x.payload
        s.got, s.other = [], []

    def check_sys(self):
        end = time.monotonic() + 3
        while True:
            self.drain_sys()
            wrong = None
            for l in self.links.values():
                v = self.sysval.get(l.name)
                if l.up and v != b"1": wrong = "bridge connection %s is up, but its status topic says %r" % (l.name, v)
                if not l.up and v not in (None, b"0"): wrong = "bridge connection %s is down, but its status topic says %r" % (l.name, v)
            if not wrong: return
            if time.monotonic() > end: self.bad("status", wrong)
            time.sleep(.005)
            self.srv.quiesce(clock=True)

    def adopt(self, s, b):
        s.setblocking(False)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        c = Conn.__new__(Conn)
        c.s, c.tcp, c.buf, c.eof, c.reset = s, True, bytearray(), False, False
        p = Peer("?", c, b["ver"])
        p.remote = True
        return p

    def accept(self, b):
        """the bridge's next connection attempt"""
        ls = self.listen[b["name"]][0]
        t0, r0 = self.srv.now, time.monotonic()
        while True:
            try:
                s, _ = ls.accept()
            except BlockingIOError:
                s = None
            if s:
                p = self.adopt(s, b)
                end = time.monotonic() + 15
                while not p.other and not p.c.eof:
                    self.settle()
                    p.handle(self)
                    if time.monotonic() > end: self.bad("connect", "bridge %s connected but sent no CONNECT" % b["name"])
                if not p.c.eof: return p
                # it waited too long for us
                p.c.close()
                self.stat("given_up")
            dt = self.srv.now - t0
            if dt > 900_000 and time.monotonic() - r0 > 20: return None
            self.srv.step_clock(2500)
            self.srv.quiesce(clock=True)
            for p in self.peers(): p.handle(self)
            time.sleep(.002 if dt < 100_000 else .02)

    def gone(self, b):
        """attempts from before a reload have to end"""
        ls = self.listen[b["name"]][0]
        end = time.monotonic() + 10
        while True:
            try: s, _ = ls.accept()
            except BlockingIOError: return
            p = self.adopt(s, b)
            while True:
                self.settle(clock=True)
                p.handle(self)
                if p.c.eof: break
                k = next((x for x in p.other if x.t == CONNECT), None)
                if k and time.monotonic() > end: self.bad("reload", "bridge %s was changed by a configuration reload, but its connection attempt stays" % b["name"])
                self.srv.step_clock(500)
            p.c.close()
            self.stat("reload_attempt")

    def check_connect(self, b, p):
        k = p.other.pop(0)
        if k.t != CONNECT: self.bad("connect", "first packet of the bridge is %r" % k)
        v = b["ver"]
        bit = 0x80 if v < 5 and b["bit"] is not False else 0
        up = list(k.props.get("user", []))
        links = [l for l in self.links.values() if l.br is b]
        pre = k.cid.rsplit("_", 1)[0] if "_" in k.cid else k.cid
        link = next((l for l in links if l.name == pre), None)
        if link is None: self.bad("connect", "bridge %s has client id %r" % (b["name"], k.cid))
        if len(k.cid) != len(link.name) + 11: self.bad("connect", "client id %r" % k.cid)
        if link.cid is not None and link.cid != k.cid: self.bad("connect", "bridge %s connected as %r, before that as %r" % (link.name, k.cid, link.cid))
        if v == 5:
            gid = [x[1] for x in up if x[0] == "fmq_client_group_id"]
            if b["count"] > 1:
                if len(gid) != 1 or len(gid[0]) < 8: self.bad("connect", "bridge %s has group id %r" % (link.name, gid))
                if self.group.setdefault(b["name"], gid[0]) != gid[0]: self.bad("connect", "connections of bridge %s have different group ids" % b["name"])
            elif gid: self.bad("connect", "bridge %s has group id %r" % (link.name, gid))
        want = dict(name="MQIsdp" if v == 3 else "MQTT", level=v | bit, keep=60 if b["keep"] is None else b["keep"], user=b["user"], pw=b["pw"] or None, clean=b["rclean"] is not False)
        got = dict(name=k.name, level=k.level, keep=k.keep, user=k.user, pw=k.pw, clean=bool(k.flags & 2))
        if v == 5:
            want.update(session_expiry=b["rexp"] or 0, alias_max=b["ain"] or 0)
            got.update(session_expiry=k.props.get("session_expiry", 0), alias_max=k.props.get("alias_max", 0))
        if want != got: self.bad("connect", "bridge %s connects with %r, configured is %r" % (link.name, got, want))
        link.cid = k.cid
        p.name = link.name
        p.in_alias = got.get("alias_max", 0)
        return link, not (k.flags & 2)

    def attempt(self, link):
        """the broker made a connection object: this is when the local session is picked up or made"""
        b = link.br
        if link.fresh:
            if link.sess is None or b["lclean"] is not False or not link.persist or (b["luser"] or "") != link.sess_user: self.new_sess(link)
            link.fresh = False
        elif link.sess is None: self.new_sess(link)

    def new_sess(self, link):
        link.sess, link.queue, link.rec = {}, [], set()
        link.sess_user = link.br["luser"] or ""

    def lost(self, link):
        """the connection of the link is gone"""
        p = link.peer
        link.peer, link.up = None, False
        if p is not None:
            for pid, st in p.open.items():
                if st == "rec": link.rec.add(pid)
        if not link.persist: link.sess, link.queue, link.rec = None, [], set()

    def up(self, o):
        b = self.cfgs.get(o["b"])
        if not b: return
        mode = o["mode"]
        if b["count"] > 1:
            if any(l.up for l in self.links.values() if l.br is b): return
            for i in range(b["count"]): self.up1(b, dict(o, mode="ok", props={k: v for k, v in o["props"].items() if k in ("alias_max", "server_keepalive", "recv_max")}))
            self.check_sys()
            return
        if self.links[b["name"]].up: return
        for _ in range(o["n"] if mode in ("rc", "close", "refuse") else 0):
            if mode == "refuse":
                # nobody listens for a while
                ls = self.listen[b["name"]]
                ls[0].close()
                for _ in range(8):
                    self.srv.step_clock(5000)
                    self.srv.quiesce(clock=True)
                    for p in self.peers(): p.handle(self)
                    time.sleep(.001)
                self.bind(o["b"])
                self.stat("refused")
                self.attempt(self.links[b["name"]])
                continue
            p = self.accept(b)
            if p is None: self.bad("reconnect", "bridge %s makes no connection attempt" % b["name"])
            link, _ = self.check_connect(b, p)
            self.attempt(link)
            if mode == "rc":
                p.send(fixed(0x20, bytes([0, 5 if b["ver"] < 5 else 0x87]) + (b"\0" if b["ver"] == 5 else b"")))
                self.old = [p]
                self.settle()
                if not p.c.eof: self.bad("refused", "bridge keeps a connection that was refused")
                self.old = []
            p.c.close()
            self.settle()
            self.stat("failed_attempts")
        self.up1(b, o)
        self.check_sys()

    def up1(self, b, o):
        p = self.accept(b)
        if p is None: self.bad("reconnect", "bridge %s makes no connection attempt" % b["name"])
        link, resume = self.check_connect(b, p)
        if link.up: self.bad("connect", "bridge %s connects twice" % link.name)
        self.attempt(link)
        ver = b["ver"]
        link.peer = p
        p.alias_max = 0
        want = {}
        if o["mode"] == "slow" and self.clients:
            src = self.clients[0]
            for m in self.put(src, o["m"]): self.route(m, ("c", src.name), want)
            self.settle()
            self.stat("slow")
            if p.got or p.other: self.bad("early", "%s received %r before its CONNACK" % (link.name, p.got + p.other))
            self.compare(want)
            want = {}
        present = bool(o["present"] and resume and link.remote_sess)
        link.remote_sess = True
        caps = dict(o["props"]) if ver == 5 else {}
        link.caps = caps
        body = bytes([1 if present and ver > 3 else 0, 0])
        if ver == 5: body += enc_props(caps)
        p.alias_max = min(caps.get("alias_max", 0), b["aout"] or 0)
        if ver > 3 and not present:
            link.queue, link.rec = [], set()
        p.send(fixed(0x20, body))
        self.trace.append((self.srv.now, "->", p.name, "CONNACK present=%s %r" % (present, caps)))
        link.up = True
        link.persist = (b["lexp"] or 0) > 0 if ver == 5 else b["lclean"] is False
        p.dups = {x.pid for x in getattr(link, "unacked", [])} if link.queue else set()
        p.open = {x: "rec" for x in link.rec}
        exp = []
        queue, link.queue = link.queue, []
        for e in queue:
            f = self.fits(link, e)
            if f is None: e.opt = True
            if f is not False:
                exp.append(e)
                e.n = 0
                e.queued = True
        # subscriptions on the other side, and here
        retain_ok = caps.get("retain_avail", 1) and b["retain"] is not False
        share = None
        if b["count"] > 1: share = self.share.get(b["name"])
        for f, q in b["pub"]:
            g = "$share/?/" + f if b["count"] > 1 else f
            q = min(q, caps.get("max_qos", 2))
            link.sess[g] = q
            if g.startswith("$share/") or not retain_ok: continue
            for t, m in self.retained.items():
                if match(f, t) and self.allowed(b["luser"], "read", t):
                    e = Exp(link.out(t), m, min(q, m.qos), True)
                    ok = self.fits(link, e)
                    if ok is None: e.opt = True
                    if ok is not False: exp.append(e)
                    self.stat("retained_out")
        want[p.name] = exp
        self.settle()
        sub = [x for x in p.other if x.t == SUBSCRIBE]
        if len(p.other) != len(sub) or len(sub) != (1 if b["sub"] else 0): self.bad("subscribe", "after CONNACK the bridge %s sent %r" % (link.name, p.other))
        if b["sub"]:
            got = list(sub[0].subs)
            ws = []
            for f, q in b["sub"]:
                q = min(q, caps.get("max_qos", 2))
                if ver == 5: q |= 8 | (0 if f.startswith("$share/") or b["count"] > 1 else 4)
                ws.append((f, q))
            if b["count"] > 1:
                n = {f.split("/")[1] for f, _ in got if f.startswith("$share/")}
                if len(n) != 1 or not all(f.startswith("$share/") for f, _ in got): self.bad("subscribe", "bridge %s subscribes to %r" % (link.name, got))
                n = n.pop()
                if self.share.setdefault(b["name"], n) != n: self.bad("subscribe", "bridge %s uses more than one share name" % b["name"])
                got = [(unshare(f), q) for f, q in got]
            if got != ws: self.bad("subscribe", "bridge %s subscribes to %r, configured is %r" % (link.name, got, ws))
            p.send(fixed(0x90, struct.pack(">H", sub[0].pid) + (b"\0" if ver == 5 else b"") + bytes([o["ack"] or q & 3 for _, q in sub[0].subs])))
        p.other = []
        self.settle()
        # not completed QoS 2 exchanges go on
        rels = set(p.rels)
        if rels & set(link.rec) != set(link.rec): self.bad("pubrel", "bridge %s resumed its session without PUBREL for %r" % (link.name, sorted(set(link.rec) - rels)))
        if link.rec: self.stat("pubrel_resumed", len(link.rec))
        if queue: self.stat("resumed", len(queue))
        link.rec = set()
        p.rels = []
        qe = [e for e in exp if e.queued]
        qi = [next((i for i, e in enumerate(qe) if self.eq(e, x, ver)), None) for x in p.got]
        qi = [i for i in qi if i is not None]
        if len({(e.topic, e.msg.payload) for e in qe}) == len(qe) and len(qi) == len(qe) and qi != sorted(qi): self.bad("order", "bridge %s: queued messages %r came as %r" % (link.name, qe, p.got))
        self.compare(want, " (after the bridge connected)")
        link.unacked = []
        if any(p.alias_used for p in self.peers()): self.stat("alias_out")
        self.stat("connected")
        link.starts += 1
        if link.starts > 1: self.stat("reconnected")

    def publish_local(self, ci, msgs):
        if not self.clients: return
        src = self.clients[ci % len(self.clients)]
        want = {}
        self.where = []
        for m in self.put(src, msgs): self.route(m, ("c", src.name), want)
        self.settle()
        self.compare(want)
        if self.where:
            names = {}
            for e, n in self.where: names.setdefault(n, 0)
            if len(names) > 1: self.bad("group", "messages of one publisher were spread over the connections %r" % sorted(names))
            k = (src.name, self.where[0][1])
            if self.sticky.setdefault(src.name, k) != k: self.stat("resticked")

    def do(self, o):
        k = o["o"]
        self.trace.append((self.srv.now, "op", "", repr(o)[:300]))
        if k == "pub": self.publish_local(o["c"], o["m"])
        elif k == "rpub":
            ls = [l for l in self.links.values() if l.br["name"] == o["b"] and l.up]
            if not ls: return
            l = ls[o["l"] % len(ls)]
            want = {}
            self.where = []
            b = l.br
            for m in self.put(l.peer, o["m"], o["alias"]):
                m.topic = l.inn(m.topic)
                if not m.topic or m.topic.startswith("$") or not self.allowed(b["luser"], "write", m.topic): continue
                self.route(m, ("l", l.name), want)
                self.stat("from_remote")
            self.settle()
            self.compare(want)
        elif k == "sub":
            if self.clients: self.subscribe(self.clients[o["c"] % len(self.clients)], o["f"], o["q"], o["rap"])
        elif k == "cut": self.cut(o)
        elif k == "up": self.up(o)
        elif k == "reload": self.reload(o)
        elif k == "restart": self.restart()
        elif k == "ping":
            ls = [l for l in self.links.values() if l.br["name"] == o["b"] and l.up]
            if not ls: return
            b = ls[0].br
            if b["count"] > 1: o = dict(o, answer=True)
            keep = ls[0].caps.get("server_keepalive") or (60 if b["keep"] is None else b["keep"])
            for l in ls: l.peer.answer_pings, l.peer.pings = o["answer"], 0
            for _ in range(keep * (2 if o["answer"] else 3) // 5 + 8):
                if not o["answer"] and all(l.peer.c.eof for l in ls): break
                self.srv.step_clock(5000)
                self.srv.quiesce(clock=True)
                for p in self.peers(): p.handle(self)
            self.settle()
            for l in ls:
                if not l.peer.pings: self.bad("ping", "no PINGREQ on bridge %s in %d s, keep-alive is %d" % (l.name, keep * 2 + 40, keep))
                l.peer.answer_pings = True
                self.stat("ping")
                if o["answer"]:
                    if l.peer.c.eof: self.bad("ping", "bridge %s closed although its pings were answered" % l.name)
                else:
                    if not l.peer.c.eof: self.bad("ping", "bridge %s does not notice that its pings are not answered" % l.name)
                    l.peer.c.close()
                    self.lost(l)
            self.settle()
        self.check_sys()

    def cut(self, o):
        l = self.links.get(o["b"])
        if not l or not l.up: return
        p = l.peer
        p.hold = o["hold"]
        self.where = []
        if o["hold"]:
            self.publish_local(0, o["m"])
            l.unacked = []
            for e in l.queue: e.n = 0
            # what got its PUBREC is not sent again
            rec = [x for x in p.open if p.open[x] == "rec"]
            if rec and o["hold"] == 2: l.queue = [e for e in l.queue if e.qos != 2]
            l.unacked = [mqtt.Pkt(t=PUBLISH, pid=x) for x in p.open if p.open[x] == "pub"]
            self.stat("cut_in_flight")
        how = "close" if o["how"] == "disc" and p.ver < 5 else o["how"]
        if how == "disc": p.send(b"\xe0\1\x8b")
        elif how == "bad": p.send(b"\x36\x05\0\1abc")       # QoS 3
        elif how == "rst": p.c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        if how in ("disc", "bad"):
            self.old = [p]
            self.settle()
            self.old = []
            if not p.c.eof: self.bad("cut", "bridge %s does not end the connection after %r" % (l.name, how))
        p.c.close()
        self.lost(l)
        for _ in range(3):
            time.sleep(.001)
            self.settle()
        self.stat("cut")

    def reload(self, o):
        name, nb = o["b"], o["cfg"]
        ob = self.cfgs.get(name)
        if nb is None and (ob is None or len(self.cfgs) < 2): return
        if ob and ob["count"] > 1: return
        if nb is None: self.cfgs.pop(name)
        else: self.cfgs[name] = nb
        same = effective(ob) == effective(nb) and ob is not None
        self.port(name)
        self.srv.write_config(self.config())
        self.srv.signal(signal.SIGHUP)
        time.sleep(.01)
        self.settle(clock=True)
        end = time.monotonic() + 10
        l = self.links.get(name)
        if l and not same and l.up:
            # it disconnects
            while not l.peer.c.eof:
                if time.monotonic() > end: self.bad("reload", "bridge %s was %s by a configuration reload, but its connection stays" % (name, "changed" if nb else "removed"))
                self.srv.step_clock(500)
                self.settle(clock=True)
            l.peer.c.close()
            self.lost(l)
            self.settle()
            self.stat("reload_closed")
        elif l and not same and ob: self.gone(ob)
        if nb is None:
            self.links.pop(name, None)
            self.sysval.pop(name, None)
        elif l:
            if not same:
                l.br, l.fresh = nb, True
                if nb["ver"] != ob["ver"]: l.remote_sess = False
            else:
                l.br = nb
                if l.up:
                    self.srv.step_clock(1000)
                    self.settle(clock=True)
                    if l.peer.c.eof: self.bad("reload", "unchanged bridge %s lost its connection by a configuration reload" % name)
        else: self.add_links(nb)
        self.stat("reload")

    def restart(self):
        self.srv.stop()
        for l in list(self.links.values()):
            if l.peer:
                l.peer.handle(self)
                self.lost(l)
                l.peer = None
            if not l.br["saved"]:
                self.stale |= {f for f in l.sess or () if f.startswith("$share/")}     # the session under the old client id stays a member of the group
                l.cid, l.sess, l.queue, l.rec = None, None, [], set()
                l.remote_sess = False
            l.fresh = True
        for c in self.clients: c.c.close()
        self.sys.c.close()
        self.group = {}
        self.start()
        self.stat("restart")

    def run(self):
        self.sticky = {}
        self.where = []
        self.start()
        for o in self.case["steps"]: self.do(o)
        self.srv.check_alive()
        for l in self.links.values():
            if l.peer: l.peer.hold = 0
        self.srv.stop()


def run_b01(exes, case, stats):
    r = Run(exes, case, stats)
    try:
        r.run()
    except Violation as v:
        v.trace = r.trace
        raise
    finally:
        if os.environ.get("B01_TRACE"):
            for t in r.trace: print(*t)
            print(r.srv.tail())
        r.close()


Check("B01", gen_b01, run_b01, 400, 20000, "at least three messages crossed a bridge, and a link was lost, a topic was mapped, or retained messages or groups were involved",
      lambda case, s: s.get("to_remote", 0) + s.get("from_remote", 0) + s.get("grouped", 0) >= 3 and (s.get("cut") or s.get("mapped") or s.get("retained_out") or s.get("grouped") or s.get("reload")),
      technique="stateful model-based testing of one real broker whose bridges connect to generated remote brokers (link losses, refusals, reloads, restarts) against a model of mapping, QoS, retain, echo suppression and session resumption, ddmin shrinking",
      note="remote end is played by the harness; TCP, no TLS")
