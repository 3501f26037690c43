"""A03: connections that are not (or not properly) authenticated. A04: network policies, PROXY protocol."""
import random, shutil, struct, tempfile, time
import mqtt
from mqtt import *
from runner import Check
from world import World, Violation, HConn, payload
from server import Conn, Server, Inconclusive, ServerDied, free_port, SH_BASE
from model import Exp
from gen import Gen
from props_world import W
from props_auth import hash_line


# ---------------------------------------------------------------------------------------------------------------- A03
def packets(specs, ver):
    out = b""
    for s in specs:
        k = s[0]
        if k == "sub": out += mqtt.subscribe(ver, s[2], [(s[1], s[3])])
        elif k == "unsub": out += mqtt.unsubscribe(ver, s[2], [s[1]])
        elif k == "pub": out += mqtt.publish(ver, s[1], payload(s[4]), s[2], bool(s[3]), s[5] if s[2] else 0, False, ({"alias": s[6]} if s[6] else {}) if ver >= 5 else None)
        elif k == "ack": out += mqtt.ack(s[1], s[2], ver)
        elif k == "ping": out += mqtt.pingreq()
        elif k == "auth": out += mqtt.auth(s[1], {"auth_method": s[2]} if s[2] else None)
        elif k == "disc": out += mqtt.disconnect(ver, s[1] if ver >= 5 else None, {"session_expiry": s[2]} if ver >= 5 and s[2] is not None else None)
        elif k == "raw": out += bytes.fromhex(s[1])
    return out


class AWorld(World):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.idle = []

    def close(self):
        for c, *_ in self.idle: c.close()
        super().close()

    # a normal connection which starts with packets that may have no effect
    def new_conn(self, op):
        c = super().new_conn(op)
        if op.get("pre"):
            c.send(packets(op["pre"], op.get("prever", op.get("ver", 4))))
            self.model.stat("pre_packets", len(op["pre"]))
            if op.get("split"):
                self.srv.quiesce(); c.pump()
                if c.buf or c.eof:
                    self.bad("answered", "packets before CONNECT were answered with %s, closed=%s: %r" % (bytes(c.buf[:60]).hex(), c.eof, op["pre"]))
        return c

    def refused(self, c, what, ver, may=(CONNACK, DISCONNECT)):
        """Nothing but a refusal has been sent."""
        c.pump()
        buf = bytearray(c.buf)
        for first, body in mqtt.split(buf):
            t = first >> 4
            if t not in may: self.bad("answered", "%s was answered with %s %s" % (what, mqtt.NAMES.get(t, t), body[:60].hex()))
            if t == CONNACK and (len(body) < 2 or body[1] == 0): self.bad("accepted", "%s was accepted: CONNACK %s" % (what, body[:40].hex()))
            if t == DISCONNECT and ver < 5: self.bad("answered", "%s: DISCONNECT sent to an MQTT 3 client" % what)
        if buf: self.bad("wire", "%s was answered with stray bytes %s" % (what, bytes(buf[:60]).hex()))

    def op_bad(self, op):
        """A connection which must be refused."""
        ver = op["ver"]
        s = self.model.sessions.get(op["cid"])
        kind = op["kind"]
        if kind == "otheruser":
            if s is None or (s.user or "") == (op.get("user") or "") or (s.conn is None and not (s.expiry > 1000 and self.model.now - (s.offline_since or 0) < 300000)):
                self.skipped += 1
                return
        c = Conn(self.srv.sock)
        data = packets(op.get("pre", []), ver)
        will = dict(topic=op["will"], payload=b"refused will", qos=1, retain=op.get("wr", False)) if op.get("will") else None
        kw = dict(cid=op["cid"], ver=ver, clean=op["clean"], user=op.get("user"), will=will, keepalive=op.get("ka", 60))
        if ver >= 5 and op.get("exp") is not None: kw["props"] = [("session_expiry", op["exp"])]
        if op.get("pw"): kw["pw"] = op["pw"]
        if kind in ("wildcid", "wilduser", "otheruser", "wrongpw"): b = mqtt.connect(**kw)
        elif kind == "emptycid":
            kw.update(cid="", clean=False if ver == 4 else op["clean"])
            b = mqtt.connect(**kw)
        elif kind == "badver":
            b = mqtt.connect(**kw)
            name = b"MQTT" if ver > 3 else b"MQIsdp"
            i = b.index(name) + len(name)
            b = b[:i] + bytes([op["v"]]) + b[i + 1:]
        elif kind == "badname":
            b = mqtt.connect(**kw)
            name = b"MQTT" if ver > 3 else b"MQIsdp"
            b = b.replace(name, bytes.fromhex(op["v"])[:len(name)].ljust(len(name), b"x"), 1)
        elif kind == "method":
            kw["props"] = kw.get("props", []) + [("auth_method", "METHOD")] + ([("auth_data", b"data")] if op.get("v") else [])
            b = mqtt.connect(**kw)
        elif kind == "data":
            kw["props"] = kw.get("props", []) + [("auth_data", b"data")]
            b = mqtt.connect(**kw)
        elif kind == "raw":
            b = bytes.fromhex(op["v"])
        elif kind == "big":
            b = bytes([op["v"]]) + mqtt.varint(op["n"])
        elif kind == "flood":
            b = packets([op["v"]], ver) * 1000
        else:
            b = b""
        what = "connection %s %r" % (kind, {k: v for k, v in op.items() if k in ("cid", "user", "v", "ver", "clean")})
        if op.get("split") and data:
            c.send(data)
            self.srv.quiesce()
            self.refused(c, what, ver, ())
            if c.eof: self.bad("closed", "%s was closed before it sent CONNECT" % what)
            data = b""
        c.send(data + b + packets(op.get("post", []), ver))
        self.srv.quiesce()
        for _ in range(3):
            self.srv.step_clock(200); self.srv.quiesce(clock=True)
        self.model.now += 600
        self.refused(c, what, ver if kind not in ("badver", "badname") else 5)
        if kind == "nothing":
            if c.eof and op.get("open", True): self.bad("closed", "%s was closed at once" % what)
            if op.get("stay") and not c.eof:
                self.idle.append((c, self.model.now, what))
                self.settle()
                self.model.stat("refused_kinds")
                return
        elif not c.eof:
            self.bad("not-closed", "%s was refused but is still open" % what)
        c.close()
        self.model.stat("refused")
        self.model.stat("refused_" + kind)
        if s is not None and s.conn is not None: self.model.stat("refused_with_live_id")
        self.settle()

    def op_conn2(self, op):
        """A second CONNECT."""
        h = self.live(op)
        if not h: return
        m = h.m
        will = dict(topic=op["will"], payload=b"refused will", qos=1) if op.get("will") else None
        b = mqtt.connect(op["cid"], op.get("ver", m.ver), op["clean"], 60, m.user or None, None, will, [] if op.get("ver", m.ver) >= 5 else None)
        if m.ver >= 5: m.expected.append(Exp(DISCONNECT, dict(rc={0x82}), optional=True))
        h.c.send(b + packets(op.get("post", []), m.ver))
        m.closing = "must"
        self.model.stat("second_connect")
        self.model.conn_closed(m, False)
        self.settle()

    def finish(self):
        super().finish()
        for x in list(self.idle):
            c, at, what = x
            self.refused(c, what, 5)
            if not c.eof and self.model.now - at > 60000:
                self.bad("not-closed", "%s stays open for %d s without authenticating" % (what, (self.model.now - at) / 1000))
            if c.eof:
                if not self.in_advance and self.model.now - at < 10000: self.bad("closed", "%s was closed after %d ms" % (what, self.model.now - at))
                self.model.stat("refused"); self.model.stat("refused_idle")
                self.idle.remove(x); c.close()


def gen_a03(rng, i):
    g = Gen(rng, n_ops=(10, 22), n_cids=(2, 4), n_topics=(1, 4), users=[None, None, "u1", "u2"], wills=.5, retain=.3, wild=.6, clean=.4, exps=[0, 100, 3600, 36000], w=W(conn=5, disc=1, drop=1, sub=6, pub=9, burst=.5, adv=.7),
            advs=[1000, 30000, 70000], props=.1, hold=.3, nl=.05)
    ops = g.ops()
    unsafe_c, unsafe_u = rng.random() < .25, rng.random() < .25
    cfg = ""
    mp = {}
    if unsafe_c:
        cfg += "allow_unsafe_clientid_chars true\n"
        mp = {c: rng.choice(["+", "#", c + "/+", "#" + c]) + ("" if n else "") + c for n, c in enumerate(g.cids)}
        for o in ops:
            if "cid" in o: o["cid"] = mp[o["cid"]]
    um = {}
    if unsafe_u:
        cfg += "allow_unsafe_username_chars true\n"
        um = {"u1": "+", "u2": "u/#"}
        for o in ops:
            if o.get("user"): o["user"] = um[o["user"]]
    cids = [mp.get(c, c) for c in g.cids]
    pws = {}
    if rng.random() < .35:
        pws = {um.get(u, u): "pw of " + u for u in ("u1", "u2")}
        for o in ops:
            if o.get("user"): o["pw"] = pws[o["user"]]
    users = {mp.get(c, c): um.get(u, u) for c, u in g.user_of.items()}
    n = [0]

    def topic(): return rng.choice(g.topics)

    def filt(): return rng.choice(["#", "#", "$SYS/#", "+/#", rng.choice(g.filters or ["#"])])

    def spec(ver):
        n[0] += 1
        x = rng.random()
        if x < .35: return ["sub", filt(), rng.randint(1, 60), rng.randint(0, 2)]
        if x < .75: return ["pub", topic(), rng.choice([0, 1, 2]), rng.random() < .5, "sneak%d" % n[0], rng.randint(1, 60), rng.choice([0, 0, 1, 2]) if ver >= 5 else 0]
        if x < .8: return ["unsub", filt(), rng.randint(1, 60)]
        if x < .9: return ["ack", rng.choice([PUBACK, PUBREC, PUBREL, PUBCOMP]), rng.randint(1, 4)]
        return ["ping"]

    def specs(ver, lo=0, hi=4): return [spec(ver) for _ in range(rng.randint(lo, hi))]

    def bad():
        ver = rng.choice([3, 4, 4, 5, 5, 5])
        kinds = ["otheruser"] * 3 + ["emptycid", "badver", "badname", "raw", "big", "flood", "nothing", "nothing", "disc", "auth", "reserved"]
        if not unsafe_c: kinds += ["wildcid"] * 2
        if not unsafe_u: kinds += ["wilduser"] * 2
        if pws: kinds += ["wrongpw"] * 5
        if ver >= 5: kinds += ["method", "data"]
        k = rng.choice(kinds)
        if k == "emptycid" and ver == 5: ver = rng.choice([3, 4])
        cid = rng.choice(cids)
        o = dict(o="bad", kind=k, ver=ver, cid=cid, clean=rng.random() < .5, split=rng.random() < .4)
        if users.get(cid): o["user"] = users[cid]
        if rng.random() < .6:
            o["will"] = topic()
            if rng.random() < .4: o["wr"] = True
        if ver >= 5 and rng.random() < .5: o["exp"] = rng.choice([0, 0, 100, 3600])
        if rng.random() < .5: o["pre"] = specs(ver, 1)
        if rng.random() < .6: o["post"] = specs(ver, 1)
        if k == "wildcid": o["cid"] = rng.choice(["+", "#", cid + "+", cid + "/#", "+/" + cid, "#" + cid, "a" * 60 + "#"])
        elif k == "wilduser":
            o["user"] = rng.choice(["+", "#", (o.get("user") or "") + "+", "#" + (o.get("user") or ""), "b" * 60 + "+"])
        elif k == "otheruser":
            o["user"] = rng.choice(["u3", "U1", "u", "u11"])
            if rng.random() < .3: o.pop("user", None)
        elif k == "wrongpw":
            if not o.get("user"): o["user"] = rng.choice(sorted(pws))
            o["pw"] = rng.choice(["", "pw", pws[o["user"]] + "x", pws[o["user"]][:-1], pws[o["user"]].upper()])
        elif k == "badver": o["v"] = rng.choice([0, 1, 2, 6, 7, 100, 127] + ([3] if ver > 3 else [4, 5]))
        elif k == "badname": o["v"] = rng.choice([b"MQTt", b"mqtt", b"MQT\0", b"HTTP", b"MQIsdq", b"XXXX"]).hex()
        elif k == "method": o["v"] = rng.random() < .5
        elif k == "raw":
            o["v"] = rng.choice([b"GET / HTTP/1.1\r\nHost: x\r\n\r\n" * 30, b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03" + b"\0" * 300, b"\x00\x00", b"\x10\x00", b"\x10\x02\x00\x04", b"\x0f\x00",
                                 b"\xf0\x00", b"\x10\xff\xff\xff\xff\x01"]).hex()
            if o["v"].startswith("160301") or o["v"].startswith("4745"): o["kind"] = "raw"
        elif k == "big":
            o["v"], o["n"] = rng.choice([0x30, 0x10, 0x82, 0x60]), rng.choice([1048576, 2000000, 268435455])
            o.pop("post", None)
        elif k == "flood":
            o["v"] = spec(ver)
            o.pop("post", None); o["split"] = False
        elif k == "nothing":
            o["stay"] = rng.random() < .6
            if "post" in o: o["post"] = [s for s in o["post"] if s]
        elif k == "disc":
            o["kind"] = "raw"
            o["v"] = packets([["disc", rng.choice([0, 4, 0x81]), rng.choice([None, 0, 100])]], ver).hex()
        elif k == "auth":
            o["kind"] = "raw"
            o["v"] = packets([["auth", rng.choice([0, 0x18, 0x19]), rng.choice(["", "METHOD"])]], 5).hex()
        elif k == "reserved":
            o["kind"] = "raw"
            o["v"] = bytes([rng.randint(0, 15), 0]).hex()
        return o

    out = []
    for o in ops:
        if o["o"] == "conn" and rng.random() < .4:
            o["pre"] = specs(o["ver"], 1, 5)
            o["split"] = rng.random() < .5
        out.append(o)
        while rng.random() < .35:
            x = rng.random()
            if x < .8: out.append(bad())
            else:
                c2 = dict(o="conn2", k=rng.choice("uvwxyz"), cid=rng.choice(cids), clean=rng.random() < .5, post=None)
                v = rng.choice([3, 4, 5])
                c2["ver"] = v
                c2["post"] = [s for s in specs(v, 0, 3)]
                if rng.random() < .5: c2["will"] = topic()
                out.append(c2)
    case = dict(threads=rng.randint(1, 3), ops=out)
    if pws:
        case["pws"] = pws
        cfg += "mosquitto_password_file @DIR@/pw\n"
    if cfg: case["cfg"] = cfg
    return case


def run_a03(exes, case, stats):
    root = None
    if case.get("pws"):
        root = tempfile.mkdtemp(prefix="fq.", dir=SH_BASE)
        with open(root + "/pw", "w") as f:
            for u, pw in case["pws"].items(): f.write(hash_line(dict(u=u, pw=pw.encode().hex(), salt="0102030405060708", kind="6", it=1, var="ok", cut=1)) + "\n")
    w = None
    try:
        w = AWorld(exes["rel"], case.get("cfg", ""), None, threads=case.get("threads", 1), server_kw=dict(root=root))
        for op in case["ops"]: w.apply(op)
    except Violation as e:
        e.args = (e.args[0] + "\nlast events:\n" + "\n".join("  %6d %s %s %s" % (t, d, k, s[:240]) for t, d, k, s in w.trace[-14:]),)
        raise
    finally:
        if w:
            stats.update(w.stats)
            stats["deliveries"] = w.deliveries
            stats["skipped"] = w.skipped
            w.close()
        if root: shutil.rmtree(root, ignore_errors=True)


Check("A03", gen_a03, run_a03, 900, 18000,
      "Case: random history of normal clients on a real broker and the reference broker, with connections mixed in that must be refused or ignored: packets before CONNECT, second CONNECTs, wildcard client ids and "
      "user names, empty ids, wrong versions and names, unsupported authentication, AUTH / DISCONNECT first, ids of sessions of other users, oversized and endless packets before CONNECT, idle connections. Every "
      "packet anybody receives is compared. Distinct = different case JSON. Non-trivial = at least one refused connection or second CONNECT, and at least 2 deliveries",
      lambda c, s: s.get("refused", 0) + s.get("second_connect", 0) >= 1 and s.get("deliveries", 0) >= 2,
      technique="stateful model-based testing against a reference broker, ddmin shrinking")


# ---------------------------------------------------------------------------------------------------------------- A04
import ipaddress, re
import ws
SIG = b"\r\n\r\n\0\r\nQUIT\n"


def has_v6():
    import socket
    try:
        s = socket.socket(socket.AF_INET6); s.bind(("::1", 0)); s.close()
        return True
    except OSError:
        return False


V6 = has_v6()


def net_of(rng, addr, p=None, hit=None):
    """A network of prefix length p which contains addr, or differs from it in exactly one bit before / after the prefix."""
    a = ipaddress.ip_address(addr)
    w = 32 if a.version == 4 else 128
    n = int(a)
    if p is None: p = rng.choice([0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32] if w == 32 else [0, 1, 8, 31, 32, 33, 63, 64, 65, 95, 96, 97, 100, 127, 128]) if rng.random() < .7 else rng.randint(0, w)
    if hit is None: hit = rng.random() < .5
    if p == 0: hit = True
    # bits after the prefix are noise, which must not matter
    noise = rng.getrandbits(w - p) if p < w else 0
    n = (n >> (w - p) << (w - p)) | noise
    if not hit:
        k = rng.choice([0, p - 1, rng.randrange(p)])
        n ^= 1 << (w - 1 - k)
    t = ipaddress.ip_address(n.to_bytes(w // 8, "big"))
    s = str(t) if w == 32 or "." not in str(t) else t.exploded
    return s + ("" if p == w and rng.random() < .5 else "/%d" % p)


def in_net(addr, net):
    a = ipaddress.ip_address(addr)
    base, _, p = net.partition("/")
    b = ipaddress.ip_address(base)
    if a.version != b.version: return False
    w = 32 if a.version == 4 else 128
    p = int(p) if p else w
    return int(a) >> (w - p) == int(b) >> (w - p) if p else True


def src4(rng): return "127.%d.%d.%d" % (rng.choice([0, 0, 1, 127, 128, 255, rng.randint(0, 255)]), rng.choice([0, 0, 1, 128, 255, rng.randint(0, 255)]), rng.choice([1, 2, 127, 128, 254, rng.randint(1, 254)]))


def anyaddr(rng, ver):
    if ver == 4: return ".".join(str(rng.choice([0, 1, 10, 127, 128, 192, 224, 255, rng.randint(0, 255)])) for _ in range(4))
    return str(ipaddress.IPv6Address(rng.choice([1, 0, rng.getrandbits(128), rng.getrandbits(128), 0x20010db8 << 96 | rng.getrandbits(20), (0xfe80 << 112) | rng.getrandbits(64)])))


CNS = ["client", "a b", "ü", "x" * 60, "dev-1@example.org", "CN=x", "1", "user"]


def gen_hdr(rng, ssl):
    h = dict(cmd=1, fam=rng.choice([1, 1, 2]), prot=rng.choice([1, 1, 2]), tlvs=[])
    h["src"] = anyaddr(rng, 4 if h["fam"] == 1 else 6)
    h["dst"] = anyaddr(rng, 4 if h["fam"] == 1 else 6)
    for t in rng.sample([1, 2, 3, 4, 5, 0x30, 0xE0, 0xEA], rng.choice([0, 0, 1, 2, 4])):
        h["tlvs"].append([t, rng.randbytes(rng.choice([0, 1, 4, 8, 100, 300])).hex()])
    if ssl and rng.random() < .9 or rng.random() < .15:
        sub = []
        if rng.random() < .8: sub.append([0x21, b"TLSv1.3".hex()])
        if rng.random() < .85: sub.append([0x22, rng.choice(CNS).encode().hex()])
        elif rng.random() < .3: sub.append([0x22, ""])
        for t in rng.sample([0x23, 0x24, 0x25, 0x99], rng.randint(0, 3)): sub.append([t, rng.randbytes(rng.randint(0, 40)).hex()])
        rng.shuffle(sub)
        h["tlvs"].insert(rng.randint(0, len(h["tlvs"])), [0x20, sub])
    if rng.random() < .12: h["cmd"], h["fam"] = 0, rng.choice([0, 1, 2])
    if h["cmd"] == 0 and h["fam"] == 0: h["prot"] = 0
    if rng.random() < .35:
        h["bad"] = rng.choice(["sig", "ver", "cmd", "fam", "prot", "short", "tlvlen", "duptlv", "sslshort", "tlvcut", "utf8", "cut", "v1", "none", "subdup", "sublen", "nest"])
        h["n"] = rng.randint(0, 1 << 30)
    return h


def tlv(t, d): return bytes([t]) + struct.pack(">H", len(d)) + d


def build_hdr(h):
    """-> bytes, split offsets allowed, True when a receiver must refuse it"""
    n = h.get("n", 0)
    bad = h.get("bad")
    refuse = False
    if h["fam"] == 0: ad = b""
    elif h["fam"] == 1: ad = ipaddress.ip_address(h["src"]).packed + ipaddress.ip_address(h["dst"]).packed + struct.pack(">HH", 1234, 1883)
    else: ad = ipaddress.ip_address(h["src"]).packed + ipaddress.ip_address(h["dst"]).packed + struct.pack(">HH", 1234, 1883)
    if h["fam"] and len(ad) != (12 if h["fam"] == 1 else 36): ad = b"\0" * (12 if h["fam"] == 1 else 36)
    tl = []
    for t, v in h["tlvs"]:
        if t == 0x20:
            subs = [tlv(a, bytes.fromhex(b)) for a, b in v]
            if bad == "subdup" and subs: subs.append(subs[n % len(subs)]); refuse = True
            if bad == "sublen" and subs: subs[-1] = subs[-1][:1] + struct.pack(">H", len(subs[-1]) - 3 + 1 + n % 300) + subs[-1][3:]; refuse = True
            if bad == "utf8": subs = [s for s in subs if s[0] != 0x22] + [tlv(0x22, [b"\xff", b"a\xc3", b"\xed\xa0\x80", b"\xc0\xaf"][n % 4])]; refuse = True
            if bad == "nest": subs.append(tlv(0x20, b"\1\0\0\0\0" + tlv(0x20, b"\1\0\0\0\0"))); refuse = True
            d = b"\1\0\0\0\0" + b"".join(subs)
            if bad == "sslshort": d = d[:n % 5]; refuse = True
            tl.append(tlv(0x20, d))
        else: tl.append(tlv(t, bytes.fromhex(v)))
    if bad == "duptlv" and tl: tl.append(tl[n % len(tl)]); refuse = True
    body = b"".join(tl)
    if bad == "tlvlen" and tl: body = body[:len(body) - len(tl[-1])] + tl[-1][:1] + struct.pack(">H", min(65535, len(tl[-1]) - 3 + 1 + n % 1000)) + tl[-1][3:]; refuse = True
    if bad == "tlvcut": body += [b"\x04", b"\x04\x00"][n % 2]; refuse = True
    sig, vc, fp = SIG, 0x20 | h["cmd"], (h["fam"] << 4) | h["prot"]
    ln = len(ad) + len(body)
    if bad == "sig": i = n % 12; sig = sig[:i] + bytes([sig[i] ^ (1 << (n // 12 % 8))]) + sig[i + 1:]; refuse = True
    if bad == "ver": vc = ([0, 1, 3, 4, 15][n % 5] << 4) | h["cmd"]; refuse = True
    if bad == "cmd": vc = 0x20 | (2 + n % 14); refuse = True
    if bad == "fam": fp = ((4 + n % 12) << 4) | h["prot"]; refuse = True
    if bad == "prot" and h["cmd"] == 1: fp = (h["fam"] << 4) | (3 + n % 13); refuse = True
    if bad == "short" and ad: ln = n % len(ad); refuse = True
    out = sig + bytes([vc, fp]) + struct.pack(">H", ln) + ad + body
    if bad == "cut": out = out[:1 + n % (15 + len(ad))]; refuse = True
    if bad == "v1": out = b"PROXY TCP4 1.2.3.4 5.6.7.8 1234 1883\r\n"; refuse = True
    if bad == "none": out = b""; refuse = True
    return out, 16 + len(ad), refuse


def gen_a04(rng, i):
    ls = []
    for _ in range(rng.randint(1, 3)):
        l = dict(six=V6 and rng.random() < .3, mode=rng.choice(["net", "net", "on", "client_verification", "client_verification_with_authn", "ws"]), allow=[], deny=[])
        if l["mode"] != "net" and rng.random() < .7: pass
        else:
            mk = lambda: net_of(rng, src4(rng) if rng.random() < .8 and not l["six"] else ("::1" if rng.random() < .8 else anyaddr(rng, rng.choice([4, 6]))))
            l["allow"] = [mk() for _ in range(rng.choice([0, 1, 1, 2, 4]))]
            l["deny"] = [mk() for _ in range(rng.choice([0, 0, 1, 2]))]
        if l["mode"] == "ws": l["ha"] = rng.random() < .3
        ls.append(l)
    conns = []
    for _ in range(rng.randint(6, 16)):
        k = rng.randrange(len(ls))
        l = ls[k]
        c = dict(l=k, src="::1" if l["six"] else src4(rng), ver=rng.choice([4, 5]), split=rng.random() < .4, at=rng.randint(0, 1 << 20))
        # sources close to the edges of the configured networks
        if not l["six"] and l["allow"] + l["deny"] and rng.random() < .7:
            base, _, p = rng.choice(l["allow"] + l["deny"]).partition("/")
            if ":" not in base:
                a, p = int(ipaddress.ip_address(base)), int(p or 32)
                x = a ^ (1 << rng.choice([31 - b for b in (p - 1, p, p - 2, 31, 8, 9) if 0 <= b <= 31])) if rng.random() < .8 else a
                t = str(ipaddress.ip_address(x & 0xFFFFFFFF))
                if t.startswith("127.") and not t.endswith(".255") and t != "127.0.0.0": c["src"] = t
        if l["mode"] not in ("net", "ws") or l.get("ha"): c["hdr"] = gen_hdr(rng, l["mode"].startswith("client"))
        if l["mode"] == "ws":
            c["rip"] = rng.choice([None, anyaddr(rng, 4), anyaddr(rng, 6), "not an address", "1.2.3", "1.2.3.4.5", "x" * 70, "1.2.3.4"])
        if rng.random() < .3: c["user"] = rng.choice(["mqttuser", "client"])
        conns.append(c)
    trust = [net_of(rng, src4(rng) if rng.random() < .6 else rng.choice(["::1", anyaddr(rng, 4), anyaddr(rng, 6)])) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if rng.random() < .6:
        for l in ls:
            for c in conns:
                if rng.random() < .5 and ls[c["l"]]["mode"] == "ws": trust.append(net_of(rng, c["src"])); break
    return dict(ls=ls, items=conns, trust=trust, anon=rng.random() < .8, threads=rng.randint(1, 2))


def logtext(srv):
    try:
        with open(srv.log, errors="replace") as f: return f.read()
    except FileNotFoundError:
        return ""


def run_a04(exes, case, st):
    ports, lst = [], ""
    for l in case["ls"]:
        p = free_port(); ports.append(p)
        lst += "listen {\n protocol %s\n port %d\n inet_protocol %s\n %s\n" % ("websockets" if l["mode"] == "ws" else "mqtt", p, "ip6" if l["six"] else "ip4", "inet6_bind_address ::1" if l["six"] else "inet4_bind_address 127.0.0.1")
        if l["mode"] not in ("net", "ws"): lst += " haproxy %s\n" % l["mode"]
        if l.get("ha"): lst += " haproxy on\n"
        for n in l["allow"]: lst += " only_allow_from %s\n" % n
        for n in l["deny"]: lst += " deny_from %s\n" % n
        lst += "}\n"
    lst += "listen {\n protocol mqtt\n inet_protocol unix\n unix_socket_path @SOCK@\n}\n"
    cfg = "\nlog_level notice\nallow_anonymous %s\n" % ("true" if case["anon"] else "false") + "".join("websocket_set_real_ip_from %s\n" % n for n in case["trust"])
    srv = Server(exes["rel"], cfg, threads=case["threads"], listeners=lst, start=False)
    conns = []
    try:
        srv.start()
        todo = []
        for n, c in enumerate(case["items"]):
            l = case["ls"][c["l"]]
            for tries in range(200):
                try:
                    k = Conn(addr=("::1" if l["six"] else "127.0.0.1", ports[c["l"]]), source=c["src"])
                    break
                except OSError as e:
                    srv.check_alive()
                    if tries == 199: raise Inconclusive("connect: %s" % e)
                    time.sleep(.02)
            conns.append(k)
            ok = not any(in_net(c["src"], x) for x in l["deny"]) and (not l["allow"] or any(in_net(c["src"], x) for x in l["allow"]))
            addr, user = c["src"], c.get("user") or ""
            st["net_denied" if not ok else "net_allowed"] = st.get("net_denied" if not ok else "net_allowed", 0) + 1
            why = "" if ok else "address %s not admitted by allow %s deny %s" % (c["src"], l["allow"], l["deny"])
            pre, off, wait = b"", 0, False
            loose = False
            if "hdr" in c:
                h = c["hdr"]
                pre, off, ref = build_hdr(h)
                cn = None
                for t, v in h["tlvs"]:
                    if t == 0x20:
                        for a, b in v:
                            if a == 0x22: cn = bytes.fromhex(b).decode()
                if ok and ref: ok, why = False, "header is malformed (%s)" % h.get("bad")
                elif ok and h["cmd"] == 0: ok, why = False, "header says LOCAL"; loose = True
                elif ok:
                    addr = h["src"]
                    if l["mode"].startswith("client"):
                        if not cn: ok, why = False, "no client certificate name"
                        else: user = cn
                if ok: st["proxied"] = st.get("proxied", 0) + 1
                elif ref: st["bad_header"] = st.get("bad_header", 0) + 1
                if cn and ok: st["cn"] = st.get("cn", 0) + 1
            if ok and not case["anon"] and not l["mode"] == "client_verification": ok, why = False, "anonymous and unknown users are not allowed"
            cid = "cid%d" % n
            con = mqtt.connect(cid, c["ver"], True, 0, c.get("user"), "pw" if c.get("user") else None, None, [] if c["ver"] >= 5 else None)
            k.todo = []
            if l["mode"] == "ws":
                extra = [("X-Real-IP", c["rip"])] if c.get("rip") else []
                if c.get("rip") and ok and any(in_net(addr, x) for x in case["trust"]):
                    try:
                        addr = str(ipaddress.ip_address(c["rip"])) if len(c["rip"]) < 64 else addr
                        st["real_ip"] = st.get("real_ip", 0) + 1
                    except ValueError:
                        pass
                k.r = ws.Reader()
                first = pre + ws.request(extra=extra)
                k.todo = [ws.frame(con)]
            else: first = pre + con
            if c.get("hdr", {}).get("bad") == "cut": first, k.todo = pre, []
            if c["split"] and "hdr" in c and not c["hdr"].get("bad") == "cut" and len(pre) > off:
                cut = off + c["at"] % (len(pre) - off)
                k.send(first[:cut])
                srv.quiesce()
                st["split"] = st.get("split", 0) + 1
                first = first[cut:]
            k.send(first)
            todo.append((k, c, l, ok, why, addr, user, cid, loose))
        srv.quiesce()
        for k, *_ in todo:
            for x in k.todo: k.send(x)
        srv.quiesce()
        for _ in range(8):
            srv.step_clock(1000); srv.quiesce(clock=True)
        log = logtext(srv)
        for k, c, l, ok, why, addr, user, cid, loose in todo:
            k.pump()
            data = bytes(k.buf)
            if l["mode"] == "ws":
                try: k.r.feed(k.buf)
                except ws.Bad as e: raise Violation("wire", str(e))
                data = bytes(k.r.data)
            what = "connection %s from %s to %s (%s)" % (cid, c["src"], l, c.get("hdr"))
            if ok:
                pk = [mqtt.decode(a, b, c["ver"]) for a, b in mqtt.split(bytearray(data))]
                if len(pk) != 1 or pk[0].t != CONNACK or pk[0].rc != 0 or k.eof:
                    raise Violation("refused", "%s should be served, got %s eof=%s\n%s" % (what, data[:60].hex(), k.eof, log[-600:]))
                pat = r"Client '\[ClientID='%s', username='(.*)', fd=\d+, keepalive=\d+s, transport='[^']*', address='([^']*)'.*logged in successfully" % cid
                for _ in range(300):
                    m = re.search(pat, log)
                    if m: break
                    time.sleep(.01)         # the log is written by a thread of its own
                    log = logtext(srv)
                if not m: raise Inconclusive("no log line about the login of %s: %s" % (what, log[-900:]))
                if m.group(1) != user: raise Violation("user", "%s is known as user %r, should be %r" % (what, m.group(1), user))
                got = m.group(2)
                try: same = ipaddress.ip_address(got) == ipaddress.ip_address(addr)
                except ValueError: same = False
                if not same: raise Violation("address", "%s has address %r, should be %r" % (what, got, addr))
                st["served"] = st.get("served", 0) + 1
            else:
                pk = mqtt.split(bytearray(data))
                for a, b in pk:
                    if a >> 4 == CONNACK and b[1] == 0 or a >> 4 not in (CONNACK, DISCONNECT): raise Violation("accepted", "%s was served although %s" % (what, why))
                if why.startswith("address") and k.buf: raise Violation("answered", "%s got %s although %s" % (what, bytes(k.buf[:60]).hex(), why))
                if not k.eof and not (c.get("hdr", {}).get("bad") == "none" or loose):
                    raise Violation("not-closed", "%s stays open although %s" % (what, why))
                if "ClientID='%s'" % cid in log and "logged in" in log.split("ClientID='%s'" % cid, 1)[1].split("\n")[0]: raise Violation("accepted", "%s logged in although %s" % (what, why))
                st["denied"] = st.get("denied", 0) + 1
        # the broker still serves
        k = Conn(srv.sock)
        conns.append(k)
        k.send(mqtt.connect("last", 4, True, 0))
        srv.quiesce(); k.pump()
        if bytes(k.buf) != (b"\x20\x02\0\0" if case["anon"] else b"\x20\x02\0\5"): raise Violation("refused", "a later client got %s" % bytes(k.buf).hex())
        srv.check_alive()
    finally:
        for k in conns: k.close()
        srv.close()


Check("A04", gen_a04, run_a04, 2500, 40000,
      "Case: a broker with 1 to 3 TCP listeners (plain, PROXY protocol in all modes, websockets), random allow / deny / trusted networks whose prefixes differ from the peer's address in single bits, and 6 to 16 "
      "connections from loopback addresses with well-formed and malformed PROXY headers and X-Real-IP headers, in one or two segments. Admission, address and user name (from the log) are compared with independent "
      "integer prefix arithmetic and header rules. Distinct = different case JSON. Non-trivial = at least two connections served and two denied",
      lambda c, s: s.get("served", 0) >= 2 and s.get("denied", 0) >= 2, shrink=None,
      technique="property-based testing against independent address arithmetic and a PROXY header encoder, ddmin shrinking")
