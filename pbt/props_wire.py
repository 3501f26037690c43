"""F01-F04: what arrives as bytes."""
import copy, json, random, re, struct, time, zlib
import links, mqtt, ws
from mqtt import *
from runner import Check
from server import Server, Conn, free_port, Hang, Inconclusive
from world import Violation, World, payload
from links import Link, cuts, STYLES

# ------------------------------------------------------------------------------------------------ streams
TOPICS = ["a", "a/b", "b", "a/b/c", "x/" + "y" * 40, "é/ü"]
FILTERS = ["a", "a/b", "#", "a/#", "+/b", "b", "a/+/c", "x/#", "+"]


def near(rng, big):
    k = rng.randint(7, 17 if big else 12)
    return max(0, (1 << k) + rng.randint(-4, 4) - rng.choice([0, 0, 20, 24]))


def gen_stream(rng, ver, big, tail, alias_in=65535):
    """items of one client's stream"""
    items = []
    n = rng.randint(6, 26)
    pid = 0
    rel = []
    aliases = {}
    if rng.random() < .8:
        items.append(dict(o="sub", subs=[[rng.choice(FILTERS), rng.choice([0, 0, 1, 2])] for _ in range(rng.randint(1, 3))]))
    for _ in range(n):
        k = rng.choices(["pub", "sub", "unsub", "ping", "rel", "redup"], [14, 2, 1.2, 1.5, 3, 1])[0]
        if k == "pub":
            q = rng.choice([0, 0, 1, 2])
            size = rng.choices([rng.randint(0, 30), rng.randint(100, 140), near(rng, big), rng.randint(200, 5000), rng.randint(0, 3)], [5, 2, 5, 2, 2])[0]
            it = dict(o="pub", t=rng.choice(TOPICS), q=q, n=size, r=int(rng.random() < .15))
            if ver >= 5 and rng.random() < .4 and alias_in:
                al = rng.randint(1, min(3, alias_in))
                if al in aliases and rng.random() < .6:
                    it["al"], it["t"] = al, ""
                else:
                    it["al"] = al
                    aliases[al] = it["t"]
            if ver >= 5 and rng.random() < .3: it["u"] = [["k" * rng.randint(0, 5), "v" * rng.choice([0, 3, 120, 130])]]
            if q:
                pid += 1
                it["pid"] = pid
                if q == 2: rel.append(pid)
            items.append(it)
        elif k == "redup":
            l = [x for x in items if x["o"] == "pub" and x.get("q") == 2 and x["pid"] in rel and "al" not in x]
            if l: items.append(dict(rng.choice(l), dup=1))
        elif k == "rel":
            if rel: items.append(dict(o="rel", pid=rel.pop(rng.randrange(len(rel)))))
        elif k == "sub": items.append(dict(o="sub", subs=[[rng.choice(FILTERS), rng.choice([0, 0, 1, 2])] for _ in range(rng.choice([1, 1, 2, 12]))]))
        elif k == "unsub": items.append(dict(o="unsub", fs=[rng.choice(FILTERS) for _ in range(rng.choice([1, 2]))]))
        else: items.append(dict(o="ping"))
    if tail:
        items.append(dict(o="bad", hex=rng.choice(BAD[5 if ver >= 5 else 4])))
        for _ in range(rng.randint(0, 3)):
            items.append(dict(o="pub", t=rng.choice(TOPICS), q=0, n=rng.choice([3, 700]), r=1))     # no effect
    return items


def H(b): return b.hex()


# streams that end the connection, whole packets
BAD = {
    4: [H(b"\x00\x00"), H(b"\x30\x03\x00\x01#"), H(b"\x36\x05\x00\x01a\x00\x01"), H(b"\x80\x00"), H(b"\x82\x05\x00\x00\x00\x00\x00"), H(b"\xf0\x00"), H(b"\x30\x80\x80\x80\x80\x01"),
        H(mqtt.connect("again", 4)), H(b"\x32\x05\x00\x01a\x00\x00"), H(b"\xc1\x00"), H(b"\x60\x02\x00\x01"), H(b"\x30\x04\x00\x09ab"), H(b"\x30\x01\x00")],
    5: [H(b"\x00\x00"), H(b"\x30\x04\x00\x01#\x00"), H(b"\x36\x06\x00\x01a\x00\x01\x00"), H(b"\x80\x00"), H(b"\x82\x05\x00\x00\x00\x00\x00"), H(b"\x30\x80\x80\x80\x80\x01"),
        H(mqtt.connect("again", 5)), H(b"\x32\x06\x00\x01a\x00\x00\x00"), H(b"\xc1\x00"), H(b"\x60\x02\x00\x01"), H(b"\x30\x04\x00\x09ab"), H(b"\x30\x07\x00\x01a\x03\x23\x00\x00"),
        H(b"\x30\x05\x00\x01a\x01\x7f")],
}


def gen_session(rng, i, tls=True):
    ver = rng.choice([3, 4, 5, 5])
    wb = rng.choice([None, None, None, 4096, 16384])
    cfg = "max_qos_bytes_pending_per_client 268435456\n"
    if rng.random() < .4: cfg += "client_initial_buffer_size %d\n" % rng.choice([64, 128, 256, 512, 2048, 8192])
    big = rng.random() < .25
    mp = None
    if wb:
        cfg += "client_max_write_buffer_size %d\n" % wb
    else:
        cfg += "client_max_write_buffer_size 67108864\n"
    case = dict(ver=ver, threads=rng.randint(1, 3), cfg=cfg, clean=int(rng.random() < .6), will=int(rng.random() < .3), end=rng.choice(["disc", "drop", "stay"]))
    case["items"] = gen_stream(rng, ver, big, rng.random() < .3)
    if wb:
        for it in case["items"]:
            if it["o"] == "pub" and it["q"] == 0:
                it["q"] = 1
                pids = [x.get("pid", 0) for x in case["items"]]
                it["pid"] = max(pids) + 1
        for it in case["items"]:
            if it["o"] == "sub": it["subs"] = [[f, max(1, q)] for f, q in it["subs"]]
    if rng.random() < .25:
        mp = rng.choice([700, 3000, 5000, 12000, 65536, 100000, 150000])
        case["cfg"] += "max_packet_size %d\n" % mp
        case["mp"] = mp
        over = rng.random() < .4
        # packets right below the limit; one above it is refused
        l = [it for it in case["items"] if it["o"] == "pub"]
        if l: rng.choice(l)["n"] = ["limit", rng.choice([0, 0, -1, -2, -700])]
        for k, it in enumerate(l):
            if isinstance(it["n"], int) and it["n"] > mp - 300: it["n"] = mp - 300 - rng.randint(0, 100)
        if over and l: rng.choice(l)["n"] = ["limit", rng.choice([1, 1, 2, 300])]
    if rng.random() < .04:
        l = [it for it in case["items"] if it["o"] == "pub"]
        if l and not mp: l[0]["n"] = rng.choice([1 << 20, (1 << 20) + 5000, 3000000])
    if ver >= 5:
        case["rm"] = rng.choice([None, None, 1, 3])
        case["am"] = rng.choice([None, 2, 10])
    return case


def build(case):
    """-> bytes, packet offsets, number of packets until one that is refused (None: all fine)"""
    ver = case["ver"]
    out, offs = b"", []
    props = {}
    if ver >= 5:
        props = {"session_expiry": 0 if case["clean"] else 3600}
        if case.get("rm"): props["recv_max"] = case["rm"]
        if case.get("am"): props["alias_max"] = case["am"]
    will = dict(topic="will/x", payload=b"w", qos=1) if case["will"] else None
    pk = [mqtt.connect("subj", ver, bool(case["clean"]), 0, props=props, will=will)]
    spid = 1000
    al = {}
    for k, it in enumerate(case["items"]):
        o = it["o"]
        if o == "pub":
            pr = {}
            t = it["t"]
            if not t and it.get("al") not in al: t = TOPICS[0]      # only in shrunk cases
            if "al" in it:
                pr["alias"] = it["al"]
                if t: al[it["al"]] = t
            if it.get("u"): pr["user"] = [tuple(x) for x in it["u"]]
            n = it["n"]

            def mk(n): return mqtt.publish(ver, t, random.Random(k * 7919 + n).randbytes(n), it["q"], bool(it["r"]), it.get("pid", 0), bool(it.get("dup")), pr)
            if isinstance(n, list):
                want = case["mp"] + n[1]
                m = max(0, want - len(mk(0)) - 6)
                while len(mk(m)) < want: m += 1
                n = m
            pk.append(mk(n))
        elif o == "sub":
            spid += 1
            pk.append(mqtt.subscribe(ver, spid, [(f, q) for f, q in it["subs"]]))
        elif o == "unsub":
            spid += 1
            pk.append(mqtt.unsubscribe(ver, spid, it["fs"]))
        elif o == "rel": pk.append(mqtt.ack(PUBREL, it["pid"], ver))
        elif o == "ping": pk.append(mqtt.pingreq())
        elif o == "bad": pk.append(bytes.fromhex(it["hex"]))
    if case["end"] == "disc": pk.append(mqtt.disconnect(ver))
    for p in pk:
        offs.append(len(out))
        out += p
    return out, offs, pk


class Aliases:
    def __init__(self): self.m = {}

    def fix(self, p):
        a = p.props.pop("alias", None)
        if a is not None:
            if p.topic == "": p["topic"] = self.m.get(a, "?unknown alias %d" % a)
            else: self.m[a] = p.topic


class Obs:
    """Packets one connection received"""
    def __init__(self, ver):
        self.ver, self.log, self.al = ver, [], Aliases()

    def take(self, buf):
        try:
            for first, body in mqtt.split(buf):
                p = mqtt.decode(first, body, self.ver)
                if p.t == PUBLISH: self.al.fix(p)
                self.log.append(p)
                yield p
        except Malformed as e:
            raise Violation("wire", "malformed packet from the broker: %s" % e)

    def norm(self):
        ctl = [norm(p) for p in self.log if p.t != PUBLISH]
        pub = {}
        for p in self.log:
            if p.t == PUBLISH: pub.setdefault(p.topic, []).append(norm(p))
        return ctl, pub


def norm(p):
    d = {k: v for k, v in p.items() if k != "raw_len" and not (k == "pid" and p.t in (PUBLISH, PUBREL))}      # ids the broker picks: order of messages on different topics
    if isinstance(d.get("payload"), bytes) and len(d["payload"]) > 40: d["payload"] = (len(d["payload"]), d["payload"][:20], d["payload"][-10:], zlib.crc32(d["payload"]))
    return json.dumps(d, default=str, sort_keys=True)


def session(exe, case, var, stats):
    """Run the stream once, cut up as var says -> observation"""
    stream, offs, pk = build(case)
    kind = var["kind"]
    rng = random.Random(var["seed"])
    port = free_port() if kind != "mqtt" else None
    srv = Server(exe, case["cfg"], threads=case["threads"], listeners="listen {\n protocol mqtt\n inet_protocol unix\n unix_socket_path @SOCK@\n}\n"
                 + (links.listener(kind, port) if kind != "mqtt" else ""))
    try:
        w = Conn(srv.sock)
        wo = Obs(5)
        wp = 0
        w.send(mqtt.connect("watch", 5, True, 0) + mqtt.subscribe(5, 1, [("#", 2)]))
        srv.quiesce()
        try:
            l = Link(srv, kind, srv.sock if kind == "mqtt" else None, rng, var.get("hs", "all"), port)
        except ConnectionError as e:
            raise Violation("refused", "%s connection: %s" % (kind, e))
        if l.ws is not None:
            if not (l.ws.http or "").startswith("HTTP/1.1 101"): raise Violation("upgrade", "upgrade refused: %r" % l.ws.http)
            if l.ws.accept() != ws.accept_of().decode() or l.ws.subprotocol() != "mqtt": raise Violation("upgrade", "wrong answer: %r" % l.ws.http)
        so = Obs(case["ver"])
        rel = []

        def drain():
            more = False
            if w.pump(): more = True
            for p in wo.take(w.buf):
                if p.t == PUBLISH and p.qos: w.send(mqtt.ack(PUBACK if p.qos == 1 else PUBREC, p.pid, 5)); more = True
                elif p.t == PUBREL: w.send(mqtt.ack(PUBCOMP, p.pid, 5)); more = True
            if l.pump(): more = True
            for p in so.take(l.mq): pass
            if not more and l.c.inflight():
                time.sleep(.0003)
                return True
            return more

        def settle():
            end = time.monotonic() + 20
            while time.monotonic() < end:
                srv.quiesce()
                if not drain(): return
            raise Hang("traffic does not settle")

        last = None
        if case["end"] == "disc" and case.get("rm"):        # answers that the receive maximum holds back would depend on when the DISCONNECT comes
            last = pk.pop()
            stream = stream[:offs.pop()]
        if var["style"] == "each":
            for p in pk:
                if not l.send(p): break
                settle()
        else:
            opt = dict(rec=var.get("rec", "all"), frm=var.get("frm", "all"), noise=var.get("noise", 0), frag=var.get("frag", 0), settle=var.get("settle", .4)) if kind != "mqtt" \
                else dict(settle=var.get("settle", .4))
            head = var.get("first")
            if head:        # wait for the CONNACK first
                l.send(pk[0])
                settle()
                l.send(stream[len(pk[0]):], var["style"], [o - len(pk[0]) for o in offs if o > len(pk[0])], **opt)
            else:
                l.send(stream, var["style"], offs, **opt)
            settle()
        if last:
            l.send(last)
            settle()
        for _ in range(6):
            srv.step_clock(100)
            srv.quiesce(clock=True)
            drain()
        settle()
        closed = l.eof
        if l.mq and not (closed and (case["end"] == "disc" or case["ver"] < 5)): raise Violation("wire", "%s: incomplete packet left: %s" % (kind, bytes(l.mq[:40]).hex()))
        if l.ws is not None:
            got = [d for op, d in l.ws.frames if op == 10]
            want = l.pongs
            if (got != want[:len(got)]) or (len(got) < len(want) and not closed): raise Violation("pong", "pongs %r for pings %r" % ([x.hex() for x in got], [x.hex() for x in want]))
            stats["pings"] = stats.get("pings", 0) + len(want)
            stats["frames_in"] = stats.get("frames_in", 0) + len(l.ws.frames)
        if case["end"] == "drop" and not closed:
            l.close()
            settle()
            srv.step_clock(4000)
            srv.quiesce(clock=True)
            settle()
        # what remains: session and retained messages
        z = Conn(srv.sock)
        zo = Obs(5)
        z.send(mqtt.connect("last", 5, True, 0) + mqtt.subscribe(5, 1, [("#", 0)]))
        c2 = None
        c2o = Obs(case["ver"])
        if case["end"] != "stay" or closed:
            c2 = Conn(srv.sock)
            c2.send(mqtt.connect("subj", case["ver"], False, 0, props={}))
        for _ in range(8):
            srv.step_clock(60)
            srv.quiesce(clock=True)
            settle()
            while z.pump() or (c2 and c2.pump()):
                srv.quiesce()
        list(zo.take(z.buf))
        if c2: list(c2o.take(c2.buf))
        if l.ws is not None and not l.closed_ws: l.pump()
        r = dict(subject=so.norm(), closed=closed, watcher=wo.norm(), retained=zo.norm()[1], later=c2o.norm() if c2 else None)
        l.close(); w.close(); z.close()
        if c2: c2.close()
        return r
    finally:
        srv.close()


def diff(a, b, cut=False):
    """cut: the answers to the subject may be cut short"""
    for k in a:
        if cut and k == "subject":
            (ca, pa), (cb, pb) = a[k], b[k]
            if cb == ca[:len(cb)] and all(v == pa.get(t, [])[:len(v)] for t, v in pb.items()): continue
        if a[k] == b[k]: continue
        if isinstance(a[k], bool): return "connection closed: %s vs %s" % (a[k], b[k])
        pa, pb = [], []
        for src, dst in ((a[k], pa), (b[k], pb)):
            for part in (src if isinstance(src, tuple) else (src,)):
                if isinstance(part, list): dst.append(("control", part))
                elif isinstance(part, dict): dst += [(t, v) for t, v in part.items()]
        da, db = dict(pa), dict(pb)
        for t in list(da) + [x for x in db if x not in da]:
            x, y = da.get(t, []), db.get(t, [])
            if x != y:
                i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                return "%s / %s differs at %d of %d/%d: %s vs %s" % (k, t, i, len(x), len(y), x[i:i + 2], y[i:i + 2])
        return "%s differs" % k
    return None


def run_session(exes, case, stats):
    exe = exes[case.get("variant", "rel")]
    base = session(exe, case, dict(kind="mqtt", style="each", seed=1), stats)
    stats["packets"] = len(build(case)[1])
    stats["answers"] = len(base["subject"][0]) + sum(map(len, base["subject"][1].values()))
    bad = any(it["o"] == "bad" or (isinstance(it.get("n"), list) and it["n"][1] > 0) for it in case["items"])
    if base["closed"] and not bad and case["end"] != "disc":
        raise Violation("closed", "the broker closed the connection on a valid stream: %s" % (base["subject"][0][-3:],))
    if bad and not base["closed"]: raise Violation("not-closed", "a malformed or oversized packet did not end the connection: %s" % (base["subject"][0][-3:],))
    for v in case["vars"]:
        r = session(exe, case, v, stats)
        d = diff(base, r, case["end"] == "disc" or (bad and (case["ver"] < 5 or v["kind"] != "mqtt")))     # after DISCONNECT or an error before MQTT5, answers may be cut short;
        # closing a TCP connection with bytes still unread resets it, whereupon the peer's kernel drops what it had not read
        if d: raise Violation("segmentation", "sent packet by packet over TCP vs %s: %s" % (json.dumps(v), d))
        stats["variants"] = stats.get("variants", 0) + 1
        stats["kind_" + v["kind"]] = stats.get("kind_" + v["kind"], 0) + 1


def gen_f02(rng, i):
    case = gen_session(rng, i)
    vs = []
    for k in range(3):
        v = dict(kind="mqtt" if rng.random() < .7 else "tls", style=rng.choice(STYLES), seed=rng.randrange(1 << 30), settle=rng.choice([0, .3, 1]))
        if k == 0: v.update(kind="mqtt", style="all")
        if v["kind"] == "tls": v.update(rec=rng.choice(["all", "packets", "rand", "edges", "pow2"]), hs=rng.choice(["all", "rand"]))
        if rng.random() < .3: v["first"] = 1
        vs.append(v)
    case["vars"] = vs
    return case


def gen_f03(rng, i):
    case = gen_session(rng, i)
    if rng.random() < .3:
        for it in case["items"]:
            if it["o"] == "pub" and rng.random() < .3 and isinstance(it["n"], int) and "mp" not in case and (it["q"] or "67108864" in case["cfg"]):
                it["n"] = rng.choice([110, 118, 120, 122, 124, 126, 65520, 65530, 65536, 70000])
    vs = []
    for k in range(2):
        v = dict(kind="ws" if rng.random() < .75 else "wss", style=rng.choice(STYLES), seed=rng.randrange(1 << 30), settle=rng.choice([0, .3, 1]),
                 frm=rng.choice(["all", "packets", "rand", "edges", "pow2", "bytes", "groups"]), noise=rng.choice([0, .2, .4]), frag=rng.choice([0, 0, .3, .7]))
        if v["kind"] == "wss": v.update(rec=rng.choice(["all", "packets", "rand", "edges", "pow2"]))
        v["hs"] = rng.choice(["all", "rand", "bytes"])
        if rng.random() < .3: v["first"] = 1
        vs.append(v)
    case["vars"] = vs
    return case


Check("F02", gen_f02, run_session, 400, 8000,
      "Case: a stream of MQTT packets of one client (all packet types, sizes around powers of two and max_packet_size, sometimes ending in a malformed packet), sent to a fresh broker packet "
      "by packet and then three more times to fresh brokers cut up differently (one segment, single bytes, cuts inside packets, chunks of 2^n +-1, some over TLS with "
      "records cut differently again). Compared: every packet on the connection, at a watcher, the retained messages, the session and whether the connection was closed. Non-trivial = at "
      "least 8 packets in the stream and 4 answers to it",
      lambda c, s: s.get("packets", 0) >= 8 and s.get("answers", 0) >= 4 and s.get("variants", 0) >= 3,
      technique="metamorphic testing: same byte stream, different segmentation; ddmin shrinking")


FILLS = json.loads(r'''{"ver": 5, "threads": 1, "cfg": "max_qos_bytes_pending_per_client 268435456\nclient_initial_buffer_size 64\nclient_max_write_buffer_size 4096\n", "clean": 0, "will": 1, "end": "drop", "items": [{"o": "pub", "t": "a/b", "q": 1, "n": 118, "r": 1, "u": [["kkk", "vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv"]], "pid": 9}, {"o": "pub", "t": "\u00e9/\u00fc", "q": 2, "n": 108, "r": 0, "al": 3, "pid": 5}, {"o": "bad", "hex": "3606000161000100"}], "rm": 1, "am": null, "vars": [{"kind": "ws", "style": "bytes", "seed": 1029789262, "settle": 0.3, "frm": "edges", "noise": 0.4, "frag": 0, "hs": "rand", "first": 1}]}''')

Check("F03", gen_f03, run_session, 400, 8000,
      "Case: as F02, but the other transmissions go over websockets (some with TLS): the stream cut into masked binary frames (7/16/64 bit lengths, fragmented messages, empty frames, "
      "pings and pongs in between), the frames cut into segments. Compared with the plain TCP run; the broker's frames must be valid and the pongs must carry the ping payloads. "
      "Non-trivial = at least 8 packets in the stream and 4 answers to it",
      lambda c, s: s.get("packets", 0) >= 8 and s.get("answers", 0) >= 4 and s.get("variants", 0) >= 2,
      technique="differential testing websocket vs TCP over generated framings; ddmin shrinking", fixed=[FILLS])
