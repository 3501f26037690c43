"""F01: hostile bytes against a broker built with sanitizers, next to clients that must not notice."""
import random, socket, struct
import links, mqtt, wiregen, ws
from mqtt import *
from gen import Gen
from links import Link, cuts
from props_access import gen_hdr, build_hdr
from props_world import W, run_world, STORE
from runner import Check
from server import Conn, Inconclusive, Hang, free_port
from world import World, Violation

PRE = "zq9"


class ZGen(Gen):
    """Histories in their own name space: client ids and topics that the other side never uses."""
    def __init__(self, rng, **p):
        super().__init__(rng, **dict(p, dollar=0))
        m = {c: PRE + c for c in self.cids}
        self.cids = list(m.values())
        self.user_of = {m[c]: u for c, u in self.user_of.items()}
        self.subbed = {c: [] for c in self.cids}

    def topic(self): return PRE + "/" + super().topic()
    def filter(self, t): return PRE + "/" + (super().filter(t[len(PRE) + 1:]) or "#")


class FWorld(World):
    def __init__(self, exe, cfg, mc, threads, server_kw=None):
        self.ports = {}
        self.att = {}
        kw = dict(server_kw or {})
        self.kinds = kw.pop("kinds", [])
        lst = "listen {\n protocol mqtt\n inet_protocol unix\n unix_socket_path @SOCK@\n}\nlisten {\n protocol websockets\n inet_protocol unix\n unix_socket_path @SOCK@w\n}\n" \
              "listen {\n protocol mqtt\n haproxy true\n inet_protocol unix\n unix_socket_path @SOCK@h\n}\n"
        for k in self.kinds:
            self.ports[k] = free_port()
            lst += links.listener(k, self.ports[k])
        super().__init__(exe, cfg, mc, threads=threads, server_kw=dict(kw, listeners=lst))

    def close(self):
        for a in self.att.values(): a.close()
        super().close()

    def drain(self):
        for a in self.att.values():
            if a.reading: a.pump()
        return super().drain()

    def op_atk(self, op):
        k = op["a"]
        if "open" in op:
            if k in self.att: self.att.pop(k).close()
            kind = op["open"]
            try:
                if kind in ("tls", "wss"): a = Link(self.srv, kind, None, random.Random(op["seed"]), "all", self.ports[kind])
                elif kind in ("tlsraw", "wssraw"): a = Raw(Conn(addr=("127.0.0.1", self.ports[kind[:3]])))
                else: a = Raw(Conn(self.srv.sock + {"mqtt": "", "ws": "w", "hap": "h"}[kind]))
            except ConnectionError:
                self.srv.check_alive()
                raise Violation("refused", "a %s connection is not accepted any more" % kind)
            a.reading = op.get("read", 1)
            self.att[k] = a
            self.stats["attackers"] = self.stats.get("attackers", 0) + 1
            return
        a = self.att.get(k)
        if a is None: return
        if "x" in op:
            data = bytes.fromhex(op["x"]) * op.get("rep", 1)
            if not a.reading: a.send_some(data)
            elif isinstance(a, Raw):
                for n in cuts(random.Random(op.get("seed", 1)), len(data), op.get("style", "all")):
                    a.c.send(data[:n])
                    data = data[n:]
                    if op.get("style"): self.srv.quiesce()
            else: a.send(data)
            self.stats["atk_packets"] = self.stats.get("atk_packets", 0) + 1
            self.stats["atk_bytes"] = self.stats.get("atk_bytes", 0) + len(bytes.fromhex(op["x"]))
        if op.get("end"):
            if op["end"] == "rst":
                try: a.c.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                except OSError: pass
            if op["end"] == "half":
                try: a.c.s.shutdown(socket.SHUT_WR)
                except OSError: pass
            else:
                if a.c.eof: self.stats["atk_refused"] = self.stats.get("atk_refused", 0) + 1
                self.att.pop(k).close()
        if op.get("w"):
            self.settle()

    def after_restart(self, down=0):
        for a in self.att.values(): a.close()
        self.att.clear()


class Raw:
    def __init__(self, c): self.c = c
    def pump(self):
        self.c.pump()
        self.c.buf.clear()
    def close(self): self.c.close()

    def send_some(self, data):
        """never reads; gives up when the broker does not take more"""
        try: self.c.s.send(data)
        except (BlockingIOError, BrokenPipeError, ConnectionResetError): pass


def attack(rng, slot, kinds, wild):
    """-> ops of one hostile connection"""
    kind = rng.choices(["mqtt", "ws", "hap"] + kinds, [5, 3, 2] + [1.5] * len(kinds))[0]
    seed = rng.getrandbits(30)
    ops = [dict(o="atk", a=slot, open=kind, seed=seed)]
    if rng.random() < .08 and kind in ("mqtt", "ws", "hap"): ops[0]["read"] = 0
    st = wiregen.stream(rng, rng.choice([0, 3, 8, 20]), wild)
    pre = []
    if kind in ("ws", "wss"):
        r = ws.request()
        z = rng.random()
        if z < .25: r = wiregen.mutate(rng, r)
        elif z < .35:
            r = ws.request(key=rng.choice([None, b"", b"x" * 500, b"=" * 24]), path=rng.choice(["/mqtt", "/", "/" + "x" * 3000, ""]), proto=rng.choice([None, "mqtt", "x, mqtt", "mqttv3.1", ""]),
                           version=rng.choice(["13", "12", "999999999999999999999", "", "x", "-1", None]), extra=[("X-Real-IP", rng.choice(["1.2.3.4", "::1", "x", "", "9" * 400]))] * rng.choice([0, 1, 30]))
        elif z < .4: r = b"GET / HTTP/1.1\r\n" + rng.choice([b"a" * 5000, b"a: b\r\n" * 300, b":\r\n\r\n", b"\r\n" * 10, b"Upgrade\r\n\r\n", b"\0" * 100])
        if rng.random() < .95: pre.append(r)
        fr = []
        for p in st:
            z = rng.random()
            op = 2
            fin = 1
            if z < .1 * wild: op = rng.choice([0, 1, 3, 8, 9, 10, 11, 15])
            if rng.random() < .1: fin = 0
            f = ws.frame(p, op, rng.choice([b"\0\0\0\0", rng.randbytes(4)]), fin, rng.choice([1, 2, 4, 7]) if rng.random() < .05 * wild else 0,
                         rng.choice([16, 64]) if rng.random() < .1 and len(p) < 65536 else None, rng.random() >= .1 * wild)
            if rng.random() < .08 * wild: f = f[:1] + rng.choice([b"\xff" + b"\xff" * 8, b"\xff\x7f" + b"\xff" * 7, b"\xff\x00\x00\x00\x00\x10\x00\x00\x00", b"\xfe\xff\xff", b"\x7f" + b"\x80" + b"\0" * 7, b"\xff\0\0\0\1\0\0\0\0", b"\xff" + b"\0" * 8]) + f[2:]
            if rng.random() < .08 * wild: f = wiregen.mutate(rng, f)
            fr.append(f)
            if rng.random() < .1: fr.append(ws.frame(rng.randbytes(rng.choice([0, 1, 125, 126, 1000, 1900, 20000])), rng.choice([8, 9, 9, 10]), rng.randbytes(4), rng.choice([1, 1, 0])))
        st = fr
    elif kind == "hap":
        h = gen_hdr(rng, rng.random() < .3)
        if rng.random() < .6: h.pop("bad", None)
        b, _, _ = build_hdr(h)
        if rng.random() < .25: b = wiregen.mutate(rng, b)
        pre.append(b)
    elif kind in ("tlsraw", "wssraw"):
        hello = bytes.fromhex("16030100c8010000c40303") + rng.randbytes(193)
        pre.append(rng.choice([hello, wiregen.mutate(rng, hello), rng.randbytes(300), b"GET / HTTP/1.1\r\n\r\n", b"\x16\x03\x01\xff\xff" + rng.randbytes(70), b"\x80\x2e\x01\x03\x01"]))
    for b in pre: ops.append(dict(o="atk", a=slot, x=b.hex(), w=1))
    for b in st:
        if rng.random() < .2 and len(b) > 2:       # in two parts, with a pause
            k = rng.choice([rng.randint(1, min(len(b) - 1, 14)), rng.randint(1, len(b) - 1), len(b) - 1])
            ops.append(dict(o="atk", a=slot, x=b[:k].hex(), w=1))
            b = b[k:]
        op = dict(o="atk", a=slot, x=b.hex())
        if rng.random() < .25: op["w"] = 1
        if rng.random() < .1 and len(b) < 3000:
            op["style"] = rng.choice(["bytes", "rand"])
            op["seed"] = rng.getrandbits(20)
        if rng.random() < .02 and len(b) < 1200: op["rep"] = rng.choice([3, 20, 200])
        ops.append(op)
    e = rng.choice(["keep", "keep", "close", "close", "half", "rst"])
    if e != "keep": ops.append(dict(o="atk", a=slot, end=e))
    else: ops[-1]["w"] = 1
    return ops


def gen_f01(rng, i):
    g = ZGen(rng, n_ops=(14, 28), n_cids=(2, 3), w=W(adv=1.5, conn=7, disc=1.5, drop=2), advs=[300, 1000, 31000, 100000], exps=[0, 3600, 3600], clean=.4, retain=.2, shared=.1, wills=.2, exp_min=1)
    base = g.ops()
    kinds = []
    if rng.random() < .35: kinds = rng.choice([["tls", "tlsraw"], ["wss", "wssraw"], ["tls", "wss"]])
    cfg = STORE
    if rng.random() < .5: cfg += "max_packet_size %d\n" % rng.choice([4096, 100000, 1000000])
    if rng.random() < .5: cfg += "client_max_write_buffer_size %d\n" % rng.choice([4096, 65536])
    if rng.random() < .3: cfg += "client_initial_buffer_size %d\n" % rng.choice([64, 256, 1024])
    if rng.random() < .4: cfg += "retained_messages_mode %s\n" % "enabled"
    if rng.random() < .3: cfg += "set_retained_message_defer_timeout 100\n"
    if rng.random() < .3: cfg += "max_qos_msg_pending_per_client 32\n" if False else ""
    wild = rng.choice([.1, .3, .6, 1])
    ops = []
    n = rng.randint(8, 20)
    att = [attack(rng, "pqrs"[k % 4], [x for x in kinds], wild) for k in range(n)]
    # four hostile connections at a time, mixed with the others' operations
    lanes = {s: [] for s in "pqrs"}
    for k, a in enumerate(att): lanes["pqrs"[k % 4]] += a
    lanes["base"] = base
    pools = {k: list(v) for k, v in lanes.items() if v}
    tot = sum(map(len, pools.values()))
    while pools:
        k = rng.choices(list(pools), [max(1, len(v)) for v in pools.values()])[0]
        m = rng.choice([1, 1, 2, 4, 8]) if k != "base" else 1
        ops += pools[k][:m]
        del pools[k][:m]
        if not pools[k]: del pools[k]
    z = rng.random()
    if z < .6:
        ops.append(dict(o="restart"))
        g.on.clear()
        for c in g.cids: 
            o = g.op_conn(c)
            if o: ops.append(dict(o, clean=False, auto=True))
        for _ in range(4):
            o = g.op_pub()
            if o: ops.append(o)
    case = dict(threads=rng.randint(1, 3), cfg=cfg, ops=ops, variant=rng.choice(["asan", "asan", "asan", "rel"]))
    if kinds: case["srv"] = dict(kinds=sorted({k[:3] for k in kinds}))
    return case


def run_f01(exes, case, stats): run_world(exes, case, stats, cls=FWorld)


Check("F01", gen_f01, run_f01, 700, 15000,
      "Case: 8-20 hostile connections (MQTT, websocket, PROXY, TLS; packets of all types with random structure, wrong and duplicate properties, reserved types, wrong lengths, bit damage; "
      "abandoned, half-closed, never reading) mixed with a random history of 2-3 other clients, then usually a restart; most brokers are built with address and undefined behaviour sanitizers. "
      "The others' traffic is compared with the reference broker. Non-trivial = at least 8 hostile connections with 40 packets and 3 deliveries to the others",
      lambda c, s: s.get("attackers", 0) >= 8 and s.get("atk_packets", 0) >= 40 and s.get("deliveries", 0) >= 3,
      variants=("asan", "rel"), technique="structure-aware fuzzing with sanitizers, with a model-based oracle for bystanders; ddmin shrinking")
