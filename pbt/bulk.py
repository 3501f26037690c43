"""P01 with amounts of state that take the loading and saving code through several rounds: thousands of retained messages, sessions, subscriptions, queued messages."""
import mqtt
from mqtt import *
from server import Server, Conn, Hang, S_TICK
from world import Violation

SYS = ["$SYS/broker/clients/total", "$SYS/broker/+/total", "$SYS/#", "$share/sg/$SYS/broker/clients/total"]


def gen(rng, i=0):
    big = rng.random()
    n = rng.choice([0, 1, 999, 1000, 1001, 2000, 2500]) if big < .9 else rng.choice([9999, 10000, 10001, 12000])
    ss = []
    for k in range(rng.choice([1, 2, 3, 8])):
        ss.append(dict(ver=rng.choice([4, 5, 5]), n=rng.choice([1, 3, 20, 300]), q=rng.choice([0, 1, 2]), pend=rng.choice([0, 3, 100, 1500]), sys=rng.choice(SYS + [None] * 3)))
    return dict(bulk=1, more=rng.choice([0] * 9 + [200, 200, 1100]), threads=rng.randint(1, 3), retained=n, shape=rng.choice(["flat", "deep", "fan", "mix"]), size=rng.choice([1, 10, 300]), sessions=ss, items=[dict(tick=rng.choice([0, 0, 100000, 1000000, 6000000])) for _ in range(rng.choice([1, 1, 2]))],
                seed=rng.getrandbits(30))


def topic(shape, k):
    if shape == "flat": return "r%d" % k
    if shape == "deep": return "r/" + "/".join("x" * (k % 5)) + "/%d" % k if k % 5 else "r/%d" % k
    if shape == "fan": return "r/%d/%d" % (k % 40, k)
    return ("r%d", "r/a/%d", "/%d", "r/%d/", "é/%d/b/c")[k % 5] % k


def run(exe, case, stats):
    case = dict(case, sessions=case["sessions"] + [dict(ver=5, n=1, q=1, pend=1, sys=None)] * case["more"])
    srv = Server(exe, "storage_dir @DIR@/store\nmax_qos_msg_pending_per_client 5000\nmax_qos_bytes_pending_per_client 20000000\nexpire_sessions_after_seconds 1000000\nclient_max_write_buffer_size 30000000\n", threads=case["threads"])
    socks = []
    bad = lambda t: (_ for _ in ()).throw(Violation("state", t))

    def conn(cid, ver, clean=False, present=None, more=b""):
        c = Conn(srv.sock)
        socks.append(c)
        c.ver, c.cid = ver, cid
        c.send(mqtt.connect(cid, ver, clean, 0 if ver < 5 else 65535, props=[("session_expiry", 900000)] if ver == 5 and not clean else None) + more)
        pk = collect(c)
        if not pk or pk[0].t != CONNACK or pk[0].rc: bad("%s can't connect: %r" % (cid, pk[:1]))
        if present is not None and bool(pk[0].present) != present: bad("session of %s: present is %r" % (cid, pk[0].present))
        return c, pk[1:]

    def collect(c):
        """everything for a connection, acknowledged"""
        out, idle = [], 0
        while idle < 2:
            srv.quiesce()
            c.pump()
            try: pk = [mqtt.decode(a, b, c.ver) for a, b in mqtt.split(c.buf)]
            except mqtt.Malformed as e: bad("%s: malformed packet: %s" % (c.cid, e))
            ans = b""
            for p in pk:
                if p.t == PUBLISH and p.qos: ans += mqtt.ack(PUBACK if p.qos == 1 else PUBREC, p.pid, c.ver)
                elif p.t == PUBREL: ans += mqtt.ack(PUBCOMP, p.pid, c.ver)
                elif p.t == PUBREC: ans += mqtt.ack(PUBREL, p.pid, c.ver)
            if ans: c.send(ans)
            out += pk
            idle = 0 if pk or c.inflight() else idle + 1
            if idle == 1 and getattr(c, "steps", 0):
                for _ in range(c.steps):
                    srv.step_clock(60)
                    srv.quiesce(clock=True)
        return out

    def send(c, msgs):
        """publish a lot, in parts"""
        for i in range(0, len(msgs), 200):
            c.send(b"".join(mqtt.publish(5, t, pl, q, r, (i + k) % 65535 + 1 if q else 0) for k, (t, pl, q, r) in enumerate(msgs[i:i + 200])))
            collect(c)

    try:
        import random
        rng = random.Random(case["seed"])
        ret = {topic(case["shape"], k): (b"%d." % k).ljust(case["size"], b"r") for k in range(case["retained"])}
        for i, s in enumerate(case["sessions"]):
            c, _ = conn("s%d" % i, s["ver"], False)
            fs = ["q/%d/%d" % (i, k) for k in range(s["n"])] + ([s["sys"]] if s["sys"] else [])
            for k in range(0, len(fs), 50):
                c.send(mqtt.subscribe(s["ver"], k + 1, [(f, s["q"]) for f in fs[k:k + 50]]))
            collect(c)
            c.close()
        srv.quiesce()
        pub, _ = conn("pub", 5, True)
        send(pub, [(t, p, 0, True) for t, p in ret.items()])
        # some are cleared and replaced
        for t in rng.sample(list(ret), min(len(ret) // 10, 50)):
            if rng.random() < .5: del ret[t]
            else: ret[t] = b"new"
            send(pub, [(t, ret.get(t, b""), 0, True)])
        seq = 0
        pend = {}
        for nr, it in enumerate(case["items"]):
            for i, s in enumerate(case["sessions"]):
                ms = []
                for k in range(s["pend"] if nr == 0 else min(s["pend"], 5)):
                    seq += 1
                    ms.append(("q/%d/%d" % (i, rng.randrange(s["n"])), b"%d" % seq, 1 + seq % 2, False))
                send(pub, ms)
                if s["q"]: pend.setdefault(i, []).extend([(t, p, min(q, s["q"])) for t, p, q, _ in ms])
            pub.close()
            srv.set(S_TICK, it["tick"])
            srv.stop()
            srv.set(S_TICK, 0)
            srv.start()
            srv.step_clock(10)
            pub, _ = conn("pub", 5, True)
        look, got = conn("look", 5, True)
        look.steps = 8
        look.send(mqtt.subscribe(5, 1, [("#", 0)]))
        got = [p for p in collect(look) if p.t == PUBLISH]
        look.close()
        seen = {p.topic: p.payload for p in got}
        if len(seen) != len(got): bad("a retained message came twice")
        if seen != ret:
            d = sorted(k for k in set(seen) | set(ret) if seen.get(k) != ret.get(k))
            bad("%d retained messages before the restart, %d after it; different for %d topics, first %r: %r, was %r" % (len(ret), len(seen), len(d), d[0], seen.get(d[0]), ret.get(d[0])))
        stats["deliveries"] = len(seen)
        live = []
        for i, s in enumerate(case["sessions"]):
            c, got = conn("s%d" % i, s["ver"], False, True)
            got = [(p.topic, p.payload, p.qos) for p in got if p.t == PUBLISH]
            want = pend.get(i, [])
            if got != want:
                d = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
                bad("session s%d gets %d messages after the restart, %d were queued; first difference at %d: %r, not %r" % (i, len(got), len(want), d, got[d:d + 1], want[d:d + 1]))
            stats["deliveries"] += len(got)
            live.append(c)
        srv.quiesce()
        for i, s in enumerate(case["sessions"]):
            ks = rng.sample(range(s["n"]), min(s["n"], 40))
            send(pub, [("q/%d/%d" % (i, k), b"probe", 2, False) for k in ks])
            got = sorted((p.topic, p.qos) for p in collect(live[i]) if p.t == PUBLISH and not p.topic.startswith("$"))
            want = sorted(("q/%d/%d" % (i, k), s["q"]) for k in ks)
            if got != want: bad("subscriptions of s%d after the restart: %r arrived for %r" % (i, got[:4], want[:4]))
        # the broker's own statistics
        if any(s["sys"] for s in case["sessions"]):
            n = {}
            for _ in range(12):
                srv.step_clock(5000)
                srv.quiesce(clock=True)
                for i, s in enumerate(case["sessions"]):
                    if s["sys"]: n[i] = n.get(i, 0) + sum(1 for p in collect(live[i]) if p.t == PUBLISH and p.topic == "$SYS/broker/clients/total")
            for i, s in enumerate(case["sessions"]):
                if s["sys"] and not s["sys"].startswith("$share") and not n[i]: bad("the subscription of s%d to %s is gone after the restart" % (i, s["sys"]))
            sh = [i for i, s in enumerate(case["sessions"]) if s["sys"] and s["sys"].startswith("$share")]
            if sh and not any(n[i] for i in sh): bad("the subscriptions to %s are gone after the restart" % SYS[3])
            stats["sys"] = 1
        stats["restart"] = len(case["items"])
        stats["resumed"] = len(case["sessions"])
        stats["bulk"] = 1
        srv.check_alive()
        srv.stop()
    finally:
        for c in socks: c.close()
        srv.close()


# ------------------------------------------------------------------------------------------------------------- trees
LV = ["a", "b", "", "é"]


class Links:
    """connections of one case, all pumped and acknowledged together"""
    def __init__(self, srv):
        self.srv, self.l = srv, []

    def conn(self, cid, ver=5, clean=True, expiry=900000, rm=None, ack=True):
        c = Conn(self.srv.sock)
        c.ver, c.cid, c.got, c.ack, c.slow = ver, cid, [], ack, 0
        c.held, c.paused = [], False
        self.l.append(c)
        props = [("session_expiry", expiry)] if ver == 5 and not clean else []
        if rm: props.append(("recv_max", rm))
        c.send(mqtt.connect(cid, ver, clean, 0 if ver < 5 else 65535, props=props if ver == 5 else None))
        self.settle()
        p = c.got.pop(0)
        if p.t != CONNACK or p.rc: raise Violation("connect", "%s can't connect: %r" % (cid, p))
        c.present = p.present
        return c

    def answer(self, c, p):
        if p.t == PUBLISH and p.qos: return mqtt.ack(PUBACK if p.qos == 1 else PUBREC, p.pid, c.ver)
        if p.t == PUBREL: return mqtt.ack(PUBCOMP, p.pid, c.ver)
        if p.t == PUBREC: return mqtt.ack(PUBREL, p.pid, c.ver)
        return b""

    def settle(self, clock=False):
        idle = 0
        while idle < 2:
            self.srv.quiesce(clock=clock)
            idle += 1
            for c in self.l:
                if c.eof or c.paused: continue
                c.pump()
                try: pk = [mqtt.decode(a, b, c.ver) for a, b in mqtt.split(c.buf)]
                except mqtt.Malformed as e: raise Violation("malformed", "%s: %s" % (c.cid, e))
                if c.eof: raise Violation("closed", "the connection of %s was closed" % c.cid)
                if pk: idle = 0
                c.got += pk
                if c.ack:
                    d = b"".join(self.answer(c, p) for p in pk)
                    if d: c.send(d)
                else: c.held += pk
                if c.inflight(): idle = 0

    def release(self, c, n=None):
        """acknowledges n of the held packets"""
        n = len(c.held) if n is None else n
        d = b"".join(self.answer(c, p) for p in c.held[:n])
        del c.held[:n]
        if d: c.send(d)

    def msgs(self, c):
        r = [p for p in c.got if p.t == PUBLISH]
        c.got = []
        return r

    def publish(self, c, msgs):
        for i in range(0, len(msgs), 200):
            c.send(b"".join(mqtt.publish(c.ver, t, pl, q, r, (i + k) % 65535 + 1 if q else 0) for k, (t, pl, q, r) in enumerate(msgs[i:i + 200])))
            self.settle()

    def drop(self, c):
        c.close()
        if c in self.l: self.l.remove(c)
        self.srv.quiesce()

    def close(self):
        for c in self.l: c.close()


def match(f, t):
    f, t = f.split("/"), t.split("/")
    for k, x in enumerate(f):
        if x == "#": return True
        if k >= len(t) or x != "+" and x != t[k]: return False
    return len(f) == len(t)


def tree(rng, n, more=()):
    """topics of a tree with nodes of many children and topics that are also prefixes of others"""
    out, nodes = set(), [""]
    while len(out) < n:
        base = rng.choice(nodes)
        w = rng.choice([1, 2, 3, 14, 15, 16, 17, 30, 60, *more])
        for k in range(min(w, n - len(out))):
            t = (base + "/" if base else "") + rng.choice(["n%d" % k, "n%d" % k, "n%d" % k, rng.choice(LV[:2]) + str(k)])
            out.add(t)
            if rng.random() < .3 and t.count("/") < 8: nodes.append(t)
    return sorted(out)


def wild(rng, t, pl=.55):
    if rng.random() < pl: return t
    p = t.split("/")
    for _ in range(rng.choice([0, 1, 1, 2])): p[rng.randrange(len(p))] = "+"
    if rng.random() < .4: p = p[:rng.randint(0, len(p))] + ["#"]
    return "/".join(p)


def gen_tree(rng, i=0, sh=False):
    return dict(bulk="tree", sh=int(sh), mode=rng.choice(["round_robin", "sender_hash", "first"]), n=rng.choice([20, 40, 100, 300]), clients=rng.randint(2, 4), threads=rng.randint(1, 3), seed=rng.getrandbits(30), life=rng.choice([0, 0, 60, 3600]), leaf=rng.random() < .5,
                items=[dict(o=rng.choice(["sub", "sub", "unsub", "unsub", "drop", "back", "time", "time", "time"]), f=rng.choice([.1, .3, .6, .95]), c=rng.randrange(4), tick=rng.choice([0, 0, 100000, 3000000])) for _ in range(rng.randint(5, 10))])


def run_tree(exe, case, stats):
    """R05: a subscription tree with many children, cleaned by purge rounds"""
    import random
    rng = random.Random(case["seed"])
    srv = Server(exe, ("subscription_node_lifetime %d\n" % case["life"] if case["life"] else "") + "shared_subscription_targeting %s\n" % case["mode"] + "expire_sessions_after_seconds 1000000\nmax_qos_msg_pending_per_client 20000\nmax_qos_bytes_pending_per_client 20000000\nclient_max_write_buffer_size 30000000\n", threads=case["threads"])
    L = Links(srv)
    try:
        topics = tree(rng, case["n"])
        inner = {t.rsplit("/", 1)[0] for t in topics if "/" in t}
        pl = rng.choice([.55, .95])
        fs = sorted({wild(rng, t, pl) for t in topics if not case["leaf"] or t not in inner})
        shared = ["$share/%s/%s" % (rng.choice("gh"), f) for f in (fs if case["sh"] else rng.sample(fs, min(len(fs), 12)))]
        if case["sh"]: fs = shared
        subs = [set() for _ in range(case["clients"])]
        keep = [rng.random() < .6 for _ in subs]
        live = [L.conn("c%d" % k, 5, not keep[k]) for k in range(case["clients"])]
        pub = L.conn("pub")

        def sub(k, x):
            x = sorted(x)
            for j in range(0, len(x), 50): live[k].send(mqtt.subscribe(5, 1 + j // 50, [(f, 1) for f in x[j:j + 50]]))
            subs[k] |= set(x)
            L.settle()

        for k in range(len(live)): sub(k, rng.sample(fs, int(len(fs) * rng.random())) + rng.sample(shared, rng.randrange(len(shared) + 1)))
        probes = rng.sample(topics, min(len(topics), 80))

        def probe(why):
            L.publish(pub, [(t, b"%d" % j, 1, False) for j, t in enumerate(probes)])
            for c in L.l: pass
            got = [L.msgs(c) if c else [] for c in live]
            n = {}
            for k, g in enumerate(got):
                for p in g: n[(k, p.topic)] = n.get((k, p.topic), 0) + 1
            for t in probes:
                groups = {}
                for k in range(len(live)):
                    for f in subs[k]:
                        if f.startswith("$share/") and match(f.split("/", 2)[2], t): groups.setdefault(f, set()).add(k)
                left = 0
                for k in range(len(live)):
                    if not live[k]: continue
                    want = sum(1 for f in subs[k] if not f.startswith("$share/") and match(f, t))
                    have = n.pop((k, t), 0)
                    if have < want: raise Violation("missing", "%s: c%d got %d of %d copies of %r; its filters: %r" % (why, k, have, want, t, [f for f in subs[k] if match(f, t)]))
                    if have - want > sum(1 for ks in groups.values() if k in ks): raise Violation("extra", "%s: c%d got %d copies of %r; its filters: %r" % (why, k, have, t, [f for f in subs[k] if match(f, t)]))
                    left += have - want
                    stats["delivered"] = stats.get("delivered", 0) + have - want
                    stats["delivered"] = stats.get("delivered", 0) + want
                on = [ks for ks in groups.values() if all(live[k] for k in ks)]
                if left < len(on) or left > len(groups): raise Violation("group", "%s: %d shared copies of %r for %d groups" % (why, left, t, len(groups)))
            if n: raise Violation("extra", "%s: unexpected %r" % (why, list(n)[:3]))

        probe("at the start")
        for nr, o in enumerate(case["items"]):
            k = o["c"] % len(live)
            if o["o"] == "sub" and live[k]: sub(k, rng.sample(fs, int(len(fs) * o["f"] * .3)))
            elif o["o"] == "unsub" and live[k] and subs[k]:
                x = rng.sample(sorted(subs[k]), max(1, int(len(subs[k]) * o["f"])))
                for j in range(0, len(x), 50): live[k].send(mqtt.unsubscribe(5, 2000 + j // 50, x[j:j + 50]))
                subs[k] -= set(x)
                L.settle()
                stats["unsubscribed"] = stats.get("unsubscribed", 0) + len(x)
            elif o["o"] == "drop" and live[k]:
                L.drop(live[k])
                live[k] = None
                if not keep[k]: subs[k] = set()
            elif o["o"] == "back" and not live[k]:
                live[k] = L.conn("c%d" % k, 5, not keep[k])
                if bool(live[k].present) != keep[k]: raise Violation("session", "c%d: session present is %r" % (k, live[k].present))
                L.msgs(live[k])
                sub(k, rng.sample(fs, int(len(fs) * o["f"] * .2)))
            elif o["o"] == "time":
                srv.set(S_TICK, o["tick"])
                for _ in range(40):
                    srv.step_clock(60000)
                    srv.quiesce(clock=True)
                srv.set(S_TICK, 0)
                L.settle()
                stats["purges"] = stats.get("purges", 0) + 1
                probe("after %d steps" % (nr + 1))
        for k in range(len(live)):
            if not live[k]:
                live[k] = L.conn("c%d" % k, 5, not keep[k])
                if bool(live[k].present) != keep[k]: raise Violation("session", "c%d: session present is %r" % (k, live[k].present))
                L.msgs(live[k])
        probe("at the end")
        stats["shared"] = stats.get("delivered", 0) if case["sh"] else 0
        srv.check_alive()
        srv.stop()
    finally:
        L.close()
        srv.close()


def gen_stree(rng): return gen_tree(rng, 0, True)


def gen_rtree(rng, i=0):
    return dict(bulk="rtree", n=rng.choice([10, 40, 100, 300, 1500]), threads=rng.randint(1, 2), seed=rng.getrandbits(30), pend=rng.choice([32, 33, 64, 512, 20000]), buf=rng.choice([4096, 8192, 30000000]), size=rng.choice([3, 50, 400, 2500]),
                every=rng.choice([0, .5, 1]), items=[dict(f=rng.random(), q=rng.choice([0, 1, 1, 2, 2]), rm=rng.choice([None, 1, 5, 40]), tick=rng.choice([0, 0, 0, 20000, 500000, 2000000]), ack=rng.choice([True, True, False])) for _ in range(rng.randint(1, 4))])


def run_rtree(exe, case, stats):
    """T01: the retained messages of a large tree for one subscription, which come in several rounds because of limits of the queue, the buffer or the time"""
    import random
    rng = random.Random(case["seed"])
    srv = Server(exe, "max_qos_msg_pending_per_client %d\nmax_qos_bytes_pending_per_client 20000000\nclient_max_write_buffer_size %d\n" % (case["pend"], case["buf"]), threads=case["threads"])
    L = Links(srv)
    try:
        topics = tree(rng, case["n"], (150, 400))
        ret = {t: (b"%d." % k).ljust(case["size"], b"r") for k, t in enumerate(topics) if rng.random() < (.5, .8, 1)[int(case["every"] * 2)]}
        pub = L.conn("pub")
        L.publish(pub, [(t, p, 0, True) for t, p in ret.items()])
        gone = rng.sample(sorted(ret), len(ret) // 10)
        L.publish(pub, [(t, b"", 0, True) for t in gone])
        for t in gone: del ret[t]
        for j, o in enumerate(case["items"]):
            c = L.conn("s%d" % j, 5, rm=o["rm"], ack=o["ack"])
            f = "#" if o["f"] < .4 else wild(rng, rng.choice(topics)) if o["f"] < .9 else "+/#"
            srv.set(S_TICK, o["tick"])
            c.send(mqtt.subscribe(5, 1, [(f, o["q"])]))
            L.settle()
            want = {t: p for t, p in ret.items() if match(f, t)}
            got = {}
            idle = 0
            for _ in range(20000):
                ms = L.msgs(c)
                for p in ms:
                    if p.topic not in want or p.payload != want[p.topic]: raise Violation("retained", "subscription to %s: got %r %r" % (f, p.topic, p.payload[:20]))
                    if not p.retain: raise Violation("retained", "subscription to %s: %r without retain flag" % (f, p.topic))
                    if p.topic in got: raise Violation("retained", "subscription to %s: %r came twice" % (f, p.topic))
                    got[p.topic] = 1
                held = bool(c.held)
                if held: L.release(c, rng.randint(1, len(c.held)))
                srv.step_clock(60)
                srv.quiesce(clock=True)
                L.settle()
                idle = 0 if ms or held else idle + 1
                if idle > 8: break
            srv.set(S_TICK, 0)
            if len(got) != len(want):
                raise Violation("retained", "subscription to %s (QoS %d): %d of %d retained messages came; missing: %r" % (f, o["q"], len(got), len(want), sorted(set(want) - set(got))[:3]))
            stats["retained_delivered"] = stats.get("retained_delivered", 0) + len(got)
            L.drop(c)
        stats["retained_cleared"] = len(gone)
        srv.check_alive()
        srv.stop()
    finally:
        L.close()
        srv.close()


def gen_slow(rng):
    ms = [dict(q=rng.choice([0, 1, 1, 2, 2]), n=rng.choice([10, 1000, 5000, 20000, 60000])) for _ in range(rng.choice([20, 60, 120]))]
    return dict(bulk="slow", items=ms, buf=rng.choice([4096, 4096, 20000, 1048576]), threads=rng.randint(1, 2), subs=[dict(ver=rng.choice([3, 4, 5]), q=rng.choice([1, 2, 2]), clean=rng.random() < .5, rounds=rng.choice([1, 1, 3])) for _ in range(rng.choice([1, 1, 2]))])


def run_slow(exe, case, stats):
    """D05: clients which don't read for a while, so that socket and write buffer are full. What they are entitled to (QoS 1 and 2, within the limits) comes when they read; only QoS 0 may be dropped."""
    srv = Server(exe, "max_qos_msg_pending_per_client 5000\nmax_qos_bytes_pending_per_client 100000000\nclient_max_write_buffer_size %d\n" % case["buf"], threads=case["threads"])
    L = Links(srv)
    try:
        cs = []
        for j, o in enumerate(case["subs"]):
            c = L.conn("s%d" % j, o["ver"], o["clean"])
            c.send(mqtt.subscribe(o["ver"], 1, [("t/#", o["q"])]))
            L.settle()
            c.got, c.o = [], o
            cs.append(c)
        pub = L.conn("pub")
        ms = [("t/%d" % k, (b"%d." % k).ljust(m["n"], b"s"), m["q"]) for k, m in enumerate(case["items"])]
        have = {c.cid: [] for c in cs}
        nr = max(o["rounds"] for o in case["subs"])
        for r in range(nr):
            for c in cs: c.paused = r < c.o["rounds"]
            part = ms[len(ms) * r // nr:len(ms) * (r + 1) // nr]
            for t, p, q in part: L.publish(pub, [(t, p, q, False)])
            for c in cs: c.paused = False
            L.settle()
            for c in cs: have[c.cid] += L.msgs(c)
        for c in cs:
            want = {t: (p, min(q, c.o["q"])) for t, p, q in ms}
            got = have[c.cid]
            for p in got:
                if p.topic not in want or p.payload != want[p.topic][0] or p.qos != want[p.topic][1]: raise Violation("overload-content", "%s got %s QoS %d with %d bytes, which was not sent like that" % (c.cid, p.topic, p.qos, len(p.payload)))
            names = [int(p.topic[2:]) for p in got]
            if len(set(names)) < len(names): raise Violation("overload-twice", "%s: messages came twice: %r" % (c.cid, sorted(n for n in set(names) if names.count(n) > 1)[:3]))
            miss = [k for k, m in enumerate(case["items"]) if min(m["q"], c.o["q"]) and k not in names]
            if miss: raise Violation("overload-lost", "%s, which had not read for a while, did not get %d QoS>0 messages, e.g. number %d" % (c.cid, len(miss), miss[0]))
            if names != sorted(names): raise Violation("overload-order", "%s got the messages in another order: %r" % (c.cid, names))
            lost = len(ms) - len(names)
            stats["buffer_full"] = stats.get("buffer_full", 0) + bool(lost)
            if lost: stats["dropped_limit"] = stats.get("dropped_limit", 0) + lost
            stats["delivered"] = stats.get("delivered", 0) + len(names)
            stats["deliveries"] = stats.get("deliveries", 0) + len(names)
            L.publish(pub, [("t/999999", b"after", 1, False)])
            for d in cs:
                if d is c and [p.topic for p in L.msgs(d)] != ["t/999999"]: raise Violation("overload-after", "%s does not get messages any more" % c.cid)
                L.msgs(d)
        srv.check_alive()
        srv.stop()
    finally:
        L.close()
        srv.close()


def gen_anon(rng):
    return dict(bulk="anon", threads=rng.randint(1, 3), items=[dict(ver=rng.choice([4, 5, 5]), user=rng.random() < .3) for _ in range(rng.choice([5, 20, 60]))])


def run_anon(exe, case, stats):
    """S02: clients which leave the choice of the client id to the broker are all different clients"""
    srv = Server(exe, "", threads=case["threads"])
    L = Links(srv)
    try:
        cs = []
        for k, o in enumerate(case["items"]):
            c = L.conn("", o["ver"])
            c.cid, c.k = "anonymous %d" % k, k
            c.send(mqtt.subscribe(o["ver"], 1, [("own/%d" % k, 1), ("all", 1)]))
            L.settle()
            c.got = []
            cs.append(c)
        if cs:
            for k in range(len(cs)): L.publish(cs[-1 - k], [("own/%d" % k, b"x", 1, False)])
            L.publish(cs[0], [("all", b"y", 1, False)])
        for c in cs:
            got = [p.topic for p in L.msgs(c)]
            if got != ["own/%d" % c.k, "all"]: raise Violation("anonymous", "client without client id number %d got %r" % (c.k, got))
        stats["anonymous"] = len(cs)
        stats["takeover"] = stats["delivered"] = 1
        srv.check_alive()
        srv.stop()
    finally:
        L.close()
        srv.close()


RUN = {1: run, "tree": run_tree, "rtree": run_rtree, "slow": run_slow, "anon": run_anon}
