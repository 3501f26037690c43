"""Concurrency runs: several publishers and (re)connecting subscribers served by several worker threads at full speed.
Oracle: per connection and publisher the sequence numbers only go up, nothing accepted is lost for a persistent session, a QoS 2
message never comes twice under different packet ids, and afterwards the whole receive-maximum window is available again."""
import random, select, time
import mqtt
from mqtt import *
from server import Server, Conn, ServerDied, Inconclusive, Hang
from world import Violation

CFG = "max_qos_msg_pending_per_client 65000\nmax_qos_bytes_pending_per_client 1000000000\nclient_max_write_buffer_size 30000000\n"


def gen(rng, i=0):
    npub = rng.randint(1, 4)
    subs = []
    for j in range(rng.randint(1, 4)):
        s = dict(ver=rng.choice([4, 5, 5]), qos=rng.choice([1, 2, 2]), reconnects=rng.choice([0, 3, 8, 20]), how=rng.choice(["drop", "disc", "takeover", "race"]), gap=rng.choice([0, 0, 1, 5]))
        if s["ver"] == 5: s["rm"] = rng.choice([None, None, None, 1, 5, 100])
        subs.append(s)
    return dict(racy=1, stress=1, threads=rng.choice([2, 3, 4, 6]), seed=rng.getrandbits(32), shared=rng.random() < .15,
                pubs=[dict(ver=rng.choice([4, 5]), qos=rng.choice([0, 1, 1, 2]), n=rng.choice([200, 600, 1500]), chunk=rng.choice([1, 5, 50]), pad=rng.choice([0, 0, 100, 2000])) for _ in range(npub)],
                subs=subs)


class Sub:
    pass


def run(exe, case, stats, kinds=("order", "loss", "dup", "quota")):
    rng = random.Random(case["seed"])
    srv = Server(exe, CFG, threads=case["threads"], frozen=False)
    socks = []
    try:
        subs = []
        for j, sc in enumerate(case["subs"]):
            s = Sub()
            s.j, s.sc, s.cid = j, sc, "sub%d" % j
            s.got = [set() for _ in case["pubs"]]
            s.got2 = {}
            s.conns = []
            s.left = sc["reconnects"]
            s.filter = "t/#"
            subs.append(s)

        def connect(s):
            """A new connection (two at once for 'race': either may win, the other is closed by the server)."""
            cs = []
            for _ in range(2 if s.sc["how"] == "race" and s.conns else 1):
                c = Conn(srv.sock)
                c.last, c.connack = {}, False
                socks.append(c); cs.append(c)
            props = [("session_expiry", 3600)]
            if s.sc.get("rm"): props.append(("recv_max", s.sc["rm"]))
            for c in cs:
                c.send(mqtt.connect(s.cid, s.sc["ver"], False, 0 if s.sc["ver"] < 5 else 65535, None, None, None, props if s.sc["ver"] >= 5 else None))
            s.conns += cs

        def handle(s, c):
            out = []
            n = 0
            for first, body in mqtt.split(c.buf):
                p = mqtt.decode(first, body, s.sc["ver"])
                n += 1
                if not c.connack:
                    if p.t != CONNACK: raise Violation("connack", "subscriber %d: first packet of the connection is of type %d, not CONNACK" % (s.j, p.t))
                    c.connack = True
                if p.t == PUBLISH:
                    i, seq = p.payload.split(b".", 1)[0].split(b":")
                    i, seq = int(i), int(seq)
                    if i < 0:
                        s.probe.append(p.pid)
                        if s.hold: continue
                    else:
                        l = c.last.get(i, -1)
                        if seq == l and p.qos and "dup" in kinds:
                            raise Violation("dup", "subscriber %d: message %d of publisher %d came twice on one connection" % (s.j, seq, i))
                        if seq <= l and "order" in kinds and p.qos == min(case["pubs"][i]["qos"], s.sc["qos"]):
                            raise Violation("order", "subscriber %d: message %d of publisher %d arrived after %d on the same connection (QoS %d)" % (s.j, seq, i, l, p.qos))
                        c.last[i] = seq
                        s.got[i].add(seq)
                        if p.qos == 2:
                            k = (i, seq)
                            if s.got2.setdefault(k, p.pid) != p.pid and "dup" in kinds:
                                raise Violation("dup", "subscriber %d: QoS 2 message %d of publisher %d came with packet ids %d and %d" % (s.j, seq, i, s.got2[k], p.pid))
                    stats["deliveries"] = stats.get("deliveries", 0) + 1
                    if p.qos == 1: out.append(mqtt.ack(PUBACK, p.pid, s.sc["ver"]))
                    elif p.qos == 2: out.append(mqtt.ack(PUBREC, p.pid, s.sc["ver"]))
                elif p.t == PUBREL: out.append(mqtt.ack(PUBCOMP, p.pid, s.sc["ver"]))
                elif p.t == SUBACK: s.suback = True
            if out and not c.eof: c.send(b"".join(out))
            return n

        def pump_all(t=0.0):
            busy = False
            for s in subs:
                for c in list(s.conns):
                    if c.pump():
                        if handle(s, c): busy = True
                    if c.eof:
                        c.close(); s.conns.remove(c)
                if not s.conns:
                    raise Violation("closed", "subscriber %d was disconnected: %s" % (s.j, srv.tail(500)))
            for q in pubs:
                if q.conn.pump():
                    o = []
                    for first, body in mqtt.split(q.conn.buf):
                        if first >> 4 == PUBREC: o.append(mqtt.ack(PUBREL, body[0] << 8 | body[1], q.pc["ver"]))
                        if first >> 4 in (PUBACK, PUBCOMP): q.acked += 1
                        busy = True
                    if o: q.conn.send(b"".join(o))
                if q.conn.eof:
                    raise Violation("closed", "publisher %d was disconnected: %s" % (q.i, srv.tail(500)))
            return busy

        pubs = []
        for s in subs:
            s.probe, s.hold, s.suback = [], False, False
            connect(s)
            s.conns[0].send(mqtt.subscribe(s.sc["ver"], 1, [(s.filter, s.sc["qos"])]))
        end = time.monotonic() + 20
        for s in subs:
            while not s.suback:
                pump_all()
                time.sleep(.001)
                if time.monotonic() > end: raise Hang("no SUBACK")
        for i, pc in enumerate(case["pubs"]):
            q = Sub()
            q.i, q.pc, q.seq, q.acked = i, pc, 0, 0
            q.conn = Conn(srv.sock)
            socks.append(q.conn)
            q.conn.send(mqtt.connect("pub%d" % i, pc["ver"], True, 0 if pc["ver"] < 5 else 65535))
            pubs.append(q)
        total = sum(pc["n"] for pc in case["pubs"])
        sent = 0
        marks = {}
        for s in subs:
            s.at = sorted(rng.randint(0, total) for _ in range(s.left))
            s.down_until = None
        end = time.monotonic() + 40
        while sent < total:
            if time.monotonic() > end: raise Hang("flood does not finish")
            q = rng.choice([q for q in pubs if q.seq < q.pc["n"]])
            if q.pc["qos"] and q.seq - q.acked > 400:
                pump_all()
                continue
            data = []
            for _ in range(min(q.pc["chunk"], q.pc["n"] - q.seq)):
                data.append(mqtt.publish(q.pc["ver"], "t/%d" % q.i, b"%d:%d." % (q.i, q.seq) + b"x" * q.pc["pad"], q.pc["qos"], False, q.seq % 60000 + 1, False, {} if q.pc["ver"] >= 5 else None))
                q.seq += 1; sent += 1
            q.conn.send(b"".join(data))
            pump_all()
            for s in subs:
                while s.at and s.at[0] <= sent and all(c.connack for c in s.conns):      # only one CONNECT of a client under way at a time
                    s.at.pop(0)
                    stats["reconnects"] = stats.get("reconnects", 0) + 1
                    if s.sc["how"] in ("drop", "disc"):
                        for c in s.conns:
                            c.pump(); handle(s, c)
                            if s.sc["how"] == "disc": c.send(mqtt.disconnect(s.sc["ver"]))
                            c.close()
                        s.conns = []
                        if s.sc["gap"]: time.sleep(s.sc["gap"] / 1000)
                    connect(s)
        # drain
        quiet = 0
        end = time.monotonic() + 30
        while quiet < 12:
            if pump_all(): quiet = 0
            else:
                quiet += 1
                srv.quiesce() if quiet % 4 == 0 else time.sleep(.002)
            if time.monotonic() > end: raise Hang("traffic does not settle")
        for s in subs:
            if s.sc.get("rm"): continue         # beyond its receive maximum messages may be dropped
            for i, pc in enumerate(case["pubs"]):
                q = min(pc["qos"], s.sc["qos"])
                if q == 0 or "loss" not in kinds: continue
                miss = [x for x in range(pc["n"]) if x not in s.got[i]]
                if miss:
                    raise Violation("loss", "subscriber %d did not get %d of %d messages of publisher %d (QoS %d), first missing %s" % (s.j, len(miss), pc["n"], i, q, miss[:5]))
                stats["complete"] = stats.get("complete", 0) + 1
        # quota: a whole window must be available
        if "quota" in kinds:
            for s in subs:
                if not s.sc.get("rm"): continue
                s.hold = True
                s.probe = []
            rm = max([s.sc.get("rm") or 0 for s in subs])
            if rm:
                c = pubs[0].conn
                c.send(b"".join(mqtt.publish(pubs[0].pc["ver"], "t/p", b"-1:%d." % x, 1, False, 60001 + x, False, {} if pubs[0].pc["ver"] >= 5 else None) for x in range(rm)))
                quiet = 0
                while quiet < 12:
                    if pump_all(): quiet = 0
                    else:
                        quiet += 1
                        srv.quiesce() if quiet % 4 == 0 else time.sleep(.002)
                for s in subs:
                    if s.sc.get("rm"):
                        if len(set(s.probe)) != min(rm, s.sc["rm"]):
                            raise Violation("quota", "subscriber %d with receive maximum %d and nothing outstanding gets %d of %d messages" % (s.j, s.sc["rm"], len(set(s.probe)), rm))
                        stats["windows"] = stats.get("windows", 0) + 1
        srv.check_alive()
    finally:
        for c in socks: c.close()
        srv.close()


def gen_ret(rng, i=0):
    """Retained messages set by several threads while others read the tree."""
    return dict(racy=1, stress="ret", threads=rng.choice([3, 4, 6]), seed=rng.getrandbits(32),
                defer=rng.choice([0, 1, 50, 300]), maxpay=rng.choice([0, 0, 200]), base=rng.choice([50, 300]),
                churn=rng.randint(1, 3), n=rng.choice([60, 200]), same=rng.random() < .3,
                pubs=[dict(ver=rng.choice([4, 5]), qos=rng.choice([0, 1]), chunk=rng.choice([1, 5, 50]), depth=rng.choice([1, 3])) for _ in range(rng.randint(1, 4))])


def run_ret(exe, case, stats):
    rng = random.Random(case["seed"])
    cfg = CFG + "set_retained_message_defer_timeout %d\nset_retained_message_defer_timeout_spread %d\n" % (case["defer"], rng.choice([0, 5]))
    if case["maxpay"]: cfg += "retained_message_max_payload_size %d\n" % case["maxpay"]
    srv = Server(exe, cfg, threads=case["threads"], frozen=False)
    socks = []
    try:
        def conn(cid, ver=5):
            c = Conn(srv.sock)
            socks.append(c)
            c.ver = ver
            c.send(mqtt.connect(cid, ver, True, 0 if ver < 5 else 65535))
            return c
        base = conn("base")
        base.send(b"".join(mqtt.publish(5, "base/%d/%d" % (k % 7, k), b"B" * 50, 0, True) for k in range(case["base"])))
        srv.quiesce()
        live = conn("live")
        live.send(mqtt.subscribe(5, 1, [("p/#", 0)]))
        srv.quiesce()
        churn = [conn("churn%d" % k) for k in range(case["churn"])]
        for c in churn: c.pid, c.open = 0, 0
        pubs = []
        last = {}                       # topic -> {publisher: last value}
        for i, pc in enumerate(case["pubs"]):
            q = Sub()
            q.conn, q.pc, q.seq, q.acked = conn("pub%d" % i, pc["ver"]), pc, 0, 0
            q.todo = []
            for k in range(case["n"]):
                t = "p/" + "/".join(["%d" % (k % 3)] * (pc["depth"] - 1) + ["k%d" % k if case["same"] else "%d-%d" % (i, k)])
                m = rng.choice([1, 2, 3, 4])
                for v in range(m): q.todo.append((t, b"" if rng.random() < .15 else b"%d.%d." % (i, v) + b"x" * rng.choice([0, 0, 300])))
            if rng.random() < .5:       # values of different topics mixed, those of one topic in order
                order = list(range(len(q.todo)))
                for _ in range(len(order)):
                    a = rng.randrange(max(1, len(order) - 1))
                    if a + 1 < len(order) and q.todo[order[a]][0] != q.todo[order[a + 1]][0]: order[a], order[a + 1] = order[a + 1], order[a]
                q.todo = [q.todo[k] for k in order]
            q.i = i
            pubs.append(q)
        alive = {}

        def pump(c):
            c.pump()
            n = 0
            for first, body in mqtt.split(c.buf):
                n += 1
                yield first, body
            if c.eof: raise Violation("closed", "a client was disconnected: %s" % srv.tail(400))

        end = time.monotonic() + 40
        while any(q.seq < len(q.todo) for q in pubs):
            if time.monotonic() > end: raise Hang("flood does not finish")
            q = rng.choice([q for q in pubs if q.seq < len(q.todo)])
            data = []
            for t, v in q.todo[q.seq:q.seq + q.pc["chunk"]]:
                data.append(mqtt.publish(q.pc["ver"], t, v, q.pc["qos"], True, q.seq % 60000 + 1 if q.pc["qos"] else 0, False, {} if q.pc["ver"] >= 5 else None))
                m = last.setdefault(t, {})
                if not case["maxpay"] or len(v) <= case["maxpay"]: m[q.i] = v      # others are not stored
                q.seq += 1
                stats["ret_sets"] = stats.get("ret_sets", 0) + 1
            q.conn.send(b"".join(data))
            for c in [q.conn, live]:
                for _ in pump(c): pass
            for c in churn:
                for first, body in pump(c):
                    if first >> 4 == UNSUBACK: c.open -= 1
                if c.open < 2:
                    c.pid = c.pid % 60000 + 2
                    c.send(mqtt.subscribe(5, c.pid, [("#", 0)]) + mqtt.unsubscribe(5, c.pid + 1, ["#"]))
                    c.open += 1
                    stats["ret_subs"] = stats.get("ret_subs", 0) + 1
        for c in churn: c.close()
        time.sleep((case["defer"] + 20) / 1000)
        for _ in range(3):
            srv.quiesce()
            for c in [q.conn for q in pubs] + [live]:
                for _ in pump(c): pass
        end = time.monotonic() + 5
        while True:
            z = conn("z")
            z.send(mqtt.subscribe(5, 1, [("#", 0)]))
            got = {}
            quiet = 0
            while quiet < 6:
                z.pump()
                n = 0
                for first, body in mqtt.split(z.buf):
                    n += 1
                    p = mqtt.decode(first, body, 5)
                    if p.t == PUBLISH:
                        if p.topic in got: raise Violation("twice", "retained message of %s comes twice for one SUBSCRIBE" % p.topic)
                        got[p.topic] = p.payload
                if n: quiet = 0
                else:
                    quiet += 1
                    srv.quiesce(); time.sleep(.02)
            z.close()
            bad = []
            if sum(t.startswith("base/") for t in got) != case["base"]: bad.append("%d of %d older retained messages" % (sum(t.startswith("base/") for t in got), case["base"]))
            for t, m in last.items():
                if got.get(t, b"") not in (list(m.values()) or [b""]): bad.append("%s: retained is %r, last published %r" % (t, got.get(t, b"")[:20], [v[:20] for v in m.values()]))
            if not bad: break
            if time.monotonic() > end: raise Violation("ret-value", "; ".join(bad[:4]))
        stats["ret_topics"] = len(last)
        srv.check_alive()
    finally:
        for c in socks: c.close()
        srv.close()
