"""Executes a list of operations against a real FlashMQ process and the reference broker, comparing every packet."""
import contextlib, random
import mqtt
from mqtt import *
from model import Model, MConn, Msg, Exp, Pend, match, parse_share
from server import Server, Conn, ServerDied, Inconclusive, Hang, S_TICK


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


def payload(p):
    """Payload spec in an op: text, or ["r", length, seed] for pseudo-random bytes, or ["x", hex]."""
    if isinstance(p, str):
        return p.encode("utf-8", "surrogateescape")
    if p[0] == "x":
        return bytes.fromhex(p[1])
    return random.Random(p[2]).randbytes(p[1])


def norm_props(p):
    """JSON op props -> codec props"""
    if p is None:
        return None
    out = {}
    for k, v in p.items():
        if k in ("cd", "auth_data"): out[k] = payload(v)
        elif k == "user": out[k] = [tuple(x) for x in v]
        else: out[k] = v
    return out


class HConn:
    """Harness side of one connection."""
    def __init__(self, conn, m):
        self.c, self.m = conn, m
        self.log = []
        self.inflight = {}      # manual mode: list of [Pend, step-needed]
        self.acked = []         # packet ids acknowledged on this connection
        self.todo = []          # manual mode: outstanding (pid, what) to acknowledge
        self.closed = False
        self.next_pid = 1
        self.held = {}          # our QoS1/2 publishes: pid -> dict(state, msg bytes args)
        self.got_connack = False


class World:
    MODEL = Model
    def __init__(self, exe, cfg=None, model_cfg=None, threads=1, server_kw=None, check_remaining=True):
        self.cfg = cfg or ""
        self.srv = Server(exe, self.cfg, threads=threads, **(server_kw or {}))
        self.model = self.MODEL(model_cfg)
        self.h = {}             # slot -> HConn
        self.dead = []          # closing connections still to be verified
        self.stats = self.model.stats
        self.trace = []
        self.deliveries = 0
        self.next_pids = {}
        self.held = {}          # cid -> {pid: info}  client side QoS state survives reconnects
        self.check_remaining = check_remaining
        self.restarts = 0
        self.check_closed_delivery = True
        self.strict_order = True
        self.suspended_reads = set()
        self.seq = 0
        self.gassign = {}
        self.skipped = 0
        self.nudges = 20
        self.in_advance = False
        self.pid_mod = 65535    # packet ids used by the clients cycle through 1..pid_mod

    def close(self):
        for h in list(self.h.values()) + self.dead:
            h.c.close()
        self.srv.close()

    def bad(self, kind, msg):
        raise Violation(kind, msg)

    # ------------------------------------------------------------------ settle / compare
    def settle(self, clock=False, expect_exit=False):
        first = True
        for _ in range(400):
            self.srv.quiesce(clock=clock and first)
            first = False
            if not self.drain(): break
        else:
            raise Hang("traffic does not settle")
        nudges = self.nudges if not self.in_advance else 0
        while nudges and self.want_more():
            # some work is deliberately delayed by the broker by 50..500 ms
            nudges -= 1
            self.model.now += 60
            self.srv.step_clock(60)
            for _ in range(100):
                self.srv.quiesce(clock=True)
                if not self.drain(): break
        self.finish()

    def drain(self):
        more = False
        for h in list(self.h.values()) + list(self.dead):
            if h.m.slot in self.suspended_reads: continue
            if h.c.pump(): more = True
            if self.process(h): more = True
        return more

    def want_more(self):
        for h in list(self.h.values()) + list(self.dead):
            m = h.m
            if m.slot in self.suspended_reads: continue
            if m.closing == "must" and not h.c.eof: return True
            if m.closing != "may-lose" and any(not e.optional and not (e.group and not self.group_missing(e)) for e in m.expected): return True
        return False

    def process(self, h):
        """Handle all complete packets of a connection; True when something was sent in reaction."""
        sent = False
        try:
            pk = mqtt.split(h.c.buf)
        except Malformed as e:
            self.bad("wire", "connection %s: %s" % (h.m.slot, e))
        for first, body in pk:
            try:
                p = mqtt.decode(first, body, h.m.ver)
            except Malformed as e:
                self.bad("wire", "malformed packet to %s (%s): %s  %02x %s" % (h.m.slot, h.m.cid, e, first, body[:80].hex()))
            if h.m.max_packet and p["raw_len"] > h.m.max_packet:
                self.bad("oversize", "%s was sent a packet of %d bytes, its maximum is %d: %r" % (h.m.slot, p["raw_len"], h.m.max_packet, p))
            self.trace.append((self.srv.now, "<-", h.m.slot, repr(p)))
            if self.packet(h, p):
                sent = True
        return sent

    def packet(self, h, p):
        m = h.m
        if p.t == PUBLISH:
            self.resolve_alias(h, p)
        e = self.find(h, p)
        if e is not None and m.ver < 5 and p.t == PUBLISH and p.qos and e.pend is not None:
            for b in m.expected:
                if b is not e and b.kind == PUBLISH and b.pend is not None and b.msg is e.msg and b.pend.sid != e.pend.sid and self.same_publish(b, p, m.ver):
                    e.pend.alts = b.pend.alts = (e.pend.alts or {e.pend.sid}) | (b.pend.alts or {b.pend.sid})
        if e is None:
            self.bad("unexpected", "connection %s (client id %r) received %r; expected %s" % (m.slot, m.cid, p, [x for x in m.expected][:6]))
        if e.group: e.gone = True       # stays until the assignment of copies to groups is final
        else: m.expected.remove(e)
        if e.on_match: e.on_match()
        sent = False
        if p.t == PUBLISH:
            self.deliveries += 1
            if p.qos:
                sent = self.got_qos(h, p, e)
        elif p.t == PUBREL:
            sent = self.got_pubrel(h, p)
        elif p.t == PUBREC:
            sent = self.got_pubrec(h, p)
        elif p.t == CONNACK:
            h.got_connack = True
            self.connack(h, p)
        return sent

    def connack(self, h, p):
        """What the broker promises in the CONNACK is what the configuration says (and the model expects)."""
        m, c = h.m, self.model.c
        if m.ver < 5 or p.rc: return
        want = dict(recv_max=c["max_pending"], alias_max=c.get("alias_in", 65535), session_expiry=min(h.asked_expiry, c["session_cap"]),
                    retain_avail=1 if c["retain"] else 0, sid_avail=1 if c["sid_enabled"] else 0, max_qos=c["max_qos"])
        dflt = dict(recv_max=65535, alias_max=0, session_expiry=h.asked_expiry, retain_avail=1, sid_avail=1, max_qos=2)
        if c.get("max_packet"): want["max_packet"] = c["max_packet"]
        for k, v in want.items():
            got = p.props.get(k, dflt.get(k))
            if got != v: self.bad("connack", "CONNACK for %s says %s=%s, should be %s" % (m.cid, k, got, v))

    def resolve_alias(self, h, p):
        a = p.props.get("alias")
        if a is not None:
            if a == 0 or a > h.m.alias_max:
                self.bad("alias", "%s received topic alias %d, its maximum is %d" % (h.m.slot, a, h.m.alias_max))
            if p.topic == "":
                if a not in h.m.alias_out:
                    self.bad("alias", "%s received unknown topic alias %d" % (h.m.slot, a))
                p["topic"] = h.m.alias_out[a]
                self.model.stat("alias_resolved")
            else:
                h.m.alias_out[a] = p.topic
        elif p.topic == "":
            self.bad("alias", "%s received a PUBLISH without topic and alias" % h.m.slot)

    def same_publish(self, e, p, ver):
        f = e.f
        if f["topic"] != p.topic or f["payload"] != p.payload or f["qos"] != p.qos or bool(f["retain"]) != p.retain:
            return False
        if p.dup and not f.get("redelivery"):
            return False
        if e.pend is not None and e.pend.pid is not None and e.pend.pid != p.pid:
            return False
        if ver >= 5:
            pp = {k: v for k, v in p.props.items() if k not in ("alias", "expiry")}
            if pp.get("pfi") == 0: del pp["pfi"]
            want = f["props"]
            if e.pend is not None and e.pend.alts:
                # which of two equal copies went out to a pre-v5 connection cannot be seen
                want = {k: v for k, v in want.items() if k != "sid"}
                if (pp.pop("sid", [0]) or [0])[0] not in e.pend.alts: return False
            if pp != want:
                return False
            r = f["remaining"]
            x = p.props.get("expiry")
            if x is None and f.get("capped"):
                r = None
            if (r is None) != (x is None):
                return False
            if r is not None and self.check_remaining and not (r - 1.01 <= x <= r + 1.01 + self.restarts + f.get("fuzz", 0) and x <= f["full_expiry"]):
                return False
        return True

    def find(self, h, p):
        m = h.m
        if p.t != PUBLISH:
            for e in m.expected:
                if e.kind == p.t and self.same_control(e, p):
                    return e
            return None
        # what must come is matched before what may come
        groups = []
        for i, e in sorted(enumerate(m.expected), key=lambda x: (x[1].group is not None or x[1].optional)):
            if e.kind == PUBLISH and self.same_publish(e, p, m.ver):
                if e.group:
                    groups.append(e)
                    continue
                # order inside the stream
                if self.strict_order and e.stream is not None:
                    for b in m.expected[:i]:
                        if b.kind == PUBLISH and b.stream == e.stream and not b.optional and not b.group \
                                    and b.msg.id != e.msg.id and not self.same_publish(b, p, m.ver):
                            self.bad("order", "%s received %r before %r" % (m.slot, p, b))
                return e
        free = [e for e in groups if not e.gone]
        if free and self.assign((object(), [e.group[1] for e in groups]), set()):
            return free[0]
        return None

    def assign(self, arrival, seen):
        """Each group takes one copy: find an assignment of received copies to groups (augmenting path)."""
        for g in arrival[1]:
            if g in seen: continue
            seen.add(g)
            if g not in self.gassign or self.assign(self.gassign[g], seen):
                self.gassign[g] = arrival
                return True
        return False

    def same_control(self, e, p):
        f = e.f
        if "pid" in f and f["pid"] != p.get("pid"): return False
        if "rc" in f and p.get("rc") not in f["rc"]: return False
        if "present" in f and p.get("present") != f["present"]: return False
        if "codes" in f:
            if len(f["codes"]) != len(p["codes"]): return False
            for a, b in zip(f["codes"], p["codes"]):
                if b not in a: return False
        if "check" in f and not f["check"](p): return False
        return True

    def got_qos(self, h, p, e):
        m = h.m
        s = m.session or e.sess
        pend = e.pend
        if pend.pid is None:
            if s is not None:
                for o in s.pend:
                    if o is not pend and o.pid == p.pid and not o.gone:
                        self.bad("pid-reuse", "%s: packet id %d used for a new message while still in use (%s)" % (m.slot, p.pid, o.state))
            pend.pid = p.pid
            self.seq += 1
            pend.seq = self.seq
            if s is not None: s.pend.sort(key=lambda x: x.seq)      # the order seen on the wire
        pend.state = "sent"
        if s is not None:
            out = sum(1 for o in s.pend if o.state == "sent")
            if out > m.recv_max + m.rel_at_resume:
                self.bad("receive-max", "%s: %d unacknowledged messages outstanding, receive maximum is %d" % (m.slot, out, m.recv_max))
        if m.auto is True:
            self.do_ack(h, pend, p.qos)
            return True
        h.todo.append((pend, p.qos))
        return False

    def do_ack(self, h, pend, qos, err=None):
        m = h.m
        h.acked.append(pend.pid)
        if qos == 1:
            h.c.send(mqtt.ack(PUBACK, pend.pid, m.ver, err))
            if m.session: self.model.client_ack(m.session, pend, "puback")
        elif err and err >= 0x80 and m.ver >= 5:
            h.c.send(mqtt.ack(PUBREC, pend.pid, m.ver, err))
            if m.session: self.model.client_ack(m.session, pend, "pubrec_err")
        else:
            h.c.send(mqtt.ack(PUBREC, pend.pid, m.ver))
            if m.session: self.model.client_ack(m.session, pend, "pubrec")
            m.expected.append(Exp(PUBREL, dict(pid=pend.pid, rc={0})))
        m.last_activity = self.model.now

    def got_pubrel(self, h, p):
        m = h.m
        s = m.session
        if m.auto is True:
            h.c.send(mqtt.ack(PUBCOMP, p.pid, m.ver))
            self.comp(s, p.pid)
            return True
        h.todo.append((p.pid, "comp"))
        return False

    def comp(self, s, pid):
        if s is None: return
        for o in list(s.pend):
            if o.pid == pid and o.state == "rel":
                self.model.client_ack(s, o, "pubcomp")

    def got_pubrec(self, h, p):
        """Answer to one of our QoS 2 publishes."""
        info = self.held.get(h.m.cid, {}).get(p.pid)
        if info is None:
            return False
        if p.rc >= 0x80:
            del self.held[h.m.cid][p.pid]
            if h.m.session: h.m.session.incoming2.discard(p.pid)
            return False
        info["state"] = "rec"
        if info.get("hold"):
            return False
        return self.release(h, p.pid)

    def release(self, h, pid):
        h.c.send(mqtt.ack(PUBREL, pid, h.m.ver))
        h.m.last_activity = self.model.now
        self.held.get(h.m.cid, {}).pop(pid, None)
        known = h.m.session is not None and pid in h.m.session.incoming2
        if h.m.session: h.m.session.incoming2.discard(pid)
        h.m.expected.append(Exp(PUBCOMP, dict(pid=pid, rc={0}) if known else dict(pid=pid)))
        return True

    def finish(self):
        """After settling: nothing expected may be missing, closes must be as expected."""
        hs = list(self.h.values()) + list(self.dead)
        gs = [e for h in hs if h.m.closing != "may-lose" for e in h.m.expected if e.group]
        if any(e.group[2] and self.group_missing(e) for e in gs):
            self.bad("missing", "a shared subscription group did not get its copy: %s" % [e for e in gs if e.group[2]][:4])
        for h in hs:
            h.m.expected = [x for x in h.m.expected if not x.group]
        self.model.floats = [f for f in self.model.floats if f.get("gid") not in self.gassign]
        self.gassign = {}
        for h in list(self.h.values()) + list(self.dead):
            m = h.m
            if m.slot in self.suspended_reads: continue
            if h.c.eof and h in self.h.values():
                if m.closing is None:
                    self.bad("closed", "connection %s (client id %r) was closed by the broker unexpectedly; buffered %s; log: %s" % (
                        m.slot, m.cid, bytes(h.c.buf[:40]).hex(), self.srv.tail(400)))
            if m.closing == "must" and not h.c.eof:
                self.bad("not-closed", "connection %s (client id %r) should have been closed by the broker" % (m.slot, m.cid))
            missing = [e for e in m.expected if not e.optional]
            if missing and m.closing != "may-lose":
                self.bad("missing", "connection %s (client id %r) did not receive %s" % (m.slot, m.cid, missing[:4]))
            for e in m.expected:
                # an optional delivery which did not come
                if e.pend is not None and e.optional and (e.pend.state == "new" or e.f.get("redelivery")) and m.session and e.pend in m.session.pend:
                    m.session.pend.remove(e.pend); e.pend.gone = True
                    m.session.quota = min(m.session.quota + 1, m.session.limit)
            m.expected = []
            if h.c.eof:
                h.c.close()
                h.closed = True
                if self.h.get(m.slot) is h:
                    del self.h[m.slot]
        self.dead = [h for h in self.dead if not h.closed]
        r = self.model.after_settle()
        if r: self.bad("missing", r)

    def group_missing(self, e):
        """A group which must get a copy, but cannot be given one of those that came."""
        if not e.group[2]: return False
        arrivals = {id(a): a for a in self.gassign.values()}
        must = {x.group[1] for h in list(self.h.values()) + list(self.dead) for x in h.m.expected if x.group and x.group[2]}
        taken = {}

        def place(g, seen):
            for i, a in arrivals.items():
                if g in a[1] and i not in seen:
                    seen.add(i)
                    if i not in taken or place(taken[i], seen):
                        taken[i] = g
                        return True
            return False
        for g in sorted(must):
            if not place(g, set()): return True
        return False

    # ------------------------------------------------------------------ operations
    def apply(self, op):
        f = getattr(self, "op_" + op["o"])
        self.trace.append((self.srv.now, "op", "", repr(op)))
        f(op)

    def live(self, op):
        h = self.h.get(op["k"])
        if h is None or h.closed or h.m.session is None or h.m.closing:
            return None
        return h

    def new_conn(self, op):
        return Conn(self.srv.sock)

    def msg_of(self, d, cid, user=""):
        return Msg(d["t"], payload(d.get("p", "")), d.get("q", 0), bool(d.get("r")), norm_props(d.get("props")), self.model.now, cid, user)

    def op_conn(self, op, settle=True):
        k = op["k"]
        if k in self.h: return
        ver = op.get("ver", 4)
        m = MConn(k, op["cid"], ver, rm=op.get("rm") if ver >= 5 else None, mp=op.get("mp") if ver >= 5 else None,
                  am=op.get("am") if ver >= 5 else None, auto=op.get("auto", True), ka=max(op["ka"], 5) if ver >= 5 and "ka" in op else op.get("ka", 0), bridge=op.get("bridge", False), user=op.get("user"))
        if not m.max_packet: m.max_packet = self.model.c.get("max_packet")
        clean = op.get("clean", True)
        olds = self.model.sessions.get(op["cid"])
        if m.max_packet and m.alias_max: m.recv_max = 65535     # whether a packet fits depends on alias use
        if m.recv_max < 65535 and olds is not None and not clean:
            q = [p for p in olds.pend if p.state != "rel"]
            if len(q) > min(m.recv_max, self.model.c["max_pending"]) and len({p.msg.id for p in q}) < len(q):
                m.recv_max = 65535      # which copy of a message is beyond the limit is not specified
        props = []
        if ver >= 5:
            if op.get("exp") is not None: props.append(("session_expiry", op["exp"]))
            if m.recv_max != 65535: props.append(("recv_max", m.recv_max))
            if op.get("mp"): props.append(("max_packet", op["mp"]))
            if op.get("am"): props.append(("alias_max", op["am"]))
        will = None
        if op.get("will"):
            w = op["will"]
            wp = norm_props(w.get("props")) or {}
            delay = w.get("delay", 0) if ver >= 5 else 0
            if ver < 5: wp = {}
            msg = Msg(w["t"], payload(w.get("p", "")), w.get("q", 0), bool(w.get("r")), wp, self.model.now, op["cid"], op.get("user") or "")
            pl = list(wp.items())
            if delay: pl.append(("will_delay", delay))
            will = dict(topic=w["t"], payload=msg.payload, qos=msg.qos, retain=msg.retain, props=pl)
            if self.model.acl_write(op["cid"], op.get("user") or "", w["t"]):
                m.will = (msg, delay)
            self.model.stat("will_registered")
        data = mqtt.connect(op["cid"], ver, clean, op.get("ka", 65535 if ver >= 5 else 0), op.get("user"), op.get("pw"), will, props, m.bridge)
        h = HConn(self.new_conn(op), m)
        h.asked_expiry = op.get("exp") or 0
        old = self.model.sessions.get(op["cid"])
        oldh = None
        if old is not None and old.conn is not None:
            oldh = self.h.pop(old.conn.slot)
            self.dead.append(oldh)
        self.h[k] = h
        m.last_activity = self.model.now
        self.model.connect(m, clean, op.get("exp") or 0, op.get("user") or "")
        m.rel_at_resume = sum(1 for p in m.session.pend if p.state == "rel")
        if not (self.model.sessions[op["cid"]] is old):
            self.held[op["cid"]] = {}
        h.c.send(data)
        if settle: self.settle()

    def op_disc(self, op):
        h = self.live(op)
        if not h: return
        ver = h.m.ver
        rc = op.get("rc", 0) if ver >= 5 else 0
        s = h.m.session
        props = None
        if ver >= 5 and op.get("exp") is not None and s.expiry > 0:
            props = {"session_expiry": op["exp"]}
            s.expiry = min(op["exp"], self.model.c["session_cap"])
            if s.expiry == 0: s.destroy = True
            self.model.stat("expiry_changed")
        h.c.send(mqtt.disconnect(ver, rc if (rc or props) else None, props))
        h.m.closing = "must"
        self.model.conn_closed(h.m, rc == 0)
        self.settle()

    def op_drop(self, op):
        h = self.live(op)
        if not h: return
        self.process(h)
        h.c.close()
        h.closed = True
        self.h.pop(h.m.slot, None)
        self.model.conn_closed(h.m, False)
        self.settle()

    def pid_for(self, h, cid):
        n = self.next_pids.get(cid, 0)
        used = set(self.held.get(cid, {})) | {e.f.get("pid") for e in h.m.expected if e.kind in (PUBACK, PUBREC, SUBACK, UNSUBACK)}
        for _ in range(self.pid_mod):
            n = n % self.pid_mod + 1
            if n not in used: break
        while n in used: n += 1
        self.next_pids[cid] = n
        return n

    def op_sub(self, op):
        h = self.live(op)
        if not h: return
        m = h.m
        pid = self.pid_for(h, m.cid)
        subs, codes = [], []
        sid = op.get("sid", 0) if m.ver >= 5 else 0
        todo = []
        for filt, qos, nl, rap, rh in op["subs"]:
            share, _ = parse_share(filt)
            if m.ver < 5: nl = rap = rh = 0
            if share is not None: nl = 0
            subs.append((filt, qos | (4 if nl else 0) | (8 if rap else 0) | (rh << 4)))
            codes.append(self.suback_codes(m, filt, qos))
            todo.append((filt, qos, bool(nl) or m.bridge, bool(rap) or m.bridge, rh))
        if m.auto is not True:
            n = size = 0
            for f, qos, nl, rap, rh in todo:
                share, ff = parse_share(f)
                if share is None and rh != 2:
                    xs = [x for t, x in self.model.retained.items() if match(ff, t) and min(x.qos, qos)]
                    n += len(xs)
                    size += sum(len(mqtt.b2(x.topic)) + len(x.payload) for x in xs)
            if n > m.session.quota or (n and size + sum(p.size for p in m.session.pend) >= self.model.c["max_bytes"]):
                self.skipped += 1
                return
        m.expected.append(Exp(SUBACK, dict(pid=pid, codes=codes)))
        for t in todo:
            self.model.subscribe(m, *t, sid)
        m.last_activity = self.model.now
        if op.get("tick"):
            with self.ticking(op["tick"]):
                h.c.send(mqtt.subscribe(m.ver, pid, subs, {"sid": sid} if sid else None))
                self.srv.quiesce()
                self.srv.step_clock(60)
                self.srv.quiesce()
        else: h.c.send(mqtt.subscribe(m.ver, pid, subs, {"sid": sid} if sid else None))
        self.settle()

    def suback_codes(self, m, filt, qos):
        return {min(qos, self.model.c["max_qos"])}

    def op_unsub(self, op):
        h = self.live(op)
        if not h: return
        m = h.m
        pid = self.pid_for(h, m.cid)
        codes = []
        for f in op["fs"]:
            had = m.session.subs.pop(parse_share(f), None)
            if had: self.model.stat("unsubscribed")
            codes.append({0} if had else {0, 0x11})
        m.expected.append(Exp(UNSUBACK, dict(pid=pid, codes=codes) if m.ver >= 5 else dict(pid=pid)))
        h.c.send(mqtt.unsubscribe(m.ver, pid, op["fs"]))
        m.last_activity = self.model.now
        self.settle()

    def send_publish(self, h, d):
        """Build the bytes of one publish and update the model."""
        m = h.m
        msg = self.msg_of(d, m.cid, m.user)
        if m.ver < 5:
            msg.props = {}; msg.expiry = msg.deadline = None
        pid = 0
        props = dict(norm_props(d.get("props")) or {}) if m.ver >= 5 else None
        topic = d["t"]
        if m.ver >= 5 and d.get("al"):
            a = d["al"]
            if d.get("al_only") and m.alias_in.get(a) is not None:
                topic, msg.topic = "", m.alias_in[a]
                self.model.stat("alias_only_in")
            else:
                m.alias_in[a] = d["t"]
            props["alias"] = a
        if msg.qos:
            pid = self.pid_for(h, m.cid)
        data = mqtt.publish(m.ver, topic, msg.payload, msg.qos, msg.retain, pid, bool(d.get("dup")), props)
        full = mqtt.publish(m.ver, msg.topic, msg.payload, msg.qos, msg.retain, pid, True,
                            {k: v for k, v in props.items() if k != "alias"} if props is not None else None)
        allowed = self.model.acl_write(m.cid, m.user, msg.topic)
        rcs = {0, 0x10} if allowed else ({0x87} if m.ver >= 5 else {0})
        if msg.qos == 1:
            m.expected.append(Exp(PUBACK, dict(pid=pid, rc=rcs)))
        elif msg.qos == 2:
            m.session.incoming2.add(pid)
            m.expected.append(Exp(PUBREC, dict(pid=pid, rc=rcs)))
            self.held.setdefault(m.cid, {})[pid] = dict(state="sent", hold=bool(d.get("hold")), dup=full, q=2, ver=m.ver)
            if d.get("hold"): self.model.stat("held_qos2")
        m.last_activity = self.model.now
        self.model.publish(msg, m.cid, m.user)
        return data

    def ambiguous(self, msgs, h):
        al = dict(h.m.alias_in)
        res = []
        for d in msgs:
            t = d["t"]
            if h.m.ver >= 5 and d.get("al"):
                if d.get("al_only") and al.get(d["al"]) is not None: t = al[d["al"]]
                else: al[d["al"]] = t
            res.append(dict(d, t=t))
        return self.ambiguous_(res)

    def ambiguous_(self, msgs):
        """Would a limit be reached in the middle of the copies of one message (which copy is dropped is unspecified)?"""
        for d in msgs:
            keys = {k for s in self.model.sessions.values() for k in s.subs if s.conn is None and k[0] is not None and match(k[1], d["t"])}
            if keys:       # which copy went to which group cannot be told when a session is in several of them
                n = 0
                for s in self.model.sessions.values():
                    n = max(n, sum(1 for k in s.subs if k[0] is not None and match(k[1], d["t"])))
                if len(keys) > 1 or n > 1:
                    self.skipped += 1
                    return True
        for s in self.model.sessions.values():
            need, size, worst = 0, 0, 0
            for d in msgs:
                subs = [b for (g, f), b in s.subs.items() if min(b.qos, d["q"]) > 0 and match(b.filt, d["t"])]
                if not subs: continue
                need += len(subs)
                size += len(subs) * (len(mqtt.b2(d["t"])) + len(payload(d.get("p", ""))))
                worst = max(worst, len(subs))
            if worst > 1:
                q = [p for p in s.pend if p.state in ("new", "sent")]
                if need > s.quota or (not s.destroy and sum(p.size for p in q) + size >= self.model.c["max_bytes"]):
                    self.skipped += 1
                    return True
        return False

    def op_pub(self, op):
        h = self.live(op)
        if not h or self.ambiguous([op], h): return
        h.c.send(self.send_publish(h, op))
        self.settle()

    def op_burst(self, op):
        h = self.live(op)
        if not h or self.ambiguous(op["msgs"], h): return
        data = b"".join(self.send_publish(h, d) for d in op["msgs"])
        h.c.send(data)
        self.settle()

    def op_toobig(self, op):
        """A PUBLISH with a total size of max_packet_size + d bytes."""
        h = self.live(op)
        if not h: return
        m = h.m
        n = self.model.c["max_packet"] + op["d"]
        d = dict(t=op["t"], q=op["q"], p=["r", max(0, n - 40 - len(op["t"].encode())), op.get("n", 0)])
        for _ in range(3):
            have = len(mqtt.publish(m.ver, d["t"], payload(d["p"]), d["q"], False, 1 if d["q"] else 0, False, {} if m.ver >= 5 else None))
            d["p"][1] += n - have
        if have != n: return
        if op["d"] <= 0:
            if self.ambiguous([d], h): return
            h.c.send(self.send_publish(h, d))
            self.model.stat("exact_size")
        else:
            pid = self.pid_for(h, m.cid) if d["q"] else 0
            if m.ver >= 5: m.expected.append(Exp(DISCONNECT, dict(rc={0x95}), optional=True))
            h.c.send(mqtt.publish(m.ver, d["t"], payload(d["p"]), d["q"], False, pid, False, {} if m.ver >= 5 else None))
            m.closing = "must"
            self.model.stat("toobig_in")
            self.model.conn_closed(m, False)
        self.settle()

    def op_badalias(self, op):
        """A PUBLISH with an alias that is zero, too large or not bound on this connection, or with neither topic nor alias."""
        h = self.live(op)
        if not h or h.m.ver < 5: return
        m, kind, top = h.m, op["kind"], self.model.c.get("alias_in", 65535)
        topic, a = op["t"] if op.get("topic") else "", None
        if kind == "zero": a = 0
        elif kind == "big":
            a = top + op.get("d", 1)
            if a > 65535: return
        elif kind == "unbound":
            topic, a = "", op.get("a", 1)
            if a in m.alias_in or a > top: return
        else: topic = ""
        q = op.get("q", 0)
        pid = self.pid_for(h, m.cid) if q else 0
        m.expected.append(Exp(DISCONNECT, dict(rc={0x81, 0x82, 0x94}), optional=True))
        h.c.send(mqtt.publish(m.ver, topic, payload(op["p"]), q, bool(op.get("r")), pid, False, {} if a is None else dict(alias=a)))
        m.closing = "must"
        self.model.stat("bad_alias")
        self.model.conn_closed(m, False)
        self.settle()

    def op_redup(self, op):
        """Retransmit (DUP) a held QoS 2 publish; must not be routed again."""
        h = self.live(op)
        if not h: return
        held = [(p, i) for p, i in self.held.get(h.m.cid, {}).items() if i["ver"] == h.m.ver]
        if not held: return
        pid, info = held[op.get("n", 0) % len(held)]
        if pid not in h.m.session.incoming2: return
        h.m.expected.append(Exp(PUBREC, dict(pid=pid, rc={0, 0x10})))
        h.c.send(info["dup"])
        h.m.last_activity = self.model.now
        self.model.stat("retransmitted")
        self.settle()

    def op_rel(self, op):
        h = self.live(op)
        if not h: return
        held = list(self.held.get(h.m.cid, {}).items())
        if not held: return
        pid, info = held[op.get("n", 0) % len(held)]
        self.model.stat("released")
        self.release(h, pid)
        self.settle()

    def op_ack(self, op):
        """Manual mode: acknowledge one step of the n-th outstanding delivery."""
        h = self.live(op)
        if not h or not h.todo: return
        for _ in range(op.get("times", 1)):
            if not h.todo: break
            i = op.get("n", 0) % len(h.todo)
            what, q = h.todo.pop(i)
            if q == "comp":
                h.c.send(mqtt.ack(PUBCOMP, what, h.m.ver))
                self.comp(h.m.session, what)
            else:
                if what.gone or what.state != "sent": continue
                self.do_ack(h, what, q, op.get("err") if h.m.ver >= 5 else None)
            self.model.stat("manual_ack")
        h.m.last_activity = self.model.now
        self.settle()

    def op_reack(self, op):
        """Acknowledge what isn't in flight: something already acknowledged, or never sent."""
        h = self.live(op)
        if not h or h.m.session is None: return
        s = h.m.session
        if any(o.pid is None for o in s.pend): return
        used = {o.pid for o in s.pend} | {w for w, q in h.todo if q == "comp"}
        ids = [i for i in h.acked[-6:] + [(h.acked or [0])[-1] + 1, 40000] if i and i < 65536 and i not in used]
        if not ids: return
        pid, kind = ids[op["n"] % len(ids)], op["kind"]
        if kind == "pubrec_err" and h.m.ver < 5: kind = "pubrec"
        for _ in range(op.get("times", 1)):
            if kind == "puback": h.c.send(mqtt.ack(PUBACK, pid, h.m.ver))
            elif kind == "pubcomp": h.c.send(mqtt.ack(PUBCOMP, pid, h.m.ver))
            elif kind == "pubrec_err": h.c.send(mqtt.ack(PUBREC, pid, h.m.ver, 0x83))
            else:
                h.m.expected.append(Exp(PUBREL, dict(pid=pid, rc={0, 0x92})))
                h.c.send(mqtt.ack(PUBREC, pid, h.m.ver))
                self.settle()
                if not self.live(op): return
                if (pid, "comp") in h.todo:
                    h.todo.remove((pid, "comp"))
                    h.c.send(mqtt.ack(PUBCOMP, pid, h.m.ver))
        self.model.stat("reacks")
        h.m.last_activity = self.model.now
        self.settle()

    def op_ping(self, op):
        h = self.live(op)
        if not h: return
        h.m.expected.append(Exp(PINGRESP))
        h.c.send(mqtt.pingreq())
        h.m.last_activity = self.model.now
        self.settle()

    def op_adv(self, op):
        """Let virtual time pass; due events happen on the way."""
        target = self.model.bump(self.model.now + op["ms"])
        if op.get("tick"):
            with self.ticking(op["tick"]):
                self.advance(target)
                for _ in range(6):      # delayed tasks continue what took too long
                    self.srv.step_clock(150)
                    self.srv.quiesce()
            self.settle()
        else: self.advance(target)
        self.out_of_windows()

    @contextlib.contextmanager
    def ticking(self, ns):
        """Every look at the clock makes ns pass, so that time budgets of long operations run out."""
        self.srv.set(S_TICK, ns)
        try: yield
        finally:
            self.srv.set(S_TICK, 0)
            self.model.now = max(self.model.now, self.srv.now)

    def advance(self, target):
        due = set()
        events = self.model.next_events(target)
        for _ in range(10000):
            if not events: break
            t, kind, obj = events[0]
            due.add(t)
            self.model.now = max(self.model.now, min(t, target))
            if kind == "will":
                s = obj
                if s.will and s.conn is None:
                    w, s.will = s.will, None
                    self.model.fire_will(s, w[1], 14)
            elif kind == "session":
                if obj.conn is None: self.model.end_session(obj)
            elif kind == "ka":
                c = obj
                c.closing = "must"
                if c.ver >= 5: c.expected.append(Exp(DISCONNECT, dict(rc={0x8D}), optional=True))
                self.model.stat("keepalive_drop")
                cs = c.session
                self.model.conn_closed(c, False, 14)
                if cs is not None: cs.off_fuzz = 13000
            events = self.model.next_events(target)
        self.model.now = target
        # fine steps so that timers run in a realistic order; coarse ones for long waits
        cur = self.srv.now
        total = target - cur
        if total <= 0: return
        n = max(1, min(40, total // 1000))
        step = max(1, total // n)
        stops = set(range(cur + step, target, step))
        if step > 2000:     # what is due should happen when it is due
            for t in sorted(due)[:12]: stops.update(x for x in range(int(t), int(t) + 14001, 2000) if cur < x < target)
        stops.add(target)
        self.check_remaining = False
        self.in_advance = True
        try:
            for x in sorted(stops):
                self.srv.step_clock(x - cur)
                cur = x
                for _ in range(100):
                    self.srv.quiesce(clock=True)
                    if not self.drain(): break
            self.settle()
        finally:
            self.check_remaining = True
            self.in_advance = False

    # --- restarts
    def op_restart(self, op):
        """Clean shutdown, some down time, start again with the same storage."""
        m = self.model
        conns = list(m.conns.values())
        for c in conns:
            for e in c.expected: e.optional = True
            c.closing = "may-lose"
            if c.ver >= 5: c.expected.append(Exp(DISCONNECT, dict(rc={0x8B}), optional=True))
        for h in list(self.h.values()):
            h.m.auto = "off"
        self.shutdown_model(conns)
        self.srv.stop()
        for h in list(self.h.values()) + self.dead:
            h.m.auto = "off"
            h.c.pump()
            self.process(h)
            h.c.close(); h.closed = True
        self.h.clear(); self.dead = []
        self.model.conns.clear()
        for s in list(m.sessions.values()):
            s.limit = m.c["max_pending"]        # a receive maximum is not part of the session
            s.quota = s.limit - sum(1 for p in s.pend if p.state != "rel")
        self.restarts += 1
        m.restarts += 1
        m.stat("restart")
        down = op.get("down", 0)
        if down:
            target = m.bump(m.now + down)
            self.srv.step_clock(target - self.srv.now)
            for t, kind, obj in m.next_events(target):
                pass
            m.now = target
        if not m.c.get("persist_retained", True): m.retained.clear()
        self.srv.start()
        self.srv.step_clock(10)         # no time at all passing would be unreal
        m.now += 10
        self.srv.quiesce()
        self.after_restart(down)

    def shutdown_model(self, conns):
        m = self.model
        # all wills are published while everyone is still connected
        m.in_shutdown = True
        for c in conns:
            if c.will and c.session is not None:
                msg, delay = c.will
                s = c.session
                c.will = None
                if delay == 0: m.fire_will(s, msg)
                elif s.destroy or s.expiry == 0: m.fire_will(s, msg)
                else: s.will = (m.now + min(delay, 10**9) * 1000, msg)
        for c in conns:
            for e in c.expected: e.optional = True
        for c in conns:
            m.conn_closed(c, False)
        m.in_shutdown = False

    def after_restart(self, down):
        """Everything whose time came while down happens soon after the start."""
        t = self.model.now
        ev = self.model.next_events(t)
        if ev:
            self.model.now = t
            self.advance(self.model.bump(t + 14000))
            self.out_of_windows()

    def out_of_windows(self):
        """What was published meanwhile (wills) may be just about to expire."""
        for _ in range(20):
            t = self.model.bump(self.model.now)
            if t <= self.model.now: break
            self.advance(t)
