"""Reference broker: what a FlashMQ user may rely on, written from the MQTT specifications and FlashMQ's documentation.
Works on operations and observed packets only; knows nothing of the implementation's data structures."""
import mqtt
from server import Inconclusive


def match(f, t):
    fl, tl = f.split("/"), t.split("/")
    if t[:1] == "$" and fl[0] in ("+", "#"):
        return False
    for i, x in enumerate(fl):
        if x == "#":
            return True
        if i >= len(tl):
            return False
        if x != "+" and x != tl[i]:
            return False
    return len(fl) == len(tl)


def parse_share(f):
    """('$share/g/filter') -> (g, filter) or (None, filter)"""
    if f.startswith("$share/"):
        g, _, rest = f[7:].partition("/")
        return g, rest
    return None, f


class Sub:
    def __init__(self, filt, qos, nl=False, rap=False, sid=0):
        self.filt, self.qos, self.nl, self.rap, self.sid = filt, qos, nl, rap, sid


class Msg:
    """A published application message."""
    n = 0

    def __init__(self, topic, payload, qos=0, retain=False, props=None, at=0, sender=None, user=""):
        self.topic, self.payload, self.qos, self.retain = topic, payload, qos, retain
        self.props = dict(props or {})
        self.at = at
        self.sender, self.user = sender, user
        e = self.props.pop("expiry", None)
        self.expiry = e
        self.deadline = None if e is None else at + e * 1000
        self.fuzz = 0               # seconds of uncertainty of the moment of publication
        self.loose = False          # its order relative to messages of others is not determined
        self.capped = False         # the lifetime is the configured retained lifetime, not one given by the publisher
        Msg.n += 1
        self.id = Msg.n

    def copy(self):
        m = Msg.__new__(Msg)
        m.__dict__.update(self.__dict__)
        m.props = dict(self.props)
        return m


class Pend:
    """A QoS>0 message accepted for a session and not completely acknowledged."""
    def __init__(self, msg, qos, retain, sid, size=0):
        self.msg, self.qos, self.retain, self.sid = msg, qos, retain, sid
        self.pid = None
        self.state = "new"          # new -> sent -> rel (QoS 2 after PUBREC) -> gone
        self.size = size
        self.gone = False
        self.seq = 1 << 60
        self.alts = None


class Session:
    def __init__(self, cid, user, now):
        self.cid, self.user = cid, user
        self.subs = {}              # (share, filter) -> Sub
        self.pend = []              # list of Pend, order of acceptance
        self.incoming2 = set()
        self.conn = None
        self.expiry = 0             # seconds
        self.destroy = True
        self.offline_since = None
        self.will = None            # delayed will waiting: (due_ms, msg)
        self.off_fuzz = 0           # uncertainty (ms) of the moment it went off-line
        self.quota = 0
        self.limit = 0

    def key(self):
        return self.cid


class Exp:
    """An expected packet on a connection."""
    __slots__ = ("kind", "f", "optional", "group", "pend", "stream", "msg", "sess", "on_match", "gone")

    def __init__(self, kind, f=None, optional=False, group=None, pend=None, stream=None, msg=None, sess=None, on_match=None):
        self.kind, self.f, self.optional, self.group, self.pend, self.stream, self.msg = kind, f or {}, optional, group, pend, stream, msg
        self.sess, self.on_match, self.gone = sess, on_match, False

    def __repr__(self):
        d = dict(self.f)
        if isinstance(d.get("payload"), bytes) and len(d["payload"]) > 60: d["payload"] = d["payload"][:40] + b"...(%d)" % len(d["payload"])
        return mqtt.NAMES[self.kind] + repr(d) + ("?" if self.optional else "")


class MConn:
    def __init__(self, slot, cid, ver, **kw):
        self.slot, self.cid, self.ver = slot, cid, ver
        self.session = None
        self.expected = []
        self.closing = None         # None: must stay open; "must": must be closed; "may"
        self.will = None            # (Msg template, delay)
        self.recv_max = kw.get("rm") or 65535
        self.max_packet = kw.get("mp") or None
        self.alias_max = kw.get("am") or 0
        self.auto = kw.get("auto", True)
        self.alias_in = {}          # client -> server
        self.alias_out = {}         # server -> client, as observed
        self.keepalive = kw.get("ka", 0)
        self.last_activity = 0
        self.connected_at = 0
        self.bridge = kw.get("bridge", False)
        self.user = kw.get("user") or ""
        self.rel_at_resume = 0


# lengths of encoded PUBLISH packets as the broker would send them
def publish_size(ver, topic, qos, payload, props, alias_slack=0):
    b = mqtt.publish(ver, topic, payload, qos, False, 1 if qos else 0, False, props if ver >= 5 else None)
    return len(b)


class Model:
    """cfg: max_pending, max_bytes, session_expiry_cap, max_qos, retained mode etc."""
    def __init__(self, cfg=None):
        c = dict(max_pending=512, max_bytes=65536, session_cap=1209600, max_qos=2, retain=True, wills=True,
                 sid_enabled=True, session_grace=13000, will_grace=4000, retained_cap=2**31 - 1)
        c.update(cfg or {})
        self.c = c
        self.now = 0
        self.sessions = {}          # cid -> Session
        self.conns = {}             # slot -> MConn
        self.retained = {}          # topic -> Msg
        self.floats = []            # unresolved messages of shared groups with only off-line members
        self.groups = 0
        self.in_shutdown = False
        self.just_connecting = None
        self.acl_write = lambda cid, user, topic: True
        self.acl_read = lambda cid, user, topic: True
        self.stats = {}
        self.restarts = 0           # ages are saved in whole seconds

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # ------------------------------------------------------------------ routing
    def exp_publish(self, sess, msg, qos, retain, sid, pend=None, optional=False, group=None, first=True, stream=None, on_match=None):
        conn = sess.conn
        f = dict(topic=msg.topic, payload=msg.payload, qos=qos, retain=retain)
        if conn.ver >= 5:
            p = {k: v for k, v in msg.props.items() if k in ("ct", "rt", "cd", "user", "pfi")}
            if p.get("pfi") == 0: del p["pfi"]
            if not p.get("user"): p.pop("user", None)
            if sid: p["sid"] = [sid]
            f["props"] = p
            f["remaining"] = None if msg.deadline is None else (msg.deadline - self.now) / 1000.0
            f["full_expiry"] = msg.expiry
            if msg.capped: f["capped"] = True
            if msg.fuzz: f["fuzz"] = msg.fuzz
            if msg.deadline is not None and self.now - msg.at >= 2000: self.stat("waited")
        if not first: f["redelivery"] = True
        return Exp(mqtt.PUBLISH, f, optional=optional, group=group, pend=pend, stream=stream, msg=msg, sess=sess, on_match=on_match)

    def too_big(self, conn, msg, qos, sid):
        """True / False / None (depends on alias use)"""
        if conn is None or not conn.max_packet:
            return False
        p = []
        if conn.ver >= 5:
            if msg.props.get("pfi"): p.append(("pfi", 1))
            if msg.deadline is not None: p.append(("expiry", 1))
            for k in ("ct", "rt", "cd"):
                if k in msg.props: p.append((k, msg.props[k]))
            if msg.props.get("user"): p.append(("user", msg.props["user"]))
            if sid: p.append(("sid", sid))
        n = publish_size(conn.ver, msg.topic, qos, msg.payload, p)
        lo = hi = n
        if conn.ver >= 5 and conn.alias_max:
            hi += 4
            lo = min(lo, lo - len(mqtt.b2(msg.topic)) + 2)
        if lo > conn.max_packet: return True
        if hi <= conn.max_packet: return False
        return None

    def expired(self, msg):
        return msg.deadline is not None and self.now >= msg.deadline

    def accept_limit(self, sess, msg):
        """May this QoS>0 message be accepted for the session?"""
        if sess.conn is None:
            for p in [p for p in sess.pend if p.state in ("new", "sent") and self.expired(p.msg)]:
                sess.pend.remove(p); p.gone = True; sess.quota = min(sess.quota + 1, sess.limit)
        if sess.quota <= 0:
            return False
        q = [p for p in sess.pend if p.state in ("new", "sent")]
        if not sess.destroy and q and sum(p.size for p in q) >= self.c["max_bytes"]:
            return False
        return True

    def deliver(self, sess, sub, msg, retain, group=None, optional=False, shared=False):
        qos = min(msg.qos, sub.qos)
        conn = sess.conn
        if not self.acl_read(sess.cid, sess.user, msg.topic):
            self.stat("acl_withheld")
            return
        sid = sub.sid if self.c["sid_enabled"] else 0
        if conn is None:
            if qos == 0 or sess.destroy: return
            if not self.accept_limit(sess, msg):
                self.stat("dropped_limit"); return
            p = Pend(msg, qos, retain, sid, len(mqtt.b2(msg.topic)) + len(msg.payload))
            sess.pend.append(p)
            sess.quota -= 1
            self.stat("queued_offline")
            return
        if qos and not group and not self.accept_limit(sess, msg):
            self.stat("dropped_limit"); return
        big = self.too_big(conn, msg, qos, sid)
        if big:
            self.stat("too_big"); return
        if qos == 0 and sess is self.just_connecting: optional = True
        pend = None
        if qos:
            pend = Pend(msg, qos, retain, sid, len(mqtt.b2(msg.topic)) + len(msg.payload))
            if not group:
                sess.pend.append(pend)
                sess.quota -= 1
        on_match = None
        if group and qos:
            def on_match(_s=sess, _p=pend):
                _s.pend.append(_p)
                _s.quota -= 1
        conn.expected.append(self.exp_publish(sess, msg, qos, retain, sid, pend, optional=optional or big is None, group=group,
                                              stream=(sub.filt, msg.topic, qos, msg.sender), on_match=on_match))
        self.stat("delivered")
        if "+" in sub.filt or "#" in sub.filt: self.stat("wild_delivered")
        if not retain and msg.topic[:1] == "$": self.stat("dollar")

    def route(self, msg, sender_cid):
        if msg.topic[:1] == "$":
            return
        shares = {}
        for s in list(self.sessions.values()):
            copies = {True: set(), False: set()}
            for (share, filt), sub in list(s.subs.items()):
                if not match(filt, msg.topic):
                    continue
                if share is not None:
                    shares.setdefault((share, filt), []).append((s, sub))
                    continue
                if sub.nl and s.cid == sender_cid:
                    continue
                bridge = s.conn is not None and s.conn.bridge
                n = self.stats.get("dropped_limit", 0)
                self.deliver(s, sub, msg, msg.retain and (sub.rap or bridge))
                if min(msg.qos, sub.qos): copies[self.stats.get("dropped_limit", 0) == n].add((min(msg.qos, sub.qos), sub.sid, bool(msg.retain and sub.rap)))
            if copies[True] and copies[False] and copies[True] != copies[False]:
                raise Inconclusive("only some copies of one message for overlapping subscriptions fit, which of them is not specified")
        for key, members in shares.items():
            self.stat("shared")
            on = [(s, b) for s, b in members if s.conn is not None]
            if on and len(on) < len(members):
                # any member may get it; whoever is off-line gets it later, unless QoS 0 allows it to get lost
                self.groups += 1
                self.stat("shared_mixed")
                for s, b in on:
                    self.deliver(s, b, msg, msg.retain and b.rap, group=("g", self.groups, False))
                cands = {s.cid: (s, b) for s, b in members if s.conn is None and min(msg.qos, b.qos) > 0 and not s.destroy}
                lossless = len(cands) == len(members) - len(on) and all(
                    self.acl_read(s.cid, s.user, msg.topic) and (min(msg.qos, b.qos) == 0 or self.accept_limit(s, msg))
                    and not (s.conn and self.too_big(s.conn, msg, min(msg.qos, b.qos), b.sid)) for s, b in members)
                if cands: self.floats.append(dict(msg=msg, cands=cands, lossless=lossless, gid=self.groups))
            elif on:
                # members that may not read it / cannot take it make the outcome implementation defined
                self.groups += 1
                if len(on) == 1:
                    s, b = on[0]
                    self.deliver(s, b, msg, msg.retain and b.rap)
                else:
                    ok = all(self.acl_read(s.cid, s.user, msg.topic) and (min(msg.qos, b.qos) == 0 or self.accept_limit(s, msg))
                             and not self.too_big(s.conn, msg, min(msg.qos, b.qos), b.sid) for s, b in on)
                    for s, b in on:
                        self.deliver(s, b, msg, msg.retain and b.rap, group=("g", self.groups, ok))
            else:
                cands = {s.cid: (s, b) for s, b in members if min(msg.qos, b.qos) > 0 and not s.destroy}
                lossless = len(cands) == len(members) and all(self.acl_read(s.cid, s.user, msg.topic) and self.accept_limit(s, msg) for s, b in members)
                if len(members) == 1:
                    s, b = members[0]
                    self.deliver(s, b, msg, msg.retain and b.rap)
                elif cands:
                    self.floats.append(dict(msg=msg, cands=cands, lossless=lossless))
                    self.stat("floating")

    # ------------------------------------------------------------------ publishing
    def publish(self, msg, sender_cid, user=""):
        """An accepted publish takes effect."""
        if not self.acl_write(sender_cid, user, msg.topic):
            self.stat("acl_refused")
            return False
        if msg.retain and self.c["retain"]:
            self.set_retained(msg)
        self.route(msg, sender_cid)
        return True

    def set_retained(self, msg):
        if msg.topic[:1] == "$":
            return
        if len(msg.payload) == 0:
            if self.retained.pop(msg.topic, None): self.stat("retained_cleared")
        else:
            m = msg.copy()
            cap = self.c["retained_cap"]
            if m.expiry is None or m.expiry > cap:
                m.capped = m.expiry is None
                m.expiry = cap
                m.deadline = m.at + cap * 1000
            self.retained[msg.topic] = m
        self.stat("retained_set")

    # ------------------------------------------------------------------ connections
    def end_session(self, s):
        if self.sessions.get(s.cid) is s:
            del self.sessions[s.cid]
        self._forget_floats(s)
        for p in s.pend: p.gone = True
        self.stat("session_ended")
        w, s.will = s.will, None
        if w:
            self.fire_will(s, w[1], 14)

    def fire_will(self, s, msg, fuzz=0):
        if not self.c["wills"]:
            return
        m = msg.copy()
        m.at = self.now
        m.fuzz = fuzz
        m.loose = bool(fuzz or self.in_shutdown)
        if m.expiry is not None: m.deadline = self.now + m.expiry * 1000
        self.stat("will")
        self.publish(m, s.cid, s.user)

    def conn_closed(self, conn, normal, fuzz=0):
        """The network connection of conn is over."""
        s = conn.session
        self.conns.pop(conn.slot, None)
        if s is None:
            return
        conn.session = None
        will = None if normal else conn.will
        s.conn = None
        s.offline_since = self.now
        if will:
            msg, delay = will
            if delay == 0 or s.destroy or s.expiry == 0:
                self.fire_will(s, msg, fuzz)
            else:
                s.will = (self.now + min(delay, 10**9) * 1000, msg)
                self.stat("will_delayed")
        elif conn.will:
            self.stat("will_discarded")
        if s.destroy or s.expiry == 0:
            self.end_session(s)

    def session_alive(self, cid):
        return self.sessions.get(cid)

    def connect(self, conn, clean, expiry, user=""):
        """Accepted CONNECT. Returns session present."""
        c = self.c
        old = self.sessions.get(conn.cid)
        exp = min(expiry, c["session_cap"]) if conn.ver >= 5 else c["session_cap"]
        fresh = old is None or clean or old.destroy
        oldconn = old.conn if old is not None else None
        wills = []
        if oldconn is not None:
            self.stat("takeover")
            if oldconn.ver >= 5:
                oldconn.expected.append(Exp(mqtt.DISCONNECT, dict(rc={0x8E})))
            oldconn.closing = "must"
            oldconn.session = None
            self.conns.pop(oldconn.slot, None)
            old.conn = None
            if oldconn.will and (fresh or oldconn.will[1] == 0):
                wills.append((old, oldconn.will[0]))
            elif oldconn.will:
                self.stat("will_cancelled")
        if old is not None and fresh:
            self.sessions.pop(conn.cid, None)
            if old.will:
                wills.append((old, old.will[1])); old.will = None
            self._forget_floats(old)
            for p in old.pend: p.gone = True
            self.stat("replaced")
        if fresh:
            sess = Session(conn.cid, user, self.now)
            self.sessions[conn.cid] = sess
            self.stat("new_session")
        else:
            sess = old
            if sess.will: self.stat("will_cancelled")
            self.stat("resumed")
        sess.conn = conn
        conn.session = sess
        sess.will = None
        sess.offline_since = None
        sess.expiry = exp
        sess.destroy = clean if conn.ver < 5 else exp == 0
        sess.limit = min(conn.recv_max, c["max_pending"])
        sess.quota = sess.limit
        self.conns[conn.slot] = conn
        conn.connected_at = self.now
        sess.off_fuzz = 0
        conn.expected.append(Exp(mqtt.CONNACK, dict(rc={0}, present=(not fresh) and conn.ver >= 4)))
        if not fresh:
            keep = []
            for p in sess.pend:
                if p.state == "rel":
                    keep.append(p); continue
                if self.expired(p.msg):
                    p.gone = True; self.stat("expired_in_queue"); continue
                if sess.quota <= 0:
                    p.gone = True; self.stat("dropped_limit"); continue
                big = self.too_big(conn, p.msg, p.qos, p.sid)
                if big:
                    p.gone = True; self.stat("too_big"); continue
                sess.quota -= 1
                # permissions withdrawn while a message waited may or may not withdraw the message
                unsure = big is None or not self.acl_read(sess.cid, sess.user, p.msg.topic) or not self.acl_write(p.msg.sender or "", p.msg.user, p.msg.topic)
                conn.expected.append(self.exp_publish(sess, p.msg, p.qos, p.retain, p.sid, p, optional=unsure,
                                                      first=p.state == "new", stream=("resend", p.msg.sender if p.msg.loose else 0)))
                keep.append(p)
                self.stat("resent" if p.state == "sent" else "from_queue")
            sess.pend = keep
            for p in keep:
                if p.state == "rel":
                    conn.expected.append(Exp(mqtt.PUBREL, dict(pid=p.pid)))
                    self.stat("rel_resent")
            for fl in self.floats:
                if conn.cid in fl["cands"] and not self.expired(fl["msg"]):
                    s, b = fl["cands"][conn.cid]
                    qos = min(fl["msg"].qos, b.qos)
                    p = Pend(fl["msg"], qos, fl["msg"].retain and b.rap, b.sid, len(fl["msg"].payload) + len(mqtt.b2(fl["msg"].topic)))

                    def on_match(_fl=fl, _s=sess, _p=p):
                        _s.pend.append(_p); _s.quota -= 1
                        _fl["cands"] = {}
                    conn.expected.append(self.exp_publish(sess, fl["msg"], qos, p.retain, b.sid, p, optional=True, on_match=on_match))
        self.just_connecting = sess         # not known whether the CONNACK comes before or after the will
        for s, m in wills:
            self.fire_will(s, m)
        self.just_connecting = None
        return not fresh

    def _forget_floats(self, s):
        for fl in self.floats:
            if s.cid in fl["cands"] and fl["cands"][s.cid][0] is s:
                del fl["cands"][s.cid]; fl["lossless"] = False
        self.floats = [f for f in self.floats if f["cands"]]

    def after_settle(self):
        """Called when all traffic of an op has been seen: resolve floats that a reconnected candidate did not get."""
        for fl in self.floats:
            if not fl["cands"]:
                continue
            for cid in list(fl["cands"]):
                s, b = fl["cands"][cid]
                if s.conn is not None:
                    del fl["cands"][cid]
            if not fl["cands"]:
                if fl["lossless"] and not self.expired(fl["msg"]):
                    return "shared-subscription message lost: topic %r payload %r" % (fl["msg"].topic, fl["msg"].payload[:60])
        self.floats = [f for f in self.floats if f["cands"]]
        return None

    # ------------------------------------------------------------------ subscriptions
    def subscribe(self, conn, filt, qos, nl, rap, rh, sid):
        s = conn.session
        share, f = parse_share(filt)
        q = min(qos, self.c["max_qos"])
        new = (share, f) not in s.subs
        sub = Sub(f, q, nl, rap, sid)
        s.subs[(share, f)] = sub
        if share is not None or not self.c["retain"]:
            return
        if rh == 2 or (rh == 1 and not new):
            self.stat("rh_suppressed")
            return
        for t, m in list(self.retained.items()):
            if match(f, t):
                if self.expired(m): self.stat("expired_retained")
                else: self.deliver_retained(s, sub, m)

    def deliver_retained(self, s, sub, m):
        self.stat("retained_delivered")
        unsure = not self.acl_write(m.sender or "", m.user, m.topic)      # permission withdrawn after it was published
        qos = min(m.qos, sub.qos)
        if qos and s.conn is not None and not self.accept_limit(s, m) and self.acl_read(s.cid, s.user, m.topic):
            # retained messages wait for acknowledgements instead of being dropped
            sid = sub.sid if self.c["sid_enabled"] else 0
            big = self.too_big(s.conn, m, qos, sid)
            if big: return
            self.stat("retained_deferred")
            p = Pend(m, qos, True, sid, len(mqtt.b2(m.topic)) + len(m.payload))

            def on_match(_s=s, _p=p):
                _s.pend.append(_p); _s.quota -= 1
            s.conn.expected.append(self.exp_publish(s, m, qos, True, sid, p, optional=big is None or unsure, on_match=on_match))
            return
        self.deliver(s, sub, m, True, optional=unsure)

    # ------------------------------------------------------------------ acknowledgements by a client
    def client_ack(self, s, p, step):
        """step: 'puback', 'pubrec', 'pubcomp', 'pubrec_err' """
        if step in ("puback", "pubrec_err"):
            if p in s.pend:
                s.pend.remove(p); p.gone = True
                s.quota = min(s.quota + 1, s.limit)
        elif step == "pubrec":
            p.state = "rel"
        elif step == "pubcomp":
            if p in s.pend:
                s.pend.remove(p); p.gone = True
                s.quota = min(s.quota + 1, s.limit)

    # ------------------------------------------------------------------ time
    def windows(self):
        """[lo, hi] virtual-time intervals in which the outcome is not determined by the guarantees (resolution, grace)."""
        w = []
        e = 2000 + 1000 * self.restarts
        for s in self.sessions.values():
            if s.conn is None and s.offline_since is not None:
                d = s.offline_since + s.expiry * 1000
                w.append((d - 1500, d + self.c["session_grace"] + s.off_fuzz))
                if s.will:
                    w.append((s.will[0] - 1500, s.will[0] + self.c["will_grace"] + s.off_fuzz))
            for p in s.pend:
                if p.msg.deadline is not None and not p.msg.capped: w.append((p.msg.deadline - 2000, p.msg.deadline + e + p.msg.fuzz * 1000))
        for f in self.floats:
            if f["msg"].deadline is not None: w.append((f["msg"].deadline - 2000, f["msg"].deadline + e + f["msg"].fuzz * 1000))
        for m in self.retained.values():
            if m.deadline is not None: w.append((m.deadline - 2000, m.deadline + e + m.fuzz * 1000))
        for c in self.conns.values():
            if c.keepalive:
                w.append((c.last_activity + c.keepalive * 1000 - 500, self.ka_due(c) + 13000))
                if c.session:
                    d = self.ka_due(c) + c.session.expiry * 1000
                    w.append((d - 1500, d + self.c["session_grace"] + 13000))
                    if c.will and c.will[1]:
                        d = self.ka_due(c) + min(c.will[1], 10**9) * 1000
                        w.append((d - 1500, d + self.c["will_grace"] + 13000))
        return w

    def bump(self, target):
        for _ in range(200):
            for lo, hi in self.windows():
                if lo <= target <= hi:
                    target = hi + 1
                    break
            else:
                return target
        return target

    def ka_due(self, c):
        # the first check of a connection is 30 s after it was made
        return max(c.last_activity + int(c.keepalive * 1500), c.connected_at + 30000)

    def next_events(self, upto):
        """Due things in order up to and including virtual time upto: list of (time, kind, obj)."""
        ev = []
        for s in self.sessions.values():
            if s.conn is None and s.offline_since is not None:
                d = s.offline_since + s.expiry * 1000
                if s.will and s.will[0] < d and s.will[0] <= upto: ev.append((s.will[0], "will", s))
                if d <= upto: ev.append((d, "session", s))
        for c in self.conns.values():
            if c.keepalive and self.ka_due(c) <= upto:
                ev.append((self.ka_due(c), "ka", c))
        ev.sort(key=lambda e: e[0])
        return ev
