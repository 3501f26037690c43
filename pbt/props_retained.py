"""T02: retained modes and limits; T03: expiry of retained messages and the background purge."""
import mqtt
from mqtt import *
from model import Model, MConn, Exp, match, parse_share
from props_world import Check, HIST, W, STORE, run_world, profiles
from gen import Gen
from server import Conn
from world import World, Violation, payload, norm_props

MODES = ["enabled", "enabled_without_persistence", "enabled_without_retaining", "downgrade", "drop", "disconnect_with_error"]


class RetModel(Model):
    """cfg: ret_mode, ret_payload, node_limit, node_depth, node_mode, wild_depth, wild_mode"""
    def __init__(self, cfg=None):
        super().__init__(cfg)
        self.mode = self.c.get("ret_mode", "enabled")
        self.c["retain"] = self.mode in MODES[:2]
        self.c["persist_retained"] = self.mode == "enabled"
        self.nodes = set()          # topic prefixes (tuples) for which the broker may have a node

    def publish(self, msg, sender_cid, user=""):
        if msg.retain:
            self.stat("retained_pub")
            if self.mode == "drop":
                self.stat("ret_dropped")
                return True
            if self.mode == "downgrade":
                msg = msg.copy()
                msg.retain = False
        return super().publish(msg, sender_cid, user)

    def set_retained(self, msg):
        if msg.topic[:1] == "$": return
        ls = tuple(msg.topic.split("/"))
        lim, depth = self.c.get("node_limit"), self.c.get("node_depth", 65535)
        for i in range(len(ls)):
            child = ls[:i + 1]
            if child in self.nodes: continue
            if lim is not None and i >= depth:
                top = ls[:depth]
                if sum(1 for n in self.nodes if len(n) > depth and n[:depth] == top) >= lim:
                    self.stat("node_limit")
                    if self.c.get("node_mode") != "log": return
            self.nodes.add(child)
        if len(msg.payload) > self.c.get("ret_payload", 1 << 40):
            self.stat("ret_payload_limit")
            return
        super().set_retained(msg)

    def subscribe(self, conn, filt, qos, nl, rap, rh, sid):
        _, f = parse_share(filt)
        if broad(f, self.c.get("wild_depth", 0)):
            self.stat("broad")
            if self.c.get("wild_mode") != "deny_retained_only": return
            rh = 2
        super().subscribe(conn, filt, qos, nl, rap, rh, sid)


def broad(f, depth):
    for i, x in enumerate(f.split("/")):
        if x in ("+", "#"): return i < depth
    return False


class RetWorld(World):
    MODEL = RetModel

    def suback_codes(self, m, filt, qos):
        _, f = parse_share(filt)
        c = self.model.c
        if broad(f, c.get("wild_depth", 0)) and c.get("wild_mode") != "deny_retained_only":
            return {0x87, 0x80} if m.ver >= 5 else ({0x80} if m.ver == 4 else {0x80, 0, 1, 2})
        return super().suback_codes(m, filt, qos)

    def op_pub(self, op):
        h = self.live(op)
        if not h or not (op.get("r") and self.model.mode == "disconnect_with_error"): return super().op_pub(op)
        m = h.m
        pid = self.pid_for(h, m.cid) if op["q"] else 0
        if m.ver >= 5: m.expected.append(Exp(DISCONNECT, dict(rc={0x9A})))
        h.c.send(mqtt.publish(m.ver, op["t"], payload(op["p"]), op["q"], True, pid, False, (norm_props(op.get("props")) or {}) if m.ver >= 5 else None))
        m.closing = "must"
        self.model.stat("ret_refused")
        self.model.conn_closed(m, False)
        self.settle()

    def op_burst(self, op):
        if self.model.mode == "disconnect_with_error":
            op = dict(op, msgs=[{k: v for k, v in d.items() if k != "r"} for d in op["msgs"]])
        super().op_burst(op)

    def op_conn(self, op, settle=True):
        w = op.get("will")
        if not (w and w.get("r") and self.model.mode == "disconnect_with_error"): return super().op_conn(op, settle)
        if op["k"] in self.h: return
        c = Conn(self.srv.sock)
        ver = op.get("ver", 4)
        c.send(mqtt.connect(op["cid"], ver, op.get("clean", True), 0, op.get("user"), op.get("pw"), dict(topic=w["t"], payload=payload(w.get("p", "")), qos=w.get("q", 0), retain=True, props=[]),
                            [("session_expiry", op["exp"])] if ver >= 5 and op.get("exp") else []))
        for _ in range(40):
            self.srv.quiesce()
            c.pump()
            if c.eof: break
            self.srv.step_clock(10)
        self.model.now = max(self.model.now, self.srv.now)
        if not c.eof: self.bad("retain", "CONNECT with a retained will is not refused")
        try: pk = [mqtt.decode(a, b, ver) for a, b in mqtt.split(c.buf)]
        except mqtt.Malformed as e: self.bad("wire", "answer to a refused CONNECT: %s" % e)
        if any(p.t != CONNACK or p.rc == 0 for p in pk) or len(pk) > 1 or (ver >= 5 and [p.rc for p in pk] not in ([], [0x9A])):
            self.bad("retain", "answer to a CONNECT with a retained will: %r" % pk)
        c.close()
        self.model.stat("ret_refused")
        self.settle()


def run(exes, case, stats):
    run_world(exes, case, stats, cls=RetWorld)


BASE = dict(retain=.7, clear=.25, n_topics=(3, 8), depth=(1, 4), wild=.6, levels=["a", "b", "c", ""], props=.2, rh=[0, 0, 0, 1, 2], dollar=.02)


def mode_cfg(rng):
    m = rng.choice(MODES)
    return "retained_messages_mode %s\n" % m + STORE, dict(ret_mode=m)


def node_cfg(rng):
    lim, depth, mode = rng.choice([1, 2, 3, 4, 6, 10]), rng.choice([0, 0, 0, 1, 1, 2, 3]), rng.choice(["reject", "reject", "reject", "log"])
    return ("retained_messages_node_creation_limit %d\nretained_messages_node_creation_limit_enforcement_depth %d\nretained_messages_node_creation_limit_enforcement_mode %s\n" %
            (lim, depth, mode), dict(node_limit=lim, node_depth=depth, node_mode=mode))


def pay_cfg(rng):
    n = rng.choice([1, 8, 16, 100, 1000])
    a, b = (node_cfg(rng) if rng.random() < .2 else ("", {}))
    return a + "retained_message_max_payload_size %d\n" % n, dict(b, ret_payload=n)


def wild_cfg(rng):
    d, mode = rng.choice([1, 1, 2, 3]), rng.choice(["deny_all", "deny_retained_only"])
    return "minimum_wildcard_subscription_depth %d\nwildcard_subscription_deny_mode %s\n" % (d, mode), dict(wild_depth=d, wild_mode=mode)


Check("T02", profiles(
    (3, dict(BASE, cfg=mode_cfg, wills=.3, clean=.3, exps=[0, 100, 3600], w=W(sub=8, pub=14, burst=2, drop=3, disc=2, conn=7, restart=.4), will_delays=[0])),
    (2, dict(BASE, cfg=node_cfg, wills=.1, retain=.85, w=W(sub=7, pub=16, burst=4, conn=4))),
    (1, dict(BASE, cfg=pay_cfg, sizes=[(0, 20), (5, 18), (98, 102), (998, 1002)], w=W(sub=8, pub=16, burst=2, conn=4), wills=.1)),
    (1, dict(BASE, cfg=wild_cfg, wild=.9, multi_sub=.4, shared=.15, nl=.05, w=W(sub=10, pub=12, burst=2, conn=4))),
), run, 900, 18000, HIST + "a retained publish or a subscription met the configured mode or limit (refused, dropped, downgraded, over a limit, too broad), and a delivery was made",
    lambda c, s: (s.get("retained_pub", 0) >= 2 and (c.get("model_cfg") or {}).get("ret_mode", "enabled") != "enabled" or s.get("node_limit", 0) + s.get("ret_payload_limit", 0) + s.get("broad", 0) >= 1)
    and s.get("deliveries", 0) >= 1,
    technique="stateful model-based testing against a reference broker, ddmin shrinking",
    note="retained_messages_node_limit (how much of the tree is traversed) is a soft limit in FlashMQ and not checked.")


def life_cfg(rng):
    n = rng.choice([30, 100, 1000, 5000, 100000])
    life = rng.choice([0, 0, 10, 3600])
    return "expire_retained_messages_after_seconds %d\nretained_message_node_lifetime %d\n" % (n, life), dict(retained_cap=n)


def life_store(rng):
    a, b = life_cfg(rng)
    return a + STORE, b


LIFE = dict(BASE, retain=.9, clear=.2, msg_exp=[None, None, 5, 20, 60, 3000, 7000], vers=[5, 5, 5, 4], advs=[1000, 8000, 30000, 70000, 1000000, 3990000, 4100000], exps=[0, 3600], tick=.4)
def with_look(gen):
    """Adds phases 'time passes, somebody subscribes to everything' to the history."""
    def g(rng, i):
        case = gen(rng, i)
        ops = case["ops"]
        for at in sorted((rng.randint(len(ops) // 3, len(ops)) for _ in range(rng.randint(1, 2))), reverse=True):
            look = [dict(o="adv", ms=rng.choice(LIFE["advs"] + [3990000, 12000000]))]
            if rng.random() < .4: look[0]["tick"] = rng.choice([100000, 1000000, 4000000])
            look.append(dict(o="conn", k="q%d" % at, cid="look%d" % at, ver=rng.choice([4, 5, 5]), clean=True))
            look.append(dict(o="sub", k="q%d" % at, subs=[["#", rng.choice([0, 1, 2]), 0, 0, 0]]))
            if rng.random() < .3: look[-1]["tick"] = rng.choice([100000, 1000000, 4000000])
            ops[at:at] = look
        return case
    return g


Check("T03", with_look(profiles(
    (3, dict(LIFE, cfg=life_cfg, n_topics=(5, 14), depth=(1, 6), w=W(sub=8, pub=12, burst=5, conn=4, adv=4), burst=(3, 10))),
    (1, dict(LIFE, cfg=life_store, w=W(sub=7, pub=12, burst=3, conn=5, adv=4, restart=1.2), downs=[0, 5000, 30000, 200000], exps=[60000], clean=.2)),
    (1, dict(LIFE, n_topics=(8, 20), depth=(1, 8), levels=["a", "b", "c"], wills=.2, w=W(sub=8, pub=8, burst=8, conn=4, adv=3), burst=(5, 20), advs=[3990000, 3990000, 1000, 8000])),
)), run, 550, 10000, HIST + "a retained message expired, or the purge of the tree ran, and retained messages were delivered", lambda c, s: (s.get("expired_retained", 0) >= 1 or
    any(o["o"] == "adv" and o["ms"] > 3900000 for o in c["ops"])) and s.get("retained_delivered", 0) >= 2,
    technique="stateful model-based testing against a reference broker under a virtual clock (which runs fast at times, so that time budgets of background work run out), ddmin shrinking")
