"""Structured generator of operation histories for World. Every random choice comes from the rng given; a case is plain JSON."""

LV = ["a", "b", "c", "d", "aa", "ab", "", " ", "é", "x" * 15, "x" * 16, "x" * 17, "a-b", "0", "topic", "€uro", "y" * 31, "z" * 33]


class Gen:
    def __init__(self, rng, **p):
        self.r = rng
        self.p = dict(
            n_ops=(10, 30), n_cids=(2, 4), n_topics=(2, 8), depth=(1, 4), vers=[3, 4, 4, 5, 5, 5],
            w=dict(conn=6, disc=2, drop=2, sub=6, unsub=1.5, pub=14, burst=2, redup=0, rel=0, ack=0, ping=0.5, adv=0, restart=0),
            qos=[0, 1, 1, 2], sub_qos=[0, 1, 2, 2], retain=0.15, clear=0.25, shared=0.0, nl=0.15, rap=0.3, rh=[0, 0, 0, 1, 2], sids=0.4, props=0.4,
            clean=0.5, exps=[0, 100, 100, 3600], rms=[None], mps=[None], ams=[None, None, 3], manual=0.0, wills=0.0, will_delays=[0], hold=0.0,
            al=0.0, al_ids=[1, 2, 3, 4], msg_exp=[None], sizes=[(0, 20)], advs=[1000], same_cid=0.0, wild=0.6, multi_sub=0.2, levels=None, dollar=0.05, downs=[0],
            burst=(2, 8), disc_exp=0.0, disc_will=0.0, kas=[0], overlap=0.5, users=[None], slots=5, first_sub=True, del_props=None, long_levels=0.2,
            ack_err=0.1, tick=0.0, adv_unit=1)
        self.p.update(p)
        if "w_add" in p:
            self.p["w"] = dict(self.p["w"], **p["w_add"])
        r = self.r
        self.cids = ["c%d" % i for i in range(r.randint(*self.p["n_cids"]))]
        lv = self.p["levels"]
        if lv is None:
            lv = r.sample(LV[:6], r.randint(2, 4))
            if r.random() < 0.5: lv += r.sample(LV, 2)
            if r.random() < self.p["long_levels"]: lv += ["".join(r.choice("abc") for _ in range(r.randint(1, 70)))]
        self.lv = lv
        self.topics = []
        n = r.randint(*self.p["n_topics"])
        for _ in range(n):
            self.topics.append(self.topic())
        # related topics: prefixes and extensions of others, for tree structure
        for _ in range(n // 2):
            t = r.choice(self.topics)
            if r.random() < 0.5 and "/" in t: t = t.rsplit("/", 1)[0]
            else: t = t + "/" + r.choice(lv)
            if t and t.count("/") < 12 and len(t) < 900: self.topics.append(t)
        self.filters = []
        for t in self.topics:
            for _ in range(2):
                self.filters.append(self.filter(t))
        self.filters = [f for f in self.filters if f]
        if self.p.get("will_own"):
            for c in self.cids:
                for t in self.topics: self.filters.append(self.filter(t + "/" + c) or "#")
        self.user_of = {c: r.choice(self.p["users"]) for c in self.cids}
        # symbolic state, only for making interesting choices
        self.on = {}        # slot -> cid
        self.ver = {}
        self.subbed = {c: [] for c in self.cids}
        self.n = 0
        self.payloads = 0

    def topic(self):
        r = self.r
        for _ in range(20):
            t = "/".join(r.choice(self.lv) for _ in range(r.randint(*self.p["depth"])))
            if t and not t.startswith("$"): return t
        return "a"

    def filter(self, t):
        r = self.r
        if r.random() > self.p["wild"]: return t
        ls = t.split("/")
        out = []
        for i, x in enumerate(ls):
            z = r.random()
            if z < 0.3: out.append("+")
            elif z < 0.4 and i:
                out.append("#")
                break
            else: out.append(x)
        else:
            z = r.random()
            if z < 0.2: out.append("#")
            elif z < 0.28: out.append("+")
        f = "/".join(out)
        if r.random() < 0.06: f = "#"
        return f

    def pick_filter(self):
        r = self.r
        f = r.choice(self.filters)
        if r.random() < self.p["shared"]:
            f = "$share/" + r.choice(["g", "g", "h"]) + "/" + f
        return f

    def payload(self):
        r = self.r
        lo, hi = r.choice(self.p["sizes"])
        n = r.randint(lo, hi)
        self.payloads += 1
        if n > 64 or r.random() < 0.1:
            return ["r", n, self.payloads]
        return ("m%d" % self.payloads) + "." * max(0, n - 6)

    def props(self):
        r = self.r
        p = {}
        e = r.choice(self.p["msg_exp"])
        if e is not None: p["expiry"] = e
        if r.random() < self.p["props"]:
            k = r.randint(1, 5)
            if k & 1: p["ct"] = r.choice(["t", "text/plain", "", "é" * r.randint(1, 20)])
            if r.random() < 0.4: p["rt"] = r.choice(["r", "resp/topic", "x" * r.randint(1, 300)])
            if r.random() < 0.4: p["cd"] = r.choice(["", "cd", ["r", r.randint(0, 40), k]])
            if r.random() < 0.5: p["user"] = [[r.choice(["k", "", "key" * 5]), r.choice(["v", "", "v" * r.randint(1, 200)])] for _ in range(r.randint(1, 4))]
            if r.random() < 0.3: p["pfi"] = r.choice([0, 1])
        return p

    def msg(self, ver):
        r = self.r
        d = dict(t=r.choice(self.topics), q=r.choice(self.p["qos"]), p=self.payload())
        if r.random() < self.p["retain"]:
            d["r"] = 1
            if r.random() < self.p["clear"]: d["p"] = ""
        if ver >= 5:
            p = self.props()
            if p.get("pfi") and not isinstance(d["p"], str): p["pfi"] = 0   # 1 promises UTF-8 text, which the broker verifies
            if p: d["props"] = p
            if r.random() < self.p["al"]:
                d["al"] = r.choice(self.p["al_ids"])
                if r.random() < 0.6: d["al_only"] = 1
        if d["q"] == 2 and r.random() < self.p["hold"]: d["hold"] = 1
        if d["q"] and r.random() < .06: d["dup"] = 1       # the copy of the first attempt went missing
        if r.random() < self.p["dollar"] * 0.3: d["t"] = "$" + d["t"]
        return d

    def will(self, ver, cid):
        r = self.r
        w = dict(t=r.choice(self.topics) + ("/" + cid if self.p.get("will_own") else ""), q=r.choice(self.p["qos"]), p="will%d" % self.n)
        if r.random() < self.p["retain"]: w["r"] = 1
        if ver >= 5:
            d = r.choice(self.p["will_delays"])
            if d: w["delay"] = d
            if r.random() < 0.5:
                p = self.props()
                if p: w["props"] = p
        return w

    def op_conn(self, cid=None):
        r = self.r
        free = [s for s in "uvwxyz"[:self.p["slots"]] if s not in self.on]
        live = set(self.on.values())
        if cid is None:
            off = [c for c in self.cids if c not in live]
            if off and r.random() >= self.p["same_cid"]: cid = r.choice(off)
            elif self.p["same_cid"]: cid = r.choice(self.cids)
            else: return None
        if not free:
            return None
        k = free[0]
        ver = r.choice(self.p["vers"])
        op = dict(o="conn", k=k, cid=cid, ver=ver, clean=r.random() < self.p["clean"])
        if ver >= 5:
            e = r.choice(self.p["exps"])
            if e: op["exp"] = e
            rm, mp, am = r.choice(self.p["rms"]), r.choice(self.p["mps"]), r.choice(self.p["ams"])
            if rm: op["rm"] = rm
            if mp: op["mp"] = mp
            if am: op["am"] = am
        ka = r.choice(self.p["kas"])
        if self.p.get("one_ka") and cid != self.cids[0]: ka = 0
        if ka: op["ka"] = ka
        if r.random() < self.p["manual"]: op["auto"] = False
        if r.random() < self.p["wills"]: op["will"] = self.will(ver, cid)
        u = self.user_of[cid]
        if u: op["user"] = u
        for s in [s for s, c in self.on.items() if c == cid]: del self.on[s]
        self.on[k] = cid
        self.ver[k] = ver
        return op

    def pick(self):
        return self.r.choice(sorted(self.on)) if self.on else None

    def op_disc(self):
        k = self.pick()
        if not k: return None
        op = dict(o="disc", k=k)
        if self.ver[k] >= 5:
            if self.r.random() < self.p["disc_exp"]: op["exp"] = self.r.choice(self.p["exps"] + [0, 200, 10**6, 2**32 - 1])
            if self.r.random() < self.p["disc_will"]: op["rc"] = self.r.choice([4, 4, 4, 0x80, 0x81, 0x82, 0x83, 0x90, 0x93, 0x95, 0x97, 0x98, 0x99])
        del self.on[k]
        return op

    def op_drop(self):
        k = self.pick()
        if not k: return None
        del self.on[k]
        return dict(o="drop", k=k)

    def op_sub(self):
        r = self.r
        k = self.pick()
        if not k: return None
        subs = []
        for _ in range(1 if r.random() > self.p["multi_sub"] else r.randint(2, 4)):
            cid = self.on[k]
            if self.subbed[cid] and r.random() < 0.3: f = r.choice(self.subbed[cid])
            else: f = self.pick_filter()
            self.subbed[cid].append(f)
            subs.append([f, r.choice(self.p["sub_qos"]), int(r.random() < self.p["nl"]), int(r.random() < self.p["rap"]), r.choice(self.p["rh"])])
        op = dict(o="sub", k=k, subs=subs)
        if self.ver[k] >= 5 and r.random() < self.p["sids"]: op["sid"] = r.choice([1, 2, 3, 127, 128, 16384, 268435455])
        if r.random() < self.p["tick"]: op["tick"] = r.choice([100000, 1000000, 4000000])
        return op

    def op_unsub(self):
        r = self.r
        k = self.pick()
        if not k: return None
        cid = self.on[k]
        fs = []
        for _ in range(r.choice([1, 1, 2])):
            if self.subbed[cid] and r.random() < 0.8:
                f = r.choice(self.subbed[cid])
            else: f = self.pick_filter()
            fs.append(f)
        return dict(o="unsub", k=k, fs=fs)

    def op_pub(self):
        k = self.pick()
        if not k: return None
        return dict(self.msg(self.ver[k]), o="pub", k=k)

    def op_burst(self):
        k = self.pick()
        if not k: return None
        return dict(o="burst", k=k, msgs=[self.msg(self.ver[k]) for _ in range(self.r.randint(*self.p["burst"]))])

    def op_toobig(self):
        r = self.r
        k = self.pick()
        if not k: return None
        d = r.choice([-2, -1, 0, 0, 1, 1, 2, 3, 100, 5000])
        op = dict(o="toobig", k=k, d=d, t=r.choice(self.topics), q=r.choice(self.p["qos"]), n=self.n)
        if d > 0: del self.on[k]
        return op

    def op_badalias(self):
        r = self.r
        k = self.pick()
        if not k or self.ver[k] < 5: return None
        op = dict(o="badalias", k=k, kind=r.choice(["zero", "big", "big", "unbound", "unbound", "none"]), t=r.choice(self.topics), q=r.choice(self.p["qos"]), p="bad%d" % self.n)
        if r.random() < .6: op["topic"] = 1
        if r.random() < self.p["retain"]: op["r"] = 1
        if op["kind"] == "big": op["d"] = r.choice([1, 1, 1, 2, 100])
        if op["kind"] == "unbound": op["a"] = r.choice(self.p["al_ids"])
        del self.on[k]
        return op

    def op_redup(self):
        k = self.pick()
        return dict(o="redup", k=k, n=self.r.randint(0, 5)) if k else None

    def op_rel(self):
        k = self.pick()
        return dict(o="rel", k=k, n=self.r.randint(0, 5)) if k else None

    def op_ack(self):
        k = self.pick()
        if not k: return None
        op = dict(o="ack", k=k, n=self.r.choice([0, 0, 0, 1, 2, 5]), times=self.r.choice([1, 1, 2, 3, 8]))
        if self.r.random() < self.p["ack_err"]: op["err"] = self.r.choice([0x80, 0x83, 0x97])
        return op

    def op_reack(self):
        k = self.pick()
        return dict(o="reack", k=k, n=self.r.randint(0, 5), kind=self.r.choice(["puback", "pubcomp", "pubrec", "pubrec_err"]), times=self.r.choice([1, 1, 2, 4])) if k else None

    def op_ping(self):
        k = self.pick()
        return dict(o="ping", k=k) if k else None

    def op_adv(self):
        op = dict(o="adv", ms=self.r.choice(self.p["advs"]))
        if self.r.random() < self.p["tick"]: op["tick"] = self.r.choice([100000, 1000000, 4000000])
        return op

    def op_restart(self):
        self.on.clear()
        op = dict(o="restart")
        d = self.r.choice(self.p["downs"])
        if d: op["down"] = d
        return op

    def ops(self):
        r = self.r
        out = []
        n = r.randint(*self.p["n_ops"])
        w = self.p["w"]
        kinds = [k for k, v in w.items() if v > 0]
        ws = [w[k] for k in kinds]
        for c in self.cids[:max(2, len(self.cids) - 1)]:
            out.append(self.op_conn(c))
            if self.p["first_sub"] and r.random() < 0.8:
                o = self.op_sub()
                if o: out.append(o)
        guard = 0
        while len(out) < n + 4 and guard < n * 10:
            guard += 1
            kind = r.choices(kinds, ws)[0]
            if not self.on and kind not in ("adv", "restart"): kind = "conn"
            self.n += 1
            o = getattr(self, "op_" + kind)()
            if o: out.append(o)
        # epilogue: everyone comes back, so that what was kept is seen
        if self.p.get("epilogue", True):
            for c in self.cids:
                if c not in self.on.values():
                    o = self.op_conn(c)
                    if o:
                        o["clean"] = False
                        o.pop("rm", None); o.pop("mp", None)
                        if o["ver"] >= 5: o["exp"] = 100
                        o["auto"] = True
                        out.append(o)
        return [o for o in out if o]
