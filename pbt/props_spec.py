"""F04: packets with exactly one defect are refused and change nothing; packets without one are accepted."""
import random, struct
import mqtt
from mqtt import *
from runner import Check
from server import Server, Conn, Inconclusive
from world import Violation

# ------------------------------------------------------------------------------------------------------------- strings
EDGE = [0x20, 0x7e, 0xa0, 0x7ff, 0x800, 0xfff, 0x1000, 0x20ac, 0xd7ff, 0xe000, 0xfdcf, 0xfdf0, 0xfeff, 0xfffd, 0x10000, 0x1f600, 0x1fffd, 0x20000, 0xfffff - 2, 0x100000, 0x10fffd]
ILL = ["c3", "e282", "f09f98", "80", "bf", "c080", "c1bf", "e08080", "e09fbf", "f0808080", "f08fbfbf", "eda080", "edafbf", "edb080", "edbfbf", "f4908080", "f5808080", "f7bfbfbf", "f888808080", "fe", "ff",
       "c328", "e28228", "e22882", "f09f9828", "f0289f98", "c3c3", "fbbfbfbfbf"]
CTL = ["00", "00", "00", "01", "08", "09", "0a", "0d", "1f", "7f", "c280", "c285", "c29f", "efbfbe", "efbfbf", "efb790", "efb7af", "f09fbfbe", "f48fbfbf", "f3bfbfbf"]


def uchar(rng, k):
    if k == 0 or rng.random() < .4: return chr(rng.choice([rng.randint(0x61, 0x7a), rng.randint(0x30, 0x39), 0x20, 0x7e, 0x2d, 0x2a, 0x25]))
    if rng.random() < .4: return chr(rng.choice(EDGE))
    while True:
        c = rng.choice([rng.randint(0xa0, 0x7ff), rng.randint(0x800, 0xffff), rng.randint(0x10000, 0x10ffff)])
        if 0xd800 <= c <= 0xdfff or 0xfdd0 <= c <= 0xfdef or c & 0xfffe == 0xfffe: continue
        return chr(c)


def ustr(rng, lo=1, hi=60, levels=False):
    """a valid string of lo..hi bytes, often around multiples of 16 bytes; levels: with some '/'"""
    n = rng.choice([rng.randint(lo, hi), 16 * rng.randint(1, max(1, hi // 16)) + rng.choice([-1, 0, 1])])
    n = max(lo, min(hi, n))
    k = rng.choice([0, 1, 1])
    out = b""
    while len(out) < n:
        c = b"/" if levels and rng.random() < .15 else uchar(rng, k).encode()
        if len(out) + len(c) > n: c = b"x"
        out += c
    return out


def illstr(rng, base):
    """damage: one ill-formed or forbidden sequence at a random place"""
    s = base.decode()
    i = rng.choice([0, len(s), rng.randint(0, len(s))])
    bad = bytes.fromhex(rng.choice(ILL) if rng.random() < .65 else rng.choice(CTL))
    return s[:i].encode() + bad + s[i:].encode()


def pstr(rng, i): return mstr(ustr(rng, 0 if i not in (0x08,) else 1, 40))


def prop(rng, i, cfg):
    t = mqtt.PROPS[i][1]
    o = bytes([i])
    if t == "b": return o + bytes([rng.choice([0, 1])])
    if t == "H": return o + struct.pack(">H", rng.choice([1, 2, 20, 65535]) if i == 0x21 else rng.choice([0, 1, 5, 65535]))
    if t == "I":
        return o + struct.pack(">I", rng.choice([4096, 100000, 0xffffffff]) if i == 0x27 else rng.choice([3600, 100000, 0x7fffffff, 0x80000000, 0xffffffff]))
    if t == "v": return o + varint(rng.choice([1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455]))
    if t == "p": return o + mstr(ustr(rng, 0, 40)) + mstr(ustr(rng, 0, 60))
    if t == "x": return o + mstr(rng.randbytes(rng.choice([0, 1, 20, 300])))
    return o + pstr(rng, i)


OKP = {CONNECT: [0x11, 0x21, 0x27, 0x22, 0x19, 0x17, 0x26], "will": [0x18, 0x01, 0x02, 0x03, 0x08, 0x09, 0x26], PUBLISH: [0x01, 0x02, 0x08, 0x09, 0x26, 0x03],
       SUBSCRIBE: [0x0B, 0x26], UNSUBSCRIBE: [0x26], DISCONNECT: [0x11, 0x1F, 0x26]}
STRP = {0x03, 0x08, 0x15, 0x1F}          # checked string properties
DUP = {CONNECT: [0x11, 0x21, 0x27, 0x22, 0x19, 0x17], "will": [0x18, 0x01, 0x02, 0x03, 0x08, 0x09], PUBLISH: [0x01, 0x02, 0x08, 0x09, 0x03, 0x23], SUBSCRIBE: [0x0B], UNSUBSCRIBE: [], DISCONNECT: [0x11, 0x1F]}


class Bld:
    """one packet; `defect` names the single thing that is wrong with it"""
    def __init__(self, rng, n, kind, ver, defect, cfg):
        self.rng, self.n, self.kind, self.ver, self.d, self.cfg = rng, n, kind, ver, defect, cfg
        self.info = {}
        self.used = False

    def is_(self, *names): return self.d in names

    def props(self, kind, forced=()):
        """property block"""
        rng = self.rng
        al = OKP[kind]
        L = [x for x in forced]
        have = {x[0] for x in L}
        for i in rng.sample(al, rng.randint(0, len(al))):
            if i in have: continue
            if i == 0x26: L += [prop(rng, i, self.cfg) for _ in range(rng.choice([1, 2, 5]))]
            else: L.append(prop(rng, i, self.cfg))
        rng.shuffle(L)
        mine = self.d and self.info.get("pblock", kind) == kind
        if mine:
            if self.d == "dupprop":
                i = rng.choice(DUP[kind])
                x = next((p for p in L if p[0] == i), None)
                if x is None:
                    x = prop(rng, i, self.cfg) if i != 0x23 else b"\x23\0\1"
                    L.append(x)
                L.insert(rng.randint(0, len(L)), x if rng.random() < .5 else (prop(rng, i, self.cfg) if i != 0x23 else b"\x23\0\1"))
            elif self.d == "badprop":
                bad = [i for i in list(mqtt.PROPS) + [0x00, 0x04, 0x07, 0x10, 0x2B, 0x7F] if i not in al and i not in (0x15, 0x16, 0x1C) and not (kind == PUBLISH and i == 0x23)]
                i = rng.choice(bad)
                L.insert(rng.randint(0, len(L)), prop(rng, i, self.cfg) if i in mqtt.PROPS else bytes([i]) + mstr(b"x"))
            elif self.d == "strprop":
                i = rng.choice([x for x in al if x in STRP] + [0x26])
                if i == 0x26:
                    a, b = ustr(rng, 0, 40), ustr(rng, 0, 40)
                    if rng.random() < .5: a = illstr(rng, a)
                    else: b = illstr(rng, b)
                    x = bytes([i]) + mstr(a) + mstr(b)
                else: x = bytes([i]) + mstr(illstr(rng, ustr(rng, 1, 60)))
                L = [p for p in L if p[0] != i]
                L.insert(rng.randint(0, len(L)), x)
        out = b"".join(L)
        n = len(out)
        if mine and self.d == "proplen":
            # the length ends within a property, or goes past the end of the packet
            if L and rng.random() < .6:
                k = rng.randrange(len(L))
                n = sum(map(len, L[:k])) + rng.randint(1, len(L[k]) - 1)
            else: n += 100000
            return varint(n) + out
        if mine and self.d == "propvarint": return b"\xff\xff\xff\xff\x01" + out
        return varint(n) + out

    def filters(self, rng, k):
        """k valid filters with topics which they match: [(filter, topic)]"""
        out = []
        for j in range(k):
            lv = ["f4", str(self.n), "s%d" % j] + [ustr(rng, 1, 12).decode().replace("/", "x") for _ in range(rng.choice([0, 1, 2]))]
            t = list(lv)
            z = rng.random()
            if z < .2: f = lv + ["#"]; t = lv + rng.choice([[], ["a"], ["a", ""]])
            elif z < .4: f = lv + ["+"]; t = lv + [rng.choice(["", "b"])]
            elif z < .5: f = lv[:2] + [lv[2], "+"] + lv[3:]; t = lv[:3] + ["y"] + lv[3:]
            elif z < .55: f = lv + [""]; t = lv + [""]
            elif z < .6: f = lv + ["é" * 8 + "/" + "z" * rng.choice([14, 15, 16, 17])]; t = f
            elif z < .64: f = lv + ["d"] * 100; t = f
            else: f = lv
            f = "/".join(f)
            if rng.random() < .12: f = "$share/%s/%s" % (ustr(rng, 1, 10).decode().replace("/", "x"), f)
            out.append((f.encode(), "/".join(t).encode()))
        return out

    BADF = ["", "f4/N/a#", "f4/N/#/a", "f4/N/a+", "f4/N/+a", "f4/N/+/a+/b", "f4/N/##", "f4/N/#/#", "#f4/N", "f4/N/a/b#", "+f4/N", "f4/N/++", "$share/g/f4/N/a#", "$share/g/f4/N/#/b", "f4/N/#/", "f4/N/#b"]
    BADS = ["$share/g", "$share/", "$share//f4/N/a", "$share/g/", "$share/+/f4/N/a", "$share/g+/f4/N/a", "$share/#/f4/N/a", "$share/#"]

    def build(self):
        x = getattr(self, "b_%d" % self.kind)()
        if self.d == "flags": x = bytes([x[0] & 0xf0 | self.rng.choice([f for f in range(16) if f != (x[0] & 15)])]) + x[1:]
        return x

    def cut(self, first, body, keep=0):
        if self.d == "cut":
            body = body[:self.rng.randint(keep, len(body) - 1)]
        return fixed(first, body)

    # --- CONNECT
    def b_1(self):
        rng, ver = self.rng, self.ver
        name, lev = (b"MQIsdp" if ver == 3 else b"MQTT"), ver
        will = self.d in ("willqos3", "willtopic", "willtopic-utf8", "willpfi", "will-rt-wild") or rng.random() < .5
        user = self.d in ("user-utf8",) or rng.random() < .3
        pw = rng.random() < .5 and (user or ver == 5)
        clean = rng.random() < .5
        cid = b"c%d" % self.n + (ustr(rng, 0, 30).replace(b"/", b"x") if rng.random() < .6 else b"")
        if self.d is None and clean and ver > 3 and rng.random() < .2: cid = b""
        fl = (2 if clean else 0) | (4 if will else 0) | (0x80 if user else 0) | (0x40 if pw else 0)
        if will: fl |= rng.choice([0, 8, 16]) | rng.choice([0, 32])
        self.info["pblock"] = rng.choice([CONNECT, "will"]) if will else CONNECT
        forced = []
        if self.is_("resflag"): fl |= 1
        if self.is_("willqos3"): fl |= 0x18
        if self.is_("nowill-qos"): fl = fl & ~0x24 | rng.choice([8, 16, 24]); will = False
        if self.is_("nowill-retain"): fl = fl & ~0x3c | 0x20; will = False
        if not will: self.info["pblock"] = CONNECT
        if self.is_("pw-nouser"): fl = fl & ~0x80 | 0x40; user, pw = False, True
        if self.is_("name"): name = rng.choice([b"mqtt", b"MQTt", b"MQT", b"MQTTT", b"MQIsdq", b"", b"MQTT\0", b"Mqtt"] + ([b"MQIsdp"] if ver > 3 else []))
        if self.is_("level"): lev = rng.choice([0, 1, 2, 6, 7, 0x44, 0x7f])
        if self.is_("recvmax0"): forced = [b"\x21\0\0"]
        if self.is_("maxpkt0"): forced = [b"\x27\0\0\0\0"]
        if self.is_("bool2"): forced = [bytes([rng.choice([0x17, 0x19]), rng.choice([2, 3, 0x80, 255])])]
        if self.is_("authdata"): forced = [b"\x16" + mstr(b"data")]
        b = mstr(name) + bytes([lev, fl]) + struct.pack(">H", rng.choice([0, 60, 65535]))
        if ver == 5: b += self.props(CONNECT, forced)
        if self.is_("cid-utf8"): cid = illstr(rng, cid)
        if self.is_("cid-wild"): cid += rng.choice([b"+", b"#", b"a+b", b"#x"])
        if self.is_("cid-empty"): cid = b""; b = b[:len(mstr(name)) + 1] + bytes([fl & ~2]) + b[len(mstr(name)) + 2:]
        b += mstr(cid)
        wt = b"f4/%d/will" % self.n
        if will:
            if ver == 5: b += self.props("will", [b"\x01\x01"] if self.is_("willpfi") else [b"\x08" + mstr(rng.choice([b"a/#", b"+", b"a+b", b"#"]))] if self.is_("will-rt-wild") else [])
            t = wt + b"/" + ustr(rng, 0, 30, True) if rng.random() < .5 else wt
            if self.is_("willtopic"): t = wt + rng.choice([b"/#", b"/+", b"+", b"#", b"/+/a"])
            if self.is_("willtopic-utf8"): t = wt + illstr(rng, t[len(wt):])
            pay = rng.choice([b"", b"will", ustr(rng, 1, 50)])
            if self.is_("willpfi"): pay += bytes.fromhex(rng.choice(ILL))
            b += mstr(t) + mstr(pay)
        if user:
            u = b"u" + ustr(rng, 0, 20).replace(b"/", b"x")
            if self.is_("user-utf8"): u = illstr(rng, u)
            b += mstr(u)
        if pw: b += mstr(rng.randbytes(rng.choice([0, 5, 40])))
        if self.is_("surplus"): b += rng.randbytes(rng.choice([1, 2, 10]))
        self.info.update(cid=cid.hex(), clean=bool(clean), will=bool(will), user=bool(user), lev=lev)
        return self.cut(0x10, b)

    # --- SUBSCRIBE / UNSUBSCRIBE
    def b_8(self, un=False):
        rng, ver = self.rng, self.ver
        good = self.filters(rng, rng.choice([1, 1, 2, 3, 8]))
        if un: good = [(b"f4/%d/pre" % self.n, b"")] * int(rng.random() < .8) + good
        L = []
        for f, t in good:
            sh = f.startswith(b"$share/")
            q = rng.choice([0, 1, 2])
            o = q
            if ver == 5: o |= (0 if sh else rng.choice([0, 4])) | rng.choice([0, 8]) | rng.choice([0, 16, 32])
            L.append([f, o, t.hex(), q])
        d = self.d
        k = rng.randint(0, len(L))
        N = str(self.n)
        bad = None
        if d == "badfilter": bad = rng.choice(self.BADF).replace("N", N).encode()
        if d == "badshare": bad = rng.choice(self.BADS).replace("N", N).encode()
        if d == "filter-utf8": bad = b"f4/" + N.encode() + b"/" + illstr(rng, ustr(rng, 1, 50, True))
        if bad is not None: L.insert(k, [bad, rng.choice([0, 1, 2]), "", 0])
        if d == "qos3": L[k % len(L)][1] |= 3
        if d == "resopt": L[k % len(L)][1] |= rng.choice([0x40, 0x80, 0xc0] if ver == 5 else [4, 8, 16, 32, 64, 128])
        if d == "rh3": L[k % len(L)][1] |= 0x30
        if d == "share-nl": L.insert(k, [b"$share/g/f4/" + N.encode() + b"/a", 4 | rng.choice([0, 1, 2]), "", 0])
        if d == "none": L = []
        pid = 0 if d == "pid0" else rng.choice([1, 7, 65535])
        b = struct.pack(">H", pid)
        forced = [b"\x0b\0"] if d == "sid0" else []
        if ver == 5: b += self.props(UNSUBSCRIBE if un else SUBSCRIBE, forced)
        for f, o, t, q in L: b += mstr(f) + (b"" if un else bytes([o]))
        topics = [t for f, o, t, q in L if t]
        if bad is not None and not un: topics += [("f4/%s/a" % N).encode().hex(), ("f4/%s" % N).encode().hex(), ("f4/%s/x/y" % N).encode().hex()]
        self.info.update(pid=pid, topics=topics, q=[q for f, o, t, q in L], n=len(L))
        if d == "cut":          # never at the end of a filter
            ends = [len(b)]
            for f, o, t, q in reversed(L): ends.append(ends[-1] - 2 - len(f) - (0 if un else 1))
            c = rng.choice([i for i in range(0, len(b)) if i not in ends[:-1]])
            return fixed(0xa2 if un else 0x82, b[:c])
        return fixed(0xa2 if un else 0x82, b)

    def b_10(self): return self.b_8(True)

    # --- PUBLISH
    def b_3(self):
        rng, ver, d = self.rng, self.ver, self.d
        N = b"%d" % self.n
        q = rng.choice([0, 1, 2])
        if d == "pid0": q = rng.choice([1, 2])
        if d == "dup0": q = 0
        first = 0x30 | q << 1 | rng.choice([0, 1])
        if q and rng.random() < .2: first |= 8
        if d == "qos3": first |= 6; q = 3
        if d == "dup0": first |= 8
        t = b"f4/" + N + b"/p/" + ustr(rng, 0, rng.choice([10, 40, 90]), True)
        if d is None and rng.random() < .08: t = b"f4/" + N + b"/p" + b"/" * rng.choice([1, 50, 100])
        if d is None and rng.random() < .08: t = b"f4/" + N + b"/p/" + ustr(rng, 1000, 4096 - 30)
        forced = []
        if d == "topic-wild":
            i = rng.randint(len(b"f4/" + N + b"/"), len(t))
            while i < len(t) and t[i] & 0xc0 == 0x80: i += 1
            t = t[:i] + rng.choice([b"+", b"#"]) + t[i:]
        if d == "topic-utf8": t = b"f4/" + N + b"/" + illstr(rng, ustr(rng, 1, 60, True))
        if d == "topic-empty": t = b""
        if d == "alias0": forced = [b"\x23\0\0"]
        if d == "alias-big": forced = [b"\x23" + struct.pack(">H", rng.choice([self.cfg["alias"] + 1, 65535]))]
        if d == "alias-unknown": t = b""; forced = [b"\x23" + struct.pack(">H", rng.randint(1, self.cfg["alias"]))]
        if d == "rt-wild": forced = [b"\x08" + mstr(rng.choice([b"a/#", b"+", b"a+b", b"#"]))]
        if d == "rt-empty": forced = [b"\x08\0\0"]
        if d == "sid": forced = [b"\x0b\1"]
        pay = rng.choice([b"", b"x", ustr(rng, 1, 60), rng.randbytes(rng.choice([10, 200]))])
        if d == "pfi": forced = [b"\x01\x01"]; pay = ustr(rng, 0, 60); i = rng.randint(0, len(pay.decode())); pay = pay.decode()[:i].encode() + bytes.fromhex(rng.choice(ILL)) + pay.decode()[i:].encode()
        elif ver == 5 and d is None and rng.random() < .3:
            forced = [b"\x01\x01"]
            pay = ustr(rng, 0, 60).decode()
            if rng.random() < .5:      # any well-formed UTF-8 will do in a payload
                i = rng.randint(0, len(pay))
                pay = pay[:i] + rng.choice(["\n", "\r\n", "\t", "\x00", "\x1b[0m", "\x7f", "\x85", "\ufffe", "\ufdd0", "\U0001ffff"]) + pay[i:]
            pay = pay.encode()
        b = mstr(t)
        pid = 0 if d == "pid0" else rng.choice([1, 9, 65535])
        if q: b += struct.pack(">H", pid)
        keep = len(b)
        if ver == 5:
            saved = OKP[PUBLISH]
            if forced and forced[0][0] == 1 or b"\x01" in b"": pass
            blk = self.props(PUBLISH, forced or [b"\x01\0"])
            b += blk
        self.info.update(topic=t.hex(), q=q, retain=first & 1, pid=pid, pay=pay.hex())
        if d == "cut":
            body = b[:rng.randint(0, len(b) - 1)] if ver == 5 else b[:rng.randint(0, keep - 1)]
            return fixed(first, body)
        return fixed(first, b + pay)

    # --- acknowledgements
    def ack(self, t):
        rng, d = self.rng, self.d
        b = struct.pack(">H", 0) if d == "pid0" else b"@@"         # the id is filled in when it is known
        if d == "cut": b = rng.choice([b"", b"\0"])
        elif self.ver == 5 and rng.random() < .5 and d != "pid0":
            rc = {4: [0, 0x10], 5: [0, 0x10], 6: [0, 0x92], 7: [0, 0x92]}[t]
            b += bytes([rng.choice(rc)])
            if rng.random() < .5:
                L = []
                if rng.random() < .5: L.append(prop(rng, 0x1F, self.cfg))
                for _ in range(rng.choice([0, 1, 3])): L.append(prop(rng, 0x26, self.cfg))
                b += varint(sum(map(len, L))) + b"".join(L)
        if d == "rc": b = b[:2] + bytes([rng.choice([1, 2, 4, 0x81, 0x8e, 0xff])])
        return fixed(t << 4 | (2 if t == PUBREL else 0), b)

    def b_4(self): return self.ack(4)
    def b_5(self): return self.ack(5)
    def b_6(self): return self.ack(6)
    def b_7(self): return self.ack(7)

    def b_12(self):
        return fixed(0xc0, b"")

    def b_14(self):
        rng, d = self.rng, self.d
        if self.ver < 5: return fixed(0xe0, b"")
        forced = [b"\x11" + struct.pack(">I", rng.choice([1, 100, 0xffffffff]))] if d == "expiry0" else []
        rc = rng.choice([0, 0, 4, 0x80, 0x81, 0x83])
        self.info["rc"] = rc
        if d is None and rng.random() < .2:
            self.info["rc"] = 0
            return fixed(0xe0, b"")
        b = bytes([rc])
        if d or rng.random() < .7: b += self.props(DISCONNECT, forced)
        if d == "cut": b = b[:rng.randint(2, len(b) - 1)] if len(b) > 2 else b[:1] + b"\x05"
        return fixed(0xe0, b)


V5P = ["dupprop", "badprop", "strprop", "proplen", "propvarint"]
DEFECTS = {
    CONNECT: ([3, 4, 5], ["flags", "resflag", "name", "level", "willqos3", "nowill-qos", "nowill-retain", "cid-utf8", "cid-wild", "willtopic", "willtopic-utf8", "user-utf8", "cut", "surplus"],
              V5P + ["recvmax0", "maxpkt0", "bool2", "authdata", "willpfi", "will-rt-wild"], ["pw-nouser", "cid-empty"]),
    SUBSCRIBE: ([3, 4, 5], ["flags", "pid0", "none", "badfilter", "badshare", "filter-utf8", "qos3", "resopt", "cut"], V5P + ["rh3", "share-nl", "sid0"], []),
    UNSUBSCRIBE: ([3, 4, 5], ["flags", "pid0", "none", "badfilter", "filter-utf8", "cut"], ["badprop", "strprop", "proplen", "propvarint"], []),
    PUBLISH: ([3, 4, 5], ["qos3", "dup0", "pid0", "topic-wild", "topic-wild", "topic-utf8", "topic-utf8", "topic-empty", "cut"], V5P + ["alias0", "alias-big", "alias-unknown", "rt-wild", "rt-empty", "sid", "pfi", "pfi"], []),
    PUBACK: ([3, 4, 5], ["flags", "pid0", "cut"], [], []), PUBREC: ([3, 4, 5], ["flags", "pid0", "cut"], ["rc"], []), PUBREL: ([3, 4, 5], ["flags", "pid0", "cut"], [], []),
    PUBCOMP: ([3, 4, 5], ["flags", "pid0", "cut"], [], []), PINGREQ: ([3, 4, 5], ["flags"], [], []), DISCONNECT: ([4, 5], ["flags"], V5P + ["expiry0", "cut"], []),
}


def gen_item(rng, n, cfg):
    kind = rng.choices([CONNECT, SUBSCRIBE, UNSUBSCRIBE, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, PINGREQ, DISCONNECT, 0], [28, 20, 9, 26, 2, 3, 3, 2, 1, 5, 3])[0]
    if kind == 0:      # packets that are wrong as such
        z = rng.choice(["type0", "auth", "remlen", "connect2", "auth-old"])
        ver = {"auth": 5, "auth-old": rng.choice([3, 4])}.get(z, rng.choice([3, 4, 5]))
        x = {"type0": fixed(0, rng.choice([b"", b"x", b"\0\1"])), "auth": fixed(0xf0, bytes([rng.choice([0x18, 0x19])]) + varint(3 + 2) + b"\x15" + mstr(b"mm")),
             "remlen": bytes([rng.choice([0x30, 0x82, 0xc0, 0x40])]) + rng.choice([b"\xff\xff\xff\xff\x01", b"\x80\x80\x80\x80\x01", b"\x82\x80\x80\x80\x00"]),
             "connect2": mqtt.connect("c%d" % n, ver, True, 60), "auth-old": fixed(0xf0, b"")}[z]
        return dict(n=n, t=0, ver=ver, d=z, x=x.hex(), i={}, w=rng.random() < .5)
    vers, dall, d5, dold = DEFECTS[kind]
    ver = rng.choice(vers + [5])
    d = None
    if rng.random() < .68: d = rng.choice(dall + (d5 if ver == 5 else dold))
    if kind == PUBLISH and d == "flags": d = "qos3"
    b = Bld(rng, n, kind, ver, d, cfg)
    x = b.build()
    it = dict(n=n, t=kind, ver=ver, d=d, x=x.hex(), i=b.info, w=rng.random() < .4)
    if d == "expiry0": it["exp"] = 0
    return it


def gen_f04(rng, i):
    cfg = dict(alias=rng.choice([5, 10, 200]))
    return dict(alias=cfg["alias"], variant=rng.choice(["rel", "rel", "rel", "asan"]), threads=rng.choice([1, 1, 2]), items=[gen_item(rng, n, cfg) for n in range(rng.randint(18, 30))])


def run_f04(exes, case, stats):
    srv = Server(exes[case["variant"]], "max_incoming_topic_alias_value %d\nexpire_sessions_after_seconds 86400\n" % case["alias"], threads=case.get("threads", 1))
    r = Run(srv, stats)
    try:
        r.go(case["items"])
        srv.stop()
    finally:
        r.close()
        srv.close()


class Peer:
    def __init__(self, run, cid, ver, clean=True, will=None, exp=3600):
        self.run, self.ver = run, ver
        self.c = Conn(run.srv.sock)
        run.conns.append(self.c)
        self.in_ = []
        props = [("session_expiry", exp)] if ver >= 5 and exp else None
        if ver >= 5 and will: will = dict(will, props=None)
        self.c.send(mqtt.connect(cid, ver, clean, 0 if ver < 5 else 60, None, None, will, props))
        self.get()
        if not self.in_ or self.in_[0].t != CONNACK or self.in_[0].rc: run.bad("connect", "a valid CONNECT of %r was answered with %s" % (cid, self.in_))
        self.present = self.in_.pop(0).present

    def get(self):
        self.run.srv.quiesce()
        self.c.pump()
        try:
            for f, b in mqtt.split(self.c.buf): self.in_.append(mqtt.decode(f, b, self.ver))
        except mqtt.Malformed as e:
            self.run.bad("wire", "malformed packet from the broker: %s" % e)

    def take(self):
        self.get()
        r, self.in_ = self.in_, []
        return r

    def sub(self, fs, pid=3):
        self.c.send(mqtt.subscribe(self.ver, pid, fs))
        r = self.take()
        if not r or r[0].t != SUBACK or r[0].codes != [o & 3 for _, o in fs]: self.run.bad("subscribe", "a valid SUBSCRIBE to %s was answered with %s" % (fs, r))
        return r[1:]


class Run:
    def __init__(self, srv, stats):
        self.srv, self.stats, self.conns = srv, stats, []

    def close(self):
        for c in self.conns: c.close()

    def bad(self, kind, text):
        raise Violation(kind, text + "   in " + self.what)

    def stat(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n

    def go(self, items):
        self.what = "setup"
        self.w = Peer(self, "witness", 5)
        self.w.sub([("#", 0)])
        for it in items:
            x = it["x"]
            self.what = "%s %s packet (MQTT %d)%s: %s%s" % ("valid" if not it["d"] else "defective", mqtt.NAMES.get(it["t"], "?"), it["ver"], " with defect '%s'" % it["d"] if it["d"] else "", x[:1200], "..." if len(x) > 1200 else "")
            (self.item_connect if it["t"] == CONNECT else self.item)(it)
            for c in self.conns[1:]: c.close()
            del self.conns[1:]
            self.srv.quiesce()
            self.w.take()
            self.stat("defects" if it["d"] else "valid")
        self.stats["sample"] = [dict(type=mqtt.NAMES.get(i["t"], "?"), ver=i["ver"], defect=i["d"], bytes=i["x"][:120]) for i in items[:6]]

    # --- helpers
    def heard(self, allowed=None):
        """what the witness got; a will only if allowed"""
        return [p for p in self.w.take() if p.t == PUBLISH]

    def item_connect(self, it):
        i, ver, d = it["i"], it["ver"], it["d"]
        x = bytes.fromhex(it["x"])
        c = Conn(self.srv.sock)
        self.conns.append(c)
        cid = bytes.fromhex(i["cid"])
        # a session with this id, which a refused CONNECT may not touch
        prior = None
        s0 = None
        if d and it["w"] and d not in ("cid-utf8", "cid-empty", "cid-wild"):
            prior = Peer(self, cid, 4, False)
            prior.sub([("f4/%d/prior" % it["n"], 0)])
        c.send(x)
        self.srv.quiesce()
        c.pump()
        out = list(mqtt.split(c.buf))
        acks = [b for f, b in out if f >> 4 == CONNACK]
        if d is None:
            if not acks or acks[0][1] != 0 or c.eof: self.bad("refused", "it was answered with %s, closed=%s" % ([(f, b.hex()) for f, b in out], c.eof))
            k = mqtt.decode(*out[0], ver)
            if ver >= 5 and not cid and not k.props.get("assigned_id"): self.bad("refused", "no client id assigned")
            c.send(mqtt.pingreq())
            self.srv.quiesce()
            c.pump()
            if not any(f >> 4 == PINGRESP for f, b in mqtt.split(c.buf)): self.bad("refused", "PINGREQ after it is not answered")
            c.send(mqtt.disconnect(ver))
            self.srv.quiesce()
            if self.heard(): self.bad("effect", "something was published")
            return
        for b in acks:
            if len(b) < 2 or b[1] == 0: self.bad("accepted", "it was accepted: CONNACK %s" % b.hex())
        for f, b in out:
            if f >> 4 == DISCONNECT and (not b or b[0] < 0x80): self.bad("accepted", "it was answered with DISCONNECT %s" % b.hex())
            if f >> 4 not in (CONNACK, DISCONNECT): self.bad("accepted", "it was answered with %d %s" % (f, b.hex()))
        if not c.eof:      # (a little time: the broker may let the answer drain)
            for _ in range(3):
                self.srv.step_clock(200); self.srv.quiesce(clock=True)
            c.pump()
            if not c.eof: self.bad("accepted", "the connection is still open")
        if prior:
            prior.take()
            if prior.c.eof: self.bad("effect", "the client with the same id was disconnected")
            self.w.c.send(mqtt.publish(5, "f4/%d/prior" % it["n"], b"p"))
            if [p.topic for p in prior.take()] != ["f4/%d/prior" % it["n"]]: self.bad("effect", "the client with the same id does not get its messages any more")
            self.heard()
        elif d not in ("cid-utf8", "cid-empty", "cid-wild"):
            p = Peer(self, cid, 4, False)
            if p.present: self.bad("effect", "there is a session of the refused client")
        h = self.heard()
        if h: self.bad("effect", "published: %s" % h)

    def item(self, it):
        i, ver, d, n, t = it["i"], it["ver"], it["d"], it["n"], it["t"]
        x = bytes.fromhex(it["x"])
        will = dict(topic="f4/%d/mywill" % n, payload=b"w") if it.get("w") else None
        cid = "a%d" % n
        exp = it.get("exp", 3600)
        a = Peer(self, cid, ver, False, will, exp)
        pre = "f4/%d/pre" % n
        a.sub([(pre, 2 if t in (PUBREC, PUBCOMP) else 1)])
        pid = 0
        if t == PUBREL:
            a.c.send(mqtt.publish(ver, "f4/%d/q2" % n, b"q2", 2, False, 21))
            r = a.take()
            if [p.t for p in r] != [PUBREC]: self.bad("setup", "PUBLISH QoS 2 was answered with %s" % r)
            pid = 21
        if t in (PUBACK, PUBREC, PUBCOMP):
            self.w.c.send(mqtt.publish(5, pre, b"m", 1 if t == PUBACK else 2, False, 33))
            self.srv.quiesce()
            self.w.take()
            if t != PUBACK:
                self.w.c.send(mqtt.ack(PUBREL, 33, 5))
            r = a.take()
            if [p.t for p in r] != [PUBLISH]: self.bad("setup", "got %s" % r)
            pid = r[0].pid
            if t == PUBCOMP:
                a.c.send(mqtt.ack(PUBREC, pid, ver))
                r = a.take()
                if [p.t for p in r] != [PUBREL]: self.bad("setup", "got %s" % r)
        self.heard()
        x = x.replace(b"@@", struct.pack(">H", pid), 1) if t in (PUBACK, PUBREC, PUBREL, PUBCOMP) else x
        a.c.send(x + mqtt.pingreq())
        r = a.take()
        if d is None: return self.accepted(it, a, r, pre)
        # ---- refused
        end = [p for p in r if p.t == DISCONNECT]
        r = [p for p in r if p.t != DISCONNECT]
        if any(p.rc < 0x80 for p in end): self.bad("accepted", "answered with %s" % end)
        if r: self.bad("accepted", "answered with %s" % r)
        if not a.c.eof:
            for _ in range(3):
                self.srv.step_clock(200); self.srv.quiesce(clock=True)
            a.get()
            if not a.c.eof or a.in_: self.bad("accepted", "the connection is still open (%s)" % a.in_)
        h = self.heard()
        if d == "expiry0": self.bad("accepted", "the session did not end") if False else None
        wl = [p for p in h if p.topic == "f4/%d/mywill" % n]
        rest = [p for p in h if p not in wl]
        if rest: self.bad("effect", "published: %s" % rest)
        if len(wl) != (1 if will else 0): self.bad("will", "the will was published %d times" % len(wl))
        # ---- nothing has changed
        b = Peer(self, cid, ver, False)
        if b.present != (ver > 3 and exp != 0 and b.present is not None) and ver > 3: self.bad("effect", "session present is %s at the next CONNECT" % b.present)
        if exp == 0: return
        got = b.take()
        if t in (PUBACK, PUBREC):
            if [(p.t, p.get("pid")) for p in got] != [(PUBLISH, pid)]: self.bad("effect", "after reconnecting got %s" % got)
            b.c.send(mqtt.ack(PUBACK if t == PUBACK else PUBREC, pid, ver, 0x80 if ver >= 5 and t == PUBREC else None))
            b.take()
        elif t == PUBCOMP:
            if [(p.t, p.get("pid")) for p in got] != [(PUBREL, pid)]: self.bad("effect", "after reconnecting got %s" % got)
            b.c.send(mqtt.ack(PUBCOMP, pid, ver))
        elif got: self.bad("effect", "after reconnecting got %s" % got)
        if t == PUBREL:
            b.c.send(mqtt.publish(ver, "f4/%d/q2" % n, b"q2", 2, False, 21, True))
            b.take()
            h = self.heard()
            if h: self.bad("effect", "the QoS 2 id was released: %s" % h)
        if t == PUBLISH and i["q"] == 2 and i["pid"]:
            b.c.send(mqtt.publish(ver, "f4/%d/again" % n, b"again", 2, False, i["pid"]))
            b.take()
            if [p.topic for p in self.heard()] != ["f4/%d/again" % n]: self.bad("effect", "the packet id of the refused QoS 2 message is taken")
        for tp in i.get("topics", []) if t == SUBSCRIBE else []:
            self.w.c.send(mqtt.publish(5, bytes.fromhex(tp), b"t"))
        self.w.c.send(mqtt.publish(5, pre, b"pre"))
        got = b.take()
        if [p.topic for p in got if p.t == PUBLISH] != [pre]: self.bad("effect", "afterwards the client gets %s, not just %r" % (got, pre))
        if t == PUBLISH:
            b2 = Peer(self, "r%d" % n, 5)
            got = b2.sub([("f4/%d/#" % n, 0)])
            if got: self.bad("effect", "retained: %s" % got)

    def accepted(self, it, a, r, pre):
        i, ver, n, t = it["i"], it["ver"], it["n"], it["t"]
        if t == DISCONNECT:
            if r: self.bad("refused", "answered with %s" % r)
            if not a.c.eof:
                for _ in range(3):
                    self.srv.step_clock(200); self.srv.quiesce(clock=True)
                a.get()
            if not a.c.eof: self.bad("refused", "the connection is still open")
            h = self.heard()
            want = 1 if it.get("w") and i.get("rc") else 0
            if len(h) != want: self.bad("will", "%d wills published, expected %d" % (len(h), want))
            return
        if a.c.eof or not r or r[-1].t != PINGRESP and t != 0: 
            if a.c.eof or not any(p.t == PINGRESP for p in r): self.bad("refused", "answered with %s, closed=%s" % (r, a.c.eof))
        r = [p for p in r if p.t != PINGRESP]
        h = self.heard()
        if t == SUBSCRIBE:
            sa = [p for p in r if p.t == SUBACK]
            if len(sa) != 1 or sa[0].pid != i["pid"] or sa[0].codes != i["q"]: self.bad("refused", "answered with %s" % r)
            for tp in i["topics"]:
                self.w.c.send(mqtt.publish(5, bytes.fromhex(tp), b"t"))
                got = [p for p in a.take() if p.t == PUBLISH]
                if not got or any(p.topic.encode() != bytes.fromhex(tp) for p in got): self.bad("refused", "subscribed, but a message to %r gives %s" % (bytes.fromhex(tp), got))
        elif t == UNSUBSCRIBE:
            if [(p.t, p.pid) for p in r] != [(UNSUBACK, i["pid"])]: self.bad("refused", "answered with %s" % r)
            if ver >= 5 and (len(r[0].codes) != i["n"] or any(c >= 0x80 for c in r[0].codes)): self.bad("refused", "answered with %s" % r)
        elif t == PUBLISH:
            want = {0: [], 1: [(PUBACK, i["pid"])], 2: [(PUBREC, i["pid"])]}[i["q"]]
            if [(p.t, p.pid) for p in r] != want or any(p.rc >= 0x80 for p in r): self.bad("refused", "answered with %s" % r)
            if [(p.topic.encode(), p.payload) for p in h] != [(bytes.fromhex(i["topic"]), bytes.fromhex(i["pay"]))]: self.bad("refused", "a subscriber of all topics got %s" % h)
            if i["retain"]:
                self.w.c.send(mqtt.publish(5, bytes.fromhex(i["topic"]), b"", 0, True))
        elif t == PUBREC:
            if [(p.t) for p in r] != [PUBREL]: self.bad("refused", "answered with %s" % r)
        elif t == PUBREL:
            if [(p.t) for p in r] != [PUBCOMP]: self.bad("refused", "answered with %s" % r)
        elif r: self.bad("refused", "answered with %s" % r)


Check("F04", gen_f04, run_f04, 900, 30000,
      "Case: 18-30 packets of MQTT 3.1, 3.1.1 and 5, each valid (any option, property, string and length combination) or with exactly one defect of a catalogue of about 90; valid ones must be answered and take effect, "
      "defective ones must end the connection (or the connect) with no success answer, no message, no session, subscription, retained message or packet id changed, and the will published. "
      "Strings are random Unicode with lengths around multiples of 16 and ill-formed sequences at random places. Non-trivial = at least 8 defective and 3 valid packets",
      lambda c, s: s.get("defects", 0) >= 8 and s.get("valid", 0) >= 3,
      technique="grammar-based generation of valid packets and single-defect mutants; accept/refuse oracle with effect checks; ddmin shrinking", variants=("rel", "asan"))
