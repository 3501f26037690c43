"""Independent MQTT 3.1 / 3.1.1 / 5 codec (client side) used as the harness's view of the wire."""
import struct

CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT, AUTH = range(1, 16)
NAMES = {1: "CONNECT", 2: "CONNACK", 3: "PUBLISH", 4: "PUBACK", 5: "PUBREC", 6: "PUBREL", 7: "PUBCOMP", 8: "SUBSCRIBE", 9: "SUBACK",
         10: "UNSUBSCRIBE", 11: "UNSUBACK", 12: "PINGREQ", 13: "PINGRESP", 14: "DISCONNECT", 15: "AUTH"}

# property id -> (name, type)
PROPS = {
    0x01: ("pfi", "b"), 0x02: ("expiry", "I"), 0x03: ("ct", "s"), 0x08: ("rt", "s"), 0x09: ("cd", "x"), 0x0B: ("sid", "v"),
    0x11: ("session_expiry", "I"), 0x12: ("assigned_id", "s"), 0x13: ("server_keepalive", "H"), 0x15: ("auth_method", "s"),
    0x16: ("auth_data", "x"), 0x17: ("req_problem", "b"), 0x18: ("will_delay", "I"), 0x19: ("req_response", "b"), 0x1A: ("response_info", "s"),
    0x1C: ("server_ref", "s"), 0x1F: ("reason", "s"), 0x21: ("recv_max", "H"), 0x22: ("alias_max", "H"), 0x23: ("alias", "H"),
    0x24: ("max_qos", "b"), 0x25: ("retain_avail", "b"), 0x26: ("user", "p"), 0x27: ("max_packet", "I"), 0x28: ("wild_avail", "b"),
    0x29: ("sid_avail", "b"), 0x2A: ("shared_avail", "b"),
}
PID = {v[0]: k for k, v in PROPS.items()}
ALLOWED = {
    CONNACK: {0x11, 0x21, 0x24, 0x25, 0x27, 0x12, 0x22, 0x1F, 0x26, 0x28, 0x29, 0x2A, 0x13, 0x1A, 0x1C, 0x15, 0x16},
    PUBLISH: {0x01, 0x02, 0x23, 0x08, 0x09, 0x26, 0x0B, 0x03},
    PUBACK: {0x1F, 0x26}, PUBREC: {0x1F, 0x26}, PUBREL: {0x1F, 0x26}, PUBCOMP: {0x1F, 0x26},
    SUBACK: {0x1F, 0x26}, UNSUBACK: {0x1F, 0x26}, DISCONNECT: {0x11, 0x1F, 0x26, 0x1C}, AUTH: {0x15, 0x16, 0x1F, 0x26},
}


class Malformed(Exception):
    pass


def varint(n):
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def b2(s):
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogateescape")
    return s


def mstr(s):
    s = b2(s)
    return struct.pack(">H", len(s)) + s


def enc_props(props):
    """props: dict or list of (name, value). 'user': list of pairs; 'sid' may be a list."""
    if props is None:
        return b"\0"
    items = props.items() if isinstance(props, dict) else props
    out = b""
    for name, v in items:
        i = PID[name]
        t = PROPS[i][1]
        vs = v if (name in ("user",) and v and isinstance(v[0], (list, tuple))) else [v]
        if name == "user" and not v:
            continue
        for x in vs:
            out += bytes([i])
            if t == "b": out += bytes([x])
            elif t == "H": out += struct.pack(">H", x)
            elif t == "I": out += struct.pack(">I", x)
            elif t in "sx": out += mstr(x)
            elif t == "v": out += varint(x)
            elif t == "p": out += mstr(x[0]) + mstr(x[1])
    return varint(len(out)) + out


def fixed(first, body):
    return bytes([first]) + varint(len(body)) + body


def connect(cid="", ver=4, clean=True, keepalive=0, user=None, pw=None, will=None, props=None, bridge=False):
    """will: dict(topic, payload, qos, retain, props)"""
    name = "MQIsdp" if ver == 3 else "MQTT"
    fl = 0
    if clean: fl |= 2
    if will is not None:
        fl |= 4 | (will.get("qos", 0) << 3) | (0x20 if will.get("retain") else 0)
    if user is not None: fl |= 0x80
    if pw is not None: fl |= 0x40
    body = mstr(name) + bytes([ver | (0x80 if bridge else 0), fl]) + struct.pack(">H", keepalive)
    if ver >= 5: body += enc_props(props)
    body += mstr(cid)
    if will is not None:
        if ver >= 5: body += enc_props(will.get("props"))
        body += mstr(will["topic"]) + mstr(will.get("payload", b""))
    if user is not None: body += mstr(user)
    if pw is not None: body += mstr(pw)
    return fixed(0x10, body)


def publish(ver, topic, payload=b"", qos=0, retain=False, pid=0, dup=False, props=None):
    body = mstr(topic)
    if qos: body += struct.pack(">H", pid)
    if ver >= 5: body += enc_props(props)
    body += b2(payload)
    return fixed(0x30 | (8 if dup else 0) | (qos << 1) | (1 if retain else 0), body)


def ack(kind, pid, ver=4, reason=None, props=None):
    body = struct.pack(">H", pid)
    if ver >= 5 and reason is not None:
        body += bytes([reason])
        if props is not None: body += enc_props(props)
    return fixed((kind << 4) | (2 if kind == PUBREL else 0), body)


def subscribe(ver, pid, subs, props=None):
    """subs: list of (filter, options byte)"""
    body = struct.pack(">H", pid)
    if ver >= 5: body += enc_props(props)
    for f, o in subs:
        body += mstr(f) + bytes([o])
    return fixed(0x82, body)


def unsubscribe(ver, pid, filters, props=None):
    body = struct.pack(">H", pid)
    if ver >= 5: body += enc_props(props)
    for f in filters:
        body += mstr(f)
    return fixed(0xA2, body)


def pingreq():
    return b"\xc0\0"


def disconnect(ver, reason=None, props=None):
    if ver < 5 or (reason is None and props is None):
        return b"\xe0\0"
    body = bytes([reason or 0])
    if props is not None: body += enc_props(props)
    return fixed(0xE0, body)


def auth(reason, props=None):
    return fixed(0xF0, bytes([reason]) + enc_props(props))


class R:
    __slots__ = ("b", "p", "e")

    def __init__(self, b, p=0, e=None):
        self.b, self.p, self.e = b, p, len(b) if e is None else e

    def take(self, n):
        if self.p + n > self.e:
            raise Malformed("field runs past the end of the packet")
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def u8(self): return self.take(1)[0]
    def u16(self): return struct.unpack(">H", self.take(2))[0]
    def u32(self): return struct.unpack(">I", self.take(4))[0]
    def data(self): return bytes(self.take(self.u16()))

    def s(self):
        d = self.data()
        try:
            t = d.decode("utf-8")
        except UnicodeDecodeError:
            raise Malformed("string is not UTF-8: %r" % d)
        if "\0" in t:
            raise Malformed("NUL in string")
        return t

    def v(self):
        n = sh = 0
        for i in range(4):
            b = self.u8()
            n |= (b & 0x7F) << sh
            if not b & 0x80:
                if i and b == 0:
                    raise Malformed("overlong variable byte integer")
                return n
            sh += 7
        raise Malformed("variable byte integer too long")

    def more(self): return self.p < self.e

    def props(self, kind):
        n = self.v()
        if self.p + n > self.e:
            raise Malformed("property length past end of packet")
        end, save = self.p + n, self.e
        self.e = end
        out = {}
        while self.p < end:
            i = self.v()
            if i not in PROPS or i not in ALLOWED[kind]:
                raise Malformed("property 0x%02x not allowed in %s" % (i, NAMES[kind]))
            name, t = PROPS[i]
            if t == "b": val = self.u8()
            elif t == "H": val = self.u16()
            elif t == "I": val = self.u32()
            elif t == "s": val = self.s()
            elif t == "x": val = self.data()
            elif t == "v": val = self.v()
            else: val = (self.s(), self.s())
            if name == "user": out.setdefault("user", []).append(val)
            elif name == "sid": out.setdefault("sid", []).append(val)
            elif name in out: raise Malformed("duplicate property " + name)
            else: out[name] = val
        self.e = save
        return out


class Pkt(dict):
    __getattr__ = dict.__getitem__

    def __repr__(self):
        d = {k: v for k, v in self.items() if k not in ("t", "raw_len")}
        if isinstance(d.get("payload"), bytes) and len(d["payload"]) > 60:
            d["payload"] = d["payload"][:40] + b"...(%d)" % len(d["payload"])
        return NAMES[self["t"]] + repr(d)


def decode(first, body, ver):
    """Decode one server->client packet strictly; raises Malformed."""
    t, fl = first >> 4, first & 15
    r = R(body)
    k = Pkt(t=t, raw_len=1 + len(varint(len(body))) + len(body))
    if t == PUBLISH:
        k["dup"], k["qos"], k["retain"] = bool(fl & 8), (fl >> 1) & 3, bool(fl & 1)
        if k["qos"] == 3: raise Malformed("QoS 3")
        if k["qos"] == 0 and k["dup"]: raise Malformed("DUP with QoS 0")
        k["topic"] = r.s()
        k["pid"] = r.u16() if k["qos"] else 0
        if k["qos"] and not k["pid"]: raise Malformed("packet id 0")
        k["props"] = r.props(PUBLISH) if ver >= 5 else {}
        k["payload"] = bytes(body[r.p:])
        return k
    if t in (PUBREL,):
        if fl != 2: raise Malformed("PUBREL flags")
    elif fl:
        raise Malformed("reserved flags set in %s" % NAMES.get(t, t))
    if t == CONNACK:
        f = r.u8()
        if f & 0xFE: raise Malformed("CONNACK flags")
        k["present"], k["rc"] = bool(f & 1), r.u8()
        k["props"] = r.props(CONNACK) if ver >= 5 else {}
    elif t in (PUBACK, PUBREC, PUBREL, PUBCOMP):
        k["pid"] = r.u16()
        if not k["pid"]: raise Malformed("packet id 0")
        k["rc"], k["props"] = 0, {}
        if ver >= 5 and r.more():
            k["rc"] = r.u8()
            if r.more(): k["props"] = r.props(t)
    elif t in (SUBACK, UNSUBACK):
        k["pid"] = r.u16()
        k["props"] = r.props(t) if ver >= 5 else {}
        k["codes"] = list(body[r.p:]) if (t == SUBACK or ver >= 5) else []
        if t == SUBACK or ver >= 5: r.p = len(body)
    elif t == PINGRESP:
        pass
    elif t == DISCONNECT:
        if ver < 5: raise Malformed("server DISCONNECT below MQTT5")
        k["rc"], k["props"] = 0, {}
        if r.more():
            k["rc"] = r.u8()
            if r.more(): k["props"] = r.props(DISCONNECT)
    elif t == AUTH:
        if ver < 5: raise Malformed("AUTH below MQTT5")
        k["rc"], k["props"] = 0, {}
        if r.more():
            k["rc"] = r.u8()
            if r.more(): k["props"] = r.props(AUTH)
    else:
        raise Malformed("unexpected packet type %d from server" % t)
    if r.more():
        raise Malformed("trailing bytes in %s" % NAMES[t])
    return k


def split(buf):
    """Take complete packets off a bytearray; returns list of (first, body) and leaves the rest."""
    out = []
    p = 0
    n = len(buf)
    while n - p >= 2:
        ln = sh = 0
        q = p + 1
        ok = False
        while q < n and q - p <= 4:
            b = buf[q]
            ln |= (b & 0x7F) << sh
            sh += 7
            q += 1
            if not b & 0x80:
                ok = True
                break
        if not ok:
            if q - p > 4: raise Malformed("remaining length longer than 4 bytes")
            break
        if n - q < ln: break
        out.append((buf[p], bytes(buf[q:q + ln])))
        p = q + ln
    if p: del buf[:p]
    return out
