"""Generator of MQTT packets with plausible structure and of damage to them. Output: bytes."""
import struct
import mqtt
from mqtt import *

STR = [b"", b"a", b"a/b", b"a//b", b"/", b"//", b"+", b"#", b"a/#", b"+/b", b"#/a", b"a/#/b", b"a+", b"a#", b"$SYS/#", b"$SYS/broker/uptime", b"$share/g/a", b"$share/g/#", b"$share//a", b"$share/g", b"$share/",
       b"$share/g/", b"$share/+/a", b"\0", b"a\0b", b"\xff", b"\xc3", b"a" * 15 + b"\xc3", b"a" * 16 + b"\xed\xa0\x80", b"\xc0\xaf", b"\xf4\x90\x80\x80", b"\xef\xbf\xbf", "é€𝄞".encode(), b"\x01", b"\x7f",
       b"x" * 16, b"x" * 17, b"x" * 300, b"y" * 4096, b"z" * 65535, b"l/" * 100, b"/" * 127, b"/" * 128, b"/" * 400, b"+/" * 60 + b"#", b"/" * 65535, b"%s%n%s%n", b"GET / HTTP/1.1\r\n", b"dev/null", b"../x"]
TOP = [b"a", b"a/b", b"b", b"a/b/c", b"t/1", b"t/2", "é".encode(), b"r/1", b"r/2", b"deep/" * 20 + b"x"]
CID = [b"", b"m1", b"m1", b"m2", b"m3", b"m4", b"m#", b"m/+", b"x" * 24, b"y" * 500, b"\xff", b"m\0"]


def s(rng, pool=None, odd=.12):
    x = rng.choice(STR) if pool is None or rng.random() < odd else rng.choice(pool)
    if len(x) > 5000 and rng.random() < .7: x = x[:rng.choice([200, 1000])]
    return x


def mstr(b): return struct.pack(">H", min(len(b), 65535)) + b[:65535]


FOR = {  # allowed by the specification, as sent by a client
    CONNECT: [0x11, 0x21, 0x27, 0x22, 0x19, 0x17, 0x26, 0x15, 0x16], "will": [0x18, 0x01, 0x02, 0x03, 0x08, 0x09, 0x26], PUBLISH: [0x01, 0x02, 0x23, 0x08, 0x09, 0x26, 0x03], PUBACK: [0x1F, 0x26], PUBREC: [0x1F, 0x26], PUBREL: [0x1F, 0x26],
    PUBCOMP: [0x1F, 0x26], SUBSCRIBE: [0x0B, 0x26], UNSUBSCRIBE: [0x26], DISCONNECT: [0x11, 0x1F, 0x26, 0x1C], AUTH: [0x15, 0x16, 0x1F, 0x26],
}


def prop(rng, i, odd=.15):
    t = mqtt.PROPS[i][1] if i in mqtt.PROPS else rng.choice("bHIsxvp")
    o = bytes([i])
    if t == "b": return o + bytes([rng.choice([0, 1, 1, 2, 255])])
    if t == "H":
        if i == 0x23: return o + struct.pack(">H", rng.choice([1, 1, 2, 3, 10, 0, 11, 65535]))
        return o + struct.pack(">H", rng.choice([0, 1, 2, 3, 20, 65535]))
    if t == "I": return o + struct.pack(">I", rng.choice([0, 1, 2, 60, 100, 1000, 20000, 0x7fffffff, 0x80000000, 0xffffffff]))
    if t == "v": return o + rng.choice([varint(rng.choice([0, 1, 127, 128, 268435455])), b"\xff\xff\xff\xff\x7f", b"\x80\x80\x80\x00", b"\x80"])
    if t == "p": return o + mstr(s(rng, [b"k", b"key"], odd)) + mstr(s(rng, [b"v", b"value", b"v" * 200], odd))
    return o + mstr(s(rng, [b"text", b"r/1", b"r/2", b"x" * 100], odd))


def props(rng, kind, lvl):
    n = rng.choice([0, 0, 0, 1, 1, 2, 3, 6])
    out = b""
    al = FOR.get(kind, [0x26])
    pool = list(al)
    for _ in range(n):
        if lvl and rng.random() < .1: i = rng.choice(sorted(mqtt.PROPS) + [0, 0x04, 0x7f, 0x80, 0xff])
        elif rng.random() < .9 and pool:
            i = rng.choice(pool)
            if i != 0x26: pool.remove(i)
        else: i = rng.choice(al)
        out += prop(rng, i, .15 if lvl else 0.02)
    if lvl and rng.random() < .06: out = out[:rng.randint(0, len(out))]
    ln = varint(len(out))
    if lvl and rng.random() < .06: ln = rng.choice([varint(max(0, len(out) + rng.choice([-1, 1, 2, 100]))), b"\xff\xff\xff\x7f", b"\xff\xff\xff\xff\x01", b"\x80", varint(len(out) + 65536)])
    return ln + out


def connect(rng, lvl, cids=CID):
    ver = rng.choice([3, 4, 4, 5, 5, 5])
    wv = ver
    if lvl and rng.random() < .1: wv = rng.choice([0, 1, 2, 6, 0x83, 0x84, 0x85, 255])
    name = b"MQIsdp" if ver == 3 else b"MQTT"
    if lvl and rng.random() < .05: name = s(rng)
    will = rng.random() < .35
    fl = 2 if rng.random() < .5 else 0
    if will: fl |= 4 | rng.choice([0, 8, 16]) | rng.choice([0, 32])
    if rng.random() < .3: fl |= 0x80
    if rng.random() < .2: fl |= 0x40
    if lvl and rng.random() < .1: fl = rng.randint(0, 255)
    b = mstr(name) + bytes([wv, fl]) + struct.pack(">H", rng.choice([0, 1, 60, 65535]))
    if ver >= 5: b += props(rng, CONNECT, lvl)
    b += mstr(s(rng, cids, .1 if lvl else 0))
    if fl & 4:
        if ver >= 5: b += props(rng, "will", lvl)
        b += mstr(s(rng, TOP, .2 if lvl else 0)) + mstr(rng.randbytes(rng.choice([0, 5, 200])))
    if fl & 0x80: b += mstr(s(rng, [b"user", b"u2", b""], .1))
    if fl & 0x40: b += mstr(s(rng, [b"pw", b"x" * 100], .1))
    if lvl and rng.random() < .05: b += rng.randbytes(rng.randint(1, 10))
    return fixed(0x10, b), ver


def packet(rng, ver, lvl=1):
    """lvl 0: mostly valid"""
    t = rng.choices([PUBLISH, SUBSCRIBE, UNSUBSCRIBE, PUBACK, PUBREC, PUBREL, PUBCOMP, PINGREQ, DISCONNECT, AUTH, CONNECT, CONNACK, SUBACK, UNSUBACK, PINGRESP, 0],
                    [30, 12, 5, 4, 4, 6, 4, 3, .5, 1.5, .5] + ([.6, .6, .6, .6, .4] if lvl else [0] * 5))[0]
    pid = rng.choice([1, 1, 2, 2, 3, 4, 5, 100, 65535] + ([0] if lvl else []))
    if t == PUBLISH:
        q = rng.choice([0, 0, 1, 2] + ([3] if lvl and rng.random() < .1 else []))
        b = mstr(s(rng, TOP, .15 if lvl else .02))
        if ver >= 5 and rng.random() < .15: b = mstr(b"")
        if q: b += struct.pack(">H", pid)
        if ver >= 5: b += props(rng, t, lvl)
        b += rng.choice([b"", b"p", rng.randbytes(30), b"P" * 1000, b"Q" * rng.choice([4000, 4096, 20000, 100000])])
        return fixed(0x30 | q << 1 | (8 if rng.random() < .15 else 0) | (1 if rng.random() < .3 else 0), b)
    if t in (PUBACK, PUBREC, PUBREL, PUBCOMP):
        b = struct.pack(">H", pid)
        if ver >= 5 and rng.random() < .5: b += bytes([rng.choice([0, 0x10, 0x80, 0x92, 0x97, rng.randint(0, 255)])]) + (props(rng, t, lvl) if rng.random() < .6 else b"")
        return fixed(t << 4 | (2 if t == PUBREL else 0), b)
    if t == SUBSCRIBE:
        b = struct.pack(">H", pid)
        if ver >= 5: b += props(rng, t, lvl)
        for _ in range(rng.choice([1, 1, 1, 2, 5, 60] + ([0] if lvl else []))):
            b += mstr(s(rng, TOP + [b"#", b"+", b"a/#", b"+/+", b"t/+", b"$share/g/a", b"$share/h/#", b"$SYS/#"], .2 if lvl else .03)) + bytes([rng.choice([0, 1, 2] if ver < 5 or rng.random() < .4 else [4, 8, 12, 16, 32, 0x2e, 1]) if not lvl or rng.random() < .95 else rng.randint(0, 255)])
        return fixed(0x82, b)
    if t == UNSUBSCRIBE:
        b = struct.pack(">H", pid)
        if ver >= 5: b += props(rng, t, lvl)
        for _ in range(rng.choice([1, 1, 2, 5] + ([0] if lvl else []))): b += mstr(s(rng, TOP + [b"#", b"a/#"], .2 if lvl else .03))
        return fixed(0xa2, b)
    if t == PINGREQ: return fixed(0xc0, b"" if not lvl or rng.random() < .9 else b"x")
    if t == DISCONNECT:
        b = b""
        if ver >= 5 and rng.random() < .6: b = bytes([rng.choice([0, 4, 4, 0x80, 0x82, rng.randint(0, 255)])]) + (props(rng, t, lvl) if rng.random() < .6 else b"")
        return fixed(0xe0, b)
    if t == AUTH:
        b = b""
        if rng.random() < .8: b = bytes([rng.choice([0, 0x18, 0x19, rng.randint(0, 255)])]) + (props(rng, t, lvl) if rng.random() < .8 else b"")
        return fixed(0xf0, b)
    if t == CONNECT: return connect(rng, lvl)[0]
    return fixed(t << 4 | rng.choice([0, 0, 2, rng.randint(0, 15)]), rng.randbytes(rng.choice([0, 1, 2, 3, 20])))


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        if not b: break
        k = rng.randrange(10)
        i = rng.randrange(min(len(b), 40)) if rng.random() < .7 else rng.randrange(len(b))
        if k == 0: b[i] ^= 1 << rng.randrange(8)
        elif k == 1: b[i] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
        elif k == 2: del b[i:]
        elif k == 3: b[i:i] = rng.randbytes(rng.randint(1, 6))
        elif k == 4: del b[i:i + rng.randint(1, 5)]
        elif k == 5: b += b[:rng.randint(1, len(b))]
        elif k == 6: b[1:2] = rng.choice([b"\xff\xff\xff\x7f", b"\xff\xff\xff\xff", b"\x80\x80\x80\x80\x80", b"\x80\x00", b"\x00", b"\x7f", b"\xff\x01", b"\x80\x80\x01", b"\x80\x80\x80\x01"])
        elif k == 7: b[0] = rng.randrange(256)
        elif k == 9:       # some bytes of the end are missing, or there are too many, with the length saying so
            q = 1
            while q < min(len(b), 5) and b[q] & 0x80: q += 1
            body = b[q + 1:]
            c = rng.random()
            if c < .5: body = body[:max(0, len(body) - rng.choice([1, 1, 1, 2, 3, 4]))]
            elif c < .65: body = body[:rng.randint(0, len(body))]
            elif c < .85: body = body[:rng.choice([0, 2, 2, 10, rng.randint(0, len(body))])] + rng.choice([b"\x80", b"\x80", b"\xff", b"\x80\x80", b"\x80\x80\x80"])   # ends within a variable byte integer
            else: body = body + bytes(rng.choice([1, 2, 5]))
            b = bytearray(b[:1] + varint(len(body)) + body)
        elif k == 8 and len(b) > 4: b[i:i + 2] = rng.choice([b"\xff\xff", b"\0\0", b"\0\1", b"\x7f\xff"])
    return bytes(b)


def stream(rng, n, wild, cids=CID):
    """-> list of byte strings. wild 0..1: how much is damaged"""
    out = []
    lvl = int(rng.random() < wild + .2)
    c, ver = connect(rng, lvl if rng.random() < .3 else 0, cids)
    if rng.random() < .08 * (1 + wild): pass
    else: out.append(mutate(rng, c) if rng.random() < wild * .15 else c)
    v = ver if rng.random() < .95 else rng.choice([4, 5])
    for _ in range(n):
        p = packet(rng, v, lvl)
        if rng.random() < wild * .3: p = mutate(rng, p)
        out.append(p)
    if rng.random() < wild * .2: out.append(rng.randbytes(rng.choice([1, 3, 30, 500])))
    return out
