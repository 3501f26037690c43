"""Websocket client side: upgrade request and framing, written from RFC 6455."""
import base64, hashlib, struct

GUID = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11"


def request(key=b"dGhlIHNhbXBsZSBub25jZQ==", path="/mqtt", proto="mqtt", extra=(), upgrade="websocket", connection="Upgrade", version="13", host="localhost", order=None, nl="\r\n"):
    h = []
    if host is not None: h.append(("Host", host))
    if upgrade is not None: h.append(("Upgrade", upgrade))
    if connection is not None: h.append(("Connection", connection))
    if key is not None: h.append(("Sec-WebSocket-Key", key.decode("latin1")))
    if proto is not None: h.append(("Sec-WebSocket-Protocol", proto))
    if version is not None: h.append(("Sec-WebSocket-Version", version))
    h += list(extra)
    if order: h = [h[i] for i in order if i < len(h)] + [x for i, x in enumerate(h) if i not in order]
    return ("GET %s HTTP/1.1%s" % (path, nl) + "".join("%s: %s%s" % (a, b, nl) for a, b in h) + nl).encode("utf-8")


def accept_of(key=b"dGhlIHNhbXBsZSBub25jZQ=="):
    return base64.b64encode(hashlib.sha1(key + GUID).digest())


def mask(data, key):
    if not data: return b""
    n = len(data)
    k = (key * (n // 4 + 1))[:n]
    return (int.from_bytes(data, "big") ^ int.from_bytes(k, "big")).to_bytes(n, "big")


def frame(data, op=2, key=b"\1\2\3\4", fin=1, rsv=0, enc=None, masked=True):
    """enc: force the length encoding 7, 16 or 64"""
    n = len(data)
    m = 0x80 if masked else 0
    e = enc or (7 if n < 126 else 16 if n < 65536 else 64)
    h = bytes([(fin << 7) | (rsv << 4) | op])
    if e == 7: h += bytes([m | n])
    elif e == 16: h += bytes([m | 126]) + struct.pack(">H", n)
    else: h += bytes([m | 127]) + struct.pack(">Q", n)
    return h + (key + mask(data, key) if masked else data)


class Bad(Exception):
    pass


class Reader:
    """Takes the broker's bytes: HTTP answer, then frames. Yields ('http', text), (opcode, data)."""
    def __init__(self):
        self.buf = bytearray()
        self.http = None
        self.frames = []
        self.data = bytearray()     # MQTT bytes
        self.mid = False

    def feed(self, d):
        self.buf += d
        if self.http is None:
            i = self.buf.find(b"\r\n\r\n")
            if i < 0: return
            self.http = bytes(self.buf[:i + 4]).decode("latin1")
            del self.buf[:i + 4]
        if not self.http.startswith("HTTP/1.1 101"): return
        while True:
            b = self.buf
            if len(b) < 2: return
            n, p = b[1] & 0x7F, 2
            if b[1] & 0x80: raise Bad("masked frame from the server")
            if b[0] & 0x70: raise Bad("reserved bits set: %02x" % b[0])
            if n == 126:
                if len(b) < 4: return
                n, p = struct.unpack(">H", b[2:4])[0], 4
                if n < 126: raise Bad("length %d not in its shortest form" % n)
            elif n == 127:
                if len(b) < 10: return
                n, p = struct.unpack(">Q", b[2:10])[0], 10
                if n < 65536: raise Bad("length %d not in its shortest form" % n)
            if len(b) < p + n: return
            op, fin, d = b[0] & 15, b[0] >> 7, bytes(b[p:p + n])
            del self.buf[:p + n]
            self.frames.append((op, d))
            if op >= 8:
                if not fin or n > 125: raise Bad("bad control frame %x of %d bytes" % (op, n))
                if op not in (8, 9, 10): raise Bad("unknown opcode %x" % op)
            else:
                if op not in (0, 2): raise Bad("opcode %x from the server" % op)
                if (op == 0) != self.mid: raise Bad("continuation frame out of place")
                self.mid = not fin
                self.data += d

    def subprotocol(self):
        for l in (self.http or "").split("\r\n"):
            if l.lower().startswith("sec-websocket-protocol:"): return l.split(":", 1)[1].strip()
        return None

    def accept(self):
        for l in (self.http or "").split("\r\n"):
            if l.lower().startswith("sec-websocket-accept:"): return l.split(":", 1)[1].strip()
        return None
