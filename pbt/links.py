"""One MQTT connection over plain, TLS, websocket or TLS+websocket transport, with control over how its bytes are cut up."""
import os, random, ssl, struct, time
import mqtt, ws
from server import Conn, Hang

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
CERT, KEY = DATA + "/cert.pem", DATA + "/key.pem"


def listener(kind, port):
    t = "listen {\n inet_protocol ip4\n inet4_bind_address 127.0.0.1\n port %d\n tcp_nodelay true\n protocol %s\n" % (port, "websockets" if kind in ("ws", "wss") else "mqtt")
    if kind in ("tls", "wss"): t += " fullchain %s\n privkey %s\n" % (CERT, KEY)
    return t + "}\n"


def cuts(rng, n, style, offs=()):
    """-> list of lengths adding up to n"""
    if n <= 0: return []
    if style == "all": return [n]
    pts = set()
    if style == "bytes":
        a = rng.randint(0, max(0, n - 1)) if rng.random() < .5 else 0
        pts |= set(range(a, min(n, a + 90)))
        offs = [o for o in offs if 0 < o < n]
        for o in rng.sample(offs, min(len(offs), 6)): pts |= set(range(max(0, o - 2), min(n, o + 8)))
    elif style == "rand":
        for _ in range(rng.randint(1, 25)): pts.add(rng.randrange(n))
    elif style == "edges":
        for o in offs:
            if rng.random() < .6: pts.add(o + rng.choice([-3, -2, -1, 1, 1, 2, 3, 4, 5]))
    elif style == "pow2":
        k = rng.choice([64, 128, 512, 1024, 1024, 2048, 4096, 8192, 65536]) + rng.choice([-2, -1, 0, 1])
        k = max(k, n // 150)
        pts |= set(range(k, n, k))
    elif style == "groups":
        for o in offs:
            if rng.random() < .3: pts.add(o)
    elif style == "packets":
        pts |= set(offs)
    p = sorted(x for x in pts if 0 < x < n)
    out, last = [], 0
    for x in p + [n]:
        if x > last:
            out.append(x - last)
            last = x
    return out


STYLES = ["all", "bytes", "rand", "rand", "edges", "edges", "pow2", "groups"]


class Link:
    def __init__(self, srv, kind, path=None, rng=None, hs_style="all", port=None):
        self.srv, self.kind = srv, kind
        self.c = Conn(path) if path else Conn(addr=("127.0.0.1", port))
        self.mq = bytearray()       # MQTT bytes received
        self.rng = rng or random.Random(0)
        self.tls = None
        self.ws = None
        self.pongs = []             # payloads the broker must pong
        self.closed_ws = False
        if kind in ("tls", "wss"):
            ctx = ssl.create_default_context(cafile=CERT)
            ctx.check_hostname = False
            self.bin, self.bout = ssl.MemoryBIO(), ssl.MemoryBIO()
            self.tls = ctx.wrap_bio(self.bin, self.bout, server_hostname="localhost")
            end = time.monotonic() + 15
            while True:
                try:
                    self.tls.do_handshake()
                    break
                except ssl.SSLWantReadError:
                    pass
                d = self.bout.read()
                if d: self.put(d, hs_style)
                self.fill()
                if self.c.eof and not self.bin.pending: raise ConnectionError("TLS handshake: connection closed")
                if time.monotonic() > end: raise Hang("TLS handshake does not finish")
                time.sleep(.0005)
            d = self.bout.read()
            if d: self.put(d, hs_style)
        if kind in ("ws", "wss"):
            self.ws = ws.Reader()
            self.raw(ws.request(), hs_style)
            end = time.monotonic() + 15
            while self.ws.http is None and not self.eof:
                self.pump()
                if time.monotonic() > end: raise Hang("no answer to the websocket request")
                time.sleep(.0003)

    @property
    def eof(self):
        return self.c.eof

    def fill(self):
        got = self.c.pump()
        if self.c.buf:
            self.bin.write(bytes(self.c.buf))
            self.c.buf.clear()
        return got

    def put(self, data, style="all", offs=(), settle=.4):
        """bytes onto the wire"""
        p = 0
        for n in cuts(self.rng, len(data), style, offs):
            if not self.c.send(data[p:p + n]): return False
            p += n
            if p < len(data):
                if self.rng.random() < settle: self.srv.quiesce()
                self.pump()
        return True

    def raw(self, data, style="all", offs=(), rec="all", settle=.4):
        """bytes into the TLS layer when there is one"""
        if self.tls is None: return self.put(data, style, offs, settle)
        p, marks, out = 0, [], b""
        for n in cuts(self.rng, len(data), rec, offs):
            while n:
                k = self.tls.write(data[p:p + n])
                n -= k
                p += k
            out += self.bout.read()
            marks.append(len(out))
        return self.put(out, style, marks, settle)

    def send(self, data, style="all", offs=(), rec="all", frm="all", noise=0.0, frag=0.0, settle=.4):
        if self.ws is None: return self.raw(data, style, offs, rec, settle)
        r = self.rng
        out, marks, p = b"", [], 0
        open_ = False
        for n in cuts(r, len(data), frm, offs):
            while r.random() < noise:
                k = r.choice(["ping", "ping", "pong", "empty"])
                d = r.randbytes(r.choice([0, 1, 4, 5, 124, 125]))
                if k == "ping":
                    self.pongs.append(d)
                    out += ws.frame(d, 9, r.randbytes(4))
                elif k == "pong": out += ws.frame(d, 10, r.randbytes(4))
                else: out += ws.frame(b"", 0 if open_ else 2, r.randbytes(4), fin=0 if open_ else 1)
                marks.append(len(out))
            last = p + n >= len(data)
            fin = 1 if last or r.random() >= frag else 0
            out += ws.frame(data[p:p + n], 0 if open_ else 2, r.choice([b"\0\0\0\0", r.randbytes(4)]), fin=fin)
            open_ = not fin
            p += n
            marks.append(len(out))
        return self.raw(out, style, marks, rec, settle)

    def pump(self):
        if self.tls is None:
            got = self.c.pump()
            data = bytes(self.c.buf)
            self.c.buf.clear()
        else:
            got = self.fill()
            data = b""
            while True:
                try:
                    d = self.tls.read(65536)
                except ssl.SSLWantReadError:
                    break
                except ssl.SSLZeroReturnError:
                    break
                except ssl.SSLError as e:
                    if self.c.eof: break
                    raise
                if not d: break
                data += d
            o = self.bout.read()
            if o: self.c.send(o)
        if self.ws is not None:
            self.ws.feed(data)
            self.mq += self.ws.data
            self.ws.data.clear()
        else:
            self.mq += data
        return got

    def close(self):
        self.c.close()
