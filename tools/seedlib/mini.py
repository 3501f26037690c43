"""Small blocking MQTT client and broker starter for the demonstrations (real clock, loopback TCP, scratch directory)."""
import os, random, select, shutil, signal, socket, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mqtt

EXE = "/repo/_build/flashmq/flashmq"


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Broker:
    def __init__(self, config="", listen="", threads=1, port=None, storage=False, files=()):
        self.dir = tempfile.mkdtemp(prefix="fqdemo.")
        self.port = port or free_port()
        for name, text in files:
            with open(self.dir + "/" + name, "w") as f: f.write(text)
        self.conf = self.dir + "/f.conf"
        self.listen = listen
        self.threads = threads
        if storage:
            os.mkdir(self.dir + "/st")
            config += "\nstorage_dir %s/st\n" % self.dir
        self.write(config)
        self.proc = None
        self.start()

    def write(self, config):
        config = config.replace("@DIR@", self.dir)
        with open(self.conf, "w") as f:
            f.write("log_file %s/log\nthread_count %d\n%s%s\nlisten {\n protocol mqtt\n port %d\n inet_protocol ip4\n inet4_bind_address 127.0.0.1\n%s\n}\n" % (
                self.dir, self.threads, "" if "allow_anonymous" in config else "allow_anonymous true\n", config, self.port, self.listen))

    def start(self):
        self.proc = subprocess.Popen([EXE, "-c", self.conf], cwd=self.dir, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        for _ in range(400):
            if self.proc.poll() is not None: raise RuntimeError("broker did not start: " + self.log())
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                return
            except OSError:
                time.sleep(.025)
        raise RuntimeError("broker did not start")

    def log(self):
        try: return open(self.dir + "/log").read()[-2000:]
        except OSError: return ""

    def stop(self, sig=signal.SIGTERM):
        if self.proc and self.proc.poll() is None:
            self.proc.send_signal(sig)
            try: self.proc.wait(20)
            except subprocess.TimeoutExpired:
                self.proc.kill(); self.proc.wait()

    def restart(self, pause=0):
        self.stop()
        time.sleep(pause)
        self.start()

    def client(self, cid="", **kw):
        return Client(self.port, cid, **kw)

    def close(self):
        self.stop(signal.SIGKILL)
        shutil.rmtree(self.dir, ignore_errors=True)


class Client:
    def __init__(self, port, cid="", ver=5, clean=True, keepalive=0, user=None, pw=None, will=None, props=None, auto=True, expect=0, connect=True):
        self.ver, self.auto, self.eof = ver, auto, False
        self.buf, self.inbox, self.msgs, self.other = bytearray(), [], [], []
        self.pid = 0
        self.s = socket.create_connection(("127.0.0.1", port), 10)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.connack = None
        if connect:
            self.send(mqtt.connect(cid, ver, clean, keepalive, user, pw, will, props))
            self.connack = self.wait(mqtt.CONNACK, 10)
            if expect is not None and (self.connack is None or self.connack.rc != expect):
                raise RuntimeError("connect of %r: %s" % (cid, self.connack))

    def send(self, data):
        try: self.s.sendall(data)
        except OSError: self.eof = True

    def poll(self, t):
        r, _, _ = select.select([self.s], [], [], max(0, t))
        if not r: return False
        try: d = self.s.recv(65536)
        except OSError: d = b""
        if not d:
            self.eof = True
            return False
        self.buf += d
        for f, b in mqtt.split(self.buf):
            p = mqtt.decode(f, b, self.ver)
            if p.t == mqtt.PUBLISH:
                self.msgs.append(p)
                if self.auto and p.qos: self.send(mqtt.ack(mqtt.PUBACK if p.qos == 1 else mqtt.PUBREC, p.pid, self.ver))
            else:
                if p.t == mqtt.PUBREL and self.auto: self.send(mqtt.ack(mqtt.PUBCOMP, p.pid, self.ver))
                elif p.t == mqtt.PUBREC and self.auto: self.send(mqtt.ack(mqtt.PUBREL, p.pid, self.ver))
                self.inbox.append(p)
        return True

    def wait(self, kind, t=10, pid=None):
        end = time.monotonic() + t
        while True:
            for i, p in enumerate(self.inbox):
                if p.t == kind and (pid is None or p.pid == pid): return self.inbox.pop(i)
            left = end - time.monotonic()
            if left <= 0 or self.eof: return None
            self.poll(left)

    def collect(self, t=.6):
        """Everything that arrives until nothing came for t seconds; the messages received so far are returned and forgotten."""
        end = time.monotonic() + t
        while not self.eof:
            if self.poll(end - time.monotonic()): end = time.monotonic() + t
            elif time.monotonic() >= end: break
        m, self.msgs = self.msgs, []
        return m

    def next(self, t=5):
        """The next message, or None."""
        end = time.monotonic() + t
        while not self.msgs and not self.eof and time.monotonic() < end: self.poll(end - time.monotonic())
        return self.msgs.pop(0) if self.msgs else None

    def nid(self):
        self.pid = self.pid % 65535 + 1
        return self.pid

    def sub(self, *subs, props=None):
        """subs: filters or (filter, options)"""
        i = self.nid()
        self.send(mqtt.subscribe(self.ver, i, [s if isinstance(s, tuple) else (s, 0) for s in subs], props))
        r = self.wait(mqtt.SUBACK, 10, i)
        if r is None: raise RuntimeError("no SUBACK")
        return r

    def unsub(self, *f):
        i = self.nid()
        self.send(mqtt.unsubscribe(self.ver, i, list(f)))
        if self.wait(mqtt.UNSUBACK, 10, i) is None: raise RuntimeError("no UNSUBACK")

    def pub(self, topic, payload=b"", qos=0, retain=False, props=None, wait=True):
        i = self.nid() if qos else 0
        self.send(mqtt.publish(self.ver, topic, payload, qos, retain, i, False, props))
        if qos == 1 and wait: return self.wait(mqtt.PUBACK, 10, i)
        if qos == 2 and wait: return self.wait(mqtt.PUBCOMP if self.auto else mqtt.PUBREC, 10, i)

    def ping(self):
        """After this, everything sent before has been processed for this connection."""
        self.send(mqtt.pingreq())
        return self.wait(mqtt.PINGRESP, 10)

    def disconnect(self, reason=None, props=None):
        self.send(mqtt.disconnect(self.ver, reason, props))
        end = time.monotonic() + 5
        while not self.eof and time.monotonic() < end: self.poll(.5)
        self.s.close()

    def drop(self):
        self.s.close()


def demo(f):
    """Exit status 0: as the property says; 1: not."""
    made = []
    orig = Broker.__init__

    def init(self, *a, **k):
        made.append(self)
        orig(self, *a, **k)
    Broker.__init__ = init
    try:
        bad = f()
    finally:
        for b in made:
            if getattr(b, "proc", None) is not None: b.close()
            else: shutil.rmtree(getattr(b, "dir", "/nonexistent-fqdemo"), ignore_errors=True)
    if bad:
        print("PROPERTY BROKEN:", bad)
        sys.exit(1)
    print("ok")
    sys.exit(0)
