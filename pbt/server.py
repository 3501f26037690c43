"""Runs one FlashMQ process in its own scratch directory, with a harness-controlled clock and a quiescence signal."""
import fcntl, mmap, os, shutil, signal, socket, struct, subprocess, tempfile, time

SH_BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
T0 = 1_700_000_000  # virtual epoch
(S_ENABLE, S_REAL, S_MONO, S_TICK, S_CAP, S_ACT, S_NTHR, S_IOCNT, S_IOFAIL, S_IOMODE, S_IODONE) = range(11)
S_ENTRIES = 64
S_DIRTY, S_DIRTYMAX = 1200, 400


class ServerDied(Exception):
    """The process ended by itself: crash (signal / sanitizer) or unexpected exit."""


class Inconclusive(Exception):
    """The harness could not get an answer (time limits); never a violation."""


class Hang(Inconclusive):
    pass


class Server:
    def __init__(self, exe, config="", threads=1, frozen=True, listeners=None, shim=True, env=None, tcp=False, name="s", ports=0,
                 iodir=False, start=True, cap_us=300, root=None, extra_args=(), t0=T0):
        self.exe, self.threads, self.shim = exe, threads, shim
        self.own_root = root is None
        self.t0 = t0
        self.dir = root or tempfile.mkdtemp(prefix="fq.", dir=SH_BASE)
        self.sock = self.dir + "/" + name
        self.storage = self.dir + "/store"
        os.makedirs(self.storage, exist_ok=True)
        self.log = self.dir + "/" + name + ".log"
        self.name = name
        self.proc = None
        self.env_extra = env or {}
        self.extra_args = list(extra_args)
        self.config_text = config
        self.listeners = listeners
        self.conf = self.dir + "/" + name + ".conf"
        self.shmf = self.dir + "/" + name + ".shm"
        with open(self.shmf, "wb") as f:
            f.write(b"\0" * 16384)
        self._f = open(self.shmf, "r+b")
        self.m = mmap.mmap(self._f.fileno(), 16384)
        self.q = memoryview(self.m).cast("q")       # single 8 byte loads and stores; struct.pack_into would clear the bytes first
        self.iodir = iodir
        self.frozen = frozen
        self.set(S_IOFAIL, -1)
        self.set(S_CAP, cap_us)
        self.set(S_ENABLE, 1 if frozen else 0)
        self.set(S_REAL, t0 * 10**9)
        self.set(S_MONO, 100_000 * 10**9)
        self.write_config(config)
        if start:
            self.start()

    # --- shared memory ---
    def get(self, i):
        return self.q[i]

    def set(self, i, v):
        self.q[i] = v

    @property
    def now(self):
        """virtual milliseconds since start of the case"""
        return self.get(S_REAL) // 10**6 - self.t0 * 1000

    def step_clock(self, ms):
        self.set(S_REAL, self.get(S_REAL) + ms * 10**6)
        self.set(S_MONO, self.get(S_MONO) + ms * 10**6)

    # --- configuration / life cycle ---
    def write_config(self, text):
        t = text.replace("@DIR@", self.dir)
        lst = self.listeners
        if lst is None:
            lst = "listen {\n protocol mqtt\n inet_protocol unix\n unix_socket_path @SOCK@\n}\n"
        t += "\n" + lst.replace("@SOCK@", self.sock).replace("@DIR@", self.dir)
        if "log_file" not in t: t += f"\nlog_file {self.log}\n"
        if "\nlog_level" not in t and "log_debug" not in t: t += "log_level warning\n"
        if "\nthread_count" not in t: t += f"thread_count {self.threads}\n"
        if "\nallow_anonymous" not in t: t += "allow_anonymous true\n"
        self.config_text = text
        with open(self.conf, "w") as f:
            f.write(t)

    def start(self, wait=True, timeout=20):
        env = dict(os.environ, HOME=self.dir, **self.env_extra)
        if self.shim:
            env["FMQ_SHIM"] = self.shmf
            if self.iodir: env["FMQ_SHIM_IODIR"] = self.storage
        env.setdefault("ASAN_OPTIONS", "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096")
        env.setdefault("UBSAN_OPTIONS", "halt_on_error=1:abort_on_error=1:print_stacktrace=1")
        for i in range(64):
            self.set(S_ENTRIES + i, 0)
        self.set(S_NTHR, 0)
        self.set(S_IOCNT, 0)
        self.set(S_IODONE, 0)
        for i in range(S_DIRTYMAX if self.iodir else 0):
            self.set(S_DIRTY + i, 0)
        try:
            os.unlink(self.sock)
        except OSError:
            pass
        self.err = open(self.dir + "/" + self.name + ".err", "ab")
        self.proc = subprocess.Popen([self.exe, "-c", self.conf, *self.extra_args], env=env, cwd=self.dir, stdin=subprocess.DEVNULL,
                                     stdout=self.err, stderr=self.err, start_new_session=True)
        if wait:
            self.wait_ready(timeout)

    def wait_ready(self, timeout=20):
        end = time.monotonic() + timeout
        while True:
            if self.proc.poll() is not None:
                if "Address already in use" in self.tail(): raise Inconclusive("port taken")
                raise ServerDied("server exited during start with %s: %s" % (self.proc.returncode, self.tail()))
            if not self.shim or self.get(S_NTHR) >= self.threads + 1:
                if "@SOCK@" not in (self.listeners or "@SOCK@"):
                    return
                s = socket.socket(socket.AF_UNIX)
                try:
                    s.connect(self.sock)
                    s.close()
                    return
                except OSError:
                    s.close()
            if time.monotonic() > end:
                raise Inconclusive("server did not start in %ss: %s" % (timeout, self.tail()))
            time.sleep(0.0005)

    def tail(self, n=1500):
        out = ""
        for f in (self.dir + "/" + self.name + ".err", self.log):
            try:
                with open(f, "rb") as h:
                    d = h.read()
                if "Sanitizer" in d.decode("latin1") or "runtime error" in d.decode("latin1"):
                    i = max(d.find(b"ERROR: "), d.find(b"runtime error"))
                    out += d[max(0, i - 200):i + 2500].decode("latin1")
                else:
                    out += d[-n:].decode("latin1")
            except OSError:
                pass
        return out

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def check_alive(self):
        if self.proc.poll() is not None:
            raise ServerDied("server process ended unexpectedly (status %s): %s" % (self.proc.returncode, self.tail()))

    def quiesce(self, timeout=20, clock=False):
        """Return when every event loop has gone round idle: nothing the clients sent or a timer queued is left."""
        if not self.shim:
            time.sleep(0.03)
            self.check_alive()
            return
        end = time.monotonic() + timeout
        n = self.get(S_NTHR)
        if n == 0:
            time.sleep(0.03)
            self.check_alive()
            return
        n = min(n, 64)
        first = True
        spins = 0
        while True:
            act = self.get(S_ACT)
            ok = True
            for need in (4 if (clock and first) else 3, 2):
                e0 = self.q[S_ENTRIES:S_ENTRIES + n].tolist()
                while True:
                    e1 = self.q[S_ENTRIES:S_ENTRIES + n].tolist()
                    if all(b - a >= need for a, b in zip(e0, e1)):
                        break
                    spins += 1
                    if spins % 256 == 0:
                        self.check_alive()
                        if time.monotonic() > end:
                            raise Hang("server did not become idle in %ss" % timeout)
                    time.sleep(0.0002)
                if self.get(S_ACT) != act:
                    ok = False
                    break
            first = False
            if ok:
                break
            if time.monotonic() > end:
                raise Hang("server stayed busy for %ss" % timeout)
        if spins > 200: self.check_alive()

    def signal(self, sig):
        self.proc.send_signal(sig)

    def stop(self, timeout=40):
        """Clean shutdown."""
        self.check_alive()
        self.proc.send_signal(signal.SIGTERM)
        try:
            rc = self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            raise Hang("server did not stop in %ss" % timeout)
        self.err.close()
        if rc != 0:
            raise ServerDied("server exit status %s at shutdown: %s" % (rc, self.tail()))

    def kill(self):
        if self.proc and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()
        if self.proc and not self.err.closed:
            self.err.close()

    def close(self):
        self.kill()
        try:
            self.q.release()
            self.m.close()
            self._f.close()
        except Exception:
            pass
        if self.own_root and self.dir.startswith(SH_BASE + "/fq."):
            shutil.rmtree(self.dir, ignore_errors=True)


_block = {}


def free_port():
    """A TCP port nobody listens on, from a block of ports which this process holds (FlashMQ shares ports, so others must be kept away)."""
    me = os.getpid()
    if me not in _block:
        _block.clear()
        for i in range(64):
            n = (me + i) % 64
            l = socket.socket(socket.AF_UNIX)
            try:
                l.bind("\0fmq-ports-%d" % n)
            except OSError:
                l.close()
                continue
            _block[me] = [l, 11000 + n * 320, 0]     # below the ephemeral range
            break
        else:
            raise Inconclusive("no free block of ports")
    b = _block[me]
    for _ in range(320):
        b[2] = (b[2] + 1) % 320
        p = b[1] + b[2]
        ok = True
        for fam, a in ((socket.AF_INET, "127.0.0.1"), (socket.AF_INET6, "::1")):
            try:
                t = socket.socket(fam)
            except OSError:
                continue
            try:
                t.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                t.bind((a, p))
            except OSError as e:
                if e.errno != 99: ok = False
            t.close()
        if ok: return p
    raise Inconclusive("no free port")


class Conn:
    """A raw connection with packet framing; non-blocking."""
    def __init__(self, path=None, addr=None, source=None):
        if path:
            self.s = socket.socket(socket.AF_UNIX)
            self.s.connect(path)
        else:
            self.s = socket.socket(socket.AF_INET6 if ":" in addr[0] else socket.AF_INET)
            self.s.settimeout(10)
            if source: self.s.bind((source, 0))
            self.s.connect(addr)
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.tcp = path is None
        self.s.setblocking(False)
        self.buf = bytearray()
        self.eof = False
        self.reset = False

    def send(self, data, srv=None):
        """Send everything; while the server's buffer is full, read so that it can go on."""
        mv = memoryview(data)
        end = time.monotonic() + 20
        while mv:
            try:
                n = self.s.send(mv)
                mv = mv[n:]
            except BlockingIOError:
                self.pump()
                time.sleep(0.0005)
                if time.monotonic() > end:
                    raise Hang("server does not read")
            except (BrokenPipeError, ConnectionResetError):
                return False
        return True

    def inflight(self):
        """TCP: bytes still in either side's send buffer"""
        if not self.tcp or self.eof: return False
        try:
            if struct.unpack("i", fcntl.ioctl(self.s, 0x5411, b"\0\0\0\0"))[0]: return True         # SIOCOUTQ
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
            (_, a), (_, b) = self.s.getsockname()[:2], self.s.getpeername()[:2]
            key = ("%04X" % b, "%04X" % a)
            for fn in ("/proc/net/tcp6",) if self.s.family == socket.AF_INET6 else ("/proc/net/tcp",):
                for l in open(fn):
                    f = l.split()
                    if f[1][-4:] == key[0] and f[2][-4:] == key[1] and f[3] == "01" and not f[4].startswith("00000000"): return True
        except OSError:
            pass
        return False

    def pump(self):
        """Read whatever is there; True when something (or EOF) came."""
        got = False
        if self.eof:
            return False
        while True:
            try:
                d = self.s.recv(1 << 18)
            except BlockingIOError:
                return got
            except (ConnectionResetError, BrokenPipeError):
                self.eof = self.reset = True
                return True
            if not d:
                self.eof = True
                return True
            self.buf += d
            got = True

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass
        self.eof = True
