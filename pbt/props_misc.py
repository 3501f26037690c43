"""C01: the configuration takes effect as written, wrong ones are refused, and reloads do not disturb."""
import base64, hashlib, ipaddress, os, random, shutil, signal, socket, ssl, stat, subprocess, tempfile, time
import mqtt, confgen
from mqtt import *
from runner import Check
from server import Server, Conn, ServerDied, Inconclusive, Hang, SH_BASE, free_port
from world import Violation
from links import CERT, KEY

# ---------------------------------------------------------------- the configuration test mode


def write_files(d, it):
    for x in it["dirs"]: os.makedirs(d + "/" + x, exist_ok=True)
    for k, t in it["files"].items():
        with open(d + "/" + k, "wb") as f: f.write(t.replace("@DIR@", d).encode("utf-8", "surrogateescape") if isinstance(t, str) else t)


def show(it):
    t = "\n".join("--- %s\n%s" % (k, v if len(v) < 1500 else v[:1500] + "...") for k, v in it["files"].items() if k.endswith(".conf"))
    return "\nfiles:\n" + t


def run_exe(exe, d, args, timeout=25):
    env = dict(os.environ, HOME=d, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")
    p = subprocess.Popen([exe, *args, "-c", d + "/main.conf"], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        return None, ""
    return p.returncode, (o + e).decode("latin1")


def run_parse(exes, case, st):
    exe = exes.get(case.get("exe", "rel")) or exes["rel"]
    for it in case["items"]:
        d = tempfile.mkdtemp(prefix="fq.", dir=SH_BASE)
        try:
            write_files(d, it)
            rc, out = run_exe(exe, d, ["-t"])
            if rc is None: raise Hang("the configuration test does not end" + show(it))
            bad = it["bad"]
            if rc < 0 or rc > 125 or "Sanitizer" in out: raise Violation("crash", "the configuration test ended with status %s (%s): %s%s" % (rc, bad, out[-1500:], show(it)))
            if bad == "?":
                st["mutated"] = st.get("mutated", 0) + 1
                st["mutated_bad"] = st.get("mutated_bad", 0) + (rc != 0)
                continue
            if bad is None and rc: raise Violation("refused", "a valid configuration is refused with status %d: %s%s" % (rc, out[-600:], show(it)))
            if bad and not rc: raise Violation("accepted", "a configuration with %s passes the configuration test%s" % (bad, show(it)))
            if bad and len(out.strip()) < 4: raise Violation("silent", "a configuration with %s is refused without any message%s" % (bad, show(it)))
            st["bad" if bad else "good"] = st.get("bad" if bad else "good", 0) + 1
            if bad and it.get("start"):
                rc, out = run_exe(exe, d, [], 30)
                if rc is None: raise Violation("started", "the broker starts with a configuration with %s%s" % (bad, show(it)))
                if rc <= 0 or rc > 125: raise Violation("crash", "starting with %s: status %s: %s%s" % (bad, rc, out[-800:], show(it)))
                st["bad_start"] = st.get("bad_start", 0) + 1
        finally:
            shutil.rmtree(d, ignore_errors=True)
    st["sample"] = [dict(bad=i["bad"], conf=i["files"]["main.conf"][:300]) for i in case["items"][:3]]


def gen_parse(rng):
    items = []
    for _ in range(10):
        x = rng.random()
        it = confgen.gen_conf(rng, x < .62)
        if x < .5: it["start"] = rng.random() < .2 and it["bad"] != "line too long"
        if x > .9:
            names = [k for k in it["files"] if k.endswith(".conf")]
            k = rng.choice(names)
            t = it["files"][k]
            for _ in range(rng.randint(1, 4)):
                i = rng.randint(0, len(t))
                j = min(len(t), i + rng.choice([0, 1, 1, 2, 8, 40]))
                t = t[:i] + rng.choice(["", "", "{", "}", "\"", "\\", "\n", " ", "\0", "\x80".encode("latin1").decode("latin1"), "x" * 300, t[i:j] * 2, "include_dir ", "-", "9" * 30, "listen {\n", "#"]) + t[j:]
            it["files"][k] = t
            it["bad"] = "?"
        items.append(it)
    return dict(kind="parse", items=items, exe="asan" if rng.random() < .25 else "rel")


# ---------------------------------------------------------------- effects on a running broker

DEF = dict(allow_anonymous=True, zero_byte_username_is_anonymous=False, allow_unsafe_clientid_chars=False, allow_unsafe_username_chars=False, max_packet_size=268435455, max_qos=2,
           mqtt3_qos_exceed_action="disconnect", max_qos_msg_pending_per_client=512, max_incoming_topic_alias_value=65535, max_outgoing_topic_alias_value=65535, wills_enabled=True,
           retained_messages_mode="enabled", expire_retained_messages_after_seconds=None, retained_message_max_payload_size=None, subscription_identifiers_enabled=True,
           minimum_wildcard_subscription_depth=0, wildcard_subscription_deny_mode="deny_all", max_topic_split_depth=128, max_string_length=4096, expire_sessions_after_seconds=1209600,
           shared_subscription_targeting="round_robin", log_level="info", log_publishes=False, log_subscriptions=False, quiet=None, log_debug=None)
LEVELS = ["debug", "info", "notice", "warning", "error", "none"]
YES, NO = ["yes", "true", "on", "True", "YES"], ["no", "false", "off", "oFF"]


def gen_settings(rng):
    g = {}
    pick = lambda k, *v: g.__setitem__(k, rng.choice(v)) if rng.random() < .45 else None
    for k in ("allow_anonymous", "zero_byte_username_is_anonymous", "allow_unsafe_clientid_chars", "allow_unsafe_username_chars", "wills_enabled", "subscription_identifiers_enabled", "log_publishes", "log_subscriptions"):
        pick(k, True, False)
    pick("max_packet_size", 4096, 5000, 20000, 268435455)
    pick("max_qos", 0, 1, 2)
    pick("mqtt3_qos_exceed_action", "drop", "disconnect")
    pick("max_qos_msg_pending_per_client", 32, 100, 65535)
    pick("max_incoming_topic_alias_value", 0, 1, 7, 65535)
    pick("max_outgoing_topic_alias_value", 0, 1, 3, 65535)
    pick("retained_messages_mode", "enabled", "enabled_without_persistence", "enabled_without_retaining", "downgrade", "drop", "disconnect_with_error")
    pick("expire_retained_messages_after_seconds", 1, 100, 86400, 2**32 - 1)
    pick("retained_message_max_payload_size", 1, 10, 1000)
    pick("minimum_wildcard_subscription_depth", 0, 1, 2, 3)
    pick("wildcard_subscription_deny_mode", "deny_all", "deny_retained_only")
    pick("max_topic_split_depth", 5, 8, 20, 300)
    pick("max_string_length", 40, 100, 1000, 65535)
    pick("expire_sessions_after_seconds", 0, 60, 3600)
    pick("shared_subscription_targeting", "round_robin", "sender_hash", "first")
    pick("log_level", *LEVELS)
    if rng.random() < .1: g["quiet"] = rng.random() < .5
    if rng.random() < .1: g["log_debug"] = rng.random() < .5
    return g


LKINDS = ["tcp", "tcp", "tls", "ws", "unix", "acme", "redirect"]


def gen_listener(rng, n):
    l = dict(kind=rng.choice(LKINDS), n=n, addr=rng.choice(["127.0.0.1", "127.0.0.1", "127.0.0.2", "", "::1"]))
    if rng.random() < .4: l["allow_anonymous"] = rng.random() < .5
    if rng.random() < .4: l["max_qos"] = rng.choice([0, 1, 2])
    if rng.random() < .4: l["mqtt3_qos_exceed_action"] = rng.choice(["drop", "disconnect"])
    if l["kind"] == "tls" and rng.random() < .7: l["minimum_tls_version"] = rng.choice(["tlsv1.1", "tlsv1.2", "tlsv1.3", "tlsv1.3"])
    if l["kind"] == "unix":
        l["unix_socket_mode"] = rng.choice(["600", "0660", "777", "640"])
        l["name"] = rng.choice(["l%d.sock", "l%d.sock", "l%d .s", "l%d\".s", "it's %d", "back\\%d", "#%d\\\"'", "\u00e9%d", "{%d}", "a=%d;"]) % n
    if l["kind"] in ("acme", "redirect"): l["acme_redirect_url"] = rng.choice(["http://acme.example:81", "https://x.example/sub"])
    if l["kind"] in ("tcp", "tls", "ws") and rng.random() < .25: l["net"] = rng.choice([["only_allow_from", "127.0.0.0/30"], ["deny_from", "127.0.0.8/29"], ["only_allow_from", "127.0.0.9"], ["deny_from", "127.0.0.9/32"]])
    return l


def gen_conf_effect(rng, old=None):
    g = gen_settings(rng)
    if old and rng.random() < .6:
        g = dict(old["g"])
        new = gen_settings(rng)
        for k in rng.sample(list(new), min(len(new), rng.randint(1, 4))): g[k] = new[k]
        for k in rng.sample(list(g), min(len(g), rng.randint(0, 2))): del g[k]
    ls = []
    if old and rng.random() < .7:
        ls = [dict(l) for l in old["l"] if rng.random() < .8]
        for l in ls:
            if rng.random() < .3:
                for k in ("allow_anonymous", "max_qos"):
                    if k in l and rng.random() < .5: del l[k]
                    elif rng.random() < .5: l[k] = rng.choice([0, 1, 2]) if k == "max_qos" else rng.random() < .5
    while len(ls) < rng.randint(1, 3):
        n = rng.randint(0, 4)
        if all(l["n"] != n for l in ls): ls.append(gen_listener(rng, n))
    base = {}
    if rng.random() < .25: base["allow_anonymous"] = True
    if rng.random() < .2: base["max_qos"] = rng.choice([0, 1, 2])
    return dict(g=g, l=ls, base=base)


PROBES = ["connack", "connack", "anon", "unsafe", "pubqos", "pubqos", "subqos", "will", "retain", "retain", "subid", "wild", "wild", "depth", "strlen", "packet", "log", "log", "shared", "alias", "aliasin",
          "listeners", "listeners", "msg", "session"]


def gen_probe(rng):
    k = rng.choice(PROBES)
    p = dict(o="probe", k=k, l=rng.randint(-2, 4), ver=rng.choice([3, 4, 5, 5]), x=rng.randint(0, 10**6))
    return p


def gen_effect(rng):
    c = gen_conf_effect(rng)
    ops = []
    cur = c
    for _ in range(rng.randint(10, 18)):
        r = rng.random()
        if r < .2:
            cur = gen_conf_effect(rng, cur)
            ops.append(dict(o="reload", c=cur, racing=rng.random() < .3))
        elif r < .3:
            g = confgen.ConfGen(rng)
            t = []
            d = g.defect(t)
            ops.append(dict(o="badreload", c=gen_conf_effect(rng, cur), text="\n".join(g.text(t)) + "\n", files=g.files, dirs=g.dirs, bad=d, first=rng.random() < .5 and d not in ("unbalanced braces",)))
        else: ops.append(gen_probe(rng))
    return dict(kind="effect", c=c, ops=ops, threads=rng.randint(1, 2), seed=rng.randint(0, 10**6))


def onoff(rng, b): return rng.choice(YES if b else NO)


def fmt(rng, v):
    v = str(v)
    return rng.choice([v, v, '"%s"' % v, "'%s'" % v])


def upath(srv, l): return srv.dir + "/" + l.get("name", "l%d.sock" % l["n"])


class Cl:
    """One client connection of any transport, read until quiet."""
    def __init__(self, ef, l, ver, cid="", user=None, clean=True, will=None, props=None, send=True, ka=60, pw=None):
        self.ef, self.ver, self.got = ef, ver, []
        self.alias = {}
        self.link = ef.link(l)
        ef.conns.append(self)
        if send:
            if ver >= 5 and props is None: props = []
            if will is not None and ver < 5: will = {k: v for k, v in will.items() if k != "props"}
            self.link.send(mqtt.connect(cid, ver, clean, ka, user, pw, will, props))
            self.read()

    def read(self):
        self.ef.settle(self)
        try:
            for f, b in mqtt.split(self.link.mq):
                p = mqtt.decode(f, b, self.ver)
                if p.t == PUBLISH:
                    a = p.props.get("alias")
                    p["wire_alias"], p["wire_topic"] = a, p.topic
                    if a is not None:
                        if p.topic: self.alias[a] = p.topic
                        else: p["topic"] = self.alias.get(a, "?unknown alias?")
                    if p.qos == 1: self.link.send(mqtt.ack(PUBACK, p.pid, self.ver))
                    if p.qos == 2: self.link.send(mqtt.ack(PUBREC, p.pid, self.ver))
                if p.t == PUBREL: self.link.send(mqtt.ack(PUBCOMP, p.pid, self.ver))
                if p.t == PUBREC: self.link.send(mqtt.ack(PUBREL, p.pid, self.ver))
                self.got.append(p)
        except mqtt.Malformed as e:
            raise Violation("wire", "malformed packet: %s" % e)

    def take(self):
        self.read()
        self.read()
        r, self.got = self.got, []
        return r

    def send(self, *b):
        for x in b: self.link.send(x)

    @property
    def eof(self): return self.link.eof

    def close(self, clean=True):
        if clean and not self.eof: self.link.send(mqtt.disconnect(self.ver))
        self.link.close()


class Effect:
    def __init__(self, exe, case, st):
        self.case, self.st, self.rng = case, st, random.Random(case["seed"])
        self.conns = []
        self.ports = {n: free_port() for n in range(5)}
        self.srv = Server(exe, threads=case["threads"], start=False, listeners="")
        self.conf = case["c"]
        self.pwfile = self.srv.dir + "/pw"
        salt = b"saltsaltsalt"
        with open(self.pwfile, "w") as f: f.write("probe:$7$1$%s$%s\n" % (base64.b64encode(salt).decode(), base64.b64encode(hashlib.pbkdf2_hmac("sha512", b"pw", salt, 1)).decode()))
        self.write(case["c"])
        self.srv.start(wait=False)
        self.up()
        self.trace = []
        self.seq = 0

    def up(self):
        end = time.monotonic() + 20
        while True:
            self.srv.check_alive()
            if self.srv.get(6) >= self.srv.threads + 1:
                try:
                    c = Conn(self.srv.sock)
                    c.close()
                    return
                except OSError: pass
            if time.monotonic() > end: raise Inconclusive("server did not start: " + self.srv.tail())
            time.sleep(.001)

    def close(self):
        for c in self.conns: c.link.close()
        self.srv.close()

    def bad(self, kind, text):
        c = self.conf
        raise Violation(kind, "%s\nconfiguration in force: global %s, base listener %s, listeners %s\nhistory: %s" % (text, c["g"], c["base"], c["l"], "; ".join(self.trace[-12:])))

    def stat(self, k, n=1): self.st[k] = self.st.get(k, 0) + n

    # --- configuration file
    def listener_text(self, l):
        r = self.rng
        o = []
        k = l["kind"]
        o.append(("protocol", {"ws": "websockets", "acme": "acme"}.get(k, "mqtt")))
        if k == "unix":
            o += [("inet_protocol", "unix"), ("unix_socket_path", upath(self.srv, l))]
        else:
            o += [("port", self.ports[l["n"]]), ("tcp_nodelay", "on")]
            if l["addr"] == "::1": o += [("inet_protocol", "ip6"), ("inet6_bind_address", "::1")]
            elif l["addr"]: o += [("inet_protocol", "ip4"), ("inet4_bind_address", l["addr"])]
            else: o += [("inet_protocol", "ip4_ip6"), ("inet4_bind_address", "127.0.0.1"), ("inet6_bind_address", "::1")]
        if k == "tls": o += [("fullchain", CERT), ("privkey", KEY)]
        for x in ("max_qos", "mqtt3_qos_exceed_action", "minimum_tls_version", "unix_socket_mode", "acme_redirect_url"):
            if x in l: o.append((x, l[x]))
        if "allow_anonymous" in l: o.append(("allow_anonymous", onoff(r, l["allow_anonymous"])))
        if "net" in l: o.append(tuple(l["net"]))
        r.shuffle(o)
        q = confgen.ConfGen(r)
        return "listen {\n" + "".join("  %s %s\n" % (a, q.quoted(b) if a == "unix_socket_path" else fmt(r, b)) for a, b in o) + "}\n"

    def write(self, c, extra="", first=False, files=None, dirs=()):
        r = self.rng
        parts = []
        for k, v in c["g"].items():
            if k == "retained_messages_mode" and r.random() < .3: pass
            if r.random() < .1:
                d = DEF[k]
                if isinstance(v, bool): parts.append("%s %s\n%s %s\n" % (k, onoff(r, not v), k, onoff(r, v)))      # the last one counts
                else: parts.append("%s %s\n%s %s\n" % (k, fmt(r, d if d is not None else 77), k, fmt(r, v)))
            else: parts.append("%s %s\n" % (k, onoff(r, v) if isinstance(v, bool) else fmt(r, v)))
        parts.append("log_file %s\nthread_count %d\nmosquitto_password_file %s\n" % (self.srv.log, self.srv.threads, self.pwfile))
        if "allow_anonymous" not in c["g"]: parts.append("allow_anonymous true\n")
        base = "listen {\n protocol mqtt\n inet_protocol unix\n unix_socket_path %s\n" % self.srv.sock
        if "allow_anonymous" in c["base"]: base += " allow_anonymous %s\n" % onoff(r, c["base"]["allow_anonymous"])
        if "max_qos" in c["base"]: base += " max_qos %d\n" % c["base"]["max_qos"]
        parts.append(base + "}\n")
        for l in c["l"]: parts.append(self.listener_text(l))
        r.shuffle(parts)
        inc = ""
        if r.random() < .2:
            d = self.srv.dir + "/conf.d"
            os.makedirs(d, exist_ok=True)
            k = r.randint(0, len(parts))
            with open(d + "/x.conf", "w") as f: f.write("".join(parts[k:]))
            parts = parts[:k]
            inc = "include_dir %s\n" % d
        t = "".join(parts) + inc
        t = extra.replace("@DIR@", self.srv.dir) + t if first else t + extra.replace("@DIR@", self.srv.dir)
        if files: write_files(self.srv.dir, dict(files={k: v for k, v in files.items() if k != "main.conf"}, dirs=dirs))
        with open(self.srv.conf, "wb") as f: f.write(t.encode())

    def hup(self):
        self.srv.signal(signal.SIGHUP)
        path = "/proc/%d/status" % self.srv.proc.pid
        end = time.monotonic() + 20
        while True:
            self.srv.check_alive()
            t = open(path).read()
            pend = 0
            for l in t.split("\n"):
                if l.startswith(("ShdPnd", "SigPnd")): pend |= int(l.split()[1], 16)
            if not pend & 1: break
            if time.monotonic() > end: raise Hang("SIGHUP is not handled")
            time.sleep(.001)
        self.srv.quiesce(); time.sleep(.02); self.srv.quiesce()

    # --- connections
    def link(self, l):
        if l is None: return PL(self.srv, Conn(self.srv.sock))
        if l["kind"] == "unix": return PL(self.srv, Conn(upath(self.srv, l)))
        addr = l["addr"] or "127.0.0.1"
        kind = {"redirect": "tcp"}.get(l["kind"], l["kind"])
        return TL(self.srv, kind, (addr, self.ports[l["n"]]), getattr(self, "src", None))

    def settle(self, c):
        quiet = 0
        for _ in range(2000):
            self.srv.quiesce()
            if c.link.pump() or c.link.conn.inflight(): quiet = 0
            else: quiet += 1
            if quiet >= 2: break
        self.srv.check_alive()

    def connect(self, l, ver, cid=None, **kw):
        """-> (client, CONNACK or None)"""
        self.seq += 1
        if "ka" not in kw: kw["ka"] = 60
        c = Cl(self, l, ver, cid if cid is not None else "c%d" % self.seq, **kw)
        a = [p for p in c.got if p.t == CONNACK]
        c.got = [p for p in c.got if p.t != CONNACK]
        return c, (a[0] if a else None)

    def base(self, ver=5, **kw):
        """a client which is let in whatever the configuration says"""
        return self.ok(None, ver, **kw)

    def ok(self, l, ver=5, **kw):
        """a client with a good password on a listener"""
        kw.setdefault("user", "probe")
        kw.setdefault("pw", "pw")
        if ver == 3 and not kw.get("clean", True): ver = 4
        c, a = self.connect(l, ver, **kw)
        if a is None or a.rc: self.bad("refused", "a client (version %d) with a valid login is not accepted on listener %s: %s" % (ver, l, a))
        return c, a

    # --- effective settings
    def g(self, k): return self.conf["g"].get(k, DEF[k])

    def L(self, l): return self.conf["base"] if l is None else l

    def anon(self, l): return self.L(l).get("allow_anonymous", self.g("allow_anonymous"))

    def maxqos(self, l): return self.L(l).get("max_qos", self.g("max_qos"))

    def action(self, l): return self.L(l).get("mqtt3_qos_exceed_action", self.g("mqtt3_qos_exceed_action"))


class PL:
    """plain socket"""
    def __init__(self, srv, c):
        self.srv, self.c, self.mq = srv, c, c.buf

    def send(self, b): return self.c.send(b)
    def pump(self): return self.c.pump()
    def close(self): self.c.close()
    @property
    def conn(self): return self.c
    @property
    def eof(self): return self.c.eof


class TL:
    def __init__(self, srv, kind, addr, source=None):
        import links
        # links.Link makes its own connection to 127.0.0.1; other addresses need another socket
        real = links.Conn
        links.Conn = lambda path=None, addr=addr, source=source, _a=addr: real(addr=_a, source=source)
        try:
            self.l = links.Link(srv, kind, port=addr[1])
        finally:
            links.Conn = real

    def send(self, b): return self.l.send(b)
    def pump(self): return self.l.pump()
    @property
    def conn(self): return self.l.c
    @property
    def mq(self): return self.l.mq
    @property
    def eof(self): return self.l.eof
    def close(self): self.l.c.close()


ACCEPTED_MODES = ("enabled", "enabled_without_persistence")


class Probes(Effect):
    def pick(self, p):
        """-> the listener of the probe, one that lets 127.0.0.1 / ::1 in"""
        ls = self.conf["l"]
        l = ls[p["l"]] if 0 <= p["l"] < len(ls) else None
        if l and (l["kind"] == "acme" or not self.allowed(l, "::1" if l["addr"] == "::1" else "127.0.0.1")): l = None
        return l

    def allowed(self, l, src):
        if "net" not in l: return True
        a, n = ipaddress.ip_address(src), ipaddress.ip_network(l["net"][1], strict=False)
        inside = a.version == n.version and a in n
        return inside if l["net"][0] == "only_allow_from" else not inside

    def topic(self, s="t"):
        self.seq += 1
        return "%s%d/x" % (s, self.seq)

    def sub(self, c, f, opt=0, props=None, want=None):
        """-> SUBACK code or None when disconnected"""
        c.send(mqtt.subscribe(c.ver, 9, [(f, opt)], props))
        got = c.take()
        a = [p for p in got if p.t == SUBACK]
        rest = [p for p in got if p.t == PUBLISH]
        c.got = rest + c.got
        if want is not None and (not a or a[0]["codes"] != [want]): self.bad("suback", "SUBSCRIBE to %r with options %d of a version %d client: expected code %d, got %s" % (f, opt, c.ver, want, got))
        return a[0]["codes"][0] if a else None

    def pub(self, c, topic, payload=b"", qos=0, retain=False, props=None, topic_on_wire=None):
        self.seq += 1
        c.send(mqtt.publish(c.ver, topic if topic_on_wire is None else topic_on_wire, payload, qos, retain, self.seq % 60000 + 1, False, props if c.ver >= 5 else None))
        return c.take()

    def dead(self, c, got, what, code=None):
        """the client must be disconnected, with that code when it speaks MQTT 5"""
        d = [p for p in got if p.t == DISCONNECT]
        if not c.eof: self.bad("not refused", "%s: the client must be disconnected, but it got %s" % (what, got))
        if c.ver >= 5 and code is not None and [p["rc"] for p in d] != [code]: self.bad("reason", "%s: expected DISCONNECT 0x%02x, got %s" % (what, code, got))
        if any(p.t in (PUBACK, PUBREC, SUBACK) for p in got): self.bad("acked", "%s: acknowledged although it is refused: %s" % (what, got))

    def alive(self, c, got, what):
        if c.eof or any(p.t == DISCONNECT for p in got): self.bad("disconnected", "%s: the client is disconnected: %s" % (what, got))

    def pubs(self, got, topic): return [p for p in got if p.t == PUBLISH and p["topic"] == topic]

    # --- the probes
    def p_connack(self, p, r):
        l = self.pick(p)
        req = r.choice([0, 1, 59, 60, 61, 3599, 3601, 86400 * 30, 2**32 - 1])
        props = [("session_expiry", req)] if r.random() < .8 else []
        ka = r.choice([0, 10, 60, 65535])
        c, a = self.ok(l, p["ver"], props=props, ka=ka)
        if p["ver"] >= 5:
            exp = self.g("expire_sessions_after_seconds") or 2**32 - 1
            want = dict(session_expiry=min(req if props else 0, exp), recv_max=self.g("max_qos_msg_pending_per_client"), max_qos=min(2, self.maxqos(l)), max_packet=self.g("max_packet_size"),
                        alias_max=self.g("max_incoming_topic_alias_value"), retain_avail=int(self.g("retained_messages_mode") in ACCEPTED_MODES), sid_avail=int(self.g("subscription_identifiers_enabled")))
            dflt = dict(session_expiry=req if props else 0, recv_max=65535, max_qos=2, max_packet=2**32, alias_max=0, retain_avail=1, sid_avail=1)
            for k, v in want.items():
                if int(a["props"].get(k, dflt[k])) != v: self.bad("connack", "CONNACK says %s = %s, the configuration says %s (%s)" % (k, a["props"].get(k, "(absent)"), v, a))
        c.close()

    def p_anon(self, p, r):
        l, ver = self.pick(p), p["ver"]
        who = r.choice(["none", "none", "unknown", "wrong", "zero", "good"] + ["pwonly"] * (ver >= 5))
        kw = dict(none={}, pwonly=dict(pw="x"), unknown=dict(user="someone", pw="x"), wrong=dict(user="probe", pw="wrong"), zero=dict(user=""), good=dict(user="probe", pw="pw"))[who]
        ok = dict(none=self.anon(l), pwonly=self.anon(l), unknown=self.anon(l), wrong=False, good=True, zero=self.anon(l) and self.g("zero_byte_username_is_anonymous"))[who]
        c, a = self.connect(l, ver, **kw)
        got = a is not None and a["rc"] == 0
        if got != ok: self.bad("login", "login '%s' of a version %d client on listener %s is %s" % (who, ver, l, "accepted" if got else "refused"))
        if not ok and not c.eof: self.bad("login", "login '%s' is refused without closing the connection" % who)
        self.stat("login_ok" if ok else "login_refused")
        c.close()

    def p_unsafe(self, p, r):
        l, ver = self.pick(p), p["ver"]
        self.seq += 1
        if r.random() < .6:
            cid = "u%d%s" % (self.seq, r.choice(["+", "#", "a+b", "", "/", "$"]))
            ok = self.g("allow_unsafe_clientid_chars") or not set(cid) & set("+#")
            c, a = self.connect(l, ver, cid=cid, user="probe", pw="pw")
            if not ok and a is not None and a["rc"] != (0x85 if ver >= 5 else 2): self.bad("clientid", "client id %r: CONNACK code %d" % (cid, a["rc"]))
            if not ok and a is None: self.bad("clientid", "client id %r: no CONNACK" % cid)
            what = "client id %r" % cid
        else:
            user = "us%der%s" % (self.seq, r.choice(["+", "#", "/", "x"]))
            ok = self.anon(l) and (self.g("allow_unsafe_username_chars") or not set(user) & set("+#"))
            c, a = self.connect(l, ver, user=user, pw="x")
            what = "user name %r" % user
        got = a is not None and a["rc"] == 0
        if got != ok: self.bad("unsafe", "%s on listener %s is %s (%s)" % (what, l, "accepted" if got else "refused", a))
        c.close()

    def p_pubqos(self, p, r):
        l, ver, q = self.pick(p), p["ver"], r.choice([0, 1, 1, 2, 2])
        t = self.topic("pq")
        s, _ = self.base(5)
        gq = self.sub(s, t, 2, want=min(2, self.maxqos(None)))
        c, _ = self.ok(l, ver)
        pl = b"m%d" % self.seq
        got = self.pub(c, t, pl, q)
        what = "PUBLISH with QoS %d of a version %d client on listener %s" % (q, ver, l)
        if q <= self.maxqos(l):
            self.alive(c, got, what)
            if q and not any(x.t == (PUBACK if q == 1 else PUBREC) and not x["rc"] for x in got): self.bad("no ack", "%s is not acknowledged: %s" % (what, got))
            m = self.pubs(s.take(), t)
            if [(x["payload"], x["qos"]) for x in m] != [(pl, min(q, gq))]: self.bad("delivery", "%s: the subscriber got %s" % (what, m))
        else:
            self.stat("qos_exceeded")
            if ver >= 5 or self.action(l) == "disconnect": self.dead(c, got, what, 0x9B)
            else:
                self.alive(c, got, what)
                if not any(x.t == (PUBACK if q == 1 else PUBREC) for x in got): self.bad("no ack", "%s must be acknowledged and dropped: %s" % (what, got))
            m = s.take()
            if m: self.bad("delivery", "%s: the subscriber got %s" % (what, m))
        c.close(); s.close()

    def p_subqos(self, p, r):
        l, q = self.pick(p), r.randint(0, 2)
        t = self.topic("sq")
        c, _ = self.ok(l, p["ver"])
        self.sub(c, t, q | (r.choice([0, 8, 16, 32, 40]) if p["ver"] >= 5 else 0), want=min(q, self.maxqos(l)))
        pc, _ = self.base(4)
        k = r.randint(0, self.maxqos(None))
        self.pub(pc, t, b"x", k)
        m = self.pubs(c.take(), t)
        if [x["qos"] for x in m] != [min(q, k, self.maxqos(l))]: self.bad("delivery", "subscription with QoS %d on listener %s, message with QoS %d: got %s" % (q, l, k, m))
        c.close(); pc.close()

    def stored(self, t, gone=False):
        """-> retained messages of this topic as a new subscriber gets them"""
        s, _ = self.base(5)
        self.sub(s, t, 2, want=min(2, self.maxqos(None)))
        m = self.pubs(s.take(), t)
        s.close()
        return m

    def p_will(self, p, r):
        l, ver, q, ret = self.pick(p), p["ver"], r.choice([0, 1, 2]), r.random() < .4
        t = self.topic("wi")
        s, _ = self.base(5)
        gq = self.sub(s, t, 2 | 8, want=min(2, self.maxqos(None)))
        pl = b"w" * r.choice([1, 5, 15])
        c, a = self.connect(l, ver, user="probe", pw="pw", will=dict(topic=t, payload=pl, qos=q, retain=ret))
        mode, on = self.g("retained_messages_mode"), self.g("wills_enabled")
        what = "will with QoS %d, retain=%s of a version %d client on listener %s" % (q, ret, ver, l)
        refused, will = False, on
        if ret and mode == "disconnect_with_error": refused = True
        elif ret and mode == "drop": will = False
        elif on and q > self.maxqos(l):
            if ver >= 5 or self.action(l) == "disconnect": refused = True
            will = False
        got = a is not None and a["rc"] == 0
        if got == refused: self.bad("will", "%s: the client is %s (%s)" % (what, "accepted" if got else "refused", a))
        if refused: will = False
        c.close(clean=False)
        for _ in range(2): self.srv.quiesce()
        m = self.pubs(s.take(), t)
        wantret = ret and mode != "downgrade"
        want = [(pl, min(q, gq), wantret)] if will else []
        if [(x["payload"], x["qos"], x["retain"]) for x in m] != want: self.bad("will", "%s: expected %s, the subscriber got %s" % (what, want, m))
        lim = self.g("retained_message_max_payload_size")
        keep = will and wantret and mode in ACCEPTED_MODES and (lim is None or len(pl) <= lim)
        k = self.stored(t)
        if len(k) != int(keep): self.bad("will", "%s: retained afterwards: %s" % (what, k))
        self.stat("will_sent" if will else "will_not_sent")
        s.close()

    def p_retain(self, p, r):
        l, ver = self.pick(p), p["ver"]
        t = self.topic("re")
        lim = self.g("retained_message_max_payload_size")
        mode = self.g("retained_messages_mode")
        n = r.choice([1, 9, 10, 11] if lim is None else [1, lim, lim, lim + 1, lim + 1, max(1, lim - 1)])
        q = r.randint(0, self.maxqos(l))
        s, _ = self.base(5)
        self.sub(s, t, 1 | 8)
        c, _ = self.ok(l, ver)
        pl = b"r" * n
        msgexp = r.choice([None, None, 50, 1000, 10**6]) if ver >= 5 else None
        got = self.pub(c, t, pl, q, True, props=[("expiry", msgexp)] if msgexp else None)
        what = "retained PUBLISH of %d bytes, QoS %d, of a version %d client on listener %s, mode %s" % (n, q, ver, l, mode)
        m = self.pubs(s.take(), t)
        if mode == "disconnect_with_error": self.dead(c, got, what, 0x9A)
        else: self.alive(c, got, what)
        want = [] if mode in ("disconnect_with_error", "drop") else [(pl, mode != "downgrade")]
        if [(x["payload"], x["retain"]) for x in m] != want: self.bad("retain", "%s: expected %s, subscriber got %s" % (what, want, m))
        k = self.stored(t)
        keep = mode in ACCEPTED_MODES and (lim is None or n <= lim)
        if [x["payload"] for x in k] != ([pl] if keep else []): self.bad("retain", "%s: stored afterwards: %s" % (what, k))
        if k:
            e = self.g("expire_retained_messages_after_seconds") or 2**31 - 1
            e = min(e, msgexp or 2**32)
            x = k[0]["props"].get("expiry")
            if x is None or not e - 3 <= x <= e: self.bad("expiry", "%s: expires after %s s, should be %s" % (what, x, e))
        self.stat("retained" if keep else "not_retained")
        c.close(); s.close()

    def p_subid(self, p, r):
        c, _ = self.ok(self.pick(p), 5)
        t = self.topic("si")
        n = r.choice([1, 127, 128, 268435455])
        c.send(mqtt.subscribe(5, 3, [(t, 0)], [("sid", n)]))
        got = c.take()
        if not self.g("subscription_identifiers_enabled"):
            if not c.eof or any(x.t == SUBACK for x in got): self.bad("subid", "subscription identifiers are disabled, but accepted: %s" % got)
        else:
            if not any(x.t == SUBACK and x["codes"] == [0] for x in got): self.bad("subid", "subscription identifier %d refused: %s" % (n, got))
            pc, _ = self.base(4)
            self.pub(pc, t, b"x")
            m = self.pubs(c.take(), t)
            if len(m) != 1 or m[0]["props"].get("sid") not in (n, [n]): self.bad("subid", "subscription identifier %d: delivered %s" % (n, m))
            pc.close()
        c.close()

    def p_wild(self, p, r):
        l, ver = self.pick(p), p["ver"]
        root = self.topic("wd").split("/")[0]
        d = r.choice([0, 1, 1, 2, 2, 3, 4])
        parts = [root, "b", "c", "d"][:d]
        if d == 0: parts = ["+", r.choice(["b", "+"])] if r.random() < .7 else ["#"]
        elif d < 4 and r.random() < .5: parts += ["+"] + ([r.choice(["#", "+", "z"])] if r.random() < .5 else [])
        else: parts += ["#"]
        flt = "/".join(parts)
        topic = "/".join(root if i == 0 and x == "+" else "q" if x in "+#" else x for i, x in enumerate(parts)) if parts != ["#"] else root + "/b"
        retained = self.g("retained_messages_mode") in ACCEPTED_MODES and (self.g("retained_message_max_payload_size") or 99) >= 1
        pc, _ = self.base(5)
        if retained: self.pub(pc, topic, b"r", 0, True)
        share = r.random() < .2 and len(parts) + 2 <= self.g("max_topic_split_depth")
        c, _ = self.ok(l, ver)
        code = self.sub(c, ("$share/g%d/" % self.seq if share else "") + flt, 0)
        self.alive(c, [], "SUBSCRIBE to %s" % flt)
        narrow = d >= self.g("minimum_wildcard_subscription_depth")
        deny = not narrow and self.g("wildcard_subscription_deny_mode") == "deny_all"
        want = {0x80, 0x87} if deny and ver >= 4 else {0}
        if code not in want: self.bad("wildcard", "SUBSCRIBE to %s (first wildcard at level %d) of a version %d client: code %s" % (flt, d, ver, code))
        m = self.pubs(c.take(), topic)
        if len(m) != int(narrow and retained and not share): self.bad("wildcard", "SUBSCRIBE to %s (first wildcard at level %d): retained messages %s" % (flt, d, m))
        self.pub(pc, topic, b"live")
        m = self.pubs(c.take(), topic)
        if len(m) != int(not deny): self.bad("wildcard", "SUBSCRIBE to %s (first wildcard at level %d): then delivered %s" % (flt, d, m))
        self.stat("wild_denied" if not narrow else "wild_ok")
        if retained: self.pub(pc, topic, b"", 0, True)
        c.close(); pc.close()

    def p_depth(self, p, r):
        lim = self.g("max_topic_split_depth")
        n = max(2, lim + r.choice([-1, 0, 0, 1, 1, 5]))
        n = min(n, self.g("max_string_length") // 2 - 8)
        self.seq += 1
        t = "d%d" % self.seq + "/" * (n - 1)
        s, _ = self.base(5)
        c, _ = self.ok(self.pick(p), p["ver"])
        if n > lim:
            if r.random() < .5:
                c.send(mqtt.subscribe(c.ver, 2, [(t, 0)]))
                got = c.take()
                if not c.eof or any(x.t == SUBACK for x in got): self.bad("depth", "SUBSCRIBE to %d levels is not refused: %s" % (n, got))
            else:
                got = self.pub(c, t, b"x", min(1, self.maxqos(self.pick(p))))
                self.dead(c, got, "PUBLISH to %d levels" % n)
            self.stat("too_deep")
        else:
            self.sub(s, t, 0, want=0)
            self.pub(c, t, b"x")
            m = self.pubs(s.take(), t)
            if len(m) != 1: self.bad("depth", "PUBLISH to %d levels: delivered %s" % (n, m))
        c.close(); s.close()

    def p_strlen(self, p, r):
        lim = self.g("max_string_length")
        n = min(65535, lim + r.choice([-1, 0, 0, 1, 1, 7]))
        if n + 30 > self.g("max_packet_size"): n = min(n, self.g("max_packet_size") - 200)
        self.seq += 1
        t = ("s%d" % self.seq).ljust(n, "x")
        l = self.pick(p)
        kind = r.choice(["topic", "topic", "filter", "clientid", "will"])
        if kind in ("clientid", "will"):
            if kind == "clientid": c, a = self.connect(l, p["ver"], cid=t, user="probe", pw="pw")
            else: c, a = self.connect(l, p["ver"], user="probe", pw="pw", will=dict(topic=t, payload=b""))
            got = a is not None and a["rc"] == 0
            if got != (n <= lim): self.bad("strlen", "%s of %d bytes is %s" % (kind, n, "accepted" if got else "refused"))
            c.close()
            return
        c, _ = self.ok(l, p["ver"])
        if kind == "filter":
            c.send(mqtt.subscribe(c.ver, 2, [(t, 0)]))
            got = c.take()
            ok = [x for x in got if x.t == SUBACK and x["codes"] == [0]]
        else:
            s, _ = self.base(5)
            if n <= lim: self.sub(s, t, 0, want=0)
            got = self.pub(c, t, b"x", min(1, self.maxqos(l)))
            ok = self.pubs(s.take(), t)
            s.close()
        if bool(ok) != (n <= lim) or c.eof != (n > lim): self.bad("strlen", "%s of %d bytes is %s: %s" % (kind, n, "accepted" if ok else "refused", got))
        self.stat("too_long" if n > lim else "long_ok")
        c.close()

    def p_packet(self, p, r):
        lim = self.g("max_packet_size")
        t = self.topic("pk")
        s, _ = self.base(4)       # a client that has no limit of its own has this one, and MQTT 5 makes packets a byte bigger
        self.sub(s, t, 0, want=0)
        c, _ = self.ok(self.pick(p), p["ver"])
        n = 70000 if lim > 10**6 else lim + r.choice([-1, 0, 0, 1, 1, 100])
        pl = n
        while len(mqtt.publish(c.ver, t, b"x" * pl)) > n: pl -= 1
        if len(mqtt.publish(c.ver, t, b"x" * pl)) != n: n = len(mqtt.publish(c.ver, t, b"x" * pl))
        got = self.pub(c, t, b"x" * pl)
        m = self.pubs(s.take(), t)
        if n > lim:
            self.dead(c, got, "PUBLISH of %d bytes" % n, 0x95)
            if m: self.bad("packet", "a packet of %d bytes is accepted" % n)
            self.stat("too_big")
        else:
            self.alive(c, got, "PUBLISH of %d bytes" % n)
            if len(m) != 1 or m[0]["payload"] != b"x" * pl: self.bad("packet", "a packet of %d bytes: delivered %s" % (n, [len(x["payload"]) for x in m]))
        c.close(); s.close()

    def p_log(self, p, r):
        """which lines the log file gets"""
        lev = LEVELS.index(self.g("log_level"))
        quiet, debug = self.g("quiet"), self.g("log_debug")
        lines = {x: LEVELS.index(x) >= lev for x in LEVELS[:5]}
        if debug is not None: lines["debug"] = debug
        if quiet: lines["notice"] = lines["info"] = False
        self.seq += 1
        tag = "lg%dx" % self.seq
        pos = os.path.getsize(self.srv.log) if os.path.exists(self.srv.log) else 0
        want = {}
        c, _ = self.base(5, cid=tag)
        want["DEBUG"] = (lines["debug"], "Session destructor")
        t = self.topic("lo")
        self.sub(c, t, 0)
        self.pub(c, t, b"x")
        want["SUBSCRIBE"], want["PUBLISH"] = (self.g("log_subscriptions"), "subscribing to"), (self.g("log_publishes"), "Publish received")
        c.close()
        want["NOTICE"] = (lines["notice"], "cleanly disconnecting")
        if not self.g("allow_unsafe_clientid_chars"):
            c, a = self.connect(None, 5, cid=tag + "+")
            want["ERROR"] = (lines["error"], "has + or #")
            c.close()
        if self.g("minimum_wildcard_subscription_depth") > 0:
            c, a = self.base(5, cid=tag)
            self.sub(c, "+/" + tag, 0)
            want["WARNING"] = (lines["warning"], "too broad")
            c.close()
        end = time.monotonic() + 5

        def seen(level, text):
            with open(self.srv.log, "rb") as f:
                f.seek(pos)
                return any("[%s]" % level in x and text in x and tag in x for x in f.read().decode("latin1").split("\n"))
        for k, (on, text) in want.items():
            while on and not seen(k, text):
                if time.monotonic() > end: self.bad("log", "no line [%s] '%s' of client %s in the log" % (k, text, tag))
                time.sleep(.002)
        time.sleep(.004)
        for k, (on, text) in want.items():
            if not on and seen(k, text): self.bad("log", "a line [%s] '%s' in the log, which the configuration excludes" % (k, text))

    def p_shared(self, p, r):
        t = self.topic("sh")
        ms = [self.base(r.choice([4, 5]))[0] for _ in range(3)]
        for m in ms: self.sub(m, "$share/g%d/%s" % (self.seq, t), 0, want=0)
        pubs = [self.base(5)[0] for _ in range(2)]
        who = []
        for i in range(8):
            pi = i % 2 if i >= 4 else 0
            self.pub(pubs[pi], t, b"%d" % i)
            who.append([k for k, m in enumerate(ms) for x in self.pubs(m.take(), t)])
        mode = self.g("shared_subscription_targeting")
        if any(len(w) != 1 for w in who): self.bad("shared", "shared subscription, receivers per message: %s" % who)
        w = [x[0] for x in who]
        one = [w[:4] + w[4::2], w[5::2]]
        if mode == "sender_hash" and any(len(set(x)) > 1 for x in one): self.bad("shared", "sender_hash, but messages of one sender go to several: %s" % w)
        if mode == "first" and len(set(w)) > 1: self.bad("shared", "first, but messages go to several: %s" % w)
        if mode == "round_robin" and len(set(w)) < 2: self.bad("shared", "round_robin, but all messages go to one: %s" % w)
        for c in ms + pubs: c.close()

    def p_alias(self, p, r):
        n = r.choice([0, 1, 2, 5, 65535])
        c, _ = self.ok(self.pick(p), 5, props=[("alias_max", n)])
        ts = [self.topic("al") for _ in range(4)]
        for t in ts: self.sub(c, t, 0, want=0)
        pc, _ = self.base(5)
        used = set()
        for t in ts + ts:
            self.pub(pc, t, b"x")
            m = [x for x in c.take() if x.t == PUBLISH]
            if [x["topic"] for x in m] != [t]: self.bad("alias", "published to %s, delivered %s" % (t, m))
            if m[0]["wire_alias"] is not None: used.add(m[0]["wire_alias"])
        lim = min(n, self.g("max_outgoing_topic_alias_value"))
        if used and (max(used) > lim or min(used) < 1): self.bad("alias", "aliases %s used, allowed are %d" % (sorted(used), lim))
        if lim and not used: self.bad("alias", "no aliases used, though %d are allowed" % lim)
        c.close(); pc.close()

    def p_aliasin(self, p, r):
        lim = self.g("max_incoming_topic_alias_value")
        t = self.topic("ai")
        s, _ = self.base(5)
        self.sub(s, t, 0, want=0)
        c, _ = self.ok(self.pick(p), 5)
        a = min(65535, lim + r.choice([0, 0, 1, 1]))
        if a == 0: return
        got = self.pub(c, t, b"1", props=[("alias", a)])
        if a > lim: self.dead(c, got, "topic alias %d" % a, 0x94)
        else:
            self.alive(c, got, "topic alias %d" % a)
            self.pub(c, t, b"2", props=[("alias", a)], topic_on_wire="")
            m = self.pubs(s.take(), t)
            if [x["payload"] for x in m] != [b"1", b"2"]: self.bad("aliasin", "published two messages with alias %d, delivered %s" % (a, m))
        c.close(); s.close()

    def p_listeners(self, p=None, r=None):
        r = r or self.rng
        used = set()
        for l in self.conf["l"]:
            k, n = l["kind"], l["n"]
            used.add(n)
            v6 = l["addr"] == "::1"
            if k == "unix":
                path = upath(self.srv, l)
                if not os.path.exists(path): self.bad("listener", "no socket of listener %s" % l)
                mode = stat.S_IMODE(os.stat(path).st_mode)
                if mode != int(l["unix_socket_mode"], 8): self.bad("listener", "mode %o of the socket of listener %s" % (mode, l))
            srcs = ["::1"] if v6 else ["127.0.0.1", "127.0.0.2", "127.0.0.9"] if "net" in l else [None]
            for src in srcs:
                if k == "acme": break
                ok = src is None or self.allowed(l, src)
                if not ok:
                    self.denied(l, src, r)
                    continue
                self.src = src
                try:
                    try: c, a = self.connect(l, r.choice([4, 5]), user="probe", pw="pw")
                    finally: self.src = None
                    got = a is not None and a["rc"] == 0
                    c.close()
                except (ConnectionError, OSError) as e:
                    got = False
                    a = e
                if not got: self.bad("listener", "listener %s, connection from %s: refused (%s)" % (l, src, a))
                self.stat("listener_ok")
            if k in ("acme", "redirect"): self.acme(l)
            if k == "tls": self.tls(l)
            if k != "unix" and l["addr"] == "127.0.0.2":
                try:
                    Conn(addr=("127.0.0.1", self.ports[n])).close()
                    self.bad("listener", "listener %s also listens on 127.0.0.1" % l)
                except OSError: pass
        for l in self.old_unix:
            if any(x["kind"] == "unix" and upath(self.srv, x) == upath(self.srv, l) for x in self.conf["l"]): continue
            try: Conn(upath(self.srv, l)).close()
            except OSError: continue
            self.bad("listener", "there is no listener %s anymore, but its socket accepts connections" % l)
        for n, port in self.ports.items():
            if n in used and not any(l["n"] == n and l["kind"] == "unix" for l in self.conf["l"]): continue
            for a in ("127.0.0.1", "::1"):
                try:
                    Conn(addr=(a, port)).close()
                except OSError: continue
                k = [x for x in self.old_kinds.get(n, ())]
                self.bad("listener", "there is no listener %d (anymore, %s), but %s accepts connections" % (n, k, a))

    def denied(self, l, src, r):
        """such a connection is closed after some time, and answers nothing till then"""
        import ws
        c = Conn(addr=(l["addr"] or "127.0.0.1", self.ports[l["n"]]), source=src)
        if l["kind"] == "tls":
            bi, bo = ssl.MemoryBIO(), ssl.MemoryBIO()
            o = ssl._create_unverified_context().wrap_bio(bi, bo)
            try: o.do_handshake()
            except ssl.SSLWantReadError: pass
            c.send(bo.read())
        elif l["kind"] == "ws": c.send(ws.request())
        else: c.send(mqtt.connect("denied", 4, True, 60, "probe", "pw"))
        for _ in range(3):
            self.srv.quiesce()
            time.sleep(.002)
            c.pump()
        if c.buf: self.bad("listener", "listener %s, connection from %s should be denied, but gets an answer: %r" % (l, src, bytes(c.buf[:80])))
        c.close()
        self.stat("listener_denied")

    def acme(self, l):
        a = l["addr"] or "127.0.0.1"
        c = Conn(addr=(a, self.ports[l["n"]]))
        tok = "/.well-known/acme-challenge/tok%d" % self.seq
        c.send(("GET %s HTTP/1.1\r\nHost: x\r\n\r\n" % tok).encode())
        end = time.monotonic() + 10
        while not c.eof:
            c.pump()
            if time.monotonic() > end: self.bad("acme", "no answer to an ACME request")
            time.sleep(.001)
        t = c.buf.decode("latin1")
        c.close()
        loc = [x.split(":", 1)[1].strip() for x in t.split("\r\n") if x.lower().startswith("location:")]
        if not t.startswith("HTTP/1.1 30") or loc != [l["acme_redirect_url"] + tok]: self.bad("acme", "answer to an ACME request on listener %s: %r" % (l, t))

    def tls(self, l):
        low = l.get("minimum_tls_version", "tlsv1.1")
        a = l["addr"] or "127.0.0.1"
        for v, ok in ((ssl.TLSVersion.TLSv1_2, low != "tlsv1.3"), (ssl.TLSVersion.TLSv1_3, True)):
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            ctx.check_hostname, ctx.verify_mode = False, ssl.CERT_NONE
            ctx.minimum_version = ctx.maximum_version = v
            s = socket.socket(socket.AF_INET6 if ":" in a else socket.AF_INET)
            s.settimeout(15)
            try:
                if ":" not in a and "net" in l: s.bind(("127.0.0.9" if self.allowed(l, "127.0.0.9") else "127.0.0.1", 0))
                s.connect((a, self.ports[l["n"]]))
                if "net" in l and not self.allowed(l, s.getsockname()[0]): continue
                try:
                    s = ctx.wrap_socket(s)
                    got = True
                except socket.timeout: raise Inconclusive("TLS handshake takes too long")
                except (ssl.SSLError, OSError): got = False
                if got != ok: self.bad("tls", "handshake with %s on listener %s %s" % (v.name, l, "works" if got else "fails"))
                self.stat("tls_ok" if ok else "tls_refused")
            finally: s.close()

    def p_msg(self, p=None, r=None, n=1, t="obs/t", racing=None):
        """two clients which are there from the start get everything, once"""
        sent = []
        for i in range(n):
            self.seq += 1
            sent.append(b"o%d" % self.seq)
            self.pubber.send(mqtt.publish(4, t, sent[-1]))
            if racing and i == n // 2: racing()
        self.pubber.take()
        if self.pubber.eof: self.bad("disturbed", "the publisher which is connected since the start is disconnected")
        for o in self.obs:
            got = [x["payload"] for x in o.take() if x.t == PUBLISH]
            if o.eof: self.bad("disturbed", "a client (version %d) which is connected since the start is disconnected" % o.ver)
            if got != sent: self.bad("disturbed", "a client (version %d) subscribed since the start: sent %s, got %s" % (o.ver, sent, got))

    def p_session(self, p, r):
        """an offline session is still there"""
        if not self.sess:
            c, a = self.base(4, cid="sess", clean=False)
            self.sess = self.topic("se")
            self.sub(c, self.sess, 1)
            c.close()
            return
        pc, _ = self.base(4)
        q = min(1, self.maxqos(None))
        pl = b"s%d" % self.seq
        self.pub(pc, self.sess, pl, q)
        c, a = self.base(4, cid="sess", clean=False)
        if not a["present"]: self.bad("session", "the session of an offline client is gone")
        m = self.pubs(c.take(), self.sess)
        want = [pl] if q and self.sess_qos else []
        if [x["payload"] for x in m] != want: self.bad("session", "the offline session should have got %s, got %s" % (want, m))
        c.close(); pc.close()

    def begin(self):
        self.src, self.old_kinds, self.old_unix, self.sess = None, {}, [], None
        self.sess_qos = min(1, self.maxqos(None))
        self.obs = []
        for v in (3, 5):
            o, _ = self.base(v, ka=0 if v == 3 else 65535)
            self.sub(o, "obs/t", 0, want=0)
            self.obs.append(o)
        self.pubber, _ = self.base(4, ka=0)

    def note_kinds(self):
        for l in self.conf["l"]:
            self.old_kinds.setdefault(l["n"], set()).add(l["kind"])
            if l["kind"] == "unix": self.old_unix.append(l)

    def run(self):
        self.begin()
        self.p_listeners()
        for i, op in enumerate(self.case["ops"]):
            k = op["o"]
            if k == "probe":
                if op["k"] == "session" and not self.sess: self.sess_qos = min(1, self.maxqos(None))
                self.trace.append("%d: probe %s" % (i, op["k"]))
                getattr(self, "p_" + op["k"])(op, random.Random(op["x"]))
                self.stat("probe_" + op["k"])
                continue
            self.note_kinds()
            if k == "reload":
                self.trace.append("%d: reload" % i)
                self.write(op["c"])
                if op.get("racing"): self.p_msg(n=30, racing=lambda: self.srv.signal(signal.SIGHUP))
                self.hup()
                self.conf = op["c"]
                self.stat("reloads")
            else:
                self.trace.append("%d: reload of a file with %s" % (i, op["bad"]))
                self.write(op["c"], extra=op["text"], first=op["first"], files=op["files"], dirs=op["dirs"])
                self.hup()
                self.stat("bad_reloads")
            self.p_msg(n=2)
            self.p_listeners()
        self.p_msg()
        if random.Random(self.case["seed"]).random() < .3: self.stop()

    def stop(self):
        self.srv.stop()


def run_effect(exes, case, st):
    ef = Probes(exes["rel"], case, st)
    try:
        try: ef.run()
        except (ServerDied, Hang) as e: raise type(e)("%s\nhistory: %s" % (e, "; ".join(ef.trace[-12:])))
        st["ops_done"] = st.get("ops_done", 0) + len(case["ops"])
        st["sample"] = [dict(conf=case["c"], ops=ef.trace[:20])]
    finally: ef.close()


# ---------------------------------------------------------------- what is saved

def gen_saved(rng):
    def one():
        v = None if rng.random() < .2 else confgen.persist_good(rng, None)
        return dict(p=v, store=rng.random() < .85, mode=rng.choice(["enabled", "enabled", "enabled", "enabled_without_persistence"]))
    return dict(kind="saved", items=[dict(a=one(), b=one() if rng.random() < .4 else None, bad=rng.random() < .2, term=rng.random() < .9) for _ in range(4)])


def run_saved(exes, case, st):
    for it in case["items"]:
        def conf(c):
            t = "retained_messages_mode %s\n" % c["mode"]
            if c["store"]: t += "storage_dir @DIR@/store\n"
            if c["p"] is not None: t += "persistence_data_to_save %s\n" % " ".join(c["p"])
            return t
        srv = Server(exes["rel"], conf(it["a"]))
        try:
            def cl(cid="", clean=True):
                c = Conn(srv.sock)
                c.send(mqtt.connect(cid, 4, clean, 0))
                return c

            def read(c):
                srv.quiesce(); c.pump(); srv.quiesce(); c.pump()
                return [mqtt.decode(f, b, 4) for f, b in mqtt.split(c.buf)]
            s = cl("sess", False)
            s.send(mqtt.subscribe(4, 1, [("a/b", 1)]))
            read(s)
            s.close()
            p = cl()
            p.send(mqtt.publish(4, "r/t", b"keep", 0, True) + mqtt.publish(4, "a/b", b"queued", 1, False, 7))
            read(p)
            p.close()
            last = it["a"]
            ef = Effect.__new__(Effect)
            ef.srv = srv
            if it["b"]:
                srv.write_config(conf(it["b"]))
                ef.hup()
                last = it["b"]
            if it["bad"]:
                srv.write_config(conf(it["a"]).replace("_mode ", "_moode "))
                ef.hup()
            srv.write_config(conf(last))
            srv.stop()
            srv.start()
            want = {"sessions_and_subscriptions", "retained_messages", "bridge_info"} if last["p"] is None else set()
            for x in last["p"] or []:
                names = {"sessions_and_subscriptions", "retained_messages", "bridge_info"} if x.lstrip("!") == "all" else {x.lstrip("!")}
                want = want - names if x[0] == "!" else want | names
            if not last["store"]: want = set()
            if last["mode"] != "enabled": want.discard("retained_messages")
            s = cl("sess", False)
            got = read(s)
            have = set()
            if got and got[0].t == CONNACK and got[0]["present"]:
                have.add("sessions_and_subscriptions")
                m = [x["payload"] for x in got if x.t == PUBLISH]
                if m != [b"queued"]: raise Violation("saved", "the saved session had a queued message, after the restart it got %s; configuration %s" % (got, last))
            q = cl()
            q.send(mqtt.subscribe(4, 1, [("r/t", 0)]))
            if [x for x in read(q) if x.t == PUBLISH]: have.add("retained_messages")
            if have != want - {"bridge_info"}: raise Violation("saved", "with configuration %s (before a reload: %s, bad reload: %s) restored after a restart: %s" % (last, it["b"] and it["a"], it["bad"], sorted(have)))
            st["saved"] = st.get("saved", 0) + 1
            for x in have: st["restored_" + x] = st.get("restored_" + x, 0) + 1
            s.close(); q.close()
        finally: srv.close()
    st["sample"] = [case["items"][0]]


def gen_c01(rng, i): return gen_saved(rng) if i % 12 == 1 else gen_effect(rng) if i % 3 == 0 else gen_parse(rng)


def run_c01(exes, case, st): return dict(effect=run_effect, parse=run_parse, saved=run_saved)[case["kind"]](exes, case, st)


Check("C01", gen_c01, run_c01, 540, 18000,
      "Case, one of three: a broker with 15-40 generated options (global and per listener: plain, TLS, websocket, unix, ACME) and a history of 10-18 reloads (good, or with exactly one defect, some under traffic) and probes "
      "which log in, publish, subscribe, connect or read the log to see whether the option in force has its documented effect; clients connected since the start must not notice. "
      "One of 12: four times a broker with generated persistence options, reloaded and restarted, to see which data is back. The others: 10 generated configuration files each (all documented options, blocks, quoting, includes), valid or with exactly one defect, given to the configuration test and sometimes to a starting broker. "
      "Non-trivial = effect case with at least one reload and 5 probes, or at least 3 valid and 3 defective files",
      lambda c, s: s.get("bad", 0) >= 3 and s.get("good", 0) >= 3 if c["kind"] == "parse" else s.get("restored_retained_messages", 0) + s.get("restored_sessions_and_subscriptions", 0) >= 1 if c["kind"] == "saved" else s.get("reloads", 0) + s.get("bad_reloads", 0) >= 1 and sum(v for k, v in s.items() if k.startswith("probe_")) >= 5,
      technique="grammar-based generation of configurations (valid / one defect) and of reload histories; probes with an oracle from the man page; ddmin shrinking", variants=("rel", "asan"))
