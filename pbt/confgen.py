"""Generator of FlashMQ configuration files from the documented options (man page flashmq.conf.5), valid or with exactly one defect."""
import os, re

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
CERT, KEY = DATA + "/cert.pem", DATA + "/key.pem"
U16, U31, U32 = 65535, 2**31 - 1, 2**32 - 1


class Opt:
    def __init__(self, good, bad, multi=False): self.good, self.bad, self.multi = good, bad, multi


def case_mix(rng, s): return "".join(c.upper() if rng.random() < .3 else c for c in s)


def boolean():
    return Opt(lambda r, c: [case_mix(r, r.choice(["yes", "no", "true", "false", "on", "off"]))],
               lambda r, c: [r.choice(["1", "0", "maybe", "", "y", "truee", "tru", "enabled", "o n", "-", "onoff"])])


def integer(lo, hi, good=None, badlo=None):
    """badlo: values from there up to lo have no documented meaning and are not used"""
    badlo = lo if badlo is None else badlo

    def g(r, c):
        if good: return [str(r.choice(good))]
        k = r.random()
        if k < .3: return [str(lo)]
        if k < .5: return [str(hi)]
        if k < .8: return [str(min(hi, lo + r.choice([1, 2, 3, 10, 99, 1000, 12345])))]
        return [str(r.randint(lo, hi))]

    def b(r, c):
        k = r.random()
        if k < .3: return [str(hi + r.choice([1, 1, 2, 100]))]
        if k < .6: return [str(badlo - r.choice([1, 1, 2, 100]))]
        if k < .7: return [str(r.choice([10**10, 2**64, 2**64 + lo, 2**63, 2**32 + lo, 10**25, -2**64 + lo + 5, -2**32 + lo + 5, -10**25]))]
        return [r.choice(["abc", "", "%dx" % lo, "%d.5" % lo, "x%d" % lo, "%d %d" % (lo, lo), "%d," % lo, "0x%xg" % lo, "--%d" % (lo + 1), "one"])]
    return Opt(g, b)


def enum(*vals):
    def b(r, c):
        v = r.choice(vals)
        i = r.randrange(len(v))
        return [r.choice([v[:i] + v[i + 1:], v + "x", v[:i] + "q" + v[i + 1:], "", v + "," + vals[0], "default"])]
    return Opt(lambda r, c: [r.choice(vals)], lambda r, c: pick_not(r, c, b, vals))


def pick_not(r, c, b, vals):
    while True:
        x = b(r, c)
        if x[0] not in vals: return x


def text(*vals): return Opt(lambda r, c: [r.choice(vals)], None)


NETS = ["127.0.0.1", "127.0.0.0/8", "10.2.3.4/16", "192.168.7.0/24", "0.0.0.0/0", "2a01:1337::1", "2a01:1337::1/64", "::1", "::/0", "fe80::/128"]
BADNETS = ["127.0.0.1/33", "300.1.1.1", "localhost", "", "1.2.3.4/-1", "2a01:::1", "::1/129", "::1/x", "1.2.3.4/x", "12", "::1/", "::1/64/64", "1.2.3.4.5", "1.2.3.4/8/8"]
network = Opt(lambda r, c: [r.choice(NETS)], lambda r, c: [r.choice(BADNETS)])
a_file = Opt(lambda r, c: [c.file(r)], lambda r, c: [r.choice([c.dir + "/absent", c.dir, "/absent/x", ""])])
a_dir = Opt(lambda r, c: [c.subdir(r)], lambda r, c: [r.choice([c.dir + "/absent", CERT, "", "/absent/x"])])
tlsver = enum("tlsv1.1", "tlsv1.2", "tlsv1.3")
bindv4 = Opt(lambda r, c: [r.choice(["127.0.0.1", "0.0.0.0", "127.3.2.1", "10.0.0.255"])], lambda r, c: [r.choice(["localhost", "127.0.0", "256.0.0.1", "::1", "0.0.0.0/0", "127.0.0.1x"])])
bindv6 = Opt(lambda r, c: [r.choice(["::1", "::", "::0", "2a01:1337::1"])], lambda r, c: [r.choice(["127.0.0.1", "::g", "2a01", "::1/64", "::1::2"])])
buf1g = integer(0, 2**30)

TOPICS = ["#", "+", "a/b", "a/+/c/#", "/x", "a b/c", "é/#", "it's/\"q\"", "$SYS/#", "back\\slash"]
PLAINTOPICS = [t for t in TOPICS if "\\" not in t]


def persist_good(r, c):
    out = [("!" if r.random() < .3 else "") + r.choice(["all", "sessions_and_subscriptions", "retained_messages", "bridge_info"]) for _ in range(r.randint(1, 5))]
    return out


def persist_bad(r, c):
    out = persist_good(r, c)
    out.insert(r.randrange(len(out) + 1), r.choice(["sessions", "!", "!!all", "none", "retained", "All "]))
    return out


G = {
    "plugin_serialize_init": boolean(), "plugin_serialize_auth_checks": boolean(), "plugin_timer_period": integer(0, U31), "plugin": a_file,
    "log_file": Opt(lambda r, c: [c.dir + "/" + r.choice(["x.log", "a b.log"])], lambda r, c: [c.dir + "/absent/x.log"]),
    "log_level": enum("debug", "info", "notice", "warning", "error", "none"), "log_debug": boolean(), "log_subscriptions": boolean(), "log_publishes": boolean(),
    "quiet": boolean(), "allow_unsafe_clientid_chars": boolean(), "allow_unsafe_username_chars": boolean(), "allow_anonymous": boolean(), "zero_byte_username_is_anonymous": boolean(),
    "wills_enabled": boolean(), "subscription_identifiers_enabled": boolean(),
    "max_string_length": integer(1, U16, badlo=0), "max_packet_size": integer(1, 268435455), "client_max_write_buffer_size": integer(4096, U32), "client_initial_buffer_size": Opt(
        lambda r, c: [str(1 << r.randint(1, 30))], lambda r, c: [r.choice(["0", "1", "3", "-2", "1000", "1025", "2147483648", "-2147483648", "", "64k", "1 024"])]),
    "mosquitto_password_file": a_file, "mosquitto_acl_file": a_file, "rlimit_nofile": integer(1, U31),
    "expire_sessions_after_seconds": Opt(lambda r, c: [str(r.choice([0, 60, 61, 86400, U32]))], lambda r, c: [r.choice(["1", "59", "-1", "-60", str(U32 + 1), "x", "", "60s", str(2**64 - 1), "30"])]),
    "storage_dir": Opt(lambda r, c: [c.subdir(r) + r.choice(["", "/", "//"])], lambda r, c: [c.dir + "/absent"]),
    "save_state_interval": integer(300, U31), "persistence_data_to_save": Opt(persist_good, persist_bad, multi=True),
    "max_qos_msg_pending_per_client": integer(32, U16), "max_qos_bytes_pending_per_client": integer(4096, U32), "max_qos": integer(0, 2), "mqtt3_qos_exceed_action": enum("drop", "disconnect"),
    "max_incoming_topic_alias_value": integer(0, U16), "max_outgoing_topic_alias_value": integer(0, U16), "thread_count": integer(0, U31),
    "retained_messages_mode": enum("enabled", "enabled_without_persistence", "enabled_without_retaining", "downgrade", "drop", "disconnect_with_error"),
    "expire_retained_messages_after_seconds": integer(1, U32), "retained_messages_node_limit": integer(1, U32),
    "retained_messages_node_creation_limit_enforcement_mode": enum("log", "reject"), "retained_messages_node_creation_limit_enforcement_depth": integer(0, U16),
    "retained_messages_node_creation_limit": integer(1, U32), "retained_message_max_payload_size": integer(1, U32), "set_retained_message_defer_timeout": integer(0, U31),
    "set_retained_message_defer_timeout_spread": integer(0, U31), "retained_message_node_lifetime": integer(0, U31), "subscription_node_lifetime": integer(0, U31),
    "websocket_set_real_ip_from": network, "shared_subscription_targeting": enum("round_robin", "sender_hash", "first"), "minimum_wildcard_subscription_depth": integer(0, U16),
    "max_topic_split_depth": integer(1, U16, badlo=0), "wildcard_subscription_deny_mode": enum("deny_all", "deny_retained_only"), "overload_mode": enum("log", "close_new_clients"),
    "max_event_loop_drift": integer(500, U31), "plugin_opt_my_key": text("x", "a b", "", "\"q\"", "\\", "é"),
}
L = {
    "port": integer(1, 65535, badlo=0), "protocol": enum("mqtt", "websockets", "acme"), "inet_protocol": enum("ip4", "ip6", "ip4_ip6", "unix"), "inet4_bind_address": bindv4, "inet6_bind_address": bindv6,
    "unix_socket_path": text("/tmp/absent/a.sock", "/run/x y.sock"), "unix_socket_user": text("root", "nobody", "0"), "unix_socket_group": text("root", "12"),
    "unix_socket_mode": Opt(lambda r, c: [r.choice(["600", "0660", "777", "0"])], lambda r, c: [r.choice(["8", "rw", "", "-1", "66x", "0o600"])]),
    "haproxy": Opt(lambda r, c: [r.choice(["on", "off", "client_verification", "client_verification_with_authn", "YES", "false"])], lambda r, c: [r.choice(["client", "x", "", "client_verification_", "2"])]),
    "allow_anonymous": boolean(), "tcp_nodelay": boolean(), "overload_mode": enum("log", "close_new_clients"), "max_buffer_size": buf1g, "max_qos": integer(0, 2),
    "mqtt3_qos_exceed_action": enum("drop", "disconnect"), "only_allow_from": network, "deny_from": network, "client_verification_still_do_authn": boolean(),
    "minimum_tls_version": tlsver, "acme_redirect_url": text("http://example.com/", "https://a.b/c?d=e"), "drop_on_absent_certificate": boolean(),
    "fullchain": Opt(lambda r, c: [CERT], lambda r, c: [r.choice([c.dir + "/absent", c.dir, KEY, c.file(r)])]), "privkey": Opt(lambda r, c: [KEY], lambda r, c: [r.choice([c.dir + "/absent", c.dir, CERT, c.file(r)])]),
    "client_verification_ca_file": Opt(lambda r, c: [CERT], lambda r, c: [r.choice([c.dir + "/absent", c.dir, c.file(r)])]),
    "client_verification_ca_dir": Opt(lambda r, c: [c.subdir(r)], lambda r, c: [r.choice([c.dir + "/absent", CERT])]),
}
B = {
    "local_username": text("bob", "b ob", ""), "remote_username": text("bob", "b\"ob"), "remote_password": text("pw", "p w'", "\\"), "remote_clean_start": boolean(), "remote_retain_available": boolean(),
    "remote_session_expiry_interval": integer(0, U32), "local_clean_start": boolean(), "local_session_expiry_interval": integer(0, U32), "use_saved_clientid": boolean(),
    "inet_protocol": enum("ip4", "ip6", "ip4_ip6"), "address": text("localhost", "127.0.0.1", "::1", "example.invalid"), "port": integer(0, 65535), "tls": enum("off", "on", "unverified"),
    "protocol_version": enum("mqtt3.1", "mqtt3.1.1", "mqtt5"), "bridge_protocol_bit": boolean(), "keepalive": integer(10, U16), "max_outgoing_topic_aliases": integer(0, U16),
    "max_incoming_topic_aliases": integer(0, U16), "tcp_nodelay": boolean(), "minimum_tls_version": tlsver, "max_buffer_size": buf1g,
    "connection_count": Opt(lambda r, c: [r.choice(["1", "2", "7", "auto"])], lambda r, c: [r.choice(["0", "-1", "65536", "x", "", "Auto"])]),
    "clientid_prefix": Opt(None, lambda r, c: [r.choice(["elevenchars", "a/b", "a+b", "#", "x" * 40])]),
    "local_prefix": Opt(lambda r, c: [r.choice(["x/", "a/b/", "/", "é/", "s p/"])], lambda r, c: [r.choice(["", "x", "/x", "a/b"])]),
    "ca_file": Opt(lambda r, c: [CERT], lambda r, c: [r.choice([c.dir + "/absent", c.dir])]), "ca_dir": Opt(lambda r, c: [c.subdir(r)], lambda r, c: [r.choice([c.dir + "/absent", CERT])]),
    "fullchain": Opt(lambda r, c: [CERT], lambda r, c: [r.choice([c.dir + "/absent", c.dir])]), "privkey": Opt(lambda r, c: [KEY], lambda r, c: [r.choice([c.dir + "/absent", c.dir])]),
}
B["remote_prefix"] = B["local_prefix"]


def topic_good(r, c): return [r.choice(TOPICS)] + ([r.choice(["0", "1", "2", ""])] if r.random() < .6 else [])


def topic_bad(r, c): return r.choice([["a#b"], ["a/#/b"], [""], ["a+/b"], ["a", "3"], ["a", "-1"], ["a", "x"], ["a", "1", "2"], ["a", "256"], ["+b"]])


B["subscribe"] = B["publish"] = Opt(topic_good, topic_bad, multi=True)


class Node:
    """One line: key and values, or block"""
    def __init__(self, key, values=None, block=None, raw=None): self.key, self.values, self.block, self.raw = key, values, block, raw


class ConfGen:
    """Everything lives below @DIR@, which the runner replaces."""
    def __init__(self, rng):
        self.rng, self.dir = rng, "@DIR@"
        self.files = {"empty": "", "some file": "x\n"}
        self.dirs = ["sub", "sub dir"]
        self.ninc = 0

    def file(self, r): return self.dir + "/" + r.choice(["empty", "some file"])
    def subdir(self, r): return self.dir + "/" + r.choice(["sub", "sub dir"])

    def some(self, spec, keys, n):
        r = self.rng
        return [Node(k, spec[k].good(r, self)) for k in r.sample(keys, min(n, len(keys)))]

    def listener(self, force=None):
        r = self.rng
        f = force or r.choice(["tcp", "tcp", "ws", "tls", "wss", "unix", "acme", "hap", "mtls"])
        n = [Node("protocol", ["acme" if f == "acme" else "websockets" if f in ("ws", "wss") else "mqtt"])]
        keys = ["allow_anonymous", "tcp_nodelay", "overload_mode", "max_buffer_size", "max_qos", "mqtt3_qos_exceed_action", "only_allow_from", "deny_from"]
        if f == "unix":
            n += [Node("inet_protocol", ["unix"]), Node("unix_socket_path", L["unix_socket_path"].good(r, self))]
            keys += ["unix_socket_user", "unix_socket_group", "unix_socket_mode", "port"]
        else:
            n += [Node("inet_protocol", [r.choice(["ip4", "ip6", "ip4_ip6"])])] if r.random() < .6 else []
            keys += ["inet4_bind_address", "inet6_bind_address", "port", "port"]
        if f in ("tls", "wss", "mtls"):
            n += [Node("fullchain", [CERT]), Node("privkey", [KEY])]
            keys += ["minimum_tls_version", "drop_on_absent_certificate"]
        if f == "mtls":
            n.append(Node("client_verification_ca_file", [CERT]))
            keys += ["client_verification_ca_dir", "client_verification_still_do_authn"]
        if f in ("acme",): n.append(Node("acme_redirect_url", L["acme_redirect_url"].good(r, self)))
        if f in ("tcp", "ws"): keys.append("acme_redirect_url")
        if f != "mtls" and r.random() < .3 or f == "hap": n.append(Node("haproxy", L["haproxy"].good(r, self)))
        n += self.some(L, sorted(set(keys)), r.randint(0, 5))
        r.shuffle(n)
        return Node("listen", block=n)

    def bridge(self, i):
        r = self.rng
        n = [Node("address", B["address"].good(r, self))]
        if i or r.random() < .6: n.append(Node("clientid_prefix", [["", "bri", "x-y", "exactly10c"][i % 4] or "p%d" % i]))
        for _ in range(r.randint(1, 3)): n.append(Node(r.choice(["subscribe", "publish"]), topic_good(r, self)))
        keys = ["local_username", "remote_username", "remote_clean_start", "remote_retain_available", "remote_session_expiry_interval", "local_clean_start", "local_session_expiry_interval",
                "use_saved_clientid", "inet_protocol", "port", "bridge_protocol_bit", "keepalive", "max_outgoing_topic_aliases", "max_incoming_topic_aliases", "tcp_nodelay",
                "minimum_tls_version", "max_buffer_size", "local_prefix", "remote_prefix", "tls", "protocol_version"]
        n += self.some(B, keys, r.randint(0, 7))
        have = {x.key for x in n}
        v5 = any(x.key == "protocol_version" and x.values == ["mqtt5"] for x in n)
        if "remote_username" in have or v5:
            if r.random() < .5: n.append(Node("remote_password", B["remote_password"].good(r, self)))
        if v5 and r.random() < .6: n.append(Node("connection_count", B["connection_count"].good(r, self)))
        if r.random() < .3: n += [Node("fullchain", [CERT]), Node("privkey", [KEY])]
        if r.random() < .3: n.append(Node(r.choice(["ca_file", "ca_dir"]), None))
        for x in n:
            if x.values is None: x.values = B[x.key].good(r, self)
        r.shuffle(n)
        return Node("bridge", block=n)

    def tree(self):
        r = self.rng
        t = self.some(G, list(G), r.choice([0, 1, 2, 3, 5, 8, 14]))
        t += [self.listener() for _ in range(r.choice([0, 0, 1, 1, 2]))]
        t += [self.bridge(i) for i in range(r.choice([0, 0, 0, 1, 1, 2]))]
        r.shuffle(t)
        return t

    # --- text
    def quoted(self, v):
        r = self.rng
        if v and not re.search(r"[\s\"'\\]", v) and r.random() < .7: return v
        q = r.choice("\"'")
        out = ""
        for c in v:
            if c == "\\" or c == q or (c in "\"'" and r.random() < .3): out += "\\" + c
            else: out += c
        return q + out + q

    def line(self, n):
        r = self.rng
        ind = r.choice(["", "", "", "  ", "\t", "    "])
        if n.raw is not None: return ind + n.raw
        return ind + n.key + r.choice([" ", " ", "  ", "\t", " \t "]) + r.choice([" ", "  ", "\t", " "]).join(self.quoted(v) for v in n.values) + r.choice(["", "", "", " ", "\t", "\r"])

    def noise(self):
        r = self.rng
        return r.choice(["", "", "   ", "# comment", "  # listen {", "#}", "# " + "long " * 80, "#x \"unterminated", "\t", "#include_dir /absent"])

    def text(self, nodes, depth=0):
        """-> lines; some top level parts go into files below an include_dir"""
        r = self.rng
        out = []
        i = 0
        while i < len(nodes):
            n = nodes[i]
            if r.random() < .15: out.append(self.noise())
            if depth < 2 and r.random() < .06 and n.raw is None:
                k = r.randint(1, min(4, len(nodes) - i))
                self.ninc += 1
                d = "inc%d%s" % (self.ninc, r.choice(["", "", " x"]))
                part = nodes[i:i + k]
                j = r.randint(0, k)
                for name, sub in (("a.conf", part[:j]), ("b.conf", part[j:])):
                    if sub: self.files[d + "/" + name] = "\n".join(self.text(sub, depth + 1)) + r.choice(["\n", ""])
                self.files[d + "/ignored.txt"] = "not_an_option at all\n"
                self.dirs.append(d)
                out.append(self.line(Node("include_dir", [self.dir + "/" + d])))
                i += k
                continue
            if n.block is not None:
                out.append(r.choice(["", "  "]) + n.key + r.choice([" ", "", "  "]) + "{")
                out += self.text(n.block, 9)
                out.append(r.choice(["", " ", "\t"]) + "}")
            else:
                out.append(self.line(n))
            i += 1
        return out

    # --- defects
    def defect(self, t):
        """changes the tree; -> description"""
        r = self.rng
        places = [("", G, t)] + [(n.key, L if n.key == "listen" else B, n.block) for n in t if n.block is not None]
        where, spec, nodes = r.choice(places)
        other = {"": [L, B], "listen": [G, B], "bridge": [G, L]}[where]
        put = lambda n: nodes.insert(r.randint(0, len(nodes)), n)
        k = r.choice(["misspelt", "misspelt", "level", "value", "value", "value", "value", "superfluous", "missing", "quote", "escape", "brace", "nested", "block", "long", "include", "combo", "combo", "empty key"])
        if k == "misspelt":
            allk = set(G) | set(L) | set(B) | {"include_dir"}
            while True:
                key = r.choice(list(spec))
                j = r.randrange(len(key))
                key = r.choice([key[:j] + key[j + 1:], key[:j] + r.choice("abcxyz_-") + key[j:], key.upper(), key + "s", key.replace("_", "-")])
                if key not in allk and not key.startswith("plugin_opt_") and key: break
            put(Node(key, [r.choice(["true", "1", "x"])]))
            return "unknown option '%s'" % key
        if k == "level":
            o = r.choice(other)
            keys = [x for x in o if x not in spec and o[x].good]
            key = r.choice(keys)
            put(Node(key, o[key].good(r, self)))
            return "option '%s' where it doesn't belong" % key
        if k == "value":
            keys = [x for x in spec if spec[x].bad]
            key = r.choice(keys)
            v = spec[key].bad(r, self)
            put(Node(key, v))
            # where an option is given more than once the last one counts, but a bad one is never fine
            for n in [x for x in nodes if x.key == key and x.values is not v and not spec[key].multi and key in ("fullchain", "privkey", "inet4_bind_address", "inet6_bind_address", "port", "client_verification_ca_file")]: nodes.remove(n)
            if where == "listen" and key in ("inet4_bind_address", "inet6_bind_address", "port", "fullchain", "privkey"):
                # values that are only looked at when the block is complete
                have = {x.key: x.values for x in nodes}
                if key in ("fullchain", "privkey"):
                    for o in ("fullchain", "privkey"):
                        if o not in have: nodes.append(Node(o, L[o].good(r, self)))
            return "bad value %r for '%s'" % (v, key)
        if k == "superfluous":
            c = [x for x in nodes if x.values and not (x.key in spec and spec[x.key].multi) and x.raw is None]
            if not c:
                n = Node("max_qos" if where != "bridge" else "keepalive", ["1" if where != "bridge" else "60"])
                put(n)
            else: n = r.choice(c)
            n.values = n.values + r.choice([["x"], ["#", "comment"], [""], [n.values[0]]])
            return "one value too many for '%s'" % n.key
        if k == "missing":
            key = r.choice(list(spec))
            put(Node(key, raw=key + r.choice(["", " ", "\t"])))
            return "no value for '%s'" % key
        if k == "empty key":
            put(Node("", raw=r.choice(["= 5", "\"max_qos\" 1", "max_qos=1", "max qos{", "{", "listen { port 1883 }", "} listen {", "max.qos 1", "thread_count:4"])))
            return "line without a valid key"
        if k == "quote":
            key = r.choice([x for x in ("local_username", "remote_username") if where == "bridge"] or [x for x in ("unix_socket_user", "unix_socket_group") if where == "listen"] or ["plugin_opt_x", "plugin_opt_y"])
            put(Node(key, raw=key + " " + r.choice(["\"abc", "abc\"", "'abc", "\"abc\\\"", "\"a' b", "'", "\"a\" \"b"])))
            return "unterminated quote"
        if k == "escape":
            key = r.choice([x for x in ("local_username", "remote_username") if where == "bridge"] or [x for x in ("unix_socket_user", "unix_socket_group") if where == "listen"] or ["plugin_opt_x", "plugin_opt_y"])
            put(Node(key, raw=key + " " + r.choice(["a\\nb", "\"a\\x\"", "\\ a", "a\\", "\"ab\"\\", "'\\0'"])))
            return "bad escape"
        if k == "brace":
            blocks = [n for n in t if n.block is not None]
            j = r.randrange(3)
            if j == 0 or not blocks:
                t.insert(r.randint(0, len(t)), Node("", raw=r.choice(["}", "listen {", "bridge {"])))
                return "unbalanced braces"
            if j == 1:
                t.insert(0, Node("", raw="}"))
                t.append(Node("", raw="listen {"))
                return "closing before opening"
            b = r.choice(blocks)
            b.block.insert(r.randint(0, len(b.block)), Node("", raw="}"))
            return "a closing brace too many in a block"
        if k == "nested":
            blocks = [n for n in t if n.block is not None]
            if not blocks:
                blocks = [self.listener()]
                t += blocks
            b = r.choice(blocks)
            b.block.insert(r.randint(0, len(b.block)), self.listener() if r.random() < .5 else self.bridge(7))
            return "nested block"
        if k == "block":
            n = self.listener()
            n.key = r.choice(["listener", "Listen", "bridges", "liste", "server", "thread_count"])
            t.insert(r.randint(0, len(t)), n)
            return "unknown block '%s'" % n.key
        if k == "long":
            key = r.choice(["plugin_opt_x"] if where == "" else ["unix_socket_user"] if where == "listen" else ["local_username"])
            put(Node(key, raw=key + " " + "x" * r.choice([257 - len(key) - 1, 300, 5000, 100000])))
            return "line too long"
        if k == "include":
            # an include_dir line that is in the file: the directory must be there
            put(Node("include_dir", [r.choice([self.dir + "/absent", CERT])]))
            return "include_dir which is not there"
        # combinations
        c = r.randrange(14)
        if c < 9:
            if c == 0: n, d = self.listener("tls"), "acme_redirect_url with TLS"; n.block.append(Node("acme_redirect_url", ["http://x/"]))
            elif c == 1: n, d = self.listener("unix"), "unix socket without path"; n.block = [x for x in n.block if x.key != "unix_socket_path"]
            elif c == 2: n, d = self.listener("tcp"), "unix_socket_path for an IP listener"; n.block.append(Node("unix_socket_path", ["/tmp/x"]))
            elif c == 3: n, d = self.listener("unix"), "bind address for a unix socket"; n.block.append(Node("inet4_bind_address", ["127.0.0.1"]))
            elif c == 4: n, d = self.listener("unix"), "TLS on a unix socket"; n.block += [Node("fullchain", [CERT]), Node("privkey", [KEY])]
            elif c == 5: n, d = self.listener("tcp"), "client verification without TLS"; n.block.append(Node("client_verification_ca_file", [CERT]))
            elif c == 6: n, d = self.listener("acme"), "ACME listener without redirect"; n.block = [x for x in n.block if x.key != "acme_redirect_url"]
            elif c == 7: n, d = self.listener("mtls"), "client verification by both"; n.block.append(Node("haproxy", ["client_verification"]))
            else:
                n, d = self.listener("tls"), "TLS with only one of certificate and key"
                x = r.choice(["fullchain", "privkey"])
                n.block = [y for y in n.block if y.key not in (x, "drop_on_absent_certificate")]
            t.insert(r.randint(0, len(t)), n)
            return d
        n = self.bridge(3)
        rm = lambda *ks: setattr(n, "block", [x for x in n.block if x.key not in ks])
        if c == 9: rm("address"); d = "bridge without address"
        elif c == 10: rm("subscribe", "publish"); d = "bridge without topics"
        elif c == 11: rm("ca_file", "ca_dir"); n.block += [Node("ca_file", [CERT]), Node("ca_dir", [self.dir + "/sub"])]; d = "ca_file and ca_dir"
        elif c == 12: rm("protocol_version", "connection_count"); n.block.append(Node("connection_count", ["2"])); d = "several connections below MQTT 5"
        else:
            rm("clientid_prefix")
            n.block.append(Node("clientid_prefix", ["same"]))
            m = self.bridge(2)
            m.block = [x for x in m.block if x.key != "clientid_prefix"] + [Node("clientid_prefix", ["same"])]
            t.append(m)
            d = "two bridges with the same prefix"
        t.insert(r.randint(0, len(t)), n)
        return d


def gen_conf(rng, bad):
    g = ConfGen(rng)
    t = g.tree()
    reason = g.defect(t) if bad else None
    g.files["main.conf"] = "\n".join(g.text(t)) + rng.choice(["\n", "", "\n\n"])
    return dict(files=g.files, dirs=g.dirs, bad=reason)
