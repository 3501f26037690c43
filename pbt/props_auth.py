"""Access control: ACL file (A01), password file (A02), life before CONNECT (A03), network policies (A04)."""
import base64, hashlib, os, random, time
import mqtt
from runner import Check
from world import World, Violation
from gen import Gen
from server import Server, Conn, Hang
from props_world import HIST, W, has, STORE


# ----------------------------------------------------------------------------------------------- A01
def acl_match(f, levels):
    for i, x in enumerate(f):
        if x == "#": return True
        if i >= len(levels) or (x != "+" and x != levels[i]): return False
    return len(f) == len(levels)


class Acl:
    """rules: ["t"/"p", user or None, access, filter]; 't' rules belong to one user (None: anonymous), 'p' rules to everybody."""
    def __init__(self, rules):
        self.rules = rules

    def allowed(self, cid, user, topic, want):
        levels = topic.split("/")
        ok = False
        for kind, u, access, filt in self.rules:
            f = filt.split("/")
            if kind == "t":
                if (u or "") != (user or ""): continue
            else:
                f = [user if x == "%u" else cid if x == "%c" else x for x in f]
                # what stood for the user is no wildcard
                if any(x in ("%u", "%c") and y in ("+", "#") for x, y in zip(filt.split("/"), f)): continue
            if not acl_match(f, levels): continue
            if access == "deny": return False
            if want in access or access == "": ok = True
        return ok

    def text(self, rng):
        groups = {}
        for r in self.rules:
            groups.setdefault(r[1] if r[0] == "t" else rng.choice([None, "u1", "u2"]), []).append(r)
        out = []
        if None in groups: order = [None] + sorted(k for k in groups if k)
        else: order = sorted(groups)
        for u in order:
            if u is not None: out.append(rng.choice(["user ", "user ", "User  "]) + u)
            for kind, _, access, filt in groups[u]:
                w = rng.choice(["topic", "topic", "TOPIC"]) if kind == "t" else "pattern"
                acc = {"r": "read", "w": "write", "rw": "readwrite", "deny": "deny", "": ""}[access]
                if rng.random() < .2: acc = acc.upper()
                out.append(w + " " * rng.choice([1, 1, 2]) + (acc + " " * rng.choice([1, 1, 3]) if acc else "") + filt)
                if rng.random() < .15: out.append(rng.choice(["", "# comment", "  ", "#topic deny #"]))
        return "\n".join(out) + "\n"


USERS = ["u1", "u2", "bob smith"]


def gen_rules(rng, g):
    rules = []
    for _ in range(rng.randint(4, 16)):
        base = rng.choice(g.topics + g.filters)
        ls = base.split("/")
        ls = ["+" if rng.random() < .2 else x for x in ls]
        if rng.random() < .4: ls = ls[:rng.randint(1, len(ls))] + ["#"]
        if "#" in ls: ls = ls[:ls.index("#") + 1]
        kind = "t"
        if rng.random() < .4:
            kind = "p"
            if rng.random() < .8 and ls[0] != "#":
                i = rng.randrange(len(ls) - (ls[-1] == "#"))
                ls[i] = rng.choice(["%u", "%c"])
        f = "/".join(ls)
        if not f or f.startswith(" ") or f.endswith(" ") or f.startswith("/ "): continue
        rules.append([kind, None if kind == "p" else rng.choice([None] + USERS + USERS), rng.choices(["r", "w", "rw", "", "deny"], [4, 4, 4, 1, 4])[0], f])
    for r in rules:
        if " " in r[3] and r[2] == "": r[2] = "rw"
    if rng.random() < .75: rules.append(["p", None, rng.choice(["r", "w", "rw", "rw", "rw", "rw"]), "#"])
    return rules


def gen_acl(rng, i):
    prof = dict(n_ops=(18, 36), n_cids=(2, 4), users=[None] + USERS, n_topics=(3, 8), depth=(1, 4), levels=rng.sample(["a", "b", "u1", "u2", "c0", "c1", "%u", "%c", "bob smith", "c d"], 4),
                retain=.3, clean=.3, exps=[0, 3600], props=.1, wills=.4, qos=[0, 1, 2], same_cid=.1, shared=.05, w=W(drop=4, sub=8, conn=7, pub=14), dollar=0, wild=.7)
    if rng.random() < .3: prof.update(manual=.4, rms=[None, 1, 3])
    if rng.random() < .25: prof.update(users=["c0", "c1", "c2", "u1"], levels=["a", "c0", "c1", "%u"])      # user names and client ids that are the same text
    g = Gen(rng, **prof)
    ops = g.ops()
    case = dict(threads=rng.randint(1, 2), acl=gen_rules(rng, g), aclseed=rng.randint(0, 10**6), ops=ops)
    if i % 12 == 0:
        for _ in range(rng.randint(1, 2)):
            ops.insert(rng.randrange(len(ops)), dict(o="acl", rules=gen_rules(rng, g), bad=rng.random() < .25))
    if rng.random() < .5: case["pids"] = rng.choice([2, 3, 5, 30])
    return case


class AclWorld(World):
    def set_acl(self, rules):
        a = Acl(rules)
        self.model.acl_write = lambda cid, user, topic: a.allowed(cid, user, topic, "w")
        self.model.acl_read = lambda cid, user, topic: a.allowed(cid, user, topic, "r")

    def op_acl(self, op):
        path = self.srv.dir + "/acl"
        t = os.stat(path).st_ctime
        while time.time() < t + .012: time.sleep(.002)       # time stamps of files have a granularity
        with open(path + ".n", "w") as f: f.write(Acl(op["rules"]).text(self.arng) + ("nonsense here\n" if op["bad"] else ""))
        os.rename(path + ".n", path)
        if not op["bad"]: self.set_acl(op["rules"])
        self.model.stat("acl_changed")
        self.advance(self.model.bump(self.model.now + 5000))


def run_acl(exes, case, st):
    srv = dict(start=False)
    w = None
    try:
        w = AclWorld(exes["rel"], "mosquitto_acl_file @DIR@/acl\n" + case.get("cfg", ""), case.get("model_cfg"), threads=case.get("threads", 1), server_kw=srv)
        w.arng = random.Random(case["aclseed"])
        with open(w.srv.dir + "/acl", "w") as f: f.write(Acl(case["acl"]).text(w.arng))
        w.set_acl(case["acl"])
        w.srv.start()
        w.pid_mod = case.get("pids", 65535)
        for op in case["ops"]: w.apply(op)
    except Violation as e:
        e.args = (e.args[0] + "\nlast events:\n" + "\n".join("  %6d %s %s %s" % (t, d, k, s[:240]) for t, d, k, s in w.trace[-14:]),)
        raise
    finally:
        if w:
            st.update(w.stats)
            st["deliveries"] = w.deliveries
            w.close()


Check("A01", gen_acl, run_acl, 700, 14000,
      HIST + "at least one publish/will refused for want of write access, one delivery withheld for want of read access and 2 deliveries",
      lambda c, s: s.get("acl_refused", 0) >= 1 and s.get("acl_withheld", 0) >= 1 and s.get("deliveries", 0) >= 2,
      technique="stateful model-based testing against a reference broker with an independent ACL evaluator, ddmin shrinking")


# ----------------------------------------------------------------------------------------------- A02
def pw_bytes(p):
    return bytes.fromhex(p)


def pw_hash(item, pw):
    """What the file must contain for this password; with HMAC a password and the same with NULs behind it are one key."""
    salt = bytes.fromhex(item["salt"])
    return hashlib.sha512(pw + salt).digest() if item["kind"] == "6" else hashlib.pbkdf2_hmac("sha512", pw, salt, item["it"])


def hash_line(item):
    """One line of a password file; salt and password as hex."""
    u, pw, salt, kind, it, var = item["u"], pw_bytes(item["pw"]), bytes.fromhex(item["salt"]), item["kind"], item["it"], item["var"]
    h = pw_hash(item, pw)
    if var == "short": h = h[:item["cut"]]
    b = lambda x: base64.b64encode(x).decode()
    good = "$6$%s$%s" % (b(salt), b(h)) if kind == "6" else "$7$%d$%s$%s" % (it, b(salt), b(h))
    return {"ok": u + ":" + good, "short": u + ":" + good, "nocolon": u + good, "colons": u + ":" + good + ":x", "empty": u + ":", "nouser": ":" + good, "dollar": u + ":$", "type": u + ":$6$",
            "two": u + ":$6$" + b(salt), "extra": u + ":" + good + "$x", "other": u + ":$5" + good[2:], "iter": u + ":$7$abc$%s$%s" % (b(salt), b(h)), "bigiter": u + ":$7$99999999999$%s$%s" % (b(salt), b(h)),
            "plain": u + ":secret", "dollars": u + ":$$$$", "b64": u + ":$6$" + b(salt) + "$!!!!????", "comment": "# " + u}[var]


BADV = ["short", "nocolon", "colons", "empty", "nouser", "dollar", "type", "two", "extra", "other", "iter", "bigiter", "plain", "dollars", "b64", "comment"]


def gen_pwfile(rng, users):
    items = []
    for u in users:
        if rng.random() < .15: continue
        pw = rng.choice([b"pw", b"secret", b"", b"a:b$c", "pä".encode(), b"x" * 200, b"a\0b", rng.randbytes(rng.randint(1, 40))])
        items.append(dict(u=u, pw=pw.hex(), salt=rng.randbytes(rng.choice([1, 8, 12, 16, 64])).hex(), kind=rng.choice("67"), it=rng.choice([1, 2, 101]), var="ok" if rng.random() < .7 else rng.choice(BADV),
                          cut=rng.choice([1, 16, 63])))
    return items


def gen_pw(rng, i):
    users = ["alice", "bob", "Alice", "al", "user with space", "ü", "x" * 60, "u$v", "carol"][:rng.randint(3, 9)]
    rng.shuffle(users)
    files = [gen_pwfile(rng, users)]
    steps = []
    cur = files[0]
    n = rng.randint(6, 14)
    for k in range(n):
        if i % 10 == 0 and k in (n // 2, n // 3):
            cur = gen_pwfile(rng, users)
            steps.append(dict(file=cur, how=rng.choice(["rename", "write", "gone"]) if k == n // 2 else "rename"))
            if steps[-1]["how"] == "gone": cur = next((s["file"] for s in reversed(steps[:-1]) if "file" in s), files[0])
        tries = []
        for _ in range(rng.choice([1, 1, 2, 5, 12])):
            it = rng.choice(cur) if cur and rng.random() < .75 else None
            u = it["u"] if it else rng.choice(users + ["nobody", "ALICE", "b", "", "a+b", "c#", None, None])
            right = pw_bytes(it["pw"]) if it else b"pw"
            z = rng.random()
            if z < .45: pw = right
            elif z < .9: pw = rng.choice([right[:-1], right + b"\0", right + b"x", right.upper(), b"", None, b"pw", right.split(b"\0")[0], pw_bytes(rng.choice(cur)["pw"]) if cur else b"q", b"\0" + right])
            else: pw = rng.randbytes(rng.choice([3, 30, 65535]))
            if u is not None and pw is None and rng.random() < .5: pw = b""
            tries.append(dict(l=rng.randint(0, 1), ver=rng.choice([3, 4, 5, 5]), u=u, pw=pw.hex() if pw is not None else None, vic=rng.random() < .2, am=rng.random() < .06))
        steps.append(dict(tries=tries))
    return dict(threads=rng.randint(1, 3), anon=rng.random() < .5, over=rng.choice([None, True, False]), zero=rng.random() < .3, unsafe=rng.random() < .3, file=files[0], steps=steps, asan=i % 6 == 0)


def run_pw(exes, case, st):
    tf = lambda b: "true" if b else "false"
    cfg = "mosquitto_password_file @DIR@/pw\nallow_anonymous %s\nzero_byte_username_is_anonymous %s\nallow_unsafe_username_chars %s\n" % (tf(case["anon"]), tf(case["zero"]), tf(case["unsafe"]))
    lst = "listen {\n protocol mqtt\n inet_protocol unix\n unix_socket_path @SOCK@\n}\nlisten {\n protocol mqtt\n inet_protocol unix\n unix_socket_path @SOCK@2\n%s}\n" % (
        "" if case["over"] is None else " allow_anonymous %s\n" % tf(case["over"]))
    srv = Server(exes["asan" if case.get("asan") else "rel"], cfg, threads=case["threads"], listeners=lst, start=False)
    path = srv.dir + "/pw"
    cur = case["file"]

    def content(items):
        return "".join(hash_line(x) + "\n" for x in items)

    def table(items):
        t = {}
        for x in items:
            if x["var"] in ("ok", "short") and x["u"] not in t: t[x["u"]] = x
        return t
    try:
        with open(path, "w") as f: f.write(content(cur))
        srv.start()
        known = table(cur)
        # somebody who must never be disturbed by a refused connection
        victim = Conn(srv.sock)
        vit = next((x for x in known.values() if x["var"] == "ok" and x["u"] not in ("", None)), None)
        vuser, vpw = (vit["u"], pw_bytes(vit["pw"])) if vit else (None, None)
        victim.send(mqtt.connect("victim", 4, True, 0, vuser, vpw))
        vin = bool(vit) or case["anon"]
        srv.quiesce(); victim.pump()
        check_answer(victim, 4, vin, "first connection of user %r" % (vuser,), srv, st)
        opened = []
        n = 0
        for step in case["steps"]:
            if "file" in step:
                t = os.stat(path).st_ctime if os.path.exists(path) else time.time()
                while time.time() < t + .012: time.sleep(.002)
                if step["how"] == "gone": os.unlink(path)
                else:
                    p2 = path + ".n" if step["how"] == "rename" else path
                    with open(p2, "w") as f: f.write(content(step["file"]))
                    if p2 != path: os.rename(p2, path)
                    known = table(step["file"])
                for _ in range(5):
                    srv.step_clock(1000); srv.quiesce(clock=True)
                st["file_changes"] = st.get("file_changes", 0) + 1
                continue
            batch = []
            for t in step["tries"]:
                c = Conn(srv.sock + ("2" if t["l"] else ""))
                u, pw = t["u"], pw_bytes(t["pw"]) if t["pw"] is not None else None
                anon = case["over"] if t["l"] and case["over"] is not None else case["anon"]
                user = u
                ok = None
                if u == "":
                    if case["zero"]: user = None
                    else: ok = False
                if u and ("+" in u or "#" in u) and not case["unsafe"]: ok = False
                if u is None and pw is not None and t["ver"] < 5: ok = False
                if t["am"] and t["ver"] == 5: ok = False
                if ok is None:
                    if user is None: ok = anon
                    elif user in known: ok = known[user]["var"] == "ok" and pw_hash(known[user], pw or b"") == pw_hash(known[user], pw_bytes(known[user]["pw"]))
                    else: ok = anon
                vic = t["vic"] and vin and not ok
                n += 1
                cid = "victim" if vic else "t%d" % n
                props = {"auth_method": "SCRAM"} if t["am"] and t["ver"] == 5 else None
                batch.append((c, t, ok, u, pw, vic))
                if vic: st["victim_tries"] = st.get("victim_tries", 0) + 1
                st["right" if ok else "wrong"] = st.get("right" if ok else "wrong", 0) + 1
                if user in known: st["known_user"] = st.get("known_user", 0) + 1
                # a will that a refused connection must not cause
                will = dict(topic="will/t", payload=b"w") if not ok else None
                c.out = mqtt.connect(cid, t["ver"], True, 0, u, pw, will, props) + (mqtt.publish(t["ver"], "x", b"sneak", 0) if not ok else b"")
            for b in batch: b[0].send(b[0].out)
            srv.quiesce()
            for _ in range(3):
                srv.step_clock(200); srv.quiesce(clock=True)
            for c, t, ok, u, pw, vic in batch:
                c.pump()
                check_answer(c, t["ver"], ok, "%s user %r password %r" % ("known" if u in known else "unknown", u, (pw or b"")[:60] if pw is not None else None), srv, st)
                if ok: opened.append((c, t))
            if vin:
                victim.pump()
                if victim.eof: raise Violation("closed", "a refused connection disturbed the connected client")
                victim.send(mqtt.pingreq()); srv.quiesce(); victim.pump()
                if bytes(victim.buf) != b"\xd0\0": raise Violation("unexpected", "the undisturbed client received %s" % bytes(victim.buf)[:60].hex())
                victim.buf.clear()
            while len(opened) > 20: opened.pop(0)[0].close()
        srv.check_alive()
    finally:
        srv.close()


def check_answer(c, ver, ok, what, srv, st):
    pk = [mqtt.decode(f, b, ver) for f, b in mqtt.split(c.buf)]
    acks = [p for p in pk if p.t == mqtt.CONNACK]
    if ok:
        if len(pk) != 1 or not acks or acks[0].rc != 0 or c.eof:
            raise Violation("refused", "%s should have been accepted, got %s eof=%s" % (what, pk, c.eof))
    else:
        if any(p.t != mqtt.CONNACK or p.rc == 0 for p in pk) or len(pk) > 1:
            raise Violation("accepted", "%s should have been refused, got %s" % (what, pk))
        if not c.eof:
            raise Violation("not-closed", "%s was refused but the connection stays open: %s" % (what, pk))
        c.close()


Check("A02", gen_pw, run_pw, 900, 18000,
      "Case: a password file (valid $6$/$7$ entries and malformed lines), anonymous settings of the broker and a listener, and batches of CONNECTs with right, nearly right and wrong credentials, some "
      "after changes of the file. Every answer is compared with an independent evaluation of the file. Distinct = different case JSON. Non-trivial = at least two accepted and two refused connections, one of a user in the file",
      lambda c, s: s.get("right", 0) >= 2 and s.get("wrong", 0) >= 2 and s.get("known_user", 0) >= 1,
      variants=("rel", "asan"), technique="property-based testing against an independent evaluator of the password file, ddmin shrinking")
