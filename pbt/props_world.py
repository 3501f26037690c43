"""Properties decided by random operation histories against the reference broker (model.py / world.py)."""
import random
from runner import Check
from world import World, Violation
from gen import Gen
import stress, bulk


def run_world(exes, case, stats, cls=World):
    if case.get("bulk"):
        bulk.RUN[case["bulk"]](exes[case.get("variant", "rel")], case, stats)
        return
    if case.get("stress") == "ret":
        stress.run_ret(exes[case.get("variant", "rel")], case, stats)
        stats["racy_runs"] = 1
        return
    if case.get("stress"):
        stress.run(exes[case.get("variant", "rel")], case, stats, case["kinds"])
        stats["racy_runs"] = 1
        return
    w = cls(exes[case.get("variant", "rel")], case.get("cfg", ""), case.get("model_cfg"), threads=case.get("threads", 1), server_kw=case.get("srv"))
    w.pid_mod = case.get("pids", 65535)
    try:
        for op in case["ops"]:
            w.apply(op)
    except Exception as e:
        if isinstance(e, Violation):
            e.args = (e.args[0] + "\nlast events:\n" + "\n".join("  %6d %s %s %s" % (t, d, k, s[:240]) for t, d, k, s in w.trace[-14:]),)
        raise
    finally:
        stats.update(w.stats)
        stats["deliveries"] = w.deliveries
        stats["ops"] = len(case["ops"])
        stats["skipped"] = w.skipped
        w.close()


def profiles(*ps, kinds=None, every=8):
    """ps: (weight, dict of generator settings [+ cfg, model_cfg])"""
    ws = [p[0] for p in ps]

    def gen(rng, i):
        if kinds == "bulk" and i % every == every - 1: return bulk.gen(rng)
        if kinds in ("slow", "anon") and i % every == every - 1: return bulk.gen_slow(rng) if kinds == "slow" else bulk.gen_anon(rng)
        if kinds == "ret" and i % every == every - 1: return stress.gen_ret(rng)
        if kinds == "ret" and i % every == 7: return bulk.gen_rtree(rng)
        if kinds in ("tree", "stree"):
            if i % every == every - 1: return bulk.gen_tree(rng, sh=kinds == "stree")
        if kinds and kinds not in ("ret", "bulk", "tree", "stree", "slow", "anon") and i % every == every - 1:
            return dict(stress.gen(rng), kinds=kinds)
        prof = rng.choices([p[1] for p in ps], ws)[0]
        prof = dict(prof)
        cfg = prof.pop("cfg", "")
        mc = prof.pop("model_cfg", None)
        if callable(cfg): cfg, mc = cfg(rng)
        if mc and "alias_in" in mc: prof["al_ids"] = alias_ids(rng, mc)
        name = prof.pop("name", None)
        t0s = prof.pop("t0s", None)
        case = dict(threads=rng.randint(1, 3), ops=Gen(rng, **prof).ops())
        if cfg: case["cfg"] = cfg
        if mc: case["model_cfg"] = mc
        if name: case["profile"] = name
        if t0s and rng.random() < .4: case["srv"] = dict(t0=rng.choice(t0s))
        if rng.random() < .3: case["pids"] = rng.choice([40, 60, 300])
        return case
    return gen


STORE = "storage_dir @DIR@/store\n"
HIST = "Case: random history of client operations (connect/disconnect/drop/subscribe/unsubscribe/publish/ack/time), run on a real broker " \
       "process and on the reference broker; every packet received is compared. Distinct = different case JSON. Non-trivial = "
W = lambda **k: dict(dict(conn=6, disc=2, drop=2, sub=6, unsub=1.5, pub=14, burst=2, redup=0, rel=0, ack=0, ping=0.5, adv=0, restart=0), **k)


def world(pid, ps, n, nt, rule, n_thorough=None, kinds=None, every=8, technique="stateful model-based testing against a reference broker, ddmin shrinking", note="", **kw):
    Check(pid, profiles(*ps, kinds=kinds, every=every), run_world, n, n_thorough or n * 20, HIST + rule, nt, technique=technique, note=note, **kw)


def has(*ks, **ge):
    def f(case, st):
        return all(st.get(k, 0) >= 1 for k in ks) and all(st.get(k, 0) >= v for k, v in ge.items())
    return f


FLOW = dict(manual=.5, rms=[None, 1, 2, 3, 5], hold=.4, same_cid=.2, al=.3, retain=.3, w=W(ack=10, redup=3, rel=3, drop=4))

world("R01", [
    (3, dict(n_ops=(25, 50), n_topics=(4, 14), depth=(1, 6), wild=.8, qos=[0, 0, 1, 2], retain=0, w=W(conn=2, disc=.5, drop=.5, sub=9, unsub=2, pub=12, burst=5),
             nl=0, props=0, sids=.3, multi_sub=.4)),
    (1, dict(n_ops=(25, 40), n_topics=(4, 10), depth=(3, 20), wild=.9, qos=[0], retain=0, w=W(conn=2, disc=0, drop=0, sub=9, unsub=2, pub=12, burst=5), props=0,
             levels=["a", "", "b", "aaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaa"])),
    (1, dict(n_ops=(20, 40), n_topics=(2, 6), depth=(1, 4), levels=["a", "b", ""], wild=.8, retain=0, dollar=.9, shared=.2, props=0, n_cids=(2, 5))),
    (1, dict(n_ops=(20, 40), n_topics=(3, 8), long_levels=1, depth=(1, 3), wild=.6, retain=0, props=0)),
], 900, has(wild_delivered=2, delivered=4), "at least 4 deliveries, two of them through wildcard filters")

world("R02", [
    (3, dict(n_ops=(12, 24), n_cids=(3, 5), props=.9, sizes=[(0, 20), (0, 20), (100, 300), (1000, 5000)], wild=.3, n_topics=(1, 3), w=W(conn=3, disc=1, drop=1, pub=16, burst=5),
             ams=[None, None, 5], rap=.5, msg_exp=[None, None, 600])),
    (1, dict(n_ops=(8, 14), n_cids=(2, 4), props=.6, sizes=[(60, 200), (16000, 16500), (65400, 65700), (100000, 200000)], wild=.3, n_topics=(1, 2), qos=[1, 2], sub_qos=[1, 2],
             w=W(conn=2, disc=.3, drop=.5, pub=10, burst=2), burst=(2, 3), retain=.2, model_cfg=dict(max_bytes=100000000), cfg="max_qos_bytes_pending_per_client 100000000\n")),
], 800, has(delivered=4), "at least 4 deliveries")

world("R04", [
    (3, dict(nl=.4, rap=.5, rh=[0, 0, 1, 2], sids=.7, retain=.4, multi_sub=.5, vers=[5, 5, 5, 5, 4, 3], n_topics=(1, 4), wild=.7, props=.2, w=W(sub=10, unsub=2, pub=12))),
    (1, dict(nl=.3, rap=.5, rh=[0, 1, 2], sids=.8, retain=.5, multi_sub=.3, vers=[5], clean=.2, exps=[3600], n_topics=(1, 3), w=W(sub=7, drop=4, conn=7), props=.2)),
    (1, dict(nl=.3, rap=.5, sids=.8, retain=.3, multi_sub=.3, vers=[5], clean=.1, exps=[3600], n_topics=(1, 3), props=.2, manual=.5, rms=[None, 1, 2], w=W(ack=8, drop=4, sub=7))),
], 900, lambda c, s: s.get("delivered", 0) >= 4 and any(o["o"] == "sub" and (o.get("sid") or any(x[2] or x[3] or x[4] for x in o["subs"])) for o in c["ops"]),
    "at least 4 deliveries and a subscription with an identifier or option")

world("R05", [
    (3, dict(n_ops=(25, 45), n_cids=(2, 4), n_topics=(2, 5), depth=(1, 4), levels=["a", "b", "c"], retain=.05, props=.1, w=W(sub=9, unsub=7, pub=12, conn=5, disc=2, drop=2), multi_sub=.4,
             exps=[0, 100, 3600], shared=.15)),
    (1, dict(n_ops=(25, 45), n_cids=(3, 4), n_topics=(2, 5), depth=(1, 5), levels=["a", "b", "c"], retain=.05, props=.1, w=W(sub=8, unsub=5, pub=10, conn=6, disc=2, drop=3, adv=2),
             advs=[1000, 40000, 200000, 2100000], exps=[0, 20, 100, 60000], vers=[3, 4, 4, 5, 5], shared=.1, clean=.4)),
], 800, has("unsubscribed", delivered=3), "an unsubscribe of an existing subscription and at least 3 deliveries", kinds="tree", every=16)


def shared_cfg(rng):
    m = rng.choice(["round_robin", "sender_hash", "first"])
    return "shared_subscription_targeting %s\n" % m, None


world("R06", [
    (2, dict(n_cids=(3, 5), n_topics=(1, 3), w=W(drop=4), shared=.6, clean=.2, cfg=shared_cfg, nl=0)),
    (2, dict(n_cids=(3, 5), n_topics=(1, 2), w=W(drop=1, disc=1, sub=8, unsub=5), shared=.8, clean=.5, cfg=shared_cfg, nl=0, wild=.3)),
    (1, dict(n_cids=(3, 5), n_topics=(1, 2), n_ops=(20, 40), w=W(drop=2, disc=2, sub=8, unsub=2, adv=1.5), advs=[1000, 40000, 200000, 2100000], exps=[0, 20, 100, 60000],
             shared=.8, clean=.4, cfg=shared_cfg, nl=0, wild=.3)),
], 900, has(shared=3), "at least 3 messages went through a group", kinds="stree", every=16)

world("D01", [
    (3, dict(hold=.6, retain=.2, al=.3, same_cid=.2, clean=.3, n_cids=(2, 3), qos=[1, 2, 2, 2], props=.3, w=W(redup=5, rel=3, drop=4, conn=7, pub=12, sub=4))),
    (1, dict(hold=.7, n_cids=(2, 3), clean=.1, qos=[2, 2, 1], props=.2, exps=[3600], cfg=STORE, advs=[1000], w=W(redup=4, rel=3, drop=3, conn=7, restart=1))),
], 800, has("retransmitted", "delivered"), "a QoS 2 retransmission before its PUBREL and a delivery")

world("D02", [
    (3, dict(manual=.8, rms=[None, None, 1, 2, 3], clean=.1, exps=[3600], same_cid=.2, n_topics=(1, 4), qos=[1, 2, 2], sub_qos=[1, 2, 2], retain=.15, w=W(ack=9, drop=6, disc=2, conn=9, sub=5))),
    (1, dict(manual=.8, rms=[None, 1, 3], clean=0, exps=[3600], n_topics=(1, 3), qos=[1, 2, 2], sub_qos=[1, 2, 2], cfg=STORE, w=W(ack=8, drop=4, conn=9, sub=5, restart=1.2))),
], 800, lambda c, s: (s.get("resent", 0) + s.get("rel_resent", 0) >= 1 and s.get("manual_ack", 0) >= 1) or s.get("reconnects", 0) >= 3, "a redelivery (PUBLISH or PUBREL) after reconnect and manual acknowledgements, or a concurrency run with reconnects" , kinds=["loss", "dup", "closed", "connack"], every=8)

world("R03", [
    (2, dict(n_cids=(2, 4), n_topics=(1, 3), depth=(1, 2), qos=[0, 1, 2], sub_qos=[1, 2, 2], manual=.5, rms=[None, None, 1, 2, 5], clean=.15, exps=[3600], retain=.1, props=.2, shared=.1, nl=.05,
             w=W(pub=10, burst=9, ack=8, drop=5, disc=2, conn=8, sub=4), burst=(3, 15), sizes=[(0, 20), (0, 20), (300, 3000)], same_cid=.2, wild=.4)),
    (1, dict(n_cids=(2, 3), n_topics=(1, 2), depth=(1, 2), qos=[0, 1, 2], sub_qos=[1, 2, 2], manual=.4, clean=.05, exps=[3600], retain=.1, props=.2, nl=.05, cfg=STORE,
             w=W(pub=8, burst=7, ack=6, drop=4, conn=8, sub=4, restart=1), burst=(3, 15), wild=.4)),
    (1, dict(n_cids=(2, 3), n_topics=(1, 2), depth=(1, 2), qos=[0, 1, 2], sub_qos=[1, 2, 2], al=.5, ams=[None, 1, 3], clean=.3, exps=[3600], props=.3, msg_exp=[None, None, 3600],
             w=W(pub=8, burst=9, drop=3, conn=6, sub=4), burst=(5, 30), sizes=[(0, 20), (0, 20), (300, 3000), (65000, 66000)], cfg="client_max_write_buffer_size 30000000\nmax_qos_bytes_pending_per_client 100000000\nmax_qos_msg_pending_per_client 5000\n",
             model_cfg=dict(max_bytes=100000000, max_pending=5000))),
], 600, lambda c, s: (s.get("reconnects", 0) >= 1 or any(o["o"] == "burst" for o in c.get("ops", []))) and s.get("deliveries", 0) >= 6, "a burst of messages (or a concurrency run with reconnects) and at least 6 deliveries",
    kinds=["order", "connack"], every=6)

world("D03", [
    (3, dict(manual=.8, rms=[None, 1, 1, 2, 3, 5], clean=.3, exps=[3600], same_cid=.2, n_topics=(1, 3), qos=[1, 2, 2], sub_qos=[1, 2, 2], retain=.15, w=W(ack=14, reack=4, drop=4, disc=2, conn=7, sub=5, pub=10, burst=4),
             ack_err=.3, mps=[None, None, 60], sizes=[(0, 20), (0, 20), (40, 200)])),
    (1, dict(manual=.7, rms=[None, 1, 2, 3], clean=.1, exps=[3600], n_topics=(1, 3), qos=[1, 2], sub_qos=[1, 2], cfg=STORE, w=W(ack=10, reack=3, drop=4, conn=8, sub=5, restart=1, burst=4))),
    (1, dict(manual=.5, rms=[1, 2, 3], clean=.2, exps=[3600], msg_exp=[5, 20, 60], advs=[1000, 8000, 30000], vers=[5], n_topics=(1, 3), qos=[1, 2], sub_qos=[1, 2], w=W(ack=10, reack=3, drop=4, conn=8, sub=5, adv=3, burst=4))),
], 700, lambda c, s: (s.get("manual_ack", 0) >= 1 and s.get("deliveries", 0) >= 3) or s.get("windows", 0) >= 1,
    "manual acknowledgements and at least 3 deliveries, or a concurrency run in which a whole receive-maximum window was probed at the end", kinds=["quota", "dup", "connack"], every=8)

world("D04", [
    (3, dict(clean=.1, exps=[3600], n_cids=(2, 4), n_topics=(1, 5), qos=[0, 1, 1, 2], w=W(drop=4, disc=4, conn=5, pub=16, burst=4), retain=.1, props=.5, msg_exp=[None, None, 600])),
    (1, dict(clean=.05, exps=[3600], n_cids=(2, 3), n_topics=(1, 3), qos=[0, 1, 2], w=W(drop=4, disc=4, conn=4, pub=10, burst=8), burst=(10, 30), retain=.05, props=.2, rms=[None, 3, 10, 20])),
    (1, dict(clean=.05, exps=[3600], n_cids=(2, 3), n_topics=(1, 3), qos=[0, 1, 2], w=W(drop=4, disc=4, conn=4, pub=10, burst=3, restart=.7), cfg=STORE)),
], 800, has(queued_offline=2, from_queue=2), "at least two messages queued for an off-line session and delivered from the queue")


def limits_cfg(rng):
    n, b = rng.choice([(32, 10**8), (40, 4096), (512, 4096), (100, 20000), (33, 65536)])
    return "max_qos_msg_pending_per_client %d\nmax_qos_bytes_pending_per_client %d\n" % (n, b), dict(max_pending=n, max_bytes=b)


def limits_store(rng):
    a, b = limits_cfg(rng)
    return a + STORE, b


world("D05", [
    (3, dict(clean=.1, exps=[3600], n_cids=(2, 3), n_topics=(1, 3), qos=[1, 1, 2, 0], sub_qos=[1, 2], w=W(drop=3, disc=3, conn=5, pub=6, burst=10, ack=6), burst=(10, 40), sizes=[(0, 20), (0, 20), (100, 900)],
             manual=.5, cfg=limits_cfg, retain=.02, props=.2, wild=.3, rms=[None, None, 10, 40])),
    (1, dict(clean=.05, exps=[3600], n_cids=(2, 3), n_topics=(1, 2), qos=[1, 2], sub_qos=[1, 2], w=W(drop=2, disc=3, conn=5, pub=4, burst=10, ack=3, restart=1.2), burst=(10, 40), sizes=[(0, 20), (100, 900)],
             manual=.3, cfg=limits_store, retain=.02, props=.2, wild=.3)),
    (1, dict(clean=.05, exps=[36000], n_cids=(2, 3), n_topics=(1, 2), qos=[1, 1, 2], sub_qos=[1, 2], vers=[5, 5, 5, 4], w=W(drop=4, disc=3, conn=3, pub=4, burst=8, ack=2, adv=4), burst=(10, 40), sizes=[(0, 20), (100, 900), (500, 1500)],
             manual=.3, cfg=limits_cfg, retain=.02, props=.2, wild=.3, msg_exp=[None, 5, 5, 20, 60], advs=[1000, 8000, 30000])),
], 650, has("dropped_limit", "delivered"), "a message dropped at the configured limit (or with a full write buffer) and deliveries", kinds="slow", every=24)


def alias_cfg(rng):
    i, o = rng.choice([1, 4, 10, 65535]), rng.choice([0, 1, 3, 65535])
    return "max_incoming_topic_alias_value %d\nmax_outgoing_topic_alias_value %d\n" % (i, o), dict(alias_out=o, alias_in=i)


def alias_ids(rng, mc):
    i = mc["alias_in"]
    return [x for x in [1, 2, 3, 4, 4, i, i, max(1, i - 1), min(i, 1000)] if x <= i]


world("D06", [
    (2, dict(al=.7, ams=[0, 1, 2, 5, 50], vers=[5, 5, 5, 4], n_topics=(2, 8), n_cids=(2, 4), retain=.15, props=.2, w=W(pub=14, burst=5, drop=2, conn=6, badalias=1.5), same_cid=.1, cfg=alias_cfg)),
    (1, dict(al=.5, ams=[1, 3, 10], vers=[5], n_topics=(1, 3), manual=.4, rms=[None, 1, 2], clean=.2, exps=[3600], w=W(pub=12, ack=6, drop=4, conn=8), mps=[None, 60, 100], sizes=[(0, 20), (20, 90)])),
], 800, lambda c, s: s.get("alias_resolved", 0) + s.get("alias_only_in", 0) >= 2, "at least two alias-only messages in either direction")

world("D07", [
    (3, dict(mps=[None, 50, 60, 80, 100, 200, 1000], vers=[5, 5, 5, 4], n_topics=(1, 4), qos=[0, 1, 2], sub_qos=[0, 1, 2, 2], sizes=[(0, 20), (10, 60), (20, 120), (150, 220), (900, 1100)], props=.5, retain=.3,
             ams=[None, 3], manual=.2, rms=[None, 1, 2, 5], clean=.3, exps=[3600], w=W(drop=4, conn=7, pub=14, ack=3), wills=.2)),
    (1, dict(mps=[50, 60, 100, 127, 128, 129, 130], vers=[5], n_topics=(1, 2), qos=[1, 2], sub_qos=[1, 2], sizes=[(0, 20), (20, 140)], props=.2, retain=.1, rms=[1, 2, 3], clean=.1, exps=[3600],
             w=W(drop=5, conn=8, pub=12, burst=4), depth=(1, 2))),
    (1, dict(mps=[16383, 16384, 16400, 65535, 65540], vers=[5, 5, 4], n_topics=(1, 2), qos=[0, 1, 2], sizes=[(0, 20), (16300, 16420), (65480, 65560)], props=.1, retain=.2, rms=[None, 2],
             w=W(conn=6, pub=10, burst=3), cfg="max_qos_bytes_pending_per_client 100000000\n", model_cfg=dict(max_bytes=100000000))),
    (2, dict(n_cids=(2, 3), vers=[3, 4, 5], n_topics=(1, 3), sizes=[(0, 20), (1000, 2500)], qos=[0, 1, 2], retain=.2, props=.2, wills=.3, clean=.4, exps=[3600], w=W(conn=8, pub=12, burst=1, toobig=3),
             cfg="max_packet_size 4096\nmax_qos_bytes_pending_per_client 100000000\n", model_cfg=dict(max_bytes=100000000, max_packet=4096))),
], 700, lambda c, s: s.get("too_big", 0) + s.get("toobig_in", 0) >= 1 and s.get("deliveries", 0) >= 2, "a message too big for its receiver (or a packet too big for the broker) and at least 2 deliveries")

world("D08", [
    (2, dict(msg_exp=[None, 5, 20, 60, 300], w=W(adv=3, drop=4, disc=2, conn=3, pub=14), advs=[1000, 3000, 8000, 30000, 70000], retain=.4, clean=.05, exps=[60000], qos=[0, 1, 1, 2], sub_qos=[1, 2],
             vers=[5, 5, 5, 5, 4], n_cids=(2, 3), n_topics=(1, 4), props=.2)),
    (1, dict(msg_exp=[5, 20, 60], w=W(adv=4, ack=5, drop=4, conn=6, pub=14), advs=[1000, 3000, 8000, 30000], retain=.1, clean=.05, exps=[60000], qos=[1, 2], sub_qos=[1, 2], vers=[5], manual=.8, rms=[None, 1, 2],
             n_cids=(2, 3), n_topics=(1, 3), props=.1)),
    (1, dict(wills=.8, will_delays=[0, 0, 5, 30], msg_exp=[20, 60, 300], vers=[5], w=W(adv=4, drop=6, conn=6), advs=[1000, 8000, 30000], exps=[60000], clean=.1, retain=.3, n_topics=(1, 3), props=.2)),
    (1, dict(msg_exp=[5, 20, 60, 300], w=W(adv=3, drop=3, conn=4, pub=12, restart=1.2), advs=[1000, 8000, 30000], downs=[0, 5000, 30000], retain=.4, clean=.05, exps=[60000], qos=[1, 2], sub_qos=[1, 2],
             vers=[5], n_cids=(2, 3), n_topics=(1, 3), cfg=STORE)),
], 700, lambda c, s: s.get("expired_in_queue", 0) + s.get("expired_retained", 0) + s.get("waited", 0) >= 1,
    "a message expired in a queue or as retained message, or was delivered after waiting at least 2 s")

RET = dict(retain=.85, clear=.3, n_topics=(3, 10), depth=(1, 5), wild=.8, levels=["a", "b", "c", ""], props=.3)
world("T01", [
    (3, dict(RET, w=W(sub=9, pub=12, burst=3, unsub=2, conn=3), rh=[0, 0, 0, 1, 2], multi_sub=.4, n_ops=(20, 40))),
    (1, dict(RET, w=W(sub=9, pub=10, burst=3, conn=5, drop=3, ack=5), manual=.5, rms=[None, 1, 2, 5], clean=.3, exps=[3600], qos=[0, 1, 2])),
    (1, dict(RET, w=W(sub=9, pub=10, burst=5, unsub=1), depth=(1, 8), n_topics=(8, 20), burst=(4, 16), n_ops=(20, 40))),
    (1, dict(RET, w=W(sub=7, pub=10, burst=3, restart=1.2, conn=6), cfg=STORE)),
], 800, lambda c, s: (s.get("retained_delivered", 0) >= 3 and s.get("retained_cleared", 0) >= 1) or s.get("ret_topics", 0) >= 20,
    "at least 3 retained deliveries and one cleared retained message (or a concurrency run with at least 20 retained topics)", kinds="ret", every=16)

WILL = dict(wills=.6, will_delays=[0, 0, 5, 30, 200], advs=[1000, 7000, 31000, 100000, 400000], exps=[0, 20, 60, 3600], same_cid=.3, disc_exp=.4, disc_will=.3, clean=.3, props=.3)
world("W01", [
    (2, dict(wills=.8, same_cid=.2, disc_will=.4, disc_exp=.4, clean=.5, exps=[0, 100], w=W(conn=8, disc=4, drop=5, pub=3, sub=7), retain=.3, props=.5, msg_exp=[None, 60])),
    (1, dict(wills=.8, disc_will=.3, disc_exp=.3, clean=.5, exps=[0, 100], kas=[0, 5, 20], one_ka=1, w=W(conn=8, disc=3, drop=3, pub=3, ping=3, adv=3), advs=[3000, 40000], vers=[3, 4, 5], retain=.2)),
    (1, dict(wills=.8, clean=.3, exps=[0, 100], will_own=1, w=W(conn=8, disc=3, drop=3, pub=3, restart=1), retain=.5, cfg=STORE)),
    (1, dict(wills=.8, disc_will=.3, disc_exp=.3, exps=[0, 100], w=W(conn=8, disc=4, drop=5, pub=3), cfg="wills_enabled false\n", model_cfg=dict(wills=False))),
], 800, lambda c, s: s.get("will", 0) + s.get("will_discarded", 0) >= 2, "at least two wills published or discarded")
world("W02", [
    (1, dict(WILL, w=W(adv=3, conn=8, drop=5, pub=4))),
    (2, dict(WILL, vers=[5], wills=.8, exps=[20, 60, 3600, 3600], clean=.2, will_delays=[5, 30, 30, 200], w=W(adv=3, conn=8, drop=5, pub=4))),
    (1, dict(WILL, vers=[5], wills=.8, exps=[3600, 100000, 1000000], clean=.2, will_delays=[30, 3700, 20000, 100000, 2**32 - 1], kas=[65535], advs=[1000, 1000000, 4000000, 30000000, 60000000], w=W(adv=3, conn=8, drop=5, pub=4))),
    (1, dict(WILL, vers=[5], wills=.8, exps=[60, 3600, 3600], clean=.2, will_delays=[5, 30, 200], will_own=1, w=W(adv=2, conn=8, drop=5, pub=4, restart=1), downs=[0, 5000, 60000], cfg=STORE)),
], 800, lambda c, s: s.get("will_delayed", 0) >= 1 and s.get("will", 0) + s.get("will_cancelled", 0) >= 1, "a delayed will, and a will published or cancelled")

SESS = dict(exps=[0, 20, 60, 3600], clean=.35, disc_exp=.5, same_cid=.15, advs=[1000, 15000, 40000, 100000, 4000000], props=.1, n_topics=(1, 4), qos=[1, 1, 2, 0])


def cap_cfg(rng):
    c = rng.choice([60, 200, 2000])
    return "expire_sessions_after_seconds %d\n" % c, dict(session_cap=c)


world("S01", [
    (3, dict(SESS, w=W(conn=9, disc=5, drop=4, sub=5, pub=8, adv=3))),
    (1, dict(SESS, w=W(conn=9, disc=5, drop=4, sub=5, pub=8, adv=4), cfg=cap_cfg, vers=[3, 4, 5, 5])),
], 800, lambda c, s: s.get("resumed", 0) >= 1 and s.get("session_ended", 0) + s.get("replaced", 0) >= 1, "a session was resumed and a session ended or was replaced")
world("S02", [
    (2, dict(same_cid=.8, wills=.5, will_delays=[0, 0, 30], clean=.4, exps=[0, 100, 3600], n_cids=(1, 3), w=W(conn=12, drop=3, disc=3, ack=4, pub=10), manual=.4, rms=[None, 1, 3], retain=.1, props=.1)),
    (1, dict(same_cid=.8, wills=.5, clean=.3, exps=[0, 30, 3600], kas=[0, 20, 600], one_ka=1, n_cids=(1, 2), w=W(conn=12, drop=3, disc=3, pub=10, adv=3, ping=2), advs=[1000, 15000, 50000], props=.1)),
], 800, has("takeover", "delivered"), "a takeover and a delivery", kinds="anon", every=32)
world("S03", [
    (2, dict(kas=[0, 5, 7, 10, 30, 60], n_ops=(15, 30), n_cids=(2, 4), w=W(conn=8, disc=1, drop=.5, ping=6, pub=5, sub=3, adv=8), advs=[1000, 2000, 4000, 9000, 15000, 40000, 120000], clean=.5, exps=[0, 3600],
             props=0, vers=[3, 4, 5, 5], same_cid=.1)),
    (1, dict(kas=[5, 7, 10, 30, 60], one_ka=1, n_ops=(15, 30), n_cids=(2, 3), w=W(conn=8, disc=1, drop=.5, ping=6, pub=5, sub=6, adv=8), advs=[1000, 2000, 4000, 9000, 15000, 40000, 120000],
             wills=.6, clean=.5, exps=[0, 3600], props=0, vers=[3, 4, 5, 5], same_cid=.1, will_delays=[0])),
    (1, dict(kas=[43690, 43691, 50000, 60000, 65535], n_ops=(12, 20), n_cids=(2, 3), w=W(conn=8, disc=1, drop=.5, ping=6, pub=5, sub=3, adv=8), advs=[1000, 9000000, 20000000, 30000000, 60000000], clean=.5, exps=[0, 3600],
             props=0, vers=[3, 4, 5, 5], same_cid=.1)),
], 700, has("keepalive_drop"), "a connection was dropped for silence")

RST = dict(w=W(restart=1.5, adv=.7, drop=3, conn=7), clean=.2, exps=[3600, 60000], cfg=STORE, disc_exp=.1)
world("P01", [
    (2, dict(RST, wills=.2, will_own=1, will_delays=[0, 100], msg_exp=[None, None, 600], retain=.3, nl=.2, rap=.4)),
    (1, dict(RST, w=W(restart=1.5, ack=6, drop=4, redup=2, rel=1, conn=8), manual=.6, hold=.5, rms=[None, 1, 3], qos=[1, 2, 2])),
    (1, dict(RST, w=W(restart=1.5, sub=8, unsub=2, drop=3, conn=6), shared=.4, sids=.8, n_cids=(3, 5), nl=0)),
    (1, dict(RST, sizes=[(0, 20), (300, 3000), (60000, 70000)], retain=.4, props=.8, n_topics=(2, 6), depth=(1, 8), msg_exp=[None, 6000])),
], 700, lambda c, s: s.get("restart", 0) >= 1 and s.get("resumed", 0) >= 1 and s.get("deliveries", 0) >= 2, "a restart, a session resumed and deliveries", kinds="bulk", every=16)
T0S = [2**31 - 70, 2**31 + 1000, 2**32 - 2**31 // 4, 2**32 - 70, 2**32 + 100]   # the wall clock at the start: around the limits of 32 bits
world("P04", [
    (2, dict(t0s=T0S, w=W(restart=2, adv=2, drop=4, conn=5, disc=2), downs=[0, 3000, 15000, 70000, 200000], advs=[1000, 10000, 50000], clean=.15, exps=[20, 60, 150, 600], cfg=STORE, msg_exp=[None, 10, 60, 200], retain=.4,
             vers=[5, 5, 5, 4], wills=.3, will_own=1, will_delays=[0, 20, 100], props=.1)),
    (1, dict(t0s=T0S, w=W(restart=2, adv=1.5, drop=4, conn=4, pub=14), downs=[0, 3000, 15000], advs=[1000, 5000], clean=.05, exps=[60000], cfg=STORE, msg_exp=[8, 20, 60], retain=.5, vers=[5], qos=[1, 2], sub_qos=[1, 2], n_cids=(2, 3), n_topics=(1, 3))),
    (1, dict(w=W(restart=3, adv=4, drop=5, conn=7, pub=3, sub=8), downs=[0, 3000, 8000], advs=[3000, 8000, 15000], clean=.05, exps=[300, 6000], cfg=STORE, vers=[5], wills=.9, will_own=0, will_delays=[15, 20, 40], n_cids=(3, 5), n_topics=(1, 2), wild=.8)),
], 700, lambda c, s: s.get("restart", 0) >= 1 and s.get("waited", 0) + s.get("session_ended", 0) + s.get("expired_in_queue", 0) + s.get("will_delayed", 0) >= 1,
    "a restart and something with a lifetime (message, session, will) around it")
