"""Sessions in time (Patience.tla): somebody is slow, and only the shutdown's time limit may matter."""
import json, random, threading, time
from . import Failure, HarnessDied, session, write_jsonl, read_jsonl, tla_set

TICK = 1.0         # seconds
LIMIT = 30         # of handle_shutdown
EARLY, LATE = 1.0, 4.5


def outcomes(ctx, bytes_, gaps, plan, cap=99):
    name = "patience-%s-%s-%d" % ("bytes" if bytes_ else "memory", plan, cap)
    lines = ctx.tlc(name, "Patience", {
        "Bytes": "TRUE" if bytes_ else "FALSE", "MayVanish": "FALSE", "MayTimeout": "FALSE", "PipeCap": cap, "Limit": LIMIT,
        "Gaps": "{%s}" % ", ".join(map(str, gaps)), "Plan": '"%s"' % plan},
        invariants=("Inv", "NoGiveUp", "InTime", "HandshakeAnyway", "Emit"), properties=["Termination"])
    table = {}
    for l in lines:
        o = json.loads(l)
        d = o.pop("d")
        times = [0, d["read"], d["hs"], d["loop"]] + d["at"]
        if any(abs(x - y) == LIMIT for x in times for y in times):
            continue    # too close to call
        unread = next((i for i, k in enumerate(o["s"]) if k in ("exit", "bad")), len(o["s"])) + 1 < len(o["s"])
        if bytes_ and d["read"] and unread:
            continue    # what is unread at the end resets the connection
        if o["e"] == "eof":
            o["closed"] = True
        o["rep"] = [(r["n"], r["c"]) for r in o["rep"]]
        k = (tuple(o["s"]), o["e"], tuple(d["at"]), d["read"], d["hs"], d["loop"])
        if o not in table.setdefault(k, []):
            table[k].append(o)
    return table


def job(key, allowed, transport, rng):
    s, e, at, read, hs, loop = key
    ms = lambda t: int(t * TICK * 1000)
    return {"script": list(s), "ending": e, "transport": transport, "seed": rng.randrange(1 << 48),
            "closes": allowed[0]["closed"], "calm": session.resets(s, "connect", allowed), "nrep": min(len(a["rep"]) for a in allowed),
            "time": {"at": [ms(t) for t in at], "read": ms(read), "hs": ms(hs), "loop": ms(loop),
                     "close": ms(max(a["close"] for a in allowed)), "end": ms(max(a["end"] for a in allowed))}}


def judge(key, allowed, act):
    bad = session.judge(key[0], key[1], allowed, act)
    if bad:
        return bad, ""
    took = act["ms"] / 1000
    ok = any(a["end"] * TICK - EARLY <= took <= max(a["end"] * TICK + LATE, a["close"] * TICK + LATE) for a in allowed)
    if ok:
        return set(), ""
    what = "; took %.1f s, not %s s" % (took, [a["end"] * TICK for a in allowed])
    return ({"C04"} if "shut" in key[0] else {"C05"} if act["hs"] == "ok" else {"C02"}) | {"C09"}, what


def execute(ctx, name, jobs, corpus):
    write_jsonl(ctx.path(name + ".jsonl"), jobs)
    ctx.run_harness(["session", ctx.path(name + ".jsonl"), corpus, ctx.path(name + "-outs.jsonl")], timeout=600)
    return read_jsonl(ctx.path(name + "-outs.jsonl"))


def start(ctx, plans, corpus, all_transports, fraction=1.0):
    """Runs in the background; returns the function which waits for it."""
    rng = random.Random(ctx.seed * 104729 + 11)
    cases = []
    for transport, table in plans:
        bytes_ = transport == "bytes"
        for key, allowed in table.items():
            if fraction < 1 and rng.random() > fraction:
                continue
            ts = ["connect", "listen", "stdio"] if bytes_ else [transport]
            for t in ts if all_transports else [rng.choice(ts)] if bytes_ or transport == "mem1" or rng.random() < 0.4 else []:
                cases.append((key, allowed, t, job(key, allowed, t, rng)))
    box = {}

    def go():
        try:
            box["outs"] = execute(ctx, "patience", [c[3] for c in cases], corpus)
        except Exception as e:
            box["error"] = e
    th = threading.Thread(target=go)
    th.start()

    def finish():
        th.join()
        if "error" in box:
            raise box["error"]
        failures, sus = [], []
        for c, act in zip(cases, box["outs"]):
            if act is not None:
                bad, why = judge(c[0], c[1], act)
                if bad:
                    sus.append((c, bad))
        ctx.note("patience", replays=len(cases), suspicious=len(sus))
        ctx.traces += len(cases)
        for c in rng.sample(cases, min(2, len(cases))):
            ctx.sample({"slow": c[3]})
        if sus:
            # Again, by itself, over every transport: only what fails again counts.
            mine = [s for s in sus if ctx.prop in s[1] or ctx.prop == "C20"] or sus
            pick = rng.sample(mine, min(12, len(mine)))
            again = [(c, t) for c, _ in pick for t in ([c[2]] if c[2].startswith("mem") else ["connect", "listen", "stdio"] * 2)]
            outs = execute(ctx, "patience-again", [{**c[3], "transport": t} for c, t in again], corpus)
            per = {}
            for (c, t), act in zip(again, outs):
                v = (judge(c[0], c[1], act), act)
                if per.setdefault(id(c), {}).setdefault(t, v)[0][0]:
                    per[id(c)][t] = v       # the better one counts
            for c, _ in pick:
                (bad, why), act = per[id(c)][c[2]]
                if not bad:
                    continue
                if any(not j[0] for t, (j, _) in per[id(c)].items() if t != c[2]):
                    bad = bad | {"C20"}
                what = "history %s, then %s, in time %s, over %s: %s%s; allowed: %s" % (
                    list(c[0][0]), c[0][1], {k: v for k, v in c[3]["time"].items() if v}, c[2],
                    {k: v for k, v in act.items() if v not in ([], "", None)}, why,
                    [{k: v for k, v in a.items() if k not in "se"} for a in c[1]])
                failures.append(Failure(bad, what[:4000], {"job": c[3], "outcome": act, "allowed": c[1]}, "patience"))
        return failures
    return finish
