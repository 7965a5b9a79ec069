"""Client histories of Session.tla replayed on the real library (C01-C09, C20)."""
import json, random
from . import Failure, write_jsonl, read_jsonl, tla_set, ToolError

KINDS = ["init", "inited", "shut", "exit", "req", "note", "resp", "bad"]
MEM = [k for k in KINDS if k != "bad"]


def corpus(ctx):
    return ctx.once("corpus", lambda: make_corpus(ctx))


def make_corpus(ctx):
    """Legal messages of every type in every style, and broken ones."""
    lines = ctx.tlc("corpus", "WireGen", {
        "Kinds": tla_set(["request", "notification", "response"]), "Vars": "<- AllVars",
        "MaxEdits": 0, "Depth": 0, "Orders": "TRUE"})
    bad = ctx.tlc("broken", "WireGen", {
        "Kinds": tla_set(["request", "notification", "response"]),
        "Vars": tla_set(["Run", "Initialized", "Exit", "Shutdown", "Custom", "result", "error"]),
        "MaxEdits": 1, "Depth": 1, "Orders": "FALSE"}, count=False)
    path = ctx.path("corpus.tsv")
    with open(path, "w") as f:
        for l in lines:
            f.write(l + "\n")
        for l in bad:
            # Also what makes no difference to messages without parameters.
            _, ok, _, var = l.split("\t")[:4]
            if ok == "bad" or ok == "ok" and var in ("Initialized", "Exit", "Shutdown"):
                f.write(l + "\n")
    return path


def outcomes(ctx, name, bytes_, alphabet, maxlen, maxtail, endings=("eof", "late"), vanish=False, timeout=False, extra="", cap=2):
    lines = ctx.tlc(name, "SessionGen", {
        "Bytes": "TRUE" if bytes_ else "FALSE", "MayVanish": "TRUE" if vanish else "FALSE",
        "MayTimeout": "TRUE" if timeout else "FALSE", "PipeCap": 9999 if extra or name == "memory" else cap,
        "Alphabet": tla_set(alphabet), "MaxLen": maxlen, "MaxTail": maxtail, "Endings": tla_set(endings), "ExtraFile": json.dumps(extra)},
        spec="SpecLong" if extra else "Spec", properties=[] if extra else ["Termination"],
        invariants=("Emit",) if extra else ("Inv", "Emit"))
    table = {}
    for l in lines:
        o = json.loads(l)
        k = (tuple(o["s"]), o["e"])
        if o["e"] == "eof":
            o["closed"] = True
        o["rep"] = [(r["n"], r["c"]) for r in o["rep"]]
        if o not in table.setdefault(k, []):
            table[k].append(o)
    return table


def gone_outcomes(ctx, bytes_, maxlen, maxtail):
    """Clients which stop reading (Vanish.tla): (script, ending, gone, seen) -> allowed."""
    lines = ctx.tlc("gone-" + ("bytes" if bytes_ else "memory"), "Vanish", {
        "Bytes": "TRUE" if bytes_ else "FALSE", "MayVanish": "FALSE", "MayTimeout": "FALSE", "PipeCap": 99,
        "Alphabet": tla_set(KINDS if bytes_ else MEM), "MaxLen": maxlen, "MaxTail": maxtail},
        invariants=("Inv", "Told", "Emit"), properties=["Termination"])
    table = {}
    for l in lines:
        o = json.loads(l)
        s, gone = o["s"], o.pop("gone")
        if any(k == "shut" for k in s[gone:]) and len(s) > 2 and s[:2] == ["init", "inited"]:
            continue    # whether a shutdown which cannot be answered may complete is nobody's promise
        k = (tuple(s), o["e"], gone)
        if o["e"] == "eof":
            o["closed"] = True
        o["rep"] = [(r["n"], r["c"]) for r in o["rep"]]
        if o not in table.setdefault(k, []):
            table[k].append(o)
    return table


def long_scripts(rng, n, bytes_):
    """Histories beyond any bound, mostly of the kind which gets far."""
    out = []
    while len(out) < n:
        # Now and then very many: nothing in the protocol counts.
        most = len(out) % 16
        early = [rng.choice(["req", "req", "note", "shut", "inited"]) for _ in range(rng.choice([100, 300, 600]) if most == 3 else rng.choice([0, 0, 1, 3, 12, 40]))]
        s = early + (["init"] if rng.random() < 0.97 else [])
        s += ["inited"] if rng.random() < 0.93 else [rng.choice(["req", "note", "exit", "init"])]
        s += [rng.choice(["req", "req", "req", "note", "note", "resp", "init", "inited"]) for _ in range(rng.choice([100, 300, 600]) if most == 8 else rng.choice([2, 6, 15, 40, 80]))]
        s += rng.choice([["shut", "exit"], ["shut", "exit"], ["shut", "req"], ["exit"], ["shut"], [], ["bad"] if bytes_ else ["note"]])
        s += [rng.choice(["req", "note", "exit", "shut"]) for _ in range(rng.choice([0, 0, 2, 5]))]
        if s not in out:
            out.append(s)
    return out


def init_pos(script):
    for i, k in enumerate(script):
        if k not in ("shut", "req", "note", "inited"):
            return i + 1
    return len(script) + 1


def same_got(spec, act):
    return len(spec) == len(act) and all(p in c for p, c in zip(spec, act))


def judge(script, ending, allowed, act):
    """The properties under which the outcome is not one the specification allows."""
    ip = init_pos(script)
    n_init = lambda rep: [r for r in rep if r[1] == "init" or r[0] == ip]
    null = lambda rep: [r for r in rep if r[1] == "null"]
    early = lambda rep: [r for r in rep if r[0] < ip]
    rep = [tuple(r) for r in act["rep"]]
    hang, panics = act["hang"], act["panics"]
    bad = set()

    def check(prop, ok):
        if not ok:
            bad.add(prop)

    check("C01", any(early(a["rep"]) == early(rep) and a["cb"] == act["cb"] for a in allowed))
    check("C02", any(a["hs"] == act["hs"] and a["cb"] == act["cb"] and n_init(a["rep"]) == n_init(rep) for a in allowed)
          and (act["cb"] == 0 or act["cbok"]) and (act["hs"] != "ok" or act["retok"]))
    same = [a for a in allowed if a["hs"] == act["hs"]]
    got_ok = any(same_got(a["got"], act["got"]) for a in same)
    if same:
        check("C03", got_ok)
        check("C05", got_ok)
        if "exit" in script:
            check("C06", got_ok and any(a["jn"] == act["jn"] for a in same))
        if "bad" in script:
            check("C08", got_ok)
        check("C04", any(a["sd"] == act["sd"] and null(a["rep"]) == null(rep) for a in same))
        check("C09", any(a["jn"] == act["jn"] for a in same))
        check("C07", any(a["rep"] == rep for a in same) and not act["frame_error"])
        if not any(a["rep"] == rep for a in same) and all(sorted(a["rep"]) != sorted(rep) for a in same):
            check("C13", not any(c.startswith("other") for _, c in rep))
            check("C14", not any(n == 0 for n, _ in rep))
    if act["jn"] != "none" or not script:
        if not any(a["jn"] == act["jn"] for a in allowed):
            bad.add("C09")
            if "bad" in script:
                bad.add("C08")
    if hang:
        if "server (hs)" in hang:
            bad |= {"C02"}
        elif "shutdown" in hang:
            bad |= {"C04"}
        elif "loop" in hang:
            bad |= {"C05", "C06"}
        elif "join" in hang:
            bad |= {"C09"} | ({"C06"} if "exit" in script else set())
        elif "replies" in hang:
            bad |= {"C07"}
        else:
            bad |= {"C07", "C09"}
        bad.add("C09")
    if panics:
        bad |= {"C09"}
        if act["hs"] == "panic":
            bad.add("C02")
        if "bad" in script:
            bad.add("C08")
    full = any(a["hs"] == act["hs"] and a["cb"] == act["cb"] and a["sd"] == act["sd"] and a["jn"] == act["jn"]
               and a["rep"] == rep and same_got(a["got"], act["got"]) for a in allowed)
    if not full and not bad:
        bad |= {"C03", "C05"}
    return bad


def resets(script, transport, allowed):
    """May the server end with bytes of the client unread, over a socket?"""
    stop = min((i for i, k in enumerate(script) if k in ("exit", "bad")), default=len(script))
    return transport in ("connect", "listen") and (
        stop + 1 < len(script) or script[stop:] == ("bad",) or any(a["hs"] == "err" or a["sd"] == "err" for a in allowed))


def truncated(allowed, act):
    """All is as allowed but for the last replies."""
    rep = [tuple(r) for r in act["rep"]]
    return not act["hang"] and not act["panics"] and any(
        a["hs"] == act["hs"] and a["cb"] == act["cb"] and a["sd"] == act["sd"] and a["jn"] == act["jn"]
        and same_got(a["got"], act["got"]) and a["rep"][:len(rep)] == rep for a in allowed)


def excused(ctx, jobs, meta, outs, corpus_path):
    """Closing a socket with unread bytes resets it, and the kernel may let the reset overtake the last
    packets; and a pipe given up may be held for a moment by another child about to be executed.  Such
    things are nobody's fault unless they happen again and again."""
    def doubtful(i):
        script, _, allowed, t = meta[i]
        return resets(script, t, allowed) and truncated(allowed, outs[i]) or t == "stdio" and "gone" in jobs[i]
    sus = [i for i, act in enumerate(outs) if act and judge(*meta[i][:3], act) and doubtful(i)]
    if not sus:
        return set()
    some = random.Random(1).sample(sus, min(40, len(sus)))
    again = [i for i in some for _ in range(4)]
    write_jsonl(ctx.path("again.jsonl"), [jobs[i] for i in again])
    ctx.run_harness(["session", ctx.path("again.jsonl"), corpus_path, ctx.path("again-outs.jsonl"), 1])
    fine = {}
    for i, act in zip(again, read_jsonl(ctx.path("again-outs.jsonl"))):
        fine[i] = fine.get(i, 0) + (act is not None and not judge(*meta[i][:3], act))
    ctx.note("session", lost_on_reset=len(sus))
    well = {i for i in some if fine[i] >= 2}
    return set(sus) if len(well) == len(some) else well


def run(ctx, plan, corpus_path=None):
    """plan: list of (table, transports, reps).  Returns failures."""
    corpus_path = corpus_path or corpus(ctx)
    rng = random.Random(ctx.seed * 7919 + 5)
    jobs, meta = [], []
    for table, transports, reps in plan:
        for (script, ending, *gone), allowed in table.items():
            closed = {a["closed"] for a in allowed}
            if len(closed) != 1:
                raise ToolError("outcomes of %s/%s disagree about who ends it" % (script, ending))
            nrep = min(len(a["rep"]) for a in allowed)
            for t, frac in transports:
                for _ in range(reps):
                    if frac < 1 and rng.random() > frac:
                        continue
                    # Requests of one client may bear equal ids: nothing in the protocol's implementation may mind.
                    dup = rng.random() < 0.3 and sum(k in ("req", "shut", "init") for k in script) > 1
                    jobs.append({"script": list(script), "ending": ending, "transport": t, "dup": dup,
                                 "seed": rng.randrange(1 << 48), "closes": list(closed)[0], "nrep": nrep, "calm": resets(script, t, allowed)})
                    if gone:
                        jobs[-1]["gone"] = (gone[0], allowed[0]["seen"])
                    meta.append((script, ending, allowed, t))
    write_jsonl(ctx.path("jobs.jsonl"), jobs)
    ctx.run_harness(["session", ctx.path("jobs.jsonl"), corpus_path, ctx.path("outs.jsonl")])
    outs = read_jsonl(ctx.path("outs.jsonl"))
    failures, by_hist, done = [], {}, 0
    fine = excused(ctx, jobs, meta, outs, corpus_path)
    for i, (job, (script, ending, allowed, t), act) in enumerate(zip(jobs, meta, outs)):
        if act is None or i in fine:
            continue
        done += 1
        bad = judge(script, ending, allowed, act)
        by_hist.setdefault((script, ending), {}).setdefault(t, []).append(bool(bad))
        if bad:
            what = "history %s, %sthen %s, over %s: %s; allowed: %s" % (
                list(script), "not reading after %d, " % job["gone"][0] if "gone" in job else "", ending, t, {k: v for k, v in act.items() if v not in ([], "", None)}, [{k: v for k, v in a.items() if k not in "se"} for a in allowed])
            failures.append(Failure(bad, what, {"job": job, "outcome": act, "allowed": allowed}, "session"))
    for f in failures:
        job = f.case["job"]
        per = by_hist[(tuple(job["script"]), job["ending"])]
        others = [x for t, xs in per.items() if t != job["transport"] and not t.startswith("mem") for x in xs]
        if not job["transport"].startswith("mem") and "gone" not in job and (not others or not all(others)):
            f.props.add("C20")
    for j in rng.sample(range(len(jobs)), min(3, len(jobs))):
        ctx.sample({"history": jobs[j], "outcome": outs[j]})
    ctx.traces += done
    ctx.note("session", replays=done, histories=len(by_hist))
    return failures
