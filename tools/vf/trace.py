"""Recorded executions of many threads on one connection, judged by SendTrace.tla."""
import json
from . import Failure, ToolError


def corruptions(ev):
    """Executions which never happened, made from one which did: the specification must refuse each."""
    ok = [i for i, e in enumerate(ev) if e[0] == "w"]
    sender = {}
    for e in ev:
        if e[0] == "s":
            sender[e[2]] = e[1]
    swap = lambda i, j: [ev[j] if k == i else ev[i] if k == j else e for k, e in enumerate(ev)]
    out = []
    pairs = [(i, j) for i in ok for j in ok if i < j and sender.get(ev[i][1]) == sender.get(ev[j][1])]
    if pairs:
        out.append(("swapped on the wire", swap(*pairs[len(pairs) // 2])))
    if ok:
        out.append(("missing on the wire", ev[:ok[-1]] + ev[ok[-1] + 1:]))
        out.append(("twice on the wire", ev[:ok[0]] + [ev[ok[0]]] + ev[ok[0]:]))
        out.append(("changed on the wire", [["w", 0] if k == ok[0] else e for k, e in enumerate(ev)]))
    ms = [i for i, e in enumerate(ev) if e[0] == "m"]
    same = [(i, j) for i in ms for j in ms if i < j and ev[i][1] == ev[j][1]]
    if same:
        i, j = same[len(same) // 2]
        a, b = list(ev[i]), list(ev[j])
        a[2], b[2] = b[2], a[2]
        out.append(("received in the wrong order", [a if k == i else b if k == j else e for k, e in enumerate(ev)]))
    if ms:
        out.append(("never received", [["e", e[1]] if k == ms[-1] else e for k, e in enumerate(ev)]))
    oks = [i for i, e in enumerate(ev) if e[0] == "ok"]
    if oks:
        out.append(("delivered though refused", [["no", e[1]] if k == oks[-1] else e for k, e in enumerate(ev)]))
    nos = [i for i, e in enumerate(ev) if e[0] == "no"]
    if nos:
        out.append(("accepted but lost", [["ok", e[1]] if k == nos[0] else e for k, e in enumerate(ev)]))
    return out


def blame(ev, at):
    """The properties a trace which stops at event `at` (from 1) breaks."""
    e = ev[at - 1]
    if e[0] in ("m", "e", "r", "p"):
        return {"C05"}
    if e[0] == "no":
        return {"C18", "C07"}
    if e[0] == "ok":
        return {"C07", "C18"}
    if e[0] == "end":
        sent = sum(1 for x in ev if x[0] == "ok")
        lost = sent != sum(1 for x in ev if x[0] == "w")
        return {"C07", "C18"} if lost else {"C05"}
    return {"C07"}


def run(ctx, runs):
    out = ctx.path("trace.jsonl")
    ctx.run_harness(["trace", ctx.seed, runs, out])
    with open(out) as f:
        recs = [json.loads(l) for l in f]
    failures, traces, who = [], [], []
    for t, seed, err, ev in recs:
        if err:
            p = {"C09"} | ({"C17"} if t == "memory" else {"C05", "C07", "C19"})
            failures.append(Failure(p, "many threads over %s: %s" % (t, err), {"transport": t, "seed": seed}, "trace"))
        else:
            traces.append(ev)
            who.append((t, seed))
    n = len(traces)
    canaries = []
    for ev in sorted(traces, key=len)[-3:]:
        canaries += corruptions(ev)
    if traces:
        path = ctx.path("traces.ndjson")
        with open(path, "w") as f:
            for ev in traces + [c[1] for c in canaries]:
                f.write(json.dumps(ev) + "\n")
        verdict = {}
        for l in ctx.tlc("trace", "SendTrace", {"File": json.dumps(path)}):
            k, v = l.split("\t")
            verdict.setdefault(int(k), []).append(v)
        for i in range(n + len(canaries)):
            v = verdict.get(i + 1, ["none"])
            if i >= n:
                if v == ["ok"] and not failures and all(verdict.get(k + 1) == ["ok"] for k in range(n)):
                    raise ToolError("SendTrace accepts an execution %s" % canaries[i - n][0])
                continue
            if v == ["ok"]:
                continue
            at = int(v[0].split()[1])
            t, seed = who[i]
            p = {"C17"} | ({"C18"} if "C18" in blame(traces[i], at) else set()) if t == "memory" else blame(traces[i], at)
            failures.append(Failure(p, "many threads over %s: no connection explains event %d, %s, of %s" % (
                t, at, traces[i][at - 1], traces[i][max(0, at - 25):at]), {"transport": t, "seed": seed, "at": at, "trace": traces[i]}, "trace"))
    ctx.note("trace", traces=n, events=sum(map(len, traces)), refused_corruptions=len(canaries))
    with ctx.lock:
        ctx.traces += n
    if traces:
        ctx.sample({"trace": who[0], "events": traces[0][:40]})
    return failures
