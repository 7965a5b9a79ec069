"""The parts checks are made of.  A part model-checks its specification (alongside the others and the
build) and returns a function which then confronts the real code with what the specification allows."""
import json, random
from . import Failure, HarnessDied, patience as slow, session, trace, write_jsonl

PARTS = {}


def part(*props):
    """The properties a part decides: whoever it kills or hangs the real code for."""
    def deco(f):
        PARTS[f.__name__] = (f, props)
        return f
    return deco


def lines(ctx, name, ls):
    p = ctx.path(name + ".tsv")
    with open(p, "w") as f:
        f.write("\n".join(ls) + "\n")
    return p


def report(ctx, name, path):
    """A harness report: a summary, then one failure per line."""
    with open(path, encoding="utf-8") as f:
        head = json.loads(f.readline())
        fails = [json.loads(l) for l in f if l.strip()]
    ctx.note(name, checked=head["evaluated"], vectors=head["traces"])
    with ctx.lock:
        ctx.traces += head["traces"]
    for s in head["samples"]:
        ctx.sample(s)
    return [Failure(x["props"], x["what"], x["case"], name) for x in fails]


def drive(ctx, cmd, *args):
    out = ctx.path(cmd + ".out")
    ctx.run_harness([cmd, *args, out])
    return report(ctx, cmd, out)


WIRE = {"Kinds": '{"request","notification","response"}', "Vars": "<- AllVars", "Depth": 1}


def wire_vectors(ctx):
    """All messages, changed at up to one place; shared by the parts which need them."""
    return ctx.once("wire", lambda: lines(ctx, "wire", sorted(set(ctx.tlc("wire", "WireGen", {**WIRE, "MaxEdits": 1, "Orders": "TRUE"})))))


@part("C10", "C11", "C12", "C13", "C14", "C15")
def wire(ctx):
    v = wire_vectors(ctx)
    n = 200 if ctx.thorough else 6
    return lambda: drive(ctx, "wire", v, ctx.seed * 1000, n)


@part("C15", "C12")
def payload(ctx):
    k = {"Types": "<- AllTypes", "MaxEdits": 1, "SoftOnly": "FALSE"}
    v = lines(ctx, "payload", sorted(set(ctx.tlc("payload", "PayloadGen", k))))
    return lambda: drive(ctx, "payload", v, ctx.seed * 1000, 200 if ctx.thorough else 6)


@part("C11", "C12", "C13", "C14")
def api(ctx):
    v = lines(ctx, "api", ctx.tlc("api", "Api", {}))
    return lambda: drive(ctx, "api", v, ctx.seed * 1000, 300 if ctx.thorough else 16)


@part("C14")
def ids(ctx):
    v = lines(ctx, "ids", ctx.tlc("ids", "Ids", {"Ids": "<- AllIds", "MaxOps": 3}))
    return lambda: drive(ctx, "ids", v, ctx.seed)


@part("C05", "C07", "C09", "C12", "C17", "C20")
def pipe(ctx):
    v = wire_vectors(ctx)
    def go():
        out = ctx.path("pipe.out")
        ctx.run_harness(["pipe", v, ctx.seed, 8000 if ctx.thorough else 300, out, (300 if ctx.thorough else 70) << 20])
        return report(ctx, "pipe", out)
    return go


@part("C08", "C05", "C06", "C09", "C20")
def framing(ctx):
    """Byte streams, cut anywhere."""
    plans = ["one", "pads"] + (["two"] if ctx.thorough else [])
    ls = []
    for p in plans:
        ls += ctx.tlc("framing-" + p, "Framing", {"Plan": '"%s"' % p}, properties=["Monotone", "Final"])
    v = lines(ctx, "framing", ls)
    return lambda: drive(ctx, "framing", v, ctx.seed, 60 if ctx.thorough else 30, 60 if ctx.thorough else 40)


@part("C17", "C18")
def channel(ctx):
    """Pairs of connections in memory and of any capacity: every sequence of calls."""
    ls = []
    for cap in (99, 2, 1, 0):
        n = (4, 7) if ctx.thorough else (3, 6)
        for name, modes, handles, k in (("a", "<- AllModes", "TRUE", n[0]), ("b", '{"plain","try"}', "FALSE", n[1])):
            ls += ctx.tlc("channel-%d%s" % (cap, name), "Channel", {"Cap": cap, "Modes": modes, "Handles": handles, "MaxOps": k},
                          properties=["Independent", "Kept"])
    v = lines(ctx, "channel", ls)
    return lambda: drive(ctx, "channel", v, ctx.seed)


@part("C18")
def timed(ctx):
    """Sends which wait, in real time."""
    base = {"Modes": "<- AllModes", "Limits": "{0, 2, 5, 1000}", "Takes": "<- Takes1", "MaxTakes": 2, "End": 9}
    ls = []
    for name, k in (("one", {"Caps": "{0,1}", "Callers": "<- One", "Starts": "<- Starts1"}),
                    ("two", {"Caps": "{0,1}", "Callers": "<- Two", "Starts": "<- Starts2"}),
                    ("three", {"Caps": "{0,1,2}", "Callers": "<- Three", "Starts": "<- Starts3", "Modes": '{"plain","timed"}', "Limits": "{5}"})):
        ls += ctx.tlc("timed-" + name, "Timed", {**base, **k}, properties=["Terminates"])
    v = lines(ctx, "timed", ls)
    return lambda: drive(ctx, "timed", v, ctx.seed, 1 if ctx.thorough else 4)


@part("C19", "C05", "C07", "C09", "C18")
def flow(ctx):
    """Backpressure: peers and servers which stop reading."""
    k = {"P": 2, "MaxCmds": 5 if ctx.thorough else 3, "Endings": "<- AllEndings", "Cmds": "<- AllCmds"}
    v = lines(ctx, "flow", sorted(set(ctx.tlc("flow", "Flow", k, properties=["Ends"]))))
    per = 3 if ctx.prop == "C19" and not ctx.thorough else 1
    return lambda: drive(ctx, "flow", v, ctx.seed, per)


@part("C05", "C07", "C17", "C18", "C19")
def threads(ctx):
    """Recorded executions of many threads."""
    return lambda: trace.run(ctx, 800 if ctx.thorough else 96)


@part("C16")
def builder(ctx):
    k = {"Types": "<- AllTypes", "MaxOps": 3 if ctx.thorough else 2}
    v = lines(ctx, "builder", ctx.tlc("builder", "Builder", k, properties=["OthersStay"]))
    return lambda: drive(ctx, "builder", v, ctx.seed * 1000, 20 if ctx.thorough else 8)


@part("C15", "C12", "C13", "C11")
def codes(ctx):
    """Named values and their codes."""
    v = lines(ctx, "codes", ctx.tlc("codes", "Codes", {}))
    return lambda: drive(ctx, "codes", v, ctx.seed * 1000, 5)


@part("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C20")
def patience(ctx):
    """Sessions in time."""
    gaps = (3, 10, 25, 29, 31, 45, 65, 130) if ctx.thorough else (29, 31, 65) if ctx.prop in ("C02", "C04", "C05", "C20") else (3, 31)
    kinds = (("bytes", True, 99), ("mem", False, 99), ("mem1", False, 1))
    plans = [(t, slow.outcomes(ctx, b, gaps, "one", cap)) for t, b, cap in kinds]
    if ctx.thorough:
        plans += [(t, slow.outcomes(ctx, b, (16, 35), "two", cap)) for t, b, cap in kinds]
    return slow.start(ctx, plans, session.corpus(ctx), ctx.thorough)


@part("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C20")
def sessions(ctx):
    k = 4 if ctx.thorough else 3
    by = session.outcomes(ctx, "bytes", True, session.KINDS, k, k)
    mem = session.outcomes(ctx, "memory", False, session.MEM, k, k)
    rng = random.Random(ctx.seed * 31 + 7)
    tight = session.outcomes(ctx, "tight", False, session.MEM, k, k, cap=1)
    many = []
    for name, bytes_, n in (("bytes", True, 60), ("memory", False, 30)):
        p = ctx.path("scripts-%s.jsonl" % name)
        write_jsonl(p, session.long_scripts(rng, n * (10 if ctx.thorough else 1), bytes_))
        many.append(session.outcomes(ctx, "long-" + name, bytes_, [], 0, 0, extra=p))
    gone = [session.gone_outcomes(ctx, b, k, k - 1) for b in (True, False)]
    r = 0.25 if ctx.thorough else 1
    t = lambda r: [("connect", r), ("listen", r), ("stdio", r)]
    plan = [(by, t(r), 1), (mem, [("mem", r)], 1), (tight, [("mem1", r / 2)], 1), (many[0], t(1), 1), (many[1], [("mem", 1)], 2),
            (gone[0], [("stdio", 1 if ctx.thorough else 0.4)], 1), (gone[1], [("mem", 1)], 1)]
    corpus = session.corpus(ctx)
    return lambda: session.run(ctx, plan, corpus)
