"""Which parts decide which property."""
from concurrent.futures import ThreadPoolExecutor
from . import Failure, HarnessDied
from .parts import PARTS

PLANS = {
    **{p: ["patience", "sessions"] for p in ["C01", "C02", "C03", "C04"]},
    "C05": ["patience", "sessions", "pipe", "framing", "threads"],
    "C06": ["patience", "sessions", "framing"],
    "C08": ["sessions", "framing"],
    "C09": ["patience", "sessions", "framing", "pipe", "flow"],
    "C07": ["patience", "sessions", "pipe", "flow", "threads"],
    "C10": ["wire"],
    "C11": ["wire", "api", "codes"],
    "C12": ["wire", "api", "payload", "codes", "pipe"],
    "C13": ["wire", "api", "codes"],
    "C14": ["wire", "api", "ids"],
    "C15": ["payload", "wire", "codes"],
    "C16": ["builder"],
    "C17": ["pipe", "channel", "threads"],
    "C18": ["channel", "timed", "flow", "threads"],
    "C19": ["flow", "threads"],
    "C20": ["patience", "sessions", "pipe", "framing"],
}

_SESSION = "TLA+ specification of sessions (Session.tla), model-checked with TLC; every client history up to a bound replayed on the real library over every transport and judged against the outcomes the specification allows"
_DECIDE = "TLA+ decision model of the wire format (Wire.tla, Payload.tla), explored with TLC; one replay on the real code per reachable decision, with concrete values substituted"
TECHNIQUES = {
    **{p: _SESSION for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C20"]},
    **{p: _DECIDE for p in ["C10", "C11", "C12", "C13", "C14", "C15"]},
    "C16": "TLA+ specification of payload builders (Builder.tla): every operation sequence up to a bound, replayed on the real types",
    "C17": "TLA+ specification of channel pairs (Channel.tla): every sequence of calls up to a bound, replayed; long sessions over memory pairs",
    "C18": "TLA+ specifications of sending (Channel.tla untimed, Timed.tla with discrete time, Flow.tla over byte transports), model-checked with TLC; every program replayed on the real code",
    "C19": "TLA+ specification of backpressure (Flow.tla), model-checked with TLC; every program of stalls and drains up to a bound replayed over every byte transport",
}
NOTES = {p: "Bounded: see DESIGN.md" for p in TECHNIQUES}


def run(ctx):
    names = PLANS[ctx.prop]
    ctx.tlc_workers = max(2, 8 // len(names))
    with ThreadPoolExecutor(4) as pool:
        prepared = [(n, pool.submit(PARTS[n][0], ctx)) for n in names]
        prepared = [(n, f.result()) for n, f in prepared]
    failures = []
    # What runs in the background is looked at last.
    prepared.sort(key=lambda p: p[0] == "patience")
    died = False
    for n, go in prepared:
        try:
            if died and n != "patience":
                continue
            failures += go()
        except HarnessDied as e:
            died = died or ctx.prop in PARTS[n][1]
            failures.append(Failure(PARTS[n][1], str(e), {"part": n}, n))
    return failures
