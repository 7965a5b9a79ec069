"""Shared machinery of the checks: TLC runs, harness builds and runs, failures, evidence."""
import json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
REPO = "/repo"


class ToolError(Exception):
    """The check itself could not do its work: neither held nor violated."""


class HarnessDied(Exception):
    """The process which ran the real code was ended by a signal, or never came to an end."""


class Failure:
    def __init__(self, props, what, case, part):
        self.props, self.what, self.case, self.part = set(props), what, case, part


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.assumptions = [], {}, []
        self.lock = threading.Lock()
        self._built = None
        self._once = {}
        self._build_thread = None
        self.tlc_workers = 8
        self.started = time.time()

    thorough = property(lambda self: self.tier == "thorough")

    def note(self, part, **kw):
        with self.lock:
            self.parts.setdefault(part, {}).update(kw)

    def sample(self, what):
        with self.lock:
            if len(self.samples) < 12:
                s = what if isinstance(what, str) else json.dumps(what)
                self.samples.append(s[:600])

    def path(self, name):
        return os.path.join(self.work, name)

    def once(self, key, f):
        """f's result, computed by whoever asks first."""
        with self.lock:
            l = self._once.setdefault(key, [threading.Lock(), None])
        with l[0]:
            if l[1] is None:
                l[1] = f()
            return l[1]

    # ---------------------------------------------------------------- the real code
    def start_build(self):
        def go():
            try:
                self._built = build()
            except Exception as e:  # reported by harness()
                self._built = e
        self._build_thread = threading.Thread(target=go)
        self._build_thread.start()

    def harness(self):
        if self._build_thread is None:
            self.start_build()
        self._build_thread.join()
        if isinstance(self._built, Exception):
            raise self._built
        return self._built

    def run_harness(self, args, timeout=None, env=None):
        timeout = timeout or (2400 if self.thorough else 300)
        exe = self.harness()
        try:
            p = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, cwd=self.work, env={**os.environ, **(env or {})})
        except subprocess.TimeoutExpired:
            raise HarnessDied("%s: the process running the real code comes to no end (%d s)" % (args[0], timeout))
        if p.returncode < 0 and p.returncode != -9:
            raise HarnessDied("%s: the process running the real code is ended by signal %d\n%s" % (
                args[0], -p.returncode, p.stderr.decode(errors="replace")[-1500:]))
        if p.returncode != 0:
            raise ToolError("harness %s: exit %d\n%s" % (args[:1], p.returncode, p.stderr.decode(errors="replace")[-3000:]))
        return p

    # ------------------------------------------------------------------------- TLC
    def tlc(self, name, module, constants, spec="Spec", invariants=("Inv", "Emit"), properties=(), extra="",
            timeout=600, heap="6g", expect_error=None, constraint=None, post=None, count=True):
        """Model-checks; returns the printed "@@" lines.  An error in the specification is a ToolError."""
        cfg = self.path(name + ".cfg")
        with open(cfg, "w") as f:
            f.write("SPECIFICATION %s\nCONSTANTS\n" % spec)
            for k, v in constants.items():
                f.write(" %s %s\n" % (k, v if str(v).startswith("<-") else "= %s" % v))
            if invariants:
                f.write("INVARIANTS %s\n" % " ".join(invariants))
            if properties:
                f.write("PROPERTIES %s\n" % " ".join(properties))
            if constraint:
                f.write("CONSTRAINT %s\n" % constraint)
            if post:
                f.write("POSTCONDITION %s\n" % post)
            f.write("CHECK_DEADLOCK FALSE\n" + extra)
        meta = self.path(name + ".meta")
        out = self.path(name + ".out")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp",
               "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
               "-noGenerateSpecTE", "-workers", str(self.tlc_workers), "-metadir", meta, "-config", cfg,
               os.path.join(SPEC, module + ".tla")]
        try:
            with open(out, "wb") as f:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=self.work, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC %s: no end within %d s" % (name, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        lines, log, states, trans = [], [], 0, 0
        with open(out, encoding="utf-8", errors="replace") as f:
            for l in f:
                if l.startswith('"@@'):
                    lines.append(json.loads(l)[2:])
                else:
                    log.append(l)
                    m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", l)
                    if m:
                        trans, states = (int(x.replace(",", "")) for x in m.groups())
        ok = any("No error has been found" in l for l in log)
        if not ok and expect_error is None:
            raise ToolError("TLC %s: exit %d\n%s" % (name, p.returncode, "".join(log)[-3000:]))
        os.remove(out)
        if count:
            with self.lock:
                self.states += states
                self.transitions += trans
        self.note("tlc:" + name, states=states, transitions=trans, lines=len(lines))
        if expect_error is not None:
            return ok, "".join(log)
        return lines


def build():
    """The harness, against /repo's current working tree."""
    h = os.path.join(VERIF, "harness")
    env = {**os.environ, "CARGO_TARGET_DIR": TARGET, "CARGO_NET_OFFLINE": "true"}
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=h, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise ToolError("harness does not build\n" + p.stdout.decode(errors="replace")[-6000:])
    return os.path.join(TARGET, "debug", "bspx")


def read_jsonl(path):
    with open(path, encoding="utf-8") as f:
        return [json.loads(l) for l in f if l.strip()]


def write_jsonl(path, items):
    with open(path, "w", encoding="utf-8") as f:
        for i in items:
            f.write(json.dumps(i) + "\n")


def tla_set(xs):
    return "{%s}" % ", ".join('"%s"' % x for x in xs)


def known_findings():
    """Findings recorded and not repaired: `finding: property=<id> key=<key> <what fails>`."""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
                if m:
                    out.append(m.groups())
    except FileNotFoundError:
        pass
    return out


def finish(ctx, failures, level):
    mine = [f for f in failures if ctx.prop in f.props]
    known = [k for k in known_findings() if k[0] == ctx.prop]
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (k[0], k[2]))
    keys = {k[1] for k in known}
    mine = [f for f in mine if f.case.get("key") not in keys]
    replays = os.path.join(VERIF, "work", "replays")
    os.makedirs(replays, exist_ok=True)
    for i, f in enumerate(mine[:20]):
        path = os.path.join(replays, "%s-%d.json" % (ctx.prop, i + 1))
        with open(path, "w") as o:
            json.dump({"property": ctx.prop, "part": f.part, "what": f.what, "case": f.case, "tier": ctx.tier, "seed": ctx.seed}, o, indent=1)
        print("%s [%s]: %s" % (ctx.prop, f.part, f.what[:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    if len(mine) > 20:
        print("%s: %d more" % (ctx.prop, len(mine) - 20))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as o:
        json.dump({
            "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
            "coverage": {
                "states": ctx.states, "transitions": ctx.transitions,
                "traces_validated_against_impl": ctx.traces, "samples": ctx.samples or ["none"], "parts": ctx.parts,
            },
            "assumptions": ctx.assumptions,
            "wall_s": round(time.time() - ctx.started, 1),
            "violations": len(mine),
        }, o, indent=1)
    return 1 if mine else 0
