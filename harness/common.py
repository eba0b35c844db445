"""Shared machinery of the checks: TLC runs, driver runs, verdicts, evidence."""
import json, os, pathlib, re, shutil, subprocess, sys, tempfile, time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))     # another tree only when trying out planted bugs
SPEC = VERIF / "spec"
HARNESS = VERIF / "harness"
BUILD = VERIF / "build"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class MachineryError(Exception):
    pass


class TlcResult:
    def __init__(self, out, rc, secs):
        self.out, self.rc, self.secs = out, rc, secs
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"'):
                try:
                    self.prints.append(json.loads(line))
                except ValueError:
                    pass
        self.violated = re.findall(r"Invariant (\S+) is violated", out) + re.findall(
            r"(?:Action|Temporal) propert(?:y|ies) (\S+) (?:is|was|were) violated", out)
        self.complete = "Model checking completed. No error has been found" in out
        self.errors = [l for l in out.splitlines() if l.startswith("Error:")]

    def tagged(self, tag):
        """JSON payloads of the lines printed as  tag <json>"""
        return [json.loads(p[len(tag) + 1:]) for p in self.prints
                if isinstance(p, str) and p.startswith(tag + " ")]


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"verif-{prop}-"))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.stages, self.violations, self.notes = [], [], [], []
        self.assumptions = []
        self.layout = self._layout()

    @property
    def quick(self):
        return self.tier == "quick"

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers="auto", timeout=800, heap="6g", extra=(), name=None, xss="64m"):
        md = tempfile.mkdtemp(prefix="md-", dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xss{xss}", f"-Xmx{heap}", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", md, "-workers", str(workers), "-config", str(cfg or f"{module}.cfg"),
               *extra, f"{module}.tla"]
        t = time.time()
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise MachineryError(f"TLC on {module} did not finish within {timeout} s") from x
        finally:
            shutil.rmtree(md, ignore_errors=True)
        r = TlcResult(p.stdout, p.returncode, time.time() - t)
        self.states += r.distinct
        self.transitions += r.generated
        self.stages.append(dict(stage=name or module, states=r.distinct, transitions=r.generated, seconds=round(r.secs, 2)))
        return r

    def design(self, module, cfg=None, **kw):
        """Exhaustive check of the design model.  The specification is independent of /repo, so
        anything but success is a mistake of the machinery."""
        r = self.tlc(module, cfg, name=f"design model {cfg or module}", **kw)
        if not r.complete:
            raise MachineryError(f"design model {module}/{cfg}: {r.errors[:3]} {r.violated}\n{r.out[-3000:]}")
        return r

    def inductive(self, module, init, indinit, nxt, cinit, inv, follows=(), actions=()):
        """Apalache: `inv` holds in every initial state, every step keeps it, and the rest follows from it."""
        work = self.tmp / "apalache"
        work.mkdir(exist_ok=True)
        shutil.copy(SPEC / f"{module}.tla", work)
        for start, what, length in [(init, inv, 0), (indinit, inv, 1)] + [(indinit, f, 0) for f in follows] + \
                [(indinit, a, 1) for a in actions]:
            t = time.time()
            p = subprocess.run(["apalache-mc", "check", f"--init={start}", f"--next={nxt}", f"--cinit={cinit}",
                                f"--inv={what}", f"--length={length}", f"--out-dir={work}/out", f"{module}.tla"],
                               cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if p.returncode:
                raise MachineryError(f"Apalache on {module}, {what} from {start}:\n{p.stdout[-2000:]}")
            self.stages.append(dict(stage=f"Apalache {module}: {what} from {start}, {length} steps", seconds=round(time.time() - t, 2)))

    def refuted(self, module, cfg, inv, **kw):
        """A variant of the design in which the invariant must fail (the invariant is not vacuous)."""
        r = self.tlc(module, cfg, name=f"variant {cfg} (must fail)", **kw)
        if inv not in r.violated:
            raise MachineryError(f"variant {module}/{cfg}: {inv} holds\n{r.out[-2000:]}")

    def simulate(self, module, cfg, num, depth, **kw):
        """Random behaviours of a specification (used to generate scenarios)."""
        kw.setdefault("workers", 1)
        r = self.tlc(module, cfg, name=f"simulation {cfg or module}",
                     extra=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed)), **kw)
        if r.errors or r.rc != 0:
            raise MachineryError(f"simulation {module}/{cfg}: {r.errors[:3]}\n{r.out[-3000:]}")
        return r

    def _layout(self):
        out = BUILD / "layout.json"
        srcs = [SPEC / f for f in ("BlfBytes.tla", "BlfFormat.tla", "Export.tla")]
        if not out.exists() or out.stat().st_mtime < max(s.stat().st_mtime for s in srcs):
            BUILD.mkdir(exist_ok=True)
            tmp = self.tmp / "layout.json"
            r = self.tlc("Export", env={"OUT": tmp}, workers=1, name="layout export")
            if not tmp.exists():
                raise MachineryError("layout export failed\n" + r.out[-2000:])
            part = BUILD / f".layout.{os.getpid()}"
            shutil.copy(tmp, part)
            os.replace(part, out)
        return out

    def run(self, cmd):
        p = subprocess.run([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise MachineryError(f"{cmd[0]} failed:\n{p.stdout[-2000:]}")

    # --------------------------------------------------------------- drivers
    def drive(self, driver, mode, timeout=600, env=None, data=None, flags=(), **opts):
        """Run the real code in a process of its own; returns (trace path, meta)."""
        n = len([p for p in self.tmp.glob("trace*")])
        trace, meta = self.tmp / f"trace{n}.ndjson", self.tmp / f"meta{n}.json"
        scratch = self.tmp / f"scratch{n}"
        scratch.mkdir()
        job = dict(mode=mode, tier=self.tier, seed=self.seed, trace=str(trace), meta=str(meta),
                   scratch=str(scratch), layout=str(self.layout), repo=str(REPO), data=data, opts=opts)
        jobf = self.tmp / f"job{n}.json"
        jobf.write_text(json.dumps(job))
        e = dict(os.environ)
        e.update(PYTHONPATH=f"{REPO}/src:{HARNESS}", PYTHONDONTWRITEBYTECODE="1",
                 PYTHONPYCACHEPREFIX=str(self.tmp / "pyc"), PYTHONHASHSEED="0")
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run([PY, "-B", "-W", "ignore", *flags, str(HARNESS / f"{driver}.py"), str(jobf)], env=e, cwd=scratch,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise MachineryError(f"driver {driver}/{mode} did not finish within {timeout} s") from x
        if p.returncode != 0 or not meta.exists():
            raise MachineryError(f"driver {driver}/{mode} failed ({p.returncode}):\n{p.stdout[-4000:]}")
        shutil.rmtree(scratch, ignore_errors=True)
        m = json.loads(meta.read_text())
        self.stages.append(dict(stage=f"driver {driver}/{mode}{' '.join(('', *flags))}", seconds=round(time.time() - t, 2),
                                **{k: v for k, v in m.items() if isinstance(v, (int, str))}))
        return trace, m

    # ------------------------------------------------------- trace validation
    def validate_records(self, trace, module="CodecTrace", **kw):
        """Traces of independent records: every line must be consumed by a lane."""
        part, first, size, total = [], 0, 0, 0
        with open(trace) as f:
            for line in f:
                part.append(line)
                size += len(line)
                if size > self.CHUNK:
                    self._validate_part(part, first, module, **kw)
                    first, part, size = first + len(part), [], 0
        if part:
            self._validate_part(part, first, module, **kw)
            first += len(part)
        if first == 0:
            raise MachineryError("empty trace")
        if not self.samples:
            with open(trace) as f:
                self.samples.append(sample(json.loads(f.readline())))

    CHUNK = 40_000_000      # characters of one TLC run (its JSON reader needs about 100 times as much memory)

    def _validate_part(self, lines, first, module, **kw):
        n = len(lines)
        with tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=self.tmp, delete=False) as f:
            f.writelines(lines)
        try:
            r = self.tlc(module, env={"TRACE": f.name}, name=f"trace validation {module}", **kw)
        finally:
            os.unlink(f.name)
        if r.errors or not r.complete or r.distinct != n + 16:
            raise MachineryError(f"trace validation {module}: {r.errors[:3]} ({r.distinct} states for {n} records)\n{r.out[-3000:]}")
        self.traces += n
        self.events += n
        for v in r.tagged("VERDICT"):
            self._verdict(v["c"], json.loads(lines[v["i"] - 1]), f"record {first + v['i']}")

    def validate_traces(self, trace, module, cfg=None, only=None, **kw):
        """Traces of many steps, one per line (possibly several runs each), run side by side; every
        run must be consumed to its end.  only: the property whose clauses count."""
        lines = open(trace).read().splitlines()
        if not lines:
            raise MachineryError("empty trace")
        first = 0
        while first < len(lines):
            n = size = 0
            while first + n < len(lines) and (not n or size + len(lines[first + n]) < self.CHUNK):
                size += len(lines[first + n])
                n += 1
            self._validate_lines(lines[first:first + n], first, module, cfg, only, **kw)
            first += n
        if not self.samples:
            self.samples.append(sample(json.loads(lines[0])))

    def _validate_lines(self, lines, first, module, cfg, only, **kw):
        part = self.tmp / "part.ndjson"
        part.write_text("\n".join(lines) + "\n")
        r = self.tlc(module, cfg, env={"TRACE": str(part)}, name=f"trace validation {cfg or module}", **kw)
        recs = [json.loads(x) for x in lines]
        want = {(i + 1, k + 1) for i, x in enumerate(recs) for k in range(len(x["runs"]) if "runs" in x else 1)}
        done = {(d["ti"], d.get("ri", 1)) for d in r.tagged("DONE")}
        if r.errors or not r.complete or done != want:
            raise MachineryError(f"trace validation {module}: {r.errors[:3]}, not consumed: {sorted(want - done)[:5]}\n{r.out[-3000:]}")
        self.traces += len(want)
        seen = {}
        for v in r.tagged("VERDICT"):
            seen.setdefault((v["ti"], v.get("ri", 1)), []).append(v)
        for (ti, ri), vs in sorted(seen.items()):
            vs.sort(key=lambda v: v["l"])
            if only:
                vs = [v for v in vs if any(c.startswith((only, "MACHINERY")) for c in v["c"])]
                if not vs:
                    continue
            clauses = sorted({c for v in vs for c in v["c"] if not only or c.startswith((only, "MACHINERY"))})
            rec = dict(recs[ti - 1])
            if "runs" in rec:
                rec["runs"] = [rec["runs"][ri - 1]]
            self._verdict(clauses, rec, f"trace {first + ti}, run {ri}, step {vs[0]['l']}")

    def _verdict(self, clauses, rec, where):
        bad = [c for c in clauses if c.startswith("MACHINERY")]
        if bad and len(bad) == len(clauses):
            raise MachineryError(f"input outside the specification's domain ({where}): {bad} {json.dumps(rec)[:1500]}")
        self.violations.append(dict(clauses=sorted(clauses), where=where, record=rec))

    def violate(self, clause, rec, where=""):
        self.violations.append(dict(clauses=[clause], where=where, record=rec))


def sample(rec, limit=900):
    s = json.dumps(rec)
    return rec if len(s) <= limit else s[:limit] + " ..."
