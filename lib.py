"""Shared machinery of the checks: building, TLC, the harness, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GRINGO_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
FIX = os.path.join(VERIF, "fixtures")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check could not be carried out; says nothing about the code."""


def table_race(text):
    """A report of the race detector about a map of gringo: its use and change overlap, which ends the process."""
    for b in text.split("WARNING: DATA RACE")[1:]:
        b = b.split("==================")[0]
        tops = re.findall(r"^(?:Read|Write|Previous read|Previous write)[^\n]*\n  ([^\n]*)", b, re.M)
        if any(t.startswith(("runtime.map", "internal/runtime/maps.")) for t in tops) and "dblokhin/gringo/" in b:
            return b
    return ""


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.deep = self.tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="gringo-%s-" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.rejections = []      # (key, text, replay object)
        self.level = "model_checking"
        self.binaries = {}

    def n(self, quick, deep):
        return deep if self.deep else quick

    def path(self, name):
        return os.path.join(self.dir, name)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ build
    def goenv(self, race=False):
        e = dict(os.environ)
        e.update(GOENV="off", GOTOOLCHAIN="local", GOWORK="off", GOPROXY="off",
                 GOFLAGS="-mod=readonly", CGO_ENABLED="1" if race else e.get("CGO_ENABLED", "0"))
        return e

    def build(self, test=None, race=False):
        """Build the harness against the current tree; returns the binary."""
        name = (test or "vh").replace("/", "_") + ("-race" if race else "")
        if name in self.binaries:
            return self.binaries[name]
        src = self.path("harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            if REPO != "/repo":
                p = os.path.join(src, "go.mod")
                s = open(p).read().replace("=> /repo", "=> " + REPO)
                open(p, "w").write(s)
        dst = self.path(name)
        cover = ["-cover", "-coverpkg=verif/harness/cmd/vh,github.com/dblokhin/gringo/..."] if os.environ.get("GOCOVERDIR") else []     # what of gringo the checks run
        cmd = ["go", "build"] + cover + (["-race"] if race else []) + ["-o", dst, "./cmd/vh"] if not test else ["go", "test", "-c"] + (["-race"] if race else []) + ["-o", dst, "./" + test]
        p = subprocess.run(cmd, cwd=src, env=self.goenv(race), capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise ToolError("harness does not build:\n" + p.stdout + p.stderr)
        self.binaries[name] = dst
        return dst

    def vh(self, cmd, inp=None, out=None, x=None, timeout=600, seed=None, env=None, may_fail=False, race=False):
        """Run a harness command; returns its record. With race, tables that are used without synchronisation are noticed."""
        out = out or self.path("rec-%s-%d.json" % (cmd, int(time.time() * 1e6)))
        a = [self.build(race=race), cmd, "-seed", str(self.seed if seed is None else seed), "-tier", self.tier, "-out", out,
             "-fix", FIX]
        if inp:
            a += ["-in", inp]
        if x is not None:
            a += ["-x", str(x)]
        e = dict(os.environ, GORACE="exitcode=0")
        e.update(env or {})
        try:
            p = subprocess.run(a, capture_output=True, text=True, timeout=timeout, env=e, cwd=self.dir)
        except subprocess.TimeoutExpired:
            raise ToolError("harness command %s ran out of time" % cmd)
        if race and table_race(p.stderr):
            self.reject("race-" + cmd, table_race(p.stderr)[:3000], {"command": cmd, "input": open(inp).read()[:100000] if inp else None})
        if p.returncode == 2 and crashed_in_gringo(p.stderr):
            # the code under test took the process down
            k = re.search(r"^(panic|fatal error):", p.stderr, re.M).start()
            self.reject("crash-" + cmd, p.stderr[k:k + 3000], {"command": cmd, "input": open(inp).read()[:100000] if inp else None})
            raise ToolError("harness command %s was ended by a panic" % cmd)
        if p.returncode != 0 and not may_fail:
            raise ToolError("harness command %s failed (%d):\n%s\n%s" % (cmd, p.returncode, p.stdout[-3000:], p.stderr[-6000:]))
        return out

    def under_clock(self, test, inp, race=False, timeout=600):
        """Run a test of the harness that has a clock of its own; returns its record."""
        out = self.path("rec-%s-%d.json" % (test, int(time.time() * 1e6)))
        e = dict(os.environ, GORACE="exitcode=0")
        try:
            p = subprocess.run([self.build(test="cmd/vh", race=race), "-test.run", "^" + test + "$", "-test.timeout", "%ds" % timeout, "-seed", str(self.seed), "-tier", self.tier,
                                "-in", inp, "-out", out, "-fix", FIX], capture_output=True, text=True, cwd=self.dir, env=e, timeout=timeout + 60)
        except subprocess.TimeoutExpired:
            raise ToolError(test + " ran out of time")
        if not os.path.exists(out) and crashed_in_gringo(p.stdout + p.stderr):
            self.reject("crash-" + test, (p.stdout + p.stderr)[:3000], {"test": test, "input": open(inp).read()[:100000]})
            raise ToolError("test %s was ended by a panic" % test)
        if not os.path.exists(out):
            raise ToolError("%s: %s" % (test, (p.stdout + p.stderr)[-3000:]))
        return out

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=800, count=True, args=(), heap="6g"):
        """Run TLC; returns the printed values. Any complaint of TLC is a ToolError,
        unless it is a violated property of the specification (class SpecViolation)."""
        cfg = cfg or module
        md = tempfile.mkdtemp(prefix="md-", dir=self.dir)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + md, "-cp", JARS, "tlc2.TLC", "-nowarning",
               "-workers", str(workers), "-metadir", md, "-config", os.path.join(SPEC, cfg + ".cfg"),
               *args, os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=md)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC ran out of time on " + module)
        o = p.stdout
        shutil.rmtree(md, ignore_errors=True)
        if p.returncode != 0 or "Error:" in o:
            raise ToolError("TLC on %s/%s (%d):\n%s%s" % (module, cfg, p.returncode, o[-6000:], p.stderr[-2000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", o.replace(",", ",")) or \
            re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", o)
        if m and count:
            self.transitions += int(m.group(1).replace(",", ""))
            self.states += int(m.group(2).replace(",", ""))
        return o

    def rejects(self, out):
        """The printed <<"REJECT", ...>> tuples, as lists."""
        r = []
        for l in re.findall(r'<<\s*"REJECT".*?>>\s*$', out, re.M | re.S):
            r.append(parse_tla(l))
        return r

    def design(self, module, cfg=None, **kw):
        """Exhaustive check of the specification itself."""
        a = self.states
        self.tlc(module, cfg, **kw)
        self.log("specification %s: %d states, properties hold" % (cfg or module, self.states - a))

    # --------------------------------------------------------------- verdicts
    def reject(self, key, text, replay):
        self.rejections.append((key, text, replay))

    def finish(self):
        known = []
        kf = os.path.join(VERIF, "known-findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))["findings"] if k["property"] == self.prop]
        new, seen = [], {}
        for key, text, replay in self.rejections:
            k = next((k for k in known if k["key"] == key), None)
            if k:
                seen[k["key"]] = k
            else:
                new.append((key, text, replay))
        for k in seen.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:6]}
        cov.update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
                       "coverage": cov, "assumptions": self.assumptions,
                       "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}, f, indent=1)
        if new:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for j, (key, text, replay) in enumerate(new[:5]):
                p = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, j))
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "key": key, "what": text,
                           "case": replay}, open(p, "w"), indent=1, default=str)
                print("%s: %s" % (key, text))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            if len(new) > 5:
                print("... and %d more" % (len(new) - 5))
            return 1
        self.log("held on everything explored: %d states, %d executions judged" % (self.states, self.traces))
        return 0


def crashed_in_gringo(err):
    """Whether a panic comes from the code under test, and not from the harness."""
    m = re.search(r"^(panic|fatal error):.*?^goroutine \d+[^\n]*\n(.*?)(\n\n|\Z)", err, re.M | re.S)
    if not m:
        return False
    for l in m.group(2).split("\n"):
        if l.startswith("github.com/dblokhin/gringo/"):
            return True
        if l.startswith("main.") and not l.startswith("main.main."):
            return False
    return False


def parse_tla(s):
    """<<"a", 1, <<2>>, TRUE>> as a list"""
    s = re.sub(r"\bTRUE\b", "true", re.sub(r"\bFALSE\b", "false", s))
    s = s.replace("<<", "[").replace(">>", "]").replace("{", "[").replace("}", "]")
    try:
        return json.loads(s)
    except ValueError:
        return re.findall(r'"[^"]*"|-?\d+', s)


def main(checks):
    prop = sys.argv[1]
    c = Check(prop)
    try:
        checks[prop](c)
        rc = c.finish()
    except ToolError as e:
        print("ERROR of the check (no verdict):", e, file=sys.stderr)
        if c.rejections:            # what was already observed on the real code still counts
            rc = c.finish() or 2
        else:
            rc = 2
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)
    sys.exit(rc)
