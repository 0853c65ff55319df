"""What the checks share: building the driver from /repo, running it, running
TLC, and reporting."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time, random, atexit, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class Broken(Exception):
    """The check could not give an answer."""


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        atexit.register(shutil.rmtree, self.dir, True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.notes = []
        self.n = 0
        self.drv = None

    def quick(self):
        return self.tier == "quick"

    def pick(self, q, t):
        return q if self.quick() else t

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%03d-%s" % (self.n, name))

    # ------------------------------------------------------------- driver
    def build(self, race=False):
        env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1",
                   PATH="/usr/local/go/bin:" + os.environ.get("PATH", ""))
        if "HOME" not in env:
            env["HOME"] = "/root"
        src = os.path.join(self.dir, "driver")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "driver"), src)
        out = os.path.join(self.dir, "vdrv-race" if race else "vdrv")
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
        p = subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
        if p.returncode != 0:
            raise Broken("the driver does not build against /repo:\n" + p.stdout[-3000:])
        if not race:
            self.drv = out
            words = os.path.join(self.dir, "words.json")
            open(words, "w").write(self.driver("words", REPO, os.path.join(VERIF, "corpus", "words.json")))
            os.environ["VERIF_WORDS"] = words
            self.words = json.load(open(words))
        return out

    def driver(self, *args, drv=None, timeout=600):
        p = subprocess.run([drv or self.drv] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout)
        if p.returncode != 0:
            raise Broken("driver %s: %s" % (args[:1], p.stderr[-2000:]))
        return p.stdout

    def gen(self, cmd="gen", **kw):
        """Generated cases, as a list."""
        out = self.path("gen.ndjson")
        args = [cmd, "-out", out]
        for k, v in kw.items():
            args.append("-%s=%s" % (k, v))
        self.driver(*args)
        return load(out)

    def run(self, cases, timeout=10.0, jobs=None, drv=None):
        """Runs the cases on the real code; returns their records."""
        for i, c in enumerate(cases):
            c["id"] = i + 1
        inp, out = self.path("cases.ndjson"), self.path("recs.ndjson")
        dump(inp, cases)
        self.driver("run", "-in", inp, "-out", out, "-j", jobs or NCPU, "-timeout", timeout, drv=drv, timeout=800)
        return load(out)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, env=None, cfg=None, workers=None, heap="6g", timeout=800, extra=()):
        """One run of TLC. Returns the lines it printed by PrintT, parsed loosely, and adds its statistics."""
        wd = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), wd)
        if cfg is not None:
            open(os.path.join(wd, module + ".cfg"), "w").write(cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", CP,
               "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(wd, "md"), "-workers", str(workers or NCPU),
               "-config", module + ".cfg"] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC on %s did not end in %d s" % (module, timeout))
        out = p.stdout.decode("utf-8", "replace")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.cov["transitions"] += int(m[-1][0])
            self.cov["states"] += int(m[-1][1])
        shutil.rmtree(wd, True)
        return out

    def tlc_ok(self, *a, **kw):
        out = self.tlc(*a, **kw)
        if "Model checking completed. No error has been found." not in out:
            raise Broken("TLC failed on %s:\n%s" % (a[0], trim(out)))
        return out

    def judge(self, module, recs, workers=None, env=None, heap="6g"):
        """Validates the records against the specification. Returns {id: (tags, expected)} of the mismatches."""
        # TLC holds a trace in memory as a value; it is given large ones in parts
        parts, size = [[]], 0
        for r in recs:
            n = len(json.dumps(r))
            if size and size + n > 24e6:
                parts.append([])
                size = 0
            parts[-1].append(r)
            size += n

        files = []
        for part in parts:
            files.append(self.path("trace.ndjson"))
            dump(files[-1], part)

        def one(tr):
            e = {"TRACE": tr}
            e.update(env or {})
            return self.tlc_ok(module, env=e, workers=workers or max(2, NCPU // min(3, len(parts))), heap=heap)
        with cf.ThreadPoolExecutor(3) as ex:
            out = "\n".join(ex.map(one, files))
        bad = {}
        for l in out.split("\n"):
            if l.startswith('<<"MISMATCH"'):
                m = re.match(r'<<"MISMATCH", (\d+), \{(.*?)\}(?:, (".*"))?>>$', l)
                if not m:
                    raise Broken("unreadable verdict: " + l[:300])
                tags = set(re.findall(r'"(.*?)"', m.group(2)))
                exp = None
                if m.group(3):
                    try:
                        exp = json.loads(json.loads(m.group(3)))
                    except ValueError:
                        exp = m.group(3)
                bad[int(m.group(1))] = (tags, exp)
        n = len(re.findall(r"(?m)^<<\"MISMATCH\"", out))
        if n != len(bad):
            raise Broken("lost verdicts")
        self.cov["traces_validated_against_impl"] += len(recs)
        return bad

    # ------------------------------------------------------------- report
    def sample(self, *xs, limit=6):
        for x in xs:
            if len(self.cov["samples"]) < limit:
                self.cov["samples"].append(x)

    def violation(self, what, detail):
        """detail: a JSON value that says how to see it."""
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations) + 1
        f = os.path.join(d, "%s-%d.json" % (self.pid, n))
        with open(f, "w") as h:
            json.dump({"property": self.pid, "what": what, "seed": self.seed, "tier": self.tier, "detail": detail}, h, indent=1, ensure_ascii=False)
        self.violations.append(what)
        if n <= 5:
            print("VIOLATION property=%s replay=%s" % (self.pid, f))
            print("  " + what)
            sys.stdout.flush()

    def finish(self, level="model_checking"):
        if self.cov["traces_validated_against_impl"] == 0:
            raise Broken("nothing was validated")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        f = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(f + ".tmp", "w") as h:
            json.dump(ev, h, indent=1, ensure_ascii=False)
        os.replace(f + ".tmp", f)
        if not self.violations:
            print("OK property=%s tier=%s seed=%d states=%d transitions=%d traces=%d wall=%.1fs" % (
                self.pid, self.tier, self.seed, self.cov["states"], self.cov["transitions"],
                self.cov["traces_validated_against_impl"], ev["wall_s"]))
        return 1 if self.violations else 0


def trim(s):
    ls = [l for l in s.splitlines() if not l.startswith(("Semantic", "Parsing", "Linting"))]
    k = next((i for i, l in enumerate(ls) if l.startswith("Error:")), max(0, len(ls) - 40))
    return "\n".join(x[:400] for x in ls[k:k + 40])


def load(f):
    with open(f, encoding="utf-8") as h:
        return [json.loads(l) for l in h]


def dump(f, xs):
    with open(f, "w", encoding="utf-8") as h:
        for x in xs:
            h.write(json.dumps(x, ensure_ascii=False) + "\n")
