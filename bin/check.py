#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decides one property. Exit 0, or 1 with
a VIOLATION line; anything else means that the check gave no answer."""
import sys, os, re, base64, json, random, glob, itertools, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
import gendocs

FILE_TAGS = {"unsound", "incomplete", "errpos", "shape", "consts", "comments", "loose", "places"}


class Prop:
    """One run of one check."""

    def __init__(self, c):
        self.c = c
        self.rnd = random.Random(c.seed * 7919 + int(c.pid[1:]))
        self.skipped = 0

    def seed(self, k=0):
        return self.c.seed * 100003 + int(self.c.pid[1:]) * 101 + k

    # ------------------------------------------------------------ documents
    def gen(self, profile, n, k=0, **kw):
        return self.c.gen(profile=profile, n=n, seed=self.seed(k), **kw)

    def machine(self, modes=(1, 0), nest=1, swap=0):
        """Documents from the grammar machine: (P, kind, verdict, tokens)."""
        def one(P):
            out = self.c.tlc_ok("ProtoGen", env=dict(PERMISSIVE=P, NEST=nest, SWAP=swap), workers=max(2, NCPU // len(modes)))
            return [(P, k, ok, t) for k, ok, t in gendocs.docs(out)]
        with cf.ThreadPoolExecutor(len(modes)) as ex:
            return [d for ds in ex.map(one, modes) for d in ds]

    def laid(self, ds, plain=0.3, B=None, **kw):
        out = []
        for P, k, ok, t in ds:
            b = self.rnd.random() < 0.3 if B is None else B
            out.append(dict(op="file", s=gendocs.layout(t, self.rnd, plain, **kw), P=bool(P), B=b))
        return out

    def corpus(self, modes=True):
        """The test data of the repository and the documents of /verif/corpus."""
        out = []
        texts = json.load(open(os.path.join(VERIF, "corpus", "texts.json")))
        for f in sorted(glob.glob(os.path.join(REPO, "_testdata", "**", "*.proto"), recursive=True)):
            try:
                texts.append(open(f, encoding="utf-8").read())
            except (OSError, UnicodeDecodeError):
                pass
        for s in texts:
            for P in (True, False):
                for B in (True, False):
                    out.append(dict(op="file", s=s, P=P, B=B))
        return out

    def pick(self, xs, n):
        return xs if len(xs) <= n else self.rnd.sample(xs, n)

    # -------------------------------------------------------------- judging
    def relate(self, module, groups, build, tags, env=None, timeout=10.0, drv=None, jobs=None, batch=None, confirm=30.0):
        """Each group of cases is run on the real code, build makes one record of
        what was observed, the module judges it. tags: those that break the
        property. Mismatches are confirmed by running the group again, alone."""
        c = self.c
        if not groups:
            raise Broken("no cases")
        recs, idx = self.observe(groups, build, timeout, drv, jobs)
        bad = self.judge(module, recs, env)
        self.skipped += sum(1 for g in groups) - len(recs)
        n = 0
        for i in sorted(bad):
            if not (bad[i][0] & tags):
                continue
            n += 1
            if n > 40 or len(c.violations) >= 5:
                break
            g = groups[idx[i]]
            again, _ = self.observe([g], build, confirm, drv, 1)
            if not again:
                continue
            b2 = self.judge(module, again, env)
            got = set().union(*[b2[k][0] for k in b2]) & tags if b2 else set()
            if not got:
                c.notes.append("not confirmed: %s" % sorted(bad[i][0]))
                continue
            exp = next(iter(b2.values()))[1]
            c.violation("%s says %s of %s" % (module, sorted(got), brief(g)),
                        {"module": module, "tags": sorted(got), "cases": g, "record": again[0], "expected": exp,
                         "how": "python3 /verif/bin/replay.py FILE"})
        return recs, bad

    def observe(self, groups, build, timeout, drv, jobs):
        c = self.c
        flat, owner = [], []
        for gi, g in enumerate(groups):
            for case in g:
                flat.append(case)
                owner.append(gi)
        by = {}
        for r in c.run(flat, timeout=timeout, drv=drv, jobs=jobs):
            by.setdefault(owner[r["id"] - 1], []).append(r)
        recs, idx = [], {}
        for gi, g in enumerate(groups):
            rs = by.get(gi, [])
            if len(rs) != len(g):
                continue
            r = build(rs, g)
            if r is None:
                continue
            r["id"] = len(recs) + 1
            idx[r["id"]] = gi
            recs.append(r)
        if not recs and len(groups) > 1:
            raise Broken("nothing was observed")
        return recs, idx

    def judge(self, module, recs, env=None):
        """As Check.judge; a record on which the specification has no verdict at
        all is no record of a behaviour of the specification."""
        if not recs:
            return {}
        try:
            return self.c.judge(module, recs, env=env)
        except Broken as e:
            if "TLC failed" not in str(e):
                raise
            if len(recs) == 1:
                r = recs[0]
                if r.get("out") in ("result", "error") or "out" not in r:
                    raise
                return {r["id"]: ({"out"}, None)}
            m = len(recs) // 2
            out = {}
            for part in (recs[:m], recs[m:]):
                out.update(self.judge(module, part, env))
            return out

    def far(self, cases, share):
        """Some of the cases, moved to the end of a longer file."""
        out = []
        for x in cases:
            s = x["s"]
            if x["op"] == "file" and "raw" not in x and "stretch" not in x and "args" not in x and self.rnd.random() < share and s[:1] != "\ufeff":
                head = "syntax" in s or "edition" in s
                pads = [" ", "\n", "\r\n", "\u3000", " \n"] + ([] if head else ["import 'z';\n", "option (x).y = \"\u00e9\";\n"])
                if not head and s.strip()[:1] not in ("", "/", ";"):  # no semicolon that ends the message
                    pads.append("message a { b c = 1; }\n")
                if not head and s.strip()[:1] not in ("", "/"):
                    pads += ["package z; ", "enum a { b = 0; } extend c {} import 'd'; "]
                pad = self.rnd.choice(pads)
                known = [int(k) for k in self.c.words["ints"] if 200 < int(k) < 200000]
                n = self.rnd.choice(known) if known and self.rnd.random() < 0.5 else self.rnd.choice([255, 256, 1000, 4096, 8192, 32768, 65536, 65536, 65600, 131072, 200000 if self.rnd.random() < 0.1 else 70000])
                if self.rnd.random() < 0.5:  # the end of a buffer falls into the text
                    n -= self.rnd.randint(0, len(s))
                n = max(1, n // len(pad.encode()) + (self.rnd.random() < 0.5))
                if self.rnd.random() < 0.4 and pad.endswith("\n"):  # a line of the text gets a round number
                    n = self.rnd.choice(known) if known and self.rnd.random() < 0.5 else self.rnd.choice([100, 128, 250, 255, 256, 500, 512, 1000, 1000, 1024, 1024, 2000, 2048, 4096, 5000, 8192, 10000])
                    n = max(1, min(n, 1 << 17) - self.rnd.randint(0, 1 + s.count("\n")))
                x = dict(x, args={"pad": pad, "times": n, "statements": 0 if pad.isspace() else 3 * n if pad[0] == "e" else n})
            out.append(x)
        return out

    def few(self):
        """A name or two, now and then of those in the code."""
        known = [w for w in self.c.words["idents"] if re.fullmatch(r"(?a)[A-Za-z_]\w{0,40}", w)]
        return self.rnd.sample(known if len(known) > 2 and self.rnd.random() < 0.4 else NEAR, self.rnd.randint(1, 2))

    def repeated(self, n, k=80):
        """A statement several times, in a file or in a body."""
        out = []
        for x in self.gen("plain", n, k, kinds=NO_HEAD) + self.gen("complete", n // 2, k + 1, kinds=NO_HEAD):
            x = unmarked(x)
            if "stretch" not in x and len(x["s"]) < 400:
                out.append(dict(x, s=(x["s"] + "\n") * self.rnd.choice([2, 2, 2, 3, 4, 5])))
        for kind, (open_, close, _) in BODIES.items():
            for x in self.gen("plain", n // 3, k + 2, kinds="i" + kind):
                if len(x["s"]) < 300:
                    out.append(dict(x, s=open_ + (x["s"] + "\n") * self.rnd.choice([2, 2, 3, 4, 5]) + close))
        return out

    def spliced(self, xs, n):
        """The beginning of one document and the end of another one, cut behind the same character."""
        by = {}
        xs = [x for x in xs if len(x["s"]) < 600 and "stretch" not in x]
        for i, x in enumerate(xs):
            for j, ch in enumerate(x["s"]):
                if ch in ",,;{}[]()=.:<>":
                    by.setdefault(ch, []).append((i, j))
        out = []
        for _ in range(n if by else 0):
            at = by[self.rnd.choice(sorted(by))]
            (a, i), (b, j) = self.rnd.choice(at), self.rnd.choice(at)
            out.append(dict(xs[a], s=xs[a]["s"][:i + 1] + xs[b]["s"][j + 1:]))
        return out

    def crowds(self, k, n=100, kinds="file,file,file,message,message,enum,service,extend,oneof,option,reserved,field,group,rpc,extensions,map", **kw):
        """Documents in which one list, body or gap holds up to a thousand elements."""
        n = self.c.pick(n, n * 10)
        each = self.gen("const", self.c.pick(16, 160), k + 3, kinds="lists", max=30000) if "1" not in kinds else []
        for prof, m in (("plain", 72), ("comment", 48)):
            if "file" in kinds:
                each += self.gen(prof, self.c.pick(m, m * 10), k + 2, turns="true", max=30000, kinds="file,message,enum,oneof,service,extend,group,file")
        return each + self.gen("plain", n, k, crowd=100, max=30000, kinds=kinds, **kw) + self.gen("comment", n * 2 // 5, k + 1, crowd=100, max=30000, kinds=kinds, **kw)

    def files(self, cases, tags, module="ProtoTrace"):
        cases = self.far(cases, 0.012)
        recs, bad = self.relate(module, [[x] for x in cases], lambda rs, g: rs[0], tags | {"out"})
        for r in self.pick(recs, 3):
            self.c.sample({"text": r["s"][:200], "permissive": r["P"], "bodies_with_comments": r["B"], "accepted": r["ok"],
                           "error": r["err"][:120]})
        return recs, bad

    def verdicts(self, ds, wrong):
        """The verdicts of the grammar machine against those of the real code.
        wrong: which disagreement breaks the property."""
        c = self.c
        cases = self.laid(ds, plain=0.6)
        recs = c.run(cases)
        n = 0
        for r in recs:
            P, kind, ok, toks = ds[r["id"] - 1]
            w = "out" if r["out"] not in ("result", "error") else "unsound" if r["ok"] and not ok else "incomplete" if ok and not r["ok"] else ""
            if not w or w not in wrong | {"out"}:
                continue
            if len(c.violations) >= 5:
                break
            g = dict(cases[r["id"] - 1])
            a = c.run([g], timeout=30, jobs=1)
            if a and (a[0]["out"] not in ("result", "error") or a[0]["ok"] != ok):
                c.violation("the machine says %s of %s" % (w, brief([g])),
                            {"module": "ProtoTrace", "tags": [w], "cases": [g], "record": a[0], "tokens": toks, "verdict": ok,
                             "how": "python3 /verif/bin/replay.py FILE"})
        c.cov["traces_validated_against_impl"] += len(recs)
        for r in self.pick(recs, 3):
            c.sample({"text": r["s"][:200], "permissive": r["P"], "accepted": r["ok"], "machine_kind": ds[r["id"] - 1][1]})
        return recs


def brief(g):
    x = g[0]
    s = x.get("s") or x.get("Why") or ""
    return "%s %r%s" % (x.get("op"), s[:120], " ..." if len(s) > 120 or len(g) > 1 else "")


def first(rs, g):
    return rs[0]


# ----------------------------------------------------------------- properties

# What can be repeated (head, item, middle, end of an item, tail) or, with a sixth entry, nested.
SHAPES = [
    ("", "message a{", "", "}", "", 1), ("", "message a{", "a a=1;", "", "", 1), ("message a{", "group G=1{", "", "}", "}", 1),
    ("option a=", "[", "1", "]", ";", 1), ("option a=", "[", "", "", "", 1), ("option a=", "{a:", "{}", "}", ";", 1), ("option a=", "{a ", "1", "}", ";", 1),
    ("option a=", "{a:[", "1", "]}", ";", 1), ("message a{a a=1[a=", "[", "1", "]", "];}", 1), ("", "message a{enum a{", "", "", "", 1),
    ("", "message a{oneof a{", "", "", "", 1), ("", "service a{rpc a(a)returns(a){", "", "", "", 1), ("", "extend a{", "", "", "", 1), ("", "(", "", "", "", 1),
    ("//", "x", "\n;", "", ""), ("/*", "*x", "*/;", "", ""), ("message ", "x", "{}", "", ""), ("option a='", "x\\'", "';", "", ""), ("option a = ", "1", ";", "", ""),
    ("option a = 1.", "1", ";", "", ""), ("option a = 0x", "a", ";", "", ""), ("option a = 1e", "1", ";", "", ""), ("option a=0", "7", ";", "", ""), ("option a=", "-", "1;", "", ""),
    ("", " ", ";", "", ""), ("", "\n", ";", "", ""), ("", "\r\n \t", ";", "", ""), ("", "//\n", "message a {}", "", ""), ("message a {", "/**/", "}", "", ""),
    ("message ", "/**/", " a {}", "", ""), ("", ";", "", "", ""), ("message a { ", "a b = 1; //x\n", "}", "", ""), ("service a { ", "rpc a(b) returns(c); //x\n", "}", "", ""),
    ("enum a { ", "A = 1; /*x*/ ", "}", "", ""), ("option a = [", "1,", "1];", "", ""), ("message a { reserved ", "1,", "1; }", "", ""), ("", "message a{}//x\n", "", "", ""),
    ("message a { oneof b { ", "c d = 1; //e\n", "} }", "", ""), ("extend a { ", "/*f*/ b c = 1;\n", "}", "", ""), ("option a=a", ".a", ";", "", ""), ("option ", "(a).", "a=1;", "", ""),
    ("option a", ".a", "=1;", "", ""), ("package a", ".a", ";", "", ""), ("", "//x\n/*y*/", ";", "", ""), ("message a{reserved 1", ",2 to 3", ";}", "", ""),
    ("message a{reserved \"a\"", ",'b'", ";}", "", ""), ("message a{extensions 1 to 2[", "declaration={number:1},", "declaration={number:1}];}", "", ""),
    ("option a=", "\"x\"", ";", "", ""), ("enum a{", "A=1[a=1];//x\n", "}", "", ""), ("service a{", "rpc a(a)returns(a){option a=1;}", "}", "", ""),
    ("service a{rpc a(a)returns(a){", "option a=1;", "}}", "", ""), ("", "import \"a\";", "", "", ""), ("message a{a a=1[", "a=1,", "a=1];}", "", ""),
    ("", "message a{reserved 1;extensions 2;a a=1;map<int32,a> a=1;oneof a{a a=1;}}//x\n", "", "", ""), ("message a{", "a a=1;//x\n//y\n", "}", "", ""),
    ("service a{rpc a(a)returns(a){", "//x\n", "}}", "", ""), ("service a{rpc a(", "/**/", "a)returns(a);}", "", "", 1), ("message", "//\n", "a{}", "", "", 1),
    ("service a{", "/*x*/rpc/*x*/a/*x*/(/*x*/a)returns(a)/*x*/;/*x*/", "}", "", ""), ("message a{oneof a{", "//x\n", "a a=1;}}", "", ""),
    ("message a{oneof a{", "option a=1;", "a a=1;}}", "", ""), ("message a{a", ".a", " a=1;}", "", ""), ("message a{map<int32,a", ".a", "> a=1;}", "", ""), ("extend a", ".a", "{}", "", ""),
    ("syntax=", "\"proto3\"", ";", "", ""), ("import", " \"a\"", ";", "", ""), ("option a=\"", "\\\\", "\";", "", ""), ("option a=", "'\"'", ";", "", ""), ("option a=", "'\\1'", ";", "", ""),
    ("option a={", "a:1 ", "};", "", ""), ("option a={", "a{b:1},", "};", "", ""), ("option a={", "a:{b:1};", "};", "", ""), ("option a={", "a:[{b:1},{}]\n", "};", "", ""),
    ("message a{extensions 1[", "declaration={number:1 full_name:\"a\" type:\"b\" reserved:true},", "declaration={}];}", "", ""), ("message a{extensions 1[declaration={", "number:1,", "}];}", "", ""),
    ("message a{", "repeated group G=1{}", "}", "", ""), ("message a{", "repeated ", "}", "", ""), ("enum a{", "reserved 1 to 2;", "}", "", ""), ("enum a{", "A=-1;/*x*/\n", "}", "", ""),
    ("", "}", "", "", ""), ("", "/", "", "", ""), ("", "\"", "", "", ""), ("", "'\\", "", "", ""), ("message a{", "//x\n;", "}", "", ""), ("message a{option a=1;//x\n", "//x\n", "}", "", ""),
    ("//", "\u00e9", "\n;", "", ""), ("option a='", "\u65e5", "';", "", ""), ("", "\ufeff", "", "", "")]


def C01(p):
    c = p.c
    n = c.pick(9000, 90000)
    cases = c.gen("raw", n=n, seed=p.seed(), depth=c.pick(4000, 10000))
    for x in p.corpus():
        for d in (0, 1):
            cases.append(dict(x, op="total", args={"debug": d}))
    for P, k, ok, t in p.pick(p.machine((1,)), c.pick(6000, 30000)):
        cases.append(dict(op="total", s=" ".join(t).replace("BOM", "\ufeff"), P=True, B=p.rnd.random() < 0.5,
                          args={"debug": p.rnd.randrange(2)}))
    # every statement kind at every end of its text
    for x in p.gen("plain", c.pick(120, 1500), 1):
        s = x["s"]
        for j in range(0, len(s), c.pick(3, 1)):
            cases.append(dict(op="total", s=s[:j], P=True, B=True))
    # the machine of the grammar answers every token in every configuration
    recs, bad = p.relate("Total", [[x] for x in cases], first, {"out"})
    c.sample(*[{"why": x.get("why", "text"), "s": x.get("s", "")[:80]} for x in p.pick(cases, 4)])
    # time grows with the input, not with its square, and depth is no danger
    groups = []
    for s in SHAPES:
        tokens = len(re.findall(r"\w+|/\*.*?\*/|//.*|\S|\s", s[1]))
        for n in [min(250000, c.pick(300000, 600000) // tokens)] + ([3000000 // len(s[1]) * 4, 2000] if s[5:] else []):
            groups.append([dict(op="total", s="", P=True, B=p.rnd.random() < 0.5, args={"debug": 0, "shape": s[:5], "n": n}, why="shape")])
    p.relate("Total", groups, first, {"out"}, timeout=60.0, confirm=15.0)


def C02(p):
    soundness(p, {"unsound"})


def C03(p):
    soundness(p, {"incomplete"})


def soundness(p, tags):
    c = p.c
    ds = p.machine((1, 0), nest=c.pick(1, 2), swap=int("unsound" in tags))
    p.verdicts(ds if c.quick() else p.pick(ds, 400000), tags)
    cases = p.corpus() + p.gen("accept", c.pick(5000, 60000), stretch=5) + p.gen("complete", c.pick(2000, 30000), 1, stretch=8) + p.gen("const", c.pick(1500, 20000), 2, stretch=12)
    cases += p.gen("position", c.pick(60, 400), 98, stretch=100, longest=5000000, kinds="file,file,file,message")
    cases += p.crowds(60)
    cases += p.spliced(p.gen("plain", c.pick(1200, 12000), 70), c.pick(2500, 30000))
    for kind in SINGLE_KINDS:  # of one kind
        cases += p.spliced(p.gen("plain", c.pick(80, 800), 71, kinds=kind), c.pick(120, 1500))
    # words in other letters
    for P, k, ok, t in p.pick([d for d in ds if d[2] and d[3]], c.pick(2500, 25000)):
        j = p.rnd.choice([j for j, w in enumerate(t) if w[:1].isalpha() or w[0] in "'\""] or [0])
        w = t[j]
        u = p.rnd.choice([w.upper(), w.lower(), w.title(), w.swapcase(), w[:-1] + w[-1:].upper()])
        if u != w and w != "BOM":
            cases += p.laid([(P, k, ok, t[:j] + [u] + t[j + 1:])], 0.5)
    if c.tier == "thorough":
        cases += p.gen("huge", 200, 3, kinds="file", max=40000)
    p.files(cases, tags)


SINGLE_KINDS = ["import", "package", "option", "message", "enum", "service", "extend", "oneof", "map", "reserved", "extensions", "field", "group", "rpc"]


def tree(p, tags, profiles, plain=0.3, machine=(1, 0), quick=5000, stretch=4, **kw):
    """The trees of generated documents, judged for tags."""
    c = p.c
    ds = [d for d in p.machine(machine, nest=c.pick(1, 2)) if d[2]]
    cases = p.laid(p.pick(ds, c.pick(quick, 60000)), plain, **kw) + p.corpus()
    for k, (prof, n) in enumerate(profiles):
        cases += p.gen(prof, c.pick(n, n * 12), k, stretch=stretch)
    cases += p.gen("huge", c.pick(6, 150), 99, kinds="file", max=40000) + p.repeated(c.pick(120, 1200))
    cases += p.gen("position", c.pick(60, 400), 98, stretch=100, longest=5000000, kinds="file,file,file,message")
    cases += p.crowds(60) + p.gen("const", c.pick(100, 1000), 64, crowd=100, max=30000, kinds="option,option,field,map") + p.gen("const", c.pick(60, 600), 65, kinds="lists", max=40000)
    ys = [x for x in p.gen("plain", 40, 97, kinds="file,message,service") if "stretch" not in x and x["s"][:1] != "\ufeff"]
    for x, n in zip(ys, [5, 9, 17] + c.pick([], [33, 65])):  # behind megabytes
        cases.append(dict(x, args={"pad": " ", "times": n * 1000000 + p.rnd.randint(0, 1 << 18), "statements": 0}))
    return p.files(cases, tags)


def C04(p):
    tree(p, {"shape"}, [("complete", 4000), ("position", 1000), ("comment", 1000)])


def C05(p):
    tree(p, {"consts"}, [("const", 7000), ("complete", 1500)], quick=4000)


def C06(p):
    tree(p, {"places"}, [("position", 4500), ("comment", 2500), ("const", 800)], plain=0.05, quick=4000, stretch=15)
    # behind every character
    groups = []
    for pre, post, ms in (("/*", "*/ a", ["N", "N"]), ("//", "\n a\nb", ["C", "N", "N"]), ("'", "' a", ["S", "N"]), ("", " a", ["N", "N"])):
        for lo in range(0, 0x110000, 0x4000):
            if lo < 0x4000 or p.c.tier == "thorough" or lo in (0xc000, 0x1c000) or p.rnd.random() < 0.1:
                groups.append([dict(op="sweep", s="", P=True, B=False, args={"pre": pre, "post": post, "lo": lo, "hi": lo + 0x3fff, "ops": ms, "edges": EDGES})])
    p.relate("CharSweep", groups, first, {"out", "position"}, timeout=60.0)


def C07(p):
    tree(p, {"comments"}, [("comment", 6500), ("position", 800)], plain=0.0, quick=4500)


def C08(p):
    c = p.c
    ds = [d for d in p.machine((1, 0), nest=c.pick(1, 2)) if d[2]]
    cases = p.laid(p.pick(ds, c.pick(3000, 40000)), 0.0, B=False) + p.corpus() + p.gen("comment", c.pick(3500, 50000), stretch=2) + \
        p.gen("big", c.pick(60, 1500), 2) + p.gen("huge", c.pick(4, 80), 1, kinds="file", max=40000) + p.crowds(60)
    groups = [[dict(x, B=False), dict(x, B=True)] for x in cases]
    recs, _ = p.relate("Loose", groups, lambda rs, g: {"a": rs[0], "b": rs[1]}, {"out", "verdict", "kept", "different", "loose"})
    c.sample(*[{"text": r["b"]["s"][:160], "accepted": r["b"]["ok"]} for r in p.pick(recs, 3)])


def C09(p):
    c = p.c
    xs = c.gen(profile="accept", n=c.pick(4000, 50000), seed=p.seed(), pair="true", stretch=4)
    xs += c.gen(profile="const", n=c.pick(1200, 15000), seed=p.seed(1), pair="true", stretch=4)
    xs += c.gen(profile="plain", n=c.pick(40, 400), seed=p.seed(2), pair="true", crowd=100, max=30000)
    groups = [[xs[i], xs[i + 1]] for i in range(0, len(xs) - 1, 2)]
    for P, k, ok, t in p.pick(p.machine((1, 0), nest=c.pick(1, 2)), c.pick(5000, 60000)):
        B = p.rnd.random() < 0.3
        groups.append([dict(op="file", s=gendocs.layout(t, p.rnd, w), P=bool(P), B=B) for w in (0.7, 0.0)])
    recs, bad = p.relate("Layout", groups, lambda rs, g: {"a": rs[0], "b": rs[1]}, {"out", "tree"})
    un = sum(1 for b in bad.values() if "unrelated" in b[0])
    if un > len(recs) // 20:
        raise Broken("%d of %d pairs are no layouts of the same tokens" % (un, len(recs)))
    c.sample(*[{"a": r["a"]["s"][:120], "b": r["b"]["s"][:160], "accepted": r["a"]["ok"]} for r in p.pick(recs, 3)])


def C10(p):
    c = p.c
    c.tlc_ok("ModesModel", env=dict(PERMISSIVE=0, NEST=c.pick(1, 2), SWAP=0))
    ds = p.machine((1, 0), nest=c.pick(1, 2))
    cases = p.laid(p.pick(ds, c.pick(8000, 60000)), 0.5) + p.corpus() + p.gen("accept", c.pick(2500, 40000), stretch=2) + p.gen("const", c.pick(1500, 20000), 1, stretch=2) + \
        p.gen("ends", c.pick(3500, 50000), 2, stretch=2) + p.gen("noted", c.pick(1500, 20000), 3) + p.spliced(p.gen("plain", c.pick(600, 6000), 4), c.pick(1200, 12000)) + p.crowds(60, 30)
    groups = [[dict(x, P=False), dict(x, P=True)] + ([] if x["B"] else [dict(x, P=True, args={"bare": 1})]) for x in cases]
    recs, _ = p.relate("Modes", groups, lambda rs, g: {"a": rs[0], "b": rs[1], "c": rs[-1]}, {"out", "narrower", "different", "extension", "default", "empties"})
    c.sample(*[{"text": r["a"]["s"][:160], "strict": r["a"]["ok"], "permissive": r["b"]["ok"]} for r in p.pick(recs, 3)])


def C11(p):
    c = p.c
    ds = p.machine((1, 0), nest=1)
    cases = p.laid(p.pick(ds, c.pick(5000, 40000)), 0.3) + p.corpus() + p.gen("accept", c.pick(1500, 20000), stretch=8) + p.gen("comment", c.pick(1000, 10000), 1, stretch=8) + \
        p.gen("const", c.pick(500, 10000), 2, stretch=8) + p.gen("complete", c.pick(500, 10000), 3, stretch=25) + p.crowds(60, 30)
    groups = [[dict(x, op="inert", args={"names": [""] + p.rnd.sample(NAMES, 2)})] for x in cases]
    recs, _ = p.relate("Inert", groups, first, {"out", "result", "errpos", "name", "noname", "shown"})
    c.sample(*[{"text": r["s"][:160], "accepted": r["ok"], "runs": len(r["x"])} for r in p.pick(recs, 3)])


NAMES = ["f.proto", "dir/a b.proto", "./a.proto", "x/../y.proto", " x ", "\u00e9.proto", "a//b", "C:\\x\\y.proto", "/", ".", "a/", "<input>", "x:1:2", "%s%d", "-", "\n", "a" * 300, "\u65e5\u672c.proto",
         "f.PROTO", "stdin", "a.proto.bak", "\"q\"", "http://h/a.proto", "~/a.proto", "0", "\\", "a%20b.proto", "100%"]
VIAS = [""] * 8 + ["bufio16", "bufio4k", "bufio64k", "tee", "multi", "limit", "byte", "half", "pipe", "rich", "rich"]
BEHIND = ["behind " + x for x in ("string", "bytes", "buffer", "bufio", "section", "file")]

SMALL = [";//\u00e9\n;", "enum a{", "enum \u00e9", "/*\u65e5*/", ";\"\u00e9\";;", "\ufeff;//x", "//\U0001f600\n", "//\u00e9\r\n;"]


def C12(p):
    c = p.c
    groups = []
    N = c.pick(7, 8)
    deliveries = {}
    texts = [s for s in SMALL if len(s.encode()) <= N]
    for s in texts:
        n = len(s.encode())
        if n not in deliveries:
            out = c.tlc_ok("DeliveryGen", env=dict(N=n, E=c.pick(1, 2), FAULTS=0))
            deliveries[n] = [json.loads(json.loads(l[8:-2])) for l in out.split("\n") if l.startswith('<<"DOC", "')]
        for d in p.pick(deliveries[n], c.pick(700, 6000)):
            groups.append([dict(op="deliver", s=s, P=True, B=p.rnd.random() < 0.5,
                                args={"steps": d["steps"], "joined": int(d["end"]["how"] == "joined"), "via": p.rnd.choice(VIAS + BEHIND)})])
    docs = p.corpus() + p.gen("comment", c.pick(500, 8000), stretch=12) + p.gen("accept", c.pick(500, 8000), 1, stretch=12) + \
        p.gen("huge", c.pick(12, 200), 2, kinds="file", max=20000) + p.crowds(60, 30)
    for x in docs:
        n = len(x["s"].encode())
        for how in range(c.pick(2, 5)):
            r = p.rnd.random()
            if r < 0.25:
                steps = [1] * min(n, 20000)
            elif r < 0.35:
                steps = [4095, 1, 1, 4095] if p.rnd.random() < 0.5 else [4097, 3, 4096]
            else:
                m = p.rnd.choice([2, 3, 5, 17, 100, 4096])
                steps = []
                while sum(steps) < n and len(steps) < 5000:
                    steps.append(0 if p.rnd.random() < 0.1 else p.rnd.randint(1, m))
            args = {"steps": steps, "joined": p.rnd.randrange(2), "via": p.rnd.choice(VIAS + BEHIND)}
            if "stretch" not in x and p.rnd.random() < 0.15:  # not UTF-8 everywhere
                b = bytearray(x["s"].encode())
                for _ in range(p.rnd.randint(1, 3)):
                    j = p.rnd.choice([i + 2 for i in range(len(b) - 2) if b[i:i + 2] in (b"//", b"/*")] or [0]) if p.rnd.random() < 0.7 else p.rnd.randint(0, len(b))
                    b[j:j] = p.rnd.choice([b"\xc0", b"\xff", b"\xe6\x97", b"\x80", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc3", b"\xfe\xff", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xef\xbb", b"\xc1", b"\xf8"])
                groups.append([dict(x, s="", op="deliver", args=dict(args, bytes=base64.b64encode(bytes(b)).decode()))])
                continue
            groups.append([dict(x, op="deliver", args=args)])
    recs, _ = p.relate("Delivery", groups, lambda rs, g: dict(rs[0], faulty=False), {"out", "delivery"})
    c.sample(*[{"text": g[0]["s"][:100], "steps": g[0]["args"]["steps"][:12], "joined": g[0]["args"]["joined"]} for g in p.pick(groups, 3)])


KINDS_OF_FAULT = ["plain", "unexpected", "closed", "wrapped", "short", "typed", "eoflike", "eofwithin", "eofalias"]


def cut(s, n):
    """The text that a reader of the first n bytes sees."""
    b = s.encode()[:n]
    whole = True
    try:
        t = b.decode()
    except UnicodeDecodeError as e:
        t = b[:e.start].decode() + "\ufffd" * (len(b) - e.start)
        whole = False
    return t, whole


def C13(p):
    c = p.c
    groups = []
    N = c.pick(7, 9)
    texts = [s for s in SMALL + ["enum a{};", ";;;;;;;"] if len(s.encode()) <= N]
    gens = {}
    for s in texts:
        n = len(s.encode())
        if n not in gens:
            out = c.tlc_ok("DeliveryGen", env=dict(N=n, E=c.pick(0, 1), FAULTS=1))
            gens[n] = [json.loads(json.loads(l[8:-2])) for l in out.split("\n") if l.startswith('<<"DOC", "')]
        for d in p.pick(gens[n], c.pick(900, 8000)):
            groups.append([dict(op="deliver", s=s, P=True, B=p.rnd.random() < 0.5,
                                args={"steps": d["steps"], "joined": int(d["end"]["how"] == "joined"), "fault": d["end"]["fault"],
                                      "stop": d["stop"], "then": d["end"]["then"], "via": p.rnd.choice(VIAS)})])
    docs = p.corpus() + p.gen("comment", c.pick(350, 6000), stretch=15) + p.gen("accept", c.pick(350, 6000), 1) + p.gen("plain", c.pick(350, 6000), 2, stretch=20) + \
        p.gen("huge", c.pick(8, 150), 3, kinds="file", max=20000) + p.crowds(60, 30)
    for x in docs:
        b = x["s"].encode()
        ends = [i + 1 for i, ch in enumerate(b) if ch in b";}\n"] + [len(b), 0]
        for k in range(c.pick(4, 12)):
            stop = p.rnd.choice(ends) if p.rnd.random() < 0.7 else p.rnd.randint(0, len(b))
            steps = [] if p.rnd.random() < 0.4 else [p.rnd.randint(1, 60) for _ in range(p.rnd.randint(1, 30))]
            groups.append([dict(x, op="deliver", args={"steps": steps, "joined": p.rnd.randrange(2), "fault": p.rnd.choice(KINDS_OF_FAULT),
                                                       "stop": stop, "then": p.rnd.choice(["again", "end", "resume"]), "via": p.rnd.choice(VIAS)})])

    def build(rs, g):
        r = dict(rs[0], faulty=True)
        r["s"], _ = cut(r["s"], g[0]["args"]["stop"])
        r["cp"] = [ord(ch) for ch in r["s"]]
        return r
    recs, _ = p.relate("Delivery", groups, build, {"out", "fault", "notfault"})
    c.sample(*[{"text": g[0]["s"][:100], "fault": g[0]["args"]["fault"], "stop": g[0]["args"]["stop"], "joined": g[0]["args"]["joined"]}
               for g in p.pick(groups, 3)])


NEAR = ["a", "B", "stream", "x64", "int32x", "Int32", "strings", "message", "optional", "max", "inf", "A64", "foo", "true", "group", "to", "_", "bytes", "uint64_"]


def C14(p):
    c = p.c
    out = c.tlc_ok("IsolationGen", env=dict(K=3, R=3))
    scheds = [json.loads(json.loads(l[8:-2])) for l in out.split("\n") if l.startswith('<<"DOC", "')]
    if c.tier == "thorough":
        out = c.tlc_ok("IsolationGen", env=dict(K=4, R=3))
        four = [json.loads(json.loads(l[8:-2])) for l in out.split("\n") if l.startswith('<<"DOC", "')]
        scheds += p.pick(four, 20000)
    docs = [x["s"] for x in p.gen("accept", 400) + p.gen("comment", 400, 1) + p.gen("const", 400, 2) + p.gen("complete", 300, 3)]
    docs += [x["s"] for x in p.crowds(60)]
    # of the same few names
    alike = []
    for j in range(c.pick(24, 120)):
        ws = p.few()
        alike.append([x["s"] for x in p.gen("plain", 24, 20 + j, ids=",".join(ws), kinds="message,field,oneof,map,extend,group,rpc,field,option,enum,service,file")])
    docs += [x["s"] for x in p.corpus()[::4] if len(x["s"]) < 4000]
    groups = []
    same = p.pick([d for d in p.machine((1,)) if d[2]], 3000)

    small = [d for d in docs if len(d) < 40] + SMALL + ["// a\n;", "/* a */;", "enum a{};", "message a {}; // b", "option a = {b:1};", "reserved", "service a {//b\n}"]

    def some(k):
        if p.rnd.random() < 0.12:  # the same text over and over
            d = [p.rnd.choice(p.rnd.choice([docs, small])) for _ in range(p.rnd.randint(1, 2))]
            return [p.rnd.choice(d) for _ in range(k)]
        if p.rnd.random() < 0.45:
            return [p.rnd.choice(docs) for _ in range(k)]
        if p.rnd.random() < 0.5:
            a = p.rnd.choice(alike)
            return [p.rnd.choice(a) for _ in range(k)]
        # the same sentences, with other layouts and comments
        d = [p.rnd.choice(same) for _ in range(p.rnd.randint(1, 2))]
        return [x["s"] for x in p.laid([p.rnd.choice(d) for _ in range(k)], 0.0)]

    for s in scheds:
        k = max(s) + 1
        groups.append([dict(op="isolate", s="", P=p.rnd.random() < 0.7, B=p.rnd.random() < 0.4,
                            args={"docs": some(k), "sched": s, "chunks": [2] * k,
                                  "ps": [p.rnd.randrange(2) for _ in range(k)], "bs": [p.rnd.randrange(2) for _ in range(k)]})])
    recs, _ = p.relate("Isolation", groups, first, {"out", "interference", "changed"})
    c.sample(*[{"docs": [d[:60] for d in g[0]["args"]["docs"]], "schedule": g[0]["args"]["sched"]} for g in p.pick(groups, 2)])
    # behind a history, and in a process of its own
    groups = []
    for _ in range(c.pick(1600, 12000)):
        P, B = p.rnd.random() < 0.7, p.rnd.random() < 0.4
        h = p.rnd.randint(2, 9)
        *docs_, d = some(h + 1)
        groups.append([dict(op="file", s=d, P=P, B=B, fresh=True),
                       dict(op="after", s=d, P=P, B=B, args={"docs": docs_, "ps": [p.rnd.randrange(2) for _ in range(h)], "bs": [p.rnd.randrange(2) for _ in range(h)]})])
    p.relate("Alone", groups, lambda rs, g: {"a": rs[0], "b": rs[1]}, {"out", "history"})
    race = c.build(race=True)
    os.environ["GORACE"] = "halt_on_error=1"
    groups = []
    for _ in range(c.pick(60, 1500)):
        groups.append([dict(op="storm", s="", P=p.rnd.random() < 0.7, B=p.rnd.random() < 0.4, 
                            args={"docs": some(8), "ps": [p.rnd.randrange(2) for _ in range(8)],
                                  "bs": [p.rnd.randrange(2) for _ in range(8)]})])
    p.relate("Isolation", groups, first, {"out", "interference", "changed"}, drv=race, timeout=40.0, jobs=4)
    c.assumptions.append("Interleavings at the granularity of reads are enumerated; finer ones are sampled under the race detector.")


def C15(p):
    c = p.c
    ds = [d for d in p.machine((1, 0), nest=c.pick(1, 2)) if d[2]]
    cases = p.laid(p.pick(ds, c.pick(3500, 40000)), 0.0) + p.corpus() + p.gen("comment", c.pick(1200, 20000), stretch=2) + p.gen("complete", c.pick(600, 10000), 1, stretch=2) + p.crowds(60) + p.repeated(c.pick(150, 1500))
    groups = [[dict(x, op="visit", args={"exhaustive": c.pick(5, 7), "random": 4, "seed": p.rnd.randrange(1 << 30)})] for x in cases]
    recs, _ = p.relate("Visit", groups, first, {"out", "visits"})
    c.cov["walks"] = sum(len(r["x"] or []) for r in recs)
    c.sample(*[{"text": r["s"][:120], "walks": len(r["x"] or []), "declined": (r["x"] or [{}])[-1].get("d")} for r in p.pick(recs, 3)])


def C16(p):
    c = p.c
    ds = [d for d in p.machine((1, 0), nest=c.pick(1, 2)) if d[2]]
    cases = p.laid(p.pick(ds, c.pick(5000, 60000)), 0.1) + p.corpus() + p.gen("complete", c.pick(2500, 30000)) + p.gen("big", c.pick(150, 2000), 1, max=4000) + \
        p.gen("comment", c.pick(1000, 10000), 2) + p.crowds(60, 90)
    cases += [dict(x, B=True) for x in p.gen("comment", c.pick(1200, 12000), 3, kinds="message,message,file,enum,service,extend,group") + p.gen("comment", c.pick(500, 5000), 4, mono=100, kinds="message,message,file,enum,service,extend,group")] + p.repeated(c.pick(300, 3000))
    groups = [[dict(x, op="unordered")] for x in cases]
    recs, _ = p.relate("Unordered", groups, first, {"out", "changed", "refused", "view", "lost", "copy", "part"})
    c.sample(*[{"text": r["s"][:140], "accepted": r["ok"], "outcome": r["x"]["out"]} for r in p.pick(recs, 3)])


def emitted(out):
    return [json.loads(json.loads(l[8:-2])) for l in out.split("\n") if l.startswith('<<"DOC", "')]


HISTORY_TEXTS = ["a.b//c\n;\n'x'1.5", "/*x*/a\n\n  // y\n -0x1F = \"s\\\"\";", "\u00e9 \u65e5a\nmessage  option.\n\t\"\u00e9\" /**/ ;", "1.a .5 -. inf true;//z",
                 "\ufeff;/*a*//*b*/\n'q' syntax", "rpc a(stream .b)\r\nreturns", "//\n//\n;;/**/", "a", "\"x\n;", "0x;1e+", ""]


def words(p, n):
    """Texts for the lexer: pieces of all kinds, well-formed or not."""
    pieces = ["a", "_x1", "message", "option", "stream", "true", "inf", "nan", "0", "1", "19", "007", "0x1F", "1.5", ".5", "1.", "1e5", "1e-3", "08", "0x", "1e", "'a'",
              "\"b\"", "\"\\\"\"", "'\\\\'", "\"'\"", "\"\u00e9\"", "'", "\"", ";", "=", "{", "}", "[", "]", "(", ")", "<", ">", ",", ".", "-", "+", ":", "@", "#", "\\", "/",
              "//c\n", "//\u00e9", "/*d*/", "/**/", "/*\n*/", "/***/", "/*", "\ufeff", "\u00e9", "\u65e5", "a.b", ".a.b", "a.", "..", "--1", "-inf", "+1", "\U0001f600", "\x00",
              "required", "full_name", "group", "map", "syntax", "edition"]
    seps = ["", "", " ", " ", "\n", "\t", "\r\n", "\u00a0", "\u3000", "  ", "\n\n"]
    out = []
    for _ in range(n):
        k = p.rnd.randint(1, 9)
        t = [p.rnd.choice(pieces) + p.rnd.choice(seps) for _ in range(k)]
        if p.rnd.random() < 0.06:  # something long
            m = p.rnd.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257])
            t[p.rnd.randrange(k)] = p.rnd.choice(["a" * m, "_" + "x1" * m, "7" * m, "0x" + "Fa" * m, "." + "5" * m, "'" + "s" * m + "'", "\"" + "\\'\u00e9" * m + "\"", "//" + "c" * m + "\n",
                                                  "/*" + "d\n" * m + "*/", "\n" * m, " " * m, "\r\n" * m, "\u00e9" * m, "a." * m + "b", "0" * m, "1e" + "3" * m, ";" * m])
            t[p.rnd.randrange(k)] += p.rnd.choice(["", " ", "\n"])
        out.append("".join(t))
    return out


def spaced(x):
    """the stretch of a text, if it is one of white-space: read character by character, anything else is more tokens"""
    if "stretch" not in x:
        return {}
    b, at = x["s"].encode(), x["stretch"][0]
    if b[at:at + 1] == b"\n" and b"//" in b[:at].split(b"\n")[-1]:  # the first of them is within the raw text of the comment
        return {}
    return {"stretch": x["stretch"]} if b[at:at + 1] in (b" ", b"\t", b"\n") else {}


def C17(p):
    c = p.c
    groups = []
    hist = emitted(c.tlc_ok("LexHistory", env=dict(MAX=c.pick(3, 4))))
    for s in HISTORY_TEXTS:
        for h in p.pick(hist, c.pick(900, 15000)):
            groups.append([dict(op="lexops", s=s, P=True, B=False, args={"ops": h, "debug": 0})])
    ops = ["N", "N", "K", "Q", "S", "L", "D", "C", "P", "P1", "P2", "P3", "P*", "J1", "J2", "J*", "B*", "T;", "Tmessage", "T.", "BN", "BNN", "BLLL", "BCN", "BKQ", "BSDC", "U", "Z"]
    texts = [(s, {}) for s in words(p, c.pick(3500, 40000))]
    texts += [(x["s"], spaced(x)) for x in p.gen("position", c.pick(800, 10000), stretch=25, gaps="true") if len(x["s"]) < 600]
    for s, st in texts:
        h = []
        for _ in range(p.rnd.randint(2, 14)):
            o = p.rnd.choice(ops)
            if o == "U" and not (h and h[-1][0] in "NKQSLDCJ"):
                continue
            if o[1:] == "*":
                m = p.rnd.choice([3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33, 65])
                o = o[0] + ("".join(p.rnd.choice("NNNNKQSLDC") for _ in range(m)) if o[0] == "B" else str(m))
            h.append(o)
        groups.append([dict(op="lexops", s=s, P=True, B=False, args={"ops": h, "debug": int(p.rnd.random() < 0.2)}, **st)])
    recs, _ = p.relate("LexStream", groups, first, {"out", "malformed", "error", "token", "text", "position", "raw", "ahead", "consume", "empty", "short"})
    c.sample(*[{"text": g[0]["s"][:80], "history": g[0]["args"]["ops"]} for g in p.pick(groups, 4)])


def C18(p):
    c = p.c
    groups = []
    modes = "NKQSLDC"

    def add(s, m=None, stretch=None):
        m = m or p.rnd.choice(modes)
        groups.append([dict(op="lexops", s=s, P=True, B=False, args={"ops": [m] * (len(s) + 1)}, **({"stretch": stretch} if stretch else {}))])
    for a, m, ms in (("all", c.pick(2, 3), modes), ("number", c.pick(3, 4), "LDN"), ("string", c.pick(3, 5), "QSLN"), ("comment", c.pick(4, 6), "CN")):
        for t in emitted(c.tlc_ok("LexTexts", env=dict(MAX=m, ALPHABET=a))):
            s = "".join(t).replace("BOM", "\ufeff")
            for x in (ms if c.tier == "thorough" or len(s) < 3 else p.rnd.choice(ms)):
                add(s, x)
    for a, m in (("number", c.pick(7, 8)), ("string", 8), ("comment", 9), ("all", 6)):
        alpha = {"number": "0178eExF.-+a;", "string": "\"'\\nx\n ", "comment": "/*\na /*", "all": "aex_018.-+\"'\\/*\n ;@\u00e9"}[a]
        for _ in range(c.pick(900, 12000)):
            add("".join(p.rnd.choice(alpha) for _ in range(p.rnd.randint(3, m))))
    # literals and comments with a run of a character in them, and what may end it
    for _ in range(c.pick(2500, 30000)):
        head, fills, tails = p.rnd.choice(RUNS)
        s = p.rnd.choice(["", "", "", "-", "a ", "=", ".."]) + p.rnd.choice(head)
        for _ in range(p.rnd.choice([1, 1, 2])):
            s += p.rnd.choice(fills) * p.rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20])
        add(s + p.rnd.choice(tails) + p.rnd.choice(["", "", "1", ";", "a", "e1", ".5", "8", "\n"]))
    for s in words(p, c.pick(3000, 40000)):
        add(s)
    for x in p.gen("position", c.pick(600, 9000), stretch=20, gaps="true") + p.gen("const", c.pick(600, 9000), 1, stretch=20, gaps="true"):
        if len(x["s"]) < 500:
            add(x["s"], None, spaced(x).get("stretch"))
    # long tokens
    known = [int(k) for k in c.words["ints"] if 100 < int(k) < 1000000]
    for _ in range(c.pick(160, 2500)):
        pre, s, at, ms = p.rnd.choice(LONG)
        pre = p.rnd.choice(["", "", " ", "\n", "\u3000", "//\n"]) + pre if pre != "1" else ""
        n = p.rnd.choice(known) + p.rnd.randint(-3, 3) if known and p.rnd.random() < 0.4 else p.rnd.choice([64, 100, 127, 128, 255, 256, 300, 500, 512, 1000, 1024, 2048, 4090, 4096, 8192, 32768, 65536, 100000])
        add(pre + s + p.rnd.choice(["", ";", " ", "\n", " b", "\n\n'c'"]), p.rnd.choice(ms), [len((pre + s[:at]).encode()), n])
    recs, _ = p.relate("LexStream", groups, first, {"out", "malformed", "error", "token", "text", "position", "raw", "short"})
    c.sample(*[{"text": g[0]["s"][:80], "mode": g[0]["args"]["ops"][0]} for g in p.pick(groups, 4)])
    # every character in every context
    groups = []
    for pre, post, ms in SWEEPS:
        for m in ms:
            for lo, hi in [(0, 299), (300, 0x3100)] + (c.pick([(0xd7f0, 0xe010), (0xfe00, 0x10100), (0x1f5f0, 0x1f610), (0x10fff0, 0x10ffff)], []) or
                                                      [(k, min(k + 0x3fff, 0x10ffff)) for k in range(0x3100, 0x110000, 0x4000)]):
                groups.append([dict(op="sweep", s="", P=True, B=False, args={"pre": pre, "post": post, "lo": lo, "hi": hi, "ops": [m] * 4, "edges": EDGES})])
    recs, _ = p.relate("CharSweep", groups, first, {"out", "range", "malformed", "error", "token", "text", "position", "raw", "short"}, timeout=60.0)
    c.cov["characters"] = sum(w["hi"] - w["lo"] + 1 for r in recs for w in r["x"]["rows"])


RUNS = [
    (["0", "00", "01", "07"], "01234567", [*"89.eExX+-af_;/\"' "] + [""]),
    (["0x", "0X"], "0123456789abcdefABCDEF", [*"gGxX.pP_+-;/\" "] + [""]),
    (["1", "9", "12"], "0123456789", [*".eEfFxX_+-al;/\" "] + ["", "e+", "E-", ".e"]),
    (["0.", "1.", ".", "00."], "0123456789", [*".eEfFx_+-l;/\" "] + ["", "e+", "E-", "e1"]),
    (["1e", "1E+", ".1e-", "0.1E", "0e", "08e"], "0123456789", [*".eEfFx_+-;/\" "] + [""]),
    (["a", "_", "Z", "e", "x0"], "aZ_09ex", [*".-+;/\"' \u00e9"] + [""]),
    (["\"", "'", "\"a", "'\\"], ["a", "\\\\", "\\'", "\\\"", "\\n", "\\0", "'", "\u00e9", " "], ["\"", "'", "\"\"", "\\\"", "\\'", "\n", ""]),
    (["/*", "/**", "//", "/"], ["*", "/", " ", "a", "\n", "**", "*a"], ["*/", "/", "*", "\n", ""]),
]
# a token, the character of it that can be repeated, and the modes in which it is one token
LONG = [("", "aXb", 1, "NKQSLDC"), ("", "_0b", 1, "NKLC"), ("", "172", 1, "LD"), ("", "0172", 2, "LD"), ("", "0x1F2", 3, "LD"), ("", "1.52", 2, "L"), ("", "1.52e3", 2, "L"), ("", ".521", 2, "L"),
        ("", "1e123", 3, "L"), ("", "1E-123", 4, "L"), ("", "'aXb'", 2, "SL"), ("", "\"aXb\"", 2, "SL"), ("", "\"a\u00e9b\"", 2, "SL"), ("", "\"\\na b\"", 4, "SL"), ("", "'\\'a b'", 4, "S"),
        ("", "/*aXb*/", 3, "C"), ("", "/* \n*b*/", 3, "C"), ("", "//aXb\nc", 3, "C"), ("", "//a\u00e9b\nc", 3, "C")]
EDGES = [2048, 5760, 5761, 8192, 8203, 8232, 8234, 8239, 8240, 8287, 8288, 12288, 12289, 65279, 65280, 65536]
SWEEPS = [("", "", "NLKC"), ("", "a", "NL"), ("a", "", "NK"), ("a", "b", "N"), ("1", "", "L"), ("0", "", "D"), ("0x", "", "L"), ("0x1", "", "L"), ("1.", "", "L"), (".", "", "L"),
          ("1e", "", "L"), ("1e-", "", "D"), ("1e1", "", "L"), ("\"", "\"", "LN"), ("'", "'", "S"), ("\"\\", "\"", "Q"), ("'\\", "'", "S"), ("\"a", "", "S"), ("//", "", "CN"), ("//", "\na", "CN"),
          ("/*", "*/", "C"), ("/**", "/", "C"), ("/*", "/", "N"), ("/", "", "C"), (" ", " a", "N"), ("a ", ";", "N")]


def C19(p):
    c = p.c
    ds = [d for d in p.machine((1, 0), nest=c.pick(1, 2)) if not d[2]]
    cases = p.laid(p.pick(ds, c.pick(9000, 90000)), 0.3) + p.corpus() + p.gen("accept", c.pick(5000, 70000), stretch=3) + p.gen("huge", c.pick(4, 60), 9, kinds="file", max=20000) + p.gen("accept", c.pick(60, 600), 60, crowd=100, max=30000)
    for x in p.gen("big", c.pick(150, 2500), 1, max=3000):
        s = x["s"]
        j = p.rnd.randrange(len(s)) if s else 0
        cases.append(dict(x, s=s[:j] + p.rnd.choice([" ; ", " = ", " } ", " a ", " 1 ", "@", "\"", " message "]) + s[j:]))
    # cut short
    for k, prof in enumerate(("plain", "const", "complete")):
        for x in p.gen(prof, c.pick(250, 3000), 10 + k):
            s = x["s"]
            for j in p.pick([j for j in range(1, len(s)) if not s[j].isalnum() or not s[j - 1].isalnum()], c.pick(6, 20)):
                cases.append(dict(x, s=s[:j] + p.rnd.choice(["", "", " ", "\n\n", "  // x", "/* x */"])))
    # of the ends and beginnings of others
    cases += p.spliced(p.gen("plain", c.pick(500, 5000), 20), c.pick(900, 9000))
    p.files(cases, {"errpos"})


SINGLES = ["1syntax", "1edition", "1import", "1package", "1option", "1message", "1enum", "1service", "1extend", "1oneof", "1map", "1reserved",
           "1extensions", "1efield", "1group", "1declaration"]


def C20(p):
    c = p.c
    cases = []
    for k, (prof, n) in enumerate((("accept", 3500), ("comment", 2500), ("plain", 1000), ("const", 500))):
        cases += p.gen(prof, c.pick(n, n * 12), k, kinds=",".join(SINGLES), stretch=2)
    cases += p.crowds(60, kinds=",".join(SINGLES))
    # behind something else
    for x in p.gen("plain", c.pick(900, 9000), 10, kinds=",".join(SINGLES)):
        cases.append(dict(x, s=p.rnd.choice([";", ";", ";;", ",", "{", "}", "=", "[", "]", "(", ")", "<", ">", ".", "-", "+", "a", "1", "'a'", "option", "message", "optional", "import 'a';", "{}", "{};", "\ufeff",
                                             "/* x */ ;", "; // x\n", "group", "public", ":"]) + p.rnd.choice(["", " ", "\n"]) + x["s"]))
    p.files(cases, {"unsound", "incomplete", "shape", "consts", "comments", "places", "rest", "errpos"}, module="ProtoSingle")


def C21(p):
    c = p.c
    groups, info = [], []

    def add(x, n):
        t, whole = cut(x["s"], n)
        import base64
        if "stretch" in x and whole and n > x["stretch"][0] and x["s"].encode()[x["stretch"][0]:][:1] in b" \t\n":
            groups.append([dict(op="file", s=t, P=x["P"], B=x["B"], stretch=x["stretch"])])
            return
        b = x["s"].encode()[:n]
        groups.append([dict(op="file", s=t, raw=base64.b64encode(b).decode(), P=x["P"], B=x["B"])])
    docs = p.gen("complete", c.pick(60, 900)) + p.gen("comment", c.pick(40, 600), 1) + p.gen("const", c.pick(30, 500), 2)
    docs = [x for x in docs if len(x["s"]) < c.pick(260, 800)]
    for x in docs:
        for n in range(len(x["s"].encode()) + 1):
            add(x, n)
    for x in p.gen("comment", c.pick(260, 4000), 5) + p.gen("complete", c.pick(90, 2000), 6):  # behind a statement, a bracket or a comment
        b = x["s"].encode()
        ends = [j + 1 for j in range(len(b)) if b[j:j + 1] in b";{}\n" or b[j - 1:j + 1] == b"*/"]
        for j in p.pick(ends, 6):
            add(x, min(len(b), j + p.rnd.randrange(2)))
    for x in p.corpus() + p.crowds(60) + p.gen("complete", c.pick(150, 1500), 4, stretch=100):
        n = len(x["s"].encode())
        for j in ([p.rnd.randrange(n + 1) for _ in range(3)] if n > 100 else range(0, n + 1)):
            add(x, j)

    def build(rs, g):
        import base64
        r = dict(rs[0])
        b = base64.b64decode(g[0]["raw"]) if "raw" in g[0] else g[0]["s"].encode()
        r["len"] = len(b)
        try:
            b.decode()
            r["whole"] = True
        except UnicodeDecodeError:
            r["whole"] = False
        return r
    recs, _ = p.relate("Truncation", groups, build, {"out", "unsound", "shape", "consts", "comments", "places", "loose", "behind"})
    c.sample(*[{"text": r["s"][:140], "accepted": r["ok"]} for r in p.pick(recs, 3)])


NO_HEAD = "import,package,option,message,enum,service,extend,oneof,map,reserved,extensions,field,group,rpc"
NESTABLE = "message,enum,extend,option,oneof,map,reserved,extensions,field,group"


def size(s):
    return [len(s.encode()), s.count("\n")]


def within(pre, x, post):
    y = dict(x, s=pre + x["s"] + post)
    if "stretch" in x:
        y["stretch"] = [x["stretch"][0] + len(pre.encode()), x["stretch"][1]]
    return y


def unmarked(x):
    """x without a byte order mark."""
    s = x["s"].lstrip("\ufeff")
    y = dict(x, s=s)
    if "stretch" in x:
        y["stretch"] = [x["stretch"][0] - len(x["s"].encode()) + len(s.encode()), x["stretch"][1]]
    return y


def C22(p):
    c = p.c
    f = [unmarked(x) for x in p.gen("complete", c.pick(1500, 20000), 0, kinds=NO_HEAD, stretch=2) +
         p.gen("comment", c.pick(700, 10000), 1, kinds=NO_HEAD, stretch=2) + p.gen("const", c.pick(500, 8000), 2, kinds=NO_HEAD, stretch=2) +
         p.gen("position", c.pick(700, 10000), 3, kinds=NO_HEAD, stretch=2) + p.crowds(60, kinds=NO_HEAD) + p.gen("plain", c.pick(60, 600), 63, crowd=100, noise=100, max=30000, kinds="rpc,service,rpc,field,message,enum")]
    for j in range(c.pick(12, 80)):  # of few names
        ws = p.few()
        f += [unmarked(x) for x in p.gen("plain", 14, 30 + j, ids=",".join(ws), kinds=NO_HEAD)]
    f += p.laid([d for d in p.pick([d for d in p.machine((1, 0)) if d[2] and not (set(d[3][:3]) & {"syntax", "edition", "BOM"})], c.pick(2500, 30000))], 0.3)
    mark = len(f)
    f += [unmarked(x) for x in p.gen("complete", c.pick(1200, 20000), 4, kinds=NESTABLE, stretch=2) +
          p.gen("comment", c.pick(600, 10000), 5, kinds=NESTABLE, stretch=2)]
    recs = c.run([dict(x) for x in f])
    by = {r["id"] - 1: r for r in recs}
    good = {True: [], False: []}
    for i in range(len(f)):
        if i in by and by[i]["ok"] and not by[i]["t"]["xb"]:
            good[f[i]["P"]].append((f[i]["s"], sum(1 for e in by[i]["t"]["body"] if e["k"] != "comment")))
    groups, where = [], []

    def add(x, a0, pre, suf, **w):
        """x stands behind a0 in one context and behind pre in the other."""
        k = pre.rsplit("\n", 1)[-1]
        u, v = size(a0), size(pre)
        groups.append([within(a0, x, w.pop("asuf", "")), within(pre, x, suf)])
        where.append(dict(w, d=[v[0] - u[0], v[1] - u[1], len(k) - len(a0.rsplit("\n", 1)[-1]), u[1] + 1]))

    def join(pre, x):
        """pre, and whether x goes on in its last line."""
        if not pre or p.rnd.random() < 0.5 or x["s"].lstrip()[:1] in ("/", ""):
            return pre
        return pre.rstrip("\n") + " " * p.rnd.randint(0, 12)
    for i, x in enumerate(f):
        if i not in by or not by[i]["ok"] or by[i]["t"]["xb"]:
            continue
        n = len(by[i]["t"]["body"])
        pre, k = "", 0
        if x["B"]:
            suf = ""  # trailing comments would belong to what follows
            cnt = -1
        else:
            suf = p.rnd.choice(good[x["P"]])[0]
            suf = "\n" + ("import 'z';\n" if suf.lstrip()[:1] in ("", ";", "/") else "") + suf
            cnt = n
        r = p.rnd.random()
        if r < 0.07:  # far behind
            y = p.far([dict(x)], 1)[0]
            if "args" in y:
                q = y["args"]["pad"] * y["args"]["times"]
                groups.append([dict(x), y])
                where.append(dict(wa=dict(path=[], first=1, count=n, last=0), wb=dict(path=[], first=1, count=n, last=0), d=size(q) + [len(q.rsplit("\n", 1)[-1]), 1]))
        elif r < 0.17:
            pre = "".join(p.rnd.choice([" ", "\n", "\t", "   ", "\u3000", "\r\n"]) for _ in range(p.rnd.randint(1, 9)))
            add(x, "", pre, suf, wa=dict(path=[], first=1, count=n, last=0), wb=dict(path=[], first=1, count=cnt, last=0))
        elif i >= mark:
            deep = p.rnd.randint(1, 3) if p.rnd.random() < 0.85 else p.rnd.randint(4, 24)
            group = p.rnd.random() < 0.5
            pre = join(p.rnd.choice(["message a {\n", "message a {", "message b{ "]) * deep + ("optional group G = 1 {\n" if group else "\n"), x)
            add(x, "", pre, "\n" + "}" * (deep + group), wa=dict(path=[], first=1, count=-1, last=0), wb=dict(path=[1] * (deep + group), first=1, count=-1, last=0))
        else:
            for _ in range(p.rnd.randint(1, 3) if p.rnd.random() < 0.96 else p.rnd.choice([15, 31, 63, 90, 130])):
                s2, k2 = p.rnd.choice(good[x["P"]])
                if x["B"]:
                    # only such as keep no comment at their end for what follows
                    s2, k2 = p.rnd.choice([(";\n", 1), ("message a{}\n", 1), ("option a = 1;\n", 1), ("enum a { A = 1; }\n", 1), ("import 'a';\n", 1)])
                # comments at the end of it belong to the statement behind it, and
                # it may take a semicolon
                pre += s2 + "\nimport 'z';\n"
                k += k2 + 1
            if p.rnd.random() < 0.015:
                m = p.rnd.choice([127, 255, 256, 300, 1000])
                pre += p.rnd.choice(["import 'z';\n", "message a { a b = 1; }\n", ";", "/*x*/ option a = 1; //y\n", "service a { rpc b(c) returns (d); }\n"]) * m + "import 'z';\n"
                k += m + 1
            if not x["B"] and p.rnd.random() < 0.3:
                pre = p.rnd.choice(["syntax = 'proto3';\n", "edition = '2023';\n", "syntax='proto2';\nedition='2024';\n", "\ufeff"]) + pre
            if not x["B"] and n == 1 and len(x["s"]) < 500 and "stretch" not in x and p.rnd.random() < 0.1:  # behind itself
                m = p.rnd.choice([1, 2, 3, 5])
                pre, k = pre + (x["s"] + "\nimport 'z';\n") * m, k + 2 * m
            if p.rnd.random() < 0.4:  # behind others of the same names
                e, m = kin(p, x["s"], "file")
                pre, k = pre + e + "\n", k + m
            add(x, "", join(pre, x), suf, wa=dict(path=[], first=1, count=n, last=0), wb=dict(path=[], first=k + 1, count=cnt, last=0))
    # statements of one body among others of the body
    for kind, (open_, close, path) in BODIES.items():
        xs = []
        for k, prof in enumerate(("complete", "comment", "position", "const")):
            xs += p.gen(prof, c.pick(180, 2500), 10 + k, kinds="i" + kind, stretch=2)
        xs = [dict(unmarked(x), B=False) for x in xs]
        by = {r["id"] - 1: r for r in c.run([within(open_, x, close) for x in xs])}
        alone = {True: [], False: []}
        for i, x in enumerate(xs):
            if i in by and by[i]["ok"]:
                b = by[i]["t"]["body"]
                for j in path:
                    b = b[j - 1]["body"]
                x["n"] = len(b)
                x["kinds"] = b[0]["k"] if b else ""
                alone[x["P"]].append(x)
        # a semicolon in front would be taken by what is in front of it, comments behind belong to what follows
        sep = "\n" + SEPARATORS[kind] + "\n"
        for P in (True, False):
            many = {}
            for y in alone[P]:
                if y["n"] and len(y["s"]) < len(many.get(y["kinds"], dict(s=y["s"] + " "))["s"]):
                    many[y["kinds"]] = y
            for y in many.values():  # any number of them
                x, m = p.rnd.choice(alone[P]), p.rnd.choice([101, 128, 130, 200, 256, 300])
                pre = open_ + (y["s"] + sep) * m
                add({k: x[k] for k in ("op", "s", "P", "B", "stretch") if k in x}, open_, pre, sep + close, asuf=close,
                    wa=dict(path=path, first=1, count=x["n"], last=0), wb=dict(path=path, first=m * (y["n"] + 1) + 1, count=x["n"], last=0))
            for x in alone[P]:
                m = p.rnd.choice([0, 1, 1, 2, 3]) if p.rnd.random() < 0.97 else p.rnd.choice([31, 64, 100])
                ys = [p.rnd.choice(alone[P]) for _ in range(m)]
                pre = open_ + "".join(y["s"] + sep for y in ys)
                z = p.rnd.choice(alone[P])
                e, extra = kin(p, x["s"], kind) if p.rnd.random() < 0.4 else ("", 0)
                if e:
                    pre, m = pre + e + "\n", 1
                add({k: x[k] for k in ("op", "s", "P", "B", "stretch") if k in x}, open_, join(pre, x) if m else pre, sep + z["s"] + close, asuf=close,
                    wa=dict(path=path, first=1, count=x["n"], last=0), wb=dict(path=path, first=sum(y["n"] + 1 for y in ys) + extra + 1, count=x["n"], last=0))
    for g, w in zip(groups, where):
        g[0]["where"] = w
    recs, bad = p.relate("Context", groups, lambda rs, g: dict(g[0]["where"], a=rs[0], b=rs[1]), {"out", "verdict", "context"})
    c.sample(*[{"alone": r["a"]["s"][:80], "context": r["b"]["s"][:160]} for r in p.pick(recs, 3)])


def kin(p, s, kind):
    """Statements of the names that s has, and their number; the last one takes no semicolon."""
    ws = re.findall(r"(?a)[A-Za-z_]\w*", s)
    qs = re.findall(r"(?a)\.?((?:[A-Za-z_]\w*\.)+)[A-Za-z_]", s)
    w, v = p.rnd.choice(ws or ["a"]), p.rnd.choice(ws or ["a"])
    q = p.rnd.choice(qs)[:-1] if qs and p.rnd.random() < 0.8 else w
    n = p.rnd.choice(re.findall(r"\b\d+\b", s) or ["1"])
    c = w[:1].upper() + w[1:]
    if not ("A" <= c[0] <= "Z"):
        c = "G" + c
    if any(len(x) > 200 for x in (w, v, q, n)) or not re.fullmatch(r"0|[1-9]\d*", n):
        return "", 0
    # as words of a body could be other statements
    if kind in ("enum", "oneof") and (w in KEYS or v in KEYS or q.split(".")[0] in KEYS):
        return "", 0
    of = {
        "file": ["package %s;" % q, "package %s;" % q, "package %s;" % q, "import '%s';" % w, "import public '%s.proto';" % w, "message %s { oneof %s { a b = %s; } } import 'z';" % (w, v, n),
                 "enum %s { A = %s; } import 'z';" % (w, n), "option %s = %s;" % (w, v), "extend %s {} import 'z';" % q, "service %s {} import 'z';" % w],
        "message": ["message %s { enum %s { A = %s; } } option z = 1;" % (w, v, n), "enum %s {} option z = 1;" % w, "reserved '%s';" % w, "reserved %s;" % n, "reserved %s;" % w, "extensions %s;" % n,
                    "optional %s z = %s;" % (q, n) if q.split(".")[0] != "group" else "option z = 1;", "optional int32 %s = %s;" % (w, n), "map<string, %s> %s = %s;" % (q, w, n),
                    "option %s = %s;" % (w, v), "oneof %s { int32 %s = %s; } option z = 1;" % (w, v, n), "optional group %s = %s {} option z = 1;" % (c, n), "extend %s {} option z = 1;" % q],
        "enum": ["%s = %s;" % (w, n), "%s = -%s;" % (w, n), "reserved '%s';" % w, "reserved %s;" % n, "option %s = %s;" % (w, v), "reserved %s to max;" % n],
        "oneof": ["int32 %s = %s;" % (w, n), "%s z = %s;" % (q, n), "option %s = %s;" % (w, v)],
        "service": ["rpc %s (%s) returns (%s);" % (w, "." + q, "." + q), "rpc %s (stream .%s) returns (stream .%s);" % (v, q, w), "option %s = %s;" % (w, v)],
        "extend": ["optional int32 %s = %s;" % (w, n), "optional .%s z = %s;" % (q, n), "repeated .%s %s = %s;" % (q, w, n)],
    }[kind]
    e = p.rnd.choice(of)
    return e, e.count("} import 'z';") + e.count("} option z = 1;") + (kind != "oneof" or e[:7] != "option ")


KEYS = {"option", "reserved", "message", "enum", "oneof", "extend", "extensions", "map", "group", "optional", "required", "repeated", "rpc", "service", "import", "package", "syntax", "edition", "stream"}

BODIES = {"service": ("service a {\n", "\n}", [1]), "enum": ("enum a {\n", "\n}", [1]), "extend": ("extend a {\n", "\n}", [1]), "message": ("message a {\n", "\n}", [1]),
          "oneof": ("message a { oneof b {\n", "\n} }", [1, 1])}
SEPARATORS = {"service": "rpc Z(Z) returns (Z);", "enum": "Z = 99;", "extend": "int32 z = 99;", "message": "int32 z = 99;", "oneof": "int32 z = 99;"}


def C23(p):
    c = p.c
    cases = []
    for t in emitted(c.tlc_ok("LexTexts", env=dict(MAX=c.pick(4, 6), ALPHABET="comment"))):
        s = "".join(t)
        for x in ("//" + s + "\n;", "/*" + s + "*/;"):
            cases.append(dict(op="remarks", s=x, P=True, B=True))
        if c.tier == "thorough":
            cases.append(dict(op="remarks", s="message a {//" + s, P=True, B=True))
    for x in p.gen("comment", c.pick(3500, 50000), stretch=6) + p.gen("position", c.pick(800, 10000), 1) + p.corpus():
        if "stretch" in x and x["s"].encode()[x["stretch"][0]:][:1] == b"\n":  # within a comment, these are lines of it
            del x["stretch"]
        cases.append(dict(x, op="remarks"))
    recs, _ = p.relate("Remarks", [[x] for x in cases], first, {"out", "lines"})
    c.cov["comments"] = sum(len(r["x"] or []) for r in recs)
    c.sample(*[{"text": r["s"][:120], "comments": len(r["x"] or [])} for r in p.pick(recs, 3)])


def C25(p):
    c = p.c
    ds = [d for d in p.machine((1, 0), nest=c.pick(1, 2), swap=int(not c.quick())) if not d[2]]
    cases = p.laid(p.pick(ds, c.pick(9000, 80000)), 0.3) + p.gen("accept", c.pick(3000, 40000)) + p.gen("const", c.pick(1500, 20000), 1) + p.gen("ends", c.pick(1500, 20000), 2) + p.gen("accept", c.pick(40, 400), 60, crowd=100, max=30000)
    # malformed literals and comments
    for s in texts_of_pieces(p, c.pick(800, 8000)):
        pre, post = p.rnd.choice(PLACES)
        cases.append(dict(op="file", s=pre + s + post, P=p.rnd.random() < 0.7, B=False))
    for x in p.gen("plain", c.pick(40, 400), 3):
        for j in range(0, len(x["s"]), c.pick(4, 1)):
            cases.append(dict(op="file", s=x["s"][:j], P=x["P"], B=x["B"]))
    cases = [dict(x, op="refusal", args={"name": p.rnd.choice(["", "", "a.proto", "\u00e9/b c:1.proto"]), "debug": int(p.rnd.random() < 0.2)}) for x in cases]
    recs, _ = p.relate("Refusal", [[x] for x in cases], first, {"out", "nameless", "found", "shown", "says"})
    c.cov["refused"] = sum(1 for r in recs if not r["ok"])
    c.sample(*[{"text": r["s"][:120], "error": r["err"][:160]} for r in p.pick([r for r in recs if not r["ok"]], 3)])


PLACES = [("", ""), ("option a = ", ";"), ("message ", " {}"), ("message a { b c = ", "; }"), ("import ", ";"), ("package a.", ";"), ("message a { reserved ", "; }"),
          ("message a { b c = 1 [d = ", "]; }"), ("enum a { A = ", "; }"), ("option a = { b: ", "};"), ("service a { rpc b(", ") returns (c); }"), ("syntax = ", ";")]


def texts_of_pieces(p, n):
    ps = ["'", '"', "'a", '"a\n', "'\\x'", "0x", "0xg", "1e", "1.e+", "1a", "09", "0b1", "/", "/*", "/* *", "/*/", "//", "a", ".", "-", "+", "- ", "'\\'", "\\", "#", "\u00e9", "\ufeff", "\x00",
          "\ufffd", "1", "1.5", "'x'", "inf", "true", "{", "}", ";", " ", "\n", "\U0001f600"]
    def piece():
        if p.rnd.random() < 0.04:  # something long
            return p.rnd.choice(["a", "7", "'", "x'", "\u00e9", " ", "\\x", "_a1"]) * p.rnd.choice([64, 130, 260, 300, 1030])
        return p.rnd.choice(ps)
    return ["".join(piece() for _ in range(p.rnd.randint(1, 3))) for _ in range(n)]


def C24(p):
    c = p.c
    groups = []
    reads = ["F", "M", "E", "R0", "R1", ";"]
    texts = words(p, c.pick(5000, 60000))
    pieces = ["a", "b.c", ".a.b", "a . b", ".", "..", "1", "-", "-1", "+ 2.5", "- inf", "nan", "true", "'x'", "\"y\"", "'it\"s'", "\"a\" 'b'", "'\\\\' \"'\"", ";", ";;", "/*c*/", "//d\n",
              "=", "{", "a.", "a..b", "message", "-a", "-'x'", "0x1F", ".5", "1.", "- .5", "a.1", "\ufeff", "\"\u00e9\"", "'z", "0x"]
    for _ in range(c.pick(6000, 60000)):
        texts.append("".join(p.rnd.choice(pieces) + p.rnd.choice([" ", "", "\n", "/*x*/", " "]) for _ in range(p.rnd.randint(1, 5))))
    for s in texts:
        h = []
        for _ in range(p.rnd.randint(1, 6)):
            h.append(p.rnd.choice(reads))
            if p.rnd.random() < 0.5:
                h.append(p.rnd.choice(["N", "L", "C", "P", "BNN", "K"]))
        groups.append([dict(op="lexops", s=s, P=True, B=False, args={"ops": h + ["N", "L"], "debug": 0})])
    # long chains of names, of strings, and signs with numbers, also such as are broken somewhere
    for _ in range(c.pick(2000, 25000)):
        gap = lambda: p.rnd.choice(["", "", "", "", " ", "\n", "/*x*/"])
        odd = p.rnd.random() < 0.5
        size_ = lambda: p.rnd.choice([1, 1, 2, 3, 8, 15, 16, 17, 25, 31, 33, 64, 65, 100, 130])
        k = p.rnd.choice([1, 2, 2, 3, 4, 5, 8, 12, 17, 33])
        kind = p.rnd.random()
        if kind < 0.5:
            part = lambda: p.rnd.choice(["a", "message", "_", "x1", "inf", "true", "group"]) if p.rnd.random() < 0.5 else p.rnd.choice(["a", "x9_", "_"]) * size_()
            t = [part()]
            for _ in range(k):
                t += [".", part()]
            t = (["."] if p.rnd.random() < 0.3 else []) + t
            bad, rs = [".", "", "1", "\u00e9", "'", "-", "a", "/*", "0x"], "FME"
        elif kind < 0.85:
            t = []
            for _ in range(k):
                q = p.rnd.choice("'\"")
                t.append(q + "".join(p.rnd.choice(["a", "\\1", "\\12", "\\x1", "\\xF", "\\\\", "\\'", "\\\"", "7", "f", "'" if q == '"' else '"', "\u00e9", "\\n", " "]) * p.rnd.choice([1, 1, 2, size_()]) for _ in range(p.rnd.choice([0, 1, 1, 2, 3, 4]))) + q)
            bad, rs = [",", "a", "", "'", "1", "'a", ";", "+"], ["R0", "R1"]
        else:
            t = [p.rnd.choice("+-"), p.rnd.choice(["1", "0", "07", "0x1f", "1.5", ".5", "5.", "inf", "nan", "1e5", "1e+0", "0.0", "true", "Inf", "a.b"]) if p.rnd.random() < 0.7 else p.rnd.choice(["7", "01", "9."]) + "1" * size_()]
            bad, rs = ["-", "+", "", "'a'", ".", "a", "{"], ["R0", "R1"]
        if odd:
            i = p.rnd.randrange(len(t))
            t[i:i + p.rnd.randint(0, 1)] = [p.rnd.choice(bad)]
        groups.append([dict(op="lexops", s=p.rnd.choice(["", "", " ", "//c\n"]) + "".join(x + gap() for x in t) + p.rnd.choice(["", ";", " a", "\n1"]), P=True, B=False,
                            args={"ops": [p.rnd.choice(rs), p.rnd.choice(["L", "N"]), "N"], "debug": 0})])
    # every read at every pair and triple of pieces
    for a in pieces:
        for b in pieces:
            for r in reads:
                if p.rnd.random() < c.pick(0.6, 1.0):
                    groups.append([dict(op="lexops", s=a + p.rnd.choice([" ", "", "\n", "//x\n"]) + b + p.rnd.choice(["", " c", ";", " 'q'"]),
                                        P=True, B=False, args={"ops": [r, "L", "N"], "debug": 0})])
    recs, _ = p.relate("LexStream", groups, first, {"out", "malformed", "error", "token", "text", "position", "raw", "ahead", "consume", "empty", "accepted", "refused", "short"})
    c.sample(*[{"text": g[0]["s"][:80], "history": g[0]["args"]["ops"]} for g in p.pick(groups, 4)])


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(pid, tier, seed)
    try:
        c.build()
        p = Prop(c)
        globals()[pid](p)
        if p.skipped:
            c.cov["skipped"] = p.skipped
        if c.notes:
            c.cov["notes"] = c.notes[:10]
        rc = c.finish()
    except Broken as e:
        if c.violations:
            return 1
        print("BROKEN property=%s: %s" % (pid, e))
        return 3
    return rc


if __name__ == "__main__":
    sys.exit(main())
