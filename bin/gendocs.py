"""Documents from ProtoGen: parsing TLC's output and laying tokens out."""
import json, re

SEPS = [" ", " ", " ", "\n", "\t", " // c\n", " /* c */ ", "\n// é 日\n", "/*\n*/", "\r\n", " /* a *//* b */ ", "//x\n//y\n"]
CROWD = ["// c\n", "/* c */", "/*d*/ ", "\n//e\n"]
BOUNDARY = (";", "{", "}", "[", ",")


def docs(out):
    """The emitted documents, distinct: list of (kind, ok, tokens)."""
    seen = {}
    for l in out.split("\n"):
        if l.startswith('<<"DOC"'):
            m = re.match(r'<<"DOC", "(\w+)", (TRUE|FALSE), (".*")>>$', l)
            toks = tuple(json.loads(json.loads(m.group(3))))
            if toks not in seen:
                seen[toks] = (m.group(1), m.group(2) == "TRUE")
    return [(k, ok, list(t)) for t, (k, ok) in seen.items()]


def layout(toks, rnd, plain=0.3):
    """A text of these tokens; which layout is of no consequence to the verdict."""
    r = rnd.random()
    if r < plain:
        return " ".join(toks).replace("BOM", "\ufeff")
    out = []
    crowd = rnd.random() < 0.03
    many = rnd.randrange(len(toks) + 1)
    for i, t in enumerate(toks):
        if i:
            p = toks[i - 1]
            if p in BOUNDARY:
                out.append(rnd.choice(SEPS) if rnd.random() < 0.5 else "\n")
            else:
                out.append(rnd.choice(SEPS) if rnd.random() < 0.15 else " ")
            if crowd and (many == i or rnd.random() < 0.01):
                out.append("".join(rnd.choice(CROWD) for _ in range(rnd.choice([9, 17, 18, 20, 33, 40, 65]))))
        out.append("\ufeff" if t == "BOM" else t)
    if rnd.random() < 0.4:
        out.append(rnd.choice(SEPS))
    if rnd.random() < 0.2 and not (toks and toks[0] == "BOM"):
        out.insert(0, rnd.choice(SEPS))
    return "".join(out)
