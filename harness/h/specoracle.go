package h

// SpecOracle is the model of both specifier languages, on top of packaging's versions (parts and order only).
const SpecOracle = `
import re
from pip._vendor.packaging.version import Version, InvalidVersion
from pip._vendor.packaging.specifiers import Specifier, InvalidSpecifier
WS = " \t\n\r\f\v"
LIM = 2**63 - 1
def ver(s):
    v = Version(s)
    ns = [v.epoch] + list(v.release) + ([v.pre[1]] if v.pre else []) + ([v.post] if v.post is not None else []) + ([v.dev] if v.dev is not None else [])
    if max(ns) > LIM:
        raise OverflowError
    return v
def parse(s, pep345):
    out = []
    for c in s.split(","):
        c = c.strip(WS)
        if not c:
            continue
        m = re.match(r"(===|~=|==|!=|<=|>=|<|>)?(.*)", c, re.S)
        op, rest = m.group(1), m.group(2).strip(WS)
        if op == "===" or (op is None and not pep345) or (op == "~=" and pep345):
            raise ValueError(c)
        wild = False
        if not pep345 and op in ("==", "!=") and rest.endswith(".*"):
            wild, rest = True, rest[:-2]
        v = ver(rest)
        if not pep345:
            if wild and (v.dev is not None or v.local is not None):
                raise ValueError(c)
            if op == "~=" and len(v.release) < 2:
                raise ValueError(c)
            if v.local is not None and op not in ("==", "!="):
                raise ValueError(c)
        out.append((op or "==", wild, v))
    return out
def pad(a, b):
    n = max(len(a), len(b))
    return list(a) + [0] * (n - len(a)), list(b) + [0] * (n - len(b))
def series(s, v, release=None):
    """v begins with s"""
    r = list(s.release if release is None else release)
    if s.epoch != v.epoch:
        return False
    if release is not None or (s.pre is None and s.post is None):
        w = (list(v.release) + [0] * len(r))[:len(r)]
        return w == r
    a, b = pad(r, v.release)
    if a != b or s.pre != v.pre:
        return False
    return s.post is None or s.post == v.post
def pub(v):
    return Version(v.public)
def match440(cl, v):
    op, wild, s = cl
    if op == "==":
        if wild: return series(s, v)
        return s == v if s.local is not None else s == pub(v)
    if op == "!=":
        return not match440(("==", wild, s), v)
    if op == "<=": return pub(v) <= s
    if op == ">=": return pub(v) >= s
    if op == "<": return pub(v) < s
    if op == ">": return pub(v) > s
    if op == "~=":
        return pub(v) >= s and series(s, v, s.release[:-1])
def strict345(s):
    return s.local is not None or s.dev is not None
def match345(cl, v):
    op, _, s = cl
    if op == "==":
        if strict345(s):
            if not (v == s if s.local is not None else pub(v) == s): return False
        elif not series(s, v):
            return False
        if s.dev is not None: return True
        if s.post is not None: return v.dev is None
        if s.pre is not None: return v.dev is None and v.post is None
        return v.dev is None and v.post is None and v.pre is None
    if op == "!=": return not match345(("==", False, s), v)
    if op == "<=": return v <= s
    if op == ">=": return v >= s
    if op == ">": return v > s
    if op == "<":
        return v < s and (strict345(s) or not series(s, v))
RE = re.compile(r"([^-]+)-([^-]+)(?:-([0-9]+)([^-0-9][^-]*)?)?-([^-]+)-([^-]+)-([^-]+)\.whl", re.S)
def expand(tag):
    a, b, c = tag
    return {(x, y, z) for x in a.split(".") for y in b.split(".") for z in c.split(".")}
def wheel(req):
    tags = [expand(t) for t in req["tags"]]
    cls = parse(req["spec"], False)
    py = Version(req["python"]) if req["python"] else None
    cands = []
    for i, l in enumerate(req["links"]):
        m = RE.fullmatch(l["text"])
        if not m: continue
        try:
            v = ver(m.group(2))
        except (InvalidVersion, OverflowError):
            continue
        rq = l["requires"]
        if py is not None and rq:
            try:
                if not all(match345(c, py) for c in parse(rq, True)): continue
            except (ValueError, InvalidVersion):
                pass
        t = expand(m.groups()[4:7])
        rank = min((k for k, x in enumerate(tags) if x & t), default=None)
        if rank is None: continue
        if not all(match440(c, v) for c in cls): continue
        build = () if m.group(3) is None else (int(m.group(3)), m.group(4) or "")
        cands.append((i, v, l["yanked"], rank, build))
    if not cands: return []
    pool = [c for c in cands if not c[2]]
    if pool:
        fin = [c for c in pool if not c[1].is_prerelease]
        pool = fin or pool
    else:
        pool = cands
    best = max(c[1] for c in pool)
    pool = [c for c in pool if c[1] == best]
    r = min(c[3] for c in pool)
    pool = [c for c in pool if c[3] == r]
    b = max(c[4] for c in pool)
    return [c[0] for c in pool if c[4] == b]
def select(req):
    cls = parse(req["spec"], False)
    vs = [(i, Version(x)) for i, x in enumerate(req["versions"])]
    ok = [(i, v) for i, v in vs if all(match440(c, v) for c in cls)]
    pre = [v.is_prerelease for _, v in vs]
    allow = [Version(x) for x in req["allowlist"]]
    def allowed(i, v):
        if req["mode"] in ("pre", "both") and v.is_prerelease and v not in allow: return False
        if req["mode"] in ("custom", "both") and i in req["excluded"]: return False
        return True
    a = [v for i, v in ok if allowed(i, v)]
    pool = a or [v for _, v in ok]
    if not pool: return {"none": True, "matching": 0, "fallback": False}
    best = max(pool)
    return {"none": False, "best": [i for i, v in vs if v == best], "matching": len(ok), "fallback": not a}
def answer(req):
    if "links" in req: return wheel(req)
    if "select" in req: return select(req)
    p = req["pep345"]
    ret = []
    for spec in req["specs"]:
        try:
            cls = parse(spec, p)
        except OverflowError:
            ret.append({"skip": True})
            continue
        except (ValueError, InvalidVersion):
            ret.append({"ok": False})
            continue
        vs = [Version(x) for x in req["versions"]]
        m = [all((match345 if p else match440)(c, v) for c in cls) for v in vs]
        # self-check of the model against packaging's own specifiers, where those mean the same
        bad = None
        if not p:
            for op, wild, s in cls:
                if op in ("<", ">"): continue
                txt = op + str(s) + (".*" if wild else "")
                try:
                    ps = Specifier(txt)
                except InvalidSpecifier:
                    bad = txt
                    continue
                for v in vs:
                    # pip's packaging pads wrongly here (later releases agree with the model)
                    if (wild or op == "~=") and (s.epoch or len(v.release) < len(s.release) or (wild and (s.pre or s.post is not None) and len(v.release) != len(s.release))): continue
                    if ps.contains(v, prereleases=True) != match440((op, wild, s), v):
                        bad = [txt, str(v)]
        ret.append({"ok": True, "match": m, "n": len(cls), "model": bad})
    return ret
`
