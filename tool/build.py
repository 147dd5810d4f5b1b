"""Generates the Verus crate of one unit (function under contract) from the current source, and runs Verus on it."""
import os, re, json, subprocess, sys, time, difflib, glob
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import cxxast
from cxxast import ExtractError
import trans as T
import emit as E

CDIR = os.path.join(ROOT, "contracts")
LDIR = os.path.join(ROOT, "lemmas")


class World:
    def __init__(self, repo):
        self.repo = repo
        self.contracts = {}
        for p in sorted(glob.glob(os.path.join(CDIR, "*.vc"))):
            c = E.Contract(p)
            if c.unit in self.contracts:
                raise ExtractError("duplicate unit " + c.unit)
            self.contracts[c.unit] = c
        self.byname = {}
        for u, c in self.contracts.items():
            self.byname.setdefault(c.head["name"], []).append(u)
        self._sig = {}

    def fnode(self, unit):
        c = self.contracts[unit]
        f = cxxast.find(self.repo, c.head["src"], c.head["ns"], c.head["name"], c.head.get("sig"), c.head.get("cls"))
        return f

    def sig(self, unit):
        """signature of a unit (from the current source): params [(name, rusttype, mode)], ret"""
        if unit in self._sig:
            return self._sig[unit]
        c = self.contracts[unit]
        self._sig[unit] = None
        f = self.fnode(unit)
        env = Env(self, unit)
        t = T.Trans(env, f)
        # only the header is needed
        ps = [x for x in T.kids(f) if x.get("kind") == "ParmVarDecl"]
        t.block = lambda n: []
        t.run()
        base = self.baseline(unit)
        params = []
        for i, (pn, ty, mode) in enumerate(t.params):
            nm = pn
            if base and i < len(base["params"]):
                nm = base["params"][i]
            params.append((nm, ty.r, mode))
        r = {"rust": unit, "params": params, "ret": t.ret.r}
        self._sig[unit] = r
        return r

    def baseline(self, unit):
        p = os.path.join(CDIR, "base", unit + ".json")
        if os.path.exists(p):
            return json.load(open(p))
        return None


class Env:
    def __init__(self, world, unit):
        self.w, self.unit = world, unit
        self.c = world.contracts.get(unit)
        self.callee_map = {}
        if self.c:
            for x in self.c.head.get("callee", []):
                a, b = x.split("=")
                self.callee_map[a.strip()] = b.strip()
        self.callees = []

    def resolve(self, nm, rd=None):
        if nm in self.callee_map:
            u = self.callee_map[nm]
            return None if u == "inline" else u
        us = self.w.byname.get(nm, [])
        if len(us) == 1:
            return us[0]
        if len(us) > 1 and rd:
            q = rd.get("type", {}).get("qualType")
            m = []
            for u in us:
                try:
                    if self.w.fnode(u)["type"]["qualType"] == q:
                        m.append(u)
                except ExtractError:
                    pass
            if len(m) == 1:
                return m[0]
            us = m or us
        if len(us) > 1:
            same = [u for u in us if self.c and self.w.contracts[u].head["src"] == self.c.head["src"]]
            if len(same) == 1:
                return same[0]
        return None

    def lookup_callee(self, nm, node, rd):
        u = self.resolve(nm, rd)
        if u is None:
            return None
        s = self.w.sig(u)
        if u not in self.callees:
            self.callees.append(u)
        return s

    def ctor(self, nm):
        if nm not in self.w.contracts:
            return False
        if nm not in self.callees:
            self.callees.append(nm)
        return True

    def find_def(self, nm, node, rd):
        if not self.c:
            return None
        funcs, _ = cxxast.load(self.w.repo, self.c.head["src"], self.c.head["ns"])
        c = [f for f in funcs if f["name"] == nm]
        if rd and len(c) > 1:
            q = rd.get("type", {}).get("qualType")
            c2 = [f for f in c if f["type"]["qualType"] == q]
            c = c2 or c
        if len(c) == 1:
            return c[0]
        return None

    def arg_mutated(self, nm, ai, node, tr):
        if nm in ("sort", "stable_sort", "fill", "fill_n", "unique", "swap"):
            return ai <= 1
        if nm in ("copy",):
            return ai == 2
        if nm in ("memcpy", "memset"):
            return ai == 0
        rd0 = T.strip_fn(T.kids(node)[0])
        u = self.resolve(nm, rd0.get("referencedDecl", rd0) if isinstance(rd0, dict) else None)
        if u is not None:
            s = self.w.sig(u)
            if s is None:
                return True
            return ai < len(s["params"]) and s["params"][ai][2] == "mut"
        d = self.find_def(nm, node, T.strip_fn(T.kids(node)[0]))
        if d is not None:
            ps = [c for c in T.kids(d) if c.get("kind") == "ParmVarDecl"]
            if ai < len(ps):
                body = [c for c in T.kids(d) if c.get("kind") == "CompoundStmt"][0]
                q = ps[ai]["type"]["qualType"]
                if "*" not in q and "&" not in q:
                    return False
                if getattr(self, "_depth", 0) > 4:
                    return True
                self._depth = getattr(self, "_depth", 0) + 1
                r = tr.mutated(body, ps[ai]["id"])
                self._depth -= 1
                return r
        return False

    def enum_value(self, name):
        m = {"SpTrSv_LL": 0, "SpTrSv_RL": 1, "SpICh0_LL": 2, "SpICh0_RL": 3, "SpICh0_UL": 4, "General": 5,
             "SpICh0_LL": 2}
        vals = enum_values(self.w.repo)
        if name in vals:
            return str(vals[name])
        raise ExtractError("enum constant " + name)

    def global_const(self, rd, n):
        if rd.get("name") in ("INT32_MAX",):
            return "2147483647i32"
        return None


_enum = {}


def enum_values(repo):
    if repo in _enum:
        return _enum[repo]
    out = {}
    src = open(os.path.join(repo, "include/aggregation/hdagg.h")).read()
    src = re.sub(r"//.*", "", src)
    for m in re.finditer(r"enum\s+\w*\s*\{([^}]*)\}", src):
        v = 0
        for part in m.group(1).split(","):
            part = part.strip()
            if not part:
                continue
            if "=" in part:
                a, b = part.split("=")
                v = int(b.strip(), 0)
                part = a.strip()
            out[part] = v
            v += 1
    _enum[repo] = out
    return out


def tokens(st):
    """token stream of a translated body (structure + text) used to align with the baseline"""
    out = []

    def go(st):
        for s in st:
            k = s[0]
            if k == "s":
                out.extend(tok(s[1]))
            elif k == "block":
                out.append("{")
                go(s[1])
                out.append("}")
            elif k == "if":
                out.append("IF")
                out.extend(tok(s[1]))
                out.append("{")
                go(s[2])
                out.append("}ELSE{")
                go(s[3])
                out.append("}")
            elif k == "loop":
                out.append("LOOP")
                out.extend(tok(s[1]))
                out.append("{")
                go(s[2])
                out.append("INC")
                go(s[3])
                out.append("}")
            elif k == "ret":
                out.append("RET")
                if s[1]:
                    out.extend(tok(s[1]))
            else:
                out.append(k)
    go(st)
    return out


def tok(s):
    return re.findall(r"[A-Za-z_]\w*|\d+\w*|[^\s\w]+", s)


def loopshape(st):
    out = []
    for s in st:
        if s[0] == "loop":
            out.append(loopshape(s[2]) + loopshape(s[3]))
        elif s[0] == "block":
            out += loopshape(s[1])
        elif s[0] == "if":
            out += loopshape(s[2]) + loopshape(s[3])
    return out


def align_names(base, toks, locals_):
    """map current local names to baseline local names by aligning abstracted token streams"""
    bl = set(base["locals"])
    cl = set(locals_)
    tmp = re.compile(r"^_[a-z]\d+$")

    def ab(t, names):
        return "ID" if (t in names or tmp.match(t)) else t
    A = [ab(t, cl) for t in toks]
    B = [ab(t, bl) for t in base["tokens"]]
    sm = difflib.SequenceMatcher(None, A, B, autojunk=False)
    votes = {}
    for tag, i1, i2, j1, j2 in sm.get_opcodes():
        if tag == "equal":
            for d in range(i2 - i1):
                a, b = toks[i1 + d], base["tokens"][j1 + d]
                if a in cl and b in bl and not tmp.match(a) and not tmp.match(b):
                    votes.setdefault(a, {}).setdefault(b, 0)
                    votes[a][b] += 1
    m = {}
    taken = set()
    # names present in both keep their identity unless outvoted by a clear majority
    for a in sorted(votes, key=lambda a: -max(votes[a].values())):
        b = max(votes[a], key=lambda b: (votes[a][b], b == a))
        if b in taken:
            continue
        m[a] = b
        taken.add(b)
    # drop identity, avoid collisions
    ren = {a: b for a, b in m.items() if a != b}
    for a in list(ren):
        b = ren[a]
        if b in cl and b not in ren:
            # b still exists in the current function under its own name and is not itself renamed
            if m.get(b, b) == b and b in votes:
                del ren[a]
            else:
                ren[b] = b + "_cur"
    return ren


def translate(world, unit, use_base=True):
    c = world.contracts[unit]
    f = world.fnode(unit)
    env = Env(world, unit)
    t = T.Trans(env, f)
    st = t.run()
    base = world.baseline(unit) if use_base else None
    ren = {}
    if base:
        for (pn, ty, mode), bn in zip(t.params, base["params"]):
            if pn != bn:
                ren[pn] = bn
        pset = set(p[0] for p in t.params)
        toks = tokens(st)
        if toks != base["tokens"]:
            loc = [x for x in t.localnames]
            ren2 = align_names(base, toks, loc)
            for a, b in ren2.items():
                if a in pset:
                    continue
                ren[a] = b
        if ren:
            env = Env(world, unit)
            t = T.Trans(env, f, rename=ren)
            st = t.run()
    return t, st, env, base, ren


def proto(sig, names=None, res="res"):
    ps = []
    for pn, ty, mode in sig["params"]:
        ps.append("%s: %s%s" % (pn, {"own": "", "ref": "&", "mut": "&mut "}[mode], ty))
    for g, ty in sig.get("ghost", []):
        ps.append("Ghost(%s): Ghost<%s>" % (g, ty))
    r = "" if sig["ret"] == "()" else " -> (%s: %s)" % (res, sig["ret"])
    return "(%s)%s" % (", ".join(ps), r)


def lib_lines(l, order):
    out = [("pub mod l_%s {" % l, None), ("use vstd::prelude::*; use crate::pre::*;", None)]
    for d in order[:order.index(l)]:
        out.append(("use crate::l_%s::*;" % d, None))
    for ln, x in enumerate(open(os.path.join(LDIR, l + ".rs")), 1):
        out.append((x.rstrip("\n"), ("lemma", l, ln)))
    out += [("}", None), ("use l_%s::*;" % l, None)]
    return out


def all_libs():
    order = []

    def add(l):
        if l in order:
            return
        for m in re.finditer(r"^//@uses (.*)$", open(os.path.join(LDIR, l + ".rs")).read(), re.M):
            for d in m.group(1).split():
                add(d)
        order.append(l)
    for p in sorted(glob.glob(os.path.join(LDIR, "*.rs"))):
        add(os.path.basename(p)[:-3])
    return order


def gen_libs(libs):
    """one crate with the prelude and the lemma libraries themselves"""
    lines = [(l.rstrip("\n"), ("prelude",)) for l in open(os.path.join(HERE, "prelude.rs"))]
    for l in libs:
        lines += lib_lines(l, libs)
    lines += [("} // verus!", None), ("fn main() {}", None)]
    return "\n".join(x[0] for x in lines) + "\n", [x[1] for x in lines]


def ghosts(c):
    """the ghost parameters of a contract: proof-only, they do not exist in the code"""
    out = []
    for ln, t in c.sect.get("ghost", []):
        for m in re.finditer(r"(\w+)\s*:\s*([^;]+);?", t):
            out.append((m.group(1), m.group(2).strip()))
    return out


def clause(c, key):
    return [(ln, t) for ln, t in c.sect.get(key, [])]


def finals(text, muts):
    """in a postcondition a mutable parameter means its final value"""
    for m in muts:
        text = re.sub(r"(?<![\w.])(?<!old\()(?<!final\()%s(?=@|\.)" % re.escape(m), "final(%s)" % m, text)
    return text


def stub(world, unit):
    c = world.contracts[unit]
    sig = dict(world.sig(unit))
    sig["ghost"] = ghosts(c)
    out = ["#[verifier::external_body]", "pub fn %s%s" % (unit, proto(sig))]
    for key in ("requires", "ensures"):
        if c.get(key):
            out.append("    " + key)
            mu = [p[0] for p in sig["params"] if p[2] == "mut"] if key == "ensures" else []
            out += ["        " + finals(t, mu) for ln, t in c.sect[key]]
    out.append("{ unimplemented!() }")
    return out


def generate(world, unit, probe=None):
    """returns (text, linemap, info).  probe: None or an anchor where assert(false) is planted (vacuity check)"""
    c = world.contracts[unit]
    t, st, env, base, ren = translate(world, unit)
    em = E.Emitter(unit, c, c.head["src"])
    em.probe = probe
    sig = {"params": [], "ret": t.ret.r}
    for i, (pn, ty, mode) in enumerate(t.params):
        sig["params"].append((pn, ty.r, mode))
    sig["ghost"] = ghosts(c)
    lines = []
    for l in open(os.path.join(HERE, "prelude.rs")):
        lines.append((l.rstrip("\n"), ("prelude",)))
    libs = []
    for l in c.head.get("uses", "").split():
        if l not in libs:
            libs.append(l)
    for u in env.callees:
        for l in world.contracts[u].head.get("uses", "").split():
            if l not in libs:
                libs.append(l)
    order = []

    def addlib(l):
        p = os.path.join(LDIR, l + ".rs")
        txt = open(p).read()
        for m in re.finditer(r"^//@uses (.*)$", txt, re.M):
            for d in m.group(1).split():
                if d not in order:
                    addlib(d)
        if l not in order:
            order.append(l)
    for l in libs:
        addlib(l)
    for l in order:
        lines += lib_lines(l, order)
    for u in env.callees:
        if u == unit:
            continue
        for x in stub(world, u):
            lines.append((x, ("stub", u)))
    for ln, x in c.sect.get("lib", []):
        lines.append((x, ("contract", ln, "lib")))
    if "isolate" not in c.head.get("opts", ""):
        lines.append(("#[verifier::loop_isolation(false)]", None))
        if "complex" in c.head.get("opts", ""):
            lines.append(("#[verifier::allow_complex_invariants]", None))
    lines.append(("#[verifier::rlimit(%s)]" % c.head.get("rlimit", "40"), None))
    if "nodecreases" in c.head.get("opts", ""):
        lines.append(("#[verifier::exec_allows_no_decreases_clause]", None))
    if "spinoff" in c.head.get("opts", ""):
        lines.append(("#[verifier::spinoff_prover]", None))
    lines.append(("pub fn %s%s" % (unit, proto(sig)), ("src", t.f.get("_line"))))
    for key in ("requires", "ensures", "decreases"):
        if c.get(key):
            lines.append(("    " + key, None))
            for ln, x in c.sect[key]:
                mu = [p[0] for p in sig["params"] if p[2] == "mut"] if key == "ensures" else []
                lines.append(("        " + finals(x.strip(), mu), ("contract", ln, key)))
    lines.append(("{", None))
    em.probe_all = E.ends_diverge(st) and E.last_loop(st)
    em.body(st, 1)
    for u in env.callees:
        # proof-only arguments of callees whose contract has ghost parameters
        if ghosts(world.contracts[u]):
            ga = ", ".join(t.strip() for ln, t in c.sect.get("args " + u, []))
            em.used.add("args " + u)
            if not ga:
                raise ExtractError("no ghost arguments for %s" % u)
            ga = ", ".join("Ghost(%s)" % x.strip() for x in ga.split(";") if x.strip())
            em.lines = [((re.sub(r"(\b%s\(.*)\);$" % re.escape(u), lambda m: m.group(1) + ", " + ga + ");", t) if o and o[0] == "src" else t), o) for t, o in em.lines]
    if probe == "exit" and not E.ends_diverge(st):
        em.put("assert(false);", ("probe", "exit"), 1)
    if probe == "entry":
        lines.append(("    assert(false);", ("probe", "entry")))
    lines += em.lines
    lines.append(("}", None))
    lines.append(("} // verus!", None))
    lines.append(("fn main() {}", None))
    text = "\n".join(x[0] for x in lines) + "\n"
    unused = [k for k in c.order if k not in em.used and k not in ("requires", "ensures", "lib", "decreases", "ghost")]
    info = {"callees": list(env.callees), "inlined": t.inlined, "libs": order, "unused": unused, "rename": ren,
            "loops": em.loops, "shape_changed": bool(base) and loopshape(st) != base["shape"],
            "text_changed": bool(base) and tokens(st) != base["tokens"],
            "isolate": "isolate" in c.head.get("opts", ""), "complex": "complex" in c.head.get("opts", ""),
            "new_locals": bool(base) and len(set(t.localnames)) > len(set(base["locals"])),
            "externals": sorted(set(re.findall(r"\b([a-z_][a-z_0-9]*)\(", "\n".join(x[0] for x in em.lines))))}
    return text, [x[1] for x in lines], info


def snapshot(world, unit):
    t, st, env, base, ren = translate(world, unit, use_base=False)
    os.makedirs(os.path.join(CDIR, "base"), exist_ok=True)
    d = {"params": [p[0] for p in t.params], "locals": sorted(set(t.localnames)), "tokens": tokens(st), "shape": loopshape(st)}
    json.dump(d, open(os.path.join(CDIR, "base", unit + ".json"), "w"))


def run_verus(path, timeout=300, extra=(), probe=False, libs=False):
    t0 = time.time()
    cmd = ["verus", path, "--crate-type=lib", "--output-json", "--error-format=json", "--time", "--num-threads", "2"] + ([] if libs else ["--verify-root"]) + list(extra)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {"status": "timeout", "errors": [], "wall": time.time() - t0, "raw": "timeout after %ds" % timeout}
    res = {"status": "?", "errors": [], "wall": time.time() - t0, "raw": p.stderr[-20000:]}
    try:
        j = json.loads(p.stdout)
        res["json"] = j
        vr = j.get("verification-results", {})
        res["verified"] = vr.get("verified", 0)
        res["nerr"] = vr.get("errors", 0)
        res["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0) if isinstance(j.get("times-ms", {}).get("smt"), dict) else 0
        ok = vr.get("success", not vr.get("encountered-error", True)) and p.returncode == 0 and vr.get("errors", 1) == 0 and not vr.get("encountered-vir-error", True)
    except Exception:
        ok = False
        vr = {}
    for l in p.stderr.splitlines():
        try:
            m = json.loads(l)
        except Exception:
            continue
        if m.get("level") == "error" and m.get("spans"):
            res["errors"].append({"msg": m["message"], "code": (m.get("code") or {}).get("code") if m.get("code") else None,
                                  "spans": [(s["line_start"], s.get("label"), s["is_primary"]) for s in m["spans"]],
                                  "text": m.get("rendered", "")})
    if ok:
        res["status"] = "ok"
    elif "verified" in res and vr.get("encountered-vir-error") is False and (res.get("nerr", 0) > 0):
        res["status"] = "failed"
    else:
        res["status"] = "frontend"
    if any("rlimit" in e["msg"].lower() or "resource limit" in e["msg"].lower() for e in res["errors"]):
        res["rlimit"] = True
    return res


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("units", nargs="*")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out", default="/tmp/vgen")
    ap.add_argument("--snap", action="store_true")
    ap.add_argument("--gen", action="store_true")
    ap.add_argument("--show", action="store_true")
    ap.add_argument("--probe")
    ap.add_argument("--raw", action="store_true")
    ap.add_argument("--libs", action="store_true")
    a = ap.parse_args()
    w = World(a.repo)
    os.makedirs(a.out, exist_ok=True)
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    if a.libs:
        order = all_libs()
        text, lm = gen_libs(order)
        p = os.path.join(a.out, "libs.rs")
        open(p, "w").write(text)
        r = run_verus(p, libs=True)
        print("libs", order, r["status"], r.get("verified"), r.get("nerr"), "%.1fs" % r["wall"])
        tl = text.split("\n")
        for e in r["errors"][:12]:
            print("   *", e["msg"])
            for (ln, lab, prim) in e["spans"]:
                print("       %s:%d [%s] %s | %s" % (os.path.basename(p), ln, lab, tl[ln - 1].strip(), lm[ln - 1]))
        if r["status"] != "ok" and not r["errors"]:
            print(r["raw"][-3000:])
        if not a.units:
            sys.exit()
    us = a.units or sorted(w.contracts)
    for u in us:
        try:
            if a.snap:
                snapshot(w, u)
                continue
            text, lm, info = generate(w, u, probe=a.probe)
        except ExtractError as e:
            print("EXTRACT", u, e)
            continue
        p = os.path.join(a.out, u + ".rs")
        open(p, "w").write(text)
        if a.show:
            fi = max(i for i, l in enumerate(text.split("\n")) if l.startswith("pub fn " + u + "("))
            print("\n".join(text.split("\n")[fi:]))
        if info["unused"]:
            print("  unused sections", u, info["unused"])
        if a.gen:
            continue
        jobs.append((u, p, text, lm, info))
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda j: run_verus(j[1]), jobs))
    for (u, p, text, lm, info), r in zip(jobs, rs):
        print("%-40s %s verified=%s errors=%s %.1fs inl=%s callees=%s" % (u, r["status"], r.get("verified"), r.get("nerr"), r["wall"], info["inlined"], info["callees"]))
        if r["status"] != "ok":
            tl = text.split("\n")
            for e in r["errors"][:12]:
                print("   *", e["msg"])
                for (ln, lab, prim) in e["spans"]:
                    print("       %s:%d [%s] %s | %s" % (os.path.basename(p), ln, lab, tl[ln - 1].strip() if ln <= len(tl) else "", lm[ln - 1] if ln <= len(lm) else None))
            if not r["errors"] or a.raw:
                print(r["raw"][-3000:])
