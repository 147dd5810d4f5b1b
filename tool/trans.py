"""Mechanical translation of a C++ function (clang AST) to an executable Verus function.

What is kept: every statement that computes (declarations, assignments, loops, branches, returns, calls, array and
container accesses).  What is dropped: stream output, timers, delete[], asserts (the build defines NDEBUG).
Pointers to arrays and std::vector become Vec (a null pointer is the empty Vec); distinct pointer parameters are
assumed not to alias.  Signed arithmetic keeps its overflow obligations, unsigned arithmetic wraps, every subscript
carries its bounds obligation.  `new T[n]` without `()` and uninitialised locals have arbitrary contents."""
import re
from cxxast import ExtractError

KW = {"fn", "in", "match", "type", "ref", "move", "final", "old", "use", "impl", "let", "mut", "self", "proof",
      "spec", "exec", "loop", "mod", "pub", "where", "as", "box", "trait", "super", "crate", "choose", "assert",
      "assume", "ghost", "tracked", "ensures", "requires", "invariant", "decreases", "forall", "exists", "by", "is",
      "has", "priv", "yield", "dyn", "async", "await", "try", "gen", "abstract", "become", "do", "macro", "override",
      "typeof", "unsized", "virtual", "via", "when", "no_unwind", "broadcast", "global", "real"}

import os
# helper functions of the prelude: a local of the same name is renamed
HELPERS = set(re.findall(r"^pub (?:exec )?fn (\w+)", open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude.rs")).read(), re.M))

PRIM = {"int": "i32", "bool": "bool", "unsigned long": "usize", "size_t": "usize", "unsigned int": "u32", "long": "i64",
        "unsigned": "u32", "double": "F64", "float": "F64", "void": "()", "char": "i8", "long long": "i64",
        "unsigned long long": "usize", "std::size_t": "usize", "size_type": "usize", "difference_type": "i64"}
INTS = ("i32", "usize", "u32", "i64", "i8")


class Ty:
    """rust type string, plus whether it was a reference / pointer-to-const"""

    def __init__(self, r, ref=False, const=False, ptr=False):
        self.r, self.ref, self.const, self.ptr = r, ref, const, ptr

    def __repr__(self):
        return self.r


def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<":
            d += 1
        if ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


STRUCTS = {"CSC": "CSC", "CSR": "CSR", "BCSC": "BCSC", "group": "Group", "subTree": "SubTree",
           "twoDIteration": "TwoDIteration", "Kernel": "i32"}


ITER = re.compile(r"^(__gnu_cxx::)?__normal_iterator<|^(std::)?vector<.*>::(const_)?iterator$")


def parse_type(q):
    q = q.strip()
    ref = False
    if q.endswith("&&"):
        q = q[:-2].strip()
        ref = True
    if q.endswith("&"):
        q = q[:-1].strip()
        ref = True
    q = re.sub(r"\s*\bconst$", "", q).strip()
    stars = 0
    while q.endswith("*"):
        stars += 1
        q = q[:-1].strip()
        q = re.sub(r"\s*\bconst$", "", q).strip()
    arr = re.match(r"^(.*)\[\w*\]$", q)
    if arr:
        stars += 1
        q = arr.group(1).strip()
    const = False
    if q.startswith("const "):
        const = True
        q = q[6:].strip()
    q = re.sub(r"^(class|struct|enum) ", "", q)
    base = q
    for pfx in ("sym_lib::", "HDAGG::", "lbc::"):
        if base.startswith(pfx):
            base = base[len(pfx):]
    base0 = base
    if base in PRIM:
        r = PRIM[base]
    elif base in STRUCTS:
        r = STRUCTS[base]
        if stars:
            stars -= 1
    elif base.endswith("timing_measurement"):
        r = "TIMER"
        stars = 0
    elif re.match(r"^(std::)?(vector|deque|queue|stack|list)<", base):
        inner = base[base.index("<") + 1:base.rindex(">")]
        targs = split_targs(inner)
        r = "Vec<%s>" % parse_type(targs[0]).r
        if re.match(r"^(std::)?(queue|deque)<", base):
            r = "Vec<%s>" % parse_type(targs[0]).r
        if stars:
            stars -= 1
    elif re.match(r"^(std::)?priority_queue<int, *(std::)?vector<int(, *std::allocator<int>)?>, *(std::)?greater<int>>$", base.replace(" >", ">")):
        r = "Vec<i32>"
        if stars:
            stars -= 1
    elif re.match(r"^(std::)?pair<", base):
        inner = base[base.index("<") + 1:base.rindex(">")]
        targs = split_targs(inner)
        r = "(%s, %s)" % (parse_type(targs[0]).r, parse_type(targs[1]).r)
    elif base.startswith("std::_Bit_reference") or base.endswith("std::_Bit_reference"):
        r = "bool"
    elif ITER.match(base):
        r = "ITER"
        stars = 0
    else:
        raise ExtractError("unsupported type '%s'" % base0)
    for _ in range(stars):
        r = "Vec<%s>" % r
    return Ty(r, ref, const, stars > 0)


def tyof(n):
    t = n.get("type", {})
    d = t.get("desugaredQualType") or t.get("qualType", "")
    try:
        return parse_type(d)
    except ExtractError:
        return parse_type(t.get("qualType", ""))


def rn(name):
    if name in KW:
        return name + "_"
    return name


def kids(n):
    return [c for c in n.get("inner", []) if isinstance(c, dict) and c.get("kind") != "FullComment"]


WRAP = {"ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr",
        "SubstNonTypeTemplateParmExpr", "CXXRewrittenBinaryOperator"}
NOOPCAST = {"NoOp", "LValueToRValue", "FunctionToPointerDecay", "ArrayToPointerDecay", "BitCast", "DerivedToBase",
            "UncheckedDerivedToBase", "ConstructorConversion"}


def strip(n):
    while True:
        k = n.get("kind")
        if k in WRAP:
            n = kids(n)[0]
        elif k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr") \
                and n.get("castKind") in NOOPCAST:
            n = kids(n)[0]
        elif k == "CXXConstructExpr" and len([c for c in kids(n) if c.get("kind") != "CXXDefaultArgExpr"]) == 1 \
                and same_type(n, kids(n)[0]):
            n = kids(n)[0]
        else:
            return n


def same_type(a, b):
    try:
        return tyof(a).r == tyof(b).r and tyof(a).r.startswith(("Vec", "(", "CSC", "CSR"))
    except ExtractError:
        return False


class Var:
    def __init__(self, rust, ty, mode, alias=None):
        self.rust, self.ty, self.mode, self.alias = rust, ty, mode, alias  # mode own|ref|mut|alias


class Place:
    def __init__(self, var, projs, ty):
        self.var, self.projs, self.ty = var, projs, ty  # projs: ('f',name) | ('i',idx,idxty)


NESTED_OPS = {"push_i", "push_u", "clear_i", "append_all_i", "resize_val_i", "sort_range_i"}
NOEFFECT_CALLS = {"printf", "fprintf", "print_vec", "print_csc", "print_level_set", "print_hlevel_set", "start_timer",
                  "measure_elapsed_time", "omp_get_wtime", "print_t_array", "free"}
ASSIGN_OPS = {"=", "+=", "-=", "*=", "/=", "%="}
MUT_METHODS = {"push_back", "pop_back", "clear", "resize", "assign", "insert", "erase", "push", "pop", "emplace_back",
               "push_front", "pop_front", "reserve", "swap", "shrink_to_fit", "sort", "emplace"}


class Trans:
    """Translates one function.  env.lookup_callee(name, node) -> contract info or None;
       env.find_def(name, argc) -> AST def for inlining or None."""

    def __init__(self, env, fnode, rename=None):
        self.env = env
        self.f = fnode
        self.tmp = 0
        self.scopes = [{}]
        self.byid = {}
        self.rename = rename or {}
        self.inline_depth = 0
        self.inline_stack = []
        self.callees = []
        self.used_names = set()
        self.params = []
        self.ret = None
        self.line = None
        self.this = None
        self.localnames = []
        self.inlined = []
        self._copyasg = {}
        self.asg_id = None

    # ---------- utilities
    def fresh(self, p="_t"):
        self.tmp += 1
        return "%s%d" % (p, self.tmp)

    def declare(self, node, ty, mode, alias=None, fixed=None):
        base = fixed or rn(node.get("name") or self.fresh("_anon"))
        if base in HELPERS:
            base += "_"
        base = self.rename.get(base, base)
        name = base
        if self.inline_depth > 0 and alias is None:
            c = 0
            while name in self.used_names:
                c += 1
                name = "%s_in%d" % (base, c)
            name = self.rename.get(name, name)
        if alias is None:
            self.used_names.add(name)
            self.localnames.append(name)
        v = Var(name, ty, mode, alias)
        self.byid[node["id"]] = v
        return v

    # ---------- mutability of pointer/reference parameters
    def copy_assignments(self, body):
        """assignments `p = q` of a local pointer p in one branch of an `if` (not inside a loop) such that every write through
        p lies in the other branch: p then only reads q's object, so it may hold a copy of it.  Set of AST ids."""
        if body.get("id") in self._copyasg:
            return self._copyasg[body.get("id")]
        out = self._copyasg[body.get("id")] = set()
        cand = []

        def walk(n, ifs, loop):
            k = n.get("kind")
            if k == "IfStmt":
                ks = kids(n)
                for bi, c in enumerate(ks):
                    other = [ks[3 - bi]] if bi in (1, 2) and len(ks) > 2 else []
                    walk(c, ifs + [o for o in other] if not loop else ifs, loop)
                return
            if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                loop = True
            if k == "BinaryOperator" and n.get("opcode") == "=" and ifs and not loop:
                l, r = strip(kids(n)[0]), strip(kids(n)[1])
                if r.get("kind") == "ImplicitCastExpr":
                    r = strip(kids(r)[0])
                if l.get("kind") == "DeclRefExpr" and l["referencedDecl"].get("kind") == "VarDecl" and self.isptr(l) and r.get("kind") == "DeclRefExpr" \
                        and r["referencedDecl"].get("kind") == "ParmVarDecl":
                    cand.append((n["id"], l["referencedDecl"]["id"], list(ifs)))
            for c in kids(n):
                walk(c, ifs, loop)
        walk(body, [], False)
        for nid, vid, others in cand:
            if any(not self.mutated(body, vid, skip=o.get("id"), rebind=True) for o in others):
                out.add(nid)
        return out

    def mutated(self, body, pid, seen=None, skip=None, rebind=False):
        """is the object named by declaration id `pid` written in `body`?"""
        copies = set() if rebind else self.copy_assignments(body)
        aliases = {pid}
        changed = True
        while changed:
            changed = False
            for n in self.allnodes(body):
                if n.get("kind") == "VarDecl" and n["id"] not in aliases and kids(n):
                    try:
                        t = tyof(n)
                    except ExtractError:
                        continue
                    q = n["type"]["qualType"]
                    if "&" in q or "*" in q:
                        init = strip(kids(n)[-1])
                        if init.get("kind") in ("CXXNewExpr",):
                            continue
                        r = self.rootid(init)
                        if r in aliases:
                            aliases.add(n["id"])
                            changed = True
                if n.get("kind") == "BinaryOperator" and n.get("opcode") == "=" and n.get("id") not in copies:
                    l = strip(kids(n)[0])
                    if l.get("kind") == "DeclRefExpr" and self.isptr(l) and l["referencedDecl"]["id"] not in aliases:
                        if self.rootid(kids(n)[1]) in aliases:
                            aliases.add(l["referencedDecl"]["id"])
                            changed = True
                if n.get("kind") == "CXXForRangeStmt":
                    rng, var = self.range_parts(n)
                    if self.rootid(rng) in aliases and var["id"] not in aliases and "&" in var["type"]["qualType"]:
                        aliases.add(var["id"])
                        changed = True
        for n in self.allnodes(body, skip):
            k = n.get("kind")
            if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("opcode") in ASSIGN_OPS:
                lhs = strip(kids(n)[0])
                r = self.rootid(lhs)
                if r in aliases:
                    # rebinding a local alias pointer itself is not a write through it
                    if lhs.get("kind") == "DeclRefExpr" and self.isptr(lhs) and (rebind or r != pid):
                        continue
                    return True
            elif k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
                if self.rootid(kids(n)[0]) in aliases:
                    return True
            elif k == "CXXOperatorCallExpr":
                ks = kids(n)
                op = self.callee_name(ks[0])
                if op in ("operator=", "operator+=", "operator++", "operator--") and self.rootid(ks[1]) in aliases:
                    return True
            elif k == "CXXMemberCallExpr":
                me = strip(kids(n)[0])
                if me.get("kind") == "MemberExpr" and me.get("name") in MUT_METHODS and self.rootid(kids(me)[0]) in aliases:
                    return True
                if me.get("kind") == "MemberExpr" and kids(me) and strip(kids(me)[0]).get("kind") == "CXXThisExpr" and "this" in aliases:
                    s_ = self.env.lookup_callee(me.get("name"), n, me)
                    if s_ is None or not s_["params"] or s_["params"][0][2] == "mut":
                        return True
            elif k == "CallExpr":
                ks = kids(n)
                nm = self.callee_name(ks[0])
                for ai, a in enumerate(ks[1:]):
                    if self.rootid(a) in aliases or self.addr_root(a) in aliases:
                        if self.env.arg_mutated(nm, ai, n, self):
                            return True
        return False

    def allnodes(self, n, skip=None):
        st = [n]
        while st:
            x = st.pop()
            if skip is not None and x.get("id") == skip:
                continue
            yield x
            st.extend(reversed(kids(x)))

    def rebind_ok(self, vid):
        """every use of the local pointer `vid` in this function is dominated by the last assignment before it in the text,
        and no loop carries another assignment back to it: the pointer can be tracked statically"""
        if not hasattr(self, "_rb"):
            self._rb = {}
        if vid in self._rb:
            return self._rb[vid]
        asg, uses, order = [], [], [0]

        def walk(n, path):
            k = n.get("kind")
            if k == "VarDecl" and n.get("id") == vid and kids(n):
                asg.append((order[0], path))
            if k == "BinaryOperator" and n.get("opcode") == "=":
                l = strip(kids(n)[0])
                if l.get("kind") == "DeclRefExpr" and l["referencedDecl"]["id"] == vid:
                    walk(kids(n)[1], path)
                    order[0] += 1
                    asg.append((order[0], path))
                    return
            order[0] += 1
            if k == "DeclRefExpr" and n["referencedDecl"]["id"] == vid:
                uses.append((order[0], path))
            br = k in ("IfStmt", "ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt", "ConditionalOperator") or k in ("BinaryOperator",) and n.get("opcode") in ("&&", "||")
            for i, c in enumerate(kids(n)):
                walk(c, path + [(n.get("id"), i, k)] if br else path)
        walk(self.f, [])
        ok = bool(asg)
        for o, p in uses:
            prev = [a for a in asg if a[0] < o]
            if not prev or p[:len(prev[-1][1])] != prev[-1][1]:
                ok = False
                break
            ap = prev[-1][1]
            for x in p[len(ap):]:
                if x[2] in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") and any(any(y[0] == x[0] for y in a[1]) for a in asg):
                    ok = False
        self._rb[vid] = ok
        return ok

    def addr_root(self, n):
        n = strip(n)
        if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
            return self.rootid(kids(n)[0])
        return None

    def rootid(self, n):
        """declaration id of the object an lvalue/pointer expression lives in"""
        while True:
            n = strip(n)
            k = n.get("kind")
            if k == "DeclRefExpr":
                return n["referencedDecl"]["id"]
            if k == "CXXThisExpr":
                return "this"
            if k == "ImplicitCastExpr":
                n = kids(n)[0]
            elif k in ("ArraySubscriptExpr", "MemberExpr"):
                n = kids(n)[0]
            elif k == "UnaryOperator" and n.get("opcode") in ("*", "&"):
                n = kids(n)[0]
            elif k == "CXXOperatorCallExpr" and self.callee_name(kids(n)[0]) in ("operator[]", "operator*"):
                n = kids(n)[1]
            elif k == "BinaryOperator" and n.get("opcode") in ("+", "-"):
                n = kids(n)[0]
            elif k == "CXXOperatorCallExpr" and self.callee_name(kids(n)[0]) in ("operator+", "operator-"):
                n = kids(n)[1]
            elif k == "CXXMemberCallExpr":
                me = strip(kids(n)[0])
                if me.get("kind") == "MemberExpr" and me.get("name") in ("data", "begin", "end", "back", "front", "at",
                                                                         "operator bool", "cbegin", "cend", "top"):
                    n = kids(me)[0]
                else:
                    return None
            elif k == "CXXConstructExpr" and kids(n):
                n = kids(n)[0]
            else:
                return None

    def callee_name(self, n):
        n = strip(n)
        while n.get("kind") == "ImplicitCastExpr":
            n = strip(kids(n)[0])
        if n.get("kind") == "DeclRefExpr":
            return n["referencedDecl"].get("name")
        if n.get("kind") == "MemberExpr":
            return n.get("name")
        if n.get("kind") == "UnresolvedLookupExpr":
            return n.get("name")
        return None

    def range_parts(self, n):
        ks = n["inner"]
        # [init?, rangeDecl, begin, end, cond, inc, loopVarDecl, body]
        decls = [c for c in ks if isinstance(c, dict) and c.get("kind") == "DeclStmt"]
        rng = kids(kids(decls[0])[0])[-1]
        var = kids(decls[-1])[0]
        return rng, var

    # ---------- top level
    def run(self):
        f = self.f
        ps = [c for c in kids(f) if c.get("kind") == "ParmVarDecl"]
        body = [c for c in kids(f) if c.get("kind") == "CompoundStmt"][0]
        rq = f["type"]["qualType"]
        if f["kind"] == "CXXConstructorDecl":
            return self.run_ctor(f, ps, body)
        rt = rq[:rq.index("(")].strip()
        try:
            rty = parse_type(rt)
        except ExtractError:
            raise
        if rty.r == "TIMER":
            rty = Ty("()")
        self.ret = rty
        pre = []
        if f["kind"] == "CXXMethodDecl":
            m = self.mutated(body, "this")
            self.this = Var("this", Ty(STRUCTS.get(f["_cls"], f["_cls"])), "mut" if m else "ref")
            self.params.append(("this", self.this.ty, self.this.mode))
        for p in ps:
            ty = tyof(p)
            isptr = "*" in p["type"]["qualType"] or p["type"].get("desugaredQualType", "").endswith("*")
            isref = "&" in p["type"]["qualType"]
            if ty.r == "TIMER":
                continue
            struct = ty.r in STRUCTS.values() and isptr
            if isptr or isref or struct:
                m = self.mutated(body, p["id"])
                if ty.const and not isptr:
                    m = False
                if ty.const and isptr and not isref:
                    m = False
                if not m and isref and not isptr and ty.r in INTS + ("bool", "F64"):
                    # const int& or unmodified int&: pass by value
                    v = self.declare(p, ty, "own")
                    self.params.append((v.rust, ty, "own"))
                    continue
                v = self.declare(p, ty, "mut" if m else "ref")
                self.params.append((v.rust, ty, v.mode))
            else:
                v = self.declare(p, ty, "own")
                self.params.append((v.rust, ty, "own"))
                if self.assigned_or_container(body, p["id"], ty):
                    pre.append(("s", "let mut %s = %s;" % (v.rust, v.rust), p.get("_line")))
        self.paramids = [p["id"] for p in ps]
        self.curbody = body
        out = pre + self.block(body)
        return out

    def run_ctor(self, f, ps, body):
        """constructor: returns the object it initialises; pointer arguments become the object's own arrays"""
        ty = Ty(STRUCTS.get(f["_cls"], f["_cls"]))
        self.ret = ty
        self.curbody = body
        self.this = Var("this", ty, "own")
        self.paramids = [p["id"] for p in ps]
        for p in ps:
            t = tyof(p)
            mode = "own"
            if t.r in ("CSC", "CSR", "BCSC") and "*" in p["type"]["qualType"]:
                if self.mutated(body, p["id"]):
                    raise ExtractError("constructor changes its argument %s" % p.get("name"))
                mode = "ref"
            v = self.declare(p, t, mode)
            self.params.append((v.rust, t, mode))
        line = f.get("_line")
        out = [("s", "let mut this: %s = arb_%s();" % (ty.r, ty.r.lower()), line)]
        for c in kids(f):
            if c.get("kind") == "CXXCtorInitializer":
                nm = rn(c["anyInit"]["name"])
                pre, e = self.with_pre(lambda: self.moveval(kids(c)[0]))
                out += pre + [("s", "this.%s = %s;" % (nm, e), line)]
        return out + self.block(body) + [("ret", "this", line)]

    def assigned_or_container(self, body, pid, ty):
        return self.mutated(body, pid)

    # ---------- statements: return list of nodes
    def block(self, n):
        if n.get("kind") == "CompoundStmt":
            out = []
            for c in kids(n):
                out += self.stmt(c)
            return out
        return self.stmt(n)

    def with_pre(self, fn):
        save = getattr(self, "pre", None)
        self.pre = []
        r = fn()
        p = self.pre
        self.pre = save
        return p, r

    def s(self, text):
        self.pre.append(("s", text, self.line))

    def is_noeffect(self, n):
        n = strip(n)
        k = n.get("kind")
        if k == "CXXOperatorCallExpr" and self.callee_name(kids(n)[0]) == "operator<<":
            return True
        if k == "CallExpr" and self.callee_name(kids(n)[0]) in NOEFFECT_CALLS:
            return True
        if k == "CXXMemberCallExpr" and self.callee_name(kids(n)[0]) in NOEFFECT_CALLS | {"reserve", "shrink_to_fit"}:
            return True
        if k in ("CXXDeleteExpr",):
            return True
        if k == "ConditionalOperator" or (k == "CStyleCastExpr" and n.get("castKind") == "ToVoid"):
            # (void)expr / disabled assert
            if k == "CStyleCastExpr":
                return True
        return False

    def stmt(self, n):
        if "_line" in n:
            self.line = n["_line"]
        line = self.line
        k = n.get("kind")
        if k in ("NullStmt",):
            return []
        if k == "CompoundStmt":
            b = self.block(n)
            return [("block", b, line)]
        if k == "AttributedStmt":
            return self.stmt(kids(n)[-1])
        if k == "DeclStmt":
            out = []
            for d in kids(n):
                if d.get("kind") == "VarDecl":
                    p, _ = self.with_pre(lambda: self.vardecl(d))
                    out += p
                elif d.get("kind") in ("UsingDecl", "TypedefDecl", "TypeAliasDecl", "StaticAssertDecl", "EmptyDecl"):
                    pass
                else:
                    raise ExtractError("declaration %s at line %s" % (d.get("kind"), line))
            return out
        if k == "IfStmt":
            ks = kids(n)
            if n.get("hasInit") or n.get("hasVar"):
                raise ExtractError("if with init")
            pre, c = self.with_pre(lambda: self.cond(ks[0]))
            th = self.block(ks[1])
            el = self.block(ks[2]) if len(ks) > 2 else []
            return pre + [("if", c, th, el, line)]
        if k == "ForStmt":
            ks = n["inner"]
            init, cvar, cond, inc, body = ks
            out = self.stmt(init) if init and init.get("kind") else []
            if cond and cond.get("kind"):
                cpre, c = self.with_pre(lambda: self.cond(cond))
            else:
                cpre, c = [], "true"
            b = self.block(body)
            i = []
            if inc and inc.get("kind"):
                i, _ = self.with_pre(lambda: self.exprstmt(inc))
            return [("block", out + self.mkloop(cpre, c, b, i, line), line)]
        if k == "WhileStmt":
            ks = kids(n)
            cpre, c = self.with_pre(lambda: self.cond(ks[0]))
            b = self.block(ks[1])
            return self.mkloop(cpre, c, b, [], line)
        if k == "DoStmt":
            ks = kids(n)
            b = self.block(ks[0])
            cpre, c = self.with_pre(lambda: self.cond(ks[1]))
            w = self.fresh("_w")
            return [("s", "let mut %s: bool = true;" % w, line),
                    ("loop", w, b, cpre + [("s", "%s = %s;" % (w, c), line)], line)]
        if k == "CXXForRangeStmt":
            return self.rangefor(n)
        if k == "ReturnStmt":
            ks = kids(n)
            if not ks:
                return [("ret", None, line)]
            if self.ret.r == "()":  # timer-returning functions
                return [("ret", None, line)]
            r0 = strip(ks[0])
            if r0.get("kind") == "DeclRefExpr":
                v = self.byid.get(r0["referencedDecl"]["id"])
                if v is not None and v.mode == "ref" and v.ty.r == "CSC" == self.ret.r:
                    # the argument itself is handed back; what it holds is what the result holds
                    return [("ret", "given_csc(%s)" % v.rust, line)]
            pre, e = self.with_pre(lambda: self.moveval(ks[0]))
            return pre + [("ret", e, line)]
        if k == "BreakStmt":
            return [("brk", line)]
        if k == "ContinueStmt":
            return [("cont", line)]
        if k == "OMPParallelDirective" or k.startswith("OMP"):
            raise ExtractError("OpenMP directive in AST")
        if k == "CXXThrowExpr" or (k == "ExprWithCleanups" and strip(n).get("kind") == "CXXThrowExpr"):
            return [("s", "abort_call();", line), ("diverge", line)]
        if k == "SwitchStmt":
            return self.switch(n)
        # expression statement
        pre, _ = self.with_pre(lambda: self.exprstmt(n))
        return pre

    def switch(self, n):
        raise ExtractError("switch")

    def mkloop(self, cpre, c, body, inc, line):
        if cpre:
            w = self.fresh("_w")
            return cpre + [("s", "let mut %s: bool = %s;" % (w, c), line),
                           ("loop", w, body, inc + cpre + [("s", "%s = %s;" % (w, c), line)], line)]
        return [("loop", c, body, inc, line)]

    def rangefor(self, n):
        line = self.line
        rng, var = self.range_parts(n)
        body = n["inner"][-1]
        pre, pl = self.with_pre(lambda: self.place(rng))
        idx = self.fresh("_r")
        ety = elem(pl.ty)
        isref = "&" in var["type"]["qualType"]
        loopvar_place = Place(pl.var, pl.projs + [("i", idx, "usize")], ety)
        pre0 = []
        if isref:
            scal = ety.r in INTS + ("bool", "F64")
            if scal and not self.mutated(body, var["id"]):
                v = self.declare(var, ety, "own")
                pre0 = [("s", "let %s: %s = %s;" % (v.rust, ety.r, self.read(loopvar_place)), line)]
            else:
                self.declare(var, ety, "alias", alias=loopvar_place)
        else:
            v = self.declare(var, ety, "own")
            pre0 = [("s", "let mut %s: %s = %s;" % (v.rust, ety.r, self.read(loopvar_place)), line)]
        b = self.block(body)
        cond = "%s < (%s).len()" % (idx, self.refexpr(pl))
        return pre + [("block", [("s", "let mut %s: usize = 0;" % idx, line),
                                 ("loop", cond, pre0 + b, [("s", "%s = %s + 1;" % (idx, idx), line)], line)], line)]

    # ---------- declarations
    def vardecl(self, d):
        q = d["type"]["qualType"]
        init = None
        ks = [c for c in kids(d) if not c.get("kind", "").endswith("Attr")]
        if ks and d.get("init"):
            init = ks[-1]
        if re.search(r"chrono|timing_measurement|ofstream|ostream|std::string|basic_string", q + d["type"].get("desugaredQualType", "")):
            self.byid[d["id"]] = Var("_drop", Ty("TIMER"), "own")
            return
        ty = tyof(d)
        dq = d["type"].get("desugaredQualType", q)
        isptr = dq.rstrip().endswith("*") or dq.rstrip().endswith("*const") or q.rstrip().endswith("*")
        isref = q.rstrip().endswith("&")
        if ty.r == "ITER":
            if init is None or isref:
                raise ExtractError("iterator declaration (line %s)" % self.line)
            p, e = self.iter_val(init)
            p = self.freeze(p)
            v = self.declare(d, Ty("usize"), "iter")
            v.target = p
            self.s("let mut %s: usize = %s;" % (v.rust, e))
            return
        arr = re.match(r"^.*\[(\d+)\]$", q)
        if arr:
            v = self.declare(d, ty, "own")
            if init is None:
                self.s("let mut %s: %s = %s(%susize);" % (v.rust, ty.r, newfn(ty, False), arr.group(1)))
            else:
                i0 = strip(init)
                vals = [c for c in kids(i0) if c.get("kind") != "ImplicitValueInitExpr"]
                self.s("let mut %s: %s = %s(%susize);" % (v.rust, ty.r, newfn(ty, True), arr.group(1)))
                for x, c in enumerate(vals):
                    self.s("st(&mut %s, %di32, %s);" % (v.rust, x, self.ex(c)))
            return
        arr = re.match(r"^.*\[([A-Za-z_]\w*)\]$", q)
        if arr and init is None:
            # array whose length is the value of a variable
            szv = [x for x in self.byid.values() if x.rust == arr.group(1) and x.ty.r == "i32" and not x.ty.ref and x.alias is None]
            if not szv:
                raise ExtractError("array of variable length (line %s)" % self.line)
            v = self.declare(d, ty, "own")
            self.s("let mut %s: %s = %s(i2u(%s));" % (v.rust, ty.r, newfn(ty, False), arr.group(1)))
            return
        if isref:
            p = self.place(init)
            p = self.freeze(p)
            scal = ty.r in INTS + ("bool", "F64")
            self.declare(d, ty, "alias", alias=p)
            return
        if init is None:
            if ty.r in INTS + ("bool", "F64"):
                v = self.declare(d, ty, "own")
                self.s("let mut %s: %s = arb_%s();" % (v.rust, ty.r, ty.r.lower()))
            elif isptr and self.place_assigned(d):
                self.declare(d, ty, "unbound", alias=None)
            elif ty.r.startswith("Vec"):
                v = self.declare(d, ty, "own")
                self.s("let mut %s: %s = Vec::new();" % (v.rust, ty.r))
            elif ty.r in ("CSC", "CSR", "BCSC") and isptr:
                v = self.declare(d, ty, "own")
                self.s("let mut %s: %s = arb_%s();" % (v.rust, ty.r, ty.r.lower()))
            else:
                v = self.declare(d, ty, "own")
                self.s("let mut %s: %s = arb_%s();" % (v.rust, ty.r, ty.r.lower()))
            return
        i0 = strip(init)
        if isptr and ty.r not in ("CSC", "CSR", "BCSC"):
            e = self.ptrinit(i0, ty)
            if isinstance(e, tuple):
                # a pointer into an array: the array plus an offset added to every subscript
                t = self.fresh()
                self.s("let %s: %s = %s;" % (t, e[2], e[1]))
                self.declare(d, ty, "alias", alias=self.freeze(e[0])).off = (t, e[2])
                return
            if isinstance(e, Place):
                self.declare(d, ty, "alias", alias=self.freeze(e))
                return
            v = self.declare(d, ty, "own")
            self.s("let mut %s: %s = %s;" % (v.rust, ty.r, e))
            return
        if isptr and i0.get("kind") in ("DeclRefExpr", "MemberExpr"):
            self.declare(d, ty, "alias", alias=self.place(i0))
            return
        e = self.moveval(init)
        v = self.declare(d, ty, "own")
        self.s("let mut %s: %s = %s;" % (v.rust, ty.r, e))

    def place_assigned(self, d):
        """a pointer declared without a value whose one assignment in the function makes it name another object"""
        asg = [n for n in self.allnodes(self.curbody) if n.get("kind") == "BinaryOperator" and n.get("opcode") == "="
               and strip(kids(n)[0]).get("kind") == "DeclRefExpr" and strip(kids(n)[0])["referencedDecl"]["id"] == d["id"]]
        if len(asg) != 1:
            return False
        r = strip(kids(asg[0])[1])
        if r.get("kind") == "ImplicitCastExpr" and not self.is_null(r):
            r = strip(kids(r)[0])
        if r.get("kind") == "BinaryOperator" and r.get("opcode") == "+" and r["type"]["qualType"].endswith("*"):
            return True
        return r.get("kind") in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "CXXOperatorCallExpr") or self.is_data(r)

    def ptrinit(self, i0, ty):
        k = i0.get("kind")
        if k in ("CXXNewExpr", "CallExpr", "CXXMemberCallExpr") and not self.is_data(i0):
            return self.moveval(i0)
        if self.is_null(i0):
            return "Vec::new()"
        if k == "ConditionalOperator":
            return self.ex(i0)
        if self.is_data(i0):
            return self.place(kids(strip(kids(i0)[0]))[0])
        if k == "BinaryOperator" and i0.get("opcode") == "+" and i0["type"]["qualType"].endswith("*"):
            return self.ptrplace(i0)
        if k == "DeclRefExpr" and getattr(self.byid.get(i0["referencedDecl"]["id"]), "off", None):
            return self.ptrplace(i0)
        p = self.place(i0)
        if k == "UnaryOperator" and i0.get("opcode") == "&" and p.projs and p.projs[-1][0] == "i" and p.ty.r in INTS + ("F64",):
            # &v[e]: the array plus the offset e
            return Place(p.var, list(p.projs[:-1]), Ty("Vec<%s>" % p.ty.r)), p.projs[-1][1], p.projs[-1][2]
        return p

    def is_data(self, n):
        n = strip(n)
        if n.get("kind") == "CXXMemberCallExpr":
            me = strip(kids(n)[0])
            return me.get("name") == "data"
        return False

    def is_null(self, n):
        n = strip(n)
        if n.get("kind") in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return True
        if n.get("kind") == "ImplicitCastExpr" and n.get("castKind") == "NullToPointer":
            return True
        return False

    def freeze(self, p):
        """fix index values of a place now (for reference bindings)"""
        projs = []
        for x in p.projs:
            if x[0] == "i" and not re.match(r"^(_t\d+|\d+\w*)$", x[1]):
                t = self.fresh()
                self.s("let %s: %s = %s;" % (t, x[2], x[1]))
                projs.append(("i", t, x[2]))
            else:
                projs.append(x)
        return Place(p.var, projs, p.ty)

    # ---------- places
    def place(self, n):
        n = strip(n)
        k = n.get("kind")
        if k == "DeclRefExpr":
            did = n["referencedDecl"]["id"]
            v = self.byid.get(did)
            if v is None:
                raise ExtractError("reference to unknown declaration %s (line %s)" % (n["referencedDecl"].get("name"), self.line))
            if v.ty.r == "TIMER":
                raise ExtractError("timer value used")
            if v.mode == "unbound":
                raise ExtractError("pointer %s used before it is set (line %s)" % (v.rust, self.line))
            if v.mode == "alias":
                if getattr(v, "off", None):
                    raise ExtractError("pointer %s points inside an array (line %s)" % (v.rust, self.line))
                return Place(v.alias.var, list(v.alias.projs), v.alias.ty)
            return Place(v, [], v.ty)
        if k == "CXXThisExpr":
            return Place(self.this, [], self.this.ty)
        if k == "MemberExpr":
            p = self.place(kids(n)[0])
            return Place(p.var, p.projs + [("f", rn(n["name"]))], tyof(n))
        if k == "ArraySubscriptExpr":
            b, i = kids(n)
            p = self.ptrplace(b)
            idx, ity = self.index(i)
            if isinstance(p, tuple):  # pointer plus offset
                p, off, oty = p
                idx, ity = self.addoff(off, oty, idx, ity)
            return Place(p.var, p.projs + [("i", idx, ity)], elem(p.ty))
        if k == "CXXOperatorCallExpr":
            nm = self.callee_name(kids(n)[0])
            if nm == "operator[]":
                p = self.place(kids(n)[1])
                idx, ity = self.index(kids(n)[2])
                return Place(p.var, p.projs + [("i", idx, ity)], elem(p.ty))
            if nm == "operator*" and len(kids(n)) == 2 and self.isiter(kids(n)[1]):
                p, e = self.iter_val(kids(n)[1])
                return Place(p.var, p.projs + [("i", e, "usize")], elem(p.ty))
        if k == "CXXMemberCallExpr":
            me = strip(kids(n)[0])
            nm = me.get("name")
            if nm == "operator bool":
                return self.place(kids(me)[0])
            if nm == "at":
                p = self.place(kids(me)[0])
                idx, ity = self.index(kids(n)[1])
                return Place(p.var, p.projs + [("i", idx, ity)], elem(p.ty))
            if nm in ("back", "front", "top"):
                p = self.place(kids(me)[0])
                if nm == "front":
                    return Place(p.var, p.projs + [("i", "0usize", "usize")], elem(p.ty))
                t = self.fresh()
                self.s("let %s: usize = last_ix((%s).len());" % (t, self.refexpr(p)))
                return Place(p.var, p.projs + [("i", t, "usize")], elem(p.ty))
            if nm == "data":
                return self.place(kids(me)[0])
        if k == "UnaryOperator" and n.get("opcode") == "*":
            q = strip(kids(n)[0])
            if q.get("kind") == "CXXThisExpr":
                return self.place(q)
            p = self.ptrplace(q)
            if isinstance(p, tuple):
                return Place(p[0].var, p[0].projs + [("i", p[1], p[2])], elem(p[0].ty))
            if p.ty.r.startswith("Vec"):
                return Place(p.var, p.projs + [("i", "0i32", "i32")], elem(p.ty))
            return p
        if k == "UnaryOperator" and n.get("opcode") == "&":
            return self.place(kids(n)[0])
        if k == "ImplicitCastExpr":
            return self.place(kids(n)[0])
        # materialise a temporary
        try:
            ty = tyof(n)
        except ExtractError:
            raise ExtractError("place %s (line %s)" % (k, self.line))
        t = self.fresh()
        e = self.moveval(n)
        self.s("let mut %s: %s = %s;" % (t, ty.r, e))
        return Place(Var(t, ty, "own"), [], ty)

    def ptrplace(self, n):
        n0 = strip(n)
        if n0.get("kind") == "BinaryOperator" and n0.get("opcode") == "+":
            a, b = kids(n0)
            p = self.ptrplace(a)
            off, oty = self.index(b)
            if isinstance(p, tuple):
                return (p[0],) + self.addoff(p[1], p[2], off, oty)
            return (p, off, oty)
        if n0.get("kind") == "DeclRefExpr":
            v = self.byid.get(n0["referencedDecl"]["id"])
            if v is not None and v.mode == "alias" and getattr(v, "off", None):
                return (Place(v.alias.var, list(v.alias.projs), v.alias.ty),) + v.off
        if self.is_data(n0):
            return self.place(kids(strip(kids(n0)[0]))[0])
        return self.place(n0)

    def addoff(self, a, at, b, bt):
        """sum of two element offsets (address arithmetic wraps when one of them is unsigned)"""
        if at == bt == "i32":
            return "(%s + %s)" % (a, b), "i32"
        if at not in ("i32", "usize") or bt not in ("i32", "usize"):
            raise ExtractError("pointer offset type (line %s)" % self.line)
        return "wadd(%s, %s)" % (a if at == "usize" else "i2u(%s)" % a, b if bt == "usize" else "i2u(%s)" % b), "usize"

    def index(self, n):
        m = strip(n)
        if m.get("kind") in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr") and m.get("castKind") == "IntegralCast":
            inner = kids(m)[0]
            try:
                t = tyof(inner).r
            except ExtractError:
                t = None
            if t == "i32":
                return self.ex(inner), "i32"
        t = tyof(n).r
        if t == "bool":
            return self.ex(n), "bool"
        if t == "i64":
            return self.ex(n), "i64"
        if t == "u32":
            return "(%s as usize)" % self.ex(n), "usize"
        return self.ex(n), ("usize" if t == "usize" else "i32")

    def base(self, p):
        return p.var.rust

    def refexpr(self, p):
        """expression of type &T for the place"""
        if not p.projs:
            return "&" + p.var.rust if p.var.mode == "own" else ("&*" + p.var.rust if p.var.mode == "mut" else p.var.rust)
        last = p.projs[-1]
        if last[0] == "f":
            return "&" + self.path(p)
        pre = Place(p.var, p.projs[:-1], None)
        return "ldr%s(%s, %s)" % ("u" if last[2] == "usize" else "", self.refexpr(pre), last[1])

    def path(self, p):
        """dotted path for a place ending in fields"""
        if not p.projs:
            return p.var.rust
        last = p.projs[-1]
        if last[0] == "f":
            return self.path(Place(p.var, p.projs[:-1], None)) + "." + last[1]
        return self.refexpr(p)

    def mutexpr(self, p):
        if not p.projs:
            if p.var.mode == "own":
                return "&mut " + p.var.rust
            return p.var.rust
        if all(x[0] == "f" for x in p.projs):
            return "&mut " + self.path(p)
        return "&mut " + self.mpath(p)

    def mpath(self, p):
        """element path usable as an lvalue (subscripts carry the bounds obligation of Vec indexing)"""
        r = p.var.rust
        for x in p.projs:
            if x[0] == "f":
                r += "." + x[1]
            else:
                ix = x[1]
                if not re.match(r"^\w+$", ix):
                    t = self.fresh("_x")
                    self.s("let %s: %s = %s;" % (t, x[2], ix))
                    ix = t
                r += "[%s]" % (ix if x[2] == "usize" else ix + " as usize")
        return r

    def read(self, p):
        if p.ty.r in STRUCTS.values() and p.ty.r not in ("i32",):
            return "(%s)" % self.refexpr(p)
        if not p.projs:
            if p.var.mode in ("mut", "ref") and not p.ty.r.startswith("Vec"):
                return "(*%s)" % p.var.rust
            if p.ty.r.startswith("Vec"):
                return "clone_vec(%s)" % self.refexpr(p)
            return p.var.rust
        last = p.projs[-1]
        if p.ty.r.startswith("Vec"):
            return "clone_vec(%s)" % self.refexpr(p)
        if last[0] == "f":
            return self.path(p)
        pre = Place(p.var, p.projs[:-1], None)
        return "ld%s(%s, %s)" % ("u" if last[2] == "usize" else "", self.refexpr(pre), last[1])

    def store(self, p, val):
        """emit statement storing val (a rust expression, maybe reading memory)"""
        if not p.projs:
            if p.var.mode == "mut":
                self.s("*%s = %s;" % (p.var.rust, val))
            elif p.var.mode == "ref":
                raise ExtractError("store through const reference %s" % p.var.rust)
            else:
                self.s("%s = %s;" % (p.var.rust, val))
            return
        last = p.projs[-1]
        if last[0] == "f" and all(x[0] == "f" for x in p.projs):
            self.s("%s = %s;" % (self.path(p), val))
            return
        idxs = []
        q = list(p.projs)
        while q and q[-1][0] == "i":
            idxs.insert(0, q.pop())
        suf = "".join("u" if x[2] == "usize" else "i" for x in idxs)
        if last[0] == "f" or any(x[0] != "f" for x in q) or len(idxs) > 2 or (len(idxs) == 2 and suf != "ii"):
            # v[i].f = val and other nested element paths
            m = self.mpath(p)
            if not re.match(r"^-?\w+$", val):
                t = self.fresh("_v")
                self.s("let %s = %s;" % (t, val))
                val = t
            self.s("%s = %s;" % (m, val))
            return
        names = []
        for x in idxs:
            if re.match(r"^(\w+)$", x[1]):
                names.append(x[1])
            else:
                t = self.fresh("_x")
                self.s("let %s: %s = %s;" % (t, x[2], x[1]))
                names.append(t)
        if not re.match(r"^-?\w+$", val):
            t = self.fresh("_v")
            self.s("let %s = %s;" % (t, val))
            val = t
        suf = "".join("u" if x[2] == "usize" else "i" for x in idxs)
        suf = {"i": "", "u": "u"}.get(suf, suf)
        fn = "st" + suf if len(idxs) == 1 else "st%d_%s" % (len(idxs), suf)
        if p.ty.r.startswith("Vec"):
            fn = "stv" + suf if len(idxs) == 1 else fn.replace("st", "stv", 1)
        self.s("%s(%s, %s, %s);" % (fn, self.mutexpr(Place(p.var, q, None)), ", ".join(names), val))

    # ---------- expressions
    def cond(self, n):
        t = None
        try:
            t = tyof(n).r
        except ExtractError:
            pass
        return self.ex(n)

    def moveval(self, n):
        """value of n where ownership may be taken (initialisers, returns)"""
        m = strip(n)
        if m.get("kind") == "CXXNewExpr":
            return self.new(m)
        if m.get("kind") == "DeclRefExpr":
            v = self.byid.get(m["referencedDecl"]["id"])
            if v is not None and v.mode == "own" and v.ty.r in ("CSC", "CSR", "BCSC", "TwoDIteration"):
                return v.rust
            if v is not None and v.mode in ("ref", "mut") and v.ty.r in ("CSC", "CSR", "BCSC"):
                raise ExtractError("struct pointer escapes (line %s)" % self.line)
        return self.ex(n)

    def new(self, m):
        q = m["type"]["qualType"]
        if m.get("isArray"):
            ks = kids(m)
            size = None
            init = False
            for c in ks:
                if c.get("kind") in ("ImplicitValueInitExpr",) or (c.get("kind") == "InitListExpr") or c.get("kind") == "CXXConstructExpr":
                    init = True
                elif size is None:
                    size = c
            if m.get("initStyle") in ("call", "list"):
                init = True
            ty = parse_type(q)
            e = self.ex(size)
            et = tyof(size).r
            if et == "i32":
                e = "i2u(%s)" % e
            return "%s(%s)" % (newfn(ty, init), e)
        ty = parse_type(q)
        ks = kids(m)
        c = strip(ks[0]) if ks else None
        if ty.r in ("CSC", "CSR", "BCSC") and c is not None and c.get("kind") == "CXXConstructExpr":
            return self.newstruct(ty, kids(c))
        raise ExtractError("new %s" % q)

    def newstruct(self, ty, args):
        """matrix object built by one of its constructors"""
        argt = []
        vals = []
        for a in args:
            if a.get("kind") == "CXXDefaultArgExpr":
                raise ExtractError("default ctor arg")
            a0 = strip(a)
            at = tyof(a)
            if self.is_null(a0):
                vals.append("Vec::new()")
                argt.append("vec")
            elif at.r.startswith("Vec"):
                vals.append("%s" % self.moveptr(a))
                argt.append("vec")
            elif at.r in ("CSC", "CSR", "BCSC"):
                vals.append(self.refexpr(self.ptrplace(a)))
                argt.append(at.r.lower())
            else:
                vals.append(self.ex(a))
                argt.append(at.r)
        nm = "%s_new_%s" % (ty.r.lower(), "_".join(argt))
        if not self.env.ctor(nm):
            raise ExtractError("constructor %s has no contract" % nm)
        return "%s(%s)" % (nm, ", ".join(vals))

    def moveptr(self, a):
        p = self.place(a)
        if p.var.mode == "own" and not p.projs:
            return p.var.rust    # moved: a later use of the old name is refused by the compiler
        if p.var.mode != "ref":
            raise ExtractError("array shared with a new matrix (line %s)" % self.line)
        return "clone_vec(%s)" % self.refexpr(p)

    def ex(self, n):
        if n.get("kind") == "CXXDefaultArgExpr":
            ks = kids(n)
            if ks:
                return self.ex(ks[0])
            raise ExtractError("default argument without expression")
        n0 = n
        n = strip(n)
        k = n.get("kind")
        if k == "IntegerLiteral":
            t = tyof(n).r
            return n["value"] + t
        if k == "CharacterLiteral":
            return str(n["value"]) + "i32"
        if k == "CXXBoolLiteralExpr":
            return "true" if n["value"] else "false"
        if k == "FloatingLiteral":
            return self.fconst(n["value"])
        if k == "DeclRefExpr":
            rd = n["referencedDecl"]
            if rd.get("kind") == "EnumConstantDecl":
                return self.env.enum_value(rd["name"]) + "i32"
            if rd["id"] not in self.byid:
                g = self.env.global_const(rd, n)
                if g is not None:
                    return g
            return self.read(self.place(n))
        if k in ("ArraySubscriptExpr", "MemberExpr", "CXXThisExpr"):
            return self.read(self.place(n))
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr"):
            return self.cast(n)
        if k == "UnaryOperator":
            return self.unary(n)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            return self.binary(n)
        if k == "ConditionalOperator":
            a, b, c = kids(n)
            ce = self.cond(a)
            pb, eb = self.with_pre(lambda: self.ex(b))
            pc, ec = self.with_pre(lambda: self.ex(c))
            if not pb and not pc:
                return "(if %s { %s } else { %s })" % (ce, eb, ec)
            t = self.fresh()
            ty = tyof(n).r
            self.pre.append(("s", "let mut %s: %s = arb_%s();" % (t, ty, ty.lower()), self.line))
            self.pre.append(("if", ce, pb + [("s", "%s = %s;" % (t, eb), self.line)],
                             pc + [("s", "%s = %s;" % (t, ec), self.line)], self.line))
            return t
        if k == "CXXOperatorCallExpr":
            nm = self.callee_name(kids(n)[0])
            if nm == "operator[]":
                return self.read(self.place(n))
            if nm == "operator=":
                self.assign(kids(n)[1], kids(n)[2])
                return self.read(self.place(kids(n)[1]))
            if nm in ("operator==", "operator!="):
                a, b = kids(n)[1:3]
                if self.isiter(a) and self.isiter(b):
                    p, e1 = self.iter_val(a)
                    p2, e2 = self.iter_val(b)
                    if self.refexpr(p) != self.refexpr(p2):
                        raise ExtractError("comparison of iterators of different vectors (line %s)" % self.line)
                    return "(%s %s %s)" % (e1, nm[8:], e2)
                ta = tyof(a).r
                if ta == "bool":
                    return "(%s %s %s)" % (self.ex(a), nm[8:], self.ex(b))
            if nm == "operator*" and len(kids(n)) == 2 and self.isiter(kids(n)[1]):
                return self.read(self.place(n))
            if nm == "operator-" and len(kids(n)) == 3 and self.isiter(kids(n)[1]) and self.isiter(kids(n)[2]):
                return self.iter_diff(kids(n)[2], kids(n)[1])
            if nm == "operator++" and self.isiter(kids(n)[1]):
                _, v = self.iter_val(kids(n)[1])
                if len(kids(n)) == 2:
                    self.s("%s = wadd(%s, 1usize);" % (v, v))
                    return v
            raise ExtractError("operator call %s (line %s)" % (nm, self.line))
        if k == "CXXMemberCallExpr":
            return self.method(n)
        if k == "CallExpr":
            return self.call(n)
        if k == "CXXConstructExpr" or k == "CXXTemporaryObjectExpr":
            return self.construct(n)
        if k == "CXXNewExpr":
            return self.new(n)
        if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr":
            t = tyof(n).r
            return "arb_%s()" % t.lower() if t in ("CSC", "CSR", "BCSC") else "Vec::new()"
        if k == "InitListExpr":
            ty = tyof(n)
            if ty.r in INTS and len(kids(n)) == 1:
                return self.ex(kids(n)[0])
        if k == "UnaryExprOrTypeTraitExpr":
            q = n.get("argType", {}).get("qualType")
            sz = {"int": 4, "double": 8, "bool": 1, "size_t": 8}.get(q)
            if sz:
                return "%dusize" % sz
        if k == "ImplicitValueInitExpr" or k == "CXXScalarValueInitExpr":
            ty = tyof(n).r
            return {"bool": "false", "F64": "f64_zero()"}.get(ty, "0" + ty)
        raise ExtractError("expression %s (line %s)" % (k, self.line))

    def fconst(self, v):
        try:
            f = float(v)
        except ValueError:
            raise ExtractError("float literal")
        if f == int(f) and abs(f) < 2 ** 31:
            return "i2f(%di32)" % int(f)
        import struct
        bits = struct.unpack("<Q", struct.pack("<d", f))[0]
        return "f64_lit(%du64)" % bits

    def cast(self, n):
        ck = n.get("castKind")
        e = kids(n)[0]
        to = tyof(n).r if ck not in ("ToVoid", "NullToPointer", "PointerToBoolean", "UserDefinedConversion") else None
        if ck == "IntegralCast":
            fr = tyof(e).r
            return self.iconv(self.ex(e), fr, to)
        if ck == "IntegralToBoolean":
            fr = tyof(e).r
            return "(%s != 0%s)" % (self.ex(e), fr)
        if ck == "IntegralToFloating":
            fr = tyof(e).r
            x = self.ex(e)
            return {"i32": "i2f", "usize": "u2f", "bool": "b2f", "i64": "l2f"}[fr] + "(%s)" % x
        if ck == "FloatingToIntegral":
            return "f2%s(%s)" % ({"i32": "i", "usize": "u"}[to], self.ex(e))
        if ck == "FloatingCast":
            return self.ex(e)
        if ck == "FloatingToBoolean":
            return "f64_nonzero(%s)" % self.ex(e)
        if ck == "NullToPointer":
            t = tyof(n).r
            return "arb_%s()" % t.lower() if t in ("CSC", "CSR", "BCSC") else "Vec::new()"
        if ck == "PointerToBoolean":
            p = self.place(e)
            return "((%s).len() != 0)" % self.refexpr(p)
        if ck == "UserDefinedConversion":
            return self.ex(e)
        if ck == "ToVoid":
            return self.ex(e)
        raise ExtractError("cast %s (line %s)" % (ck, self.line))

    def iconv(self, x, fr, to):
        if fr == to:
            return x
        m = re.match(r"^(\d+)(i32|usize|u32|i64)$", x)
        if m:
            return m.group(1) + to
        if fr == "bool":
            return "(if %s { 1%s } else { 0%s })" % (x, to, to)
        if fr == "i32" and to == "usize":
            return "i2u(%s)" % x
        if fr == "usize" and to == "i32":
            return "u2i(%s)" % x
        if fr == "i32" and to == "i64":
            return "(%s as i64)" % x
        if fr == "i64" and to == "usize":
            return "l2u(%s)" % x
        if fr == "usize" and to == "i64":
            return "u2l(%s)" % x
        if fr == "i64" and to == "i32":
            return "l2i(%s)" % x
        if fr == "u32" and to == "usize":
            return "(%s as usize)" % x
        if fr == "i32" and to == "u32":
            return "i2w(%s)" % x
        if fr == "usize" and to == "u32":
            return "u2w(%s)" % x
        if fr == "u32" and to == "i32":
            return "w2i(%s)" % x
        raise ExtractError("integer conversion %s->%s" % (fr, to))

    def incdec(self, n):
        op = n["opcode"][0]
        p = self.freeze(self.place(kids(n)[0]))
        ty = p.ty.r
        cur = self.read(p)
        one = "1" + ty
        if n.get("isPostfix"):
            t = self.fresh("_o")
            self.s("let %s: %s = %s;" % (t, ty, cur))
            self.store(p, self.arith(op, t, one, ty))
            return t
        self.store(p, self.arith(op, cur, one, ty))
        return self.read(p)

    def arith(self, op, a, b, ty):
        if ty in ("usize", "u32"):
            sfx = "" if ty == "usize" else "32"
            return {"+": "wadd%s(%s, %s)", "-": "wsub%s(%s, %s)", "*": "wmul%s(%s, %s)", "/": "udiv%s(%s, %s)",
                    "%": "umod%s(%s, %s)"}[op] % (sfx, a, b)
        if ty == "F64":
            if op == "%":
                raise ExtractError("float mod")
            return {"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}[op] + "(%s, %s)" % (a, b)
        if ty in ("i32", "i64"):
            if op in "+-*":
                return "(%s %s %s)" % (a, op, b)
            return {"/": "idiv", "%": "imod"}[op] + ("" if ty == "i32" else "64") + "(%s, %s)" % (a, b)
        raise ExtractError("arithmetic on %s" % ty)

    def unary(self, n):
        op = n["opcode"]
        if op in ("++", "--"):
            return self.incdec(n)
        if op == "!":
            c = strip(kids(n)[0])
            return "(!%s)" % self.ex(kids(n)[0])
        if op == "-":
            t = tyof(n).r
            x = self.ex(kids(n)[0])
            m = re.match(r"^(\d+)(i32|i64)$", x)
            if m:
                return "(-%s)" % x
            if t in ("i32", "i64"):
                return "(0%s - %s)" % (t, x)
            if t == "F64":
                return "fneg(%s)" % x
            if t == "usize":
                return "wsub(0usize, %s)" % x
            raise ExtractError("negation of %s" % t)
        if op == "+":
            return self.ex(kids(n)[0])
        if op == "*":
            return self.read(self.place(n))
        raise ExtractError("unary %s (line %s)" % (op, self.line))

    def isptr(self, n):
        try:
            t = n.get("type", {})
            d = t.get("desugaredQualType") or t.get("qualType", "")
            return d.rstrip().endswith("*")
        except Exception:
            return False

    def binary(self, n):
        op = n["opcode"]
        a, b = kids(n)
        if op == "=":
            self.assign(a, b)
            return self.read(self.place(a)) if not tyof(a).r.startswith(("Vec", "CS")) else "()"
        if op in ASSIGN_OPS:
            self.compound(n)
            return self.read(self.place(a))
        if op == ",":
            pre, x = self.with_pre(lambda: self.exprstmt(a))
            self.pre += pre
            return self.ex(b)
        if op in ("&&", "||"):
            ea = self.ex(a)
            pb, eb = self.with_pre(lambda: self.ex(b))
            if not pb:
                return "(%s %s %s)" % (ea, op, eb)
            t = self.fresh("_c")
            self.s("let mut %s: bool = %s;" % (t, ea))
            c = t if op == "&&" else "!%s" % t
            self.pre.append(("if", c, pb + [("s", "%s = %s;" % (t, eb), self.line)], [], self.line))
            return t
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if self.is_null(b) or self.is_null(a):
                other = a if self.is_null(b) else b
                p = self.place(other)
                return "((%s).len() %s 0)" % (self.refexpr(p), op)
            if self.isptr(strip(a)) or self.isptr(a):
                raise ExtractError("pointer comparison (line %s)" % self.line)
            t = tyof(a).r
            ea, eb = self.ex(a), self.ex(b)
            if t == "F64":
                f = {"==": "feq", "!=": "fne", "<": "flt", ">": "fgt", "<=": "fle", ">=": "fge"}[op]
                return "%s(%s, %s)" % (f, ea, eb)
            return "(%s %s %s)" % (ea, op, eb)
        t = tyof(n).r
        if op in ("+", "-", "*", "/", "%"):
            if t.startswith("Vec"):
                raise ExtractError("pointer arithmetic (line %s)" % self.line)
            ea, eb = self.ex(a), self.ex(b)
            return self.arith(op, ea, eb, t)
        if op in ("&", "|", "^") and t == "i32":
            # bitwise on bools promoted to int
            pass
        raise ExtractError("operator %s (line %s)" % (op, self.line))

    def compound(self, n):
        a, b = kids(n)
        op = n["opcode"][0]
        ct = n.get("computeResultType", {}).get("qualType") or tyof(a).r
        try:
            cty = parse_type(n.get("computeLHSType", {}).get("desugaredQualType") or n.get("computeLHSType", {}).get("qualType") or "int").r
        except ExtractError:
            cty = tyof(a).r
        eb = self.ex(b)
        if not re.match(r"^-?\w+$", eb):
            t = self.fresh("_v")
            self.s("let %s = %s;" % (t, eb))
            eb = t
        p = self.freeze(self.place(a))
        lt = p.ty.r
        cur = self.read(p)
        if lt.startswith("Vec"):
            raise ExtractError("pointer increment (line %s)" % self.line)
        x = self.conv(cur, lt, cty)
        r = self.arith(op, x, eb, cty)
        self.store(p, self.conv(r, cty, lt))

    def conv(self, x, fr, to):
        if fr == to:
            return x
        if fr in INTS and to == "F64":
            return {"i32": "i2f", "usize": "u2f"}[fr] + "(%s)" % x
        if fr == "F64" and to in INTS:
            return {"i32": "f2i", "usize": "f2u"}[to] + "(%s)" % x
        return self.iconv(x, fr, to)

    def assign(self, a, b):
        a0 = strip(a)
        # alias rebinding?
        if a0.get("kind") == "DeclRefExpr":
            v = self.byid.get(a0["referencedDecl"]["id"])
            if v is not None and v.mode == "unbound":
                v.off = None
                e = self.ptrinit(strip(b), v.ty)
                if isinstance(e, tuple):
                    t = self.fresh()
                    self.s("let %s: %s = %s;" % (t, e[2], e[1]))
                    v.off = (t, e[2])
                    e = e[0]
                if not isinstance(e, Place):
                    raise ExtractError("pointer assignment (line %s)" % self.line)
                v.alias = self.freeze(e)
                v.mode = "alias"
                return
            if v is not None and v.mode == "alias" and self.isptr(a0) and self.rebind_ok(a0["referencedDecl"]["id"]):
                e = self.ptrinit(strip(b), v.ty)
                if not isinstance(e, Place):
                    raise ExtractError("pointer assignment (line %s)" % self.line)
                v.alias = self.freeze(e)
                return
            if v is not None and v.mode == "alias" and self.isptr(a0) and not v.ty.r in INTS:
                raise ExtractError("pointer alias %s reassigned (line %s)" % (a0["referencedDecl"].get("name"), self.line))
            if v is not None and v.ty.r == "TIMER":
                self.timer_call(b)
                return
        if "timing_measurement" in (a0.get("type", {}).get("qualType", "")):
            self.timer_call(b)
            return
        b0 = strip(b)
        if b0.get("kind") == "BinaryOperator" and b0.get("opcode") == "=":
            self.assign(*kids(b0))
            val = self.read(self.place(kids(b0)[0]))
            self.store(self.place(a), val)
            return
        ty = tyof(a).r
        if self.isptr(a0) and ty.startswith("Vec"):
            if b0.get("kind") == "ConditionalOperator" and all(strip(c).get("kind") in ("CXXNewExpr",) or self.is_null(strip(c)) for c in kids(b0)[1:]):
                self.store(self.place(a), self.ex(b0))
                return
            if b0.get("kind") in ("CXXNewExpr", "CallExpr") or self.is_null(b0):
                val = "Vec::new()" if self.is_null(b0) else self.moveval(b0)
                self.store(self.place(a), val)
                return
            if self.f["kind"] == "CXXConstructorDecl":
                bb = strip(kids(b0)[0]) if b0.get("kind") == "ImplicitCastExpr" else b0
                if bb.get("kind") == "DeclRefExpr" and bb["referencedDecl"]["id"] in self.paramids:
                    self.store(self.place(a), self.byid[bb["referencedDecl"]["id"]].rust)
                    return
            if any(self.asg_id in c for c in self._copyasg.values()):
                e = self.ptrinit(b0, tyof(a))
                if isinstance(e, Place) and e.var.mode == "ref":
                    self.store(self.place(a), "clone_vec(%s)" % self.refexpr(e))
                    return
            if a0.get("type", {}).get("qualType", "").startswith("const ") and a0.get("kind") == "DeclRefExpr":
                # a read-only pointer made to name a read-only input: a copy of the input (which nothing in the function writes)
                e = self.ptrinit(b0, tyof(a))
                if isinstance(e, Place) and e.var.mode == "ref":
                    self.store(self.place(a), "clone_vec(%s)" % self.refexpr(e))
                    return
            raise ExtractError("pointer assignment (line %s)" % self.line)
        # C++11: order of evaluation of lhs index vs rhs unspecified for scalars; rhs first
        val = self.moveval(b)
        p = self.place(a)
        if any(x[0] == "i" for x in p.projs) or not re.match(r"^[\w\.]+$", val):
            pass
        self.store(p, val)

    def timer_call(self, b):
        b0 = strip(b)
        if b0.get("kind") == "CallExpr":
            self.exprstmt(b0)

    # ---------- expression statements
    def exprstmt(self, n):
        n0 = strip(n)
        if self.is_noeffect(n0):
            return
        k = n0.get("kind")
        if k == "UnaryOperator" and n0.get("opcode") in ("++", "--"):
            p = self.freeze(self.place(kids(n0)[0]))
            self.store(p, self.arith(n0["opcode"][0], self.read(p), "1" + p.ty.r, p.ty.r))
            return
        if k == "BinaryOperator" and n0.get("opcode") == "=":
            self.asg_id = n0.get("id")
            self.assign(*kids(n0))
            self.asg_id = None
            return
        if k == "CompoundAssignOperator":
            self.compound(n0)
            return
        if k == "BinaryOperator" and n0.get("opcode") == ",":
            self.exprstmt(kids(n0)[0])
            self.exprstmt(kids(n0)[1])
            return
        if k == "CXXOperatorCallExpr" and self.callee_name(kids(n0)[0]) == "operator=":
            self.assign(kids(n0)[1], kids(n0)[2])
            return
        if k in ("CallExpr", "CXXMemberCallExpr"):
            e = self.method(n0, stmt=True) if k == "CXXMemberCallExpr" else self.call(n0, stmt=True)
            if e and e != "()":
                if re.match(r"^\w+$", e):
                    return
                self.s("let _ = %s;" % e if not e.startswith("let ") else e)
            return
        if k == "CXXThrowExpr":
            self.s("abort_call();")
            self.pre.append(("diverge", self.line))
            return
        if k in ("DeclRefExpr", "IntegerLiteral", "CXXBoolLiteralExpr"):
            return
        e = self.ex(n0)
        if not re.match(r"^\w+$", e):
            self.s("let _ = %s;" % e)

    # ---------- containers
    def vecop(self, p, base, args):
        """statement: call helper on container place, nested allowed"""
        idxs = []
        q = list(p.projs)
        while q and q[-1][0] == "i":
            idxs.insert(0, q.pop())
        suf = "".join("u" if x[2] == "usize" else "i" for x in idxs)
        nested = any(x[0] != "f" for x in q) or (idxs and "%s_%s" % (base, suf) not in NESTED_OPS)
        if nested:
            m = self.mpath(p)
            idxs = []
        names = []
        for x in idxs:
            if re.match(r"^(\w+)$", x[1]):
                names.append(x[1])
            else:
                t = self.fresh("_x")
                self.s("let %s: %s = %s;" % (t, x[2], x[1]))
                names.append(t)
        vals = []
        for a in args:
            if re.match(r"^-?\w+$", a):
                vals.append(a)
            else:
                t = self.fresh("_v")
                self.s("let %s = %s;" % (t, a))
                vals.append(t)
        suf = "".join("u" if x[2] == "usize" else "i" for x in idxs)
        fn = base if not idxs else "%s_%s" % (base, suf)
        m = "&mut " + m if nested else self.mutexpr(Place(p.var, q, None))
        self.s("%s(%s);" % (fn, ", ".join([m] + names + vals)))

    def method(self, n, stmt=False):
        me = strip(kids(n)[0])
        args = [a for a in kids(n)[1:]]
        nm = me.get("name")
        obj = kids(me)[0] if kids(me) else None
        if nm == "operator bool":
            return self.read(self.place(obj))
        o0 = strip(obj)
        if o0.get("kind") == "CXXThisExpr":
            info = self.env.lookup_callee(nm, n, me)
            if info is not None and info["params"] and info["params"][0][0] == "this":
                return self.contract_call(info, args, n, self.this)
        if o0.get("kind") == "CXXThisExpr" or (o0.get("kind") == "DeclRefExpr" and "group" == re.sub(r"sym_lib::|\W", "", tname(o0))):
            raise ExtractError("member call %s" % nm)
        p = self.place(obj)
        if nm in ("size", "length"):
            return "(%s).len()" % self.refexpr(p)
        if nm == "empty":
            return "((%s).len() == 0)" % self.refexpr(p)
        if nm == "top" and "priority_queue" in tname(o0):
            return "pq_top(%s)" % self.refexpr(p)
        if nm == "pop" and "priority_queue" in tname(o0):
            self.vecop(p, "pq_pop", [])
            return "()"
        if nm in ("back", "front", "at", "top"):
            return self.read(self.place(n))
        if nm in ("push_back", "emplace_back", "push"):
            e = self.moveval(args[0])
            self.vecop(p, "push", [e])
            return "()"
        if nm == "pop_back":
            self.vecop(p, "pop_back", [])
            return "()"
        if nm == "pop":
            isq = "queue" in tname(o0) and "priority" not in tname(o0)
            self.vecop(p, "pop_front" if isq else "pop_back", [])
            return "()"
        if nm == "pop_front":
            self.vecop(p, "pop_front", [])
            return "()"
        if nm == "clear":
            self.vecop(p, "clear", [])
            return "()"
        if nm == "resize":
            et = elem(p.ty).r
            args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            sz = self.ex(args[0])
            if len(args) > 1:
                self.vecop(p, "resize_val", [sz, self.ex(args[1])])
            elif et.startswith("Vec"):
                self.vecop(p, "resize_vv", [sz])
            else:
                self.vecop(p, "resize_val", [sz, zero(et)])
            return "()"
        if nm == "assign" and len(args) == 2:
            self.vecop(p, "assign_val", [self.ex(args[0]), self.ex(args[1])])
            return "()"
        if nm == "insert" and len(args) == 3:
            # v.insert(v.end(), w.begin(), w.end())
            a0 = self.iter_of(args[0])
            b0 = self.iter_of(args[1])
            c0 = self.iter_of(args[2])
            if a0 and b0 and c0 and a0[1] in ("end", "begin") and a0[2] is None and b0[1] == "begin" and c0[1] == "end" and b0[2] is None:
                w = self.place(b0[0])
                self.vecop(p, "append_all" if a0[1] == "end" else "prepend_all", ["clone_vec(%s)" % self.refexpr(w)])
                return "()"
        if nm == "erase" and len(args) == 2:
            # v.erase(v.begin(), v.end())
            b0, c0 = self.iter_of(args[0]), self.iter_of(args[1])
            if b0 and c0 and (b0[1], c0[1]) == ("begin", "end") and b0[2] is None and c0[2] is None \
                    and {self.refexpr(self.place(x[0])) for x in (b0, c0)} == {self.refexpr(p)}:
                self.vecop(p, "clear", [])
                return "()"
            # v.erase(std::unique(v.begin(), v.end()), v.end())
            u = strip(args[0])
            while u.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "ImplicitCastExpr") and len([c for c in kids(u) if c.get("kind") != "CXXDefaultArgExpr"]) == 1:
                u = strip(kids(u)[0])
            if u.get("kind") == "CallExpr" and self.callee_name(kids(u)[0]) == "unique" and len(kids(u)) == 3:
                a0, b0, c0 = self.iter_of(kids(u)[1]), self.iter_of(kids(u)[2]), self.iter_of(args[1])
                if a0 and b0 and c0 and (a0[1], b0[1], c0[1]) == ("begin", "end", "end") and a0[2] is None and b0[2] is None and c0[2] is None:
                    refs = {self.refexpr(self.place(x[0])) for x in (a0, b0, c0)} | {self.refexpr(p)}
                    if len(refs) == 1:
                        self.vecop(p, "dedup", [])
                        return "()"
        if nm == "erase" and len(args) == 1:
            a0 = self.iter_of(args[0])
            if a0:
                _, ix = self.iter_ix(a0)
                self.vecop(p, "erase_at", [ix])
                return "()"
        raise ExtractError("method %s (line %s)" % (nm, self.line))

    def iter_of(self, n):
        """recognise v.begin() / v.end() / v.begin()+k / ptr / ptr+k ; returns (objnode, 'begin'|'end', offset or None)"""
        n = strip(n)
        k = n.get("kind")
        if k == "CXXMemberCallExpr":
            me = strip(kids(n)[0])
            if me.get("name") in ("begin", "end", "cbegin", "cend"):
                return (kids(me)[0], me["name"].replace("cb", "b").replace("ce", "e"), None)
            if me.get("name") == "data":
                return (kids(me)[0], "begin", None)
        if k == "CXXOperatorCallExpr" and self.callee_name(kids(n)[0]) == "operator+":
            r = self.iter_of(kids(n)[1])
            if r and r[2] is None:
                return (r[0], r[1], kids(n)[2])
        if k == "CXXConstructExpr" and len(kids(n)) == 1:
            return self.iter_of(kids(n)[0])
        if k == "BinaryOperator" and n.get("opcode") == "+":
            r = self.iter_of(kids(n)[0])
            if r:
                return (r[0], r[1], kids(n)[1] if r[2] is None else (r[2], kids(n)[1]))
        if k == "UnaryOperator" and n.get("opcode") == "&":
            m = strip(kids(n)[0])
            if m.get("kind") in ("ArraySubscriptExpr",):
                b, i = kids(m)
                return (b, "begin", i)
        if k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "ImplicitCastExpr"):
            if k == "ImplicitCastExpr":
                return self.iter_of(kids(n)[0])
            return (n, "begin", None)
        return None

    def iter_val(self, n):
        """(place of the vector, position as usize) of an expression of iterator type"""
        n = strip(n)
        k = n.get("kind")
        while k in ("CXXConstructExpr", "ImplicitCastExpr", "CXXTemporaryObjectExpr") and len(kids(n)) == 1:
            n = strip(kids(n)[0])
            k = n.get("kind")
        if k == "DeclRefExpr":
            v = self.byid.get(n["referencedDecl"]["id"])
            if v is None or v.mode != "iter":
                raise ExtractError("iterator (line %s)" % self.line)
            t = v.target
            return Place(t.var, list(t.projs), t.ty), v.rust
        if k == "CallExpr":
            nm = self.callee_name(kids(n)[0])
            args = [a for a in kids(n)[1:] if a.get("kind") != "CXXDefaultArgExpr"]
            if nm in ("lower_bound", "find") and len(args) == 3:
                p, b = self.iter_val(args[0])
                p2, e = self.iter_val(args[1])
                if self.refexpr(p) != self.refexpr(p2) or elem(p.ty).r != "i32":
                    raise ExtractError("search range (line %s)" % self.line)
                t = self.fresh("_k")
                self.s("let %s: usize = %s(%s, %s, %s, %s);" % (t, nm + "_range", self.refexpr(p), b, e, self.ex(args[2])))
                return p, t
        if k == "CXXOperatorCallExpr" and self.callee_name(kids(n)[0]) in ("operator+", "operator-") and len(kids(n)) == 3:
            p, e = self.iter_val(kids(n)[1])
            o = self.ex(kids(n)[2])
            t = tyof(kids(n)[2]).r
            if t == "i64":
                m = re.match(r"^\((.*) as i64\)$", o)
                o = "i2u(%s)" % m.group(1) if m else "l2u(%s)" % o
            elif t == "i32":
                o = "i2u(%s)" % o
            return p, "%s(%s, %s)" % ("wadd" if self.callee_name(kids(n)[0]) == "operator+" else "wsub", e, o)
        it = self.iter_of(n)
        if it:
            return self.iter_ix(it)
        raise ExtractError("iterator (line %s)" % self.line)

    def iter_diff(self, a, b):
        p, e1 = self.iter_val(a)
        p2, e2 = self.iter_val(b)
        if self.refexpr(p) != self.refexpr(p2):
            raise ExtractError("distance between different vectors (line %s)" % self.line)
        return "usub_l(%s, %s)" % (e2, e1)

    def isiter(self, n):
        try:
            return tyof(strip(n)).r == "ITER"
        except ExtractError:
            return False

    def iter_ix(self, it):
        """usable position expression (i32 or usize 'usize') of iterator triple"""
        obj, be, off = it
        p = self.place(obj)
        if be == "end":
            if off is not None:
                raise ExtractError("end()+k")
            return p, "(%s).len()" % self.refexpr(p)
        if off is None:
            return p, "0usize"
        return p, self.offset(off)

    def offset(self, off):
        if isinstance(off, tuple):
            return "wadd(%s, %s)" % (self.offset(off[0]), self.offset(off[1]))
        e = self.ex(off)
        t = tyof(off).r
        if t == "i32":
            e = "i2u(%s)" % e
        if t == "i64":
            e = "l2u(%s)" % e
            m = re.match(r"^l2u\(\((.*) as i64\)\)$", e)
            if m:
                e = "i2u(%s)" % m.group(1)
        return e

    def construct(self, n):
        ty = tyof(n)
        args = [a for a in kids(n) if a.get("kind") != "CXXDefaultArgExpr"]
        if ty.r.startswith("Vec"):
            if not args:
                return "Vec::new()"
            if len(args) == 1 and strip(args[0]).get("kind") == "CXXStdInitializerListExpr":
                lst = strip(kids(strip(args[0]))[0])
                if lst.get("kind") != "InitListExpr":
                    raise ExtractError("initializer list")
                t = self.fresh()
                self.s("let mut %s: %s = Vec::new();" % (t, ty.r))
                for a in kids(lst):
                    self.s("%s.push(%s);" % (t, self.ex(a)))
                return t
            if len(args) == 1 and tyof(args[0]).r.startswith("Vec"):
                return self.ex(args[0])
            et = elem(ty).r
            if len(args) in (1, 2) and tyof(args[0]).r in ("usize", "i32"):
                sz = self.ex(args[0])
                if tyof(args[0]).r == "i32":
                    sz = "i2u(%s)" % sz
                if len(args) == 1:
                    if et.startswith("Vec"):
                        return "new_vv(%s)" % sz
                    if et == "SubTree":
                        return "new_subtrees(%s)" % sz
                    return "new_val(%s, %s)" % (sz, zero(et))
                a1 = strip(args[1])
                if et.startswith("Vec"):
                    inner = self.construct(a1) if a1.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr") else self.ex(a1)
                    return "new_vval(%s, %s)" % (sz, inner)
                v = self.ex(args[1])
                vt = tyof(args[1]).r
                return "new_val(%s, %s)" % (sz, v)
            if len(args) == 2:
                i1, i2 = self.iter_of(args[0]), self.iter_of(args[1])
                if i1 and i2:
                    p, b = self.iter_ix(i1)
                    p2, e = self.iter_ix(i2)
                    return "vec_range(%s, %s, %s)" % (self.refexpr(p), b, e)
        if ty.r in INTS and len(args) == 1:
            return self.ex(args[0])
        if ty.r.startswith("(") and len(args) == 2:
            return "(%s, %s)" % (self.ex(args[0]), self.ex(args[1]))
        if ty.r in ("SubTree", "TwoDIteration") and not args:
            return "arb_%s()" % ty.r.lower()
        if ty.r in ("CSC", "CSR", "BCSC"):
            return self.newstruct(ty, kids(n))
        raise ExtractError("construction of %s (line %s)" % (ty.r, self.line))

    # ---------- calls
    def call(self, n, stmt=False):
        ks = kids(n)
        nm = self.callee_name(ks[0])
        args = ks[1:]
        rd = strip_fn(ks[0])
        if nm in NOEFFECT_CALLS:
            return "()"
        b = self.std_call(nm, args, n)
        if b is not None:
            return b
        info = self.env.lookup_callee(nm, n, rd)
        if info is not None:
            return self.contract_call(info, args, n)
        d = self.env.find_def(nm, n, rd)
        if d is not None:
            if nm in self.inline_stack or len(self.inline_stack) > 3:
                raise ExtractError("recursive inlining of %s" % nm)
            return self.inline(d, args, n)
        raise ExtractError("call to %s without a contract (line %s)" % (nm, self.line))

    def fill_value(self, args):
        """the filled value, converted to the element type as the assignment inside std::fill does"""
        v = self.ex(args[2])
        if "F64" in str(tyof(args[0]).r) and tyof(args[2]).r == "i32":
            return "i2f(%s)" % v
        return v

    ESZ = {"i32": 4, "F64": 8, "usize": 8, "bool": 1, "i64": 8}

    def count_of_bytes(self, n, et):
        """n elements of type et occupy the given byte count: sizeof(T) * n with the matching T"""
        n = strip(n)
        while n.get("kind") == "ImplicitCastExpr":
            n = strip(kids(n)[0])
        if n.get("kind") == "BinaryOperator" and n.get("opcode") == "*":
            a, b = kids(n)
            for s_, o in ((a, b), (b, a)):
                s0 = strip(s_)
                while s0.get("kind") == "ImplicitCastExpr":
                    s0 = strip(kids(s0)[0])
                if s0.get("kind") == "UnaryExprOrTypeTraitExpr" and s0.get("name") == "sizeof":
                    at = s0.get("argType", {}).get("qualType", "")
                    if {"int": "i32", "double": "F64", "size_t": "usize", "unsigned long": "usize", "bool": "bool"}.get(at) == et:
                        e = self.ex(o)
                        return "i2u(%s)" % e if tyof(o).r == "i32" else e
            # sizeof(T) * n * m: the product is a size_t
            c = self.count_of_bytes(a, et)
            if c is not None and tyof(b).r in ("i32", "usize"):
                e = self.ex(b)
                return "wmul(%s, %s)" % (c, "i2u(%s)" % e if tyof(b).r == "i32" else e)
        return None

    def byte_arg(self, n):
        """(iterator, element type) of a void* argument"""
        n = strip(n)
        while n.get("kind") in ("ImplicitCastExpr", "CStyleCastExpr") and "void" in n.get("type", {}).get("qualType", ""):
            n = strip(kids(n)[0])
        it = self.iter_of(n)
        t = tyof(n).r
        return (it, t[4:-1]) if it and t.startswith("Vec<") else (None, None)

    def std_call(self, nm, args, n):
        if nm in ("malloc", "calloc"):
            for et in self.ESZ:
                if nm == "malloc":
                    c = self.count_of_bytes(args[0], et)
                else:
                    c = self.count_of_bytes({"kind": "BinaryOperator", "opcode": "*", "inner": [args[1], args[0]]}, et)
                if c is not None:
                    return "new_%s_%s(%s)" % ("arb" if nm == "malloc" else "zero", et.lower(), c)
        if nm == "memset" and len(args) == 3:
            it, et = self.byte_arg(args[0])
            v = strip(args[1])
            c = self.count_of_bytes(args[2], et) if it else None
            if c is not None and et in self.ESZ:
                w = strip(v)
                while w.get("kind") == "ImplicitCastExpr" and w.get("castKind") == "FloatingToIntegral":
                    w = strip(kids(w)[0])
                z = "0i32" if w.get("kind") == "FloatingLiteral" and float(w.get("value", "1")) == 0.0 else self.ex(v)
                zero = {"i32": "0i32", "F64": "f64_zero()", "usize": "0usize", "bool": "false", "i64": "0i64"}[et]
                if z == "0i32" or (z in ("(-1i32)", "-1i32") and et == "i32"):
                    p, b = self.iter_ix(it)
                    self.vecop(p, "fill_n", [b, c, zero if z == "0i32" else "-1i32"])
                    return "()"
                m = re.match(r"^(\d+)i32$", z)
                if m and et == "i32":
                    # every byte of the ints gets the low byte of the value
                    w = (int(m.group(1)) & 255) * 0x01010101
                    w = w - (1 << 32) if w >= 1 << 31 else w
                    p, b = self.iter_ix(it)
                    self.vecop(p, "fill_n", [b, c, "%di32" % w if w >= 0 else "(%di32)" % w])
                    return "()"
        if nm == "memcpy" and len(args) == 3:
            (i1, e1), (i2, e2) = self.byte_arg(args[0]), self.byte_arg(args[1])
            c = self.count_of_bytes(args[2], e1) if i1 and i2 and e1 == e2 else None
            if c is not None and e1 in self.ESZ:
                p, b = self.iter_ix(i1)
                q, b2 = self.iter_ix(i2)
                src = self.fresh("_v")
                self.s("let %s = clone_vec(%s);" % (src, self.refexpr(q)))
                self.s("let %s_c = %s;" % (src, c))
                self.s("let %s_b = %s;" % (src, b2))
                self.s("let %s_o = %s;" % (src, b))
                self.s("copy_range(%s, %s_o, &%s, %s_b, wadd(%s_b, %s_c));" % (self.mutexpr(p), src, src, src, src, src))
                return "()"
        if nm in ("sort", "stable_sort"):
            i1, i2 = self.iter_of(args[0]), self.iter_of(args[1])
            if not i1 or not i2:
                raise ExtractError("sort arguments")
            p, b = self.iter_ix(i1)
            p2, e = self.iter_ix(i2)
            real = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            self.vecop(p, "sort_range" if len(real) == 2 else "permute_range", [b, e])
            return "()"
        if nm in ("fill", "fill_n"):
            if nm == "fill":
                i1, i2 = self.iter_of(args[0]), self.iter_of(args[1])
                if i1 and i2:
                    p, b = self.iter_ix(i1)
                    p2, e = self.iter_ix(i2)
                    self.vecop(p, "fill_range", [b, e, self.fill_value(args)])
                    return "()"
            else:
                i1 = self.iter_of(args[0])
                if i1:
                    p, b = self.iter_ix(i1)
                    c = self.ex(args[1])
                    if tyof(args[1]).r == "i32":
                        c = "i2u(%s)" % c
                    self.vecop(p, "fill_n", [b, c, self.fill_value(args)])
                    return "()"
        if nm in ("copy", "memcpy"):
            if nm == "copy":
                i1, i2, o = self.iter_of(args[0]), self.iter_of(args[1]), self.iter_of(args[2])
                if i1 and i2 and o:
                    p, b = self.iter_ix(i1)
                    _, e = self.iter_ix(i2)
                    q, ob = self.iter_ix(o)
                    src = self.fresh("_v")
                    self.s("let %s = clone_vec(%s);" % (src, self.refexpr(p)))
                    self.s("let %s_b = %s;" % (src, b))
                    self.s("let %s_e = %s;" % (src, e))
                    self.s("let %s_o = %s;" % (src, ob))
                    self.s("copy_range(%s, %s_o, &%s, %s_b, %s_e);" % (self.mutexpr(q), src, src, src, src))
                    return "()"
        if nm in ("min", "max") and len(args) == 2:
            t = tyof(n).r
            if t in ("i32", "usize"):
                return "%s_%s(%s, %s)" % (nm, t, self.ex(args[0]), self.ex(args[1]))
            if t == "F64":
                return "f%s(%s, %s)" % (nm, self.ex(args[0]), self.ex(args[1]))
        if nm == "abs" and tyof(n).r == "i32":
            return "abs_i32(%s)" % self.ex(args[0])
        if nm == "distance" and len(args) == 2:
            return self.iter_diff(args[0], args[1])
        if nm in ("exit", "abort"):
            self.s("abort_call();")
            self.pre.append(("diverge", self.line))
            return "()"
        if nm in ("log", "ceil", "floor", "sqrt", "fabs", "pow", "log2") and tyof(n).r == "F64":
            return "f_%s(%s)" % (nm, ", ".join(self.ex(a) for a in args))
        if nm == "move" and len(args) == 1:
            return self.moveval(args[0])
        if nm == "swap" and len(args) == 2:
            a, b2 = self.place(args[0]), self.place(args[1])
            t = self.fresh("_v")
            self.s("let %s = %s;" % (t, self.read(a)))
            self.store(a, self.read(b2))
            self.store(b2, t)
            return "()"
        return None

    def contract_call(self, info, args, n, this=None):
        """info: dict(rust, params=[(name,ty,mode)], ret)"""
        out = []
        real = list(args)
        params = info["params"]
        temps = []
        post = []
        muts = set()
        splits = []
        if this is not None:
            params = params[1:]
            # the object's own fields are its state: no argument may alias it
            temps.append((("m" if info["params"][0][2] == "mut" else "r"), Place(this, [], this.ty)))
        for (pn, pt, pm), a in zip(params, real):
            a0 = strip(a)
            if a.get("kind") == "CXXDefaultArgExpr":
                d = self.env.w.fnode(info["rust"])
                ps = [c for c in kids(d) if c.get("kind") == "ParmVarDecl"]
                ini = [c for c in kids(ps[real.index(a)]) if not c.get("kind", "").endswith("Attr")] if len(ps) == len(real) else []
                if not ini:
                    raise ExtractError("default argument of %s" % info["rust"])
                if pm == "own":
                    temps.append(("v", self.ex(ini[-1])))
                    continue
                a = ini[-1]
                a0 = strip(a)
            if pm == "own":
                e = self.ex(a)
                if not re.match(r"^-?[\w]+$", e):
                    t = self.fresh("_a")
                    self.s("let %s: %s = %s;" % (t, pt, e))
                    e = t
                temps.append(("v", e))
            else:
                if self.is_null(a0):
                    t = self.fresh("_a")
                    self.s("let mut %s: %s = Vec::new();" % (t, pt))
                    temps.append(("v", ("&mut " if pm == "mut" else "&") + t))
                    continue
                i = self.ptrplace(a)
                if isinstance(i, tuple):
                    # base + k: the array is cut in two for the time of the call
                    p, off, oty = i
                    if any((x[0] is p.var or x[0] == p.var) and x[1].projs != p.projs for x in splits) or oty not in ("i32", "usize") or p.projs and any(x[0] != "f" for x in p.projs):
                        raise ExtractError("pointer offset argument (line %s)" % self.line)
                    t, o = self.fresh("_h"), self.fresh("_o")
                    self.s("let %s: usize = %s;" % (o, off if oty == "usize" else "i2u(%s)" % off))
                    splits.append((p.var, p, t, o, pm))
                    temps.append(("v", ("&mut " if pm == "mut" else "&") + t))
                    continue
                p = i
                if pm == "ref":
                    temps.append(("r", p))
                else:
                    if all(x[0] == "f" for x in p.projs) and p.ty.r in ("i32", "F64", "bool", "usize") and pt == "Vec<%s>" % p.ty.r:
                        # &x for a pointer parameter: a one-element array
                        t = self.fresh("_a")
                        self.s("let mut %s: %s = Vec::new();" % (t, pt))
                        self.s("push(&mut %s, %s);" % (t, self.read(p)))
                        temps.append(("v", "&mut " + t))
                        post.append((p, "ld(&%s, 0i32)" % t))
                    elif all(x[0] == "f" for x in p.projs):
                        temps.append(("m", p))
                    else:
                        # element passed by reference: copy in, call, copy out
                        p = self.freeze(p)
                        t = self.fresh("_a")
                        self.s("let mut %s: %s = %s;" % (t, p.ty.r, self.read(p)))
                        temps.append(("v", "&mut " + t))
                        post.append((p, t))
        if len(real) != len(params):
            raise ExtractError("arity of call to %s" % info["rust"])
        strs = []
        for t in temps:
            if t[0] == "v":
                strs.append(t[1])
            elif t[0] == "r":
                p = t[1]
                clash = any(x[0] == "m" and x[1].var is p.var and not (p.projs and x[1].projs and p.projs != x[1].projs) for x in temps)
                if clash:
                    raise ExtractError("aliasing arguments in call to %s (line %s)" % (info["rust"], self.line))
                strs.append(self.refexpr(p))
            else:
                strs.append(self.mutexpr(t[1]))
        # several parts of one array: it is cut at the last part first (each cut needs the offsets to be in ascending order)
        for z, (v, p, t, o, pm) in reversed(list(enumerate(splits))):
            others = any(x[0] is v for y, x in enumerate(splits) if y != z) or any(x[0] == "m" and x[1].var is v for x in temps)
            if pm == "mut" or others:
                self.s("let mut %s = cut_off(%s, %s);" % (t, self.mutexpr(p), o))
            else:
                self.s("let %s = cut_copy(%s, %s);" % (t, self.refexpr(p), o))
        for v, p, t, o, pm in splits:
            others = any(x[0] is v and x[2] != t for x in splits) or any(x[0] == "m" and x[1].var is v for x in temps)
            if pm == "mut" or others:
                post.append((None, "join_on(%s, %s);" % (self.mutexpr(p), t)))
        self.callees.append(info["rust"])
        c = "%s(%s)" % (info["rust"], ", ".join(strs))
        if info["ret"] == "()":
            self.s(c + ";")
            res = "()"
        else:
            t = self.fresh("_r")
            self.s("let %s: %s = %s;" % (t, info["ret"], c))
            res = t
        for p, t in post:
            if p is None:
                self.s(t)
                continue
            self.store(p, t if not p.ty.r.startswith("Vec") else t)
        return res

    def inline(self, d, args, n):
        ps = [c for c in kids(d) if c.get("kind") == "ParmVarDecl"]
        body = [c for c in kids(d) if c.get("kind") == "CompoundStmt"][0]
        rq = d["type"]["qualType"]
        rty = parse_type(rq[:rq.index("(")].strip())
        if rty.r == "TIMER":
            rty = Ty("()")
        self.inline_stack.append(d["name"])
        self.inline_depth += 1
        self.inlined.append(d["name"])
        sub = []
        saveline = self.line
        try:
            for p, a in zip(ps, args):
                ty = tyof(p)
                q = p["type"]["qualType"]
                isptr = q.rstrip().endswith("*") or q.rstrip().endswith("*const") or "*" in q
                isref = "&" in q
                if a.get("kind") == "CXXDefaultArgExpr":
                    init = kids(p)
                    if not init:
                        raise ExtractError("default argument")
                    a = init[-1]
                if isptr and self.is_null(strip(a)):
                    v = self.declare(p, ty, "own")
                    self.s("let mut %s: %s = Vec::new();" % (v.rust, ty.r))
                elif isptr or (isref and not (ty.const and strip(a).get("kind") not in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "CXXOperatorCallExpr"))):
                    pl = self.ptrplace(a)
                    if isinstance(pl, tuple):
                        raise ExtractError("pointer offset passed to inlined %s" % d["name"])
                    self.declare(p, ty, "alias", alias=self.freeze(pl))
                else:
                    e = self.moveval(a)
                    v = self.declare(p, ty, "own")
                    self.s("let mut %s: %s = %s;" % (v.rust, ty.r, e))
            saveret, savebody = self.ret, self.curbody
            self.ret, self.curbody = rty, body
            stmts = self.block(body)
            self.ret, self.curbody = saveret, savebody
        finally:
            self.inline_depth -= 1
            self.inline_stack.pop()
        self.line = saveline
        res = "()"
        rv = None
        if rty.r != "()":
            rv = self.fresh("_r")
            res = rv
            if rty.r in INTS + ("bool", "F64"):
                self.s("let mut %s: %s = arb_%s();" % (rv, rty.r, rty.r.lower()))
            else:
                self.s("let mut %s: %s = Vec::new();" % (rv, rty.r) if rty.r.startswith("Vec") else "let mut %s: %s = arb_%s();" % (rv, rty.r, rty.r.lower()))
        st = tail_returns(stmts, rv)
        self.pre.append(("block", st, self.line))
        return res


def strip_fn(n):
    n = strip(n)
    while n.get("kind") == "ImplicitCastExpr":
        n = strip(kids(n)[0])
    return n.get("referencedDecl", {})


def tname(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


def zero(et):
    if et == "bool":
        return "false"
    if et == "F64":
        return "f64_zero()"
    return "0" + et


def elem(ty):
    if not ty.r.startswith("Vec<"):
        raise ExtractError("indexing a %s" % ty.r)
    return Ty(ty.r[4:-1])


def newfn(ty, init):
    e = ty.r[4:-1]
    if e.startswith("Vec"):
        return "new_vv"
    return "new_%s_%s" % ("zero" if init else "arb", e.lower())


def has_return(st):
    for s in st:
        if s[0] == "ret":
            return True
        if s[0] == "if" and (has_return(s[2]) or has_return(s[3])):
            return True
        if s[0] == "loop" and (has_return(s[2]) or has_return(s[3])):
            return True
        if s[0] == "block" and has_return(s[1]):
            return True
    return False


def tail_returns(st, rv):
    """rewrite a statement list whose returns are in tail position so it assigns rv instead"""
    out = []
    i = 0
    while i < len(st):
        s = st[i]
        rest = st[i + 1:]
        if s[0] == "ret":
            if rv is not None and s[1] is not None:
                out.append(("s", "%s = %s;" % (rv, s[1]), s[2]))
            return out
        if s[0] == "if" and has_return([s]):
            th, el = s[2], s[3]
            th_r, el_r = ends_ret(th), ends_ret(el)
            if th_r and not has_return(el):
                out.append(("if", s[1], tail_returns(th, rv), tail_returns(el + rest, rv), s[4]))
                return out
            if el_r and not has_return(th):
                out.append(("if", s[1], tail_returns(th + rest, rv), tail_returns(el, rv), s[4]))
                return out
            if th_r and el_r:
                out.append(("if", s[1], tail_returns(th, rv), tail_returns(el, rv), s[4]))
                return out
            out.append(("if", s[1], tail_returns(th + rest, rv), tail_returns(el + rest, rv), s[4]))
            return out
        if s[0] == "block" and has_return([s]):
            if not rest:
                out.append(("block", tail_returns(s[1], rv), s[2]))
                return out
            return out + tail_returns(s[1] + rest, rv)
        if s[0] == "loop" and has_return([s]):
            raise ExtractError("return inside a loop of an inlined function")
        out.append(s)
        i += 1
    return out


def ends_ret(st):
    if not st:
        return False
    s = st[-1]
    if s[0] in ("ret", "diverge"):
        return True
    if s[0] == "block":
        return ends_ret(s[1])
    if s[0] == "if":
        return bool(s[3]) and ends_ret(s[2]) and ends_ret(s[3])
    return False
