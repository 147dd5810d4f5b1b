"""Emission of a translated function with its contract, loop invariants and proof text spliced in."""
import re
from cxxast import ExtractError


class Contract:
    def __init__(self, path):
        self.path = path
        self.head = {}
        self.sect = {}
        self.order = []
        cur = None
        for ln, line in enumerate(open(path), 1):
            if line.startswith("@"):
                parts = line[1:].rstrip("\n").split(None, 1)
                key = parts[0]
                rest = parts[1].strip() if len(parts) > 1 else ""
                if key in ("unit", "src", "ns", "name", "sig", "props", "uses", "callee", "opts", "rlimit", "note", "kind", "cls"):
                    if key in ("callee", "note"):
                        self.head.setdefault(key, []).append(rest)
                    else:
                        self.head[key] = rest
                    cur = None
                else:
                    k = key + ((" " + rest) if rest else "")
                    cur = k
                    if k in self.sect:
                        raise ExtractError("duplicate section %s in %s" % (k, path))
                    self.sect[k] = []
                    self.order.append(k)
            elif cur is not None:
                self.sect[cur].append((ln, line.rstrip("\n")))
        self.unit = self.head["unit"]

    def get(self, k):
        return [t for t in self.sect.get(k, []) if t[1].strip() and not t[1].strip().startswith("//")]


class Emitter:
    def __init__(self, unit, contract, srcfile):
        self.unit, self.c, self.srcfile = unit, contract, srcfile
        self.lines = []   # (text, origin)
        self.loopno = []
        self.used = set()
        self.nob = 0
        self.loops = []

    def put(self, text, origin=None, ind=0):
        self.lines.append(("    " * ind + text, origin))

    def putsec(self, key, ind):
        if self.c is None or key not in self.c.sect:
            return False
        self.used.add(key)
        for ln, t in self.c.sect[key]:
            self.put(t.strip(), ("contract", ln, key), ind)
        return True

    def body(self, st, ind):
        self.counter = [0]
        self.path = []
        self.conts = []
        self.top = True
        self.putsec("entry", ind)
        self.stmts(st, ind)
        if not ends_diverge(st):
            self.putsec("exit", ind)

    def stmts(self, st, ind):
        for s in st:
            k = s[0]
            if k == "s":
                org = ("src", s[2])
                self.anchor("before", s[1], ind)
                self.put(s[1], org, ind)
                self.anchor("after", s[1], ind)
            elif k == "block":
                if self.lines and self.lines[-1][0].strip() == "}":
                    self.put(";", None, ind)
                self.put("{", None, ind)
                self.stmts(s[1], ind + 1)
                self.put("}", None, ind)
            elif k == "if":
                self.anchor("before", "if " + s[1], ind)
                self.put("if %s {" % s[1], ("src", s[4]), ind)
                self.anchor("then", s[1], ind + 1)
                self.stmts(s[2], ind + 1)
                if s[3] or (self.c is not None and any(o.startswith("else ") for o in self.c.order)):
                    self.put("} else {", None, ind)
                    self.anchor("else", s[1], ind + 1)
                    self.stmts(s[3], ind + 1)
                self.put("}", None, ind)
                self.anchor("after", "if " + s[1], ind)
            elif k == "loop":
                self.counter[-1] += 1
                self.path.append(str(self.counter[-1]))
                lid = ".".join(self.path)
                self.counter.append(0)
                self.loops.append(lid)
                self.putsec("pre " + lid, ind)
                self.put("while %s" % s[1], ("src", s[4]), ind)
                self.putsec("loop " + lid, ind + 1)
                self.put("{", None, ind)
                self.putsec("head " + lid, ind + 1)
                self.conts.append((s[3], lid))
                self.stmts(s[2], ind + 1)
                self.conts.pop()
                if not ends_diverge(s[2]):
                    self.putsec("tail " + lid, ind + 1)
                    self.stmts(s[3], ind + 1)
                    self.putsec("end " + lid, ind + 1)
                self.put("}", None, ind)
                self.counter.pop()
                self.path.pop()
                self.putsec("post " + lid, ind)
            elif k == "brk":
                self.putsec("break " + self.conts[-1][1], ind)
                self.put("break;", ("src", s[1]), ind)
            elif k == "cont":
                inc, lid = self.conts[-1]
                self.putsec("tail " + lid, ind)
                self.stmts(inc, ind)
                self.putsec("end " + lid, ind)
                self.put("continue;", ("src", s[1]), ind)
            elif k == "ret":
                if getattr(self, "probe", None) == "exit" and (ind == 1 or self.probe_all):
                    self.put("assert(false);", ("probe", "exit"), ind)
                if self.c is not None and "exit" in self.c.sect:
                    if s[1] is not None:
                        self.put("let _res = %s;" % s[1], ("src", s[2]), ind)
                        self.putsec("exit", ind)
                        self.put("return _res;", ("src", s[2]), ind)
                    else:
                        self.putsec("exit", ind)
                        self.put("return;", ("src", s[2]), ind)
                else:
                    self.put("return%s;" % (" " + s[1] if s[1] else ""), ("src", s[2]), ind)
            elif k == "diverge":
                pass
            else:
                raise ExtractError("emit " + k)

    def anchor(self, kind, text, ind):
        if self.c is None:
            return
        for key in self.c.order:
            if key.startswith(kind + " "):
                pat = key[len(kind) + 1:]
                if re.fullmatch(pat, text) or (pat == text):
                    self.putsec(key, ind)


def ends_diverge(st):
    if not st:
        return False
    s = st[-1]
    if s[0] in ("ret", "brk", "cont", "diverge"):
        return True
    if s[0] == "block":
        return ends_diverge(s[1])
    if s[0] == "if":
        return bool(s[3]) and ends_diverge(s[2]) and ends_diverge(s[3])
    if s[0] == "loop":
        return s[1] == "true" and not has_break(s[2])
    return False


def has_break(st):
    """a break that leaves the loop this body belongs to"""
    for s in st:
        if s[0] == "brk" or s[0] == "block" and has_break(s[1]) or s[0] == "if" and (has_break(s[2]) or has_break(s[3] or [])):
            return True
    return False


def last_loop(st):
    while st and st[-1][0] == "block":
        st = st[-1][1]
    return bool(st) and st[-1][0] == "loop"
