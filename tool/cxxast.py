"""Reads the clang AST (JSON) of one of /repo's translation units, with the flags of the real build."""
import json, subprocess, os, re, sys

FLAGS = ["-std=gnu++11", "-fsyntax-only", "-w", "-DMETIS", "-DNDEBUG"]


class ExtractError(Exception):
    pass


_cache = {}


def load(repo, src, ns):
    """All function definitions of namespace `ns` seen by translation unit `src`: list of AST nodes.
    Every node gets '_line' (source line) where clang gives one."""
    key = (repo, src, ns)
    if key in _cache:
        return _cache[key]
    cmd = ["clang++"] + FLAGS + ["-I" + repo + "/include", "-I" + repo + "/include/aggregation",
                                 "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + ns, src]
    out = subprocess.run(cmd, cwd=repo, capture_output=True, text=True)
    if out.returncode != 0:
        raise ExtractError("clang failed on %s: %s" % (src, out.stderr[:800]))
    s = out.stdout
    dec = json.JSONDecoder()
    i = 0
    docs = []
    while i < len(s):
        while i < len(s) and s[i].isspace():
            i += 1
        if i >= len(s):
            break
        o, i = dec.raw_decode(s, i)
        docs.append(o)
    funcs = []
    records = {}
    recid = {}
    seen = set()
    state = {"file": None, "line": None}

    def upd(loc):
        if not isinstance(loc, dict):
            return
        if "spellingLoc" in loc:
            loc = loc["expansionLoc"]
        if "file" in loc:
            state["file"] = loc["file"]
        if "line" in loc:
            state["line"] = loc["line"]

    def setlines(n):
        # clang prints file/line only when they change, in textual order of the dump
        upd(n.get("loc"))
        r = n.get("range")
        b = None
        if isinstance(r, dict):
            upd(r.get("begin"))
            b = state["line"]
            upd(r.get("end"))
        n["_line"] = b
        n["_file"] = state["file"]
        for c in n.get("inner", []):
            if isinstance(c, dict):
                setlines(c)

    def walk(n, cls):
        k = n.get("kind")
        if k == "CXXRecordDecl":
            recid[n["id"]] = n.get("name")
            if n.get("completeDefinition"):
                records[n.get("name")] = n
            for c in n.get("inner", []):
                if isinstance(c, dict):
                    walk(c, n.get("name"))
            return
        if k == "FunctionTemplateDecl":
            for c in n.get("inner", []):
                if isinstance(c, dict) and c.get("kind") == "FunctionDecl" and any(x.get("kind") == "TemplateArgument" for x in c.get("inner", [])):
                    walk(c, cls)
            return
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
            if any(c.get("kind") == "CompoundStmt" for c in n.get("inner", [])) and not n.get("isImplicit"):
                if n["id"] not in seen:
                    seen.add(n["id"])
                    n["_cls"] = cls or recid.get(n.get("parentDeclContextId"))
                    funcs.append(n)
            return
        if k in ("NamespaceDecl", "LinkageSpecDecl", "TranslationUnitDecl"):
            for c in n.get("inner", []):
                if isinstance(c, dict):
                    walk(c, cls)

    for d in docs:
        setlines(d)
        walk(d, None)
    _cache[key] = (funcs, records)
    return _cache[key]


def find(repo, src, ns, name, sig=None, cls=None):
    funcs, _ = load(repo, src, ns)
    c = [f for f in funcs if f["name"] == name and (cls is None or f["_cls"] == cls)]
    if sig:
        c = [f for f in c if sig in f["type"]["qualType"]]
    if not c:
        raise ExtractError("no definition of %s::%s in %s" % (ns, name, src))
    if len(c) > 1:
        raise ExtractError("ambiguous %s::%s in %s: %s" % (ns, name, src, [f["type"]["qualType"] for f in c]))
    return c[0]
