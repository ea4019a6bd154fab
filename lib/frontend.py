"""Program loader: runs afdo-extract over /repo's *current* sources and builds
an in-memory program model (functions with typed syntax trees and CFGs,
records, enums, globals).  Nothing here is specific to a property."""
import glob, hashlib, json, os, re, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AFDO_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(BUILD, "afdo-extract")

# Translation units that cannot be parsed even upstream: they include
# llvm_propeller_abstract_whole_program_info.h, which the repository does not
# contain, and no build target lists them.
DEAD_INCLUDE = "llvm_propeller_abstract_whole_program_info.h"

# Units that exist only in the GCOV tool configuration (HAVE_LLVM undefined).
GCOV_ONLY = ("legacy_addr2line.cc", "create_gcov.cc", "dump_gcov.cc")


class AnalysisBroken(Exception):
    pass


class Node(dict):
    __slots__ = ("parent", "fn")

    def __getattr__(self, k):
        return self.get(k)

    @property
    def ch(self):
        return self.get("c") or ()

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


def _hook(d):
    return Node(d)


def build_tool():
    src = os.path.join(VERIF, "tool", "extract.cc")
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["make", "-s", "-C", os.path.join(VERIF, "tool"), "OUT=" + BUILD],
                       capture_output=True, text=True)
    if r.returncode or not os.path.exists(TOOL):
        raise AnalysisBroken("cannot build afdo-extract: " + r.stderr[-2000:])


def gen_protos(tmp):
    pb = os.path.join(tmp, "pb")
    os.makedirs(pb, exist_ok=True)
    for p in glob.glob(os.path.join(REPO, "*.proto")):
        r = subprocess.run(["protoc", "-I" + REPO, "--cpp_out=" + pb, p], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("protoc failed on %s: %s" % (p, r.stderr[-500:]))
    return pb


def all_units():
    """Every non-test translation unit of the repository."""
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "*.cc")) +
                    glob.glob(os.path.join(REPO, "util", "**", "*.cc"), recursive=True) +
                    glob.glob(os.path.join(REPO, "base", "**", "*.cc"), recursive=True)):
        b = os.path.basename(f)
        if b.endswith("_test.cc") or b.endswith("_testutil.cc") or "_mock_" in b or b.endswith("_matchers.cc"):
            continue
        with open(f, errors="replace") as fh:
            txt = fh.read()
        if DEAD_INCLUDE in txt:
            continue
        out.append(os.path.relpath(f, REPO))
    return out


def _flags(tmp, pb, unit):
    fl = ["-std=c++20", "-w", "-Wno-c++11-narrowing", "-ferror-limit=3", "-DVERIF_STD_SV"]
    if os.path.basename(unit) not in GCOV_ONLY:
        fl.append("-DHAVE_LLVM=1")
    fl += ["-I" + os.path.join(VERIF, "overlay"), "-I" + os.path.join(tmp, "inc"), "-I" + REPO,
           "-I" + os.path.join(REPO, "util"), "-I" + pb, "-isystem", "/usr/lib/llvm-20/include",
           "-include", os.path.join(VERIF, "overlay", "prelude.h")]
    return fl


def _tree(root, pats):
    out = {}
    for pat in pats:
        for f in glob.glob(os.path.join(root, pat), recursive=True):
            if os.path.isfile(f):
                with open(f, "rb") as fh:
                    out[os.path.relpath(f, root)] = fh.read()
    return out


_INC = re.compile(rb'^[ \t]*#[ \t]*(?:include|include_next|import)\b[ \t]*(?:["<]([^">\n]+)[">])?', re.M)


class Inputs:
    """What each translation unit is extracted from: itself and everything it
    may include (by name, transitively, whatever the preprocessor decides), the
    overlay, the tool, the flags."""

    def __init__(self):
        self.files = _tree(REPO, ("*.cc", "*.h", "*.inc", "*.def", "base/**/*", "util/**/*"))
        h = hashlib.sha256()
        for root, pats in ((os.path.join(VERIF, "overlay"), ("**/*",)), (REPO, ("*.proto",)), (os.path.join(VERIF, "tool"), ("extract.cc",))):
            for f, b in sorted(_tree(root, pats).items()):
                h.update(repr((f, hashlib.sha256(b).hexdigest())).encode())
        self.common = h.hexdigest()
        self.digest = {f: hashlib.sha256(b).hexdigest() for f, b in self.files.items()}
        self.byname = {}
        for f in self.files:
            self.byname.setdefault(os.path.basename(f), []).append(f)
        self.incs = {}
        for f, b in self.files.items():
            s = set()
            for m in _INC.finditer(b):
                if m.group(1) is None:
                    s = set(self.files)
                    break
                s |= set(self.byname.get(os.path.basename(m.group(1).decode(errors="replace")), []))
            self.incs[f] = s
        # what the overlay's headers may pull in
        self.over = set()
        for f, b in _tree(os.path.join(VERIF, "overlay"), ("**/*",)).items():
            for m in _INC.finditer(b):
                if m.group(1):
                    self.over |= set(self.byname.get(os.path.basename(m.group(1).decode(errors="replace")), []))

    def key(self, unit):
        seen, wl = set(), [unit] + sorted(self.over)
        while wl:
            f = wl.pop()
            if f in seen or f not in self.files:
                continue
            seen.add(f)
            wl += self.incs[f]
        h = hashlib.sha256(repr((self.common, _flags("T", "P", unit)[1:], sorted((f, self.digest[f]) for f in seen))).replace(REPO, "R").encode())
        return h.hexdigest()[:24]


def extract(units):
    build_tool()
    # Extraction results are cached by the hash of all inputs of a unit (its
    # source, everything it may include, overlay, tool); a changed source misses.
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    old = sorted((os.path.join(cache, f) for f in os.listdir(cache)), key=lambda p: os.path.getmtime(p) if os.path.exists(p) else 0)
    for p in old[:max(0, len(old) - 900)]:
        try:
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        except OSError:
            pass
    inputs = Inputs()
    tmp = tempfile.mkdtemp(prefix="afdo-", dir=BUILD)
    try:
        os.makedirs(os.path.join(tmp, "inc", "third_party", "abseil"))
        os.symlink("/usr/include/absl", os.path.join(tmp, "inc", "third_party", "abseil", "absl"))
        todo = []
        outs = {}
        for u in units:
            o = os.path.join(cache, u.replace("/", "__") + "-" + inputs.key(u) + ".json")
            outs[u] = o
            if not os.path.exists(o):
                todo.append(u)
        if todo:
            pb = gen_protos(tmp)

            def one(u):
                t = os.path.join(tmp, u.replace("/", "__") + ".json")
                r = subprocess.run([TOOL, "--root=" + REPO, "--out=" + t, os.path.join(REPO, u), "--"] +
                                   _flags(tmp, pb, u), capture_output=True, text=True, cwd=REPO)
                if r.returncode or not os.path.exists(t):
                    return "%s: %s" % (u, r.stderr[-1500:])
                os.replace(t, outs[u])
                return None

            with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
                errs = [e for e in ex.map(one, todo) if e]
            if errs:
                raise AnalysisBroken("cannot parse translation unit(s):\n" + "\n".join(errs))
        return outs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Block:
    __slots__ = ("id", "elems", "term", "tk", "cond", "label", "succ", "pred", "noret", "tdb")


class Function:
    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.key = d["key"]
        self.q = d["q"]
        self.name = d["n"]
        self.file = d["file"]
        self.line = d["line"]
        self.params = d["params"]
        self.body = d.get("body")
        self.inits = d.get("inits") or []
        self.cls = d.get("cls")
        self.parent = d.get("parent")
        self._nodes = None
        self._blocks = None
        self._vars = None

    def __repr__(self):
        return "<%s %s:%d>" % (self.q, self.file, self.line)

    def where(self, n=None):
        return "%s:%d" % (self.file, (n or {}).get("l") or self.line)

    def _index(self):
        self._nodes = {}
        for i in self.inits:
            i.parent = None
            i.fn = self
            self._nodes.setdefault(i["i"], i)
            self._walk(i.get("init"), i)
        self._walk(self.body, None)

    def _walk(self, n, parent):
        if not isinstance(n, Node):
            return
        st = [(n, parent)]
        while st:
            x, p = st.pop()
            x.parent = p
            x.fn = self
            if "i" in x:
                self._nodes.setdefault(x["i"], x)
            for k in subnodes(x):
                st.append((k, x))

    @property
    def nodes(self):
        if self._nodes is None:
            self._index()
        return self._nodes

    @property
    def vars(self):
        """declaration id -> VarDecl node"""
        if self._vars is None:
            self._vars = {}
            for x in self.walk():
                if x.k == "VarDecl":
                    self._vars[x.d] = x
        return self._vars

    def walk(self):
        """All nodes of the function (pre-order, no lambda bodies)."""
        self.nodes
        st = [i for i in reversed(self.inits)]
        if isinstance(self.body, Node):
            st.insert(0, self.body)
        while st:
            x = st.pop()
            yield x
            st.extend(reversed(list(subnodes(x))))

    @property
    def blocks(self):
        if self._blocks is None:
            self._blocks = {}
            c = self.d.get("cfg")
            if c:
                nd = self.nodes
                for b in c["blocks"]:
                    B = Block()
                    B.id = b["b"]
                    B.elems = [nd.get(e) if isinstance(e, int) else e for e in b["e"]]
                    B.elems = [e for e in B.elems if e is not None]
                    B.term = nd.get(b.get("term"))
                    B.tk = b.get("tk")
                    B.cond = nd.get(b.get("cond"))
                    B.label = nd.get(b.get("label"))
                    B.noret = bool(b.get("noret")) or any(
                        e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and
                        (e.cls or "").split("::")[-1].endswith("Fatal") for e in B.elems)
                    B.tdb = bool(b.get("tdb"))
                    B.succ = b["s"]
                    B.pred = []
                    self._blocks[B.id] = B
                for B in self._blocks.values():
                    for s in B.succ:
                        if s is not None and not B.noret:
                            self._blocks[s].pred.append(B.id)
        return self._blocks

    @property
    def entry(self):
        return self.d["cfg"]["entry"] if self.d.get("cfg") else None

    @property
    def exit(self):
        return self.d["cfg"]["exit"] if self.d.get("cfg") else None


_EXTRA = ("init", "var", "range", "cvar", "lhs", "rhs", "ctor", "size", "bind")


def subnodes(x):
    for k in _EXTRA:
        v = x.get(k)
        if isinstance(v, Node):
            yield v
    for v in x.get("bindings") or ():
        w = v.get("init")
        if isinstance(w, Node):
            yield w
    for v in x.get("caps") or ():
        w = v.get("init")
        if isinstance(w, Node):
            yield w
    for v in x.get("desugar") or ():
        if isinstance(v, Node):
            yield v
    for v in x.get("c") or ():
        if isinstance(v, Node):
            yield v


def walk(n):
    if not isinstance(n, Node):
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(list(subnodes(x))))


class Program:
    def __init__(self, units):
        self.units = list(units)
        outs = extract(self.units)
        self.functions = []
        self.by_key = {}
        self.by_q = {}
        self.alt = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.lambdas = {}
        import gc
        gc.disable()
        for u in self.units:
            if not os.path.exists(outs[u]):      # evicted by another run
                outs[u] = extract([u])[u]
            with open(outs[u]) as fh:
                d = json.load(fh, object_hook=_hook)
            for f in d["functions"]:
                k = f["key"]
                if f.get("internal") or k.startswith("lambda@") is False and f["q"].startswith("main"):
                    k = k  # internal functions may repeat across units
                kk = (k, f["file"], f["line"])
                if kk in self.by_key:
                    if os.path.basename(u) in GCOV_ONLY and os.path.basename(self.by_key[kk].tu) not in GCOV_ONLY and kk not in self.alt:
                        self.alt[kk] = Function(f, u)     # as compiled without LLVM
                    continue
                F = Function(f, u)
                self.by_key[kk] = F
                self.functions.append(F)
                self.by_q.setdefault(F.q, []).append(F)
                if k.startswith("lambda@"):
                    self.lambdas.setdefault(k.split("(")[0], []).append(F)
            for r in d["records"]:
                self.records.setdefault(r["t"], r)
            for e in d["enums"]:
                self.enums.setdefault(e["q"], e)
            for g in d["globals"]:
                self.globals.setdefault(g["q"], g)
        gc.enable()
        self._bykey1 = {}
        for (k, _, _), F in self.by_key.items():
            self._bykey1.setdefault(k, []).append(F)
        self.overriders = {}
        for F in self.functions:
            for o in F.d.get("over") or ():
                self.overriders.setdefault(o, []).append(F)

    def callee(self, call, caller=None):
        """Function definition(s) a call may reach (direct + overriders)."""
        fk = call.get("fk")
        if not fk:
            return []
        c = self._bykey1.get(fk, [])
        if len(c) > 1 and caller is not None:
            same = [f for f in c if f.file == caller.file]
            if same:
                c = same
        if call.get("virt"):
            c = list(c) + self.all_overriders(fk)
        return c

    def all_overriders(self, k):
        out = []
        for F in self.overriders.get(k, ()):
            out.append(F)
            out += self.all_overriders(F.key)
        return out

    def record_q(self, q):
        return [r for r in self.records.values() if r["q"] == q]


_prog = {}


def program(units=None):
    units = tuple(units) if units else tuple(all_units())
    if units not in _prog:
        _prog[units] = Program(units)
    return _prog[units]
