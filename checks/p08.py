"""Every level of an inline stack names the right function, place and call site."""
import vn
from vn import K, atom, add, Interp
from core import Result
from dwarf import *
from ir import strip
from checks.p03 import logic
from checks.p06 import ctor_members, subst
from checks import p07

REC = NS + "SubprogramInfo"
NAMES = set()
OPAQUE = ("GetSubprogramForAddress", "GetDeclaration", "GetAbstractOrigin")


def names(prog, r):
    """fields the record's name comes from: what a name attribute is stored in"""
    types = {f["n"]: f for rec in prog.record_q(REC) for f in rec.get("fields", [])}
    out = {m for m, f in types.items() if "basic_string" in (f.get("ct") or f.get("t") or "") or (f.get("t") or "").endswith("string")}
    r.require(bool(out), "name field")
    NAMES.update(out)


def record_roles(prog, r):
    """field roles of a function record: what the handler stores (P07), and what
    its constructor is given when a DIE starts"""
    roles = dict(p07.check(prog, "quick").roles)
    ms = methods(prog, p07.HANDLER)
    F = one([F for F in ms if F.q.endswith("::StartDIE")], "StartDIE")
    for tag, inl in ((p07.SUB, 0), (p07.INL, 1)):
        for nested in (False, True):
            built, calls = [], []

            def hook(ip, n, av, st, fr):
                if n.cls == REC:
                    built.append((n.get("fk"), tuple(av), n))
                return None

            def icpt(ip, n, fname, av, st, fr):
                if fname.startswith("std::vector") and short(n) == "empty" and "SubprogramInfo" in (n.f or ""):
                    return K(int(not nested))
                if fname.startswith("std::vector") and short(n) == "size" and "SubprogramInfo" in (n.f or ""):
                    return K(int(nested))
                calls.append((short(n), tuple(av), n, fname))
                return None
            ip = Interp(prog, intercept=icpt, assume=lambda v: logic(v, lambda x: flagoff(x)))
            ip.ctor_hook = hook
            vn.run(ip, F, params={F.params[1]["n"]: K(tag)})
            r.count(obligations=1)
            if len({b[2].i for b in built}) != 1:
                r.add("%s|new record" % F.q, F.where(), "%s: a %s DIE does not start exactly one function record" % (F.q, "nested" if nested else "top-level"))
                continue
            key, av, n = built[-1]
            C, mem = ctor_members(prog, key)
            env = {p["n"]: a for p, a in zip(C.params, av)}
            val = {}
            for loc, v in mem.items():
                if loc[0] == 'f' and loc[1] == ('o', 'this'):
                    w = subst(v, env)
                    if w is not None:
                        val[loc[2]] = w
            types = {f["n"]: f for rec in prog.record_q(REC) for f in rec.get("fields", [])}
            ptr = [m for m, f in types.items() if "SubprogramInfo" in (f.get("t") or "")]
            off = [m for m, v in val.items() if v == atom(('param', 64, False, F.params[0]["n"]))]
            r.require(len(ptr) == 1, "parent field")
            roles["parent"] = ptr[0]
            par = val.get(ptr[0])
            r.count(obligations=3)
            if not nested and par != K(0):
                r.add("%s|parent" % F.q, F.where(n), "%s: an outermost function gets a parent" % F.q)
            if nested and not (par is not None and depends(par, lambda a: a[0] == 'callw' and str(a[3]).endswith("::back"))):
                r.add("%s|parent" % F.q, F.where(n), "%s: the parent of a nested function is not the innermost open one" % F.q)
            if len(off) != 1:
                r.add("%s|offset" % F.q, F.where(n), "%s: the record is not started at the offset of its DIE" % F.q)
            params = {k: v for k, v in mem.items() if k[0] == 'f' and k[1] == ('o', 'this') and v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0][0] == 'param'}
            flags = [loc[2] for loc, v in params.items() if v[2][0][0][1] == 1]
            r.require(len(flags) == 1, "inlined field")
            roles["inlined"] = flags[0]
            if val[flags[0]] != K(inl):
                r.add("%s|inlined" % F.q, F.where(n), "%s: a DIE with tag 0x%x is recorded as %s" % (F.q, tag, "inlined" if val[flags[0]] == K(1) else "not inlined or not decided by its tag"))
            files = [loc[2] for loc, v in params.items() if v[2][0][0][1] == 32]
            if len(files) == 1:
                roles["file_index"] = files[0]
                w = val[files[0]]
                if not (w[0] == 'lin' and w[1] == 0 and len(w[2]) == 1 and w[2][0][1] == 1 and w[2][0][0][0] == 'init' and w[2][0][0][3][:2] == ('f', ('o', 'this'))):
                    r.add("%s|file" % F.q, F.where(n), "%s: the record is not tied to the file being read" % F.q)
            obj = [i for nm, a, c, f in calls for i in [a] if nm in ("push_back", "emplace_back") and "SubprogramInfo" in (c.f or "")]
            ins = [a for nm, a, c, f in calls if nm in ("insert", "emplace") and "SubprogramInfo" in (c.f or "")]
            r.count(obligations=2)
            if not obj:
                r.add("%s|stack" % F.q, F.where(n), "%s: the new record does not become the innermost open function" % F.q)
            if not any(depends(a, lambda t: t == ('param', 64, False, F.params[0]["n"])) for a in ins):
                r.add("%s|index" % F.q, F.where(n), "%s: the record cannot be found by the offset of its DIE" % F.q)
    return roles


def flagoff(v):
    """no two-level line table, a compilation directory is known"""
    if v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0][0] == 'init' and v[2][0][0][1] == 1:
        return False
    return None


def field(v):
    """(base pointer value, field) if v is a field of a record"""
    if v[0] == 'lin' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        a = v[2][0][0]
        loc = a[3] if a[0] in ('init',) else None
        if a[0] == 'load' and a[3][0] == 'addr':
            loc = a[3][1]
        if loc and loc[0] == 'f' and loc[1][0] == '*':
            return norm(loc[1][1]), loc[2]
    return None, None


def norm(v):
    """a loop variable is the same one in every block of its loop"""
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 'phi':
            return ('phi', 0) + tuple(v[2:])
        return tuple(norm(x) for x in v)
    return v


def call_on(v, name):
    """argument of an opaque record lookup"""
    if v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0][0] == 'callw' and str(v[2][0][0][3]).endswith("::" + name):
        return norm(v[2][0][0][5][0]) if v[2][0][0][5] else K(0)
    return None


class Stack:
    """GetInlineStack under one assumption about which start lines are known"""

    def __init__(self, prog, F, roles, zero):
        self.roles, self.zero = roles, zero
        self.frames, self.pushes, self.stores, self.found = [], [], [], []
        ip = Interp(prog, intercept=self.intercept, assume=lambda v: logic(v, self.leaf))
        ip.ctor_hook = self.ctor
        orig = ip.store

        def store(st, loc, v):
            self.stores.append((loc, v))
            orig(st, loc, v)
        ip.store = store
        self.ip = ip
        vn.run(ip, F)

    def ctor(self, ip, n, av, st, fr):
        if (n.cls or "").endswith("SourceInfo") and len(av) >= 5:
            m = source_info(self.ip.prog, n.get("fk"), len(av), av)
            if m:
                self.frames.append(((n.i, fr), n, m))
            return atom(('frame', n.i, fr))
        if len(av) == 1 and (n.cls or "").split("::")[-1] in ("path",):
            return av[0]
        if av and (n.cls or "").split("<")[0].endswith("basic_string"):
            return av[0]
        return None

    def intercept(self, ip, n, fname, av, st, fr):
        nm = short(n)
        if nm in OPAQUE:
            return atom(('callw', 64, False, fname, None, tuple(av)))
        if nm in ("c_str", "data") and n.ch and n.ch[0].k == "MemberExpr" and n.ch[0].ch:
            return ip.val(st, n.ch[0].ch[0], fr)
        if n.k == "CXXOperatorCallExpr" and n.op in ("--", "++") and len(n.ch) > 1:
            loc = ip.lval(st, n.ch[1], fr)
            v = atom(('sym', 'step' + n.op, av[0]))
            ip.store(st, loc, v)
            return ('lref', loc) if len(av) == 1 else av[0]
        if n.k == "CXXOperatorCallExpr" and n.op == "=" and len(av) == 2:
            loc = ip.lval(st, n.ch[1], fr)
            ip.store(st, loc, av[1])
            return ('lref', loc)
        if fname in ("std::prev", "std::next") and len(av) == 1 or fname in ("std::prev", "std::next") and av[1] == K(1):
            return atom(('sym', 'step--' if nm == "prev" else 'step++', av[0]))
        if nm == "emplace_back" and "SourceInfo" in (n.f or "") and len(av) >= 5:
            m = source_info(self.ip.prog, None, len(av), av)
            if m:
                self.frames.append(((n.i, fr), n, m))
        if nm in ("push_back", "emplace_back") and "SourceInfo" in (n.f or "") and len(av) == 1:
            x = strip(n.ch[1])
            while x.k in ("CXXConstructExpr", "CallExpr") and len(x.ch) and x.k != "DeclRefExpr":
                x = strip(x.ch[-1])
            if x.k == "DeclRefExpr":
                loc = ip.lval(st, x, fr)
                m = {k: st.get(('f', loc, k)) for k in FIELDS}
                if all(v is not None for v in m.values()):
                    self.frames.append(((n.i, fr), n, m))
        if nm == "GetLogical":
            return ('lref', ('row', av[0]))
        if nm in ("upper_bound", "lower_bound", "find"):
            self.found.append((nm, tuple(av)))
        return None

    def leaf(self, v):
        if v[0] == 'lin' and len(v[2]) == 1:
            a = v[2][0][0]
            x = None
            if a[0] == 'op' and len(a) == 4 and a[1] in ('==', '!=') and K(0) in a[2:]:
                x = a[3] if a[2] == K(0) else a[2]
                t = a[1] == '!='
            elif a[0] != 'op':
                x, t = v, True
            if x is not None:
                nz = self.nonzero(x)
                return None if nz is None else nz == t
        return None

    def nonzero(self, x):
        if call_on(x, "GetSubprogramForAddress") is not None:
            return True
        b, f = field(x)
        if f is None:
            return None
        if f == self.roles.get("call_line"):
            if call_on(b, "GetAbstractOrigin") is not None:
                return "origin" not in self.zero
            if call_on(b, "GetDeclaration") is not None:
                return "declaration" not in self.zero
        if f in self.roles.get("call_file", ()) or f == self.roles["parent"]:
            return True
        return None


def check(prog, tier):
    r = Result("abstract interpretation of inline-stack construction: every argument of every frame is traced to the record, row "
               "or lookup it must come from, at the innermost level and at an arbitrary outer level")
    roles = record_roles(prog, r)
    names(prog, r)
    line = roles["call_line"]
    fs = [F for F in prog.functions if F.blocks and F.q.endswith("::GetInlineStack") and any(short(n) == "GetSubprogramForAddress" for n in F.walk())]
    r.require(bool(fs), "inline stack construction")
    for F in fs:
        for zero in ((), ("origin",), ("origin", "declaration")):
            S = Stack(prog, F, roles, zero)
            bad = lambda what, name, n=None: r.add("%s|%s" % (F.q, name), F.where(n) if n is not None else F.where(), "%s: %s" % (F.q, what))
            addr = atom(('param', 64, False, F.params[0]["n"]))
            seen = {}
            for i, n, m in S.frames:
                seen[i] = (n, m)         # the last interpretation of each site
            first = {i: x for i, x in seen.items() if field(x[1]["line"])[1] != line}
            outer = {i: x for i, x in seen.items() if i not in first}
            r.count(obligations=2)
            if len(first) != 1:
                bad("%d innermost frames" % len(first), "innermost frame")
                continue
            if len(outer) != 1:
                bad("outer frames do not take the line of the call recorded in the inlined function", "outer frame")
                continue
            n, m = list(first.values())[0]
            # innermost: function of the record found for the address, place of the row
            r.count(obligations=4)
            subs = name_of(m["func_name"])
            sub = call_on(subs, "GetDeclaration") if subs is not None else None
            if m["func_name"] != K(0) and (sub is None or not depends(sub, lambda a: a[0] == 'callw' and str(a[3]).endswith("::GetSubprogramForAddress") and addr in a[5])
                                           and not isphi(sub)) and not isphi(m["func_name"]):
                bad("the innermost function is %s, not the one declared for the record at the address" % vn.show_val(m["func_name"])[:80], "innermost name", n)
            row = [root(m[k]) for k in ("line", "discriminator", "file_name")]
            if not all(row) or len(set(row)) != 1 or row[0][0] != 'row' :
                bad("line, discriminator and file of the innermost frame do not come from one line row (%s)" % ", ".join(
                    vn.show_val(m[k])[:40] for k in ("line", "discriminator", "file_name")), "innermost place", n)
            elif not last_below(row[0][1], addr):
                bad("the innermost frame's row is found at %s, not at the last row at or below the address" % vn.show_val(row[0][1])[:90], "row", n)
            elif len({m[k] for k in ("line", "discriminator")}) != 2 or leafn(m["line"]) != rowfield(prog, "line") or leafn(m["discriminator"]) != rowfield(prog, "discriminator"):
                bad("line and discriminator of the innermost frame are not the row's", "innermost place", n)
            if m["start_line"][0] == 'k' and not zero:
                bad("the innermost frame has no start line", "start line", n)
            want = "origin" if not zero else "declaration"
            b, f = field(m["start_line"])
            r.count(obligations=1)
            rec = call_on(b, "GetAbstractOrigin" if want == "origin" else "GetDeclaration") if b is not None else None
            if f != line or rec is None or call_on(rec, "GetSubprogramForAddress") != addr:
                bad("the start line of the innermost frame is %s instead of the function's%s" % (
                    vn.show_val(m["start_line"])[:80], " own" if want == "origin" else " declaration's"), "start line " + want, n)
            # outer: X is the inlined function of this level
            n, m = list(outer.values())[0]
            X, f = field(m["line"])
            r.count(obligations=7)
            par = field_of(X, roles["parent"])
            if field(m["discriminator"]) != (X, roles["GNU_discriminator"]):
                bad("an outer frame's discriminator is %s, not the call's" % vn.show_val(m["discriminator"])[:60], "outer discriminator", n)
            d = name_of(m["func_name"])
            if d is None or same_field(call_on(d, "GetDeclaration"), X, roles["parent"]) is False:
                bad("an outer frame's function is %s, not the declaration of the enclosing one" % vn.show_val(m["func_name"])[:80], "outer name", n)
            if roles.get("call_file") and not mentions(m["file_name"], X, roles["call_file"][0]) and not isphi(m["file_name"]):
                bad("an outer frame's file is %s, not the call's" % vn.show_val(m["file_name"])[:60], "outer file", n)
            b, f = field(m["start_line"])
            want = "origin" if not zero else "declaration" if zero == ("origin",) else "call"
            if f != line:
                ok = isphi(m["start_line"])
                ok = False
            elif want == "origin":
                ok = same_field(call_on(b, "GetAbstractOrigin"), X, roles["parent"])
            elif want == "declaration":
                ok = same_field(call_on(b, "GetDeclaration"), X, roles["parent"])
            else:
                ok = b == X
            if not ok:
                bad("the start line of an outer frame is %s instead of the enclosing function's%s" % (
                    vn.show_val(m["start_line"])[:60], {"origin": " own", "declaration": " declaration's", "call": " call line as a last resort"}[want]), "outer start line " + want, n)
            step = [v for loc, v in S.stores if loc[0] == 'v' and field(v) == (X, roles["parent"])]
            if not isphi(X):
                bad("only one level of inlining is reported", "levels", n)
            elif not step:
                bad("the walk does not go from a function to the one it is inlined into", "levels", n)
            # an outer frame exists exactly while the function is inlined
            conds = [c for c in conditions(S, F)]
            if not any(field(c) == (X, roles["inlined"]) for c in conds):
                bad("the walk is not driven by whether the function is inlined", "guard", n)
        r.count(builders=1)
    lookups(prog, r, roles)
    r.require(r.findings or r.counts.get("obligations", 0) > 40, "frame obligations")
    r.assumptions = ["record look-up by address is the range map's business", "a record's fields are those P07 derives"]
    return r


def conditions(S, F):
    """values of all branch conditions at the fixpoint"""
    out = []
    inn = S.ip.last_inn
    for b, st in inn.items():
        blk = F.blocks[b]
        if blk.cond is not None and blk.tk != 'SwitchStmt':
            s2 = dict(st)
            for e in blk.elems:
                if 'k' in e:
                    S.ip.exec(s2, e, 'f', F, {})
            v = S.ip.val(s2, blk.cond, 'f')
            out.append(v)
            out += parts(v)
    return out


def parts(v):
    if v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0][0] == 'op':
        o = []
        for x in v[2][0][0][2:]:
            if isinstance(x, tuple):
                o += [x] + parts(x)
        return o
    return []


def isphi(v):
    return v is not None and v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0][0] == 'phi'


def field_of(b, f):
    return (b, f)


def same_field(v, X, f):
    return v is not None and field(v) == (X, f)


def mentions(v, X, f):
    return depends(v, lambda a: (a[0] == 'init' and a[3][0] == 'f' and a[3][2] == f and norm(a[3][1]) == ('*', X)))


def last_below(v, addr):
    """v belongs to the entry just before the first one above addr"""
    prev = []

    def look(a):
        if a[0] == 'sym' and str(a[1]).startswith('step'):
            prev.append(a)
        return False
    depends(v, look)
    if len(set(prev)) != 1 or prev[0][1] != 'step--':
        return False
    x = prev[0][2]
    return x[0] == 'lin' and len(x[2]) == 1 and x[2][0][0][0] == 'callw' and str(x[2][0][0][3]).endswith("::upper_bound") and x[2][0][0][5][:1] == (addr,)


def root(v):
    """the object a row value is a field of"""
    if v[0] == 'lin' and len(v[2]) == 1:
        a = v[2][0][0]
        if a[0] == 'init':
            loc = a[3]
        else:
            return None
        while loc[0] == 'f':
            loc = loc[1]
        return loc
    return None


def leafn(v):
    return v[2][0][0][3][2] if v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0][0] == 'init' and v[2][0][0][3][0] == 'f' else None


def rowfield(prog, what):
    """row fields by what the line handler files there (AddLine's parameters)"""
    return ROW.get(what)


ROW = {"line": "line", "discriminator": "discriminator"}


def name_of(v):
    """record whose name is used"""
    b, f = field(v)
    return b if f in NAMES else None


FIELDS = ("func_name", "file_name", "start_line", "line", "discriminator")


def source_info(prog, key, nargs, av):
    """frame field -> value, for a frame built from these constructor arguments"""
    if key is None:
        ks = [F.key for F in prog.functions if (F.cls or "").endswith("::SourceInfo") and F.d.get("ctor") and len(F.params) == nargs]
        key = ks[0] if ks else None
    C, mem = ctor_members(prog, key)
    if C is None:
        return None
    env = {p["n"]: a for p, a in zip(C.params, av)}
    out = {}
    for loc, v in mem.items():
        if loc[0] == 'f' and loc[1] == ('o', 'this'):
            ps = []
            depends(v, lambda a: ps.append(a[3]) if a[0] == 'param' else False)
            if len(set(ps)) == 1:
                out[loc[2]] = env.get(ps[0])
    return out if all(out.get(k) is not None for k in FIELDS) else None


def lookups(prog, r, roles):
    """the declaration and origin of a record follow its references"""
    ms = methods(prog, p07.HANDLER)
    for name, first in (("GetDeclaration", "specification"), ("GetAbstractOrigin", "abstract_origin")):
        F = one([F for F in ms if F.q.endswith("::" + name)], name)
        for spec in ((True, False) if name == "GetDeclaration" else (True,)):
            finds, rows = [], []

            def icpt(ip, n, fname, av, st, fr):
                if short(n) == "find":
                    finds.append((tuple(av), n))
                if n.k == "CXXOperatorCallExpr" and n.op == "[]" and fname.startswith("std::vector"):
                    rows.append(av[1])
                return None

            def leaf(v):
                if v[0] == 'lin' and len(v[2]) == 1:
                    a = v[2][0][0]
                    x, t = v, True
                    if a[0] == 'op' and len(a) == 4 and a[1] in ('==', '!=') and K(0) in a[2:]:
                        x, t = (a[3] if a[2] == K(0) else a[2]), a[1] == '!='
                    b, f = field(x)
                    if f == roles["specification"]:
                        return spec == t
                return None
            ip = Interp(prog, intercept=icpt, assume=lambda v: logic(v, leaf))
            vn.run(ip, F)
            want = first if spec else "abstract_origin"
            r.count(obligations=2)
            keys = {field(v)[1] if field(v)[0] is not None else None for av, n in finds for v in av[:1]}
            if isphi_only(finds):
                keys = None
            if not finds or keys is not None and keys != {roles[want]}:
                r.add("%s|%s" % (F.q, want), F.where(), "%s: a record %s is not followed to %s" % (
                    F.q, "with a specification" if spec and name == "GetDeclaration" else "with an abstract origin", want))
            if roles.get("file_index") and not any(depends(v, lambda a: a[0] == 'init' and a[3][-1] == roles["file_index"]) for v in rows):
                r.add("%s|file" % F.q, F.where(), "%s: references are not looked up in the file the record was read from" % F.q)


def isphi_only(finds):
    return bool(finds) and all(isphi(v) for av, n in finds for v in av[:1])
