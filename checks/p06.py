"""Every debug section reaches its decoder: right section, right length."""
import vn
from vn import K, atom, add, mul, Interp
from core import Result
from frontend import walk
from ir import args, is_cast
from dwarf import *
from checks.p03 import fld, logic

MAPT = "pair<const char *, unsigned long long>"


def text(v, st=None):
    """the string literal inside an abstract value, or the value itself"""
    for _ in range(6):
        if v[0] == 'addr' and v[1][0] == 'str':
            return v[1][1]
        if v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0][0] == 'ctor' and v[2][0][0][2]:
            v = v[2][0][0][2][0]
            continue
        break
    return v


def secptr(n):
    return atom(('secptr', n))


def secsize(n):
    return atom(('secsize', n))


def sections_of(v):
    """(kind, name) of every section atom in a value"""
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] in ('secptr', 'secsize'):
                out.add((x[0], x[1]))
                return
            for y in x:
                go(y)
    go(v)
    return out


class Sections:
    """section-map model: present (every lookup succeeds) or absent"""

    def __init__(self, present=True, opaque=None):
        self.present = present
        self.puts = []          # (name, pointer, size, node)
        self.built = []         # (class, ctor key, args, node)
        self.calls = []
        self.opaque = opaque or set()

    def intercept(self, ip, n, fname, av, st, fr):
        f = n.f or ""
        nm = short(n)
        if n.k == "CXXOperatorCallExpr":
            if n.op in ("==", "!=") and len(av) == 2 and ("tree" in f or f == "std::operator" + n.op) and (
                    any(a[0] == 'addr' and a[1][0] == 'sect' for a in av)):
                return K(self.present == (n.op == "!="))
            if n.op in ("->", "*") and av and av[0][0] == 'addr' and av[0][1][0] == 'sect':
                return av[0] if n.op == "->" else ('lref', av[0][1])
            if n.op == "=" and len(av) == 2 and av[1][0] == 'addr' and av[1][1][0] == 'sect':
                ip.store(st, ip.lval(st, n.ch[1], fr), av[1])
                return av[1]
            if n.op == "[]" and MAPT in f:
                return ('lref', ('slot', text(av[1])))
            if n.op == "=" and MAPT in f:
                to = ip.lval(st, n.ch[1], fr)
                p = self.pair(av[1])
                if to[0] == 'slot' and p:
                    self.puts.append((to[1], p[0], p[1], n))
                return atom(('void',))
        if MAPT in f and nm == "find":
            return ('addr', ('sect', text(av[0])))
        if MAPT in f and nm in ("insert", "emplace"):
            if len(av) == 2:
                p = self.pair(av[1])
                if p:
                    self.puts.append((text(av[0]), p[0], p[1], n))
            else:
                q = self.pair(av[0])
                p = self.pair(q[1]) if q else None
                if p:
                    self.puts.append((text(q[0]), p[0], p[1], n))
            return atom(('void',))
        if nm in ("c_str", "data") and n.k == "CXXMemberCallExpr" and n.ch[0].ch and not n.ch[0].arrow:
            return ip.load(st, ip.lval(st, n.ch[0].ch[0], fr), None)
        if nm == "make_pair":
            return atom(('pair',) + tuple(av[:2]))
        if nm == "operator+" and n.k == "CXXOperatorCallExpr":
            return None
        if nm in ("GetSectionByName", "GetSectionByIndex") and len(av) == 2:
            key = text(av[0]) if nm == "GetSectionByName" else ('index', av[0])
            if not self.present and nm == "GetSectionByName":
                return K(0)
            setout(ip, st, av[1], secsize(key))
            return secptr(key)
        if fname == RD + "ReadInitialLength":
            return None
        if n.get("fk") in self.opaque:
            self.calls.append((n, tuple(av)))
            return atom(('void',))
        return None

    def ctor(self, ip, n, av, st, fr):
        f = n.f or ""
        if "iterator" in (n.cls or "") and len(av) == 1:
            return av[0]
        if "pair<" in (n.cls or "") and len(av) == 1:
            return av[0]
        if (n.cls or "").startswith(NS):
            self.built.append((n.cls[len(NS):], n.get("fk"), tuple(av), n))
        return None

    def pair(self, v):
        for _ in range(5):
            if v[0] == 'lin' and len(v[2]) == 1:
                a = v[2][0][0]
                if a[0] == 'pair':
                    return a[1], a[2]
                if a[0] == 'ctor' and len(a[2]) == 2:
                    return a[2]
                if a[0] == 'ctor' and len(a[2]) == 1:
                    v = a[2][0]
                    continue
                if a[0] == 'ilist' and len(a[2]) == 2:
                    return a[2]
            return None
        return None

    def consts(self, loc):
        """contents of a present section-map entry"""
        if loc[0] == 'f' and loc[1][0] == 'f' and loc[1][1][0] == 'sect' and loc[1][2] == 'second':
            return secptr(loc[1][1][1]) if loc[2] == 'first' else secsize(loc[1][1][1])
        return None


def roles(prog):
    """class -> {section name: (pointer member, length member)}; derived from
    which member each form / entry kind is decoded from"""
    out = {}
    # compilation unit: forms
    ms = methods(prog, "CompilationUnit")
    proc = one([F for F in ms if F.d.get("ret") == "const char *" and [p["s"] for p in F.params][:4] == ["u64", "p", "e32", "e32"]],
               "attribute decoder")
    cu = {}
    for form, sec in ((0x0e, ".debug_str"), (0x1f, ".debug_line_str"), (0x1a, ".debug_str_offsets"), (0x1b, ".debug_addr")):
        m = Model(recurse=[proc.key], handler=lambda f: ".ProcessAttribute" in f.replace("::", ".") and f.startswith(NS + "Dwarf2Handler"))
        vn.run(Interp(prog, consts=lambda loc: 5 if loc == fld("header_", "version") else None, intercept=m.intercept), proc,
               params={proc.params[3]["n"]: K(form)})
        for e in m.events.values():
            v = e[1][3] if len(e[1]) > 3 else None
            b = buffers(v, sec)
            if b:
                cu[sec] = b
    out["CompilationUnit"] = cu
    # line table: string forms
    ms = methods(prog, "LineInfo")
    li = {}
    rs = [F for F in ms if len(F.params) == 3 and F.params[0]["s"] == "u32" and any((n.get("f") or "").endswith("get_string_with_offsets") for n in F.walk())]
    for F in rs[:1]:
        for form, sec in ((0x0e, ".debug_str"), (0x1f, ".debug_line_str"), (0x1a, ".debug_str_offsets")):
            dst = ('o', 'dst')
            pos = ('o', 'pos')
            m = Model(offsz=4)
            st = {pos: atom(('sym', 'P'))}
            rets, o = vn.run(Interp(prog, consts=lambda loc: 5 if loc == fld("header_", "version") else None, intercept=m.intercept,
                                    assume=lambda v: logic(v, leaf_ok)), F, st=st,
                             params={F.params[0]["n"]: K(form), F.params[1]["n"]: ('addr', dst), F.params[2]["n"]: ('addr', pos)})
            b = buffers(o.get(dst) if o else None, sec)
            if b:
                li[sec] = b
    li[".debug_line"] = 'buffer_'
    out["LineInfo"] = li
    return out


def leaf_ok(v):
    if v[0] == 'lin' and len(v[2]) == 1:
        a = v[2][0][0]
        if a[0] == 'op' and len(a) == 4 and a[1] in ('<', '<='):
            end = lambda x: x[0] == 'lin' and any(t[0] == 'init' and str(t[3][-1]).endswith('length_') for t, c in x[2])
            if end(a[2]) != end(a[3]):
                return end(a[3])
        if a[0] in ('init', 'cstr'):
            return True
        if a[0] == 'op' and len(a) == 4 and a[1] in ('==', '!=') and K(0) in a[2:]:
            return a[1] == '!='
    return None


def buffers(v, sec):
    """the member a decoded value's bytes come from"""
    if v is None:
        return None
    found = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == 'init' and x[3][:2] == ('f', ('o', 'this')) and x[1] == 64 and not x[2]:
                found.append(x[3][2])
                return
            if len(x) == 3 and x[0] == 'cstr':
                go(x[2] if sec == ".debug_str_offsets" else x[1])
                return
            if x and x[0] in ('callw', 'uleb', 'leblen', 'rd'):
                return
            for y in x:
                go(y)
    go(v)
    ptr = [f for f in found if 'base' not in f]
    return ptr[0] if len(set(ptr)) == 1 else None


def length_of(prog, cls, ptr):
    """the length member used together with a pointer member"""
    votes = {}
    for F in methods(prog, cls):
        for n in F.walk():
            if n.k == "BinaryOperator" and n.op == "+":
                a, b = [leafname(c) for c in n.ch]
                if a == ptr and b:
                    votes[b] = votes.get(b, 0) + 1
            elif n.k in ("CallExpr", "CXXMemberCallExpr"):
                ch = [leafname(c) for c in n.ch]
                for a, b in zip(ch, ch[1:]):
                    if a == ptr and b and b != ptr:
                        votes[b] = votes.get(b, 0) + 1
    votes = {k: v for k, v in votes.items() if 'length' in k or 'size' in k}
    return max(votes, key=votes.get) if votes else None


def leafname(c):
    while c is not None and c.k in ("ImplicitCastExpr", "ParenExpr") and c.ch:
        c = c.ch[0]
    if c is not None and c.k == "MemberExpr" and c.dk == "Field" and (not c.ch or c.ch[0].k == "CXXThisExpr" or
                                                                      (c.ch[0].ch and c.ch[0].ch[0].k == "CXXThisExpr")):
        return c.n
    return None


def check(prog, tier):
    r = Result("value-provenance over every function that looks sections up, loads them or builds a decoder: the pointer and "
               "length a decoder uses for a section must both come from one lookup of that section")
    role = roles(prog)
    for cls, d in role.items():
        r.require(len(d) >= 3, "section roles of " + cls)
    want = {}
    for cls, d in role.items():
        for sec, ptr in d.items():
            want.setdefault(cls, []).append((sec, ptr, length_of(prog, cls, ptr)))
    want["AddressRangeList"] = ranges_roles(prog)
    for cls in sorted(want):
        r.sample("%s: %s" % (cls, ", ".join("%s->%s/%s" % x for x in want[cls])))
    builders(prog, r, want)
    start(prog, r, want["CompilationUnit"])
    loaders(prog, r)
    r.require(r.counts.get("obligations", 0) > 30, "section hand-overs")
    r.assumptions = ["a section is named by string literals at the lookup", "sections of split units are inherited through same-named members"]
    return r


def ranges_roles(prog):
    out = []
    ms = methods(prog, "AddressRangeList")
    for F in ms:
        for n in F.walk():
            f = n.get("f") or ""
            if f in (RD + "ReadAddress", RD + "ReadOneByte") and F.params:
                m = Model(adrsz=8)
                seen = []

                def extra(ip, x, fname, av, st, fr, seen=seen):
                    if fname in (RD + "ReadAddress", RD + "ReadOneByte") and av:
                        seen.append((x.get("i"), fname, av[0]))
                    return None
                m.extra = extra
                vn.run(Interp(prog, intercept=m.intercept, assume=lambda v: logic(v, leaf_ok)), F)
                for i, fname, v in seen:
                    b = buffers(v, "")
                    if b and len(F.params) == 3:
                        out.append((".debug_ranges", b))
                    elif b and len(F.params) > 3 and fname.endswith("ReadAddress"):
                        out.append((".debug_addr", b))
                break
    for F in ms:
        if any((n.get("f") or "") == RD + "ReadInitialLength" for n in F.walk()):
            m = Model()
            seen = []

            def extra(ip, x, fname, av, st, fr):
                if fname == RD + "ReadInitialLength":
                    seen.append(av[0])
                return None
            m.extra = extra
            vn.run(Interp(prog, intercept=m.intercept, assume=lambda v: logic(v, leaf_ok)), F)
            for v in seen[:1]:
                b = buffers(v, "")
                if b:
                    out.append((".debug_rnglists", b))
    return [(s, p, length_of(prog, "AddressRangeList", p)) for s, p in sorted(set(out))]


def ctor_members(prog, key):
    """member -> value over the constructor's parameters"""
    fs = [F for F in prog.functions if F.key == key and F.blocks]
    if not fs:
        return None, None
    F = fs[0]
    rets, out = vn.run(Interp(prog, intercept=lambda ip, n, f, av, st, fr: atom(('void',)) if n.k == "CXXMemberCallExpr" else None), F)
    return F, out or {}


def subst(v, env):
    if v[0] != 'lin':
        return v
    t = K(v[1])
    for a, c in v[2]:
        x = env.get(a[3]) if a[0] == 'param' else None
        if x is None and a[0] == 'param':
            return None
        t = add(t, mul(x if x is not None else atom(a), K(c)))
    return t


def same_section(p, s, sec, cls_role):
    """None if (pointer p, length s) both belong to section sec"""
    if p == K(0):
        return None if s is None or s == K(0) else "no data with length %s" % vn.show_val(s)[:60]
    sp, ss = sections_of(p), sections_of(s) if s is not None else set()
    if not sp:
        # inherited from a member of the same role
        if p[0] == 'lin' and len(p[2]) == 1 and p[2][0][0][0] == 'init':
            m = p[2][0][0][3][-1]
            owner = [x for x in cls_role if x[1] == m]
            if owner and any(x[0] == sec for x in owner):
                if s is None or (s[0] == 'lin' and len(s[2]) == 1 and s[2][0][0][0] == 'init' and s[2][0][0][3][-1] in [x[2] for x in owner]):
                    return None
                return "the length %s" % vn.show_val(s)[:60]
            return "the data of member %s" % m
        return "data from no section (%s)" % vn.show_val(p)[:60]
    names = {str(n) for k, n in sp}
    if {k for k, n in sp} != {'secptr'} or len(sp) != 1 or names - {sec, sec + ".dwo"}:
        return "the data of %s" % ", ".join(sorted(names))
    if s is None:
        return None
    if {k for k, n in ss} != {'secsize'} or {str(n) for k, n in ss} - {sec, sec + ".dwo"} or not ss:
        return "its data with the length of %s" % (", ".join(sorted(str(n) for k, n in ss)) or "no section")
    if add(add(p, s), add(secptr(list(sp)[0][1]), secsize(list(ss)[0][1])), -1) != K(0):
        return "a window that does not end where the section ends"
    return None


def interesting(prog):
    """functions that look up, load or hand over sections"""
    out = []
    for F in prog.functions:
        if not F.blocks:
            continue
        for n in F.walk():
            f = n.get("f") or ""
            if (n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.cls in (NS + "LineInfo", NS + "AddressRangeList") and len(n.ch) > 2):
                out.append(F)
                break
    return out


def builders(prog, r, want):
    decoding = callers_of(prog, lambda f: f.startswith(RD))
    work = interesting(prog)
    inl = {F.key for F in work}
    seen = set()
    while work:
        F = work.pop(0)
        if F.key in seen:
            continue
        seen.add(F.key)
        up = False
        for present in (True, False):
            S = Sections(present)
            ip = Interp(prog, intercept=S.intercept, consts=S.consts, assume=lambda v: logic(v, lambda x: None),
                        inline=lambda G: G.key not in decoding or G.key in inl)
            ip.ctor_hook = S.ctor
            vn.run(ip, F, params=stmt_list_param(prog, F))
            for cls, key, av, n in S.built:
                if cls not in want:
                    continue
                C, mem = ctor_members(prog, key)
                if C is None:
                    continue
                env = {p["n"]: a for p, a in zip(C.params, av)}
                for sec, ptr, ln in want[cls]:
                    p, s = mem.get(fld(ptr)), mem.get(fld(ln)) if ln else None
                    p = subst(p, env) if p is not None else None
                    s = subst(s, env) if s is not None else None
                    if p is None:
                        continue
                    r.count(obligations=1)
                    if not sections_of(p) and depends(p, lambda a: a[0] == 'param'):
                        up = True           # handed in: decided in the callers
                        continue
                    if not present:
                        continue
                    bad = same_section(p, s, sec, want.get(cname(F), []))
                    if not bad and p == K(0) and cls == "LineInfo" and len(av) > 5:
                        bad = "nothing although the section is present"
                    if bad:
                        r.add("%s|%s|%s" % (F.q, cls, sec), F.where() if n.fn is not F else F.where(n),
                              "%s: the %s decoder is given %s as %s" % (F.q, cls, bad, sec))
        if up:
            inl.add(F.key)
            callers = [G for G in prog.functions if G.blocks and any(n.get("fk") == F.key for n in G.walk())]
            r.require(bool(callers), "callers of " + F.q)
            seen -= {G.key for G in callers}
            work += callers
        r.count(builders=1)


def cname(F):
    return (F.cls or "")[len(NS):]


def stmt_list_param(prog, F):
    """attribute handlers are interpreted for DW_AT_stmt_list"""
    out = {}
    for p in F.params:
        if p["s"] == "e32" and "DwarfAttribute" in (p.get("t") or ""):
            out[p["n"]] = K(0x10)
    return out


def start(prog, r, want):
    """the members a compilation unit decodes from, after it has looked its sections up"""
    ms = methods(prog, "CompilationUnit")
    fs = [F for F in ms if any(n.k == "CXXMemberCallExpr" and short(n) == "find" and MAPT in (n.f or "") for n in F.walk())
          and any(n.k == "MemberExpr" and n.n == want[0][1] for n in F.walk())]
    F = one(fs, "unit start")
    decode = {f.key for f in ms if any((n.get("f") or "").startswith(NS + "Dwarf2Handler::") and "StartDIE" in n.f for n in f.walk())}
    for v in (4, 5):
        S = Sections(True)
        state = {}

        def icpt(ip, n, fname, av, st, fr):
            x = S.intercept(ip, n, fname, av, st, fr)
            if x is not None:
                return x
            if n.get("fk") in decode:
                state.update({k: w for k, w in st.items() if k[0] == 'f' and k[1] == ('o', 'this')})
                return atom(('void',))
            if n.k in ("CXXMemberCallExpr", "CallExpr") and short(n) in ("ReadHeader", "ReadAbbrevs", "ProcessSplitDwarf"):
                return atom(('void',))
            if n.k == "CXXMemberCallExpr" and n.virt:
                return K(1)
            return None

        def leaf(x):
            if x[0] == 'lin' and len(x[2]) == 1:
                a = x[2][0][0]
                if a[0] == 'init' and str(a[3][-1]).startswith("malformed"):
                    return False
                if a[0] == 'op' and len(a) == 4 and a[1] in ('<', '<='):
                    return bool([1 for k, n in sections_of(a[3]) if k == 'secsize'])
                if a[0] == 'op' and a[1] in ('==', '!='):
                    return a[1] == '=='         # contribution headers agree with the unit's
            return None
        ip = Interp(prog, intercept=icpt, consts=lambda loc: v if loc == fld("header_", "version") else S.consts(loc),
                    assume=lambda x: logic(x, leaf))
        ip.ctor_hook = S.ctor
        vn.run(ip, F)
        for sec, ptr, ln in want:
            r.count(obligations=1)
            p, s = state.get(fld(ptr)), state.get(fld(ln)) if ln else None
            if p is None:
                r.add("%s|%s" % (F.q, sec), F.where(), "%s: units of DWARF %d never receive %s" % (F.q, v, sec))
                continue
            bad = same_section(p, s, sec, want)
            if bad:
                r.add("%s|%s" % (F.q, sec), F.where(), "%s: units of DWARF %d decode %s from %s" % (F.q, v, sec, bad))


def loaders(prog, r):
    """functions that fill a section map"""
    lookups, helpers = set(), set()
    for F in prog.functions:
        for n in F.walk():
            if n.k == "CXXMemberCallExpr" and short(n) == "find" and MAPT in (n.f or ""):
                for x in walk(n):
                    if x.k == "StringLiteral" and x.get("str"):
                        lookups.add(x["str"])
                helpers.add(F.key)
    for F in prog.functions:
        for n in F.walk():
            if n.k == "CallExpr" and n.fk in helpers:
                lookups |= {c["str"] for a in args(n) for c in walk(a) if c.k == "StringLiteral" and (c.get("str") or "").startswith(".debug_")}
    r.require(len(lookups) >= 6, "section lookups by name")
    r.sample("sections looked up: " + ", ".join(sorted(lookups)))
    decoding = callers_of(prog, lambda f: f.startswith(RD))
    for F in prog.functions:
        if not F.blocks or not any(MAPT in (n.get("f") or "") and (short(n) in ("insert", "emplace") or n.op == "[]") for n in F.walk()):
            continue
        S = Sections(True)
        dwp = dwp_members(prog, F)

        def consts(loc):
            x = S.consts(loc)
            return dwp.get(loc) if x is None else x
        ip = Interp(prog, intercept=S.intercept, consts=consts, assume=lambda v: logic(v, lambda x: None),
                    inline=lambda G: G.key not in decoding)
        ip.ctor_hook = S.ctor
        vn.run(ip, F)
        r.count(loaders=1)
        stored = set()
        for name, p, s, n in S.puts:
            r.count(obligations=1)
            stored.add(name if isinstance(name, str) else None)
            sp, ss = sections_of(p), sections_of(s)
            bad = None
            if not sp or {k for k, x in sp} != {'secptr'} or len(sp) != 1:
                bad = "data that is not one section's"
            else:
                sec = list(sp)[0][1]
                if isinstance(name, str):
                    if sec not in (name, name + ".dwo") and not (isinstance(sec, tuple) and sec[0] == 'index'):
                        bad = "the data of %s" % (sec if isinstance(sec, str) else "another section")
                elif not same_name(name, sec):
                    bad = "the data of another section"
                if not bad:
                    if ss:
                        if ss != {('secsize', sec)}:
                            bad = "its data with the length of %s" % ", ".join(str(x)[:40] for k, x in ss)
                        elif s != secsize(sec) or p != secptr(sec):
                            bad = "an altered window"
                    elif not depends(s, lambda a: a[0] in ('callw', 'rd', 'phi', 'bits')):
                        bad = "its data without a length"
            if bad:
                r.add("%s|%s" % (F.q, name if isinstance(name, str) else "loop"), F.where(n), "%s: section %s is filed with %s" % (
                    F.q, name if isinstance(name, str) else "(each)", bad))
        if None in stored:
            stored |= {n["str"] for n in F.walk() if n.k == "StringLiteral" and (n.get("str") or "").startswith(".debug_")
                       and not argument(n)}
            need = lookups if cname(F) != "CompilationUnit" else {".debug_abbrev", ".debug_info", ".debug_str", ".debug_str_offsets"}
            for sec in sorted(need - stored):
                r.count(obligations=1)
                r.add("%s|missing %s" % (F.q, sec), F.where(), "%s: section %s is never loaded although it is looked up" % (F.q, sec))
            r.count(obligations=len(need))


def argument(n):
    """is the literal an argument of a call of a named function?"""
    n = n.parent
    while n is not None and (is_cast(n) or n.k in ("ParenExpr", "ExprWithCleanups")):
        n = n.parent
    return n is not None and n.k in ("CallExpr", "CXXMemberCallExpr")


def callers_of(prog, pred):
    """functions that may reach a call satisfying pred"""
    out, callers = set(), {}
    for F in prog.functions:
        for n in F.walk():
            if n.get("fk"):
                callers.setdefault(n.fk, set()).add(F.key)
            if n.get("f") and pred(n.f):
                out.add(F.key)
    work = list(out)
    while work:
        for c in callers.get(work.pop(), ()):
            if c not in out:
                out.add(c)
                work.append(c)
    return out


def same_name(name, sec):
    """the section is looked up under a string made from the name it is filed under"""
    def places(v, out):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == 'v':
                out.add(v)
            elif v and v[0] in ('load', 'param', 'phi'):
                out.add(v)
            for x in v:
                places(x, out)
        return out
    return name == sec or bool(places(name, set()) & places(sec, set()))


def dwp_members(prog, F):
    """members filled by the same class's initialiser from named sections"""
    out = {}
    if not F.cls:
        return out
    for G in [f for f in prog.functions if f.cls == F.cls and f.blocks and f.key != F.key]:
        if not any((n.get("f") or "").endswith("::GetSectionByName") for n in G.walk()):
            continue
        S = Sections(True)
        vals = {}
        ip = Interp(prog, intercept=S.intercept, consts=S.consts)
        ip.ctor_hook = S.ctor
        orig = ip.store

        def store(st, loc, v, orig=orig):
            if loc[0] == 'f' and loc[1] == ('o', 'this') and sections_of(v):
                vals.setdefault(loc, set()).add(v)
            orig(st, loc, v)
        ip.store = store
        vn.run(ip, G)
        for loc, vs in vals.items():
            vs = [v for v in vs if v[0] == 'lin' and len(v[2]) == 1 and v[1] == 0 and v[2][0][0][0] in ('secptr', 'secsize')]
            if len(vs) == 1:
                out[loc] = vs[0]
    return out
