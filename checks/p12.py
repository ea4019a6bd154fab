"""A builder of Propeller options stores each option under its own name, unchanged."""
import glob, os, re
import frontend
from wire import Wire, K, show, short
from paths import paths
from core import Result

LEVEL = "proof"


def messages():
    """{message: {field: repeated?}} of the repository's .proto files"""
    out = {}
    for p in sorted(glob.glob(os.path.join(frontend.REPO, "*.proto"))):
        src = re.sub(r"//[^\n]*|/\*.*?\*/", " ", open(p).read(), flags=re.S)
        depth, cur = 0, []
        for m in re.finditer(r"\b(message|enum|oneof)\s+(\w+)\s*\{|(\})|(?:\b(optional|required|repeated)\s+)?(map\s*<[^>]*>|[\w.]+)\s+(\w+)\s*=\s*\d+\s*[;\[]|\{", src):
            if m.group(1):
                cur.append((m.group(1), m.group(2)))
                if m.group(1) == "message":
                    out.setdefault(m.group(2), {})
            elif m.group(3):
                if cur:
                    cur.pop()
            elif m.group(6):
                for kind, name in reversed(cur):
                    if kind == "enum":
                        break
                    if kind == "message":
                        out[name][m.group(6)] = (m.group(4) == "repeated", m.group(5))
                        break
            else:
                cur.append(("block", ""))
    return out


def snake(n):
    return re.sub(r"(?<!^)(?=[A-Z])", "_", n).lower()


def bare(t):
    return (t or "").replace("const ", "").strip().rstrip("& *").split("::")[-1]


def builders(prog, msgs):
    for R in prog.records.values():
        fs = [f for f in R.fields if bare(f["t"]) in msgs]
        if len(fs) != 1 or len(R.fields) != 1:
            continue
        if any(F.cls == R.q and F.q.split("::")[-1].startswith("operator const") for F in prog.functions) or R.q.endswith("Builder"):
            yield R, fs[0]["n"], bare(fs[0]["t"])


def site(t, root):
    """(option path, repeated element just added?) a term denotes within the message, or None"""
    if t == root:
        return (), False
    if t[0] in ('lv', 'deref', 'addr') and len(t) > 1 and isinstance(t[1], tuple):
        return site(t[1], root)
    if t[0] == 'call' and len(t) > 3 and not t[3]:
        b = site(t[2], root)
        n = short(t[1])
        if b and n.startswith("mutable_"):
            return b[0] + (n[8:],), b[1]
        if b and n.startswith("add_"):
            return b[0] + (n[4:],), True
    return None


def same(v, rest, arg, conds):
    """v (a value, with the further arguments of the call) is arg unchanged"""
    if v == arg:
        rest = [r for r in rest if not (r[0] in ('call', 'new') and short(r[1]) == 'allocator')]
        return not rest or (len(rest) == 1 and size_of(rest[0], arg))
    if v[0] == 'k' and (v[1] and arg in conds or not v[1] and ('op', '!', (arg,)) in conds) and v[1] in (0, 1):
        return not rest
    if v[0] == 'k' and ('op', '==', (arg, v)) in conds:
        return not rest
    if v[0] == 'call' and len(v) > 3 and short(v[1]) in ('basic_string', 'basic_string_view', 'move', 'forward', 'static_cast') and v[3]:
        return same(v[3][0], list(v[3][1:]) + list(rest), arg, conds)
    if v[0] == 'new' and len(v) > 2 and short(v[1]) in ('basic_string', 'basic_string_view') and v[2]:
        return same(v[2][0], list(v[2][1:]) + list(rest), arg, conds)
    if v[0] == 'call' and len(v) > 3 and short(v[1]) in ('data', 'begin', 'cbegin') and v[2] == arg and rest:
        rest = [r for r in rest if not (r[0] in ('call', 'new') and short(r[1]) == 'allocator')]
        r = rest[0] if len(rest) == 1 else None
        return r is not None and (size_of(r, arg) if short(v[1]) == 'data' else r[0] == 'call' and short(r[1]) in ('end', 'cend') and r[2] == arg)
    return False


def size_of(r, arg):
    return r == ('size', arg) or r[0] == 'call' and short(r[1]) in ('size', 'length') and r[2] == arg


def copy_of(F, v, arg):
    """v is a local copy of the parameter, handed over by a swap"""
    if v[0] != 'var':
        return False
    for n in F.walk():
        if n.k == "VarDecl" and n.d == v[1] and not n.ref:
            c = list(sub(n.get("init") or (n.ch[0] if n.ch else None)))
            refs = [x for x in c if x.k == "DeclRefExpr"]
            return len(refs) == 1 and refs[0].n == arg[1] and not any(x.k in ("CallExpr", "CXXMemberCallExpr") for x in c)
    return False


def returns_copy(prog, F, cls):
    loc = {v.d for n in F.walk() if n.k == "DeclStmt" for v in n.ch if v.k == "VarDecl" and not v.ref and bare(v.t) == bare(cls) and "*" not in (v.t or "")}
    for n in F.walk():
        if n.k == "ReturnStmt" and n.ch:
            x = n.ch[0]
            while x.k in ("ParenExpr", "ImplicitCastExpr") and x.ch:
                x = x.ch[0]
            if x.k == "DeclRefExpr" and x.d in loc:
                yield n


def within(t, root):
    if t == root:
        return True
    return isinstance(t, tuple) and any(within(x, root) for x in t)


def narrows(prog, F):
    for n in F.walk():
        if n.k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "ImplicitCastExpr") and n.ck == "IntegralCast" and n.ch:
            a, b = frontend_width(n.ch[0].t), frontend_width(n.t)
            if a and b and b < a:
                yield n
            elif n.t == "bool" or n.ck == "IntegralToBoolean":
                yield n


def sub(n):
    if n:
        yield n
        for c in n.ch:
            yield from sub(c)


def frontend_width(t):
    t = (t or "").replace("const ", "").strip()
    return {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32,
            "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64, "bool": 1,
            "uint8_t": 8, "int8_t": 8, "uint16_t": 16, "int16_t": 16, "uint32_t": 32, "int32_t": 32, "uint64_t": 64, "int64_t": 64}.get(t)


def check(prog, tier):
    res = Result("every path of every setter of an options builder writes the one option it is named after, with its argument unchanged, "
                 "and returns the builder; every option of the message has a setter; what the builder yields is the message it filled")
    msgs = messages()
    res.require(msgs, "messages in the .proto files")
    seen = 0
    for R, fld, msg in sorted(builders(prog, msgs), key=lambda x: x[0].q):
        seen += 1
        this = None
        have = set()
        for F in prog.functions:
            if F.cls != R.q or F.body is None:
                continue
            name = F.q.split("::")[-1]
            W = Wire(prog, {}, inline=lambda G: True)
            W.reach = set()
            W.rets = True
            W.depth = 4
            items = W.run(F)
            root = ('m', ('this', R.q), fld)
            ps = [p for p in paths(items, lambda t: None) if p.done != 'dead']
            if name.startswith("operator const") or name.startswith("operator " + msg):
                res.count(conversions=1)
                for p in ps:
                    if p.ret not in (root, ('lv', root)) or any(e[0] in ('sink', 'set') and within(e, root) for e in p.effects):
                        res.add("convert|" + R.q, F.where(), "%s does not yield the options as they were set" % R.q.split("::")[-1])
                continue
            if name == R.q.split("::")[-1]:
                if len(F.params) == 1 and bare(F.params[0]["t"]) == msg:
                    res.count(copies=1)
                    d = F.params[0]["d"]
                    ok = any(n.k == "DeclRefExpr" and n.d == d for i in F.inits if i.get("m") == fld for n in sub(i.get("init")))
                    ok = ok or any(e[0] in ('set', 'sink') and within(e, root) and within(e, ('param', F.params[0]["n"])) for p in ps for e in p.effects)
                    if not ok:
                        res.add("ctor|" + F.q, F.where(), "starting from existing options drops them")
                continue
            m = re.match(r"(Set|Add|Clear|Mutable)([A-Z]\w*)$", name)
            if not m or len(F.params) != 1:
                continue
            want, kind = snake(m.group(2)), m.group(1)
            res.count(setters=1)
            have.add((kind, want))
            arg = ('param', F.params[0]["n"])
            for n in narrows(prog, F):
                res.add("narrow|" + F.q, F.where(n), "%s: the value is narrowed before it is stored" % name)
            for n in returns_copy(prog, F, R.q):
                res.add("return|" + F.q, F.where(n), "%s returns another builder than the one it was called on" % name)
            if not ps:
                res.add("path|" + F.q, F.where(), "%s never returns" % name)
            for p in ps:
                res.count(paths=1)
                muts, touched, cleared = [], [], set()
                for e in p.effects:
                    if e[0] == 'loop':
                        if any(within(x, root) for q in e[3] for x in q.effects):
                            res.add("loop|" + F.q, F.where(), "%s changes the options repeatedly" % name)
                        continue
                    node = next((x for x in e if isinstance(x, frontend.Node)), None)
                    if e[0] == 'set' and isinstance(e[1], tuple):
                        pair = e[1] if len(e[1]) == 2 and isinstance(e[1][0], tuple) else (e[1], e[2])
                        s = site(pair[0], root)
                        if s is not None:
                            muts.append((s[0], 'add' if s[1] else 'set', pair[1], node, ()))
                        elif within(pair[0], root):
                            muts.append((None, 'other', pair[1], node, ()))
                    elif e[0] == 'sink':
                        n, base, args = short(e[1]), e[2], e[3]
                        s = site(base, root)
                        if s is None:
                            if within(base, root):
                                muts.append((None, 'other', None, node, ()))
                            continue
                        pth, fresh = s
                        if n.startswith("mutable_") and not args:
                            touched.append((pth + (n[8:],), node))
                        elif n.startswith("add_") and not args:
                            touched.append((pth + (n[4:],), node))
                        elif n.startswith(("set_allocated_", "set_")) and args:
                            f = n[14:] if n.startswith("set_allocated_") else n[4:]
                            muts.append((pth + (f,), 'set', args[0], node, args[1:]))
                        elif n.startswith("add_") and args:
                            muts.append((pth + (n[4:],), 'add', args[0], node, args[1:]))
                        elif n.startswith("clear_") and not args:
                            cleared.add(pth + (n[6:],))
                        elif n == "Clear" and not args:
                            cleared.add(pth)
                        elif n in ("CopyFrom", "assign", "operator=", "Swap", "swap") and args:
                            muts.append((pth, 'add' if fresh else 'set', args[0], node, args[1:]))
                        elif n in ("MergeFrom", "append") and args and (fresh or pth in cleared):
                            muts.append((pth, 'add' if fresh else 'set', args[0], node, args[1:]))
                        elif n in ("Add", "push_back") and args:
                            muts.append((pth, 'add', args[0], node, args[1:]))
                        elif n.startswith("has_") or n == "reserve":
                            continue
                        else:
                            muts.append((pth, 'other', args[0] if args else None, node, ()))
                where = lambda n: F.where(n) if n is not None and n.fn is F else F.where()
                good = [x for x in muts if x[0] is not None and "_".join(x[0]) == want and x[1] == ('set' if kind == 'Set' else 'add')]
                for pth, k, v, n, rest in muts:
                    if (pth, k, v, n, rest) not in good:
                        res.add("other|%s|%s" % (F.q, "_".join(pth or ("?",))), where(n),
                                "%s changes %s rather than only %s" % (name, ".".join(pth) if pth else "the options", want))
                    elif not (same(v, rest, arg, p.conds) or v[0] == 'var' and copy_of(F, v, arg)):
                        res.add("value|" + F.q, where(n), "%s stores %s rather than its argument" % (name, show(v)))
                if not good:
                    res.add("missing|" + F.q, F.where(), "%s can return without setting %s" % (name, want))
                elif len(good) > 1 and kind == 'Add':
                    res.add("twice|" + F.q, F.where(), "%s appends more than once" % name)
                for pth, n in touched:
                    if not any(g[0][:len(pth)] == pth for g in good):
                        res.add("touch|%s|%s" % (F.q, "_".join(pth)), where(n), "%s creates %s as well" % (name, ".".join(pth)))
                for pth in cleared:
                    if not any(g[0] == pth and kind == 'Set' for g in good):
                        res.add("clear|%s|%s" % (F.q, "_".join(pth)), F.where(), "%s resets %s" % (name, ".".join(pth) or "every option"))
                if p.ret != ('this', R.q):
                    r = p.ret
                    while r and r[0] in ('deref', 'lv', 'addr'):
                        r = r[1]
                    if r is None or r[0] != 'this':
                        res.add("return|" + F.q, F.where(), "%s does not return the builder it was called on" % name)
        for f, (rep, ty) in sorted(msgs[msg].items()):
            res.count(options=1)
            if not any(w == f and k == ("Add" if rep else "Set") for k, w in have):
                res.add("absent|%s|%s" % (R.q, f), R.q, "no setter for option %s of %s" % (f, msg))
    res.require(seen, "options builders")
    res.count(builders=seen)
    res.assumptions = ["the generated protocol buffer accessors set_/add_/mutable_ do what their names say"]
    return res
