"""DIE attribute decoding: size and value of every attribute form."""
import vn
from vn import K, atom, add, mul, Interp
from core import Result
from dwarf import *

# code: (name, first DWARF version, size kind, value kind)
FORMS = {
    0x01: ("addr", "adr", "adr"), 0x03: ("block2", ("blk", 2), "buf"), 0x04: ("block4", ("blk", 4), "buf"),
    0x05: ("data2", 2, 2), 0x06: ("data4", 4, 4), 0x07: ("data8", 8, 8), 0x08: ("string", "str", "str"),
    0x09: ("block", "ublk", "buf"), 0x0a: ("block1", ("blk", 1), "buf"), 0x0b: ("data1", 1, 1), 0x0c: ("flag", 1, 1),
    0x0d: ("sdata", "leb", "sleb"), 0x0e: ("strp", "off", "pool"), 0x0f: ("udata", "leb", "uleb"),
    0x10: ("ref_addr", "refaddr", "refaddr"), 0x11: ("ref1", 1, 1), 0x12: ("ref2", 2, 2), 0x13: ("ref4", 4, 4),
    0x14: ("ref8", 8, 8), 0x15: ("ref_udata", "leb", "uleb"), 0x16: ("indirect", "rec", "rec"),
    0x17: ("sec_offset", "off", "off"), 0x18: ("exprloc", "ublk", "buf"), 0x19: ("flag_present", 0, "one"),
    0x1a: ("strx", "leb", "strx"), 0x1b: ("addrx", "leb", "addrx"), 0x1c: ("ref_sup4", 4, 4), 0x1d: ("strp_sup", "off", None),
    0x1e: ("data16", 16, None), 0x1f: ("line_strp", "off", "lpool"), 0x20: ("ref_sig8", 8, 8),
    0x21: ("implicit_const", 0, "imp"), 0x22: ("loclistx", "leb", "uleb"), 0x23: ("rnglistx", "leb", "uleb"),
    0x24: ("ref_sup8", 8, 8), 0x25: ("strx1", 1, "strx"), 0x26: ("strx2", 2, "strx"), 0x27: ("strx3", 3, "strx"),
    0x28: ("strx4", 4, "strx"), 0x29: ("addrx1", 1, "addrx"), 0x2a: ("addrx2", 2, "addrx"), 0x2b: ("addrx3", 3, "addrx"),
    0x2c: ("addrx4", 4, "addrx"), 0x1f01: ("GNU_addr_index", "leb", "addrx"), 0x1f02: ("GNU_str_index", "leb", "strx"),
}
# forms every DIE reader must be able to step over
CORE = [c for c in FORMS if FORMS[c][0] not in ("ref_sup4", "ref_sup8", "strp_sup", "loclistx")]


def size_of(kind, p, version):
    if isinstance(kind, int):
        return K(kind)
    if kind == "adr":
        return ADRSZ
    if kind == "off":
        return OFFSZ
    if kind == "refaddr":
        return ADRSZ if version == 2 else OFFSZ
    if kind == "leb":
        return leblen(p)
    if kind == "str":
        return add(atom(('strlen', p)), K(1))
    if kind == "ublk":
        return add(leblen(p), uleb(p))
    if isinstance(kind, tuple):
        return add(K(kind[1]), rd(kind[1], p))
    return None


def index_of(name, p):
    return rd(int(name[-1]), p) if name[-1].isdigit() else uleb(p)


def this_path(ip, name):
    return ('f', ('o', 'this'), name)


def check(prog, tier):
    r = Result("abstract interpretation of the DIE attribute skipper and decoder with the attribute form and DWARF "
               "version held constant: the number of bytes each consumes, and the value handed to the DIE handler, "
               "must be the standard's encoding of that form")
    ms = methods(prog, "CompilationUnit")
    skip = one([F for F in ms if [p["s"] for p in F.params] == ["p", "e32"] and F.d.get("ret") == "const char *"], "attribute skipper")
    proc = one([F for F in ms if F.d.get("ret") == "const char *" and [p["s"] for p in F.params][:4] == ["u64", "p", "e32", "e32"]],
               "attribute decoder")
    ver = ('f', this_path(None, "header_"), "version")
    enum = {int(c["v"]): c["n"] for c in prog.enums[NS + "DwarfForm"]["consts"]}
    for code, (name, _, _) in FORMS.items():
        r.count(obligations=1)
        have = [v for v, n in enum.items() if n == "DW_FORM_" + name]
        if have and have != [code]:
            r.add("DwarfForm|%s" % name, prog.enums[NS + "DwarfForm"]["file"] + ":1",
                  "attribute form %s has code 0x%x, the standard's is 0x%x" % (name, have[0], code))
    for version in (2, 3, 4, 5):
        for code, (name, skind, vkind) in sorted(FORMS.items()):
            adv = {}
            for F in (skip, proc):
                m = Model(recurse=[skip.key, proc.key], handler=lambda f: ".ProcessAttribute" in f.replace("::", ".") and
                          f.startswith(NS + "Dwarf2Handler"))
                ip = Interp(prog, consts=lambda loc: version if loc == ver else None, intercept=m.intercept)
                pi = 0 if F is skip else 1
                fi = 1 if F is skip else 3
                p = atom(('param', 64, False, F.params[pi]["n"]))
                rets, out = vn.run(ip, F, params={F.params[fi]["n"]: K(code)})
                rets = [v for v in set(rets)]
                r.count(obligations=1)
                if not rets:
                    # refused loudly (aborts): fine for forms outside the supported set
                    if F is skip and code in CORE and not (name == "implicit_const" and version < 5):
                        r.add("%s|%s" % (F.q, name), F.where(), "%s: form %s cannot be stepped over" % (F.q, name))
                    continue
                adv[F] = rets
                if skind == "rec":
                    q = add(p, leblen(p))
                    for v in rets:
                        ok = v[0] == 'lin' and len(v[2]) == 1 and v[2][0][0][0] == 'rec' and v[1] == 0
                        a = v[2][0][0][1:] if ok else ()
                        if not ok or a[pi] != q or a[fi] not in (uleb(p), vn.convert(uleb(p), 'u64', 'e32')):
                            r.add("%s|%s" % (F.q, name), F.where(), "%s: indirect form continues with %s" % (F.q, vn.show_val(v)))
                    continue
                want = add(p, size_of(skind, p, version))
                for v in rets:
                    if v != want:
                        r.add("%s|%s" % (F.q, name), F.where(), "%s: form %s (DWARF %d) advances to %s, the encoding ends at %s" % (
                            F.q, name, version, vn.show_val(v), vn.show_val(want)))
                if F is proc:
                    judge_value(r, F, m, name, vkind, p, version)
    r.sample("forms: " + ", ".join(v[0] for v in FORMS.values()))
    r.count(forms=len(FORMS))
    r.assumptions = ["a form the decoder refuses (process abort) is not mis-decoded",
                     "the fixed-width, LEB128 and offset reads themselves are the subject of P05"]
    return r


def judge_value(r, F, m, name, vkind, p, version):
    ev = list(m.events.values())
    r.count(obligations=1)
    if vkind is None:
        return

    def bad(got):
        r.add("%s|value %s" % (F.q, name), F.where(), "%s: form %s (DWARF %d) hands the handler %s" % (F.q, name, version, got))
    if len(ev) != 1:
        return bad("%d events" % len(ev))
    kind, av, n = ev[0]
    kind = kind[len("ProcessAttribute"):]
    data = av[3] if len(av) > 3 else None
    uns = {"adr": adr(p), "uleb": uleb(p), "off": off(p), "one": K(1),
           "refaddr": adr(p) if version == 2 else off(p)}
    if av[2] != K(next(c for c in FORMS if FORMS[c][0] == name)):
        return bad("the wrong form code")
    if isinstance(vkind, int):
        want = [("Unsigned", rd(vkind, p))]
    elif vkind in uns:
        want = [("Unsigned", uns[vkind])]
    elif vkind == "sleb":
        want = [("Signed", sleb(p))]
    elif vkind == "imp":
        want = [("Signed", atom(('param', 64, True, F.params[4]["n"])))]
    elif vkind == "str":
        want = [("String", p)]
    elif vkind == "buf":
        skind = FORMS[next(c for c in FORMS if FORMS[c][0] == name)][1]
        w, ln = (skind[1], rd(skind[1], p)) if isinstance(skind, tuple) else (None, uleb(p))
        if kind != "Buffer" or data != (add(p, K(w)) if w else add(p, leblen(p))) or av[4] != ln:
            return bad("%s(%s, %s)" % (kind, vn.show_val(data), vn.show_val(av[4]) if len(av) > 4 else ""))
        return
    elif vkind in ("pool", "lpool", "strx"):
        pool = atom(('init', 64, False, ('f', ('o', 'this'), 'line_str_buffer_' if vkind == "lpool" else 'string_buffer_')))
        if vkind == "strx":
            tab = atom(('init', 64, False, ('f', ('o', 'this'), 'str_offsets_buffer_')))
            o = [x for x in [data] if x[0] == 'lin' and len(x[2]) == 1 and x[2][0][0][0] == 'cstr']
            if kind != "String" or not o or o[0][2][0][0][1] != pool:
                return bad("%s(%s)" % (kind, vn.show_val(data)))
            offv = o[0][2][0][0][2]
            if offv[0] != 'lin' or len(offv[2]) != 1 or offv[2][0][0][0] != 'off':
                return bad("string offset " + vn.show_val(offv))
            ptr = offv[2][0][0][1]
            idx = mul(index_of(name, p), OFFSZ)
            rest = add(add(ptr, tab, -1), idx, -1)
            # DWARF 5 adds the unit's base; earlier versions none
            okbase = rest == K(0) if version < 5 else (rest[0] == 'lin' and rest[1] == 0 and len(rest[2]) == 1 and
                                                       rest[2][0][1] == 1 and depends(rest, lambda a: a[0] in ('init', 'callw', 'load') and
                                                                                      'str_offset_base' in repr(a)))
            if not okbase:
                return bad("string offset read from " + vn.show_val(ptr))
            return
        want = [("String", atom(('cstr', pool, off(p))))]
    elif vkind == "addrx":
        tab = atom(('init', 64, False, ('f', ('o', 'this'), 'addr_buffer_')))
        if kind != "Unsigned" or data[0] != 'lin' or len(data[2]) != 1 or data[2][0][0][0] != 'adr':
            return bad("%s(%s)" % (kind, vn.show_val(data)))
        ptr = data[2][0][0][1]
        rest = add(add(ptr, tab, -1), mul(index_of(name, p), ADRSZ), -1)
        if rest[0] != 'lin' or rest[1] or len(rest[2]) != 1 or 'addr_base' not in repr(rest):
            return bad("address read from " + vn.show_val(ptr))
        return
    if (kind, data) not in want:
        bad("%s(%s) instead of %s" % (kind, vn.show_val(data), vn.show_val(want[0][1])))
