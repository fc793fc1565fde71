"""Contracts of builtins, string/list/dict methods and library functions (assumed; listed in evidence)."""
import ast
import types
import os
import warnings as _warnings
import gettext as _gettext
import z3

from .values import *          # noqa: F401,F403
from . import interp as I


# ---------------------------------------------------------------- strings
def to_str(ip, st, v):
    """str(v) -> [(st, str-value)]"""
    if isinstance(v, SUnion):
        # merge as text
        res = []
        for g, x in v.alts:
            s = st.fork(g)
            if not s.dead():
                res.extend(to_str(ip, s, x))
        return ip.merge_results(res)
    if is_str(v):
        return [(st, v)]
    if v is None or isinstance(v, (bool, int, float, bytes)):
        return [(st, str(v))]
    if isinstance(v, SBool):
        return [(st, merge_str(v.z, "True", "False"))]
    if isinstance(v, SInt):
        return [(st, mk_str([IntS(v.z)]))]
    if isinstance(v, Ref):
        h = ip.get(st, v)
        if isinstance(h, HInst):
            f, _ = ip.class_lookup(h.cls, "__str__")
            if isinstance(f, types.FunctionType) and not (issubclass(h.cls, BaseException) and not ip.inline_ok(f)):
                return ip.call(st, f, [v], {})
            if issubclass(h.cls, BaseException):
                return [(st, mk_str([Atom(z3.String("excstr!%d" % fresh_id()))]))]
        return [(st, mk_str([Atom(z3.String("repr!%d" % v.id))]))]
    if isinstance(v, tuple):
        return [(st, mk_str([Atom(z3.String("repr!%d" % fresh_id()))]))]
    if isinstance(v, I.Opaque):
        return [(st, mk_str([Atom(z3.String("str!" + v.name))]))]
    if isinstance(v, type):
        return [(st, str(v))]
    return [(st, mk_str([Atom(z3.String("repr!%d" % fresh_id()))]))]


def to_repr(ip, st, v):
    if ip.is_conc(v) and isinstance(v, (str, int, bool, float, type(None))):
        return [(st, repr(v))]
    return [(st, mk_str([Atom(z3.String("repr!%d" % fresh_id()))]))]


def parse_format(fmt):
    """-> list of literal | (key or None, conv)"""
    out, i, lit = [], 0, ""
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            lit += c
            i += 1
            continue
        i += 1
        if i >= len(fmt):
            raise ValueError("incomplete format")
        if fmt[i] == "%":
            lit += "%"
            i += 1
            continue
        key = None
        if fmt[i] == "(":
            j = fmt.index(")", i)
            key = fmt[i + 1:j]
            i = j + 1
        j = i
        while fmt[j] in "-+ #0123456789.":
            j += 1
        if j != i:
            raise Unsupported("format flags")
        conv = fmt[j]
        i = j + 1
        if lit:
            out.append(lit)
            lit = ""
        out.append((key, conv))
    if lit:
        out.append(lit)
    return out


def format_(ip, st, fmt, arg):
    if isinstance(fmt, SStr):
        # symbolic template: a message; opaque result
        if len(fmt.parts) == 1 and isinstance(fmt.parts[0], Cho):
            res = []
            for g, s in fmt.parts[0].alts:
                s2 = st.fork(g)
                if not s2.dead():
                    res.extend(format_(ip, s2, mk_str([s]), arg))
            return ip.merge_results(res)
        if len(fmt.parts) > 1 and isinstance(fmt.parts[-1], str) and all(
                not (isinstance(p, str) and "%" in p) for p in fmt.parts[:-1]) and not any(isinstance(p, (Atom, JoinP)) and "%" not in getattr(getattr(p, "dom", ANY), "no", ()) for p in fmt.parts[:-1]):
            return [(s, mk_str(list(fmt.parts[:-1]) + [t])) for s, t in format_(ip, st, fmt.parts[-1], arg)]
        raise Unsupported("symbolic format string")
    try:
        spec = parse_format(fmt)
    except ValueError:
        ip.raise_new(st, ValueError, "format")
        return []
    convs = [x for x in spec if not isinstance(x, str)]
    keyed = any(k is not None for k, _ in convs)
    res = [(st, [])]
    if keyed:
        h = ip.get(st, arg) if isinstance(arg, Ref) else None
        if not isinstance(h, HDict):
            ip.raise_new(st, TypeError, "format requires a mapping")
            return []

        def fetch(k, idx, s):
            if k not in h.d:
                ip.raise_new(s, KeyError, k)
                return ABSENT
            return h.d[k]
    else:
        if isinstance(arg, SUnion) and any(isinstance(x, tuple) for _, x in arg.alts):
            return ip.each(st, arg, lambda s, x: format_(ip, s, fmt, x))
        args = arg if isinstance(arg, tuple) else (arg,)
        if isinstance(arg, Ref) and isinstance(ip.get(st, arg), HDict) and not convs:
            args = ()
        if len(args) != len(convs):
            ip.raise_new(st, TypeError, "not enough/all arguments converted")
            return []

        def fetch(k, idx, s):
            return args[idx]
    idx = 0
    for x in spec:
        nxt = []
        for s, ps in res:
            if isinstance(x, str):
                nxt.append((s, ps + [x]))
                continue
            v = fetch(x[0], idx, s)
            if v is ABSENT:
                continue
            if x[1] == "s":
                for s2, t in to_str(ip, s, v):
                    nxt.append((s2, ps + [t]))
            elif x[1] in "di":
                for s2, t in fmt_int(ip, s, v):
                    nxt.append((s2, ps + [t]))
            elif x[1] == "r":
                for s2, t in to_repr(ip, s, v):
                    nxt.append((s2, ps + [t]))
            else:
                raise Unsupported("format %%%s" % x[1])
        if not isinstance(x, str):
            idx += 1
        res = nxt
    return ip.merge_results([(s, mk_str(ps)) for s, ps in res])


def fmt_int(ip, st, v):
    if isinstance(v, SUnion):
        return ip.each(st, v, lambda s, x: fmt_int(ip, s, x))
    if isinstance(v, bool):
        return [(st, str(int(v)))]
    if isinstance(v, int):
        return [(st, str(v))]
    if isinstance(v, SInt):
        return [(st, mk_str([IntS(v.z)]))]
    if isinstance(v, SBool):
        return [(st, merge_str(v.z, "1", "0"))]
    if isinstance(v, float):
        return [(st, "%d" % v)]
    ip.raise_new(st, TypeError, "%d format: a number is required")
    return []


def fn_atom(ip, name, s, dom=ANY):
    """apply the uninterpreted library function `name` to a rope"""
    z = zfun(name, z3.StringSort(), z3.StringSort())(rope_z(s))
    return SStr((Atom(z, dom, name, s),))


def case_fn(name):
    def f(ip, st, s):
        if isinstance(s, str):
            return getattr(s, name)()
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.append(getattr(p, name)())
            elif isinstance(p, IntS):
                out.append(p)
            elif isinstance(p, Atom):
                if p.fn == name:
                    out.append(p)
                    continue
                a = fn_atom(ip, name, SStr((p,)), Dom(nonempty=p.dom.nonempty, nodash=p.dom.nodash,
                                                      no=frozenset(c for c in p.dom.no if not c.isalpha())))
                z = a.parts[0].z
                ip.axioms.append((z == z3.StringVal("")) == (p.z == z3.StringVal("")))
                out.append(a)
            elif isinstance(p, Cho):
                out.append(Cho([(g, as_rope(f(ip, st, mk_str([x])))) for g, x in p.alts]))
            else:
                raise Unsupported("%s of join" % name)
        return mk_str(out)
    return f


lower_, upper_ = case_fn("lower"), case_fn("upper")


def no_edge_ws(p, chars):
    """part certainly neither starts nor ends with one of chars (and is nonempty)"""
    if isinstance(p, IntS):
        return not (set("0123456789-") & set(chars))
    if isinstance(p, Atom):
        return p.dom.nonempty and set(chars) <= p.dom.no
    return False


def ws_first(z):
    c = z3.SubString(z, 0, 1)
    return z3.Or(*[c == z3.StringVal(x) for x in WS])


def strip_(ip, s, chars, left=True, right=True):
    """None chars = whitespace"""
    cs = chars if chars is not None else WS
    if isinstance(s, str):
        r = s
        if left:
            r = r.lstrip(chars)
        if right:
            r = r.rstrip(chars)
        return r
    ps = list(s.parts)
    if len(ps) == 1 and isinstance(ps[0], JoinP) and chars is None and left and right and ps[0].sep.strip() == "":
        # blank exactly when every joined text is
        some = False
        for i in ps[0].items:
            t = as_rope(strip_(ip, i.v if isinstance(i, Item) else i.elem, None))
            ne = ip.str_nonempty(t)
            some = Or(some, And(i.g, ne) if isinstance(i, Item) else And(i.g, ip.exists(i.seq, And(i.filt, ne))))
        core = fn_atom(ip, "strip", s, Dom(nonempty=True))
        return mk_cho([(Not(some), as_rope("")), (some, as_rope(core))])
    if len(ps) > 1 and set(cs) <= rope_no(SStr(tuple(ps))):
        return mk_str(ps)
    if left:
        while ps:
            p = ps[0]
            if isinstance(p, Cho) and edge_clean(ps, cs, True):
                break
            if isinstance(p, str):
                q = p.lstrip(cs)
                if q:
                    ps[0] = q
                    break
                ps.pop(0)
                continue
            if no_edge_ws(p, cs):
                break
            if isinstance(p, Atom) and p.dom.ws and set(WS) <= set(cs):
                ps.pop(0)
                continue
            if isinstance(p, Cho):
                alts = []
                simple = True
                for g, x in p.alts:
                    t = as_rope(strip_(ip, mk_str([x]), chars, True, False))
                    if not (ip.str_nonempty(t) is True):
                        simple = False
                    alts.append((g, t))
                if simple or len(ps) == 1:
                    ps[0] = Cho(alts)
                    break
                # distribute over the rest
                return mk_cho([(g, as_rope(strip_(ip, mk_str([x] + ps[1:]), chars, left, right))) for g, x in p.alts])
            if isinstance(p, JoinP) and clean_edges(ip, p, cs, True):
                r = join_edge(ip, ps, cs, chars, True)
                if r is None:
                    break
                return mk_cho([(g, as_rope(strip_(ip, mk_str([x]), chars, False, True))) for g, x in r.parts[0].alts]) if right else r
            if isinstance(p, Atom) and len(ps) == 1:
                if set(cs) <= p.dom.no:
                    break
                nm = "strip" if (left and right) else ("lstrip" if left else "rstrip")
                key = nm + ("" if chars is None else ":" + chars)
                if p.fn == key or (p.fn or "").startswith("strip") and chars is None and p.fn == "strip":
                    return mk_str(ps)
                a = fn_atom(ip, key, SStr((p,)), Dom(no=p.dom.no))
                ip.axioms.append(z3.Implies(a.parts[0].z != z3.StringVal(""), p.z != z3.StringVal("")))
                if chars is None:
                    ip.fn_axiom(a.parts[0].z, z3.Implies(a.parts[0].z == z3.StringVal(""), z3.Or(p.z == z3.StringVal(""), ws_first(p.z))))
                return a
            if isinstance(p, Atom) and set(cs) <= p.dom.no:
                # may be empty: then the next part is at the edge
                nxt = ps[1]
                if no_edge_ws(nxt, cs) or (isinstance(nxt, str) and nxt[0] not in cs):
                    break
            if getattr(ip, "loose", False):         # an unknown text: enough where only writes matter
                return fn_atom(ip, "strip%d%d:%s" % (left, right, chars), s, Dom())
            raise Unsupported("strip of %r" % (p,))
    if right:
        while ps:
            p = ps[-1]
            if isinstance(p, Cho) and edge_clean(ps, cs, False):
                break
            if isinstance(p, str):
                q = p.rstrip(cs)
                if q:
                    ps[-1] = q
                    break
                ps.pop()
                continue
            if no_edge_ws(p, cs):
                break
            if isinstance(p, Atom) and p.dom.ws and set(WS) <= set(cs):
                ps.pop()
                continue
            if isinstance(p, Atom) and len(ps) > 1 and chars is None and (isinstance(ps[0], str) and ps[0][0] not in WS or no_edge_ws(ps[0], WS)):
                # text starting with something that is no blank: strip only touches its tail
                k = max(i for i in range(len(ps) - 1) if no_edge_ws(ps[i], WS) or isinstance(ps[i], str) and ps[i][-1] not in WS or i == 0)
                return mk_str(ps[:k + 1] + [fn_atom(ip, "rstrip-tail", SStr(tuple(ps[k + 1:])), Dom()).parts[0]])
            if isinstance(p, Cho):
                alts = []
                simple = True
                for g, x in p.alts:
                    t = as_rope(strip_(ip, mk_str([x]), chars, False, True))
                    if not (ip.str_nonempty(t) is True):
                        simple = False
                    alts.append((g, t))
                if simple or len(ps) == 1:
                    ps[-1] = Cho(alts)
                    break
                prev = ps[-2]
                if no_edge_ws(prev, cs) or (isinstance(prev, str) and prev[-1] not in cs):
                    ps[-1] = Cho(alts)
                    break
                return mk_cho([(g, as_rope(strip_(ip, mk_str(ps[:-1] + [x]), chars, False, True))) for g, x in p.alts])
            if isinstance(p, Atom) and len(ps) == 1:
                if set(cs) <= p.dom.no:
                    break
                key = "rstrip" + ("" if chars is None else ":" + chars)
                if p.fn in (key, "strip"):
                    return mk_str(ps)
                a = fn_atom(ip, key, SStr((p,)), Dom(no=p.dom.no))
                if chars is None:
                    ip.fn_axiom(a.parts[0].z, z3.Implies(a.parts[0].z == z3.StringVal(""), z3.Or(p.z == z3.StringVal(""), ws_first(p.z))))
                return a
            if isinstance(p, Atom) and set(cs) <= p.dom.no:
                prv = ps[-2]
                if no_edge_ws(prv, cs) or (isinstance(prv, str) and prv[-1] not in cs):
                    break
            if isinstance(p, JoinP):
                ok = all(set(cs) <= el_no(i) for i in p.items) and not set(p.sep) & set(cs)
                if ok and ps[:-1]:
                    break
                if clean_edges(ip, p, cs, False):
                    r = join_edge(ip, ps, cs, chars, False)
                    if r is None:
                        break
                    return r
            if getattr(ip, "loose", False):         # an unknown text: enough where only writes matter
                return fn_atom(ip, "strip%d%d:%s" % (left, right, chars), s, Dom())
            raise Unsupported("strip of %r" % (p,))
    return mk_str(ps)


def edge_clean(ps, cs, left):
    """a text (list of parts) surely has no character of cs at its edge; False when that is not known or it may be empty"""
    for p in (ps if left else reversed(ps)):
        if isinstance(p, str):
            return bool(p) and p[0 if left else -1] not in cs
        if no_edge_ws(p, cs):
            return True
        if not isinstance(p, Cho):
            return False
        if not all(not as_rope(x).parts or edge_clean(list(as_rope(x).parts), cs, left) for _, x in p.alts):
            return False
        if all(as_rope(x).parts for _, x in p.alts):
            return True
    return False


def clean_edges(ip, p, cs, left):
    """every joined text is non-empty and does not start (end) with a character of cs"""
    for i in p.items:
        e = as_rope(i.v if isinstance(i, Item) else i.elem)
        ne = norm(ip.str_nonempty(e))
        if ne is not True and (isinstance(i, Item) or ip.feasible([i.filt, Not(ne)])):
            return False
        q = e.parts[0 if left else -1]
        if isinstance(q, str):
            if q[0 if left else -1] in cs:
                return False
        elif not (no_edge_ws(q, cs) or set(cs) <= rope_no(e)):
            return False
    return True


def join_edge(ip, ps, cs, chars, left):
    """a list of texts at the edge: None when nothing is to be removed, else the case where it is empty is apart"""
    p = ps[0] if left else ps[-1]
    rest = ps[1:] if left else ps[:-1]
    ne = norm(ip.items_nonempty(p.items))
    if ne is True or not rest:
        return None
    e = rest[0] if left else rest[-1]
    if no_edge_ws(e, cs) or isinstance(e, str) and e[0 if left else -1] not in cs:
        return None
    empty = strip_(ip, mk_str(rest), chars, left, not left)
    return mk_cho([(ne, as_rope(mk_str(ps))), (Not(ne), as_rope(empty))])


def el_no(i):
    v = i.v if isinstance(i, Item) else i.elem
    return rope_no(v)


ALLCH = frozenset(chr(c) for c in range(256))


def rope_no(v):
    """set of (latin-1) characters that cannot occur in the string value"""
    if isinstance(v, str):
        return ALLCH - set(v)
    if not isinstance(v, SStr):
        return frozenset()
    no = ALLCH
    for p in v.parts:
        if isinstance(p, str):
            no = no - set(p)
        elif isinstance(p, IntS):
            no = no - set("-0123456789")
        elif isinstance(p, Atom):
            no = no & p.dom.no
        elif isinstance(p, Cho):
            for _, x in p.alts:
                no = no & rope_no(x)
        elif isinstance(p, JoinP):
            no = no - set(p.sep)
            for i in p.items:
                no = no & el_no(i)
    return no


def prefix_g(ip, s, lit):
    """guard for s.startswith(lit)"""
    if isinstance(s, str):
        return s.startswith(lit)
    if lit == "":
        return True
    ps = list(s.parts)
    p = ps[0]
    if isinstance(p, str):
        n = min(len(p), len(lit))
        if p[:n] != lit[:n]:
            return False
        if len(lit) <= len(p):
            return True
        return prefix_g(ip, mk_str(ps[1:]), lit[n:])
    if isinstance(p, Cho):
        return Or(*[And(g, prefix_g(ip, mk_str([x] + ps[1:]), lit)) for g, x in p.alts])
    if isinstance(p, Atom):
        if p.dom.nonempty and lit[0] in p.dom.no:
            return False
        if p.dom.ws and p.dom.nonempty and lit[0] not in WS:
            return False
        if p.dom.one:
            return And(p.z == z3.StringVal(lit[0]), prefix_g(ip, mk_str(ps[1:]), lit[1:]) if lit[1:] else True)
        if p.dom.nodash and p.dom.nonempty and lit[0] == "-":
            return False
        if len(ps) == 1 and (set(lit) & p.dom.no):
            return False
        if len(ps) == 1:
            return z3.PrefixOf(z3.StringVal(lit), p.z)
        if lit[0] in p.dom.no or (p.dom.nodash and lit[0] == "-"):
            return And(p.z == z3.StringVal(""), prefix_g(ip, mk_str(ps[1:]), lit))
        if len(lit) == 1 and p.dom.nonempty:
            return z3.PrefixOf(z3.StringVal(lit), p.z)
        return z3.PrefixOf(z3.StringVal(lit), rope_z(s))
    if isinstance(p, IntS):
        if lit[0] not in "-0123456789":
            return False
        if lit == "-":
            return p.z < 0
    if isinstance(p, JoinP) and len(p.items) == 1 and len(lit) == 1:
        el = p.items[0].elem if isinstance(p.items[0], Star) else p.items[0].v
        g = prefix_g(ip, el, lit)
        if g is False:
            if len(ps) == 1:
                return False
        # first element unknown: fresh
    return z3.PrefixOf(z3.StringVal(lit), rope_z(s))


def suffix_g(ip, s, lit):
    if isinstance(s, str):
        return s.endswith(lit)
    if lit == "":
        return True
    ps = list(s.parts)
    p = ps[-1]
    if isinstance(p, str):
        n = min(len(p), len(lit))
        if p[-n:] != lit[-n:]:
            return False
        if len(lit) <= len(p):
            return True
        return suffix_g(ip, mk_str(ps[:-1]), lit[:-n])
    if isinstance(p, Cho):
        return Or(*[And(g, suffix_g(ip, mk_str(ps[:-1] + [x]), lit)) for g, x in p.alts])
    if isinstance(p, Atom):
        if lit[-1] in p.dom.no and p.dom.nonempty:
            return False
        if len(ps) == 1 and (set(lit) & p.dom.no):
            return False
        return z3.SuffixOf(z3.StringVal(lit), rope_z(s))
    return z3.SuffixOf(z3.StringVal(lit), rope_z(s))


def contains_g(ip, s, lit):
    if isinstance(s, str):
        return lit in s
    if lit == "":
        return True
    if len(lit) == 1:
        if lit in rope_no(s):
            return False
        gs = []
        for p in s.parts:
            if isinstance(p, str):
                if lit in p:
                    return True
            elif isinstance(p, Cho):
                gs.append(Or(*[And(g, contains_g(ip, mk_str([x]), lit)) for g, x in p.alts]))
            elif isinstance(p, Atom):
                if lit not in p.dom.no:
                    gs.append(z3.Contains(p.z, z3.StringVal(lit)))
            elif isinstance(p, IntS):
                if lit in "-0123456789":
                    gs.append(z3.Contains(rope_z(SStr((p,))), z3.StringVal(lit)))
            else:
                gs.append(z3.Contains(rope_z(SStr((p,))), z3.StringVal(lit)))
        return Or(*gs)
    if any(isinstance(p, str) and lit in p for p in s.parts):
        return True
    if set(lit) & rope_no(s):
        return False
    if any(isinstance(p, Cho) for p in s.parts) and len(s.parts) == 1:
        return Or(*[And(g, contains_g(ip, mk_str([x]), lit)) for g, x in s.parts[0].alts])
    return z3.Contains(rope_z(s), z3.StringVal(lit))


_splits = {}


def split_(ip, st, s, sep, maxsplit=None):
    """-> [(st, HList items)]"""
    if isinstance(s, str):
        r = s.split(sep) if maxsplit is None else s.split(sep, maxsplit)
        return [(st, [Item(True, x) for x in r])]
    if maxsplit is not None:
        if maxsplit == 1:
            res = []
            for s1, (a, b, c) in partition_(ip, st, s, sep):
                t = ip.truth(s1, b)
                y, n = ip.branch(s1, t)
                if y is not None:
                    res.append((y, [Item(True, a), Item(True, c)]))
                if n is not None:
                    res.append((n, [Item(True, a)]))
            return res
        raise Unsupported("split with maxsplit")
    ps = list(s.parts)
    if sep is not None and all(c in rope_no(s) for c in sep[:1]):
        return [(st, [Item(True, s)])]
    # pure choice: distribute
    if len(ps) == 1 and isinstance(ps[0], Cho):
        out = []
        for g, x in ps[0].alts:
            s1 = st.fork(g)
            if not s1.dead():
                out.extend(split_(ip, s1, mk_str([x]), sep))
        return out
    if sep is None:
        core = as_rope(strip_(ip, s, None))
        if not core.parts:
            return [(st, [])]
        if isinstance(core.parts[0], str) or no_edge_ws(core.parts[0], WS):
            w0 = first_word(ip, core)
            ip.assumed.add("str.split() is a function of its text")
            q = ip.seq("words(%s)" % rope_z(core), Dom(no=WS, nonempty=True, name="word"))
            return [(st, [Item(True, w0), Star(True, q, q.val)])]
        if getattr(ip, "split_words", False):
            ip.assumed.add("str.split() is a function of its text")
            q = ip.seq("all words(%s)" % rope_z(core), Dom(no=WS, nonempty=True, name="word"))
            return [(st, [Star(True, q, q.val)])]
    if sep is not None and len(sep) == 1:
        # one atom: open it as join(sep, seq)
        if len(ps) == 1 and isinstance(ps[0], Atom):
            a = ps[0]
            key = (a.z.sexpr(), sep)
            if key not in ip.splits:
                q = ip.seq("split(%s,%s)" % (a.z, sep), Dom(no=a.dom.no | {sep}, name="piece"))
                # len>=1; the join equals the atom; if the atom is nonempty and len==1 the element is the atom
                ip.axioms.append(q.len >= 1)
                ip.axioms.append(z3.Implies(z3.Not(z3.Contains(a.z, z3.StringVal(sep))),
                                            z3.And(q.len == 1, q.e == a.z)))
                q.origin = (a, sep)
                ip.splits[key] = q
            q = ip.splits[key]
            return [(st, [Star(True, q, q.val)])]
        if len(ps) == 1 and isinstance(ps[0], JoinP) and ps[0].sep == sep:
            j = ps[0]
            if all(sep in el_no(i) for i in j.items):
                ne = ip.items_nonempty(j.items)
                a, b = ip.branch(st, ne)
                out = []
                if a is not None:
                    out.append((a, list(j.items)))
                if b is not None:
                    out.append((b, [Item(True, "")]))
                return out
        # literal separators between parts without sep
        if all(isinstance(p, str) or sep in rope_no(SStr((p,))) for p in ps):
            pieces, cur = [], []
            for p in ps:
                if isinstance(p, str):
                    bits = p.split(sep)
                    cur.append(bits[0])
                    for b in bits[1:]:
                        pieces.append(mk_str(cur))
                        cur = [b]
                else:
                    cur.append(p)
            pieces.append(mk_str(cur))
            return [(st, [Item(True, p) for p in pieces])]
    raise Unsupported("split of %r by %r" % (s, sep))


def first_word(ip, core, fn="wordtail"):
    """first blank-separated word of a text whose first part is a literal or a single known character"""
    p = core.parts[0]
    head = p
    if isinstance(p, str):
        bits = p.split(None, 1)
        if len(bits) > 1 or p[-1:] in WS:
            return bits[0]
    rest = core.parts[1:]
    if not rest:
        return mk_str([head])
    t = fn_atom(ip, fn, SStr(tuple(rest)), Dom(no=WS, name="word"))
    return mk_str([head, t.parts[0]])


def m_shlex_split(ip, st, args, kw):
    """shlex.split(text, comments): fails with ValueError or gives the words, both functions of the text.  The first
    word of a text starting with a percent sign starts with one; a first word that is a plain section tag is the same
    under both readings."""
    v = args[0] if args else kw.get("s")
    com = args[1] if len(args) > 1 else kw.get("comments", False)
    if len(args) > 2 or set(kw) - {"s", "comments"} or not isinstance(com, bool):
        raise Unsupported("shlex.split arguments")

    def f(s, x):
        if isinstance(x, str):
            import shlex
            try:
                r = shlex.split(x, comments=com)
            except ValueError as e:
                ip.raise_new(s, ValueError, *e.args)
                return []
            s = s.fork()
            return [(s, ip.new_list(s, r))]
        if not isinstance(x, SStr):
            raise Unsupported("shlex.split of a non-string")
        ip.assumed.add("shlex.split is a function of its text and flag; a plain first word is kept as it is")
        core = as_rope(strip_(ip, x, None))
        if not core.parts:
            s = s.fork()
            return [(s, ip.new_list(s, []))]
        p = core.parts[0]
        z = rope_z(core)
        tag = "shlex%d" % com
        if isinstance(p, str) and p[0] == "#":
            if com:
                s = s.fork()
                return [(s, ip.new_list(s, []))]
            w0 = first_word(ip, core, tag + "tail")
        elif isinstance(p, str) and p[0] == "%":
            w0 = first_word(ip, core, tag + "tail")
            plain = first_word(ip, core)
            for lit in ip.plain_words:
                if callable(lit):
                    a, b, q = lit(plain), lit(w0), ip.eq(s, w0, plain)
                    ip.axioms.append(bz(And(Implies(Or(a, b), q), Implies(q, Iff(a, b)))))
                else:
                    ip.axioms.append(bz(Implies(ip.eq(s, plain, lit), ip.eq(s, w0, lit))))
        else:
            w0 = fn_atom(ip, tag + "word0", core, Dom())
        bad = zfun(tag + "bad", z3.StringSort(), z3.BoolSort())(z)
        a, b = ip.branch(s, bad)
        if a is not None:
            ip.raise_new(a, ValueError, "No closing quotation")
        if b is None:
            return []
        q = ip.seq("%swords(%s)" % (tag, z), ANY)
        b = b.fork()
        return [(b, ip.new(b, HList((Item(True, w0), Star(True, q, q.val)))))]
    return ip.each(st, v, f)


def split_piece(ip, seq, k):
    """(guard: the split has more than k pieces, the k-th piece) for a Seq made by split"""
    a, sep = seq.origin
    SS = z3.StringSort()
    h = z3.Function("phead:" + sep, SS, SS)
    t = z3.Function("ptail:" + sep, SS, SS)
    sz = z3.StringVal(sep)
    rest, ge = a.z, True
    for i in range(k + 1):
        c = z3.Contains(rest, sz)
        ip.axioms.append(z3.Implies(c, rest == z3.Concat(h(rest), sz, t(rest))))
        ip.axioms.append(z3.Not(z3.Contains(h(rest), sz)))
        ip.axioms.append((seq.len > i + 1) == bz(And(ge, c)))
        if i < k:
            ge = And(ge, c)
            rest = t(rest)
    return ge, mk_cho([(z3.Contains(rest, sz), SStr((Atom(h(rest), Dom(no=a.dom.no | {sep})),))),
                       (z3.Not(z3.Contains(rest, sz)), SStr((Atom(rest, Dom(no=a.dom.no | {sep})),)))])


def partition_(ip, st, s, sep):
    """-> [(st, (a, b, c))]"""
    if isinstance(s, str):
        return [(st, s.partition(sep))]
    c = contains_g(ip, s, sep)
    y, n = ip.branch(st, c)
    out = []
    if n is not None:
        out.append((n, (s, "", "")))
    if y is not None:
        ps = list(s.parts)
        # a leading literal containing sep decides
        if isinstance(ps[0], str) and sep in ps[0]:
            a, b, r = ps[0].partition(sep)
            out.append((y, (a, b, mk_str([r] + ps[1:]))))
        else:
            pre, i = [], 0
            while i < len(ps) and len(sep) == 1 and not isinstance(ps[i], str) and sep in rope_no(SStr((ps[i],))):
                pre.append(ps[i])
                i += 1
            if pre and i < len(ps) and isinstance(ps[i], str) and sep in ps[i]:
                a, b, r = ps[i].partition(sep)
                out.append((y, (mk_str(pre + [a]), b, mk_str([r] + ps[i + 1:]))))
            else:
                z = rope_z(s)
                h = z3.Function("phead:" + sep, z3.StringSort(), z3.StringSort())(z)
                t = z3.Function("ptail:" + sep, z3.StringSort(), z3.StringSort())(z)
                ip.axioms.append(z3.Implies(z3.Contains(z, z3.StringVal(sep)), z == z3.Concat(h, z3.StringVal(sep), t)))
                ip.axioms.append(z3.Not(z3.Contains(h, z3.StringVal(sep))))
                no = rope_no(s)
                out.append((y, (SStr((Atom(h, Dom(no=no | set(sep) if len(sep) == 1 else no)),)), sep, SStr((Atom(t, Dom(no=no)),)))))
    return out


def replace_(ip, s, old, new):
    if isinstance(s, str):
        return s.replace(old, new)
    if len(old) != 1:
        if all(c in rope_no(s) for c in old[:1]):
            return s
        if len(s.parts) == 1 and isinstance(s.parts[0], Cho):
            return mk_cho([(g, as_rope(replace_(ip, mk_str([x]), old, new))) for g, x in s.parts[0].alts])
        raise Unsupported("replace")
    out = []
    for p in s.parts:
        if isinstance(p, str):
            out.append(p.replace(old, new))
        elif old in rope_no(SStr((p,))):
            out.append(p)
        elif isinstance(p, Cho):
            out.append(Cho([(g, as_rope(replace_(ip, mk_str([x]), old, new))) for g, x in p.alts]))
        elif isinstance(p, Atom):
            out.append(fn_atom(ip, "replace:%s:%s" % (old, new), SStr((p,)), Dom(nonempty=p.dom.nonempty and bool(new))))
        else:
            raise Unsupported("replace in join")
    return mk_str(out)


def join_(ip, st, sep, items):
    if not isinstance(sep, str):
        raise Unsupported("symbolic separator")
    vals = []
    for i in items:
        v = i.v if isinstance(i, Item) else i.elem
        if isinstance(v, SUnion):
            if all(is_str(x) for _, x in v.alts):
                v = mk_cho(v.alts)
            else:
                bad = [g for g, x in v.alts if not is_str(x)]
                s = st.fork(And(i.g, Or(*bad)))
                if not s.dead():
                    ip.raise_new(s, TypeError, "join of non-string")
                good = [(g, x) for g, x in v.alts if is_str(x)]
                if not good:
                    return []
                v = mk_union(good)
                st = st.fork(Implies(i.g, Or(*[g for g, _ in good])))
        if not is_str(v):
            s = st.fork(i.g if isinstance(i, Item) else i.nonempty())
            if not s.dead():
                ip.raise_new(s, TypeError, "join of non-string")
            st = st.fork(Not(i.g if isinstance(i, Item) else i.nonempty()))
            if st.dead():
                return []
            continue
        vals.append(Item(i.g, v) if isinstance(i, Item) else Star(i.g, i.seq, v, i.filt))
    if all(isinstance(i, Item) and i.g is True for i in vals):
        parts = []
        for n, i in enumerate(vals):
            if n:
                parts.append(sep)
            parts.append(i.v)
        return [(st, mk_str(parts))]
    if sep == "":
        parts = []
        for i in vals:
            if isinstance(i, Item):
                parts.append(i.v if i.g is True else Cho(((i.g, as_rope(i.v)), (Not(i.g), SStr(())))))
            else:
                parts.append(JoinP("", [i]))
        return [(st, mk_str(parts))]
    # whole list absent or present under the same guard
    gs = [i.g for i in vals]
    g0 = gs[0]
    if g0 is not True and all(geq(norm(g), norm(g0)) for g in gs):
        return [(s, merge_str(g0, t, "")) for s, t in join_(ip, st, sep, [
            Item(True, i.v) if isinstance(i, Item) else Star(True, i.seq, i.elem, i.filt) for i in vals])]
    if len(vals) == 1 and isinstance(vals[0], Item):
        return [(st, merge_str(vals[0].g, vals[0].v, ""))]
    # law: sep.join(s.split(sep)) == s
    if len(vals) == 1 and isinstance(vals[0], Star) and vals[0].filt is True and vals[0].g is True:
        o = getattr(vals[0].seq, "origin", None)
        if o and o[1] == sep and same(vals[0].elem, vals[0].seq.val):
            return [(st, SStr((o[0],)))]
    return [(st, mk_str([JoinP(sep, vals)]))]


def dedupe_items(ip, st, items):
    out = []
    for i in items:
        if isinstance(i, Item) and i.g is True and any(isinstance(o, Item) and o.g is True and same(o.v, i.v) for o in out):
            continue
        out.append(i)
    return out


# ---------------------------------------------------------------- iteration / indexing
def iterate(ip, st, v):
    """-> [(st, items)]"""
    if isinstance(v, SUnion):
        out = []
        for g, x in v.alts:
            s = st.fork(g)
            if not s.dead():
                out.extend(iterate(ip, s, x))
        return out
    if isinstance(v, tuple):
        return [(st, [Item(True, x) for x in v])]
    if isinstance(v, str):
        return [(st, [Item(True, c) for c in v])]
    if isinstance(v, Ref):
        h = ip.get(st, v)
        if isinstance(h, (HList, HSet)):
            return [(st, list(h.items))]
        if isinstance(h, HDict):
            return [(st, [Item(ip.present(x), k) for k, x in h.d.items()])]
        if isinstance(h, HIter):
            st = st.fork()
            ip.put(st, v, HIter(()))
            return [(st, list(h.items))]
        f = getattr(h.cls, "__iter__", None) if isinstance(h, HInst) else None
        if f in ip.models:
            return [r for s, x in ip.call(st, f, [v], {}) for r in iterate(ip, s, x)]
    if v is None or is_int(v) or is_bool(v):
        ip.raise_new(st, TypeError, "not iterable")
        return []
    if isinstance(v, SStr):
        raise Unsupported("iteration over characters")
    raise Unsupported("iteration over %r" % (v,))


def index(ip, st, v, i):
    if isinstance(v, SUnion) or isinstance(i, SUnion):
        return ip.each_all(st, [v, i], lambda s, vs: index(ip, s, vs[0], vs[1]))
    if isinstance(v, tuple) and isinstance(i, int):
        if -len(v) <= i < len(v):
            return [(st, v[i])]
        ip.raise_new(st, IndexError, "tuple index out of range")
        return []
    if is_str(v) and isinstance(i, int):
        if isinstance(v, str):
            if -len(v) <= i < len(v):
                return [(st, v[i])]
            ip.raise_new(st, IndexError, "string index out of range")
            return []
        if i == 0 and isinstance(v.parts[0], str):
            return [(st, v.parts[0][0])]
        if i == 0 and isinstance(v.parts[0], Atom) and v.parts[0].dom.one:
            return [(st, SStr((v.parts[0],)))]
        if i == -1 and isinstance(v.parts[-1], str):
            return [(st, v.parts[-1][-1])]
        if len(v.parts) == 1 and isinstance(v.parts[0], Cho):
            res = []
            for g, x in v.parts[0].alts:
                s = st.fork(g)
                if not s.dead():
                    res.extend(index(ip, s, mk_str([x]), i))
            return ip.merge_results(res)
        if i >= 0:
            z = rope_z(v)
            a, b = ip.branch(st, z3.Length(z) > i if not (i == 0 and ip.str_nonempty(v) is True) else True)
            if b is not None:
                ip.raise_new(b, IndexError, "string index out of range")
            if a is None:
                return []
            return [(a, SStr((Atom(z3.SubString(z, i, 1), Dom(no=rope_no(v), nonempty=True)),)))]
        raise Unsupported("string index")
    if isinstance(v, Ref):
        h = ip.get(st, v)
        if isinstance(h, HList) and isinstance(i, int):
            return list_index(ip, st, h.items, i)
        if isinstance(h, HDict):
            return dict_get(ip, st, h, i, None, False)
        if isinstance(h, HInst):
            f, _ = ip.class_lookup(h.cls, "__getitem__")
            if isinstance(f, types.FunctionType):
                return ip.call(st, f, [v, i], {})
    if v is None:
        ip.raise_new(st, TypeError, "not subscriptable")
        return []
    raise Unsupported("index %r[%r]" % (v, i))


def list_index(ip, st, items, i):
    res = []
    fwd = i >= 0
    if i < 0:
        items = list(reversed(items))
        i = -i - 1

    def go(k, s, need):
        if k == len(items):
            ip.raise_new(s, IndexError, "list index out of range")
            return
        it = items[k]
        if isinstance(it, Star):
            raise_ok = it.nonempty()
            o = getattr(it.seq, "origin", None)
            if o is not None and fwd and it.g is True and it.filt is True and same(it.elem, it.seq.val) and need < 4:
                ge, piece = split_piece(ip, it.seq, need)
                a, b = ip.branch_f(s, ge)
                if a is not None:
                    res.append((a, piece))
                if b is not None:
                    if k + 1 < len(items):
                        raise Unsupported("index past a split")
                    ip.raise_new(b, IndexError, "list index out of range")
                return
            a, b = ip.branch_f(s, raise_ok)
            if a is not None:
                if need == 0:
                    # first/last included element: a witness
                    w = z3.Const(ip.named("nth", (it.seq.name, str(fwd), bz(it.filt).sexpr())), it.seq.e.sort())
                    a = a.fork(z3.substitute(bz(And(it.filt, *it.seq.facts)), (it.seq.e, w)))
                    a = a.fork(Implies(it.count() == 1, w == it.seq.e)) if it.filt is True else a
                    res.append((a, I.subst_val(it.elem, (it.seq.e, w))))
                else:
                    raise Unsupported("index into unbounded part")
            if b is not None:
                go(k + 1, b, need)
            return
        a, b = ip.branch_f(s, it.g)
        if a is not None:
            if need == 0:
                res.append((a, it.v))
            else:
                go(k + 1, a, need - 1)
        if b is not None:
            go(k + 1, b, need)
    go(0, st, i)
    return ip.merge_results(res)


def dict_get(ip, st, h, k, default, has_default):
    if isinstance(k, SUnion):
        return ip.each(st, k, lambda s, x: dict_get(ip, s, h, x, default, has_default))
    res = []

    def miss(s):
        if has_default:
            res.append((s, default))
        else:
            ip.raise_new(s, KeyError, "key")
    if ip.is_conc(k):
        v = h.d.get(k, ABSENT)
        if v is ABSENT:
            miss(st)
        elif isinstance(v, SUnion) and any(x is ABSENT for _, x in v.alts):
            pres = [(g, x) for g, x in v.alts if x is not ABSENT]
            a, b = ip.branch(st, Or(*[g for g, _ in pres]))
            if a is not None:
                res.append((a, mk_union(pres)))
            if b is not None:
                miss(b)
        else:
            return [(st, v)]
        return ip.merge_results(res)
    if isinstance(k, SStr):
        rest = st
        if k in h.d:
            return [(st, h.d[k])]
        for kk, v in h.d.items():
            if not is_str(kk) or rest is None:
                continue
            if isinstance(kk, SStr):
                a, rest = ip.branch(rest, ip.eq(rest, k, kk))
                if a is not None:
                    res.append((a, v))
                continue
            a, rest2 = ip.branch(rest, ip.eq(rest, k, kk))
            if a is not None:
                res.extend(dict_get(ip, a, h, kk, default, has_default))
            rest = rest2
            if rest is None:
                break
        if rest is not None:
            miss(rest)
        return ip.merge_results(res)
    if isinstance(k, SInt):
        rest = st
        for kk, v in h.d.items():
            a, rest2 = ip.branch(rest, ip.eq(rest, k, kk))
            if a is not None:
                res.extend(dict_get(ip, a, h, kk, default, has_default))
            rest = rest2
            if rest is None:
                break
        if rest is not None:
            miss(rest)
        return ip.merge_results(res)
    raise Unsupported("dict key %r" % (k,))


def slice_(ip, st, v, lo, hi, step):
    if isinstance(v, SUnion):
        return ip.each(st, v, lambda s, x: slice_(ip, s, x, lo, hi, step))
    if step is not None:
        raise Unsupported("slice step")
    if isinstance(v, (str, tuple)) and ip.is_conc(lo) and ip.is_conc(hi):
        return [(st, v[lo:hi])]
    if isinstance(v, SStr):
        if not (isinstance(lo, (int, type(None))) and isinstance(hi, (int, type(None)))):
            raise Unsupported("symbolic slice")
        lo = lo or 0
        if len(v.parts) == 1 and isinstance(v.parts[0], Cho):
            res = []
            for g, x in v.parts[0].alts:
                s = st.fork(g)
                if not s.dead():
                    res.extend(slice_(ip, s, mk_str([x]), lo, hi, None))
            return ip.merge_results(res)
        p = v.parts[0]
        if isinstance(p, str):
            if hi is None and 0 <= lo <= len(p):
                return [(st, mk_str([p[lo:]] + list(v.parts[1:])))]
            if hi is not None and 0 <= lo <= hi <= len(p):
                return [(st, p[lo:hi])]
        if hi is None and lo == 0:
            return [(st, v)]
        q = v.parts[-1]
        if lo == 0 and hi < 0 and isinstance(q, str) and len(q) >= -hi:
            return [(st, mk_str(list(v.parts[:-1]) + [q[:hi]]))]
        if lo >= 0 and hi is None:
            z = rope_z(v)
            return [(st, SStr((Atom(z3.SubString(z, lo, z3.Length(z) - lo) if lo else z, Dom(no=rope_no(v))),)))]
        if lo >= 0 and hi is not None and hi >= 0:
            z = rope_z(v)
            return [(st, SStr((Atom(z3.SubString(z, lo, max(hi - lo, 0)), Dom(no=rope_no(v))),)))]
        raise Unsupported("slice of %r" % (v,))
    if isinstance(v, Ref):
        h = ip.get(st, v)
        if isinstance(h, HList):
            if h.plain() is not None and ip.is_conc(lo) and ip.is_conc(hi):
                st = st.fork()
                return [(st, ip.new_list(st, h.plain()[lo:hi]))]
            if lo is None and hi is None:
                st = st.fork()
                return [(st, ip.new(st, HList(h.items)))]
            if isinstance(lo, int) and lo >= 0 and hi is None:
                return drop(ip, st, list(h.items), lo)
            if isinstance(hi, int) and hi >= 0 and lo in (None, 0) and len(h.items) >= hi and all(isinstance(i, Item) and i.g is True for i in h.items[:hi]):
                st = st.fork()
                return [(st, ip.new(st, HList(h.items[:hi])))]
            if isinstance(hi, int) and hi == -1 and lo in (None, 0):
                its = list(h.items)
                if its and isinstance(its[-1], Item) and its[-1].g is True:
                    st = st.fork()
                    return [(st, ip.new(st, HList(its[:-1])))]
            raise Unsupported("list slice")
    raise Unsupported("slice of %r" % (v,))


def drop(ip, st, items, n):
    """items[n:] -> [(st, ref)]"""
    if n == 0 or not items:
        st = st.fork()
        return [(st, ip.new(st, HList(items)))]
    i = items[0]
    if isinstance(i, Item):
        a, b = ip.branch_f(st, i.g)
        res = []
        if a is not None:
            res.extend(drop(ip, a, items[1:], n - 1))
        if b is not None:
            res.extend(drop(ip, b, items[1:], n))
        return ip.merge_results(res)
    if not ip.feasible(list(st.pc) + [i.nonempty()]):
        return drop(ip, st, items[1:], n)
    if i.filt is True and same(i.elem, i.seq.val) and len(items) == 1 and i.seq.sort == "str":
        q = ip.seq("tail(%d,%s)" % (n, i.seq.name), i.seq.dom)
        st = st.fork()
        st.assume(q.len == z3.If(i.seq.len >= n, i.seq.len - n, 0))
        return [(st, ip.new(st, HList([Star(i.g, q, q.val)])))]
    raise Unsupported("slice of unbounded list")


def setitem(ip, st, o, i, v):
    if isinstance(o, SUnion):
        out = []
        for g, x in o.alts:
            s = st.fork(g)
            if not s.dead():
                out.extend(setitem(ip, s, x, i, v))
        return ip.merge_states(out)
    if isinstance(o, Ref):
        h = ip.get(st, o)
        if isinstance(h, HDict):
            if not ip.is_conc(i):
                raise Unsupported("symbolic dict key store")
            st = st.fork()
            d = dict(h.d)
            d[i] = v
            ip.put(st, o, HDict(d))
            return [st]
        if isinstance(h, HList) and isinstance(i, int) and h.plain() is not None:
            vals = h.plain()
            if not -len(vals) <= i < len(vals):
                ip.raise_new(st, IndexError, "assignment index")
                return []
            vals[i] = v
            st = st.fork()
            ip.put(st, o, HList([Item(True, x) for x in vals]))
            return [st]
        if isinstance(h, HInst):
            f, _ = ip.class_lookup(h.cls, "__setitem__")
            if isinstance(f, types.FunctionType):
                return [s for s, _ in ip.call(st, f, [o, i, v], {})]
    raise Unsupported("item assignment")


def delitem(ip, st, o, i):
    if isinstance(o, Ref):
        h = ip.get(st, o)
        if isinstance(h, HDict) and ip.is_conc(i):
            if i not in h.d:
                ip.raise_new(st, KeyError, i)
                return []
            st = st.fork()
            d = dict(h.d)
            del d[i]
            ip.put(st, o, HDict(d))
            return [st]
        if isinstance(h, HList) and isinstance(i, int) and h.plain() is not None:
            vals = h.plain()
            if not -len(vals) <= i < len(vals):
                ip.raise_new(st, IndexError, "del")
                return []
            del vals[i]
            st = st.fork()
            ip.put(st, o, HList([Item(True, x) for x in vals]))
            return [st]
    raise Unsupported("del item")


def delattr_(ip, st, o, name):
    if isinstance(o, Ref):
        h = ip.get(st, o)
        if isinstance(h, HInst):
            if name not in h.attrs:
                ip.raise_new(st, AttributeError, name)
                return []
            st = st.fork()
            a = dict(h.attrs)
            del a[name]
            ip.put(st, o, HInst(h.cls, a, h.native))
            return [st]
    raise Unsupported("delattr")


# ---------------------------------------------------------------- operators
def binop(ip, st, op, a, b):
    if isinstance(op, ast.Mod) and (is_str(a)):
        return format_(ip, st, a, b)
    if isinstance(a, SUnion) or isinstance(b, SUnion):
        return ip.each_all(st, [a, b], lambda s, vs: binop(ip, s, op, vs[0], vs[1]))
    if isinstance(op, ast.Add):
        if is_str(a) and is_str(b):
            return [(st, mk_str([a, b]))]
        if isinstance(a, tuple) and isinstance(b, tuple):
            return [(st, a + b)]
        if isinstance(a, Ref) and isinstance(b, Ref):
            ha, hb = ip.get(st, a), ip.get(st, b)
            if isinstance(ha, HList) and isinstance(hb, HList):
                st = st.fork()
                return [(st, ip.new(st, HList(ha.items + hb.items)))]
        if isinstance(a, bytes) and isinstance(b, bytes):
            return [(st, a + b)]
    if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
        if ip.is_conc(a) and ip.is_conc(b):
            import operator
            f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod,
                 ast.FloorDiv: operator.floordiv, ast.BitOr: operator.or_, ast.BitAnd: operator.and_}.get(type(op))
            if f:
                try:
                    return [(st, f(a, b))]
                except ZeroDivisionError:
                    ip.raise_new(st, ZeroDivisionError)
                    return []
        za, zb = iz(a), iz(b)
        if isinstance(op, ast.Add):
            return [(st, mk_int(z3.simplify(za + zb)))]
        if isinstance(op, ast.Sub):
            return [(st, mk_int(z3.simplify(za - zb)))]
        if isinstance(op, ast.Mult):
            return [(st, mk_int(z3.simplify(za * zb)))]
        if isinstance(op, ast.Mod) and isinstance(b, int) and b > 0:
            return [(st, mk_int(za % zb))]
        if isinstance(op, ast.FloorDiv) and isinstance(b, int) and b > 0:
            return [(st, mk_int(za / zb))]
    if isinstance(a, Ref) and isinstance(b, Ref):
        ha, hb = ip.get(st, a), ip.get(st, b)
        if isinstance(ha, HSet) and isinstance(hb, HSet):
            return set_op(ip, st, op, ha, hb)
    if isinstance(op, ast.Mult) and isinstance(a, str) and isinstance(b, int):
        return [(st, a * b)]
    simple = (int, float, str, bytes, tuple, type(None), bool, SInt, SBool, SStr)
    if isinstance(a, simple) and isinstance(b, simple) and not (isinstance(a, float) or isinstance(b, float)):
        ip.raise_new(st, TypeError, "unsupported operand types")
        return []
    if isinstance(a, Ref) and isinstance(b, simple) or isinstance(b, Ref) and isinstance(a, simple):
        x = a if isinstance(a, Ref) else b
        if isinstance(ip.get(st, x), (HList, HDict, HSet)):
            ip.raise_new(st, TypeError, "unsupported operand types")
            return []
    raise Unsupported("binary operation %s on %r, %r" % (type(op).__name__, a, b))


def set_op(ip, st, op, ha, hb):
    """sets as item lists; memberships by equality guards"""
    def member(v, items):
        gs = []
        for i in items:
            if isinstance(i, Star):
                gs.append(star_member(ip, st, v, i))
            else:
                gs.append(And(i.g, ip.eq(st, v, i.v)))
        return Or(*gs)
    st = st.fork()
    if isinstance(op, ast.BitOr):
        out = list(ha.items)
        for i in hb.items:
            if isinstance(i, Star):
                out.append(Star(i.g, i.seq, i.elem, And(i.filt, Not(member(i.elem, ha.items)))))
            else:
                out.append(Item(And(i.g, Not(member(i.v, ha.items))), i.v))
    elif isinstance(op, ast.Sub):
        out = []
        for i in ha.items:
            if isinstance(i, Star):
                out.append(Star(i.g, i.seq, i.elem, And(i.filt, Not(member(i.elem, hb.items)))))
            else:
                out.append(Item(And(i.g, Not(member(i.v, hb.items))), i.v))
    elif isinstance(op, ast.BitAnd):
        out = []
        for i in ha.items:
            if isinstance(i, Star):
                out.append(Star(i.g, i.seq, i.elem, And(i.filt, member(i.elem, hb.items))))
            else:
                out.append(Item(And(i.g, member(i.v, hb.items)), i.v))
    else:
        raise Unsupported("set operation")
    out = [i for i in out if i.g is not False]
    return [(st, ip.new(st, HSet(out)))]


def star_member(ip, st, v, star):
    """guard: v is an element of star.  Exact for sets given by a membership predicate."""
    mem = getattr(star.seq, "member", None)
    if mem is not None and is_str(v) and same(star.elem, star.seq.val):
        f = star.filt
        if f is not True:
            f = norm(z3.substitute(f, (star.seq.e, rope_z(v)))) if not isinstance(f, bool) else f
        return And(star.g, mem(rope_z(v)), f)
    return And(star.g, ip.exists(star.seq, And(star.filt, ip.eq(st, v, star.elem))))


def augop(ip, st, op, a, b):
    if isinstance(op, ast.Add) and isinstance(a, Ref) and not isinstance(b, SUnion):
        h = ip.get(st, a)
        if isinstance(h, HList):
            out = []
            for s, items in iterate(ip, st, b):
                s = s.fork()
                ip.put(s, a, HList(list(h.items) + list(items)))
                out.append((s, a))
            return out
    return binop(ip, st, op, a, b)


def is_g(ip, a, b):
    """identity guard"""
    if isinstance(a, SUnion):
        return Or(*[And(g, is_g(ip, x, b)) for g, x in a.alts])
    if isinstance(b, SUnion):
        return Or(*[And(g, is_g(ip, a, x)) for g, x in b.alts])
    if a is None or b is None:
        return a is b
    if is_bool(a) and is_bool(b):
        return Iff(a if isinstance(a, bool) else a.z, b if isinstance(b, bool) else b.z)
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, SBool) or isinstance(b, SBool):
        return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if isinstance(a, Ref) or isinstance(b, Ref):
        return False
    if isinstance(a, (SStr, SInt)) or isinstance(b, (SStr, SInt)):
        if vclass(a) != vclass(b):
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and -5 <= x <= 256 and isinstance(y, SInt):
                ip.assumed.add("CPython: one object per small integer")
                return ip.eq(None, a, b)
        raise Unsupported("identity of symbolic scalars")
    return a is b


def compare(ip, st, op, a, b):
    """-> [(st, guard)]"""
    if isinstance(op, ast.Is):
        return [(st, is_g(ip, a, b))]
    if isinstance(op, ast.IsNot):
        return [(st, Not(is_g(ip, a, b)))]
    if isinstance(op, (ast.Eq, ast.NotEq)):
        res = py_eq(ip, st, a, b)
        return [(s, g if isinstance(op, ast.Eq) else Not(g)) for s, g in res]
    if isinstance(op, (ast.In, ast.NotIn)):
        res = contains(ip, st, a, b)
        return [(s, g if isinstance(op, ast.In) else Not(g)) for s, g in res]
    # ordering
    if isinstance(a, SUnion) or isinstance(b, SUnion):
        r = ip.each_all(st, [a, b], lambda s, vs: [(s2, mk_bool(g)) for s2, g in compare(ip, s, op, vs[0], vs[1])])
        return [(s, ip.truth(s, v)) for s, v in r]
    if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
        if ip.is_conc(a) and ip.is_conc(b):
            return [(st, {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)])]
        x, y = iz(a), iz(b)
        return [(st, norm(z3.simplify({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])))]
    if isinstance(a, str) and isinstance(b, str):
        return [(st, {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)])]
    if is_str(a) and is_str(b):
        x, y = rope_z(a), rope_z(b)
        g = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: y < x, ast.GtE: lambda: y <= x}[type(op)]()
        return [(st, g)]
    if isinstance(a, Ref) or isinstance(b, Ref) or isinstance(a, tuple):
        raise Unsupported("ordering of objects")
    if isinstance(a, float) or isinstance(b, float):
        if ip.is_conc(a) and ip.is_conc(b):
            return [(st, {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)])]
        raise Unsupported("float")
    ip.raise_new(st, TypeError, "ordering not supported between types")
    return []


def py_eq(ip, st, a, b):
    """== including user-defined __eq__ -> [(st, guard)]"""
    for x, y in ((a, b),):
        if isinstance(x, Ref):
            h = ip.get(st, x)
            if isinstance(h, HInst):
                f, _ = ip.class_lookup(h.cls, "__eq__")
                if isinstance(f, types.FunctionType):
                    return [(s, ip.truth(s, v)) for s, v in ip.call(st, f, [x, y], {})]
    if isinstance(b, Ref) and not isinstance(a, Ref):
        h = ip.get(st, b)
        if isinstance(h, HInst):
            f, _ = ip.class_lookup(h.cls, "__eq__")
            if isinstance(f, types.FunctionType):
                return [(s, ip.truth(s, v)) for s, v in ip.call(st, f, [b, a], {})]
    if isinstance(a, SUnion) and any(isinstance(x, Ref) for _, x in a.alts):
        r = ip.each(st, a, lambda s, x: [(s2, mk_bool(g)) for s2, g in py_eq(ip, s, x, b)])
        return [(s, ip.truth(s, v)) for s, v in r]
    return [(st, ip.eq(st, a, b))]


def contains(ip, st, a, b):
    if isinstance(b, SUnion):
        r = ip.each(st, b, lambda s, x: [(s2, mk_bool(g)) for s2, g in contains(ip, s, a, x)])
        return [(s, ip.truth(s, v)) for s, v in r]
    if is_str(b):
        if isinstance(a, SUnion):
            r = ip.each(st, a, lambda s, x: [(s2, mk_bool(g)) for s2, g in contains(ip, s, x, b)])
            return [(s, ip.truth(s, v)) for s, v in r]
        if not is_str(a):
            ip.raise_new(st, TypeError, "in <string> requires string")
            return []
        if isinstance(a, str):
            return [(st, contains_g(ip, b, a))]
        return [(st, z3.Contains(rope_z(b), rope_z(a)))]
    if isinstance(b, tuple):
        items = [Item(True, x) for x in b]
    elif isinstance(b, Ref):
        h = ip.get(st, b)
        if isinstance(h, (HList, HSet, HIter)):
            items = h.items
        elif isinstance(h, HDict):
            if ip.is_conc(a):
                return [(st, ip.present(h.d.get(a, ABSENT)))]
            return [(st, Or(*[And(ip.present(v), ip.eq(st, a, k)) for k, v in h.d.items()]))]
        elif isinstance(h, HInst):
            f, _ = ip.class_lookup(h.cls, "__contains__")
            if isinstance(f, types.FunctionType):
                return [(s, ip.truth(s, v)) for s, v in ip.call(st, f, [b, a], {})]
            raise Unsupported("in instance")
        else:
            raise Unsupported("in")
    elif isinstance(b, (list, dict, set, frozenset)):
        return contains(ip, st, a, ip.lift(b))
    elif b is None:
        ip.raise_new(st, TypeError, "not iterable")
        return []
    else:
        raise Unsupported("in %r" % (b,))
    res = [(st, False)]
    for i in items:
        nxt = []
        for s, g in res:
            if isinstance(i, Star):
                nxt.append((s, Or(g, star_member(ip, s, a, i))))
            else:
                for s2, g2 in py_eq(ip, s, a, i.v):
                    nxt.append((s2, Or(g, And(i.g, g2))))
        res = nxt
    return res


# ---------------------------------------------------------------- methods of builtin types
def call_method(ip, st, recv, name, args, kw):
    if isinstance(recv, SUnion):
        return ip.each(st, recv, lambda s, x: call_method(ip, s, x, name, args, kw))
    if any(isinstance(a, SUnion) for a in args):
        return ip.each_all(st, list(args), lambda s, vs: call_method(ip, s, recv, name, vs, kw))
    if is_str(recv):
        return str_method(ip, st, recv, name, args, kw)
    if isinstance(recv, Ref):
        h = ip.get(st, recv)
        if isinstance(h, HList):
            return list_method(ip, st, recv, h, name, args, kw)
        if isinstance(h, HDict):
            return dict_method(ip, st, recv, h, name, args, kw)
        if isinstance(h, HSet):
            return set_method(ip, st, recv, h, name, args, kw)
    if ip.is_conc(recv) and ip.is_conc_args(args, kw):
        try:
            return [(st, ip.lift(getattr(recv, name)(*args, **kw)))]
        except Exception as e:
            ip.raise_new(st, type(e), *e.args)
            return []
    m = ip.method_models.get(name)
    if m is not None:
        r = m(ip, st, recv, args, kw)
        if r is not None:
            return r
    raise Unsupported("method %s of %r" % (name, recv))


def str_method(ip, st, s, name, args, kw):
    if name == "encode" and getattr(ip, "encode_identity", False) and (not args or args[0] == "utf-8") and not kw:
        return [(st, s)]
    if isinstance(s, str) and ip.is_conc_args(args, kw) and name not in ("join",):
        try:
            r = getattr(s, name)(*args, **kw)
        except Exception as e:
            ip.raise_new(st, type(e), *e.args)
            return []
        if isinstance(r, list):
            st = st.fork()
            return [(st, ip.new_list(st, r))]
        return [(st, r)]
    if name == "join":
        out = []
        for s1, items in iterate(ip, st, args[0]):
            out.extend(join_(ip, s1, s, items))
        return ip.merge_results(out)
    if name == "format":
        if isinstance(s, str):
            return str_format(ip, st, s, args, kw)
        raise Unsupported("symbolic str.format")
    if name in ("lower", "upper"):
        return [(st, (lower_ if name == "lower" else upper_)(ip, st, s))]
    if name in ("strip", "lstrip", "rstrip"):
        ch = args[0] if args else None
        if ch is not None and not isinstance(ch, str):
            raise Unsupported("strip arg")
        r = as_rope(s).parts
        if len(r) == 1 and isinstance(r[0], Cho) and 1 < len(r[0].alts) <= 6 and st.pc:
            # forms that cannot occur here are dropped
            alts = [(g, x) for g, x in r[0].alts if ip.feasible(list(st.pc) + [g])]
            if len(alts) < len(r[0].alts) and alts:
                s = mk_cho(alts) if len(alts) > 1 else mk_str(as_rope(alts[0][1]).parts)
        return [(st, strip_(ip, s, ch, name != "rstrip", name != "lstrip"))]
    if name in ("startswith", "endswith"):
        f = prefix_g if name == "startswith" else suffix_g
        a = args[0]
        if isinstance(a, str):
            return [(st, mk_bool(f(ip, s, a)))]
        if isinstance(a, tuple) and all(isinstance(x, str) for x in a):
            return [(st, mk_bool(Or(*[f(ip, s, x) for x in a])))]
        if isinstance(a, SStr):
            zf = z3.PrefixOf if name == "startswith" else z3.SuffixOf
            return [(st, mk_bool(zf(rope_z(a), rope_z(s))))]
        ip.raise_new(st, TypeError, name)
        return []
    if name == "split" and not args and not kw and getattr(ip, "split_model", None) is not None:
        r = ip.split_model(ip, st, s)
        if r is not None:
            return r
    if name == "split":
        sep = args[0] if args else kw.get("sep")
        mx = args[1] if len(args) > 1 else kw.get("maxsplit")
        out = []
        for s1, items in split_(ip, st, s, sep, mx):
            s1 = s1.fork()
            out.append((s1, ip.new(s1, HList(items))))
        return ip.merge_results(out)
    if name == "partition":
        return ip.merge_results(partition_(ip, st, s, args[0]))
    if name == "replace" and isinstance(args[0], str) and isinstance(args[1], str):
        return [(st, replace_(ip, s, args[0], args[1]))]
    if name in ("find", "index", "count") and isinstance(args[0], str) and len(args) == 1:
        g = contains_g(ip, s, args[0])
        z = rope_z(s)
        if name == "find":
            n = z3.IndexOf(z, z3.StringVal(args[0]), 0)
            return [(st, mk_int(z3.If(bz(g), n, z3.IntVal(-1)))) if g is not False else (st, -1)]
    if name == "isspace":
        t = as_rope(strip_(ip, s, None))
        return [(st, mk_bool(And(ip.str_nonempty(s), Not(ip.str_nonempty(t) if t.parts else False))))]
    if name == "isdigit":
        return [(st, SBool(zfun("str_" + name, z3.StringSort(), z3.BoolSort())(rope_z(s))))]
    if name == "splitlines" and isinstance(s, SStr):
        keep = bool(args[0]) if args else bool(kw.get("keepends", False))
        ip.assumed.add("str.splitlines(%s) is a function of its text; no line is empty when line ends are kept" % keep)
        q = ip.seq("lines%d(%s)" % (keep, rope_z(s)), Dom(nonempty=keep, name="line"))
        st = st.fork()
        return [(st, ip.new(st, HList((Star(True, q, q.val),))))]
    if name == "__str__":
        return [(st, s)]
    raise Unsupported("str.%s" % name)


def str_format(ip, st, s, args, kw):
    import string
    parts = [(st, [])]
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        parts = [(x, ps + [lit]) for x, ps in parts]
        if field is None:
            continue
        if spec or (conv and conv != "s"):
            raise Unsupported("format spec")
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Unsupported("format field")
        parts = [(x2, ps + [t]) for x, ps in parts for x2, t in to_str(ip, x, v)]
    return [(x, mk_str(ps)) for x, ps in parts]


def list_method(ip, st, ref, h, name, args, kw):
    if name == "append":
        st = st.fork()
        ip.put(st, ref, HList(h.items + (Item(True, args[0]),)))
        return [(st, None)]
    if name == "extend":
        out = []
        for s, items in iterate(ip, st, args[0]):
            s = s.fork()
            h2 = ip.get(s, ref)
            ip.put(s, ref, HList(h2.items + tuple(items)))
            out.append((s, None))
        return ip.merge_results(out)
    if name == "pop":
        i = args[0] if args else -1
        if h.plain() is not None and isinstance(i, int):
            vals = h.plain()
            try:
                v = vals.pop(i)
            except IndexError:
                ip.raise_new(st, IndexError, "pop")
                return []
            st = st.fork()
            ip.put(st, ref, HList([Item(True, x) for x in vals]))
            return [(st, v)]
        if i == 0:
            out = []
            for s, v in list_index(ip, st, h.items, 0):
                for s2, r in drop(ip, s, list(h.items), 1):
                    ip.put(s2, ref, ip.get(s2, r))
                    out.append((s2, v))
            return out
        raise Unsupported("list.pop")
    if name == "insert" and isinstance(args[0], int):
        vals = h.plain()
        if vals is not None:
            vals.insert(args[0], args[1])
            st = st.fork()
            ip.put(st, ref, HList([Item(True, x) for x in vals]))
            return [(st, None)]
    if name == "sort" and not args and not kw:
        vals = h.plain()
        if vals is not None and len(vals) <= 1:
            return [(st, None)]
        if vals is not None and all(isinstance(x, (str, int)) for x in vals):
            st = st.fork()
            ip.put(st, ref, HList([Item(True, x) for x in sorted(vals)]))
            return [(st, None)]
        st = st.fork()
        ip.put(st, ref, HList(sort_items(ip, st, h.items)))
        return [(st, None)]
    if name == "copy":
        st = st.fork()
        return [(st, ip.new(st, HList(h.items)))]
    if name == "index" and h.plain() is not None and ip.is_conc(args[0]) and all(ip.is_conc(x) for x in h.plain()):
        try:
            return [(st, h.plain().index(args[0]))]
        except ValueError:
            ip.raise_new(st, ValueError, "not in list")
            return []
    if name == "remove" and h.plain() is not None and all(ip.is_conc(x) for x in h.plain()) and ip.is_conc(args[0]):
        vals = h.plain()
        if args[0] not in vals:
            ip.raise_new(st, ValueError, "remove")
            return []
        vals.remove(args[0])
        st = st.fork()
        ip.put(st, ref, HList([Item(True, x) for x in vals]))
        return [(st, None)]
    raise Unsupported("list.%s" % name)


def sort_items(ip, st, items):
    if getattr(ip, "loose", False) and items:       # some other order: enough where only writes matter
        q = ip.seq("sorted %d" % fresh_id(), ANY)
        vs = [i.elem if isinstance(i, Star) else i.v for i in items]
        if all(isinstance(v, (str, SStr)) for v in vs):
            return [Star(True, q, q.val)]
        if len(items) == 1:
            return [Star(True, q, vs[0])]
    raise Unsupported("sorting symbolic list")


def dict_method(ip, st, ref, h, name, args, kw):
    if name == "get":
        return dict_get(ip, st, h, args[0], args[1] if len(args) > 1 else None, True)
    if name in ("items", "keys", "values"):
        items = []
        for k, v in h.d.items():
            g = ip.present(v)
            if isinstance(v, SUnion):
                alts = [(gg, x) for gg, x in v.alts if x is not ABSENT]
                if not alts:
                    continue
                v = mk_union(alts)
            items.append(Item(g, (k, v) if name == "items" else k if name == "keys" else v))
        st = st.fork()
        return [(st, ip.new(st, HList(items)))]
    if name == "pop":
        has = len(args) > 1
        out = []
        for s, v in dict_get(ip, st, h, args[0], args[1] if has else None, has):
            s = s.fork()
            d = dict(ip.get(s, ref).d)
            if not ip.is_conc(args[0]):
                raise Unsupported("pop of symbolic key")
            d.pop(args[0], None)
            ip.put(s, ref, HDict(d))
            out.append((s, v))
        return out
    if name == "update" and len(args) == 1:
        o = ip.get(st, args[0]) if isinstance(args[0], Ref) else None
        if isinstance(o, HDict):
            st = st.fork()
            d = dict(h.d)
            for k, v in o.d.items():
                if ip.present(v) is not True:
                    raise Unsupported("partial update")
                d[k] = v
            ip.put(st, ref, HDict(d))
            return [(st, None)]
    if name == "setdefault" and ip.is_conc(args[0]):
        if args[0] in h.d and ip.present(h.d[args[0]]) is True:
            return [(st, h.d[args[0]])]
        if args[0] not in h.d:
            st = st.fork()
            d = dict(h.d)
            d[args[0]] = args[1] if len(args) > 1 else None
            ip.put(st, ref, HDict(d))
            return [(st, d[args[0]])]
    if name == "copy":
        st = st.fork()
        return [(st, ip.new(st, HDict(dict(h.d))))]
    raise Unsupported("dict.%s" % name)


def set_method(ip, st, ref, h, name, args, kw):
    if name == "add":
        for s, g in contains(ip, st, args[0], ref):
            s = s.fork()
            ip.put(s, ref, HSet([i for i in h.items] + ([Item(Not(g), args[0])] if g is not True else [])))
            return [(s, None)]
    raise Unsupported("set.%s" % name)


def call_descriptor(ip, st, f, args, kw):
    owner, name = f.__objclass__, f.__name__
    if owner is object and name == "__setattr__":
        return [(s, None) for s in ip.setattr_raw(st, args[0], args[1], args[2])]
    if owner is object and name == "__init__":
        return [(st, None)]
    if name == "__init__" and issubclass(owner, BaseException):
        st = st.fork()
        h = ip.get(st, args[0])
        ip.put(st, args[0], h.set("args", tuple(args[1:])))
        return [(st, None)]
    if owner is object and name in ("__str__", "__repr__"):
        return [(st, mk_str([Atom(z3.String("repr!%d" % fresh_id()))]))]
    if owner is object and name in ("__eq__", "__ne__"):
        g = is_g(ip, args[0], args[1])
        return [(st, mk_bool(g if name == "__eq__" else Not(g)))]
    if owner in (str, list, dict, set, int):
        return call_method(ip, st, args[0], name, args[1:], kw)
    raise Unsupported("descriptor %s.%s" % (owner, name))


# ---------------------------------------------------------------- builtins
def m_len(ip, st, args, kw):
    def f(s, v):
        if isinstance(v, (str, tuple, bytes)):
            return [(s, len(v))]
        if isinstance(v, SStr):
            if len(v.parts) == 1 and isinstance(v.parts[0], Cho):
                res = []
                for g, x in v.parts[0].alts:
                    s2 = s.fork(g)
                    if not s2.dead():
                        res.extend(f(s2, mk_str([x])))
                return ip.merge_results(res)
            return [(s, SInt(z3.Length(rope_z(v))))]
        if isinstance(v, Ref):
            h = ip.get(s, v)
            if isinstance(h, (HList, HSet)):
                return [(s, ip.items_len(h.items))]
            if isinstance(h, HDict):
                return [(s, ip.items_len([Item(ip.present(x), k) for k, x in h.d.items()]))]
            if isinstance(h, HInst) and getattr(h.cls, "__len__", None) in ip.models:
                return ip.models[h.cls.__len__](ip, s, [v], {})
        if v is None or is_int(v) or is_bool(v):
            ip.raise_new(s, TypeError, "object has no len()")
            return []
        raise Unsupported("len of %r" % (v,))
    return ip.each(st, args[0], f)


def m_isinstance(ip, st, args, kw):
    ts = args[1] if isinstance(args[1], tuple) else (args[1],)

    def g(s, v):
        if isinstance(v, SUnion):
            return Or(*[And(gg, g(s, x)) for gg, x in v.alts])
        if isinstance(v, Ref):
            h = ip.get(s, v)
            t = h.cls if isinstance(h, HInst) else {HList: list, HDict: dict, HSet: set}.get(type(h), object)
        elif isinstance(v, SStr):
            t = str
        elif isinstance(v, SInt):
            t = int
        elif isinstance(v, SBool):
            t = bool
        else:
            t = type(v)
        return any(issubclass(t, x) for x in ts)
    return [(st, mk_bool(g(st, args[0])))]


def m_getattr(ip, st, args, kw):
    if not isinstance(args[1], str):
        if isinstance(args[1], SUnion) or (isinstance(args[1], SStr) and len(args[1].parts) == 1 and isinstance(args[1].parts[0], Cho)):
            alts = args[1].alts if isinstance(args[1], SUnion) else [(g, mk_str([x])) for g, x in args[1].parts[0].alts]
            res = []
            for g, x in alts:
                s = st.fork(g)
                if not s.dead():
                    res.extend(m_getattr(ip, s, [args[0], x] + args[2:], kw))
            return ip.merge_results(res)
        raise Unsupported("getattr with symbolic name")
    if len(args) > 2:
        ip.coll.append([])
        res = ip.getattr_(st, args[0], args[1], args[2], True)
        for s, e in ip.coll.pop():
            if issubclass(ip.exc_class(s, e), AttributeError):
                res.append((s, args[2]))
            else:
                ip.raise_(s, e)
        return ip.merge_results(res)
    return ip.getattr_(st, args[0], args[1])


def m_hasattr(ip, st, args, kw):
    ip.coll.append([])
    try:
        res = ip.getattr_(st, args[0], args[1])
    finally:
        rs = ip.coll.pop()
    out = [(s, True) for s, _ in res]
    for s, e in rs:
        if issubclass(ip.exc_class(s, e), AttributeError):
            out.append((s, False))
        else:
            ip.raise_(s, e)
    return ip.merge_results(out)


def m_setattr(ip, st, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported("setattr with symbolic name")
    return [(s, None) for s in ip.setattr_(st, args[0], args[1], args[2])]


def m_delattr(ip, st, args, kw):
    return [(s, None) for s in delattr_(ip, st, args[0], args[1])]


def m_str(ip, st, args, kw):
    if not args:
        return [(st, "")]
    return to_str(ip, st, args[0])


def m_int(ip, st, args, kw):
    def f(s, v):
        if is_int(v) or isinstance(v, float):
            return [(s, v if is_int(v) else int(v))]
        if isinstance(v, bool):
            return [(s, int(v))]
        if isinstance(v, SBool):
            return [(s, SInt(iz(v)))]
        if isinstance(v, str):
            try:
                return [(s, int(v))]
            except ValueError:
                ip.raise_new(s, ValueError, "int")
                return []
        if isinstance(v, SStr):
            if len(v.parts) == 1 and isinstance(v.parts[0], IntS):
                return [(s, mk_int(v.parts[0].z))]
            if len(v.parts) == 1 and isinstance(v.parts[0], Cho):
                res = []
                for g, x in v.parts[0].alts:
                    s2 = s.fork(g)
                    if not s2.dead():
                        res.extend(f(s2, mk_str([x])))
                return ip.merge_results(res)
            if len(v.parts) == 1 and isinstance(v.parts[0], Atom):
                a = v.parts[0]
                ok = zfun("is_int", z3.StringSort(), z3.BoolSort())(a.z)
                val = zfun("int_of", z3.StringSort(), z3.IntSort())(a.z)
                ip.axioms.append(z3.Implies(ok, a.z != z3.StringVal("")))
                y, n = ip.branch(s, ok)
                if n is not None:
                    ip.raise_new(n, ValueError, "invalid literal for int()")
                return [(y, SInt(val))] if y is not None else []
            if all(isinstance(p, (str, IntS)) for p in v.parts):
                if any(isinstance(p, str) and not all(c in "0123456789_ +-\t\n" for c in p) for p in v.parts):
                    ip.raise_new(s, ValueError, "int")
                    return []
            raise Unsupported("int of %r" % (v,))
        if v is None or isinstance(v, (Ref, tuple)):
            ip.raise_new(s, TypeError, "int() argument")
            return []
        raise Unsupported("int of %r" % (v,))
    if len(args) == 2 and isinstance(args[0], str) and isinstance(args[1], int):
        try:
            return [(st, int(args[0], args[1]))]
        except ValueError:
            ip.raise_new(st, ValueError, "int")
            return []
    if not args:
        return [(st, 0)]
    return ip.each(st, args[0], f)


def m_bool(ip, st, args, kw):
    return [(st, mk_bool(ip.truth(st, args[0]) if args else False))]


def m_list(ip, st, args, kw):
    out = []
    if not args:
        st = st.fork()
        return [(st, ip.new(st, HList(())))]
    for s, items in iterate(ip, st, args[0]):
        s = s.fork()
        out.append((s, ip.new(s, HList(items))))
    return out


def m_tuple(ip, st, args, kw):
    if not args:
        return [(st, ())]
    return [(s, tuple(vs)) for s, vs in ip.concrete_seq(st, args[0])]


def m_set(ip, st, args, kw):
    if not args:
        st = st.fork()
        return [(st, ip.new(st, HSet(())))]
    out = []
    for s, items in iterate(ip, st, args[0]):
        s = s.fork()
        its = []
        for i in dedupe_items(ip, s, items):
            if isinstance(i, Item) and its:
                dup = Or(*[And(o.g, ip.eq(s, o.v, i.v)) if isinstance(o, Item) else star_member(ip, s, i.v, o) for o in its])
                g = And(i.g, Not(dup))
                if g is not False:
                    its.append(Item(g, i.v))
            else:
                its.append(i)
        out.append((s, ip.new(s, HSet(its))))
    return out


def m_fromkeys(ip, st, args, kw):
    """the keys only: the distinct items in the order of their first occurrence"""
    if len(args) != 1 or kw:
        raise Unsupported("dict.fromkeys with a value")
    return m_set(ip, st, args, kw)


def m_dict(ip, st, args, kw):
    d = {}
    st = st.fork()
    if args:
        h = ip.get(st, args[0]) if isinstance(args[0], Ref) else None
        if isinstance(h, HDict):
            d.update(h.d)
        else:
            raise Unsupported("dict()")
    d.update(kw)
    return [(st, ip.new(st, HDict(d)))]


def m_anyall(isany):
    def m(ip, st, args, kw):
        out = []
        for s, items in iterate(ip, st, args[0]):
            gs = []
            for i in items:
                if isinstance(i, Item):
                    t = ip.truth(s, i.v)
                    gs.append(And(i.g, t) if isany else Implies(i.g, t))
                else:
                    t = ip.truth(s, i.elem)
                    p = And(i.g, i.filt, t) if isany else And(i.g, i.filt, Not(t))
                    if p is False:
                        gs.append(not isany)
                        continue
                    b = ip.exists(i.seq, p)
                    gs.append(b if isany else Not(b))
            out.append((s, mk_bool(Or(*gs) if isany else And(*gs))))
        return ip.merge_results(out)
    return m


def m_filter(ip, st, args, kw):
    f = args[0]
    out = []
    for s, items in iterate(ip, st, args[1]):
        res = []
        for i in items:
            v = i.v if isinstance(i, Item) else i.elem
            if f is None:
                t = ip.truth(s, v)
            else:
                r = ip.call(s, f, [v], {})
                if len(r) != 1:
                    raise Unsupported("filter")
                s, x = r[0]
                t = ip.truth(s, x)
            if isinstance(i, Item):
                g = And(i.g, t)
                if g is not False:
                    res.append(Item(g, v))
            else:
                res.append(Star(i.g, i.seq, i.elem, And(i.filt, t)))
        s = s.fork()
        out.append((s, ip.new(s, HList(res))))
    return out


def m_map(ip, st, args, kw):
    if len(args) != 2:
        raise Unsupported("map")
    out = []
    for s, items in iterate(ip, st, args[1]):
        res = []
        for i in items:
            v = i.v if isinstance(i, Item) else i.elem
            r = ip.call(s, args[0], [v], {})
            if len(r) != 1:
                raise Unsupported("map")
            s, x = r[0]
            res.append(Item(i.g, x) if isinstance(i, Item) else Star(i.g, i.seq, x, i.filt))
        s = s.fork()
        out.append((s, ip.new(s, HList(res))))
    return out


def m_sorted(ip, st, args, kw):
    if kw:
        raise Unsupported("sorted with key")
    out = []
    for s, items in iterate(ip, st, args[0]):
        s = s.fork()
        if all(isinstance(i, Item) and i.g is True and isinstance(i.v, (str, int)) for i in items):
            out.append((s, ip.new_list(s, sorted(i.v for i in items))))
        elif len(items) <= 1 and all(isinstance(i, Item) for i in items):
            out.append((s, ip.new(s, HList(items))))
        else:
            out.append((s, ip.new(s, HList(sort_items(ip, s, items) if getattr(ip, "loose", False) else ip.sort_items(s, items)))))
    return out


def m_range(ip, st, args, kw):
    if all(isinstance(a, int) for a in args):
        return [(st, tuple(range(*args)))]
    raise Unsupported("symbolic range")


def m_zip(ip, st, args, kw):
    if len(args) == 2 and all(isinstance(a, Ref) and isinstance(ip.get(st, a), HIter) for a in args) and args[0] == args[1]:
        items = ip.get(st, args[0]).items
        if all(isinstance(i, Item) and i.g is True for i in items):
            vals = [i.v for i in items]
            st = st.fork()
            ip.put(st, args[0], HIter(()))
            return [(st, ip.new_list(st, list(zip(vals[::2], vals[1::2]))))]
        raise Unsupported("zip(it, it) over unbounded list")
    cols = []
    res = [(st, [])]
    for a in args:
        res = [(s2, cs + [vs]) for s, cs in res for s2, vs in ip.concrete_seq(s, a)]
    out = []
    for s, cs in res:
        s = s.fork()
        out.append((s, ip.new_list(s, list(zip(*cs)))))
    return out


def m_enumerate(ip, st, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    out = []
    for s, vs in ip.concrete_seq(st, args[0]):
        s = s.fork()
        out.append((s, ip.new_list(s, [(start + i, v) for i, v in enumerate(vs)])))
    return out


def m_reversed(ip, st, args, kw):
    out = []
    for s, vs in ip.concrete_seq(st, args[0]):
        s = s.fork()
        out.append((s, ip.new_list(s, vs[::-1])))
    return out


def m_iter(ip, st, args, kw):
    v = args[0]
    if isinstance(v, Ref) and isinstance(ip.get(st, v), HIter):
        return [(st, v)]
    if isinstance(v, Ref) and isinstance(ip.get(st, v), HInst):
        f, _ = ip.class_lookup(ip.get(st, v).cls, "__iter__")
        if isinstance(f, types.FunctionType):
            return ip.call(st, f, [v], {})
    out = []
    for s, items in iterate(ip, st, v):
        s = s.fork()
        out.append((s, ip.new(s, HIter(items))))
    return out


def m_next(ip, st, args, kw):
    v = args[0]
    if isinstance(v, Ref):
        h = ip.get(st, v)
        if isinstance(h, (HIter, HList)):
            items = list(h.items)
            if items and isinstance(items[0], Item) and items[0].g is True:
                st = st.fork()
                ip.put(st, v, HIter(items[1:]))
                return [(st, items[0].v)]
            if not items:
                if len(args) > 1:
                    return [(st, args[1])]
                ip.raise_new(st, StopIteration)
                return []
            res = []
            def go(k, s):
                if k == len(items):
                    if len(args) > 1:
                        res.append((s, args[1]))
                    else:
                        ip.raise_new(s, StopIteration)
                    return
                it = items[k]
                if isinstance(it, Star):
                    raise Unsupported("next over unbounded list")
                a, b = ip.branch(s, it.g)
                if a is not None:
                    ip.put(a, v, HIter(items[k + 1:]))
                    res.append((a, it.v))
                if b is not None:
                    go(k + 1, b)
            go(0, st)
            return res
        if isinstance(h, HInst):
            f, _ = ip.class_lookup(h.cls, "__next__")
            if isinstance(f, types.FunctionType):
                return ip.call(st, f, [v], {})
    raise Unsupported("next of %r" % (v,))


def m_vars(ip, st, args, kw):
    v = args[0]
    h = ip.get(st, v)
    st = st.fork()
    return [(st, ip.new(st, HDict(dict(h.attrs))))]


def m_type(ip, st, args, kw):
    v = args[0]
    if isinstance(v, Ref):
        h = ip.get(st, v)
        return [(st, h.cls if isinstance(h, HInst) else {HList: list, HDict: dict, HSet: set}[type(h)])]
    if isinstance(v, SStr):
        return [(st, str)]
    if isinstance(v, SInt):
        return [(st, int)]
    if isinstance(v, SBool):
        return [(st, bool)]
    return ip.each(st, v, lambda s, x: [(s, type(x))] if not isinstance(x, Ref) else m_type(ip, s, [x], {}))


def m_warn(ip, st, args, kw):
    if not ip.trace_warn:
        return [(st, None)]
    st = st.fork()
    st.emit(("warn", category(ip, args, kw), args[0] if args else kw.get("message")))
    return [(st, None)]


def category(ip, args, kw):
    c = args[1] if len(args) > 1 else kw.get("category", UserWarning)
    return c.__name__ if isinstance(c, type) else str(c)


def m_ident(ip, st, args, kw):
    return [(st, args[0])]


def m_print(ip, st, args, kw):
    return [(st, None)]


def m_quote(ip, st, args, kw):
    ip.assumed.add("shlex.quote: one word of a shell line that stands for the text")

    def f(s, v):
        if isinstance(v, str):
            import shlex
            return [(s, shlex.quote(v))]
        if not isinstance(v, SStr):
            raise Unsupported("quote of %r" % (v,))
        return [(s, fn_atom(ip, "shlex.quote", v, Dom(nonempty=True)))]
    return ip.each(st, args[0], f)


def m_normpath(ip, st, args, kw):
    def f(s, v):
        if isinstance(v, str):
            return [(s, os.path.normpath(v))]
        if not isinstance(v, SStr):
            ip.raise_new(s, TypeError, "normpath")
            return []
        if len(v.parts) == 1 and isinstance(v.parts[0], Atom):
            a = v.parts[0]
            if a.fn == "normpath":
                return [(s, v)]
            r = fn_atom(ip, "normpath", v, Dom(no=a.dom.no, nonempty=True, nodash=a.dom.nodash and ip.normpath_nodash))
            z = r.parts[0].z
            ip.axioms.append(z != z3.StringVal(""))
            ip.axioms.append(z3.PrefixOf(z3.StringVal("/"), z) == z3.PrefixOf(z3.StringVal("/"), a.z))
            return [(s, r)]
        if len(v.parts) == 1 and isinstance(v.parts[0], Cho):
            res = []
            for g, x in v.parts[0].alts:
                s2 = s.fork(g)
                if not s2.dead():
                    res.extend(f(s2, mk_str([x])))
            return ip.merge_results(res)
        raise Unsupported("normpath of %r" % (v,))
    return ip.each(st, args[0], f)


def m_minmax(fn):
    def m(ip, st, args, kw):
        if len(args) == 1:
            r = ip.concrete_seq(st, args[0])
        else:
            r = [(st, list(args))]
        out = []
        for s, vs in r:
            if all(isinstance(v, (int, float)) for v in vs) or all(isinstance(v, str) for v in vs):
                if not vs:
                    ip.raise_new(s, ValueError, "empty")
                    continue
                out.append((s, fn(vs)))
            elif vs and not kw and all(isinstance(v, SInt) or isinstance(v, int) and not isinstance(v, bool) for v in vs):
                z = [v.z if isinstance(v, SInt) else z3.IntVal(v) for v in vs]
                r = z[0]
                for x in z[1:]:
                    r = z3.If((x < r) if fn is min else (x > r), x, r)
                out.append((s, SInt(r)))
            else:
                raise Unsupported("min/max")
        return out
    return m


class MatchObject:
    pass


def m_re_match(kind):
    """re.match & co. with a literal pattern the specification also uses: uninterpreted predicate and group functions"""
    import re

    def m(ip, st, args, kw):
        args = list(args) + [kw[k] for k in ("flags",) if k in kw]
        pat, s = args[0], args[1]
        flags = args[2] if len(args) > 2 else 0
        if not isinstance(pat, str) or not ip.is_conc(flags):
            raise Unsupported("symbolic regular expression")

        def f(s1, v):
            if isinstance(v, str):
                r = getattr(re, kind)(pat, v, flags)
                if r is None:
                    return [(s1, None)]
                s1 = s1.fork()
                return [(s1, ip.new(s1, HInst(MatchObject, {"groups": (r.group(0),) + r.groups()})))]
            key = (kind, pat, int(flags))
            if key not in ip.regexes:
                raise Unsupported("regular expression %r" % pat)
            if not isinstance(v, SStr):
                ip.raise_new(s1, TypeError, "expected string")
                return []
            z = rope_z(v)
            ok = zfun("%s:%s:%d" % key, z3.StringSort(), z3.BoolSort())(z)
            n = re.compile(pat).groups
            ip.assumed.add("re.%s is a function of pattern and text; groups that match \\d+ are not empty" % kind)
            gs = [SStr((Atom(zfun("group%d:%s:%s:%d" % ((i,) + key), z3.StringSort(), z3.StringSort())(z), Dom(nonempty=(i == 1))),)) for i in range(n + 1)]
            a, b = ip.branch(s1, ok)
            out = [(b, None)] if b is not None else []
            if a is not None:
                a = a.fork()
                out.append((a, ip.new(a, HInst(MatchObject, {"groups": tuple(gs)}))))
            return out
        return ip.each(st, s, f)
    return m


def m_group(ip, st, args, kw):
    h = ip.get(st, args[0])
    i = args[1] if len(args) > 1 else 0
    return [(st, h.attrs["groups"][i])]


MatchObject.group = m_group


def m_getopt(ip, st, args, kw):
    """getopt.getopt: GetoptError, or (option pairs, remaining words) determined by its arguments"""
    import getopt
    if kw or len(args) < 2:
        raise Unsupported("getopt call")
    longs = args[2] if len(args) > 2 else ()
    h = ip.get(st, args[0]) if isinstance(args[0], Ref) else None
    if not isinstance(h, HList) or not ip.is_conc(args[1]) or not ip.is_conc(longs):
        raise Unsupported("getopt arguments")
    ip.assumed.add("getopt.getopt")
    key = ip.named("getopt", (repr(h.items), repr(args[1]), repr(longs)))
    bad = z3.Bool(key + ".error")
    y, n = ip.branch(st, bad)
    if y is not None:
        ip.raise_new(y, getopt.GetoptError, "getopt error")
    n = n.fork()
    qo, qr = ip.seq(key + ".opts"), ip.seq(key + ".rest")
    o = SStr((Atom(zfun("optname", z3.StringSort(), z3.StringSort())(qo.e), Dom(nonempty=True)),))
    v = SStr((Atom(zfun("optval", z3.StringSort(), z3.StringSort())(qo.e)),))
    n.assume(qo.len >= 0)
    n.assume(qr.len >= 0)
    opts = ip.new(n, HList([Star(True, qo, (o, v))]))
    rest = ip.new(n, HList([Star(True, qr, qr.val)]))
    return [(n, (opts, rest))]


def with_(ip, node, st, fr):
    h = ip.with_model
    if h is not None:
        return h(ip, node, st, fr)

    def go(k, st):
        if k == len(node.items):
            return ip.block(node.body, st, fr)
        it = node.items[k]
        out = []
        for s, cm in ip.ev(it.context_expr, st, fr):
            if not isinstance(cm, Ref) or not isinstance(ip.get(s, cm), HInst) or not hasattr(ip.get(s, cm).cls, "__exit__"):
                raise Unsupported("with statement over %r" % (cm,))
            cls = ip.get(s, cm).cls
            for s1, v in ip.call(s, cls.__enter__, [cm], {}):
                for s2 in (ip.assign(it.optional_vars, v, s1, fr) if it.optional_vars is not None else [s1]):
                    ip.coll.append([])
                    try:
                        res = go(k + 1, s2)
                    finally:
                        raised = ip.coll.pop()
                    for s3, kind, x in res:
                        for s4, _ in ip.call(s3, cls.__exit__, [cm, None, None, None], {}):
                            out.append((s4, kind, x))
                    for s3, e in raised:
                        for s4, r in ip.call(s3, cls.__exit__, [cm, I.Opaque("exception type"), e, None], {}):
                            if r not in (None, False):
                                raise Unsupported("a context manager that may swallow exceptions")
                            ip.raise_(s4, e)
        return out
    return go(0, st)


def install(ip):
    ip.method_models = {}
    ip.with_model = None
    M = ip.models
    M[len] = m_len
    M[isinstance] = m_isinstance
    M[getattr] = m_getattr
    M[hasattr] = m_hasattr
    M[setattr] = m_setattr
    M[delattr] = m_delattr
    M[str] = m_str
    M[int] = m_int
    M[bool] = m_bool
    M[list] = m_list
    M[tuple] = m_tuple
    M[set] = m_set
    M[dict.fromkeys] = m_fromkeys
    M[dict] = m_dict
    M[any] = m_anyall(True)
    M[all] = m_anyall(False)
    M[filter] = m_filter
    M[map] = m_map
    M[sorted] = m_sorted
    M[range] = m_range
    M[zip] = m_zip
    M[enumerate] = m_enumerate
    M[reversed] = m_reversed
    M[iter] = m_iter
    M[next] = m_next
    M[vars] = m_vars
    M[type] = m_type
    M[print] = m_print
    M[min] = m_minmax(min)
    M[max] = m_minmax(max)
    M[_warnings.warn] = m_warn
    M[_gettext.gettext] = m_ident
    M[os.path.normpath] = m_normpath
    import shlex
    M[shlex.quote] = m_quote
    import shlex
    M[shlex.split] = m_shlex_split
    ip.plain_words = ()
    import re
    ip.regexes = set()
    for k in ("match", "search", "fullmatch"):
        M[getattr(re, k)] = m_re_match(k)
    M[m_group] = m_group
    import getopt
    M[getopt.getopt] = m_getopt

    def sort_items(s, items):
        return list_sort_hook(ip, s, items)
    ip.sort_items = sort_items


def list_sort_hook(ip, st, items):
    """sorted() of a symbolic collection is kept as an uninterpreted rearrangement: a fresh sequence with the
    same members (used only where the caller compares as sets)"""
    raise Unsupported("sorting symbolic collection")
