"""Symbolic values: guards, ropes (symbolic strings), unions, heap objects and merging.

Guards are Python bools or z3 Bools.  Values are either plain Python values (concrete) or
SBool / SInt / SStr / SUnion / Ref (a heap reference).  Nothing here knows about pykickstart.
"""
import itertools
import z3

_cnt = itertools.count(1)


def fresh_id():
    return next(_cnt)


class Unsupported(Exception):
    """A construct the engine has no semantics for: the obligation is undecided, never violated."""


# ------------------------------------------------------------------ guards
def is_true(g):
    return g is True or (not isinstance(g, bool) and z3.is_true(g))


def is_false(g):
    return g is False or (not isinstance(g, bool) and z3.is_false(g))


def bz(g):
    return z3.BoolVal(g) if isinstance(g, bool) else g


def norm(g):
    if isinstance(g, bool):
        return g
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return False
    return g


def Not(g):
    g = norm(g)
    if isinstance(g, bool):
        return not g
    if z3.is_not(g):
        return g.arg(0)
    return z3.Not(g)


def And(*gs):
    out = []
    for g in gs:
        g = norm(g)
        if g is False:
            return False
        if g is True:
            continue
        if z3.is_and(g):
            cand = g.children()
        else:
            cand = [g]
        for c in cand:
            if not any(c.eq(o) for o in out):
                out.append(c)
    for i, a in enumerate(out):
        na = Not(a)
        for b in out[i + 1:]:
            if not isinstance(na, bool) and na.eq(b):
                return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*gs):
    out = []
    for g in gs:
        g = norm(g)
        if g is True:
            return True
        if g is False:
            continue
        cand = g.children() if z3.is_or(g) else [g]
        for c in cand:
            if not any(c.eq(o) for o in out):
                out.append(c)
    for i, a in enumerate(out):
        na = Not(a)
        for b in out[i + 1:]:
            if not isinstance(na, bool) and na.eq(b):
                return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = norm(a), norm(b)
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return Not(b)
    if b is False:
        return Not(a)
    if a.eq(b):
        return True
    return a == b


def Ite(g, a, b):
    """boolean if-then-else"""
    g, a, b = norm(g), norm(a), norm(b)
    if g is True:
        return a
    if g is False:
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return g if a else Not(g)
    if not isinstance(a, bool) and not isinstance(b, bool) and a.eq(b):
        return a
    if a is True:
        return Or(g, b)
    if a is False:
        return And(Not(g), b)
    if b is True:
        return Or(Not(g), a)
    if b is False:
        return And(g, a)
    return z3.If(g, a, b)


# ------------------------------------------------------------------ scalar symbolic values
class SBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return "SBool(%s)" % self.z


def mk_bool(g):
    g = norm(g)
    return g if isinstance(g, bool) else SBool(g)


class SInt:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return "SInt(%s)" % self.z


def mk_int(z):
    if isinstance(z, int):
        return z
    if z3.is_int_value(z):
        return z.as_long()
    return SInt(z)


def iz(v):
    if isinstance(v, SInt):
        return v.z
    if isinstance(v, SBool):
        return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    return z3.IntVal(v)


# ------------------------------------------------------------------ strings: ropes
class Dom:
    """What is known about the characters of an atom: `no` = set of chars it cannot contain,
    nonempty, nodash (does not start with '-')."""
    __slots__ = ("no", "nonempty", "nodash", "name", "ws", "one")

    def __init__(self, no="", nonempty=False, nodash=False, name="", ws=False, one=False):
        self.no = frozenset(no)
        self.nonempty = nonempty or one
        self.nodash = nodash
        self.name = name
        self.ws = ws            # whitespace only
        self.one = one          # exactly one character

    def minus(self, chars):
        return Dom(self.no | frozenset(chars), self.nonempty, self.nodash, self.name + "-" + chars, self.ws, self.one)

    def allows(self, s):
        if self.ws and s.strip() != "":
            return False
        if self.one and len(s) != 1:
            return False
        if self.nonempty and s == "":
            return False
        if self.nodash and s[:1] == "-":
            return False
        return not (self.no & set(s))


WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"
ANY = Dom(name="any")
PLAIN = Dom(no=WS + "\"'\\#", nonempty=True, nodash=True, name="plain")
QUOTED = Dom(no="\n\r\x0b\x0c\x1c\x1d\x1e\x85\"\\", nonempty=True, name="quoted")
ATOMS = {}      # z3 ast id -> Atom, for concretisation


class Atom:
    __slots__ = ("z", "dom", "fn", "arg", "neg_eq")

    def __init__(self, z, dom=ANY, fn=None, arg=None):
        self.z = z
        self.dom = dom
        self.fn = fn        # name of an uninterpreted library function, with arg an SStr
        self.arg = arg

    def __eq__(self, o):
        return isinstance(o, Atom) and (self.z is o.z or self.z.eq(o.z))

    def __hash__(self):
        return self.z.hash()

    def __repr__(self):
        return "<%s>" % self.z


class IntS:
    """str() of an integer"""
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __eq__(self, o):
        return isinstance(o, IntS) and self.z.eq(o.z)

    def __hash__(self):
        return hash(("int", self.z.hash()))

    def __repr__(self):
        return "<int %s>" % self.z


class Cho:
    """guarded alternatives, guards exclusive and exhaustive"""
    __slots__ = ("alts", "_h")

    def __init__(self, alts):
        self.alts = tuple(alts)
        self._h = None

    def __eq__(self, o):
        if self is o:
            return True
        return (isinstance(o, Cho) and len(self.alts) == len(o.alts)
                and all(geq(g1, g2) and s1 == s2 for (g1, s1), (g2, s2) in zip(self.alts, o.alts)))

    def __hash__(self):
        if self._h is None:
            self._h = hash(("cho",) + tuple(s for _, s in self.alts))
        return self._h

    def __repr__(self):
        return "{%s}" % " | ".join("%s? %r" % (g, s) for g, s in self.alts)


class JoinP:
    """sep.join(items); items = list items (Item / Star)"""
    __slots__ = ("sep", "items")

    def __init__(self, sep, items):
        self.sep = sep
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, JoinP) and self.sep == o.sep and self.items == o.items

    def __hash__(self):
        return hash(("join", self.sep, len(self.items)))

    def __repr__(self):
        return "<join %r %r>" % (self.sep, self.items)


def geq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a.eq(b)


class SStr:
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                sub = p.parts
            else:
                sub = (p,)
            for q in sub:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)

    def __eq__(self, o):
        return isinstance(o, SStr) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return "S" + repr(list(self.parts))


def mk_str(parts):
    s = SStr(parts)
    if not s.parts:
        return ""
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def as_rope(v):
    if isinstance(v, SStr):
        return v
    assert isinstance(v, str), v
    return SStr((v,))


def is_str(v):
    return isinstance(v, (str, SStr))


def is_int(v):
    return isinstance(v, (int, SInt)) and not isinstance(v, bool)


def is_bool(v):
    return isinstance(v, (bool, SBool))


def sym_str(name, dom=ANY):
    return SStr((Atom(z3.String(name), dom),))


_zfun = {}


def zfun(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _zfun:
        _zfun[key] = z3.Function(name, *sorts)
    return _zfun[key]


_join_consts = {}


def rope_z(r):
    """z3 String term of a rope (JoinP becomes an uninterpreted constant per structure)."""
    if isinstance(r, str):
        return z3.StringVal(r)
    out = []
    for p in r.parts:
        if isinstance(p, str):
            out.append(z3.StringVal(p))
        elif isinstance(p, Atom):
            out.append(p.z)
        elif isinstance(p, IntS):
            out.append(zfun("str_of_int", z3.IntSort(), z3.StringSort())(p.z))
        elif isinstance(p, Cho):
            e = None
            for g, s in reversed(p.alts):
                e = rope_z(s) if e is None else z3.If(bz(g), rope_z(s), e)
            out.append(e)
        elif isinstance(p, JoinP):
            for k, c in _join_consts.items():
                if k == p:
                    out.append(c)
                    break
            else:
                c = z3.String("join!%d" % fresh_id())
                _join_consts[p] = c
                out.append(c)
    if not out:
        return z3.StringVal("")
    if len(out) == 1:
        return out[0]
    return z3.Concat(*out)


# ------------------------------------------------------------------ unions, references
class SUnion:
    """guarded alternatives of different types; guards exclusive and exhaustive (under the pc)"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __eq__(self, o):
        return (isinstance(o, SUnion) and len(self.alts) == len(o.alts)
                and all(geq(g1, g2) and same(v1, v2) for (g1, v1), (g2, v2) in zip(self.alts, o.alts)))

    def __hash__(self):
        return hash(len(self.alts))

    def __repr__(self):
        return "U{%s}" % " | ".join("%s? %r" % (g, v) for g, v in self.alts)


class Ref:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "@%d" % self.id


class _Absent:
    def __repr__(self):
        return "ABSENT"


ABSENT = _Absent()


# ------------------------------------------------------------------ heap objects (immutable; replace to write)
class HInst:
    __slots__ = ("cls", "attrs", "native")

    def __init__(self, cls, attrs=None, native=None):
        self.cls = cls
        self.attrs = attrs or {}
        self.native = native

    def set(self, k, v):
        a = dict(self.attrs)
        a[k] = v
        return HInst(self.cls, a, self.native)

    def __repr__(self):
        return "<%s %r>" % (self.cls.__name__, self.attrs)


class Item:
    """list element present iff g"""
    __slots__ = ("g", "v")

    def __init__(self, g, v):
        self.g = g
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Item) and geq(self.g, o.g) and same(self.v, o.v)

    def __hash__(self):
        return 1

    def guard(self, g):
        return Item(And(g, self.g), self.v)

    def __repr__(self):
        return "%r" % (self.v,) if self.g is True else "[%s]?%r" % (self.g, self.v)


class Seq:
    """an arbitrary finite sequence; e is its representative element (a z3 String constant or other value)"""
    def __init__(self, name, dom=ANY, sort="str"):
        self.name = name
        self.dom = dom
        self.sort = sort
        self.len = z3.Int("len!" + name)
        if sort == "str":
            self.e = z3.String("elem!" + name)
            self.atom = Atom(self.e, dom)
            self.val = SStr((self.atom,))
        else:
            self.e = z3.Int("elem!" + name)
            self.val = SInt(self.e)
        self.facts = []            # z3 Bools over e that hold for every element
        self.counts = {}

    @property
    def ne(self):
        return self.len > 0

    def __repr__(self):
        return "seq:" + self.name


class Star:
    """[elem(e) for e in seq if filt(e)] when g, else nothing"""
    __slots__ = ("g", "seq", "elem", "filt", "extra")

    def __init__(self, g, seq, elem, filt=True):
        self.g = g
        self.seq = seq
        self.elem = elem
        self.filt = filt

    def __eq__(self, o):
        return (isinstance(o, Star) and geq(self.g, o.g) and self.seq is o.seq
                and same(self.elem, o.elem) and geq(self.filt, o.filt))

    def __hash__(self):
        return 2

    def guard(self, g):
        return Star(And(g, self.g), self.seq, self.elem, self.filt)

    def count(self):
        """z3 Int: number of elements contributed when g"""
        if self.filt is True:
            return self.seq.len
        if self.filt is False:
            return z3.IntVal(0)
        k = self.filt.sexpr()
        if k not in self.seq.counts:
            self.seq.counts[k] = (z3.Int("cnt!%s!%d" % (self.seq.name, len(self.seq.counts))), self.filt)
        return self.seq.counts[k][0]

    def nonempty(self):
        return And(self.g, self.count() > 0)

    def __repr__(self):
        return "*[%s]?%r in %r if %s" % (self.g, self.elem, self.seq, self.filt)


class HList:
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = tuple(items)

    def plain(self):
        """the element list if every element is certainly present, else None"""
        if all(isinstance(i, Item) and i.g is True for i in self.items):
            return [i.v for i in self.items]
        return None

    def __repr__(self):
        return "list%r" % (list(self.items),)


class HDict:
    """concrete hashable keys -> value (possibly SUnion with ABSENT); insertion ordered"""
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d or {}

    def __repr__(self):
        return "dict%r" % self.d


class HSet:
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = tuple(items)

    def __repr__(self):
        return "set%r" % (list(self.items),)


class HIter:
    """an iterator over a list value: items still to come"""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


# ------------------------------------------------------------------ structural identity
_CONC = (int, bool, float, str, bytes, type(None))


def same(a, b):
    """structurally identical (sufficient for semantic equality)"""
    if a is b:
        return True
    if isinstance(a, _CONC) or isinstance(b, _CONC):
        return type(a) is type(b) and a == b
    if isinstance(a, SBool) and isinstance(b, SBool):
        return a.z.eq(b.z)
    if isinstance(a, SInt) and isinstance(b, SInt):
        return a.z.eq(b.z)
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (SStr, SUnion, Ref)):
        return a == b
    return False


# ------------------------------------------------------------------ merging
def vclass(v):
    if v is None:
        return "none"
    if is_bool(v):
        return "bool"
    if is_int(v):
        return "int"
    if is_str(v):
        return "str"
    if isinstance(v, tuple):
        return ("tuple", len(v))
    if v is ABSENT:
        return "absent"
    if isinstance(v, Ref):
        return ("ref", v.id)
    return ("obj", id(v))


def merge_str(g, a, b):
    """g ? a : b for ropes, factoring common prefix and suffix"""
    pa, pb = list(as_rope(a).parts), list(as_rope(b).parts)
    pre = []
    while pa and pb:
        if pa[0] == pb[0]:
            pre.append(pa.pop(0))
            pb.pop(0)
            continue
        if isinstance(pa[0], str) and isinstance(pb[0], str):
            n = 0
            x, y = pa[0], pb[0]
            while n < min(len(x), len(y)) and x[n] == y[n]:
                n += 1
            # never split inside a token: factor only whole-literal prefixes
            if n and n == len(x):
                pre.append(x)
                pa.pop(0)
                pb[0] = y[n:]
                continue
            if n and n == len(y):
                pre.append(y)
                pb.pop(0)
                pa[0] = x[n:]
                continue
        break
    suf = []
    while pa and pb and pa[-1] == pb[-1]:
        suf.insert(0, pa.pop())
        pb.pop()
    # ite(g, X + lit, X2 + lit) with literal tails
    if pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str) and (len(pa) > 1 or len(pb) > 1):
        x, y = pa[-1], pb[-1]
        if x.endswith("\n") and y.endswith("\n"):
            pa[-1], pb[-1] = x[:-1], y[:-1]
            for q in (pa, pb):
                if not q[-1]:
                    q.pop()
            suf.insert(0, "\n")
    if not pa and not pb:
        return mk_str(pre + suf)
    alts = _flat_cho(g, SStr(pa)) + _flat_cho(Not(g), SStr(pb))
    alts = _dedupe_cho(alts)
    if len(alts) > 2:
        alts = _cluster(alts)
    if len(alts) == 1:
        return mk_str(pre + [alts[0][1]] + suf)
    return mk_str(pre + [Cho(alts)] + suf)


def _cluster(alts):
    """alternatives which start alike are put together"""
    out = []
    for g, s in alts:
        for i, (g2, s2) in enumerate(out):
            if len(s.parts) > 1 and len(s2.parts) > 1 and s.parts[0] == s2.parts[0]:
                out[i] = (Or(g2, g), as_rope(merge_str(g2, s2, s)))
                break
        else:
            out.append((g, s))
    return out


def _flat_cho(g, s):
    if len(s.parts) == 1 and isinstance(s.parts[0], Cho):
        return [(And(g, g2), s2) for g2, s2 in s.parts[0].alts]
    return [(g, s)]


def _dedupe_cho(alts):
    out = []
    for g, s in alts:
        if g is False:
            continue
        for i, (g2, s2) in enumerate(out):
            if s == s2:
                out[i] = (Or(g2, g), s2)
                break
        else:
            out.append((g, s))
    return out


def mk_cho(alts):
    """guarded ropes -> value"""
    alts = _dedupe_cho([(g, as_rope(s)) for g, s in alts])
    if len(alts) == 1:
        return mk_str([alts[0][1]])
    # fold through merge_str to factor prefixes
    g0, s0 = alts[0]
    rest = alts[1:]
    if len(rest) == 1:
        return merge_str(g0, s0, rest[0][1])
    return mk_str([Cho(alts)])


def merge_val(g, a, b):
    """value of (g ? a : b)"""
    if g is True:
        return a
    if g is False:
        return b
    if same(a, b):
        return a
    if is_bool(a) and is_bool(b):
        return mk_bool(Ite(g, a if isinstance(a, bool) else a.z, b if isinstance(b, bool) else b.z))
    if is_int(a) and is_int(b):
        return mk_int(z3.If(g, iz(a), iz(b)))
    if is_str(a) and is_str(b):
        return merge_str(g, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(g, x, y) for x, y in zip(a, b))
    alts = []
    for gg, v in ((g, a), (Not(g), b)):
        if isinstance(v, SUnion):
            alts.extend((And(gg, g2), v2) for g2, v2 in v.alts)
        else:
            alts.append((gg, v))
    return mk_union(alts)


def mk_union(alts):
    out = []
    for g, v in alts:
        g = norm(g)
        if g is False:
            continue
        if isinstance(v, SUnion):
            sub = [(And(g, g2), v2) for g2, v2 in v.alts]
        else:
            sub = [(g, v)]
        for g2, v2 in sub:
            if g2 is False:
                continue
            for i, (og, ov) in enumerate(out):
                if vclass(ov) == vclass(v2):
                    out[i] = (Or(og, g2), merge_val(og, ov, v2) if not same(ov, v2) else ov)
                    break
            else:
                out.append((g2, v2))
    if not out:
        raise Unsupported("empty union")
    if len(out) == 1:
        return out[0][1]
    return SUnion(out)


def merge_items(g, xs, ys):
    pre = []
    xs, ys = list(xs), list(ys)
    while xs and ys and xs[0] == ys[0]:
        pre.append(xs.pop(0))
        ys.pop(0)
    suf = []
    while xs and ys and xs[-1] == ys[-1]:
        suf.insert(0, xs.pop())
        ys.pop()
    if xs and ys and len(xs) == len(ys) and all(
            isinstance(x, Item) and isinstance(y, Item) and geq(x.g, y.g) and
            (vclass(x.v) == vclass(y.v)) for x, y in zip(xs, ys)):
        mid = [Item(x.g, merge_val(g, x.v, y.v)) for x, y in zip(xs, ys)]
    else:
        mid = [x.guard(g) for x in xs] + [y.guard(Not(g)) for y in ys]
        mid = [m for m in mid if m.g is not False]
    return pre + mid + suf


def merge_hobj(g, a, b):
    if a is b:
        return a
    if type(a) is not type(b):
        raise Unsupported("merge of different heap kinds")
    if isinstance(a, HInst):
        if a.cls is not b.cls:
            raise Unsupported("merge of different classes")
        if a.attrs is b.attrs:
            return a
        attrs = {}
        for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
            va, vb = a.attrs.get(k, ABSENT), b.attrs.get(k, ABSENT)
            attrs[k] = merge_val(g, va, vb)
        return HInst(a.cls, attrs, a.native)
    if isinstance(a, HList):
        return HList(merge_items(g, a.items, b.items))
    if isinstance(a, HSet):
        return HSet(merge_items(g, a.items, b.items))
    if isinstance(a, HDict):
        d = {}
        for k in list(a.d) + [k for k in b.d if k not in a.d]:
            d[k] = merge_val(g, a.d.get(k, ABSENT), b.d.get(k, ABSENT))
        return HDict(d)
    raise Unsupported("merge of %s" % type(a).__name__)
