"""Strongest-postcondition symbolic execution of real Python source, with state merging.

Functions are located through their code objects and executed from the AST of the file they were
loaded from.  Library calls go through contracts ("models", see models.py); everything in the code
under verification is either inlined or used through a registered contract.
"""
import ast
import builtins
import inspect
import types
import z3

from .values import *          # noqa: F401,F403
from . import values as V

MAXDEPTH = 60


class St:
    __slots__ = ("pc", "heap", "envs", "trace")

    def __init__(self, pc=(), heap=None, envs=None, trace=()):
        self.pc = pc
        self.heap = heap if heap is not None else {}
        self.envs = envs if envs is not None else {}
        self.trace = trace

    def fork(self, g=True):
        s = St(self.pc, dict(self.heap), dict(self.envs), self.trace)
        return s.assume(g)

    def assume(self, g):
        g = norm(g)
        if g is True:
            return self
        if not isinstance(g, bool) and any((p is g) or (not isinstance(p, bool) and p.eq(g)) for p in self.pc):
            return self
        self.pc = self.pc + (g,)
        return self

    def cond(self):
        return And(*self.pc)

    def dead(self):
        if any(p is False for p in self.pc):
            return True
        neg = [p.arg(0) for p in self.pc if not isinstance(p, bool) and z3.is_not(p)]
        return any(n.eq(p) for n in neg for p in self.pc if not isinstance(p, bool))

    def emit(self, ev):
        self.trace = self.trace + (ev,)


class Clo:
    """closure created by interpreted code"""
    def __init__(self, node, fid, glob, defaults, kwdefaults, name, cls=None):
        self.node, self.fid, self.glob = node, fid, glob
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name
        self.cls = cls


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return "Bound(%r,%r)" % (self.fn, self.self_)


class BM:
    """bound builtin-type method: receiver value + method name"""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Opaque:
    """an uninterpreted value of unknown structure"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Opaque(%s)" % self.name


_src_cache = {}


def src_index(filename):
    if filename not in _src_cache:
        with open(filename) as f:
            tree = ast.parse(f.read(), filename)
        idx = {}
        stack = [(tree, None)]
        while stack:
            n, cls = stack.pop()
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    ln = min([c.lineno] + [d.lineno for d in c.decorator_list])
                    idx[(ln, c.name)] = (c, cls)
                elif isinstance(c, ast.Lambda):
                    idx.setdefault((c.lineno, "<lambda>"), (c, cls))
                stack.append((c, c.name if isinstance(c, ast.ClassDef) else cls))
        _src_cache[filename] = idx
    return _src_cache[filename]


def fn_ast(fn):
    co = fn.__code__
    idx = src_index(co.co_filename)
    k = (co.co_firstlineno, co.co_name)
    if k not in idx:
        raise Unsupported("no source for %s" % fn)
    return idx[k][0]


class Frame:
    __slots__ = ("fid", "glob", "clsname", "selfv", "fn", "parents")

    def __init__(self, fid, glob, fn, parents=(), clscell=None):
        self.fid, self.glob, self.fn, self.parents = fid, glob, fn, parents


class Interp:
    def __init__(self, models=None):
        self.base = {}            # ref id -> HObj of lifted native objects
        self.lifted = {}          # id(native) -> ref id
        self.keep = []            # keep natives alive
        self.coll = [[]]          # raise collectors
        self.depth = 0
        self.models = {}          # native callable -> model
        self.opaque_types = ()
        self.inlined = set()      # qualnames executed from source
        self.assumed = set()      # names of library contracts used
        self.axioms = []          # global z3 axioms (about uninterpreted library functions)
        self.contracts = {}
        self.fn_axioms = {}       # term -> facts about an uninterpreted library function at that term
        self.undef = []           # (pc, reason) for unsupported constructs
        self.feas_cache = {}
        self.inline_ok = lambda fn: True
        self.trace_warn = True
        self.splits = {}
        self.seqs = {}            # name -> Seq (interned, so that two runs share inputs)
        self.exs = {}             # (seq name, predicate) -> (Bool, witness, predicate, Seq)
        self.names = {}           # interned auxiliary constants
        self.lemmas = {}
        from . import models as M
        M.install(self)

    # ---------------------------------------------------------------- heap
    def get(self, st, ref):
        h = st.heap.get(ref.id)
        if h is None:
            h = self.base.get(ref.id)
            if h is None:
                raise Unsupported("dangling ref")
        return h

    def put(self, st, ref, h):
        st.heap[ref.id] = h

    def new(self, st, h):
        r = Ref(fresh_id())
        st.heap[r.id] = h
        return r

    def new_list(self, st, vals):
        return self.new(st, HList([Item(True, v) for v in vals]))

    def lift(self, v):
        """native Python value -> engine value"""
        if isinstance(v, (int, bool, float, str, bytes, type(None), type, types.FunctionType, types.BuiltinFunctionType,
                          types.ModuleType, types.MethodDescriptorType, SBool, SInt, SStr, SUnion, Ref, Clo, Bound, Opaque, BM)):
            return v
        if isinstance(v, tuple):
            return tuple(self.lift(x) for x in v)
        if isinstance(v, types.MethodType):
            return Bound(v.__func__, self.lift(v.__self__))
        if self.opaque_types and isinstance(v, self.opaque_types):
            return v
        if id(v) in self.lifted:
            return Ref(self.lifted[id(v)])
        if isinstance(v, (list, dict, set, frozenset)) or self.liftable(v):
            rid = fresh_id()
            self.lifted[id(v)] = rid
            self.keep.append(v)
            if isinstance(v, list):
                self.base[rid] = HList([Item(True, self.lift(x)) for x in v])
            elif isinstance(v, dict):
                self.base[rid] = HDict({k: self.lift(x) for k, x in v.items()})
            elif isinstance(v, (set, frozenset)):
                self.base[rid] = HSet([Item(True, self.lift(x)) for x in sorted(v, key=repr)])
            else:
                self.base[rid] = HInst(type(v), {k: self.lift(x) for k, x in vars(v).items()}, v)
            return Ref(rid)
        return v

    def liftable(self, v):
        if not hasattr(v, "__dict__"):
            return False
        return any((getattr(k, "__module__", "") or "").split(".")[0] in self.lift_packages for k in type(v).__mro__)

    inst_eq = None                # hook: structural comparison of objects
    lift_packages = ("pykickstart", "ksspec")

    # ---------------------------------------------------------------- raising / merging
    def raise_(self, st, exc):
        if not st.dead():
            self.coll[-1].append((st, exc))

    def raise_new(self, st, cls, *args, **attrs):
        st = st.fork()
        r = self.new(st, HInst(cls, dict(attrs, args=tuple(args))))
        self.raise_(st, r)

    def merge_pair(self, a, b):
        """two states with a common pc prefix -> one state"""
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or geq(a.pc[n], b.pc[n])):
            n += 1
        ga, gb = And(*a.pc[n:]), And(*b.pc[n:])
        if ga is True or gb is True:
            # one side unconstrained: cannot separate unless other is False
            if ga is False:
                return b
            if gb is False:
                return a
            if ga is True and gb is True:
                pass
        s = St(a.pc[:n], {}, {}, a.trace)
        s.assume(Or(ga, gb))
        g = ga
        if not isinstance(g, bool) and z3.is_and(g) and not isinstance(gb, bool):
            # prefer the shorter discriminator when one side is a single literal
            if not z3.is_and(gb) and not z3.is_or(gb):
                g = Not(gb)
        for rid in set(a.heap) | set(b.heap):
            ha, hb = a.heap.get(rid), b.heap.get(rid)
            if ha is None:
                ha = self.base.get(rid)
            if hb is None:
                hb = self.base.get(rid)
            if ha is None:
                s.heap[rid] = hb
            elif hb is None or ha is hb:
                s.heap[rid] = ha
            else:
                s.heap[rid] = merge_hobj(g, ha, hb)
        for fid in set(a.envs) | set(b.envs):
            ea, eb = a.envs.get(fid), b.envs.get(fid)
            if ea is None or eb is None:
                s.envs[fid] = ea or eb
            elif ea is eb:
                s.envs[fid] = ea
            else:
                e = {}
                for k in list(ea) + [k for k in eb if k not in ea]:
                    e[k] = merge_val(g, ea.get(k, ABSENT), eb.get(k, ABSENT))
                s.envs[fid] = e
        return s

    merging = True

    def merge_states(self, sts):
        sts = [s for s in sts if not s.dead()]
        if not self.merging or len(sts) <= 1:
            return sts
        out = []
        for s in sts:
            for i, o in enumerate(out):
                if o.trace == s.trace:
                    try:
                        out[i] = self.merge_pair(o, s)
                    except Unsupported:
                        continue
                    break
            else:
                out.append(s)
        return out

    def merge_results(self, res):
        """[(st, val)] -> merged [(st, val)]"""
        if len(res) <= 1 or not self.merging:
            return [(s, v) for s, v in res if not s.dead()]
        for s, v in res:
            e = dict(s.envs.get(0, {}))
            e["$v"] = v
            s.envs[0] = e
        out = []
        for s in self.merge_states([s for s, _ in res]):
            v = s.envs[0]["$v"]
            e = dict(s.envs[0])
            del e["$v"]
            s.envs[0] = e
            out.append((s, v))
        return out

    def branch(self, st, g):
        """(state with g, state with not g); None when impossible"""
        g = norm(g)
        if g is True:
            return st, None
        if g is False:
            return None, st
        a, b = st.fork(g), st.fork(Not(g))
        return (None if a.dead() else a), (None if b.dead() else b)

    def branch_f(self, st, g):
        """branch, pruning sides the solver refutes"""
        a, b = self.branch(st, g)
        if a is not None and b is not None:
            if not self.feasible(a.pc):
                return None, b
            if not self.feasible(b.pc):
                return a, None
        return a, b

    def each(self, st, v, f):
        """apply f(st, alt) to the alternatives of v and merge"""
        if not isinstance(v, SUnion):
            return f(st, v)
        res = []
        for g, x in v.alts:
            s = st.fork(g)
            if s.dead():
                continue
            res.extend(f(s, x))
        return self.merge_results(res)

    def each_all(self, st, vs, f):
        """apply f(st, [alts]) over the product of alternatives"""
        vs = list(vs)
        for i, v in enumerate(vs):
            if isinstance(v, SUnion):
                def g(s, x, i=i):
                    w = list(vs)
                    w[i] = x
                    return self.each_all(s, w, f)
                return self.each(st, v, g)
        return f(st, vs)

    # ---------------------------------------------------------------- truth / equality
    def truth(self, st, v):
        """guard for bool(v); instances must not define __bool__/__len__"""
        if v is None or v is ABSENT:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, SBool):
            return v.z
        if isinstance(v, SInt):
            return v.z != 0
        if isinstance(v, SStr):
            return self.str_nonempty(v)
        if isinstance(v, SUnion):
            return Or(*[And(g, self.truth(st, x)) for g, x in v.alts])
        if isinstance(v, Ref):
            h = self.get(st, v)
            if isinstance(h, (HList, HSet)):
                return self.items_nonempty(h.items)
            if isinstance(h, HDict):
                if not h.d:
                    return False
                return Or(*[self.present(x) for x in h.d.values()])
            if isinstance(h, HInst):
                if any(hasattr(h.cls, a) for a in ("__bool__", "__len__")):
                    raise Unsupported("truth of %s" % h.cls)
                return True
        if isinstance(v, (list, dict, set)):
            return bool(v)
        return True

    @staticmethod
    def present(v):
        if v is ABSENT:
            return False
        if isinstance(v, SUnion):
            return Or(*[g for g, x in v.alts if x is not ABSENT])
        return True

    @staticmethod
    def items_nonempty(items):
        return Or(*[i.g if isinstance(i, Item) else i.nonempty() for i in items])

    @staticmethod
    def items_len(items):
        n, zs = 0, []
        for i in items:
            if isinstance(i, Item):
                if i.g is True:
                    n += 1
                elif i.g is not False:
                    zs.append(z3.If(i.g, z3.IntVal(1), z3.IntVal(0)))
            else:
                zs.append(i.count() if i.g is True else z3.If(bz(i.g), i.count(), z3.IntVal(0)))
        if not zs:
            return n
        e = zs[0] if len(zs) == 1 else z3.Sum(*zs)
        return mk_int(e + n if n else e)

    def str_nonempty(self, s):
        gs = []
        for p in s.parts:
            if isinstance(p, str) or isinstance(p, IntS):
                return True
            if isinstance(p, Atom):
                if p.dom.nonempty:
                    return True
                gs.append(p.z != z3.StringVal(""))
            elif isinstance(p, Cho):
                gs.append(Or(*[And(g, self.str_nonempty(x)) for g, x in p.alts]))
            elif isinstance(p, JoinP):
                for i in p.items:
                    el = i.v if isinstance(i, Item) else i.elem
                    te = self.str_nonempty(as_rope(el))
                    if isinstance(i, Item):
                        gs.append(And(i.g, te))
                    elif te is True:
                        gs.append(i.nonempty())
                    else:
                        # some element nonempty, or at least two elements
                        gs.append(And(i.g, self.exists(i.seq, And(i.filt, te))))
                        if p.sep:
                            gs.append(And(i.g, i.count() > 1))
                if p.sep and len(p.items) > 1 and not any(g is True for g in gs):
                    n = self.items_len(p.items)
                    gs.append(n > 1 if isinstance(n, int) else n.z > 1)
        return Or(*gs)

    def eq(self, st, a, b):
        """guard for a == b (Python semantics)"""
        if same(a, b):
            return True
        if isinstance(a, SUnion):
            return Or(*[And(g, self.eq(st, x, b)) for g, x in a.alts])
        if isinstance(b, SUnion):
            return Or(*[And(g, self.eq(st, a, x)) for g, x in b.alts])
        if a is ABSENT or b is ABSENT:
            return False
        if isinstance(a, SBool) or isinstance(b, SBool):
            if is_bool(a) and is_bool(b):
                return Iff(a if isinstance(a, bool) else a.z, b if isinstance(b, bool) else b.z)
            if is_int(a) or is_int(b):
                return norm(z3.simplify(iz(a) == iz(b)))
            return False
        if is_int(a) or is_int(b) or isinstance(a, bool) or isinstance(b, bool):
            if (is_int(a) or isinstance(a, bool)) and (is_int(b) or isinstance(b, bool)):
                if isinstance(a, int) and isinstance(b, int):
                    return a == b
                return norm(z3.simplify(iz(a) == iz(b)))
            if isinstance(a, float) or isinstance(b, float):
                if not isinstance(a, SInt) and not isinstance(b, SInt):
                    return a == b
                raise Unsupported("float compare")
            return False
        if is_str(a) and is_str(b):
            return self.str_eq(as_rope(a), as_rope(b))
        if isinstance(a, Ref) and isinstance(b, Ref):
            ha, hb = self.get(st, a), self.get(st, b)
            if isinstance(ha, HList) and isinstance(hb, HList):
                return self.items_eq(st, ha.items, hb.items)
            if isinstance(ha, HSet) and isinstance(hb, HSet):
                return self.items_eq(st, ha.items, hb.items)
            if isinstance(ha, HDict) and isinstance(hb, HDict):
                gs = []
                for k in set(ha.d) | set(hb.d):
                    va, vb = ha.d.get(k, ABSENT), hb.d.get(k, ABSENT)
                    if va is ABSENT and vb is ABSENT:
                        continue
                    gs.append(self.eq_abs(st, va, vb))
                return And(*gs)
            if isinstance(ha, HInst) and isinstance(hb, HInst):
                if self.inst_eq is not None:
                    return self.inst_eq(st, a, ha, b, hb)
                if "__eq__" in dir(ha.cls) and ha.cls.__eq__ is not object.__eq__:
                    raise Unsupported("custom __eq__")
                return False
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.eq(st, x, y) for x, y in zip(a, b)])
        if isinstance(a, (SStr, SInt, Ref)) or isinstance(b, (SStr, SInt, Ref)):
            return False
        if isinstance(a, (Opaque, Clo)) or isinstance(b, (Opaque, Clo)):
            if isinstance(a, Opaque) and isinstance(b, Opaque):
                raise Unsupported("opaque equality")
            return False
        try:
            return bool(a == b)
        except Exception:
            raise Unsupported("native equality")

    def eq_abs(self, st, a, b):
        """equality where ABSENT == ABSENT"""
        def alts(v):
            return v.alts if isinstance(v, SUnion) else ((True, v),)
        out = []
        for g, x in alts(a):
            for g2, y in alts(b):
                if x is ABSENT or y is ABSENT:
                    e = x is y
                else:
                    e = self.eq(st, x, y)
                out.append(And(g, g2, e))
        return Or(*out)

    def items_eq(self, st, xs, ys):
        if len(xs) == len(ys) and all(self._item_same(x, y) for x, y in zip(xs, ys)):
            return And(*[self.item_eq(st, x, y) for x, y in zip(xs, ys)])
        # fully guarded-item lists: compare by case analysis on presence
        if all(isinstance(x, Item) for x in xs) and all(isinstance(y, Item) for y in ys):
            if len(xs) + len(ys) <= 8:
                return self._items_eq_cases(st, list(xs), list(ys))
        # one side might be empty
        if not xs:
            return Not(self.items_nonempty(ys))
        if not ys:
            return Not(self.items_nonempty(xs))
        # strip common head/tail
        xs, ys = list(xs), list(ys)
        gs = []
        while xs and ys and self._item_same(xs[0], ys[0]) and isinstance(xs[0], Item) == isinstance(ys[0], Item) and geq(norm(xs[0].g), norm(ys[0].g)):
            gs.append(self.item_eq(st, xs.pop(0), ys.pop(0)))
        if (len(xs), len(ys)) != (0, 0):
            if not xs:
                gs.append(Not(self.items_nonempty(ys)))
            elif not ys:
                gs.append(Not(self.items_nonempty(xs)))
            else:
                both = And(Not(self.items_nonempty(xs)), Not(self.items_nonempty(ys)))
                # alternatives guarded by exclusive guards: align stars of the same sequence
                acc = [both]
                for x in xs:
                    for y in ys:
                        if isinstance(x, Star) and isinstance(y, Star) and x.seq is y.seq:
                            onlyx = And(*[Not(i.g) for i in xs if i is not x])
                            onlyy = And(*[Not(i.g) for i in ys if i is not y])
                            acc.append(And(onlyx, onlyy, self.item_eq(st, x, y)))
                        elif isinstance(x, Item) and isinstance(y, Item):
                            onlyx = And(*[Not(i.g if isinstance(i, Item) else i.nonempty()) for i in xs if i is not x])
                            onlyy = And(*[Not(i.g if isinstance(i, Item) else i.nonempty()) for i in ys if i is not y])
                            acc.append(And(onlyx, onlyy, x.g, y.g, self.eq(st, x.v, y.v)))
                gs.append(Or(*acc))
        return And(*gs)

    def _item_same(self, x, y):
        if isinstance(x, Item) and isinstance(y, Item):
            return True
        if isinstance(x, Star) and isinstance(y, Star):
            return x.seq is y.seq
        return False

    def item_eq(self, st, x, y):
        if isinstance(x, Item):
            if x.g is True and y.g is True:
                return self.eq(st, x.v, y.v)
            return And(Iff(x.g, y.g), Implies(x.g, self.eq(st, x.v, y.v)))
        rep = And(Iff(x.filt, y.filt), Implies(x.filt, self.eq(st, x.elem, y.elem)))
        return And(Iff(And(x.g, x.nonempty()), And(y.g, y.nonempty())), Implies(And(x.g, x.seq.ne), rep))

    def _items_eq_cases(self, st, xs, ys):
        if not xs:
            return Not(Or(*[y.g for y in ys]))
        if not ys:
            return Not(Or(*[x.g for x in xs]))
        x, y = xs[0], ys[0]
        both = And(x.g, y.g)
        r = []
        r.append(And(both, self.eq(st, x.v, y.v), self._items_eq_cases(st, xs[1:], ys[1:])) if both is not False else False)
        if x.g is not True:
            r.append(And(Not(x.g), self._items_eq_cases(st, xs[1:], ys)))
        if y.g is not True and x.g is not False:
            r.append(And(x.g, Not(y.g), self._items_eq_cases(st, xs, ys[1:])))
        return Or(*r)

    def str_eq(self, a, b):
        if a == b:
            return True
        pa, pb = list(a.parts), list(b.parts)
        # strip equal heads/tails
        while pa and pb:
            if pa[0] == pb[0]:
                pa.pop(0)
                pb.pop(0)
            elif isinstance(pa[0], str) and isinstance(pb[0], str):
                n = min(len(pa[0]), len(pb[0]))
                if pa[0][:n] != pb[0][:n]:
                    return False
                pa[0], pb[0] = pa[0][n:], pb[0][n:]
                if not pa[0]:
                    pa.pop(0)
                if not pb[0]:
                    pb.pop(0)
            else:
                break
        while pa and pb:
            if pa[-1] == pb[-1]:
                pa.pop()
                pb.pop()
            elif isinstance(pa[-1], str) and isinstance(pb[-1], str):
                n = min(len(pa[-1]), len(pb[-1]))
                if pa[-1][-n:] != pb[-1][-n:]:
                    return False
                pa[-1], pb[-1] = pa[-1][:-n], pb[-1][:-n]
                if not pa[-1]:
                    pa.pop()
                if not pb[-1]:
                    pb.pop()
            else:
                break
        if not pa and not pb:
            return True
        if not pa or not pb:
            rest = SStr(pa or pb)
            return Not(self.str_nonempty(rest))
        # distribute choices
        for first, other in ((pa, pb), (pb, pa)):
            for i, p in enumerate(first):
                if isinstance(p, Cho) and (i == 0 or len(first) == 1):
                    return Or(*[And(g, self.str_eq(SStr(list(x.parts) + first[i + 1:]), SStr(other))) for g, x in p.alts])
        # atom vs literal
        for x, y in ((pa, pb), (pb, pa)):
            if len(y) == 1 and isinstance(y[0], str):
                lit = y[0]
                if len(x) == 1 and isinstance(x[0], Atom):
                    if not x[0].dom.allows(lit):
                        return False
                    return x[0].z == z3.StringVal(lit)
                if len(x) == 1 and isinstance(x[0], IntS):
                    try:
                        n = int(lit)
                    except ValueError:
                        return False
                    return (x[0].z == n) if str(n) == lit else False
                # literal part of x not occurring in lit
                if any(isinstance(p, str) and p not in lit for p in x):
                    return False
        if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], IntS) and isinstance(pb[0], IntS):
            return pa[0].z == pb[0].z
        if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], JoinP) and isinstance(pb[0], JoinP) and pa[0].sep == pb[0].sep:
            return self.items_eq(None, pa[0].items, pb[0].items)
        return rope_z(SStr(pa)) == rope_z(SStr(pb))

    # ---------------------------------------------------------------- interned symbols
    def seq(self, name, dom=ANY, sort="str"):
        q = self.seqs.get(name)
        if q is None:
            q = self.seqs[name] = Seq(name, dom, sort)
        return q

    def named(self, kind, key):
        """stable number for an auxiliary constant determined by key"""
        k = (kind, key)
        if k not in self.names:
            self.names[k] = fresh_id()
        return "%s!%d" % (kind, self.names[k])

    def fn_axiom(self, term, ax):
        k = term.sexpr()
        l = self.fn_axioms.setdefault(k, (term, []))[1]
        if not any(a.eq(ax) for a in l):
            l.append(ax)
            self.axioms.append(ax)

    def facts_for(self, *ps):
        """function facts about the terms occurring in the predicates"""
        out = []
        for term, axs in self.fn_axioms.values():
            if any(not isinstance(p, bool) and _occurs(p, term) for p in ps):
                out.extend(axs)
        return out

    def exists(self, seq, p):
        """Bool: some element of seq satisfies p (a predicate over seq.e)"""
        p = norm(p)
        if p is False:
            return False
        if p is True or not _occurs(bz(p), seq.e):
            return And(seq.ne, p)
        key = (seq.name, p.sexpr())
        r = self.exs.get(key)
        if r is None:
            n = fresh_id()
            b = z3.Bool("ex!%s!%d" % (seq.name, n))
            w = z3.Const("wit!%s!%d" % (seq.name, n), seq.e.sort())
            r = self.exs[key] = (b, w, p, seq)
            self.seqs.setdefault(seq.name, seq)
            self.axioms.append(z3.Implies(b, z3.And(bz(seq.ne), z3.substitute(bz(And(p, *seq.facts, *self.facts_for(p))), (seq.e, w)),
                                                    z3.Implies(seq.len == 1, w == seq.e))))
            self.axioms.append(bz(Implies(And(z3.Not(b), seq.ne, *seq.facts), Not(p))))
        return r[0]

    def witness(self, seq, p):
        """(guard, witness constant) for exists(seq, p)"""
        b = self.exists(seq, p)
        if isinstance(b, bool) or not (seq.name, norm(p).sexpr() if not isinstance(norm(p), bool) else "") in self.exs:
            return b, seq.e
        return b, self.exs[(seq.name, norm(p).sexpr())][1]

    def seq_lemmas(self):
        """facts relating existential and counting symbols of one sequence (quantifier instantiation by hand)"""
        out = []
        for q in list(self.seqs.values()):
            cs = [(c, f) for c, f in q.counts.values()]
            for c, f in cs:
                out.append(z3.And(c >= 0, c <= q.len))
                out.append((c > 0) == bz(self.exists(q, f)))
            for i, (c1, f1) in enumerate(cs):
                for c2, f2 in cs[i + 1:]:
                    if self.valid_imp(f1, f2):
                        out.append(c1 <= c2)
                    if self.valid_imp(f2, f1):
                        out.append(c2 <= c1)
        by = {}
        for b, w, p, q in self.exs.values():
            by.setdefault(q.name, []).append((b, p, w))
        for name, bs in by.items():
            for i, (b1, p1, w1) in enumerate(bs):
                for b2, p2, w2 in bs[i + 1:]:
                    q = self.seqs.get(name)
                    fs = list(q.facts) if q is not None else []
                    i1, i2 = self.valid_imp(p1, p2, fs), self.valid_imp(p2, p1, fs)
                    if i1:
                        out.append(z3.Implies(b1, b2))
                    if i2:
                        out.append(z3.Implies(b2, b1))
                    if i1 and i2:
                        out.append(w1 == w2)      # witnesses are the first such elements
        return out

    def valid_imp(self, p, q, given=()):
        k = (p.get_id() if not isinstance(p, bool) else p, q.get_id() if not isinstance(q, bool) else q)
        if k not in self.lemmas:
            s = z3.Solver()
            s.set("timeout", 1000)
            s.add(bz(p), z3.Not(bz(q)))
            s.add(*[bz(x) for x in self.facts_for(p, q)])
            s.add(*[bz(x) for x in given])
            self.lemmas[k] = s.check() == z3.unsat
            self.keep.append((p, q))
        return self.lemmas[k]

    # ---------------------------------------------------------------- feasibility
    def solver(self, timeout=20000):
        s = z3.Solver()
        s.set("timeout", timeout)
        lem = self.seq_lemmas()
        for a in self.axioms:
            s.add(a)
        for a in lem:
            s.add(a)
        return s

    def feasible(self, gs, timeout=2000):
        g = And(*gs)
        if isinstance(g, bool):
            return g
        s = self.solver(timeout)
        s.add(g)
        return s.check() != z3.unsat

    # ---------------------------------------------------------------- calls
    def call(self, st, f, args, kw, node=None):
        """-> [(st, val)]"""
        if isinstance(f, SUnion):
            return self.each(st, f, lambda s, x: self.call(s, x, args, kw, node))
        if isinstance(f, Bound):
            fn = f.fn
            m = self.model_for(fn)
            if m is not None:
                return m(self, st, [f.self_] + list(args), kw)
            return self.call(st, fn, [f.self_] + list(args), kw, node)
        if isinstance(f, BM):
            from . import models as M
            return M.call_method(self, st, f.recv, f.name, args, kw)
        if isinstance(f, Clo):
            return self.call_clo(st, f, args, kw)
        m = self.model_for(f)
        if m is not None:
            return m(self, st, list(args), dict(kw))
        if isinstance(f, types.FunctionType):
            if f.__module__ in self.pure_modules and self.is_conc_args(args, kw):
                return [(st, self.lift(f(*args, **kw)))]
            return self.call_fn(st, f, args, kw)
        if isinstance(f, type):
            return self.instantiate(st, f, args, kw)
        if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
            from . import models as M
            return M.call_descriptor(self, st, f, args, kw)
        if isinstance(f, types.MethodType):
            return self.call(st, f.__func__, [self.lift(f.__self__)] + list(args), kw, node)
        if isinstance(f, Ref):
            h = self.get(st, f)
            if isinstance(h, HInst) and hasattr(h.cls, "__call__"):
                return self.call(st, h.cls.__call__, [f] + list(args), kw)
        if self.is_conc_args(args, kw) and callable(f) and getattr(f, "__module__", None) in self.pure_modules:
            return [(st, self.lift(f(*args, **kw)))]
        raise Unsupported("call of %r" % (f,))

    pure_modules = ("posixpath", "genericpath")

    def is_conc(self, v):
        if isinstance(v, (SBool, SInt, SStr, SUnion, Ref, Opaque, Clo, Bound, BM)):
            return False
        if isinstance(v, tuple):
            return all(self.is_conc(x) for x in v)
        return True

    def is_conc_args(self, args, kw):
        return all(self.is_conc(a) for a in args) and all(self.is_conc(a) for a in kw.values())

    def model_for(self, f):
        try:
            return self.models.get(f)
        except TypeError:
            return None

    def call_fn(self, st, fn, args, kw):
        if not self.inline_ok(fn):
            raise Unsupported("call outside the verified code: %s.%s" % (fn.__module__, fn.__qualname__))
        node = fn_ast(fn)
        self.inlined.add("%s.%s" % (fn.__module__, fn.__qualname__))
        a = node.args
        defaults = [self.lift(d) for d in (fn.__defaults__ or ())]
        kwdefaults = {k: self.lift(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        cells = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    cells[n] = self.lift(c.cell_contents)
                except ValueError:
                    pass
        return self.enter(st, node, a, args, kw, defaults, kwdefaults, fn.__globals__, cells, None, fn)

    def call_clo(self, st, clo, args, kw):
        return self.enter(st, clo.node, clo.node.args, args, kw, clo.defaults, clo.kwdefaults, clo.glob, {}, clo.fid, clo)

    def enter(self, st, node, a, args, kw, defaults, kwdefaults, glob, cells, parent, fn):
        if self.depth > MAXDEPTH:
            raise Unsupported("recursion depth")
        env = dict(cells)
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        args = list(args)
        if len(args) > len(names) and not a.vararg:
            self.raise_new(st, TypeError, "too many arguments")
            return []
        for n, v in zip(names, args):
            env[n] = v
        rest = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = tuple(rest)
        dstart = len(names) - len(defaults)
        for i, n in enumerate(names):
            if n in env and i < len(args):
                if n in kw:
                    self.raise_new(st, TypeError, "multiple values")
                    return []
                continue
            if n in kw:
                env[n] = kw.pop(n)
            elif i >= dstart:
                env[n] = defaults[i - dstart]
            else:
                self.raise_new(st, TypeError, "missing argument %s" % n)
                return []
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                env[x.arg] = kwdefaults[x.arg]
            else:
                self.raise_new(st, TypeError, "missing kw argument")
                return []
        st = st.fork()
        if a.kwarg:
            env[a.kwarg.arg] = self.new(st, HDict(kw))
        elif kw:
            self.raise_new(st, TypeError, "unexpected keyword argument %s" % sorted(kw))
            return []
        fid = fresh_id()
        st.envs[fid] = env
        fr = Frame(fid, glob, fn, parents=(parent,) if parent else ())
        if parent:
            fr.parents = (parent,) + self.clo_parents.get(parent, ())
        self.clo_parents[fid] = fr.parents
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                res = self.ev(node.body, st, fr)
            else:
                res = []
                for s, k, v in self.block(node.body, st, fr):
                    if k == "r":
                        res.append((s, v))
                    elif k == "n":
                        res.append((s, None))
                    else:
                        raise Unsupported("loop control escaped")
        finally:
            self.depth -= 1
        res = self.merge_results(res)
        for s, _ in res:
            if fid not in self.captured:
                s.envs.pop(fid, None)
        return res

    clo_parents = {}
    captured = set()

    def instantiate(self, st, cls, args, kw):
        m = self.model_for(cls)
        if m is not None:
            return m(self, st, list(args), dict(kw))
        if issubclass(cls, BaseException) or cls.__module__.split(".")[0] in self.lift_packages:
            st = st.fork()
            r = self.new(st, HInst(cls, {}))
            init = cls.__init__
            if isinstance(init, types.FunctionType):
                return self.merge_results([(s, r) for s, _ in self.call(st, init, [r] + list(args), kw)])
            if issubclass(cls, BaseException):
                self.put(st, r, HInst(cls, {"args": tuple(args)}))
            return [(st, r)]
        if self.is_conc_args(args, kw) and cls.__module__ in ("builtins",):
            pass
        raise Unsupported("instantiate %s" % cls)

    # ---------------------------------------------------------------- attributes
    def getattr_(self, st, v, name, default=None, has_default=False):
        if isinstance(v, SUnion):
            return self.each(st, v, lambda s, x: self.getattr_(s, x, name, default, has_default))

        def missing(s):
            if has_default:
                return [(s, default)]
            self.raise_new(s, AttributeError, "%s" % name)
            return []
        if isinstance(v, Super):
            return self.super_attr(st, v, name)
        if isinstance(v, Ref):
            h = self.get(st, v)
            if isinstance(h, HInst):
                return self.inst_attr(st, v, h, name, missing)
            kinds = {HList: list, HDict: dict, HSet: set}
            for k, t in kinds.items():
                if isinstance(h, k):
                    if hasattr(t, name):
                        return [(st, BM(v, name))]
                    return missing(st)
            if isinstance(h, HIter):
                return [(st, BM(v, name))]
            raise Unsupported("attribute %s of %s" % (name, type(h)))
        if isinstance(v, SStr) or isinstance(v, str):
            if hasattr(str, name):
                return [(st, BM(v, name))]
            return missing(st)
        if isinstance(v, (SInt, SBool, int, float, tuple, bytes)) or v is None:
            t = int if isinstance(v, SInt) else bool if isinstance(v, SBool) else type(v)
            if hasattr(t, name):
                if self.is_conc(v) and not callable(getattr(v, name)):
                    return [(st, getattr(v, name))]
                return [(st, BM(v, name))]
            return missing(st)
        if isinstance(v, Opaque):
            return [(st, BM(v, name))]
        if isinstance(v, (Clo, Bound)):
            raise Unsupported("attribute of function")
        if isinstance(v, type):
            for k in v.__mro__:
                if name in k.__dict__:
                    d = k.__dict__[name]
                    if isinstance(d, staticmethod):
                        return [(st, d.__func__)]
                    if isinstance(d, classmethod):
                        return [(st, Bound(d.__func__, v))]
                    if isinstance(d, types.FunctionType):
                        return [(st, d)]
                    break
            if hasattr(v, name):
                cv = st.heap.get(("cls", v, name), ABSENT)
                if cv is not ABSENT:
                    return [(st, cv)]
                return [(st, self.lift(getattr(v, name)))]
            return missing(st)
        # opaque native object (module, parser, ...)
        m = self.attr_models.get(type(v))
        if m is not None:
            r = m(self, st, v, name)
            if r is not None:
                return r
        ov = st.heap.get(("nat", id(v), name), ABSENT)
        if ov is not ABSENT:
            return [(st, ov)]
        try:
            nv = getattr(v, name)
        except AttributeError:
            return missing(st)
        if isinstance(v, types.ModuleType):
            return [(st, self.lift(nv))]
        if isinstance(nv, types.MethodType):
            return [(st, Bound(nv.__func__, v))]
        return [(st, self.lift(nv))]

    attr_models = {}

    def class_lookup(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name], k
        return None, None

    def inst_attr(self, st, ref, h, name, missing):
        if name == "__class__" and name not in h.attrs:
            return [(st, h.cls)]
        if name == "__dict__":
            return [(st, self.new(st, HDict(dict(h.attrs))))]
        d, k = self.class_lookup(h.cls, name)
        if isinstance(d, property):
            return self.call(st, d.fget, [ref], {})
        ga = self.class_lookup(h.cls, "__getattribute__")[0]
        if isinstance(ga, types.FunctionType):
            raise Unsupported("__getattribute__")
        v = h.attrs.get(name, ABSENT)

        def fallback(s):
            if k is not None:
                cv = s.heap.get(("cls", k, name), ABSENT)
                if cv is not ABSENT:
                    return [(s, cv)]
                if isinstance(d, types.FunctionType):
                    return [(s, Bound(d, ref))]
                if isinstance(d, staticmethod):
                    return [(s, d.__func__)]
                if isinstance(d, classmethod):
                    return [(s, Bound(d.__func__, h.cls))]
                if isinstance(d, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                    return [(s, Bound(d, ref))]
                return [(s, self.lift(d))]
            gt = self.class_lookup(h.cls, "__getattr__")[0]
            if isinstance(gt, types.FunctionType):
                return self.call(s, gt, [ref, name], {})
            return missing(s)
        if v is ABSENT:
            return fallback(st)
        if isinstance(v, SUnion) and any(x is ABSENT for _, x in v.alts):
            res = []
            pres = [(g, x) for g, x in v.alts if x is not ABSENT]
            s1 = st.fork(Or(*[g for g, _ in pres]))
            if not s1.dead():
                res.append((s1, mk_union(pres)))
            s2 = st.fork(Or(*[g for g, x in v.alts if x is ABSENT]))
            if not s2.dead():
                res.extend(fallback(s2))
            return self.merge_results(res)
        return [(st, v)]

    def super_attr(self, st, sup, name):
        cls = self.get(st, sup.obj).cls if isinstance(sup.obj, Ref) else type(sup.obj)
        mro = cls.__mro__
        i = mro.index(sup.cls)
        for k in mro[i + 1:]:
            if name in k.__dict__:
                d = k.__dict__[name]
                if isinstance(d, property):
                    return self.call(st, d.fget, [sup.obj], {})
                if isinstance(d, (types.FunctionType, types.WrapperDescriptorType, types.MethodDescriptorType)):
                    return [(st, Bound(d, sup.obj))]
                return [(st, self.lift(d))]
        self.raise_new(st, AttributeError, name)
        return []

    def setattr_(self, st, ov, name, val):
        """-> [states]"""
        if isinstance(ov, SUnion):
            out = []
            for g, x in ov.alts:
                s = st.fork(g)
                if not s.dead():
                    out.extend(self.setattr_(s, x, name, val))
            return self.merge_states(out)
        if isinstance(ov, Ref):
            h = self.get(st, ov)
            if isinstance(h, HInst):
                d, _ = self.class_lookup(h.cls, name)
                sa = self.class_lookup(h.cls, "__setattr__")[0]
                if isinstance(sa, types.FunctionType) and not getattr(self, "_raw_set", False):
                    return [s for s, _ in self.call(st, sa, [ov, name, val], {})]
                return self.setattr_raw(st, ov, name, val)
        if isinstance(ov, type):
            st = st.fork()
            st.heap[("cls", ov, name)] = val
            return [st]
        if isinstance(ov, (types.ModuleType,)) or ov is None or isinstance(ov, (str, SStr, int, SInt)):
            if ov is None or isinstance(ov, (str, SStr, int, SInt)):
                self.raise_new(st, AttributeError, name)
                return []
            raise Unsupported("set module attribute")
        st = st.fork()
        st.heap[("nat", id(ov), name)] = val
        return [st]

    def setattr_raw(self, st, ref, name, val):
        h = self.get(st, ref)
        d, _ = self.class_lookup(h.cls, name)
        if isinstance(d, property):
            if d.fset is None:
                self.raise_new(st, AttributeError, name)
                return []
            return [s for s, _ in self.call(st, d.fset, [ref, val], {})]
        st = st.fork()
        self.put(st, ref, h.set(name, val))
        return [st]

    # ---------------------------------------------------------------- names
    def lookup(self, st, fr, name):
        env = st.envs[fr.fid]
        v = env.get(name, ABSENT)
        if v is not ABSENT:
            if isinstance(v, SUnion) and any(x is ABSENT for _, x in v.alts):
                bad = Or(*[g for g, x in v.alts if x is ABSENT])
                s = st.fork(bad)
                if not s.dead():
                    self.raise_new(s, UnboundLocalError, name)
                good = [(g, x) for g, x in v.alts if x is not ABSENT]
                s2 = st.fork(Or(*[g for g, _ in good]))
                return [(s2, mk_union(good))]
            return [(st, v)]
        for p in fr.parents:
            e = st.envs.get(p)
            if e and name in e:
                return [(st, e[name])]
        g = st.heap.get(("glob", id(fr.glob), name), ABSENT)
        if g is not ABSENT:
            return [(st, g)]
        if name in fr.glob:
            return [(st, self.lift(fr.glob[name]))]
        if hasattr(builtins, name):
            return [(st, getattr(builtins, name))]
        self.raise_new(st, NameError, name)
        return []

    def setname(self, st, fr, name, v):
        e = dict(st.envs[fr.fid])
        e[name] = v
        st.envs[fr.fid] = e

    # ---------------------------------------------------------------- expressions
    def ev(self, node, st, fr):
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (type(node).__name__, getattr(node, "lineno", "?")))
        return m(node, st, fr)

    def ev_list(self, nodes, st, fr):
        """-> [(st, [vals])]"""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(n, s, fr):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev_Constant(self, node, st, fr):
        return [(st, node.value)]

    def ev_Name(self, node, st, fr):
        return self.lookup(st, fr, node.id)

    def ev_Attribute(self, node, st, fr):
        out = []
        for s, v in self.ev(node.value, st, fr):
            out.extend(self.getattr_(s, v, node.attr))
        return out

    def ev_Call(self, node, st, fr):
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not any(
                isinstance(x, str) and x == "super" for x in st.envs[fr.fid]):
            return self.do_super(node, st, fr)
        if isinstance(node.func, ast.Name) and node.func.id == "locals":
            raise Unsupported("locals()")
        out = []
        for s, f in self.ev(node.func, st, fr):
            for s2, args, kw in self.ev_args(node, s, fr):
                out.extend(self.call(s2, f, args, kw, node))
        return out

    def ev_args(self, node, st, fr):
        res = [(st, [], {})]
        for a in node.args:
            nxt = []
            for s, args, kw in res:
                if isinstance(a, ast.Starred):
                    for s2, v in self.ev(a.value, s, fr):
                        for s3, vs in self.concrete_seq(s2, v):
                            nxt.append((s3, args + vs, kw))
                else:
                    for s2, v in self.ev(a, s, fr):
                        nxt.append((s2, args + [v], kw))
            res = nxt
        for k in node.keywords:
            nxt = []
            for s, args, kw in res:
                for s2, v in self.ev(k.value, s, fr):
                    kw2 = dict(kw)
                    if k.arg is None:
                        h = self.get(s2, v) if isinstance(v, Ref) else None
                        if isinstance(h, HDict):
                            if not all(self.present(x) is True for x in h.d.values()):
                                # one state for every set of keys that may be there
                                kws = [(s2, dict(kw2))]
                                for kk, x in h.d.items():
                                    more = []
                                    for s3, d in kws:
                                        yes, no = self.branch(s3, self.present(x))
                                        if yes is not None:
                                            more.append((yes, dict(d, **{kk: mk_union([(g, y) for g, y in x.alts if y is not ABSENT]) if isinstance(x, SUnion) else x})))
                                        if no is not None:
                                            more.append((no, d))
                                    kws = more
                                nxt.extend((s3, args, d) for s3, d in kws)
                                continue
                            kw2.update(h.d)
                        elif isinstance(v, tuple) and not v:
                            pass
                        else:
                            raise Unsupported("** of %r" % (v,))
                    else:
                        kw2[k.arg] = v
                    nxt.append((s2, args, kw2))
            res = nxt
        return res

    def concrete_seq(self, st, v):
        """expand a sequence value with known elements -> [(st, [vals])]"""
        if isinstance(v, tuple):
            return [(st, list(v))]
        if isinstance(v, Ref):
            h = self.get(st, v)
            if isinstance(h, (HList, HSet)):
                items = list(h.items)
                if any(isinstance(i, Star) for i in items):
                    raise Unsupported("unbounded sequence expanded")
                res = [(st, [])]
                for i in items:
                    nxt = []
                    for s, vs in res:
                        a, b = self.branch(s, i.g)
                        if a:
                            nxt.append((a, vs + [i.v]))
                        if b:
                            nxt.append((b, vs))
                    res = nxt
                return res
            if isinstance(h, HDict):
                return [(st, list(h.d))]
        if isinstance(v, str):
            return [(st, list(v))]
        raise Unsupported("expand %r" % (v,))

    def do_super(self, node, st, fr):
        if node.args:
            out = []
            for s, vs in self.ev_list(node.args, st, fr):
                out.append((s, Super(vs[0], vs[1])))
            return out
        # zero-argument form: class from the function's __class__ cell
        env = st.envs[fr.fid]
        fn = fr.fn
        cls = env.get("__class__", ABSENT)
        if cls is ABSENT and isinstance(fn, types.FunctionType) and fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                if n == "__class__":
                    cls = c.cell_contents
        if cls is ABSENT:
            raise Unsupported("super() without class")
        node_ = fn_ast(fn)
        return [(st, Super(cls, env[node_.args.args[0].arg]))]

    def ev_UnaryOp(self, node, st, fr):
        out = []
        for s, v in self.ev(node.operand, st, fr):
            if isinstance(node.op, ast.Not):
                out.append((s, mk_bool(Not(self.truth(s, v)))))
            elif isinstance(node.op, ast.USub):
                out.extend(self.each(s, v, lambda s2, x: [(s2, mk_int(-iz(x)) if isinstance(x, SInt) else -x)]))
            else:
                raise Unsupported("unary op")
        return out

    def ev_BoolOp(self, node, st, fr):
        isand = isinstance(node.op, ast.And)
        vals = node.values

        def go(i, s):
            res = []
            for s1, v in self.ev(vals[i], s, fr):
                if i == len(vals) - 1:
                    res.append((s1, v))
                    continue
                t = self.truth(s1, v)
                a, b = self.branch(s1, t if isand else Not(t))
                if a is not None:
                    res.extend(go(i + 1, a))
                if b is not None:
                    # short circuit: value is v under (not t) for and, t for or
                    res.append((b, self.refine(v, Not(t) if isand else t, b, falsy=isand)))
            return self.merge_results(res)
        return go(0, st)

    def refine(self, v, g, st, falsy):
        """v, known to be falsy/truthy"""
        if isinstance(v, SUnion):
            alts = []
            for gg, x in v.alts:
                t = self.truth(st, x)
                keep = And(gg, Not(t) if falsy else t)
                if keep is not False:
                    alts.append((gg, x))
            if alts:
                return mk_union(alts)
        if isinstance(v, SBool):
            return not falsy
        if falsy and isinstance(v, SStr):
            return ""
        if falsy and isinstance(v, SInt):
            return 0
        return v

    def ev_IfExp(self, node, st, fr):
        out = []
        for s, c in self.ev(node.test, st, fr):
            a, b = self.branch(s, self.truth(s, c))
            res = []
            if a is not None:
                res.extend(self.ev(node.body, a, fr))
            if b is not None:
                res.extend(self.ev(node.orelse, b, fr))
            out.extend(self.merge_results(res))
        return out

    def ev_Tuple(self, node, st, fr):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            raise Unsupported("starred tuple")
        return [(s, tuple(vs)) for s, vs in self.ev_list(node.elts, st, fr)]

    def ev_List(self, node, st, fr):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            raise Unsupported("starred list")
        out = []
        for s, vs in self.ev_list(node.elts, st, fr):
            s = s.fork()
            out.append((s, self.new_list(s, vs)))
        return out

    def ev_Set(self, node, st, fr):
        out = []
        for s, vs in self.ev_list(node.elts, st, fr):
            s = s.fork()
            out.append((s, self.new(s, HSet([Item(True, v) for v in vs]))))
        return out

    def ev_Dict(self, node, st, fr):
        out = []
        for s, ks in self.ev_list([k for k in node.keys], st, fr):
            for s2, vs in self.ev_list(node.values, s, fr):
                if not all(self.is_conc(k) for k in ks):
                    raise Unsupported("symbolic dict key")
                s2 = s2.fork()
                out.append((s2, self.new(s2, HDict(dict(zip(ks, vs))))))
        return out

    def ev_JoinedStr(self, node, st, fr):
        from . import models as M
        res = [(st, [])]
        for v in node.values:
            nxt = []
            for s, ps in res:
                if isinstance(v, ast.Constant):
                    nxt.append((s, ps + [v.value]))
                else:
                    if v.format_spec is not None or v.conversion not in (-1, 115):
                        raise Unsupported("f-string format")
                    for s2, x in self.ev(v.value, s, fr):
                        for s3, t in M.to_str(self, s2, x):
                            nxt.append((s3, ps + [t]))
            res = nxt
        return [(s, mk_str(ps)) for s, ps in res]

    def ev_Lambda(self, node, st, fr):
        return [(st, self.mk_clo(node, st, fr, "<lambda>"))]

    def mk_clo(self, node, st, fr, name):
        if node.args.defaults or [d for d in node.args.kw_defaults if d is not None]:
            ds = []
            for d in node.args.defaults:
                r = self.ev(d, st, fr)
                if len(r) != 1:
                    raise Unsupported("closure default")
                ds.append(r[0][1])
        else:
            ds = []
        self.captured.add(fr.fid)
        for p in fr.parents:
            self.captured.add(p)
        return Clo(node, fr.fid, fr.glob, ds, {}, name)

    def ev_BinOp(self, node, st, fr):
        from . import models as M
        out = []
        for s, a in self.ev(node.left, st, fr):
            for s2, b in self.ev(node.right, s, fr):
                out.extend(M.binop(self, s2, node.op, a, b))
        return out

    def ev_Compare(self, node, st, fr):
        from . import models as M
        res = []

        def go(i, s, left, acc):
            out = []
            for s2, r in self.ev(node.comparators[i], s, fr):
                for s3, g in M.compare(self, s2, node.ops[i], left, r):
                    acc2 = And(acc, g)
                    if i + 1 < len(node.ops):
                        out.extend(go(i + 1, s3, r, acc2))
                    else:
                        out.append((s3, mk_bool(acc2)))
            return out
        for s, l in self.ev(node.left, st, fr):
            res.extend(go(0, s, l, True))
        return res

    def ev_Subscript(self, node, st, fr):
        from . import models as M
        out = []
        for s, v in self.ev(node.value, st, fr):
            if isinstance(node.slice, ast.Slice):
                parts = []
                res = [(s, [])]
                for b in (node.slice.lower, node.slice.upper, node.slice.step):
                    nxt = []
                    for s1, ps in res:
                        if b is None:
                            nxt.append((s1, ps + [None]))
                        else:
                            for s2, x in self.ev(b, s1, fr):
                                nxt.append((s2, ps + [x]))
                    res = nxt
                for s1, (lo, hi, stp) in res:
                    out.extend(M.slice_(self, s1, v, lo, hi, stp))
            else:
                for s1, i in self.ev(node.slice, s, fr):
                    out.extend(M.index(self, s1, v, i))
        return out

    # comprehensions
    def ev_ListComp(self, node, st, fr):
        out = []
        for s, items in self.comp(node.elt, node.generators, st, fr):
            s = s.fork()
            out.append((s, self.new(s, HList(items))))
        return out

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, node, st, fr):
        from . import models as M
        out = []
        for s, items in self.comp(node.elt, node.generators, st, fr):
            s = s.fork()
            out.append((s, self.new(s, HSet(M.dedupe_items(self, s, items)))))
        return out

    def ev_DictComp(self, node, st, fr):
        pair = ast.copy_location(ast.Tuple([node.key, node.value], ast.Load()), node)
        out = []
        for s, items in self.comp(pair, node.generators, st, fr):
            d = {}
            for i in items:
                if not isinstance(i, Item) or i.g is not True or not self.is_conc(i.v[0]):
                    raise Unsupported("symbolic dict comprehension")
                d[i.v[0]] = i.v[1]
            s = s.fork()
            out.append((s, self.new(s, HDict(d))))
        return out

    def comp(self, elt, gens, st, fr):
        """-> [(st, items)]"""
        from . import models as M
        g0 = gens[0]
        # comprehension scope: new frame whose parent is fr
        fid = fresh_id()
        st = st.fork()
        st.envs[fid] = {}
        fr2 = Frame(fid, fr.glob, fr.fn, parents=(fr.fid,) + tuple(fr.parents))
        self.clo_parents[fid] = fr2.parents
        results = []
        for s, it in self.ev(g0.iter, st, fr):
            for s1, items in M.iterate(self, s, it):
                res = [(s1, [])]
                for i in items:
                    nxt = []
                    for s2, acc in res:
                        if isinstance(i, Item):
                            a, b = self.branch(s2, i.g)
                            sub = []
                            if a is not None:
                                for s3, new in self.comp_elem(elt, g0, gens, i.v, a, fr2):
                                    sub.append((s3, [x.guard(i.g) for x in new] if i.g is not True else new))
                            if b is not None:
                                sub.append((b, []))
                            sub = self.merge_comp(sub)
                            for s3, new in sub:
                                nxt.append((s3, acc + new))
                        else:
                            for s3, new in self.comp_star(elt, g0, gens, i, s2, fr2):
                                nxt.append((s3, acc + new))
                    res = nxt
                results.extend(res)
        for s, _ in results:
            s.envs.pop(fid, None)
        return results

    def merge_comp(self, sub):
        """[(st, [Items])] -> merged"""
        if len(sub) <= 1 or not self.merging:
            return sub
        out = [sub[0]]
        for s, items in sub[1:]:
            done = False
            for j, (o, oi) in enumerate(out):
                if o.trace == s.trace:
                    n = 0
                    while n < len(o.pc) and n < len(s.pc) and geq(o.pc[n], s.pc[n]):
                        n += 1
                    ga = And(*o.pc[n:])
                    m = self.merge_pair(o, s)
                    out[j] = (m, merge_items(ga, oi, items))
                    done = True
                    break
            if not done:
                out.append((s, items))
        return out

    def comp_elem(self, elt, g, gens, v, st, fr2):
        res = []
        for s in self.assign(g.target, v, st.fork(), fr2):
            states = [s]
            skipped = []
            for c in g.ifs:
                nxt = []
                for s1 in states:
                    for s2, cv in self.ev(c, s1, fr2):
                        a, b = self.branch(s2, self.truth(s2, cv))
                        if a is not None:
                            nxt.append(a)
                        if b is not None:
                            skipped.append(b)
                states = nxt
            sub = [(b, []) for b in skipped]
            for s1 in states:
                if len(gens) > 1:
                    sub2 = self.comp_inner(elt, gens[1:], s1, fr2)
                    sub.extend(sub2)
                else:
                    for s2, ev in self.ev(elt, s1, fr2):
                        sub.append((s2, [Item(True, ev)]))
            res.extend(self.merge_comp(sub))
        return res

    def comp_inner(self, elt, gens, st, fr2):
        from . import models as M
        out = []
        g0 = gens[0]
        for s, it in self.ev(g0.iter, st, fr2):
            for s1, items in M.iterate(self, s, it):
                res = [(s1, [])]
                for i in items:
                    if not isinstance(i, Item) or i.g is not True:
                        raise Unsupported("nested symbolic comprehension")
                    nxt = []
                    for s2, acc in res:
                        for s3, new in self.comp_elem(elt, g0, gens, i.v, s2, fr2):
                            nxt.append((s3, acc + new))
                    res = nxt
                out.extend(res)
        return out

    def comp_star(self, elt, g, gens, star, st, fr2):
        if len(gens) > 1:
            raise Unsupported("nested comprehension over unbounded sequence")
        base = st.fork()
        hyp = And(star.g, star.seq.ne, star.filt, *star.seq.facts)
        run = st.fork(hyp)
        n0 = len(run.pc)
        heap0 = dict(run.heap)
        self.coll.append([])
        try:
            sub = self.comp_elem(elt, g, gens, star.elem, run, fr2)
        finally:
            raises = self.coll.pop()
        for s, exc in raises:
            self.star_raise(st, s, exc, star, n0)
        out = []
        norm_conds = []
        for s, items in sub:
            if any(heap0.get(k) is not v for k, v in s.heap.items() if k in heap0):
                raise Unsupported("side effect in comprehension over unbounded sequence")
            for k, v in s.heap.items():
                if k not in heap0:
                    base.heap[k] = v
            cond = And(*s.pc[n0:])
            norm_conds.append(cond)
            if len(items) > 1:
                raise Unsupported("several elements per item")
            for i in items:
                out.append(Star(star.g, star.seq, i.v, And(star.filt, cond, i.g)))
        if raises:
            base.assume(Implies(star.g, Not(self.exists(star.seq, And(hyp, Not(Or(*norm_conds)))))))
        if len(out) > 1:
            # exclusive alternatives of one element: merge to a single star
            e, f = out[0].elem, out[0].filt
            for o in out[1:]:
                e = merge_val(f, e, o.elem)
                f = Or(f, o.filt)
            out = [Star(star.g, star.seq, e, f)]
        return [(base, out)]

    def star_raise(self, st, s, exc, star, n0):
        """a raise inside an iteration: there is a witness element"""
        cond = And(star.seq.ne, star.filt, *(list(star.seq.facts) + [And(*s.pc[len(st.pc):])]))
        cond = And(star.g, self.exists(star.seq, cond))
        s2 = st.fork(cond)
        s2.heap = s.heap
        self.raise_(s2, exc)

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        """-> [(st, kind, val)], kind in n r b c"""
        live = [st]
        out = []
        for stmt in stmts:
            nxt = []
            for s in live:
                for s2, k, v in self.stmt(stmt, s, fr):
                    if s2.dead():
                        continue
                    if k == "n":
                        nxt.append(s2)
                    else:
                        out.append((s2, k, v))
            live = self.merge_states(nxt) if len(nxt) > 1 else nxt
            if not live:
                break
        return out + [(s, "n", None) for s in live]

    def stmt(self, node, st, fr):
        m = getattr(self, "st_" + type(node).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %s" % (type(node).__name__, node.lineno))
        return m(node, st, fr)

    def st_Expr(self, node, st, fr):
        if isinstance(node.value, ast.Constant):
            return [(st, "n", None)]
        return [(s, "n", None) for s, _ in self.ev(node.value, st, fr)]

    def st_Pass(self, node, st, fr):
        return [(st, "n", None)]

    def st_Break(self, node, st, fr):
        return [(st, "b", None)]

    def st_Continue(self, node, st, fr):
        return [(st, "c", None)]

    def st_Global(self, node, st, fr):
        raise Unsupported("global statement")

    def st_Return(self, node, st, fr):
        if node.value is None:
            return [(st, "r", None)]
        return [(s, "r", v) for s, v in self.ev(node.value, st, fr)]

    def st_Assign(self, node, st, fr):
        out = []
        for s, v in self.ev(node.value, st, fr):
            states = [s]
            for t in node.targets:
                states = [s3 for s2 in states for s3 in self.assign(t, v, s2, fr)]
            out.extend((s2, "n", None) for s2 in states)
        return out

    def st_AnnAssign(self, node, st, fr):
        if node.value is None:
            return [(st, "n", None)]
        out = []
        for s, v in self.ev(node.value, st, fr):
            out.extend((s2, "n", None) for s2 in self.assign(node.target, v, s, fr))
        return out

    def assign(self, t, v, st, fr):
        """-> [states]"""
        if isinstance(t, ast.Name):
            st = st.fork()
            self.setname(st, fr, t.id, v)
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, fr):
                out.extend(self.setattr_(s, o, t.attr, v))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for s, vs in self.unpack(st, v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts)):
                states = [s]
                for e, x in zip(t.elts, vs):
                    states = [s3 for s2 in states for s3 in self.assign(e, x, s2, fr)]
                out.extend(states)
            return out
        if isinstance(t, ast.Subscript):
            from . import models as M
            out = []
            for s, o in self.ev(t.value, st, fr):
                if isinstance(t.slice, ast.Slice):
                    raise Unsupported("slice assignment")
                for s2, i in self.ev(t.slice, s, fr):
                    out.extend(M.setitem(self, s2, o, i, v))
            return out
        raise Unsupported("assignment target")

    def unpack(self, st, v, n, starred):
        if starred:
            raise Unsupported("starred unpack")
        if isinstance(v, SUnion):
            out = []
            for g, x in v.alts:
                s = st.fork(g)
                if not s.dead():
                    out.extend(self.unpack(s, x, n, starred))
            return out
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_new(st, ValueError, "unpack")
                return []
            return [(st, list(v))]
        if isinstance(v, Ref):
            h = self.get(st, v)
            if isinstance(h, HList):
                if h.plain() is not None:
                    return self.unpack(st, tuple(h.plain()), n, False)
                from . import models as M
                ln = self.items_len(h.items)
                a, b = self.branch(st, self.eq(st, ln, n))
                if b is not None:
                    self.raise_new(b, ValueError, "unpack")
                if a is None:
                    return []
                res = [(a, [])]
                for i in range(n):
                    res = [(s2, vs + [x]) for s, vs in res for s2, x in M.index(self, s, v, i)]
                return res
        raise Unsupported("unpack of %r" % (v,))

    def st_AugAssign(self, node, st, fr):
        from . import models as M
        t = node.target
        load = ast.copy_location({ast.Name: lambda: ast.Name(t.id, ast.Load()),
                                  ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()),
                                  ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load())}[type(t)](), t)
        ast.fix_missing_locations(load)
        out = []
        for s, old in self.ev(load, st, fr):
            for s2, inc in self.ev(node.value, s, fr):
                for s3, nv in M.augop(self, s2, node.op, old, inc):
                    out.extend((s4, "n", None) for s4 in self.assign(t, nv, s3, fr))
        return out

    def st_If(self, node, st, fr):
        out = []
        for s, c in self.ev(node.test, st, fr):
            a, b = self.branch(s, self.truth(s, c))
            res = []
            if a is not None:
                res.extend(self.block(node.body, a, fr))
            if b is not None:
                res.extend(self.block(node.orelse, b, fr) if node.orelse else [(b, "n", None)])
            normal = self.merge_states([x for x, k, _ in res if k == "n"])
            out.extend((x, "n", None) for x in normal)
            out.extend(r for r in res if r[1] != "n")
        return out

    def st_Raise(self, node, st, fr):
        if node.exc is None:
            cur = st.envs[fr.fid].get("$exc", ABSENT)
            if cur is ABSENT:
                for p in fr.parents:
                    cur = st.envs.get(p, {}).get("$exc", ABSENT)
                    if cur is not ABSENT:
                        break
            if cur is ABSENT:
                raise Unsupported("bare raise outside handler")
            self.raise_(st, cur)
            return []
        for s, e in self.ev(node.exc, st, fr):
            if isinstance(e, type):
                for s2, r in self.instantiate(s, e, [], {}):
                    self.raise_(s2, r)
            else:
                self.raise_(s, e)
        return []

    def st_Assert(self, node, st, fr):
        out = []
        for s, c in self.ev(node.test, st, fr):
            a, b = self.branch(s, self.truth(s, c))
            if b is not None:
                self.raise_new(b, AssertionError)
            if a is not None:
                out.append((a, "n", None))
        return out

    def exc_class(self, st, exc):
        if isinstance(exc, Ref):
            h = self.get(st, exc)
            return h.cls
        if isinstance(exc, type):
            return exc
        raise Unsupported("exception value %r" % (exc,))

    def st_Try(self, node, st, fr):
        self.coll.append([])
        try:
            res = self.block(node.body, st, fr)
        finally:
            raised = self.coll.pop()
        out = []
        if node.orelse:
            res2 = []
            for s, k, v in res:
                if k == "n":
                    res2.extend(self.block(node.orelse, s, fr))
                else:
                    res2.append((s, k, v))
            res = res2
        out.extend(res)
        pend = []
        for s, exc in raised:
            alts = exc.alts if isinstance(exc, SUnion) else ((True, exc),)
            for g, e in alts:
                s1 = s.fork(g)
                if s1.dead():
                    continue
                cls = self.exc_class(s1, e)
                handled = False
                for h in node.handlers:
                    if self.handler_matches(s1, h, cls, fr):
                        s2 = s1.fork()
                        if h.name:
                            self.setname(s2, fr, h.name, e)
                        old = s2.envs[fr.fid].get("$exc", ABSENT)
                        self.setname(s2, fr, "$exc", e)
                        self.coll.append([])
                        try:
                            hres = self.block(h.body, s2, fr)
                        finally:
                            hr = self.coll.pop()
                        pend.extend(hr)
                        for s3, k, v in hres:
                            env = dict(s3.envs[fr.fid])
                            env.pop("$exc", None)
                            if old is not ABSENT:
                                env["$exc"] = old
                            if h.name:
                                env.pop(h.name, None)
                            s3.envs[fr.fid] = env
                            out.append((s3, k, v))
                        handled = True
                        break
                if not handled:
                    pend.append((s1, e))
        if node.finalbody:
            fin = []
            for s, k, v in out:
                for s2, k2, v2 in self.block(node.finalbody, s, fr):
                    fin.append((s2, k, v) if k2 == "n" else (s2, k2, v2))
            out = fin
            for s, e in pend:
                for s2, k2, v2 in self.block(node.finalbody, s, fr):
                    if k2 == "n":
                        self.raise_(s2, e)
                    else:
                        out.append((s2, k2, v2))
        else:
            for s, e in pend:
                self.raise_(s, e)
        normal = self.merge_states([x for x, k, _ in out if k == "n"])
        return [(x, "n", None) for x in normal] + [r for r in out if r[1] != "n"]

    def handler_matches(self, st, h, cls, fr):
        if h.type is None:
            return True
        r = self.ev(h.type, st, fr)
        t = r[0][1]
        ts = t if isinstance(t, tuple) else (t,)
        return any(issubclass(cls, x) for x in ts)

    def st_With(self, node, st, fr):
        from . import models as M
        return M.with_(self, node, st, fr)

    def st_Delete(self, node, st, fr):
        from . import models as M
        states = [st]
        for t in node.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Name):
                    s = s.fork()
                    e = dict(s.envs[fr.fid])
                    e.pop(t.id, None)
                    s.envs[fr.fid] = e
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, s, fr):
                        nxt.extend(M.delattr_(self, s2, o, t.attr))
                elif isinstance(t, ast.Subscript):
                    for s2, o in self.ev(t.value, s, fr):
                        for s3, i in self.ev(t.slice, s2, fr):
                            nxt.extend(M.delitem(self, s3, o, i))
                else:
                    raise Unsupported("del")
            states = nxt
        return [(s, "n", None) for s in states]

    def st_Import(self, node, st, fr):
        import importlib
        st = st.fork()
        for a in node.names:
            m = importlib.import_module(a.name)
            if a.asname:
                self.setname(st, fr, a.asname, m)
            else:
                self.setname(st, fr, a.name.split(".")[0], importlib.import_module(a.name.split(".")[0]))
        return [(st, "n", None)]

    def st_ImportFrom(self, node, st, fr):
        import importlib
        st = st.fork()
        m = importlib.import_module(node.module)
        for a in node.names:
            self.setname(st, fr, a.asname or a.name, self.lift(getattr(m, a.name)))
        return [(st, "n", None)]

    def st_FunctionDef(self, node, st, fr):
        if node.decorator_list:
            raise Unsupported("decorated nested function")
        st = st.fork()
        self.setname(st, fr, node.name, self.mk_clo(node, st, fr, node.name))
        return [(st, "n", None)]

    def st_While(self, node, st, fr):
        h = self.loop_contract(node, fr)
        if h is not None:
            return h(self, node, st, fr)
        # concrete (or quickly decided) loops only: unroll
        out = []
        live = [st]
        for _ in range(self.unroll):
            nxt = []
            for s in live:
                for s1, c in self.ev(node.test, s, fr):
                    a, b = self.branch(s1, self.truth(s1, c))
                    if b is not None:
                        if a is None or self.feasible(b.pc):
                            if node.orelse:
                                out.extend(self.block(node.orelse, b, fr))
                            else:
                                out.append((b, "n", None))
                    if a is not None and (b is None or self.feasible(a.pc)):
                        for s2, k, v in self.block(node.body, a, fr):
                            if k in ("n", "c"):
                                nxt.append(s2)
                            elif k == "b":
                                out.append((s2, "n", None))
                            else:
                                out.append((s2, k, v))
            live = self.merge_states(nxt)
            if not live:
                break
        else:
            raise Unsupported("unbounded while loop without an invariant")
        normal = self.merge_states([x for x, k, _ in out if k == "n"])
        return [(x, "n", None) for x in normal] + [r for r in out if r[1] != "n"]

    unroll = 64

    def loop_contract(self, node, fr):
        return None

    def for_contract(self, node, it, st, fr):
        return None

    def st_For(self, node, st, fr):
        from . import models as M
        out = []
        for s, it in self.ev(node.iter, st, fr):
            r = self.for_contract(node, it, s, fr)
            if r is not None:
                out.extend(r)
                continue
            for s1, items in M.iterate(self, s, it):
                out.extend(self.run_for(node, items, s1, fr))
        normal = self.merge_states([x for x, k, _ in out if k == "n"])
        return [(x, "n", None) for x in normal] + [r for r in out if r[1] != "n"]

    def run_for(self, node, items, st, fr):
        live = [st]
        broke = []
        out = []
        for i in items:
            nxt = []
            for s in live:
                if isinstance(i, Item):
                    a, b = self.branch(s, i.g)
                    if b is not None:
                        nxt.append(b)
                    if a is None:
                        continue
                    for s1 in self.assign(node.target, i.v, a, fr):
                        for s2, k, v in self.block(node.body, s1, fr):
                            if k in ("n", "c"):
                                nxt.append(s2)
                            elif k == "b":
                                broke.append(s2)
                            else:
                                out.append((s2, k, v))
                else:
                    n, b, o = self.star_loop(node, i, s, fr)
                    nxt.extend(n)
                    broke.extend(b)
                    out.extend(o)
            live = self.merge_states(nxt)
            if not live:
                break
        for s in live:
            if node.orelse:
                out.extend(self.block(node.orelse, s, fr))
            else:
                out.append((s, "n", None))
        out.extend((s, "n", None) for s in broke)
        return out

    # loop over an unbounded sequence: fold summary
    def star_loop(self, node, star, st, fr):
        normal, broke, out = [], [], []
        a, b = self.branch(st, star.nonempty())
        if b is not None:
            normal.append(b)
        if a is None:
            return normal, broke, out
        st = a
        hyp = And(star.filt, *star.seq.facts)

        def run(s0):
            s = s0.fork(hyp)
            n0 = len(s0.pc)
            self.coll.append([])
            try:
                res = []
                for s1 in self.assign(node.target, star.elem, s, fr):
                    res.extend(self.block(node.body, s1, fr))
            finally:
                raises = self.coll.pop()
            return n0, res, raises
        targets = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        # pass 1: what changes
        n0, res, raises = run(st)
        norms = self.merge_states([s for s, k, _ in res if k in ("n", "c")])
        changed_loc, changed_heap = set(), set()
        for s in norms:
            e0, e1 = st.envs[fr.fid], s.envs[fr.fid]
            for k in set(e0) | set(e1):
                if k not in targets and not same(e0.get(k, ABSENT), e1.get(k, ABSENT)):
                    changed_loc.add(k)
            for k, h in s.heap.items():
                if k in st.heap and st.heap[k] is not h:
                    changed_heap.add(k)
                elif k not in st.heap and k in self.base and self.base[k] is not h:
                    changed_heap.add(k)
            for f in s.envs:
                if f not in (0, fr.fid) and f in st.envs and s.envs[f] is not st.envs[f]:
                    raise Unsupported("loop changes an outer scope")
        # pass 2: with holes
        hole = st.fork()
        env = dict(hole.envs[fr.fid])
        holes = {}
        temps = set()
        for k in changed_loc:
            v = env.get(k, ABSENT)
            if v is ABSENT:
                temps.add(k)
                env.pop(k, None)
            elif is_str(v):
                hz = z3.String("hole!%d" % fresh_id())
                holes[k] = Atom(hz)
                env[k] = SStr((holes[k],))
            elif is_bool(v):
                hz = z3.Bool("hole!%d" % fresh_id())
                holes[k] = hz
                env[k] = SBool(hz)
            else:
                temps.add(k)      # value unknown after and during later iterations
                env[k] = Opaque("loopvar " + k)
        hole.envs[fr.fid] = env
        hheap = {}
        for k in changed_heap:
            h = st.heap.get(k) or self.base.get(k)
            if isinstance(h, HList):
                hs = Seq("hole%d" % fresh_id())
                hheap[k] = hs
                hole.heap[k] = HList([Star(True, hs, hs.val)])
            elif isinstance(h, HInst):
                # attributes that change
                attrs = dict(h.attrs)
                for s in norms:
                    h1 = s.heap[k]
                    for an in set(h.attrs) | set(h1.attrs):
                        if not same(h.attrs.get(an, ABSENT), h1.attrs.get(an, ABSENT)):
                            v = h.attrs.get(an, ABSENT)
                            if is_str(v):
                                hz = Atom(z3.String("hole!%d" % fresh_id()))
                                holes[(k, an)] = hz
                                attrs[an] = SStr((hz,))
                            else:
                                raise Unsupported("loop changes attribute %s" % an)
                hole.heap[k] = HInst(h.cls, attrs, h.native)
            else:
                raise Unsupported("loop changes a %s" % type(h).__name__)
        n0, res, raises = run(hole)
        holevars = [h.z if isinstance(h, Atom) else h for h in holes.values()] + [s.e for s in hheap.values()] + [s.len for s in hheap.values()]

        def mentions(g):
            if isinstance(g, bool):
                return False
            return any(_occurs(g, hv) for hv in holevars)
        for s, exc in raises:
            cond = And(*s.pc[n0:])
            if mentions(cond):
                raise Unsupported("loop exit depends on accumulated value")
            s2 = st.fork(self.exists(star.seq, And(hyp, cond)))
            s2.heap = dict(s.heap)
            self.raise_(s2, exc)
        stops = [(s, k, v) for s, k, v in res if k in ("r", "b")]
        norms = [s for s, k, _ in res if k in ("n", "c")]
        conds = [And(*s.pc[n0:]) for s in norms]
        if any(mentions(c) for c in conds):
            raise Unsupported("loop path depends on accumulated value")
        for s, k, v in stops:
            if changed_loc - temps or changed_heap:
                raise Unsupported("early exit from accumulating loop")
            cond = And(*s.pc[n0:])
            g2, w = self.witness(star.seq, And(hyp, cond))
            s2 = st.fork(g2)
            env2 = {kk: subst_val(vv, (star.seq.e, w)) for kk, vv in s.envs[fr.fid].items()}
            s2.envs[fr.fid] = env2
            for hid, hh in s.heap.items():
                if hid not in s2.heap:
                    s2.heap[hid] = hh
            if k == "r":
                out.append((s2, "r", subst_val(v, (star.seq.e, w))))
            else:
                broke.append(s2)
        norms = self.merge_states(norms)
        if not norms:
            return normal, broke, out
        if len(norms) > 1:
            raise Unsupported("unmergeable loop iteration")
        s = norms[0]
        fin = st.fork()
        allc = Or(*conds)
        if allc is not True:
            fin.assume(Not(self.exists(star.seq, And(hyp, Not(allc)))))
        env = dict(fin.envs[fr.fid])
        for k in changed_loc:
            if k in temps:
                env.pop(k, None)
                continue
            before = st.envs[fr.fid][k]
            after = s.envs[fr.fid].get(k, ABSENT)
            env[k] = self.fold_result(star, holes[k], before, after, mentions)
        for t in targets:
            env.pop(t, None)
        fin.envs[fr.fid] = env
        for k in changed_heap:
            h = st.heap.get(k) or self.base.get(k)
            h1 = s.heap[k]
            if isinstance(h, HList):
                its = list(h1.items)
                hs = hheap[k]
                if not its or not isinstance(its[0], Star) or its[0].seq is not hs or its[0].g is not True:
                    raise Unsupported("loop rewrites a list")
                its = its[1:]
                if len(its) > 1:
                    raise Unsupported("several appends per iteration")
                if its:
                    i = its[0]
                    if not isinstance(i, Item) or mentions(i.g):
                        raise Unsupported("unbounded append per iteration")
                    if isinstance(i.v, Ref):
                        raise Unsupported("append of objects in unbounded loop")
                    fin.heap[k] = HList(list(h.items) + [Star(True, star.seq, i.v, And(star.filt, i.g))])
            else:
                attrs = dict(h.attrs)
                for (kk, an), hz in [(x, y) for x, y in holes.items() if isinstance(x, tuple)]:
                    if kk == k:
                        attrs[an] = self.fold_result(star, hz, h.attrs[an], h1.attrs[an], mentions)
                fin.heap[k] = HInst(h.cls, attrs, h.native)
        normal.append(fin)
        return normal, broke, out

    def fold_result(self, star, hole, before, after, mentions):
        if isinstance(hole, Atom):
            if not isinstance(after, SStr) or after.parts[0] != hole:
                raise Unsupported("loop does not append to the string")
            rest = mk_str(after.parts[1:])
            if rope_mentions(rest, hole.z):
                raise Unsupported("loop string depends on itself")
            return mk_str([before, JoinP("", [Star(True, star.seq, rest, star.filt)])])
        # boolean flag: after = Or(hole, p(e)) or And(hole, p(e))
        z = after.z if isinstance(after, SBool) else z3.BoolVal(after)
        t1 = norm(z3.simplify(z3.substitute(z, (hole, z3.BoolVal(True)))))
        t0 = norm(z3.simplify(z3.substitute(z, (hole, z3.BoolVal(False)))))
        bef = before if isinstance(before, bool) else before.z
        if t1 is True:      # sticky true
            return mk_bool(Or(bef, self.exists(star.seq, And(star.filt, t0))))
        if t0 is False:     # sticky false
            return mk_bool(And(bef, Not(self.exists(star.seq, And(star.filt, Not(t1))))))
        raise Unsupported("boolean loop variable")


def _occurs(g, v):
    seen = set()
    stack = [g]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        stack.extend(x.children())
    return False


def rope_mentions(r, v):
    if isinstance(r, str):
        return False
    for p in r.parts:
        if isinstance(p, (Atom, IntS)) and _occurs(p.z, v):
            return True
        if isinstance(p, Cho) and any((not isinstance(g, bool) and _occurs(g, v)) or rope_mentions(s, v) for g, s in p.alts):
            return True
        if isinstance(p, JoinP):
            for i in p.items:
                x = i.v if isinstance(i, Item) else i.elem
                if is_str(x) and rope_mentions(x, v):
                    return True
    return False


def subst_g(g, pair):
    return g if isinstance(g, bool) else norm(z3.substitute(g, pair))


def subst_val(v, pair):
    if isinstance(v, SBool):
        return mk_bool(subst_g(v.z, pair))
    if isinstance(v, SInt):
        return mk_int(z3.substitute(v.z, pair))
    if isinstance(v, SStr):
        ps = []
        for p in v.parts:
            if isinstance(p, Atom):
                ps.append(Atom(z3.substitute(p.z, pair), p.dom, p.fn, subst_val(p.arg, pair) if p.arg is not None else None))
            elif isinstance(p, IntS):
                ps.append(IntS(z3.substitute(p.z, pair)))
            elif isinstance(p, Cho):
                ps.append(Cho([(subst_g(g, pair), as_rope(subst_val(s, pair))) for g, s in p.alts]))
            else:
                ps.append(p)
        return mk_str(ps)
    if isinstance(v, SUnion):
        return mk_union([(subst_g(g, pair), subst_val(x, pair)) for g, x in v.alts])
    if isinstance(v, tuple):
        return tuple(subst_val(x, pair) for x in v)
    return v
