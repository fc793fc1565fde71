"""Writing a command and reading the written lines again: obligations for one command class (C01)."""
import z3

from .values import *          # noqa: F401,F403
from . import cmds, render
from . import interp as I
from .compare import Ob, visible
from ksspec import roundtrip as RT


TEXT = Dom(no=PLAIN.no, nonempty=True)


def truth_of(ip, st, f, args):
    """guard under which the specification function f(*args) is true"""
    res, rs = [], []
    ip.coll.append([])
    try:
        res = ip.call(st.fork(), f, list(args), {})
    finally:
        rs = ip.coll.pop()
    if rs:
        raise Unsupported("specification function raises")
    k = len(st.pc)
    out = []
    for s, v in res:
        extra = [g for g in s.pc if not any(g is h for h in st.pc)]
        out.append(And(*extra, ip.truth(s, v)))
    return norm(Or(*out))


def immaterial(ip, st, ref, h, k):
    f = RT.rule(h.cls, k)
    return False if f is None else truth_of(ip, st, f, [ref])


def field_eq(ip, st, a, ha, b, hb, k):
    e = norm(ip.eq_abs(st, ha.attrs.get(k, ABSENT), hb.attrs.get(k, ABSENT)))
    if e is True:
        return True
    if RT.rule(ha.cls, k) is None:
        return e
    return Or(e, And(immaterial(ip, st, a, ha, k), immaterial(ip, st, b, hb, k)))


def fields_of(ip, st, ref):
    return [k for k in ip.get(st, ref).attrs if visible(k) and k != "lineno" and k not in RT.NOT_DATA]


def inst_eq(ip):
    active = set()

    def f(st, a, ha, b, hb):
        key = (a.id, b.id)
        if key in active:
            return True
        active.add(key)
        try:
            if ha.cls is not hb.cls:
                return False
            return And(*[field_eq(ip, st, a, ha, b, hb, k) for k in fields_of(ip, st, a)])
        finally:
            active.discard(key)
    return f


def add_data(ip, ctx, st, ret):
    """what the dispatcher does with the object parse() returned"""
    out = []
    for g, r in (ret.alts if isinstance(ret, SUnion) else ((True, ret),)):
        s = st.fork(g)
        if s.dead():
            continue
        if not isinstance(r, Ref) or r.id == ctx.ref.id:
            out.append(s)
            continue
        rs, ex = ctx._call(s, I.Bound(type(ctx.cmd).dataList, ctx.ref), [])
        for s2, lst in rs:
            if lst is None:
                out.append(s2)
                continue
            for s3, _ in ctx._call(s2, I.Bound(list.append, lst), [r])[0]:
                out.append(s3)
    return out


def raises_text(ip, rs):
    from .fn import exc_alts
    return ", ".join(sorted({k.__name__ for g, s, k, h in exc_alts(ip, rs)}))


def raw_words(info):
    for rec in list(info.opts.values()) + list(info.pos):
        for v in [rec.get("raw")] + list(rec.get("heads") or []):
            if v is not None:
                yield rope_z(v)
    for v in info.extras or []:
        yield rope_z(v)


def known_names(handler):
    return set(handler.commands)


def roundtrip(version, alias, dom):
    """-> (ip, ctx, [Ob]) ; each path of parse() is followed by writing and reading"""
    c = cmds.Ctx(version, alias, dom=dom)
    ip = c.ip
    ip.normpath_nodash = True
    ip.skip_opt = lambda o: any((k.__name__.split("_")[-1], o) in RT.LEFT_OUT for k in type(c.cmd).__mro__)
    ip.base[c.ref.id] = ip.base[c.ref.id].set("seen", True).set("currentCmd", alias).set(
        "currentLine", mk_str([alias, " ", Atom(z3.String("line:1"), TEXT), " ", Atom(z3.String("line:2"), TEXT), "\n"]))
    nr, _ = c.parse()
    info = ip.arginfo
    for z in raw_words(info):
        ip.axioms.append(z3.And(z != z3.StringVal(""), z3.Not(z3.PrefixOf(z3.StringVal("-"), z)),
                                *[z3.Not(z3.PrefixOf(z3.StringVal(x), z)) for x in RT.TWICE],
                                *[z != z3.StringVal(x) for x in RT.PREFIX_ONLY]))
    obs, lost = [], []
    for st, ret in nr:
        for s1 in add_data(ip, c, st, ret):
            texts, rs = c.render(s1, c.ref)
            bad = Or(*[And(*s.pc) for s, e in rs])
            obs.append(Ob("can be written", bad))
            for s2, txt in texts:
                # first as it stands; where that is out of reach, with the forms that cannot occur taken out
                for pc in (None, list(s2.pc)):
                    got, miss = [], []
                    try:
                        for g, lines in render.read_back(ip, txt, pc):
                            s3 = s2.fork(g)
                            if s3.dead():
                                continue
                            try:
                                got.extend(read_again(ip, c, version, alias, s3, lines))
                            except Unsupported as e:
                                miss.append(str(e)[:200])
                                if pc is None:
                                    break
                    except Unsupported as e:
                        miss.append(str(e)[:200])
                    if not miss:
                        break
                obs.extend(got)
                lost.extend(miss)
    ip.arginfo = info
    return ip, c, obs, lost


def read_again(ip, c, version, alias, st, lines):
    obs = []
    d = cmds.Ctx(version, alias, ip=ip)
    states = [st]
    last = d.ref
    for line, ws in lines:
        alts = render_first(ip, st, ws)
        nxt = []
        for s in states:
            for g, name, rest in alts:
                s1 = s.fork(g)
                if s1.dead():
                    continue
                if name is None:
                    nxt.append(s1)
                    continue
                if name not in d.handler.commands:
                    obs.append(Ob("the written line starts with a command of the version", And(*s1.pc)))
                    continue
                cmd = d.handler.commands[name]
                ref = ip.lift(cmd)
                h = ip.get(s1, ref)
                s1 = s1.fork()
                last = ref
                s1.heap[ref.id] = h.set("seen", True).set("currentCmd", name).set("currentLine", mk_str(list(as_rope(line).parts) + ["\n"])).set("lineno", 1)
                from .argp import ArgInfo
                ip.arginfo = ArgInfo()
                keep, ip.sym_items = ip.sym_items, None
                try:
                    ns, rs = d.reparse(s1, ref, rest)
                finally:
                    ip.sym_items = keep
                obs.append(Ob("the written line is accepted", Or(*[And(*x.pc) for x, e in rs])))
                for s2, ret in ns:
                    dd = d if cmd is d.cmd else Holder(d, cmd, ref)
                    nxt.extend(add_data(ip, dd, s2, ret))
        states = nxt if line is lines[-1][0] else ip.merge_states(nxt)
    ip.inst_eq = inst_eq(ip)
    try:
        for s in states:
            ha, hb = ip.get(s, c.ref), ip.get(s, last)
            compare_fields(ip, s, c.ref, ha, last, hb, "", True, obs)
    finally:
        ip.inst_eq = None
    return obs


def alts_of(v):
    return v.alts if isinstance(v, SUnion) else ((True, v),)


def compare_fields(ip, st, a, ha, b, hb, prefix, guard, obs):
    """one obligation per field; the fields of data objects apart"""
    for k in fields_of(ip, st, a):
        va, vb = ha.attrs.get(k, ABSENT), hb.attrs.get(k, ABSENT)
        pairs = [(And(guard, g, g2), x, y) for g, x in alts_of(va) for g2, y in alts_of(vb)]
        pairs = [(norm(g), x, y) for g, x, y in pairs]
        pairs = [p for p in pairs if p[0] is not False]
        if RT.rule(ha.cls, k) is None and len(pairs) <= 9 and all(isinstance(x, Ref) and isinstance(y, Ref) for _, x, y in pairs):
            for g, x, y in pairs:
                hx, hy = ip.get(st, x), ip.get(st, y)
                px = hx.plain() if isinstance(hx, HList) else None
                py = hy.plain() if isinstance(hy, HList) else None
                objs = lambda p: p is not None and all(isinstance(r, Ref) and isinstance(ip.get(st, r), HInst) for v in p for _, r in alts_of(v))     # noqa: E731
                if objs(px) and objs(py) and len(px) == len(py):
                    for u, v in zip(px, py):
                        for gu, ru in alts_of(u):
                            for gv, rv in alts_of(v):
                                g2 = norm(And(g, gu, gv))
                                if g2 is False:
                                    continue
                                hu, hv = ip.get(st, ru), ip.get(st, rv)
                                if hu.cls is not hv.cls:
                                    obs.append(Ob("field %s%s is read back" % (prefix, k), And(*list(st.pc), g2)))
                                    continue
                                compare_fields(ip, st, ru, hu, rv, hv, prefix + k + ".", g2, obs)
                else:
                    obs.append(Ob("field %s%s is read back" % (prefix, k), And(*list(st.pc), g, Not(ip.eq_abs(st, x, y)))))
            continue
        e = field_eq(ip, st, a, ha, b, hb, k)
        obs.append(Ob("field %s%s is read back" % (prefix, k), And(*list(st.pc), guard, Not(e))))


def render_first(ip, st, ws):
    """alternatives of the first word of a line: [(guard, word or None, rest)]"""
    if len(ws) > 1 and isinstance(ws[0], Item) and isinstance(ws[0].v, str) and ws[0].g is not True:
        # the same first word in several exclusive forms of the line: the words after it tell the forms apart
        name = ws[0].v
        heads = [w for w in ws if isinstance(w, Item) and isinstance(w.v, str) and w.v == name]
        gs = [w.g for w in heads]
        first = norm(Or(*gs))
        others = [w for w in ws if not any(w is h for h in heads)]
        bad = [And(x, y) for i, x in enumerate(gs) for y in gs[i + 1:]]
        # a word before the first one would come first itself
        for i, w in enumerate(ws):
            if any(w is h for h in heads):
                continue
            bad.append(And(w.g, Not(Or(*[h.g for h in ws[:i] if any(h is k for k in heads)]))))
        if not ip.feasible(list(st.pc) + [Or(*bad)]):
            out = [(first, name, others)]
            if ip.feasible(list(st.pc) + [Not(first)]):
                out.append((norm(Not(first)), None, []))
            return out
    out, before = [], True
    for i, w in enumerate(ws):
        h = norm(And(before, w.g))
        if h is False or not ip.feasible(list(st.pc) + [h]):
            continue
        if not isinstance(w, Item):
            raise Unsupported("first word of the line")
        for g, v in (w.v.alts if isinstance(w.v, SUnion) else ((True, w.v),)):
            parts = as_rope(v).parts
            if len(parts) == 1 and isinstance(parts[0], Cho):
                for g2, x in parts[0].alts:
                    x = mk_str(as_rope(x).parts)
                    if not isinstance(x, str):
                        raise Unsupported("first word of the line")
                    out.append((And(before, w.g, g, g2), x, ws[i + 1:]))
            elif isinstance(v, str):
                out.append((And(before, w.g, g), v, ws[i + 1:]))
            else:
                raise Unsupported("first word of the line: %r" % (v,))
        before = norm(And(before, Not(w.g)))
        if before is False or not ip.feasible(list(st.pc) + [before]):
            return out
    out.append((before, None, []))
    return out


class Holder:
    def __init__(self, d, cmd, ref):
        self.cmd, self.ref, self.ip, self._call = cmd, ref, d.ip, d._call
