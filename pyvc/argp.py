"""Contract of argparse.ArgumentParser.parse_known_args / parse_args, driven by the real parser's action table.

Two uses:
 * the argument list is the symbolic list ip.sym_args ("any words"): every option may or may not be given,
   with any value, in any order;
 * the argument list is a list of guarded ropes (the words of a rendered line): matched left to right.
Repository code that argparse calls back (type callbacks, KSOptionParser.error) is executed symbolically.
"""
import argparse
import z3

from .values import *          # noqa: F401,F403
from . import models as M

STORE_FLAGS = (argparse._StoreTrueAction, argparse._StoreFalseAction, argparse._StoreConstAction)


def opt_name(a):
    longs = sorted(o for o in a.option_strings if o.startswith("--"))
    return longs[0] if longs else sorted(a.option_strings)[0]


def is_listy(a):
    return isinstance(a, (argparse._AppendAction, argparse._AppendConstAction)) or type(a).__name__ in (
        "ExtendAction", "ExtendConstAction", "_ExtendAction")


class ArgInfo:
    """bookkeeping of the symbolic inputs created by the forward contract (for concretisation)"""
    def __init__(self):
        self.opts = {}       # name -> dict(kind, given, raw, last, action)
        self.pos = []        # dicts
        self.nextra = None
        self.extras = []
        self.tail = None
        self.ops = []
        self.excluded = {}   # options the symbolic runs leave out (covered by the bounded native runs)
        self.bounded = {}    # options explored with a bound on occurrences


def op_error(ip, st, op):
    for _ in ip.call(st, type(op).error, [op, "argument error"], {}):
        # error() returned: argparse would go on to exit(); treat as an escape of the contract
        raise Unsupported("KSOptionParser.error returned")


def run_type(ip, st, op, a, raw):
    """-> [(st, value)]; conversion failures go to op.error"""
    tf = op._registry_get("type", a.type, a.type)
    if tf is None or getattr(tf, "__name__", "") == "identity":
        return [(st, raw)]
    tf = ip.lift(tf)
    ip.coll.append([])
    try:
        res = ip.call(st, tf, [raw], {})
    finally:
        rs = ip.coll.pop()
    for s, e in rs:
        alts = e.alts if isinstance(e, SUnion) else ((True, e),)
        for g, x in alts:
            s1 = s.fork(g)
            if s1.dead():
                continue
            if issubclass(ip.exc_class(s1, x), (argparse.ArgumentTypeError, TypeError, ValueError)):
                op_error(ip, s1, op)
            else:
                ip.raise_(s1, x)
    return res


def check_choices(ip, st, op, a, v):
    if a.choices is None:
        return [st]
    g = Or(*[ip.eq(st, v, c) for c in a.choices])
    y, n = ip.branch(st, g)
    if n is not None:
        op_error(ip, n, op)
    return [y] if y is not None else []


def convert(ip, st, op, a, raw):
    out = []
    for s, v in run_type(ip, st, op, a, raw):
        for s2 in check_choices(ip, s, op, a, v):
            out.append((s2, v))
    return ip.merge_results(out)


def set_ns(ip, st, ns, dest, v):
    h = ip.get(st, ns)
    st.heap[ns.id] = h.set(dest, v)


def start_ns(ip, st, op):
    attrs = {}
    for a in op._actions:
        if a.dest is argparse.SUPPRESS or a.default is argparse.SUPPRESS:
            continue
        attrs.setdefault(a.dest, ip.lift(a.default))
    for k, v in op._defaults.items():
        attrs.setdefault(k, ip.lift(v))
    return ip.new(st, HInst(argparse.Namespace, attrs))


def string_defaults(ip, states, op, ns, unseen):
    """argparse converts string defaults of options not seen"""
    for a in op._actions:
        if isinstance(a.default, str) and a.type is not None and a.dest is not argparse.SUPPRESS:
            nxt = []
            for st in states:
                y, n = ip.branch(st, unseen(a))
                if n is not None:
                    nxt.append(n)
                if y is not None:
                    cur = ip.get(y, ns).attrs[a.dest]
                    if same(cur, a.default):
                        for s, v in run_type(ip, y, op, a, a.default):
                            set_ns(ip, s, ns, a.dest, v)
                            nxt.append(s)
                    else:
                        nxt.append(y)
            states = ip.merge_states(nxt)
    return states


def one_option(ip, states, op, ns, a, name, rec, g, w, dom):
    nxt = []
    for s in states:
        y, n = ip.branch(s, g)
        sub = []
        if n is not None:
            sub.append(n)
        if y is not None:
            y = y.fork()
            if isinstance(a, STORE_FLAGS):
                set_ns(ip, y, ns, a.dest, merge_val(w, ip.lift(a.const), ip.get(y, ns).attrs.get(a.dest, ABSENT)) if w is not g else ip.lift(a.const))
                sub.append(y)
            elif isinstance(a, argparse._StoreAction):
                if a.nargs is None:
                    raw = sym_str("raw:" + name, dom(a))
                    rec["raw"] = raw
                    for s2, v in convert(ip, y, op, a, raw):
                        if w is not g:
                            v = merge_val(w, v, ip.get(s2, ns).attrs.get(a.dest, ABSENT))
                        set_ns(ip, s2, ns, a.dest, v)
                        sub.append(s2)
                elif a.nargs == "?":
                    raw = sym_str("raw:" + name, dom(a))
                    rec["raw"] = raw
                    hv = z3.Bool("hasval:" + name)
                    rec["hasval"] = hv
                    for s2, v in convert(ip, y.fork(hv), op, a, raw):
                        set_ns(ip, s2, ns, a.dest, v)
                        sub.append(s2)
                    s3 = y.fork(Not(hv))
                    set_ns(ip, s3, ns, a.dest, ip.lift(a.const))
                    sub.append(s3)
                else:
                    raise Unsupported("option nargs %r" % (a.nargs,))
            elif isinstance(a, argparse._AppendConstAction):
                if a.default is not None:
                    raise Unsupported("append with default")
                rec["once"] = True
                sub.extend(append_vals(ip, y, ns, a.dest, ip.get(y, ns).attrs.get(a.dest), [Item(True, ip.lift(a.const))]))
            elif type(a).__name__ == "ExtendConstAction" and a.nargs == 0:
                rec["once"] = True
                sub.extend(call_action(ip, y, op, a, ns, ip.new_list(y, [])))
            elif type(a).__name__ in ("ExtendAction", "_ExtendAction") and a.nargs is None:
                rec["once"] = True
                ip.arginfo.bounded[name] = "given at most once, in declaration order"
                raw = sym_str("raw:" + name, dom(a))
                rec["raw"] = raw
                for s2, v in convert(ip, y, op, a, raw):
                    sub.extend(call_action(ip, s2, op, a, ns, v))
            elif rec.get("once") and type(a) is argparse._AppendAction and a.nargs is None:
                raw = sym_str("raw:" + name, dom(a))
                rec["raw"] = raw
                for s2, v in convert(ip, y, op, a, raw):
                    sub.extend(append_vals(ip, s2, ns, a.dest, ip.get(s2, ns).attrs.get(a.dest), [Item(True, v)]))
            elif is_listy(a) and type(a) is argparse._AppendAction and a.nargs is None and a.type is None and a.choices is None:
                seq = ip.seq("raws:" + name, dom(a))
                rec["seq"] = seq
                y.assume(seq.len >= 1)
                if a.default is not None:
                    raise Unsupported("append with default")
                set_ns(ip, y, ns, a.dest, ip.new(y, HList([Star(True, seq, seq.val)])))
                sub.append(y)
            else:
                raise Unsupported("action %s of %s" % (type(a).__name__, name))
        nxt.extend(sub)
    return ip.merge_states(nxt)


def forward(ip, st, op, strict):
    info = ip.arginfo
    info.ops.append(op)
    dom = ip.raw_dom
    st = st.fork()
    # words the option grammar itself cannot accept (unknown option forms, missing values)
    bad = ip.bad_grammar
    if bad is not False:
        y = st.fork(bad)
        op_error(ip, y, op)
        st.assume(Not(bad))
    ns = start_ns(ip, st, op)
    states = [st]
    by_dest = {}
    for a in op._actions:
        if a.option_strings:
            by_dest.setdefault(a.dest, []).append(a)
    given = {}
    for a in op._actions:
        if not a.option_strings:
            continue
        name = opt_name(a)
        rec = info.opts.setdefault(name, {"action": a, "op": op})
        g = z3.Bool("given:" + name)
        given[id(a)] = g
        rec["given"] = g
        group = by_dest[a.dest]
        w = g
        if len(group) > 1:
            if any(is_listy(x) for x in group):
                info.bounded[name] = "given at most once, in declaration order"
                rec["once"] = True
                w = g
            else:
                w = z3.Bool("last:" + name)
                rec["last"] = w
            if a is group[0] and not any(is_listy(x) for x in group):
                ws = [z3.Bool("last:" + opt_name(x)) for x in group]
                gs = [z3.Bool("given:" + opt_name(x)) for x in group]
                for s in states:
                    for wi, gi in zip(ws, gs):
                        s.assume(z3.Implies(wi, gi))
                        s.assume(z3.Implies(gi, z3.Or(*ws)))
                    for i in range(len(ws)):
                        for j in range(i + 1, len(ws)):
                            s.assume(z3.Not(z3.And(ws[i], ws[j])))
        nxt = []
        backup = [s.fork() for s in states]
        nraise = len(ip.coll[-1])
        try:
            if ip.skip_opt is not None and ip.skip_opt(name):
                raise Unsupported("left out of the symbolic runs")
            states = one_option(ip, states, op, ns, a, name, rec, g, w, dom)
        except Unsupported as e:
            # the option cannot be executed symbolically: verified only for lines without it
            del ip.coll[-1][nraise:]
            info.excluded[name] = str(e)
            states = [s.assume(Not(g)) for s in backup]
    # positionals
    k = 0

    for a in op._actions:
        if a.option_strings:
            continue
        rec = {"action": a, "op": op, "index": k}
        if len(info.pos) <= k:
            info.pos.append(rec)
        nxt = []
        for s in states:
            s = s.fork()
            raw = sym_str("pos:%d" % k, dom(a))
            rec["raw"] = raw
            if a.nargs in (None, 1):
                for s2, v in convert(ip, s, op, a, raw):
                    if a.nargs == 1:
                        s2 = s2.fork()
                        v = ip.new_list(s2, [v])
                    set_ns(ip, s2, ns, a.dest, v)
                    nxt.append(s2)
            elif a.nargs == "?":
                hv = z3.Bool("hasval:pos:%d" % k)
                rec["hasval"] = hv
                for s2, v in convert(ip, s.fork(hv), op, a, raw):
                    set_ns(ip, s2, ns, a.dest, v)
                    nxt.append(s2)
                nxt.append(s.fork(Not(hv)))
            elif a.nargs in ("*", "+") and a.type is None and a.choices is None:
                seq = ip.seq("pos:%d" % k, dom(a))
                n = z3.Int("npos:%d" % k)
                rec["seq"], rec["n"] = seq, n
                items, heads = bounded_items("pos:%d" % k, n, seq, dom(a))
                rec["heads"] = heads
                s.assume(n >= (1 if a.nargs == "+" else 0))
                s.assume(seq.len == z3.If(n >= len(heads), n - len(heads), 0))
                v = ip.new(s, HList(items))
                if a.nargs == "*" and a.default is not None:
                    raise Unsupported("positional * with default")
                set_ns(ip, s, ns, a.dest, v)
                nxt.append(s)
            else:
                raise Unsupported("positional nargs %r" % (a.nargs,))
        states = ip.merge_states(nxt)
        k += 1
    # required options
    nxt = []
    for s in states:
        req = And(*[given[id(a)] for a in op._actions if a.required and a.option_strings])
        y, n = ip.branch(s, req)
        if n is not None:
            op_error(ip, n, op)
        if y is not None:
            nxt.append(y)
    states = nxt
    states = string_defaults(ip, states, op, ns, lambda a: Not(given[id(a)]) if id(a) in given else False)
    out = []
    for s in states:
        s = s.fork()
        n = z3.Int("nextra")
        info.nextra = n
        seq = info.tail or ip.seq("extra", dom(None))
        info.tail = seq
        items, heads = bounded_items("extra", n, seq, dom(None))
        info.extras = heads
        s.assume(n >= 0)
        s.assume(seq.len == z3.If(n >= len(heads), n - len(heads), 0))
        if strict:
            y, b = ip.branch(s, n == 0)
            if b is not None:
                op_error(ip, b, op)
            if y is not None:
                out.append((y, ns))
        else:
            out.append((s, (ns, ip.new(s, HList(items)))))
    return ip.merge_results(out)


def bounded_items(name, n, seq, dom, heads=3):
    """a list of n arbitrary strings: the first few as named items, the rest as an unbounded tail"""
    items, hs = [], []
    for i in range(heads):
        v = sym_str("%s.%d" % (name, i), dom)
        hs.append(v)
        items.append(Item(n > i, v))
    items.append(Star(n > heads, seq, seq.val))
    return items, hs


# ---------------------------------------------------------------- re-reading words of a rendered line
def lit_prefix(tok):
    """leading literal text of a rope"""
    r = as_rope(tok)
    return r.parts[0] if r.parts and isinstance(r.parts[0], str) else ""


def cannot_be_option(tok):
    r = as_rope(tok)
    if not r.parts:
        return True
    p = r.parts[0]
    if isinstance(p, str):
        return not p.startswith("-") or r.parts == ("-",)
    if isinstance(p, Atom):
        return p.dom.nodash and p.dom.nonempty
    if isinstance(p, IntS):
        return None
    if isinstance(p, Cho):
        return all(cannot_be_option(SStr(list(x.parts) + list(r.parts[1:]))) is True for _, x in p.alts)
    return None


def split_tok(tok):
    """expand leading choices of a token into guarded alternatives"""
    r = as_rope(tok)
    if r.parts and isinstance(r.parts[0], Cho):
        out = []
        for g, x in r.parts[0].alts:
            for g2, t in split_tok(mk_str(list(x.parts) + list(r.parts[1:]))):
                out.append((And(g, g2), t))
        return out
    return [(True, tok)]


def reparse(ip, st, op, items, strict):
    st = st.fork()
    ns = start_ns(ip, st, op)
    states = [st]
    toks = []
    for i in items:
        if isinstance(i, Star):
            toks.append((i.g, i))
            continue
        if isinstance(i.v, SUnion):
            raise Unsupported("word of unknown type")
        alts = split_tok(i.v)
        if len(alts) == 1 or cannot_be_option(i.v) is True:
            toks.append((i.g, i.v))
        else:
            for g, t in alts:
                toks.append((And(i.g, g), t))
    seen = {}
    extras, runs, seps = [], [], [False]
    k = 0
    lastopt = False
    while k < len(toks):
        g, tok = toks[k]
        k += 1
        if isinstance(tok, Star):
            pre = lit_prefix(tok.elem)
            if pre.startswith("--") and "=" in pre:
                o, _, rest = pre.partition("=")
                act = find_action(op, o)
                if act is None or type(act) is not argparse._AppendAction or act.type is not None or act.choices is not None or act.nargs is not None:
                    raise Unsupported("list of options %s" % o)
                el = mk_str([rest] + list(as_rope(tok.elem).parts[1:]))
                it = Star(g, tok.seq, el, tok.filt)
                seen[id(act)] = Or(seen.get(id(act), False), ip.items_nonempty([it]))
                nxt = []
                for s in states:
                    y, n = ip.branch(s, ip.items_nonempty([it]))
                    if n is not None:
                        nxt.append(n)
                    if y is not None:
                        nxt.extend(append_vals(ip, y.fork(), ns, act.dest, ip.get(y, ns).attrs.get(act.dest), [it]))
                states = ip.merge_states(nxt)
                lastopt = True
                seps[-1] = Or(seps[-1], ip.items_nonempty([it]))
                continue
            if cannot_be_option(tok.elem) is not True:
                raise Unsupported("list of words may contain options")
            if lastopt or not runs:
                runs.append([])
                seps.append(False)
            runs[-1].append(tok)
            lastopt = False
            continue
        act, explicit = None, None
        pre = lit_prefix(tok)
        if cannot_be_option(tok) is True:
            pass
        elif pre.startswith("-"):
            r = as_rope(tok)
            if "=" in pre:
                o, _, rest = pre.partition("=")
                act = find_action(op, o)
                explicit = mk_str([rest] + list(r.parts[1:]))
            elif len(r.parts) == 1:
                act = find_action(op, pre)
            else:
                raise Unsupported("option word %r" % (tok,))
            if act is None:
                if pre[1:2].isdigit():
                    raise Unsupported("negative number word")
                extras.append(Item(g, tok))
                lastopt = True
                seps[-1] = Or(seps[-1], g)
                continue
        else:
            raise Unsupported("word may or may not be an option: %r" % (tok,))
        if act is None:
            if lastopt or not runs:
                runs.append([])
                seps.append(False)
            runs[-1].append(Item(g, tok))
            lastopt = False
            continue
        lastopt = True
        seps[-1] = Or(seps[-1], g)
        takes = act.nargs != 0
        if takes and explicit is None:
            if act.nargs == "?":
                nx = toks[k] if k < len(toks) else None
                if nx is not None and not isinstance(nx[1], Star) and cannot_be_option(nx[1]) is True:
                    raise Unsupported("optional value followed by a word")
            else:
                if k >= len(toks) or isinstance(toks[k][1], Star):
                    nxt = []
                    for s in states:
                        y, n = ip.branch(s, g)
                        if y is not None:
                            op_error(ip, y, op)
                        if n is not None:
                            nxt.append(n)
                    states = nxt
                    continue
                g2, explicit = toks[k]
                k += 1
                co = cannot_be_option(explicit)
                if co is None:
                    raise Unsupported("value word may look like an option")
                if not geq(norm(g), norm(g2)) and g2 is not True:
                    raise Unsupported("value word guarded differently from its option")
                if g2 is True and g is not True:
                    raise Unsupported("value word guarded differently from its option")
                if co is False:
                    nxt = []
                    for s in states:
                        y, n = ip.branch(s, g)
                        if y is not None:
                            op_error(ip, y, op)
                        if n is not None:
                            nxt.append(n)
                    states = nxt
                    continue
        seen[id(act)] = Or(seen.get(id(act), False), g)
        nxt = []
        for s in states:
            y, n = ip.branch(s, g)
            if n is not None:
                nxt.append(n)
            if y is None:
                continue
            y = y.fork()
            cur = ip.get(y, ns).attrs.get(act.dest, None)
            if not takes and explicit is not None:
                op_error(ip, y, op)
                continue
            if isinstance(act, STORE_FLAGS):
                set_ns(ip, y, ns, act.dest, ip.lift(act.const))
                nxt.append(y)
            elif isinstance(act, argparse._AppendConstAction):
                for s2 in append_vals(ip, y, ns, act.dest, cur, [Item(True, ip.lift(act.const))]):
                    nxt.append(s2)
            elif type(act).__name__ == "ExtendConstAction":
                for s2 in call_action(ip, y, op, act, ns, ip.new_list(y, [])):
                    nxt.append(s2)
            elif act.nargs == "?" and explicit is None:
                set_ns(ip, y, ns, act.dest, ip.lift(act.const))
                nxt.append(y)
            else:
                for s2, v in convert(ip, y, op, act, explicit):
                    s2 = s2.fork()
                    if type(act) is argparse._StoreAction:
                        set_ns(ip, s2, ns, act.dest, v)
                        nxt.append(s2)
                    elif type(act) is argparse._AppendAction:
                        nxt.extend(append_vals(ip, s2, ns, act.dest, ip.get(s2, ns).attrs.get(act.dest), [Item(True, v)]))
                    elif type(act).__name__ == "ExtendAction":
                        nxt.extend(call_action(ip, s2, op, act, ns, v))
                    else:
                        raise Unsupported("action %s" % type(act).__name__)
        states = ip.merge_states(nxt)
    # positionals
    positionals = [a for a in op._actions if not a.option_strings]
    if positionals:
        cases = [(s, x) for s in states for x in [()]]
        cases = []
        for s in states:
            for s2, segs in segments(ip, s, runs, seps):
                cases.extend(place(ip, s2, op, ns, positionals, segs))
    else:
        if runs and extras:
            raise Unsupported("unknown options among words")
        flat = [i for r in runs for i in r]
        cases = [(s, flat) for s in states]
    by = {}
    for s, left in cases:
        by.setdefault(tuple(id(i) for i in left), (left, []))[1].append(s)
    groups = [(left, ip.merge_states(ss)) for left, ss in by.values()]
    out = []
    for left, states in groups:
        if left and extras:
            raise Unsupported("unknown options among words")
        out.extend(finish(ip, op, ns, states, seen, list(extras) + list(left), strict))
    return ip.merge_results(out)


def segments(ip, st, runs, seps):
    """the words between the options that are there: [(st, [run, ...])]; every run but the last is followed by an
    option and not empty; seps[i] is the guard of an option between run i-1 and run i (seps[-1]: after the last)"""
    out = [(st, [[]])]
    for k in range(len(seps)):
        nxt = []
        for s, segs in out:
            y, n = ip.branch_f(s, seps[k])
            if y is not None:
                # an option: a run that may be empty is decided
                if segs[-1]:
                    a, b = ip.branch_f(y, ip.items_nonempty(segs[-1]))
                    if a is not None:
                        nxt.append((a, segs + [[]]))
                    if b is not None:
                        nxt.append((b, segs[:-1] + [[]]))
                else:
                    nxt.append((y, segs))
            if n is not None:
                nxt.append((n, segs))
        if k < len(runs):
            nxt = [(s, segs[:-1] + [segs[-1] + list(runs[k])]) for s, segs in nxt]
        out = nxt
        if len(out) > 64:
            raise Unsupported("words in too many places")
    return out


def place(ip, st, op, ns, positionals, segs):
    """argparse's matching of words to positional arguments, run by run: [(st, words left over)]"""
    cases = [(st, list(positionals), [])]
    for run in segs:
        nxt = []
        for s, todo, left in cases:
            nxt.extend((s2, t2, left + l2) for s2, t2, l2 in consume(ip, s, op, ns, todo, list(run)))
        cases = nxt
    out = []
    for s, todo, left in cases:
        if todo:
            op_error(ip, s, op)
        else:
            out.append((s, left))
    return out


def consume(ip, st, op, ns, todo, run):
    if not todo:
        return [(st, todo, run)]
    a = todo[0]
    if a.nargs in (None, 1, "?"):
        if a.nargs == "?" and len(todo) > 1:
            raise Unsupported("optional positional followed by others")
        if not run:
            if a.nargs == "?":
                return consume(ip, st, op, ns, todo[1:], run)
            return [(st, todo, run)]
        it = run[0]
        if isinstance(it, Star):
            y, n = ip.branch_f(st, ip.items_nonempty([it]))
            if y is not None:
                raise Unsupported("positional word from a list")
            return consume(ip, n, op, ns, todo, run[1:])
        out = []
        y, n = ip.branch_f(st, it.g)
        if n is not None:
            out.extend(consume(ip, n, op, ns, todo, run[1:]))
        if y is not None:
            for s2, v in convert(ip, y, op, a, it.v):
                s2 = s2.fork()
                if a.nargs == 1:
                    v = ip.new_list(s2, [v])
                set_ns(ip, s2, ns, a.dest, v)
                out.extend(consume(ip, s2, op, ns, todo[1:], run[1:]))
        return out
    if all(b.nargs == "*" and b.type is None and b.choices is None and b.default is None for b in todo):
        # the first takes every word, those after it none
        st = st.fork()
        for b in todo:
            set_ns(ip, st, ns, b.dest, ip.new(st, HList(run)))
            run = []
        return [(st, [], [])]
    raise Unsupported("positional nargs")


def finish(ip, op, ns, states, seen, extras, strict):
    nxt = []
    for s in states:
        req = And(*[seen.get(id(a), False) for a in op._actions if a.required and a.option_strings])
        y, n = ip.branch(s, req)
        if n is not None:
            op_error(ip, n, op)
        if y is not None:
            nxt.append(y)
    states = string_defaults(ip, nxt, op, ns, lambda a: Not(seen.get(id(a), False)) if a.option_strings else False)
    out = []
    for s in states:
        if strict:
            y, b = ip.branch(s, Not(ip.items_nonempty(extras)))
            if b is not None:
                op_error(ip, b, op)
            if y is not None:
                out.append((y, ns))
        else:
            s = s.fork()
            out.append((s, (ns, ip.new(s, HList(extras)))))
    return ip.merge_results(out)


def find_action(op, o):
    if o in op._option_string_actions:
        return op._option_string_actions[o]
    m = [a for s, a in op._option_string_actions.items() if s.startswith(o)] if o.startswith("--") else []
    if len(m) == 1 and op.allow_abbrev:
        return m[0]
    if m:
        raise Unsupported("ambiguous option %s" % o)
    if not o.startswith("--") and len(o) > 2:
        raise Unsupported("short option cluster %s" % o)
    return None


def append_vals(ip, st, ns, dest, cur, items):
    out = []
    alts = cur.alts if isinstance(cur, SUnion) else ((True, cur),)
    for g, c in alts:
        s = st.fork(g)
        if s.dead():
            continue
        old = ()
        if isinstance(c, Ref):
            old = ip.get(s, c).items
        elif c is not None:
            raise Unsupported("append to %r" % (c,))
        set_ns(ip, s, ns, dest, ip.new(s, HList(list(old) + list(items))))
        out.append(s)
    return ip.merge_states(out)


def call_action(ip, st, op, act, ns, v):
    return [s for s, _ in ip.call(st, type(act).__call__, [act, op, ns, v], {"option_string": None})]


# ---------------------------------------------------------------- models
def get_args(ip, st, args, kw):
    a = args[1] if len(args) > 1 else kw.get("args")
    nsarg = args[2] if len(args) > 2 else kw.get("namespace")
    if nsarg is not None:
        raise Unsupported("namespace argument")
    return a


def _parse(ip, st, args, kw, strict):
    op = args[0]
    a = get_args(ip, st, args, kw)
    if not isinstance(a, Ref) and not isinstance(a, SUnion):
        raise Unsupported("argument list %r" % (a,))
    ip.assumed.add("argparse.ArgumentParser.%s" % ("parse_args" if strict else "parse_known_args"))

    def f(s, x):
        h = ip.get(s, x)
        if not isinstance(h, HList):
            raise Unsupported("argument list kind")
        if ip.sym_items is not None and h.items == ip.sym_items:
            return forward(ip, s, op, strict)
        return reparse(ip, s, op, h.items, strict)
    return ip.each(st, a, f)


def m_known(ip, st, args, kw):
    return _parse(ip, st, args, kw, False)


def m_args(ip, st, args, kw):
    return _parse(ip, st, args, kw, True)


def install(ip):
    ip.opaque_types = ip.opaque_types + (argparse.ArgumentParser, argparse.Action)
    ip.models[argparse.ArgumentParser.parse_known_args] = m_known
    ip.models[argparse.ArgumentParser.parse_args] = m_args
    ip.arginfo = ArgInfo()
    ip.raw_dom = lambda a: ANY
    ip.bad_grammar = False
    ip.skip_opt = None
    ip.sym_items = None
    ip.normpath_nodash = False
