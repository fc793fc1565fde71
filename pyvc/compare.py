"""Obligations relating a command's parse() to its specification function (C02, C04)."""
import z3

from .values import *          # noqa: F401,F403
from . import cmds


class Ob:
    """one proof obligation: `neg` must be unsatisfiable"""
    def __init__(self, name, neg, info=None):
        self.name, self.neg, self.info = name, neg, info or {}
        self.status, self.model, self.time = None, None, 0.0


def discharge(ip, obs, timeout=20000):
    import time
    for o in obs:
        t = time.time()
        g = norm(o.neg)
        if g is False:
            o.status = "unsat"
            o.by = "simplifier"
            continue
        so = ip.solver(timeout)
        so.add(bz(g))
        r = so.check()
        o.status = str(r)
        o.by = "z3"
        if r == z3.sat:
            o.model = so.model()
        elif r == z3.unknown:
            o.status = cvc5_check(so, timeout)
            o.by = "cvc5"
        o.time = time.time() - t
    return obs


def cvc5_check(so, timeout):
    import subprocess
    import tempfile
    txt = so.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + txt)
        name = f.name
    try:
        r = subprocess.run(["cvc5", "--strings-exp", "--tlimit=%d" % timeout, name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        out = r.stdout.strip().split("\n")[0]
        return "unsat" if out == "unsat" else "unknown"
    except Exception:
        return "unknown"
    finally:
        import os
        os.unlink(name)


def visible(k):
    return not k.startswith("_") and k not in cmds.IGNORED


def make_inst_eq(ip):
    seen = set()

    def inst_eq(st, a, ha, b, hb):
        # hb is the specification side
        key = (a.id, b.id)
        if key in seen:
            return True
        seen.add(key)
        try:
            gs = []
            for k, v in hb.attrs.items():
                if not visible(k):
                    continue
                gs.append(ip.eq_abs(st, ha.attrs.get(k, ABSENT), v))
            return And(*gs)
        finally:
            seen.discard(key)
    return inst_eq


def joint(a, b):
    """state holding both final states (their heaps are disjoint above the shared base)"""
    s = a.fork()
    for g in b.pc:
        s.assume(g)
    for k, v in b.heap.items():
        s.heap[k] = v
    return s


def obligations(version, alias, seen=True, havoc=None, grammar=True):
    ip = cmds.new_ip()
    r = cmds.Ctx(version, alias, ip=ip, seen=seen, grammar=grammar, havoc=havoc)
    nr, rr = r.parse()
    info_r = ip.arginfo
    from .argp import ArgInfo
    ip.arginfo = ArgInfo()
    s = cmds.Ctx(version, alias, ip=ip, spec=True, seen=seen, grammar=grammar, havoc=havoc)
    ns, rs = s.parse()
    info_s = ip.arginfo
    obs = []
    accr = Or(*[And(*x.pc) for x, _ in nr])
    accs = Or(*[And(*x.pc) for x, _ in ns])
    rejs = Or(*[And(*x.pc) for x, _ in rs])
    rejr = Or(*[And(*x.pc) for x, _ in rr])
    obs.append(Ob("accept<=", And(accs, Not(accr)), {"kind": "C04"}))
    obs.append(Ob("accept=>", And(accr, Not(accs)), {"kind": "C04"}))
    ip.inst_eq = make_inst_eq(ip)
    for i, (a, va) in enumerate(nr):
        for j, (b, vb) in enumerate(ns):
            st = joint(a, b)
            if st.dead():
                continue
            ha, hb = ip.get(st, r.ref), ip.get(st, s.ref)
            for k, v in hb.attrs.items():
                if not visible(k):
                    continue
                obs.append(Ob("field %s" % k, And(*(list(st.pc) + [Not(ip.eq_abs(st, ha.attrs.get(k, ABSENT), v))])), {"kind": "C02"}))
            obs.append(Ob("result", And(*(list(st.pc) + [Not(same_result(ip, st, va, r.ref, vb, s.ref))])), {"kind": "C02"}))
    ip.inst_eq = None
    return ip, r, s, info_r, info_s, obs


def same_result(ip, st, va, ra, vb, rb):
    return ip.eq_abs(st, va, vb)


def havoc_prior(ctx, st):
    """the command object has been used before: its plain fields hold arbitrary values of their type"""
    ip = ctx.ip
    h = ip.get(st, ctx.ref)
    for k, v in list(h.attrs.items()):
        if not visible(k) or k in ("lineno", "removedKeywords", "removedAttrs"):
            continue
        if isinstance(v, bool):
            h = h.set(k, SBool(z3.Bool("old:" + k)))
        elif isinstance(v, int):
            h = h.set(k, SInt(z3.Int("old:" + k)))
        elif isinstance(v, str):
            h = h.set(k, sym_str("old:" + k))
        elif v is None:
            b = z3.Bool("oldset:" + k)
            h = h.set(k, mk_union([(b, sym_str("old:" + k)), (Not(b), None)]))
    ip.base[ctx.ref.id] = h
