"""Loop contracts by cut points.  A loop that takes lines from a ghost stream is verified one iteration at a time from
an arbitrary head state: integer locals that live across iterations are tied to the position in the stream (the
invariant inferred from the entry of the loop and checked at every way back to the head), any other such local is an
unknown.  The ways back to the head are recorded; the ways out continue behind the loop."""
import ast

import z3

from .values import *          # noqa: F401,F403
from . import interp as I
from .compare import Ob


class Cut:
    def __init__(self, ip, stream, modules, text=False):
        self.text, self.texts, self.fid = text, {}, None
        self.ip, self.stream, self.modules = ip, stream, modules
        self.backs = []           # states that come back to the head
        self.obs = []
        self.loops = 0
        ip.loop_contract = self.while_contract
        ip.for_contract = self.for_contract

    def pos(self, st):
        return self.ip.get(st, self.stream).attrs["pos"]

    def head(self, node, st, fr, body):
        self.loops += 1
        self.fid = fr.fid
        if self.loops > 1:
            raise Unsupported("a second loop over the lines")
        st = st.fork()
        names = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        env = dict(st.envs[fr.fid])
        p0 = iz(self.pos(st))
        n = z3.Int("position")
        offs = {}
        for x in sorted(names & set(env)):
            v = env[x]
            if v is ABSENT:
                continue
            if is_int(v) and not is_bool(v):
                c = z3.simplify(iz(v) - p0)
                if not z3.is_int_value(c):
                    raise Unsupported("loop variable %s has no simple relation to the line count" % x)
                offs[x] = c.as_long()
                env[x] = mk_int(z3.simplify(n + offs[x]))
            elif isinstance(v, I.Clo):
                continue
            elif is_str(v) and self.text:
                # text collected so far: arbitrary
                self.texts.setdefault(x, (v, sym_str("text so far in %s" % x)))
                env[x] = self.texts[x][1]
            else:
                env[x] = I.Opaque("loop variable %s" % x)
        st.envs[fr.fid] = env
        h = self.ip.get(st, self.stream)
        self.ip.put(st, self.stream, h.set("pos", SInt(n)))
        st.assume(n >= p0)
        return st, offs

    def back(self, st, fr, offs):
        self.backs.append(st)
        p = iz(self.pos(st))
        for x, c in offs.items():
            v = st.envs[fr.fid].get(x, ABSENT)
            if not is_int(v):
                raise Unsupported("loop variable %s is not a number" % x)
            self.obs.append(Ob("loop invariant: %s counts the lines" % x, And(*st.pc, Not(iz(v) == p + c))))

    def mine(self, fr):
        return fr.glob.get("__name__") in self.modules

    def while_contract(self, node, fr):
        if not self.mine(fr):
            return None
        return self.run_while

    def run_while(self, ip, node, st, fr):
        s0, offs = self.head(node, st, fr, node.body)
        out = []
        for s, c in ip.ev(node.test, s0, fr):
            a, b = ip.branch(s, ip.truth(s, c))
            if b is not None:
                out.extend(ip.block(node.orelse, b, fr) if node.orelse else [(b, "n", None)])
            if a is not None:
                self.body(ip, node, a, fr, offs, out)
        return out

    def body(self, ip, node, a, fr, offs, out):
        for s2, k, v in ip.block(node.body, a, fr):
            if k in ("n", "c"):
                self.back(s2, fr, offs)
            elif k == "b":
                out.append((s2, "n", None))
            else:
                out.append((s2, k, v))

    def for_contract(self, node, it, st, fr):
        if not (isinstance(it, Ref) and it.id == self.stream.id and self.mine(fr)):
            return None
        ip = self.ip
        s0, offs = self.head(node, st, fr, [node.target] + node.body)
        out = []
        ip.coll.append([])
        try:
            res = ip.call(s0, type_next(ip, s0, it), [it], {})
        finally:
            rs = ip.coll.pop()
        for s, e in rs:
            if ip.exc_class(s, e) is StopIteration:
                out.extend(ip.block(node.orelse, s, fr) if node.orelse else [(s, "n", None)])
            else:
                ip.raise_(s, e)
        for s, v in res:
            for a in ip.assign(node.target, v, s, fr):
                self.body(ip, node, a, fr, offs, out)
        return out


def type_next(ip, st, it):
    return ip.get(st, it).cls.__next__
