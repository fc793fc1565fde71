"""Running the real code (and the specification functions) natively: replay of counter-models and the bounded
stand-ins.  Nothing here decides a proof; it confirms failing inputs and covers what the engine cannot execute."""
import argparse
import ast
import functools
import os
import random
import shlex
import signal
import sys
import time
import types
import warnings

from . import cmds

REPO = os.environ.get("VERIF_REPO_COPY", "/repo")


class Timeout(Exception):
    pass


class time_limit:
    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        def h(*a):
            raise Timeout()
        self.t0 = time.time()
        self.old = signal.signal(signal.SIGALRM, h)
        self.left = signal.setitimer(signal.ITIMER_REAL, self.secs)[0]

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        if self.left:
            signal.setitimer(signal.ITIMER_REAL, max(0.01, self.left - (time.time() - self.t0)))


# ---------------------------------------------------------------- outcomes
def canon(v, depth=0):
    """plain, comparable image of a value"""
    if isinstance(v, (int, bool, float, str, bytes, type(None))):
        return v
    if isinstance(v, list):
        return ["list"] + [canon(x, depth + 1) for x in v]
    if isinstance(v, tuple):
        return ["tuple"] + [canon(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return ["set"] + sorted((canon(x, depth + 1) for x in v), key=repr)
    if isinstance(v, dict):
        return ["dict"] + sorted(([canon(k), canon(x, depth + 1)] for k, x in v.items()), key=repr)
    if isinstance(v, (argparse.ArgumentParser, argparse.Action)) or isinstance(v, (type, types.FunctionType, types.MethodType, types.BuiltinFunctionType)):
        return "<opaque>"
    if hasattr(v, "__dict__") and depth < 6:
        return ["obj"] + sorted(([k, canon(x, depth + 1)] for k, x in vars(v).items() if visible(k)), key=repr)
    return "<%s>" % type(v).__name__


def visible(k):
    return not k.startswith("_") and k not in cmds.IGNORED


class Outcome:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return repr(self.__dict__)


@functools.lru_cache(None)
def handler(version, spec):
    return cmds.spec_handler(version) if spec else cmds.real_handler(version)


def fresh(version, alias, spec, seen=()):
    h = handler(version, spec)
    for n, o in h.commands.items():
        if o is not None:
            o.seen = n in seen
    cls = type(h.commands[alias])
    c = cls()
    c.handler = h
    return h, c


def where(e):
    """innermost repository frame of an exception: file:function"""
    tb, out = e.__traceback__, "?"
    while tb is not None:
        f = tb.tb_frame.f_code
        if "/pykickstart/" in f.co_filename:
            out = "%s:%s" % (f.co_filename[f.co_filename.rindex("/pykickstart/") + 1:], f.co_name)
        tb = tb.tb_next
    return out


def run_lines(version, alias, lines, spec=False, seen=(), lineno=11, cmd=None):
    """parse the lines one after the other on one command object; outcome of the last"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        h, c = fresh(version, alias, spec, seen)
        if cmd is not None:
            c = cmd
        old = {n: o for n, o in h.commands.items() if o is not None and type(o) is type(c)}
        ret = None
        for i, argv in enumerate(lines):
            c.currentCmd = alias
            c.currentLine = alias + " " + " ".join(shlex.quote(w) for w in argv)
            c.lineno = lineno + i
            try:
                with time_limit(5):
                    c.seen = True
                    ret = c.parse(list(argv))
                    lst = c.dataList()
                    if lst is not None and ret is not None and ret is not c:
                        lst.append(ret)
            except Timeout:
                return Outcome("hang", at=i, cmd=c)
            except RecursionError:
                return Outcome("exc", exc="RecursionError", parse_error=False, lineno=None, at=i, cmd=c)
            except Exception as e:          # noqa: B902
                return Outcome("exc", exc=type(e).__name__, parse_error=type(e).__name__ == "KickstartParseError",
                               lineno=getattr(e, "lineno", None), value=getattr(e, "value", None), at=i, cmd=c, where=where(e))
            except SystemExit:
                return Outcome("exc", exc="SystemExit", parse_error=False, lineno=None, at=i, cmd=c)
        return Outcome("ok", cmd=c, ret=ret)


def state_of(c):
    return {k: canon(v) for k, v in vars(c).items() if visible(k)}


def differs(version, alias, lines, seen=()):
    """None, or (kind, description) when the real command and its specification disagree on these lines"""
    r = run_lines(version, alias, lines, False, seen)
    s = run_lines(version, alias, lines, True, seen)
    if s.kind == "hang" or r.kind == "hang":
        return None if s.kind == r.kind else ("C04", "one side does not terminate")
    if s.kind == "exc" and not s.parse_error:
        # outside what the specification describes (it would have to be a parse error): C03's business
        return None
    if (r.kind == "exc") != (s.kind == "exc") or (r.kind == "exc" and r.at != s.at):
        if r.kind == "exc":
            return ("C04", "line %d: rejected (%s: %s) but the rules accept it" % (r.at, r.exc, r.value))
        return ("C04", "line %d: accepted but the rules reject it (%s)" % (s.at, s.value))
    if r.kind == "exc":
        return None
    a, b = state_of(r.cmd), state_of(s.cmd)
    for k in sorted(b):
        if k == "lineno":
            continue
        if k not in a:
            return ("C02", "field %s is missing" % k)
        x, y = project(a[k], b[k]), b[k]
        if x != y or type(x) is not type(y):
            return ("C02", "field %s is %r, should be %r" % (k, short(x), short(y)))
    x, y = canon(r.ret), canon(s.ret)
    x = project(x, y)
    if x != y:
        return ("C02", "the object read is %r, should be %r" % (short(x), short(y)))
    return None


def project(x, y):
    """drop attributes of objects in x that the specification does not have"""
    if isinstance(x, list) and isinstance(y, list) and x[:1] == ["obj"] and y[:1] == ["obj"]:
        dy = dict((k, v) for k, v in y[1:])
        return ["obj"] + [[k, project(v, dy[k])] for k, v in x[1:] if k in dy]
    if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        return [project(a, b) for a, b in zip(x, y)]
    return x


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


# ---------------------------------------------------------------- inputs
BASE_POOL = ["1", "0", "-1", "7", "65536", "4096", "foo", "bar", "sda1", "sda,sdb", "a:b", "/", "/home", "/boot", "swap", "eth0",
             "none", "true", "false", "yes", "no", "on", "off", "a b", "", "a,b,,c", " x ", "10.0.0.1", "10.0.0.2", "http://h/p", "raid.01",
             "pv.01", "md0", "md1", "ext4", "btrfs", "lvm", "00:11:22:33:44:55", "0.0.0001", "0x5", "a=b", "biosboot", "99999", "09", "1.5",
             "sda=name", "10.0.0.1,10.0.0.2", "vfat", "LABEL=x", "UUID=y", "recommended", "hibernation", "Foo", "FOO", "é"]


@functools.lru_cache(None)
def file_literals(path):
    out, ints = [], []
    try:
        t = ast.parse(open(path).read())
    except (OSError, SyntaxError):
        return (), ()
    skip = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg in ("help", "description", "epilog", "prog"):
                    skip.update(id(x) for x in ast.walk(k.value))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
    for n in ast.walk(t):
        if isinstance(n, ast.Constant) and id(n) not in skip:
            if isinstance(n.value, str) and 0 < len(n.value) < 30 and " " not in n.value and "\n" not in n.value and "%" not in n.value:
                out.append(n.value)
            elif isinstance(n.value, int) and not isinstance(n.value, bool):
                ints.append(n.value)
    return tuple(dict.fromkeys(out)), tuple(dict.fromkeys(ints))


def pool_for(version, alias):
    out = list(BASE_POOL)
    files = []
    for spec in (False, True):
        h = handler(version, spec)
        c = h.commands.get(alias)
        if c is None:
            continue
        for k in type(c).__mro__:
            m = sys.modules.get(k.__module__)
            f = getattr(m, "__file__", None)
            if f and f not in files and "/commands/" in f:
                files.append(f)
    ints = set()
    for f in files:
        a, b = file_literals(f)
        out.extend(x for x in a if not x.startswith("-"))
        ints.update(b)
    for i in ints:
        if abs(i) < 10 ** 9:
            out.extend([str(i), str(i - 1), str(i + 1)])
    return list(dict.fromkeys(out))


def parsers_of(version, alias, spec=False):
    h = handler(version, spec)
    c = h.commands[alias]
    ops = []
    for k, v in vars(c).items():
        if isinstance(v, argparse.ArgumentParser):
            ops.append(v)
    g = getattr(type(c), "_getParser", None)
    if not ops and g is not None:
        try:
            op = g(c)
            if isinstance(op, argparse.ArgumentParser):
                ops.append(op)
        except Exception:          # noqa: B902
            pass
    return ops


@functools.lru_cache(None)
def corpus():
    import json
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus", "lines.json")) as f:
        return json.load(f)


class Gen:
    """command lines for one command: words drawn from its option table and literal pool"""
    def __init__(self, version, alias, rng):
        self.rng = rng
        self.pool = pool_for(version, alias)
        self.opts = []          # (spelling, nargs kind, action)
        self.npos = 0
        seen = set()
        self.req = []
        for spec in (True, False):
            for op in parsers_of(version, alias, spec):
                for a in op._actions:
                    for o in a.option_strings:
                        if (o, a.nargs == 0) not in seen:
                            seen.add((o, a.nargs == 0))
                            self.opts.append((o, a))
                            if a.required:
                                self.req.append((o, a))
        self.seeds = corpus().get(alias, [])
        if not self.seeds:
            c = handler(version, True).commands.get(alias)
            for n, o in handler(version, True).commands.items():
                if o is c and n in corpus():
                    self.seeds = corpus()[n]
        self.sticky = [self.value(None) for _ in range(4)]

    def value(self, a):
        r = self.rng
        if a is not None and a.choices and r.random() < 0.8:
            return str(r.choice(list(a.choices)))
        if a is not None:
            nm = getattr(a.type, "__name__", "")
            if nm == "int" and r.random() < 0.85:
                return str(r.choice([0, 1, 2, 5, 10, 100, 500, 4096, 65535, -1, 1000000]))
            if nm == "ksboolean" and r.random() < 0.8:
                return r.choice(["on", "off", "yes", "no", "true", "false", "1", "0", "TRUE", "maybe"])
        x = r.random()
        if x < 0.12:
            return r.choice(self.pool) + r.choice([",", ":", "=", ".", "/", "-", "@"]) + r.choice(self.pool)
        if x < 0.3 and getattr(self, "sticky", None):
            return r.choice(self.sticky)
        return r.choice(self.pool)

    def opt(self, o, a):
        if a.nargs == 0:
            return [o] if self.rng.random() < 0.97 else [o + "=" + self.value(a)]
        if a.nargs == "?" and self.rng.random() < 0.4:
            return [o]
        v = self.value(a)
        if self.rng.random() < 0.25 and o.startswith("--"):
            return [o, v]
        return [o + "=" + v] if o.startswith("--") else [o, v]

    def mutate(self):
        """a sample line with a few words changed, dropped, added or combined with generated options"""
        r = self.rng
        w = list(r.choice(self.seeds))
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            k = r.random()
            if k < 0.35 and w:
                i = r.randrange(len(w))
                o, eq, v = w[i].partition("=")
                w[i] = o + eq + self.value(None) if eq else w[i] if o.startswith("-") else self.value(None)
            elif k < 0.5 and w:
                w.pop(r.randrange(len(w)))
            elif k < 0.85 and self.opts:
                i = r.randrange(len(w) + 1)
                w[i:i] = self.opt(*r.choice(self.opts))
            elif k < 0.95:
                w.insert(r.randrange(len(w) + 1), self.value(None))
            else:
                w = w + list(r.choice(self.seeds))
        return w

    def line(self):
        r = self.rng
        if self.seeds and r.random() < 0.55:
            return self.mutate()
        out = []
        chunks = []
        n = min(len(self.opts), int(r.choice([0, 1, 1, 1, 2, 2, 3, 4, 6])))
        for o, a in (r.sample(self.opts, n) if n else []):
            chunks.append(self.opt(o, a))
            if r.random() < 0.06:
                chunks.append(self.opt(o, a))
        for o, a in self.req:
            if r.random() < 0.75:
                chunks.append(self.opt(o, a))
        if r.random() < 0.04:
            chunks.append([r.choice(["--bogus", "--bogus=1", "-x", "--" + (self.opts[0][0].strip("-")[:3] if self.opts else "a")])])
        for _ in range(r.choice([0, 0, 1, 1, 1, 2, 2, 3, 4])):
            chunks.append([self.value(None)])
        r.shuffle(chunks)
        for c in chunks:
            out.extend(c)
        return out

    def singles(self):
        """each option alone, with and without plain positionals: systematic part"""
        out = [[]]
        base = []
        for o, a in self.req:
            base.extend(self.opt(o, a))
        for o, a in self.opts:
            for v in (["sda1", "1", "eth0"] if a.nargs != 0 else [None]):
                w = [o] if v is None else [o + "=" + v] if o.startswith("--") else [o, v]
                out.append(w)
                out.append(w + ["foo"])
                out.append(base + w + ["/foo"])
        return out


# ---------------------------------------------------------------- counter-models -> command lines
def mval(model, z, default=None):
    v = model.eval(z, model_completion=True)
    import z3
    if z3.is_string_value(v):
        s = v.as_string()
        # z3 escapes
        import re
        return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return default


class Shape:
    """an abstract command line from a counter-model: options / words with suggested values"""
    def __init__(self):
        self.items = []         # (option or None, value or None, action, note)

    def argv(self, vals=None):
        out = []
        for i, (o, v, a) in enumerate(self.items):
            if vals is not None and i in vals:
                v = vals[i]
            if o is None:
                out.append(v)
            elif v is None:
                out.append(o)
            elif o.startswith("--"):
                out.append(o + "=" + v)
            else:
                out.extend([o, v])
        return out


def shape_from_model(model, info):
    sh = Shape()
    late = []
    for name, rec in info.opts.items():
        if "given" not in rec or not mval(model, rec["given"], False):
            continue
        a = rec["action"]
        if "seq" in rec:
            n = max(1, min(3, mval(model, rec["seq"].len, 1)))
            e = mval(model, rec["seq"].e, "x")
            its = [(name, e, a)] * n
        elif "raw" in rec and not ("hasval" in rec and not mval(model, rec["hasval"], True)):
            from .values import rope_z
            its = [(name, mval(model, rope_z(rec["raw"]), "x"), a)]
        else:
            its = [(name, None, a)]
        if "last" in rec and mval(model, rec["last"], False):
            late.extend(its)
        else:
            sh.items.extend(its)
    sh.items.extend(late)
    from .values import rope_z
    for rec in info.pos:
        a = rec["action"]
        if "n" in rec:
            n = max(0, min(5, mval(model, rec["n"], 0)))
            for i in range(n):
                if i < len(rec["heads"]):
                    sh.items.append((None, mval(model, rope_z(rec["heads"][i]), "x"), a))
                else:
                    sh.items.append((None, mval(model, rec["seq"].e, "x"), a))
        elif "hasval" in rec and not mval(model, rec["hasval"], True):
            pass
        elif "raw" in rec:
            sh.items.append((None, mval(model, rope_z(rec["raw"]), "x"), a))
    if info.nextra is not None:
        n = max(0, min(6, mval(model, info.nextra, 0)))
        for i in range(n):
            if i < len(info.extras):
                sh.items.append((None, mval(model, rope_z(info.extras[i]), "x"), None))
            else:
                sh.items.append((None, mval(model, info.tail.e, "x"), None))
    return sh


def seen_from_model(model):
    out = []
    for d in model:
        n = d.name()
        if n.startswith("seen:") and str(model[d]) == "True":
            out.append(n[5:])
    return tuple(sorted(out))


def variants(sh, gen, n, rng):
    """concrete lines close to the counter-model: values replaced by plausible ones"""
    yield sh.argv()
    idx = [i for i, (o, v, a) in enumerate(sh.items) if v is not None]
    if not idx:
        return
    for _ in range(n):
        vals = {}
        k = rng.choice([1, 1, 2, len(idx)])
        for i in (rng.sample(idx, min(k, len(idx)))):
            vals[i] = gen.value(sh.items[i][2])
        for i in idx:
            if i not in vals and rng.random() < 0.6:
                vals[i] = gen.value(sh.items[i][2])
        # equal values sometimes
        if len(idx) > 1 and rng.random() < 0.2:
            x = rng.choice(idx)
            y = rng.choice(idx)
            vals[x] = vals.get(y, sh.items[y][1])
        yield sh.argv(vals)
