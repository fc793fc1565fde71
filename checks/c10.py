"""C10: written sections (scripts, package selection, passed-through sections) read back."""
import os
import random
import warnings

import z3

from pyvc import cmds, fn, models, render, runner
from pyvc.compare import Ob
from pyvc.values import *          # noqa: F401,F403
from ksspec import sections as S
from ksspec import pkgspec as PS
from ksspec.version import versionMap

ONE_LINE = Dom(no="\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029", nonempty=True, name="one line")


def P():
    import pykickstart.parser as R
    return R


def strz(v):
    return rope_z(as_rope(v))


def sections(version):
    """a new handler and the sections of a new parser for it"""
    h = cmds.real_handler(version)
    p = P().KickstartParser(h)
    return h, {k: p.getSection(k) for k in list(S.KINDS) + ["%packages", "%addon", "%anaconda"]}


def new_ip():
    from pykickstart.options import KSOptionParser
    ip = cmds.new_ip()
    ip.models[KSOptionParser] = lambda ip, st, args, kw: [(st, KSOptionParser(*args, **kw))]
    for f in ("add_argument", "remove_argument"):
        ip.models[getattr(KSOptionParser, f)] = lambda ip, st, args, kw, f=f: [(st, getattr(args[0], f)(*args[1:], **kw))]
    return ip


def sym_args(ip):
    seq = ip.seq("args", ANY)
    ip.sym_items = (Star(True, seq, seq.val),)
    ip.bad_grammar = z3.Bool("badgrammar")


def choice(name, a, b):
    return mk_union([(z3.Bool(name), a), (Not(z3.Bool(name)), b)])


def attrs_of(ip, st, ref):
    h = ip.get(st, ref)
    return h.d if isinstance(h, HDict) else h.attrs


SCRIPT = ("interp", "log", "errorOnFail", "chroot", "type", "lineno")
PACKAGES = ("seen", "excludeDocs", "handleMissing", "default", "instLangs", "addBase", "multiLib", "nocore", "timeout", "retries", "excludeWeakdeps", "handleBroken")


def reset_info(ip):
    from pyvc.argp import ArgInfo
    ip.arginfo = ArgInfo()


# ------------------------------------------------------------------ headers
def p_script_header(rec, version):
    failed = []
    for kind in S.KINDS:
        ip = new_ip()
        st = fn.start(ip)
        h, secs = sections(version)
        sec = ip.lift(secs[kind])
        sym_args(ip)
        L = SInt(z3.Int("lineno"))
        spec = ip.new(st, HInst(S.Script, {}))
        old = ip.get(st, ip.get(st, sec).attrs["_script"])
        ip.base[ip.get(st, sec).attrs["_script"].id] = HDict(dict(
            old.d, interp=sym_str("old interp"), log=sym_str("old log"), errorOnFail=SBool(z3.Bool("old err")), chroot=SBool(z3.Bool("old chroot"))))
        op = ip.lift(S.script_parser(kind))
        fn.freeze(ip, st)
        a = ip.new(st, HList((Item(True, kind),) + tuple(ip.sym_items)))
        b = ip.new(st, HList(ip.sym_items))
        real = fn.call(ip, st, type(secs[kind]).handleHeader, [sec, L, a])
        reset_info(ip)
        sp = fn.call(ip, st, S.script_header, [spec, op, kind, S.KINDS[kind], b, L])

        def extra(s, va, vb):
            x = attrs_of(ip, s, ip.get(s, sec).attrs["_script"])
            y = attrs_of(ip, s, spec)
            for k in SCRIPT:
                yield "%s is set" % k, ip.eq_abs(s, x.get(k, ABSENT), y[k])
            body = ip.get(s, x["body"])
            yield "the body is empty", isinstance(body, HList) and not body.items
            yield "the section was seen", ip.eq(s, ip.get(s, sec).attrs.get("timesSeen", ABSENT), 1)
        obs = fn.relate(ip, ([(s, None) for s, _ in real[0]], real[1]), ([(s, None) for s, _ in sp[0]], sp[1]), extra)
        obs += bad_lines(ip, real[1], L)
        failed += fn.settle(ip, obs, rec, "%s header, version %s" % (kind, version))
    return failed


def bad_lines(ip, rs, L):
    for g, s, k, h in fn.exc_alts(ip, rs):
        if k.__name__ == "KickstartParseError" and h is not None:
            yield Ob("the error carries the line number", And(g, Not(ip.eq(s, h.attrs.get("lineno"), L))))


def havoc_packages(name, spec=None):
    """an arbitrary package selection's header attributes"""
    from pykickstart import constants as K
    at = {k: SBool(z3.Bool(name + k)) for k in ("seen", "excludeDocs", "default", "addBase", "multiLib", "nocore", "excludeWeakdeps")}
    at["handleMissing"] = choice(name + "ignore missing", K.KS_MISSING_IGNORE, K.KS_MISSING_PROMPT)
    at["handleBroken"] = choice(name + "ignore broken", K.KS_BROKEN_IGNORE, K.KS_BROKEN_REPORT)
    at["instLangs"] = choice(name + "langs given", sym_str(name + "langs", Dom(no=ONE_LINE.no)), None)
    for k in ("timeout", "retries"):
        at[k] = choice(name + k + " given", SInt(z3.Int(name + k)), None)
    return at


def p_packages_header(rec, version):
    from pykickstart import constants as K
    ip = new_ip()
    st = fn.start(ip)
    h, secs = sections(version)
    sec = ip.lift(secs["%packages"])
    pk = ip.lift(h.packages)
    at = havoc_packages("old ")
    hp = ip.get(st, pk)
    for k, v in at.items():
        hp = hp.set(k, v)
    ip.base[pk.id] = hp
    sym_args(ip)
    L = SInt(z3.Int("lineno"))
    spec = ip.new(st, HInst(S.Selection, dict(at)))
    op = ip.lift(S.packages_parser(version))
    fn.freeze(ip, st)
    a = ip.new(st, HList((Item(True, "%packages"),) + tuple(ip.sym_items)))
    b = ip.new(st, HList(ip.sym_items))
    real = fn.call(ip, st, type(secs["%packages"]).handleHeader, [sec, L, a])
    reset_info(ip)
    sp = fn.call(ip, st, S.packages_header, [spec, op, version, b, L, K.KS_MISSING_IGNORE, K.KS_MISSING_PROMPT, K.KS_BROKEN_IGNORE, K.KS_BROKEN_REPORT])

    def extra(s, va, vb):
        x, y = attrs_of(ip, s, pk), attrs_of(ip, s, spec)
        for k in PACKAGES:
            yield "%s is set" % k, ip.eq_abs(s, x.get(k, ABSENT), y[k])
        for k in ("packageList", "excludedList", "groupList", "excludedGroupList", "environment"):
            yield "%s is unchanged" % k, ip.eq_abs(s, x.get(k, ABSENT), hp.attrs[k])
    obs = fn.relate(ip, ([(s, None) for s, _ in real[0]], real[1]), ([(s, None) for s, _ in sp[0]], sp[1]), extra)
    obs += bad_lines(ip, real[1], L)
    return fn.settle(ip, obs, rec, "%%packages header, version %s" % version)


# ------------------------------------------------------------------ the script made from a section
def p_finalize(rec, kind):
    failed = []
    for version in (versionMap["FC3"], versionMap["DEVEL"]):
        ip = new_ip()
        st = fn.start(ip)
        h, secs = sections(version)
        sec, hd = ip.lift(secs[kind]), ip.lift(h)
        body = ip.seq("lines", ANY)
        old = ip.seq("scripts before", ANY)
        lines = ip.new(st, HList((Star(True, body, body.val),)))
        at = {"interp": sym_str("interp", ONE_LINE), "log": choice("log given", sym_str("log", Dom(no=ONE_LINE.no)), None), "errorOnFail": SBool(z3.Bool("err")),
              "chroot": SBool(z3.Bool("chroot")), "type": S.KINDS[kind], "lineno": SInt(z3.Int("lineno")), "body": lines}
        sref = ip.get(st, sec).attrs["_script"]
        ip.base[sref.id] = HDict(dict(ip.get(st, sref).d, **at))
        ip.base[ip.get(st, hd).attrs["scripts"].id] = HList((Star(True, old, old.val),))
        fn.freeze(ip, st)
        # a line goes to the end of the body
        line = sym_str("line")
        nr, rr = fn.call(ip, st, type(secs[kind]).handleLine, [sec, line])
        obs = [Ob("handleLine: no exception", g) for g, s, k, x in fn.exc_alts(ip, rr)]
        for s, _ in nr:
            b = ip.get(s, attrs_of(ip, s, ip.get(s, sec).attrs["_script"])["body"])
            good = isinstance(b, HList) and len(b.items) == 2 and isinstance(b.items[0], Star) and b.items[0].seq is body and isinstance(b.items[1], Item)
            obs.append(Ob("handleLine: the line is added at the end", And(*s.pc, Not(And(good, b.items[1].g if good else False, ip.eq(s, b.items[1].v, line) if good else False)))))
        nr, rr = fn.call(ip, st, type(secs[kind]).finalize, [sec])
        obs += [Ob("no exception", g) for g, s, k, x in fn.exc_alts(ip, rr)]
        (s0, text), = fn.call(ip, st, S.joined, [lines])[0]
        (s1, empty), = fn.call(ip, st, S.blank, [lines])[0]
        for s, _ in nr:
            got = ip.get(s, ip.get(s, hd).attrs["scripts"])
            if not isinstance(got, HList) or not got.items or not isinstance(got.items[0], Star) or got.items[0].seq is not old:
                raise Unsupported("the scripts before")
            new = got.items[1:]
            pc = list(s.pc)
            if len(new) > 1 or not all(isinstance(i, Item) for i in new):
                raise Unsupported("the scripts after")
            made = new[0].g if new else False
            obs.append(Ob("a blank section makes no script, any other one makes one", And(*pc, Not(Or(And(made, Not(ip.truth(s, empty))), And(Not(made), ip.truth(s, empty)))))))
            for i in new:
                for g, r in (i.v.alts if isinstance(i.v, SUnion) else ((True, i.v),)):
                    x = attrs_of(ip, s, r)
                    for k, v in (("script", text), ("interp", at["interp"]), ("logfile", at["log"]), ("errorOnFail", at["errorOnFail"]), ("inChroot", at["chroot"]),
                                 ("type", at["type"]), ("lineno", at["lineno"])):
                        obs.append(Ob("script: %s" % k, And(*pc, i.g, g, Not(ip.eq_abs(s, x.get(k, ABSENT), v)))))
        failed += fn.settle(ip, obs, rec, "%s section to script, version %s" % (kind, version))
    return failed


# ------------------------------------------------------------------ writing and reading
def head_and_rest(rope):
    """(header line, rest) of a written section: the header is the first line that is not empty"""
    parts = list(as_rope(rope).parts)
    while parts and isinstance(parts[0], str) and parts[0].startswith("\n"):
        parts[0] = parts[0][1:]
        if not parts[0]:
            parts = parts[1:]
    head = []
    for i, p in enumerate(parts):
        if isinstance(p, str) and "\n" in p:
            a, _, b = p.partition("\n")
            return mk_str(head + [a]), mk_str([b] + parts[i + 1:])
        if isinstance(p, Atom) and p.fn != "shlex.quote" and "\n" not in p.dom.no:
            raise Unsupported("line end inside the header")
        if isinstance(p, Atom) and p.fn == "shlex.quote" and any(isinstance(q, Atom) and "\n" not in q.dom.no for q in as_rope(p.arg).parts):
            raise Unsupported("line end inside the header")
        if not isinstance(p, (str, Atom, IntS)):
            raise Unsupported("written header: %r" % (p,))
        head.append(p)
    raise Unsupported("the header has no end")


def p_script(rec, kind, version):
    ip = new_ip()
    st = fn.start(ip)
    h, secs = sections(version)
    post = kind == "%post"
    at = {"interp": sym_str("interp", ONE_LINE), "logfile": choice("log given", sym_str("log", Dom(no=ONE_LINE.no)), None), "errorOnFail": SBool(z3.Bool("err")),
          "inChroot": SBool(z3.Bool("chroot")) if post else False, "type": S.KINDS[kind], "lineno": 1, "script": sym_str("script")}
    sc = made_script(ip, h, secs[kind])
    hs = ip.get(st, sc)
    for k, v in at.items():
        hs = hs.set(k, v)
    ip.base[sc.id] = hs
    sec = ip.lift(sections(version)[1][kind])
    fn.freeze(ip, st)
    nr, rr = fn.call(ip, st, P().Script.__str__, [sc])
    obs = [Ob("can be written", g) for g, s, k, x in fn.exc_alts(ip, rr)]
    end = "%end\n" if S.ends_with_marker(version) else ""
    for s, v in [(s.fork(g), x) for s, v in nr for g, x in fn.expand(as_rope(v))]:
        if s.dead() or not ip.feasible(s.pc):
            continue
        head, rest = head_and_rest(v)
        (s9, body), = fn.call(ip, s, S.with_end, [at["script"]])[0]
        obs.append(Ob("the body and the end marker", And(*s.pc, Not(ip.eq(s, rest, mk_str(list(as_rope(body).parts) + [end]))))))
        ws = render.words(ip, head)
        obs += reread(ip, s, sec, type(secs[kind]), kind, ws, lambda s2: [
            (k, ip.eq_abs(s2, attrs_of(ip, s2, ip.get(s2, sec).attrs["_script"])[k2], at[k])) for k, k2 in (
                ("interp", "interp"), ("logfile", "log"), ("errorOnFail", "errorOnFail"), ("inChroot", "chroot"), ("type", "type"))])
    return fn.settle(ip, obs, rec, "%s written and read, version %s" % (kind, version))


def made_script(ip, h, sec):
    """a script made by the real section"""
    sec.handleHeader(1, [sec.sectionOpen])
    sec.handleLine("x\n")
    sec.finalize()
    return ip.lift(h.scripts[-1])


def reread(ip, s, sec, cls, kind, ws, want):
    """the header words given to the real section again"""
    obs = []
    ok = bool(ws) and isinstance(ws[0], Item) and ws[0].g is True and as_rope(ws[0].v).parts == (kind,)
    obs.append(Ob("the header opens the section", False if ok else And(*s.pc)))
    if not ok:
        return obs
    reset_info(ip)
    s = s.fork()
    args = ip.new(s, HList(tuple(ws)))
    ns, rs = fn.call(ip, s, cls.handleHeader, [sec, 1, args])
    obs.append(Ob("the written header is accepted", Or(*[And(*x.pc) for x, _ in rs])))
    for s2, _ in ns:
        for k, g in want(s2):
            obs.append(Ob("%s is read back" % k, And(*s2.pc, Not(g))))
    return obs


def p_packages(rec, version):
    ip = new_ip()
    st = fn.start(ip)
    h, secs = sections(version)
    pk = ip.lift(h.packages)
    at = havoc_packages("")
    at["seen"] = True
    # what no header of the version sets keeps its default
    fresh = vars(P().Packages())
    gates = {"default": S.F7, "instLangs": S.F9, "multiLib": S.F18, "nocore": S.F21, "timeout": S.RHEL7, "retries": S.RHEL7, "excludeWeakdeps": S.F24, "handleBroken": S.F32}
    for k, v in gates.items():
        if version < v:
            at[k] = fresh[k]
    if not S.RHEL6 <= version < S.F22:
        at["addBase"] = True
    hp = ip.get(st, pk)
    for k, v in at.items():
        hp = hp.set(k, v)
    ip.base[pk.id] = hp
    h2, secs2 = sections(version)
    sec, pk2 = ip.lift(secs2["%packages"]), ip.lift(h2.packages)
    ip.models[P().Packages._processPackagesContent] = lambda ip, s, a, kw: [(s, sym_str("content"))]
    fn.freeze(ip, st)
    # a default selection has no --nobase or --nocore (known finding: headers of several sections)
    st.assume(Not(And(ip.truth(st, at["default"]), Or(Not(ip.truth(st, at["addBase"])), ip.truth(st, at["nocore"])))))
    nr, rr = fn.call(ip, st, P().Packages.__str__, [pk])
    obs = [Ob("can be written", g) for g, s, k, x in fn.exc_alts(ip, rr)]
    end = "%end\n" if S.ends_with_marker(version) else ""
    for s, v in nr:
        for g, text in (v.alts if isinstance(v, SUnion) else ((True, v),)):
            s1 = s.fork(g)
            if s1.dead() or not ip.feasible(s1.pc):
                continue
            head, rest = cho_head(text)
            obs.append(Ob("the content and the end marker", And(*s1.pc, Not(ip.eq(s1, rest, mk_str([Atom(z3.String("content"), ANY), "\n", end]))))))
            for g2, _, ws in render.line_words(ip, True, head):
                s2 = s1.fork(g2)
                if s2.dead():
                    continue
                obs += reread(ip, s2, sec, type(secs2["%packages"]), "%packages", ws, lambda s2: [
                    (k, ip.eq_abs(s2, attrs_of(ip, s2, pk2)[k], at[k])) for k in PACKAGES])
    return fn.settle(ip, obs, rec, "%%packages written and read, version %s" % version)


def cho_head(rope):
    """like head_and_rest; choices stay in the header"""
    parts = list(as_rope(rope).parts)
    while parts and isinstance(parts[0], str) and parts[0].startswith("\n"):
        parts[0] = parts[0][1:]
        if not parts[0]:
            parts = parts[1:]
    for i, p in enumerate(parts):
        if isinstance(p, str) and "\n" in p:
            a, _, b = p.partition("\n")
            for q in parts[:i]:
                if line_end_in(q):
                    raise Unsupported("line end inside the header")
            return mk_str(parts[:i] + [a]), mk_str([b] + parts[i + 1:])
    raise Unsupported("the header has no end")


def line_end_in(p):
    if isinstance(p, str):
        return "\n" in p
    if isinstance(p, Atom):
        if p.fn == "shlex.quote":
            return any(line_end_in(q) for q in as_rope(p.arg).parts)
        return "\n" not in p.dom.no
    if isinstance(p, Cho):
        return any(line_end_in(q) for _, x in p.alts for q in as_rope(x).parts)
    return not isinstance(p, IntS)


# ------------------------------------------------------------------ the content of the packages section
def p_content(rec):
    """the written lines are one per selected or excluded name, and each is read as what it was"""
    from pykickstart import constants as K
    ip = new_ip()
    st = fn.start(ip)
    G = P().Group
    one = Dom(no="\n#", nonempty=True)
    Pk, Xk, Gs, Es = (ip.seq(n, one) for n in ("selected packages", "excluded packages", "selected groups", "excluded groups"))
    inc = z3.Function("how much of group", z3.StringSort(), z3.IntSort())
    lst = lambda q, v=None: ip.new(st, HList((Star(True, q, q.val if v is None else v),)))      # noqa: E731
    grp = ip.new(st, HInst(G, {"name": Gs.val, "include": SInt(inc(Gs.e))}))
    egr = ip.new(st, HInst(G, {"name": Es.val, "include": K.GROUP_DEFAULT}))
    env = choice("an environment", sym_str("environment", one), None)
    default = SBool(z3.Bool("default"))
    pk = ip.new(st, HInst(P().Packages, {"packageList": lst(Pk), "excludedList": lst(Xk), "groupList": lst(Gs, grp), "excludedGroupList": lst(Es, egr), "environment": env,
                                        "default": default}))
    # names as the section's lines give them: no blanks at the ends, and the start does not make them something else
    for q in (Pk, Xk, Gs, Es):
        ip.axioms.append(z3.And(no_blank_ends(q.e), q.e != z3.StringVal("")))
    envz = z3.String("environment")
    ip.axioms.append(no_blank_ends(envz, first=False))
    for z in (Pk.e, Xk.e, Gs.e, Es.e, envz):            # so stripping changes nothing
        for f in ("strip", "rstrip-tail", "rstrip", "lstrip"):
            if z is not envz or f.startswith("rs"):
                ip.axioms.append(models.zfun(f, z3.StringSort(), z3.StringSort())(z) == z)
    for z, bad in ((Pk.e, "@-"), (Xk.e, "@"), (Gs.e, "^")):
        for c in bad:
            ip.axioms.append(z3.Not(z3.PrefixOf(z3.StringVal(c), z)))
    # the order of the lines does not matter: no name is both selected and excluded
    ip.models[sorted] = lambda ip, s, args, kw: [(s2, ip.new(s2, HList(tuple(items)))) for s1, items in models.iterate(ip, s, args[0]) for s2 in [s1.fork()]]
    ip.split_words = True
    fn.freeze(ip, st)
    nr, rr = fn.call(ip, st, P().Packages._processPackagesContent, [pk])
    obs = [Ob("can be written", g) for g, s, k, x in fn.exc_alts(ip, rr)]
    wants = {id(Pk): "package", id(Xk): "not package", id(Gs): "group", id(Es): "not group"}
    for s, v in nr:
        for g0, text in (v.alts if isinstance(v, SUnion) else ((True, v),)):
            s0 = s.fork(g0)
            seen = []
            envg = False
            for p in as_rope(text).parts:
                for g, parts in (((a, as_rope(x).parts) for a, x in p.alts) if isinstance(p, Cho) else ((True, (p,)),)):
                    if not parts:
                        continue
                    if len(parts) == 1 and isinstance(parts[0], JoinP) and parts[0].sep == "":
                        for i in parts[0].items:
                            if not isinstance(i, Star) or i.filt is not True or id(i.seq) not in wants:
                                raise Unsupported("written lines")
                            if i.g is not True or g is not True:
                                obs.append(Ob("every name is written", And(*s0.pc, ip.exists(i.seq, True), Not(And(i.g, g)))))
                            seen.append(id(i.seq))
                            obs += line_reads(ip, s0.fork(g), i.elem, wants[id(i.seq)], i.seq, inc, K)
                    elif strz(mk_str(list(parts))).sexpr().find("environment") >= 0:
                        envg = Or(envg, g)
                        obs += line_reads(ip, s0.fork(g), mk_str(list(parts)), "environment", env, inc, K)
                    else:
                        raise Unsupported("written content")
            obs.append(Ob("each list is written once", And(*s0.pc) if sorted(seen) != sorted(wants) else False))
            need = And(z3.Bool("an environment"), Not(ip.truth(st, default)))
            obs.append(Ob("the environment is written unless the default selection replaces it", And(*s0.pc, bz(need) != bz(envg))))
    return fn.settle(ip, obs, rec, "content of the packages section")


def no_blank_ends(z, first=True):
    cs = [c for c in WS]
    out = [z3.Not(z3.SuffixOf(z3.StringVal(c), z)) for c in cs]
    if first:
        out += [z3.Not(z3.PrefixOf(z3.StringVal(c), z)) for c in cs]
    return z3.And(*out)


def line_reads(ip, s, line, kind, who, inc, K):
    """the specification's reading of the written line"""
    obs = []
    for g, ln in fn.expand(as_rope(line)):
        s1 = s.fork(g)
        if s1.dead() or not ip.feasible(s1.pc):
            continue
        parts = as_rope(ln).parts
        ok = bool(parts) and isinstance(parts[-1], str) and parts[-1].endswith("\n") and not any(line_end_in(p) for p in parts[:-1]) and "\n" not in parts[-1][:-1]
        obs.append(Ob("%s: one line" % kind, False if ok else And(*s1.pc)))
        if not ok:
            continue
        text = mk_str(list(parts[:-1]) + [parts[-1][:-1]])
        suffix = ""
        name = who.val if isinstance(who, Seq) else [v for g, v in who.alts if v is not None][0]
        if kind == "group":
            for inc_v, sf in ((K.GROUP_REQUIRED, " --nodefaults"), (K.GROUP_ALL, " --optional"), (K.GROUP_DEFAULT, "")):
                s2 = s1.fork(inc(who.e) == inc_v)
                if ip.feasible(s2.pc):
                    want = mk_str(["@"] + list(as_rope(name).parts) + [sf])
                    obs.append(Ob("group: name and options", And(*s2.pc, Not(ip.eq(s2, text, want)))))
            continue
        if kind == "not group":             # blanks inside are put in order: the name is in order already
            stripped = no_blank_ends(strz(text))
            obs.append(Ob("not group: read as what it was", And(*s1.pc, Not(And(ip.eq(s1, text, mk_str(["-@"] + list(as_rope(name).parts))), stripped)))))
            continue
        ns, rs = fn.call(ip, s1, PS.classify, [text])
        obs.append(Ob("%s: the line is read" % kind, Or(*[And(*x.pc) for x, _ in rs])))
        for s2, kv in ns:
            for g2, kv1 in (kv.alts if isinstance(kv, SUnion) else ((True, kv),)):
                pc = list(s2.pc) + [g2]
                obs.append(Ob("%s: read as what it was" % kind, And(*pc, Not(And(ip.eq(s2, kv1[0], kind), ip.eq(s2, kv1[1], name))))))
    return obs


def p_group(rec):
    """a written group line names the group and its options again"""
    from pykickstart import constants as K
    from pykickstart.options import KSOptionParser
    from pykickstart.version import DEVEL
    failed = []
    for include, word in ((K.GROUP_REQUIRED, "--nodefaults"), (K.GROUP_ALL, "--optional"), (K.GROUP_DEFAULT, None)):
        ip = new_ip()
        st = fn.start(ip)
        words = ip.seq("words of the name", Dom(no=PLAIN.no, nonempty=True, nodash=True))
        name = mk_str([JoinP(" ", (Star(True, words, words.val),))])
        Gs = ip.seq("selected groups", ANY)
        G = P().Group
        gl = ip.new(st, HList((Star(True, Gs, ip.new(st, HInst(G, {"name": Gs.val, "include": 1}))),)))
        pk = ip.new(st, HInst(P().Packages, {"groupList": gl, "excludedGroupList": ip.new(st, HList(()))}))
        text = sym_str("text", ANY)
        items = (Star(True, words, words.val),) + ((Item(True, word),) if word else ())
        ip.split_model = lambda ip, s, v: [(s1, ip.new(s1, HList(items))) for s1 in [s.fork()]] if v is text else None
        fn.freeze(ip, st)
        nr, rr = fn.call(ip, st, P().Packages._processGroup, [pk, text])
        obs = [Ob("accepted", g) for g, s, k, x in fn.exc_alts(ip, rr)]
        for s, _ in nr:
            new = ip.get(s, ip.get(s, pk).attrs["groupList"]).items[1:]
            for i in new:
                for g, r in (i.v.alts if isinstance(i.v, SUnion) else ((True, i.v),)):
                    at = ip.get(s, r).attrs
                    obs.append(Ob("name", And(*s.pc, i.g, g, Not(ip.eq(s, at["name"], name)))))
                    obs.append(Ob("options", And(*s.pc, i.g, g, Not(ip.eq(s, at["include"], include)))))
            obs.append(Ob("a group", And(*s.pc) if len(new) != 1 else False))
        failed += fn.settle(ip, obs, rec, "group line with %s" % (word or "no option"))
    return failed


# ------------------------------------------------------------------ passed-through sections
def p_null(rec, shape):
    ip = new_ip()
    st = fn.start(ip)
    h, secs = sections(versionMap["DEVEL"])
    sec, hd = ip.lift(secs["%addon"]), ip.lift(h)
    body, old = ip.seq("lines", ANY), ip.seq("sections before", ANY)
    if shape == "any number":
        seq = ip.seq("args", ONE_LINE)
        args = (Star(True, seq, seq.val),)
    else:
        args = tuple(Item(True, sym_str("arg%d" % i, Dom(no=ONE_LINE.no))) for i in range(shape))
    args = (Item(True, "%addon"),) + args
    lines = ip.new(st, HList((Star(True, body, body.val),)))
    ip.base[ip.get(st, hd).attrs["_null_section_strings"].id] = HList((Star(True, old, old.val),))
    # an error may have cut off a section before: lines of it may still be there
    left = ip.get(st, sec).attrs.get("_body")
    if isinstance(left, Ref) and isinstance(ip.get(st, left), HList):
        cut = ip.seq("lines of a section cut off", ANY)
        ip.base[left.id] = HList((Star(True, cut, cut.val),))
    fn.freeze(ip, st)
    cls = type(secs["%addon"])
    s0 = st.fork()
    a = ip.new(s0, HList(args))
    obs = []
    nr, rr = fn.call(ip, s0, cls.handleHeader, [sec, 1, a])
    obs += [Ob("header: no exception", g) for g, s, k, x in fn.exc_alts(ip, rr)]
    for s, _ in nr:
        b = ip.get(s, ip.get(s, sec).attrs["_body"])
        obs.append(Ob("the body is empty at first", And(*s.pc) if not isinstance(b, HList) or b.items else False))
        # any number of lines later
        line = sym_str("line")
        s = s.fork()
        s.heap[sec.id] = ip.get(s, sec).set("_body", lines)
        for s1, _ in fn.call(ip, s, cls.handleLine, [sec, line])[0]:
            b = ip.get(s1, ip.get(s1, sec).attrs["_body"])
            good = isinstance(b, HList) and len(b.items) == 2 and isinstance(b.items[0], Star) and b.items[0].seq is body and isinstance(b.items[1], Item)
            obs.append(Ob("the line is added at the end", And(*s1.pc, Not(And(good, ip.eq(s1, b.items[1].v, line) if good else False)))))
        ns, rs = fn.call(ip, s, cls.finalize, [sec])
        obs += [Ob("end: no exception", g) for g, x, k, y in fn.exc_alts(ip, rs)]
        wants = fn.call(ip, s, S.passed_body, [lines])[0]
        for s1, _ in ns:
            got = ip.get(s1, ip.get(s1, hd).attrs["_null_section_strings"])
            if not isinstance(got, HList) or len(got.items) != 2 or not isinstance(got.items[1], Item) or got.items[1].g is not True or not isinstance(got.items[0], Star):
                raise Unsupported("the passed-through sections")
            obs.append(Ob("those before are kept", And(*s1.pc) if got.items[0].seq is not old else False))
            for g, v in fn.expand(as_rope(got.items[1].v)):
                s2 = s1.fork(g)
                if s2.dead() or not ip.feasible(s2.pc):
                    continue
                head, rest = null_head(v)
                for s3, body in wants:
                    for gb, b in fn.expand(as_rope(body)):
                        obs.append(Ob("body and end marker", And(*s2.pc, *s3.pc, gb, Not(ip.eq(s2, rest, mk_str(list(as_rope(b).parts) + ["%end\n"]))))))
                ws = render.words(ip, head)
                obs.append(Ob("the words of the header", And(*s2.pc, Not(same_words(ip, s2, ws, args)))))
    return fn.settle(ip, obs, rec, "passed-through section, %s arguments" % shape)


def null_head(rope):
    parts = list(as_rope(rope).parts)
    for i, p in enumerate(parts):
        if isinstance(p, str) and "\n" in p:
            a, _, b = p.partition("\n")
            return mk_str(parts[:i] + [a]), mk_str([b] + parts[i + 1:])
        if isinstance(p, Atom) and p.fn != "shlex.quote":
            raise Unsupported("written header")
    raise Unsupported("the header has no end")


def same_words(ip, s, a, b):
    out = []
    if len(a) < len(b):
        # nothing is written for a list without elements
        out = [Not(y.nonempty()) for y in b if isinstance(y, Star)]
        b = [y for y in b if not isinstance(y, Star)]
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, Item) and isinstance(y, Item):
            out += [x.g, ip.eq(s, x.v, y.v)]
        elif isinstance(x, Star) and isinstance(y, Star) and x.seq is y.seq and x.filt is True:
            out += [x.g, ip.eq(s, x.elem, y.elem)]
        else:
            return False
    return And(*out)


# ------------------------------------------------------------------ the text of a handler
def p_handler(rec, version):
    from pykickstart.base import BaseHandler, KickstartHandler
    ip = new_ip()
    st = fn.start(ip)
    h, _ = sections(version)
    hd = ip.lift(h)
    scr, nul = ip.seq("scripts", ANY), ip.seq("passed through", ANY)
    script = ip.new(st, HInst(P().Script, {"script": scr.val}))
    at = ip.get(st, hd).attrs
    ip.base[at["scripts"].id] = HList((Star(True, scr, script),))
    ip.base[at["_null_section_strings"].id] = HList((Star(True, nul, nul.val),))
    ip.models[P().Script.__str__] = lambda ip, s, a, kw: [(s, ip.get(s, a[0]).attrs["script"])]
    ip.models[P().Packages.__str__] = lambda ip, s, a, kw: [(s, sym_str("packages"))]
    ip.models[KickstartHandler.__str__] = lambda ip, s, a, kw: [(s, sym_str("commands"))]
    texts = ip.new(st, HList((Star(True, scr, scr.val),)))
    nulls = ip.new(st, HList((Star(True, nul, nul.val),)))
    fn.freeze(ip, st)
    nr, rr = fn.call(ip, st, BaseHandler.__str__, [hd])
    obs = [Ob("can be written", g) for g, s, k, x in fn.exc_alts(ip, rr)]
    (s9, want), = fn.call(ip, st, S.joined_text, [sym_str("commands"), texts, nulls, sym_str("packages")])[0]
    for s, v in nr:
        for g, text in (v.alts if isinstance(v, SUnion) else ((True, v),)):
            parts = list(as_rope(text).parts)
            k = [i for i, p in enumerate(parts) if isinstance(p, Atom) and strz(SStr((p,))).sexpr() == "commands"]
            if len(k) != 1:
                raise Unsupported("shape of the written text")
            obs.append(Ob("commands, scripts in order, passed-through sections in order, packages", And(*s.pc, g, Not(ip.eq(s, mk_str(parts[k[0]:]), want)))))
    return fn.settle(ip, obs, rec, "text of a handler, version %s" % version)


# ------------------------------------------------------------------ native search
BODY = ["echo hello", "", "   ", "# a comment", "  indented # more", "%foo bar", "%%", "% pre", "'unbalanced", "\"quoted\" text", "back\\slash", "tab\there", "trailing   ", "é ü 漢字",
        "cat <<EOF", "EOF", "x %end", "#!/bin/bash", "%endfoo", "%prefix", "part / --size=1", "ping 8.8.8.8 | tee \"/tmp/x y\"", "%addons", "\u2028x", "a\x0cb"]
VALUES = ["/usr/bin/python", "/tmp/a b", "a'b", "a\"b", "a#b", "$HOME/x", "x=y", "a\\b", "/tmp/é", "-x", "", "a;b", "*", "/bin/sh", "/bin", "/", "/bin/sh5", "sh"]
PKG = ["a", "b", "c", "-a", "-b", "-d*", "*", "@g", "@h h", "-@g", "-@h h", "-@^e", "@g --nodefaults", "@h --optional", "@^e", "@^f f", "-@^f f", "x.i686", "a b", "  a", "-c  # why", "%x", "é",
       "@m:1/p", "--a", "@g --other", "- @a"]
SECT = ["%addon", "%anaconda"]
ARGS = ["org_x", "--enable", "a b", "it's", "x#y", "é", "", "a\\b", "--opt=a b", "\"", "$x"]


def q(w):
    from shlex import quote
    return quote(w)


def opt(rng, o, values):
    v = rng.choice(values)
    return o + "=" + q(v) if rng.random() < .6 or v.startswith("-") else o + " " + q(v)


def make_text(rng, version):
    """a random text of sections that the version accepts, mostly"""
    out, unknown = [], False
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        kind = rng.choice(list(S.KINDS) + ["%packages"] * 4 + SECT + (["%unknown"] if S.ends_with_marker(version) else []))
        head = [kind]
        if kind in S.KINDS:
            if rng.random() < .5:
                head.append(opt(rng, "--interpreter", VALUES))
            if rng.random() < .4:
                head.append(opt(rng, rng.choice(["--log", "--logfile"]), VALUES))
            if rng.random() < .3:
                head.append("--erroronfail")
            if kind == "%post" and rng.random() < .5:
                head.append("--nochroot")
            body = [rng.choice(BODY) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
        elif kind == "%packages":
            names = [o for a in S.packages_parser(version)._actions for o in a.option_strings]
            for o in rng.sample(names, min(len(names), rng.choice([0, 0, 1, 2, 3, len(names)]))):
                if o in ("--instLangs", "--inst-langs"):
                    head.append(opt(rng, o, ["en_US", "cs_CZ,de_DE", "", "a b", "x'y"]))
                elif o in ("--timeout", "--retries"):
                    head.append(opt(rng, o, ["0", "5", "30", "-1"]))
                else:
                    head.append(o)
            body = [rng.choice(PKG) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
        else:
            unknown = unknown or kind == "%unknown"
            head += [q(rng.choice(ARGS)) for _ in range(rng.choice([0, 1, 2, 3]))]
            body = [rng.choice(BODY) for _ in range(rng.choice([0, 1, 2, 3]))]
        text = " ".join(head) + "\n" + "".join(x + "\n" for x in body)
        if S.ends_with_marker(version) or kind not in S.KINDS and kind != "%packages" or rng.random() < .3:
            text += "%end\n"
        out.append(text)
    return "".join(out), unknown


def read(version, text):
    h = cmds.real_handler(version)
    p = P().KickstartParser(h, unknownSectionIsFatal=False)
    p.readKickstartFromString(text)
    return h


def script_of(s):
    return (s.type, s.interp, s.inChroot, s.logfile, s.errorOnFail, s.script)


def trip(version, text):
    """a problem, or None; 'skip' if the text is not accepted"""
    from pykickstart.version import F8
    try:
        h = read(version, text)
    except Exception:               # noqa: B902
        return "skip", None
    try:
        out = str(h)
    except Exception as e:          # noqa: B902
        return "cannot be written: %s" % type(e).__name__, None
    try:
        h2 = read(version, out)
    except Exception as e:          # noqa: B902
        return "the written text is rejected: %s" % e, out
    a, b = [script_of(s) for s in h.scripts], [script_of(s) for s in h2.scripts]
    old = version < F8

    def norm_body(x):
        x = list(x)
        x[1] = x[1] or "/bin/sh"                    # no interpreter is the default one
        x[5] = x[5].rstrip("\n") if old else x[5] if x[5].endswith("\n") else x[5] + "\n"
        return tuple(x)
    a, b = [norm_body(x) for x in a], [norm_body(x) for x in b]
    if a != b:
        return "scripts %r become %r" % (a, b), out
    x, y = h.packages, h2.packages
    if not (x.seen or not any((x.packageList, x.excludedList, x.groupList, x.excludedGroupList, x.environment))):
        return "the selection is not seen", out
    for k in PACKAGES:
        if getattr(x, k) != getattr(y, k):
            return "%s %r becomes %r" % (k, getattr(x, k), getattr(y, k)), out
    for k in ("packageList", "excludedList"):
        if sorted(getattr(x, k)) != sorted(getattr(y, k)):
            return "%s %r becomes %r" % (k, getattr(x, k), getattr(y, k)), out
    if sorted((g.name, g.include) for g in x.groupList) != sorted((g.name, g.include) for g in y.groupList):
        return "selected groups %r become %r" % ([str(g) for g in x.groupList], [str(g) for g in y.groupList]), out
    if {g.name for g in x.excludedGroupList} != {g.name for g in y.excludedGroupList}:
        return "excluded groups %r become %r" % ([str(g) for g in x.excludedGroupList], [str(g) for g in y.excludedGroupList]), out
    if x.environment != y.environment and not x.default:
        return "environment %r becomes %r" % (x.environment, y.environment), out
    if h._null_section_strings != h2._null_section_strings:
        return "passed-through sections %r become %r" % (h._null_section_strings, h2._null_section_strings), out
    return None, out


def known(version, text, problem):
    """the known findings of C10"""
    if problem.startswith("the written text is rejected") and "cannot be used together" in problem and text.count("%packages") > 1 and "--default" in text:
        return "default-then-nobase"
    return None


WITNESS = {"default-then-nobase": ("DEVEL", "%packages --default\n%end\n%packages --nocore\n%end\n")}


def witnesses():
    """one input per known finding"""
    for k, (v, text) in WITNESS.items():
        r, _ = trip(versionMap[v], text)
        if r and r != "skip":
            yield ("%s: %r" % (r, text), {"version": v, "text": text}, k if known(versionMap[v], text, r) == k else "trip")


def search(part, parts, seed, n):
    rng = random.Random("C10 %d %d" % (part, seed))
    versions = sorted(set(versionMap.values()))
    for i in range(n // parts):
        v = rng.choice(versions)
        text, _ = make_text(rng, v)
        r, out = trip(v, text)
        yield None
        if r and r != "skip" and not known(v, text, r):
            small = shrink(v, text)
            yield ("version %s: %s" % (v, trip(v, small)[0]), {"version": v, "text": small, "written": trip(v, small)[1]}, "trip")


def shrink(v, text):
    lines = text.splitlines(True)
    i = 0
    while i < len(lines):
        t = "".join(lines[:i] + lines[i + 1:])
        r, _ = trip(v, t)
        if r and r != "skip" and not known(v, t, r):
            lines = lines[:i] + lines[i + 1:]
        else:
            i += 1
    return "".join(lines)


def header_search(rec, version, seed, n):
    """headers against the specification, natively"""
    rng = random.Random("C10 headers %d %d" % (version, seed))
    from pykickstart import constants as K
    every = [o for a in S.packages_parser(versionMap["DEVEL"])._actions for o in a.option_strings] + ["--ignoredeps", "--resolvedeps", "--nobase"]
    sc = ["--erroronfail", "--interpreter", "--log", "--logfile", "--nochroot"]
    for i in range(n):
        kind = rng.choice(list(S.KINDS) + ["%packages"] * 5)
        args = [kind]
        pool = every if kind == "%packages" else sc
        for o in rng.sample(pool, rng.choice([0, 1, 1, 2, 2, 3])):
            if o in ("--instLangs", "--inst-langs", "--interpreter", "--log", "--logfile"):
                args += rng.choice([[o + "=x"], [o, "y z"], [o + "="]])
            elif o in ("--timeout", "--retries"):
                args += rng.choice([[o + "=5"], [o, "0"], [o + "=x"]])
            else:
                args.append(o)
        if rng.random() < .03:
            args.append(rng.choice(["extra", "--bogus", ""]))
        h, secs = sections(version)
        yield None
        s = S.Selection() if kind == "%packages" else S.Script()
        two = rng.random() < .3 and kind == "%packages"
        want = got = None
        if kind == "%packages":
            for k in PACKAGES:
                setattr(s, k, getattr(h.packages, k))
            if two:
                first = [kind, rng.choice([o for a in S.packages_parser(version)._actions for o in a.option_strings if a.nargs == 0])]
                secs[kind].handleHeader(1, first)
                S.packages_header(s, S.packages_parser(version), version, first[1:], 1, K.KS_MISSING_IGNORE, K.KS_MISSING_PROMPT, K.KS_BROKEN_IGNORE, K.KS_BROKEN_REPORT)
        try:
            if kind == "%packages":
                S.packages_header(s, S.packages_parser(version), version, args[1:], 7, K.KS_MISSING_IGNORE, K.KS_MISSING_PROMPT, K.KS_BROKEN_IGNORE, K.KS_BROKEN_REPORT)
            else:
                S.script_header(s, S.script_parser(kind), kind, S.KINDS[kind], args[1:], 7)
        except Exception as e:      # noqa: B902
            want = type(e).__name__
        try:
            secs[kind].handleHeader(7, args)
        except Exception as e:      # noqa: B902
            got = type(e).__name__
            if want == got and getattr(e, "lineno", 7) != 7:
                yield ("%r (version %s): the error names line %s" % (args, version, e.lineno), {"args": args, "version": version}, "header")
        if want != got:
            yield ("%r (version %s): %s instead of %s" % (args, version, got or "accepted", want or "accepted"), {"args": args, "version": version}, "header")
        if want is None:
            x = vars(h.packages) if kind == "%packages" else secs[kind]._script
            for k in (PACKAGES if kind == "%packages" else SCRIPT):
                if x.get(k) != getattr(s, k) or type(x.get(k)) is not type(getattr(s, k)):
                    yield ("%r (version %s): %s is %r instead of %r" % (args, version, k, x.get(k), getattr(s, k)), {"args": args, "version": version, "field": k}, "header")


NV = 6


def tasks():
    vs = sorted(set(versionMap.values()))
    out = [("version", v) for v in vs]
    out += [("finalize", k) for k in S.KINDS] + [("content",), ("group",)] + [("null", n) for n in (0, 1, 2, 3, "any number")]
    return [("native", i) for i in range(NV)] + out + [("witnesses",)]


def run(task, rec):
    warnings.simplefilter("ignore")
    big = os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    label = " ".join(str(x) for x in task)
    if task[0] == "native":
        fn.prove_then_search("written sections", rec, None, search(task[1], NV, seed, 120000 if big else 9000))
        rec.bounded_for.append("%s: texts of sections written and read, %d cases" % (label, rec.bounded))
    elif task[0] == "witnesses":
        fn.prove_then_search(label, rec, None, witnesses())
    elif task[0] == "version":
        v = task[1]

        def proof(rec):
            failed = p_script_header(rec, v)
            failed += p_packages_header(rec, v)
            for k in S.KINDS:
                failed += p_script(rec, k, v)
            failed += p_packages(rec, v)
            failed += p_handler(rec, v)
            return failed
        fn.prove_then_search(label, rec, proof, header_search(rec, v, seed, 3000 if big else 150))
    else:
        f = {"finalize": p_finalize, "content": p_content, "group": p_group, "null": p_null}[task[0]]
        fn.prove_then_search(label, rec, lambda r: f(r, *task[1:]), ())


TRUSTED = ["the lines of a written section reach that section as C06 and C07 prove", "a name's last mention decides, as C09 proves"]


def main():
    return runner.main("C10", tasks(), run, trusted=TRUSTED)
