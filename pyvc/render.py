"""Contract of shlex.split (comments allowed) on rendered text: the text is a rope of literals and values, and the
contract gives its lines and their words.  The values must be known not to contain what ends a word or quotes."""
import z3

from .values import *          # noqa: F401,F403
from . import models as M

BLANK = " \t\r"
SPECIAL = frozenset(" \t\r\n\"'\\#")


def has_newline(p):
    if isinstance(p, str):
        return "\n" in p
    if isinstance(p, Cho):
        return any(has_newline(q) for _, x in p.alts for q in as_rope(x).parts)
    if isinstance(p, JoinP):
        return "\n" in p.sep or any(has_newline(q) for i in p.items for q in as_rope(i.v if isinstance(i, Item) else i.elem).parts)
    return False


def by_newline(rope, limit=64):
    """alternatives of a text in which only literals contain line ends: [(guard, rope)]"""
    out = [(True, [])]
    for p in as_rope(rope).parts:
        if isinstance(p, Cho) and has_newline(p):
            subs = [(And(g, g2), as_rope(y).parts) for g, x in p.alts for g2, y in by_newline(x, limit)]
            nxt = {}
            for g, ps in out:
                for g2, y in subs:
                    h = norm(And(g, g2))
                    if h is not False:
                        nxt.setdefault(tuple(ps) + tuple(y), []).append(h)
            out = [(Or(*hs), list(ps)) for ps, hs in nxt.items()]
            if len(out) > limit:
                raise Unsupported("too many forms of the written text")
        else:
            out = [(g, ps + [p]) for g, ps in out]
    return [(g, SStr(ps)) for g, ps in out]


def text_lines(rope):
    """lines of a rope whose line ends are all literal"""
    lines, cur = [], []
    for p in as_rope(rope).parts:
        if isinstance(p, str):
            bits = p.split("\n")
            cur.append(bits[0])
            for b in bits[1:]:
                lines.append(SStr(cur))
                cur = [b]
        else:
            if has_newline(p):
                raise Unsupported("line end inside a value")
            cur.append(p)
    lines.append(SStr(cur))
    return lines


def first_char(p):
    """'blank', 'other', None (may be empty or unknown)"""
    if isinstance(p, str):
        return None if not p else "blank" if p[0] in BLANK else "other"
    if isinstance(p, Atom):
        return "other" if p.dom.nonempty and SPECIAL <= p.dom.no else None
    if isinstance(p, IntS):
        return "other"
    return None


class SplitAt(Exception):
    """the choice p has to be decided before the words of the line can be told"""
    def __init__(self, p, why):
        Exception.__init__(self, why)
        self.p, self.why = p, why


def option_forms(parts):
    """a word which starts like an option and whose option name is not settled: one word per form"""
    parts = as_rope(mk_str(list(parts))).parts
    if len(parts) > 1 and isinstance(parts[0], str) and parts[0].startswith("-") and "=" not in parts[0] and isinstance(parts[1], Cho):
        return [(And(g, g2), v) for g, x in parts[1].alts for g2, v in option_forms([parts[0]] + list(as_rope(x).parts) + list(parts[2:]))]
    return [(True, mk_str(list(parts)))]


def prune(ip, pc, rope, left=None):
    """the text without the forms that cannot occur on the path"""
    left = [60] if left is None else left
    out = []
    for p in as_rope(rope).parts:
        if isinstance(p, Cho) and left[0] > 0:
            alts = []
            for g, x in p.alts:
                left[0] -= 1
                if ip.feasible(pc + [g]):
                    alts.append((g, as_rope(prune(ip, pc + [g], x, left))))
            if alts and all(x.parts == alts[0][1].parts for _, x in alts):
                out.extend(alts[0][1].parts)
                continue
            p = Cho(alts)
        elif isinstance(p, JoinP) and left[0] > 0:
            left[0] -= 1
            if not ip.feasible(pc + [ip.str_nonempty(as_rope(mk_str([p])))]):
                continue
        out.append(p)
    return mk_str(out)


class Words:
    """words of one line"""
    def __init__(self):
        self.toks = []          # Item / Star
        self.cur = None         # parts of the word being read, or None between words
        self.curg = True
        self.must = False       # a word was ended early: what follows has to start with a blank (under this guard)

    def end(self):
        if self.cur is not None:
            for g, v in option_forms(self.cur):
                g = norm(And(self.curg, g))
                if g is not False:
                    self.toks.append(Item(g, v))
        self.cur = None


def words(ip, line, quote=None):
    """[Item/Star] of a line"""
    w = Words()
    _run(ip, list(as_rope(line).parts), True, w, None)
    w.end()
    return w.toks


def _safe(p, quote):
    """every character of the value p is an ordinary character of a word in the current quoting"""
    bad = SPECIAL if quote is None else frozenset("\"\\") if quote == '"' else frozenset("'")
    if isinstance(p, IntS):
        return True
    if isinstance(p, (Atom, Cho, JoinP)):
        return not (bad - M.rope_no(SStr((p,))))
    return False


def _blank_first(ps):
    """a text (list of parts) is empty or starts with a blank"""
    if not ps:
        return True
    p = ps[0]
    if isinstance(p, str):
        return p[0] in BLANK
    if isinstance(p, Cho):
        if not all(_blank_first(as_rope(x).parts) for _, x in p.alts):
            return False
        return all(as_rope(x).parts for _, x in p.alts) or _blank_first(ps[1:])
    if isinstance(p, JoinP):
        if p.sep and p.sep[0] not in BLANK:
            return False
        if not all(as_rope(i.v if isinstance(i, Item) else i.elem).parts and _blank_first(as_rope(i.v if isinstance(i, Item) else i.elem).parts) for i in p.items):
            return False
        return _blank_first(ps[1:])
    return False


def ends_open(parts):
    """the text ends in the middle of a word"""
    p = parts[-1] if parts else ""
    if isinstance(p, str):
        return bool(p) and p[-1] not in BLANK
    if isinstance(p, Cho):
        return any(ends_open(as_rope(x).parts) for _, x in p.alts)
    return True


def one_word(ip, e):
    w = Words()
    if _run(ip, list(as_rope(e).parts), True, w, None) != "" or w.must is not False:
        raise Unsupported("list of words: %r" % (e,))
    w.end()
    if len(w.toks) != 1 or not isinstance(w.toks[0], Item) or w.toks[0].g is not True:
        raise Unsupported("list of words: %r" % (e,))
    return w.toks[0].v


def _run(ip, parts, g, w, quote):
    """returns the open quote ("" for none), or None when a comment ended the line"""
    k = 0
    while k < len(parts):
        p = parts[k]
        k += 1
        if isinstance(p, str):
            i = 0
            while i < len(p):
                c = p[i]
                i += 1
                if quote is not None:
                    if c == quote:
                        quote = None
                    elif c == "\\" and quote == '"':
                        raise Unsupported("escape in quotes")
                    else:
                        w.cur.append(c)
                    continue
                if c in BLANK:
                    w.end()
                    w.must = False
                    continue
                if w.must is not False:
                    raise Unsupported("a word may go on after a choice")
                if c == "#":
                    if w.cur is not None:
                        raise Unsupported("comment inside a word")
                    return None             # the rest of the line is a comment
                if w.cur is None:
                    w.cur, w.curg = [], g
                if c in "\"'":
                    quote = c
                elif c == "\\":
                    raise Unsupported("escape")
                else:
                    w.cur.append(c)
            continue
        if isinstance(p, Atom) and p.fn == "shlex.quote" and quote is None:
            if w.must is not False:
                raise Unsupported("a word may go on after a choice")
            if w.cur is None:
                w.cur, w.curg = [], g
            w.cur.extend(as_rope(p.arg).parts)
            continue
        if _safe(p, quote) and (w.cur is not None or M_nonempty(ip, p)):
            if w.must is not False:
                raise Unsupported("a word may go on after a choice")
            if w.cur is None:
                w.cur, w.curg = [], g
            w.cur.append(p)
            continue
        if quote is not None:
            if isinstance(p, Cho):
                raise SplitAt(p, "choice in quotes: %r" % (p,))
            raise Unsupported("value in quotes: %r" % (p,))
        if isinstance(p, JoinP) and (p.sep == "" and _blank_first([p]) or p.sep and not p.sep.strip(BLANK)):
            elems = [one_word(ip, i.v if isinstance(i, Item) else i.elem) for i in p.items]
            ne = norm(ip.items_nonempty(p.items))
            if p.sep == "":
                was = True if w.cur is not None else w.must
                w.end()
                w.must = norm(Or(And(was, Not(ne)), ne))
            else:
                if w.cur is not None or w.must is not False:
                    raise Unsupported("list of words after an open word")
                w.must = ne
            for i, e in zip(p.items, elems):
                w.toks.append(Item(And(g, i.g), e) if isinstance(i, Item) else Star(And(g, i.g), i.seq, e, i.filt))
            continue
        if isinstance(p, Cho):
            alts = [(a, as_rope(x)) for a, x in p.alts]
            if all(_blank_first(x.parts) for _, x in alts):
                was = True if w.cur is not None else w.must
                w.end()
            elif w.cur is None and w.must is False:
                was = False
            else:
                raise SplitAt(p, "choice inside a word: %r" % (p,))
            after = False
            if any(len(alts) > 1 and x.parts and ends_open(x.parts) for _, x in alts) and k < len(parts) and not _blank_first(parts[k:]):
                raise SplitAt(p, "word open at the end of a choice: %r" % (p,))
            for a, x in alts:
                h = norm(And(g, a))
                if h is False:
                    continue
                if not x.parts:
                    after = Or(after, And(a, was))
                    continue
                w.must, w.cur = (was if _blank_first(x.parts) else False), None
                if _run(ip, list(x.parts), h, w, None) != "":
                    raise Unsupported("quote or comment in a choice")
                if w.cur is not None:
                    w.end()
                    after = Or(after, a)
                after = Or(after, And(a, w.must))
            w.cur = None
            w.must = norm(after)
            continue
        if isinstance(p, Atom) and k == len(parts) and w.cur is None and w.must is False:
            # words nobody is to look at
            q = ip.seq("words!%d" % fresh_id(), Dom())
            w.toks.append(Star(g, q, q.val))
            continue
        raise Unsupported("written value %r" % (p,))
    return "" if quote is None else quote


def M_nonempty(ip, p):
    return ip_nonempty(ip, SStr((p,)))


def ip_nonempty(ip, r):
    return norm(ip.str_nonempty(as_rope(r))) is True


def replace_part(parts, old, new):
    """parts with the first occurrence of the choice `old` (also inside choices) replaced; None when absent"""
    for i, p in enumerate(parts):
        if p is old:
            return list(parts[:i]) + list(new) + list(parts[i + 1:])
        if isinstance(p, Cho):
            for j, (g, x) in enumerate(p.alts):
                r = replace_part(as_rope(x).parts, old, new)
                if r is not None:
                    alts = list(p.alts)
                    alts[j] = (g, as_rope(mk_str(r)))
                    return list(parts[:i]) + [Cho(alts)] + list(parts[i + 1:])
    return None


def has_list(x):
    return any(isinstance(q, JoinP) or isinstance(q, Cho) and any(has_list(y) for _, y in q.alts) for q in as_rope(x).parts)


def list_choice(parts):
    """a choice between lists of words"""
    for p in parts:
        if isinstance(p, Cho):
            if sum(has_list(x) for _, x in p.alts) > 1:
                return p
            for _, x in p.alts:
                r = list_choice(as_rope(x).parts)
                if r is not None:
                    return r
    return None


def line_words(ip, g, line, depth=0, pc=None):
    """[(guard, line, words)]"""
    if depth and pc is not None:
        line = prune(ip, pc + [g], line)
    try:
        p = list_choice(as_rope(line).parts) if depth < 3 else None
        if p is not None:
            raise SplitAt(p, "choice of lists")
        return [(g, line, words(ip, line))]
    except SplitAt as e:
        if depth > 5:
            raise Unsupported(e.why)
        out = []
        for a, x in e.p.alts:
            ps = replace_part(list(as_rope(line).parts), e.p, as_rope(x).parts)
            if ps is None:
                raise Unsupported(e.why)
            h = norm(And(g, a))
            if h is False:
                continue
            out.extend(line_words(ip, h, mk_str(ps), depth + 1, pc))
        return out


def read_back(ip, rope, pc=None):
    """[(guard, [words of a line, ...])], empty lines and comments left out"""
    out = []
    if pc is not None:
        rope = prune(ip, pc, rope)
    for g, r in by_newline(rope):
        cases = [(g, [])]
        for line in text_lines(r):
            s = as_rope(line)
            if s.parts and isinstance(s.parts[0], str) and s.parts[0].lstrip(BLANK)[:1] == "#":
                continue
            nxt = []
            for h, ln, ws in line_words(ip, g, line, 0, pc):
                for g2, ls in cases:
                    k = norm(And(g2, h))
                    if k is not False:
                        nxt.append((k, ls + [(ln, ws)] if ws else ls))
            cases = nxt
            if len(cases) > 64:
                raise Unsupported("too many forms of the written text")
        out.extend(cases)
    return out
