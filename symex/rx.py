"""Symbolic matching of Python regular expressions over strings whose length is
concrete and whose characters are symbolic."""
import re
from re import _parser, _compiler, _constants as K
import z3
from .core import E, PathIncomplete, and_, or_, not_, mkbool
from .strings import (SymStr, S, mkstr, chars, char_is, in_ranges, eqc, ranges_of,
                      DOMAIN)

_cache = {}


class Unsupported(Exception):
    pass


def parsed(pattern, flags):
    key = (pattern, flags)
    if key not in _cache:
        p = _parser.parse(pattern, flags)
        _cache[key] = (p, p.state.flags, p.state.groups,
                       dict(p.state.groupdict))
    return _cache[key]


def cat_cond(cat, c, ascii=False):
    if ascii:
        rs = {K.CATEGORY_DIGIT: [[48, 57]], K.CATEGORY_SPACE: [[9, 13], [32, 32]],
              K.CATEGORY_WORD: [[48, 57], [65, 90], [95, 95], [97, 122]]}
        pos = {K.CATEGORY_NOT_DIGIT: K.CATEGORY_DIGIT,
               K.CATEGORY_NOT_SPACE: K.CATEGORY_SPACE,
               K.CATEGORY_NOT_WORD: K.CATEGORY_WORD}
        if cat in rs:
            return in_ranges(c, rs[cat])
        if cat in pos:
            return not_(in_ranges(c, rs[pos[cat]]))
        raise Unsupported(str(cat))
    if cat == K.CATEGORY_DIGIT:
        return char_is(c, "isdecimal")
    if cat == K.CATEGORY_NOT_DIGIT:
        return not_(char_is(c, "isdecimal"))
    if cat == K.CATEGORY_SPACE:
        return char_is(c, "isspace")
    if cat == K.CATEGORY_NOT_SPACE:
        return not_(char_is(c, "isspace"))
    w = or_([char_is(c, "isalnum"), eqc(c, 95)])
    if cat == K.CATEGORY_WORD:
        return w
    if cat == K.CATEGORY_NOT_WORD:
        return not_(w)
    raise Unsupported(str(cat))


def set_cond(items, c, ascii=False):
    neg = False
    out = []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            out.append(eqc(c, av))
        elif op is K.RANGE:
            lo, hi = av
            if isinstance(c, int):
                out.append(lo <= c <= hi)
            else:
                out.append(z3.And(c >= lo, c <= hi))
        elif op is K.CATEGORY:
            out.append(cat_cond(av, c, ascii))
        else:
            raise Unsupported(str(op))
    r = or_(out)
    return not_(r) if neg else r


_icase = {}


def icase_cond(op, av, c, flags):
    """Single-character item under IGNORECASE: decided over the finite domain."""
    key = (str(op), repr(av), flags)
    if key not in _icase:
        st = _parser.State()
        st.flags = flags
        r = _compiler.compile(_parser.SubPattern(st, [(op, av)]), flags)
        _icase[key] = (ranges_of([p for p in DOMAIN if r.fullmatch(chr(p))]), r)
    if isinstance(c, int):
        return bool(_icase[key][1].fullmatch(chr(c)))
    return in_ranges(c, _icase[key][0])


def one_char(op, av, c, flags):
    if flags & re.I and op in (K.LITERAL, K.NOT_LITERAL, K.IN):
        return icase_cond(op, av, c, flags)
    if op is K.LITERAL:
        return eqc(c, av)
    if op is K.NOT_LITERAL:
        return not_(eqc(c, av))
    if op is K.ANY:
        return True if flags & re.S else not_(eqc(c, 10))
    if op is K.IN:
        return set_cond(av, c, bool(flags & re.A))
    return None


class Matcher:
    def __init__(self, pattern, flags, text, lo, hi):
        self.p, self.flags, self.ngroups, self.gdict = parsed(pattern, flags)
        self.nsub = self.ngroups
        if self.flags & re.L:
            raise Unsupported("flags")
        self.cs = chars(text)
        self.hi = hi
        self.lo = lo
        self.memo = {}

    # -- formulas (for existence of a match)

    def at(self, av, i):
        cs, n = self.cs, self.hi
        if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            if i == 0:
                return True
            if av == K.AT_BEGINNING and self.flags & re.M:
                return eqc(cs[i - 1], 10)
            return False
        if av == K.AT_END_STRING:
            return i == n
        if av == K.AT_END:
            if i == n:
                return True
            if self.flags & re.M:
                return eqc(cs[i], 10)
            if i == n - 1:
                return eqc(cs[i], 10)
            return False
        if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            w = lambda k: or_([char_is(cs[k], "isalnum"), eqc(cs[k], 95)])
            a = w(i - 1) if i > 0 else False
            b = w(i) if i < n else False
            d = or_([and_([a, not_(b)]), and_([not_(a), b])])
            return d if av == K.AT_BOUNDARY else not_(d)
        raise Unsupported(str(av))

    def ends(self, seq, k, i):
        """{end: condition} of matching seq[k:] from position i."""
        if k == len(seq):
            return {i: True}
        out = {}
        for j, c in self.item_ends(seq[k], i).items():
            for e, c2 in self.ends(seq, k + 1, j).items():
                out.setdefault(e, []).append(and_([c, c2]))
        return {e: or_(cl) for e, cl in out.items() if or_(cl) is not False}

    def item_ends(self, item, i):
        op, av = item
        key = (id(item), i)
        if key in self.memo:
            return self.memo[key]
        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
            r = {}
            if i < self.hi:
                c = one_char(op, av, self.cs[i], self.flags)
                if c is not False:
                    r = {i + 1: c}
        elif op is K.AT:
            c = self.at(av, i)
            r = {} if c is False else {i: c}
        elif op is K.BRANCH:
            acc = {}
            for alt in av[1]:
                for e, c in self.ends(alt, 0, i).items():
                    acc.setdefault(e, []).append(c)
            r = {e: or_(c) for e, c in acc.items()}
        elif op is K.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("inline flags")
            r = self.ends(av[3], 0, i)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            hi = None if hi == K.MAXREPEAT else hi
            cur = {i: True}
            r = {}
            n = 0
            if lo == 0:
                r[i] = [True]
            while cur and (hi is None or n < hi) and n < lo + self.hi + 1:
                nxt = {}
                for p, c in cur.items():
                    for e, c2 in self.ends(sub, 0, p).items():
                        if e == p and n >= lo:
                            continue
                        nxt.setdefault(e, []).append(and_([c, c2]))
                cur = {e: or_(c) for e, c in nxt.items()}
                cur = {e: c for e, c in cur.items() if c is not False}
                n += 1
                if n >= lo:
                    for e, c in cur.items():
                        r.setdefault(e, []).append(c)
            r = {e: or_(c) for e, c in r.items()}
        elif op in (K.ASSERT, K.ASSERT_NOT):
            d, sub = av
            if d < 0:
                w = sub.getwidth()
                if w[0] != w[1]:
                    raise Unsupported("lookbehind")
                st = i - w[0]
                c = or_(list(self.ends(sub, 0, st).values())) if st >= 0 else False
            else:
                c = or_(list(self.ends(sub, 0, i).values()))
            if op is K.ASSERT_NOT:
                c = not_(c)
            r = {} if c is False else {i: c}
        else:
            raise Unsupported(str(op))
        self.memo[key] = r
        return r

    # -- backtracking (for positions and groups), following Python's priorities

    def run(self, seq, k, i, g):
        if k == len(seq):
            yield i, g
            return
        item = seq[k]
        op, av = item
        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
            if i < self.hi and E.branch(one_char(op, av, self.cs[i], self.flags)):
                yield from self.run(seq, k + 1, i + 1, g)
            return
        for j, g2 in self.item_run(item, i, g):
            yield from self.run(seq, k + 1, j, g2)

    def item_run(self, item, i, g):
        op, av = item
        if op is K.AT:
            if E.branch(self.at(av, i)):
                yield i, g
        elif op is K.BRANCH:
            for alt in av[1]:
                yield from self.run(alt, 0, i, g)
        elif op is K.SUBPATTERN:
            gid = av[0]
            for j, g2 in self.run(av[3], 0, i, g):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, j)
                yield j, g2
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            hi = None if hi == K.MAXREPEAT else hi
            yield from self.rep(sub, lo, hi, 0, i, g, op is K.MAX_REPEAT)
        elif op in (K.ASSERT, K.ASSERT_NOT):
            for j, c in self.item_ends(item, i).items():
                if E.branch(c):
                    yield i, g
        elif op is K.GROUPREF:
            if av not in g:
                return
            a, b = g[av]
            n = b - a
            if i + n <= self.hi and E.branch(and_(
                    [eqc(self.cs[a + t], self.cs[i + t]) for t in range(n)])):
                yield i + n, g
        else:
            raise Unsupported(str(op))

    def rep(self, sub, lo, hi, n, i, g, greedy):
        more = hi is None or n < hi
        if n < lo:
            for j, g2 in self.run(sub, 0, i, g):
                yield from self.rep(sub, lo, hi, n + 1, j, g2, greedy)
            return
        if not greedy:
            yield i, g
        if more:
            for j, g2 in self.run(sub, 0, i, g):
                if j == i:
                    continue
                yield from self.rep(sub, lo, hi, n + 1, j, g2, greedy)
        if greedy:
            yield i, g

    def bt(self, i, full):
        for j, g in self.run(self.p, 0, i, {}):
            if full and j != self.hi:
                continue
            return j, g
        return None


class SymMatch:
    def __init__(self, m, text, pos, full, rx):
        self._m = m
        self.string = text
        self.pos = pos
        self._full = full
        self.re = rx
        self._res = None
        self._start = pos

    def _go(self):
        if self._res is None:
            r = self._m.bt(self._start, self._full)
            if r is None:
                raise PathIncomplete("regex formula/backtracking disagreement")
            self._res = r
        return self._res

    def span(self, g=0):
        j, gs = self._go()
        if g == 0:
            return (self._start, j)
        if isinstance(g, str):
            g = self._m.gdict[g]
        if g >= self._m.ngroups:
            raise IndexError("no such group")
        return gs.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _group(self, g):
        a, b = self.span(g)
        return None if a < 0 else mkstr(self._m.cs[a:b])

    def group(self, *gs):
        if not gs:
            return self._group(0)
        if len(gs) == 1:
            return self._group(gs[0])
        return tuple(self._group(g) for g in gs)

    __getitem__ = lambda self, g: self._group(g)

    def groups(self, default=None):
        out = []
        for g in range(1, self._m.ngroups):
            v = self._group(g)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self, default=None):
        return {k: (default if self._group(v) is None else self._group(v))
                for k, v in self._m.gdict.items()}

    @property
    def lastindex(self):
        j, gs = self._go()
        raise PathIncomplete("lastindex")


def match(rx, text, pos=0, endpos=None, full=False):
    """re.Pattern.match / fullmatch on a symbolic text."""
    n = len(text)
    hi = n if endpos is None else min(endpos, n)
    pos = min(max(pos.__index__(), 0), n)
    try:
        m = Matcher(rx.pattern, rx.flags & ~re.U | (rx.flags & re.U), text, pos, hi)
        try:
            es = m.ends(m.p, 0, pos)
            if full:
                c = es.get(hi, False)
            else:
                c = or_(list(es.values()))
            if not E.branch(c):
                return None
        except Unsupported:
            sm = SymMatch(m, text, pos, full, rx)
            r = m.bt(pos, full)
            if r is None:
                return None
            sm._res = r
            return sm
        return SymMatch(m, text, pos, full, rx)
    except Unsupported as e:
        raise PathIncomplete(f"regex feature {e}")


def search(rx, text, pos=0, endpos=None):
    n = len(text)
    for i in range(pos, n + 1):
        r = match(rx, text, i, endpos)
        if r is not None:
            return r
    return None


def finditer(rx, text, pos=0):
    n = len(text)
    i = pos
    while i <= n:
        m = search(rx, text, i)
        if m is None:
            return
        yield m
        a, b = m.span()
        i = b + 1 if a == b else b


def sub(rx, repl, text, count=0):
    out = []
    last = 0
    k = 0
    for m in finditer(rx, text):
        if count and k >= count:
            break
        a, b = m.span()
        out += chars(text)[last:a]
        if callable(repl):
            out += chars(repl(m))
        elif type(repl) is str and "\\" not in repl:
            out += chars(repl)
        else:
            raise PathIncomplete("re.sub template")
        last = b
        k += 1
    out += chars(text)[last:]
    return mkstr(out)


def split(rx, text, maxsplit=0):
    out = []
    last = 0
    k = 0
    for m in finditer(rx, text):
        if maxsplit and k >= maxsplit:
            break
        a, b = m.span()
        out.append(mkstr(chars(text)[last:a]))
        out.extend(m.groups())
        last = b
        k += 1
    out.append(mkstr(chars(text)[last:]))
    return out


def findall(rx, text, pos=0):
    out = []
    for m in finditer(rx, text, pos):
        g = m.groups()
        out.append(m.group() if not g else (g[0] if len(g) == 1 else g))
    return out
