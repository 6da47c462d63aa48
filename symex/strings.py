"""Symbolic strings and bytes: concrete length per path, symbolic characters."""
import z3
from .core import (E, Sym, SymBool, SymInt, SymFloat, SymDec, PathIncomplete,
                   mkbool, mkint, and_, or_, not_, num_e, int_digits)

# Characters a symbolic character may take: ASCII plus representatives.
SPECIALS = [0x85, 0xA0, 0xE9, 0x660, 0x2028, 0x3000, 0xFFFE, 0x1F600]
DOMAIN = list(range(0, 128)) + SPECIALS


def ranges_of(pts):
    out = []
    for p in sorted(pts):
        if out and out[-1][1] == p - 1:
            out[-1][1] = p
        else:
            out.append([p, p])
    return out


DOM_RANGES = ranges_of(DOMAIN)


def in_ranges(c, rs):
    if isinstance(c, int):
        return any(a <= c <= b for a, b in rs)
    return or_([(c == a) if a == b else z3.And(c >= a, c <= b) for a, b in rs])


_class_cache = {}


def class_ranges(name):
    if name not in _class_cache:
        _class_cache[name] = ranges_of(
            [p for p in DOMAIN if getattr(chr(p), name)()])
    return _class_cache[name]


def char_is(c, name):
    if isinstance(c, int):
        return getattr(chr(c), name)()
    return in_ranges(c, class_ranges(name))


def eqc(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    r = a == b
    return r


WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u3000"


def has_sym_key(x):
    """Is x (a dict key or set element) symbolic?"""
    if isinstance(x, Sym):
        return True
    t = type(x)
    if t is tuple or t is frozenset:
        return any(has_sym_key(y) for y in x)
    return False


def mkstr(cs):
    """Make a str or SymStr from a sequence of code points/expressions."""
    for c in cs:
        if not isinstance(c, int):
            return SymStr(cs)
    return "".join(map(chr, cs))


def chars(x):
    """Code points/expressions of a str-like value."""
    if type(x) is SymStr:
        return x.cs
    return [ord(c) for c in x]


def is_str(x):
    return isinstance(x, str)


def _plus(x):
    return x if isinstance(x, int) else x


class _Seq(Sym):
    """Operations common to SymStr and SymBytes."""
    __slots__ = ()

    def __len__(self):
        return len(self.cs)

    def __hash__(self):
        if self._h is None:
            self._h = E.next_hash()
        return self._h

    def __bool__(self):
        return len(self.cs) > 0


class SymStr(_Seq):
    __slots__ = ("_cs", "_parts", "_h")

    def __init__(self, cs=None, parts=None):
        self._cs = cs
        self._parts = parts
        self._h = None

    @property
    def __class__(self):
        return str

    @property
    def cs(self):
        if self._cs is None:
            out = []
            for p in self._parts:
                out.extend(force_part(p))
            self._cs = out
        return self._cs

    def __repr__(self):
        if self._cs is None:
            return "<SymStr lazy>"
        return "<SymStr %s>" % "".join(
            chr(c) if isinstance(c, int) else "?" for c in self._cs)
    def __str__(self):
        return repr(self)

    def _plausible(self, o, st):
        """May the text begin like o? st: [still in fixed beginning, length >=]"""
        for p in self._parts:
            if type(p) is str:
                if st[0] and st[1] < len(o) and \
                        not (o.startswith(p, st[1]) or p.startswith(o[st[1]:])):
                    return False
                st[1] += len(p)
            elif type(p) is SymStr:
                if p._cs is None:
                    if not p._plausible(o, st):
                        return False
                else:
                    st[0] = False
                    st[1] += len(p._cs)
            else:
                st[0] = False
                if type(p) in (SymInt, SymBool, SymDec, SymFloat):
                    st[1] += 1
        return True

    def __bool__(self):
        if self._cs is None:
            for p in self._parts:
                if isinstance(p, str) and type(p) is not SymStr:
                    if p:
                        return True
                elif type(p) in (SymInt, SymBool, SymDec, SymFloat):
                    return True
        return len(self.cs) > 0

    # -- comparison

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if self._cs is None:
            # a single formatted integer compares like the integer
            if len(self._parts) == 1 and type(self._parts[0]) is SymInt:
                me = self._parts[0]
                if type(o) is SymStr:
                    if (o._cs is None and len(o._parts) == 1
                            and type(o._parts[0]) is SymInt):
                        return me == o._parts[0]
                else:
                    try:
                        v = int(o)
                    except ValueError:
                        return False
                    return me == v if str(v) == o else False
            if type(o) is str:
                # different beginnings or lengths need no digits
                st = [True, 0]
                if not self._plausible(o, st) or st[1] > len(o):
                    return False
        a, b = self.cs, chars(o)
        if len(a) != len(b):
            return False
        return mkbool(and_([eqc(x, y) for x, y in zip(a, b)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(not_(r.e)) if type(r) is SymBool else not r

    def _lex(self, o, strict):
        """self < o (strict) or self <= o"""
        a, b = self.cs, chars(o)
        r = len(a) < len(b) or (not strict and len(a) == len(b))
        # build from the end
        n = min(len(a), len(b))
        for i in range(n - 1, -1, -1):
            x, y = a[i], b[i]
            r = or_([x < y, and_([eqc(x, y), r])])
        return mkbool(r)

    def __lt__(self, o):
        return self._lex(o, True) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return self._lex(o, False) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return S(o)._lex(self, True) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return S(o)._lex(self, False) if isinstance(o, str) else NotImplemented

    def __hash__(self):
        if self._h is None:
            self._h = E.next_hash()
        return self._h

    # -- sequence

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.cs[i])
        return mkstr([self.cs[i]])

    def __iter__(self):
        for c in self.cs:
            yield mkstr([c])

    def __contains__(self, o):
        if not isinstance(o, str):
            raise TypeError("'in <string>' requires string as left operand")
        return mkbool(self._contains(chars(o)))

    def _contains(self, b):
        a = self.cs
        return or_([and_([eqc(x, y) for x, y in zip(a[i:], b)])
                    for i in range(len(a) - len(b) + 1)])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if self._cs is None or (type(o) is SymStr and o._cs is None):
            return SymStr(parts=[self, o])
        return mkstr(list(self.cs) + chars(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if self._cs is None:
            return SymStr(parts=[o, self])
        return mkstr(chars(o) + list(self.cs))

    def __mul__(self, n):
        n = n.__index__()
        return mkstr(list(self.cs) * n)
    __rmul__ = __mul__

    # -- searching

    def _bounds(self, start, end):
        n = len(self.cs)
        return slice(start, end).indices(n)[:2]

    def _match_at(self, b, i):
        a = self.cs
        if i + len(b) > len(a):
            return False
        return and_([eqc(x, y) for x, y in zip(a[i:i + len(b)], b)])

    def find(self, sub, start=None, end=None):
        lo, hi = self._bounds(start, end)
        b = chars(sub)
        for i in range(lo, hi - len(b) + 1):
            if E.branch(self._match_at(b, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        lo, hi = self._bounds(start, end)
        b = chars(sub)
        for i in range(hi - len(b), lo - 1, -1):
            if E.branch(self._match_at(b, i)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        lo, hi = self._bounds(start, end)
        b = chars(sub)
        if not b:
            return hi - lo + 1
        n, i = 0, lo
        while i <= hi - len(b):
            if E.branch(self._match_at(b, i)):
                n += 1
                i += len(b)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(or_([_c(self.startswith(x, start, end)) for x in p]))
        lo, hi = self._bounds(start, end)
        b = chars(p)
        if hi - lo < len(b):
            return False
        return mkbool(self._match_at(b, lo))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(or_([_c(self.endswith(x, start, end)) for x in p]))
        lo, hi = self._bounds(start, end)
        b = chars(p)
        if hi - lo < len(b):
            return False
        return mkbool(self._match_at(b, hi - len(b)))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    # -- splitting

    def split(self, sep=None, maxsplit=-1):
        cs = self.cs
        out = []
        if sep is None:
            i, n = 0, len(cs)
            while True:
                while i < n and E.branch(char_is(cs[i], "isspace")):
                    i += 1
                if i == n:
                    return out
                if maxsplit >= 0 and len(out) == maxsplit:
                    j = n
                    while j > i and E.branch(char_is(cs[j - 1], "isspace")):
                        j -= 1
                    out.append(mkstr(cs[i:j]))
                    return out
                j = i
                while j < n and not E.branch(char_is(cs[j], "isspace")):
                    j += 1
                out.append(mkstr(cs[i:j]))
                i = j
        b = chars(sep)
        if not b:
            raise ValueError("empty separator")
        i = st = 0
        while i <= len(cs) - len(b):
            if (maxsplit < 0 or len(out) < maxsplit) and E.branch(
                    self._match_at(b, i)):
                out.append(mkstr(cs[st:i]))
                i += len(b)
                st = i
            else:
                i += 1
        out.append(mkstr(cs[st:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise PathIncomplete("rsplit(None, n)")
        b = chars(sep)
        cs = self.cs
        out = []
        end = len(cs)
        i = end - len(b)
        while i >= 0:
            if len(out) < maxsplit and E.branch(self._match_at(b, i)):
                out.append(mkstr(cs[i + len(b):end]))
                end = i
                i -= len(b)
            else:
                i -= 1
        out.append(mkstr(cs[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def splitlines(self, keepends=False):
        cs = self.cs
        LB = ranges_of([10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029])
        out, st, i = [], 0, 0
        while i < len(cs):
            if E.branch(in_ranges(cs[i], LB)):
                j = i + 1
                if j < len(cs) and E.branch(and_([eqc(cs[i], 13), eqc(cs[j], 10)])):
                    j += 1
                out.append(mkstr(cs[st:j if keepends else i]))
                st = i = j
            else:
                i += 1
        if st < len(cs):
            out.append(mkstr(cs[st:]))
        return out

    def _strip(self, cset, left, right):
        cs = self.cs
        if cset is None:
            test = lambda c: char_is(c, "isspace")
        else:
            ks = chars(cset)
            test = lambda c: or_([eqc(c, k) for k in ks])
        i, j = 0, len(cs)
        if left:
            while i < j and E.branch(test(cs[i])):
                i += 1
        if right:
            while j > i and E.branch(test(cs[j - 1])):
                j -= 1
        return mkstr(cs[i:j])

    def strip(self, cset=None):
        return self._strip(cset, True, True)

    def lstrip(self, cset=None):
        return self._strip(cset, True, False)

    def rstrip(self, cset=None):
        return self._strip(cset, False, True)

    def replace(self, old, new, count=-1):
        b = chars(old)
        nw = chars(new)
        cs = self.cs
        out, i, k = [], 0, 0
        if not b:
            for c in cs:
                if count < 0 or k < count:
                    out += nw
                    k += 1
                out.append(c)
            if count < 0 or k < count:
                out += nw
            return mkstr(out)
        while i < len(cs):
            if (count < 0 or k < count) and i + len(b) <= len(cs) and E.branch(
                    self._match_at(b, i)):
                out += nw
                i += len(b)
                k += 1
            else:
                out.append(cs[i])
                i += 1
        return mkstr(out)

    def join(self, it):
        return join(self, it)

    # -- classes

    def _all(self, name):
        if not self.cs:
            return False
        return mkbool(and_([char_is(c, name) for c in self.cs]))

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isspace(self):
        return self._all("isspace")

    def isascii(self):
        return mkbool(and_([c < 128 for c in self.cs]))

    def isprintable(self):
        return mkbool(and_([char_is(c, "isprintable") for c in self.cs]))

    def isidentifier(self):
        cs = self.cs
        if not cs:
            return False
        us = 95
        return mkbool(and_([or_([char_is(cs[0], "isalpha"), eqc(cs[0], us)])]
                      + [or_([char_is(c, "isalnum"), eqc(c, us)]) for c in cs[1:]]))

    def islower(self):
        return mkbool(and_([or_([char_is(c, "islower") for c in self.cs]),
                            and_([not_(char_is(c, "isupper")) for c in self.cs])]))

    def isupper(self):
        return mkbool(and_([or_([char_is(c, "isupper") for c in self.cs]),
                            and_([not_(char_is(c, "islower")) for c in self.cs])]))

    def _case(self, up):
        out = []
        for c in self.cs:
            if isinstance(c, int):
                out += [ord(k) for k in (chr(c).upper() if up else chr(c).lower())]
            elif up:
                out.append(z3.If(z3.And(c >= 97, c <= 122), c - 32,
                                 z3.If(c == 0xE9, z3.IntVal(0xC9), c)))
            else:
                out.append(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))
        return mkstr(out)

    def lower(self):
        return self._case(False)
    casefold = lower

    def upper(self):
        return self._case(True)

    def zfill(self, w):
        n = w - len(self)
        if n <= 0:
            return self
        if self.cs and E.branch(or_([eqc(self.cs[0], 43), eqc(self.cs[0], 45)])):
            return mkstr([self.cs[0]] + [48] * n + list(self.cs[1:]))
        return mkstr([48] * n + list(self.cs))

    def ljust(self, w, f=" "):
        return mkstr(list(self.cs) + [ord(f)] * max(0, w - len(self)))

    def rjust(self, w, f=" "):
        return mkstr([ord(f)] * max(0, w - len(self)) + list(self.cs))

    def expandtabs(self, ts=8):
        out, col = [], 0
        for c in self.cs:
            if E.branch(eqc(c, 9)):
                n = ts - col % ts if ts > 0 else 0
                out += [32] * n
                col += n
            else:
                out.append(c)
                if E.branch(or_([eqc(c, 10), eqc(c, 13)])):
                    col = 0
                else:
                    col += 1
        return mkstr(out)

    def translate(self, table):
        out = []
        for c in self.cs:
            if isinstance(c, int):
                out += chars(chr(c).translate(table))
                continue
            if hasattr(table, "items"):
                for k, v in table.items():
                    kc = num_e(k)
                    if E.branch(eqc(c, kc)):
                        if v is None:
                            pass
                        elif isinstance(v, int):
                            out.append(num_e(v))
                        else:
                            out += chars(v)
                        break
                else:
                    out.append(c)
            else:
                raise PathIncomplete("translate table")
        return mkstr(out)

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc in ("ascii", "us-ascii"):
            bad = [c for c in self.cs if not isinstance(c, int) or c > 127]
            if bad and E.branch(or_([c > 127 for c in bad])):
                if errors != "strict":
                    raise PathIncomplete("encode errors")
                raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range")
            return mkbytes(list(self.cs))
        if enc not in ("utf-8", "utf8"):
            raise PathIncomplete("encoding")
        out = []
        for c in self.cs:
            if isinstance(c, int):
                out += list(chr(c).encode())
            elif E.branch(c < 0x80):
                out.append(c)
            else:
                v = E.concretize_int(c)
                out += list(chr(v).encode())
        return mkbytes(out)

    def format(self, *a, **k):
        raise PathIncomplete("format on symbolic template")

    def __mod__(self, o):
        raise PathIncomplete("% on symbolic template")

    def __format__(self, spec):
        return "<SymStr>"

    def title(self):
        out, prev = [], False
        for c in self.cs:
            al = E.branch(char_is(c, "isalpha"))
            if al:
                out += chars(S(mkstr([c]))._case(not prev))
            else:
                out.append(c)
            prev = al
        return mkstr(out)

    def capitalize(self):
        if not self.cs:
            return ""
        return S(mkstr(self.cs[:1])).upper() + S(mkstr(self.cs[1:])).lower()

    def swapcase(self):
        raise PathIncomplete("swapcase")

    def center(self, w, f=" "):
        raise PathIncomplete("center")


def _c(x):
    return x.e if type(x) is SymBool else x


def S(x):
    """View a str as SymStr."""
    if type(x) is SymStr:
        return x
    return SymStr([ord(c) for c in x])


def join(sep, it):
    items = list(it)
    parts = []
    for i, x in enumerate(items):
        if not isinstance(x, str):
            raise TypeError(f"sequence item {i}: expected str instance, "
                            f"{type(x).__name__} found")
        if i:
            parts.append(sep)
        parts.append(x)
    return mklazy(parts)


def mklazy(parts):
    """Concatenate str-like parts and lazily formatted values."""
    if all(type(p) is str for p in parts):
        return "".join(parts)
    if all(type(p) is str or (type(p) is SymStr and p._cs is not None)
           for p in parts):
        out = []
        for p in parts:
            out.extend(chars(p))
        return mkstr(out)
    return SymStr(parts=list(parts))


def force_part(p):
    t = type(p)
    if t is str or t is SymStr:
        return chars(p)
    if t is SymInt:
        e = p.e
        if E.branch(e < 0):
            return [45] + [48 + d if isinstance(d, int) else d + 48
                           for d in int_digits(-e)]
        return [48 + d if isinstance(d, int) else d + 48 for d in int_digits(e)]
    if t is SymBool:
        return chars("True" if E.branch(p.e) else "False")
    if t is SymDec:
        return dec_str(p)
    if t is SymFloat:
        return float_str(p)
    if callable(p):
        return chars(p())
    return chars(str(p))


def dec_str(p, plain=False):
    """str(Decimal) by the rules of the specification (to-scientific-string)."""
    neg = E.branch(p.c < 0)
    a = -p.c if neg else p.c
    ds = [d + 48 for d in int_digits(a)]
    exp = p.x
    adj = exp + len(ds) - 1
    out = [45] if neg else []
    if exp <= 0 and (plain or adj >= -6):
        if exp == 0:
            return out + ds
        k = -exp
        if len(ds) > k:
            return out + ds[:-k] + [46] + ds[-k:]
        return out + [48, 46] + [48] * (k - len(ds)) + ds
    if plain:
        if len(ds) == 1 and E.branch(eqc(ds[0], 48)):
            return out + ds
        return out + ds + [48] * exp
    out.append(ds[0])
    if len(ds) > 1:
        out += [46] + ds[1:]
    return out + chars("E%+d" % adj)


def float_str(p):
    """repr of a finite float n/d, for moderate magnitudes."""
    n, d = p.n, p.d
    neg = E.branch(n < 0)
    a = -n if neg else n
    # smallest power of ten that makes it an integer
    k, m = 0, d
    while m % 2 == 0 or m % 5 == 0:
        m = m // 2 if m % 2 == 0 else m // 5
    if m != 1:
        # not a terminating decimal: enumerate
        v = E.concretize_int(n)
        return chars(repr(v / d))
    k = 0
    while (10 ** k) % d:
        k += 1
    num = a * (10 ** k // d)          # value = num / 10**k
    if not E.branch(num < 10 ** (k + 15)):
        v = E.concretize_int(n)
        return chars(repr(v / d))
    # strip trailing zeros of the fraction
    fr = k
    while fr > 1 and E.branch(num - 10 * (num / z3.IntVal(10)) == 0):
        num = num / z3.IntVal(10)
        fr -= 1
    if fr == 0:
        num, fr = num * 10, 1
    ip = num / z3.IntVal(10 ** fr)
    fp = num - ip * 10 ** fr
    if fr > 4:
        if not E.branch(z3.Or(a == 0, a * 10000 >= d)):
            v = E.concretize_int(n)
            return chars(repr(v / d))
    out = [45] if neg else []
    out += [x + 48 for x in int_digits(ip)]
    out.append(46)
    fds = int_digits(fp)
    out += [48] * (fr - len(fds)) + [x + 48 for x in fds]
    return out


# ------------------------------------------------------------------- bytes

def mkbytes(cs):
    for c in cs:
        if not isinstance(c, int):
            return SymBytes(cs)
    return bytes(cs)


def bchars(x):
    return list(x.cs) if type(x) is SymBytes else list(x)


class SymBytes(_Seq):
    __slots__ = ("cs", "_h")

    def __init__(self, cs):
        self.cs = cs
        self._h = None

    @property
    def __class__(self):
        return bytes

    def __repr__(self):
        return f"<SymBytes {len(self.cs)}>"

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        b = bchars(o)
        if len(b) != len(self.cs):
            return False
        return mkbool(and_([eqc(x, y) for x, y in zip(self.cs, b)]))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(not_(r.e)) if type(r) is SymBool else not r

    def __hash__(self):
        if self._h is None:
            self._h = E.next_hash()
        return self._h

    def __lt__(self, o):
        return SymStr(self.cs)._lex(SymStr(bchars(o)), True)

    def __le__(self, o):
        return SymStr(self.cs)._lex(SymStr(bchars(o)), False)

    def __gt__(self, o):
        return SymStr(bchars(o))._lex(SymStr(self.cs), True)

    def __ge__(self, o):
        return SymStr(bchars(o))._lex(SymStr(self.cs), False)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.cs[i])
        return mkint(self.cs[i])

    def __iter__(self):
        for c in self.cs:
            yield mkint(c)

    def __add__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        return mkbytes(list(self.cs) + bchars(o))

    def __radd__(self, o):
        return mkbytes(bchars(o) + list(self.cs))

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc in ("ascii", "us-ascii"):
            if E.branch(or_([c > 127 for c in self.cs])):
                raise UnicodeDecodeError("ascii", b"?", 0, 1, "ordinal not in range")
            return mkstr(list(self.cs))
        if enc in ("latin-1", "iso-8859-1"):
            return mkstr(list(self.cs))
        if enc in ("utf-8", "utf8"):
            if all(isinstance(c, int) for c in self.cs) or not E.branch(
                    or_([c > 127 for c in self.cs])):
                return mkstr(list(self.cs))
        return bytes(E.concretize_int(c, cap=300) for c in self.cs).decode(
            encoding, errors)

    def hex(self):
        out = []
        for c in self.cs:
            for d in (floordiv16(c), mod16(c)):
                out.append(d + 48 if isinstance(d, int) and d < 10 else
                           (d + 87 if isinstance(d, int) else
                            z3.If(d < 10, d + 48, d + 87)))
        return mkstr(out)


def floordiv16(c):
    return c // 16 if isinstance(c, int) else c / z3.IntVal(16)


def mod16(c):
    return c % 16 if isinstance(c, int) else c - 16 * (c / z3.IntVal(16))
