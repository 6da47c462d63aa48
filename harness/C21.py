"""The YANG parser: keywords, arguments, structure."""
from symex.api import task
from yangson.statement import ModuleParser
from .common import *

BOUNDS = ("arguments of up to 4 arbitrary characters in each quoting style (3 in concatenations of up to three parts), "
          "raw double-quoted texts of up to 5 characters, separators and comments of up to 4 characters in every "
          "position of a small module, nesting of up to four statements in every shape, arbitrary module bodies of up to "
          "5 characters from the alphabet of the grammar")

ERRORS = (ParserException, InvalidArgument)


def parse(text):
    return ModuleParser(text).parse()


def tree(st):
    return (st.prefix, st.keyword, st.argument, [tree(s) for s in st.substatements])


def parents(st):
    return all(s.superstmt is st and parents(s) for s in st.substatements)


def same(sx, a, b):
    """equality of trees as a formula where it is possible"""
    if (a is None) or (b is None):
        return a is None and b is None
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return False
        return sx.And(*[same(sx, x, y) for x, y in zip(a, b)])
    if len(a) != len(b):
        return False
    return a == b


def quoted(sx, style, v):
    """the text of a string in a quoting style, or None if it cannot be written so"""
    if style == "sq":
        sx.assume(sx.And(*[c != "'" for c in v]))
        return "'" + v + "'"
    if style == "unq":
        sx.assume(len(v) > 0)
        sx.assume(sx.And(*[sx.Not(sx.char_in(c, " \t\r\n;{}\"'")) for c in v]))
        for i in range(len(v) - 1):
            sx.assume(sx.Not(sx.And(v[i] == "/", sx.char_in(v[i + 1], "/*"))))
            sx.assume(sx.Not(sx.And(v[i] == "*", v[i + 1] == "/")))
        return v
    out = '"'
    for c in v:
        if c == "\\":
            out = out + "\\\\"
        elif c == '"':
            out = out + '\\"'
        elif c == "\n":
            out = out + "\\n"
        elif c == "\t":
            out = out + "\\t"
        elif style == "dq":
            out = out + c
    return out + '"'


@task(cases=[{"style": s, "n": n, "sub": b} for s in ("sq", "dq", "unq") for n in (4,)
             for b in (False, True)],
      thorough_cases=[{"style": s, "n": 6, "sub": b} for s in ("sq", "dq", "unq") for b in (False, True)])
def argument(sx, style, n, sub):
    v = sx.str("v", 0, n)
    end = " { p:inner x; }" if sub else " ;" if style == "unq" else ";"
    st = parse("module m { ext:kw-1 " + quoted(sx, style, v) + end + " other; }")
    kw, other = st.substatements
    sx.observe("argument", kw.argument)
    sx.check(same(sx, kw.argument, v), "argument is the string that was written")
    sx.check(kw.keyword == "kw-1" and kw.prefix == "ext", "keyword and prefix")
    sx.check([tree(s) for s in kw.substatements] ==
             ([("p", "inner", "x", [])] if sub else []), "substatements")
    sx.check(tree(other) == (None, "other", None, []), "next statement")
    sx.check(parents(st), "parent links")
    sx.check(kw.argument is not None and other.argument is None, "presence of argument")


@task(cases=[{"end": e} for e in (";", "{}", "{a;}", " ;", "/**/;", "//\n{}")])
def unquoted_end(sx, end):
    """an unquoted argument reaches up to the delimiter (slashes included)"""
    v = sx.str("v", 1, 4, alphabet="a/*:+\\")
    t = quoted(sx, "unq", v)
    if end[0] == "/":
        sx.assume(v[-1] != "/")
    elif end[0] == "*":
        sx.assume(v[-1] != "/")
    st = parse("module m { k " + t + end + " }")
    sx.observe("argument", st.substatements[0].argument)
    sx.check(same(sx, st.substatements[0].argument, v), "unquoted argument")
    sx.check(len(st.substatements) == 1 and
             len(st.substatements[0].substatements) == (1 if "a" in end else 0), "structure")


@task(cases=[{"styles": list(s)} for s in (("dq", "dq"), ("dq", "sq"), ("sq", "dq"), ("sq", "sq"),
                                           ("sq", "dq", "sq"), ("dq", "sq", "dq"))])
def concat(sx, styles):
    """concatenation of quoted parts"""
    vs = [sx.str(f"v{i}", 0, 2 if len(styles) == 2 else 1) for i in range(len(styles))]
    text = ""
    whole = ""
    for i, (s, v) in enumerate(zip(styles, vs)):
        if i:
            text = text + sx.choice(f"plus{i}", ["+", "\n+ // c'\"\n", "/* +;{ */+ "])
        text = text + quoted(sx, s, v)
        whole = whole + v
    st = parse("module m { k " + text + sx.choice("end", [";", "\n{}"]) + " l 'x'; }")
    sx.observe("argument", st.substatements[0].argument)
    sx.check(same(sx, st.substatements[0].argument, whole), "concatenated argument")
    sx.check(tree(st.substatements[1]) == (None, "l", "x", []), "next statement")


# independent reading of double-quoted strings (RFC 7950, section 6.1.3)
BAD = object()


def column(text):
    c = 0
    for ch in text:
        c = 0 if ch == "\n" else c + 8 if ch == "\t" else c + 1
    return c


def dq_value(raw, col):
    """value of raw double-quoted text whose opening quote is in column col"""
    # lines of items (char, literal?)
    lines, cur, i = [], [], 0
    while i < len(raw):
        c = raw[i]
        if c == "\\":
            i += 1
            d = raw[i]
            if d == "n":
                cur.append(("\n", False))
            elif d == "t":
                cur.append(("\t", False))
            elif d == '"':
                cur.append(('"', False))
            elif d == "\\":
                cur.append(("\\", False))
            else:
                return BAD
        elif c == "\n":
            lines.append(cur)
            cur = []
        else:
            cur.append((c, True))
        i += 1
    lines.append(cur)
    out = ""
    for k, line in enumerate(lines):
        if k < len(lines) - 1:
            while line and line[-1][1] and (line[-1][0] == " " or line[-1][0] == "\t"):
                line = line[:-1]
        if k:
            w = 0
            while line and line[0][1] and (line[0][0] == " " or line[0][0] == "\t"):
                w += 8 if line[0][0] == "\t" else 1
                line = line[1:]
            out = out + "\n" + " " * max(0, w - col - 1)
        for c, _ in line:
            out = out + c
    return out


def complete(raw):
    """no unescaped quote in the text, no backslash left open at its end"""
    i = 0
    while i < len(raw):
        if raw[i] == '"':
            return False
        if raw[i] == "\\":
            i += 1
            if i == len(raw):
                return False
        i += 1
    return True


@task(cases=[{"n": 4}], thorough_cases=[{"n": 6}])
def escapes(sx, n):
    """raw double-quoted text: escapes, unknown escapes are refused"""
    raw = sx.str("raw", 0, n, alphabet="\\nt\"ax'")
    sx.assume(complete(raw))
    want = dq_value(raw, 11)
    r = sx.attempt(lambda: parse('module m {k "' + raw + '";}'), InvalidArgument)
    sx.observe("kind", r[0])
    if want is BAD:
        sx.check(r[0] == "exc", "unknown escape is refused")
    else:
        sx.check(r[0] == "ok", "accepted")
        sx.check(same(sx, r[1].substatements[0].argument, want), "escape sequences")


@task(cases=[{"times": n} for n in (3, 1500)])
def many_escapes(sx, times):
    """number of escapes does not matter"""
    v = sx.str("v", 1, 1, alphabet='nt"\\')
    st = parse('module m {k "' + ("a\\" + v) * times + '";}')
    c = {"n": "\n", "t": "\t", '"': '"', "\\": "\\"}
    want = None
    for k in c:
        if v == k:
            want = ("a" + c[k]) * times
    sx.check(st.substatements[0].argument == want, "many escapes")


@task(cases=[{"pre": p, "n": n, "alpha": a} for p in (" ", "  ", "\n", "\n\t", "\t ")
             for n, a in ((4, " \t\nx"), (5, " \nx"), (4, " \n\\n"))],
      thorough_cases=[{"pre": p, "n": 6, "alpha": " \t\n\\n"} for p in (" ", "\n", "\n\t")])
def trimming(sx, pre, n, alpha):
    """indentation and trailing white space of multi-line strings"""
    head = "module m {" + ("\n" if pre[0] != "\n" else "") + " " * 0 + "k" + pre + '"'
    raw = sx.str("raw", 1, n, alphabet=alpha)
    sx.assume(complete(raw))
    sx.assume(sx.Or(*[c == "\n" for c in raw]))
    col = column(head[:-1])
    want = dq_value(raw, col)
    r = sx.attempt(lambda: parse(head + raw + '";}'), InvalidArgument)
    if want is BAD:
        sx.check(r[0] == "exc", "unknown escape is refused")
        return
    sx.check(r[0] == "ok", "accepted")
    got = r[1].substatements[0].argument
    sx.observe("argument", got)
    sx.check(same(sx, got, want), "trimmed argument")


@task(cases=[{"q": q} for q in ("dq", "sq")])
def wide_trimming(sx, q):
    """spaces in front of a continuation line, up to deep indentation"""
    k, a, b = sx.int("column", 0, 9), sx.int("tabs", 0, 2), sx.int("spaces", 0, 12)
    k, a, b = sx.settle(k), sx.settle(a), sx.settle(b)
    c = sx.str("c", 1, 1, alphabet="xyz")
    if q == "sq":
        st = parse("module m {\n" + " " * k + "k 'a \n" + "\t" * a + " " * b + c + "';}")
        want = "a \n" + "\t" * a + " " * b + c
    else:
        st = parse("module m {\n" + " " * k + 'k "a \n' + "\t" * a + " " * b + c + '";}')
        want = "a\n" + " " * max(0, 8 * a + b - (k + 3)) + c
    sx.check(same(sx, st.substatements[0].argument, want), "indentation")


@task()
def crlf(sx):
    """line breaks of either kind between tokens and in strings"""
    nl = sx.choice("nl", ["\n", "\r\n"])
    v = sx.str("v", 1, 2, alphabet="ab ")
    st = parse(f"module m {{{nl}k {nl}'" + v + f"'{nl};{nl}// comment{nl}l{nl}/*{nl}*/{nl}b{nl}{{ }}{nl}"
               f"d \"x{nl}     y\";}}{nl}")
    k, l, d = st.substatements
    sx.check(same(sx, k.argument, v), "argument")
    sx.check(tree(l) == (None, "l", "b", []), "unquoted argument")
    sx.check(d.argument == "x" + nl + "  y", "multi-line string")


# optional separators at every position of a module
TOKENS = ["module", " ", "m", "?", "{", "?", "p:leaf", " ", '"a;b"', "?", "+", "?", "'c'", "?", "{", "?",
          "type", " ", "x", "?", ";", "?", "}", "?", "cont", "?", "{", "?", "}", "?", "k", "?", ";", "?", "}", "?"]
SLOTS = [i for i, t in enumerate(TOKENS) if t in " ?"]
TREE = (None, "module", "m", [("p", "leaf", "a;bc", [(None, "type", "x", [])]), (None, "cont", None, []),
                              (None, "k", None, [])])


def is_sep(s, mandatory):
    """s consists of white space and comments"""
    i = 0
    ws = False
    while i < len(s):
        c = s[i]
        if c == " " or c == "\n" or c == "\t":
            i += 1
            ws = True
        elif c == "/" and i + 1 < len(s):
            if s[i + 1] == "/":
                i += 2
                while i < len(s) and s[i] != "\n":
                    i += 1
                if i == len(s):
                    return False
            elif s[i + 1] == "*":
                i += 2
                while i + 1 < len(s) and not (s[i] == "*" and s[i + 1] == "/"):
                    i += 1
                if i + 1 >= len(s):
                    return False
                i += 2
            else:
                return False
        else:
            return False
    return ws or not mandatory


@task(cases=[{"slot": i} for i in SLOTS], thorough_cases=[{"slot": i, "n": 6} for i in SLOTS])
def separators(sx, slot, n=5):
    """any white space and comments have no effect"""
    s = sx.str("sep", 0, n, alphabet="/* \n\"';}")
    mandatory = TOKENS[slot] == " "
    if mandatory:
        lead = sx.choice("lead", [" ", "\t"])
        s = lead + s
    sx.assume(is_sep(s, mandatory))
    text = ""
    for i, t in enumerate(TOKENS):
        text = text + (s if i == slot else "" if t == "?" else t)
    st = parse(text)
    sx.check(tree(st) == TREE, "separator has no effect")


@task(cases=[{"kind": k, "slot": i} for k in ("//", "/*") for i in SLOTS[::3]])
def comments(sx, kind, slot):
    """text of comments is arbitrary"""
    c = sx.str("comment", 0, 4)
    if kind == "//":
        sx.assume(sx.And(*[x != "\n" for x in c]))
        s = " //" + c + "\n"
    else:
        sx.assume(sx.And(*[sx.Not(sx.And(c[i] == "*", c[i + 1] == "/")) for i in range(len(c) - 1)]))
        s = " /*" + c + "*/"
    text = ""
    for i, t in enumerate(TOKENS):
        text = text + (s if i == slot else "" if t == "?" else t)
    sx.check(tree(parse(text)) == TREE, "comment has no effect")


@task()
def nesting(sx):
    """every tree of four statements below the module"""
    stack = [("m", [])]
    text = "module m {"
    for i in range(4):
        d = sx.choice(f"depth{i}", list(range(len(stack))))
        while len(stack) > d + 1:
            text += "}" if stack[-1][1] or stack[-1][2] else ";"
            stack.pop()
        up = stack[-1]
        if len(stack) > 1 and not up[1] and not up[2]:
            text += "{"
        arg = sx.choice(f"arg{i}", [None, "x"]) if i < 2 else f"a{i}"
        node = (f"k{i}", [], False, arg)
        up[1].append(node)
        text += f" k{i}" + ("" if arg is None else " " + arg)
        stack.append(node)
    while len(stack) > 1:
        text += "}" if stack[-1][1] else ";"
        stack.pop()
    st = parse(text + "}")

    def want(n):
        return (None, n[0], n[3], [want(x) for x in n[1]])
    sx.check([tree(s) for s in st.substatements] == [want(x) for x in stack[0][1]], "nesting")
    sx.check(parents(st), "parent links")


class Ref:
    """strict recursive-descent parser after RFC 7950, section 6; None where text is not valid"""

    def __init__(self, text):
        self.t = text
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def sep(self):
        """skip separators; True if white space was present, None if comment is malformed"""
        ws = False
        while True:
            c = self.peek()
            if c is None:
                return ws
            if c == " " or c == "\n":
                self.i += 1
                ws = True
            elif c == "/" and self.i + 1 < len(self.t):
                d = self.t[self.i + 1]
                if d == "/":
                    while self.peek() is not None and self.peek() != "\n":
                        self.i += 1
                    if self.peek() is None:
                        raise ValueError
                elif d == "*":
                    j = self.i + 2
                    while j + 1 < len(self.t) and not (self.t[j] == "*" and self.t[j + 1] == "/"):
                        j += 1
                    if j + 1 >= len(self.t):
                        raise ValueError
                    self.i = j + 2
                else:
                    return ws
            else:
                return ws

    def ident(self):
        s = self.i
        while self.peek() is not None and self.peek() == "a":
            self.i += 1
        if s == self.i:
            raise ValueError
        return self.t[s:self.i]

    def stmt(self):
        pref, kw = None, self.ident()
        if self.peek() is not None and self.peek() == ":":
            self.i += 1
            pref, kw = kw, self.ident()
        ws = self.sep()
        c = self.peek()
        if c is None:
            raise ValueError
        arg = None
        if not (c == ";" or c == "{"):
            if not ws:
                raise ValueError
            arg = self.arg(c)
            self.sep()
            c = self.peek()
            if c is None:
                raise ValueError
        self.i += 1
        if c == ";":
            return (pref, kw, arg, [])
        if not (c == "{"):
            raise ValueError
        return (pref, kw, arg, self.body())

    def body(self):
        out = []
        while True:
            self.sep()
            c = self.peek()
            if c is None:
                raise ValueError
            if c == "}":
                self.i += 1
                return out
            out.append(self.stmt())

    def arg(self, c):
        if c == '"' or c == "'":
            val = ""
            while True:
                q = self.peek()
                if q is None:
                    raise ValueError
                if q == '"':
                    col = column(self.t[:self.i])
                    j = self.i + 1
                    while True:
                        if j >= len(self.t):
                            raise ValueError
                        if self.t[j] == '"':
                            break
                        j += 2 if self.t[j] == "\\" else 1
                    v = dq_value(self.t[self.i + 1:j], col)
                    if v is BAD:
                        raise ValueError
                elif q == "'":
                    j = self.i + 1
                    while True:
                        if j >= len(self.t):
                            raise ValueError
                        if self.t[j] == "'":
                            break
                        j += 1
                    v = self.t[self.i + 1:j]
                else:
                    raise ValueError
                val = val + v
                self.i = j + 1
                save = self.i
                self.sep()
                if self.peek() is not None and self.peek() == "+":
                    self.i += 1
                    self.sep()
                else:
                    self.i = save
                    return val
        s = self.i
        while True:
            c = self.peek()
            if c is None:
                raise ValueError
            if c == " " or c == "\n" or c == ";" or c == "{":
                break
            if c == '"' or c == "'" or c == "}":
                raise ValueError
            if c == "/" and self.i + 1 < len(self.t) and (self.t[self.i + 1] == "/" or self.t[self.i + 1] == "*"):
                break
            if c == "*" and self.i + 1 < len(self.t) and self.t[self.i + 1] == "/":
                raise ValueError
            self.i += 1
        if s == self.i:
            raise ValueError
        return self.t[s:self.i]


@task(cases=[{"pre": p, "n": n} for p, n in (("", 4), ("a ", 4), ("a:a ", 3), ("a;", 3), ("a '", 4), ('a "', 4),
                                             ("a{", 3), ("a a", 4), ("/*", 3), ("a '' +", 3), ("a", 4))],
      thorough_cases=[{"pre": p, "n": 5} for p in ("", "a ", 'a "', "a a", "/*", "a '' +")], budget=200)
def free(sx, pre, n):
    """arbitrary text: what is valid is read as RFC 7950 says, the rest fails with a parser error"""
    t = sx.str("t", 0, n, alphabet="a:;{}\"'+/* \n\\")
    text = "module m{" + pre + t + "}"
    ref = Ref(text)
    ref.i = len("module m{")
    try:
        want = (None, "module", "m", ref.body())
        ref.sep()
        if ref.peek() is not None:
            want = None
    except ValueError:
        want = None
    r = sx.attempt(lambda: parse(text), *ERRORS)
    sx.observe("kind", r[0])
    if want is not None:
        sx.check(r[0] == "ok", "valid text is accepted")
        sx.check(same(sx, tree(r[1]), want), "valid text is read exactly")


@task(cases=[{"what": w} for w in ("name", "rev", "kw", "trailing")])
def documented_errors(sx, what):
    """mismatches are reported with the documented exceptions"""
    c = sx.str("c", 1, 2, alphabet="ab1")
    if what == "name":
        sx.assume(sx.Or(c[0] == "a", c[0] == "b"))
        r = sx.attempt(lambda: ModuleParser("module " + c + " {}", name="a").parse(), ModuleNameMismatch)
        sx.check(sx.Iff(r[0] == "ok", c == "a"), "module name")
    elif what == "rev":
        rev = sx.choice("rev", ["", "2020-01-01", "2020-01-02"])
        r = sx.attempt(lambda: ModuleParser("module " + "m { " + ("revision " + rev + ";" if rev else "") +
                                            " revision 2019-01-01; }" if rev else "module m {}",
                                            rev="2020-01-01").parse(), ModuleRevisionMismatch)
        sx.check(sx.Iff(r[0] == "ok", rev == "2020-01-01"), "revision")
    elif what == "kw":
        kw = sx.choice("kw", ["module", "submodule", "leaf", "m:module2", "modules"])
        r = sx.attempt(lambda: parse(kw + " m {}"), UnexpectedInput)
        sx.check(sx.Iff(r[0] == "ok", kw in ("module", "submodule")), "top-level statement")
    else:
        r = sx.attempt(lambda: parse("module m {}" + c), UnexpectedInput)
        sx.check(r[0] == "exc", "text after the module")
