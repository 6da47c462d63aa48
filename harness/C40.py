"""What errors say: place, tag and message."""
import itertools
from symex.api import task
from yangson.statement import ModuleParser
from yangson.parser import Parser
from .schema import *

BOUNDS = ("types derived in up to three levels with any combination of error-app-tag and error-message on their range, length and "
          "pattern restrictions, and arbitrary integers, decimal numbers and strings of up to 6 characters; every small document "
          "of schemas with containers, choices, lists, leaf-lists, references and must expressions; raw values of about ten "
          "kinds at each place of a document (JSON and XML); all texts of up to 8 characters for line and column; module texts with "
          "a stray character after any of their tokens")

KINDS = {
    "int8": ("int8", "range", ["-90..90", "-9..50", "1..5 | 40..41"], lambda v, r: any(a <= v <= b for a, b in r)),
    "uint16": ("uint16", "range", ["5..9000", "10..max", "min..99"], None),
    "decimal64": ("decimal64 { fraction-digits 2; R }", "range", ["-9.5..9.5", "0..9.25", "min..3"], None),
    "length": ("string", "length", ["0..5", "1..4", "2 | 4"], None),
    "binary": ("binary", "length", ["0..5", "1..4", "2 | 4"], None),
    "pattern": ("string", "pattern", ["[a-c]*", ".*[ab]", "a.*"], None),
}
ALLOWED = {"int8": [[(-90, 90)], [(-9, 50)], [(1, 5), (40, 41)]], "uint16": [[(5, 9000)], [(10, 9000)], [(10, 99)]],
           "decimal64": [[(-950, 950)], [(0, 925)], [(0, 300)]],
           "length": [[(0, 5)], [(1, 4)], [(2, 2), (4, 4)]], "binary": [[(0, 5)], [(1, 4)], [(2, 2), (4, 4)]]}
INFO = ["", "T", "M", "TM"]


def restriction(kw, arg, info, n):
    more = ("error-app-tag tag%d; " % n if "T" in info else "") + ("error-message msg%d; " % n if "M" in info else "")
    return f'{kw} "{arg}" {{ {more}}}' if more else f'{kw} "{arg}";'


def spelled(base, r):
    return base.replace("R", r) if "R" in base else f"{base} {{ {r} }}"


@task(cases=[{"kind": k, "levels": n} for k in KINDS for n in (1, 2, 3)], budget=200)
def restrictions(sx, kind, levels):
    """the error of a value is that of a restriction it violates"""
    base, kw, args, _ = KINDS[kind]
    infos = [sx.choice(f"info{n}", INFO) for n in range(levels)]
    rs = [restriction(kw, args[n], infos[n], n) for n in range(levels)]
    body, typ = "", None
    for n in range(levels):
        t = spelled(base if n == 0 else f"t{n - 1}", rs[n])
        if n < levels - 1:
            body += f"typedef t{n} {{ type {t}{'' if t.endswith('}') else ';'} }}\n"
        else:
            body += f"leaf a {{ type {t}{'' if t.endswith('}') else ';'} }}\n"
    dm = model(body)
    if kind in ("int8", "uint16"):
        v = sx.int("v", -140, 140) if kind == "int8" else sx.int("v", -2, 70000)
        raw, size = v, v
    elif kind == "decimal64":
        v = sx.int("v", -12, 12)
        raw, size = sx.choice("d", ["-9.51", "-0.01", "0.00", "3.00", "3.01", "9.25", "9.3", "9.50", "9.51", "10.0"]), None
        size = round(float(raw) * 100)
    elif kind == "binary":
        n = sx.choice("v", range(7))
        import base64
        raw, size = base64.b64encode(b"abcdef"[:n]).decode(), n
    else:
        raw = sx.str("v", 0, 6, "abc1")
        size = len(raw)
    if kind == "pattern":
        good = [sx.And(*[c in "abc" for c in raw]), sx.And(len(raw) > 0, raw[-1:] != "c", raw[-1:] != "1"), raw[:1] == "a"][:levels]
    else:
        good = [sx.Or(*[sx.And(size >= a, size <= b) for a, b in r]) for r in ALLOWED[kind][:levels]]
    r = sx.attempt(lambda: dm.from_raw({"m:a": raw}).validate(), YangTypeError)
    sx.check(sx.Iff(r[0] == "ok", sx.And(*good)), "validity")
    if r[0] == "ok":
        return
    e = r[1]
    sx.observe("error", (e.tag, e.message))
    sx.check(e.instance.json_pointer() == "/m:a", "place")
    told = []
    for n in range(levels):
        tag = f"tag{n}" if "T" in infos[n] else "invalid-type"
        if "M" in infos[n]:
            msg = e.message[:4] == f"msg{n}"
        else:
            msg = len(e.message) > 0 and e.message[:3] != "msg"
        told.append(sx.And(sx.Not(good[n]), e.tag == tag, msg))
    sx.check(sx.Or(*told), "tag and message of a violated restriction")


@task()
def both(sx):
    """length and patterns of one type, and several types in one document"""
    dm = model("""
typedef t { type string { length 1..3 { error-app-tag len; error-message L; } pattern "[a-b]*" { error-app-tag pat; error-message P; }
  pattern "a.*" { error-app-tag inv; modifier invert-match; error-message I; } } }
leaf-list a { type t; ordered-by user; }
leaf b { type t { length 2..3; } }
leaf u { type union { type int8 { range "1..3" { error-app-tag un; error-message U; } } type t; } }
leaf r { type leafref { path "/b"; require-instance false; } }""")
    s = [sx.str(f"s{i}", 0, 3, "abc") for i in range(2)]
    s2 = sx.str("s2", 0, 4, "abc")
    u = sx.choice("u", [2, 5, "a", "b", "cc"])

    def ok_t(x, lo=1):
        return {"len": sx.And(len(x) >= lo, len(x) <= 3), "pat": sx.And(*[c in "ab" for c in x]), "inv": x[:1] != "a"}
    dm.from_raw({"m:b": s2})     # another value of the type before
    sx.attempt(lambda: dm.from_raw({"m:b": s2}).validate(), YangTypeError)
    where = sx.choice("where", ["a", "b", "r", "u"])
    if where == "u" and u not in (2, "b"):
        inst = dm.from_raw({"m:u": 2})
        r = sx.attempt(lambda: inst["m:u"].update(u).top().validate(), YangTypeError)
        sx.check(r[0] == "exc", "validity of the union")
        if r[0] == "exc":
            sx.check(r[1].tag == "invalid-type" and r[1].message == "expected union", "error of the union")
            sx.check(r[1].instance.json_pointer() == "/m:u", "place")
        return
    doc = {"a": {"m:a": s}, "b": {"m:b": s[0]}, "r": {"m:r": s[0]}, "u": {"m:u": u}}[where]
    r = sx.attempt(lambda: dm.from_raw(doc).validate(), YangTypeError, SemanticError)
    if where == "u":
        sx.check(r[0] == "ok", "validity of the union")
        return
    vals = {f"/m:a/{i}": ok_t(x) for i, x in enumerate(s)} if where == "a" else {"/m:" + where: ok_t(s[0], 2)}
    if where == "a" and r[0] == "exc" and isinstance(r[1], SemanticError):
        sx.check(sx.And(s[0] == s[1], r[1].tag == "repeated-leaf-list-values"), "repeated values")
        return
    allok = sx.And(*[c for p in vals for c in vals[p].values()])
    sx.check(sx.Iff(r[0] == "ok", sx.And(allok, where != "a" or s[0] != s[1])), "validity")
    if r[0] == "exc":
        e = r[1]
        p = e.instance.json_pointer()
        sx.check(p in vals, "place of the error")
        tag = "len" if e.tag == "invalid-type" else e.tag
        sx.check(tag in vals[p], "tag of a restriction")
        sx.check((e.tag == "invalid-type") == (tag == "len" and where != "a" and len(s[0]) == 1), "tag of the length")
        sx.check(sx.Not(vals[p][tag]), "the restriction is violated")
        want = {"len": "L" if e.tag == "len" else "", "pat": "P", "inv": "I"}[tag]
        sx.check(e.message[:len(want)] == want, "its message")


RULES = """
container c {
  must "a > 0" { error-app-tag neg; error-message "not positive"; }
  must "count(l) != 1 or a != 5";
  leaf a { type int8; default 1; }
  list l { key k; unique v; min-elements 1; max-elements 2;
    leaf k { type int8; }
    leaf v { type int8 { range "0..9" { error-app-tag rng; } } must ". != ../k" { error-message same; } }
    leaf r { type leafref { path "../../l/v"; } } }
  leaf-list x { type int8; max-elements 2; }
}
"""


@task(budget=200)
def rules(sx):
    """the error names a rule that is violated and the node that violates it"""
    dm = model(RULES)
    a = sx.int("a", -2, 6) if sx.bool("hasa") else None
    n = sx.choice("n", [None, 0, 1, 2, 3])
    ks = [sx.int(f"k{i}", 0, 2) for i in range(n or 0)]
    vs = [sx.int(f"v{i}", 0, 11) if sx.bool(f"hasv{i}") else None for i in range(min(n or 0, 2))] + [None] * max(0, (n or 0) - 2)
    r = sx.int("r", 0, 3) if n and n < 3 and sx.bool("hasr") else None
    xs = [sx.int(f"x{i}", 0, 3) for i in range(sx.choice("nx", [0, 1, 2, 3]) if n == 1 else 0)]
    c = {} if a is None else {"a": a}
    if n is not None:
        c["l"] = [{"k": k} | ({} if v is None else {"v": v}) for k, v in zip(ks, vs)]
        if r is not None:
            c["l"][0]["r"] = r
    if xs:
        c["x"] = xs
    A = 1 if a is None else a
    bad = {("neg", "/m:c"): A <= 0, ("must-violation", "/m:c"): n == 1 and A == 5,
           ("missing-data", "/m:c"): n is None, ("too-few-elements", "/m:c/l"): n == 0, ("too-many-elements", "/m:c/l"): n == 3,
           ("too-many-elements", "/m:c/x"): len(xs) == 3,
           ("repeated-leaf-list-values", "/m:c/x"): sx.Or(False, *[p == q for p, q in itertools.combinations(xs, 2)])}
    if n:
        bad["non-unique-key", "/m:c/l"] = sx.Or(False, *[p == q for p, q in itertools.combinations(ks, 2)])
        bad["data-not-unique", "/m:c/l"] = sx.Or(False, *[p == q for p, q in itertools.combinations(vs, 2) if p is not None and q is not None])
        for i, (k, v) in enumerate(zip(ks, vs)):
            if v is not None:
                bad["rng", f"/m:c/l/{i}/v"] = v > 9
                bad["must-violation", f"/m:c/l/{i}/v"] = v == k
        if r is not None:
            bad["instance-required", "/m:c/l/0/r"] = sx.Not(sx.Or(False, *[r == v for v in vs if v is not None]))
    inst = dm.from_raw({"m:c": c})
    o = sx.attempt(lambda: inst.validate(), ValidationError)
    sx.check(sx.Iff(o[0] == "ok", sx.Not(sx.Or(*bad.values()))), "validity")
    if o[0] == "exc":
        e = o[1]
        at = (e.tag, e.instance.json_pointer())
        sx.observe("error", at)
        sx.check(at in bad, "tag and place of an error")
        if at in bad:
            sx.check(bad[at], "the rule is violated there")
        msg = {"neg": "not positive", "must-violation": "same" if at[1] != "/m:c" else None, "rng": "not in range"}
        if e.tag in msg:
            sx.check(e.message == msg[e.tag], "message")
        text = str(e)
        head, _, rest = text[1:].partition("} ")
        sx.check(text[0] == "{" and rest.startswith(e.tag), "text of the error")
        same = inst if head == "/" else inst.goto(dm.parse_instance_id(head))
        sx.check(same.json_pointer() == at[1], "the text leads to the node")


def fills(n):
    """a few values of a data node"""
    if n["kind"] == "leaf":
        return [1]
    if n["kind"] == "ll":
        return [[1]]
    if n["kind"] == "list":
        return [[{x["name"]: 1 for x in n["ch"] if x["kind"] == "leaf"}]]
    out = [{}]
    for c in n["ch"]:
        opts = [y for x in c["ch"] for y in (x["ch"] if x["kind"] == "case" else [x])] if c["kind"] == "choice" else [c]
        if c["kind"] == "choice":
            out = [o | {x["name"]: v} for o in out for x in opts[:1] for v in fills(x)[:1]]
        else:
            out = [o | {c["name"]: v} for o in out for v in fills(c)]
    return [{}] + out


def choices(nodes):
    for n in nodes:
        if n["kind"] in ("choice", "case"):
            if n["kind"] == "choice":
                yield n
            yield from choices(n["ch"])


def data_nodes(nodes):
    for n in nodes:
        if n["kind"] in ("choice", "case"):
            yield from data_nodes(n["ch"])
        else:
            yield n


def extensions(nodes, obj):
    """objects with more members than the given one"""
    free = [n for n in data_nodes(nodes) if n["name"] not in obj]
    for vals in itertools.product(*[[None, *fills(n)] for n in free]):
        yield obj | {n["name"]: v for n, v in zip(free, vals) if v is not None}


def find(nodes, obj, ptr):
    """schema nodes and object at a JSON pointer"""
    for step in ptr:
        n = next(x for x in data_nodes(nodes) if x["name"] == step.split(":")[-1]) if not step.isdigit() else None
        if n is None:
            obj = obj[int(step)]
        else:
            nodes, obj = n["ch"] if "ch" in n else [], obj[step.split(":")[-1]]
            if n["kind"] == "list":
                nodes = [dict(x, mand=True) if x["name"] in n["key"].split() else x for x in nodes]
    return nodes, obj


def explain(sx, spec):
    """an error about members is true of the object it is reported for"""
    obj = subset(sx, spec)
    ct = sx.choice("ctype", [ALL, CFG])
    dm = model(text(spec))
    o = sx.attempt(lambda: dm.from_raw(qual(obj)).validate(ValidationScope.syntax, ct), ValidationError)
    if o[0] == "ok":
        sx.check(valid(spec, obj, ct), "validity")
        return
    e = o[1]
    p = e.instance.json_pointer()
    sx.observe("error", (p, e.tag, e.message))
    nodes, sub = find(spec, obj, [x for x in p.split("/") if x])
    sx.check(type(e) is SchemaError, "class of the error")
    if isinstance(sub, list):
        sx.check(False, "an object")
        return
    cands = [x for x in extensions(nodes, sub) if valid(nodes, x, ct)]
    if e.tag.endswith("member-not-allowed"):
        name = e.message.split(":")[-1]
        sx.check(name in sub, "the member is there")
        sx.check(e.tag == ("" if ct == ALL else "config ") + "member-not-allowed", "content type in the tag")
        # nothing can be added to make it right
        sx.check(not cands, "the member is not permitted")
    elif e.tag == "list-key-missing":
        sx.check(e.message not in sub, "the key is missing")
    else:
        sx.check(e.tag == "missing-data", "tag")
        msg = e.message
        sx.check(msg.startswith("expected ") and ("one of " in msg) == ("," in msg), "form of the message")
        want = [x.split(":")[-1] for x in msg[len("expected "):].replace("one of ", "").replace("'", "").split(", ")]
        names = [n["name"] for n in data_nodes(nodes)]
        chs = {"choice " + n["name"]: [x["name"] for x in data_nodes(n["ch"])] for n in choices(nodes)}
        sx.check(all(w in names or w in chs for w in want) and len(set(want)) == len(want), "names of nodes")
        sx.check(all(w not in sub for w in want), "they are missing")
        want = [x for w in want for x in chs.get(w, [w])]
        sx.check(all(any(w in x for w in want) for x in cands), "nothing is valid without one of them")


@task(cases=[{"a": a, "b": b} for a in (0, 1) for b in (0, 1)], budget=200)
def containers(sx, a, b):
    f = flags(sx, md=None, mf=None, pc=None, pe=None, sd=None)
    k = {"config": False} if f["sd"] else {}
    explain(sx, [leaf("a", bool(a)), leaf("b", bool(b)),
                 cont("c", [leaf("d", f["md"], **k), leaf("g"), cont("e", [leaf("f", f["mf"])], f["pe"])], f["pc"])])


@task(cases=[{"mh": a, "mp": b} for a in (0, 1) for b in (0, 1)], budget=200)
def cases(sx, mh, mp):
    f = flags(sx, mq=None, md=None, pc=None)
    explain(sx, [choice("h", [case("x", [leaf("p", bool(mp)), leaf("q", f["mq"])]), leaf("r"),
                              case("z", [cont("c", [leaf("d", f["md"])], f["pc"]), leaf("s")])], bool(mh)), leaf("t")])


@task(cases=[{"mh": a, "mi": b} for a in (0, 1) for b in (0, 1)], budget=200)
def nested(sx, mh, mi):
    f = flags(sx, mq=None, mr=None, mj=None)
    explain(sx, [choice("h", [case("x", [choice("i", [leaf("p"), case("o", [leaf("q", f["mq"]), leaf("u")])], bool(mi)),
                                         leaf("r", f["mr"])]), choice("j", [leaf("v"), leaf("w")], f["mj"])], bool(mh))])


@task(budget=200)
def sequences(sx):
    f = flags(sx, ml=[0, 1], mk=[0, 1], mv=None, mh=None)
    explain(sx, [choice("h", [case("x", [lst("l", "k", [leaf("k"), leaf("v", f["mv"])], min=f["ml"], least=1), leaf("a")]),
                              case("y", [ll("b", min=f["mk"]), leaf("d")])], f["mh"])])


RAW = """
container c { leaf i { type int8; } leaf s { type string; } leaf b { type boolean; } container d { leaf e { type empty; } } }
list l { key "k j"; leaf k { type string; } leaf j { type int8; } leaf v { type int64; } }
list n { config false; leaf w { type string; } }
leaf-list x { type int8; }
leaf r { type leafref { path "/x"; } }
"""
SCALARS = {"int8": [int], "string": [str], "boolean": [bool], "empty": [], "int64": [], "leafref": [int]}


@task(cases=[{"place": p} for p in ("c/i", "c/s", "c/b", "c/d/e", "c/d", "c", "l", "l/1", "l/1/v", "n/0/w", "n", "x", "x/1", "r", "?", "c/?", "l/0/?")])
def raw(sx, place):
    """an error of raw data tells the first place where it is wrong"""
    dm = model(RAW)
    doc = {"m:c": {"i": 1, "s": "a", "b": True, "d": {"e": [None]}}, "m:l": [{"k": "a", "j": 1, "v": "1"}, {"k": "b", "j": 2, "v": "2"}],
           "m:n": [{"w": "a"}], "m:x": [1, 2], "m:r": 1}
    v = sx.choice("value", [0, 1, "a", "1", True, None, [], [None], [1, 2], {}, {"e": [None]}, 1.5])
    steps = place.split("/")
    o = doc
    for s in steps[:-1]:
        o = o[int(s)] if s.isdigit() else o[s if s in o else "m:" + s]
    last = steps[-1]
    if last.isdigit():
        o[int(last)] = v
    else:
        o[last if o is not doc else "m:" + last] = v
    name = {"l": {"0": "=a,1", "1": "=b,2"}}
    ptr, prev = "", None
    for s in steps:
        ptr += name[prev][s] if prev in name else "/" + s if ptr else "/m:" + s
        prev = s
    # what the place may contain, and the place where it is wrong
    kinds = {"c/i": int, "c/s": str, "c/b": bool, "c/d": dict, "c": dict, "l": list, "l/1": dict, "n/0/w": str, "n": list, "x": list, "x/1": int, "r": int}
    k = kinds.get(place)
    if last == "?":
        want = (RawMemberError, ptr)
    elif place == "c/d/e":
        want = None if v == [None] else (RawTypeError, ptr)
    elif place == "l/1/v":
        want = None if v == "1" else (RawTypeError, ptr)
    elif type(v) is not k:
        want = (RawTypeError, {"l/1": "/m:l/1"}.get(place, ptr))
    elif place == "c":
        want = (RawMemberError, "/m:c/e") if v else None
    elif place == "l/1":
        want = (RawMemberError, "/m:l=<missing>,<missing>/e") if v else None
    elif place == "c/d":
        want = None
    elif k is list:
        bad = next((i for i, x in enumerate(v) if type(x) is not (int if place == "x" else dict)), None)
        want = None if bad is None else (RawTypeError, f"{ptr}/{bad}")
    else:
        want = None
    r = sx.attempt(lambda: dm.from_raw(doc), RawDataError)
    sx.observe("outcome", (r[0], type(r[1]).__name__, r[1].path if r[0] == "exc" else None))
    sx.check((want is None) == (r[0] == "ok"), "acceptance")
    if want and r[0] == "exc":
        sx.check(type(r[1]) is want[0], "class of the error")
        sx.check(r[1].path == want[1], "place of the error")
        sx.check(want[1] in str(r[1]), "text of the error")


@task(cases=[{"place": p} for p in ("c/i", "c/b", "c/d/e", "l/v", "l/j", "x", "c/?", "?", "l/?")])
def xml(sx, place):
    """the same for XML data"""
    dm = model(RAW)
    t = sx.choice("text", ["", "0", "a", "true", " ", "300", "1.5"])
    vals = {"c/i": "1", "c/b": "true", "c/d/e": None, "l/k": "a", "l/j": "1", "l/v": "1"}
    vals[place] = t or None
    root = ET.Element("content-data")
    ns = "{http://x/m}"
    c = ET.SubElement(root, ns + "c")
    for n in ("i", "b"):
        ET.SubElement(c, ns + n).text = vals["c/" + n]
    d = ET.SubElement(c, ns + "d")
    ET.SubElement(d, ns + "e").text = vals["c/d/e"]
    for i in range(2):
        e = ET.SubElement(root, ns + "l")
        for n in "kjv":
            ET.SubElement(e, ns + n).text = vals["l/" + n] if n != "k" else "ab"[i]
        if place == "l/?" and i:
            ET.SubElement(e, ns + "q").text = t
    for i in range(2):
        ET.SubElement(root, ns + "x").text = "1" if i == 0 or place != "x" else t
    if place == "c/?":
        ET.SubElement(c, ns + "q").text = t
    if place == "?":
        ET.SubElement(root, ns + "q").text = t
    number = t in ("0", "300")
    ok = {"c/i": number, "c/b": t == "true", "c/d/e": t == "", "l/v": number, "l/j": number, "x": number}.get(place, False)
    ptr = {"x": "/m:x/1", "c/?": "/m:c/q", "?": "/m:q", "l/?": "/m:l=b,1/q"}.get(place, "/m:" + place)
    if place in ("l/v", "l/j"):
        ptr = "/m:l=a," + (t if place == "l/j" else "1") + place[1:]
    r = sx.attempt(lambda: dm.from_xml(root), RawDataError)
    sx.observe("outcome", (r[0], type(r[1]).__name__, r[1].path if r[0] == "exc" else None))
    sx.check((r[0] == "ok") == ok, "acceptance")
    if not ok and r[0] == "exc":
        sx.check(type(r[1]) is (RawMemberError if "?" in place else RawTypeError), "class of the error")
        sx.check(r[1].path == ptr, "place of the error")


@task()
def lines(sx):
    """line and column of any position of any text"""
    t = sx.str("t", 0, sx.n(6, 8), "a\n\r")
    n = len(t)
    k = sx.int("k", 0, 8)
    sx.assume(k <= n)
    p = Parser(t)
    p.offset = k
    ln, col = p.line_column()
    before = t[:k]
    sx.check(ln == 1 + before.count("\n"), "line")
    i = before.rfind("\n")
    sx.check(col == (k - i - 1), "column")


TEXT = ["module", " ", "m", " ", "{", "\n", "prefix", " ", "m", ";", "\n ", "leaf", " ", "a", "\n", "{", "type", " ", "int8", ";", "\n", "}", "}"]


@task(cases=[{"at": i} for i, x in enumerate(TEXT) if x in ";{" or x == "}"])
def syntax(sx, at):
    """an error of a module text tells where the text is wrong"""
    ws = sx.str("ws", 0, 3, " \n\t")
    bad = sx.choice("bad", ["%", "1", "'", ";", "{", "+", "é", "-"])
    good = "".join(TEXT[:at + 1]) + ws
    text = good + bad + "".join(TEXT[at + 1:])
    r = sx.attempt(lambda: ModuleParser(text).parse(), ParserException, StatementNotFound, YangsonException)
    last = at == len(TEXT) - 1
    sx.check(r[0] == "exc" and isinstance(r[1], ParserException), "refused")
    if r[0] == "exc" and isinstance(r[1], ParserException):
        sx.check(r[1].parser.offset == len(good), "position")
        s = str(r[1])
        n = good.count("\n")
        col = len(good) - good.rfind("\n") - 1
        sx.check(s.startswith(f"line {n + 1}, column {col}"), "text of the error")


@task()
def lookups(sx):
    """an instance that doesn't exist is reported for the last one that does"""
    dm = model(RAW)
    ks = [sx.int(f"k{i}", 0, 2) for i in range(2)]
    doc = {}
    if sx.bool("c"):
        doc["m:c"] = {}
        if sx.bool("d"):
            doc["m:c"]["d"] = {"e": [None]} if sx.bool("e") else {}
    if sx.bool("l"):
        doc["m:l"] = [{"k": "a", "j": k} for k in ks]
    if sx.bool("x"):
        doc["m:x"] = ks
    inst = dm.from_raw(doc)
    what = sx.choice("what", ["/m:c/d/e", "/m:l[k='a'][j='1']/v", "/m:x[.='1']", "/m:x[3]", "/m:l[2]/v"])
    r = sx.attempt(lambda: inst.goto(dm.parse_instance_id(what)), NonexistentInstance)
    found = sx.Or(ks[0] == 1, ks[1] == 1)
    if what == "/m:c/d/e":
        c = doc.get("m:c")
        last = "/" if c is None else "/m:c" if "d" not in c else "/m:c/d" if not c["d"] else None
    elif what.startswith("/m:x"):
        last = "/" if "m:x" not in doc else "/m:x" if what == "/m:x[3]" or not found else None
    elif "m:l" not in doc:
        last = "/"
    elif what == "/m:l[2]/v":
        last = "/m:l/1"
    else:
        last = "/m:l" if not found else "/m:l/0" if ks[0] == 1 else "/m:l/1"
    sx.check((last is None) == (r[0] == "ok"), "existence")
    if r[0] == "exc" and last is not None:
        sx.check(r[1].instance.json_pointer() == last, "place")
        sx.check(str(r[1]).startswith("{" + str(r[1].instance.instance_route()) + "} "), "text")
