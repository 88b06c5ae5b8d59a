"""Random documents and queries.  Nothing here knows what a query returns: the cases are
judged by the specification."""
import random

QKEYS = ["a", "b", "c", "ab", "abc", "ba", "d", "A", "_x1", "other", "array"]
XKEYS = ["", " ", "a ", "a.b", "*", "\\\"", "a\\\\", "a\\\"b", "[0]", "{", "}", ":", ",", "a:b", "\u00e9", "\\u0061", "0", "ABC", "aa", "abcd",
         "a_rather_long_member_name_that_nobody_queries"]
STRS = ["", "x", "yy", "hello", "a", "b", "{", "}", "[", "]", ",", ":", "a,b", "{\\\"a\\\":1}", "[1,2]", "\\\\", "\\\"", "\\\\\\\"", "x\\ny", " lead", "trail ",
        "\\u00e9", "\u00e9\u00ff", "true", "null", "12", "\":\\\"".replace("\"", "\\\"", 1), "'", "//", "\\\\\\\\", "a]}", "{\\\"b\\\" : [", "tab\\t"]
for _n in range(1, 8):
    STRS += ["\\\\" * _n + "\\\"", "x" + "\\\\" * _n, "\\\\" * _n + "\\\" , [", "\\\"" * _n + "\\\\"]
    XKEYS += ["\\\\" * _n + "\\\"", "a" + "\\\\" * _n]
PLAIN = ["", "x", "yy", "hello", "a", "b", "xx", "X", "hell", "12", "it's", "a\\\\b", "\\\"", "x y", "a]", "@.a", "\u00e9", "a,b"]
NUMS = ["0", "1", "2", "3", "7", "12", "20", "-3", "-1", "1.5", "2e3", "-0.5", "0.25", "1E2", "10", "5e-1", "-0", "3.0", "100"]
LONGNUMS = ["123456789012345678901234567890", "0.00000000001", "-1.0e+10", "1e-5", "3.141592653589793"]

class Opt:
    """Parameters of a document generator"""
    def __init__(self, **kw):
        self.depth, self.width, self.ws, self.nasty, self.dup, self.keys, self.filterable = 4, 4, 1, 1, 1, QKEYS[:6], False
        self.objects = 0.5
        self.__dict__.update(kw)

def prim(r, o):
    x = r.random()
    if x < .4:
        return ("p", r.choice(NUMS if o.filterable or r.random() < .9 else LONGNUMS))
    if x < .6:
        return ("p", r.choice(["true", "false", "null"]))
    return ("p", '"' + r.choice(STRS if o.nasty and r.random() < .6 else PLAIN) + '"')

def value(r, o, d):
    x = r.random()
    if d <= 0 or x < .3:
        return prim(r, o)
    n = r.choice([0, 1, 1, 2, 2, 3, 3, r.randint(0, o.width)])
    if x < .3 + .7 * o.objects:
        m = []
        used = set()
        for _ in range(n):
            k = r.choice(XKEYS) if o.nasty and r.random() < .12 else r.choice(o.keys)
            if k in used and not (o.dup and r.random() < .3):
                continue
            used.add(k)
            m.append((k, value(r, o, d - 1)))
        return ("o", m)
    return ("a", [value(r, o, d - 1) for _ in range(n)])

def tree(r, o):
    while True:
        t = value(r, o, o.depth)
        if t[0] != "p" and t[1]:
            return t

def render(r, t, ws):
    """ws: 0 none, 1 some, 2 much"""
    out = []
    pool = ["", "", "", " ", "\n", "\n  ", "\t", "  ", "\r\n"] if ws < 2 else [" ", "\n", "\t \n", "\r\n\r\n", "   ", ""]
    def w():
        if ws:
            out.append(r.choice(pool))
    def go(t):
        if t[0] == "p":
            out.append(t[1])
        elif t[0] == "o":
            out.append("{"); w()
            for i, (k, v) in enumerate(t[1]):
                if i:
                    out.append(","); w()
                out.append('"' + k + '"'); w(); out.append(":"); w()
                go(v); w()
            out.append("}")
        else:
            out.append("["); w()
            for i, v in enumerate(t[1]):
                if i:
                    out.append(","); w()
                go(v); w()
            out.append("]")
    w(); go(t); w()
    return "".join(out)

# ---------------------------------------------------------------- queries
def K(n): return {"t": "k", "n": n}
def DK(n): return {"t": "dk", "n": n}
STAR, DSTAR, ALL = {"t": "*"}, {"t": "d*"}, {"t": "[*]"}
def IX(i): return {"t": "[i]", "i": i}
def SL(a, b): return {"t": "[:]", "lo": [] if a is None else [a], "hi": [] if b is None else [b]}
def FAR(form, lo, x): return {"t": "[far]", "form": form, "lo": [] if lo is None else [lo], "x": x}
def FI(e): return {"t": "?", "e": e}

def V(*p): return {"t": "v", "p": list(p)}
def N(s): return {"t": "n", "v": s}
def S(s): return {"t": "s", "v": s}
def O(s): return {"t": "o", "v": s}

def expr_text(e):
    return "".join("@" + "".join("." + k for k in x["p"]) if x["t"] == "v" else ('"%s"' if "'" in x["v"] else "'%s'") % x["v"] if x["t"] == "s" else x["v"] for x in e)

def query_text(q):
    out = ["$"]
    for s in q:
        t = s["t"]
        out.append("." + s["n"] if t == "k" else ".." + s["n"] if t == "dk" else ".*" if t == "*" else "..*" if t == "d*" else
                   "[*]" if t == "[*]" else "[%d]" % s["i"] if t == "[i]" else
                   "[%s:%s]" % (s["lo"][0] if s["lo"] else "", s["hi"][0] if s["hi"] else "") if t == "[:]" else
                   "[%s]" % s["x"] if t == "[far]" and s["form"] == "at" else "[%s:]" % s["x"] if t == "[far]" and s["form"] == "from" else
                   "[%s:%s]" % (s["lo"][0] if s["lo"] else "", s["x"]) if t == "[far]" else
                   "[?(%s)]" % expr_text(s["e"]))
    return "".join(out)

def descends(s): return s["t"] in ("dk", "d*")

def supported(q):
    """the same definition as Supported in JSONPath.tla (the specification checks it too)"""
    seen = False
    for s in q:
        if seen and s["t"] in ("[i]", "[:]", "[far]", "?"):
            return False
        seen = seen or descends(s)
    return True

CMPS = ["==", "!=", "<", ">", "<=", ">="]

def gen_expr(r, keys, depth=2, arith=True):
    """A filter expression as symbols.  Arithmetic stays small and exact: fractions are dyadic,
    divisors are powers of two."""
    budget = [2]
    def var():
        return [V(*[r.choice(keys) for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3]))])]
    def num():
        return [N(r.choice(["0", "1", "2", "3", "7", "12", "0.5", "1.5", "20", "100", "-1", "-3"]))]
    def atom():
        return var() if r.random() < .7 else num()
    def calc():
        e = atom()
        while arith and budget[0] > 0 and r.random() < .3:
            budget[0] -= 1
            o = r.choice(["+", "-", "*", "/", "%"])
            e += [O(o)] + ([N(r.choice(["2", "4", "0.5"]))] if o == "/" else
                           [O("(")] + atom() + [O(r.choice("+-"))] + atom() + [O(")")] if r.random() < .2 and o in "+-*" else atom())
        return e
    def rel():
        x = r.random()
        if x < .5:
            return calc() + [O(r.choice(CMPS))] + calc()
        if x < .75:
            return var() + [O(r.choice(CMPS)), S(r.choice(PLAIN))]
        if x < .8:
            return [S(r.choice(PLAIN)), O(r.choice(CMPS))] + var()
        return var()
    def boolean(d):
        x = r.random()
        if d == 0 or x < .35:
            return rel()
        if x < .45:
            return [O("!")] + (var() if r.random() < .5 else [O("(")] + boolean(d - 1) + [O(")")])
        if x < .6:
            return [O("(")] + boolean(d - 1) + [O(")")]
        e = boolean(d - 1)
        for _ in range(r.choice([1, 1, 2])):
            e = e + [O(r.choice(["&&", "||"]))] + boolean(d - 1)
        return e
    return boolean(r.randint(0, depth))

def child_vars(e):
    return [x["p"] for x in e if x["t"] == "v"]

def paths(t):
    out = []
    def walk(v, p):
        if p:
            out.append(p)
        if v[0] == "o":
            for k, c in v[1]:
                walk(c, p + [("k", k, c)])
        elif v[0] == "a":
            for i, c in enumerate(v[1]):
                walk(c, p + [("i", i, c)])
    walk(t, [])
    return out

def ok_name(k):
    return k != "" and (k[0].isascii() and (k[0].isalpha() or k[0] == "_")) and all(c.isascii() and (c.isalnum() or c == "_") for c in k)

FARAWAY = ["2147483647", "2147483648", "2147483646", "4294967296", "4294967297", "99999999999", "9007199254740993", "1" + "0" * 30]
def far(r, i=0):
    """bounds that no array reaches"""
    return FAR(r.choice(["at", "from", "upto", "upto", "upto"]), r.choice([None, None, 0, i, max(0, i - 1), i + 1]), r.choice(FARAWAY))

def random_query(r, steps, kinds, keys):
    q = []
    for _ in range(r.randint(1, steps)):
        k = r.choice(kinds)
        q.append(K(r.choice(keys)) if k == "k" else DK(r.choice(keys)) if k == "dk" else STAR if k == "*" else DSTAR if k == "d*" else
                 ALL if k == "[*]" else IX(r.randint(0, 3)) if k == "[i]" else
                 far(r) if k == "[:]" and r.random() < .04 else
                 r.choice([SL(None, r.randint(0, 3)), SL(r.randint(0, 3), None), SL(r.randint(0, 2), r.randint(0, 5))]) if k == "[:]" else
                 FI(gen_expr(r, keys)))
    return fix(q)

def fix(q):
    """cut the query in front of a step that would make it unsupported; empty slices are kept simple"""
    out = []
    for s in q:
        if not supported(out + [s]):
            break
        out.append(s)
    return out

def guided_query(r, t, kinds, keys, steps=6, nest=None):
    """generalises a random path of the document, so that most queries select something"""
    ps = paths(t)
    if not ps or r.random() < .08:
        return random_query(r, min(steps, 4), kinds, keys)
    p = r.choice(ps)
    if nest:
        p = max([r.choice(ps) for _ in range(nest)], key=len)
    q, j, seen = [], 0, False
    while j < len(p):
        kind, l, node = p[j]
        c = []
        if kind == "k" and "k" in kinds and ok_name(l):
            c += [K(l)] * 3
        if "*" in kinds:
            c.append(STAR)
        if kind == "i":
            if "[*]" in kinds:
                c += [ALL] * 2
            if not seen:
                if "[i]" in kinds:
                    c += [IX(l)] * 2
                if "[:]" in kinds:
                    a, b = r.choice([None, max(0, l - 1), l]), r.choice([None, l + 1, l + 2])
                    c += [SL(a if b is not None or a is not None else l, b)] * 2
                    if r.random() < .04:
                        c += [far(r, l)] * 4
                if "?" in kinds and node[0] == "o":
                    own = [k for k, _ in node[1] if ok_name(k)]
                    c += [FI(gen_expr(r, own * 2 + keys if own else keys))] * 5
        for m in range(j, min(len(p), j + 4)):
            if p[m][0] == "k" and "dk" in kinds and ok_name(p[m][1]) and r.random() < .4:
                c.append((m + 1, DK(p[m][1])))
        if "d*" in kinds and r.random() < .5:
            c.append((r.randint(j + 1, len(p)), DSTAR))
        if not c:
            return random_query(r, min(steps, 4), kinds, keys)
        s = r.choice(c)
        if isinstance(s, tuple):
            q.append(s[1]); j = s[0]; seen = True
        else:
            q.append(s); j += 1
        if len(q) >= steps:
            break
    return fix(q) or [K(keys[0])]

PATH = ["k", "*", "dk", "d*", "[*]", "[i]", "[:]"]
FILT = ["k", "*", "[*]", "[i]", "[:]", "?", "?", "dk"]

def key_set(r, usual=.85):
    x = r.random()
    if x < usual:
        return r.choice([QKEYS[:3], QKEYS[:4], QKEYS[:6], QKEYS])
    if r.random() < .35:
        return r.choice([["name", "Name", "NAME", "nam", "names"], ["a1", "a2", "a11", "_a", "a_", "a__b"], ["x", "X", "xx", "xX", "x1"]])
    # long names with a common beginning, or a common end
    n = r.choice([3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257])
    w = "".join(r.choice("pqr_") for _ in range(n - 1))
    return r.choice([["p" + w + c for c in "abc"] + ["p" + w], [c + "p" + w for c in "ab"] + ["p" + w, w[1:] + "_ab" if n > 3 else "ab"]])

def case(r, profile="mix", filters=False):
    """a document (text, tree) and a query"""
    if profile == "mix" and r.random() < .2:
        return special(r, filters)
    if profile == "mix":
        x = r.random()
        profile = "small" if x < .35 else "plain" if x < .6 else "ws" if x < .72 else "objects" if x < .8 else "arrays" if x < .88 else "deep" if x < .95 else "wide"
    keys = key_set(r)
    o = {"small": Opt(depth=3, width=3, ws=0), "plain": Opt(depth=5, width=5, ws=0), "ws": Opt(depth=4, width=4, ws=2),
         "objects": Opt(depth=5, objects=.85), "arrays": Opt(depth=5, objects=.2), "deep": Opt(depth=12, width=2, ws=0),
         "wide": Opt(depth=2, width=40, ws=0)}[profile]
    o.keys = keys
    if filters:
        o.dup, o.filterable, o.nasty = 0, True, r.random() < .3
        o.objects = .6
        t = wrap_objects(r, tree(r, o), keys, o)
    else:
        t = tree(r, o)
    doc = render(r, t, o.ws)
    kinds = FILT if filters else r.choice([PATH, PATH, ["k", "[*]", "[i]", "[:]"], ["k", "*", "dk", "d*"], ["k", "dk", "[*]"]])
    q = guided_query(r, t, kinds, keys)
    if filters and not any(s["t"] == "?" for s in q):
        # a filter somewhere in front of the first descendant step
        k = next((i for i, s in enumerate(q) if descends(s)), len(q))
        pos = [i for i in range(k) if q[i]["t"] in ("[*]", "[i]", "[:]", "*")]
        i = r.choice(pos) if pos else r.randint(0, k)
        f = FI(gen_expr(r, keys))
        if pos:
            q[i] = f
        else:
            q.insert(i, f)
    return doc, t, q

def wrap_objects(r, t, keys, o):
    """makes arrays of objects frequent, for filters"""
    def go(t, d):
        if t[0] == "o":
            return ("o", [(k, go(v, d + 1)) for k, v in t[1]])
        if t[0] == "a":
            kids = [go(v, d + 1) for v in t[1]]
            out = []
            for v in kids:
                if v[0] != "o" and r.random() < .6:
                    ks = r.sample(keys, min(len(keys), r.randint(1, 3)))
                    v = ("o", [(ks[0], v)] + [(k, prim(r, o)) for k in ks[1:]])
                    if r.random() < .5:
                        v[1].reverse()
                out.append(v)
            return ("a", out)
        return t
    t = go(t, 0)
    if t[0] == "o" and r.random() < .5:
        t = ("a", [t] + [("o", [(k, prim(r, o)) for k in r.sample(keys, min(len(keys), 2))]) for _ in range(r.randint(0, 3))])
    return t

# ---------------------------------------------------------------- shapes that random documents rarely have
def special(r, filters=False):
    """long arrays with a few members that differ, deep nests, many members, many candidates in one
    filtered object, long texts, long queries, arrays of arrays"""
    f = r.choice(FILTER_SHAPES if filters else SHAPES)
    t, q = f(r)
    return render(r, t, r.choice([0, 0, 0, 1, 2])), t, fix(q)

def P(x): return ("p", x)
def A(*x): return ("a", list(x))
def OB(*x): return ("o", list(x))

def near(r, *xs):
    return max(0, r.choice(xs) + r.choice([-1, 0, 0, 0, 1]))

def some_range(r, n, m):
    """an index or slice around position m of an array of n elements"""
    return r.choice([far(r, m) if r.random() < .2 else IX(near(r, m)), IX(near(r, m)), SL(near(r, m), None), SL(None, near(r, m, m + 1)), SL(near(r, 0, m // 2, m), near(r, m, m + 1, n)), ALL, SL(near(r, n), None), SL(m + 1, max(0, m - 1))])

def filler(r):
    return r.choice([lambda: P(r.choice(NUMS)), lambda: P('"' + r.choice(PLAIN) + '"'), lambda: A(), lambda: OB(), lambda: A(P("1")), lambda: A(A()),
                     lambda: OB(("b", P("1"))), lambda: OB(("b", A(P("2")))), lambda: A(OB(("b", P('"y"'))))])

def wrap(r, t, q):
    """puts the document below some more containers"""
    for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
        if r.random() < .5:
            k = r.choice(QKEYS[:4])
            m = [(k, t)]
            if r.random() < .5:
                m.insert(r.choice([0, 1]), (r.choice([x for x in QKEYS if x != k]), filler(r)()))
            t, q = ("o", m), [r.choice([K(k), K(k), STAR] + ([DK(k), DSTAR] if not any(s["t"] in ("[i]", "[:]", "[far]", "?") for s in q) else []))] + q
        else:
            i = r.randint(0, 3)
            fill = filler(r)
            e = [fill() for _ in range(i)] + [t] + [fill() for _ in range(r.randint(0, 2))]
            t, q = ("a", e), [r.choice([IX(i), ALL, SL(i, i + 1), SL(i, None), STAR])] + q
    return t, q

def marked_array(r):
    n = r.choice([5, 11, 20, 40, 60, 100, 130])
    fill = filler(r)
    e = [fill() for _ in range(n)]
    last = n - 1
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        last = r.randint(0, n - 1)
        e[last] = r.choice([A(P("1"), P("2"), P("3")), A(P("0"), A(P("5"))), OB(("a", P("7"))), OB(("b", A()), ("a", A(P("8")))), A(OB(("a", P("9"))), OB(("a", P("10"))))])
    then = r.choice([[], [IX(1)], [IX(2)], [ALL], [SL(1, None)], [K("a")], [STAR], [ALL, K("a")], [K("a"), ALL], [DK("a")], [DSTAR], [IX(1), IX(0)], [ALL, ALL]])
    return wrap(r, ("a", e), [some_range(r, n, last)] + then)

def two_levels(r):
    """an array of arrays of different lengths"""
    n, kind = r.choice([2, 4, 8, 25]), filler(r)
    def row():
        return r.choice([lambda: A(*[kind() for _ in range(r.choice([0, 1, 2, 3, 5, 12]))])] * 5 + [lambda: kind()])()
    rows = [row() for _ in range(n)]
    q = [some_range(r, n, r.randint(0, n - 1)), some_range(r, 5, r.randint(0, 4))] + r.choice([[], [], [K("b")], [ALL], [STAR], [IX(0)], [DSTAR]])
    if r.random() < .4:
        rows = [OB(("b", x), ("a", y)) if r.random() < .5 else OB(("a", y)) for x, y in zip(rows, [row() for _ in rows])]
        q = [q[0], K("a")] + q[1:]
    return wrap(r, ("a", rows), q)

def deep_nest(r):
    n = r.choice([5, 12, 20, 30, 40, 46])
    t, kinds = r.choice([P("1"), A(), OB(), A(P("1"), P("2")), OB(("a", P("1")), ("b", P("2")))]), r.choice(["o", "a", "oa", "ooa", "oaa"])
    q = []
    for i in range(n):
        k = r.choice(kinds)
        if k == "o":
            key = r.choice(["a", "a", "b"])
            m = [(key, t)]
            if r.random() < .2:
                m.insert(r.choice([0, 1]), ("c", P(r.choice(NUMS))))
            t = ("o", m)
            q.insert(0, K(key))
        else:
            e = [t]
            if r.random() < .2:
                e.insert(r.choice([0, 1]), P(r.choice(NUMS)))
            t = ("a", e)
            q.insert(0, ALL)
    x = r.random()
    if x < .35 and n <= 30:
        # the path itself, as far as automata stay small
        q = [STAR if r.random() < .1 else s for s in q][:r.randint(1, n)]
    elif x < .5:
        q = [DSTAR]
    elif x < .7:
        q = [DK(r.choice("abc"))]
    elif x < .8:
        q = [DK("a"), DK("b")]
    else:
        q = r.choice([[DK("a"), STAR], [STAR, DK("a")], [DK("a"), ALL], [DSTAR, K("a")], [K("a"), DSTAR, K("b")], [DK("b"), DSTAR]])
    return t, q

def many_members(r):
    n = r.choice([20, 60, 101, 150])
    names = ["k%d" % i for i in range(n)] if r.random() < .6 else [r.choice("ab") + "".join(r.choice("xyz") for _ in range(r.randint(1, 6))) + str(i) for i in range(n)]
    fill = filler(r)
    m = [(k, fill()) for k in names]
    hit = [r.randint(0, n - 1) for _ in range(2)]
    for i in hit:
        m[i] = (names[i], r.choice([P('"hit"'), A(P("1"), P("2")), OB(("a", P("7")), (names[0], P("8")))]))
    q = r.choice([[K(names[hit[0]])], [DK(names[hit[0]])], [STAR], [DSTAR], [K(names[hit[1]]), STAR], [STAR, K("a")], [DK(names[0])], [K(names[hit[1]]), ALL], [STAR, IX(1)], [K("nothing")]])
    return wrap(r, ("o", m), q)

def long_query(r):
    """a chain that the query follows step by step, with things beside it"""
    n = r.choice([6, 10, 16, 24])
    t, q = r.choice([P('"end"'), A(P("1")), OB(("a", P("1")))]), []
    for _ in range(n):
        if r.random() < .6:
            k = r.choice(QKEYS[:6])
            m = [(k, t)]
            if r.random() < .4:
                m.insert(r.choice([0, 1]), (r.choice([x for x in QKEYS if x != k]), filler(r)()))
            t = ("o", m)
            q.insert(0, r.choice([K(k), K(k), K(k), STAR]))
        else:
            i = r.randint(0, 2)
            fill = filler(r)
            t = ("a", [fill() for _ in range(i)] + [t] + [fill() for _ in range(r.randint(0, 2))])
            q.insert(0, r.choice([IX(i), ALL, SL(i, i + 1), SL(None, i + 1)]))
    return t, q

def long_texts(r):
    n = r.choice([60, 99, 100, 101, 127, 128, 255, 256, 500, 999, 1000, 1001, 1023, 1024, 1025])
    s = "".join(r.choice('abc {}[],:') for _ in range(n))
    x = r.choice([P('"' + s + '"'), P("1" * n), A(P('"' + s + '"'), P("1")), OB(("a", P('"' + s + '"')), ("b", P("2"))), OB((s, P("3")))])
    e = [P("1"), x, P('"z"')]
    r.shuffle(e)
    return wrap(r, ("a", e), r.choice([[ALL], [DSTAR], [IX(1)], [STAR, STAR], [ALL, K("a")], [ALL, K("b")], [DK("b")]]))

def truth(r, key, hold):
    """members that make a condition on key true, or not"""
    return [(key, P("5" if hold else "1"))] if r.random() < .8 else ([(key, P('"x"'))] if not hold else [(key, P("5"))])

def many_candidates(r):
    """filtered objects with their condition before, between or behind many candidates"""
    n, out = r.choice([1, 2, 3, 8, 30]), []
    for _ in range(n):
        k = r.choice([0, 1, 2, 5, 12] if n > 3 else [0, 1, 3, 20, 99, 100, 101, 150])
        el = r.choice([lambda i: P(str(i)), lambda i: OB(("d", P(str(i)))), lambda i: A(P(str(i)))])
        m = [("b", A(*[el(i) for i in range(k)]))]
        for x in truth(r, "c", r.random() < .5):
            m.insert(r.choice([0, 1]), x)
        if r.random() < .3:
            m.append(("b", A(P("77"))) if r.random() < .3 else ("e", P("1")))
        if r.random() < .15:
            m = [x for x in m if x[0] != "c"]
        out.append(OB(*m))
    for _ in range(r.choice([0, 0, 1, 3])):
        out.insert(r.randint(0, len(out)), filler(r)())
    e = r.choice([[V("c"), O(">"), N("3")], [V("c"), O("=="), N("5")], [V("c"), O("<="), N("1")], [O("!"), V("e")], [V("c"), O(">"), N("3"), O("&&"), O("!"), V("e")],
                  [V("b")], [V("c"), O("!="), S("x")], [V("e"), O("||"), V("c"), O(">"), N("3")]])
    return wrap(r, ("a", out), [FI(e)] + r.choice([[], [K("b")], [K("b"), ALL], [K("b"), ALL, STAR], [STAR], [DK("d")], [K("b"), IX(1)], [K("b"), SL(1, 3)], [DSTAR], [STAR, STAR], [K("c")]]))

def nested_filters(r):
    """filters below filters, each decided early or late"""
    depth = r.choice([2, 2, 2, 3, 3, 4, 5, 6, 8])
    left = [300]
    def obj(d):
        m = truth(r, "c", r.random() < (.7 if depth < 5 else .9))
        if d > 0:
            left[0] -= 1
            n = r.choice([0, 1, 1, 2, 3]) if depth < 5 else r.choice([1, 1, 1, 2, 2, 0, 3]) if left[0] > 0 else 1
            m.insert(r.choice([0, 1]), ("b", A(*[obj(d - 1) if r.random() < .85 + .1 * (depth > 4) else filler(r)() for _ in range(n)])))
            if r.random() < .2 and left[0] > 0:
                m.insert(0, ("a", A(obj(d - 1))))
        else:
            m.insert(r.choice([0, 1]), ("d", P(str(r.randint(0, 99)))))
            if r.random() < .3:
                m.append(("d2", A(P("1"))))
        return OB(*m)
    e = [r.choice([[V("c"), O(">"), N("3")], [V("c"), O("=="), N("5")], [V("c")], [O("!"), O("("), V("c"), O("<"), N("3"), O(")")], [V("c"), O("!="), N("1")]]) for _ in range(depth)]
    q = [FI(e[0])]
    for i in range(1, depth):
        q += [K("b"), r.choice([FI(e[i]), FI(e[i]), FI(e[i]), ALL])]
    q += r.choice([[], [K("d")], [STAR], [K("c")], [DK("d")], [STAR, STAR], [DSTAR]])
    return wrap(r, A(*[obj(depth - 1) for _ in range(r.choice([1, 2, 3, 5]))]), q)

def many_conditions(r):
    """expressions that read many members, also below members"""
    names = r.sample(QKEYS[:7] + ["v1", "v2", "v3", "w"], r.choice([2, 3, 5, 8]))
    ps = [r.choice([[k], [k], [k, r.choice("ab")], [k, "b", "c"], [k] + [r.choice("abc") for _ in range(r.choice([3, 4, 6, 9]))]]) for k in names]
    def put(p, leaf):
        return (p[0], leaf) if len(p) == 1 else (p[0], OB(*( ([("z", P("1"))] if r.random() < .2 else []) + [put(p[1:], leaf)])))
    def obj():
        m = [put(p, P(r.choice(["0", "1", "2", "5", '"x"', "true", "null", "false"]))) for p in ps if r.random() < .85]
        r.shuffle(m)
        m.insert(r.randint(0, len(m)), ("out", r.choice([P("42"), A(P("1"), P("2")), OB(("b", P("3")))])))
        return OB(*m)
    e = []
    for i, p in enumerate(ps):
        if i:
            e.append(O(r.choice(["&&", "||", "&&"])))
        e += r.choice([[V(*p)], [O("!"), V(*p)], [V(*p), O(r.choice(CMPS)), N(r.choice("0125"))], [V(*p), O(r.choice(["==", "!="])), S("x")], [N("1"), O("<"), V(*p)]])
    q = [FI(e)] + r.choice([[K("out")], [], [STAR], [K("out"), ALL], [K(names[0])], [K("out"), K("b")]])
    return wrap(r, A(*[obj() if r.random() < .9 else filler(r)() for _ in range(r.choice([1, 2, 4, 10]))]), q)

def filter_then_range(r):
    """indexes and filters in one path"""
    def obj():
        return OB(*([("c", P(r.choice(["1", "5"])))] if r.random() < .9 else []), ("b", A(*[r.choice([P(str(i)), OB(("c", P(r.choice("15"))), ("d", P(str(i))))]) for i in range(r.choice([0, 2, 4]))])))
    rows = [A(*[obj() for _ in range(r.choice([0, 1, 3]))]) for _ in range(r.choice([2, 4, 6]))]
    f = FI([V("c"), O(">"), N("3")])
    q = r.choice([[some_range(r, 4, 2), f, K("b")], [ALL, f, K("b"), some_range(r, 3, 1)], [some_range(r, 4, 1), f, K("b"), f, K("d")], [some_range(r, 4, 1), some_range(r, 3, 1), K("b"), f],
                  [STAR, f, STAR], [some_range(r, 4, 3), f]])
    return wrap(r, A(*rows), q)

SHAPES = [marked_array, marked_array, two_levels, deep_nest, many_members, long_query, long_texts]
FILTER_SHAPES = [many_candidates, nested_filters, many_conditions, filter_then_range]

# ---------------------------------------------------------------- documents beyond the usual sizes
def huge(r, filters=False, size=1500):
    """thousands of elements, members or candidates, texts of tens of thousands of characters"""
    n = r.choice([size // 2, size, size + r.randint(0, 50)])
    x = r.random()
    if filters:
        row = r.choice([lambda i: OB(("c", P(str(i % 9))), ("b", P(str(i)))), lambda i: OB(("b", A(P(str(i)))), ("c", P(str(i % 9)))), lambda i: OB(("b", P('"' + "y" * (i % 40) + '"')), ("c", P("5")))])
        f = FI(r.choice([[V("c"), O(">"), N("3")], [V("c"), O("=="), N("5")], [O("!"), O("("), V("c"), O("<"), N("7"), O(")")]]))
        if x < .4:
            t, q = A(*[row(i) for i in range(n // 3)]), [f, K("b")]
        elif x < .7:
            # one object whose condition comes first or last, around many candidates
            m = [("b", A(*[P(str(i)) for i in range(n)]))]
            m.insert(r.choice([0, 1]), ("c", P("8")))
            t, q = A(OB(*m), OB(*m[::-1])), [f, K("b"), ALL]
        else:
            s = "".join(r.choice("abc {}[],:") for _ in range(8 * n))
            t, q = A(*[OB(("s", P('"' + s + '"')), ("b", P("1")), ("c", P(c))) for c in "58"]), [f, r.choice([K("b"), K("s"), STAR])]
    elif x < .35:
        t, q = marked(r, n)
    elif x < .55:
        fill = filler(r)
        names = ["%s%d" % (r.choice(["k", "a", "ab"]), i) for i in range(n)]
        k = r.choice([names[0], names[-1], r.choice(names)])
        t, q = ("o", [(y, fill()) for y in names]), r.choice([[K(k)], [DK(k)], [STAR]])
    elif x < .75:
        s = "".join(r.choice("abc {}[],:") for _ in range(r.choice([8 * n, 16 * n, 40 * n])))
        e = [P("1"), P('"' + s + '"'), OB((s[:70], P('"' + s[::-1] + '"')), ("a", P("2")), ("b", A(P("3")))), P("1" * n)]
        r.shuffle(e)
        t, q = ("a", e), r.choice([[ALL], [DSTAR], [DK("a")], [ALL, K("b"), IX(0)], [IX(2)]])
    else:
        rows = [A(*[P(str((i * j) % 10)) for j in range(r.choice([0, 1, 3, 30]))]) for i in range(n // 20)]
        t, q = ("a", rows), [some_range(r, len(rows), len(rows) - 1), some_range(r, 30, 20)]
    t, q = wrap(r, t, q)
    return render(r, t, r.choice([0, 0, 1])), t, fix(q)

def marked(r, n):
    """an array of n elements with a range near one of its far elements"""
    fill = filler(r)
    e = [fill() for _ in range(n)]
    i = r.randint(n // 2, n - 1)
    e[i] = r.choice([A(P("1"), P("2")), OB(("a", P("7"))), P('"hit"')])
    return ("a", e), [r.choice([IX(i), SL(i, None), SL(i - 1, i + 1), SL(n - 3, n + 3), IX(n)])] + r.choice([[], [IX(1)], [K("a")]])

def endless(r, n=66000):
    """an array with more elements than fit into 16 bits"""
    d = "[" + ",".join(str(i % 10) for i in range(n)) + ',["x"],{"a":"y"}]'
    return d, r.choice([[IX(n)], [SL(n - 2, n + 1)], [SL(65534, 65538)], [SL(n, None), IX(0)]])

# ---------------------------------------------------------------- queries with many states or many names
def many_states(r, filters=False):
    """queries whose automata have more than 100 states, or that mention more than 250 names"""
    if not filters and r.random() < .25:
        # a long path: one state for each step
        n = r.choice([20, 60, 96, 97, 98, 99, 100, 101, 102, 103, 130])
        keys = r.choice([["a"], ["a", "b"], QKEYS[:6]])
        q = [r.choice([K(r.choice(keys))] * 6 + [DK(r.choice(keys))] + [ALL]) for _ in range(n)]
        t = P('"end"')
        for st in (q if n < 30 and r.random() < .8 else q[:r.randint(5, 25)])[::-1]:
            m = A(t, P("1")) if st["t"] == "[*]" else OB((st["n"], t)) if r.random() < .7 else OB((r.choice(QKEYS), P("0")), (st["n"], t))
            t = m
        return render(r, t, r.choice([0, 0, 1])), t, fix(q)
    if not filters and r.random() < .7:
        n = r.choice([5, 6, 6, 7, 7, 8])
        q = [DK("a")] + [r.choice([STAR, STAR, STAR, STAR, ALL, K("b")]) if i else STAR for i in range(n)]
        budget = [r.choice([60, 150, 400])]
        if r.random() < .25:
            # everything the automaton can remember about the path
            q = [DK("a")] + [STAR] * r.choice([6, 7])
            full = lambda d: OB(("z", P(str(d)))) if d == 0 else OB(("a", full(d - 1)), ("b", full(d - 1)))
            return render(r, full(len(q)), 0), full(len(q)), q
        def go(d):
            budget[0] -= 1
            if d == 0 or budget[0] <= 0 or r.random() < .08:
                return P(str(d)) if r.random() < .7 else r.choice([OB(), A(), P('"x"')])
            if r.random() < .2:
                return A(*[go(d - 1) for _ in range(r.choice([1, 2]))])
            ks = r.choice([["a", "b"], ["b", "a"], ["a"], ["c", "a"], ["a", "b", "c"]])
            return OB(*[(k, go(d - 1)) for k in ks])
        t = go(r.choice([9, 10, 12]))
        return render(r, t, r.choice([0, 0, 1])), t, q
    m = r.choice([98, 99, 100, 101, 130, 252, 253, 254, 255, 256, 257, 300])
    names = ["m%d" % i for i in range(m)]
    many = []
    for i, k in enumerate(names):
        many += ([O("||")] if i else []) + r.choice([[V(k)], [V(k)], [V(k), O(">"), N("3")], [V(k, "c")]])
    # members around the places where a table might end
    some = sorted(set([0, m - 1] + [r.choice([r.randint(0, m - 1), min(m - 1, r.choice([97, 98, 99, 100, 101, 251, 252, 253, 254, 255]))]) for _ in range(4)]))
    def obj():
        ms = [(names[i], r.choice([P("5"), P("1"), P("false"), OB(("c", P("1"))), OB(("c", P("false")))])) for i in some if r.random() < (.75 if i == m - 1 else .35)]
        ms += [(k, P("1")) for k in ("zz", "m") if r.random() < .3]
        ms.append(("b", A(*[OB(("c", P(r.choice("15"))), ("d", P(str(j))), ("m0", P("7"))) for j in range(r.choice([1, 2]))])))
        r.shuffle(ms)
        return OB(*ms)
    t = A(*[obj() for _ in range(r.choice([2, 4, 8]))])
    f = FI([V("c"), O(">"), N("3")])
    q = r.choice([[FI(many)] + r.choice([[], [K("b")], [K("b"), ALL, K("d")], [STAR], [STAR], [DSTAR], [K("b"), f], [K("b"), f, K("d")], [K("b"), f, STAR], [DK("d")], [STAR, STAR, K("d")]]),
                  [f if r.random() < .2 else FI([V("b")]), K("b"), FI(many)] + r.choice([[], [K("d")], [STAR]])])
    t, q = wrap(r, t, q)
    return render(r, t, r.choice([0, 0, 1])), t, fix(q)

def many_names(r):
    """hundreds of names that are alike, in several places"""
    n = r.choice([63, 64, 65, 130, 400])
    stem = r.choice(["k", "key_", "x" * 40, ""])
    names = list(dict.fromkeys(stem + "".join(r.choice("abc") for _ in range(r.choice([2, 5, 9]))) + r.choice(["", "", str(i)]) for i in range(n)))
    names = [k for k in names if k and not k[0].isdigit()]
    def some(d):
        m = [(k, P(r.choice(NUMS))) for k in r.sample(names, min(len(names), r.choice([3, 40, n])))]
        for i in r.sample(range(len(m)), min(len(m), 3)):
            if d > 0:
                m[i] = (m[i][0], r.choice([some, lambda d: A(some(d), P("1")), lambda d: A()])(d - 1))
        return OB(*m)
    t = r.choice([lambda: some(2), lambda: A(some(1), some(1)), lambda: OB(("a", some(1)), ("b", some(1)))])()
    k = r.sample(names, min(len(names), 4))
    q = r.choice([[K(k[0]), K(k[1])], [DK(k[0])], [STAR, K(k[0])], [K("a"), K(k[0])], [ALL, K(k[1]), ALL], [DSTAR], [K("a"), STAR], [DK(k[0]), DK(k[1])], [FI([V(k[0]), O("=="), V(k[1])]), K(k[2])]])
    return render(r, t, 0), t, q
