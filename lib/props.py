"""The checks, one function per property."""
import json, os, random, re
import build, gen, core
from core import esc

SYSTEM = "SPECIFICATION Spec\nPOSTCONDITION Consumed\n"
RUNS = "spozxf"         # lines that make a run

def run_case(doc, q, modes):
    """lines and record of a case for ConformRun; modes: list of run lines with %d-free text"""
    lines = ["P\t0\t" + esc(gen.query_text(q))] + modes
    return lines, {"q": q, "qt": gen.query_text(q), "doc": doc, "runs": sum(1 for m in modes if m[0] in RUNS)}

def C01(c):
    prog = c.program("run.c")
    cases = []
    for i in range(c.n(4000, 40000)):
        doc, t, q = gen.case(c.rng(i))
        cases.append(run_case(doc, q, ["s\t0\t" + esc(doc)]))
    for doc, q in huge_cases(c, 16):
        cases.append(run_case(doc, q, ["s\t0\t" + esc(doc)]))
    doc, q = gen.endless(c.rng("endless"))
    cases.append(run_case(doc, q, ["s\t0\t" + esc(doc)]))
    c.conform(prog, "ConformRun", cases)
    replay(c, prog, behaviours(c, c.n(9, 11), STEPS, 2), lambda d: ["s\t0\t" + esc(d)])
    replay(c, prog, behaviours(c, c.n(6, 8), STEPS, 3), lambda d: ["s\t0\t" + esc(d)])
    c.findings(prog)

def huge_cases(c, n, filters=(0,)):
    """documents beyond the usual sizes, and queries with many states or names"""
    for i in range(c.n(n, 10 * n)):
        r = c.rng("huge", i)
        doc, t, q = gen.huge(r, filters[i % len(filters)], c.n(1500, 4000))
        yield doc, q
    for i in range(c.n(2 * n, 20 * n)):
        doc, t, q = gen.many_states(c.rng("states", i), filters[i % len(filters)])
        yield doc, q

# ---------------------------------------------------------------- behaviours of the streaming machine
STEPS = [gen.K("a"), gen.STAR, gen.DK("a"), gen.DSTAR, gen.ALL, gen.IX(1), gen.SL(1, None)]
FSTEPS = [gen.FI([gen.V("a")]), gen.FI([gen.V("a"), gen.O("=="), gen.V("b")]), gen.K("a"), gen.ALL, gen.STAR]

def behaviours(c, tokens, steps, size, must="", names='"a", "b"', strings='"x"', words='"1"', most=1):
    """model checks MCStreaming and returns the texts (of up to most documents) it has written, for
    every query: (query, texts)"""
    path = c.scratch + "/steps.ndjson"
    with open(path, "w") as f:
        f.write("".join(json.dumps(s) + "\n" for s in steps))
    res = c.model("MCStreaming", """CONSTANTS
 MaxDocs = %d
 MaxTokens = %d
 MaxDepth = 5
 MaxSteps = %d
 Must = {%s}
 MemberNames = {%s}
 Strings = {%s}
 Words = {%s}
SPECIFICATION Spec
INVARIANTS Reads1 Exact Prompt Small Printed
PROPERTY Stable
""" % (most, tokens, size, must, names, strings, words), env={"STEPS": path})
    out = {}
    for l in res.printed:
        if l.startswith('<<"CASE", <<'):
            q, rest = l[len('<<"CASE", <<'):].split(">>, ", 1)
            n, doc = rest[:-2].split(", ", 1)
            out.setdefault(tuple(int(x) - 1 for x in q.split(",")), []).append((int(n), json.loads(doc)))
    c.extra["behaviours"] = c.extra.get("behaviours", 0) + sum(len(v) for v in out.values())
    return [([steps[i] for i in k], sorted(v)) for k, v in sorted(out.items())]

def many_case(q, docs, modes):
    """docs: texts; modes: function of a text that gives the run lines, the same number for each"""
    lines, per = ["P\t0\t" + esc(gen.query_text(q))], 0
    for d in docs:
        m = modes(d)
        per = sum(1 for l in m if l[0] in RUNS)
        lines += m
    return lines, {"q": q, "qt": gen.query_text(q), "docs": docs, "per": per}

def replay(c, prog, found, modes, pick=lambda n: True, size=60):
    cases = []
    for q, ds in found:
        ds = [d for n, d in ds if pick(n)]
        cases += [many_case(q, ds[i:i + size], modes) for i in range(0, len(ds), size)]
    c.conform(prog, "ConformMany", cases, label="enumerated")

def boundaries(d):
    """positions where a chunk may begin: member names and strings that are elements"""
    return [p for p in cuts(d) if d[p] == '"' and d[:p].rstrip(" \t\r\n")[-1:] in ("{", "[", ",")]

def steered(d, where):
    """the document with blanks in front of the given boundaries and at its end, so that it is cut
    exactly there when it is split into len(where) + 1 chunks, or loaded in pieces of the returned size"""
    n = len(where) + 1
    parts = [d[i:j] for i, j in zip([0] + where, where + [len(d)])]
    size = max([len(p) for p in parts[:-1]] + [len(parts[-1]) + n])
    return "".join(p.ljust(size) for p in parts[:-1]) + parts[-1].ljust(size - n), size

def replay_cuts(c, prog, found, modes, most, pick=lambda n: True, size=40):
    """modes: function of the document with blanks, the number of chunks and their size"""
    import itertools
    cases = []
    for q, ds in found:
        todo = []
        for n, d in ds:
            if pick(n):
                b = boundaries(d)
                todo += [steered(d, list(w)) + (k + 1,) for k in range(1, most + 1) for w in itertools.combinations(b, k)]
        for i in range(0, len(todo), size):
            part = {}
            for d, s, k in todo[i:i + size]:
                part[d] = (k, s)
            cases.append(many_case(q, list(part), lambda d: modes(d, *part[d])))
    c.extra["cut_documents"] = c.extra.get("cut_documents", 0) + sum(len(x[1]["docs"]) for x in cases)
    c.conform(prog, "ConformMany", cases, label="enumerated with cuts")

def parallel_model(c, tokens, steps, size, must="", most=1, depth=4):
    path = c.scratch + "/steps.ndjson"
    with open(path, "w") as f:
        f.write("".join(json.dumps(s) + "\n" for s in steps))
    c.model("MCParallel", """CONSTANTS
 MaxDocs = %d
 MaxTokens = %d
 MaxDepth = %d
 MaxSteps = %d
 MaxCuts = 2
 Must = {%s}
 MemberNames = {"a", "b"}
 Strings = {"x"}
 Words = {}
SPECIFICATION Spec
INVARIANTS Same Possible
""" % (most, tokens, depth, size, must), env={"STEPS": path})

def docs(c, n, salt="doc", nasty=True):
    """texts of documents in many layouts"""
    for i in range(n):
        r = c.rng(salt, i)
        o = gen.Opt(depth=r.choice([2, 3, 4, 5]), width=r.choice([3, 5, 8]), ws=r.choice([0, 1, 2]), nasty=nasty,
                    keys=r.choice([gen.QKEYS[:4], gen.QKEYS]))
        t = gen.tree(r, o)
        yield r, t, gen.render(r, t, o.ws)

# ---------------------------------------------------------------- texts, character by character
def texts(c, size, kinds="", blanks=0, inside="n", digits="1", braces=True):
    """model checks MCText and returns the well-formed texts it has written"""
    res = c.model("MCText", """CONSTANTS
 MaxLen = %d
 BlankKinds = {%s}
 MaxBlanks = %d
 Inside = {%s}
 Digits = {%s}
 Braces = %s
SPECIFICATION Spec
INVARIANTS Along Found Placed Cuttable Whole Printed
""" % (size, kinds, blanks, ", ".join(json.dumps(x) for x in inside), ", ".join(json.dumps(x) for x in digits), "TRUE" if braces else "FALSE"))
    out = sorted({json.loads(json.loads(l[len('<<"TEXT", '):-2])) for l in res.printed if l.startswith('<<"TEXT"')})
    c.extra["texts_enumerated"] = c.extra.get("texts_enumerated", 0) + len(out)
    return out

def all_texts(c, more=0):
    """strings that look like structure; blanks of every kind; numbers; nesting"""
    m = c.n(0, 1)
    out = texts(c, 7 + m, "1", 1, "n,]:") + texts(c, 7 + m + more, "", 0, "n{}[,:", "", False) + texts(c, 9 + m, "", 0, "n{")
    out += texts(c, 9 + m, "1, 2, 3, 4", 2, "", "1-", False) + texts(c, 9 + m, "2, 3", 2, "n", "1") + texts(c, 11 + m, "", 0, "n", "", True)
    out += texts(c, 10 + m, "3", 2, "n", "1-", False)
    return sorted(set(out))

def C08(c):
    prog = c.program("lex.c")
    ts = all_texts(c, 1)
    c.conform(prog, "ConformLexMany", [(["L\t" + esc(d) for d in ts[i:i + 60]], {"docs": ts[i:i + 60]}) for i in range(0, len(ts), 60)], label="enumerated")
    cases = []
    for r, t, d in docs(c, c.n(4000, 30000)):
        if r.random() < .15:
            d = gen.render(r, gen.prim(r, gen.Opt()), 1)
        elif r.random() < .25:
            # a piece that begins and ends at token boundaries
            b = sorted(r.sample(cuts(d), min(2, len(cuts(d)))))
            if len(b) == 2:
                d = d[b[0]:b[1]]
        cases.append((["L\t" + esc(d)], {"doc": d}))
    for r, d in long_texts(c):
        cases.append((["L\t" + esc(d)], {"doc": d}))
    for d, q in huge_cases(c, 12, (0, 1)):
        cases.append((["L\t" + esc(d)], {"doc": d}))
    c.conform(prog, "ConformLex", cases)

def cuts(d):
    """positions between two tokens (the specification has its own definition)"""
    out, i, n = [], 0, len(d)
    while i < n:
        out.append(i)
        ch = d[i]
        if ch == '"':
            j = i + 1
            while d[j] != '"':
                j += 2 if d[j] == "\\" else 1
            j += 1
            k = j
            while k < n and d[k] in " \t\r\n":
                k += 1
            i = k + 1 if k < n and d[k] == ":" else j
        elif ch in "{}[], \t\r\n":
            i += 1
        else:
            while i < n and d[i] not in ",]} \t\r\n":
                i += 1
    return out

def long_texts(c):
    r = c.rng("long")
    for n in c.n([3990, 3999, 4000, 4001, 4100, 9000], [3990, 3998, 3999, 4000, 4001, 4002, 4100, 8001, 8002, 9000, 20000, 40000]):
        s = "".join(r.choice("abc {}[],:'") for _ in range(n))
        yield r, '{"a":"%s", "b" : 1}' % s
        yield r, '{"%s" : "x","b":[%s]}' % (s, "1" * n)
        yield r, '["' + '\\"' * (n // 2) + '", "\\\\"]'
        yield r, "[" + " " * n + "1" + "\n" * n + "," + '"x"' + "\t" * 10 + "]"

# ---------------------------------------------------------------- query automata
def random_steps(r, keys, filters=True, steps=6):
    kinds = r.choice([gen.PATH, ["k", "[*]", "?", "[i]", "[:]", "*"], ["k", "dk", "*", "d*"], ["k", "[*]", "?", "dk"], ["k", "*", "?"]])
    q = []
    for _ in range(r.randint(1, steps)):
        if "?" in kinds and r.random() < .2:
            q.append(gen.FI(gen.gen_expr(r, keys)))
        else:
            q += gen.random_query(r, 1, [k for k in kinds if k != "?"], keys)
    return gen.fix(q) or [gen.K(keys[0])]

def words_for(r, q, keys, n, maxlen):
    """label sequences that follow the query, and others"""
    labels = ["k" + k for k in keys] + ["k" + k for k in ("zz", "other", "array", "", "a b")] + ["["]
    own = [s["n"] for s in q if "n" in s] + [k for s in q if s["t"] == "?" for v in s["e"] if v["t"] == "v" for k in v["p"]]
    if own:
        k = r.choice(own)
        labels += ["k" + x for x in {k[:-1], k + "x", k[1:], k.swapcase(), k[:-1] + "~", k[:len(k) // 2], k + " ", k + k, k[::-1], "".join(sorted(k)), k[:1] + "~" + k[2:], k[:-1] + chr(ord(k[-1]) + 1), k[:len(k) // 2] + "z" + k[len(k) // 2 + 1:]}]
    out, seen = [], set()
    def add(w):
        if tuple(w) not in seen and "\t" not in "".join(w):
            seen.add(tuple(w)); out.append(w)
    add([])
    for _ in range(4 * n):
        if len(out) >= n:
            break
        w, mode = [], r.random()
        for s in q:
            if mode < .85:
                t = s["t"]
                if t in ("dk", "d*"):
                    w += [r.choice(labels) for _ in range(r.choice([0, 0, 1, 2]))]
                w.append("k" + s["n"] if t in ("k", "dk") else r.choice(labels) if t in ("*", "d*") else "[")
                if t == "?":
                    x = r.random()
                    if x < .5:
                        v = r.choice([v for v in s["e"] if v["t"] == "v"] or [{"p": ["a"]}])
                        w += ["k" + k for k in v["p"]][:r.randint(1, 3)]
                        if r.random() < .7:
                            break
                    elif x < .6:
                        w.append(r.choice(labels))
                if r.random() < .12:
                    w.append(r.choice(labels))
                if r.random() < .08:
                    break
            else:
                w.append(r.choice(labels))
        if r.random() < .2:
            w.append(r.choice(labels))
        add(w[:maxlen])
    return out

def C09(c):
    prog = c.program("dfa.c")
    cases = []
    for i in range(c.n(2500, 20000)):
        r = c.rng(i)
        keys = r.choice([gen.QKEYS[:2], gen.QKEYS[:4], gen.QKEYS, gen.key_set(r, 0), gen.key_set(r, .3)])
        q = random_steps(r, keys, steps=r.choice([2, 3, 4, 6, 8, 8, 15]))
        w = words_for(r, q, keys, 40, 20)
        cases.append((["Q\t" + esc(gen.query_text(q))] + ["W" + "".join("\t" + esc(l) for l in x) for x in w],
                      {"q": q, "qt": gen.query_text(q), "words": w}))
    for i in range(c.n(80, 800)):
        r = c.rng("states", i)
        doc, t, q = gen.many_states(r, i % 2)
        if i % 5 == 0:
            # many names and steps in one query
            q = gen.fix([gen.FI([gen.V("p%d" % j) if j % 2 == 0 else gen.O("||") for j in range(2 * r.choice([20, 120, 127, 130]) + 1)])] +
                        random_steps(r, ["p%d" % j for j in range(0, 300, 7)] + ["a"], filters=False, steps=r.choice([2, 6, 30])))
        own = [v["p"][0] for x in q if x["t"] == "?" for v in x["e"] if v["t"] == "v"]
        keys = [k for x in q for k in [x.get("n")] if k] + own[-3:] + own[:2] + ["a", "b"]
        w = words_for(r, q, keys, 40, 140 if len(q) > 20 else 20)
        cases.append((["Q\t" + esc(gen.query_text(q))] + ["W" + "".join("\t" + esc(l) for l in x) for x in w],
                      {"q": q, "qt": gen.query_text(q), "words": w}))
    # all label sequences up to a length, over the names of the query, an unknown name and arrays
    import itertools
    for i in range(c.n(40, 300)):
        r = c.rng("all", i)
        keys = gen.QKEYS[:2]
        q = random_steps(r, keys, steps=3)
        w = [list(x) for n in range(5) for x in itertools.product(["ka", "kb", "kzz", "["], repeat=n)]
        cases.append((["Q\t" + esc(gen.query_text(q))] + ["W" + "".join("\t" + l for l in x) for x in w],
                      {"q": q, "qt": gen.query_text(q), "words": w}))
    # all short queries with all short label sequences, checked on the model before
    path = c.scratch + "/autosteps.ndjson"
    steps = STEPS + [gen.FI([gen.V("a")]), gen.FI([gen.V("a"), gen.O("=="), gen.V("b", "a")]), gen.K("b"), gen.DK("b")]
    with open(path, "w") as f:
        f.write("".join(json.dumps(x) + "\n" for x in steps))
    for size, labels, inv in ((2, 4, "Output Filter Reading_ Function Dead Bounded"), (3, c.n(3, 5), "Output Filter Reading_ Function Bounded Printed")):
        res = c.model("MCAutomaton", """CONSTANTS
 MaxSteps = %d
 MaxLabels = %d
 Labels = {"ka", "kb", "kzz", "["}
SPECIFICATION Spec
INVARIANTS %s
PROPERTY Stays
""" % (size, labels, inv), env={"STEPS": path})
    qs = sorted({json.loads(l[len('<<"QUERY", '):-2]) for l in res.printed if l.startswith('<<"QUERY"')})
    c.extra["queries_enumerated"] = len(qs)
    for n in range(1, 5):
        # of the longest label sequences, a quick run takes every third
        w = [list(x) for x in itertools.product(["ka", "kb", "kzz", "["], repeat=n)]
        part = w if n < 4 or not c.quick() else w[::3]
        lines = ["W" + "".join("\t" + l for l in x) for x in part]
        for x in qs:
            q = [steps[i - 1] for i in json.loads(x)]
            cases.append((["Q\t" + esc(gen.query_text(q))] + lines, {"q": q, "qt": gen.query_text(q), "words": part}))
    c.conform(prog, "ConformDFA", cases)

def C15(c):
    prog = c.program("dfa.c")
    cases = []
    def add(doc, q, keys):
        """learning from a document"""
        words, names = set(), set()
        def walk(n, w):
            words.add(tuple(w))
            for k, v in (n if isinstance(n, tuple) else [(None, x) for x in n]):
                if k is not None:
                    names.add(k)
                if isinstance(v, (list, tuple)):
                    walk(v, w + ["[" if k is None else "k" + k])
        walk(json.loads(doc, object_pairs_hook=tuple), [])
        words = [list(w) for w in sorted(words)]
        looks = ["["] + ["k" + n for n in sorted(names | set(keys))]
        cases.append((["Q\t" + esc(gen.query_text(q))] + ["W" + "".join("\t" + l for l in x) for x in words] + ["T\t" + doc] +
                      ["U\t" + l for l in looks], {"q": q, "qt": gen.query_text(q), "doc": doc, "words": words, "looks": looks}))
    for q, ds in behaviours(c, c.n(8, 10), STEPS, 2, words="") + behaviours(c, c.n(9, 11), FSTEPS, 2, '"?"', words=""):
        r = c.rng("learn", json.dumps(q))
        ds = [d for n, d in ds if d[0] in "[{"]
        for d in ds if len(ds) < c.n(60, 600) else r.sample(ds, c.n(60, 600)):
            add(d, q, ["a", "b", "zz", "array"])
    c.extra["learned_from"] = len(cases)
    c.conform(prog, "ConformLearn", cases, label="enumerated")
    cases = []
    large = c.n(60, 500)
    for i in range(c.n(1500, 10000) + large):
        r = c.rng(i)
        if i < large:
            doc, t, q = gen.many_states(r, i % 3 == 0) if i % 2 else gen.many_names(r)
        else:
            doc, t, q = gen.case(r, r.choice(["small", "plain", "ws", "objects", "arrays"]), filters=r.random() < .3)
        words, names = set(), set()
        def walk(v, w):
            if v[0] == "p":
                return
            words.add(tuple(w))
            for k, x in (v[1] if v[0] == "o" else [(None, y) for y in v[1]]):
                if k is not None:
                    names.add(k)
                walk(x, w + ["[" if k is None else "k" + k])
        walk(t, [])
        words = [list(w) for w in sorted(words)]
        looks = ["["] + ["k" + n for n in sorted(names)] + ["k" + k for k in r.sample(gen.QKEYS, 3) + ["zz", "", "other", "array"]]
        looks = sorted(set(looks))
        cases.append((["Q\t" + esc(gen.query_text(q))] + ["W" + "".join("\t" + esc(l) for l in x) for x in words] + ["T\t" + esc(doc)] +
                      ["U\t" + esc(l) for l in looks], {"q": q, "qt": gen.query_text(q), "doc": doc, "words": words, "looks": looks}))
    c.conform(prog, "ConformLearn", cases)

# ---------------------------------------------------------------- expressions
def member_text(r):
    x = r.random()
    if x < .45:
        return r.choice(gen.NUMS)
    if x < .6:
        return r.choice(["true", "false", "null"])
    if x < .9:
        return '"' + r.choice(gen.PLAIN) + '"'
    return r.choice(["{}", "[]", '{"a":1}', "[1,2]"])

OPERATORS = ["||", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "!"]
VALUES = [[], ["null"], ["true"], ["false"], ["0"], ["1"], ["-1"], ["2"], ["0.5"], ["1e2"], ['""'], ['"a"'], ['"ab"'], ['"x"'], ["{}"], ["[]"]]
BIGVALUES = [["4294967296"], ["4294967297"], ["2147483648"], ["123456789012345"], ["123456789012346"], ["1e300"], ["-1e300"], ["1e-20"], ["0.1"], ["0.10000001"],
             ["1E19"], ["-4294967296.5"], ["0.0"], ["-0"], ["10e-1"], ["1.0"], ["100.0"]]
HUGE = [["1e300"], ["-9223372036854775808"], ["9223372036854775808"], ["-1e19"]]

def expressions(c, size, operands, ops, parens, consts=False):
    """model checks MCExpr and returns the expressions it has written"""
    res = c.model("MCExpr", """CONSTANTS
 MaxSyms = %d
 MaxOperands = %d
 Operators = {%s}
 UseConstants = %s
 Parens = %s
SPECIFICATION Spec
INVARIANTS SameGroups Redundant Total Printed
""" % (size, operands, ", ".join('"%s"' % o for o in ops), "TRUE" if consts else "FALSE", "TRUE" if parens else "FALSE"))
    return [json.loads(x) for x in sorted({json.loads(l[len('<<"EXPR", '):-2]) for l in res.printed if l.startswith('<<"EXPR"')})]

def assignments(r, e, most):
    """values for the members of an expression, all if they are not too many"""
    import itertools
    ops = {x["v"] for x in e if x["t"] == "o"}
    names = [x["p"] for x in e if x["t"] == "v"]
    def nonzero(i):
        return e[i - 1]["t"] == "o" and e[i - 1]["v"] == "/"
    if "/" in ops and any(x["v"] == "/" and e[i + 1]["t"] != "v" and e[i + 1]["v"] == "0" for i, x in enumerate(e) if x["t"] == "o"):
        return []
    if "/" in ops and any(x["v"] == "/" and e[i + 1]["t"] == "o" for i, x in enumerate(e) if x["t"] == "o"):
        return []        # the divisor might be 0
    pool = VALUES if ops & set("+-*/") else VALUES + HUGE if "%" in ops and len(ops) == 1 else VALUES if "%" in ops else VALUES + BIGVALUES
    pools = [[v for v in pool if v not in (["0"], ["1e2"])] if x["t"] == "v" and nonzero(i) else pool for i, x in enumerate(e) if x["t"] == "v"]
    n = 1
    for p in pools:
        n *= len(p)
    if n <= most:
        return [[{"p": k, "v": v} for k, v in zip(names, vs)] for vs in itertools.product(*pools)]
    return [[{"p": k, "v": r.choice(p)} for k, p in zip(names, pools)] for _ in range(most)]

def C12(c):
    prog = c.program("expr.c")
    import itertools
    r = c.rng("enumerated")
    todo = []
    few, many = c.n(400, 1300), c.n(6, 40)
    for e in expressions(c, c.n(5, 6), 2, OPERATORS, True, True):
        todo += [(e, v) for v in assignments(r, e, few)]
    for e in expressions(c, 7, 3, OPERATORS, True) + expressions(c, c.n(7, 9), c.n(4, 4), ["||", "&&", "==", "<", "+", "*", "-", "!"], False):
        if len(e) > 3:
            todo += [(e, v) for v in assignments(r, e, many)]
    c.extra["expressions_enumerated"] = len(todo)
    cases = []
    for i in range(0, len(todo), 60):
        lines, exprs = [], []
        for e, env in todo[i:i + 60]:
            lines.append("E\t" + esc(gen.expr_text(e)) + "".join("\t" + ".".join(x["p"]) + "\t" + (esc(x["v"][0]) if x["v"] else "") for x in env))
            exprs.append({"e": e, "text": gen.expr_text(e), "env": env})
        cases.append((lines, {"exprs": exprs}))
    c.conform(prog, "ConformExpr", cases, label="enumerated")
    cases = []
    for i in range(c.n(2700, 27000)):
        r = c.rng(i)
        exprs, lines = [], []
        large = i % 9 == 0
        for _ in range(2 if large else 8):
            keys = ["a", "b", "c", "ab"]
            e = large_expr(r, keys) if large else gen.gen_expr(r, keys, depth=r.choice([1, 2, 3]))
            e = flatten(r, e)
            vs = sorted({tuple(v) for v in gen.child_vars(e)})
            env = []
            for v in vs:
                env.append({"p": list(v), "v": [] if r.random() < .12 else [member_text(r)]})
            r.shuffle(env)
            lines.append("E\t" + esc(gen.expr_text(e)) + "".join("\t" + ".".join(x["p"]) + "\t" + (esc(x["v"][0]) if x["v"] else "") for x in env))
            exprs.append({"e": e, "text": gen.expr_text(e), "env": env})
        cases.append((lines, {"exprs": exprs}))
    c.conform(prog, "ConformExpr", cases)

def large_expr(r, keys):
    """up to a hundred operands, up to some dozens of parentheses inside each other"""
    O = gen.O
    shape, n = r.choice(["row", "row", "left", "right", "nots", "tree"]), r.choice([4, 8, 16, 30])
    known = []
    def one():
        # not more members than the harness takes
        while True:
            e = gen.gen_expr(r, keys, depth=r.choice([0, 0, 1]))
            new = [v for v in gen.child_vars(e) if v not in known]
            if len(known) + len(new) <= 24:
                known.extend(new)
                return e
            if known:
                return [gen.V(*r.choice(known))] + r.choice([[], [O(r.choice(gen.CMPS)), gen.N(r.choice(["0", "1", "2", "7"]))], [O(r.choice(["==", "!="])), gen.S(r.choice(gen.PLAIN))]])
    both = lambda: [O(r.choice(["&&", "||"]))]
    if shape == "row":
        e = one()
        for _ in range(n):
            e = e + both() + one()
    elif shape == "left":
        e = one()
        for _ in range(n):
            e = [O("(")] + e + [O(")")] + both() + one()
    elif shape == "right":
        e = one()
        for _ in range(n):
            e = one() + both() + [O("(")] + e + [O(")")]
    elif shape == "nots":
        e = [O("(")] + one() + [O(")")]
        for _ in range(n):
            e = [O("!")] + e if r.random() < .5 and e[0] == O("(") else [O("(")] + e + (both() + one() if r.random() < .5 else []) + [O(")")]
    else:
        def go(k):
            return one() if k < 2 else [O("(")] + go(k // 2) + [O(")")] + both() + [O("(")] + go(k - k // 2) + [O(")")] if r.random() < .7 else go(k // 2) + both() + go(k - k // 2)
        e = go(n)
    return e

def flatten(r, e):
    """sometimes removes parentheses, so that precedence decides"""
    if r.random() < .5:
        return e
    return [x for x in e if x["v" if x["t"] != "v" else "t"] not in ("(", ")")] if not any(x["t"] == "o" and x["v"] == "/" for x in e) else e

# ---------------------------------------------------------------- regular expressions
def regex_text(x):
    """an expression in the notation of the harness"""
    if x["k"] == "c":
        return "c%d%s" % (x["c"], x["o"])
    if x["k"] == "s":
        data = ([94] if x["neg"] else []) + x["set"]
        return "s%d%s%s" % (len(data), "".join(" %d" % v for v in data), x["o"])
    if x["k"] in "tq":
        return "%s%d%s%s" % ("s" if x["k"] == "t" else "q", len(x["d"]), "".join(" %d" % v for v in x["d"]), x["o"])
    return "%s%d%s%s" % (x["k"], len(x["items"]), x["o"], "".join(" " + regex_text(y) for y in x["items"]))

def regex_item(r, top, d):
    """a random expression over the characters below top"""
    x, o = r.random(), r.choice("----?*+")
    if d == 0 or x < .45:
        return {"k": "c", "c": r.randint(1, top - 1), "o": o}
    if x < .5:
        return {"k": "q", "d": [y for _ in range(r.randint(1, 4)) for y in spelled(r, r.randint(1, min(top, 256) - 1))], "o": o}
    if x < .56 and top < 40:
        neg = r.random() < .5
        s = sorted(r.sample(range(1, top), r.randint(0 if neg else 1, max(1, top - 2))))
        if neg and len(s) >= top - 1:
            s = []
        return {"k": "s", "neg": neg, "set": s, "o": o}
    if x < .68:
        neg, data = r.random() < .4, []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            a = r.randint(1, min(top, 256) - 1)
            data += spelled(r, a)
            if r.random() < .5:
                data += [45] + spelled(r, min(min(top, 256) - 1, a + r.choice([0, 1, 2, 5, 100])))
        return {"k": "t", "d": ([94] if neg else []) + data, "o": o}
    return {"k": "l" if x < .84 else "a", "items": [regex_item(r, top, d - 1) for _ in range(r.randint(1, 3))], "o": o}

def spelled(r, a):
    """a character in a written set or sequence"""
    if r.random() < .15:
        return [92] + [ord(ch) for ch in r.choice(["x%02x", "x%02X", "u%04x", "U%08x"]) % a]
    if a in (9, 10, 11, 12, 13) and r.random() < .5:
        return [92, ord("tnvfr"[a - 9])]
    return [92, a] if a in (45, 92, 94) or 32 < a < 48 and r.random() < .3 else [a]

def written(d):
    """the characters of a written set or sequence (for the choice of words only)"""
    out, i, dash = [], 0, False
    while i < len(d):
        if d[i] == 92:
            e = chr(d[i + 1])
            n = {"x": 2, "u": 4, "U": 8}.get(e, 0)
            v = int("".join(map(chr, d[i + 2:i + 2 + n])), 16) if n else {"t": 9, "n": 10, "v": 11, "f": 12, "r": 13}.get(e, d[i + 1])
            i += 2 + n
        elif d[i] == 45 and out:
            dash = True
            i += 1
            continue
        else:
            v = d[i]
            i += 1
        if dash:
            out += range(out[-1] + 1, v + 1)
            dash = False
        else:
            out.append(v)
    return out

def regex_word(r, x, top, most=400):
    """a word that the expression matches"""
    out = []
    for _ in range({"-": 1, "?": r.randint(0, 1), "*": r.choice([0, 0, 1, 1, 2, 4]), "+": r.choice([1, 1, 2, 3])}[x["o"]]):
        if x["k"] == "c":
            out.append(x["c"])
        elif x["k"] == "q":
            out += written(x["d"])
        elif x["k"] in "st":
            neg = x["neg"] if x["k"] == "s" else x["d"][:1] == [94]
            s = set(x["set"] if x["k"] == "s" else written(x["d"][1:] if neg else x["d"]))
            can = [v for v in range(1, top) if (v in s) != neg]
            out.append(r.choice([r.choice(can), can[0], can[-1]]) if can else 1)
        elif x["k"] == "l":
            for y in x["items"]:
                out += regex_word(r, y, top, most)
        else:
            out += regex_word(r, r.choice(x["items"]), top, most)
    return out[:most]

def regex_case(r, top, exprs, n):
    words = [[]]
    for _ in range(n):
        w = regex_word(r, r.choice(exprs), top) if r.random() < .75 else [r.randint(1, top - 1) for _ in range(r.randint(1, 7))]
        if r.random() < .3 and w:
            # one change
            i = r.randrange(len(w))
            w = r.choice([w[:i] + w[i + 1:], w[:i] + [r.randint(1, top - 1)] + w[i + 1:], w[:i] + [w[i]] + w[i:], w + [r.randint(1, top - 1)], w[:i]])
        words.append([v for v in w if 0 < v < top])
    lines = ["M %d" % top] + ["R " + regex_text(x) for x in exprs]
    if top <= 256 and r.random() < .25:
        lines.append("E")
    return lines + [("V" if top <= 128 and r.random() < .3 else "W") + "".join(" %d" % a for a in w) for w in words], {"list": exprs, "words": words}

def wrapped(x):
    return {"k": "l", "items": [x], "o": "-"}

def regex_lists(c, nodes, word, chars, chopts, setopts, inner, inv="Derivatives Deadness Printed"):
    """model checks MCRegex and returns the lists of expressions it has built"""
    S = lambda x: "{" + ", ".join('"%s"' % y for y in x) + "}"
    res = c.model("MCRegex", """CONSTANTS
 MaxNodes = %d
 MaxWord = %d
 Chars = {%s}
 CharOpts = %s
 SetOpts = %s
 InnerOpts = %s
SPECIFICATION Spec
INVARIANTS %s
""" % (nodes, word, chars, S(chopts), S(setopts), S(inner), inv))
    return sorted({json.loads(l[len('<<"LIST", '):-2]) for l in res.printed if l.startswith('<<"LIST"')})

def C16(c):
    import itertools
    prog = c.program("regex.cpp")
    stacks = set(regex_lists(c, 3, 2, "1, 2", "-?*+", "-*", "-?*+"))
    stacks |= set(regex_lists(c, 4, c.n(2, 3), "1, 2", "-*", "-", "-?*+", "Derivatives Printed"))
    stacks |= set(regex_lists(c, c.n(5, 6), c.n(2, 3), "1, 2", "-", "", "-?*+", "Derivatives Printed"))
    if not c.quick():
        stacks |= set(regex_lists(c, 4, 3, "1, 2", "-?*+", "-*", "-?*+", "Printed"))
    stacks = [json.loads(x) for x in sorted(stacks)]
    c.extra["lists_enumerated"] = len(stacks)
    words = [list(w) for w in itertools.product([1, 2, 3], repeat=3)]
    lists = [[{"k": "l", "items": s, "o": "-"}] for s in stacks] + [[wrapped(x) for x in s] for s in stacks if len(s) > 1]
    cases = []
    for i in range(0, len(lists), 50):
        part = lists[i:i + 50]
        lines = []
        for l in part:
            lines += ["M 4"] + ["R " + regex_text(x) for x in l] + ["X " + " ".join("".join(map(str, w)) for w in words)]
        cases.append((lines, {"lists": part, "words": words}))
    c.conform(prog, "ConformRegexMany", cases, label="enumerated", seconds=60)
    cases = []
    for i in range(c.n(2500, 20000)):
        r = c.rng(i)
        top = r.choice([3, 4, 6, 10, 20, 128, 256] if r.random() < .3 else [3, 4, 6, 10])
        exprs = []
        for _ in range(r.choice([1, 1, 2, 3, 4, 6])):
            x = {"k": "l", "items": [regex_item(r, top, r.choice([0, 1, 2])) for _ in range(r.randint(1, 5))], "o": "-"}
            exprs.append(x)
        cases.append(regex_case(r, top, exprs, 24))
    for i in range(c.n(60, 600)):
        # sizes beyond the usual ones
        r = c.rng("large", i)
        x = i % 4
        if x == 0:
            # long sequences that share a beginning
            n, top = r.choice([100, 300, 400]), r.choice([4, 30])
            w = [r.randint(1, top - 1) for _ in range(n)]
            exprs = []
            for _ in range(r.randint(1, 4)):
                k = r.choice([n, r.randint(1, n)])
                exprs.append({"k": "l", "items": [{"k": "c", "c": v, "o": r.choice("----------?+")} for v in w[:k] + [r.randint(1, top - 1) for _ in range(r.randint(0, 3))]], "o": "-"})
        elif x == 1:
            # many inputs
            top = r.choice([257, 300, 400])
            chars = [r.randint(1, top - 1) for _ in range(6)] + [top - 1, 255, 256]
            exprs = [{"k": "l", "items": [r.choice([{"k": "c", "c": r.choice(chars), "o": r.choice("--?*+")}, {"k": "t", "d": r.choice([[94], [94, 97], [97, 45, 99], [94, 2, 45, 255]]), "o": r.choice("-?*+")}])
                                          for _ in range(r.randint(1, 4))], "o": "-"} for _ in range(r.randint(1, 4))]
        elif x == 2:
            # many expressions
            top = r.choice([4, 10, 60])
            exprs = [{"k": "l", "items": [regex_item(r, top, r.choice([0, 0, 1])) for _ in range(r.randint(1, 3))], "o": "-"} for _ in range(r.choice([20, 50]))]
        else:
            # many states: the character n places before the end
            n, top = r.choice([3, 5, 6, 7, 8]), r.choice([3, 5])
            exprs = [{"k": "l", "items": [{"k": "t", "d": [94], "o": "*"}, {"k": "c", "c": 1, "o": "-"}] + [{"k": "t", "d": [94], "o": "-"} for _ in range(n)] + ([{"k": "c", "c": 2, "o": "-"}] if r.random() < .5 else []), "o": "-"}]
            exprs += [{"k": "l", "items": [regex_item(r, top, 1) for _ in range(r.randint(1, 3))], "o": "-"} for _ in range(r.randint(0, 2))]
        cases.append(regex_case(r, top, exprs, 8 if x == 0 else 24))
    c.conform(prog, "ConformRegex", cases)

# ---------------------------------------------------------------- partition
def C06(c):
    prog = c.program("part.c")
    ts = all_texts(c)
    c.conform(prog, "ConformPartMany", [(["%s\t%d\t%s" % ("SIF"[k % 3], n, esc(d)) for d in ts[k:k + 40] for n in range(1, len(d.encode()) + 2)],
                                         {"docs": ts[k:k + 40], "what": "split"}) for k in range(0, len(ts), 40)], label="enumerated")
    cases = []
    for r, t, d in docs(c, c.n(2500, 20000)):
        ns = sorted({1, 2, 3, r.randint(2, 12), r.choice([4, 8, 16, 64, 100]), r.randint(1, 100), len(d), len(d) + r.randint(1, 50)})
        ns = [n for n in ns if n <= 2000]
        lines = ["%s\t%d\t%s" % (by, n, esc(d)) for n in ns for by in ("S", "F")] + ["I\t%d\t%s" % (n, esc(d)) for n in ns[:4]]
        cases.append((lines, {"doc": d, "splits": len(lines), "bound": 0}))
    for d, q in huge_cases(c, 12, (0, 1)):
        lines = ["%s\t%d\t%s" % (by, n, esc(d)) for n in (2, 7, 64, 128, 700) for by in "SF"]
        cases.append((lines, {"doc": d, "splits": len(lines), "bound": 0}))
    c.conform(prog, "ConformPartition", cases)

# ---------------------------------------------------------------- filters
def C02(c):
    prog = c.program("run.c")
    cases = []
    for i in range(c.n(4000, 40000)):
        doc, t, q = gen.case(c.rng(i), filters=True)
        cases.append(run_case(doc, q, ["s\t0\t" + esc(doc)]))
    for doc, q in huge_cases(c, 12, (1,)):
        cases.append(run_case(doc, q, ["s\t0\t" + esc(doc)]))
    c.conform(prog, "ConformRun", cases)
    replay(c, prog, behaviours(c, c.n(10, 12), FSTEPS, 2, '"?"'), lambda d: ["s\t0\t" + esc(d)])
    c.findings(prog)

# ---------------------------------------------------------------- texts of results
def C03(c):
    prog = c.program("run.c")
    cases = []
    alls = [[gen.DSTAR], [gen.STAR], [gen.STAR, gen.STAR], [gen.STAR, gen.DSTAR], [gen.ALL], [gen.DK("a")], [gen.K("a")], [gen.ALL, gen.STAR]]
    for i in range(c.n(2500, 20000)):
        r = c.rng(i)
        o = gen.Opt(depth=r.choice([2, 3, 4]), width=r.choice([3, 6, 12]), ws=2, nasty=True, keys=gen.QKEYS[:4])
        t = gen.tree(r, o)
        q = r.choice(alls) if r.random() < .6 else gen.guided_query(r, t, gen.PATH, o.keys)
        # the same document in different layouts: the modes must agree with the specification in each
        for ws in r.sample([0, 1, 2], 2):
            d = gen.render(r, t, ws)
            n = r.randint(2, 6)
            cases.append(run_case(d, q, ["s\t0\t" + esc(d), "p\t0\t%d\t%s" % (n, esc(d))]))
    r = c.rng("long")
    chars = 'abc {}[],:\'.0-eE'
    for n in c.n([990, 1000, 1025, 2000, 3999, 4000, 4001, 5000, 20000], [90, 99, 100, 101, 990, 999, 1000, 1001, 1023, 1024, 1025, 2000, 3998, 3999, 4000, 4001, 4002, 5000, 8000, 20000, 60000]):
        s = "".join(r.choice(chars) for _ in range(n))
        for d, q in (('{"a":"%s","b":[1,"%s"]}' % (s, s), [gen.DSTAR]), ('{"x":{"%s":{"a":"%s"}}, "a":1}' % (s, s), [gen.DK("a")]),
                     ('[ "%s\\"", %s1, "x"]' % (s, "1" * n), [gen.ALL]), ('[{"a":"%s", "b":1}, {"a":"%s", "b":2}]' % (s, s), [gen.FI([gen.V("b"), gen.O(">"), gen.N("1")]), gen.STAR])):
            cases.append(run_case(d, q, ["s\t0\t" + esc(d), "p\t0\t2\t" + esc(d)]))
    for d, q in huge_cases(c, 12, (0, 0, 1)):
        cases.append(run_case(d, q, ["s\t0\t" + esc(d), "p\t0\t3\t" + esc(d)]))
    for n in c.n([1023, 1024, 1025, 2049], [100, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 5000]):
        # many results
        d = "[" + ",".join(r.choice(['"x%d"' % i, str(i), '{"a":%d}' % i]) for i in range(n)) + "]"
        cases.append(run_case(d, [gen.ALL], ["s\t0\t" + esc(d), "p\t0\t4\t" + esc(d)]))
    c.conform(prog, "ConformRun", cases)
    # every short text, with strings that look like structure and blanks anywhere
    ts = all_texts(c)
    cases = [many_case(q, ts[i:i + 60], lambda d: ["s\t0\t" + esc(d)] + ["p\t0\t%d\t%s" % (n, esc(d)) for n in (2, 3)])
             for q in ([gen.DSTAR], [gen.STAR])[:c.n(1, 2)] for i in range(0, len(ts), 60)]
    c.conform(prog, "ConformMany", cases, label="enumerated")

# ---------------------------------------------------------------- parallel runs
def core_counts(r, d, k):
    most = max(2, min(100, len(d) // 4))
    return sorted({2, 3, r.randint(2, 8), r.randint(2, most), r.choice([4, 7, 16, 33, 64])} if k > 3 else {r.choice([2, 3, 4]), r.randint(2, most)})

def C04(c):
    prog = c.program("run.c")
    cases = []
    for i in range(c.n(3500, 40000)):
        r = c.rng(i)
        doc, t, q = gen.case(r, filters=r.random() < .4)
        cases.append(run_case(doc, q, ["s\t0\t" + esc(doc)] + ["p\t0\t%d\t%s" % (n, esc(doc)) for n in core_counts(r, doc, 5)]))
    for doc, q in list(huge_cases(c, 12, (0, 1))) + [gen.endless(c.rng("endless"))]:
        cases.append(run_case(doc, q, ["s\t0\t" + esc(doc)] + ["p\t0\t%d\t%s" % (n, esc(doc)) for n in (2, 5, 13, 100)]))
    c.conform(prog, "ConformRun", cases)
    par = lambda d: ["p\t0\t%d\t%s" % (n, esc(d)) for n in (2, 3, 4, 5)]
    plain, filt = behaviours(c, c.n(8, 10), STEPS, 2, words=""), behaviours(c, c.n(10, 12), FSTEPS, 2, '"?"', words="")
    replay(c, prog, plain, par, lambda n: n > 0)
    replay(c, prog, filt, par)
    split = lambda d, n, size: ["p\t0\t%d\t%s" % (n, esc(d))]
    replay_cuts(c, prog, plain, split, c.n(2, 3), lambda n: n > 0)
    replay_cuts(c, prog, filt, split, c.n(2, 3))
    try:
        exact = stages(c)
    except build.BuildError:
        exact = None        # the stages have other names: C19 says so, and the documents with blanks remain
    if exact:
        exact_cuts(c, exact, plain, 3, lambda n: n > 0, False, 3)
        exact_cuts(c, exact, filt, 3, learned=False, least=3)
    parallel_model(c, c.n(6, 8), STEPS, 2)
    parallel_model(c, c.n(7, 9), FSTEPS, 2, '"?"')

def tables(r):
    """runs with constraints learned from other documents"""
    last = ["[]"]
    def modes(d):
        t = r.choice([d, last[0], "1", '[{"a":1}]'])
        last[0] = d
        return ["T\t0\t0\t" + esc(t)] + ["o\t0\t%d\t0\t%s" % (n, esc(d)) for n in (2, 3, 5)]
    return modes

def C05(c):
    prog = c.program("run.c")
    cases = []
    for i in range(c.n(3000, 30000)):
        r = c.rng(i)
        f = r.random() < .4
        doc, t, q = gen.case(r, filters=f)
        train = []
        for _ in range(2):
            x = r.random()
            if x < .3:
                train.append(doc)
            elif x < .5:
                train.append(r.choice(["1", "{}", "[]", '{"zzz":{"yyy":[1]}}', '"x"', "[[]]", '[{"a":1}]']))
            elif x < .7:
                train.append(gen.render(r, prune(r, t), 0))
            else:
                train.append(gen.case(r, filters=f)[0])
        m = ["T\t0\t%d\t%s" % (j, esc(d)) for j, d in enumerate(train)]
        m += ["o\t0\t%d\t%d\t%s" % (n, j, esc(doc)) for j in range(2) for n in core_counts(r, doc, 3)]
        cases.append(run_case(doc, q, m))
    for doc, q in huge_cases(c, 12, (0, 1)):
        e = esc(doc)
        cases.append(run_case(doc, q, ["T\t0\t0\t" + e, "T\t0\t1\t[]"] + ["o\t0\t%d\t%d\t%s" % (n, j, e) for n in (3, 40) for j in (0, 1)]))
    c.conform(prog, "ConformRun", cases)
    plain, filt = behaviours(c, c.n(8, 10), STEPS, 2, words=""), behaviours(c, c.n(10, 11), FSTEPS, 2, '"?"', words="")
    t = tables(c.rng("tables"))
    replay(c, prog, plain, t, lambda n: n > 0)
    replay(c, prog, filt, t, size=30)
    split = lambda d, n, size: [l for l in t(d) if l[0] == "T"] + ["o\t0\t%d\t0\t%s" % (n, esc(d))]
    replay_cuts(c, prog, plain, split, 2, lambda n: n > 0)
    replay_cuts(c, prog, filt, split, 2)
    parallel_model(c, c.n(6, 7), STEPS, 2)
    parallel_model(c, c.n(7, 8), FSTEPS, 2, '"?"')

def prune(r, t):
    """removes some parts of a document"""
    if t[0] == "o":
        return ("o", [(k, prune(r, v)) for k, v in t[1] if r.random() < .7])
    if t[0] == "a":
        return ("a", [prune(r, v) for v in t[1] if r.random() < .7])
    return t

# ---------------------------------------------------------------- bounded loading
def C07(c):
    part = c.program("part.c")
    ts = all_texts(c)
    c.conform(part, "ConformPartMany", [(["L\t%d\t%s" % (n, esc(d)) for d in ts[k:k + 40] for n in range(1, len(d) + 2)],
                                         {"docs": ts[k:k + 40], "what": "load"}) for k in range(0, len(ts), 40)], label="enumerated")
    cases = []
    for r, t, d in docs(c, c.n(1500, 15000)):
        b = r.choice([1, 2, 3, 5, 8, r.randint(1, len(d) + 3), len(d), len(d) - 1 or 1])
        cases.append((["L\t%d\t%s" % (b, esc(d))], {"doc": d, "splits": 0, "bound": b}))
    for r, d in long_texts(c):
        for b in (1, 1990, len(d) // 2, r.randint(1, len(d))):
            cases.append((["L\t%d\t%s" % (b, esc(d))], {"doc": d, "splits": 0, "bound": b}))
    big = list(huge_cases(c, 10, (0, 1)))
    for i, (d, q) in enumerate(big):
        for b in (1, 500, 2003, len(d) // 2):
            cases.append((["L\t%d\t%s" % (b, esc(d))], {"doc": d, "splits": 0, "bound": b}))
    c.conform(part, "ConformPartition", cases, label="load")
    prog = c.program("run.c")
    cases = []
    for i in range(c.n(3000, 30000)):
        r = c.rng("run", i)
        doc, t, q = gen.case(r, filters=r.random() < .4)
        bounds = {1, r.randint(1, max(1, len(doc) // 2)), r.randint(1, len(doc) + 2), r.choice([2, 3, 4, 6, 9, 14, 20])}
        m = ["T\t0\t0\t%s" % esc(doc)] if r.random() < .3 else ["T\t0\t0\t[{\"a\":[1]}]"]
        for b in sorted(bounds):
            m += ["M\t%d" % b, "s\t0\t" + esc(doc), "p\t0\t%d\t%s" % (r.randint(1, 6), esc(doc)),
                  "o\t0\t%d\t0\t%s" % (r.randint(1, 6), esc(doc))]
        cases.append(run_case(doc, q, m))
    for d, q in big:
        cases.append(run_case(d, q, ["T\t0\t0\t1"] + [l for b in (300, len(d) // 5, len(d) // 2) for l in ("M\t%d" % b, "s\t0\t" + esc(d), "p\t0\t4\t" + esc(d), "o\t0\t3\t0\t" + esc(d))]))
    c.conform(prog, "ConformRun", cases, label="run")
    def bounds(d):
        e = esc(d)
        return [l for b in (1, len(d) // 3 + 1, len(d) // 2 + 2) for l in ("M\t%d" % b, "s\t0\t" + e, "p\t0\t2\t" + e)]
    plain, filt = behaviours(c, c.n(8, 9), STEPS, 2, words=""), behaviours(c, c.n(10, 11), FSTEPS, 2, '"?"', words="")
    replay(c, prog, plain, bounds, lambda n: n > 0)
    replay(c, prog, filt, bounds, size=30)
    load = lambda d, n, size: ["M\t%d" % size, "s\t0\t" + esc(d), "p\t0\t2\t" + esc(d)]
    replay_cuts(c, prog, plain, load, c.n(2, 3), lambda n: n > 0)
    replay_cuts(c, prog, filt, load, c.n(2, 3))

# ---------------------------------------------------------------- histories
def line_of(op):
    """the line for the harness that makes the call"""
    o = op["op"]
    d = esc(op["doc"]) if "doc" in op else ""
    if o == "create":
        return "P\t%d\t%s" % (op["h"], esc(gen.query_text(op["q"])))
    if o == "free":
        return "F\t%d" % op["h"]
    if o == "bound":
        return "M\t%d" % op["n"]
    if o == "serial":
        return "s\t%d\t%s" % (op["h"], d)
    if o == "parallel":
        return "p\t%d\t%d\t%s" % (op["h"], op["n"], d)
    if o == "learn":
        return "T\t%d\t%d\t%s" % (op["h"], op["t"], d)
    if o == "opt":
        return "o\t%d\t%d\t%d\t%s" % (op["h"], op["n"], op["t"], d)
    if o == "open":
        return "I\t%d" % op["c"]
    if o == "close":
        return "D\t%d" % op["c"]
    piece = esc(op["doc"][op["from"]:op["to"]])
    if o == "feed":
        return "a\t%d\t%d\t%s" % (op["c"], op["h"], piece)
    if o == "pfeed":
        return "b\t%d\t%d\t%d\t%s" % (op["c"], op["h"], op["n"], piece)
    return "c\t%d\t%d\t%d\t%d\t%s" % (op["c"], op["h"], op["n"], op["t"], piece)

def history(ops):
    return [line_of(o) for o in ops], {"ops": ops}

def feeds(r, kind, doc, q, pos, c=0, h=0, t=0):
    """the calls that feed a document cut at the given positions"""
    ends = [p for p in pos if 0 < p < len(doc)] + [len(doc)]
    out, last = [], 0
    for e in ends:
        op = {"op": kind, "c": c, "h": h, "doc": doc, "from": last, "to": e}
        if kind != "feed":
            op["n"] = r.randint(1, 4)
        if kind == "ofeed":
            op["t"] = t
        out.append(op)
        last = e
    return out

def some_cuts(r, doc, all_=False):
    c = [x for x in cuts(doc) if x > 0]
    if all_ or not c:
        return c
    # the specification reads the text again after each piece
    return sorted(r.sample(c, min(r.randint(1, min(len(c), r.choice([1, 2, 3, 6, len(c)]))), max(6, 600000 // len(doc)))))

def C13(c):
    prog = c.program("run.c")
    cases = []
    for i in range(c.n(3500, 30000)):
        r = c.rng(i)
        f = r.random() < .45
        doc, t, q = gen.case(r, filters=f)
        if r.random() < .7 and len(doc) > 400:
            doc, t, q = gen.case(r, "small", filters=f)
        kind = r.choice(["feed", "feed", "pfeed", "ofeed"])
        ops = [{"op": "create", "h": 0, "q": q}]
        if kind == "ofeed":
            ops.append({"op": "learn", "h": 0, "t": 0, "doc": r.choice([doc, '[{"a":1}]'])})
        ops.append({"op": "open", "c": 0})
        ops += feeds(r, kind, doc, q, some_cuts(r, doc, len(doc) < 120 and r.random() < .4))
        ops.append({"op": "close", "c": 0})
        cases.append(history(ops))
    for i, (doc, q) in enumerate(huge_cases(c, 9, (0, 1))):
        kind = ("feed", "pfeed", "ofeed")[i % 3]
        r, where = c.rng("cut", i), cuts(doc)
        ops = [{"op": "create", "h": 0, "q": q}, {"op": "learn", "h": 0, "t": 0, "doc": '[{"a":1}]'}, {"op": "open", "c": 0}]
        cases.append(history(ops + feeds(r, kind, doc, q, sorted(r.sample(where[1:], 6))) + [{"op": "close", "c": 0}]))
    # the behaviours of the streaming machine, fed token by token
    for f, found in ((0, behaviours(c, c.n(8, 10), STEPS, 2)), (1, behaviours(c, c.n(10, 12), FSTEPS, 2, '"?"'))):
        for q, ds in found:
            ds = [d for n, d in ds if n > 0 or f and "a" in d]
            for i in range(0, len(ds), 20):
                ops = [{"op": "create", "h": 0, "q": q}]
                for d in ds[i:i + 20]:
                    ops += [{"op": "open", "c": 0}] + feeds(None, "feed", d, q, cuts(d)) + [{"op": "close", "c": 0}]
                cases.append(history(ops))
    c.conform(prog, "ConformSystem", cases, cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\n")

def random_history(r, length, size=300):
    """calls of several processors, tables and contexts in random order; the specification
    decides whether each of them is allowed"""
    f = r.random() < .5
    qs, ds = [], []
    for _ in range(r.randint(1, 3)):
        if size > 300:
            doc, t, q = r.choice([gen.special, gen.many_states, gen.special, lambda r, f: gen.huge(r, f, 200)])(r, f)
        else:
            doc, t, q = gen.case(r, r.choice(["small", "plain", "ws", "objects", "arrays"]), filters=f)
        while len(doc) > size:
            doc, t, q = gen.case(r, "small", filters=f)
        qs.append(q); ds.append(doc)
    ops, procs, tables, ctxs = [], {}, {}, {}
    def doc():
        return r.choice(ds)
    while len(ops) < length:
        x = r.random()
        alive = sorted(procs)
        if not alive or x < .1:
            free = [h for h in range(4) if h not in procs]
            if free:
                h = r.choice(free); procs[h] = r.choice(qs)
                ops.append({"op": "create", "h": h, "q": procs[h]})
        elif x < .15:
            # a processor that feeds a context is not freed before the context is closed
            can = [h for h in alive if all(v.get("h") != h for v in ctxs.values())]
            if can:
                h = r.choice(can); del procs[h]
                ops.append({"op": "free", "h": h})
        elif x < .3:
            ops.append({"op": "serial", "h": r.choice(alive), "doc": doc()})
        elif x < .45:
            ops.append({"op": "parallel", "h": r.choice(alive), "n": r.randint(1, 6), "doc": doc()})
        elif x < .52:
            h, t = r.choice(alive), r.randint(0, 2)
            tables[t] = procs[h]
            ops.append({"op": "learn", "h": h, "t": t, "doc": doc()})
        elif x < .65:
            can = [(h, t) for h in alive for t in tables if tables[t] == procs[h]]
            if can:
                h, t = r.choice(can)
                ops.append({"op": "opt", "h": h, "t": t, "n": r.randint(1, 6), "doc": doc()})
        elif x < .7:
            free = [k for k in range(3) if k not in ctxs]
            if free:
                k = r.choice(free); ctxs[k] = {}
                ops.append({"op": "open", "c": k})
        elif x < .92 and ctxs:
            k = r.choice(sorted(ctxs)); v = ctxs[k]
            if not v:
                h = r.choice(alive)
                kind = r.choice(["feed", "pfeed"])
                d = doc()
                v.update(h=h, kind=kind, doc=d, at=0, ends=some_cuts(r, d) + [len(d)])
            if v["ends"]:
                e = v["ends"].pop(0)
                op = {"op": v["kind"], "c": k, "h": v["h"], "doc": v["doc"], "from": v["at"], "to": e}
                if v["kind"] == "pfeed":
                    op["n"] = r.randint(1, 4)
                    can = [t for t in tables if tables[t] == procs[v["h"]]]
                    if can and r.random() < .4:
                        op["op"] = "ofeed"; op["t"] = r.choice(can)
                v["at"] = e
                ops.append(op)
        elif x < .96 and ctxs:
            k = r.choice(sorted(ctxs)); del ctxs[k]
            ops.append({"op": "close", "c": k})
        elif r.random() < .3:
            ops.append({"op": "bound", "n": r.choice([1, 5, 20, 100, 250000000])})
    return ops

ALLCALLS = ["create", "free", "serial", "parallel", "learn", "opt", "open", "close", "feed", "pfeed", "ofeed"]

def histories(c, calls, procs, ctxs, kinds, queries, docs, ends):
    """model checks MCSystem and returns the histories of exactly that many calls"""
    path = c.scratch + "/setup.ndjson"
    with open(path, "w") as f:
        f.write(json.dumps({"queries": queries, "docs": docs, "ends": ends}) + "\n")
    S = lambda x: "{" + ", ".join(json.dumps(y) for y in x) + "}"
    res = c.model("MCSystem", """CONSTANTS
 MaxCalls = %d
 NProcs = %d
 NCtxs = %d
 Cores = {2}
 Kinds = %s
 AtEnd = %s
SPECIFICATION Spec
INVARIANTS Delivered Printed
PROPERTY Separate
""" % (calls, procs, ctxs, S(kinds), S([k for k in kinds if k in ("serial", "parallel", "opt", "feed", "pfeed", "ofeed")])), env={"SETUP": path})
    out = sorted({json.loads(l[len('<<"HIST", '):-2]) for l in res.printed if l.startswith('<<"HIST"')})
    c.extra["histories_enumerated"] = c.extra.get("histories_enumerated", 0) + len(out)
    return [history(json.loads(h)) for h in out]

def C10(c):
    prog = c.program("run.c")
    # every history of a few calls
    setups = [([[gen.FI([gen.V("a")]), gen.K("b")], [gen.DK("b")]], ['[{"b":1,"a":"x"},{"b":"y"}]'], [[7, 27]]),
              ([[gen.ALL, gen.IX(1)], [gen.STAR, gen.DSTAR]], ['[["x","y"],["z",{"b":1}]]'], [[5, 16, 25]]),
              ([[gen.K("a"), gen.FI([gen.V("b"), gen.O("=="), gen.V("c")])], [gen.K("a"), gen.SL(1, None)]],
               ['{"a":[{"b":1,"c":1},{"b":1,"c":"x"}]}'], [[13, 37]])]
    setups += [([[gen.K("a"), gen.ALL, gen.K("b")], [gen.DSTAR]], ['{"a":[{"b":"x"}]}', '{"a":[{"b":2},{"b":"y"}]}'], [[7, 17], [12, 25]])]
    if not c.quick():
        for i in range(12):
            r = c.rng("setup", i)
            f = r.random() < .5
            two = [gen.case(r, "small", filters=f) for _ in range(2)]
            ds = [x[0] for x in two]
            setups.append(([x[2] for x in two], ds, [some_cuts(r, d)[:3] + [len(d)] for d in ds]))
    cases = []
    for i, (qs, ds, ends) in enumerate(setups):
        if c.quick() and len(ds) > 1:
            cases += histories(c, 4, 2, 1, ALLCALLS, qs, ds, ends)
        else:
            cases += histories(c, 5 if i or c.quick() else 6, 2, 1, ALLCALLS, qs, ds, ends)
        cases += histories(c, 6 if c.quick() else 7, 2, 2, ["create", "open", "feed", "close", "serial"] if i % 2 else ["create", "open", "pfeed", "feed", "close"], qs, ds[:1], ends[:1])
    c.conform(prog, "ConformSystem", cases, cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\n", label="enumerated")
    cases = []
    for i in range(c.n(2500, 20000)):
        r = c.rng(i)
        cases.append(history(random_history(r, r.choice([4, 8, 15, 30]))))
    for i in range(c.n(200, 2000)):
        r = c.rng("large", i)
        cases.append(history(random_history(r, r.choice([8, 12, 20]), 6000)))
    c.conform(prog, "ConformSystem", cases, cfg="SPECIFICATION Spec\nPOSTCONDITION Consumed\n")

# ---------------------------------------------------------------- streams of documents
def vary(r, t):
    """a document of the same shape with more, fewer or other elements"""
    if t[0] == "o":
        m = [(k, vary(r, v)) for k, v in t[1] if r.random() < .9]
        if r.random() < .2:
            r.shuffle(m)
        return ("o", m)
    if t[0] == "a":
        e = [vary(r, v) for v in t[1] if r.random() < .9]
        x = r.random()
        if e and x < .3:
            e = e * r.choice([2, 2, 3, 5]) if len(e) < 12 else e
        elif x < .5:
            k = r.randint(0, len(e))
            e = e[k:] + e[:k]
        elif x < .65:
            e = [("p", str(r.randint(0, 9)))] * r.choice([1, 2, 6]) + e
        return ("a", e)
    return t

def stream(r, f, large=False):
    """several documents, one after the other, and a query"""
    doc, t, q = r.choice([lambda: gen.huge(r, f, 300), lambda: gen.many_states(r, f), lambda: gen.many_names(r)])() if large else gen.case(r, r.choice(["small", "small", "plain", "ws", "objects", "arrays", "mix", "mix"]), filters=f)
    ds = [doc]
    for _ in range(r.choice([1, 1, 2, 3, 6] + [20, 60] * (r.random() < .1)) if len(doc) < 2000 else 1):
        x = r.random()
        ds.append(gen.render(r, t, r.choice([0, 1, 2])) if x < .15 else gen.render(r, prune(r, t), 0) if x < .3 else gen.render(r, vary(r, t), r.choice([0, 0, 1])) if x < .6 else
                  r.choice(["[]", "{}", "1", "null", '"x"', '"a"', "[[]]", '{"a":{}}', "[0,1,2,3,4,5,6,7,8]"]) if x < .75 else gen.case(r, "small", filters=f)[0])
    r.shuffle(ds)
    out = ds[0]
    for d in ds[1:]:
        # nothing has to be between documents, unless the first one is a number or a word
        out += (r.choice(["", "", "\n"]) if out.rstrip(" \t\r\n")[-1] in '}]"' and d.lstrip(" \t\r\n")[0] != ":" else "") or r.choice(["\n", " ", "\r\n", " \n\t"])
        out += d
    return out, q, ds

def C18(c):
    prog = c.program("run.c")
    cases = []
    for i in range(c.n(2500, 25000)):
        r = c.rng(i)
        d, q, ds = stream(r, r.random() < .4, i % 40 == 0)
        e = esc(d)
        m = ["s\t0\t" + e] + ["p\t0\t%d\t%s" % (n, e) for n in core_counts(r, d, 3)]
        m += ["T\t0\t0\t" + esc(r.choice(ds + [d])), "o\t0\t%d\t0\t%s" % (r.randint(2, 8), e)]
        if r.random() < .6:
            m += ["M\t%d" % r.choice([1, r.randint(1, len(d)), len(ds[0])]), "s\t0\t" + e, "p\t0\t%d\t%s" % (r.randint(1, 5), e), "o\t0\t%d\t0\t%s" % (r.randint(1, 5), e)]
        cases.append(run_case(d, q, m))
    c.conform(prog, "ConformRun", cases)
    cases = []
    for i in range(c.n(1200, 12000)):
        r = c.rng("feed", i)
        d, q, ds = stream(r, r.random() < .4)
        kind = r.choice(["feed", "feed", "pfeed", "ofeed"])
        ops = [{"op": "create", "h": 0, "q": q}]
        if kind == "ofeed":
            ops.append({"op": "learn", "h": 0, "t": 0, "doc": r.choice(ds + [d])})
        ops.append({"op": "open", "c": 0})
        ops += feeds(r, kind, d, q, some_cuts(r, d, len(d) < 120 and r.random() < .4)) + [{"op": "close", "c": 0}]
        cases.append(history(ops))
    c.conform(prog, "ConformSystem", cases, cfg=SYSTEM, label="fed")
    # every stream of two (three) small documents
    plain, filt = behaviours(c, c.n(7, 9), STEPS, 2, words=c.n("", '"1"'), most=c.n(2, 3)), behaviours(c, c.n(9, 10), FSTEPS, 2, '"?"', words="", most=2)
    only = lambda found: [(q, [(n, d) for n, d in ds if "\n" in d]) for q, ds in found]
    modes = lambda d: ["s\t0\t" + esc(d), "p\t0\t2\t" + esc(d), "p\t0\t3\t" + esc(d), "M\t%d" % (len(d) // 2), "s\t0\t" + esc(d), "M\t1000000"]
    replay(c, prog, only(plain), modes, lambda n: n > 0)
    replay(c, prog, only(filt), modes, size=30)
    parallel_model(c, c.n(6, 8), STEPS, 2, most=2, depth=3)
    parallel_model(c, c.n(7, 9), FSTEPS, 2, '"?"', most=2, depth=3)

# ---------------------------------------------------------------- the stages, called one by one
def stages(c, kind="plain"):
    return c.program("run.c", kind, extra=("-DVERIF_STAGES",), out="stages")

def at(where):
    return ",".join(map(str, where))

def C19(c):
    prog = stages(c)
    cases = []
    for i in range(c.n(3500, 35000)):
        r = c.rng(i)
        f = r.random() < .4
        if r.random() < .15:
            doc, q, train = stream(r, f)
        else:
            doc, t, q = gen.case(r, filters=f)
            train = [doc, gen.render(r, prune(r, t), 0), "[1]"]
        e, b = esc(doc), boundaries(doc)
        m = ["z\t0\t-1\t" + e, "z\t0\t0\t" + e] if r.random() < .6 else ["T\t0\t0\t" + esc(r.choice(train))]
        made = [sorted(r.sample(b, min(len(b), k))) for k in (1, 2, r.randint(1, 6), r.choice([3, 20, 99, 150, 1000]))]
        for w in made:
            m.append("x\t0\t%d\t%s\t%s" % (r.choice([-1, 0]), at(w), e))
        m.append("f\t0\t%d\t%d\t%s" % (r.choice([-1, 0]), r.choice([1, 2, 3, 5, 8, 64, 130, len(doc)]), e))
        lines, rec = run_case(doc, q, m)
        if r.random() < .5:
            lines[0] = "B" + lines[0][1:]
        rec["cuts"] = made
        # learning reads the text again
        rec["runs"] += sum(1 for l in m if l[0] == "z" and l.split("\t")[2] != "-1")
        cases.append((lines, rec))
    for i, (doc, q) in enumerate(huge_cases(c, 9, (0, 1))):
        e, r, b = esc(doc), c.rng("cut", i), boundaries(doc)
        made = [sorted(r.sample(b, min(len(b), k))) for k in (1, 7, 150)]
        lines, rec = run_case(doc, q, ["z\t0\t0\t" + e] + ["x\t0\t%d\t%s\t%s" % (k - 1, at(w), e) for k, w in enumerate(made[1:])] +
                              ["x\t0\t-1\t%s\t%s" % (at(made[0]), e), "f\t0\t0\t40\t" + e])
        rec["cuts"] = made[1:] + made[:1]
        rec["runs"] += 1
        cases.append((lines, rec))
    c.conform(prog, "ConformStages", cases)
    # the same inside of the bounds of all objects
    c.conform(stages(c, "asan"), "ConformStages", cases[:c.n(400, 4000)], seconds=60, label="sanitized")
    # every cut of every small document
    plain, filt = behaviours(c, c.n(8, 10), STEPS, 2, words=""), behaviours(c, c.n(10, 12), FSTEPS, 2, '"?"', words="")
    exact_cuts(c, prog, plain, c.n(3, 4), lambda n: n > 0)
    exact_cuts(c, prog, filt, c.n(3, 4))

def exact_cuts(c, prog, found, most, pick=lambda n: True, learned=True, least=1):
    """every document cut at every choice of up to most boundaries, with and without constraints"""
    import itertools
    cases, last = [], "[]"
    for q, ds in found:
        ds = [d for n, d in ds if pick(n)]
        for d in ds:
            b = boundaries(d)
            ws = [w for k in range(least, most + 1) for w in itertools.combinations(b, k)]
            if not ws:
                continue
            e = esc(d)
            m = ["z\t0\t0\t" + e] if learned else []
            m += ["x\t0\t%d\t%s\t%s" % (t, at(w), e) for w in ws for t in ([-1, 0] if learned else [-1])]
            cases.append((q, d, m, ws))
    c.extra["cut_documents"] = c.extra.get("cut_documents", 0) + sum(len(x[3]) for x in cases)
    out = []
    for q, d, m, ws in cases:
        lines, rec = run_case(d, q, m)
        rec["cuts"] = [list(w) for w in ws]
        rec["runs"] += 1 if learned else 0
        out.append((lines, rec))
    c.conform(prog, "ConformStages", out, label="enumerated with cuts")

# ---------------------------------------------------------------- memory and termination
def any_case(r, **kw):
    """all ways to run a query over a document, in one case"""
    doc, t, q = gen.case(r, filters=r.random() < .4, **kw)
    m = ["s\t0\t" + esc(doc), "p\t0\t%d\t%s" % (r.randint(2, 100), esc(doc)), "T\t0\t0\t" + esc(doc), "o\t0\t%d\t0\t%s" % (r.randint(2, 20), esc(doc))]
    if r.random() < .5:
        m += ["M\t%d" % r.randint(1, len(doc)), "s\t0\t" + esc(doc), "p\t0\t%d\t%s" % (r.randint(2, 8), esc(doc))]
    return run_case(doc, q, m + ["F\t0"])

def C17(c):
    # reads and writes outside of objects, undefined operations: the sanitizers stop the process
    prog = c.program("run.c", "asan")
    cases = [any_case(c.rng(i)) for i in range(c.n(1200, 15000))]
    r = c.rng("large")
    wide = [gen.many_states(c.rng("states", i), i % 3 == 0) for i in range(c.n(40, 400))] + [gen.many_names(c.rng("names", i)) for i in range(c.n(10, 100))]
    for d, q in list(large(r, c.quick())) + [(x[0], x[2]) for x in wide]:
        e = esc(d)
        cases.append(run_case(d, q, ["s\t0\t" + e, "p\t0\t3\t" + e, "p\t0\t40\t" + e, "T\t0\t0\t" + e, "o\t0\t5\t0\t" + e,
                                     "M\t%d" % max(1, len(d) // 7), "s\t0\t" + e, "p\t0\t4\t" + e, "F\t0"]))
    c.conform(prog, "ConformRun", cases, seconds=120)
    # contexts that are fed piece by piece, several processors, tables and contexts
    cases = []
    for i in range(c.n(250, 4000)):
        r = c.rng("history", i)
        cases.append(history(random_history(r, r.choice([4, 8, 15]))))
    c.conform(prog, "ConformSystem", cases, seconds=120, cfg=SYSTEM)
    lex = c.program("lex.c", "asan")
    cases = [(["L\t" + esc(d)], {"doc": d}) for r, t, d in docs(c, c.n(800, 8000))] + [(["L\t" + esc(d)], {"doc": d}) for r, d in long_texts(c)]
    c.conform(lex, "ConformLex", cases)
    # query texts, also long ones, and expressions
    cases = []
    for i in range(c.n(300, 3000)):
        r = c.rng("texts", i)
        texts = [glue(r, query_symbols(r, r.choice([1, 3, 8, 40])), r.choice([0, .1, .5])) for _ in range(4)]
        cases.append((["A\t" + esc(t) for t in texts], {"texts": texts}))
    c.conform(c.program("expr.c", "asan"), "ConformParser", cases)
    # decisions that depend on memory nobody has written: valgrind stops the process
    vg = valgrind(c, c.program("run.c"))
    cases = []
    for i in range(c.n(160, 3000)):
        r = c.rng("valgrind", i)
        cases.append(any_case(r, profile=r.choice(["small", "plain", "ws"])))
    for x in wide[:c.n(6, 60)]:
        e = esc(x[0])
        cases.append(run_case(x[0], x[2], ["s\t0\t" + e, "p\t0\t3\t" + e, "T\t0\t0\t" + e, "o\t0\t2\t0\t" + e, "F\t0"]))
    c.conform(vg, "ConformRun", cases, seconds=200)
    cases = []
    for i in range(c.n(60, 1500)):
        r = c.rng("valgrind history", i)
        cases.append(history(random_history(r, r.choice([4, 8]))))
    c.conform(vg, "ConformSystem", cases, seconds=200, cfg=SYSTEM)

def valgrind(c, prog):
    """the program under valgrind, that ends with code 77 after a use of uninitialised memory"""
    path = prog + ".vg"
    with open(path, "w") as f:
        f.write('#!/bin/sh\nexec valgrind -q --error-exitcode=77 --undef-value-errors=yes %s "$@"\n' % prog)
    os.chmod(path, 0o755)
    return path

def large(r, quick):
    """sizes around and beyond the initial sizes of buffers, and the extremes of the bounds"""
    FI, V, O, N = gen.FI, gen.V, gen.O, gen.N
    many = [10, 101, 1025, 1500] if quick else [10, 99, 100, 101, 999, 1001, 1025, 2500, 4000]
    for n in many:
        yield "[" + ",".join(str(i) for i in range(n)) + "]", [gen.ALL]
        yield "[" + ",".join('{"a":%d,"b":"x"}' % (i % 7) for i in range(n)) + "]", [FI([V("a"), O(">"), N("3")]), gen.K("b")]
        yield "{" + ",".join('"k%d":[%d]' % (i, i) for i in range(n)) + "}", [gen.STAR, gen.IX(0)]
        yield '{"a":[' + ",".join('{"a":[]}' for i in range(n)) + "]}", [gen.DK("a")]
        yield "[" + ",".join("[]" if i % 2 else "{}" for i in range(n)) + "]", [gen.DSTAR]
        yield "[" + ",".join('"s%d"' % i for i in range(n)) + "]", [gen.SL(1, n - 1)]
    for k in (1, 2, 10, 30, 45, 48):
        yield "[" * k + "1" + "]" * k, [gen.DSTAR]
        yield '{"a":' * k + '"x"' + "}" * k, [gen.DK("a")]
        yield '[{"a":' * (k // 2) + '"x"' + "}]" * (k // 2) + ("" if k // 2 else " "), [gen.DSTAR]
        if k <= 20:
            yield '{"b":"y","a":' * k + '{"a":"z","c":[]}' + "}" * k, [gen.K("a")] * k
    for s in ("[]", "{}", "[{}]", '{"":{}}', "[[],[[]]]", '{"a":{},"b":[]}', ' \n[ ] '):
        for q in ([gen.DSTAR], [gen.K("a")], [gen.ALL], [gen.IX(0)], [FI([V("a")])]):
            yield s, q
    for n in ([3999, 4001, 12000] if quick else [999, 1001, 3998, 3999, 4000, 4001, 8001, 50000]):
        s = "y" * n
        yield '{"a":"%s","%s":1}' % (s, s), [gen.STAR]
        yield '[{"a":"%s","b":"%s"},{"%s":1,"a":"x"}]' % (s, s, s), [FI([V("a"), O("=="), gen.S("x")]), gen.STAR]
        yield "[" + "1" * n + "]", [gen.IX(0)]

# ---------------------------------------------------------------- query texts
def query_symbols(r, size):
    """symbols of a random query text"""
    def name():
        return r.choice(["a", "b", "ab", "_", "A1", "x_y", "or", "and", "true", "e1", "zz", "n" * r.choice([5, 60, 300]) if r.random() < .1 else "q"])
    def num(whole=False):
        if whole or r.random() < .6:
            return r.choice(["0", "1", "2", "10", "007", "2147483", "2147483648", "123456789012345", "9" * 15])
        return r.choice(["0.5", "1.25", "3.14159", "0.000001", "12.0", "100.10"])
    def prop():
        return name() if r.random() < .8 else "*"
    def string():
        q = r.choice("'\"")
        s = r.choice(["", "x", "hello world", "a.b", "(", "]", "&&", "\\" + q, "1", "@.a", "$", "\\\\", "caf\u00e9", " ", "it" + ('"' if q == "'" else "'") + "s"])
        return q + s + q
    def operand(d):
        x = r.random()
        if x < .5:
            out = ["@"]
            for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
                out += [r.choice([".", ".", ".", ".", ".."]), prop()]
            return out
        if x < .65:
            return (["-"] if r.random() < .3 else []) + [num()]
        if x < .75:
            return [string()]
        if x < .83 and d > 0:
            return ["!"] + operand(d - 1)
        if d > 0:
            return ["("] * (k := r.choice([1, 1, 1, 2, 12])) + expr(d - 1) + [")"] * k
        return ["@", ".", name()]
    def expr(d):
        out = operand(d)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
            out += [r.choice(["||", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"])] + operand(d)
        return out
    out = ["$"]
    for _ in range(r.randint(1, size)):
        x = r.random()
        if x < .35:
            out += [".", prop()]
        elif x < .5:
            out += ["..", prop()]
        elif x < .58:
            out += ["[", "*", "]"]
        elif x < .66:
            out += ["[", num(True), "]"]
        elif x < .7:
            out += ["[", num(True), ":", num(True), "]"]
        elif x < .75:
            out += ["[", ":", num(True), "]"]
        elif x < .8:
            out += ["[", num(True), ":", "]"]
        else:
            out += ["[", "?", "("] + expr(2) + [")", "]"]
    return out

def glue(r, syms, p):
    """symbols with blanks between them; those that would run together are always separated"""
    out = ""
    for i, s in enumerate(syms):
        if i and ((out[-1].isalnum() or out[-1] == "_") and (s[0].isalnum() or s[0] == "_") or
                  out[-1] == "." and s[0] == "." or out[-1] in "=<>!" and s[0] == "=" or
                  out[-1].isdigit() and s == "." or r.random() < p):
            out += r.choice([" ", "  ", "\t", " \t "])
        out += s
    return out + ("" if r.random() > p else " ")

def C14(c):
    prog = c.program("expr.c")
    # all texts over small alphabets, as enumerated by TLC
    cases, seen = [], set()
    for k, (size, alpha) in enumerate([
            (c.n(9, 11), ["$", ".", "..", "[", "]", "*", ":", "7", "a"]),
            (c.n(13, 16), ["$", "[", "]", "?", "(", ")", "@", "||", "&&", "==", "!"]),
            (c.n(13, 15), ["$", "[", "]", "?", "(", ")", "@", "+", "*", "<", "&&"]),
            (c.n(12, 13), ["$", "[", "]", "?", "(", ")", "@", ".", "..", "a", "*", "!", "'s'"]),
            (c.n(13, 15), ["$", "[", "]", "?", "(", ")", "@", "-", "%", "1.5", ">="])]):
        res = c.model("MCQueryText", "CONSTANTS\n MaxSymbols = %d\n Alphabet = {%s}\nSPECIFICATION Spec\nINVARIANTS SameSymbols CleanStacks\n" %
                      (size, ", ".join(json.dumps(a) for a in alpha)))
        texts = [json.loads(l[len('<<"QUERY", '):-2]) for l in res.printed if l.startswith('<<"QUERY"')]
        c.extra["texts_enumerated_%d" % k] = len(texts)
        texts.sort()
        for i in range(0, len(texts), 20):
            cases.append((["A\t" + esc(t) for t in texts[i:i + 20]], {"texts": texts[i:i + 20]}))
    c.conform(prog, "ConformParser", cases, label="enumerated")
    cases = []
    for i in range(c.n(1500, 15000)):
        r = c.rng(i)
        texts = []
        for _ in range(4):
            s = query_symbols(r, r.choice([1, 3, 6, 40 if r.random() < .1 else 8]))
            texts += [glue(r, s, p) for p in (0, r.choice([.1, .5, .9]))]
        texts.append(r.choice(texts))
        cases.append((["A\t" + esc(t) for t in texts], {"texts": texts}))
    c.conform(prog, "ConformParser", cases, label="random")

ALIKE = {"'": '"', '"': "'", "(": "[", ")": "]", "[": "(", "]": ")", ".": ",", ",": ".", "&": "|", "|": "&", "=": "~", "<": "=", ">": "=", ":": ";", "@": "$", "$": "@",
         "0": "O", "1": "l", "_": "-", "-": "_", "*": "+"}

def damaged(r, syms):
    """a text beside a query: some symbols or characters left out, put in, exchanged or swapped"""
    syms = list(syms)
    for _ in range(r.choice([0, 1, 1, 1, 2, 4])):
        i, x = r.randrange(len(syms) + 1), r.random()
        any_ = r.choice(["$", "@", ".", "..", "*", "[", "]", "(", ")", "?", ":", ",", "-", "!", "&&", "||", "==", "<", "=~", "+", "/", "a", "b1", "3", "1.5", "1.", ".5", "'s'", '"t"', "'u\"", "\"v'", "'", '"'])
        if x < .3:
            syms.insert(i, any_)
        elif i < len(syms):
            if x < .6:
                del syms[i]
            elif x < .8:
                syms[i] = any_
            elif i + 1 < len(syms):
                syms[i], syms[i + 1] = syms[i + 1], syms[i]
    t = glue(r, syms, r.choice([0, 0, .3])) if syms else ""
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        i, x = r.randrange(len(t) + 1), r.random()
        if x < .6:
            t = t[:i] + r.choice(["#", "=", "&", "|", "'", '"', "~", "^", "{", "}", ";", "\\", "`", "\u00e9", "\x01", "\r", " ", ".", "]", ")", "5", "x"]) + t[i:]
        elif x < .75:
            t = t[:i] + t[i + 1:]
        elif x < .95:
            # a character that looks like another one
            like = [k for k, ch in enumerate(t) if ch in ALIKE]
            if like:
                i = r.choice([k for k in like if t[k] in "'\""] or like)
                t = t[:i] + ALIKE[t[i]] + t[i + 1:]
        else:
            t = t[:i]
    # numerals that are exact, and that the specification can hold
    return "$" if re.search(r"\d{16}|\d{8}\.\d|\.\d{7}", t) else t

def C20(c):
    prog = c.program("expr.c")
    cases, all_ = [], set()
    for k, (size, alpha, other) in enumerate([
            (c.n(6, 8), ["$", ".", "..", "[", "]", "*", ":", "7", "a"], ["?", "(", ")", "'s'", ",", "-", "@", "=~"]),
            (c.n(11, 13), ["$", "[", "]", "?", "(", ")", "@", "&&", "!"], ["a", ".", "*", "]", "7", "=~", ":", ","]),
            (c.n(10, 12), ["$", "[", "]", "?", "(", ")", "@", ".", "a", "<"], ["..", "-", "1.5", "$"])]):
        res = c.model("MCQueryEdit", "CONSTANTS\n MaxSymbols = %d\n Alphabet = {%s}\n Other = {%s}\nSPECIFICATION SpecEdit\nINVARIANTS SameReading Lasting\n" %
                      (size, ", ".join(json.dumps(a) for a in alpha), ", ".join(json.dumps(a) for a in other)))
        texts = {json.loads(l[len('<<"QUERY", '):-2]) for l in res.printed if l.startswith('<<"QUERY"')}
        c.extra["texts_enumerated_%d" % k] = len(texts)
        all_ |= texts
    texts = sorted(all_ - {""})
    # with blanks between the symbols, and without
    texts = [t if i % 2 else t.replace(" ", "") for i, t in enumerate(texts)]
    cases = [(["R\t" + esc(t) for t in texts[i:i + 40]], {"texts": texts[i:i + 40]}) for i in range(0, len(texts), 40)]
    c.conform(prog, "ConformRefusal", cases, seconds=60, label="enumerated")
    cases = []
    for i in range(c.n(2000, 20000)):
        r = c.rng(i)
        texts = [damaged(r, query_symbols(r, r.choice([1, 2, 3, 6]))) for _ in range(10)]
        cases.append((["R\t" + esc(t) for t in texts], {"texts": texts}))
    c.conform(prog, "ConformRefusal", cases, seconds=60, label="random")

# ---------------------------------------------------------------- schedules
def predicted(schedule):
    """the events that a schedule of MCThreads makes, without the waiting at the end"""
    out, made, begun = [], 0, set()
    for t in schedule:
        if t == 0:
            made += 1
            out.append(["c", made])
        elif t not in begun:
            begun.add(t)
            out.append(["b", t])
        else:
            out.append(["t", t])
    return out

def C11(c):
    prog = c.program("run.c", "sched")
    cases = []
    def add(doc, q, runs, label):
        lines = ["P\t0\t" + esc(gen.query_text(q))]
        if any(m[1][0] == "o" for m in runs):
            lines.append("T\t0\t0\t" + esc(doc))
        n = 0
        for sched, m in runs:
            lines += ["W\t" + sched, m, "w"]
            n += 1
        cases.append((lines, {"q": q, "qt": gen.query_text(q), "doc": doc, "runs": n, "label": label}))
    def some_case(r, workers, f):
        """a document that is cut into the given number of chunks, more or less"""
        for _ in range(50):
            doc, t, q = gen.case(r, r.choice(["small", "plain", "objects", "arrays"]), filters=f)
            if 12 * workers < len(doc) < 200:
                break
        return doc, q
    # every schedule of the model
    total = 0
    for workers, points, most in ((1, 3, 0), (2, 2, 0), (2, 3, 0), (3, 1, c.n(2000, 21000))) + (() if c.quick() else ((2, 4, 0), (3, 2, 40000))):
        res = c.model("MCThreads", "CONSTANTS\n Workers = %d\n Points = %d\nSPECIFICATION Spec\nINVARIANTS MergeLast NotStuck Printed\n%s" %
                      (workers, points, "PROPERTY Ends_\n" if workers * points < 6 else ""))
        scheds = sorted(json.loads(json.loads(l[len('<<"SCHEDULE", '):-2])) for l in res.printed if l.startswith('<<"SCHEDULE"'))
        r = c.rng("all", workers, points)
        if most and len(scheds) > most:
            scheds = r.sample(scheds, most)
        total += len(scheds)
        r.shuffle(scheds)
        for i in range(0, len(scheds), 25):
            doc, q = some_case(r, workers, r.random() < .4)
            op = "p\t0\t%d\t%s" % (workers, esc(doc)) if r.random() < .7 else "o\t0\t%d\t0\t%s" % (workers, esc(doc))
            add(doc, q, [("list %d %s" % (points + 1, " ".join(map(str, s[1:]))), op) for s in scheds[i:i + 25]], "enumerated")
    c.extra["schedules_enumerated"] = total
    # schedules that change at every few accesses, with more workers
    for i in range(c.n(900, 12000)):
        r = c.rng("random", i)
        f = r.random() < .4
        doc, t, q = r.choice([lambda: gen.huge(r, f, 200), lambda: gen.many_states(r, f)])() if i % 25 == 0 else gen.case(r, filters=f)
        runs = []
        for _ in range(3):
            n = r.choice([2, 2, 3, 4, r.randint(2, max(2, min(100, len(doc) // 4)))])
            runs.append(("rand %d %d" % (r.randint(1, 10 ** 9), r.choice([1, 3, 10, 40, 200])),
                         "p\t0\t%d\t%s" % (n, esc(doc)) if r.random() < .6 else "o\t0\t%d\t0\t%s" % (n, esc(doc))))
        add(doc, q, runs, "random")
    seen = c.conform(prog, "ConformThreads", cases, seconds=10) or []
    kinds, exact, switches, accesses = set(), 0, 0, 0
    for rec in seen:
        lines = [l for l in cases[rec["id"]][0] if l[0] == "W"]
        traces = [e for e in rec["ev"] if e["e"] == "trace"]
        for l, e in zip(lines, traces):
            kinds.add(json.dumps(e["trace"]))
            switches += e["switches"]
            accesses += e["accesses"]
            if rec["label"] == "enumerated":
                s = [0] + [int(x) for x in l.split("list ")[1].split()[1:]]
                p = predicted(s)
                # up to the last decision
                exact += [x for x in e["trace"] if x[0] in "cb"][:3] == [x for x in p if x[0] in "cb"][:3]
    c.extra.update(schedules_followed=exact, distinct_traces=len(kinds), switches=switches, accesses_monitored=accesses)
