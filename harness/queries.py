"""filter expressions, predicates, patterns, inline functions and SQL statements"""
import datetime

import orjson

from harness.common import Store, mem_reader, no_del, no_random, ticking_clock
from symx.env import harness

from mabel.data.internals.dnf_filters import DnfFilters
from mabel.data.internals.expression import Expression, InvalidExpression
from mabel.data.readers.internals.inline_evaluator import Evaluator
from mabel.data.readers.internals.sql_reader import SqlParser, SqlReader
from mabel.utils.text import like, not_like

OPS = ["=", "==", "<>", "!=", "<", ">", "<=", ">="]


def compare(op, x, y):
    if op in ("=", "=="):
        return x == y
    if op in ("<>", "!="):
        return x != y
    if op == "<":
        return x < y
    if op == ">":
        return x > y
    if op == "<=":
        return x <= y
    return x >= y


def comparison(op, x, y):
    """the comparison of a value of a record, which may be null or of another kind"""
    if x is None or isinstance(x, str) != isinstance(y, str):
        return op in ("<>", "!=")
    return compare(op, x, y)


def truth(x):
    return True if x else False


# ---------------------------------------------------------------- E01
@harness("E01", cases=lambda tier: [[lit, spaced] for lit in ("0", "7", "-1", "2.5", "'1'", "'ab'", "''", "'a\"b'", "\"it's\"", "' OR  1'", "true", "FALSE", "'true'")
                                    for spaced in ((True,) if tier == "quick" else (True, False))],
         reach=["satisfied", "not satisfied", "null", "missing", "other kind"],
         bounds="each comparison operator, number, text and boolean literals (also with quotes, keywords, blanks and brackets in them); field "
                "an integer -3..9, a string of length 0..2 over {1 a b t}, a boolean, null or missing")
def comparisons(env, case):
    lit, spaced = case
    op = env.choice("op", OPS if lit.lower() not in ("true", "false") else ["=", "==", "<>", "!="])
    kind = env.choice("kind", ["int", "str", "same", "bool", "null", "missing"])
    if lit[0] in "'\"":
        value, what = lit[1:-1], "str"
    elif lit.lower() in ("true", "false"):
        value, what = lit.lower() == "true", "bool"
    else:
        value, what = float(lit) if "." in lit else int(lit), "num"
    r = {"other": value}
    if kind == "int":
        r["f"] = env.int("f", -3, 9)
    elif kind == "str":
        r["f"] = env.str("f", "1abt", 0, 2)
    elif kind == "same":
        r["f"] = lit.strip("'\"") if what != "str" else value
    elif kind == "bool":
        r["f"] = env.bool("f")
    elif kind == "null":
        r["f"] = None
    v = r.get("f")
    e = Expression(("f %s %s" if spaced else "f%s%s") % (op, lit))
    got = truth(e(r))
    env.observe("got", got)
    env.reach("satisfied" if got else "not satisfied")
    if v is None:
        env.reach("null" if "f" in r else "missing")
        env.check(got == (op in ("<>", "!=")), "a null or missing value differs from every value and has no order")
        return
    if what == "str":
        env.check(got == truth(comparison(op, v, value)), "text is compared with text, and with nothing else")
    elif what == "num":
        if kind == "bool":
            return
        if isinstance(v, str):
            if kind == "same":
                v = value
            elif len(v) and env.all([c == "1" for c in v]):
                v = 1 if len(v) == 1 else 11
            else:
                env.reach("other kind")
        env.check(got == truth(comparison(op, v, value)), "numbers, also given as text, are compared with numbers")
    else:
        if kind == "int":
            return
        if isinstance(v, str):
            if kind == "same":
                env.check(got == (op in ("=", "==")), "a boolean given as text is that boolean")
                return
            if len(v) and env.all([c == "1" for c in v]):
                return
            env.reach("other kind")
            env.check(got == (op in ("<>", "!=")), "text which is no boolean differs from booleans")
            return
        env.check(got == truth(compare(op, v, value)), "booleans are compared with booleans")


SHAPES = ["A", "NOT A", "A AND B", "A OR B", "A AND B OR C", "A OR B AND C", "NOT A AND B", "NOT A OR B", "NOT (A OR B)", "NOT (A AND B)",
          "(A OR B) AND C", "A AND (B OR C)", "NOT (A AND B) OR C", "A OR NOT B AND C", "A AND B AND C", "A OR B OR C", "NOT NOT A", "((A))",
          "A AND (B OR (C AND D))", "(A AND B) OR (C AND D)", "A AND NOT (B OR C) AND D", "A OR B AND NOT C OR D", "(A OR B) AND (C OR D)",
          "NOT (NOT A AND NOT B)", "(A) AND ((B) OR C)"]


def boolean(shape, leaf):
    """value of a shape; precedence as in SQL: NOT, AND, OR"""
    toks = shape.replace("(", " ( ").replace(")", " ) ").split()
    pos = [0]

    def atom():
        t = toks[pos[0]]
        pos[0] += 1
        if t == "NOT":
            return not atom()
        if t == "(":
            v = or_()
            pos[0] += 1
            return v
        return leaf[t]

    def and_():
        v = atom()
        while pos[0] < len(toks) and toks[pos[0]] == "AND":
            pos[0] += 1
            w = atom()
            v = v and w
        return v

    def or_():
        v = and_()
        while pos[0] < len(toks) and toks[pos[0]] == "OR":
            pos[0] += 1
            w = and_()
            v = v or w
        return v
    return or_()


@harness("E01", cases=SHAPES, reach=["true", "false"],
         bounds="25 combinations of up to four comparisons by AND, OR, NOT and brackets, in upper or lower case; every combination of their values")
def combinations(env, case):
    r, leaf = {}, {}
    text = case
    if env.bool("lower"):
        for w in ("AND", "OR", "NOT"):
            text = text.replace(w, w.lower())
    sub = {"A": "a > 2", "B": "b <> 'x y'", "C": "c is null", "D": "d = true"}
    out = ""
    for ch_i in range(len(text)):
        ch = text[ch_i]
        alone = (ch_i == 0 or not text[ch_i - 1].isalpha()) and (ch_i + 1 == len(text) or not text[ch_i + 1].isalpha())
        out += sub[ch] if ch in sub and alone else ch
    if "A" in case:
        r["a"] = env.int("a", 0, 5)
        leaf["A"] = truth(r["a"] > 2)
    if "B" in sub and "b <> " in out:
        r["b"] = env.choice("b", ["x y", "x  y", None])
        leaf["B"] = r["b"] != "x y"
    if "c is" in out:
        k = env.choice("c", ["null", "missing", "value"])
        if k != "missing":
            r["c"] = None if k == "null" else 0
        leaf["C"] = k != "value"
    if "d = " in out:
        r["d"] = env.bool("d")
        leaf["D"] = truth(r["d"])
    want = boolean(case, leaf)
    got = truth(Expression(out)(r))
    env.reach("true" if want else "false")
    env.observe("got", got)
    env.check(got == want, "NOT binds before AND, AND before OR, brackets first; every part counts")


@harness("E01", cases=["in-num", "in-str", "in-mixed", "in-field", "in-date", "left", "contains-str", "contains-list", "is", "fields", "tick", "like", "date", "matches", "in-quoted", "long-date", "lines", "case"], reach=["true", "false"],
         bounds="membership in lists of two literals (numbers, text, dates) and in a list in another field, text on the left of a comparison, containment in strings of length 0..3 and lists of two, IS [NOT] NULL/TRUE, comparison of two integer "
                "fields, quoted field names, names in upper and lower case, LIKE on strings of length 0..3, dates of January 2024")
def other_operators(env, case):
    if case == "in-num":
        v = env.choice("kind", ["int", "null"])
        r = {"f": env.int("f", -1, 9) if v == "int" else None}
        got = truth(Expression("f IN (3, -1)")(r))
        want = r["f"] is not None and truth(env.any([r["f"] == 3, r["f"] == -1]))
    elif case == "in-str":
        r = {"f": env.str("f", "1a,b", 0, 3)}
        got = truth(Expression("f in ('a,b', '1', \"\")")(r))
        want = truth(env.any([r["f"] == "a,b", r["f"] == "1", r["f"] == ""]))
    elif case == "in-mixed":
        r = {"f": env.int("f", 0, 3)}
        got = truth(Expression("NOT f IN ('1', 2)")(r))
        want = truth(r["f"] != 2)
    elif case == "in-quoted":
        r = {"f": env.str("f", "a'\"", 0, 3)}
        got = truth(Expression("f IN (\"a'\", '\"\"', \"'a'\")")(r))
        want = truth(env.any([r["f"] == "a'", r["f"] == '""', r["f"] == "'a'"]))
    elif case == "long-date":
        r = {"f": env.choice("f", ["2024-01-02 lorem", "2024-01-02", "2024-01-02 ", datetime.datetime(2024, 1, 2), "2024-01-02T", "lorem"])}
        got = truth(Expression("f = '2024-01-02 lorem'")(r))
        want = r["f"] == "2024-01-02 lorem"
        b = {"f": env.choice("blank", [" 2024-01-02", "2024-01-02", " 2024-01-02 "])}
        env.check(truth(Expression("f = ' 2024-01-02'")(b)) == (b["f"] == " 2024-01-02"), "text with blanks about a date is text")
    elif case == "lines":
        r = {"f": env.str("f", "a \n", 0, 3), "g": env.int("g", 0, 2)}
        got = truth(Expression("f =\n'a\n '\tAND\n\n g >  0\n")(r))
        want = truth(env.all([r["f"] == "a\n ", r["g"] > 0]))
        env.check(truth(Expression("f <> 'a  \n'")(r)) == truth(r["f"] != "a  \n"), "blanks within quotes are as they are")
    elif case == "in-field":
        r = {"f": env.str("f", "ab", 0, 2), "tags": [env.str("t", "ab", 0, 3), "ba"]}
        got = truth(Expression("f IN tags")(r))
        want = truth(env.any([r["f"] == r["tags"][0], r["f"] == "ba"]))
        env.check(truth(Expression("'ab' IN tags")(r)) == truth(r["tags"][0] == "ab"), "a literal is in a list of a field")
        n = {"f": env.int("n", 0, 3), "tags": [env.int("m", 0, 3), 2]}
        env.check(truth(Expression("f in tags")(n)) == truth(env.any([n["f"] == n["tags"][0], n["f"] == 2])), "a number is in a list of a field")
    elif case == "in-date":
        d = env.pin(env.int("day", 1, 4))
        r = {"f": env.choice("form", [datetime.datetime(2024, 1, d), "2024-01-%02d" % d])}
        got = truth(Expression("f IN ('2024-01-02', \"2024-01-04\")")(r))
        want = d in (2, 4)
    elif case == "left":
        op = env.choice("op", OPS)
        r = {"f": env.str("f", "1ab", 0, 2), "g": env.str("g", "xy1", 1, 1)}
        got = truth(Expression("'1a' %s f" % op)(r))
        want = truth(compare(op, "1a", r["f"]))
        env.check(truth(Expression("'1' %s f" % op)(r)) == truth(compare(op, "1", r["f"])), "text on the left is compared as text")
        if r["g"] == "1" and len(r["f"]) and env.all([c == "1" for c in r["f"]]):
            env.check(truth(Expression("f %s g" % op)(r)) == truth(compare(op, len(r["f"]), 1)), "text of two numbers is compared as numbers")
        else:
            env.check(truth(Expression("f %s g" % op)(r)) == truth(compare(op, r["f"], r["g"])), "text of two fields is compared as text")
    elif case == "contains-str":
        s = env.str("f", "1ab", 0, 3)
        r = {"f": s}
        got = truth(Expression("f CONTAINS '1a'")(r))
        want = truth(env.any([s[i:i + 2] == "1a" for i in range(len(s) - 1)] + [False]))
    elif case == "contains-list":
        a, b = env.str("a", "xy", 0, 1), env.int("b", 0, 3)
        r = {"f": [a, b]}
        got = truth(Expression("f CONTAINS 'x'")(r))
        want = truth(a == "x")
        env.check(truth(Expression("f CONTAINS 2")(r)) == truth(b == 2), "a list contains a number")
        t = {"f": [env.str("c", "xy", 0, 2)], "n": [env.int("n", 0, 30)]}
        env.check(truth(Expression("f CONTAINS 'x'")(t)) == truth(t["f"][0] == "x"), "a list contains what is one of its values, not part of one")
        env.check(truth(Expression("n CONTAINS 2")(t)) == truth(t["n"][0] == 2), "a list contains what is one of its values, not part of one")
        env.check(not truth(Expression("n CONTAINS '2'")(t)), "a list of numbers contains no text")
    elif case == "is":
        k = env.choice("kind", ["null", "missing", "int", "bool", "str"])
        r = {}
        if k == "null":
            r["f"] = None
        elif k == "int":
            r["f"] = env.int("f", 0, 1)
        elif k == "bool":
            r["f"] = env.bool("f")
        elif k == "str":
            r["f"] = env.str("f", "a", 0, 1)
        got = truth(Expression("f IS NOT NULL AND 1 = 1")(r))
        want = r.get("f") is not None
        env.check(truth(Expression("f is none")(r)) == (not want), "is null is the contrary of is not null")
        is_true = k == "bool" and truth(r["f"])
        env.check(truth(Expression("f IS TRUE")(r)) == is_true and truth(Expression("f is not true")(r)) == (not is_true), "only true is true")
        env.check(truth(Expression("NULL IS f")(r)) == (not want), "a null on the left")
    elif case == "fields":
        r = {"f": env.int("f", 0, 9), "g": env.int("g", 0, 9)}
        got = truth(Expression("f<g")(r))
        want = truth(r["f"] < r["g"])
        env.check(truth(Expression("5 >= g")(r)) == truth(r["g"] <= 5), "a literal on the left")
    elif case == "tick":
        r = {"a and b": env.int("f", 0, 9), "a": 0}
        got = truth(Expression("`a and b` > 4")(r))
        want = truth(r["a and b"] > 4)
        n = {"a b": 0, "a  b": r["a and b"], "year": 7, "YEAR": 1}
        env.check(truth(Expression("`a  b` > 4")(n)) == want and not truth(Expression("`a b` > 4")(n)), "blanks in a quoted name are as they are")
        env.check(truth(Expression("`year` = 7 and not `YEAR` = 7")(n)), "a quoted name is a field, whatever it looks like")
    elif case == "case":
        r = {"f": env.int("f", 0, 3), "F": env.int("F", 0, 3), "g": env.int("g", 0, 3), "Ab": "x"}
        got = truth(Expression("F > 1")(r))
        want = truth(r["F"] > 1)
        env.check(truth(Expression("f > 1")(r)) == truth(r["f"] > 1), "fields are told apart by the case of their names")
        env.check(not truth(Expression("G >= 0 or ab = 'x' or AB = 'x'")(r)) and truth(Expression("Ab = 'x'")(r)), "no field of another case is taken")
    elif case == "like":
        r = {"f": env.str("f", "ab0", 0, 3)}
        got = truth(Expression("f LIKE '0%a' AND NOT f NOT LIKE '0%'")(r))
        want = truth(env.all([len(r["f"]) >= 2, r["f"][:1] == "0", r["f"][-1:] == "a"]))
    elif case == "date":
        d = env.pin(env.int("day", 1, 4))
        r = {"f": env.choice("form", [datetime.datetime(2024, 1, d), "2024-01-%02d" % d, "2024-01-%02dT00:00:00Z" % d])}
        got = truth(Expression("f >= '2024-01-02' AND f < '2024-01-04'")(r))
        want = d in (2, 3)
    else:
        r = {"f": env.str("f", "ab1", 0, 3)}
        got = truth(Expression("f MATCHES '^[0-9]+$'")(r))
        want = len(r["f"]) > 0 and truth(env.all([c == "1" for c in r["f"]]))
        env.check(truth(Expression("f MATCHES 'a1'")(r)) == truth(env.any([r["f"][:2] == "a1", r["f"][1:] == "a1"])), "a pattern can match anywhere in the text")
    env.reach("true" if want else "false")
    env.observe("got", got)
    env.check(got == want, "the operator holds exactly when it should")


USED = [
    ("`a b` > 4", lambda env, r: r["a b"] > 4),
    ("`n` IN (1, 'x', 3) OR `a b` = 2", lambda env, r: env.any([r["n"] == 1, r["n"] == 3, r["a b"] == 2])),
    ("n IN (1, 2) AND NOT s = 'x'", lambda env, r: env.all([env.any([r["n"] == 1, r["n"] == 2]), r["s"] != "x"])),
    ("s LIKE 'x%' OR s LIKE '%y' OR s LIKE '_z' OR s LIKE 'zy%' OR s LIKE 'yx' OR n = 0", lambda env, r: env.any([r["s"][:1] == "x", r["s"][-1:] == "y",
                                                                                                             env.all([len(r["s"]) == 2, r["s"][1:] == "z"]), r["s"][:2] == "zy", r["s"] == "yx", r["n"] == 0])),
    ("n < `a b` AND s MATCHES 'x|y'", lambda env, r: env.all([r["n"] < r["a b"], env.any([c in "xy" for c in r["s"]] + [False])])),
    ("d >= '2024-01-02' AND NOT n = 1", lambda env, r: env.all([r["d"] >= "2024-01-02", r["n"] != 1])),
    ("s IS NOT NULL AND NOT NOT n >= 2", lambda env, r: env.all([r["n"] >= 2])),
]


@harness("E01", cases=lambda tier: list(range(len(USED))), reach=["true", "false"],
         bounds="7 expressions (quoted names, lists, several patterns, dates, negations), each held by one object which is asked about a sequence of three records (the second without the fields), "
                "in between written out as predicates")
def reused(env, case):
    text, ref = USED[case]
    e = Expression(text)
    if env.bool("first_without"):
        e({})
    for i in range(3):
        if i == 1:
            e.to_dnf()
            e({})
            continue
        r = {"a b": env.int("ab%d" % i, 0, 6), "n": env.int("n%d" % i, 0, 4), "s": env.str("s%d" % i, "xyz", 0, 2) if i == 0 else env.choice("s2", ["x", "xy", "zz", "zy", "yx", ""]),
             "d": "2024-01-%02d" % env.pin(env.int("d%d" % i, 1, 3)) if "d >=" in text else ""}
        held = dict(r)
        want = truth(ref(env, r))
        got = truth(e.evaluate(r) if i else e(r))
        env.reach("true" if want else "false")
        env.check(got == want, "an expression says of a record what it says, whatever it was asked before")
        env.check(truth(e(r)) == want, "asked again, it says the same")
        env.check(env.eq(held, r), "a record is as it was")


@harness("E01", cases=["f = 1 g = 2", "f = 1 2", "f = 1)", "(f = 1", "f", "f =", "= 1", "AND f = 1", "f = 1 AND", "f = 1 OR OR g = 2", "NOT", "f = 1 AND (g = 2", "()", "f IN (1, 2", "f IN (1, 2 AND g = 2", "f = 'a", "f = 1 AND", "f LIKE",
                      "(f = 1 g", "(f = 1 2", "(f = 1 g = 2)", "(f = 1 AND", "(f = 1 AND g = 2 3", "((f = 1)", "NOT (f = 1 2"],
         reach=["refused"], bounds="25 malformed expressions")
def malformed(env, case):
    r = {"f": env.int("f", 0, 2), "g": 2}
    refused = False
    try:
        Expression(case)(r)
    except (InvalidExpression, Exception):
        refused = True
    env.reach("refused")
    env.check(refused, "an expression which does not parse is refused")


def parsed(words, r):
    """(value, rest) of the longest disjunction words begin with; None if there is none"""
    def condition(w):
        if not w:
            return None
        if w[0] == "NOT":
            c = condition(w[1:])
            return None if c is None else (not c[0], c[1])
        if w[0] == "(":
            c = parsed(w[1:], r)
            return None if c is None or c[1][:1] != [")"] else (c[0], c[1][1:])
        return (r["f"] == 1, w[1:]) if w[0] == "f = 1" else None

    def joined(w, word, part, both):
        c = part(w)
        while c is not None and c[1][:1] == [word]:
            d = part(c[1][1:])
            c = None if d is None else (both(c[0], d[0]), d[1])
        return c

    def conjunction(w):
        return joined(w, "AND", condition, lambda a, b: a and b)

    return joined(words, "OR", conjunction, lambda a, b: a or b)


TERMS = ["(", "f = 1", "NOT", ")", "AND", "OR", ",", "'a'", "*"]


@harness("E01", cases=lambda tier: [[w, n] for w in TERMS for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5))], reach=[],
         bounds="every sequence of up to four (thorough five) of: a comparison, brackets, AND, OR, NOT, a comma, quoted text and an asterisk")
def any_words(env, case):
    first, n = case
    r = {"f": env.pin(env.int("f", 1, 2))}
    words = [first] + [TERMS[env.choice("word%d" % i, list(range(len(TERMS))))] for i in range(n - 1)]
    want = parsed(words, r)
    got = env.catch(lambda: truth(Expression(" ".join(words))(r)))
    env.observe("got", got)
    if want is None or want[1]:
        env.check(got[0] == "exc", "text which is no expression is refused")
    else:
        env.check(got == ("ok", want[0]), "an expression is evaluated as it is written")


# ---------------------------------------------------------------- E02
DNF_OPS = ["=", "==", "is", "!=", "<>", "<", ">", "<=", ">=", "in", "!in", "not in", "contains", "!contains", "like", "matches", "~", "IN", "LIKE"]


@harness("E02", cases=DNF_OPS, reach=["true", "false", "null"],
         bounds="each operator; field an integer -3..9 or a string of length 0..3 over {a b %}, null or missing; value 4, a list of two, or a fixed text")
def predicates(env, case):
    op = case.lower()
    r = {"z": 1}
    k = env.choice("kind", ["value", "null", "missing"])
    text = op in ("contains", "!contains", "like", "matches", "~")
    if k == "value":
        r["f"] = env.str("f", "ab%", 0, 3) if text else env.int("f", -3, 9)
    elif k == "null":
        r["f"] = None
    if op in ("in", "!in", "not in"):
        value = env.choice("list", [[4, -1], (4, -1), {4, -1}])
    elif text:
        value = {"contains": "ab", "!contains": "ab", "like": "a%b_", "matches": "^a+$", "~": "b|%"}[op]
    else:
        value = 4
    got = truth(DnfFilters([("f", case, value)])(r))
    env.observe("got", got)
    f = r.get("f")
    if f is None:
        env.reach("null")
        env.check(not got, "a null or missing value satisfies no predicate")
        return
    if op in ("in", "!in", "not in"):
        want = truth(env.any([f == 4, f == -1])) == (op == "in")
    elif op in ("contains", "!contains"):
        want = truth(env.any([f[i:i + 2] == "ab" for i in range(len(f) - 1)] + [False])) == (op == "contains")
    elif op == "like":
        want = len(f) == 3 and truth(env.all([f[0] == "a", f[1] == "b"]))
    elif op == "matches":
        want = len(f) > 0 and truth(env.all([c == "a" for c in f]))
    elif op == "~":
        want = truth(env.any([env.any([c == "b", c == "%"]) for c in f] + [False]))
    else:
        want = truth(compare("=" if op == "is" else op, f, 4))
    env.reach("true" if want else "false")
    env.check(got == want, "the predicate holds exactly when it should")


@harness("E02", cases=["contains", "!contains", "like", "="], reach=["true", "false"],
         bounds="fields which are lists of a text of length 0..2 over {a b} or of an integer 0..30, values a text and a number")
def predicates_of_lists(env, case):
    t, n = env.str("t", "ab", 0, 2), env.int("n", 0, 30)
    r = {"t": [t, "bb"], "n": [n, 7]}
    ask = lambda f, v: truth(DnfFilters([(f, case, v)])(r))
    if case == "like":
        env.reach("true")
        env.reach("false")
        env.check(truth(DnfFilters([("t", "like", "%a%")])({"t": t})) == truth(env.any([c == "a" for c in t] + [False])), "like is of the whole text")
        return
    if case == "=":
        got = [ask("t", ["a", "bb"]), ask("n", [3, 7])]
        want = [truth(t == "a"), truth(n == 3)]
    else:
        got = [ask("t", "a"), ask("n", 3), ask("t", "bb"), ask("n", "7")]
        want = [truth(t == "a"), truth(n == 3), True, False]
        if case == "!contains":
            want = [not w for w in want]
    env.reach("true" if got[0] else "false")
    env.observe("got", got)
    env.check(got == want, "a list contains what is one of its values, not part of one")


@harness("E02", cases=["single", "and", "or", "or of and", "one list of one", "empty", "deep", "and of five", "or of five", "no predicate"], reach=["true", "false"],
         bounds="up to five predicates on integer fields 0..9, null or missing, joined as a tuple, a list or lists of lists")
def structure(env, case):
    r, p, v = {}, [], []
    for i in range(5 if "five" in case else 4):
        k = "f%d" % i
        kind = env.choice("kind%d" % i, ["int", "null"] if i < 2 else ["int"])
        if kind == "int":
            r[k] = env.int(k, 0, 9)
        elif kind == "null":
            r[k] = None
        p.append((k, ">", i))
        v.append(r.get(k) is not None and truth(r[k] > i))
    if case == "single":
        pred, want = p[0], v[0]
    elif case == "and":
        pred, want = [p[0], p[1], p[2]], v[0] and v[1] and v[2]
    elif case == "or":
        pred, want = [[p[0]], [p[1]], [p[2]]], v[0] or v[1] or v[2]
    elif case == "or of and":
        pred, want = [[p[0], p[1]], [p[2], p[3]]], (v[0] and v[1]) or (v[2] and v[3])
    elif case == "one list of one":
        pred, want = [[p[0]]], v[0]
    elif case == "empty":
        pred, want = None, True
    elif case == "and of five":
        pred, want = list(p), all(v)
    elif case == "or of five":
        pred, want = [[x] for x in p], any(v)
    elif case == "no predicate":
        pred, want = env.choice("form", [[], [[]]]), True
        env.reach("false")
    else:
        pred, want = [[[p[0]], [p[1]]], [p[2]]], v[0] or v[1] or v[2]
    got = truth(DnfFilters(pred)(r)) if case != "empty" else list(DnfFilters(None).filter_dictset([r])) == [r]
    env.reach("true" if want else "false")
    if case in ("empty",):
        env.reach("false")
    env.observe("got", got)
    env.check(got == want, "predicates of a list all hold, of one of the lists")
    if case != "empty" and case != "single":
        env.check(len(list(DnfFilters(pred).filter_dictset([r]))) == (1 if want else 0), "filtering keeps the record if it satisfies the predicates")


@harness("E02", cases=["one", "all of", "any of", "like", "filtered"], reach=["true", "false"],
         bounds="filters held by one object, asked about a sequence of three records (the second without the fields)")
def dnf_reused(env, case):
    filters, ref = {
        "one": (("n", "in", [1, 3]), lambda r: env.any([r["n"] == 1, r["n"] == 3])),
        "all of": ([("n", ">", 1), ("s", "!=", "x"), ("s", "!in", ("y", "z"))], lambda r: env.all([r["n"] > 1, r["s"] != "x", r["s"] != "y", r["s"] != "z"])),
        "any of": ([[("n", "==", 1), ("s", "contains", "x")], [("n", "==", 2)], [("s", "=", "y")]],
                   lambda r: env.any([env.all([r["n"] == 1, env.any([c == "x" for c in r["s"]] + [False])]), r["n"] == 2, r["s"] == "y"])),
        "like": ([[("s", "like", "x%")], [("s", "LIKE", "%y")], [("s", "like", "_z")], [("s", "like", "zy")], [("s", "~", "^yx$")]],
                 lambda r: env.any([r["s"][:1] == "x", r["s"][-1:] == "y", env.all([len(r["s"]) == 2, r["s"][1:] == "z"]), r["s"] == "zy", r["s"] == "yx"])),
        "filtered": ([("n", ">=", 1), ("n", "<=", 3)], lambda r: env.all([r["n"] >= 1, r["n"] <= 3])),
    }[case]
    f = DnfFilters(filters)
    rows = [{"n": env.int("n%d" % i, 0, 4), "s": env.str("s%d" % i, "xyz", 0, 2) if i < 2 else env.choice("s2", ["x", "zy", "yx", ""])} for i in range(3)]
    rows[1:1] = [{"other": 1}]
    held = [dict(r) for r in rows]
    wants = [truth(ref(r)) if "n" in r else False for r in rows]
    env.reach("true" if wants[0] else "false")
    if case == "filtered":
        for i in range(2):
            env.check(env.eq(list(f.filter_dictset(iter(rows))), [r for r, w in zip(rows, wants) if w]), "filtered again, the same records in the same order")
    for i, r in enumerate(rows):
        env.check(truth(f(r)) == wants[i], "a filter says of a record what it says, whatever it was asked before")
    env.check(truth(f(rows[0])) == wants[0], "asked again, it says the same")
    env.check(env.eq(held, rows), "records are as they were")


# ---------------------------------------------------------------- E03
def like_ref(env, text, pattern):
    """does the text match, as one condition (text of known length, unknown characters)"""
    memo = {}

    def m(i, j):
        if (i, j) not in memo:
            if j == len(pattern):
                c = i == len(text)
            elif pattern[j] == "%":
                c = env.any([m(k, j + 1) for k in range(i, len(text) + 1)])
            elif i == len(text):
                c = False
            elif pattern[j] == "_":
                c = m(i + 1, j + 1)
            else:
                low = pattern[j].lower()
                c = env.all([env.any([text[i] == low, text[i] == low.upper()]), m(i + 1, j + 1)])
            memo[i, j] = c
        return memo[i, j]
    return m(0, 0)


def patterns(alphabet, n):
    out = [""]
    last = [""]
    for _ in range(n):
        last = [p + c for p in last for c in alphabet]
        out += last
    return out


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


@harness("E03", cases=lambda tier: chunks(patterns("aB%_.", 2) + ["%a%", "a%_b", "_%_", "a\n%", "[a]%", "(a|b)", "a\\%", "^a$", "a{2}", "a+"], 6) if tier == "quick" else
         chunks(patterns("aB%_.*", 3) + ["%a%b%", "a%_b", "a\n%", "[a]%", "(a|b)", "a\\%", "^a$", "a{2}", "a+", "%%%", "_%_%"], 20),
         reach=["like", "not like"],
         bounds="every pattern of length 0..2 (thorough 0..3) over {a B % _ .} and patterns with characters special in regular expressions, against "
                "every text of length 0..3 over {a A b B . newline [ +}")
def like_patterns(env, case):
    p = env.choice("pattern", list(case))
    t = env.str("text", "aAbB.\n[+", 0, 3)
    want = truth(like_ref(env, t, p))
    got = truth(like(t, p))
    env.reach("like" if want else "not like")
    env.observe("got", got)
    env.check(got == want, "% stands for any text, _ for one character, anything else for itself in either case")
    env.check(truth(not_like(t, p)) == (not want), "not like is the contrary")


@harness("E03", cases=[["stra\u00dfe", "%ss%"], ["strasse", "stra\u00dfe"], ["\ufb01n", "fi%"], ["\u00c9T\u00c9", "\u00e9t_"], ["\u00b5", "\u03bc"], ["a\u0301", "_"], ["\U0001f600", "_"], ["\U0001f600", "__"]],
         reach=["checked"], bounds="eight pairs of text and pattern with letters beyond ascii")
def like_letters(env, case):
    t, p = case
    env.reach("checked")
    want = len(t) == len(p) and all(x == "_" or x == y or x.lower() == y.lower() for x, y in zip(p, t)) if "%" not in p else p[:-1] == t[:len(p) - 1] if p[0] != "%" else p[1:-1] in t
    env.check(truth(like(t, p)) == want, "a letter is like itself in either case, not like what it could be written as")
    env.check(truth(Expression("f LIKE '%s'" % p)({"f": t})) == want, "an expression likes the same")


@harness("E03", cases=lambda tier: ["null", "number"], reach=["checked"], bounds="nulls, integers 0..99")
def like_other(env, case):
    env.reach("checked")
    if case == "null":
        p = env.choice("pattern", ["n%", "%", "none", "NONE", ""])
        env.check(not truth(like(None, p)), "a null is not like anything")
        env.check(truth(not_like(None, p)), "a null is not like anything")
        env.check(not truth(Expression("f LIKE '%s'" % p)({})), "a missing field is not like anything")
    else:
        n = env.int("n", 0, 99)
        env.check(truth(like(n, "1%")) == truth(env.any([n == 1, env.all([n >= 10, n <= 19])])), "a number is like its text")


@harness("E03", cases=lambda tier: [["%a", "a%", "A%", "%b%", "_", "a_", "%"], ["b.", "b_", "B%", "%", "%.", "_b", ""]], reach=["checked"],
         bounds="7 patterns asked about one after another, in three rounds, of three texts of length 0..2 over {a b .}")
def like_again(env, case):
    env.reach("checked")
    first = env.choice("first", list(range(len(case))))
    order = case[first:] + case[:first]
    for i in range(3):
        t = env.str("t%d" % i, "ab.", 0, 2) if i == 0 else env.choice("t%d" % i, ["b.", "Ab"])
        for p in order:
            want = truth(like_ref(env, t, p))
            env.check(truth(like(t, p)) == want, "what a text is like does not depend on what was asked before")
        env.check(truth(Expression("f LIKE '%s'" % order[0])({"f": t})) == truth(like_ref(env, t, order[0])), "an expression likes the same")


# ---------------------------------------------------------------- E04
def call(env, expression, record):
    """one evaluated column"""
    out = Evaluator(expression + " AS r")(record)
    return out["r"]


TEXT_FUNCTIONS = ["LEFT", "RIGHT", "MID", "UPPER", "LOWER", "UCASE", "LCASE", "TRIM", "LEN", "STRING", "CONCAT", "ISNONE", "BOOLEAN", "nested", "literal", "MD5", "HASH", "lists", "words", "record"]
NUMBER_FUNCTIONS = ["TRUNC", "INTEGER", "DOUBLE", "BETWEEN", "SORT", "TEXT", "ROUND", "RANDOM"]
DATE_FUNCTIONS = ["YEAR", "MONTH", "DAY", "QUARTER", "HOUR", "MINUTE", "SECOND", "DATE", "TIME", "ADDDAYS", "DAYSDIFF", "WEEK"]


@harness("E04", cases=TEXT_FUNCTIONS, reach=["checked"],
         bounds="strings of length 0..3 over {a B blank 1}, numbers of characters 0..4")
def text_functions(env, case):
    s = env.str("s", "aB 1" if case != "TRIM" else "a \t\n", 0, 3)
    r = {"s": s, "t": "x, (y)", "none": None}
    env.reach("checked")
    if case in ("LEFT", "RIGHT", "MID"):
        k = env.pin(env.int("k", 0, 4))
        if case == "LEFT":
            got, want = call(env, "LEFT(s, %d)" % k, r), s[:k]
        elif case == "RIGHT":
            got, want = call(env, "RIGHT(s, %d)" % k, r), s[max(0, len(s) - k):]
        else:
            j = env.pin(env.int("j", -4, 2))
            got, want = call(env, "MID(s, %d, %d)" % (j, k), r), s[j:][:k]
    elif case in ("UPPER", "UCASE"):
        got, want = call(env, case + "(s)", r), "".join(["A" if c == "a" else c for c in s])
    elif case in ("LOWER", "LCASE"):
        got, want = call(env, case + "(s)", r), "".join(["b" if c == "B" else c for c in s])
    elif case == "TRIM":
        lo, hi = 0, len(s)
        while lo < hi and s[lo] != "a":
            lo += 1
        while lo < hi and s[hi - 1] != "a":
            hi -= 1
        got, want = call(env, "TRIM(s)", r), s[lo:hi]
    elif case == "LEN":
        got, want = call(env, "LEN(s)", r), len(s)
        env.check(call(env, "LEN(none)", r) is None, "of a null is null")
    elif case == "STRING":
        got, want = call(env, "STRING(s)", r), s
        v = env.choice("other", [0, 10, -1, 0.0, 2.5, True, False, "", [], [0], [0, 1], {}, {"a": 0}])
        as_text = {"[]": "", "[0]": "0", "[0, 1]": "0, 1", "{}": "\\{}\\", "{'a': 0}": '\\{"a":0}\\'}.get(repr(v), str(v))
        env.check(env.same(call(env, "STRING(v)", {"v": v}), as_text), "other values as text")
        if not isinstance(v, (list, dict)):
            texts = [call(env, f, {"v": v}) for f in ("LEFT(v, 1)", "RIGHT(v, 1)", "UPPER(v)", "lower(v)", "TRIM(v)", "MID(v, 1, 1)", "CONCAT(v, '-', v)")]
            env.check(texts == [str(v)[:1], str(v)[-1:], str(v).upper(), str(v).lower(), str(v), str(v)[1:2], str(v) + "-" + str(v)], "functions of text take other values as text")
    elif case == "CONCAT":
        got, want = call(env, "CONCAT(s, ', ', t, s)", r), s + ", x, (y)" + s
    elif case == "ISNONE":
        got, want = [call(env, "ISNONE(s)", r), call(env, "ISNONE(none)", r), call(env, "ISNONE(missing)", r)], [False, True, True]
    elif case == "BOOLEAN":
        b = env.bool("b")
        got, want = [call(env, "BOOLEAN(b)", {"b": b}), call(env, "BOOLEAN(b)", {"b": "false"}), call(env, "BOOLEAN(s)", r)], [b, False, True]
        no = "".join([env.str("letter%d" % i, c, 1, 1) for i, c in enumerate(("fF", "aA", "lL", "sS", "eE"))])
        if env.bool("false"):
            env.check(not call(env, "BOOLEAN(no)", {"no": no}), "false in any case is false")
        else:
            env.check(call(env, "BOOLEAN(no)", {"no": no + "s"}) is True and call(env, "BOOLEAN(no)", {"no": no[:4]}) is True, "what isn't false is true")
    elif case == "nested":
        got, want = call(env, "len(Concat(LEFT(s, 2), upper(rIGHT(s, 1))))", r), min(len(s), 2) + min(len(s), 1)
    elif case == "literal":
        out = Evaluator("s, 'a, (b) as c' AS lit, 3, s as other")(r)
        got, want = [out["s"], out["lit"], out["3"], out["other"]], [s, "a, (b) as c", 3, s]
        more = Evaluator("7 AS seven, 0.5 AS half, true AS yes, NULL AS nothing, '2024-02-29' AS day, \"it's\" AS said, s")
        env.check(env.eq(more(r), {"seven": 7, "half": 0.5, "yes": True, "nothing": None, "day": datetime.datetime(2024, 2, 29), "said": "it's", "s": s}), "constants of any kind")
        env.check(more.fields() == ["seven", "half", "yes", "nothing", "day", "said", "s"], "constants are fields of the selection")
    elif case == "lists":
        w = env.str("w", "a,", 0, 2)
        got = [call(env, "CONCAT(l)", {"l": [s, w]}), call(env, "STRING(l)", {"l": [s, w]}), call(env, "CONCAT(l)", {"l": [s]}), call(env, "CONCAT(s)", r)]
        want = [s + ", " + w, s + ", " + w, s, s]
    elif case == "words":
        n = env.int("n", 0, 9)
        record = {"bias": n, "asset": s, "has_as": n, "class": s, "upperx": n, "rand": s, "last": 1, "order_id": n}
        got = [Evaluator(e)(record) for e in ("bias, asset", "bias AS asx, class as b, has_as as h", "upperx,rand , order_id", "UPPER(class) AS upper_class, last")]
        want = [{"bias": n, "asset": s}, {"asx": n, "b": s, "h": n}, {"upperx": n, "rand": s, "order_id": n},
                {"upper_class": "".join(["A" if c == "a" else c for c in s]), "last": 1}]
    elif case == "record":
        mine = {"s": s, "t": 1}
        out = Evaluator(env.choice("selection", ["*", "UPPER(s) AS u, *", "s AS t, *", "*, t AS s", "s AS t", "LEN(s) AS s"]))(mine)
        got, want = [mine, out is mine], [{"s": s, "t": 1}, False]
    else:
        vs = [env.choice("v%d" % i, [1, True, 1.0, "1", "True", None, "", 0, False]) for i in range(3)]
        hs = [call(env, case + "(v)", {"v": v}) for v in vs]
        if case == "HASH":
            many = [call(env, "HASH(v)", {"v": v}) for v in ["a", "b", "ab", "ba", "1"] + list(range(40))]
            env.check(max([len(h) for h in many]) == 16 and len(set([h[-8:] for h in many])) == 44 and len(set([h[:8] for h in many])) >= 44, "a hash is of 64 bits")
        got = [hs[i] == hs[j] for i in range(3) for j in range(i)]
        want = [str(vs[i]) == str(vs[j]) for i in range(3) for j in range(i)]
    of_null = {"LEFT": "LEFT(none, 2)", "RIGHT": "RIGHT(none, 2)", "MID": "MID(none, 1, 2)", "nested": "LEFT(UPPER(none), 2)"}
    if case in ("UPPER", "UCASE", "LOWER", "LCASE", "TRIM", "STRING") or case in of_null:
        env.check(call(env, of_null.get(case, case + "(none)"), r) is None, "of a null is null")
    env.observe("got", got)
    env.check(env.eq(got, want), case + " is what it says")


@harness("E04", cases=NUMBER_FUNCTIONS, reach=["checked"], bounds="integers +-100 and halves, limits +-3")
def number_functions(env, case):
    n = env.int("n", -100, 100)
    env.reach("checked")
    if case in ("TRUNC", "INTEGER"):
        half = env.choice("half", [0, 0.5])
        v = n + half
        got = call(env, case + "(v)", {"v": v})
        want = env.ite(env.all([n < 0, half > 0]), n + 1, n)
        env.check(call(env, case + "(v)", {"v": None}) is None, "of a null is null")
    elif case == "DOUBLE":
        half = env.choice("half", [0, 0.5, 0.25])
        got, want = call(env, "DOUBLE(v)", {"v": n + half}), n + half
    elif case == "ROUND":
        half = env.choice("half", [0, 0.25, 0.5, 0.75])
        digits = env.choice("digits", [None, 0, 1, 2])
        v = env.pin(n if -12 <= n <= 12 else n * 0) + half
        got = call(env, "ROUND(v)" if digits is None else "ROUND(v, %d)" % digits, {"v": v})
        # no further than half a step from the number, and one of the steps
        step = 10 ** (digits or 0)
        env.check(abs(got - v) * step <= 0.500001 and abs(got * step - round(got * step)) < 1e-6, "the nearest number with so many digits")
        env.check(digits is not None or isinstance(got, int), "without digits, a whole number")
        env.check(call(env, "ROUND(v)", {"v": None}) is None and call(env, "ROUND(v, 1)", {"v": None}) is None, "of a null is null")
        return
    elif case == "RANDOM":
        env.urandom()
        got = call(env, "RANDOM()", {})
        env.observe("got", got)
        env.check(env.all([0 <= got, got < 1]), "a number from 0 to less than 1")
        return
    elif case == "BETWEEN":
        lo, hi = env.int("lo", -3, 3), env.int("hi", -3, 3)
        got = truth(call(env, "BETWEEN(v, l, h)", {"v": n, "l": lo, "h": hi}))
        want = truth(env.all([lo < n, n < hi]))
        env.check(not call(env, "BETWEEN(v, 1, 2)", {"v": None}), "a null is not between anything")
    elif case == "SORT":
        a, b = env.int("a", 0, 9), env.int("b", 0, 9)
        got = call(env, "SORT(v)", {"v": [a, b, 5]})
        env.check(env.all([len(got) == 3, got[0] <= got[1], got[1] <= got[2], sum(got) == a + b + 5, env.any([g == a for g in got])]), "the values, in order")
        return
    else:
        t = str(env.pin(env.int("m", -12, 12)))
        got, want = [call(env, "INTEGER(t)", {"t": t}), call(env, "DOUBLE(t)", {"t": t})], [int(t), float(t)]
    env.observe("got", got)
    env.check(env.eq(got, want), case + " is what it says")


@harness("E04", cases=DATE_FUNCTIONS, reach=["checked", "not a date"],
         bounds="2023-12-25 to 2024-03-05 (for weeks and years also two weeks around six other new years) with any time of the day to a second, as a datetime, date or ISO text; up to 60 days either way")
def date_functions(env, case):
    base = datetime.datetime(2023, 12, 25)
    far = case in ("ADDDAYS", "DAYSDIFF")
    day = env.pin(env.int("day", 0, 71)) if not far else env.choice("day", [0, 6, 7, 66, 67])
    if case in ("WEEK", "YEAR") and day < 14:
        base = datetime.datetime(env.choice("year", [2023, 2019, 2020, 2021, 2022, 2025, 2026]), 12, 25)
    d = base + datetime.timedelta(days=day)
    full = case in ("HOUR", "MINUTE", "SECOND", "TIME")
    h = env.pin(env.choice("h", [0, 23])) if not full else env.int("h", 0, 23)
    m = env.int("m", 0, 59) if full else env.choice("m", [0, 59])
    s = env.int("s", 0, 59) if full else m
    if full and env.bool("text"):
        h, m, s = env.pin(env.choice("h2", [0, 9, 23])), env.choice("m2", [0, 5, 59]), env.choice("s2", [0, 6, 59])
        v = "%04d-%02d-%02dT%02d:%02d:%02dZ" % (d.year, d.month, d.day, h, m, s)
    elif full:
        v = datetime.datetime(d.year, d.month, d.day, env.pin(h) if case == "TIME" else h, m, s)
    else:
        kind = env.choice("kind", ["text", "datetime"] + (["date", "day"] if not far and case != "DATE" else []))
        if kind == "text":
            v = "%04d-%02d-%02d %02d:%02d:%02d" % (d.year, d.month, d.day, h, m, s)
        elif kind == "day":
            v = "%04d-%02d-%02d" % (d.year, d.month, d.day)
        elif kind == "date":
            v = datetime.date(d.year, d.month, d.day)
        else:
            v = datetime.datetime(d.year, d.month, d.day, h, m, s)
    r = {"v": v}
    env.reach("checked")
    if case in ("ADDDAYS", "DAYSDIFF"):
        k = env.pin(env.int("k", -2, 2)) if env.bool("near") else env.choice("far", [7, 31, 60])
        other = datetime.datetime(d.year, d.month, d.day, h, m, s) + datetime.timedelta(days=k)
        r["k"], r["other"] = k, other
        if case == "ADDDAYS":
            got, want = call(env, "ADDDAYS(v, k)", r), other
        else:
            got, want = call(env, "DAYSDIFF(v, other)", r), k
            later = env.choice("later", [1, 43200, 86399])
            more = call(env, "DAYSDIFF(v, w)", dict(r, w=other + datetime.timedelta(seconds=later)))
            env.check(more == k, "the number of whole days")
    elif case == "DATE":
        got, want = call(env, "DATE(v)", r), d.date()
    elif case == "TIME":
        t = call(env, "TIME(v)", r)
        got, want = [t.hour, t.minute, t.second], [h, m, s]
    else:
        got = call(env, case + "(v)", r)
        want = {"YEAR": d.year, "MONTH": d.month, "DAY": d.day, "QUARTER": (d.month + 2) // 3, "HOUR": h, "MINUTE": m, "SECOND": s, "WEEK": d.isocalendar()[1]}[case]
    env.reach("not a date")
    env.observe("got", got)
    env.check(env.eq(got, want), case + " is what it says")
    if day == 0 and case not in ("ADDDAYS", "DAYSDIFF"):
        env.check(call(env, case + "(v)", {"v": "2024-02-30"}) is None and call(env, case + "(v)", {"v": None}) is None, "of what is no date is null")


@harness("E04", cases=["UPPER(s) AS u, n, s", "LEFT(s, 1), LEN(s) AS l, *", "MD5(n) AS m, HASH(n) AS h, MD5(t) AS t", "CONCAT(l) AS c, SORT(l) AS o", "TRUNC(x) AS i, BETWEEN(n, 1, x) AS b",
                       "YEAR(d) AS y, DAYSDIFF(d, '2024-02-01') AS k", "UPPER(LEFT(s, n)) AS a, `s` AS b, 'q' AS q"], reach=["checked"],
         bounds="7 selections, each held by one object and evaluated for a sequence of eleven records, one of which lacks the fields, and over again; it says of each what a new one says")
def evaluator_reused(env, case):
    env.reach("checked")
    held = Evaluator(case)
    rows = []
    for i in range(11):
        r = {"n": i, "s": "ab" * (i % 3), "t": str(i), "l": ["b", "a", "c"][i % 3:], "x": i + 0.5, "d": "2024-01-%02d" % (i + 1)}
        if i == 0:
            r["s"], r["n"] = env.str("s", "aB", 0, 2), env.int("n", 0, 3)
        if i == 1:
            r["n"] = env.choice("k", [0, 1, 1.0, True, "1"]) if "MD5" in case else env.int("k", 0, 3)
        rows.append(r)
    before = [dict(r) for r in rows]
    want = [Evaluator(case)(dict(r)) for r in rows]
    got = [held(r) for r in rows]
    env.catch(lambda: held({}))
    again = [held(r) for r in rows]
    if "HASH" not in case:
        env.observe("got", got[0])
    env.check(env.eq([list(g) for g in got], [list(w) for w in want]), "the columns in their order")
    env.check(env.eq(got, want), "what is evaluated of a record depends on the record alone")
    env.check(env.eq(again, want), "evaluated again, it is the same")
    env.check(env.eq(rows, before), "records are as they were")
    env.check(env.all([list(g) == list(got[0]) for g in got]) or "*" in case, "each record has the columns of the selection")
    if "MD5" in case:
        import hashlib
        env.check(env.all([got[i]["m"] == hashlib.md5(str(r["n"]).encode()).hexdigest() and got[i]["t"] == hashlib.md5(r["t"].encode()).hexdigest() for i, r in enumerate(rows) if i]), "each is the digest of its text")


# ---------------------------------------------------------------- S01
FOLDER = "bucket/data/year_2024/month_02/day_29"
DAY = datetime.date(2024, 2, 29)


def table(env, n, kinds=("int", "null"), groups=True):
    rows = []
    for i in range(n):
        r = {"n": i, "g": env.choice("g%d" % i, ["x", "y", None]) if groups else ["x", None, "y"][i % 3]}
        k = env.choice("k%d" % i, list(kinds))
        if k == "int":
            r["v"] = env.int("v%d" % i, -2, 5)
        elif k == "null":
            r["v"] = None
        rows.append(r)
    return rows


def query(env, rows, statement, **kw):
    no_del(env)
    ticking_clock(env)
    no_random(env)
    store = Store()
    half = (len(rows) + 1) // 2
    for i, part in enumerate((rows[:half], rows[half:])):
        if part:
            store.blobs[FOLDER + "/b%d.jsonl" % i] = b"".join([orjson.dumps(r) + b"\n" for r in part])
    kw.setdefault("start_date", DAY)
    kw.setdefault("end_date", DAY)
    return list(SqlReader(statement, inner_reader=mem_reader(store), **kw))


WHERE = {None: lambda r: True, "v > 1": lambda r: r.get("v") is not None and r["v"] > 1,
         "v <= 1 OR g = 'x'": lambda r: (r.get("v") is not None and r["v"] <= 1) or r["g"] == "x",
         "v is not null": lambda r: r.get("v") is not None,
         "g = 'from x where' or n >= 1": lambda r: r["n"] >= 1}


def ref_agg(f, members):
    vs = [r["v"] for r in members if r.get("v") is not None]
    if f == "COUNT(*)":
        return len(members)
    if f == "COUNT(v)":
        return len(vs)
    if not vs:
        return None
    return {"MAX(v)": lambda: max(vs), "MIN(v)": lambda: min(vs), "SUM(v)": lambda: sum(vs)}[f]()


def null_first(x):
    return (0, 0) if x is None else (1, x)


S01 = [
    ("plain", "SELECT * FROM bucket.data{where}", ["v > 1", None, "v <= 1 OR g = 'x'", "g = 'from x where' or n >= 1"]),
    ("columns", "SELECT v, n FROM bucket.data{where}", ["v > 1", "v is not null"]),
    ("columns", "select v,n from bucket.data{where} limit {limit}", ["v > 1", None]),
    ("alias", "SELECT v AS w, n FROM bucket.data{where} LIMIT {limit}", [None]),
    ("distinct", "SELECT DISTINCT g FROM bucket.data{where}", [None, "v > 1"]),
    ("distinct", "SELECT DISTINCT g FROM bucket.data{where} LIMIT {limit}", [None]),
    ("order", "SELECT n, v FROM bucket.data{where} ORDER BY v", [None]),
    ("order", "SELECT n, v FROM bucket.data{where} ORDER BY v ASC LIMIT {limit}", [None]),
    ("order desc", "SELECT n, v FROM bucket.data{where} ORDER BY v DESC LIMIT {limit}", ["g = 'from x where' or n >= 1"]),
    ("order", "SELECT n, v FROM bucket.data{where} ORDER BY v LIMIT {limit}", ["v > 1"]),
    ("function", "SELECT n, LEFT(g, 1) AS first, LEN(g) FROM bucket.data{where}", ["g = 'x' or g = 'y'"]),
    ("twice", "SELECT v AS w, n, v FROM bucket.data{where}", [None]),
    ("swapped", "SELECT v AS n, n AS v FROM bucket.data{where}", [None]),
    ("unselected", "SELECT n AS m FROM bucket.data{where} ORDER BY v LIMIT {limit}", [None]),
    ("unselected desc", "SELECT n FROM (SELECT n, v FROM bucket.data{where}) ORDER BY v DESC", ["v > 1"]),
    ("comment", "/* SELECT x */ SELECT n -- FROM elsewhere\n FROM bucket.data{where} -- LIMIT 1", [None]),
    ("subquery", "SELECT n FROM (SELECT n, v FROM bucket.data{where}) WHERE n >= 1 LIMIT {limit}", ["v > 1"]),
    ("subquery function", "SELECT UPPER(g) AS u, n FROM (SELECT n, g FROM bucket.data{where})", ["v > 1"]),
]
S01_GROUP = [
    ("group", "SELECT g, COUNT(*) FROM bucket.data{where} GROUP BY g", [None, "v > 1"], ["COUNT(*)"]),
    ("group", "SELECT g, COUNT(v), MAX(v) FROM bucket.data{where} GROUP BY g", [None], ["COUNT(v)", "MAX(v)"]),
    ("group", "SELECT MIN(v), SUM(v), g FROM bucket.data{where} GROUP BY g", [None], ["MIN(v)", "SUM(v)"]),
    ("group alias", "SELECT g, SUM(v) AS total FROM bucket.data{where} GROUP BY g", ["v is not null"], ["SUM(v)"]),
    ("all", "SELECT COUNT(*), MAX(v) FROM bucket.data{where}", [None, "v > 1"], ["COUNT(*)", "MAX(v)"]),
    ("having", "SELECT g, COUNT(*) FROM bucket.data{where} GROUP BY g HAVING COUNT(*) > 1", [None], ["COUNT(*)"]),
    ("everything", "SELECT g, COUNT(*) AS c FROM bucket.data{where} GROUP BY g HAVING COUNT(*) >= 2 ORDER BY c LIMIT {limit}", ["v > 1"], ["COUNT(*)"]),
    ("group order", "SELECT g, COUNT(*) AS c FROM bucket.data{where} GROUP BY g ORDER BY c DESC LIMIT {limit}", [None], ["COUNT(*)"]),
    ("group twice", "SELECT g AS h, COUNT(*) AS c, COUNT(*) AS d, g FROM bucket.data{where} GROUP BY g", [None], ["COUNT(*)"]),
    ("groups", "SELECT g FROM bucket.data{where} GROUP BY g", ["v > 1"], []),
    ("having all", "SELECT COUNT(*), SUM(v) FROM bucket.data{where} HAVING COUNT(*) > 2", ["v is not null"], ["COUNT(*)", "SUM(v)"]),
]


@harness("S01", cases=lambda tier: [[i, w, 3 if tier == "quick" else 4] for i, q in enumerate(S01) for w in q[2]], reach=["rows", "no rows"],
         bounds="18 statements over 3 rows (thorough 4) in two blobs: integers -2..5, nulls and missing values, limits 0..3")
def statements(env, case):
    i, where, n = case
    kind, text, _ = S01[i]
    rows = table(env, n, ("int", "null") if kind != "columns" else ("int", "missing"), any(x in text for x in ("DISTINCT", "(g)", "(g,")) or where is not None and "'x'" in where)
    limit = env.pin(env.int("limit", 0, n)) if "{limit}" in text else None
    statement = text.format(where=" WHERE " + where if where else "", limit=limit)
    kept = [r for r in rows if (WHERE[where](r) if where in WHERE else r["g"] is not None)]
    got = query(env, rows, statement)
    env.observe("got", got)
    if kind == "plain":
        want = kept
    elif kind == "columns":
        want = [{"v": r.get("v"), "n": r["n"]} for r in kept]
    elif kind == "twice":
        want = [{"w": r.get("v"), "n": r["n"], "v": r.get("v")} for r in kept]
    elif kind == "swapped":
        want = [{"n": r.get("v"), "v": r["n"]} for r in kept]
    elif kind.startswith("unselected"):
        name, = ["m" if kind == "unselected" else "n"]
        want = sorted(kept, key=lambda r: null_first(r.get("v")), reverse="desc" in kind)
        if limit is not None:
            want = want[:limit]
        env.reach("rows" if want else "no rows")
        env.check(all(list(r) == [name] for r in got) and len(set([r[name] for r in got])) == len(got), "only what is selected, each row once")
        env.check(env.eq([rows[r[name]].get("v") for r in got], [r.get("v") for r in want]), "the rows are in order of a column which is not selected")
        return
    elif kind == "alias":
        want = [{"w": r.get("v"), "n": r["n"]} for r in kept]
    elif kind == "distinct":
        want = []
        for r in kept:
            if {"g": r["g"]} not in want:
                want.append({"g": r["g"]})
    elif kind == "function":
        want = [{"n": r["n"], "first": r["g"], "LEN(g)": 1} for r in kept]
    elif kind == "comment":
        want = [{"n": r["n"]} for r in kept]
    elif kind == "subquery function":
        want = [{"u": None if r["g"] is None else str(r["g"]).upper(), "n": r["n"]} for r in kept]
    elif kind == "subquery":
        want = [{"n": r["n"]} for r in kept if r["n"] >= 1]
    else:
        want = sorted([{"n": r["n"], "v": r.get("v")} for r in kept], key=lambda r: null_first(r["v"]), reverse=kind == "order desc")
    env.reach("rows" if want else "no rows")
    if limit is not None:
        every, want = want, want[:limit]
    if kind.startswith("order"):
        env.check(env.eq([r["v"] for r in got], [r["v"] for r in want]), "the rows are in order, and the first ones if limited")
        env.check(len(set([r["n"] for r in got])) == len(got), "each row once")
        env.check(env.all([env.eq(r, {"n": r["n"], "v": rows[r["n"]].get("v")}) for r in got]), "the rows are those of the data")
    else:
        if kind == "plain":
            got = [{k: r[k] for k in r if k != "*"} for r in got]
        env.check(env.eq(got, want), "the rows are those the statement asks for")
        if kind in ("columns", "alias"):
            env.check(all(list(r) == [k for k in (["v", "n"] if kind == "columns" else ["w", "n"])] for r in got), "the columns are in the order asked for")


@harness("S01", cases=lambda tier: [[i, w, 3 if tier == "quick" else 4] for i, q in enumerate(S01_GROUP) for w in q[2]], reach=["one", "several"],
         bounds="11 statements with groups or aggregates over 3 rows (thorough 4), values as above, limits 0..3")
def grouped_statements(env, case):
    i, where, n = case
    kind, text, _, aggs = S01_GROUP[i]
    rows = table(env, n)
    limit = env.pin(env.int("limit", 0, n)) if "{limit}" in text else None
    statement = text.format(where=" WHERE " + where if where else "", limit=limit)
    kept = [r for r in rows if WHERE[where](r)]
    groups = []
    for r in kept:
        g = None if kind in ("all", "having all") else r["g"]
        for m in groups:
            if m[0] == g:
                m[1].append(r)
                break
        else:
            groups.append([g, [r]])
    env.reach("one" if len(groups) == 1 else "several")
    if kind in ("all", "having all") and not kept:
        return
    if kind in ("all", "having all"):
        env.reach("several")
    want = []
    for g, members in groups:
        w = {} if kind in ("all", "having all") else {"g": g}
        if kind == "group twice":
            w.update({"h": g, "c": len(members), "d": len(members)})
            want.append(w)
            continue
        for a in aggs:
            w[{"group alias": "total", "group order": "c", "everything": "c"}.get(kind, a)] = ref_agg(a, members)
        want.append(w)
    if kind in ("having", "having all"):
        want = [w for w in want if w["COUNT(*)"] > (1 if kind == "having" else 2)]
    got = query(env, rows, statement)
    env.observe("got", got)
    if kind == "everything":
        want = [w for w in want if w["c"] >= 2]
    if kind in ("group order", "everything"):
        want = sorted(want, key=lambda w: w["c"], reverse=kind == "group order")
        env.check([w["c"] for w in got] == [w["c"] for w in want[:limit]], "the groups are in order, and the first ones if limited")
        env.check(all(w in want for w in got), "the groups are those of the data")
        env.check(len(set([w["g"] for w in got])) == len(got), "each group once")
        return
    env.check(len(got) == len(want), "one row for each group")
    for w in want:
        hit = [r for r in got if kind in ("all", "having all") or r["g"] == w["g"]]
        env.check(len(hit) == 1 and env.eq(hit[0], w), "each group has its aggregates")


@harness("S01", cases=["g, h", "h,g", "  h ,  g", "having"], reach=["one", "several"],
         bounds="groups of two columns over 3 rows: letters or null, integers 0..1, values -2..5")
def groups_of_two(env, case):
    rows = [{"n": i, "g": env.choice("g%d" % i, ["x", None] if i else ["x"]), "h": env.choice("h%d" % i, [0, 1] if i else [0]), "v": env.int("v%d" % i, -2, 5)} for i in range(3)]
    by = "g, h" if case == "having" else case
    statement = "SELECT g, SUM(v), h, COUNT(*) FROM bucket.data GROUP BY " + by + (" HAVING COUNT(*) > 1" if case == "having" else "")
    got = query(env, rows, statement)
    env.observe("got", got)
    want = {}
    for r in rows:
        w = want.setdefault((r["g"], r["h"]), {"g": r["g"], "h": r["h"], "SUM(v)": 0, "COUNT(*)": 0})
        w["SUM(v)"], w["COUNT(*)"] = w["SUM(v)"] + r["v"], w["COUNT(*)"] + 1
    want = {k: w for k, w in want.items() if case != "having" or w["COUNT(*)"] > 1}
    env.reach("one" if len(want) <= 1 else "several")
    env.check(len(got) == len(want), "one row for each pair of values")
    env.check(env.all([(r["g"], r["h"]) in want and env.eq(r, want[r["g"], r["h"]]) for r in got] + [True]), "each with its aggregates")


@harness("S01", cases=["ORDER BY two columns", "WHERE on a function", "COUNT of nothing"], reach=["asked"],
         bounds="three forms of statements which are taken but not followed (known findings), over 3 rows of integers 0..2 and letters")
def forms_not_followed(env, case):
    rows = [{"n": i, "g": "xy"[i % 2], "v": env.int("v%d" % i, 0, 2)} for i in range(3)]
    env.reach("asked")
    if case == "ORDER BY two columns":
        got = env.catch(lambda: query(env, rows, "SELECT n FROM bucket.data ORDER BY g, v"))
        want = [0, 2, 1] if rows[0]["v"] <= rows[2]["v"] else [2, 0, 1]
        bad = got[0] == "ok" and [r["n"] for r in got[1]] == [0, 1, 2]
        good = got[0] == "exc" or [r["n"] for r in got[1]] == want
        known = "KF-S01-order-by-two"
    elif case == "WHERE on a function":
        got = env.catch(lambda: query(env, rows, "SELECT n FROM bucket.data WHERE UPPER(g) = 'X'"))
        bad = got == ("ok", [])
        good = got[0] == "exc" or [r["n"] for r in got[1]] == [0, 2]
        known = "KF-S01-where-function"
    else:
        got = env.catch(lambda: query(env, rows, "SELECT COUNT(*) FROM bucket.data WHERE n > 5"))
        bad = got == ("ok", [])
        good = got[0] == "exc" or got[1] == [{"COUNT(*)": 0}]
        known = "KF-S01-count-nothing"
    env.check(good, "the statement is followed or refused", known=(known, bad))


# ---------------------------------------------------------------- S02
WORDS = ["SELECT", "DISTINCT", "FROM", "WHERE", "GROUP BY", "HAVING", "ORDER BY", "ASC", "DESC", "LIMIT", "a", "t", "1", "(", ")", ",", "*", "'x y'", "="]


@harness("S02", cases=lambda tier: [[w] for w in WORDS], reach=["refused"], steps=200000,
         bounds="every sequence of up to two words of 19 after each way to start (and SELECT a FROM t before them): the parser ends, with a parse or an error")
def parser_ends(env, case):
    words = list(case)
    for i in range(env.choice("more", [0, 1, 2] if env.tier != "quick" else [1])):
        words.append(env.choice("word%d" % i, WORDS))
    text = " ".join(words)
    for start in ("", "SELECT a FROM t ", "SELECT a FROM t ORDER BY b "):
        r = env.catch(lambda: SqlParser(start + text))
        if r[0] == "exc":
            env.reach("refused")
        else:
            env.check(r[1].dataset is not None and r[1].select_expression is not None, "a statement has a selection and a dataset")


CLAUSES = [("where", " WHERE ", ["a = 1", "b = ' LIMIT  7'", "x > 2 AND (y is null)"]), ("group_by", " GROUP BY ", ["g", "g, h"]),
           ("having", " HAVING ", ["COUNT(*) > 1"]), ("order_by", " ORDER BY ", ["g"]), ("limit", " LIMIT ", [None])]


@harness("S02", cases=lambda tier: ["upper", "lower", "spaced"], reach=["parsed"],
         bounds="every combination of clauses, two or three texts for each, limits to 1234567, upper or lower case, extra blanks, line ends and comments")
def clauses(env, case):
    text = "SELECT a, `b c` AS d FROM data.set_1/x-y"
    want = {"where": None, "group_by": None, "having": None, "order_by": None, "limit": None}
    descending = False
    for name, word, options in CLAUSES:
        if not env.bool(name):
            continue
        if name == "limit":
            v = env.choice("n", [0, 5, 1234567])
            want[name] = v
            text += word + str(v)
        else:
            v = env.choice(name + ".text", options)
            want[name] = v
            text += word + v
            if name == "order_by":
                d = env.choice("direction", ["", " ASC", " DESC"])
                descending = d == " DESC"
                text += d
    if case == "lower":
        for w in ("SELECT", "FROM", "WHERE", "GROUP BY", "HAVING", "ORDER BY", "ASC", "DESC"):
            text = text.replace(w, w.lower())
        if want["where"] is None or "LIMIT" not in want["where"]:
            text = text.replace("LIMIT", "limit")
    elif case == "spaced":
        text = "\n  -- a comment, SELECT 1\n" + text.replace(" FROM ", "\n\t FROM  /* no, FROM there */ ").replace(" GROUP BY ", "\nGROUP\n BY\n") + "  \n"
    sql = SqlParser(text)
    env.reach("parsed")
    env.observe("sql", str(sql))
    env.check(sql.select_expression == "a, `b c` AS d" and sql.dataset == "data/set_1/x-y", "selection and dataset")
    env.check(sql.where_expression == want["where"], "the filter is the text of its clause")
    env.check(sql.group_by == want["group_by"] and sql.having == want["having"], "the groups are the text of their clause")
    env.check(sql.order_by == want["order_by"] and sql.order_descending == descending, "the order is the text of its clause")
    env.check(sql.limit == want["limit"], "the limit is the number of its clause")


@harness("S02", cases=["--x", "/* x", "x */", "/* x */", "it -- is", "a\nb", "a\n-- b\nc", "a /* b\nc */ d", "LIMIT 5", "; --"], reach=["single", "double"],
         bounds="texts with comment marks, line ends and keywords, quoted either way; followed by a comment, on one line or across lines")
def quoted_text(env, case):
    q = env.choice("quote", ["'", '"'])
    comment = env.choice("comment", ["", " -- more, 'FROM", " /* more\n FROM x */", "\n-- 'x'\n", "/*'*/"])
    keep = "b = " + q + case + q + " AND c = 'd'"
    env.reach("single" if q == "'" else "double")
    sql = env.catch(lambda: SqlParser("SELECT a FROM t WHERE " + keep + comment + ("\n" if "--" in comment else "") + " LIMIT 3"))
    env.check(sql[0] == "ok", "parsed")
    env.check(sql[1].where_expression == keep and sql[1].limit == 3, "comments end where they end, and none is in quoted text")


@harness("S02", cases=["SELECT a FROM t LIMIT 1,", "SELECT a FROM t ORDER BY a DESC, LIMIT 1", "SELECT a FROM t ORDER BY a ASC b", "SELECT a FROM t , LIMIT 1",
                       "SELECT a FROM t LIMIT x", "SELECT a FROM t LIMIT 1 2", "SELECT a FROM t LIMIT", ", SELECT a FROM t", "a FROM t", "SELECT a",
                       "SELECT a FROM (SELECT b FROM t", "SELECT a FROM t LIMIT 1.5", "SELECT a FROM", "", "FROM t", "SELECT a FROM (SELECT b FROM t) x"], reach=["refused"],
         bounds="16 malformed statements")
def malformed_statements(env, case):
    env.reach("refused")
    env.check(env.catch(lambda: SqlParser(case))[0] == "exc", "a statement which does not parse is refused")


# ---------------------------------------------------------------- S03
@harness("S03", cases=lambda tier: [1, 2, 3] if tier == "quick" else [1, 2, 3, 4, 5], reach=["accepted", "refused"],
         bounds="every dataset text of length 1..3 (thorough 1..5) over {a Z 9 . / - _ ~ * blank { $ \\\\ e-acute}")
def from_clause(env, case):
    t = env.str("dataset", "aZ9./-_~* {$\\\u00e9", case)
    r = env.catch(lambda: SqlParser.validate_dataset(None, t))
    ok = r == ("ok", True)
    env.observe("ok", ok)
    env.reach("accepted" if ok else "refused")
    if case == 1:
        env.reach("accepted")
    good = env.all([env.any([c == x for x in "aZ9./-_\u00e9"]) for c in t])
    first = env.any([t[0] == "a", t[0] == "Z", t[0] == "\u00e9"])
    run = env.any([env.all([t[i] == t[i + 1], env.any([t[i] == x for x in "./-"])]) for i in range(len(t) - 1)] + [False])
    env.check(ok == truth(env.all([good, first, env.not_(run)])), "a dataset starts with a letter, has no repeated separators and only letters, digits, dots, slashes, dashes and underscores")


@harness("S02", cases=["FOO(a)", "a, UPER(b) AS c", "(a)", "UPPER(FOO(a))", "UPPER(a", "UPPER(a))", "UPPER", "a AS", "COUNT(*))"], reach=["refused"],
         bounds="9 malformed selections, in statements and for readers")
def malformed_selections(env, case):
    env.reach("refused")
    env.check(env.catch(lambda: Evaluator(case)({"a": "x"}))[0] == "exc", "a selection which does not parse is refused")
    env.check(env.catch(lambda: SqlParser("SELECT " + case + " FROM t"))[0] == "exc", "a statement with such a selection is refused")


@harness("S03", cases=["", " WHERE n = 1", " WHERE n = 1 LIMIT 1", " GROUP BY n", " ORDER BY n DESC LIMIT 5", " HAVING n = 1"], reach=["accepted", "refused"],
         bounds="datasets with one character of {a ~ $ * .} in them, in statements with other clauses and in subqueries")
def from_clause_of_statements(env, case):
    c = env.pin(env.str("c", "a~$*.", 1, 1))
    name = "t.x" + c + ".y"
    ok = c == "a"
    env.reach("accepted" if ok else "refused")
    no_del(env)
    ticking_clock(env)
    no_random(env)
    for text in ("SELECT n FROM " + name + case, "SELECT n FROM (SELECT n FROM " + name + case + ")"):
        store = Store()
        store.blobs["t/x" + c.replace(".", "/") + "/y/year_2024/month_02/day_29/b.jsonl"] = orjson.dumps({"n": 1}) + b"\n"
        r = env.catch(lambda: list(SqlReader(text, inner_reader=mem_reader(store), start_date=DAY, end_date=DAY)))
        env.observe("result", r)
        env.check((r[0] == "ok") == ok and (ok or store.reads == []), "a dataset which isn't well formed is refused, and nothing of it is read")


@harness("S03", cases=["reader", "sql", "subquery"], reach=["allowed", "denied"],
         bounds="dataset names of two characters over {a B} after a fixed folder, prefixes of lengths 1..4 over {t a A b B /}; through Reader, SQL and a subquery")
def prefixes(env, case):
    no_del(env)
    ticking_clock(env)
    no_random(env)
    store = Store()
    tail = env.pin(env.str("dataset", "aB", 2))
    name = "t/" + tail
    store.blobs[name + "/year_2024/month_02/day_29/b.jsonl"] = orjson.dumps({"n": 1}) + b"\n"
    allowed = [env.str("prefix", "taB/" if env.choice("capitals", [True, False]) else "tAb/", 1, 4), "q"]
    inner = mem_reader(store)
    made = []

    class Inner(inner):
        def __init__(self, **kw):
            made.append(kw.get("dataset"))
            super().__init__(**kw)
    kw = dict(inner_reader=Inner, start_date=DAY, end_date=DAY, valid_dataset_prefixes=allowed)
    if case == "reader":
        from mabel.data import Reader
        r = env.catch(lambda: list(Reader(dataset=name, **kw)))
    elif case == "sql":
        r = env.catch(lambda: list(SqlReader("SELECT n FROM t." + tail, **kw)))
    else:
        r = env.catch(lambda: list(SqlReader("SELECT n FROM (SELECT n FROM t." + tail + ")", **kw)))
    ok = truth(name[:len(allowed[0])] == allowed[0])
    env.observe("result", r)
    env.reach("allowed" if ok else "denied")
    if ok:
        env.check(r == ("ok", [{"n": 1}]), "a dataset with a prefix which is allowed is read")
    else:
        env.check(r == ("exc", "AccessDenied"), "another dataset is denied")
        env.check(made == [] and store.reads == [], "and nothing of it is looked at")
