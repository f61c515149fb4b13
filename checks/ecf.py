"""Configuration files: every parameter gets exactly the value that is written, however the file is formatted; invalid files are refused."""
import os, re, shutil, subprocess
from hypothesis import strategies as st
from vlib import core
from vlib.core import Violation, Inconclusive

PARAMS = {"quick": {"seconds": 90, "shrink": 60}, "thorough": {"seconds": 900, "shrink": 60}}
RULE = ("A case is a set of assignments to parameters of espreso (drawn from all registered parameters, with generated names of regions, materials and load steps; values of the type of the parameter), written to a configuration file with generated formatting: order, repeated and reopened objects, letter case, spaces, tabs, "
        "line ends, '=', comments of all kinds at generated places, quoted strings, and with values taken from command line arguments, default arguments, variables, environment, included files, and command line options; read on 1-2 ranks by the reader of espreso. Oracle: the defaults with the assignments applied have to be equal to the dump of the configuration. "
        "Other cases damage the file (unknown parameter, value of another type, missing or superfluous bracket, semicolon or quote, unfinished comment, missing argument or file): the reader has to end with an error. Non-trivial: >= 3 assignments in >= 2 objects.")

EXE = None
SCHEMA = None     # list of (path, kind, options, default) with '*' for generated names
UNSIGNED = set()
DEFAULT = None    # path -> value


def prepare(base):
    global EXE, SCHEMA, DEFAULT
    EXE = os.path.join(base, "ecfdump")
    core.harness("ecfdump.cpp", EXE, base)
    ctx = core.Ctx(base)
    ctx.begin()
    r = ctx.run(EXE, env={"ECFSCHEMA": "1"})
    if r.rc:
        raise core.HarnessError("no schema: " + r.err[-2000:])
    SCHEMA, DEFAULT = [], {}
    maps = {}
    for l in open(os.path.join(ctx.dir, "dump.schema")):
        x = [unescape(y) for y in l.rstrip("\n").split("\t")]
        if x[0] == "P":
            maps[x[1]] = int(x[2])
        if x[0] == "V":
            if x[5] == "unsigned":
                UNSIGNED.add(x[1])
            SCHEMA.append((x[1], BOOL if x[4] in ("TRUE", "FALSE") else int(x[2]), [o for o in x[3].split(",") if o], x[4]))
    SCHEMA = [s + ([maps[pre(s[0], i)] for i, n in enumerate(s[0].split("::")) if n == "*"],) for s in SCHEMA]
    with open(os.path.join(ctx.dir, "x.ecf"), "w") as f:
        f.write("\n")
    r = ctx.run(EXE, ["-c", "x.ecf"])
    if r.rc:
        raise core.HarnessError("an empty file is refused: " + r.err[-2000:])
    DEFAULT = dump(os.path.join(ctx.dir, "dump.0"))
    ctx.end()


def pre(path, i):
    return "::".join(path.split("::")[:i] + ["*"])


def unescape(s):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), s)


def dump(path):
    out = {}
    for l in open(path, encoding="latin-1"):
        x = [unescape(y) for y in l.rstrip("\n").split("\t")]
        if x[0] == "V":
            out.setdefault(x[1].lower(), []).append(x[2])
    return out


BOOL, STRING, RANGE, INTEGER, POSITIVE, NONNEG, FLOAT, FLAGS, OPTION, EXPR, INTERVAL = 0, 1, 2, 3, 4, 5, 6, 7, 8, 14, 16
STRINGS = (1, 9, 10, 11, 12)
INTS = (3, 4, 5, 13)

NAMES = ["REG", "fixed", "Top_1", "MAT2", "my-region", "42", "E0", "a.b", "two words"]


def casing(mode, s):
    return s.upper() if mode == 0 else s.lower() if mode == 1 else s.capitalize()


@st.composite
def expression(draw, depth=0):
    k = draw(st.integers(0, 7 if depth < 2 else 2))
    if k == 0:
        return draw(st.sampled_from(["1", "2.5", "1e-3", "0", "-7", ".5", "3E+2"]))
    if k <= 2:
        return draw(st.sampled_from(["TIME", "COORDINATE_X", "temperature", "Coordinate_y"]))
    a, b = draw(expression(depth=depth + 1)), draw(expression(depth=depth + 1))
    sp = draw(st.sampled_from(["", " "]))
    if k <= 4:
        return a + sp + draw(st.sampled_from(["+", "-", "*", "/ "])) + sp + b
    if k == 5:
        return draw(st.sampled_from(["sin", "cos", "Exp"])) + "(" + sp + a + ")"
    if k == 6:
        return draw(st.sampled_from(["max", "min"])) + "(" + a + sp + "," + sp + b + ")"
    return "if" + sp + "(" + a + sp + draw(st.sampled_from(["<", ">", "<=", ">=", "==", "!="])) + sp + b + "," + sp + "1, 2)"


@st.composite
def value(draw, kind, options):
    """(text, how): text to be written, value as it should be printed"""
    if kind == BOOL:
        t = draw(st.sampled_from(["TRUE", "FALSE", "true", "False", "1", "0"]))
        return t, "TRUE" if t.lower() in ("true", "1") else "FALSE"
    if kind in STRINGS:
        if draw(st.booleans()):
            t = draw(st.sampled_from(["abc", "results/x", "A_1", "mesh.cdb", "../up", "a-b", "x:y", "50%", "é", "a*b", "<1>"]))
            return t, t
        t = draw(st.lists(st.sampled_from(["a", "B", " ", "  ", ";", "{", "}", "=", "#", "//", "/*", ",", "[", "]", "$", "7", "'"]), min_size=1, max_size=6))
        t = "".join(t)
        q = draw(st.sampled_from("\"'")) if "'" not in t else '"'
        return q + t + q, t
    if kind == RANGE:
        return "1 : 2 : 0.5", "1.000000 : 2.000000 : 0.500000"
    if kind in INTS:
        v = draw(st.one_of(st.integers(1, 9), st.integers(10, 2000000000)))
        return str(v), str(v)
    if kind == FLOAT:
        t = draw(st.sampled_from(["1", "0", "-2.5", "1e-3", "1E5", ".25", "3.", "123456", "-1e-12", "0.1", "+4"]))
        return t, t
    if kind == FLAGS:
        v = draw(st.lists(st.sampled_from(options), min_size=1, unique=True))
        return draw(st.sampled_from([" | ", "|", "| "])).join(casing(draw(st.integers(0, 2)), x) for x in v), " | ".join(o for o in options if o in v)
    if kind == OPTION:
        i = draw(st.integers(0, len(options) - 1))
        t = str(i) if draw(st.integers(0, 3)) == 0 and not any(o.isdigit() for o in options) else casing(draw(st.integers(0, 2)), options[i])
        return t, options[i]
    if kind == INTERVAL:
        t = "<%d, %d>  <0, 1> <2,2>" % (draw(st.integers(0, 3)), draw(st.integers(3, 5)))
        return t, t
    e = draw(expression())
    return e, e


COMMENTS = ["# c\n", "#\n", "// c ; } {\n", "/* c ; } */", "/*\n * a\n * { \" ' [ \n */", "# \"x\n", "\n", "\r\n", "  ", "\t", "/**/", "/* // */", "// /* \n", "\n\n"]


def usable(s):
    path, kind, options, default, keys = s
    top = path.split("::")[0]
    if top in ("default_args", "variables", "ranges", "python_test_generator") or "*" in path and any(k in (RANGE, INTERVAL) for k in keys):
        return False
    if path.endswith(("requested_frequencies", "rotation::table")) or path == "output::store_results":  # lists of numbers; a parameter that sets other parameters
        return False
    if kind in (OPTION, FLAGS) and not options:
        return False
    if path.endswith("*"):
        return kind in STRINGS + (EXPR,)
    return kind in (BOOL, FLOAT, FLAGS, OPTION, EXPR) + STRINGS + INTS


@st.composite
def assignments(draw):
    pool = [s for s in SCHEMA if usable(s)]
    roots = sorted({s[0].split("::")[0] for s in pool})
    some = draw(st.lists(st.sampled_from(roots), min_size=1, max_size=3, unique=True))
    pool = [s for s in pool if s[0].split("::")[0] in some]
    out = []
    for s in draw(st.lists(st.sampled_from(pool), min_size=1, max_size=8)):
        path, kind, options, default, keys = s
        names, k = [], 0
        for n in path.split("::"):
            if n == "*":
                names.append(draw(st.integers(1, 3)) if keys[k] in INTS else draw(st.sampled_from(NAMES)))
                k += 1
            else:
                names.append(n)
        t, v = draw(value(kind, options))
        out.append({"unsigned": path in UNSIGNED, "path": [str(n) for n in names], "kind": kind, "text": t, "value": v})
    return out


@st.composite
def strategy_(draw):
    case = {"set": draw(assignments()), "np": draw(st.sampled_from([1, 1, 1, 2]))}
    n = len(case["set"])
    case["fmt"] = [{"case": draw(st.integers(0, 2)), "sep": draw(st.sampled_from([" ", "\t", " = ", "=", "  ", " /* c */ ", "/*c*/", "\n", "=\n  "])), "end": draw(st.sampled_from([";", " ;", "; ", ";\n", "\n;", ";;", "/*e*/;", " # e\n;"])),
                    "open": draw(st.sampled_from([" {", "{", "\n{\n", " { # o\n", " /* o */ {", "\t{\r\n"])), "close": draw(st.sampled_from(["}", "\n}\n", " } ", "} # c\n", "}//c\n"])),
                    "pre": [draw(st.sampled_from(COMMENTS)) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))],
                    "src": draw(st.sampled_from(["", "", "", "", "arg", "default", "var", "env", "inc", "cli"])), "reopen": draw(st.booleans())} for _ in range(n)]
    case["tail"] = draw(st.sampled_from(["", "\n", "# end", "// end", "/* end */", " "]))
    case["damage"] = draw(st.sampled_from([None, None] + DAMAGES)) if draw(st.booleans()) else None
    case["at"] = draw(st.integers(0, n - 1))
    return case


def strategy(tier):
    return strategy_()


DAMAGES = ["unknown", "unknown-object", "type", "trailing", "open", "close", "semicolon", "semicolon-close", "quote", "comment", "link", "env", "arg", "include", "object-value", "value-object", "unnamed", "option", "negative"]


def quoted(n):
    return '"%s"' % n if " " in n else n


def write(case, d):
    """files, command line and environment; the expected values"""
    env, args, cli, expected = {}, [], [], dict(DEFAULT)
    head, body = [], []
    cur = []
    dmg, at = case["damage"], case["at"]
    known = set(DEFAULT)

    def go(path, f):
        while cur and cur != path[:len(cur)]:
            cur.pop()
            body.append(f["close"])
        for n in path[len(cur):]:
            body.append("\n" + quoted(casing(f["case"], n) if n.lower() == n and n != "42" else n) + f["open"])
            cur.append(n)
    later = []
    for i, (a, f) in enumerate(zip(case["set"], case["fmt"])):
        hit = dmg if i == at else None
        path = a["path"][:-1]
        if f["reopen"]:
            go([], f)
        go(path, f)
        body.extend(f["pre"])
        name = a["path"][-1]
        text = a["text"]
        src = "" if hit else f["src"]
        key = "::".join(a["path"]).lower()
        if src == "cli" and key not in known:
            src = ""
        if src in ("arg", "default", "var", "env", "cli"):
            raw = text[1:-1] if text[:1] in "\"'" and a["kind"] in STRINGS else text
        if src in ("arg", "env", "default", "var") and (raw == "" or raw[0] == "-"):
            src = ""  # an option, not an argument
        if src == "default" or src == "var":
            if re.search(r"[;{}=#,\[\]$\"']|//|/\*|\s\s|^\s|\s$", raw):
                src = ""
        if src == "arg":
            text = "[ARG%d]" % len(args)
            args.append(raw)
        elif src == "default":
            head.append("DEFAULT_ARGS { %d %s; }\n" % (100 + i, raw))
            text = "[ARG%d]" % (100 + i)
        elif src == "var":
            head.append("VARIABLES { VAR_%d %s; }\n" % (i, raw))
            text = "[%s]" % casing(f["case"], "var_%d" % i)
        elif src == "env":
            env["ECF_VALUE_%d" % i] = raw
            text = "${ECF_VALUE_%d}" % i
        elif src == "cli":
            # the value in the file is overridden
            later.append(("--%s%s%s" % ("::".join(a["path"]).upper(), "=", raw)))
            expected_value = (a["kind"], a["value"], a["text"])
            cli.append((key, expected_value))
            continue
        stmt = quoted(casing(f["case"], name) if name.lower() == name else name) + f["sep"] + text + f["end"]
        if hit == "unknown":
            stmt = "NO_SUCH_PARAMETER 5; " + stmt
        elif hit == "unknown-object":
            stmt = "NO_SUCH_OBJECT { } " + stmt
        elif hit == "type":
            bad = {BOOL: "MAYBE", FLOAT: "1.5x", OPTION: "NO_SUCH_OPTION", FLAGS: "NO_SUCH_FLAG"}.get(a["kind"], "1.5" if a["kind"] in INTS else None)
            if bad is None:
                raise Inconclusive("any value is allowed")
            stmt = name + " " + bad + ";"
        elif hit == "option":
            if a["kind"] != OPTION:
                raise Inconclusive("not an option")
            stmt = name + " 99;"
        elif hit == "negative":
            if not a["unsigned"]:
                raise Inconclusive("not a positive integer")
            stmt = name + " -5;"
        elif hit == "trailing":
            if a["kind"] not in (BOOL, FLOAT, OPTION) + INTS:
                raise Inconclusive("any value is allowed")
            stmt = name + " " + a["text"] + " more;"
        elif hit == "open":
            body.append("OUTPUT { " if not path else "}}}}}}}}}}}}" )
        elif hit == "close":
            body.append(" } " * (len(path) + 1))
        elif hit == "semicolon":
            stmt = name + " " + a["text"] + "\n" + name + " " + a["text"] + ";"
        elif hit == "semicolon-close":
            if not path:
                raise Inconclusive("no object to close")
            stmt = name + " " + a["text"] + " "
        elif hit == "quote":
            stmt = name + ' "abc;\n'
        elif hit == "comment":
            stmt += " /* never closed "
        elif hit == "link":
            stmt = name + " [ARG0"
        elif hit == "env":
            stmt = name + " ${HOME"
        elif hit == "arg":
            stmt = name + " [ARG77];"
        elif hit == "include":
            stmt += " [no_such_file.ecf] "
        elif hit == "object-value":
            if not path:
                raise Inconclusive("no object")
            go([], f)
            stmt = path[0] + " 5;"
        elif hit == "value-object":
            stmt = name + " { }"
        elif hit == "unnamed":
            stmt = " { } "
        if src == "inc":
            with open(os.path.join(d, "inc%d.ecf" % i), "w") as fp:
                fp.write(stmt + ("\n" if f["case"] else ""))
            stmt = " [inc%d.ecf] " % i
        body.append("\n" + stmt)
        if hit == "comment":
            cur.clear()
            case = dict(case, tail="")
            break
        if hit in ("semicolon-close",):
            go(cur[:-1], f)
        if hit is None:
            expected[key] = [(a["kind"], a["value"], a["text"])]
            # a path of names that differ only in case denotes one parameter
    f = case["fmt"][-1]
    if dmg == "open":
        if cur:
            body.append("\n")   # objects are left open
            if "}}}" in "".join(body):
                pass
        go_end = False
    else:
        while cur:
            cur.pop()
            body.append(f["close"])
    for k, v in cli:
        expected[k] = [v]
    with open(os.path.join(d, "x.ecf"), "wb") as fp:
        fp.write(("".join(head) + "".join(body) + case["tail"]).encode("utf-8"))
    return ["-c", "x.ecf"] + later + args, env, expected


def same(kind, want, text, got):
    if kind in (FLOAT,) + INTS and want != got:  # some integers are stored as floats
        try:
            return abs(float(want) - float(got)) <= 1e-5 * max(abs(float(want)), 1e-300)
        except ValueError:
            return False
    if kind in (EXPR, INTERVAL):
        return re.sub(r"\s", "", want).upper() == re.sub(r"\s", "", got).upper()
    if kind == OPTION and got == text:
        return True  # options of a string
    return want.encode("utf-8").decode("latin-1") == got


def check(case, ctx):
    args, env, expected = write(case, ctx.dir)
    np = case["np"]
    r = ctx.run(EXE, args, np=np, env=env, timeout=30)
    t = r.out + r.err
    if case["damage"]:
        if r.rc == 0:
            raise Violation("a file with a defect (%s) is accepted:\n%s" % (case["damage"], open(os.path.join(ctx.dir, "x.ecf")).read()[-600:]))
        if "SIG" in t or "egmentation" in t or "terminate called" in t or r.rc < 0:
            raise Violation("the reader crashes on a file with a defect (%s): %s\n%s" % (case["damage"], t[-500:], open(os.path.join(ctx.dir, "x.ecf")).read()[-600:]))
        return {"nontrivial": len(case["set"]) >= 3, "damage": case["damage"], "np": np}
    if r.rc:
        raise Violation("a valid file is refused with exit code %d:\n%s\n%s" % (r.rc, re.sub(r"\x1b\[[0-9;]*m", "", t)[-700:], open(os.path.join(ctx.dir, "x.ecf")).read()[-900:]))
    for k in range(np):
        got = dump(os.path.join(ctx.dir, "dump.%d" % k))
        for key, want in expected.items():
            if key not in got:
                raise Violation("rank %d: parameter %s is missing" % (k, key))
            if isinstance(want[0], tuple):
                if not same(*want[0], got[key][0]):
                    raise Violation("rank %d: parameter %s is '%s' instead of '%s'" % (k, key, got[key][0], want[0][1]))
            elif want != got[key]:
                raise Violation("rank %d: parameter %s that is not in the file is changed from %s to %s" % (k, key, want, got[key]))
    src = {f["src"] for f in case["fmt"]} - {""}
    return {"nontrivial": len(case["set"]) >= 3 and len({tuple(a["path"][:-1]) for a in case["set"]}) >= 2, "damage": "no", "np": np, "sources": "+".join(sorted(src)) if len(src) < 2 else "several"}
