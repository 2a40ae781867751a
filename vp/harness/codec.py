"""Numbers, steps and paths: the conversions every materialized path rests on."""
from vp import sym
from vp.env import And, Iff, Implies, Not, Or
from vp.harness import harness, jobs
from vp.harness import common as c
from vp.harness.common import models, witnesses

CODES = ["CodeBin1", "CodeBin4", "CodeTri3", "CodeDec2", "CodeDefault2", "CodeMixed2", "CodeGreek2", "CodeBack2", "CodeBase85", "CodeDefault4"]


def model_of(name):
    for other in ("CodeBack2", "CodeBack36", "CodeBin1", "CodeDec2", "MP1"):       # relatives with other alphabets are used first
        coder(getattr(models(), other)).int2str(1)
    return getattr(models(), name)


class coder:
    """The model's own conversions; where a model has none, the public converter for its alphabet."""

    def __init__(self, M):
        from treebeard.numconv import NumConv
        own = NumConv(M.alphabet)
        self.int2str = getattr(M, "_int2str", own.int2str)
        self.str2int = getattr(M, "_str2int", own.str2int)


def offers(env, M, names, labels):
    """Whether the model still has these internal helpers (a rename of one is no violation, the tree checks go on deciding)."""
    if all(hasattr(M, n) for n in names):
        return True
    for label in labels:
        env.reach(label)
    return False


def digit(alpha, ch):
    if isinstance(ch, str):
        return alpha.index(ch)
    k = ch.cs[0]
    if type(k) is int:
        return alpha.index(chr(k))
    return sym.table_lookup([(ord(a), i) for i, a in enumerate(alpha)], k)


def value(alpha, s):
    r = 0
    for i in range(len(s)):
        r = r * len(alpha) + digit(alpha, s[i])
    return r


def legal(alpha, s):
    return And([Or([s[i] == a for a in alpha]) for i in range(len(s))])


def ascending(alpha):
    return list(alpha) == sorted(alpha)


@harness
def x_number(env, code, width):
    """A number of at most `width` digits, written and read back."""
    M = model_of(code)
    alpha = M.alphabet
    n = env.int("n", 0, len(alpha) ** width - 1)
    text = coder(M).int2str(n)
    env.observe("text", text)
    env.require("X09", "characters of the alphabet", legal(alpha, text))
    env.require("X09", "no longer than needed", Or(len(text) == 1, And(n >= len(alpha) ** (len(text) - 1), n < len(alpha) ** len(text))))
    env.require("X09", "denotes the number", value(alpha, text) == n)
    env.require("X09", "read back", coder(M).str2int(text) == n)
    if len(text) == width:
        env.reach("number written")


@harness
def x_text(env, code, width):
    """Any text over the alphabet, read and written again."""
    M = model_of(code)
    alpha = M.alphabet
    s = env.str("s", width, alpha)
    n = coder(M).str2int(s)
    env.observe("number", n)
    env.require("X09", "denotes its number", n == value(alpha, s))
    back = coder(M).int2str(n)
    env.require("X09", "written again", alpha[0] * (width - len(back)) + back == s)
    env.reach("text read")


@harness
def x_step(env, code, depth):
    """Steps of two numbers under one parent: length, prefix, order, neighbours, and the parent's interval."""
    M = model_of(code)
    if not offers(env, M, ("_get_path", "_get_parent_path_from_path", "_get_basepath", "_get_lastpos_in_path",
                           "_get_children_path_interval", "_inc_path"), ("interval", "next", "refused")):
        return
    alpha, sl = M.alphabet, M.steplen
    top = len(alpha) ** sl - 1
    base = env.str("base", sl * (depth - 1), alpha) if depth > 1 else ""
    more = env.str("more", sl, alpha)
    a, b = env.int("a", 0, top), env.int("b", 0, top)
    given = base + more if depth > 1 else more          # a sibling's path or longer will do
    pa, pb = M._get_path(given, depth, a), M._get_path(given, depth, b)
    env.observe("paths", [pa, pb])
    env.require("X09", "length", And(len(pa) == sl * depth, len(pb) == sl * depth))
    if len(pa) != sl * depth or len(pb) != sl * depth:
        return
    env.require("X09", "under the parent", And(pa[: sl * (depth - 1)] == base, M._get_parent_path_from_path(pa) == base,
                                               M._get_basepath(pa, depth - 1) == base))
    for d in range(1, depth + 1):
        env.require("X09", "ancestor's path", M._get_basepath(pa, d) == pa[: d * sl])
    env.require("X09", "same path exactly for the same number", Iff(pa == pb, a == b))
    na, nb = M(path=pa, depth=depth), M(path=pb, depth=depth)
    env.require("X09", "position read back", And(na._get_lastpos_in_path() == a, nb._get_lastpos_in_path() == b))
    if ascending(alpha):
        env.require("X09", "text order is number order", Iff(pa < pb, a < b))
        low, high = M._get_children_path_interval(base)
        env.require("X09", "children's interval holds every child", And(low <= pa, pa <= high))
        if depth > 1:
            other = env.str("other", sl * depth, alpha)
            env.require("X09", "children's interval holds no other node of their depth",
                        Implies(And(low <= other, other <= high), other[: sl * (depth - 1)] == base))
            env.reach("interval")
    res = env.call(na._inc_path)
    full = res[0] == "err" and type(res[1]).__name__ == "PathOverflow"
    env.require("X09", "next position succeeds or is refused", res[0] == "ok" or full)
    env.require("X09", "refused exactly at the last position", Iff(full, a == top))
    env.observe("next", "refused" if full else res[1])
    if res[0] == "ok":
        env.require("X09", "next position", And(len(res[1]) == sl * depth, res[1] == M._get_path(given, depth, a + 1)))
        env.reach("next")
    else:
        env.reach("refused")


@harness
def x_refuse(env, code, width):
    """Negative numbers and characters outside the alphabet are refused."""
    M = model_of(code)
    n = env.int("n", -1000, -1)
    res = env.call(coder(M).int2str, n)
    env.require("X09", "negative number refused", res[0] == "err" and isinstance(res[1], ValueError))
    bad = [ch for ch in "aA0_ \n" if ch not in M.alphabet] + ["é"]
    s = env.str("s", width, M.alphabet + "".join(bad))
    env.assume(Not(legal(M.alphabet, s)))
    res = env.call(coder(M).str2int, s)
    env.require("X09", "foreign character refused", res[0] == "err" and isinstance(res[1], ValueError))
    env.reach("foreign")


@harness
def x_alphabet(env, n):
    """A converter is made exactly for alphabets without repeated characters."""
    from treebeard.numconv import NumConv
    s = "".join("kqz3"[env.choose(f"c{i}", 4)] for i in range(n))
    res = env.call(NumConv, s)
    twice = any(s[i] in s[:i] for i in range(n))
    env.require("X09", "repeated characters refused", res[0] == ("err" if twice else "ok"))
    if twice:
        env.require("X09", "refused with ValueError", res[0] == "err" and isinstance(res[1], ValueError))


@jobs("X09", bounds="ten pairs of alphabet (2 to 85 characters, one outside ASCII, two not in character order, two of the same length) and step length (1 to 4); every number "
      "below alphabet size to the power of the step length (numbers and texts: one digit more), every pair of positions under every parent path of "
      "depth at most 2 (thorough 3), every text of the same length; numbers of eleven digits of 36; with or without foreign characters")
def x09(tier):
    out = []
    big = tier != "quick"
    for m in CODES:
        sl = getattr(models(), m).steplen
        for w in range(1, sl + (2 if m != "CodeDefault4" else 1)):
            out += [("x_number", dict(code=m, width=w)), ("x_text", dict(code=m, width=w))]
        for d in range(1, 4 if big else 3):
            out.append(("x_step", dict(code=m, depth=d)))
        out.append(("x_refuse", dict(code=m, width=2)))
    out += [("x_number", dict(code="CodeWide", width=11))]
    for n in (1, 2, 3, 4) if big else (1, 2, 3):
        out.append(("x_alphabet", dict(n=n)))
    return out


witnesses("X09", "number written", "text read", "interval", "next", "refused", "foreign")
