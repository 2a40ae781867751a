"""Symbolic values and the path-exploring engine.

The code under test runs as ordinary Python.  Data-dependent values are instances of the classes below; every
time Python needs the truth of a symbolic condition the engine asks z3 which outcomes are possible under the
current path condition, follows one and queues the other.  A path is re-executed from the start with its recorded
decisions ("execution by replay"), so no interpreter state has to be forked.
"""
import time

try:
    import z3
except ImportError:      # replay on a real database needs no solver
    z3 = None

INF = float("inf")


class PathSteer(BaseException):
    """Base of control-flow exceptions of the engine (never caught by code under test)."""


class Infeasible(PathSteer):
    pass


class Unsupported(PathSteer):
    """The code did something the symbolic layer has no meaning for: the check has no answer."""


class Truncated(Infeasible):
    """A case split over a large domain was cut off; the remaining values of this path are not explored."""


class Inconclusive(PathSteer):
    """Solver timeout/unknown or exploration budget exceeded."""


class Violation(PathSteer):
    def __init__(self, labels, assignment, detail=None):
        super().__init__(labels)
        self.labels, self.assignment, self.detail = labels, assignment, detail


class Stats:
    def __init__(self):
        self.paths = self.infeasible = self.branches = self.forced = self.queries = self.final_queries = 0
        self.solver_s = 0.0
        self.functions = {}
        self.max_query_s = 0.0

    def as_dict(self):
        return {k: v for k, v in self.__dict__.items() if k != "functions"}


class Engine:
    def __init__(self, timeout_ms=60000, stats=None):
        self.stats = stats or Stats()
        self.timeout_ms = timeout_ms
        self.solver = None
        self._fresh_solver()
        self.atoms = {}       # id -> (expr, lo, hi, domset|None)
        self.truncated = 0
        self.split_limit = 80
        self.cutoff_seconds = 15
        self.reset_path([], None)

    def _fresh_solver(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.solver.set("random_seed", 0)

    # ------------------------------------------------------------ path handling
    def reset_path(self, prefix, model):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.known = {}
        self.keep = []
        self.model = model
        self.alternatives = []
        self.inputs = {}      # name -> value (SymInt / SymStr / concrete)
        self.requirements = []
        self.pc = []
        self.notes = []
        self.atoms = {}

    def explore(self, fn, max_paths=20000, on_path=None, deadline=None, on_trouble=None):
        """Run fn() on every feasible path.  on_trouble(exception): what to do about a path that ended in a violation,
        an unsupported construct or an unexpected error; exploration goes on while it returns True."""
        stack = [([], None)]
        n = 0
        while stack:
            prefix, model = stack.pop()
            n += 1
            if n > max_paths:
                raise Inconclusive(f"more than {max_paths} paths")
            if deadline and time.time() > deadline:
                raise Inconclusive("time budget exceeded")
            if self.truncated and time.time() > cutoff:        # the job is known to be incomplete
                self.truncated += len(stack)
                break
            self.solver.push()
            self.reset_path(prefix, model)
            try:
                try:
                    result = fn()
                    self.finish()
                    self.stats.paths += 1
                    if on_path:
                        on_path(result)
                except Truncated:
                    self.truncated += 1
                    if self.truncated == 1:
                        cutoff = time.time() + self.cutoff_seconds
                        self.split_limit = 10
                except Infeasible:
                    self.stats.infeasible += 1
                except Inconclusive:
                    raise
                except (Exception, PathSteer) as e:
                    if not (on_trouble and on_trouble(e)):
                        raise
            finally:
                self.solver.pop()
            stack.extend(self.alternatives)
        return n

    def _check(self, *extra):
        t = time.perf_counter()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        model = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        dt = time.perf_counter() - t
        self.stats.queries += 1
        self.stats.solver_s += dt
        if dt > self.stats.max_query_s:
            self.stats.max_query_s = dt
        if r == z3.unknown:
            raise Inconclusive("solver: " + self.solver.reason_unknown())
        return model

    def ensure_model(self):
        if self.model is None:
            self.model = self._check()
            if self.model is None:
                raise Infeasible()
        return self.model

    def add(self, e):
        self.solver.add(e)
        self.pc.append(e)

    def assume(self, cond):
        cond = as_cond(cond)
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        self.add(cond.e)
        self.known[cond.e.get_id()] = True
        self.keep.append(cond.e)
        if self.model is not None and not z3.is_true(self.model.eval(cond.e, model_completion=True)):
            self.model = None

    def branch(self, e):
        i = e.get_id()
        v = self.known.get(i)
        if v is not None:
            return v
        if z3.is_not(e):
            return not self.branch(e.arg(0))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
        else:
            m = self.ensure_model()
            v = z3.is_true(m.eval(e, model_completion=True))
            other = z3.Not(e) if v else e
            alt = self._check(other)
            self.stats.branches += 1
            forced = alt is None
            if forced:
                self.stats.forced += 1
            else:
                self.alternatives.append((self.trace + [(not v, False)], alt))
        self.pos += 1
        self.trace.append((v, forced))
        self.known[i] = v
        self.keep.append(e)
        if not forced:
            self.add(e if v else z3.Not(e))
        return v

    def split(self, value):
        """Case split over the concrete values of a symbolic value (complete unless the limit is hit)."""
        i = 0
        while True:
            if self.pos < len(self.prefix):
                tag, v = self.prefix[self.pos]
                assert tag == "pick"
            elif i >= self.split_limit:
                raise Truncated()
            else:
                v = self.eval(value)
                if i and isinstance(value, SymInt):         # spread the picks, in case the limit is hit
                    lo, hi = value.bounds()
                    if lo > -INF and hi < INF and hi - lo > self.split_limit:
                        m = self._check((value >= lo + (hi - lo) * (i * 37 % 97) // 97).e)
                        if m is not None:
                            v = self.eval(value, m)
            self.pos += 1
            self.trace.append(("pick", v))
            if bool(value == v):
                return v
            i += 1

    def must(self, cond):
        """True when cond holds on every state of the current path (no fork)."""
        cond = as_cond(cond)
        if cond is True or cond is False:
            return cond
        return self._check(z3.Not(cond.e)) is None

    # ------------------------------------------------------------ properties
    def require(self, label, cond):
        self.requirements.append((label, cond))

    def finish(self):
        """Discharge every requirement of this path."""
        bad, conds = [], []
        for label, cond in self.requirements:
            cond = as_cond(cond)
            if cond is True:
                continue
            if cond is False:
                bad.append(label)
            else:
                conds.append((label, cond.e))
        if bad:
            m = self.model if self.model is not None else self._check()
            if m is None:
                raise Infeasible()
            raise Violation(bad, self.concretize(m))
        self.stats.final_queries += 1
        if conds:
            m = self._check(z3.Or([z3.Not(e) for _, e in conds]) if len(conds) > 1 else z3.Not(conds[0][1]))
            if m is not None:
                bad = [lab for lab, e in conds if not z3.is_true(m.eval(e, model_completion=True))]
                raise Violation(bad, self.concretize(m))
        # vacuity: the path must really be reachable
        self.ensure_model()

    # ------------------------------------------------------------ inputs
    def atom(self, expr, lo=-INF, hi=INF, dom=None):
        i = expr.get_id()
        if i not in self.atoms:
            self.atoms[i] = (expr, lo, hi, dom)
        return SymInt(0, ((i, 1),))

    def int(self, name, lo=None, hi=None):
        """A symbolic integer input with inclusive bounds."""
        if lo is not None and lo == hi:
            self.inputs[name] = lo
            return lo
        v = z3.Int(name)
        s = self.atom(v, -INF if lo is None else lo, INF if hi is None else hi)
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        self.inputs[name] = s
        return s

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def char(self, name, codes):
        """A symbolic character code out of the set `codes`."""
        codes = sorted(set(codes))
        if len(codes) == 1:
            return codes[0]
        v = z3.Int(name)
        runs = _runs(codes)
        s = self.atom(v, codes[0], codes[-1], frozenset(codes))
        self.add(z3.And(v >= codes[0], v <= codes[-1]))
        if len(runs) > 1:
            self.add(z3.Or([z3.And(v >= a, v <= b) if a != b else v == a for a, b in runs]))
        return s

    def str(self, name, length, alphabet):
        codes = [ord(c) for c in alphabet]
        s = SymStr([self.char(f"{name}.{i}", codes) for i in range(length)])
        self.inputs[name] = s
        return s

    def eval(self, value, model=None):
        m = model if model is not None else self.ensure_model()
        if isinstance(value, SymInt):
            r = m.eval(value.e, model_completion=True)
            return r.as_long()
        if isinstance(value, SymBool):
            return z3.is_true(m.eval(value.e, model_completion=True))
        if isinstance(value, SymStr):
            return "".join(chr(c if type(c) is int else self.eval(c, m)) for c in value.cs)
        if isinstance(value, dict):
            return {k: self.eval(v, m) for k, v in value.items()}
        if isinstance(value, (list, tuple)):
            return type(value)(self.eval(v, m) for v in value)
        return value

    def concretize(self, model):
        return {k: self.eval(v, model) for k, v in self.inputs.items()}


def _runs(codes):
    out = []
    for c in codes:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return [tuple(r) for r in out]


ENG = Engine() if z3 else None


def set_engine(e):
    global ENG
    ENG = e


# ==================================================================== booleans
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    def __eq__(self, o):
        o = as_cond(o)
        if o is True:
            return self
        if o is False:
            return Not(self)
        return SymBool(self.e == o.e)

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return 77

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __add__(self, o):
        return ite(self, 1, 0) + o

    __radd__ = __add__

    def __repr__(self):
        return "<SymBool>"


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def as_cond(x):
    if x is True or x is False or isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    if isinstance(x, SymStr):
        return len(x) > 0
    return bool(x)


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    es = []
    for x in xs:
        x = as_cond(x)
        if x is False:
            return False
        if x is not True:
            es.append(x.e)
    if not es:
        return True
    if len(es) == 1:
        return SymBool(es[0])
    return SymBool(z3.And(es))


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    es = []
    for x in xs:
        x = as_cond(x)
        if x is True:
            return True
        if x is not False:
            es.append(x.e)
    if not es:
        return False
    if len(es) == 1:
        return SymBool(es[0])
    return SymBool(z3.Or(es))


def Not(x):
    x = as_cond(x)
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_not(x.e):
        return SymBool(x.e.arg(0))
    return SymBool(z3.Not(x.e))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = as_cond(a), as_cond(b)
    if a is True:
        return b
    if a is False:
        return Not(b)
    return a == b


# ==================================================================== integers
class SymInt:
    """Linear combination  k + sum(coef * atom)  over z3 integer terms."""
    __slots__ = ("k", "t", "_e")

    def __init__(self, k, t):
        self.k, self.t, self._e = k, t, None

    @property
    def e(self):
        if self._e is None:
            at = ENG.atoms
            terms = [at[i][0] if c == 1 else c * at[i][0] for i, c in self.t]
            if self.k:
                terms.append(z3.IntVal(self.k))
            self._e = terms[0] if len(terms) == 1 else z3.Sum(terms)
        return self._e

    def bounds(self):
        lo = hi = self.k
        at = ENG.atoms
        for i, c in self.t:
            _, l, h, _ = at[i]
            if c > 0:
                lo, hi = lo + c * l, hi + c * h
            else:
                lo, hi = lo + c * h, hi + c * l
        return lo, hi

    # --- arithmetic
    def _comb(self, o, sgn):
        if isinstance(o, SymBool):
            o = ite(o, 1, 0)
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return SymInt(self.k + sgn * o, self.t)
        if isinstance(o, float) and o.is_integer():
            return SymInt(self.k + sgn * int(o), self.t)
        if not isinstance(o, SymInt):
            return NotImplemented
        d = dict(self.t)
        for i, c in o.t:
            n = d.get(i, 0) + sgn * c
            if n:
                d[i] = n
            else:
                d.pop(i, None)
        k = self.k + sgn * o.k
        if not d:
            return k
        return SymInt(k, tuple(sorted(d.items())))

    def __add__(self, o):
        return self._comb(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._comb(o, -1)

    def __neg__(self):
        return SymInt(-self.k, tuple((i, -c) for i, c in self.t))

    def __pos__(self):
        return self

    def __rsub__(self, o):
        return (-self)._comb(o, 1)

    def __mul__(self, o):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            if o == 0:
                return 0
            return SymInt(self.k * o, tuple((i, c * o) for i, c in self.t))
        if isinstance(o, SymInt):
            lo, hi = self.bounds()
            lo2, hi2 = o.bounds()
            return ENG.atom(self.e * o.e, min(lo * lo2, lo * hi2, hi * lo2, hi * hi2) if hi != INF and hi2 != INF else -INF, INF)
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return NotImplemented

    __rmul__ = __mul__

    def _divmod(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if not isinstance(o, int):
            raise Unsupported(f"division of symbolic int by {o!r}")
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            q, r = (-self)._divmod(-o)
            return q, -r
        # split off the part divisible by o
        qk, rk = divmod(self.k, o)
        q, r = qk, rk
        qt, rt = [], []
        for i, c in self.t:
            a, b = divmod(c, o)
            if a:
                qt.append((i, a))
            if b:
                rt.append((i, b))
        q = SymInt(qk, tuple(qt)) if qt else qk
        if not rt:
            return q, rk
        r = SymInt(rk, tuple(rt))
        lo, hi = r.bounds()
        if lo >= 0 and hi < o:
            return q, r
        qlo = lo // o if lo != -INF else -INF
        qhi = hi // o if hi != INF else INF
        dq = ENG.atom(r.e / z3.IntVal(o), qlo, qhi)
        if qhi - qlo == 1:   # one possible carry: cheaper as a conditional
            dq = ite(r >= o * qhi, qhi, qlo)
        return q + dq, r - o * dq

    def __floordiv__(self, o):
        return self._divmod(o)[0]

    def __mod__(self, o):
        return self._divmod(o)[1]

    def __divmod__(self, o):
        return self._divmod(o)

    def __truediv__(self, o):
        if ENG.must(And(self <= 2 ** 53, self >= -2 ** 53)):
            q, r = self._divmod(o)
            if r == 0:           # may fork
                return q
        return self.__index__() / o

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % self.__index__()
        return o % self.__index__()

    def __abs__(self):
        return ite(self >= 0, self, -self)

    # --- comparison
    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = ite(o, 1, 0)
        if isinstance(o, float) and not o.is_integer():
            if op == "eq":
                return False
            import math
            o = math.floor(o) if op in ("le", "gt") else math.ceil(o)
            return self._cmp(o, {"le": "le", "gt": "gt", "lt": "lt", "ge": "ge"}[op])
        d = self._comb(o, -1)
        if d is NotImplemented:
            return NotImplemented
        if isinstance(d, int):
            return {"eq": d == 0, "le": d <= 0, "lt": d < 0, "ge": d >= 0, "gt": d > 0}[op]
        lo, hi = d.bounds()
        if op == "eq":
            if lo > 0 or hi < 0:
                return False
            if len(d.t) == 1:
                i, c = d.t[0]
                expr, _, _, dom = ENG.atoms[i]
                if (-d.k) % c:
                    return False
                v = (-d.k) // c
                if dom is not None and v not in dom:
                    return False
                return SymBool(expr == v)
            if d.t[0][1] < 0:
                d = -d
            pos = [(i, c) for i, c in d.t if c > 0]
            neg = [(i, -c) for i, c in d.t if c < 0]
            l = SymInt(d.k if d.k > 0 else 0, tuple(pos))
            r = SymInt(-d.k if d.k < 0 else 0, tuple(neg)) if neg else z3.IntVal(-d.k if d.k < 0 else 0)
            if not neg and d.k < 0:
                l = SymInt(0, tuple(pos))
            return SymBool(l.e == (r.e if isinstance(r, SymInt) else r))
        if op in ("lt", "ge"):     # d < 0  <=>  d + 1 <= 0
            d = d + 1
            lo, hi = lo + 1, hi + 1
        # d <= 0
        if hi <= 0:
            res = True
        elif lo > 0:
            res = False
        else:
            terms = SymInt(0, d.t)
            res = SymBool(terms.e <= -d.k)
        return res if op in ("le", "lt") else Not(res)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, SymStr)):
            return False
        return self._cmp(o, "eq")

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __le__(self, o):
        return self._cmp(o, "le")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return 78

    def __index__(self):
        """Concretise by case split."""
        while True:
            v = _pick(self)
            if v is None:
                return ENG.split(self)
            if self == v:
                return v

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __repr__(self):
        return "<SymInt>"

    def bit_length(self):
        return self.__index__().bit_length()


def _pick(s):
    """A deterministic candidate value for case splitting: smallest feasible not yet excluded."""
    lo, hi = s.bounds()
    if lo != -INF and hi != INF and hi - lo <= 64:
        for v in range(int(lo), int(hi) + 1):
            c = s == v
            if c is False:
                continue
            if c is True:
                return v
            k = ENG.known.get(c.e.get_id())
            if k is False:
                continue
            return v
        raise Infeasible()
    return None


def ite(c, a, b):
    c = as_cond(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return Or(And(c, a), And(Not(c), b))
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        if type(a) is type(b) is int and a == b:
            return a
        if isinstance(a, SymInt) and isinstance(b, SymInt) and a.k == b.k and a.t == b.t:
            return a
        # share the common part:  b + ite(c, a-b, 0) keeps terms linear when the difference is constant
        d = a - b
        if isinstance(d, int) and not isinstance(b, int):
            return b + ENG.atom(z3.If(c.e, z3.IntVal(d), z3.IntVal(0)), min(0, d), max(0, d))
        la, ha = (a, a) if isinstance(a, int) else a.bounds()
        lb, hb = (b, b) if isinstance(b, int) else b.bounds()
        return ENG.atom(z3.If(c.e, _z(a), _z(b)), min(la, lb), max(ha, hb))
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) and len(a) == len(b):
        return SymStr([ite(c, x, y) for x, y in zip(SymStr.of(a).cs, SymStr.of(b).cs)])
    return a if bool(c) else b


def _z(a):
    return a.e if isinstance(a, SymInt) else z3.IntVal(int(a))


# ==================================================================== strings
class SymStr:
    """A string of concrete length whose characters may be symbolic codes."""
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = list(cs)

    @staticmethod
    def of(x):
        if isinstance(x, SymStr):
            return x
        if isinstance(x, str):
            return SymStr([ord(c) for c in x])
        raise TypeError(f"expected str, got {type(x).__name__}")

    def concrete(self):
        if all(type(c) is int for c in self.cs):
            return "".join(map(chr, self.cs))
        return None

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __hash__(self):
        return 79

    def __repr__(self):
        return "<SymStr %s>" % "".join(chr(c) if type(c) is int else "?" for c in self.cs)

    def __str__(self):
        c = self.concrete()
        return ENG.split(self) if c is None else c

    def __format__(self, spec):
        return format(str(self), spec)

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*[None if x is None else (x if isinstance(x, int) else x.__index__()) for x in (k.start, k.stop, k.step)])
            return SymStr(self.cs[k])
        if isinstance(k, SymInt):
            k = k.__index__()
        return SymStr([self.cs[k]])

    def __iter__(self):
        return iter([SymStr([c]) for c in self.cs])

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymStr(self.cs + SymStr.of(o).cs)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymStr(SymStr.of(o).cs + self.cs)
        return NotImplemented

    def __mul__(self, n):
        return SymStr(self.cs * int(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, str):
            o = SymStr.of(o)
        if not isinstance(o, SymStr):
            return False
        if len(self.cs) != len(o.cs):
            return False
        return And([_ceq(a, b) for a, b in zip(self.cs, o.cs)])

    def __ne__(self, o):
        return Not(self.__eq__(o))

    def _lt(self, o, strict):
        if isinstance(o, str):
            o = SymStr.of(o)
        if not isinstance(o, SymStr):
            return NotImplemented
        a, b = self.cs, o.cs
        n = min(len(a), len(b))
        i = 0
        while i < n and _same(a[i], b[i]):
            i += 1
        if len(a) < len(b):
            r = True
        elif len(a) > len(b):
            r = False
        else:
            r = not strict
        for j in range(n - 1, i - 1, -1):
            lt, eq = _clt(a[j], b[j]), _ceq(a[j], b[j])
            r = Or(lt, And(eq, r))
        return r

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else Not(r)

    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else Not(r)

    def startswith(self, p, start=0, end=None):
        s = SymStr(self.cs[start:end])
        if isinstance(p, tuple):
            return Or([s.startswith(x) for x in p])
        p = SymStr.of(p)
        if len(p) > len(s):
            return False
        return SymStr(s.cs[: len(p)]) == p

    def endswith(self, p):
        if isinstance(p, tuple):
            return Or([self.endswith(x) for x in p])
        p = SymStr.of(p)
        if len(p) > len(self):
            return False
        return SymStr(self.cs[len(self) - len(p):]) == p

    def __contains__(self, p):
        return bool(self.contains(p))

    def contains(self, p):
        p = SymStr.of(p)
        n = len(p)
        return Or([SymStr(self.cs[i:i + n]) == p for i in range(len(self) - n + 1)]) if n <= len(self) else False

    def find(self, p, start=0):
        p = SymStr.of(p)
        for i in range(start, len(self) - len(p) + 1):
            if SymStr(self.cs[i:i + len(p)]) == p:
                return i
        return -1

    def rfind(self, p):
        p = SymStr.of(p)
        for i in range(len(self) - len(p), -1, -1):
            if SymStr(self.cs[i:i + len(p)]) == p:
                return i
        return -1

    def index(self, p, start=0):
        i = self.find(p, start)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, p):
        p = SymStr.of(p)
        if len(p) != 1:
            raise Unsupported("count of a longer substring")
        return sum(1 for c in self.cs if bool(_ceq(c, p.cs[0])))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("whitespace split of a symbolic string")
        sep = SymStr.of(sep)
        if len(sep) != 1:
            raise Unsupported("split on a longer separator")
        out, cur = [], []
        for c in self.cs:
            if (maxsplit < 0 or len(out) < maxsplit) and bool(_ceq(c, sep.cs[0])):
                out.append(SymStr(cur))
                cur = []
            else:
                cur.append(c)
        out.append(SymStr(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        parts = self.split(sep)
        if maxsplit < 0 or len(parts) <= maxsplit + 1:
            return parts
        head = parts[: len(parts) - maxsplit]
        return [SymStr.of(sep).join(head)] + parts[len(parts) - maxsplit:]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, SymStr([]), SymStr([])
        return self[:i], SymStr.of(sep), self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return SymStr([]), SymStr([]), self
        return self[:i], SymStr.of(sep), self[i + len(sep):]

    def join(self, parts):
        out = []
        for n, p in enumerate(parts):
            if n:
                out += self.cs
            out += SymStr.of(p).cs
        return SymStr(out)

    def strip(self, chars=" \t\n\r\x0b\x0c"):
        return self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars=" \t\n\r\x0b\x0c"):
        cs = list(self.cs)
        chars = SymStr.of(chars).cs
        while cs and bool(Or([_ceq(cs[0], x) for x in chars])):
            cs.pop(0)
        return SymStr(cs)

    def rstrip(self, chars=" \t\n\r\x0b\x0c"):
        cs = list(self.cs)
        chars = SymStr.of(chars).cs
        while cs and bool(Or([_ceq(cs[-1], x) for x in chars])):
            cs.pop()
        return SymStr(cs)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if len(p) and self.endswith(p) else self

    def rjust(self, n, fill=" "):
        return SymStr(SymStr.of(fill).cs * max(0, n - len(self)) + self.cs)

    def ljust(self, n, fill=" "):
        return SymStr(self.cs + SymStr.of(fill).cs * max(0, n - len(self)))

    def zfill(self, n):
        return self.rjust(n, "0")

    def replace(self, a, b, count=-1):
        a, b = SymStr.of(a), SymStr.of(b)
        if len(a) != 1 or count != -1:
            raise Unsupported("replace")
        out = []
        for c in self.cs:
            out += b.cs if bool(_ceq(c, a.cs[0])) else [c]
        return SymStr(out)

    def _pred(self, f):
        return len(self.cs) > 0 and bool(And([Or([_ceq(c, i) for i in range(128) if f(chr(i))]) if type(c) is not int else f(chr(c)) for c in self.cs]))

    def isdigit(self):
        return self._pred(str.isdigit)

    def isalnum(self):
        return self._pred(str.isalnum)

    def isalpha(self):
        return self._pred(str.isalpha)

    def isupper(self):
        return self._pred(str.isupper)

    def upper(self):
        return SymStr([ite(And(_cle(97, c), _cle(c, 122)), c - 32, c) for c in self.cs])

    def lower(self):
        return SymStr([ite(And(_cle(65, c), _cle(c, 90)), c + 32, c) for c in self.cs])

    def casefold(self):
        return self.lower()

    def encode(self, *a):
        return str(self).encode(*a)


def _same(a, b):
    if type(a) is int or type(b) is int:
        return type(a) is type(b) and a == b
    return a.k == b.k and a.t == b.t


def _ceq(a, b):
    r = a == b
    return r if isinstance(r, SymBool) else bool(r)


def _clt(a, b):
    return a < b


def _cle(a, b):
    return a <= b


SYM = (SymInt, SymStr, SymBool)


def is_sym(x):
    return isinstance(x, SYM)


def has_sym(x, depth=3):
    if isinstance(x, SYM):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(y, depth - 1) for y in x.values()) or any(has_sym(y, 0) for y in x)
    return False


# -------------------------------------------------------------------- table lookups
def table_lookup(pairs, key):
    """Value of a finite map (code -> int) at symbolic code `key` (caller knows key is in the map)."""
    pairs = sorted(pairs)
    runs = []          # (start, end, offset)
    for k, v in pairs:
        if runs and runs[-1][1] == k - 1 and runs[-1][2] == v - k:
            runs[-1][1] = k
        else:
            runs.append([k, k, v - k])
    vals = [v for _, v in pairs]
    if len(runs) == 1:
        return key + runs[0][2]
    off = z3.IntVal(runs[-1][2])
    ke = key.e
    for a, b, o in reversed(runs[:-1]):
        off = z3.If(ke <= b, z3.IntVal(o), off)
    return ENG.atom(ke + off, min(vals), max(vals), frozenset(vals))


def str_at(s, idx):
    """s[idx] for concrete str s and symbolic int idx."""
    n = len(s)
    if bool(idx < 0):
        idx = idx + n
    if not bool(And(idx >= 0, idx < n)):
        raise IndexError("string index out of range")
    if n == 1:
        return SymStr([ord(s[0])])
    return SymStr([table_lookup([(i, ord(c)) for i, c in enumerate(s)], idx)])
