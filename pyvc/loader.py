"""Mechanical extraction of the verified text: every run re-reads /repo/src/actuarialmath/*.py, applies the
syntactic transforms below to the parsed source, compiles the result and executes it with CPython in modules whose
builtins and numeric libraries accept symbolic values.

transforms (T1..T10; nothing else is changed, nothing is dropped)
  T1  super()                     -> super(__class__, <first argument>)       (so it survives T2)
  T2  [e for k in it if c], (e for ..) with one generator and a plain target
                                  -> __comp__(lambda k: e, it, (lambda k: c) or None, kind)
  T3  for k in it: B              -> if __issym__(it): __symloop__(...B as a nested function...) else: for k in it: B
  T4  bare `except:`              -> `except Exception:`                     (engine control flow uses BaseException)
  T5  float literals              -> exact rationals;  a / b, a ** b -> __div__(a, b), __pow__(a, b)  (exact on ints)
  T8  x is None -> __isnone__(x); x is not None and y is not None -> __given__(x, y)   (contracts may answer "None or v")
  T9  for k in it: B with independent iterations, when the harness asks: one arbitrary iteration (invariant: true)
  T7  while C: B                  -> unchanged, except where the harness supplies tables: then the loop is cut at its
                                     invariant (arbitrary state; if C: B once more and stop; else continue after it);
                                     T3 loops of symbolic length are then cut the same way
  T10 while i < n: B; i += 1      -> for each of n - i rounds: B; i += 1    when n - i is a symbolic whole number (T3 then)
  T6  `a if c else b`, and/or, not, comparisons, while, try, assert ...      run natively by CPython on symbolic values
"""
import ast
import builtins
import os
import sys
import types
import math
import __future__
from fractions import Fraction as F
from . import alg
from . import sym
from . import tables
from .sym import (E, Num, ZBool, SymRange, SymSeq, Unsupported, lift, wrap, rat, mkbool, to_f, f_and, f_or, f_not,
                  f_cmp, s_floor, s_ceil, s_int, s_round, s_range, s_abs, body_cases, seq_sum, seq_prod, fresh, vidx,
                  numlike)

SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src") + "/actuarialmath"


# ------------------------------------------------------------------------------------------------- transforms
class Tr(ast.NodeTransformer):
    def __init__(self):
        self.fn = []
        self.made = []      # names each enclosing function binds to a list of its own
        self.n = 0

    def _func(self, node):
        args = node.args.posonlyargs + node.args.args
        self.fn.append(args[0].arg if args else (self.fn[-1] if self.fn else None))
        self.made.append({s.targets[0].id for s in _own(node.body) if isinstance(s, ast.Assign) and len(s.targets) == 1
                          and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List)})
        node.body = [self.visit(s) for s in node.body]
        self.made.pop()
        node.body = [s for b in node.body for s in (b if isinstance(b, list) else [b])]
        node.args = self.generic_visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.fn.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._func(node)

    def visit_Lambda(self, node):
        node.args = self.generic_visit(node.args)
        node.body = self.visit(node.body)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args and self.fn:
            node.args = [ast.Name("__class__", ast.Load()), ast.Name(self.fn[-1], ast.Load())]
        return node

    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1:
            return node
        g = node.generators[0]
        if not isinstance(g.target, ast.Name) or g.is_async:
            return node
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)):
            return node

        def lam(body):
            return ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[],
                                            kw_defaults=[], defaults=[]), body)
        cond = ast.Constant(None)
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = lam(c)
        return ast.Call(ast.Name("__comp__", ast.Load()), [lam(node.elt), g.iter, cond, ast.Constant(kind)], [])

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Name("Exception", ast.Load())
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.Call(ast.Name("__flt__", ast.Load()), [ast.Constant(repr(node.value))], [])
        return node

    def visit_FormattedValue(self, node):
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        name = {ast.Div: "__div__", ast.Pow: "__pow__"}.get(type(node.op))
        if name:
            return ast.Call(ast.Name(name, ast.Load()), [node.left, node.right], [])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        name = {ast.Div: "__div__", ast.Pow: "__pow__"}.get(type(node.op))
        if name and isinstance(node.target, ast.Name):
            return ast.Assign([node.target], ast.Call(ast.Name(name, ast.Load()),
                                                      [ast.Name(node.target.id, ast.Load()), node.value], []))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
            c = ast.Call(ast.Name("__isnone__", ast.Load()), [node.left], [])
            return c if isinstance(node.ops[0], ast.Is) else ast.UnaryOp(ast.Not(), c)
        return node

    def visit_BoolOp(self, node):
        if isinstance(node.op, ast.And) and all(
                isinstance(v, ast.Compare) and isinstance(v.left, ast.Name) and len(v.ops) == 1
                and isinstance(v.ops[0], ast.IsNot) and isinstance(v.comparators[0], ast.Constant)
                and v.comparators[0].value is None for v in node.values):
            return ast.Call(ast.Name("__given__", ast.Load()), [v.left for v in node.values], [])
        self.generic_visit(node)
        return node

    def visit_While(self, node):
        return _while(self, node)

    def visit_For(self, node):
        self.generic_visit(node)
        if not self.fn or not isinstance(node.target, ast.Name) or node.orelse:
            return node
        own = _own(node.body)
        if any(isinstance(s, (ast.Yield, ast.YieldFrom, ast.Await)) for s in own):
            return node
        self.n += 1
        it, body, get, sett = (f"__it{self.n}", f"__body{self.n}", f"__get{self.n}", f"__set{self.n}")
        lists = sorted(_appended(node.body) & self.made[-1]) if self.made else []
        vs = sorted((_assigned(node.body) | set(lists)) - {node.target.id})
        import copy
        nl = copy.deepcopy(node.body)
        bad = any(isinstance(s, (ast.Return,)) for s in own) or _has_break(node.body)
        nl = [_ContRet().visit(s) for s in nl]
        out = [ast.Assign([ast.Name(it, ast.Store())], node.iter)]
        # names must be bound in the enclosing scope for `nonlocal`
        bind = [ast.If(ast.Constant(False), [ast.Assign([ast.Name(v, ast.Store())], ast.Constant(None)) for v in vs],
                       [])] if vs else []
        if bad:
            symb = [ast.Expr(ast.Call(ast.Name("__unsup__", ast.Load()),
                                      [ast.Constant("break/return inside a loop of symbolic length")], []))]
        else:
            fb = ast.FunctionDef(body, _args([node.target.id]), ([ast.Nonlocal(vs)] if vs else []) + nl, [])
            fg = ast.FunctionDef(get, _args([]), [ast.Return(ast.List(
                [ast.Call(ast.Name("__try__", ast.Load()),
                          [ast.Lambda(_args([]), ast.Name(v, ast.Load()))], []) for v in vs], ast.Load()))], [])
            fs = ast.FunctionDef(sett, _args(["__vals"]), ([ast.Nonlocal(vs)] if vs else []) + [
                ast.Assign([ast.Tuple([ast.Name(v, ast.Store()) for v in vs], ast.Store())],
                           ast.Name("__vals", ast.Load()))] if vs else [ast.Pass()], [])
            symb = [fb, fg, fs, ast.Expr(ast.Call(ast.Name("__symloop__", ast.Load()), [
                ast.Name(body, ast.Load()), ast.Name(it, ast.Load()), ast.Name(get, ast.Load()),
                ast.Name(sett, ast.Load()), ast.Constant(tuple(vs)), ast.Constant(tuple(lists))], []))]
        node.iter = ast.Name(it, ast.Load())
        if bad and _stateless(node.body, set(vs), {node.target.id}):
            node.iter = ast.Call(ast.Name("__anyiter__", ast.Load()), [ast.Name(it, ast.Load())], [])
        out += bind + [ast.If(ast.Call(ast.Name("__issym__", ast.Load()), [ast.Name(it, ast.Load())], []),
                              symb, [node])]
        return out


_W = [0]


def _while(tr, node):
    """while C: B  ->  if __invmode__(): <havoc>; if C: B once more, then cut   else: while C: B"""
    import copy
    count = _counting(node) if tr.fn and not node.orelse else None
    if count:
        tr.n += 1
        rounds, v, begin = f"__rounds{tr.n}", f"_round_{tr.n}_", f"__begin{tr.n}"
        here = ast.Assign([ast.Name(count[0], ast.Store())], ast.BinOp(
            ast.Name(begin, ast.Load()), ast.Add() if count[3] > 0 else ast.Sub(), ast.Name(v, ast.Load())))
        loop = tr.visit_For(ast.For(ast.Name(v, ast.Store()), ast.Name(rounds, ast.Load()),
                                    [here] + copy.deepcopy(node.body), []))
        loop = [ast.Assign([ast.Name(begin, ast.Store())], ast.Name(count[0], ast.Load()))] + (
            loop if isinstance(loop, list) else [loop])
    tr.generic_visit(node)
    if not tr.fn or node.orelse:
        return node
    tr.n += 1
    get, sett, once = f"__wget{tr.n}", f"__wset{tr.n}", f"__once{tr.n}"
    vs = sorted(_assigned(node.body))
    fg = ast.FunctionDef(get, _args([]), [ast.Return(ast.List(
        [ast.Call(ast.Name("__try__", ast.Load()), [ast.Lambda(_args([]), ast.Name(v, ast.Load()))], [])
         for v in vs], ast.Load()))], [])
    fs = ast.FunctionDef(sett, _args(["__vals"]), [ast.Nonlocal(vs), ast.Assign(
        [ast.Tuple([ast.Name(v, ast.Store()) for v in vs], ast.Store())], ast.Name("__vals", ast.Load()))]
        if vs else [ast.Pass()], [])
    bind = [ast.If(ast.Constant(False), [ast.Assign([ast.Name(v, ast.Store())], ast.Constant(None)) for v in vs],
                   [])] if vs else []
    head = ast.Expr(ast.Call(ast.Name("__invwhile__", ast.Load()), [
        ast.Name(get, ast.Load()), ast.Name(sett, ast.Load()), ast.Constant(tuple(vs))], []))
    body = ast.For(ast.Name(once, ast.Store()), ast.Tuple([ast.Constant(0), ast.Constant(1)], ast.Load()),
                   [ast.If(ast.Name(once, ast.Load()), [ast.Expr(ast.Call(ast.Name("__cut__", ast.Load()), [], []))],
                           [])] + copy.deepcopy(node.body), [])
    first = f"__first{tr.n}"
    pre = ast.Assign([ast.Name(first, ast.Store())], ast.BoolOp(ast.And(), [
        ast.Call(ast.Name("__whilefact__", ast.Load()), [], []), copy.deepcopy(node.test)]))
    post = ast.Expr(ast.Call(ast.Name("__whileend__", ast.Load()), [ast.Name(first, ast.Load())], []))
    symb = [fg, fs, pre, head, ast.If(copy.deepcopy(node.test), [body], []), post]
    if not count:
        return bind + [ast.If(ast.Call(ast.Name("__invmode__", ast.Load()), [], []), symb, [node])]
    setr = ast.Assign([ast.Name(rounds, ast.Store())], ast.Call(ast.Name("__rounds__", ast.Load()), [
        ast.Name(count[0], ast.Load()), copy.deepcopy(count[1]), ast.Constant(count[2]), ast.Constant(count[3])], []))
    return bind + [setr, ast.If(ast.Compare(ast.Name(rounds, ast.Load()), [ast.IsNot()], [ast.Constant(None)]), loop, [
        ast.If(ast.Call(ast.Name("__invmode__", ast.Load()), [], []), symb, [node])])]


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])


class _ContRet(ast.NodeTransformer):
    def visit_Continue(self, node):
        return ast.Return(ast.Constant(None))

    def visit_For(self, node):
        return node

    def visit_While(self, node):
        return node

    def visit_FunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        return node


def _own(body):
    out = []

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return
        out.append(n)
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in body:
        go(s)
    return out


def _stateless(body, vs, known):
    """no iteration reads what another one wrote (every variable is assigned before it is read), and none breaks"""
    if _has_break(body) or any(isinstance(n, (ast.AugAssign, ast.FunctionDef, ast.Lambda, ast.For, ast.While, ast.With, ast.Try))
                               for n in _own(body)):
        return False

    def reads(e, known):
        return any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in vs and n.id not in known
                   for n in ast.walk(e))

    def go(stmts, known):
        for s in stmts:
            if isinstance(s, ast.If):
                if reads(s.test, known):
                    return None
                a, b = go(s.body, set(known)), go(s.orelse, set(known))
                if a is None or b is None:
                    return None
                known = a & b
            elif isinstance(s, ast.Assign):
                if reads(s.value, known) or not all(isinstance(t, ast.Name) for t in s.targets):
                    return None
                known = known | {t.id for t in s.targets}
            elif isinstance(s, (ast.Expr, ast.Return)):
                if s.value is not None and reads(s.value, known):
                    return None
                if isinstance(s, ast.Return):
                    return set(vs) | known
            elif not isinstance(s, (ast.Pass, ast.Continue)):
                return None
        return known
    return go(body, set(known)) is not None


def _has_break(body):
    def go(n):
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            return False
        return any(go(c) for c in ast.iter_child_nodes(n))
    return any(go(s) for s in body)


def _assigned(body):
    s = set()
    for n in _own(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not n.id.startswith("__"):
            s.add(n.id)
    return s


def _appended(body):
    """names of variables whose method append is called as a statement"""
    return {s.value.func.value.id for s in _own(body)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute)
            and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name)}


def _counting(node):
    """(counter, bound, extra, step) of `while i < n: ...; i += 1` and the like, or None"""
    t = node.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    ops = {ast.Lt: ("<", ">"), ast.LtE: ("<=", ">="), ast.Gt: (">", "<"), ast.GtE: (">=", "<=")}
    if type(t.ops[0]) not in ops:
        return None
    own = _own(node.body)
    if any(isinstance(s, (ast.Continue, ast.Return)) for s in own) or _has_break(node.body):
        return None
    changed = _assigned(node.body)
    attrs = {s.attr for s in own if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store)}
    for v, bound, op in ((t.left, t.comparators[0], ops[type(t.ops[0])][0]),
                         (t.comparators[0], t.left, ops[type(t.ops[0])][1])):
        if not isinstance(v, ast.Name):
            continue
        if any(not isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop,
                                  ast.Load)) or isinstance(x, ast.Name) and x.id in changed
               or isinstance(x, ast.Attribute) and x.attr in attrs for x in ast.walk(bound)):
            continue
        steps = [s for s in node.body if _step(s, v.id)]
        stores = [x for x in own if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == v.id]
        if len(steps) != 1 or len(stores) != 1:
            continue
        step = _step(steps[0], v.id)
        if (step > 0) != (op in ("<", "<=")):
            continue
        return v.id, bound, 1 if "=" in op else 0, step
    return None


def _step(s, v):
    """+1 or -1 if the statement is v += 1, v = v + 1, v -= 1 ...; else 0"""
    one = lambda e: isinstance(e, ast.Constant) and type(e.value) is int and e.value == 1
    var = lambda e: isinstance(e, ast.Name) and e.id == v
    if isinstance(s, ast.AugAssign) and var(s.target) and one(s.value):
        return {ast.Add: 1, ast.Sub: -1}.get(type(s.op), 0)
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and var(s.targets[0]) and isinstance(s.value, ast.BinOp):
        b = s.value
        if isinstance(b.op, ast.Add) and (var(b.left) and one(b.right) or var(b.right) and one(b.left)):
            return 1
        if isinstance(b.op, ast.Sub) and var(b.left) and one(b.right):
            return -1
    return 0


# ------------------------------------------------------------------------------------------------- runtime helpers
def r_rounds(v, bound, extra, step):
    """the rounds of a counting while loop, if their number is symbolic and whole"""
    if not (isinstance(v, Num) or isinstance(bound, Num)):
        whole = type(v) is int and type(bound) is int and E.tables
        return range((bound - v if step > 0 else v - bound) + extra) if whole else None
    if not (numlike(v) and numlike(bound) and alg.is_int(rat(v)) and alg.is_int(rat(bound))):
        return None
    n = (bound - v if step > 0 else v - bound) + extra
    return None if isinstance(n, int) else s_range(0, n)


def r_flt(s):
    v = float(s)
    if math.isinf(v) or math.isnan(v):
        return v
    q = F(s)
    return Num(alg.const(q))


def r_div(a, b):
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return Num(alg.const(F(a, b)))
    if isinstance(b, (Num, int, bool)) and isinstance(a, (Num, int, bool)):
        return wrap2(sym.s_div(rat(a), rat(b)))
    return a / b


def wrap2(r):
    return Num(r)


def r_pow(a, b):
    if isinstance(a, (Num, int, bool)) and isinstance(b, (Num, int, bool)):
        if isinstance(a, int) and isinstance(b, int) and b >= 0:
            return a ** b
        return wrap(sym.s_pow(rat(a), rat(b)))
    return a ** b


def r_issym(it):
    if isinstance(it, SymRange):
        n = it.hi - it.lo
        return not isinstance(n, int)
    return isinstance(it, SymSeq) and not all(isinstance(p, list) for p in it.pieces)


def r_comp(elt, it, cond, kind):
    if isinstance(it, SymRange):
        n = it.hi - it.lo
        if isinstance(n, int):
            it = [it.lo + i for i in range(max(0, n))]
    if isinstance(it, SymRange):
        if cond is None:
            pieces = [tuple(p) for p in body_cases(elt, lift(it.lo), lift(it.hi))]
            return SymSeq(pieces)
        NONE = object()

        def both(k):
            return elt(k) if bool(cond(k)) else NONE
        pieces = [tuple(p) for p in body_cases(both, lift(it.lo), lift(it.hi)) if p[1] is not NONE]
        return SymSeq(pieces)
    if isinstance(it, SymSeq):
        out = []
        for p in it.pieces:
            if isinstance(p, list):
                out.append([elt(x) for x in p if cond is None or bool(cond(x))])
            else:
                k, val, a, b = p
                if cond is not None:
                    raise Unsupported("filtered comprehension over a symbolic sequence")

                def at(j, k=k, val=val):
                    if numlike(val):
                        return elt(wrap(alg.subst(rat(val), {vidx(k): rat(j)})))
                    if isinstance(val, tuple):
                        return elt(tuple(wrap(alg.subst(rat(v), {vidx(k): rat(j)})) for v in val))
                    raise Unsupported("comprehension over a symbolic sequence of objects")
                out += [tuple(q) for q in body_cases(at, lift(a), lift(b))]
        return SymSeq(out)
    if kind == "list":
        return [elt(k) for k in it if cond is None or cond(k)]
    return (elt(k) for k in it if cond is None or cond(k))


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()


def r_try(f):
    try:
        return f()
    except NameError:
        return UNBOUND


def r_anyiter(it):
    """a loop whose iterations are independent, when the harness asks for it: one arbitrary iteration, then what follows"""
    if not E.any_iter or not isinstance(it, builtins.range) and not isinstance(it, SymRange):
        return it
    lo, hi = (it.start, it.stop) if isinstance(it, builtins.range) else (it.lo, it.hi)
    if isinstance(it, builtins.range) and it.step != 1 or (isinstance(lo, int) and isinstance(hi, int) and hi - lo < 6):
        return it
    u = fresh("iteration", True)
    E.assume(f_and([to_f(lo <= u), to_f(u < hi)]))
    return [u]


def r_unsup(msg):
    raise Unsupported(msg)


class Growing:
    """a list that the body of a loop of symbolic length appends to"""

    def __init__(self):
        self.new = []

    def append(self, x):
        self.new.append(x)

    def _no(self, *a, **k):
        raise Unsupported("a list is read in the loop that fills it")
    __iter__ = __len__ = __getitem__ = __bool__ = __add__ = __eq__ = __contains__ = _no
    __hash__ = None


def outside(body):
    """mutable objects the body of a loop can reach as variables"""
    out = []
    for c in body.__closure__ or ():
        try:
            v = c.cell_contents
        except ValueError:
            continue
        if isinstance(v, (list, dict, set)):
            out.append((len(v), repr(v) if len(v) < 50 else len(v)))
    return out


def r_symloop(body, it, get, sett, names, lists=()):
    """summarise a loop of symbolic length whose carried variables are running sums or products, or lists appended to"""
    if not isinstance(it, SymRange):
        raise Unsupported("loop over a symbolic sequence")
    if E.tables:
        # a loop which leaves the tables alone is summed up like any other; one which fills them is cut at the invariant
        pre = get()
        if lists or any(numlike(v) and not isinstance(v, bool) for v in pre):
            E.summing += 1
            try:
                return _rounds(body, it, get, sett, names, lists)
            except (Unsupported, tables.GivenUp, Exception):
                sett(pre)
            finally:
                E.summing -= 1
        return tables.inv_for(body, it, get, sett, names, UNBOUND)
    return _rounds(body, it, get, sett, names, lists)


def _rounds(body, it, get, sett, names, lists):
    work = [(lift(it.lo), lift(it.hi))]
    guard = 0
    while work:
        guard += 1
        if guard > 12:
            raise Unsupported("too many range splits")
        lo, hi = work.pop(0)
        work = [(lift(a), lift(b)) for a, b in _symloop(body, lo, hi, get, sett, names, lists) or ()] + work


def _symloop(body, lo, hi, get, sett, names, lists):
    if not E.prove(to_f(lo <= hi)) and not bool(lo <= hi):
        return
    pre = get()
    whole = {n for n, v in zip(names, pre) if isinstance(v, int) or numlike(v) and alg.is_int(rat(v))}
    while True:
        r = _summary(body, lo, hi, get, sett, names, lists, pre, whole)
        if not isinstance(r, set):
            return r
        sett(pre)
        whole -= r


def _summary(body, lo, hi, get, sett, names, lists, pre, whole):
    grow = {}
    for n, v in zip(names, pre):
        if n in lists:
            if not isinstance(v, (list, SymSeq)):
                raise Unsupported("a loop appends to something that is not a list")
            grow[n] = v
    before = outside(body)
    carried = {}
    k = fresh("k", True)
    rng = f_and([to_f(lo <= k), to_f(k < hi)])
    start = []
    for n, v in zip(names, pre):
        if numlike(v) and not isinstance(v, bool):
            c = fresh("c_" + n)
            if n in whole:
                c = fresh("ci_" + n, True)
            carried[n] = c
            start.append(c)
        else:
            start.append(v)

    def run():
        E.assume(rng)
        new = {n: Growing() for n in grow}
        sett([new.get(n, v) for n, v in zip(names, start)])
        body(k)
        out = get()
        for i, n in enumerate(names):
            if n in grow:
                if out[i] is not new[n]:
                    raise Unsupported("loop rebinds a list it appends to")
                out[i] = tuple(new[n].new)
        return out
    res, split = E.sub_explore(run, k)
    sett(pre)
    if outside(body) != before:
        raise Unsupported("a loop of symbolic length changes an object")
    if split is not None:
        return sym.split_range(split, k, lo, hi)
    if not res:
        sett(pre)
        return
    post = dict(zip(names, res[0]))
    real = {n for n in whole if n in carried and numlike(post[n]) and not alg.is_int(rat(post[n]))}
    if real:
        return real         # starts as a whole number but does not stay one
    cvars = {vidx(c): n for n, c in carried.items()}
    sol = {}          # carried var idx -> Rat value at start of iteration k
    final = {}
    pending = [n for n in names if n in carried]
    for _ in range(len(pending) + 1):
        for n in list(pending):
            c = vidx(carried[n])
            p = post[n]
            if not numlike(p):
                raise Unsupported("loop variable changes type")
            e = alg.subst(rat(p), sol)
            others = (e.vars & set(cvars)) - {c}
            if others:
                continue
            d = alg.sub(e, alg.from_atom(alg.atom_by(c)))
            kk = fresh("k", True)
            if c not in d.vars:
                f = lambda up: alg.add(rat(pre[names.index(n)]), alg.summation(
                    alg.subst(d, {vidx(k): rat(kk)}), vidx(kk), lo.r, up))
            elif c not in e.vars:
                # overwritten each round: value from the previous iteration; only usable after the loop
                v0 = rat(pre[names.index(n)])
                if alg.is_zero(alg.sub(alg.subst(e, {vidx(k): alg.sub(lo.r, alg.ONE)}), v0)):
                    final[n] = alg.subst(e, {vidx(k): alg.sub(hi.r, alg.ONE)})
                    pending.remove(n)
                    continue
                if not E.prove(to_f(lo < hi)) and not bool(lo < hi):
                    sett(pre)
                    return
                final[n] = alg.subst(e, {vidx(k): alg.sub(hi.r, alg.ONE)})
                pending.remove(n)
                continue
            else:
                q = alg.div(e, alg.from_atom(alg.atom_by(c)))
                if c in q.vars:
                    # affine recurrence with constant ratio
                    raise Unsupported("loop variable is not a running sum or product")
                f = lambda up: alg.mul(rat(pre[names.index(n)]), alg.product(
                    alg.subst(q, {vidx(k): rat(kk)}), vidx(kk), lo.r, up))
            sol[c] = f(k.r)
            final[n] = f(hi.r)
            pending.remove(n)
    if pending:
        raise Unsupported("mutually dependent loop variables")
    out = []
    for n, p in zip(names, pre):
        if n in grow:
            q = post[n]
            if len(q) > 1:
                raise Unsupported("a loop appends more than once a round")
            if any(v in cvars for x in q if numlike(x) for v in rat(x).vars):
                q = tuple(wrap(alg.subst(rat(x), sol)) for x in q)
            old = list(p.pieces) if isinstance(p, SymSeq) else [list(p)] if p else []
            out.append(SymSeq(old + [(k, x, lo, hi) for x in q]) if q else p)
        elif n in final:
            out.append(wrap(final[n]))
        elif p is UNBOUND:
            q = post[n]
            out.append(wrap(alg.subst(alg.subst(rat(q), sol), {vidx(k): alg.sub(hi.r, alg.ONE)}))
                       if numlike(q) else q)
        else:
            if post[n] is not p:
                raise Unsupported("loop rebinds an object")
            out.append(p)
    for v in out:
        if isinstance(v, Num) and (v.r.vars & set(cvars)):
            raise Unsupported("loop summary depends on a carried variable")
    sett(out)


# ------------------------------------------------------------------------------------------------- shims
def _num(f, g):
    def h(x, *a, **k):
        if isinstance(x, (Num, F)) or any(isinstance(y, Num) for y in a):
            return f(x, *a, **k)
        return g(x, *a, **k)
    return h


def m_exp(x):
    if isinstance(x, (int, Num)):
        return wrap(alg.exp(rat(x)))
    return math.exp(x)


def m_log(x, *base):
    if isinstance(x, (int, Num)):
        r = rat(x)
        if not E.known_positive(r):
            if not bool(lift(x) > 0):
                raise ValueError("math domain error")
        out = wrap(alg.log(r))
        return out if not base else r_div(out, m_log(base[0]))
    return math.log(x, *base)


def m_sqrt(x):
    if isinstance(x, (int, Num)):
        if bool(lift(x) < 0):
            raise ValueError("math domain error")
        if bool(lift(x) == 0):
            return 0
        return wrap(alg.rpow_const(rat(x), F(1, 2)))
    return math.sqrt(x)


def m_isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if isinstance(a, Num) or isinstance(b, Num):
        E.note("math.isclose(a, b) taken as |a-b| <= abs_tol (its relative term is negligible for |a|,|b| <= 1000)")
        d = lift(a) - lift(b)
        return bool(mkbool(f_and([to_f(d <= abs_tol), to_f(-lift(d) <= abs_tol)])))
    return math.isclose(float(a), float(b), rel_tol=float(rel_tol), abs_tol=float(abs_tol))


def m_isnan(x):
    return False if isinstance(x, Num) else math.isnan(x)


class Mod(types.ModuleType):
    def __init__(self, name, real=None, **kw):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(kw)

    def __getattr__(self, n):
        r = self.__dict__.get("_real")
        if r is None or n.startswith("__"):
            raise AttributeError(n)
        return getattr(r, n)


sh_math = Mod("math", math, exp=m_exp, log=m_log, sqrt=m_sqrt, isclose=m_isclose,
              floor=lambda x: s_floor(x), ceil=lambda x: s_ceil(x), isnan=m_isnan,
              pow=lambda a, b: r_pow(a, b), prod=lambda s, start=1: s_prod(s) * start,
              fabs=lambda x: s_abs(x), trunc=lambda x: s_int(x),
              fsum=lambda s: s_sum(s), expm1=lambda x: m_exp(x) - 1, log1p=lambda x: m_log(1 + x),
              isinf=lambda x: False if isinstance(x, Num) else math.isinf(x),
              isfinite=lambda x: True if isinstance(x, Num) else math.isfinite(x))


def s_sum(seq, start=0):
    if isinstance(seq, SymSeq):
        return seq_sum(seq, start)
    if isinstance(seq, SymRange):
        return seq_sum(r_comp(lambda k: k, seq, None, "list"), start)
    tot = start
    for x in seq:
        tot = tot + x
    return tot


def s_prod(seq):
    if isinstance(seq, SymSeq):
        return seq_prod(seq)
    tot = 1
    for x in seq:
        tot = tot * x
    return tot


def s_max(*a, **kw):
    if kw:
        return max(*a, **kw)
    xs = list(a[0]) if len(a) == 1 and not isinstance(a[0], tables.SymTable) else list(a)
    if len(a) == 1 and isinstance(a[0], tables.SymTable):
        return a[0].extreme("max")
    if not any(isinstance(x, Num) for x in xs):
        return max(xs)
    m = xs[0]
    for x in xs[1:]:
        if bool(x > m):
            m = x
    return m


def s_min(*a, **kw):
    if kw:
        return min(*a, **kw)
    xs = list(a[0]) if len(a) == 1 and not isinstance(a[0], tables.SymTable) else list(a)
    if any(isinstance(x, tuple) and any(isinstance(y, Num) for y in x) for x in xs):
        m = xs[0]
        for x in xs[1:]:
            for a, b in zip(x, m):
                if bool(lift(a) < b):
                    m = x
                    break
                if not bool(lift(a) == b):
                    break
        return m
    if len(a) == 1 and isinstance(a[0], tables.SymTable):
        return a[0].extreme("min")
    if not any(isinstance(x, Num) for x in xs):
        return min(xs)
    m = xs[0]
    for x in xs[1:]:
        if bool(x < m):
            m = x
    return m


def np_prod(a, *r, **k):
    if isinstance(a, SymSeq) or (isinstance(a, (list, tuple)) and any(isinstance(x, Num) for x in a)):
        return s_prod(a)
    import numpy
    return numpy.prod(a, *r, **k)


def np_linspace(a, b, n=50):
    if isinstance(a, Num) or isinstance(b, Num):
        return [a + r_div(b - a, n - 1) * i for i in range(n)]
    import numpy
    return [Num(alg.const(F(repr(float(v))))) if float(v) != int(v) else int(v) for v in numpy.linspace(a, b, n)]


def quad(fun, a, b, **kw):
    E.note("scipy.integrate.quad(f, a, b) returns the exact integral of f over [a, b]")
    return (sym.s_integral(fun, a, b), 0)


class _DF:
    def __init__(self, df):
        self.df = df


def derivative(fun, x=None, **kw):
    E.note("scipy.differentiate.derivative(f, x) returns the exact derivative of f at x")
    return _DF(sym.s_derivative(fun, x))


def fsolve(f, x0, full_output=False, **kw):
    E.note("scipy.optimize.fsolve returns a root of its function (convergence assumed)")
    E.starts.append(x0[0] if isinstance(x0, (list, tuple)) else x0)
    r = fresh("root")
    E.assume(f_cmp("eq", rat(f(r))))
    E.roots = getattr(E, "roots", []) + [r]
    return ([[r]] if not full_output else ([r], {}, 1, ""))


class _Min:
    def __init__(self, x):
        self.x = x


def minimize_scalar(f, *a, **kw):
    E.note("scipy.optimize.minimize_scalar returns a point no worse than any point named by the harness "
           "(convergence to the global minimum assumed)")
    r = fresh("argmin")
    for w in getattr(E, "witness", []):
        best = f(w)
        at = f(r)
        if alg.is_zero(rat(best)) and not E.feasible(f_cmp("lt", rat(at))):
            E.assume(f_cmp("eq", rat(at)))
        else:
            E.assume(to_f(at <= best))
    return _Min(r)


def root_of(fun, target):
    """contract of the solver: some argument at which the function takes the target value"""
    E.note("a root exists and the solver converges to one (scipy.optimize.fsolve)")
    r = fresh("root")
    E.assume(f_cmp("eq", alg.sub(rat(fun(r)), rat(target))))
    return r


def _isnum(x):
    return isinstance(x, Num)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, Num) and alg.is_int(x.r))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class s_intT(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        return s_int(x) if isinstance(x, Num) else builtins.int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, Num) and not alg.is_int(x.r))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class s_floatT(metaclass=_FloatMeta):
    def __new__(cls, x=0):
        return x if isinstance(x, Num) else (Num(alg.const(x)) if isinstance(x, builtins.int) else builtins.float(x))


def s_bool(x=False):
    return builtins.bool(x)


def s_len(x):
    return builtins.len(x)


def s_list(x=()):
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, SymRange):
        return r_comp(lambda k: k, x, None, "list")
    return builtins.list(x)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.list)

    def __eq__(cls, o):
        return o is cls or o is builtins.list

    def __hash__(cls):
        return hash(builtins.list)


class s_listT(metaclass=_ListMeta):
    def __new__(cls, x=()):
        return s_list(x)


def s_isinstance(x, t):
    if t is builtins.int or t is s_intT:
        return _IntMeta.__instancecheck__(s_intT, x)
    if t is builtins.float or t is s_floatT:
        return _FloatMeta.__instancecheck__(s_floatT, x)
    if isinstance(t, builtins.tuple):
        return builtins.any(s_isinstance(x, y) for y in t)
    if t is s_listT:
        return isinstance(x, builtins.list)
    return isinstance(x, t)


def s_all(xs):
    if isinstance(xs, SymSeq):
        raise Unsupported("all() over a symbolic sequence")
    return builtins.all(xs)


def s_any(xs):
    if isinstance(xs, SymSeq):
        raise Unsupported("any() over a symbolic sequence")
    return builtins.any(xs)


def s_print(*a, **k):
    return None


class _Any:
    """stand-in for display libraries"""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()

    def __call__(self, *a, **k):
        return _Any()

    def __iter__(self):
        return iter((_Any(), _Any()))

    def __getitem__(self, k):
        return _Any()

    def __setitem__(self, k, v):
        pass

    def __or__(self, o):
        return self

    __ror__ = __or__


class Frame(_Any):
    """columns of a table (all that the package does with pandas beyond display)"""

    def __init__(self, data=None, index=None, **k):
        cols = {}
        try:
            cols = {c: list(v) for c, v in data.items()}
        except Exception:
            pass
        self.__dict__.update(cols=cols, index=list(index) if isinstance(index, (list, range)) else [])

    @classmethod
    def from_dict(cls, data=None, **k):
        return cls(data) if not k else _Any()

    def set_index(self, c, **k):
        if c not in self.cols:
            return _Any()
        out = Frame({d: v for d, v in self.cols.items() if d != c})
        out.__dict__["index"] = self.cols[c]
        return out

    def __getitem__(self, c):
        return self.cols[c] if c in self.cols else _Any()


def normcdf(value, loc=0, scale=1):
    z = r_div(lift(value) - loc, scale)
    E.note("scipy.stats.norm.cdf(v, loc, scale) = Phi((v-loc)/scale); ndtri is the inverse of Phi")
    r = _phi_rule(rat(z))
    return wrap(r if r is not None else alg.app("Phi", rat(z), pos=True))


def ndtri(p):
    if isinstance(p, Num):
        # ndtri(Phi(z)) = z
        r = p.r
        a = alg._single(r)
        if a is not None and alg.atom_by(a).kind == "App" and alg.atom_by(a).data[0] == "Phi":
            return wrap(alg.atom_by(a).data[1][0])
    return wrap(alg.app("ndtri", rat(p)))


def _phi_rule(*args):
    a = alg._single(args[0])
    if a is not None and alg.atom_by(a).kind == "App" and alg.atom_by(a).data[0] == "ndtri":
        return alg.atom_by(a).data[1][0]
    return None


def build_shims():
    norm = Mod("norm", None, cdf=normcdf)
    sc = Mod("scipy", None)
    sc.integrate = Mod("scipy.integrate", None, quad=quad)
    sc.differentiate = Mod("scipy.differentiate", None, derivative=derivative)
    sc.optimize = Mod("scipy.optimize", None, fsolve=fsolve, minimize_scalar=minimize_scalar)
    sc.misc = Mod("scipy.misc", None)
    sc.special = Mod("scipy.special", None, ndtri=ndtri)
    sc.stats = Mod("scipy.stats", None, norm=norm)
    npm = Mod("numpy", None, prod=np_prod, linspace=np_linspace, nan=float("nan"), inf=float("inf"),
              isnan=m_isnan, exp=m_exp, log=m_log, sqrt=m_sqrt, floor=lambda x: s_floor(x),
              ceil=lambda x: s_ceil(x), sum=s_sum, abs=s_abs, cumprod=_Any(), arange=_Any(), argmin=_Any(),
              array=_Any(), ndarray=type("ndarray", (), {}), float64=s_floatT, power=r_pow,
              vectorize=lambda f, *a, **k: f,
              maximum=lambda a, b: s_max(a, b), minimum=lambda a, b: s_min(a, b), isfinite=lambda x: True)
    plt = _Any()
    mpl = Mod("matplotlib", None, pyplot=plt)
    pd = Mod("pandas", None, DataFrame=Frame, Series=_Any(), isna=lambda x: False, concat=_Any())
    return {"math": sh_math, "numpy": npm, "scipy": sc, "scipy.integrate": sc.integrate,
            "scipy.differentiate": sc.differentiate, "scipy.optimize": sc.optimize, "scipy.misc": sc.misc,
            "scipy.special": sc.special, "scipy.stats": sc.stats, "matplotlib": mpl, "matplotlib.pyplot": plt,
            "pandas": pd, "IPython": _Any(), "IPython.display": _Any()}


# ------------------------------------------------------------------------------------------------- contracts at calls
class Wrapped:
    """descriptor around a method: inside a proof a dynamically dispatched call uses the callee's contract"""
    static = False

    def __init__(self, raw, name, owner):
        self.raw, self.name, self.owner = raw, name, owner

    def __get__(self, obj, cls=None):
        if obj is None:
            return self.raw
        m = types.MethodType(self.raw, obj)
        b = E.bindings.get(id(obj))
        if b is None or self.name not in b.contracts:
            return m
        if find(type(obj), self.name) is not self:
            return m            # super() call: inlined
        return b.call_contract(obj, self, m)


class StaticWrapped(Wrapped):
    static = True

    def __get__(self, obj, cls=None):
        if obj is None:
            return self.raw
        b = E.bindings.get(id(obj))
        if b is None or self.name not in b.contracts or find(type(obj), self.name) is not self:
            return self.raw
        return b.call_contract(obj, self, self.raw)


def find(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c.__dict__[name]
    return None


class Package:
    def __init__(self, src=None):
        self.src = src or SRC
        self.mods = {}
        self.shims = build_shims()
        alg.APP_RULES["Phi"] = _phi_rule
        b = dict(builtins.__dict__)
        b.update(range=s_range, sum=s_sum, max=s_max, min=s_min, round=s_round, int=s_intT, float=s_floatT,
                 abs=s_abs, isinstance=s_isinstance, all=s_all, any=s_any, print=s_print, list=s_listT,
                 __comp__=r_comp, __symloop__=r_symloop, __issym__=r_issym, __unsup__=r_unsup, __try__=r_try,
                 __invmode__=lambda: bool(E.tables), __invwhile__=tables.inv_while, __cut__=tables.cut,
                 __whilefact__=tables.wants_fact, __rounds__=r_rounds, __whileend__=tables.ended_while,
                 __isnone__=sym.is_none, __given__=sym.all_given, __anyiter__=r_anyiter,
                 __flt__=r_flt, __div__=r_div, __pow__=r_pow, __import__=self.imp)
        self.b = b
        self.sources = {}
        self.load("actuarialmath")

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = "actuarialmath"
            name = base + ("." + name if name else "")
        if name.split(".")[0] == "actuarialmath":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and name == "actuarialmath" and os.path.exists(f"{self.src}/{f}.py"):
                        self.load("actuarialmath." + f)
                return m
            return self.mods["actuarialmath"]
        if name in self.shims:
            return self.shims[name] if (fromlist or "." not in name) else self.shims[name.split(".")[0]]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name and "actuarialmath" not in self.mods:
            self.load("actuarialmath")
            if name in self.mods:
                return self.mods[name]
        short = name.split(".", 1)[1] if "." in name else None
        path = f"{self.src}/{short}.py" if short else f"{self.src}/__init__.py"
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.b
        m.__file__ = path
        self.mods[name] = m
        if short:
            setattr(self.mods["actuarialmath"], short, m)
        text = open(path).read()
        self.sources[path] = text
        exec(compile_sym(text, path), m.__dict__)
        for v in list(m.__dict__.values()):
            if isinstance(v, type) and v.__module__ == name and "_wrapped" not in v.__dict__:
                wrap_class(v)
        return m

    def __getattr__(self, n):
        m = self.__dict__["mods"]["actuarialmath"]
        return getattr(m, n)


def wrap_class(cls):
    for k, v in list(cls.__dict__.items()):
        if isinstance(v, types.FunctionType) and not (k.startswith("__") and k.endswith("__")):
            setattr(cls, k, Wrapped(v, k, cls))
        elif isinstance(v, staticmethod):
            setattr(cls, k, StaticWrapped(v.__func__, k, cls))
    cls._wrapped = True


def compile_sym(text, path):
    tree = ast.parse(text, path)
    # drop `if __name__ == "__main__"` demo blocks and `if False` blocks (never executed on import)
    tree = Tr().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", flags=__future__.annotations.compiler_flag, dont_inherit=True)


def load_spec_into(m, text, path):
    """specification modules go through the same transforms, so one text serves the proof and the replay"""
    b = dict(builtins.__dict__)
    b.update(range=s_range, sum=s_sum, max=s_max, min=s_min, round=s_round, int=s_intT, float=s_floatT, abs=s_abs,
             isinstance=s_isinstance, all=s_all, any=s_any, list=s_listT,
             __comp__=r_comp, __symloop__=r_symloop, __issym__=r_issym, __unsup__=r_unsup, __try__=r_try,
                 __invmode__=lambda: False, __invwhile__=tables.inv_while, __cut__=tables.cut,
                 __whilefact__=tables.wants_fact, __rounds__=r_rounds, __whileend__=tables.ended_while,
             __isnone__=sym.is_none, __given__=sym.all_given, __anyiter__=r_anyiter,
                 __flt__=r_flt, __div__=r_div, __pow__=r_pow)
    shims = build_shims()

    def imp(nm, globals=None, locals=None, fromlist=(), level=0):
        if nm in shims:
            return shims[nm] if (fromlist or "." not in nm) else shims[nm.split(".")[0]]
        return builtins.__import__(nm, globals, locals, fromlist, level)
    b["__import__"] = imp
    m.__dict__["__builtins__"] = b
    exec(compile_sym(text, path), m.__dict__)
    return m
