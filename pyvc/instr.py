"""Mechanical instrumentation of the real source of /repo (done afresh on every run).

What the transformation does, and nothing else:
  * `for` loops inside functions become `_vc_for(iterable, body_closure, cells)`; break/continue/return
    become return signals of the closure;
  * comprehensions / generator expressions inside functions become nested `_vc_for` calls;
  * generator functions become `_vc_Gen(lambda yield_: body)`;
  * list/dict/set displays become tracked containers with the same interface;
  * attribute stores go through `_vc_sa` (setattr plus bookkeeping of writes inside loops);
  * `and`/`or`/`not`/`in`/chained comparisons of side-effect-free operands may be kept as formulas;
  * `str % x` goes through `_vc_mod`; a bare `except:` becomes `except Exception:`;
  * classes without bases get the bookkeeping base class VCBase.
Everything else (calls, arithmetic, branches, exceptions, inheritance) is executed by CPython itself.
"""
import ast


def assigned_names(nodes):
    """names bound by these statements in the current function scope"""
    out = []
    def add(n):
        if n not in out: out.append(n)
    def tgt(t):
        if isinstance(t, ast.Name): add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts: tgt(e)
        elif isinstance(t, ast.Starred): tgt(t.value)
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            add(n.name); return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets leak, nothing else
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr): tgt(x.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets: tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)): tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)): tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None: tgt(i.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler):
            if n.name: add(n.name)
        elif isinstance(n, ast.NamedExpr): tgt(n.target)
        elif isinstance(n, ast.Delete):
            for t in n.targets: tgt(t)
        for c in ast.iter_child_nodes(n): walk(c)
    for n in nodes: walk(n)
    return out


def own_walk(nodes):
    """walk statements without entering nested scopes"""
    st = list(nodes)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)): continue
        st.extend(ast.iter_child_nodes(n))


def N(s): return ast.Name(s, ast.Load())
def S(s): return ast.Name(s, ast.Store())
def C(v): return ast.Constant(v)
def call(f, *a): return ast.Call(N(f) if isinstance(f, str) else f, list(a), [])
def lam(args, body):
    return ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body)
def fdef(name, args, body):
    f = ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body, [], None, None)
    f.type_params = []
    return f


PURE = (ast.Name, ast.Attribute, ast.Constant, ast.Compare, ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.Subscript, ast.Tuple, ast.Load,
        ast.operator, ast.unaryop, ast.cmpop, ast.boolop)
PURECALLS = {'isinstance', 'len', 'abs', 'int', 'float', 'min', 'max', 'range'}


def pure(n):
    if isinstance(n, ast.Call):
        return isinstance(n.func, ast.Name) and n.func.id in PURECALLS and not n.keywords and all(pure(a) for a in n.args)
    if not isinstance(n, PURE): return False
    return all(pure(c) for c in ast.iter_child_nodes(n))


class FnCtx:
    def __init__(self, node, cls, first):
        self.node = node; self.cls = cls; self.first = first
        self.globals = set(); self.nonlocals = set()
        self.locals = set()
        self.isgen = False
        self.need = []       # names to bind statically
        self.depth = 0       # for-loop nesting
        self.inwhile = 0


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.cls = []
        self.n = 0

    def fresh(self, p):
        self.n += 1
        return '_vc_%s%d' % (p, self.n)

    # ---- scopes
    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        bases = node.bases
        if not bases or (len(bases) == 1 and isinstance(bases[0], ast.Name) and bases[0].id == 'object'):
            if not node.keywords: node.bases = [N('_vc_Base')]
        else: node.bases = [self.visit(b) for b in bases]
        self.cls.append(node.name)
        fn, self.fn = self.fn, []
        self.clsfn = getattr(self, 'clsfn', [])
        self.clsfn.append(fn)
        node.body = [y for x in node.body for y in self._aslist(self.visit(x))]
        self.clsfn.pop()
        self.fn = fn
        self.cls.pop()
        return node

    @staticmethod
    def _aslist(x):
        return x if isinstance(x, list) else ([] if x is None else [x])

    def stmts(self, body):
        out = []
        for s in body: out += self._aslist(self.visit(s))
        return out

    def visit_Lambda(self, node):
        f = FnCtx(node, self.cls[-1] if self.cls else None, None)
        f.islambda = True
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)): return node
        # zero-arg super inside lambda is not supported
        self.fn.append(f)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.body = self.visit(node.body)
        self.fn.pop()
        return node

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        first = node.args.args[0].arg if node.args.args else None
        f = FnCtx(node, self.cls[-1] if (self.cls and not self.fn) else None, first)
        if self.fn and not f.cls and self.fn[-1].cls: pass
        own = list(own_walk(node.body))
        for x in own:
            if isinstance(x, ast.Global): f.globals.update(x.names)
            if isinstance(x, ast.Nonlocal): f.nonlocals.update(x.names)
        yields = [x for x in own if isinstance(x, (ast.Yield, ast.YieldFrom))]
        f.isgen = bool(yields)
        if f.isgen:
            ok = all(isinstance(s, ast.Expr) for s in self._yield_parents(node.body))
            if not ok: return node       # generator used as coroutine: left native
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        f.params = params
        f.locals = set(params) | set(assigned_names(node.body)) - f.globals - f.nonlocals
        self.fn.append(f)
        doc = []
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        new = self.stmts(body)
        self.fn.pop()
        bind = []
        need = [x for x in f.need if x not in params]
        if need:
            bind = [ast.If(C(0), [ast.Assign([S(x)], C(None)) for x in need], [])]
        if f.isgen:
            g = self.fresh('g')
            nl = [x for x in assigned_names(node.body) if x in params and x not in f.globals]
            inner = ([ast.Nonlocal(nl)] if nl else []) + bind + (new or [ast.Pass()])
            # names declared nonlocal already by the function
            gd = fdef(g, ['_vc_y'], inner)
            node.body = doc + [gd, ast.Return(call('_vc_Gen', N(g)))]
        else:
            node.body = doc + bind + new or [ast.Pass()]
        return node

    def _yield_parents(self, body):
        """statements containing a yield: must be Expr(yield)"""
        out = []
        for n in own_walk(body):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.Yield, ast.YieldFrom)): out.append(n)
        return out

    visit_AsyncFunctionDef = None

    # ---- statements
    def visit_Expr(self, node):
        v = node.value
        if isinstance(v, ast.Yield) and self.fn and self.fn[-1].isgen:
            return ast.Expr(call('_vc_y', self.visit(v.value) if v.value is not None else C(None)))
        if isinstance(v, ast.YieldFrom) and self.fn and self.fn[-1].isgen:
            return ast.Expr(call('_vc_yf', self.visit(v.value), N('_vc_y')))
        node.value = self.visit(v)
        return node

    def visit_Return(self, node):
        f = self.fn[-1]
        v = self.visit(node.value) if node.value is not None else C(None)
        if f.depth: return ast.Return(call('_vc_Ret', v))
        if f.isgen: return ast.Return(None)
        return ast.Return(v)

    def visit_Break(self, node):
        f = self.fn[-1] if self.fn else None
        if f and f.depth and not f.inwhile: return ast.Return(N('_vc_BRK'))
        return node

    def visit_Continue(self, node):
        f = self.fn[-1] if self.fn else None
        if f and f.depth and not f.inwhile: return ast.Return(C(None))
        return node

    def visit_While(self, node):
        if not self.fn:
            return self.generic_visit(node)
        f = self.fn[-1]
        # every arrival at the loop head is announced: `while _vc_wh(tok, cells) and <test>` (a cut-point handler may take over)
        names = [x for x in assigned_names(node.body) if x in f.locals and x not in f.globals]
        for x in names:
            if x not in f.need: f.need.append(x)
        node.test = self.visit(node.test)
        f.inwhile += 1
        node.body = self.stmts(node.body)
        f.inwhile -= 1
        node.orelse = self.stmts(node.orelse)
        tok, st = self.fresh('w'), self.fresh('c')
        out = [ast.Assign([S(tok)], ast.List([], ast.Load()))]
        cells = C(None)
        if names:
            ifs = [ast.If(ast.Compare(N('_vc_j'), [ast.Eq()], [C(j)]), [ast.Assign([S(x)], N('_vc_v'))], []) for j, x in enumerate(names)]
            out.append(fdef(st, ['_vc_j', '_vc_v'], [ast.Nonlocal(names)] + ifs))
            cells = ast.Tuple([ast.Tuple([C(x) for x in names], ast.Load()), ast.Tuple([lam([], N(x)) for x in names], ast.Load()), N(st)], ast.Load())
        node.test = ast.BoolOp(ast.And(), [call('_vc_wh', N(tok), cells), node.test])
        return out + [node]

    def visit_For(self, node):
        if not self.fn:
            return self.generic_visit(node)
        f = self.fn[-1]
        it = self.visit(node.iter)
        names = [x for x in assigned_names([node]) if x not in f.globals]
        mine = [x for x in names if x in f.locals]
        for x in mine:
            if x not in f.need: f.need.append(x)
        tnames = assigned_names([ast.Assign([node.target], C(None))])
        carried = [x for x in assigned_names(node.body) if x not in f.globals]
        hasret = any(isinstance(x, ast.Return) for x in own_walk(node.body))
        w, f.inwhile = f.inwhile, 0
        f.depth += 1
        body = self.stmts(node.body)
        f.depth -= 1
        f.inwhile = w
        b, it_n, sg = self.fresh('b'), self.fresh('i'), self.fresh('s')
        pre = []
        if names: pre.append(ast.Nonlocal(names))
        glob = [x for x in assigned_names([node]) if x in f.globals]
        if glob: pre.append(ast.Global(glob))
        tassign = self.visit(ast.Assign([node.target], N(it_n)))
        bd = fdef(b, [it_n], pre + self._aslist(tassign) + body)
        out = [bd]
        cells = C(None)
        if names:
            st = self.fresh('c')
            ifs = []
            for j, x in enumerate(names):
                ifs.append(ast.If(ast.Compare(N('_vc_j'), [ast.Eq()], [C(j)]), [ast.Assign([S(x)], N('_vc_v'))], []))
            out.append(fdef(st, ['_vc_j', '_vc_v'], [ast.Nonlocal(names)] + ifs))
            cells = call('_vc_cells', ast.Tuple([C(x) for x in names], ast.Load()),
                         ast.Tuple([lam([], N(x)) for x in names], ast.Load()), N(st), C('%s:%d' % (self.mod, self.n)),
                         ast.Tuple([C(x) for x in names if x in tnames and x not in carried], ast.Load()))
        out.append(ast.Assign([S(sg)], call('_vc_for', it, N(b), cells)))
        if node.orelse:
            oe = self.stmts(node.orelse)
            out.append(ast.If(ast.Compare(N(sg), [ast.Is()], [C(None)]), oe, []))
        if hasret:
            test = ast.Call(N('_vc_isret'), [N(sg)], [])
            if f.depth: r = ast.Return(N(sg))
            elif f.isgen: r = ast.Return(None)
            else: r = ast.Return(ast.Attribute(N(sg), 'value', ast.Load()))
            out.append(ast.If(test, [r], []))
        return out

    def visit_Try(self, node):
        for h in node.handlers:
            if h.type is None: h.type = N('Exception')
            elif isinstance(h.type, ast.Name) and h.type.id == 'BaseException': h.type = N('Exception')
        node.body = self.stmts(node.body)
        for h in node.handlers: 
            h.type = self.visit(h.type)
            h.body = self.stmts(h.body)
            # CPython unbinds the name; a nonlocal `except as e` inside closures is fine
        node.orelse = self.stmts(node.orelse)
        node.finalbody = self.stmts(node.finalbody)
        return node

    def visit_If(self, node):
        node.test = self.visit(node.test)
        node.body = self.stmts(node.body) or [ast.Pass()]
        node.orelse = self.stmts(node.orelse)
        return node

    def visit_With(self, node):
        for i in node.items:
            i.context_expr = self.visit(i.context_expr)
        node.body = self.stmts(node.body)
        return node

    def _mangled(self, name):
        """private names of a class body"""
        c = self.cls[-1] if self.cls and self.cls[-1] else None
        return '_' + c.lstrip('_') + name if c and c.strip('_') and name.startswith('__') and not name.endswith('__') else name

    def _store(self, target, val):
        """statements storing expression val (already visited) into target"""
        if isinstance(target, ast.Attribute):
            return [ast.Expr(call('_vc_sa', self.visit(target.value), C(self._mangled(target.attr)), val))]
        if isinstance(target, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Attribute) for x in ast.walk(target)) \
                and not any(isinstance(x, ast.Starred) for x in target.elts):
            tmp = [self.fresh('t') for _ in target.elts]
            out = [ast.Assign([ast.Tuple([S(t) for t in tmp], ast.Store())], val)]
            for t, e in zip(tmp, target.elts): out += self._store(e, N(t))
            return out
        if isinstance(target, ast.Subscript):
            t2 = ast.Subscript(self.visit(target.value), self.visit(target.slice), ast.Store())
            return [ast.Assign([t2], val)]
        return [ast.Assign([target], val)]

    def visit_Assign(self, node):
        v = self.visit(node.value)
        if len(node.targets) == 1:
            return self._store(node.targets[0], v)
        t = self.fresh('t')
        out = [ast.Assign([S(t)], v)]
        for tg in node.targets: out += self._store(tg, N(t))
        return out

    def visit_AnnAssign(self, node):
        if node.value is None: return node if not self.fn else ast.Pass()
        return self._store(node.target, self.visit(node.value))

    def visit_AugAssign(self, node):
        v = self.visit(node.value)
        if isinstance(node.target, ast.Attribute):
            t = self.fresh('t')
            op = type(node.op).__name__
            return [ast.Assign([S(t)], self.visit(node.target.value)),
                    ast.Expr(call('_vc_sa', N(t), C(self._mangled(node.target.attr)),
                                  call('_vc_iop', C(op), ast.Attribute(N(t), node.target.attr, ast.Load()), v)))]
        if isinstance(node.target, ast.Subscript):
            a, b = self.fresh('t'), self.fresh('t')
            op = type(node.op).__name__
            return [ast.Assign([S(a)], self.visit(node.target.value)), ast.Assign([S(b)], self.visit(node.target.slice)),
                    ast.Assign([ast.Subscript(N(a), N(b), ast.Store())],
                               call('_vc_iop', C(op), ast.Subscript(N(a), N(b), ast.Load()), v))]
        node.value = v
        if isinstance(node.op, ast.Mod):
            return ast.Assign([S(node.target.id)], call('_vc_mod', N(node.target.id), v))
        return node

    # ---- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args and not node.keywords:
            f = next((x for x in reversed(self.fn) if x.cls), None)
            if f is not None and f.first: return call('super', N('__class__'), N(f.first))
        node.func = self.visit(node.func)
        node.args = [self.visit(a) for a in node.args]
        for a in node.args:
            if isinstance(a, ast.Starred): a.value = call('_vc_star', a.value)
        for k in node.keywords: k.value = self.visit(k.value)
        return node

    def visit_List(self, node):
        if not isinstance(node.ctx, ast.Load): return node
        self.generic_visit(node)
        return call('_vc_list', node) if not any(isinstance(e, ast.Starred) for e in node.elts) else call('_vc_list', node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return call('_vc_set', ast.List(node.elts, ast.Load()))

    def visit_Dict(self, node):
        if any(k is None for k in node.keys): return call('_vc_dictcopy', self.generic_visit(node))
        self.generic_visit(node)
        return call('_vc_dict', ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load()))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod): return call('_vc_mod', node.left, node.right)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not): return call('_vc_not', node.operand)
        return node

    def visit_BoolOp(self, node):
        ok = all(pure(v) for v in node.values[1:])
        self.generic_visit(node)
        if not ok or not self.fn or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom)) for x in ast.walk(node)): return node
        f = '_vc_and' if isinstance(node.op, ast.And) else '_vc_or'
        return call(f, C(ok), *[lam([], v) for v in node.values])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In): return call('_vc_in', node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn): return call('_vc_not', call('_vc_in', node.left, node.comparators[0]))
            return node
        # a op b op c ...  (operands evaluated once, left to right; short circuit kept)
        if not self.fn or not all(pure(c) for c in node.comparators[1:]): return node
        parts = [node.left] + node.comparators
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops): return node
        names = [self.fresh('k') for _ in parts]
        cmps = [lam([], ast.Compare(N(a), [o], [N(b)])) for a, o, b in zip(names, node.ops, names[1:])]
        return call(lam(names, call('_vc_and', C(True), *cmps)), *parts)

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return node

    def _unpack(self, target, body):
        """lambda _t: bind target to _t and evaluate body"""
        if isinstance(target, ast.Name): return lam([target.id], body)
        if isinstance(target, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in target.elts):
            t = self.fresh('t')
            ps, inner = [], body
            for e in reversed(target.elts):
                if isinstance(e, ast.Name): ps.insert(0, e.id)
                else:
                    p = self.fresh('t')
                    ps.insert(0, p)
                    inner = ast.Call(self._unpack(e, inner), [N(p)], [])
            return lam([t], ast.Call(lam(ps, inner), [ast.Starred(call('_vc_up', N(t), C(len(ps))), ast.Load())], []))
        return None

    def _comp(self, node, elt, wrap):
        if not self.fn: return self.generic_visit(node)
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(node)) or any(g.is_async for g in node.generators):
            return self.generic_visit(node)
        its = [self.visit(g.iter) for g in node.generators]
        ifs = [[self.visit(c) for c in g.ifs] for g in node.generators]
        inner = call('_vc_e', elt)
        it0 = self.fresh('it')
        for j in range(len(node.generators) - 1, -1, -1):
            g = node.generators[j]
            for c in reversed(ifs[j]): inner = ast.IfExp(c, inner, C(None))
            u = self._unpack(g.target, inner)
            if u is None: raise NotImplementedError('comprehension target')
            inner = call('_vc_for', N(it0) if j == 0 else its[j], u, C(None))
        return ast.Call(lam([it0], call(wrap, lam(['_vc_e'], inner))), [its[0]], [])

    def visit_ListComp(self, node):
        if not self.fn: return call('_vc_list', self.generic_visit(node))
        return self._comp(node, self.visit(node.elt), '_vc_listcomp')
    def visit_SetComp(self, node):
        if not self.fn: return call('_vc_set', self.generic_visit(node))
        return self._comp(node, self.visit(node.elt), '_vc_setcomp')
    def visit_GeneratorExp(self, node):
        if not self.fn: return self.generic_visit(node)
        return self._comp(node, self.visit(node.elt), '_vc_Gen')
    def visit_DictComp(self, node):
        if not self.fn: return call('_vc_dictcopy', self.generic_visit(node))
        return self._comp(node, ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load()), '_vc_dictcomp')


del Instr.visit_AsyncFunctionDef


def instrument(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Instr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')
