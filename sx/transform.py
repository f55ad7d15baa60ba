"""AST rewriting of the code under test so that Python's control flow and containers see symbolic values."""
import ast
import copy

PURE = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp, ast.IfExp, ast.Attribute,
        ast.Subscript, ast.Tuple, ast.operator, ast.unaryop, ast.cmpop, ast.boolop, ast.expr_context)


def pure(node):
    return all(isinstance(n, PURE) for n in ast.walk(node))


def nolambda(node):
    """Expressions that may not be moved into a lambda."""
    for n in ast.walk(node):
        if isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return True
    return False


def nm(name):
    return ast.Name(id=name, ctx=ast.Load())


def call(name, *args):
    return ast.Call(func=nm(name), args=list(args), keywords=[])


def lam(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                      body=body)


OPS = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne', ast.In: 'in',
       ast.NotIn: 'notin', ast.Is: 'is', ast.IsNot: 'isnot'}


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []          # 'f' / 'c'
        self.names = []
        self.n = 0
        self.noglob = []

    def inclass(self):
        return bool(self.scope) and self.scope[-1] == 'c'

    # ---- scopes
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.scope.append('f')
        self.names.append(node.name)
        self.noglob.append(any(isinstance(n, ast.Global) for n in ast.walk(node)))
        body = self.block(node.body)
        self.noglob.pop()
        mark = ast.Expr(call('_sx_enter_', ast.Constant('%s:%s' % (self.mod, '.'.join(self.names)))))
        k = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)) else 0
        node.body = body[:k] + [mark] + body[k:]
        self.scope.pop()
        self.names.pop()
        node.returns = None
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.Pass()
        return self.visit(ast.Assign(targets=[node.target], value=node.value))

    def visit_ClassDef(self, node):
        node.bases = [self.visit(b) for b in node.bases]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.scope.append('c')
        self.names.append(node.name)
        node.body = self.block(node.body)
        self.scope.pop()
        self.names.pop()
        return node

    def visit_Lambda(self, node):
        self.scope.append('f')
        node = self.generic_visit(node)
        self.scope.pop()
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    # ---- expressions
    def visit_Compare(self, node):
        ok = not nolambda(node) and not self.inclass()
        ops, operands = node.ops, [node.left] + node.comparators
        if len(ops) == 1:
            a, b = self.visit(operands[0]), self.visit(operands[1])
            o = type(ops[0])
            if o in (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Is, ast.IsNot):
                return call('_sx_%s_' % OPS[o], a, b)
            return ast.Compare(left=a, ops=ops, comparators=[b])
        if not ok:
            return self.generic_visit(node)
        items = []
        for o, c in zip(ops, operands[1:]):
            items.append(ast.Tuple(elts=[ast.Constant(OPS[type(o)]), ast.Constant(pure(c)), lam(self.visit(c))],
                                   ctx=ast.Load()))
        return call('_sx_chain_', self.visit(operands[0]), *items)

    def visit_BoolOp(self, node):
        if nolambda(node) or self.inclass():
            return self.generic_visit(node)
        name = '_sx_and_' if isinstance(node.op, ast.And) else '_sx_or_'
        args = [self.visit(node.values[0])]
        for v in node.values[1:]:
            p = pure(v)
            args.append(ast.Tuple(elts=[ast.Constant(p), lam(self.visit(v))], ctx=ast.Load()))
        return call(name, *args)

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return call('_sx_not_', node.operand)
        return node

    def visit_IfExp(self, node):
        if nolambda(node) or self.inclass():
            return self.generic_visit(node)
        p = pure(node.body) and pure(node.orelse)
        return call('_sx_ifexp_', self.visit(node.test), lam(self.visit(node.body)), lam(self.visit(node.orelse)),
                    ast.Constant(p))

    def visit_Subscript(self, node):
        if not isinstance(node.ctx, ast.Load):
            return self.generic_visit(node)
        raw = node.slice
        node = self.generic_visit(node)
        if isinstance(raw, (ast.Slice, ast.Constant)) or \
                (isinstance(raw, ast.UnaryOp) and isinstance(raw.operand, ast.Constant)):
            return node
        if isinstance(raw, ast.Tuple) and any(isinstance(e, ast.Slice) for e in raw.elts):
            return node
        return call('_sx_get_', node.value, node.slice)

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return call('_sx_dict_', ast.List(elts=items, ctx=ast.Load()))

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return call('_sx_mkset_', ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        el = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return call('_sx_dictc_', ast.ListComp(elt=el, generators=node.generators))

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        return call('_sx_mkset_', ast.ListComp(elt=node.elt, generators=node.generators))

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ctx=ast.Load()))
        return call('_sx_fstr_', ast.List(elts=parts, ctx=ast.Load()))

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id == 'type' and len(node.args) == 1 and not node.keywords:
            node = self.generic_visit(node)
            return call('_sx_type_', node.args[0])
        if isinstance(f, ast.Name) and f.id in ('any', 'all') and len(node.args) == 1:
            node = self.generic_visit(node)
            return node
        if isinstance(f, ast.Attribute) and f.attr in ('join', 'format'):
            node = self.generic_visit(node)
            node.func = call('_sx_%s_' % f.attr, node.func.value)
            return node
        return self.generic_visit(node)

    # ---- statements
    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and \
                not isinstance(node.targets[0].slice, (ast.Slice, ast.Constant)):
            t = node.targets[0]
            return ast.Expr(call('_sx_set_', self.visit(node.value), self.visit(t.value), self.visit(t.slice)))
        return self.generic_visit(node)

    def visit_AugAssign(self, node):
        t = node.target
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            return ast.Expr(call('_sx_aug_', self.visit(t.value), self.visit(t.slice),
                                 ast.Constant(type(node.op).__name__), self.visit(node.value)))
        return self.generic_visit(node)

    def visit_Try(self, node):
        node.body = self.block(node.body)
        node.handlers = [self.visit(h) for h in node.handlers]
        node.orelse = self.block(node.orelse)
        node.finalbody = self.block(node.finalbody)
        if node.handlers:
            node.handlers.insert(0, ast.ExceptHandler(type=nm('_sx_Control_'), name=None, body=[ast.Raise()]))
        return node

    def _mergeable(self, stmts, depth=0):
        names = set()
        for s in stmts:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    pure(s.value):
                names.add(s.targets[0].id)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and pure(s.value):
                names.add(s.target.id)
            elif isinstance(s, ast.If) and depth < 2 and pure(s.test):
                a, b = self._mergeable(s.body, depth + 1), self._mergeable(s.orelse, depth + 1)
                if a is None or b is None:
                    return None
                names |= a | b
            else:
                return None
        return names

    def visit_If(self, node):
        names = None
        if self.scope and self.scope[-1] == 'f' and not nolambda(node.test) and not any(self.noglob):
            names = self._mergeable(node.body)
            if names is not None:
                b = self._mergeable(node.orelse)
                names = None if b is None else names | b
        raw_body, raw_else = copy.deepcopy(node.body), copy.deepcopy(node.orelse)
        test = self.visit(node.test)
        body, orelse = self.block(node.body), self.block(node.orelse)
        if not names:
            node.test, node.body, node.orelse = test, body, orelse
            return node
        self.n += 1
        c, m = '_sx_c%d_' % self.n, '_sx_m%d_' % self.n
        vs = sorted(names)
        tgt = lambda: ast.Tuple(elts=[ast.Name(id=v, ctx=ast.Store()) for v in vs], ctx=ast.Store())
        body2, orelse2 = self.block(copy.deepcopy(raw_body)), self.block(copy.deepcopy(raw_else))
        loc = lambda: ast.Call(func=nm('locals'), args=[], keywords=[])
        meth = lambda name, *a: ast.Call(func=ast.Attribute(value=nm(m), attr=name, ctx=ast.Load()),
                                         args=list(a), keywords=[])
        out = [
            ast.Assign(targets=[ast.Name(id=c, ctx=ast.Store())], value=test),
            ast.Assign(targets=[ast.Name(id=m, ctx=ast.Store())],
                       value=ast.IfExp(
                           test=call('_sx_ism_', nm(c)),
                           body=call('_sx_mb_', nm(c), loc(),
                                     ast.Tuple(elts=[ast.Constant(v) for v in vs], ctx=ast.Load())),
                           orelse=ast.Constant(None))),
            ast.If(test=ast.Compare(left=nm(m), ops=[ast.IsNot()], comparators=[ast.Constant(None)]), body=[
                ast.Try(
                    body=body2 + [
                        ast.Expr(meth('then', loc())),
                        ast.Assign(targets=[tgt()], value=meth('start')),
                    ] + orelse2 + [
                        ast.Assign(targets=[tgt()], value=meth('end', loc())),
                    ],
                    handlers=[ast.ExceptHandler(type=nm('_sx_Base_'), name='_sx_exc_', body=[
                        ast.Assign(targets=[tgt()], value=meth('abort', nm('_sx_exc_'))),
                        ast.Assign(targets=[ast.Name(id=m, ctx=ast.Store())], value=ast.Constant(None)),
                    ])], orelse=[], finalbody=[]),
                # after a successful merge, skip the forking version
            ], orelse=[]),
            ast.If(test=ast.Compare(left=nm(m), ops=[ast.Is()], comparators=[ast.Constant(None)]),
                   body=[ast.If(test=nm(c), body=body or [ast.Pass()], orelse=orelse)], orelse=[]),
        ]
        return out


def compile_source(src, filename, modname):
    tree = ast.parse(src, filename)
    t = T(modname)
    tree.body = t.block(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
