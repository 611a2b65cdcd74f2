"""match statements rewritten as chains of if statements"""
import ast


class _No(Exception):
    pass


class Match(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_Match(self, s):
        self.generic_visit(s)
        self.n += 1
        tmp = '_match_%d' % self.n
        try:
            out = None
            for case in reversed(s.cases):
                test = self.test(case.pattern, ast.Name(tmp, ast.Load()))
                if case.guard is not None:
                    test = test + [case.guard]
                if not test:
                    out = list(case.body)
                    continue
                c = test[0] if len(test) == 1 else ast.BoolOp(ast.And(), test)
                out = [ast.If(c, list(case.body), out or [])]
        except _No:
            return s
        body = [ast.Assign([ast.Name(tmp, ast.Store())], s.subject)] + (out or [])
        for b in body:
            for x in ast.walk(b):
                if 'lineno' in x._attributes and not hasattr(x, 'lineno'):
                    x.lineno, x.end_lineno = s.lineno, s.lineno
                    x.col_offset, x.end_col_offset = s.col_offset, s.col_offset
        return body

    def visit_With(self, s):
        """with suppress(E): body  ->  try: body; except E: pass"""
        self.generic_visit(s)
        it = s.items[0]
        f = it.context_expr.func if isinstance(it.context_expr, ast.Call) else None
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if name != 'suppress' or it.optional_vars is not None or it.context_expr.keywords:
            return s
        body = s.body if len(s.items) == 1 else [ast.copy_location(ast.With(s.items[1:], s.body), s)]
        args = it.context_expr.args
        t = args[0] if len(args) == 1 else ast.Tuple(list(args), ast.Load())
        h = ast.ExceptHandler(t, None, [ast.Pass()])
        return ast.fix_missing_locations(ast.copy_location(ast.Try(body, [h], [], []), s))

    def bind(self, name, e):
        # (name := e, True)[1]
        return ast.Subscript(ast.Tuple([ast.NamedExpr(ast.Name(name, ast.Store()), e), ast.Constant(True)],
                                       ast.Load()), ast.Constant(1), ast.Load())

    def test(self, p, e):
        """list of expressions which must all be true"""
        if isinstance(p, ast.MatchValue):
            return [ast.Compare(e, [ast.Eq()], [p.value])]
        if isinstance(p, ast.MatchSingleton):
            return [ast.Compare(e, [ast.Is()], [ast.Constant(p.value)])]
        if isinstance(p, ast.MatchAs):
            out = self.test(p.pattern, e) if p.pattern is not None else []
            if p.name:
                out = out + [self.bind(p.name, e)]
            return out
        if isinstance(p, ast.MatchOr):
            alts = []
            for q in p.patterns:
                t = self.test(q, e)
                if not t:
                    return []
                alts.append(t[0] if len(t) == 1 else ast.BoolOp(ast.And(), t))
            return [ast.BoolOp(ast.Or(), alts)]
        if isinstance(p, ast.MatchSequence):
            n = len(p.patterns)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            out = [ast.Call(ast.Name('isinstance', ast.Load()), [e, ast.Tuple(
                [ast.Name('list', ast.Load()), ast.Name('tuple', ast.Load())], ast.Load())], [])]
            ln = ast.Call(ast.Name('len', ast.Load()), [e], [])
            out.append(ast.Compare(ln, [ast.GtE() if star else ast.Eq()],
                                   [ast.Constant(n - 1 if star else n)]))
            for i, q in enumerate(p.patterns):
                if isinstance(q, ast.MatchStar):
                    if q.name:
                        hi = n - 1 - i
                        sl = ast.Slice(ast.Constant(i), ast.UnaryOp(ast.USub(), ast.Constant(hi)) if hi else None)
                        out.append(self.bind(q.name, ast.Call(ast.Name('list', ast.Load()), [
                            ast.Subscript(e, sl, ast.Load())], [])))
                    continue
                k = ast.Constant(i) if not star or i < star[0] else \
                    ast.UnaryOp(ast.USub(), ast.Constant(n - i))
                out += self.test(q, ast.Subscript(e, k, ast.Load()))
            return out
        if isinstance(p, ast.MatchMapping) and p.rest is None:
            out = [ast.Call(ast.Name('isinstance', ast.Load()), [e, ast.Name('dict', ast.Load())], [])]
            for k, q in zip(p.keys, p.patterns):
                out.append(ast.Compare(k, [ast.In()], [e]))
                out += self.test(q, ast.Subscript(e, k, ast.Load()))
            return out
        if isinstance(p, ast.MatchClass) and isinstance(p.cls, ast.Name):
            out = [ast.Call(ast.Name('isinstance', ast.Load()), [e, p.cls], [])]
            if p.patterns:
                if p.cls.id in ('int', 'float', 'str', 'list', 'dict', 'tuple', 'bool', 'set') and \
                        len(p.patterns) == 1:
                    out += self.test(p.patterns[0], e)
                else:
                    raise _No()
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                out += self.test(q, ast.Attribute(e, a, ast.Load()))
            return out
        raise _No()


def desugar(tree):
    if any(isinstance(x, (ast.Match, ast.With)) for x in ast.walk(tree)):
        return ast.fix_missing_locations(Match().visit(tree))
    return tree
