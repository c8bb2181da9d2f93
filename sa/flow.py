"""Generic structured forward dataflow over Python statements (join at merges, loops to a fixpoint)."""
from __future__ import annotations

import ast

MAX_LOOP = 12


class Flow:
    """Subclass and override copy/join/leq and the hooks.  A state of None means unreachable."""

    def __init__(self):
        self.returns = []      # (node, state)
        self.raises = []       # (node, state)
        self._loops = []
        self._tries = []

    # -- domain -------------------------------------------------------------
    def copy(self, s):
        return dict(s)

    def join(self, a, b):
        raise NotImplementedError

    def same(self, a, b):
        return a == b

    def widen(self, old, new):
        return new

    # -- hooks --------------------------------------------------------------
    def expr(self, e, s):
        """Evaluate expression e for effects; may mutate s in place."""

    def assign(self, target, value, s, node):
        """Bind target (an expression) to value expression (may be None)."""

    def augassign(self, node, s):
        self.expr(node.value, s)

    def for_bind(self, target, it, s, node):
        self.assign(target, None, s, node)

    def assume(self, test, truth, s):
        return s

    def delete(self, target, s, node):
        pass

    def define(self, node, s):
        pass

    def handler_bind(self, handler, s):
        pass

    def with_bind(self, item, s, node):
        self.expr(item.context_expr, s)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, None, s, node)

    def on_return(self, node, s):
        pass

    def loop_runs_at_least_once(self, node, s):
        return False

    # -- driver -------------------------------------------------------------
    def jn(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return self.join(a, b)

    def block(self, stmts, s):
        for st in stmts:
            if s is None:
                return None
            if self._tries:
                self._tries[-1].append(self.copy(s))
            s = self.stmt(st, s)
        if s is not None and self._tries:
            self._tries[-1].append(self.copy(s))
        return s

    def cond(self, test, s):
        """-> (state if true, state if false)"""
        if isinstance(test, ast.Constant):
            return (s, None) if test.value else (None, s)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.cond(test.operand, s)
            return f, t
        if isinstance(test, ast.BoolOp):
            is_and = isinstance(test.op, ast.And)
            cur, out = s, None
            for v in test.values:
                if cur is None:
                    break
                t, f = self.cond(v, cur)
                if is_and:
                    out = self.jn(out, f)
                    cur = t
                else:
                    out = self.jn(out, t)
                    cur = f
            return (cur, out) if is_and else (out, cur)
        self.expr(test, s)
        t = self.assume(test, True, self.copy(s))
        f = self.assume(test, False, self.copy(s))
        return t, f

    def stmt(self, st, s):
        if isinstance(st, ast.Expr):
            self.expr(st.value, s)
            return s
        if isinstance(st, ast.Assign):
            self.expr(st.value, s)
            for t in st.targets:
                self.assign(t, st.value, s, st)
            return s
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.expr(st.value, s)
                self.assign(st.target, st.value, s, st)
            return s
        if isinstance(st, ast.AugAssign):
            self.augassign(st, s)
            return s
        if isinstance(st, ast.Return):
            if st.value is not None:
                self.expr(st.value, s)
            self.on_return(st, s)
            self.returns.append((st, s))
            return None
        if isinstance(st, ast.Raise):
            if st.exc is not None:
                self.expr(st.exc, s)
            self.raises.append((st, s))
            if self._tries:
                self._tries[-1].append(self.copy(s))
            return None
        if isinstance(st, ast.Assert):
            t, f = self.cond(st.test, s)
            return t
        if isinstance(st, ast.If):
            t, f = self.cond(st.test, s)
            a = self.block(st.body, t) if t is not None else None
            b = self.block(st.orelse, f) if f is not None else None
            return self.jn(a, b)
        if isinstance(st, ast.While):
            self._loops.append(([], []))
            head = s
            out_false = None
            for _ in range(MAX_LOOP):
                brk, cont = [], []
                self._loops[-1] = (brk, cont)
                t, f = self.cond(st.test, self.copy(head))
                body = self.block(st.body, t) if t is not None else None
                for c in cont:
                    body = self.jn(body, c)
                new = self.jn(self.copy(head), body)
                out_false = f
                if self.same(new, head):
                    break
                head = self.widen(head, new)
            brk = self._loops.pop()[0]
            out = self.block(st.orelse, out_false) if out_false is not None else None
            for b in brk:
                out = self.jn(out, b)
            return out
        if isinstance(st, (ast.For, ast.AsyncFor)):
            self.expr(st.iter, s)
            self._loops.append(([], []))
            once = self.loop_runs_at_least_once(st, s)
            head, exit_state = s, (None if once else self.copy(s))
            allbrk = []
            for _ in range(MAX_LOOP):
                brk, cont = [], []
                self._loops[-1] = (brk, cont)
                b = self.copy(head)
                self.for_bind(st.target, st.iter, b, st)
                body = self.block(st.body, b)
                for c in cont:
                    body = self.jn(body, c)
                allbrk = brk
                exit_state = self.jn(exit_state, self.copy(body) if body is not None else None)
                new = self.jn(self.copy(head), body)
                if self.same(new, head):
                    break
                head = self.widen(head, new)
            self._loops.pop()
            out = self.block(st.orelse, exit_state) if exit_state is not None else None
            for b in allbrk:
                out = self.jn(out, b)
            return out
        if isinstance(st, ast.Break):
            self._loops[-1][0].append(s)
            return None
        if isinstance(st, ast.Continue):
            self._loops[-1][1].append(s)
            return None
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                self.with_bind(it, s, st)
            return self.block(st.body, s)
        if isinstance(st, (ast.Try,)) or type(st).__name__ == "TryStar":
            self._tries.append([self.copy(s)])
            body = self.block(st.body, s)
            pre = self._tries.pop()
            if self._tries:
                self._tries[-1].extend(self.copy(p) for p in pre)
            hstate = None
            for p in pre:
                hstate = self.jn(hstate, self.copy(p))
            out = self.block(st.orelse, body) if body is not None else None
            for h in st.handlers:
                hs = self.copy(hstate) if hstate is not None else None
                if hs is None:
                    continue
                self.handler_bind(h, hs)
                out = self.jn(out, self.block(h.body, hs))
            if st.finalbody:
                if out is None:
                    # the finally block still runs on the exceptional path
                    self.block(st.finalbody, self.copy(hstate))
                else:
                    out = self.block(st.finalbody, out)
            return out
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.define(st, s)
            return s
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            self.define(st, s)
            return s
        if isinstance(st, ast.Delete):
            for t in st.targets:
                self.delete(t, s, st)
            return s
        if isinstance(st, ast.Match):
            self.expr(st.subject, s)
            out = self.copy(s)
            for case in st.cases:
                cs = self.copy(s)
                for n in ast.walk(case.pattern):
                    nm = getattr(n, "name", None)
                    if isinstance(nm, str):
                        self.assign(ast.Name(id=nm, ctx=ast.Store()), None, cs, st)
                if case.guard is not None:
                    self.expr(case.guard, cs)
                out = self.jn(out, self.block(case.body, cs))
            return out
        return s

    def run(self, func_node, init):
        if isinstance(func_node, ast.Lambda):
            self.expr(func_node.body, init)
            return init
        return self.block(func_node.body, init)
