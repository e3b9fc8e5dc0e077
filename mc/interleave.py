"""All interleavings of parallel loops.

The source of a module is rewritten so that the iterations of each loop over prange() are coroutines,
which give up control before every access to data shared between the iterations. Reading and
writing in x[i] += y are separate accesses, as they are in compiled code. A scheduler then
enumerates the orders and the interleavings with a bounded number of preemptions.

Variables assigned in the loop are private, those only accumulated (s += x) are reductions.
"""

import ast
import importlib
import inspect
import types

MISSING = object()


def is_prange(node):
    if not (isinstance(node, ast.For) and isinstance(node.iter, ast.Call)):
        return False
    f = node.iter.func
    return (isinstance(f, ast.Name) and f.id == "prange") or (isinstance(f, ast.Attribute) and f.attr == "prange")


def names_stored(stmts):
    """Names assigned, names only accumulated."""
    assigned, accumulated = set(), set()
    for stmt in stmts:
        for node in ast.walk(stmt):
            if isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name):
                accumulated.add(node.target.id)
            elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
                assigned.add(node.id)
    # The targets of accumulation are also Store names
    plain = set()
    for stmt in stmts:
        for node in ast.walk(stmt):
            if isinstance(node, (ast.Assign, ast.AnnAssign, ast.For, ast.NamedExpr, ast.comprehension, ast.withitem)):
                targets = (
                    node.targets
                    if isinstance(node, ast.Assign)
                    else [node.optional_vars] if isinstance(node, ast.withitem) else [node.target]
                )
                for t in targets:
                    if t is not None:
                        plain |= {
                            n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)
                        }
    return plain, accumulated - plain


def base_name(node):
    while isinstance(node, (ast.Subscript, ast.Attribute)):
        node = node.value
    return node.id if isinstance(node, ast.Name) else None


class Loop:
    """Turns the body of a loop into a generator function."""

    def __init__(self, node, number, globals_):
        self.node = node
        self.number = number
        self.private, self.reduced = names_stored(node.body)
        self.index = node.target.id
        # Shared data written in the loop
        self.written = set(self.reduced)
        for stmt in node.body:
            for n in ast.walk(stmt):
                if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                    self.written.add(base_name(n))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    self.written.add(base_name(n.func))
                # Data may be changed by called functions
                if isinstance(n, ast.Call):
                    for a in list(n.args) + [k.value for k in n.keywords]:
                        if isinstance(a, ast.Name) and a.id not in self.private:
                            self.written.add(a.id)
        self.written -= globals_ | self.private | {None}

    def shared(self, node):
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in self.written and n.id != self.index:
                return True
        return False

    def pause(self, like):
        return ast.copy_location(ast.Expr(ast.Yield(None)), like)

    def block(self, stmts, top):
        out = []
        for s in stmts:
            out += self.statement(s, top)
        return out

    def statement(self, s, top):
        if isinstance(s, ast.Continue) and top:
            return [ast.Return(None)]
        if isinstance(s, ast.If):
            pause = [self.pause(s)] if self.shared(s.test) else []
            s.body = self.block(s.body, top)
            s.orelse = self.block(s.orelse, top)
            return pause + [s]
        if isinstance(s, ast.While) and not s.orelse:
            test = ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])
            pause = [self.pause(s)] if self.shared(s.test) else []
            return [ast.While(ast.Constant(True), pause + [test] + self.block(s.body, False), [])]
        if isinstance(s, ast.For):
            pause = [self.pause(s)] if self.shared(s.iter) else []
            s.body = self.block(s.body, False)
            return pause + [s]
        if isinstance(s, ast.AugAssign) and self.shared(s):
            temp = f"_value_{self.number}"
            load = ast.parse(ast.unparse(s.target), mode="eval").body
            value = ast.BinOp(ast.Name(temp, ast.Load()), s.op, s.value)
            return [
                self.pause(s),
                ast.Assign([ast.Name(temp, ast.Store())], load),
                self.pause(s),
                ast.Assign([s.target], value),
            ]
        if self.shared(s):
            # The value is computed before it is stored
            if (
                isinstance(s, ast.Assign)
                and len(s.targets) == 1
                and isinstance(s.targets[0], ast.Subscript)
                and self.shared(s.value)
            ):
                temp = f"_value_{self.number}"
                return [
                    self.pause(s),
                    ast.Assign([ast.Name(temp, ast.Store())], s.value),
                    self.pause(s),
                    ast.Assign(s.targets, ast.Name(temp, ast.Load())),
                ]
            return [self.pause(s), s]
        return [s]

    def build(self):
        name = f"_body_{self.number}"
        outer = f"_outer_{self.number}"
        private = sorted(self.private - {self.index})
        body = self.block(self.node.body, True)
        if self.reduced:
            body.insert(0, ast.Nonlocal(sorted(self.reduced)))
        # Unreachable, makes it a generator also if nothing is shared
        body.append(ast.If(ast.Constant(False), [ast.Expr(ast.Yield(None))], []))
        # Private variables start with the value they have outside, if any
        start = []
        for p in private:
            start.append(ast.parse(f"if {outer}.get('{p}', _missing) is not _missing: {p} = {outer}['{p}']").body[0])
        fn = ast.FunctionDef(
            name=name,
            args=ast.arguments(
                posonlyargs=[], args=[ast.arg(self.index)], kwonlyargs=[], kw_defaults=[], defaults=[]
            ),
            body=(body[:1] if self.reduced else []) + start + (body[1:] if self.reduced else body),
            decorator_list=[],
        )
        snapshot = ast.parse(f"{outer} = dict(locals())").body[0]
        call = ast.Expr(ast.Call(ast.Name("_schedule", ast.Load()), [ast.Name(name, ast.Load())] + self.node.iter.args, []))
        return [snapshot, fn, call]


class Rewriter(ast.NodeTransformer):
    def __init__(self, globals_):
        self.count = 0
        self.globals_ = globals_

    def visit_For(self, node):
        if is_prange(node) and isinstance(node.target, ast.Name):
            self.count += 1
            return Loop(node, self.count, self.globals_).build()
        return self.generic_visit(node)


class NoLoops(Exception):
    pass


def rewrite(module_name, scheduler):
    """Namespace of the module with scheduled loops."""
    module = importlib.import_module(module_name)
    tree = ast.parse(inspect.getsource(module))
    rewriter = Rewriter(set(vars(module)))
    tree = rewriter.visit(tree)
    if rewriter.count == 0:
        raise NoLoops(module_name)
    ast.fix_missing_locations(tree)
    new = types.ModuleType(module_name)
    new.__package__ = module.__package__
    new.__file__ = module.__file__
    new.__dict__["_missing"] = MISSING
    new.__dict__["_schedule"] = scheduler
    exec(compile(tree, module.__file__, "exec"), new.__dict__)
    return new


class Scheduler:
    """Runs the iterations of loops following a list of choices, the remaining choices are the first ones."""

    def __init__(self):
        self.begin(())

    def begin(self, prefix):
        self.prefix = prefix
        self.points = []  # (number of options, index chosen, preemption possible)
        self.switches = 0

    def choose(self, n, preemption):
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.points.append((n, c, preemption))
        return c

    def __call__(self, body, *args):
        todo = [(k, body(k)) for k in range(*args)]
        current = None
        while todo:
            if len(todo) == 1:
                current = todo[0]
            elif current is None:
                current = todo[self.choose(len(todo), False)]
            else:
                # The running one first
                others = [t for t in todo if t is not current]
                c = self.choose(len(todo), True)
                if c:
                    current = others[c - 1]
                    self.switches += 1
            try:
                next(current[1])
            except StopIteration:
                todo.remove(current)
                current = None


def schedules(run, scheduler, preemptions):
    """Calls run() for every schedule with at most a number of preemptions. Yields results."""
    stack = [((), 0)]
    while stack:
        prefix, used = stack.pop()
        scheduler.begin(prefix)
        yield run()
        points = scheduler.points
        for i in range(len(prefix), len(points)):
            n, _, preempt = points[i]
            cost = used + (1 if preempt else 0)
            if cost > preemptions:
                continue
            chosen = tuple(p[1] for p in points[:i])
            for c in range(1, n):
                stack.append((chosen + (c,), cost))
