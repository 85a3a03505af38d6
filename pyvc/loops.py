"""While loops of the core as functions: what follows a loop, and which local variables it needs."""
import ast


def whiles(fn):
    return [n for n in ast.walk(fn) if isinstance(n, ast.While)]


def has(fn):
    return bool(whiles(fn))


def index(fn, s):
    return next(i for i, n in enumerate(whiles(fn)) if n is s)


def at(fn, i):
    return whiles(fn)[i]


def continuation(body, s):
    """the statements executed after loop s of the function, None when it is inside another loop, a try, ..."""
    for i, b in enumerate(body):
        if b is s:
            return body[i + 1:]
        if isinstance(b, ast.If):
            for part in (b.body, b.orelse):
                r = continuation(part, s)
                if r is not None:
                    return r + body[i + 1:]
    return None


def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)} | {
        x.target.id for x in ast.walk(n) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}


def live_in(body, out=frozenset()):
    """names that may be read before they are assigned"""
    live = set(out)
    for s in reversed(body):
        if isinstance(s, ast.Return):
            live = loads(s)
        elif isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
            live = (live - {t.id for t in s.targets}) | loads(s.value)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            live = (live - {s.target.id}) | loads(s.value)
        elif isinstance(s, ast.If) and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
            live = loads(s.test) | live_in(s.body, live) | live_in(s.orelse, live)
        elif isinstance(s, ast.While) and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
            end = loads(s.test) | live_in(s.orelse, live)
            head = end | live_in(s.body, end)
            while True:
                n = head | live_in(s.body, head)
                if n == head:
                    break
                head = n
            live = head
        else:
            live = live | loads(s)
    return live
