"""Loads the code under proof: modules, ASTs by function, call graph, attribute roles."""
import ast
import copy
import importlib
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
PKGS = ("Tokenizer", "Utilities", "F15_Parser")


class FInfo:
    __slots__ = ("node", "cls", "mod", "qual", "file", "refs", "branchy", "loops")


class Repo:
    def __init__(self):
        sys.dont_write_bytecode = True
        for p in (REPO,):
            if p not in sys.path:
                sys.path.insert(0, p)
        sp = "/opt/venv/lib/python3.12/site-packages"
        if sp not in sys.path:
            sys.path.append(sp)
        self.mods = {}
        self.index = {}          # (file, first line) -> FInfo
        self.funcs = {}          # qualified name -> FInfo
        for pkg in PKGS:
            d = os.path.join(REPO, pkg)
            for fn in sorted(os.listdir(d)):
                if fn.endswith(".py") and fn != "__init__.py" and not fn.startswith("test"):
                    name = pkg + "." + fn[:-3]
                    self.mods[name] = importlib.import_module(name)
                    path = os.path.join(d, fn)
                    with open(path) as f:
                        tree = ast.parse(f.read(), path)
                    self._scan(tree, None, self.mods[name], os.path.realpath(path), "")
        import F15_Parser.F15Parse as fp
        self.ParseF15 = fp.ParseF15
        self.Ers = importlib.import_module("F15_Parser.ExtractedRouteSequence").ExtractedRouteSequence
        self.Rec = importlib.import_module("F15_Parser.ExtractedRouteRecord").ExtractedRouteRecord
        self.Token = importlib.import_module("Tokenizer.Token").Token
        self.Tokens = importlib.import_module("Tokenizer.Tokens").Tokens
        self.Tokenize = importlib.import_module("Tokenizer.Tokenize").Tokenize
        sd = importlib.import_module("F15_Parser.F15TokenSyntaxDescriptions")
        self.Base, self.Sub = sd.TokenBaseType, sd.TokenSubType
        self.Syntax = sd.F15TokenSyntaxDefinition
        self.Errors = importlib.import_module("F15_Parser.ErrorMessageDefinitions").ErrorMessages
        self.base = {b.name[4:]: int(b) for b in self.Base}
        self.sub = {s.name[7:]: int(s) for s in self.Sub}
        self.basename = {v: k for k, v in self.base.items()}
        self.subname = {v: k for k, v in self.sub.items()}
        self._graph()
        self._roles()

    def _scan(self, node, cls, mod, path, qual):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.ClassDef):
                self._scan(n, n.name, mod, path, qual + n.name + ".")
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FInfo()
                fi.node, fi.cls, fi.mod, fi.qual, fi.file = n, cls, mod, mod.__name__ + "." + qual + n.name, path
                line = min([n.lineno] + [d.lineno for d in n.decorator_list])
                fi.refs = set()
                fi.branchy = fi.loops = False
                dyn = any(isinstance(x, ast.Name) and x.id == "getattr" for x in ast.walk(n))
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute):
                        if isinstance(x.ctx, ast.Load):
                            own = isinstance(x.value, ast.Name) and x.value.id in ("self", "cls", cls)
                            fi.refs.add((("own" if own else "any"), self.mangle(x.attr, cls)))
                    elif isinstance(x, ast.Name):
                        fi.refs.add(("fn", x.id))
                    elif dyn and isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                        fi.refs.add(("any", x.value))
                    elif isinstance(x, (ast.If, ast.Match, ast.While, ast.For, ast.IfExp, ast.BoolOp, ast.Try)):
                        fi.branchy = True
                    if isinstance(x, (ast.While, ast.For, ast.comprehension)):
                        fi.loops = True
                self.index[(path, line)] = fi
                self.funcs[fi.qual] = fi
                self._scan(n, cls, mod, path, qual + n.name + ".<locals>.")
            elif not isinstance(n, (ast.expr, ast.Lambda)):
                self._scan(n, cls, mod, path, qual)

    @staticmethod
    def mangle(name, cls):
        if cls and name.startswith("__") and not name.endswith("__"):
            return "_" + cls.lstrip("_") + name
        return name

    def finfo(self, f):
        """FInfo of a real function object defined in the repository, else None"""
        c = getattr(f, "__code__", None)
        if c is None:
            return None
        return self.index.get((os.path.realpath(c.co_filename), c.co_firstlineno))

    def _graph(self):
        byname = {}
        for q, fi in self.funcs.items():
            byname.setdefault(self.mangle(fi.node.name, fi.cls), []).append(q)
            if fi.node.name == "__init__" and fi.cls:
                byname.setdefault(fi.cls, []).append(q)
        def resolve(fi, how, r):
            ts = byname.get(r, ())
            if how == "fn":
                return [t for t in ts if self.funcs[t].cls is None or self.funcs[t].node.name == "__init__"
                        or "<locals>" in t]
            if how == "own":
                same = [t for t in ts if self.funcs[t].cls == fi.cls]
                inh = getattr(getattr(fi.mod, fi.cls or "", None), "__mro__", ())
                names = {k.__name__ for k in inh}
                return same or [t for t in ts if self.funcs[t].cls in names]
            return ts
        succ = {q: sorted({t for h, r in fi.refs for t in resolve(fi, h, r)}) for q, fi in self.funcs.items()}
        self.succ = succ
        # Tarjan
        idx, low, on, st, self.scc = {}, {}, set(), [], {}
        cnt = [0]
        comps = []

        def go(v):
            work = [(v, iter(succ[v]))]
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            st.append(v)
            on.add(v)
            while work:
                u, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(succ[w])))
                        adv = True
                        break
                    if w in on:
                        low[u] = min(low[u], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == u:
                            break
                    comps.append(comp)
        for q in sorted(succ):
            if q not in idx:
                go(q)
        self.rec = set()
        for c in comps:
            if len(c) > 1 or c[0] in succ[c[0]]:
                self.rec.update(c)
        # functions that can reach a recursive one, and transitively branching ones
        self.reach = set(self.rec)
        ch = True
        while ch:
            ch = False
            for q in succ:
                if q not in self.reach and any(t in self.reach for t in succ[q]):
                    self.reach.add(q)
                    ch = True
        # a function with a while loop that calls the core is verified like one of the core
        import loops
        self.rec |= {q for q in self.reach if loops.has(self.funcs[q].node)}
        self.branchy = {q for q, fi in self.funcs.items() if fi.branchy}
        ch = True
        while ch:
            ch = False
            for q in succ:
                if q not in self.branchy and any(t in self.branchy for t in succ[q]):
                    self.branchy.add(q)
                    ch = True

    # --- which plain attribute stands behind which public getter
    def _roles(self):
        def attrs(obj):
            out = dict(obj.__dict__)
            for k in type(obj).__mro__[:-1]:
                for a, v in k.__dict__.items():
                    if not a.startswith("__") and not callable(v) and not isinstance(v, (staticmethod, classmethod, property)):
                        out.setdefault(a, v)
            return out

        def find(make, getters):
            m = {}
            base = make()
            names = attrs(base)
            for a in names:
                o = make()
                s = type("S", (), {})()
                try:
                    setattr(o, a, s)
                except Exception:                                # noqa: BLE001
                    continue
                for role, g in getters.items():
                    try:
                        if getattr(o, g)() is s:
                            m.setdefault(role, a)
                    except Exception:                            # noqa: BLE001
                        pass
            return m, names
        self.tok_attr, tn = find(lambda: self.Token("A", 0, 1), {
            "text": "get_token_string", "start": "get_token_start_index", "end": "get_token_end_index",
            "base": "get_token_base_type", "sub": "get_token_sub_type"})
        self.tok_role = {a: r for r, a in self.tok_attr.items()}
        self.tok_attrs = tn
        self.rec_attr, self.rec_defaults = find(lambda: self.Rec("A", 0, 1, self.Base(0), self.Sub(0)), {
            "name": "get_name", "start": "get_start_index", "end": "get_end_index", "base": "get_base_type",
            "sub": "get_sub_type", "alt": "get_altitude", "alt_si": "get_altitude_si", "speed": "get_speed",
            "speed_si": "get_speed_si", "brk": "get_break_text", "rules": "get_flight_rules",
            "err": "get_error_text", "stay": "get_stay_time", "cto": "get_altitude_cruise_to",
            "cto_si": "get_altitude_cruise_to_si", "lat": "get_latitude", "lon": "get_longitude",
            "bearing": "get_bearing", "dist": "get_distance", "valid": "is_lat_long_valid"})
        self.rec_role = {a: r for r, a in self.rec_attr.items()}
        self.ers_attr, self.ers_defaults = find(self.Ers, {
            "records": "get_all_elements", "errors": "get_all_errors", "derived": "get_derived_flight_rules"})
        self.toks_attr, self.toks_defaults = find(self.Tokens, {"list": "get_tokens"})
        # the cursor: the attribute that get_next_token advances
        t = self.Tokens()
        before = dict(attrs(t))
        t.get_next_token()
        after = dict(attrs(t))
        ch = [a for a in after if a in before and before[a] != after[a]]
        if len(ch) == 1:
            self.toks_attr["cursor"] = ch[0]
