"""Program model: modules, classes, MRO, properties, name resolution.
Stdlib only; reads the working tree of the repository on every run."""
import ast, os, warnings

REPO = os.environ.get('SA_REPO', '/repo')
warnings.simplefilter('ignore')

SKIP_DIRS = {'tests', 'sandbox', '__pycache__', '.git', 'build', 'doc', 'examples'}


class ModelError(Exception):
    pass


class Func(object):
    def __init__(self, node, module, cls=None, outer=None):
        self.node, self.module, self.cls, self.outer = node, module, cls, outer
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        decs = [d for d in getattr(node, 'decorator_list', [])]
        self.decorators = [dec_name(d) for d in decs]
        self.is_property = any(d in ('property', 'cached_property') for d in self.decorators)
        self.is_setter = any(d.endswith('.setter') for d in self.decorators)
        self.is_classmethod = 'classmethod' in self.decorators
        self.is_static = 'staticmethod' in self.decorators

    @property
    def qual(self):
        base = self.module.name
        if self.outer is not None:
            return self.outer.qual + '.' + self.name
        if self.cls is not None:
            return '%s.%s.%s' % (base, self.cls.name, self.name)
        return '%s.%s' % (base, self.name)

    @property
    def where(self):
        return '%s:%d' % (self.module.relpath, self.node.lineno)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return '<Func %s>' % self.qual


def dec_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Name):
        return d.id
    if isinstance(d, ast.Attribute):
        return dec_name(d.value) + '.' + d.attr
    return '?'


class Class(object):
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods = {}
        self.props = {}        # name -> (getter Func or None, setter Func or None)
        self.attrs = {}        # class-level assigned name -> ast expr
        self.bases = []        # Class or external dotted str
        self._mro = None

    @property
    def qual(self):
        return self.module.name + '.' + self.name

    def __repr__(self):
        return '<Class %s>' % self.qual

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def lookup(self, name):
        """(kind, value, owner): kind in method, prop, attr"""
        for c in self.mro():
            if name in c.props:
                return 'prop', c.props[name], c
            if name in c.methods:
                return 'method', c.methods[name], c
            if name in c.attrs:
                return 'attr', c.attrs[name], c
        return None

    def method(self, name):
        r = self.lookup(name)
        return r[1] if r and r[0] == 'method' else None

    def is_sub(self, other):
        return other in self.mro()

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if isinstance(b, str)]
        return out


def _c3(c):
    seqs = [[c]]
    parents = [b for b in c.bases if isinstance(b, Class)]
    seqs += [list(p.mro()) for p in parents] + [list(parents)]
    out = []
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            h = seqs[0][0]
        out.append(h)
        for s in seqs:
            if s and s[0] is h:
                del s[0]


class Module(object):
    def __init__(self, name, path, relpath, tree, is_pkg, src):
        self.name, self.path, self.relpath, self.tree, self.is_pkg, self.src = name, path, relpath, tree, is_pkg, src
        self.imports = {}     # local -> ('mod', dotted) | ('sym', dotted module, name)
        self.funcs = {}
        self.classes = {}
        self.assigns = {}     # name -> list of ast exprs (module level)
        self.bound = set()    # all names bound at module level
        self.star = []

    def package(self):
        return self.name if self.is_pkg else self.name.rsplit('.', 1)[0]


class Model(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.cython = {}
        self._load()
        self._link()

    def _load(self):
        root = os.path.join(self.repo, 'regreg')
        if not os.path.isdir(root):
            raise ModelError('no regreg package at %s' % root)
        for d, subs, files in os.walk(root):
            subs[:] = sorted(s for s in subs if s not in SKIP_DIRS)
            for f in sorted(files):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                if f.endswith('.py'):
                    src = open(p, encoding='utf-8').read()
                    tree = ast.parse(src, p)
                    mod = rel[:-3].replace(os.sep, '.')
                    is_pkg = False
                    if mod.endswith('.__init__'):
                        mod = mod[:-9]
                        is_pkg = True
                    self.modules[mod] = Module(mod, p, rel, tree, is_pkg, src)
                elif f.endswith('.pyx'):
                    self.cython[rel[:-4].replace(os.sep, '.')] = p
        for m in self.modules.values():
            self._scan(m, m.tree.body)

    def _scan(self, m, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    local = a.asname or a.name.split('.')[0]
                    m.imports[local] = ('mod', a.name if a.asname else a.name.split('.')[0])
                    m.bound.add(local)
            elif isinstance(st, ast.ImportFrom):
                base = self._rel(m, st)
                for a in st.names:
                    if a.name == '*':
                        m.star.append(base)
                        continue
                    m.imports[a.asname or a.name] = ('sym', base, a.name)
                    m.bound.add(a.asname or a.name)
            elif isinstance(st, ast.FunctionDef):
                m.funcs[st.name] = Func(st, m)
                m.bound.add(st.name)
            elif isinstance(st, ast.ClassDef):
                m.classes[st.name] = self._class(st, m)
                m.bound.add(st.name)
            elif isinstance(st, (ast.If, ast.Try, ast.For, ast.With, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    self._scan(m, getattr(st, f, []) or [])
                for h in getattr(st, 'handlers', []):
                    self._scan(m, h.body)
                if isinstance(st, ast.For):
                    for n in ast.walk(st.target):
                        if isinstance(n, ast.Name):
                            m.bound.add(n.id)
            else:
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        m.bound.add(n.id)
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.assigns.setdefault(t.id, []).append(st.value)

    def _rel(self, m, st):
        if not st.level:
            return st.module
        pkg = m.package().split('.')
        if st.level > 1:
            pkg = pkg[:-(st.level - 1)]
        return '.'.join(pkg + ([st.module] if st.module else []))

    def _class(self, node, m):
        c = Class(node, m)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = Func(st, m, c)
                if f.is_property:
                    c.props[st.name] = (f, c.props.get(st.name, (None, None))[1])
                elif f.is_setter:
                    c.props[st.name] = (c.props.get(st.name, (None, None))[0], f)
                else:
                    c.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        v = st.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                            args = list(v.args)
                            kw = {k.arg: k.value for k in v.keywords}
                            g = args[0] if args else kw.get('fget')
                            s = args[1] if len(args) > 1 else kw.get('fset')
                            c.props[t.id] = (self._pf(g, c, m), self._pf(s, c, m))
                        else:
                            c.attrs[t.id] = v
                            # rebinding of a method under another name
                            if isinstance(v, ast.Name) and v.id in c.methods:
                                c.methods[t.id] = c.methods[v.id]
            elif isinstance(st, ast.ClassDef):
                c.attrs[st.name] = st
        return c

    def _pf(self, e, c, m):
        if e is None or (isinstance(e, ast.Constant) and e.value is None):
            return None
        if isinstance(e, ast.Name):
            return c.methods.get(e.id)
        if isinstance(e, ast.Lambda):
            return Func(e, m, c)
        return None

    def _link(self):
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    if isinstance(r, Class):
                        c.bases.append(r)
                    elif isinstance(b, ast.Name) and b.id == 'object':
                        pass
                    else:
                        c.bases.append(ast.unparse(b))

    # ---- resolution
    def resolve(self, m, name, _seen=None):
        """resolve module-level name -> Class | Func | Module | ('ext', dotted) | ('var', Module, name) | None"""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        if name in m.classes:
            return m.classes[name]
        if name in m.funcs:
            return m.funcs[name]
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'mod':
                if imp[1] in self.modules:
                    return self.modules[imp[1]]
                return ('ext', imp[1])
            _, base, nm = imp
            if base in self.modules:
                if base + '.' + nm in self.modules and nm not in self.modules[base].bound:
                    return self.modules[base + '.' + nm]
                r = self.resolve(self.modules[base], nm, _seen)
                if r is None and base + '.' + nm in self.modules:
                    return self.modules[base + '.' + nm]
                return r
            if base in self.cython:
                return ('cy', base, nm)
            return ('ext', base + '.' + nm)
        for base in m.star:
            if base in self.modules:
                r = self.resolve(self.modules[base], name, _seen)
                if r is not None:
                    return r
        if name in m.bound:
            return ('var', m, name)
        if m.is_pkg and m.name + '.' + name in self.modules:
            return self.modules[m.name + '.' + name]
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Module):
                return self.resolve(b, e.attr)
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            if isinstance(b, Class):
                r = b.lookup(e.attr)
                return r[1] if r and r[0] == 'method' else None
        return None

    def class_maps(self):
        """module-level dictionaries from classes to classes, filled by top-level
        assignments, loops over literal sequences and .update calls in any module:
        {qualified name of the dictionary: {Class: Class}}"""
        if getattr(self, '_class_maps', None) is not None:
            return self._class_maps
        out = {}

        def qual(m, e):
            r = self.resolve_expr(m, e)
            if isinstance(r, tuple) and r[0] == 'var':
                return r[1].name + '.' + r[2]
            return None

        def cls(m, env, e):
            if isinstance(e, ast.Name) and e.id in env:
                return env[e.id]
            r = self.resolve_expr(m, e)
            return r if isinstance(r, Class) else None

        def fill(m, env, d, node):
            if isinstance(node, ast.Dict):
                for k, v in zip(node.keys, node.values):
                    put(m, env, d, k, v)

        def put(m, env, d, k, v):
            a, b = cls(m, env, k), cls(m, env, v)
            if a is not None and b is not None:
                out.setdefault(d, {})[a] = b

        def stmts(m, env, body):
            for s in body:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Subscript):
                            d = qual(m, t.value)
                            if d:
                                put(m, env, d, t.slice, s.value)
                        elif isinstance(t, ast.Name) and isinstance(s.value, ast.Dict):
                            fill(m, env, m.name + '.' + t.id, s.value)
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                        and s.value.func.attr == 'update' and s.value.args:
                    d = qual(m, s.value.func.value)
                    if d:
                        fill(m, env, d, s.value.args[0])
                elif isinstance(s, ast.For) and isinstance(s.iter, (ast.List, ast.Tuple)):
                    for e in s.iter.elts:
                        new = dict(env)
                        if isinstance(s.target, ast.Name):
                            c = cls(m, env, e)
                            if c is not None:
                                new[s.target.id] = c
                        elif isinstance(s.target, (ast.Tuple, ast.List)) and isinstance(e, (ast.Tuple, ast.List)) and \
                                len(e.elts) == len(s.target.elts):
                            for t, x in zip(s.target.elts, e.elts):
                                c = cls(m, env, x)
                                if isinstance(t, ast.Name) and c is not None:
                                    new[t.id] = c
                        stmts(m, new, s.body)
        for mn in sorted(self.modules):
            m = self.modules[mn]
            stmts(m, {}, m.tree.body)
        self._class_maps = out
        return out

    def all_classes(self):
        for mn in sorted(self.modules):
            for cn in sorted(self.modules[mn].classes):
                yield self.modules[mn].classes[cn]

    def all_funcs(self, nested=True):
        for mn in sorted(self.modules):
            m = self.modules[mn]
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                seen = set()
                for st in c.node.body:
                    if isinstance(st, ast.FunctionDef):
                        yield Func(st, m, c)

    def cls(self, qual):
        mod, name = qual.rsplit('.', 1)
        if mod in self.modules and name in self.modules[mod].classes:
            return self.modules[mod].classes[name]
        return None

    def find_class(self, name):
        out = [c for c in self.all_classes() if c.name == name]
        return out

    def reach(self, c, f):
        """f and the functions it reaches through self.method and names of its module, for an instance of c"""
        out, todo = [], [f]
        while todo:
            g = todo.pop()
            if g is None or g in out:
                continue
            out.append(g)
            for n in ast.walk(g.node):
                h = None
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and c is not None:
                    h = c.method(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    h = self.resolve(g.module, n.func.id)
                if isinstance(h, Func):
                    todo.append(h)
        return out

    def subclasses(self, c):
        return [k for k in self.all_classes() if k is not c and c in k.mro()]


if __name__ == '__main__':
    M = Model()
    print(len(M.modules), sum(1 for _ in M.all_classes()), sum(1 for _ in M.all_funcs()))
    for c in M.all_classes():
        print(c.qual, [b if isinstance(b, str) else b.name for b in c.bases], sorted(c.props))
