"""Counted loops of compiled kernels as whole-vector terms.

C functions are read from clang's syntax tree.  A loop over 0..n-1 whose body reads arrays at the loop index, at
entries of index arrays, and carries additive accumulators is summarised by what it leaves in each array:
   elementwise      X[p] = e(p) for every p                       -> a vector term
   accumulated      X[w(k)] = sum over j <= k of e(o[r(j)])       -> prefix or suffix sums in the order o
Reading accumulated arrays at entries of a rank array gives the linear operator L(rankop(form, o, rank), e)."""
import json, os, subprocess
from . import terms as T
from .terms import mk, num, sym, const, ZERO, ONE

I, N = sym('k_index'), sym('k_count')


class Odd(Exception):
    """a construct the summary does not cover"""


class Partial(Odd):
    """a loop that leaves out some positions"""


# ------------------------------------------------------------------ clang
def parse(path):
    """name -> (params [(name, type)], body, line table)"""
    r = subprocess.run(['clang', '-fsyntax-only', '-Xclang', '-ast-dump=json', path], capture_output=True, text=True, timeout=120,
                       cwd=os.path.dirname(path))
    d = json.loads(r.stdout)
    out = {}
    for n in d.get('inner', []):
        if n.get('kind') == 'FunctionDecl':
            ps = [(c['name'], c['type']['qualType']) for c in n.get('inner', []) if c['kind'] == 'ParmVarDecl' and 'name' in c]
            body = [c for c in n.get('inner', []) if c['kind'] == 'CompoundStmt']
            if body:
                out[n['name']] = CFunc(n['name'], ps, body[0], line(n))
    # line numbers are printed only where they change
    return out


def line(n):
    for k in ('loc', 'range'):
        v = n.get(k, {})
        if 'line' in v:
            return v['line']
        b = v.get('begin', {})
        if 'line' in b:
            return b['line']
        if 'expansionLoc' in b:
            return b['expansionLoc'].get('line')
    return None


class CFunc(object):
    def __init__(self, name, params, body, ln):
        self.name, self.params, self.body, self.line = name, params, body, ln


class Arr(object):
    """the contents of an array: ('vec', term) or ('cum', (inclusive, reads, writes), order or None, term)"""
    def __init__(self, name, content, integer=False):
        self.name, self.content, self.integer = name, content, integer


class Ptr(object):
    def __init__(self, arr, off):
        self.arr, self.off = arr, off


ORDER = {}


class Run(object):
    def __init__(self, unit, events=None):
        self.unit = unit
        self.events = [] if events is None else events    # (kind, term, condition, line, function)
        self.accesses = []                                  # (array, index term, kind, line, function)
        self.where = []

    # ---- functions
    def call(self, name, args):
        f = self.unit[name]
        if len(args) != len(f.params):
            raise Odd('arguments of ' + name)
        if len(self.where) > 8:
            raise Odd('recursion')
        env = {}
        for (p, ty), a in zip(f.params, args):
            env[p] = Ptr(a, ZERO) if isinstance(a, Arr) else a
        self.where.append(name)
        fr = Frame(self, env)
        try:
            fr.block(f.body)
        except Return as r:
            return r.value
        finally:
            self.where.pop()
        return None


class Return(Exception):
    def __init__(self, value):
        self.value = value


def kids(n):
    return [c for c in n.get('inner', []) if c]


def strip(n):
    while n['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ConstantExpr'):
        n = kids(n)[-1]
    return n


def typ(n):
    return n.get('type', {}).get('qualType', '')


def is_float(n):
    return typ(n) in ('double', 'float', 'long double', 'const double')


class Frame(object):
    """statements outside a loop, or the body of one"""
    def __init__(self, run, env, loop=None, cond=ONE):
        self.run, self.env, self.loop, self.cond = run, env, loop, cond
        self.line = None

    # ---- statements
    def block(self, n):
        self.stmts(kids(n) if n['kind'] == 'CompoundStmt' else [n])

    def stmts(self, ss):
        for i, s in enumerate(ss):
            self.line = line(s) or self.line
            if s['kind'] == 'IfStmt':
                k = kids(s)
                c = T.boolean(self.num(self.ev(k[0])))
                then, els = k[1], k[2] if len(k) > 2 else None
                rest = ss[i + 1:]
                if ends(then):
                    self.branch(c, body(then)[:-1] if last(then)['kind'] == 'ContinueStmt' else body(then), (body(els) if els else []) + rest)
                    return
                if els is not None and ends(els):
                    self.branch(c, body(then) + rest, body(els)[:-1] if last(els)['kind'] == 'ContinueStmt' else body(els))
                    return
                self.branch(c, body(then), body(els) if els else [])
            else:
                getattr(self, 'st_' + s['kind'], self.other)(s)

    def other(self, s):
        if s['kind'] in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator', 'CallExpr', 'ParenExpr', 'ImplicitCastExpr'):
            self.ev(s)
            return
        raise Odd('statement ' + s['kind'])

    def st_NullStmt(self, s):
        pass

    def st_CompoundStmt(self, s):
        self.block(s)

    def st_DeclStmt(self, s):
        for d in kids(s):
            if d['kind'] != 'VarDecl':
                raise Odd('declaration')
            k = [c for c in kids(d) if c['kind'].endswith(('Expr', 'Literal', 'Operator'))]
            self.env[d['name']] = self.ev(k[-1]) if k else None

    def st_ReturnStmt(self, s):
        if self.loop is not None or self.cond is not ONE:
            raise Odd('return inside a loop')
        k = kids(s)
        raise Return(self.ev(k[0]) if k else None)

    def branch(self, c, a, b):
        e0 = dict(self.env)
        c0 = self.cond
        self.cond = T.mul(c0, c)
        self.stmts(a)
        e1, self.env = self.env, dict(e0)
        self.cond = T.mul(c0, T.notb(c))
        self.stmts(b)
        self.cond = c0
        e2 = self.env
        out = {}
        for k in e1:
            x, y = e1[k], e2.get(k)
            if x is y:
                out[k] = x
            elif isinstance(x, T.Term) and isinstance(y, T.Term):
                # what the branch adds
                o = e0.get(k)
                if isinstance(o, T.Term) and T.mentions(o, carried) and not T.mentions(T.sub(x, o), carried) and not T.mentions(T.sub(y, o), carried):
                    out[k] = T.add(o, guarded(c, T.sub(x, o)), guarded(T.notb(c), T.sub(y, o)))
                else:
                    out[k] = T.add(guarded(c, x), guarded(T.notb(c), y))
            elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.arr is y.arr and x.off is y.off:
                out[k] = x
            else:
                out[k] = None
        self.env = out

    def st_ForStmt(self, s):
        # clang keeps an empty slot for the condition variable
        init, _, cond, step, bod = (s['inner'] + [{}] * 5)[:5]
        if self.loop is not None:
            raise Odd('nested loops')
        if init:
            if init['kind'] == 'DeclStmt':
                self.st_DeclStmt(init)
                var = kids(init)[0]['name']
            else:
                self.ev(init)
                t = strip(kids(init)[0]) if init['kind'] == 'BinaryOperator' else None
                if t is None or t['kind'] != 'DeclRefExpr':
                    raise Odd('loop initialisation')
                var = t['referencedDecl']['name']
        else:
            var = None
        self.counted(var, cond, step, bod)

    def st_WhileStmt(self, s):
        if self.loop is not None:
            raise Odd('nested loops')
        cond, bod = kids(s)[-2:]
        # the statement that advances the counter is the last one
        b = body(bod)
        u = b[-1] if b else None
        self.counted(None, cond, u, {'kind': 'CompoundStmt', 'inner': b[:-1]})

    def counted(self, var, cond, step, bod):
        pre = False
        cond = strip(cond) if cond else None
        # i-- > 0
        if cond is not None and cond['kind'] == 'BinaryOperator':
            l = strip(kids(cond)[0])
            if l['kind'] == 'UnaryOperator' and l['opcode'] == '--' and l.get('isPostfix'):
                var = strip(kids(l)[0])['referencedDecl']['name']
                r = self.ev(kids(cond)[1])
                if r is not ZERO or cond['opcode'] not in ('>', '!=') or step:
                    raise Odd('loop condition')
                start, down, pre = self.env[var], True, True
                if start is not N:
                    raise Odd('loop start')
                self.iterate(var, T.sub(T.sub(N, ONE), I), bod)
                self.env[var] = None
                return
        elif cond is not None and cond['kind'] == 'UnaryOperator' and cond['opcode'] == '--' and cond.get('isPostfix') and not step:
            var = strip(kids(cond)[0])['referencedDecl']['name']
            if self.env[var] is not N:
                raise Odd('loop start')
            self.iterate(var, T.sub(T.sub(N, ONE), I), bod)
            self.env[var] = None
            return
        if cond is None or step is None or not step:
            raise Odd('loop')
        st = strip(step)
        if st['kind'] == 'BinaryOperator' and st['opcode'] == ',':
            raise Odd('loop step')
        by = None
        tgt = strip(kids(st)[0]) if kids(st) else {}
        if tgt.get('kind') != 'DeclRefExpr':
            raise Odd('loop step')
        v = tgt['referencedDecl']['name']
        if var is not None and v != var:
            raise Odd('loop variable')
        var = v
        if st['kind'] == 'UnaryOperator' and st['opcode'] in ('++', '--'):
            by = 1 if st['opcode'] == '++' else -1
        elif st['kind'] == 'CompoundAssignOperator' and st['opcode'] in ('+=', '-='):
            k = self.ev(kids(st)[1])
            if k is ONE:
                by = 1 if st['opcode'] == '+=' else -1
        elif st['kind'] == 'BinaryOperator' and st['opcode'] == '=':
            e = self.ev(kids(st)[1])
            d = T.sub(e, self.env[var])
            by = 1 if d is ONE else -1 if d is num(-1) else None
        if by is None:
            raise Odd('loop step')
        start = self.env[var]
        if cond['kind'] != 'BinaryOperator':
            raise Odd('loop condition')
        a, b = [strip(x) for x in kids(cond)]
        op = cond['opcode']
        if a['kind'] == 'DeclRefExpr' and a['referencedDecl']['name'] == var:
            lim = self.ev(b)
        elif b['kind'] == 'DeclRefExpr' and b['referencedDecl']['name'] == var:
            lim = self.ev(a)
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        else:
            raise Odd('loop condition')
        if by == 1 and op in ('<', '!='):
            cnt = T.sub(lim, start)
        elif by == 1 and op == '<=':
            cnt = T.add(T.sub(lim, start), ONE)
        elif by == -1 and op in ('>', '!='):
            cnt = T.sub(start, lim)
        elif by == -1 and op == '>=':
            cnt = T.add(T.sub(start, lim), ONE)
        else:
            raise Odd('loop condition')
        pos = T.add(start, I) if by == 1 else T.sub(start, I)
        self.iterate(var, pos, bod, cnt)
        self.env[var] = None

    def iterate(self, var, pos, bod, cnt=N):
        env = dict(self.env)
        env[var] = pos
        mods = assigned(bod)
        carry = {}
        for v in mods:
            if v != var and isinstance(self.env.get(v), T.Term):
                carry[v] = sym('k_carried_' + v)
                env[v] = carry[v]
        lp = Loop(cnt)
        fr = Frame(self.run, env, lp, self.cond)
        fr.line = self.line
        fr.block(bod)
        if lp.count is not N:
            d = T.sub(lp.count, N)
            if d.op == 'num' and lp.reads | set(lp.stores):
                raise Partial('%s positions of the loop' % ('more' if d.args[0] > 0 else 'fewer'))
        # accumulators
        incr = {}
        for v, s in carry.items():
            e = fr.env.get(v)
            if e is s:
                continue
            if not isinstance(e, T.Term):
                carry[v] = None
                continue
            d = T.sub(e, s)
            if any(T.contains(d, c) for c in carry.values() if c is not None):
                # not additive: only harmless when it is dead afterwards
                if T.contains(e, s):
                    incr[v] = None
                continue
            incr[v] = d
        for (arr, p), val in lp.stores.items():
            self.leave(arr, p, val, lp, carry, incr)
        for v in mods:
            if v in incr and incr[v] is not None:
                self.env[v] = T.add(self.env[v], T.red('sum', whole(incr[v], lp, self.run)[0]))
            elif v in self.env:
                self.env[v] = None
        self.line = fr.line

    def leave(self, arr, p, val, lp, carry, incr):
        cs = [v for v, s in carry.items() if s is not None and T.contains(val, s)]
        if not cs:
            vec, o, r = whole(val, lp, self.run, at=p)
            arr.content = ('vec', vec)
            return
        if len(cs) > 1 or incr.get(cs[0]) is None:
            raise Odd('stored accumulator')
        v = cs[0]
        d = incr[v]
        e = T.sub(val, carry[v])
        if e is d:
            inc = True
        elif e is ZERO:
            inc = False
        else:
            raise Odd('stored accumulator')
        if self.env.get(v) is not ZERO:
            raise Odd('accumulator does not start at zero')
        w = direction(p, lp)
        if w is None:
            raise Odd('accumulator stored at %s' % T.show(p, 4))
        vec, o, r = whole(d, lp, self.run)
        arr.content = ('cum', (inc, r, w), o, vec)

    # ---- expressions
    def num(self, v):
        if not isinstance(v, T.Term):
            raise Odd('value')
        return v

    def ev(self, n):
        n0 = n
        self.line = line(n) or self.line
        k = n['kind']
        if k in ('ParenExpr', 'ConstantExpr'):
            return self.ev(kids(n)[-1])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            v = self.ev(kids(n)[-1])
            a, b = typ(kids(n)[-1]), typ(n)
            if isinstance(v, T.Term) and is_float(kids(n)[-1]) and not is_float(n) and '*' not in b and n.get('castKind') == 'FloatingToIntegral':
                return mk('fn', 'floor', v)
            return v
        if k == 'IntegerLiteral' or k == 'FloatingLiteral':
            from fractions import Fraction
            return num(Fraction(n['value']) if k == 'FloatingLiteral' else int(n['value']))
        if k == 'DeclRefExpr':
            nm = n['referencedDecl']['name']
            if nm not in self.env or self.env[nm] is None:
                raise Odd('value of %s' % nm)
            return self.env[nm]
        if k == 'ArraySubscriptExpr':
            a, i = [self.ev(c) for c in kids(n)]
            if not isinstance(a, Ptr):
                a, i = i, a
            return self.read(a, i)
        if k == 'UnaryOperator':
            op = n['opcode']
            c = kids(n)[0]
            if op == '*':
                return self.read(self.ev(c), ZERO)
            if op == '&':
                t = strip(c)
                if t['kind'] == 'ArraySubscriptExpr':
                    a, i = [self.ev(x) for x in kids(t)]
                    return Ptr(a.arr, T.add(a.off, i))
                raise Odd('address')
            if op in ('++', '--'):
                t = strip(c)
                v = self.ev(c)
                w = self.plus(v, ONE if op == '++' else num(-1))
                self.assign(t, w)
                return v if n.get('isPostfix') else w
            v = self.num(self.ev(c))
            if op == '-':
                return T.neg(v)
            if op == '+':
                return v
            if op == '!':
                return T.notb(v)
            raise Odd(op)
        if k == 'BinaryOperator':
            op = n['opcode']
            a, b = kids(n)
            if op == '=':
                v = self.ev(b)
                self.assign(strip(a), v)
                return v
            if op == ',':
                self.ev(a)
                return self.ev(b)
            if op == '&&':
                x = T.boolean(self.num(self.ev(a)))
                c0 = self.cond
                self.cond = T.mul(c0, x)
                y = T.boolean(self.num(self.ev(b)))
                self.cond = c0
                return T.mul(x, y)
            if op == '||':
                x = T.boolean(self.num(self.ev(a)))
                c0 = self.cond
                self.cond = T.mul(c0, T.notb(x))
                y = T.boolean(self.num(self.ev(b)))
                self.cond = c0
                return T.orb(x, y)
            return self.binary(op, self.ev(a), self.ev(b), n)
        if k == 'CompoundAssignOperator':
            a, b = kids(n)
            v = self.binary(n['opcode'][:-1], self.ev(a), self.ev(b), n)
            self.assign(strip(a), v)
            return v
        if k == 'ConditionalOperator':
            c, a, b = kids(n)
            x = T.boolean(self.num(self.ev(c)))
            c0 = self.cond
            self.cond = T.mul(c0, x)
            y = self.ev(a)
            self.cond = T.mul(c0, T.notb(x))
            z = self.ev(b)
            self.cond = c0
            if isinstance(y, Ptr) or isinstance(z, Ptr):
                raise Odd('conditional pointer')
            return T.add(guarded(x, y), guarded(T.notb(x), z))
        if k == 'CallExpr':
            f = strip(kids(n)[0])
            nm = f.get('referencedDecl', {}).get('name')
            args = [self.ev(c) for c in kids(n)[1:]]
            if nm == 'exp':
                return T.exp(self.num(args[0]))
            if nm in ('log', 'log1p'):
                x = self.num(args[0])
                if nm == 'log1p':
                    x = T.add(x, ONE)
                self.event('log', x)
                return T.log(x)
            if nm == 'fabs':
                return T.absv(self.num(args[0]))
            if nm == 'sqrt':
                return T.power(self.num(args[0]), fraction(1, 2))
            if nm == 'pow' and isinstance(args[1], T.Term) and args[1].op == 'num':
                if args[1].args[0] < 0:
                    self.event('division', self.num(args[0]))
                return T.power(self.num(args[0]), args[1].args[0])
            if nm in ('fmax', 'fmin'):
                return (T.maximum if nm == 'fmax' else T.minimum)(*[self.num(a) for a in args])
            if nm in self.run.unit:
                return self.inline(nm, args)
            raise Odd('call of %s' % nm)
        raise Odd(k)

    def inline(self, nm, args):
        f = self.run.unit[nm]
        env = {p: a for (p, t), a in zip(f.params, args)}
        fr = Frame(self.run, env, self.loop, self.cond)
        self.run.where.append(nm)
        if len(self.run.where) > 10:
            raise Odd('recursion')
        try:
            ss = kids(f.body)
            if ss and ss[-1]['kind'] == 'ReturnStmt':
                fr.stmts(ss[:-1])
                return fr.ev(kids(ss[-1])[0]) if kids(ss[-1]) else None
            fr.stmts(ss)
        finally:
            self.run.where.pop()

    def event(self, kind, t):
        self.run.events.append((kind, t, self.cond, self.line, self.run.where[-1] if self.run.where else ''))

    def plus(self, a, b):
        if isinstance(a, Ptr):
            return Ptr(a.arr, T.add(a.off, b))
        if isinstance(b, Ptr):
            return Ptr(b.arr, T.add(b.off, a))
        return T.add(a, b)

    def binary(self, op, a, b, n):
        if op == '+':
            return self.plus(a, b)
        if op == '-':
            if isinstance(a, Ptr) and isinstance(b, T.Term):
                return Ptr(a.arr, T.sub(a.off, b))
            return T.sub(self.num(a), self.num(b))
        a, b = self.num(a), self.num(b)
        if op == '*':
            return T.mul(a, b)
        if op == '/':
            if not (is_float(n) or typ(n) == ''):
                if n['kind'] != 'CompoundAssignOperator':
                    return mk('call', mk('ext', 'integer division'), (a, b), ())
            self.event('division', b)
            return T.div(a, b)
        if op in ('<', '<='):
            return mk('bool', mk('cmp', const('>' + op[1:]), T.sub(b, a)))
        if op in ('>', '>=', '==', '!='):
            return mk('bool', mk('cmp', const(op), T.sub(a, b)))
        raise Odd('operator ' + op)

    def read(self, p, i):
        if not isinstance(p, Ptr):
            raise Odd('dereference')
        if self.loop is None:
            raise Odd('array access outside a loop')
        idx = T.add(p.off, i)
        self.run.accesses.append((p.arr, idx, 'read', self.line, self.run.where[-1], self.loop, self.cond))
        if (p.arr, idx) in self.loop.stores:
            return self.loop.stores[(p.arr, idx)]
        if any(a is p.arr for a, q in self.loop.stores):
            raise Odd('array read and written in one loop')
        self.loop.reads.add((p.arr, idx))
        c = p.arr.content
        if c[0] == 'vec':
            return mk('at', c[1], idx)
        # accumulated values at entries of a rank array
        base, shift = split(idx)
        if base is None:
            q = direction(idx, self.loop)
            if q is None:
                raise Odd('position %s' % T.show(idx, 4))
            return mk('at', operator(c, None, q), mk('at', c[2], idx) if c[2] is not None else idx)
        r, q = base.args
        return mk('at', operator(c, r, shift), q)

    def assign(self, t, v):
        if t['kind'] == 'DeclRefExpr':
            self.env[t['referencedDecl']['name']] = v
            return
        if t['kind'] == 'UnaryOperator' and t['opcode'] == '*':
            p, i = self.ev(kids(t)[0]), ZERO
        elif t['kind'] == 'ArraySubscriptExpr':
            p, i = [self.ev(c) for c in kids(t)]
            if not isinstance(p, Ptr):
                p, i = i, p
        else:
            raise Odd('assignment')
        if not isinstance(p, Ptr) or self.loop is None:
            raise Odd('assignment')
        idx = T.add(p.off, i)
        self.run.accesses.append((p.arr, idx, 'write', self.line, self.run.where[-1], self.loop, self.cond))
        if any(a is p.arr and q is not idx for a, q in self.loop.stores) or any(a is p.arr and q is not idx for a, q in self.loop.reads):
            raise Odd('array read and written in one loop')
        v = self.num(v)
        if self.cond is not ONE:
            old = self.loop.stores.get((p.arr, idx))
            if old is None:
                if p.arr.content[0] != 'vec':
                    raise Odd('conditional store')
                old = mk('at', p.arr.content[1], idx)
            v = T.add(guarded(self.cond, v), guarded(T.notb(self.cond), old))
        self.loop.stores[(p.arr, idx)] = v


class Loop(object):
    def __init__(self, count):
        self.count, self.stores, self.reads = count, {}, set()


def fraction(a, b):
    from fractions import Fraction
    return Fraction(a, b)


def carried(u):
    return u.op == 'sym' and isinstance(u.args[0], str) and u.args[0].startswith('k_carried_')


def guarded(c, t):
    """c ? t : 0"""
    if c is ONE or t is ZERO:
        return t
    if c is ZERO:
        return ZERO
    return mk('when', c, t)


def body(n):
    return [] if n is None else kids(n) if n['kind'] == 'CompoundStmt' else [n]


def last(n):
    b = body(n)
    return b[-1] if b else {'kind': ''}


def ends(n):
    return last(n)['kind'] in ('ContinueStmt', 'ReturnStmt')


def assigned(n):
    out = []
    todo = [n]
    while todo:
        x = todo.pop()
        if x.get('kind') in ('CompoundAssignOperator',) or x.get('kind') == 'BinaryOperator' and x.get('opcode') == '=' or \
                x.get('kind') == 'UnaryOperator' and x.get('opcode') in ('++', '--'):
            t = strip(kids(x)[0])
            if t['kind'] == 'DeclRefExpr' and t['referencedDecl']['name'] not in out:
                out.append(t['referencedDecl']['name'])
        todo.extend(kids(x))
    return out


def direction(p, lp):
    """'up' when p runs through 0..n-1, 'down' through n-1..0"""
    if lp.count is not N:
        return None
    if p is I:
        return 'up'
    if p is T.sub(T.sub(N, ONE), I):
        return 'down'
    return None


def split(idx):
    """entry of an index array plus a constant"""
    base, shift = None, 0
    for m, c in T.poly_items(idx):
        if not m:
            shift = c
        elif len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0].op == 'at' and base is None:
            base = m[0][0]
        else:
            return None, 0
    return base, shift


def operator(content, rank, shift):
    _, form, o, f = content
    op = mk('rankop', const('%s %s %s' % (('inclusive' if form[0] else 'exclusive',) + form[1:])), o if o is not None else T.NONE,
            rank if rank is not None else T.NONE, num(shift) if not isinstance(shift, str) else const(shift))
    return T.linop('L', op, f)


def whole(t, lp, run, at=None):
    """(vector term, order array, direction) of a per-iteration value; `at` is where it is stored"""
    pts = set()
    orders = set()

    def look(u):
        if u.op == 'at':
            pts.add(u.args[1])
            for q in orderof(u.args[1]):
                orders.add(q)
            return
        for c in T.children(u):
            look(c)
    look(t)
    if at is not None:
        main = at
    elif any(direction(q.args[1], lp) for q in orders):
        main = sorted([q for q in orders if direction(q.args[1], lp)], key=lambda q: T.show(q, 6))[0]
    else:
        main = sorted(pts, key=lambda q: T.show(q, 6))[0] if pts else I
    if main.op == 'at':
        o, p = main.args
    else:
        o, p = None, main
    r = direction(p, lp)
    if r is None:
        raise Odd('index %s' % T.show(main, 4))

    def f(u):
        if u.op == 'at':
            if u.args[1] is main:
                return T.subst_fn(u.args[0], f)
            return mk('call', mk('ext', 'entry'), (u.args[0], u.args[1], main), ())
        return None
    vec = T.subst_fn(t, f)
    if T.contains(vec, I):
        def g(u):
            return None
        if not T.mentions(vec, lambda u: u.op == 'call' and u.args[0] is mk('ext', 'entry')):
            raise Odd('value depends on the index')
    return vec, o, r


def orderof(p):
    return [p] if p.op == 'at' else []
