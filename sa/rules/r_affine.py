"""Linear and affine transforms.

Every transform class of regreg.affine is built from opaque parts (or arrays) and its three maps are run
abstractly.  The resulting terms are brought to a normal form of linear algebra (operator words over
L/Lt/indexing/scatter/cumsum/reductions) in which

  L01  affine_map(x) == linear_map(x) + affine_offset, and linear_map is the documented map,
  L02  adjoint_map(u) is the formal transpose of the term computed by linear_map."""
from fractions import Fraction
from .. import terms as T
from ..terms import mk, num, sym, ZERO, ONE, NONE, add, sub, mul, div, neg, power
from ..check import OK, BAD, UND
from ..absint import Ob, C, COLIDX, plain_dim
from ..lab import BOTTOM
from .r_compose import lab, find, where, run, MAPS, AFF, subst

X, U = sym('v_x'), sym('v_u')
N = sym('s_n++')
VONE = sym('v_one')
A = 'regreg.affine.'

T.LINEAR_OPS.update({'rcumsum': 0, 'bcol': 0, 'brow': 0, 'transpose': 0, 'expand': 1, 'ps': 1, 'total': 0})


class No(Exception):
    pass


# ------------------------------------------------------------------ normal form

def slc(a, b=None, c=None):
    n = lambda v: NONE if v is None else num(v) if isinstance(v, int) else v
    return mk('slice', n(a), n(b), n(c))


FULL, TAIL, INIT, REV = slc(None), slc(1), slc(None, -1), slc(None, None, -1)


def idx(*a):
    return mk('tuple', tuple(num(i) if isinstance(i, int) else i for i in a))


ROWIDX = mk('tuple', (NONE, FULL))


def disjoint(i, j):
    if i is j:
        return False
    if i.op == 'tuple' and j.op == 'tuple':
        return len(i.args[0]) == len(j.args[0]) and any(disjoint(p, q) for p, q in zip(i.args[0], j.args[0]))
    a, b = bounds(i), bounds(j)
    if a is None or b is None:
        return False
    return before(a, b) or before(b, a)


def bounds(i):
    if i.op == 'num':
        return (i, add(i, ONE)) if i.args[0] >= 0 else None
    if i.op == 'slice' and i.args[2] is NONE:
        if any(a.op == 'num' and a.args[0] < 0 for a in i.args):
            return None
        lo = ZERO if i.args[0] is NONE else i.args[0]
        return lo, (None if i.args[1] is NONE else i.args[1])
    return None


def before(a, b):
    """a ends before b starts"""
    if a[1] is None:
        return False
    d = sub(b[0], a[1])
    return T.is_nonneg(d)


def size_sym(kind, t):
    return sym('s_%s<%s>++' % (kind, T.show(t, 6)))


def is_sparse(a):
    if a.op == 'transpose':
        a = a.args[0]
    return a.op == 'sym' and a.args[0].startswith('sp_')


def apply_sparse(a, v):
    return T.linop('Lt', a.args[0], v) if a.op == 'transpose' else T.linop('L', a, v)


class NF(object):
    def __init__(self, tags, matrix=False, offsets=None):
        self.tags, self.matrix, self.memo = tags, matrix, {}
        self.offsets = offsets or {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t)
        return r

    def go(self, t):
        if t.op == 'obj':
            d = dict(t.args[1])
            tag = d.get('tag')
            if tag is not None:
                return tag
        if t.op == 'attr' and t.args[1] == 'ndim':
            b = self(t.args[0])
            if self.matrix and (T.contains(b, X) or T.contains(b, U)):
                return num(2)
            return num(2 if b.op == 'sym' and b.args[0].startswith(('m_', 'sp_')) else 1)
        for _ in range(12):
            u = self.top(T.rebuild(t, self))
            if u is t:
                return u
            if u.op in ('num', 'const', 'sym'):
                return u
            t = u
        return t

    def top(self, u):
        op = u.op
        if op == 'bool':
            a = u.args[0]
            if a.op == 'isnone':
                return self.isnone(a.args[0], u)
            if a.op == 'eq' and any(k.op == 'num' and k.args[0] < 0 for k in a.args) or a.op == 'eq' and mk('tuple', ()) in a.args:
                return ZERO                 # a shape
            if a.op == 'allclose':
                return self.zero(a.args[0], u)
            if a.op == 'red' and a.args[0] == 'any':
                # any(1 - [off == 0]): a generic offset is not zero
                for k in a.args[1:]:
                    if k.op == 'poly' and k.args[0] and T.mentions(k, lambda w: w.op == 'eq0'):
                        return ONE
            return u
        if op == 'size':
            return N
        if op == 'eq0' and u.args[0].op == 'poly' and sub(u.args[0], ONE).op == 'attr' and sub(u.args[0], ONE).args[1] in ('input_shape', 'output_shape'):
            return ZERO                     # a shape is not -1
        if op == 'isnone':
            return self.isnone(u.args[0], u)
        if op in ('L', 'Lt') and u.args[1] is ZERO:
            return ZERO
        if op in ('L', 'Lt') and T.is_scalar(u.args[1]):
            return mul(u.args[1], mk(op, u.args[0], VONE))
        if op in ('A',):
            t, y = u.args[0], u.args[1]
            off = self.offsets.get(t)
            if off is None:
                return u
            return add(T.linop('L', t, y), off)
        if op == 'call':
            return self.callop(u)
        if op == 'slice':
            a = [NONE if v is ZERO and k == 0 else v for k, v in enumerate(u.args)]
            if len(a) == 3 and a[2] is ONE:
                a[2] = NONE
            return mk('slice', *a)
        if op == 'tuple' and len(u.args[0]) == 2 and u.args[0][1] is FULL and u.args[0][0].op != 'const':
            return u.args[0][0]
        if op == 'getitem':
            return self.getitem(u)
        if op in ('setitem', 'scatter'):
            return self.setitem(u)
        if op == 'stack' and u.args[0] == 'hstack':
            return self.hstack(u)
        if op == 'redax' and u.args[0] == 'mean' and u.args[1] in (0, ZERO):
            return self.mean(u.args[2])
        if op == 'redax' and u.args[0] == 'sum' and u.args[1] in (0, ZERO) and self.matrix:
            return T.red('sum', u.args[2])
        if op == 'red' and u.args[0] == 'mean':
            return self.mean(u.args[1])
        if op == 'red' and u.args[0] == 'sum':
            v = u.args[1]
            if v.op == 'scatter':
                return T.red('sum', v.args[1])
            if v.op == 'sumax':
                return T.red('sum', v.args[1])
            if v.op == 'transpose':
                return T.red('sum', v.args[0])
            if v.op == 'getitem' and v.args[0].op == 'attr' and v.args[0].args[1] in ('input_shape', 'output_shape'):
                return v                # the length along one axis
            return u
        if op in ('cumsum', 'rcumsum') and T.is_scalar(u.args[0]):
            return mul(u.args[0], mk(op, VONE))
        if op == 'rcumsum':
            v = u.args[0]
            # reversed cumsum of (r_1, .., r_{p-1}, 0) is sum(r) - cumsum(r)
            if v.op == 'getitem' and v.args[1] is TAIL and v.args[0].op == 'scatter' and v.args[0].args[0] is INIT:
                r = v.args[0].args[1]
                return sub(T.red('sum', r), T.linop('cumsum', r))
        if op == 'transpose' and u.args[0].op == 'transpose':
            return u.args[0].args[0]
        if op in ('L', 'Lt') and u.args[0].op == 'transpose':
            return T.linop('Lt' if op == 'L' else 'L', u.args[0].args[0], u.args[1])
        if op == 'L' and u.args[0].op == 'call' and ext_name(u.args[0]) == 'numpy.diag':
            return mul(u.args[0].args[1][0] if isinstance(u.args[0].args[1], tuple) else u.args[0].args[1].args[0][0], u.args[1])
        if op == 'dot':
            a = u.args[0]
            if a.op == 'call' and ext_name(a) == 'numpy.diag' and len(cargs(a)) == 1:
                return mul(cargs(a)[0], u.args[1])
        if op == 'reshape':
            return u.args[0]
        if op == 'poly':
            return self.sparse(u)
        if op == 'mcall' and u.args[0] in ('tocsr', 'tocsc', 'tocoo', 'copy'):
            return u.args[1]
        if op == 'dot' and u.args[1].op == 'eye':
            return u.args[0]
        if op == 'dot' and u.args[0].op == 'rowmat':
            return T.linop('L', u.args[0], u.args[1])
        if op == 'dot' and is_sparse(u.args[0]):
            return apply_sparse(u.args[0], u.args[1])
        return u

    def sparse(self, u):
        """sparse * vector is a matrix product"""
        out = ZERO
        for m, c in u.args[0]:
            sp = [a for a, e in m if e == 1 and is_sparse(a)]
            rest = num(c)
            if len(sp) == 1:
                for a, e in m:
                    if a is not sp[0]:
                        rest = mul(rest, power(a, e))
                if not T.is_scalar(rest):
                    out = add(out, apply_sparse(sp[0], rest))
                    continue
                rest = mul(rest, sp[0])
            else:
                for a, e in m:
                    rest = mul(rest, power(a, e))
            out = add(out, rest)
        return out

    def mean(self, v):
        if not T.contains(v, X) and not T.contains(v, U) and T.mentions(v, lambda w: w.op == 'sym' and w.args[0].startswith(('m_', 'sp_'))):
            return div(T.linop('sumax', mk('axis', ZERO), v), size_sym('len0', v))
        return div(T.red('sum', v), N)

    def isnone(self, a, u):
        if a is NONE:
            return ONE
        if a.op == 'ite':
            c, p, q = a.args
            r = add(mul(c, self.isnone(p, mk('bool', mk('isnone', p)))), mul(T.notb(c), self.isnone(q, mk('bool', mk('isnone', q)))))
            return r
        return ZERO if T.is_arith(a) or a.op in ('sym', 'list', 'tuple', 'transpose') else u

    def zero(self, a, u):
        if a is ZERO:
            return ONE
        return ZERO

    def callop(self, u):
        f, a = ext_name(u), cargs(u)
        kw = ckw(u)
        if f == 'builtins.slice' and a and not kw:
            p = list(a) if len(a) > 1 else [NONE, a[0]]
            p += [NONE] * (3 - len(p))
            return self.top(mk('slice', *p))
        if f == 'numpy.sort' and len(a) == 1 and not kw and a[0].op == 'sym':
            return sym('v_sorted_' + a[0].args[0])
        if f in ('numpy.product', 'numpy.prod') and len(a) == 1 and not kw:
            return size_sym('len', a[0])
        if f == 'numpy.cumsum' and len(a) == 1 and (not kw or list(kw.items()) == [('axis', ZERO)]):
            return T.linop('cumsum', a[0])
        if f == 'numpy.subtract.outer' and len(a) == 2:
            return sub(T.linop('bcol', a[0]), T.linop('brow', a[1]))
        if u.args[0].op == 'func' and u.args[0].args[0].split('.')[-1].startswith('formD'):
            return sym('sp_formD')
        if f in ('numpy.identity', 'numpy.eye') and len(a) == 1 and not kw:
            return mk('eye', a[0])
        if f == 'numpy.diag' and len(a) == 1 and list(kw) == ['k']:
            return mk('diagk', a[0], kw['k'])
        if f in ('scipy.sparse.csr_matrix',) and len(a) == 1:
            return a[0]
        if f in ('operator.add', 'operator.mul') and len(a) == 2:
            return add(*a) if f == 'operator.add' else mul(*a)
        if f in ('numpy.dot',) and len(a) == 2:
            return mk('dot', a[0], a[1])
        return u

    def getitem(self, u):
        v, i = u.args
        if i.op == 'tuple' and len(i.args[0]) == 1:
            i = i.args[0][0]
        if i.op == 'slice' and v.op == 'sym' and v.args[0].startswith('v_') and i.args[2] is NONE:
            # bounds relative to the length: x[:n] is x[:], x[:n-1] is x[:-1]
            n, b = size_sym('len0', v), list(i.args)
            for k in (0, 1):
                if b[k] is not NONE and T.contains(b[k], n):
                    d = sub(b[k], n)
                    if d is ZERO and k == 1:
                        b[k] = NONE
                    elif d.op == 'num' and d.args[0] < 0:
                        b[k] = d
            i = mk('slice', *b)
            u = mk('getitem', v, i)
        if v.op == 'sym' and v.args[0].startswith('m_') and i.op == 'tuple' and all(k.op == 'num' for k in i.args[0]):
            return sym('s_%s%s' % (v.args[0], [int(k.args[0]) for k in i.args[0]]))
        if v.op == 'attr' and v.args[1] == 'shape' and i is ZERO:
            b = v.args[0]
            while b.op == 'call' and ext_name(b) == 'numpy.sort':
                b = cargs(b)[0]
            if b.op == 'poly' or b.op == 'sym':
                return size_sym('len0', b)
        if v.op == 'attr' and v.args[1] == 'shape' and i is ONE and v.args[0].op == 'rowmat':
            return size_sym('len0', v.args[0].args[0])
        if v.op == 'attr' and v.args[1] == 'shape' and v.args[0] is ZERO and i is ZERO:
            return sym('s_block++')         # the common length of the blocks of a zero vector
        if T.is_scalar(v):
            return v
        if i is FULL or i is ROWIDX:
            return v
        if i is COLIDX or i == COLIDX:
            if self.matrix and v.op == 'sym' and not (v is X or v is U):
                return sym('v_col<%s>' % v.args[0])
            return u if self.matrix else v
        if i is REV:
            if v.op == 'cumsum' and v.args[0].op == 'getitem' and v.args[0].args[1] is REV:
                return T.linop('rcumsum', v.args[0].args[0])
            if v.op == 'cumsum' and T.is_scalar(v.args[0]):
                return mul(v.args[0], mk('rcumsum', VONE))
            if v.op == 'cumsum' and v.args[0] is VONE:
                return mk('rcumsum', VONE)
            if v.op == 'getitem' and v.args[1] is REV:
                return v.args[0]
        if v.op in ('bcol', 'brow') and i.op == 'tuple' and len(i.args[0]) == 2 and all(k.op == 'slice' for k in i.args[0]):
            k = i.args[0][0 if v.op == 'bcol' else 1]
            o = i.args[0][1 if v.op == 'bcol' else 0]
            return T.linop(v.op + 'of' if False else v.op, T.linop('getitem', v.args[0], k))
        if v.op == 'scatter':
            if v.args[0] is i:
                return v.args[1]
            if disjoint(v.args[0], i):
                return ZERO
        if not T.is_arith(v) or v.op in ('list', 'tuple'):
            return u
        return T.linop('getitem', v, i) if v.op == 'poly' else u

    def setitem(self, u):
        if u.op == 'scatter':
            i, v = u.args
            if v is ZERO:
                return ZERO
            return u
        b, i, v = u.args
        if b.op in ('empty',) or (b.op == 'mcall' and False):
            b = ZERO
        if not T.is_arith(b) or not T.is_arith(v):
            return u
        keep = ZERO
        for m, c in T.poly_items(b):
            sc = [(a, e) for a, e in m if a.op == 'scatter' and e == 1]
            if len(sc) != 1:
                return u
            j = sc[0][0].args[0]
            if j is i:
                continue
            if not disjoint(j, i):
                return u
            r = num(c)
            for a, e in m:
                r = mul(r, power(a, e))
            keep = add(keep, r)
        return add(keep, T.linop('scatter', i, v))

    def hstack(self, u):
        l = u.args[1]
        if l.op not in ('list', 'tuple'):
            return u
        it = list(l.args[0])
        if len(it) == 2 and T.is_scalar(it[0]):
            return add(T.linop('scatter', ZERO, it[0]) if it[0] is not ZERO else ZERO, T.linop('scatter', TAIL, it[1]))
        if all(v.op == 'sym' and v.args[0].startswith('v_') for v in it):
            return add(*[T.linop('scatter', i, v) for i, v in zip(slices([size_sym('len0', v) for v in it])[0], it)])
        if all(v is ZERO for v in it):
            return ZERO
        return u


def ext_name(u):
    f = u.args[0]
    return f.args[0] if isinstance(f, T.Term) and f.op == 'ext' else ''


def cargs(u):
    a = u.args[1]
    return a if isinstance(a, tuple) else a.args[0]


def ckw(u):
    if len(u.args) < 3 or not u.args[2]:
        return {}
    out = {}
    k = u.args[2]
    for p in (k if isinstance(k, tuple) else ()):
        if isinstance(p, tuple) and len(p) == 2:
            out[p[0]] = p[1]
        elif isinstance(p, tuple) and len(p) == 3:
            out[p[1]] = p[2]
    return out


# ------------------------------------------------------------------ transposition

def transpose_of(t, x, adj, scalars, nf):
    """the transpose of the linear term t(x), applied to adj"""
    acc = []
    back(t, adj, x, acc, scalars, nf)
    return nf(add(*acc)) if acc else ZERO


def is_sc(t, scalars):
    return T.is_scalar(t) or t in scalars


def contract(adj, nf):
    """sum(adj), with the words applied to a constant vector moved to the other side"""
    out = ZERO
    for m, c in T.poly_items(adj):
        r = num(c)
        for a, e in m:
            r = mul(r, power(a, e))
        k = [a for a, e in m if T.contains(a, VONE) and e == 1]
        if len(k) == 1:
            rest = num(c)
            for a, e in m:
                if a is not k[0]:
                    rest = mul(rest, power(a, e))
            out = add(out, T.red('sum', transpose_of(k[0], VONE, rest, (), nf)))
        else:
            out = add(out, T.red('sum', r))
    return nf(out)


def back(t, adj, x, acc, scalars, nf):
    if t is x:
        acc.append(adj)
        return
    if not T.contains(t, x):
        raise No('constant part %s' % T.show(t, 4))
    op = t.op
    if op == 'poly':
        for m, c in t.args[0]:
            dep = [(a, e) for a, e in m if T.contains(a, x)]
            if len(dep) != 1 or dep[0][1] != 1:
                raise No('not linear: %s' % T.show(t, 4))
            r = num(c)
            for a, e in m:
                if a is not dep[0][0]:
                    r = mul(r, power(a, e))
            g = mul(adj, r)
            if is_sc(dep[0][0], scalars) and not T.is_scalar(g):
                g = contract(nf(g), nf)
            back(dep[0][0], nf(g), x, acc, scalars, nf)
        return
    if op in ('L', 'Lt'):
        back(t.args[1], nf(T.linop('Lt' if op == 'L' else 'L', t.args[0], adj)), x, acc, scalars, nf)
        return
    if op == 'getitem':
        if T.contains(t.args[1], x):
            raise No('index')
        back(t.args[0], nf(T.linop('scatter', t.args[1], adj)), x, acc, scalars, nf)
        return
    if op == 'scatter':
        back(t.args[1], nf(T.linop('getitem', adj, t.args[0])), x, acc, scalars, nf)
        return
    if op in ('cumsum', 'rcumsum'):
        back(t.args[0], nf(T.linop('rcumsum' if op == 'cumsum' else 'cumsum', adj)), x, acc, scalars, nf)
        return
    if op == 'transpose':
        back(t.args[0], nf(T.linop('transpose', adj)), x, acc, scalars, nf)
        return
    if op == 'red' and t.args[0] == 'sum':
        back(t.args[1], adj if T.is_scalar(adj) else contract(adj, nf), x, acc, scalars, nf)
        return
    if op in ('bcol', 'brow'):
        k = mk('axis', ONE if op == 'bcol' else ZERO)
        back(t.args[0], nf(T.linop('sumax', k, adj)), x, acc, scalars, nf)
        return
    raise No(op)


KNOWN = {'poly', 'sym', 'num', 'L', 'Lt', 'scatter', 'getitem', 'slice', 'tuple', 'const', 'red', 'cumsum', 'rcumsum', 'sumax',
         'axis', 'transpose', 'attr', 'pow', 'powbase', 'list', 'bcol', 'brow', 'elem', 'eye', 'diagk', 'eq0', 'gt0', 'stack', 'dot', 'rowmat', 'binop', 'diagcall', 'ps', 'grid', 'total'}


def known(t):
    if t.op in ('empty', 'poly') and any(a.op == 'empty' for m, c in T.poly_items(t) for a, e in m):
        t = subst(t, {a: sym('v_uninitialised') for m, c in T.poly_items(t) for a, e in m if a.op == 'empty'})
    return all(s.op in KNOWN for s in T.subterms(t).values())


def compare(obs, rule, cons, got, want, what, w):
    if got is BOTTOM:
        obs.add(rule, cons, BAD, what + ': every path raises', w)
    elif got is None or want is None:
        obs.add(rule, cons, UND, what + ': not evaluated', w)
    elif got is want:
        obs.add(rule, cons, OK, '', w)
    elif not known(got) or not known(want):
        obs.add(rule, cons, UND, '%s: %s against %s' % (what, T.show(got, 7), T.show(want, 7)), w)
    elif got.op == 'tuple' or want.op == 'tuple' or T.separated(got, want):
        obs.add(rule, cons, BAD, '%s: %s instead of %s' % (what, T.show(got, 7), T.show(want, 7)), w)
    else:
        obs.add(rule, cons, UND, '%s: %s against %s' % (what, T.show(got, 7), T.show(want, 7)), w)


# ------------------------------------------------------------------ the transforms

def totals(t):
    """for a matrix argument, sums over all entries are told apart from column sums"""
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is None:
            r = T.rebuild(u, go)
            if r.op == 'red' and r.args[0] in ('sum', 'mean') and (T.contains(r, X) or T.contains(r, U)):
                r = T.linop('total', r.args[1]) if r.args[0] == 'sum' else div(T.linop('total', r.args[1]), sym('s_entries++'))
            memo[u] = r
        return r
    return go(t)


class Case(object):
    """a transform under test: object, normaliser, what its map and offset should be"""

    def __init__(self, name, L, o, lin=None, off=None, tags=(), offsets=None, matrix=False, scalars=(), shapes=None, moff=None, u=U):
        self.u = u
        self.name, self.L, self.o, self.lin, self.off = name, L, o, lin, off
        self.nf = NF(tags, matrix, offsets)
        self.scalars, self.shapes, self.moff = scalars, shapes, moff

    def map(self, m, arg):
        if not isinstance(self.o, Ob):
            return self.o
        t = run(self.L, self.L.call(self.o, m, self.L.vec(arg)))
        if isinstance(t, T.Term) and self.nf.matrix:
            t = totals(t)
        return self.nf(t) if isinstance(t, T.Term) else t

    def attr(self, n):
        if not isinstance(self.o, Ob):
            return None
        v = self.L.get(self.o, n)
        t = run(self.L, v) if v is not None else None
        return self.nf(t) if isinstance(t, T.Term) else t


def L_(k, x):
    return T.linop('L', sym('o_t%s' % k), x)


def Lt_(k, x):
    return T.linop('Lt', sym('o_t%s' % k), x)


def gi(x, i):
    return mk('getitem', x, num(i) if isinstance(i, int) else i)


def part(L, k, off):
    t = sym('o_t%s' % k)
    o = L.blank(find(L.ctx, AFF), t.args[0], tag=C(t), affine_offset=None if not off else L.vec('v_b%s' % k))
    return o


def maker(ctx, offs=('1', '2')):
    L = lab(ctx, no_inline=[])
    L.I.no_inline |= set(MAPS)
    offsets = {sym('o_t%s' % k): sym('v_b%s' % k) if k in offs else ZERO for k in '123'}
    return L, offsets


def shp(k, w):
    return mk('attr', sym('o_t%s' % k), w + '_shape')


def cases(ctx):
    out = []
    for off in (True, False):
        tagn = '' if off else ' (no offset)'
        offs = ('1', '2') if off else ()
        b1 = sym('v_b1') if off else ZERO
        b2 = sym('v_b2') if off else ZERO

        def one(name, lin, o_, *extra, **kw):
            c = find(ctx, A + name)
            if c is None:
                return
            L, offsets = maker(ctx, offs)
            args = [part(L, '1', off)] + [L.val(e) for e in extra]
            out.append(Case(name + tagn, L, L.new(c, *args), lin, o_, offsets=offsets, **kw))

        one('add_intercept', add(L_(1, gi(X, TAIL)), gi(X, 0)), b1, scalars=(gi(X, 0),), shapes=(tup(add(gi(shp(1, 'input'), 0), ONE)), shp(1, 'output')))
        one('residual', sub(X, L_(1, X)), neg(b1), shapes=(shp(1, 'input'), shp(1, 'output')))
        one('aslinear', L_(1, X), ZERO, shapes=(shp(1, 'input'), shp(1, 'output')))
        one('adjoint', Lt_(1, X), ZERO, shapes=(shp(1, 'output'), shp(1, 'input')))
        one('posneg', sub(L_(1, gi(X, 0)), L_(1, gi(X, 1))), b1, shapes=(tsum(tup(2), shp(1, 'input')), shp(1, 'output')))
        one('tensorize', L_(1, X), b1, sym('s_q++'), matrix=True, moff=sym('v_col<v_b1>') if off else ZERO, shapes=(tsum(shp(1, 'input'), tup(sym('s_q++'))), tsum(shp(1, 'output'), tup(sym('s_q++')))))
        one('scalar_multiply', mul(sym('s_k'), L_(1, X)), mul(sym('s_k'), b1), C(sym('s_k')), shapes=(shp(1, 'input'), shp(1, 'output')))

        for resh in (False, True):
            c = find(ctx, A + 'selector')
            if c is not None:
                L, offsets = maker(ctx, offs)
                a = [L.vec('v_index'), L.vec('v_shape'), part(L, '1', off)] + ([L.vec('v_reshape')] if resh else [])
                out.append(Case('selector%s%s' % (tagn, ' reshaped' if resh else ''), L, L.new(c, *a),
                                L_(1, gi(X, sym('v_index'))), b1, offsets=offsets,
                                shapes=(sym('v_shape'), sym('v_reshape') if resh else shp(1, 'output'))))

        def many(name, lin, o_, spread=False, n=2, extra=(), tag='', **kw):
            c = find(ctx, A + name)
            if c is None:
                return
            L, offsets = maker(ctx, '123' if off else ())
            a = [part(L, str(k + 1), off) for k in range(n)]
            args = a if spread else [a]
            o = L.new(c, *(args + [L.val(e) for e in extra]))
            out.append(Case(name + tag + tagn, L, o, lin, o_, offsets=offsets, **kw))

        many('composition', L_(1, L_(2, X)), add(L_(1, b2), b1), spread=True, shapes=(shp(2, 'input'), shp(1, 'output')))
        many('affine_sum', add(L_(1, X), L_(2, X)), add(b1, b2), shapes=(shp(1, 'input'), shp(1, 'output')))
        w1, w2 = sym('s_w1'), sym('s_w2')
        many('affine_sum', add(mul(w1, L_(1, X)), mul(w2, L_(2, X))), add(mul(w1, b1), mul(w2, b2)), extra=[[C(w1), C(w2)]], tag=' weighted')
        b3 = sym('v_b3') if off else ZERO
        bs = (b1, b2, b3)
        w3 = sym('s_w3')
        many('affine_sum', add(*[L_(k, X) for k in '123']), add(*bs), n=3, tag=' of three')
        many('affine_sum', add(*[mul(w, L_(k, X)) for k, w in zip('123', (w1, w2, w3))]), add(*[mul(w, b) for b, w in zip(bs, (w1, w2, w3))]),
             n=3, extra=[[C(w1), C(w2), C(w3)]], tag=' of three, weighted')
        many('composition', L_(1, L_(2, L_(3, X))), add(L_(1, L_(2, b3)), L_(1, b2), b1), n=3, spread=True, tag=' of three', shapes=(shp(3, 'input'), shp(1, 'output')))
        sc = lambda i, v: T.linop('scatter', i, v) if v is not ZERO else ZERO
        for n in (2, 3):
            ks = '123'[:n]
            isl, itot = slices([size_sym('len', shp(k, 'input')) for k in ks])
            osl, otot = slices([size_sym('len', shp(k, 'output')) for k in ks])
            three = dict(n=n, tag=' of three' if n == 3 else '')
            # parts of a stack share the other shape
            many('hstack', add(*[L_(k, gi(X, i)) for k, i in zip(ks, isl)]), add(*bs[:n]), shapes=(tup(itot), shp(1, 'output')), **three)
            many('vstack', add(*[sc(i, L_(k, X)) for k, i in zip(ks, osl)]), add(*[sc(i, b) for i, b in zip(osl, bs)]),
                 shapes=(shp(1, 'input'), tup(otot)), **three)
            many('product', add(*[sc(i, L_(k, gi(X, j))) for k, i, j in zip(ks, osl, isl)]), add(*[sc(i, b) for i, b in zip(osl, bs)]),
                 shapes=(tup(itot), tup(otot)), **three)
            if off:
                bsl, _ = slices([size_sym('len0', b) for b in bs[:n]])
                many('block_maps.block_columns', add(*[sc(i, L_(k, gi(X, idx(FULL, int(k) - 1)))) for k, i in zip(ks, bsl)]),
                     add(*[sc(i, b) for i, b in zip(bsl, bs)]), shapes=(tsum(shp(1, 'input'), tup(n)), None), **three)
            z = sym('s_block++')
            zsl, _ = slices([z] * n)
            many('block_maps.block_rows', add(*[sc(idx(FULL, int(k) - 1), L_(k, gi(X, i))) for k, i in zip(ks, zsl)]),
                 mk('transpose', mk('list', bs[:n])) if off else None, **three)
    for name in ('centering', 'identity', 'scaler'):
        c = find(ctx, A + name)
        if c is not None:
            L, offsets = maker(ctx)
            lin = {'centering': sub(X, div(T.red('sum', X), N)), 'identity': X, 'scaler': mul(sym('v_arg'), X)}[name]
            out.append(Case(name, L, L.new(c, L.vec('v_arg')), lin, ZERO, offsets=offsets))
            if name != 'scaler':
                L, offsets = maker(ctx)
                out.append(Case(name + ' on a matrix', L, L.new(c, L.vec('v_arg')), lin, ZERO, offsets=offsets, matrix=True))
    return out


def slices(lengths):
    out, t = [], ZERO
    for n in lengths:
        out.append(slc(None if t is ZERO else t, add(t, n)))
        t = add(t, n)
    return out, t


def tup(*a):
    return mk('tuple', tuple(num(x) if isinstance(x, int) else x for x in a))


def tsum(a, b):
    return mk('binop', 'Add', a, b)


def plain(t):
    return 0 if t is X or t is U else plain_dim(t)


def array_cases(ctx):
    """transforms built from arrays"""
    out = []

    def pl(inline=True):
        L, _ = maker(ctx)
        L.I.plain = plain
        if inline:
            L.I.no_inline = set()
        return L
    c = find(ctx, AFF)
    v = sym('v_off')
    for matrix in (False, True):
        col = (lambda t: sym('v_col<%s>' % t.args[0])) if matrix else (lambda t: t)
        mode = ' on a matrix' if matrix else ''
        for name, op, lin, sh in (('identity', None, X, (mk('attr', v, 'shape'),) * 2),
                                  ('dense', 'm_D', T.linop('L', sym('m_D'), X), (tup(gi(mk('attr', sym('m_D'), 'shape'), 1)), tup(gi(mk('attr', sym('m_D'), 'shape'), 0)))),
                                  ('sparse', 'sp_D', T.linop('L', sym('sp_D'), X), (tup(gi(mk('attr', sym('sp_D'), 'shape'), 1)), tup(gi(mk('attr', sym('sp_D'), 'shape'), 0)))),
                                  ('row', 'v_D', T.linop('L', mk('rowmat', sym('v_D')), X), (tup(size_sym('len0', sym('v_D'))), tup(1))),
                                  ('diagonal', 'v_D', mul(col(sym('v_D')), X), (tup(gi(mk('attr', sym('v_D'), 'shape'), 0)),) * 2),
                                  ('nested', 'o_t1', L_(1, X), (shp(1, 'input'), shp(1, 'output')))):
            if matrix and name in ('row', 'nested'):
                continue
            L = pl()
            a = C(sym('o_t1')) if name == 'nested' else None if op is None else L.vec(op)
            o = L.new(c, a, L.vec(v), diag=(name == 'diagonal'))
            off = add(v, mk('attr', sym('o_t1'), 'affine_offset')) if name == 'nested' else v
            out.append(Case('affine_transform(%s)%s' % (name, mode), L, o, lin, off, matrix=matrix, shapes=sh, moff=col(v) if matrix else None))
            if name != 'identity' and not matrix:
                L = pl()
                a = C(sym('o_t1')) if name == 'nested' else L.vec(op)
                lt = find(ctx, A + 'linear_transform')
                if lt is not None:
                    o = L.new(lt, a, diag=(name == 'diagonal'))
                    out.append(Case('linear_transform(%s)' % name, L, o, lin, mk('attr', sym('o_t1'), 'affine_offset') if name == 'nested' else ZERO, shapes=sh))
    # the identity plus an offset keeps no operator; a given input shape makes the coefficients a matrix
    L = pl()
    o = L.new(c, L.vec('m_D'), None, input_shape=L.val([C(sym('s_p++')), C(sym('s_q++'))]))
    out.append(Case('affine_transform(dense, input_shape)', L, o, T.linop('L', sym('m_D'), X), ZERO, matrix=True,
                    shapes=(mk('list', (sym('s_p++'), sym('s_q++'))), tup(gi(mk('attr', sym('m_D'), 'shape'), 0), sym('s_q++')))))

    # normalize
    f = ctx.model.modules['regreg.affine'].funcs.get('normalize')
    if f is not None:
        for m in ('m_M', 'sp_M'):
            M = sym(m)
            n = size_sym('len0', M)
            ax = mk('axis', ZERO)
            sm, sq = T.linop('sumax', ax, M), T.linop('sumax', ax, power(M, 2))
            dd, vl = sym('s_ddof'), sym('s_val++')
            for center in (True, False):
                for scale in (True, False):
                    for icpt in (False, True):
                        L = pl()
                        o = L.func(f, L.vec(m), center=center, scale=scale, intercept=icpt, value=C(vl), ddof=C(dd))
                        mean = div(sm, n) if center else ZERO
                        d = dd if center else sub(dd, ONE)
                        sd = power(div(sub(sq, mul(n, power(mean, 2))), sub(n, d)), Fraction(1, 2))
                        x = gi(X, TAIL) if icpt else X
                        y = mul(div(vl, sd), T.gt0(sd), x) if scale else x
                        y = T.linop('L', M, y)
                        y = sub(y, div(T.red('sum', y), N)) if center else y
                        y = add(y, gi(X, 0)) if icpt else y
                        out.append(Case('normalize(%s%s%s%s)' % (m, ', center' * center, ', scale' * scale, ', intercept' * icpt), L, o, y, ZERO,
                                        scalars=(gi(X, 0),)))
    # finite differences on a grid
    f = ctx.model.modules['regreg.affine.fused_lasso'].funcs.get('difference_transform') if 'regreg.affine.fused_lasso' in ctx.model.modules else None
    tf = find(ctx, A + 'fused_lasso.trend_filter')
    if f is not None:
        for order in (1, 2, 3):
            for srt in (True, False):
                L = pl()
                t = run(L, L.func(f, L.vec('v_X'), C(num(order)), srt, False))
                out.append(Value('difference_transform(order=%d%s)' % (order, ', sorted' * srt), t, differences(order, sym('v_X') if srt else sorted_(sym('v_X'))), f))
        if tf is not None:
            L = pl()
            t = run(L, L.func(f, L.vec(sorted_(sym('v_knots'))), C(num(2)), True, True))
            L = pl()
            o = L.new(tf, L.vec('v_knots'), C(num(2)))
            out.append(Case('trend_filter', L, o, None, ZERO))
    tfi = find(ctx, A + 'fused_lasso.trend_filter_inverse')
    if tfi is not None:
        k = sorted_(sym('v_knots'))
        for matrix in (False, True):
            L = pl()
            o = L.new(tfi, L.vec('v_knots'))
            st = [mk('getitem', k, i) for i in (TAIL, INIT)]
            if matrix:
                st = [mk('getitem', i, COLIDX) for i in st]
            y = T.linop('cumsum', mul(X, sub(*st)))
            y = sub(T.linop('scatter', TAIL, y), div(T.red('sum', y), N))
            out.append(Case('trend_filter_inverse%s' % (' on a matrix' if matrix else ''), L, o, y, ZERO, matrix=matrix))
    im = find(ctx, A + 'image2d.image2d_differences')
    if im is not None:
        for off in (True, False):
            L = pl()
            L.I.no_inline |= {A + 'image2d.formD'}
            o = L.new(im, L.val([C(sym('s_m++')), C(sym('s_k++'))]), L.vec('v_off') if off else None)
            out.append(Case('image2d_differences%s' % ('' if off else ' (no offset)'), L, o, u=sym('m_u'), lin=T.linop('transpose', T.linop('L', sym('sp_formD'), X)),
                            off=sym('v_off') if off else ZERO, shapes=(mk('list', (sym('s_m++'), sym('s_k++'))), tup(sub(mul(sym('s_m++'), sym('s_k++')), ONE), 2))))
    fm = find(ctx, A + 'factored_matrix.factored_matrix')
    if fm is not None:
        for ro in (True, False):
            for off in (True, False):
                L = pl(False)
                o = L.blank(fm, 'o_fm', rankone=ro, affine_offset=L.vec('v_off') if off else None,
                            _factors=[L.vec('m_U'), L.vec('m_D'), L.vec('m_V')])
                y = T.linop('L', sym('m_V'), X)
                y = mul(gi(sym('m_D'), idx(0, 0)), y) if ro else mul(sym('m_D'), y)
                out.append(Case('factored_matrix%s%s' % (' of rank one' * ro, '' if off else ' (no offset)'), L, o, T.linop('L', sym('m_U'), y),
                                sym('v_off') if off else ZERO))
    ms = find(ctx, A + 'multiscale.multiscale')
    if ms is not None:
        for sc in (None, 'v_sc'):
            L = pl(False)
            o = L.blank(ms, 'o_ms', _all=True, affine_offset=None, scaling=None if sc is None else L.vec(sc))
            cs = T.linop('cumsum', X)
            cs = sub(cs, mul(div(T.red('sum', X), N), mk('cumsum', VONE)))
            z = T.linop('getitem', T.linop('scatter', TAIL, cs), INIT)
            msk = mk('attr', sym('o_ms'), '_mask')
            y = sub(T.linop('getitem', T.linop('brow', z), msk), T.linop('getitem', T.linop('bcol', z), msk))
            y = div(y, mk('attr', sym('o_ms'), 'sizes'))
            out.append(Case('multiscale%s' % (' scaled' if sc else ''), L, o, mul(y, sym(sc)) if sc else y, ZERO))
    return out


def derived(ctx):
    """maps obtained from other maps: .T, .dot, astransform, the identity selector"""
    out = []
    c = find(ctx, AFF)
    D, v = sym('m_D'), sym('v_off')
    dsh = mk('attr', D, 'shape')

    def pl(inline=True, offs=('1', '2')):
        L, offsets = maker(ctx, offs)
        L.I.plain = plain
        if inline:
            L.I.no_inline = set()
        return L, offsets
    L, offsets = pl()
    o = L.get(L.new(c, L.vec('m_D'), L.vec('v_off')), 'T')
    out.append(Case('affine_transform(dense).T', L, o, T.linop('Lt', D, X), ZERO, shapes=(tup(gi(dsh, 0)), tup(gi(dsh, 1)))))
    L, offsets = pl()
    o = L.get(L.new(c, L.vec('v_D'), L.vec('v_off'), diag=True), 'T')
    out.append(Case('affine_transform(diagonal).T', L, o, mul(sym('v_D'), X), ZERO))
    L, offsets = pl(False)
    base = part(L, '2', True)
    a = part(L, '1', True)
    L.I.no_inline = set(MAPS)
    o = L.call(a, 'dot', base)
    out.append(Case('affine_transform.dot(transform)', L, o, L_(1, L_(2, X)), add(L_(1, sym('v_b2')), sym('v_b1')), offsets=offsets,
                    shapes=(shp(2, 'input'), shp(1, 'output'))))
    L, offsets = pl()
    a = L.new(c, L.vec('m_D'), L.vec('v_off'))
    L.I.plain = plain_dim
    t = run(L, L.call(a, 'dot', L.vec(X)))
    out.append(Value('affine_transform.dot(array)', t, T.linop('L', D, X), None, 'L01.linear'))
    fs = ctx.model.modules['regreg.affine'].funcs
    f = fs.get('astransform')
    if f is not None:
        for n, e in (('m_D', T.linop('L', D, X)), ('sp_D', T.linop('L', sym('sp_D'), X))):
            L, offsets = pl()
            out.append(Case('astransform(%s)' % n, L, L.func(f, L.vec(n)), e, ZERO))
        L, offsets = pl(False)
        out.append(Case('astransform(transform)', L, L.func(f, part(L, '1', True)), L_(1, X), sym('v_b1'), offsets=offsets))
    f = fs.get('todense')
    if f is not None:
        L, offsets = pl(False)
        a = part(L, '1', True)
        L.set(a, 'input_shape', L.val((C(sym('s_p++')),)))
        t = run(L, L.func(f, a))
        out.append(Value('todense', t, L_(1, mk('eye', size_sym('len', tup(sym('s_p++'))))), f, 'L01.matrix'))
    f = fs.get('power_L')
    if f is not None:
        L, offsets = pl(False)
        a = part(L, '1', True)
        L.set(a, 'input_shape', L.val((C(sym('s_p++')),)))
        t = run(L, L.func(f, a))
        out.append(Value('power_L', step(t), L_t(), f, 'L01.matrix'))
    c = find(ctx, A + 'selector')
    if c is not None:
        L, offsets = pl()
        o = L.new(c, L.vec('v_index'), L.vec('v_shape'))
        out.append(Case('selector (identity)', L, o, gi(X, sym('v_index')), ZERO, shapes=(sym('v_shape'), None)))
    return out


V = sym('v_v')


def step(t):
    """what one pass of a power iteration assigns to the returned norm, as a function of the current vector"""
    if not isinstance(t, T.Term) or t.op not in ('loopvar', 'looplast'):
        return None
    body = t.args[1]
    ph = [u for u in T.subterms(body).values() if u.op == 'phi']
    if len(ph) != 1:
        return None
    return subst(body, {ph[0]: V})


def L_t():
    y = Lt_(1, L_(1, V))
    return power(T.red('sum', power(y, 2)), Fraction(1, 2))


def multiscale_loops(ctx, obs):
    """the explicit loops over slices of multiscale"""
    ms = find(ctx, A + 'multiscale.multiscale')
    if ms is None:
        return
    SL = sym('oi_slices')
    sizes = mk('attr', sym('o_ms'), 'sizes')
    I_, J_, SZ = sym('i_i+'), sym('i_j++'), sym('s_size++')
    for sc in (None, 'v_sc'):
        cons = 'affine.multiscale(slices%s)' % (', scaled' if sc else '')
        L, _ = maker(ctx)
        L.I.plain = plain
        o = L.blank(ms, 'o_ms', _all=False, affine_offset=None, scaling=None if sc is None else L.vec(sc), slices=C(SL))
        c = Case(cons, L, o)
        fac = sym('s_sc') if sc else ONE
        # one entry of the linear map
        t = c.map('linear_map', X)
        ps = lambda e: T.linop('ps', e, X) if e is not ZERO else ZERO
        for i in (ZERO, ONE, num(2), I_):
            got = entry(t, SL, sizes, sc, i, J_, SZ)
            want = mul(fac, div(sub(sub(ps(J_), ps(i)), mul(div(T.red('sum', X), N), sub(J_, i))), sub(J_, i)))
            compare(obs, 'L01.linear', cons + (', i = %d' % int(i.args[0]) if i.op == 'num' else ''), got, want,
                    'entry of linear_map(x) for the slice [i, j)', where(ms, 'linear_map'))
        # the adjoint: a weighted sum of indicators, centred
        t = c.map('adjoint_map', U)
        got = indicator_sum(t, SL, sizes, sc, I_, J_, SZ)
        s = sym('v_S')
        want = mk('tuple', (sub(s, div(T.red('sum', s), N)), div(mul(sym('s_u'), fac), SZ), mk('slice', I_, J_, NONE)))
        compare(obs, 'L02.adjoint', cons, got, want, 'adjoint_map(u) as (centring, weight of a slice, its range)', where(ms, 'adjoint_map'))
    # the table of slices
    P_ = sym('s_p++')
    a = sym('o_sl')
    S = mk('grid', tup(P_, P_))
    for al in (True, False):
        L, _ = maker(ctx)
        L.I.plain = plain
        o = L.new(ms, C(P_), minsize=C(sym('s_min++')), scaling=L.vec('v_sc'), slices=C(a))
        if not isinstance(o, Ob):
            continue
        tab = lambda n: table(run(L, L.get(o, n)) if L.get(o, n) is not None else None, al)
        cons = 'affine.multiscale(%s)' % ('all slices' if al else 'given slices')
        w = where(ms, '__init__')
        compare(obs, 'L01.shape', cons, tab('input_shape'), tup(P_), 'input_shape', w)
        st, en = [gi(a, T.const(k)) for k in ('start', 'end')]
        if al:
            mask = sub(ONE, T.gt0(sub(sym('s_min++'), sub(gi(S, 1), gi(S, 0)))))
            pick = mk('transpose', mk('getitem', S, mk('tuple', (FULL, mask))))
            st, en = [mk('getitem', pick, idx(FULL, k)) for k in (0, 1)]
            compare(obs, 'L01.matrix', cons, tab('_mask'), mask, '_mask', w)
        compare(obs, 'L01.matrix', cons, tab('sizes'), sub(en, st), 'sizes against end - start', w)
        compare(obs, 'L01.matrix', cons + ':scaling', tab('scaling'), sym('v_sc'), 'scaling', w)
    for dt in (True, False):
        L, _ = maker(ctx)
        L.I.plain = plain
        o = L.blank(ms, 'o_ms', _all=True, affine_offset=None, scaling=None, slices=C(SL))
        if L.call(o, 'update_slices', C(a), scaling=L.vec('v_sc')) is None:
            continue
        cons = 'affine.multiscale.update_slices(%s)' % ('table' if dt else 'pairs')
        w = where(ms, 'update_slices')
        tab = lambda n: table(run(L, L.get(o, n)) if L.get(o, n) is not None else None, dt)
        st, en = [gi(a, T.const(k)) for k in ('start', 'end')] if dt else [mk('getitem', a, idx(FULL, k)) for k in (0, 1)]
        compare(obs, 'L01.matrix', cons, tab('sizes'), sub(en, st), 'sizes against end - start', w)
        compare(obs, 'L01.matrix', cons + ':scaling', tab('scaling'), sym('v_sc'), 'scaling', w)
        compare(obs, 'L01.matrix', cons + ':_all', tab('_all'), T.const(False), '_all', w)


def table(t, flag):
    """the value when the tests on the argument's shape / dtype all come out as flag"""
    if not isinstance(t, T.Term):
        return t
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        if u.op == 'bool' and u.args[0].op == 'eq':
            r = ONE if flag else ZERO
        elif u.op == 'bool' and T.is_pos(u.args[0]):
            r = ONE
        elif u.op == 'call' and ext_name(u) == 'numpy.indices' and len(cargs(u)) == 1 and not ckw(u):
            r = mk('grid', cargs(u)[0])
        else:
            r = T.rebuild(u, go)
            if r.op == 'ite' and r.args[0] in (ONE, ZERO):
                r = r.args[1] if r.args[0] is ONE else r.args[2]
            if r.op == 'getitem' and r.args[1].op == 'const':
                b = r.args[0]
                while b.op == 'setitem' and b.args[1].op == 'const' and b.args[1] is not r.args[1]:
                    b = b.args[0]
                if b.op == 'setitem' and b.args[1] is r.args[1]:
                    r = b.args[2]
        memo[u] = r
        return r
    return NF(())(go(t))


def loop_of(t):
    """(loop variable term, rest) of a term with exactly one loop"""
    lv = {u for u in T.subterms(t).values() if u.op in ('loopvar', 'loopset', 'looplast')}
    lv = {u for u in lv if not any(u is not w and T.contains(w, u) for w in lv)}
    return lv.pop() if len(lv) == 1 else None


def at_slice(t, keys, SL, sizes, sc, I_, J_, SZ, elems):
    """rewrite the ends of the current slice, its size and its scaling to symbols"""
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        if u.op == 'getitem':
            b, k = u.args
            if b in elems and k in (ZERO, ONE):
                r = I_ if k is ZERO else J_
            elif b.op == 'getitem' and b.args[0] is SL and b.args[1] in keys and k in (ZERO, ONE):
                r = I_ if k is ZERO else J_
            elif b is sizes and k in keys:
                r = SZ
            elif b is U and k in keys:
                r = sym('s_u')
            elif sc and b is sym(sc) and k in keys:
                r = sym('s_sc')
        if r is None:
            r = T.rebuild(u, go)
            if r.op == 'getitem' and r.args[1] in keys and r.args[0] in (I_, J_):
                r = r.args[0]
        memo[u] = r
        return r
    return go(t)


def entry(t, SL, sizes, sc, I_, J_, SZ):
    if not isinstance(t, T.Term):
        return t
    lv = loop_of(t)
    if lv is None or len(lv.args) < 3:
        return None
    key, body = lv.args[0], lv.args[1]
    elems = {u for u in T.subterms(body).values() if u.op == 'elem'}
    keys = {u for u in T.subterms(body).values() if u.op == 'idx'}
    if len(keys) != 1 or any(e.args[1] is not SL for e in elems) or lv.args[2] is not ZERO:
        return None
    K = list(keys)[0]
    one = cell(body, K)
    if one is None:
        return None
    out = subst(t, {lv: sym('v_OUT')})
    if out is not sym('v_OUT'):
        if not sc or out is not mul(sym('v_OUT'), sym(sc)):
            return NF(())(out)
        one = mul(one, sym('s_sc'))
    one = at_slice(one, keys, SL, sizes, sc, I_, J_, SZ, elems)
    generic = I_.op != 'num'
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        if u.op == 'gt0' and generic and {m for m, c in T.poly_items(u.args[0]) if m} == {((I_, 1),)}:
            r = ONE if [c for m, c in T.poly_items(u.args[0]) if m][0] > 0 else ZERO        # i beyond any constant
        elif u.op == 'getitem' and u.args[0].op == 'cumsum' and u.args[1] in (sub(I_, ONE), sub(J_, ONE)):
            e = I_ if u.args[1] is sub(I_, ONE) else J_
            v = u.args[0].args[0]
            if e is ZERO:
                # entry -1 is the last one
                r = N if v is VONE else T.red('sum', v)
            else:
                r = e if v is VONE else T.linop('ps', e, go(v))
        else:
            r = T.rebuild(u, go)
        memo[u] = r
        return r
    return go(one)


def cell(t, K):
    """entry K of an array all of whose assignments in the pass are at K"""
    if t.op == 'setitem':
        return inner(t.args[2], K) if t.args[1] is K else None
    if t.op == 'poly':
        out = ZERO
        for m, c in t.args[0]:
            sets = [a for a, e in m if a.op == 'setitem' and e == 1]
            if len(sets) != 1:
                return None
            r = num(c)
            for a, e in m:
                if a is not sets[0]:
                    r = mul(r, power(inner(a, K), e))
            v = cell(sets[0], K)
            if v is None:
                return None
            out = add(out, mul(r, v))
        return out
    return None


def inner(t, K):
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is None:
            if u.op == 'getitem' and u.args[1] is K and u.args[0].op == 'setitem' and u.args[0].args[1] is K:
                r = go(u.args[0].args[2])
            else:
                r = T.rebuild(u, go)
            memo[u] = r
        return r
    return go(t)


def indicator_sum(t, SL, sizes, sc, I_, J_, SZ):
    if not isinstance(t, T.Term):
        return t
    lv = loop_of(t)
    if lv is None or lv.op != 'loopvar' or lv.args[2] is not ZERO:
        return None
    key, body = lv.args[0], lv.args[1]
    if body.op != 'setitem' or body.args[0].op != 'phi':
        return None
    ph, r, v = body.args
    elems = {u for u in T.subterms(body).values() if u.op == 'elem'}
    if len(elems) != 1:
        return None
    e = list(elems)[0]
    w = sub(v, mk('getitem', ph, r))
    if T.contains(w, ph):
        return None
    # the loop may skip the slices whose weight is zero
    src = e.args[1]
    full = div(U, sizes) if not sc else div(mul(U, sym(sc)), sizes)
    if not (src.op == 'bool' and src.args[0] in (full, U)) and src is not SL:
        return None
    go = lambda u: at_slice(u, {e}, SL, sizes, sc, I_, J_, SZ, set())
    return mk('tuple', (subst(t, {lv: sym('v_S')}), go(w), go(r)))


def sorted_(t):
    return mk('call', mk('ext', 'numpy.sort'), (t,), ())


def differences(order, x):
    n = gi(mk('attr', x, 'shape'), 0)
    D = None
    for j in range(1, order + 1):
        st = sub(mk('getitem', x, slc(j)), mk('getitem', x, slc(None, -j)))
        w = sub(power(st, -1), mul(power(st, -1), T.eq0(st)))
        S = sub(mk('getitem', mk('diagk', ONE, ONE), INIT), mk('getitem', mk('eye', sub(n, num(j - 1))), INIT))
        S = mk('dot', mk('call', mk('ext', 'numpy.diag'), (w,), ()), S)
        D = S if D is None else mk('dot', S, D)
    return D


class Value(object):
    def __init__(self, name, got, want, f, rule='L01.matrix'):
        self.name, self.got, self.want, self.f, self.rule = name, got, want, f, rule


def transforms(ctx, obs):
    multiscale_loops(ctx, obs)
    for c in cases(ctx) + array_cases(ctx) + derived(ctx):
        if isinstance(c, Value):
            nf = NF(())
            compare(obs, c.rule, 'affine.' + c.name, nf(c.got) if isinstance(c.got, T.Term) else c.got, nf(c.want), 'value', c.f.where if c.f is not None else '')
            continue
        check(ctx, obs, c)


def check(ctx, obs, c):
    cls = c.o.cls if isinstance(c.o, Ob) else None
    w = lambda m: where(cls, m) if cls is not None else ''
    cons = 'affine.' + c.name
    lin = c.map('linear_map', X)
    if c.o is None or c.o is BOTTOM:
        obs.add('L01.linear', cons, BAD if c.o is BOTTOM else UND, 'cannot be constructed', '')
        return
    if c.lin is not None:
        compare(obs, 'L01.linear', cons, lin, c.nf(c.lin), 'linear_map(x)', w('linear_map'))
    off = c.attr('affine_offset')
    if off is NONE:
        off = ZERO
    if c.off is not None:
        compare(obs, 'L01.offset', cons, off, c.nf(c.off), 'affine_offset', w('__init__'))
    if isinstance(lin, T.Term) and isinstance(off, T.Term) and T.is_arith(off):
        aff = c.map('affine_map', X)
        if c.moff is not None:
            off = c.moff
        compare(obs, 'L01.affine', cons, aff, c.nf(add(lin, off)), 'affine_map(x) against linear_map(x) + affine_offset', w('affine_map'))
    else:
        obs.add('L01.affine', cons, UND, 'offset %s' % (T.show(off, 4) if isinstance(off, T.Term) else off), w('affine_map'))
    for k, a in enumerate(('input_shape', 'output_shape')):
        if c.shapes is not None and c.shapes[k] is not None:
            compare(obs, 'L01.shape', cons, c.attr(a), c.nf(c.shapes[k]), a, w('__init__'))
    adj = c.map('adjoint_map', c.u)
    try:
        tr = transpose_of(lin, X, c.u, c.scalars, c.nf) if isinstance(lin, T.Term) else None
    except No as e:
        obs.add('L02.adjoint', cons, UND, 'linear_map not transposed: %s' % e, w('linear_map'))
        return
    compare(obs, 'L02.adjoint', cons, adj, tr, 'adjoint_map(u) against the transpose of linear_map', w('adjoint_map'))


RULE1 = ('Every transform is built from opaque parts (two and three of them where it takes a list) or from arrays; linear_map, affine_map, '
         'affine_offset and the shapes are evaluated symbolically, brought to a normal form of operator words (L, Lt, indexing, scatter, '
         'cumulative and plain sums) and compared with the documented map; affine_map must be linear_map plus affine_offset.')
RULE2 = ('The term computed by linear_map is transposed word by word (index <-> scatter, cumsum <-> reversed cumsum, L <-> Lt, sum <-> '
         'broadcast) and must equal the term computed by adjoint_map.')
ASSUME = ['user-supplied parts are themselves linear maps with a correct adjoint', 'reshaping of arrays is not tracked', 'the incidence matrices of image2d.formD are opaque']
PROPS = {'L01': dict(run=lambda ctx, obs: transforms(ctx, Only(obs, 'L01')), floor=240, rule=RULE1, assumptions=ASSUME),
         'L02': dict(run=lambda ctx, obs: transforms(ctx, Only(obs, 'L02')), floor=55, rule=RULE2, assumptions=ASSUME)}


class Only(object):
    """record only the obligations of one property"""

    def __init__(self, obs, p):
        self.obs, self.p = obs, p

    def add(self, rule, *a):
        if rule.startswith(self.p):
            self.obs.add(rule, *a)
