"""Cython sources as Python syntax trees: types, casts and declarations are dropped."""
import ast, re
from .model import Module

CTYPE = r'(?:unsigned\s+|signed\s+|const\s+)*(?:[A-Za-z_][\w.]*)(?:\s*\[[^\]]*\])?(?:\s*\*+)?'


def _split(s):
    """split at top level commas"""
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def _strip_comment(l):
    q = None
    for i, ch in enumerate(l):
        if q:
            if ch == q:
                q = None
        elif ch in '"\'':
            q = ch
        elif ch == '#':
            return l[:i]
    return l


def _param(p):
    p = p.strip()
    if not p or p.startswith('*'):
        return p
    d = ''
    p = re.sub(r'^((?:[\w.]+\s*)?)\[[^\]]*\]', r'\1 ', p)
    m = re.match(r'^(.*?)\s*=\s*(.*)$', p, re.S)
    if m and '==' not in p:
        p, d = m.group(1).strip(), '=' + m.group(2).strip()
    p = re.sub(r'\[[^\]]*\]', '', p)
    p = re.sub(r'\bnot\s+None\b|\bor\s+None\b', '', p).strip()
    return re.split(r'[\s*]+', p)[-1] + d


def decast(l):
    """remove <type *> casts and address-of array data"""
    l = re.sub(r'<\s*(?:unsigned\s+|const\s+)*[A-Za-z_][\w.]*\s*\**\s*>\s*(?=[\w(&-])', '', l)
    return re.sub(r'(?<![\w)\]])&\s*(\w+)\s*\[\s*0\s*\]', r'\1', re.sub(r'\b(\w+)\.data\b', r'\1', l))


def to_python(src):
    """Python source with the same line numbers; names declared `cdef extern` are returned too"""
    lines = src.split('\n')
    out = [''] * len(lines)
    extern = set()
    types = {}
    i = 0
    skip_indent = None
    intext = None
    while i < len(lines):
        raw = lines[i]
        l = _strip_comment(raw) if intext is None else raw
        st = l.strip()
        ind = len(l) - len(l.lstrip())
        # docstrings
        if intext is None:
            m = re.search(r'("""|\'\'\')', l)
            if m:
                if l.count(m.group(1)) % 2 == 1:
                    intext = m.group(1)
                    out[i] = raw
                    i += 1
                    continue
                out[i] = raw
                i += 1
                continue
        else:
            out[i] = raw
            if raw.count(intext) % 2 == 1:
                intext = None
            i += 1
            continue
        if not st:
            i += 1
            continue
        if skip_indent is not None:
            if ind > skip_indent:
                for m in re.finditer(r'(\w+)\s*\(', st):
                    extern.add(m.group(1))
                    break
                i += 1
                continue
            skip_indent = None
        if re.match(r'cdef\s+extern\b', st):
            skip_indent = ind
            i += 1
            continue
        if re.match(r'(ctypedef|cimport|from\s+\S+\s+cimport)\b', st) or re.match(r'@\s*(cython|cy)\.', st):
            i += 1
            continue
        if re.match(r'import\b', st):
            st = re.sub(r',\s*cython\b|\bcython\s*,\s*', '', st)
            out[i] = ' ' * ind + (st if st != 'import cython' else 'pass')
            i += 1
            continue
        # function headers, possibly over several lines
        m = re.match(r'(?:cdef|cpdef|def)\s+(?:inline\s+)?(?:(?!class\b)[\w.*\[\], =]*?\s+\**)?(\w+)\s*\(', st)
        if m and (st.startswith('def') or re.match(r'c(p)?def\s+(inline\s+)?[\w.*\[\], =]*?\**\s*\w+\s*\(', st) and '=' not in st.split('(')[0].replace('ndim=', '')):
            j, txt = i, l
            while txt.count('(') > txt.count(')') or not txt.rstrip().endswith(':'):
                j += 1
                txt += '\n' + _strip_comment(lines[j])
            a, b = txt.index('('), txt.rindex(')')
            ps = _split(txt[a + 1:b])
            types[m.group(1)] = [re.sub(r'\s+', ' ', p.strip()) for p in ps]
            out[i] = ' ' * ind + 'def %s(%s):' % (m.group(1), ', '.join(_param(p) for p in ps))
            i = j + 1
            continue
        if re.match(r'cdef\s*:', st):
            i += 1
            continue
        if st.startswith('cdef '):
            j, txt = i, l
            while txt.count('(') + txt.count('[') > txt.count(')') + txt.count(']') or txt.rstrip().endswith('\\'):
                txt = txt.rstrip().rstrip('\\')
                j += 1
                txt += ' ' + _strip_comment(lines[j]).strip()
            body = txt.strip()[5:]
            body = re.sub(r'^(?:[\w.]+)\s*\[[^\]]*\]\s*', 'T ', body)          # buffers
            if re.match(r'^\w+\s*=(?!=)', body):
                body = 'T ' + body
            m = re.match(r'^(?:unsigned\s+|const\s+)*[\w.]+\s*(.*)$', body, re.S)
            rest = m.group(1) if m else ''
            asg = []
            for p in _split(rest):
                p = p.strip().lstrip('*').strip()
                if '=' in p:
                    asg.append(decast(p))
            out[i] = ' ' * ind + ('; '.join(asg) if asg else 'pass')
            i = j + 1
            continue
        out[i] = decast(l)
        i += 1
    return '\n'.join(out), extern, types


def module(model, name):
    """a Module for regreg.x.y given by a .pyx file, or None"""
    path = model.cython.get(name)
    if path is None:
        return None
    import os
    src, extern, types = to_python(open(path, encoding='utf-8').read())
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src, path)
    m = Module(name, path, os.path.relpath(path, model.repo), tree, False, src)
    model._scan(m, tree.body)
    m.extern, m.ctypes = extern, types
    return m


if __name__ == '__main__':
    import sys
    from .model import Model
    M = Model()
    for n in sorted(M.cython):
        try:
            m = module(M, n)
            print(n, sorted(m.funcs), sorted(m.extern))
            if len(sys.argv) > 1 and n.endswith(sys.argv[1]):
                print(m.src)
        except SyntaxError as e:
            print(n, e, to_python(open(M.cython[n]).read())[0].split('\n')[e.lineno - 1])
