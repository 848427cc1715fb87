"""Loading of the exported program (see tool/vifx.cpp)."""
import json
import re
import functools


class Fun:
    __slots__ = ('d', 'P', 'u', 'fn', 'sn', 'n', 'file', 'l', 'T', '__dict__')

    def __init__(self, d, P):
        self.d = d
        self.P = P
        self.u = d['u']
        self.fn = d['fn']
        self.sn = strip_targs(d['fn'])
        self.n = d['n']
        self.file = d['file']
        self.l = d['l']


class Program:
    """One translation unit."""

    def __init__(self, path, name):
        self.name = name
        self.funs = {}
        self.recs = {}
        self.gvars = {}
        self.pats = {}
        self.T = []
        self.errors = 0
        recs = []
        with open(path) as f:
            for line in f:
                o = json.loads(line)
                k = o['k']
                if k == 'fun':
                    fo = Fun(o, self)
                    self.funs[fo.u] = fo
                elif k == 'rec':
                    recs.append(o)
                elif k == 'pat':
                    self.pats[o['pk']] = o['fn']
                elif k == 'gvar':
                    self.gvars.setdefault(o['fn'], o)
                elif k == 'end':
                    self.T = o['types']
                    self.errors = o['errors']
        for r in recs:
            self.recs.setdefault(self.T[r['t']], r)


@functools.lru_cache(maxsize=None)
def strip_targs(s):
    """a::b<x<y>>::c -> a::b::c (operator<, operator<<, operator-> kept)"""
    out = []
    depth = 0
    i = 0
    n = len(s)
    while i < n:
        if depth == 0 and s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            j = i + 8
            m = re.match(r'(<<=|>>=|<=>|->\*|<<|>>|<=|>=|->|<|>|\(\)|\[\]|[-+*/%^&|!=~,]+)', s[j:])
            if m:
                out.append(s[i:j + m.end()])
                i = j + m.end()
                continue
        c = s[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


@functools.lru_cache(maxsize=None)
def noref(t):
    t = t.strip()
    while True:
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        else:
            return t


@functools.lru_cache(maxsize=None)
def isref(t):
    return t.rstrip().endswith('&')


@functools.lru_cache(maxsize=None)
def base(t):
    """strip references and top-level cv"""
    t = noref(t)
    while True:
        if t.startswith('const ') and not t.endswith('*'):
            t = t[6:]
        elif t.startswith('volatile ') and not t.endswith('*'):
            t = t[9:]
        elif t.endswith('*const'):
            t = t[:-5].strip()
        elif t.endswith(' const'):
            t = t[:-6].strip()
        else:
            return t


INTS = {
    'char': (True, 8), 'signed char': (True, 8), 'unsigned char': (False, 8),
    'short': (True, 16), 'unsigned short': (False, 16),
    'int': (True, 32), 'unsigned int': (False, 32),
    'long': (True, 64), 'unsigned long': (False, 64),
    'long long': (True, 64), 'unsigned long long': (False, 64),
    'wchar_t': (True, 32), 'char16_t': (False, 16), 'char32_t': (False, 32),
}
FLTS = {'float', 'double', 'long double'}


def split_targs(s):
    """split top-level template args of 'x<a, b<c,d>, e>' -> [a, b<c,d>, e]"""
    i = s.index('<')
    depth = 0
    out = []
    cur = ''
    for c in s[i:]:
        if c in '<([':
            depth += 1
            if depth == 1:
                continue
        if c in '>)]':
            depth -= 1
            if depth == 0:
                break
        if c == ',' and depth == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


@functools.lru_cache(maxsize=None)
def kind(t):
    """classify canonical type string -> tuple"""
    b = base(t)
    if b in INTS:
        return ('int',) + INTS[b]
    if b == 'bool':
        return ('bool',)
    if b in FLTS:
        return ('flt',)
    if b == 'void':
        return ('void',)
    if b.endswith('*') or b.endswith('*restrict'):
        p = b[:-1] if b.endswith('*') else b[:b.rindex('*')]
        return ('ptr', p.strip())
    if '(*)' in b:
        return ('fptr',)
    m = re.match(r'^(.*?)\s*\[(\d*)\]$', b)
    if m and not b.endswith(')'):
        m2 = re.match(r'^([^\[]*)\[(\d*)\](.*)$', b)
        et = (m2.group(1).strip() + m2.group(3))
        return ('arr', et, int(m2.group(2)) if m2.group(2) else 0)
    if b.startswith('std::atomic<') and strip_targs(b) == 'std::atomic':
        return kind(split_targs(b)[0])
    if b.startswith('std::vector<'):
        return ('vec', split_targs(b)[0]) if strip_targs(b) == 'std::vector' else ('unk', b)
    if b.startswith('std::array<') and strip_targs(b) == 'std::array':
        a = split_targs(b)
        try:
            return ('arr', a[0], int(a[1].rstrip('UL')))
        except ValueError:
            return ('unk', b)
    if b.startswith('std::initializer_list<') and strip_targs(b) == 'std::initializer_list':
        return ('vec', split_targs(b)[0])
    if b.startswith('std::basic_string<') and strip_targs(b) == 'std::basic_string':
        return ('str',)
    if b.startswith('__gnu_cxx::__normal_iterator<') and strip_targs(b) == '__gnu_cxx::__normal_iterator':
        return ('iter', split_targs(b)[0])
    return ('cls', b)


def vecinfo(t):
    """vif::vec<D, E> -> (D, E) or None"""
    b = base(t)
    if b.startswith('vif::vec<') and strip_targs(b) == 'vif::vec':
        a = split_targs(b)
        try:
            return int(a[0].rstrip('UL')), a[1]
        except ValueError:
            return None
    return None


def walk(n, f):
    """pre-order walk over every dict node"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            f(x)
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def nodes(n, pred=None):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x and (pred is None or pred(x)):
                yield x
            st.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            st.extend(reversed(x))
