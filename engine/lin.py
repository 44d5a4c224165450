"""Symbols, linear forms, and the LP oracle of the relational domain."""
import ctypes, os
from fractions import Fraction
from array import array

SYM_NAME = []
SYM_LO = []
SYM_HI = []
WRAPOF = {}        # wrap symbol -> linear form it reduces
SYM_MULT = []      # symbol is known to be an integer multiple of this symbol (or None)

def newsym(name, lo=None, hi=None, mult=None):
    SYM_NAME.append(name); SYM_LO.append(lo); SYM_HI.append(hi); SYM_MULT.append(mult)
    return len(SYM_NAME) - 1

class Lin(object):
    __slots__ = ('c', 't', 'lit', 'h')
    def __init__(self, c, t=(), lit=False):
        self.c = c; self.t = t; self.lit = lit; self.h = hash((c, t))
    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def __ne__(self, o):
        return not (self == o)
    def __hash__(self):
        return self.h
    def isconst(self):
        return not self.t
    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        return Lin(self.c + o.c, _merge(self.t, o.t, 1))
    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        if not o.t: return Lin(self.c - o.c, self.t)
        return Lin(self.c - o.c, _merge(self.t, o.t, -1))
    def __neg__(self):
        return Lin(-self.c, tuple((s, -a) for s, a in self.t))
    def scale(self, k):
        if k == 0: return ZERO
        if k == 1: return self
        return Lin(self.c * k, tuple((s, a * k) for s, a in self.t))
    def coef(self, s):
        for x, a in self.t:
            if x == s: return a
        return 0
    def syms(self):
        return [s for s, _ in self.t]
    def subst(self, m):
        """m: dict sym -> Lin"""
        hit = False
        for s, _ in self.t:
            if s in m: hit = True; break
        if not hit: return self
        d = {}; c = self.c
        for s, a in self.t:
            r = m.get(s)
            if r is None:
                d[s] = d.get(s, 0) + a
            else:
                c += a * r.c
                for s2, a2 in r.t: d[s2] = d.get(s2, 0) + a * a2
        return mk(c, d)
    def gcd(self):
        from math import gcd
        g = 0
        for _, a in self.t: g = gcd(g, a)
        return g
    def __repr__(self):
        out = []
        for s, a in self.t:
            n = '%s#%d' % (SYM_NAME[s], s)
            out.append(('+' if a > 0 else '-') + ('' if abs(a) == 1 else str(abs(a)) + '*') + n)
        if self.c or not out: out.append('%+d' % self.c)
        r = ''.join(out)
        return r[1:] if r.startswith('+') else r

def _merge(t1, t2, k):
    out = []; i = j = 0; n1 = len(t1); n2 = len(t2)
    while i < n1 and j < n2:
        s1, a1 = t1[i]; s2, a2 = t2[j]
        if s1 < s2: out.append(t1[i]); i += 1
        elif s2 < s1: out.append((s2, k * a2)); j += 1
        else:
            a = a1 + k * a2
            if a: out.append((s1, a))
            i += 1; j += 1
    out.extend(t1[i:])
    if k == 1: out.extend(t2[j:])
    else:
        for s2, a2 in t2[j:]: out.append((s2, k * a2))
    return tuple(out)

def mk(c, d):
    return Lin(c, tuple(sorted((s, a) for s, a in d.items() if a)))

def K(c): return Lin(c)
def LIT(c): return Lin(c, (), True)
def S(s): return Lin(0, ((s, 1),))
ZERO = Lin(0)
ONE = Lin(1)

BIG = 1 << 63
M64 = (1 << 64) - 1
_lib = None
def load_lp(path):
    global _lib
    _lib = ctypes.CDLL(path)
    _lib.lp_infeasible.restype = ctypes.c_int

LPN = [0, 0]
def infeasible(rows, bounds, pt=None):
    """rows: list of Lin (>=0). bounds: function sym -> (lo,hi). Sound: True means no solution."""
    idx = {}; flat = []; nrows = 0
    useH = False
    for r in rows:
        c = r.c
        if not r.t:
            if c < 0: return True
            continue
        k = len(r.t); hh = 0
        if c > (1 << 59) or c < -(1 << 59):
            hh = (c + (1 << 62)) >> 63 if True else 0
            c = c - (hh << 63)
            useH = True
        if c > (1 << 62) or c < -(1 << 62):
            return None
        flat.append(k + (1 if hh else 0)); flat.append(c)
        for s, a in r.t:
            i = idx.get(s)
            if i is None: i = idx[s] = len(idx)
            if a > (1 << 60) or a < -(1 << 60): return None
            flat.append(i); flat.append(a)
        if hh: flat.append(-1); flat.append(hh)
        nrows += 1
    nv = len(idx)
    vb = []
    extra = []
    for s, i in idx.items():
        lo, hi = bounds(s)
        a = b = c2 = d = 0
        if lo is not None:
            if -(1 << 59) <= lo <= (1 << 59): a, b = 1, lo
            else:
                h = (lo + (1 << 62)) >> 63; extra.append((i, 1, -(lo - (h << 63)), -h)); useH = True
        if hi is not None:
            if -(1 << 59) <= hi <= (1 << 59): c2, d = 1, hi
            else:
                h = (hi + (1 << 62)) >> 63; extra.append((i, -1, hi - (h << 63), h)); useH = True
        vb.extend((a, b, c2, d))
    if useH:
        H = nv; nv += 1
        vb.extend((1, 1 << 61, 0, 0))
        for j in range(len(flat)): pass
        # patch -1 indices: walk rows
        p = 0
        for _ in range(nrows):
            k = flat[p]; p += 2
            for _ in range(k):
                if flat[p] == -1: flat[p] = H
                p += 2
        for i, a, c, h in extra:
            if h:
                flat.extend((2, c, i, a, H, h))
            else:
                flat.extend((1, c, i, a))
            nrows += 1
    va = array('q', vb); fa = array('q', flat)
    LPN[0] += 1
    sol = (ctypes.c_int64 * (4 * nv + 2))() if pt is not None and nv else None
    r = _lib.lp_infeasible(nv, (ctypes.c_int64 * len(va)).from_buffer(va) if nv else None, nrows,
                           (ctypes.c_int64 * len(fa)).from_buffer(fa) if nrows else None, sol)
    if r == 0 and sol is not None and sol[4 * nv] == 1:
        if useH: idx[-1] = H
        for s, i in idx.items():
            n = (sol[4 * i] & M64) + (sol[4 * i + 1] << 64); d = (sol[4 * i + 2] & M64) + (sol[4 * i + 3] << 64)
            pt[s] = n if d == 1 else Fraction(n, d)
    return r == 1
