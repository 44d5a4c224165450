"""Abstract interpreter over the JSON rendering of LLVM IR (see ir/irdump.cpp).

Trace-partitioned, context-sensitive (defined callees are inlined), with a relational
numeric domain: every integer is a linear form over symbols; a state carries linear
constraints and equalities; loops are solved by a Karr-style affine join plus a
filtered set of candidate inequalities (greatest fixpoint), with the fixpoint checked
for inclusion before obligations are evaluated."""
import sys, os, time
DEBUG = bool(os.environ.get('AI_DEBUG'))
from lin import *
import lin as LN
from fractions import Fraction
from loops import LoopMixin

sys.setrecursionlimit(10000)

class AnalysisError(Exception):
    pass

class Obj(object):
    _n = 0
    def __init__(self, name, kind, size=None, lazy=None, handler=None, **kw):
        Obj._n += 1
        self.id = Obj._n; self.name = name; self.kind = kind
        self.size = size if (size is None or isinstance(size, Lin)) else K(size)
        self.lazy = lazy; self.handler = handler
        self.ro = kw.get('ro', False); self.info = kw
        self.allow_fn = None
    def __repr__(self): return '%s:%d' % (self.name, self.id)

class Ptr(object):
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off=ZERO):
        self.obj = obj; self.off = off
    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((id(self.obj), self.off))
    def __repr__(self): return 'null' if self.obj is None else '&%r[%r]' % (self.obj, self.off)
NULL = Ptr(None)

class Fn(object):
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __eq__(self, o): return isinstance(o, Fn) and o.name == self.name
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(('fn', self.name))
    def __repr__(self): return 'fn:' + self.name

class Bits(object):
    """(sym & am) | om"""
    __slots__ = ('s', 'am', 'om')
    def __init__(self, s, am, om): self.s = s; self.am = am; self.om = om
    def __eq__(self, o): return isinstance(o, Bits) and (self.s, self.am, self.om) == (o.s, o.am, o.om)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(('b', self.s, self.am, self.om))
    def __repr__(self): return '(%s#%d&%x|%x)' % (SYM_NAME[self.s], self.s, self.am, self.om)

class Cond(object):
    """k: 'ge' (lin>=0), 'eq' (lin==0), 'bits' ((sym&mask)==val)"""
    __slots__ = ('k', 'd', 'neg')
    def __init__(self, k, d, neg=False): self.k = k; self.d = d; self.neg = neg
    def inv(self): return Cond(self.k, self.d, not self.neg)
    def __eq__(self, o): return isinstance(o, Cond) and (self.k, self.d, self.neg) == (o.k, o.d, o.neg)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((self.k, self.d, self.neg))
    def __repr__(self): return '%s%s(%r)' % ('!' if self.neg else '', self.k, self.d)

class _U(object):
    def __repr__(self): return 'undef'
UNDEF = _U()

class CNode(object):
    __slots__ = ('p', 'lin', 'depth', 'id', 'eq', 'pts')
    n = 0
    def addpt(self, pt):
        if self.pts is None: self.pts = [pt]
        elif pt not in self.pts:
            self.pts.insert(0, pt)
            if len(self.pts) > 12: self.pts.pop()
    def __init__(self, p, lin, eq=None):
        self.p = p; self.lin = lin; self.depth = (p.depth + 1) if p else 1
        CNode.n += 1; self.id = CNode.n; self.eq = eq; self.pts = None

class Mem(object):
    __slots__ = ('cells', 'syms', 'fills', 'ver', 'dead')
    def __init__(self):
        self.cells = {}; self.syms = (); self.fills = (); self.ver = 0; self.dead = None
    def copy(self):
        m = Mem(); m.cells = dict(self.cells); m.syms = self.syms; m.fills = self.fills
        m.ver = self.ver; m.dead = self.dead
        return m

_ENT = {}
_NROWS = {}
def ptval(pt, l):
    v = l.c
    if v > (1 << 59) or v < -(1 << 59):
        H = pt.get(-1)
        if H is None: return None
        hh = (v + (1 << 62)) >> 63
        v = v - (hh << 63) + hh * H
    for s, a in l.t:
        x = pt.get(s)
        if x is None: return None
        v += a * x
    return v
_BOUND_CACHE = {}
STAT = {'pts': 0, 'ent': 0, 'lp': 0, 'steps': 0, 'joins': 0}

class State(object):
    __slots__ = ('env', 'mem', 'cons', 'eqs', 'eqid', 'bnd', 'kb', 'g', 'mon', 'ps', 'ne', 'trace', 'cidx', 'memown')
    def __init__(self):
        self.env = {}; self.mem = {}; self.cons = None; self.eqs = {}; self.eqid = 0
        self.bnd = {}; self.kb = {}; self.g = {}; self.mon = {}; self.ps = {}; self.ne = frozenset()
        self.trace = None; self.cidx = {}; self.memown = set()
    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.mem = dict(self.mem); s.cons = self.cons; s.eqs = self.eqs; s.eqid = self.eqid
        s.bnd = self.bnd; s.kb = self.kb; s.g = dict(self.g); s.mon = dict(self.mon); s.ps = dict(self.ps)
        s.ne = self.ne; s.trace = self.trace; s.cidx = self.cidx
        s.memown = set(); self.memown = set()
        return s
    # ---- memory objects
    def m(self, obj):
        r = self.mem.get(obj.id)
        if r is None:
            r = self.mem[obj.id] = Mem(); self.memown.add(obj.id)
        return r
    def mw(self, obj):
        i = obj.id
        r = self.mem.get(i)
        if r is None:
            r = self.mem[i] = Mem(); self.memown.add(i)
        elif i not in self.memown:
            r = self.mem[i] = r.copy(); self.memown.add(i)
        return r
    # ---- numeric
    def norm(self, l):
        e = self.eqs
        if not e: return l
        return l.subst(e)
    def bounds(self, s):
        b = self.bnd.get(s)
        if b is not None: return b
        return (SYM_LO[s], SYM_HI[s])
    def interval(self, l):
        lo = hi = l.c
        for s, a in l.t:
            bl, bh = self.bounds(s)
            if a < 0: bl, bh = bh, bl
            if lo is not None: lo = None if bl is None else lo + a * bl
            if hi is not None: hi = None if bh is None else hi + a * bh
            if lo is None and hi is None: break
        return lo, hi
    def constraints(self):
        out = []; n = self.cons
        while n is not None:
            out.append(n); n = n.p
        out.reverse()
        return out
    def normed_rows(self):
        """the non-trivial constraints, restated without eliminated symbols"""
        c = self.cons
        if c is None: return ()
        key = (c.id, self.eqid)
        r = _NROWS.get(key)
        if r is None:
            eqs = self.eqs
            r = []; seen = set()
            n = c
            while n is not None:
                if n.eq is None:
                    l = n.lin
                    l2 = l.subst(eqs) if eqs else l
                    if len(l2.t) == 1 and l2 is l: pass
                    elif l2.t and l2 not in seen:
                        seen.add(l2); r.append(l2)
                elif n.lin.subst(eqs).t:
                    l2 = n.lin.subst(eqs); r.append(l2); r.append(-l2)
                n = n.p
            _NROWS[key] = r
        return r
    def _rows(self, lin):
        """constraints connected to lin"""
        seen = set(s for s, _ in lin.t)
        pend = self.normed_rows()
        rows = []
        chg = True
        while chg and pend:
            chg = False; rest = []
            for l in pend:
                hit = False
                for s, _ in l.t:
                    if s in seen: hit = True; break
                if hit:
                    rows.append(l)
                    for s, _ in l.t:
                        if s not in seen: seen.add(s); chg = True
                else: rest.append(l)
            pend = rest
        return rows
    def entails(self, q):
        """q >= 0 ?"""
        q = self.norm(q)
        if not q.t: return q.c >= 0
        lo, hi = self.interval(q)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        c = self.cidx.get(q.t)
        if c is not None and q.c >= c: return True
        if q.c == -1 and self.ne:
            q1 = q + 1
            if q1 in self.ne or (-q1) in self.ne:
                return self.entails(q1)
        STAT['ent'] += 1
        key = (self.cons.id if self.cons else 0, q)
        r = _ENT.get(key)
        if r is None:
            r = _ENT[key] = self._entails(q)
        return r
    def _entails(self, q):
        c = self.cons
        if c is not None and self.refuted(c, q):
            STAT['pts'] += 1
            return False
        rows = self._rows(q)
        rows.append(-q - 1)
        STAT['lp'] += 1
        pt = {}
        r = bool(infeasible(rows, self.bounds, pt))
        if not r and pt and c is not None: c.addpt(pt)
        return r
    def refuted(self, c, q):
        """a stored solution of the constraints violates q"""
        nodes = []; n = c; k = 0
        while n is not None and k < 40:
            if n.pts:
                for pt in n.pts:
                    v = ptval(pt, q)
                    if v is None or v > -1: continue
                    ok = True
                    for nd in nodes:
                        w = ptval(pt, nd.lin)
                        if w is None or w < 0 or (w and nd.eq is not None): ok = False; break
                    if ok:
                        if n is not c: c.addpt(pt)
                        return True
            nodes.append(n); n = n.p; k += 1
        return False
    def feasible_with(self, q):
        """may q >= 0 hold?"""
        return not self.entails(-q - 1)
    def _addnode(self, lin, eq=None):
        self.cons = CNode(self.cons, lin, eq)
    def add_ge(self, lin):
        """assume lin >= 0; returns False if infeasible"""
        lin = self.norm(lin)
        if not lin.t: return lin.c >= 0
        g = lin.gcd()
        if g > 1:
            lin = Lin(lin.c // g, tuple((s, a // g) for s, a in lin.t))
        lo, hi = self.interval(lin)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        if self.entails(-lin - 1): return False
        if self.ne and lin in self.ne: lin = lin - 1
        elif self.ne and (-lin) in self.ne: lin = lin - 1
        if len(lin.t) == 1:
            s, a = lin.t[0]
            bl, bh = self.bounds(s)
            if a == 1:
                v = -lin.c
                if bl is None or v > bl: bl = v
            else:
                v = lin.c
                if bh is None or v < bh: bh = v
            self.bnd = dict(self.bnd); self.bnd[s] = (bl, bh)
            self._addnode(lin)
            if bl is not None and bl == bh: return self._eq(S(s) - bl)
            return True
        c = self.cidx.get(lin.t)
        if c is not None and c <= lin.c: return True
        self.cidx = dict(self.cidx); self.cidx[lin.t] = lin.c
        self._addnode(lin)
        # detect implied equality
        nt = tuple((s, -a) for s, a in lin.t)
        c2 = self.cidx.get(nt)
        if c2 is not None and c2 == -lin.c:
            return self._eq(lin)
        return True
    def _eq(self, lin, prefer=None):
        """assume lin == 0 (normed)"""
        lin = self.norm(lin)
        if not lin.t: return lin.c == 0
        g = lin.gcd()
        if g > 1:
            if lin.c % g: return False
            lin = Lin(lin.c // g, tuple((s, a // g) for s, a in lin.t))
        cand = pick_elim(lin)
        if prefer is not None and lin.coef(prefer) in (1, -1): cand = (prefer, lin.coef(prefer))
        if cand is None:
            self._addnode(lin); self._addnode(-lin)
            return True
        s, a = cand
        rest = Lin(lin.c, tuple(x for x in lin.t if x[0] != s))
        rep = rest.scale(-1) if a == 1 else rest
        ne = {}
        m = {s: rep}
        for k, v in self.eqs.items(): ne[k] = v.subst(m)
        ne[s] = rep
        self.eqs = ne
        CNode.n += 1; self.eqid = CNode.n
        self._addnode(lin, eq=s)
        # known bits
        if s in self.kb and not rep.t:
            kz, ko = self.kb[s]
            if (rep.c & kz) or (~rep.c & ko): return False
        bl, bh = self.bounds(s)
        if bl is not None and not self.add_ge(rep - bl): return False
        if bh is not None and not self.add_ge(Lin(bh) - rep): return False
        if self.ne:
            n2 = set()
            for l in self.ne:
                l2 = self.norm(l)
                if not l2.t:
                    if l2.c == 0: return False
                else: n2.add(l2)
            self.ne = frozenset(n2)
        return True
    def add_eq(self, lin, prefer=None):
        lin = self.norm(lin)
        if not lin.t: return lin.c == 0
        lo, hi = self.interval(lin)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
        if lin in self.ne or (-lin) in self.ne: return False
        if self.entails(lin - 1) or self.entails(-lin - 1): return False
        return self._eq(lin, prefer)
    def add_ne(self, lin):
        lin = self.norm(lin)
        if not lin.t: return lin.c != 0
        g = lin.gcd()
        if g > 1 and lin.c % g: return True
        lo, hi = self.interval(lin)
        if lo == 0: return self.add_ge(lin - 1)
        if hi == 0: return self.add_ge(-lin - 1)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return True
        if self.entails(lin): return self.add_ge(lin - 1)
        if self.entails(-lin): return self.add_ge(-lin - 1)
        self.ne = self.ne | frozenset([lin])
        return True
    def is_eq(self, lin):
        lin = self.norm(lin)
        if not lin.t: return lin.c == 0
        lo, hi = self.interval(lin)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
        return self.entails(lin) and self.entails(-lin)

PARAMS = set()
def pick_elim(lin):
    """symbol to eliminate with an equation: newest ordinary symbol, else a multiple symbol, else a parameter"""
    c1 = c2 = None
    for s, a in reversed(lin.t):
        if a in (1, -1):
            if s in PARAMS:
                if c2 is None: c2 = (s, a)
            elif SYM_MULT[s] is not None:
                if c1 is None: c1 = (s, a)
            else: return (s, a)
    return c1 or c2

def strip_mult(l, base):
    """drop terms that are multiples of symbol `base`"""
    t = tuple((s, a) for s, a in l.t if s != base and SYM_MULT[s] != base)
    if len(t) == len(l.t): return l
    return Lin(l.c, t)

class Func(object):
    def __init__(self, name, d):
        self.name = name; self.d = d
        self.blocks = d['blocks']
        self.args = d['args']
        self.nb = len(self.blocks)
        self.succ = []
        for b in self.blocks:
            t = b[-1]
            if t['o'] == 'br': s = list(t['s'])
            elif t['o'] == 'switch': s = [c[1] for c in t['cases']] + [t['def']]
            else: s = []
            self.succ.append(s)
        self.pred = [[] for _ in self.blocks]
        for i, ss in enumerate(self.succ):
            for s in ss:
                if i not in self.pred[s]: self.pred[s].append(i)
        self._rpo(); self._loops(); self._live()
    def _rpo(self):
        seen = set(); order = []
        stack = [(0, iter(self.succ[0]))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succ[s]))); adv = True; break
            if not adv:
                order.append(b); stack.pop()
        order.reverse()
        self.rpo = order; self.rpoi = {b: i for i, b in enumerate(order)}
    def _loops(self):
        # dominators
        idom = {0: 0}
        chg = True
        def inter(a, b):
            while a != b:
                while self.rpoi[a] > self.rpoi[b]: a = idom[a]
                while self.rpoi[b] > self.rpoi[a]: b = idom[b]
            return a
        while chg:
            chg = False
            for b in self.rpo[1:]:
                n = None
                for p in self.pred[b]:
                    if p in idom: n = p if n is None else inter(p, n)
                if idom.get(b) != n: idom[b] = n; chg = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.rpoi[s] <= self.rpoi[b]:
                    if not dom(s, b): raise AnalysisError('irreducible control flow in ' + self.name)
                    body = self.loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(p for p in self.pred[x] if p in self.rpoi)
        # innermost loop header of each block; parent
        self.inloop = {}
        for b in self.rpo:
            best = None
            for h, body in self.loops.items():
                if b in body and (best is None or len(body) < len(self.loops[best])): best = h
            self.inloop[b] = best
        self.parent = {}
        for h, body in self.loops.items():
            best = None
            for h2, b2 in self.loops.items():
                if h2 != h and h in b2 and (best is None or len(b2) < len(self.loops[best])): best = h2
            self.parent[h] = best
    def _live(self):
        use = []; defs = []
        for b in self.blocks:
            u = set(); d = set()
            for i in b:
                if i['o'] == 'phi':
                    d.add(i['d']); continue
                for a in ops_of(i):
                    if a[0] == 'v' and a[1] not in d: u.add(a[1])
                if 'd' in i: d.add(i['d'])
            use.append(u); defs.append(d)
        phiuse = [dict() for _ in self.blocks]  # pred -> set
        for bi, b in enumerate(self.blocks):
            for i in b:
                if i['o'] != 'phi': break
                for v, p in i['in']:
                    if v[0] == 'v': phiuse[bi].setdefault(p, set()).add(v[1])
        livein = [set() for _ in self.blocks]
        chg = True
        while chg:
            chg = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    pd = set(i['d'] for i in self.blocks[s] if i['o'] == 'phi')
                    out |= (livein[s] - pd)
                    out |= phiuse[s].get(b, set())
                ph = set(i['d'] for i in self.blocks[b] if i['o'] == 'phi')
                n = use[b] | (out - defs[b])
                n = n | ph
                if n != livein[b]: livein[b] = n; chg = True
        # phis of block that are used
        self.live = livein

def ops_of(i):
    for a in i.get('a', ()):
        if isinstance(a, list): yield a
    if i['o'] == 'getelementptr':
        for v in i.get('vs', ()): yield v[0]
    if i['o'] == 'call': yield i['callee']

class Module(object):
    def __init__(self, d):
        self.d = d
        self.funcs = {}
        self._fd = d['funcs']
        self.globals = d['globals']
        self.types = d['types']
    def func(self, n):
        f = self.funcs.get(n)
        if f is None and n in self._fd:
            f = self.funcs[n] = Func(n, self._fd[n])
        return f
    def defined(self, n): return n in self._fd
    def strip(self, ti):
        t = self.types[ti]
        while t['k'] in ('typedef', 'const', 'volatile'):
            ti = t['base']
            if ti < 0: return None
            t = self.types[ti]
        return t
    def struct_of(self, ti):
        t = self.strip(ti)
        return t
    def fields(self, t, pre='', off=0, depth=0):
        """flattened scalar fields: name -> (off,size,kind)"""
        out = {}
        for m in t.get('members', ()):
            mt = self.strip(m['ty']) if m['ty'] >= 0 else None
            nm = pre + m['name']
            o = off + m['off']
            if mt is not None and mt['k'] in ('struct', 'union') and depth < 5 and mt.get('members'):
                sub = self.fields(mt, (nm + '.') if m['name'] else pre, o, depth + 1)
                out.update(sub)
                if m['name']: out[nm] = (o, m['size'], 'struct')
            else:
                out[nm] = (o, m['size'], mt['k'] if mt else '?')
        return out
    def find_struct(self, name):
        for t in self.types:
            if t['k'] in ('struct', 'union') and t['name'] == name and t.get('members'): return t
        for t in self.types:
            if t['k'] == 'typedef' and t['name'] == name and t['base'] >= 0:
                u = self.strip(t['base'])
                if u and u.get('members'): return u
        return None

WRAPMEMO = {}
def memo_sym(key, name, lo, hi, mult=None):
    s = WRAPMEMO.get(key)
    if s is None:
        s = WRAPMEMO[key] = newsym(name, lo, hi, mult)
    return s

PRED = {'eq': 'eq', 'ne': 'ne'}

class Interp(LoopMixin):
    MERGE_AT = 24
    only = None         # evaluate only the obligations of these properties
    deadline = None
    UNROLL = None       # None: fixpoint; k: iterations 0..k of every loop kept apart, later ones cut
    root = '/repo/'
    MAXSTATES = 400
    def __init__(self, mod):
        self.mod = mod
        self.mute = 0
        self.stack = []
        self.gobj = {}
        self.viol = {}
        self.nob = {}
        self.models = {}
        self.strobj = {}
        self.fns = set()
        self.recdepth = {}
        self.cmp_lins = None
        self.paths = 0
        self.splitmods = PARAMS
        self.nsteps = 0
        self.allocn = {}
        self.cut = {}
        self.undecided = {}
    # ------------------------------------------------------------ reporting
    def loc(self, ins):
        l = ins.get('l') if ins else None
        if l: return '%s:%d' % (l[0].replace(self.root, '', 1) if l[0].startswith(self.root) else l[0], l[1])
        return '?'
    def oblige(self, prop, ok, st, ins, msg):
        """prop: property id or tuple. ok: bool or callable(st)->bool"""
        if self.mute: return True
        props = prop if isinstance(prop, tuple) else (prop,)
        if self.only is not None and not any(p in self.only for p in props): return True
        if callable(ok): ok = ok()
        for p in props:
            key = (p, self.loc(ins), msg.split('|')[0])
            c = self.nob.setdefault(key, [0, 0])
            c[0] += 1
            if ok: c[1] += 1
            else: self.report(p, st, ins, msg)
        return ok
    def report(self, prop, st, ins, msg):
        key = (prop, self.loc(ins), msg.split('|')[0])
        if key in self.viol: return
        tr = []; t = st.trace
        while t is not None and len(tr) < 60:
            tr.append(t[1]); t = t[0]
        tr.reverse()
        self.viol[key] = {'property': prop, 'at': self.loc(ins), 'function': self.stack[-1][0] if self.stack else '?',
                          'callstack': ['%s@%s' % (f, l) for f, l in self.stack], 'msg': msg, 'path': tr, 'case': getattr(self, 'case', '')}
    # ------------------------------------------------------------ operands
    def globalobj(self, name):
        o = self.gobj.get(name)
        if o is None:
            g = self.mod.globals.get(name, {})
            o = Obj('@' + name, 'global', g.get('size'), lazy=self.lazy_default)
            if g.get('const') or (('bytes' in g) and name.startswith('.str')) or name.startswith('.str') or name.startswith('__const'):
                o.ro = True
            self.gobj[name] = o
        return o
    def init_global(self, st, o):
        name = o.name[1:]
        g = self.mod.globals.get(name, {})
        m = st.mw(o)
        if m.cells or m.fills: return
        if 'bytes' in g:
            for i, b in enumerate(g['bytes']): m.cells[i] = (1, K(b if b < 128 else b - 256))
            o.info['str'] = bytes(g['bytes'])
        elif 'ints' in g:
            for i, b in enumerate(g['ints']): m.cells[i * g['esz']] = (g['esz'], K(b))
        elif g.get('zero'):
            m.fills = ((ZERO, K(g['size']), 0),)
        elif 'fields' in g:
            m.fills = ((ZERO, K(g['size']), 0),)
            for off, sz, op in g['fields']:
                if op[0] == 'z': continue
                v = self.opval(st, op)
                if op[0] == 'n': v = NULL
                m.cells[off] = (sz, v)
    def opval(self, st, a):
        k = a[0]
        if k == 'v': return st.env.get(a[1], UNDEF)
        if k == 'i': return LIT(int(a[1]))
        if k == 'n': return NULL
        if k == 'f': return Fn(a[1])
        if k == 'g':
            o = self.globalobj(a[1])
            if o.id not in st.mem and o.ro: self.init_global(st, o)
            return Ptr(o)
        if k == 'ce':
            b = self.opval(st, a[1])
            if isinstance(b, Ptr) and b.obj is not None: return Ptr(b.obj, b.off + a[2])
            return UNDEF
        if k == 'ip':
            return self.intptr(a[1])
        return UNDEF
    def intptr(self, v):
        o = self.gobj.get(('ip', v))
        if o is None:
            o = self.gobj[('ip', v)] = Obj('int%d' % v, 'badptr', 0)
        return Ptr(o)
    # ------------------------------------------------------------ numbers
    def fresh(self, name, w, signed=None):
        if w is None or not isinstance(w, int): return S(newsym(name))
        if signed is None: signed = w <= 32
        if signed: return S(newsym(name, -(1 << (w - 1)), (1 << (w - 1)) - 1))
        return S(newsym(name, 0, (1 << w) - 1))
    def tolin(self, st, v, w):
        if isinstance(v, Lin): return v
        if isinstance(v, Bits):
            if not v.am: return K(v.om)
            return S(memo_sym(('bits', v.s, v.am, v.om), 'bits', v.om, v.am | v.om))
        if isinstance(v, Ptr):
            if v.obj is None: return ZERO
            s = memo_sym(('addr', v.obj.id), 'addr_' + v.obj.name, 4096, (1 << 47))
            return S(s) + v.off
        if isinstance(v, Cond):
            raise AnalysisError('cond as int')
        return self.fresh('undef', w)
    def windows(self, st, l, w, lo0, tag):
        """representatives of l mod 2^w in [lo0, lo0+2^w): list of (state, lin)"""
        raw = l
        l = st.norm(l); W = 1 << w
        if not l.t: return [(st, Lin((l.c - lo0) % W + lo0, (), l.lit))]
        if len(raw.t) > 3: raw = l
        lo, hi = st.interval(l)
        hi0 = lo0 + W - 1
        if lo is not None and hi is not None:
            a = (lo - lo0) // W; b = (hi - lo0) // W
            if a == b: return [(st, l - a * W if a else raw)]
        if st.entails(l - lo0) and st.entails(K(hi0) - l): return [(st, raw)]
        ks = []
        if lo is not None and hi is not None and (hi - lo) // W <= 3:
            ks = range((lo - lo0) // W, (hi - lo0) // W + 1)
        else:
            ks = (-2, -1, 0, 1, 2)
            # prove that it lies in these windows
            if not (st.entails(l - (lo0 - 2 * W)) and st.entails(K(hi0 + 2 * W) - l)): ks = None
        if ks is not None:
            out = []
            for k in ks:
                s2 = st.copy()
                if not s2.add_ge(l - (lo0 + k * W)): continue
                if not s2.add_ge(K(hi0 + k * W) - l): continue
                out.append((s2, l - k * W if k else raw))
            if not out: return []
            if len(out) == 1:
                return out
            return out
        s = memo_sym((tag, w, l), 'wrap', lo0, hi0)
        WRAPOF[s] = l
        return [(st, S(s))]
    def uns(self, st, v, w): return self.windows(st, self.tolin(st, v, w), w, 0, 'u')
    def sig(self, st, v, w): return self.windows(st, self.tolin(st, v, w), w, -(1 << (w - 1)), 's')
    # ------------------------------------------------------------ bits
    def tobits(self, st, v, w):
        full = (1 << w) - 1
        if isinstance(v, Bits): s, am, om = v.s, v.am, v.om
        else:
            l = st.norm(v)
            if not l.t: return ('c', l.c & full)
            if len(l.t) == 1 and l.t[0][1] == 1 and l.c == 0:
                s, am, om = l.t[0][0], full, 0
            else: return None
        return ('b', s, am, om)
    def mkbits(self, st, s, am, om, w):
        full = (1 << w) - 1
        e = st.eqs.get(s)
        if e is not None and not e.t:
            return K(((e.c & am) | om) & full)
        kz, ko = st.kb.get(s, (0, 0))
        om |= am & ko
        am &= ~(kz | ko) & full
        om &= full
        unk = full & ~(kz | ko)
        lo, hi = st.bounds(s)
        if lo is not None and lo >= 0 and hi is not None:
            unkr = (1 << hi.bit_length()) - 1
            am &= unkr; unk &= unkr
        if am == 0: return K(om)
        if am == unk and om == ko: return S(s)
        return Bits(s, am, om)
    def bitop(self, st, op, a, b, w):
        full = (1 << w) - 1
        if op == 'and' and isinstance(a, Lin) and isinstance(b, Lin):
            l, c = st.norm(a), st.norm(b)
            if c.t: l, c = c, l
            if l.t and not c.t and c.c > 0 and c.c & (c.c + 1) == 0 and all(k % (c.c + 1) == 0 for _, k in l.t): return K(l.c % (c.c + 1))
        x = self.tobits(st, a, w) if isinstance(a, (Lin, Bits)) else None
        y = self.tobits(st, b, w) if isinstance(b, (Lin, Bits)) else None
        if x and y:
            if x[0] == 'c' and y[0] == 'c':
                r = {'and': x[1] & y[1], 'or': x[1] | y[1], 'xor': x[1] ^ y[1]}[op]
                if r >> (w - 1): r -= (1 << w)
                return K(r)
            if x[0] == 'c': x, y = y, x
            if y[0] == 'c':
                c = y[1]; s, am, om = x[1], x[2], x[3]
                if op == 'and':
                    if (c & (c + 1)) == 0 and c and (c + 1) and not isinstance(a, Bits):
                        # low mask: keep as is if value already in range
                        l = st.norm(a if isinstance(a, Lin) else b)
                        lo, hi = st.interval(l)
                        if lo is not None and lo >= 0 and hi is not None and hi <= c: return l
                    return self.mkbits(st, s, am & c, om & c, w)
                if op == 'or': return self.mkbits(st, s, am & ~c & full, om | c, w)
                if op == 'xor':
                    bm = am | om
                    r = self.mkbits(st, s, am, om, w)
                    r2 = self.tobits(st, r, w)
                    if r2 and r2[0] == 'c':
                        return K(r2[1] ^ c)
                    if r2[2] & c == 0: return self.mkbits(st, r2[1], r2[2], r2[3] ^ c, w)
            elif y[0] == 'b' and x[1] == y[1] and op in ('or', 'and', 'xor'):
                s = x[1]
                a1, o1, a2, o2 = x[2], x[3], y[2], y[3]
                if op == 'or': return self.mkbits(st, s, (a1 | a2) & ~(o1 | o2), o1 | o2, w)
                if op == 'and':
                    am = (a1 & a2) | (a1 & o2) | (a2 & o1)
                    return self.mkbits(st, s, am & ~(o1 & o2), o1 & o2, w)
        la = self.tolin(st, a, w) if not isinstance(a, Cond) else None
        lb = self.tolin(st, b, w) if not isinstance(b, Cond) else None
        if la is None or lb is None: return self.fresh(op, w)
        la = st.norm(la); lb = st.norm(lb)
        key = (op, w, min(la, lb, key=repr), max(la, lb, key=repr))
        lo1, hi1 = st.interval(la); lo2, hi2 = st.interval(lb)
        hi = full; lo = 0
        if lo1 is not None and lo1 >= 0 and lo2 is not None and lo2 >= 0 and hi1 is not None and hi2 is not None:
            if op == 'and': hi = min(hi1, hi2)
            else: hi = (1 << max(hi1.bit_length(), hi2.bit_length())) - 1
            if hi <= full: return S(memo_sym(key + (hi,), op, 0, hi))
        return S(memo_sym(key, op, 0, full))
    # ------------------------------------------------------------ conditions
    def assume(self, st, c, truth):
        """-> list of refined states"""
        if isinstance(c, Lin):
            c = st.norm(c)
            if not c.t: return [st] if bool(c.c & 1) == truth else []
            s = st.copy()
            ok = s.add_ne(c) if truth else s.add_eq(c)
            return [s] if ok else []
        if isinstance(c, Bits):
            r = self.mkbits(st, c.s, c.am, c.om, 1)
            if isinstance(r, Lin) : return self.assume(st, r, truth)
            return [st.copy()]
        if not isinstance(c, Cond):
            return [st.copy()]
        t = truth != c.neg
        s = st.copy()
        if c.k == 'ge':
            ok = s.add_ge(c.d) if t else s.add_ge(-c.d - 1)
        elif c.k == 'eq':
            ok = s.add_eq(c.d) if t else s.add_ne(c.d)
        else:
            sym, mask, val = c.d
            ok = self.assume_bits(s, sym, mask, val, t)
        return [s] if ok else []
    def assume_bits(self, s, sym, mask, val, t):
        kz, ko = s.kb.get(sym, (0, 0))
        if t:
            if (val & kz) or (mask & ~val & ko): return False
            kz |= mask & ~val; ko |= val
        else:
            unk = mask & ~(kz | ko)
            if unk == 0:
                return ((ko & mask) != val)
            if unk & (unk - 1) == 0 and (ko & mask & ~unk) == (val & ~unk):
                # single unknown bit decides
                if val & unk: kz |= unk
                else: ko |= unk
            else: return True
        s.kb = dict(s.kb); s.kb[sym] = (kz, ko)
        e = s.eqs.get(sym)
        if e is not None and not e.t:
            if (e.c & kz) or (~e.c & ko): return False
        return True
    def icmp(self, st, pred, a, b, w):
        """-> list of (state, Cond|Lin const)"""
        if isinstance(a, Fn) or isinstance(b, Fn):
            eq = a == b
            return [(st, K(1 if (eq == (pred == 'eq')) else 0))]
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                return self.cmpl(st, pred, a.off, b.off)
            if pred in ('eq', 'ne'):
                return [(st, K(0 if pred == 'eq' else 1))]
            return [(st, self.boolsym())]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a is UNDEF or b is UNDEF: return [(st, self.boolsym())]
            a = self.tolin(st, a, 64); b = self.tolin(st, b, 64); w = 64
        if a is UNDEF or b is UNDEF: return [(st, self.boolsym())]
        if w == 'p': w = 64
        # comparisons of boolean conditions
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(b, Cond): a, b = b, a
            b = st.norm(b) if isinstance(b, Lin) else b
            if isinstance(b, Lin) and not b.t and pred in ('eq', 'ne'):
                t = bool(b.c & 1)
                if (pred == 'eq') == t: return [(st, a)]
                return [(st, a.inv())]
            return [(st, self.boolsym())]
        if isinstance(a, Bits) or isinstance(b, Bits):
            if isinstance(b, Bits) and not isinstance(a, Bits): a, b = b, a
            if pred in ('eq', 'ne') and isinstance(a, Bits):
                r = self.mkbits(st, a.s, a.am, a.om, w)
                if isinstance(r, Lin): return self.icmp(st, pred, r, b, w)
                a = r
                bb = st.norm(b) if isinstance(b, Lin) else b
                if isinstance(bb, Lin) and not bb.t:
                    v = bb.c & ((1 << w) - 1)
                    if (v & ~(a.am | a.om)) or (~v & a.om):
                        return [(st, K(0 if pred == 'eq' else 1))]
                    return [(st, Cond('bits', (a.s, a.am, v & a.am), pred == 'ne'))]
            a = self.tolin(st, a, w); b = self.tolin(st, b, w)
        if pred in ('eq', 'ne'):
            # choose a common representation
            d0 = st.norm(a - b)
            if not d0.t:
                z = (d0.c % (1 << w)) == 0
                return [(st, K(1 if z == (pred == 'eq') else 0))]
            lo, hi = st.interval(d0)
            W = 1 << w
            if lo is not None and hi is not None and lo > -W and hi < W:
                return self.cmpl(st, pred, a, b)
            out = []
            # decide representation: if b const negative use signed
            nb = st.norm(b)
            use = self.uns
            if (not nb.t and nb.c < 0): use = self.sig
            for s1, x in use(st, a, w):
                for s2, y in use(s1, b, w):
                    out.extend(self.cmpl(s2, pred, x, y))
            return out
        use = self.sig if pred[0] == 's' else self.uns
        p = pred[1:]
        out = []
        for s1, x in use(st, a, w):
            for s2, y in use(s1, b, w):
                out.extend(self.cmpl(s2, p, x, y))
        return out
    def boolsym(self):
        return S(newsym('cond', 0, 1))
    def cmpl(self, st, p, x, y):
        if p[0] in 'us' and len(p) == 3: p = p[1:]
        raw = x - y
        d = st.norm(raw)
        if p in ('eq', 'ne'):
            if not d.t: return [(st, K(1 if (d.c == 0) == (p == 'eq') else 0))]
            lo, hi = st.interval(d)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0) or d in st.ne or (-d) in st.ne:
                return [(st, K(0 if p == 'eq' else 1))]
            c = Cond('eq', d, p == 'ne')
        elif p == 'ge': c = Cond('ge', d)
        elif p == 'gt': c = Cond('ge', d - 1)
        elif p == 'le': c = Cond('ge', -d)
        elif p == 'lt': c = Cond('ge', -d - 1)
        else: raise AnalysisError('pred ' + p)
        if c.k == 'ge':
            l = c.d
            lo, hi = st.interval(l)
            if lo is not None and lo >= 0: return [(st, K(1))]
            if hi is not None and hi < 0: return [(st, K(0))]
        if self.cmp_lins is not None and d.t:
            self.cmp_lins.add(d)
            if raw != d: self.cmp_lins.add(raw)
        return [(st, c)]
    def fork(self, st, c):
        """-> list of (state, bool)"""
        out = []
        for s in self.assume(st, c, True): out.append((s, True))
        for s in self.assume(st, c, False): out.append((s, False))
        return out
    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, a, b, w, ins):
        if op in ('and', 'or', 'xor') and w == 1:
            if op == 'xor':
                if isinstance(b, Cond): a, b = b, a
                b = st.norm(b) if isinstance(b, Lin) else b
                if isinstance(b, Lin) and not b.t:
                    if not (b.c & 1): return [(st, a)]
                    if isinstance(a, Cond): return [(st, a.inv())]
                    return [(s, K(0 if t else 1)) for s, t in self.fork(st, a)]
            out = []
            for s, t in self.fork(st, a):
                for s2, u in self.fork(s, b):
                    r = (t and u) if op == 'and' else (t or u) if op == 'or' else (t != u)
                    out.append((s2, K(1 if r else 0)))
            return out
        if isinstance(a, Cond) or isinstance(b, Cond):
            out = []
            for s, x in self.force(st, a):
                for s2, y in self.force(s, b): out.extend(self.binop(s2, op, x, y, w, ins))
            return out
        if a is UNDEF or b is UNDEF: return [(st, self.fresh('undef', w))]
        if op in ('and', 'or', 'xor'): return [(st, self.bitop(st, op, a, b, w))]
        a = self.tolin(st, a, w); b = self.tolin(st, b, w)
        if op == 'add': return [(st, self.reduce(st, a + b, w))]
        if op == 'sub': return [(st, self.reduce(st, a - b, w))]
        na = st.norm(a); nb = st.norm(b)
        if op == 'mul':
            if not na.t: return [(st, self.reduce(st, nb.scale(na.c), w))]
            if not nb.t: return [(st, self.reduce(st, na.scale(nb.c), w))]
            k = tuple(sorted((na, nb), key=repr))
            la, ha = st.interval(na); lb, hb = st.interval(nb)
            lo, hi = 0, (1 << w) - 1
            return [(st, S(memo_sym(('mul', w) + k, 'mul', lo, hi)))]
        if op == 'shl':
            if not nb.t: return [(st, self.reduce(st, na.scale(1 << nb.c), w))]
            return [(st, self.fresh('shl', w))]
        if op in ('lshr', 'udiv', 'urem'):
            out = []
            if op == 'lshr':
                if nb.t: return [(st, self.fresh('shr', w))]
                nb = K(1 << nb.c); op = 'udiv'
            for s1, x in self.uns(st, na, w):
                for s2, y in self.uns(s1, nb, w): out.extend(self.udivrem(s2, op, x, y, w, ins))
            return out
        if op in ('ashr', 'sdiv', 'srem'):
            if op == 'ashr':
                if nb.t: return [(st, self.fresh('shr', w))]
                nb = K(1 << nb.c)
            if not nb.t and nb.c > 0:
                if not na.t:
                    q = abs(na.c) // nb.c * (1 if na.c >= 0 else -1)
                    if op == 'ashr': q = na.c // nb.c
                    return [(st, K(q if op != 'srem' else na.c - q * nb.c))]
                d = nb.c
                if na.c % d == 0 and all(c % d == 0 for _, c in na.t):
                    if op == 'srem': return [(st, K(0))]
                    return [(st, Lin(na.c // d, tuple((s, c // d) for s, c in na.t)))]
                out = []
                for s1, x in self.sig(st, na, w):
                    if s1.entails(x): out.extend(self.udivrem(s1, 'udiv' if op != 'srem' else 'urem', x, nb, w, ins))
                    else: out.append((s1, self.fresh('sdiv', w)))
                return out
            return [(st, self.fresh('sdiv', w))]
        raise AnalysisError('binop ' + op)
    def reduce(self, st, l, w):
        return l
    def on_div(self, st, y, ins): pass
    def udivrem(self, st, op, x, y, w, ins):
        x = st.norm(x); y = st.norm(y)
        if not y.t:
            d = y.c
            if d == 0: return []
            if not x.t: return [(st, K(x.c // d if op == 'udiv' else x.c % d))]
            if op == 'urem' and st.entails(K(d - 1) - x): return [(st, x)]
            q = memo_sym(('udiv', d, x), 'q', 0, None)
            s = st.copy()
            if not (s.add_ge(x - S(q).scale(d)) and s.add_ge(S(q).scale(d) + (d - 1) - x)): return []
            # exact case
            if all(c % d == 0 for _, c in x.t):
                r = x.c % d
                ql = Lin((x.c - r) // d, tuple((sy, c // d) for sy, c in x.t))
                return [(st, ql if op == 'udiv' else K(r))]
            return [(s, S(q) if op == 'udiv' else x - S(q).scale(d))]
        self.on_div(st, y, ins)
        if op == 'urem':
            out = []
            base = y.t[0][0] if len(y.t) == 1 and y.c == 0 and y.t[0][1] == 1 else None
            s0 = st.copy()
            if s0.add_ge(y - x - 1): out.append((s0, x))
            s1 = st.copy()
            if s1.add_ge(x - y):
                if s1.entails(y + y - x - 1):
                    out.append((s1, x - y))
                else:
                    m = memo_sym(('umod', x, y), 'M', 0, None, base)
                    r = x - S(m)
                    if s1.add_ge(r) and s1.add_ge(y - r - 1): out.append((s1, r))
            return out
        q = memo_sym(('udivs', x, y), 'q', 0, None)
        s = st.copy()
        if not s.add_ge(x - S(q)): return []
        return [(s, S(q))]
    def force(self, st, v):
        """turn Cond into const by forking"""
        if isinstance(v, Cond):
            return [(s, LIT(1 if t else 0)) for s, t in self.fork(st, v)]
        return [(st, v)]
    # ------------------------------------------------------------ memory
    def lazy_default(self, st, obj, off, size, isptr):
        m = st.m(obj)
        key = ('lazy', obj.id, m.ver, off, size, isptr)
        if isptr: return UNDEF
        w = 8 * size
        if w <= 32: lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else: lo, hi = 0, (1 << w) - 1
        return S(memo_sym(key, '%s[%r]' % (obj.name, off), lo, hi))
    def may_overlap(self, st, o1, s1, o2, s2):
        """sizes may be Lin or int; True unless provably disjoint"""
        d = st.norm(o2 - o1)
        if not d.t and isinstance(s1, int) and isinstance(s2, int):
            return not (d.c >= s1 or d.c <= -s2)
        if st.entails(d - s1): return False
        if st.entails(-d - s2): return False
        return True
    VA_PROPS = ()
    def load(self, st, p, size, isptr, ins):
        """-> list of (state, value)"""
        if not isinstance(p, Ptr) or p.obj is None:
            self.bad_access(st, p, ins, 'load'); return []
        o = p.obj
        if o.handler is not None:
            r = o.handler.load(self, st, o, p.off, size, isptr, ins)
            if r is not None: return r
        if o.name in ('va_regs', 'va_stack') and self.VA_PROPS:
            of = st.norm(p.off)
            self.oblige(self.VA_PROPS, not of.t and of.c in st.m(o).cells, st, ins, 'only variadic arguments that were passed are read')
        self.check_bounds(st, p, K(size), ins, 'load')
        v = self.mem_load(st, o, p.off, size, isptr)
        return [(st, v)]
    def mem_load(self, st, o, off, size, isptr):
        off = st.norm(off)
        if o.id not in st.mem and o.kind == 'global': self.init_global(st, o)
        m = st.m(o)
        if not off.t:
            c = m.cells.get(off.c)
            if c is not None and c[0] == size:
                if isptr and isinstance(c[1], Lin) and not c[1].t and c[1].c == 0: return NULL
                return c[1]
            for (so, ss, v) in reversed(m.syms):
                d = st.norm(so - off)
                if not d.t and d.c == 0 and ss == size: return v
                if self.may_overlap(st, off, size, so, ss):
                    return self.unknown(st, o, size, isptr)
            if c is not None and c[0] == 8 and size == 4 and isinstance(c[1], Lin) and not isptr:
                l = st.norm(c[1]); lo, hi = st.interval(l)
                if lo is not None and hi is not None and lo >= -(1 << 31) and hi < (1 << 32): return l
            if c is not None or any(k < off.c + size and off.c < k + cs for k, (cs, _) in m.cells.items()):
                # partial overlap: assemble constants
                by = []
                for i in range(size):
                    by.append(self.byte_at(st, m, off.c + i))
                if all(x is not None for x in by) and not isptr:
                    v = 0
                    for i, x in enumerate(by): v |= x << (8 * i)
                    if size <= 4 and v >> (8 * size - 1): v -= 1 << (8 * size)
                    return K(v)
                if isptr and all(x == 0 for x in by): return NULL
                return self.unknown(st, o, size, isptr)
        else:
            for (so, ss, v) in reversed(m.syms):
                d = st.norm(so - off)
                if not d.t and d.c == 0 and ss == size: return v
                if self.may_overlap(st, off, size, so, ss):
                    return self.unknown(st, o, size, isptr)
            for k, (cs, v) in m.cells.items():
                if self.may_overlap(st, off, size, K(k), cs):
                    return self.unknown(st, o, size, isptr)
        for lo, hi, b in reversed(m.fills):
            if st.entails(off - lo) and st.entails(hi - off - size):
                if b is None: break
                if isptr: return NULL if b == 0 else UNDEF
                v = 0
                for i in range(size): v |= (b & 255) << (8 * i)
                if size <= 4 and v >> (8 * size - 1): v -= 1 << (8 * size)
                return K(v)
            if self.may_overlap(st, off, size, lo, hi - lo):
                return self.unknown(st, o, size, isptr)
        if o.lazy:
            v = o.lazy(st, o, off, size, isptr)
            if v is not UNDEF: return v
        v = self.unknown(st, o, size, isptr)
        if isinstance(v, Lin):
            self.mem_put(st, o, off, size, v)
        return v
    def byte_at(self, st, m, i):
        for k, (cs, v) in m.cells.items():
            if k <= i < k + cs:
                if isinstance(v, Ptr): return 0 if v.obj is None else None
                if not isinstance(v, Lin): return None
                v = st.norm(v)
                if v.t: return None
                return (v.c >> (8 * (i - k))) & 255
        for lo, hi, b in m.fills:
            if not lo.t and not hi.t and lo.c <= i < hi.c: return b
        return None
    def unknown(self, st, o, size, isptr):
        if isptr: return UNDEF
        return self.fresh('%s?' % o.name, 8 * size)
    def mem_put(self, st, o, off, size, v):
        """raw cell write (no overlap kill)"""
        m = st.mw(o)
        off = st.norm(off)
        if not off.t: m.cells[off.c] = (size, v)
        else: m.syms = m.syms + ((off, size, v),)
    def mem_kill(self, st, o, off, size):
        """forget cells possibly overlapping [off, off+size); size int or Lin"""
        off = st.norm(off)
        m = st.mw(o)
        if not off.t and isinstance(size, int):
            for k in [k for k, (cs, _) in m.cells.items() if k < off.c + size and off.c < k + cs]:
                cs, v = m.cells.pop(k)
                if k < off.c or k + cs > off.c + size:
                    # partial: keep outside bytes if constant
                    for i in range(cs):
                        if not (off.c <= k + i < off.c + size) and isinstance(v, Lin) and not v.t:
                            b = (v.c >> (8 * i)) & 255
                            m.cells[k + i] = (1, K(b - 256 if b > 127 else b))
                        elif not (off.c <= k + i < off.c + size):
                            m.cells[k + i] = (1, self.fresh('part', 8))
        else:
            for k in list(m.cells):
                cs = m.cells[k][0]
                if self.may_overlap(st, off, size, K(k), cs):
                    m.cells[k] = (cs, UNDEF) if isinstance(m.cells[k][1], Ptr) else (cs, self.fresh('k', 8 * cs))
        if m.syms:
            keep = []
            for (so, ss, v) in m.syms:
                if self.may_overlap(st, off, size, so, ss):
                    d = st.norm(so - off)
                    if isinstance(size, int) and not d.t and 0 <= d.c and d.c + (ss if isinstance(ss, int) else 1 << 70) <= size:
                        continue     # covered
                    keep.append((so, ss, UNDEF if isinstance(v, Ptr) else self.fresh('k', 8 * ss)))
                else: keep.append((so, ss, v))
            m.syms = tuple(keep)
    def mem_store(self, st, o, off, size, v):
        self.mem_kill(st, o, off, size)
        self.mem_put(st, o, off, size, v)
        # earlier lazily-read symbolic content at may-overlapping offsets is versioned by the cell itself
    def store(self, st, p, size, v, ins):
        if not isinstance(p, Ptr) or p.obj is None:
            self.bad_access(st, p, ins, 'store'); return []
        o = p.obj
        if o.handler is not None:
            r = o.handler.store(self, st, o, p.off, size, v, ins)
            if r is not None: return r
        self.check_bounds(st, p, K(size), ins, 'store')
        self.mem_store(st, o, p.off, size, v)
        return [st]
    def check_bounds(self, st, p, size, ins, what):
        o = p.obj
        m = st.mem.get(o.id)
        if m is not None and m.dead:
            self.oblige(self.memprop(o, 'dead'), False, st, ins, '%s of %s after it was %s' % (what, o.name, m.dead))
            return False
        if o.size is None: return True
        if not p.off.t and not size.t and not o.size.t:
            ok = 0 <= p.off.c and p.off.c + size.c <= o.size.c
            return self.oblige(self.memprop(o, what), ok, st, ins, '%s inside %s|%r+%r of %r' % (what, o.name, p.off, size, o.size))
        return self.oblige(self.memprop(o, what), lambda: st.entails(p.off) and st.entails(o.size - p.off - size), st, ins,
                    '%s inside %s|offset %r size %r object size %r' % (what, o.name, st.norm(p.off), st.norm(size), st.norm(o.size)))
    def memprop(self, o, what): return 'MEM'
    def bad_access(self, st, p, ins, what):
        self.oblige('MEM', False, st, ins, '%s through %s pointer' % (what, 'null' if isinstance(p, Ptr) else 'unknown'))
    # ------------------------------------------------------------ running
    def run(self, name, args, st):
        f = self.mod.func(name)
        if f is None: raise AnalysisError('no function ' + name)
        n = len(f.args)
        return self.run_func(f, args[:n], st, None, (n, args[n:]))
    def run_func(self, f, args, st, ins=None, vararg=None):
        self.fns.add(f.name)
        if self.recdepth.get(f.name, 0) >= 3:
            raise AnalysisError('recursion too deep in ' + f.name)
        self.recdepth[f.name] = self.recdepth.get(f.name, 0) + 1
        if f.d.get('file'): pass
        saved = st.env
        st = st.copy()
        st.env = {}
        for a, v in zip(f.args, args): st.env[a['id']] = v
        if vararg is not None: st.env['va'] = vararg
        st.env['fr'] = None
        self.stack.append((f.name, self.loc(ins) if ins else '-'))
        frame = {'objs': []}
        self.frames = getattr(self, 'frames', [])
        self.frames.append(frame)
        rets = []
        pend = {0: [st]}
        self.region(f, None, pend, rets, None, None)
        self.frames.pop()
        self.stack.pop()
        self.recdepth[f.name] -= 1
        out = []
        for s, v in rets:
            s.env = dict(saved)
            for o in frame['objs']: s.mem.pop(o.id, None)
            out.append((s, v))
        return self.merge_rets(out)
    def merge_rets(self, outs):
        if len(outs) <= 2: return outs
        # deduplicate returns that differ only in constraints
        res = []
        for s, v in outs:
            done = False
            for i, (t, u) in enumerate(res):
                if v == u and self.same_values(s, t, None):
                    if self.UNROLL is not None:
                        if self.facts_within(s, t): pass
                        elif self.facts_within(t, s): res[i] = (s, v)
                        else: continue
                        done = True; break
                    res[i] = (self.meet_common(t, s), u); done = True; break
            if not done: res.append((s, v))
        return res
    def same_values(self, a, b, live):
        if a.mon != b.mon or a.g != b.g: return False
        if live is not None:
            for v in live:
                if a.env.get(v) != b.env.get(v): return False
        if a.ps != b.ps: return False
        if a.kb != b.kb: return False
        for i in set(a.mem) | set(b.mem):
            x = a.mem.get(i); y = b.mem.get(i)
            if x is y: continue
            if x is None or y is None:
                z = x if y is None else y
                if z.dead: return False
                continue
            if x.dead != y.dead or x.cells != y.cells or x.syms != y.syms or x.fills != y.fills or x.ver != y.ver: return False
        return True
    def signature(self, s, live, syms):
        """hashable image of every value of the state; collects the symbols in it"""
        def val(v):
            if isinstance(v, Lin):
                for x, _ in v.t: syms.add(x)
            elif isinstance(v, Ptr):
                for x, _ in v.off.t: syms.add(x)
            elif isinstance(v, Bits): syms.add(v.s)
            elif isinstance(v, Cond): val(v.d)
            elif isinstance(v, tuple):
                for x in v: val(x)
            return v
        env = tuple(val(s.env.get(v)) for v in live) if live is not None else ()
        g = frozenset((k, val(v)) for k, v in s.g.items())
        ps = frozenset((k, val(v)) for k, v in s.ps.items())
        mem = []
        for i, m in s.mem.items():
            for c in m.cells.values(): val(c[1])
            if m.syms or m.fills:
                for c in list(m.syms) + list(m.fills): val(c if isinstance(c, tuple) else tuple(c))
            mem.append((i, m.dead, frozenset((k, c[0], c[1]) for k, c in m.cells.items()), len(m.syms), len(m.fills)))
        return hash((env, g, ps, frozenset(mem), frozenset(s.mon.items()), frozenset(s.kb.items())))
    def drop_subsumed(self, sts, live):
        """same values: keep only the state whose facts about live values are implied by the other's"""
        if len(sts) <= 3: return sts
        res = []; groups = {}
        for s in sts:
            syms = set(PARAMS)
            sig = self.signature(s, live, syms)
            grp = groups.setdefault(sig, [])
            done = False
            for i in grp[-self.SUBSUME:]:
                t = res[i]
                if not self.same_values(s, t, live): continue
                if self.facts_within(s, t, syms): done = True; break
                if self.facts_within(t, s, syms): res[i] = s; done = True; break
            if not done: grp.append(len(res)); res.append(s)
        if len(res) > 20000: raise AnalysisError("state explosion")
        return res
    SUBSUME = 12
    def facts_within(self, a, b, syms=None):
        """every fact of b (about the given symbols) holds in a"""
        n = common_node(a.cons, b.cons)
        c = b.cons
        for l in b.ne:
            if l in a.ne: continue
            if syms is not None and any(x not in syms for x, _ in l.t): continue
            return False
        while c is not n:
            l = b.norm(c.lin) if c.eq is None else c.lin
            if syms is None or all(x in syms for x, _ in l.t):
                if not a.entails(l): return False
                if c.eq is not None and not a.entails(-l): return False
            c = c.p
        return True
    def meet_common(self, a, b):
        """values equal: keep facts common to both"""
        s = a.copy()
        n = common_node(a.cons, b.cons)
        extra = []
        for x in (a, b):
            y = b if x is a else a
            c = x.cons
            while c is not n:
                if c.eq is None:
                    if y.entails(c.lin): extra.append(c.lin)
                else:
                    if y.entails(c.lin): extra.append(c.lin)
                    if y.entails(-c.lin): extra.append(-c.lin)
                c = c.p
        rebuild(s, n)
        s.kb = {k: v for k, v in a.kb.items() if b.kb.get(k) == v}
        s.ne = a.ne & b.ne
        for l in extra: s.add_ge(l)
        for i in b.mem:
            if i not in s.mem: s.mem[i] = b.mem[i]
        return s
    def region(self, f, hdr, pend, rets, backs, exits):
        """execute all blocks of loop `hdr` (or function) given pending states"""
        body = f.loops[hdr] if hdr is not None else None
        order = [b for b in f.rpo if (body is None or b in body)]
        def route(b, s):
            if hdr is not None and b == hdr: backs.append(s); return
            if body is not None and b not in body: exits.append((b, s)); return
            pend.setdefault(b, []).append(s)
        first = True
        for b in order:
            h = f.inloop[b]
            if b not in pend: continue
            if h is not None and h != hdr:
                # only enter child loops through their header
                if b == h and f.parent[h] == hdr:
                    sts = pend.pop(b)
                    ex = []
                    self.loop(f, h, sts, rets, ex)
                    for tb, s in ex: route(tb, s)
                continue
            sts = pend.pop(b)
            if len(sts) > 1: sts = self.merge(f, b, sts)
            for s in sts:
                self.block(f, b, s, route, rets)
    def merge(self, f, b, sts):
        if len(sts) < 2: return sts
        live = f.live[b]
        res = []
        if self.UNROLL is not None: return self.drop_subsumed(sts, live)
        for s in sts:
            ok = False
            for i, t in enumerate(res):
                if self.same_values(s, t, live):
                    res[i] = self.meet_common(t, s); ok = True; break
            if not ok: res.append(s)
        if len(res) > self.MERGE_AT and self.UNROLL is None:
            out = []
            for s in res:
                ok = False
                for i, t in enumerate(out):
                    j = self.join(t, s, live)
                    if j is not None: out[i] = j; ok = True; break
                if not ok: out.append(s)
            res = out
        if len(res) > (self.MAXSTATES if self.UNROLL is None else 6000): raise AnalysisError('state explosion in %s' % f.name)
        return res
    def block(self, f, b, st, route, rets):
        blk = f.blocks[b]
        i = 0
        while i < len(blk) and blk[i]['o'] == 'phi': i += 1
        self.steps(f, b, blk, i, st, route, rets)
    def goto(self, f, b, tgt, st, route):
        blk = f.blocks[tgt]
        if blk[0]['o'] == 'phi':
            vals = []
            for ins in blk:
                if ins['o'] != 'phi': break
                for v, p in ins['in']:
                    if p == b:
                        vals.append((ins['d'], self.opval(st, v))); break
            for d, v in vals: st.env[d] = v
        route(tgt, st)
    def steps(self, f, b, blk, i, st, route, rets):
        work = [(i, st)]
        while work:
            i, st = work.pop()
            while True:
                ins = blk[i]
                if not self.robust:
                    r = self.step1(f, b, blk, i, st, route, rets)
                else:
                    sv = (len(self.stack), len(getattr(self, 'frames', [])), dict(self.recdepth), self.mute)
                    try:
                        if self.deadline is not None and time.time() > self.deadline: raise AnalysisError('time budget exhausted')
                        r = self.step1(f, b, blk, i, st, route, rets)
                    except Exception as e:
                        if os.environ.get('VERIF_TB'):
                            import traceback; traceback.print_exc()
                        what = str(e) if isinstance(e, AnalysisError) else 'internal: %s %s' % (type(e).__name__, e)
                        k = (self.loc(ins), what[:200])
                        self.undecided[k] = self.undecided.get(k, 0) + 1
                        del self.stack[sv[0]:]
                        if hasattr(self, 'frames'): del self.frames[sv[1]:]
                        self.recdepth = sv[2]; self.mute = sv[3]
                        r = None
                if r is True:
                    i += 1; continue
                if r is None: break
                # list of states
                i += 1
                if not r: break
                for s in r[1:]: work.append((i, s))
                st = r[0]
    robust = False
    def step1(self, f, b, blk, i, st, route, rets):
        """one instruction: True (go on with st), a list of successor states, or None (left the block)"""
        ins = blk[i]; o = ins['o']
        STAT['steps'] += 1
        if o == 'br':
            ss = ins['s']
            if len(ss) == 1:
                self.goto(f, b, ss[0], st, route)
            else:
                c = self.opval(st, ins['a'][0])
                if c is UNDEF: c = self.boolsym()
                ln = ins.get('l')
                for t in (True, False):
                    for s2 in self.assume(st, c, t):
                        if ln: s2.trace = (st.trace, '%d%s' % (ln[1], '+' if t else '-'))
                        self.goto(f, b, ss[0] if t else ss[1], s2, route)
            return None
        if o == 'switch':
            v = self.opval(st, ins['a'][0])
            w = 32
            cur = [st]
            for cv, tb in ins['cases']:
                nxt = []
                for s in cur:
                    for s2, c in self.icmp(s, 'eq', v, LIT(cv), w):
                        for s3 in self.assume(s2, c, True): self.goto(f, b, tb, s3, route)
                        nxt.extend(self.assume(s2, c, False))
                cur = nxt
            for s in cur: self.goto(f, b, ins['def'], s, route)
            return None
        if o == 'ret':
            v = self.opval(st, ins['a'][0]) if ins['a'] else None
            if len(self.stack) == 1: self.paths += 1
            if isinstance(v, Cond):
                for s, x in self.force(st, v): rets.append((s, x))
            else: rets.append((st, v))
            return None
        if o == 'unreachable': return None
        return self.inst(f, st, ins)
    def inst(self, f, st, ins):
        o = ins['o']
        a = ins['a']
        if o == 'alloca':
            key = ('alloca', tuple(x[0] for x in self.stack), f.name, ins['d'])
            n = self.opval(st, a[0])
            sz = ins['size']
            ob = self.gobj.get(key)
            if ob is None:
                ob = self.gobj[key] = Obj(ins.get('nm') or 'tmp', 'stack', None, fn=f.name)
                self.setup_alloca(ob, f, ins)
            nn = st.norm(n) if isinstance(n, Lin) else K(1)
            ob.size = nn.scale(sz)
            st.mem[ob.id] = Mem(); st.memown.add(ob.id)
            self.frames[-1]['objs'].append(ob)
            st.env[ins['d']] = Ptr(ob)
            return True
        if o == 'load':
            w = ins['w']
            res = self.load(st, self.opval(st, a[0]), ins['size'], w == 'p', ins)
            return self.bind(ins, res)
        if o == 'store':
            v = self.opval(st, a[0])
            if isinstance(v, Cond):
                out = []
                for s, x in self.force(st, v): out.extend(self.store(s, self.opval(s, a[1]), ins['size'], x, ins))
                return out
            return self.store(st, self.opval(st, a[1]), ins['size'], v, ins)
        if o == 'getelementptr':
            p = self.opval(st, a[0])
            off = K(ins.get('c', 0))
            if ins.get('bad'): raise AnalysisError('gep')
            cur = [(st, off)]
            for v, sc, w in ins.get('vs', ()):
                nxt = []
                for s, oo in cur:
                    val = self.opval(s, v)
                    for s1, val in self.force(s, val):
                        if val is UNDEF: val = self.fresh('undef', w)
                        l = self.tolin(s1, val, w)
                        l = s1.norm(l)
                        if w == 64:
                            # index mod 2^64: large unsigned = negative; use signed window if needed
                            lo, hi = s1.interval(l)
                            if lo is not None and hi is not None and lo >= -(1 << 63) and hi < (1 << 64) and not (l.t == () and l.c >= (1 << 63)):
                                nxt.append((s1, oo + l.scale(sc)))
                                continue
                            for s2, x in self.sig(s1, l, w): nxt.append((s2, oo + x.scale(sc)))
                        else:
                            for s2, x in self.sig(s1, l, w): nxt.append((s2, oo + x.scale(sc)))
                cur = nxt
            out = []
            for s, oo in cur:
                if isinstance(p, Ptr):
                    if p.obj is None and (oo.t or oo.c): v = self.intptr(-1)
                    else: v = Ptr(p.obj, s.norm(p.off + oo))
                else: v = UNDEF
                s.env[ins['d']] = v
                out.append(s)
            return out
        if o == 'icmp':
            return self.bind(ins, self.icmp(st, ins['p'], self.opval(st, a[0]), self.opval(st, a[1]), ins['vw']))
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            w = ins['w']
            if not isinstance(w, int):
                st.env[ins['d']] = UNDEF; return True
            x = self.opval(st, a[0]); y = self.opval(st, a[1])
            if o in ('add', 'sub') and isinstance(x, Lin) and isinstance(y, Lin):
                r = x + y if o == 'add' else x - y
                st.env[ins['d']] = r
                return True
            return self.bind(ins, self.binop(st, o, x, y, w, ins))
        if o == 'zext':
            v = self.opval(st, a[0])
            w = ins['vw']
            if isinstance(v, Cond): return self.bind(ins, self.force(st, v))
            if isinstance(v, Bits): st.env[ins['d']] = v; return True
            if v is UNDEF: st.env[ins['d']] = self.fresh('undef', w, False); return True
            return self.bind(ins, self.uns(st, v, w))
        if o == 'sext':
            v = self.opval(st, a[0])
            w = ins['vw']
            if isinstance(v, Cond): return self.bind(ins, [(s, K(-1 if x.c else 0)) for s, x in self.force(st, v)])
            if v is UNDEF: st.env[ins['d']] = self.fresh('undef', w, True); return True
            if isinstance(v, Bits) and (v.am | v.om) < (1 << (w - 1)): st.env[ins['d']] = v; return True
            return self.bind(ins, self.sig(st, v, w))
        if o == 'trunc':
            v = self.opval(st, a[0])
            w = ins['w']
            if isinstance(v, Bits):
                r = self.mkbits(st, v.s, v.am & ((1 << w) - 1), v.om & ((1 << w) - 1), w)
                st.env[ins['d']] = r; return True
            if w == 1 and isinstance(v, Lin):
                lo, hi = st.interval(st.norm(v))
                if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                    st.env[ins['d']] = v; return True
                st.env[ins['d']] = self.boolsym(); return True
            st.env[ins['d']] = v
            return True
        if o == 'select':
            out = []
            c = self.opval(st, a[0]); x = self.opval(st, a[1]); y = self.opval(st, a[2])
            if x == y:
                st.env[ins['d']] = x; return True
            if c is UNDEF: c = self.boolsym()
            for s, t in self.fork(st, c):
                s.env[ins['d']] = x if t else y
                out.append(s)
            return out
        if o == 'call': return self.call(f, st, ins)
        if o == 'ptrtoint':
            v = self.opval(st, a[0])
            if isinstance(v, Ptr): st.env[ins['d']] = PtrInt(v) if False else self.tolin(st, v, 64)
            else: st.env[ins['d']] = self.fresh('p2i', 64)
            return True
        if o == 'inttoptr' or o in ('bitcast', 'freeze', 'addrspacecast'):
            v = self.opval(st, a[0])
            st.env[ins['d']] = v if o != 'inttoptr' else UNDEF
            return True
        if o == 'fence': return True
        if o in ('atomicrmw', 'cmpxchg'):
            raise AnalysisError('atomic')
        if 'd' in ins:
            st.env[ins['d']] = UNDEF if not isinstance(ins['w'], int) else self.fresh(o, ins['w'])
        return True
    def setup_alloca(self, ob, f, ins): pass
    def bind(self, ins, res):
        if len(res) == 1:
            s, v = res[0]; s.env[ins['d']] = v
            return [s]
        out = []
        for s, v in res:
            if any(s is x for x in out): s = s.copy()
            s.env[ins['d']] = v
            out.append(s)
        return out
    # ------------------------------------------------------------ calls
    def call(self, f, st, ins):
        c = self.opval(st, ins['callee'])
        if not isinstance(c, Fn):
            if ins['callee'][0] == 'x':   # inline asm
                if 'd' in ins: st.env[ins['d']] = UNDEF
                return True
            raise AnalysisError('indirect call at ' + self.loc(ins))
        name = c.name
        args = [self.opval(st, x) for x in ins['a']]
        if any(isinstance(x, Cond) for x in args):
            cur = [(st, [])]
            for x in args:
                cur = [(s2, l + [v]) for s, l in cur for s2, v in self.force(s, x)]
            out = []
            for s, l in cur: out.extend(self.call2(f, s, ins, name, l))
            return out
        return self.call2(f, st, ins, name, args)
    def call2(self, f, st, ins, name, args):
        if name.startswith('llvm.'):
            res = self.intrinsic(st, ins, name, args)
        else:
            mdl = self.models.get(name)
            if mdl is not None:
                res = mdl(st, args, ins)
                if res is None: res = self.inline(st, ins, name, args)
            elif self.mod.defined(name):
                res = self.inline(st, ins, name, args)
            else:
                res = self.external(st, name, args, ins)
        if 'd' not in ins: return [s for s, _ in res]
        return self.bind(ins, res)
    def inline(self, st, ins, name, args):
        g = self.mod.func(name)
        va = None
        if g.d['vararg']: va = (len(g.args), list(args[len(g.args):]))
        return self.run_func(g, args[:len(g.args)], st, ins, va)
    def intrinsic(self, st, ins, name, args):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            return [(s, args[0]) for s in self.memcpy(st, args[0], args[1], args[2], ins)]
        if name.startswith('llvm.memset'):
            return [(s, args[0]) for s in self.memset(st, args[0], args[1], args[2], ins)]
        if name.startswith('llvm.va_start'):
            self.va_start(st, args[0]); return [(st, None)]
        if name.startswith('llvm.expect'): return [(st, args[0])]
        if name.startswith('llvm.umax') or name.startswith('llvm.umin') or name.startswith('llvm.smax') or name.startswith('llvm.smin'):
            w = ins['w']; out = []
            pr = ('u' if name[5] == 'u' else 's') + ('ge' if 'max' in name[5:9] else 'le')
            for s, c in self.icmp(st, pr, args[0], args[1], w):
                for s2, t in self.fork(s, c): out.append((s2, args[0] if t else args[1]))
            return out
        if name.startswith('llvm.trap'): return []
        return [(st, UNDEF)]
    def va_start(self, st, p):
        nfix, rest = st.env.get('va', (0, []))
        key = ('va', tuple(x[0] for x in self.stack))
        ro = self.gobj.get(key)
        if ro is None: ro = self.gobj[key] = Obj('va_regs', 'stack', 176)
        ov = self.gobj.get(key + ('o',))
        if ov is None: ov = self.gobj[key + ('o',)] = Obj('va_stack', 'stack', None)
        m = Mem()
        m2 = Mem()
        for i, v in enumerate(rest):
            if nfix + i < 6: m.cells[8 * (nfix + i)] = (8, v)
            else: m2.cells[8 * (nfix + i - 6)] = (8, v)
        st.mem[ro.id] = m; st.memown.add(ro.id)
        st.mem[ov.id] = m2; st.memown.add(ov.id)
        ro.info['nva'] = nfix + len(rest)
        o = p.obj
        self.mem_store(st, o, p.off, 4, K(8 * min(nfix, 6)))
        self.mem_store(st, o, p.off + 4, 4, K(48))
        self.mem_store(st, o, p.off + 8, 8, Ptr(ov))
        self.mem_store(st, o, p.off + 16, 8, Ptr(ro))
        self.frames[-1]['objs'].extend([ro, ov])
    def length(self, st, n):
        return self.uns(st, n, 64)
    def memcpy(self, st, d, s, n, ins):
        out = []
        for st2, ln in self.length(st, n):
            if not ln.t and ln.c == 0:
                out.append(st2); continue
            if not isinstance(d, Ptr) or d.obj is None or not isinstance(s, Ptr) or s.obj is None:
                if st2.entails(ln - 1):
                    self.bad_access(st2, d if not isinstance(d, Ptr) or d.obj is None else s, ins, 'copy')
                    continue
                s3 = st2.copy()
                if s3.add_eq(ln): out.append(s3)
                s3 = st2.copy()
                if s3.add_ge(ln - 1): self.bad_access(s3, d if not isinstance(d, Ptr) or d.obj is None else s, ins, 'copy')
                continue
            out.extend(self.copy(st2, d, s, ln, ins))
        return out
    def copy(self, st, d, s, ln, ins):
        """d, s non-null pointers; ln Lin >= 0. handlers get first refusal"""
        if s.obj.handler is not None:
            r = s.obj.handler.copy_from(self, st, d, s, ln, ins)
            if r is not None: return r
        if d.obj.handler is not None:
            r = d.obj.handler.copy_to(self, st, d, s, ln, ins)
            if r is not None: return r
        self.check_bounds(st, s, ln, ins, 'read')
        self.check_bounds(st, d, ln, ins, 'write')
        self.raw_copy(st, d, s, ln)
        return [st]
    def raw_copy(self, st, d, s, ln):
        ln = st.norm(ln)
        if not ln.t and ln.c <= 4096:
            cells = self.granules(st, s, ln.c)
            self.mem_kill(st, d.obj, d.off, ln.c)
            if cells is None:
                self.fill_unknown(st, d, ln)
            else:
                for o, sz, v in cells: self.mem_put(st, d.obj, d.off + o, sz, v)
        else:
            self.mem_kill(st, d.obj, d.off, ln)
            self.fill_unknown(st, d, ln)
    def fill_unknown(self, st, d, ln):
        m = st.mw(d.obj)
        m.fills = m.fills + ((st.norm(d.off), st.norm(d.off + ln), None),)
        m.ver = fresh_ver()
    def granules(self, st, s, n):
        """list of (reloff,size,value) describing n bytes at s"""
        off = st.norm(s.off)
        if s.obj.kind == 'global': self.init_global(st, s.obj) if s.obj.id not in st.mem else None
        m = st.m(s.obj)
        out = []
        if not off.t:
            i = 0
            keys = sorted(k for k in m.cells if off.c <= k < off.c + n)
            fl = s.obj.info.get('fields')
            while i < n:
                c = m.cells.get(off.c + i)
                if c is not None and i + c[0] <= n:
                    out.append((i, c[0], c[1])); i += c[0]; continue
                # lazily read
                size = None
                if fl and (off.c + i) in fl: size, isptr = fl[off.c + i]
                if size is None:
                    nxt = [k for k in keys if k > off.c + i]
                    lim = (nxt[0] - off.c - i) if nxt else n - i
                    for z in (8, 4, 2, 1):
                        if z <= lim and (off.c + i) % z == 0: size = z; break
                    isptr = False
                if i + size > n: size = 1; isptr = False
                out.append((i, size, self.mem_load(st, s.obj, K(off.c + i), size, isptr)))
                i += size
            return out
        for so, ss, v in m.syms:
            d = st.norm(so - off)
            if not d.t and isinstance(ss, int) and 0 <= d.c and d.c + ss <= n: out.append((d.c, ss, v))
        return out
    def memset(self, st, d, b, n, ins):
        out = []
        for st2, ln in self.length(st, n):
            if not ln.t and ln.c == 0: out.append(st2); continue
            if not isinstance(d, Ptr) or d.obj is None:
                self.bad_access(st2, d, ins, 'memset'); continue
            if d.obj.handler is not None:
                r = d.obj.handler.memset(self, st2, d, b, ln, ins)
                if r is not None: out.extend(r); continue
            self.check_bounds(st2, d, ln, ins, 'write')
            ln = st2.norm(ln)
            bb = st2.norm(b) if isinstance(b, Lin) else None
            self.mem_kill(st2, d.obj, d.off, ln.c if not ln.t else ln)
            m = st2.mw(d.obj)
            if not ln.t and not st2.norm(d.off).t:
                o = st2.norm(d.off).c
                for k in [k for k in m.cells if o <= k < o + ln.c]: del m.cells[k]
            m.fills = tuple(x for x in m.fills if not (st2.is_eq(x[0] - d.off) and st2.is_eq(x[1] - d.off - ln))) + \
                ((st2.norm(d.off), st2.norm(d.off + ln), (bb.c & 255) if bb is not None and not bb.t else None),)
            if not (bb is not None and not bb.t): m.ver = fresh_ver()
            out.append(st2)
        return out
    def external(self, st, name, args, ins):
        """unknown external function: result unknown, pointed-to objects clobbered"""
        for x in args:
            if isinstance(x, Ptr) and x.obj is not None and not x.obj.ro:
                self.clobber(st, x, name, ins)
        return [(st, self.ret_fresh(ins, name))]
    def ret_fresh(self, ins, name):
        w = ins.get('w')
        if isinstance(w, int): return self.fresh(name, w)
        return UNDEF
    def clobber(self, st, p, name, ins):
        if p.obj.handler is not None: return
        m = st.mw(p.obj)
        m.cells = {}; m.syms = (); m.fills = ((ZERO, p.obj.size if p.obj.size is not None else K(1 << 62), None),); m.ver = fresh_ver()
    def valrow(self, v):
        """(shape, lin) of a value"""
        if isinstance(v, Lin): return ('i',), v
        if isinstance(v, Ptr): return ('p', v.obj), v.off
        return (v,), None
    def compat(self, a, b, live):
        if a.mon != b.mon: return False
        for v in live:
            x = a.env.get(v); y = b.env.get(v)
            if not self.vcompat(x, y): return False
        if set(a.g) != set(b.g): return False
        for k in a.g:
            if not self.vcompat(a.g[k], b.g[k], True): return False
        for i in set(a.mem) | set(b.mem):
            x = a.mem.get(i); y = b.mem.get(i)
            if x is y: continue
            if x is None or y is None:
                z = x if y is None else y
                if z.dead: return False
                continue
            if x.dead != y.dead: return False
            for k in x.cells:
                c = y.cells.get(k)
                if c is not None and c[0] == x.cells[k][0] and not self.vcompat(x.cells[k][1], c[1]): return False
        return True
    def vcompat(self, x, y, ghost=False):
        if x is y or x == y: return True
        if x is None or y is None: return True
        if isinstance(x, Lin) and isinstance(y, Lin):
            if x.lit and y.lit and not x.t and not y.t and not ghost: return False
            return True
        if isinstance(x, Ptr) and isinstance(y, Ptr): return x.obj is y.obj
        if x is UNDEF or y is UNDEF: return True
        return False
    def collect(self, a, b, live):
        """paired rows of differing/symbolic values: list of (key, va, vb)"""
        rows = []
        for v in sorted(live, key=str):
            x = a.env.get(v); y = b.env.get(v)
            if x is None and y is None: continue
            rows.append((('e', v), x, y))
        for k in sorted(a.g):
            rows.append((('g', k), a.g[k], b.g[k]))
        for i in sorted(set(a.mem) | set(b.mem)):
            ma = a.mem.get(i); mb = b.mem.get(i)
            if ma is mb: 
                if ma is not None:
                    for k in ma.cells: rows.append((('c', i, k, ma.cells[k][0]), ma.cells[k][1], ma.cells[k][1]))
                continue
            ca = ma.cells if ma else {}; cb = mb.cells if mb else {}
            for k in sorted(set(ca) | set(cb)):
                x = ca.get(k); y = cb.get(k)
                if x is not None and y is not None and x[0] == y[0]:
                    rows.append((('c', i, k, x[0]), x[1], y[1]))
                elif x is not None and y is None:
                    rows.append((('c', i, k, x[0]), x[1], self.lazycell(b, i, k, x)))
                elif y is not None and x is None:
                    rows.append((('c', i, k, y[0]), self.lazycell(a, i, k, y), y[1]))
                else:
                    rows.append((('c', i, k, x[0]), None, None))
        return rows
    def lazycell(self, st, oid, k, other):
        o = self.objbyid(oid)
        if o is None: return None
        m = st.mem.get(oid)
        if m is not None and any(kk < k + other[0] and k < kk + cs for kk, (cs, _) in m.cells.items()): return None
        v = self.mem_load(st.copy(), o, K(k), other[0], isinstance(other[1], Ptr))
        return v
    def objbyid(self, i):
        return OBJS.get(i)
    def join_mem(self, J, A, B):
        """symbolic cells / fills / objects present on one side"""
        for i in set(A.mem) | set(B.mem):
            ma = A.mem.get(i); mb = B.mem.get(i)
            if ma is mb: continue
            if ma is None:
                J.mem[i] = mb.copy(); J.memown.add(i); 
                # cells were handled by collect/setrow
                continue
            if mb is None: continue
            if ma.syms == mb.syms and ma.fills == mb.fills and ma.ver == mb.ver: continue
            o = self.objbyid(i)
            m = J.mw(o)
            # keep cells common to both
            keep = tuple(x for x in ma.syms if x in mb.syms)
            drop = [x for x in ma.syms if x not in mb.syms] + [x for x in mb.syms if x not in ma.syms]
            m.syms = keep
            if ma.fills != mb.fills or drop or ma.ver != mb.ver:
                self.join_fills(J, A, B, o, m, ma, mb, drop)
    def join_fills(self, J, A, B, o, m, ma, mb, drop):
        # content of symbolic positions becomes unknown (new version)
        m.ver = fresh_ver()
        m.fills = ((ZERO, o.size if o.size is not None else K(1 << 62), None),)
    def rowname(self, key):
        return 'phi.%s' % (key[-1] if key[0] != 'c' else '%d_%d' % (key[1], key[2]))
    def rowrange(self, key, l): return None, None
    def topval(self, key, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr): return UNDEF
        if x is UNDEF or y is UNDEF or x is None and y is None: return UNDEF
        w = key[3] * 8 if key[0] == 'c' else 64
        return S(newsym('top'))
    def setrow(self, J, key, v, rows=None):
        if key[0] == 'e':
            old = J.env.get(key[1])
            if isinstance(old, Ptr) and isinstance(v, Lin): v = Ptr(old.obj, v)
            J.env[key[1]] = v
        elif key[0] == 'g':
            old = J.g.get(key[1])
            if isinstance(old, Ptr) and isinstance(v, Lin): v = Ptr(old.obj, v)
            J.g[key[1]] = v
        elif key[0] == 'c':
            o = self.objbyid(key[1])
            m = J.mw(o)
            old = m.cells.get(key[2])
            if isinstance(v, Lin):
                ov = old[1] if old is not None else None
                if ov is None and rows is not None:
                    for k2, x, y in rows:
                        if k2 == key:
                            ov = x if x is not None else y
                            break
                if isinstance(ov, Ptr): v = Ptr(ov.obj, v)
            m.cells[key[2]] = (key[3], v)
    def is_param(self, s): return s in self.splitmods
    def istop(self, l):
        return len(l.t) == 1 and l.c == 0 and SYM_NAME[l.t[0][0]] == 'top'
    def includes_mem(self, J, B, inst):
        for i in set(J.mem) | set(B.mem):
            mj = J.mem.get(i); mb = B.mem.get(i)
            if mj is mb: continue
            if mj is None:
                continue
            if mb is None: continue
            if mj.dead != mb.dead: return False
            if mj.syms == mb.syms and mj.fills == mb.fills and mj.ver == mb.ver: continue
            # J's versioned unknown content absorbs anything
            if mj.fills and mj.fills[-1][2] is None and mj.fills[-1][0] == ZERO and not mj.syms: continue
            o = self.objbyid(i)
            js = [(a.subst(inst), s, (v.subst(inst) if isinstance(v, Lin) else v)) for a, s, v in mj.syms]
            if not all(any(B.norm(a - a2) == ZERO and s == s2 and v == v2 for a2, s2, v2 in mb.syms) for a, s, v in js): return False
            if len(mb.syms) > len(js) : return False
            if mj.fills != mb.fills:
                jf = tuple((lo.subst(inst), hi.subst(inst), b) for lo, hi, b in mj.fills)
                bf = tuple((B.norm(lo), B.norm(hi), b) for lo, hi, b in mb.fills)
                if tuple((B.norm(lo), B.norm(hi), b) for lo, hi, b in jf) != bf: return False
        return True

_VER = [1]
def fresh_ver():
    _VER[0] += 1
    return _VER[0]

OBJS = {}
_oi = Obj.__init__
def _ni(self, *a, **k):
    _oi(self, *a, **k)
    OBJS[self.id] = self
Obj.__init__ = _ni

def common_node(a, b):
    if a is None or b is None: return None
    while a is not b:
        if a is None or b is None: return None
        if a.depth > b.depth: a = a.p
        elif b.depth > a.depth: b = b.p
        else: a = a.p; b = b.p
    return a

def rebuild(s, n):
    """reset the constraint store of s to exactly the chain ending at n"""
    s.cons = None; s.eqs = {}; s.eqid = 0; s.bnd = {}; s.cidx = {}
    ch = []
    x = n
    while x is not None: ch.append(x); x = x.p
    ch.reverse()
    # recompute derived data without creating nodes
    eqs = {}; bnd = {}; cidx = {}
    for nd in ch:
        l = nd.lin
        if nd.eq is not None:
            l2 = l.subst(eqs)
            cand = (nd.eq, l2.coef(nd.eq)) if l2.coef(nd.eq) in (1, -1) else pick_elim(l2)
            if cand:
                sy, a = cand
                rest = Lin(l2.c, tuple(x for x in l2.t if x[0] != sy))
                rep = rest.scale(-1) if a == 1 else rest
                m = {sy: rep}
                for k in eqs: eqs[k] = eqs[k].subst(m)
                eqs[sy] = rep
        elif len(l.t) == 1:
            sy, a = l.t[0]
            bl, bh = bnd.get(sy, (SYM_LO[sy], SYM_HI[sy]))
            if a == 1:
                if bl is None or -l.c > bl: bl = -l.c
            else:
                if bh is None or l.c < bh: bh = l.c
            bnd[sy] = (bl, bh)
        else:
            c = cidx.get(l.t)
            if c is None or l.c < c: cidx[l.t] = l.c
    s.cons = n; s.eqs = eqs; s.bnd = bnd; s.cidx = cidx
    CNode.n += 1
    s.eqid = CNode.n if eqs else 0

Interp.common_node = staticmethod(common_node)
Interp.rebuild = staticmethod(rebuild)
Interp.Ptr = Ptr
Interp.UNDEF = UNDEF
Interp.AErr = AnalysisError
