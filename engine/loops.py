"""Generalisation of sets of abstract states: used for loop heads (fixpoint) and merges.

A Part keeps, for every value ("row") that differs between the states it has absorbed, one
persistent symbol psi; affine relations between rows are the null space of the observed
difference vectors (Karr), relations modulo a table size are kept with a multiple symbol,
and inequality / equality-of-tuple candidates are weakened until they hold at every
incoming state (greatest fixpoint; checked before any obligation is evaluated)."""
import os
from fractions import Fraction
from math import gcd
from lin import *
import lin as LN
DEBUG = bool(os.environ.get('AI_DEBUG'))

class Part(object):
    n = 0
    def __init__(self, e0, base):
        Part.n += 1
        self.id = Part.n
        self.e0 = e0; self.base = base
        self.psi = {}          # key -> sym
        self.ev = {}           # key -> Lin value in e0
        self.kind = {}         # key -> Ptr object or None
        self.top = {}          # key -> value
        self.cols = []         # list of dict key -> Lin delta
        self.cands = []        # list of Lin over psi (>=0)
        self.cset = set()
        self.tried = set()
        self.tuples = []       # list of (arr, tuple of Lin)
        self.kb = dict(e0.kb); self.ne = e0.ne
        self.gen = 0
        self.J = e0
        self.plainJ = True     # J is e0 itself
        self.dirty = True
        self.wits = [(e0, {})]
        self.rel = None
        self.msym = {}
        self.rounds = 0
        self.mem = None
        self.infl = []; self.triedt = set()
        self.count = 0; self.gengen = 0; self.newc = set(); self.newt = set()
        self.bound = frozenset()

class LoopMixin(object):
    GENMAX = 4
    GENGEN = 2
    def nope(self, *a):
        if DEBUG: print('   NOT INCLUDED', a)
        return False
    def split_special(self, l):
        """separate multiples of special moduli"""
        t = []; sp = []
        for s, c in l.t:
            b = s if s in self.splitmods else SYM_MULT[s]
            if b is not None and b in self.splitmods: sp.append((s, c))
            else: t.append((s, c))
        if not sp: return l, None
        return Lin(l.c, tuple(t)), Lin(0, tuple(sp))
    # ------------------------------------------------------------ loop driver
    def loop(self, f, h, entry, rets, exits):
        live = f.live[h]
        if self.UNROLL is not None:
            sts = entry
            hist = {} if self.HIST else None
            for k in range(self.UNROLL + 1):
                sts = self.at_head(f, h, sts, live)
                if len(sts) > 1: sts = self.merge(f, h, sts)
                if hist is not None: sts = self.unseen(hist, sts, live)
                backs = []
                self.region(f, h, {h: sts}, rets, backs, exits)
                sts = backs
                if not sts: break
            if sts: self.cut[(f.name, str(f.blocks[h][-1].get('l')))] = self.cut.get((f.name, str(f.blocks[h][-1].get('l'))), 0) + len(sts)
            return
        n0 = entry[0].cons
        for s in entry[1:]: n0 = self.common_node(n0, s.cons)
        parts = []
        if len(entry) > 1: entry = self.merge(f, h, entry)
        keepsep = len(entry) <= 12
        for s in entry:
            if keepsep: parts.append(Part(s, n0)); parts[-1].live = live
            else: self.inflow(parts, s, live, n0, None, None)
        saved_cmp = self.cmp_lins
        it = 0
        allc = set()
        while True:
            it += 1
            if it > 60: raise self.AErr('loop fixpoint does not converge in %s line %s' % (f.name, f.blocks[h][-1].get('l')))
            todo = [p for p in parts if p.dirty]
            if not todo: break
            self.mute += 1
            news = []
            for p in todo:
                p.dirty = False
                if not p.plainJ: self.build(p); p.bound = frozenset(p.psi.values())
                self.cmp_lins = set()
                backs = []; ex = []; rr = []
                self.region(f, h, {h: [p.J.copy()]}, rr, backs, ex)
                allc |= self.cmp_lins
                news.append((p, backs, self.cmp_lins))
            self.mute -= 1
            for p, backs, cl in news:
                wasgen = not p.plainJ
                for s in backs: self.inflow(parts, s, live, n0, p, cl)
                if wasgen: p.gengen += 1
        self.cmp_lins = saved_cmp
        if saved_cmp is not None: saved_cmp |= allc
        for p in parts:
            backs = []; ex = []
            self.region(f, h, {h: [p.J.copy()]}, rets, backs, ex)
            exits.extend(ex)
    HIST = False
    def at_head(self, f, h, sts, live): return sts
    def unseen(self, hist, sts, live):
        """states of a loop head not covered by an earlier iteration"""
        out = []
        for s in sts:
            syms = set(self.splitmods)
            sig = self.signature(s, live, syms)
            grp = hist.setdefault(sig, [])
            if any(self.same_values(s, t, live) and self.facts_within(s, t, syms) for t in grp): continue
            grp.append(s.copy()); out.append(s)
        return out
    def inflow(self, parts, s, live, n0, src, cl):
        cand = [p for p in parts if self.compat(p.J, s, live)]
        if src is not None and src in cand:
            cand.remove(src); cand.insert(0, src)
        for p in cand:
            if self.includes(p, s, live, p is src and not p.plainJ):
                if p is not src: p.wits.append((s, self.inst_of(p, s, live)))
                if p is src and not p.plainJ and p.gengen < self.GENGEN:
                    # included, but its facts may suggest stronger candidates
                    n0c = len(p.cands), len(p.tuples)
                    self.absorb(p, s, live, cl, src, True)
                    if (len(p.cands), len(p.tuples)) == n0c and not p.dirty2: p.dirty = p.wasdirty
                return
        if DEBUG: print('  inflow: absorb', bool(cand), 'of', len(parts))
        for p in cand:
            if self.absorb(p, s, live, cl, src): return
        if len(parts) > 60: raise self.AErr('too many loop partitions')
        p = Part(s, n0); p.live = live
        parts.append(p)
    # ------------------------------------------------------------ rows
    def rowsof(self, p, s, live):
        """pairs (key, value in e0, value in s)"""
        e0 = p.e0
        rows = self.collect(e0, s, live)
        have = set(k for k, _, _ in rows)
        for k in p.psi:
            if k in have or k[0] != 'c': continue
            rows.append((k, self.cellval(e0, k, p.kind[k]), self.cellval(s, k, p.kind[k])))
        return rows
    def cellval(self, st, k, kind):
        m = st.mem.get(k[1])
        if m is not None:
            c = m.cells.get(k[2])
            if c is not None and c[0] == k[3]: return c[1]
        o = self.objbyid(k[1])
        return self.mem_load(st.copy(), o, K(k[2]), k[3], kind is not None)
    def inst_of(self, p, s, live):
        inst = {}
        for key, x, y in self.rowsof(p, s, live):
            if key in p.psi and y is not None:
                _, ly = self.valrow(y)
                if ly is not None: inst[p.psi[key]] = ly
        for k in p.psi:
            if k[0] == 't':
                v = self.trow(s, k, inst)
                if v is not None: inst[p.psi[k]] = v
        return inst
    def trow(self, s, k, inst):
        idx = s.norm(k[2].subst(inst))
        pts = s.ps.get(k[1], ())
        for q in pts:
            d = s.norm(q[0] - idx)
            if not d.t and not d.c: return q[1]
        for q in pts:
            if s.is_eq(q[0] - idx): return q[1]
        return None
    def includes(self, p, s, live, gen=False):
        if p.plainJ:
            # J is the entry state itself: require identity of values
            for key, x, y in self.collect(p.e0, s, live):
                if x == y or x is self.UNDEF: continue
                if x is None: continue
                if y is None: return False
                sx, lx = self.valrow(x); sy, ly = self.valrow(y)
                if sx != sy or lx is None: return False
                d = s.norm(lx - ly)
                if d.t or d.c: return False
            return self.incl_rest(p, s, {}, live)
        inst = {}
        for key, x, y in self.rowsof(p, s, live):
            if key in p.top: continue
            if key in p.psi:
                if y is None: return self.nope('noval', key)
                sy, ly = self.valrow(y)
                if ly is None: return self.nope('shape', key)
                if (sy[1] if sy[0] == 'p' else None) is not p.kind[key]: return self.nope('kind', key)
                inst[p.psi[key]] = ly
                continue
            if x == y or x is None: continue
            if x is self.UNDEF: continue
            if y is None: return self.nope('none', key)
            sx, lx = self.valrow(x); sy, ly = self.valrow(y)
            if sx != sy or lx is None: return self.nope('shape2', key, x, y)
            d = s.norm(lx - ly)
            if d.t or d.c: return self.nope('differs', key, lx, s.norm(ly))
        for k in p.psi:
            if k[0] == 't':
                v = self.trow(s, k, inst)
                if v is None: return self.nope('point', k)
                inst[p.psi[k]] = v
            elif p.psi[k] not in inst: return self.nope('missing', k)
        for l, special, _ in p.rel:
            d = s.norm(l.subst(inst))
            if special: d, _ = self.split_special(d)
            if d.t or d.c: return self.nope('relation', l, d)
        return self.incl_rest(p, s, inst, live, gen)
    def incl_rest(self, p, s, inst, live, gen=False):
        skip = p.newc if gen else ()
        for c in p.cands:
            if c in skip: continue
            if not s.entails(c.subst(inst)): return self.nope('cand', c, s.norm(c.subst(inst)))
        for k, v in p.J.kb.items():
            b = s.kb.get(k)
            if b != v:
                bz, bo = b or (0, 0)
                if (v[0] & ~bz) or (v[1] & ~bo): return self.nope('kb', k)
        if not (p.J.ne <= s.ne):
            for l in p.J.ne:
                if l in s.ne or s.norm(l) in s.ne: continue
                q = s.norm(l)
                if not q.t and q.c: continue
                return self.nope('ne', l)
        if p.plainJ:
            n = self.common_node(p.J.cons, s.cons)
            c = p.J.cons
            while c is not n:
                if not s.entails(c.lin): return self.nope('fact', c.lin)
                if c.eq is not None and not s.entails(-c.lin): return self.nope('fact', c.lin)
                c = c.p
        for arr, tp in p.tuples:
            if gen and (arr, tp) in p.newt: continue
            if not self.has_tuple(s, arr, tuple(l.subst(inst) for l in tp)): return self.nope('tuple', arr, tp)
        if p.plainJ:
            for arr, tps in p.J.ps.items():
                for tp in tps:
                    if not self.has_tuple(s, arr, tp): return self.nope('tuple0', arr, tp)
        if not self.includes_mem(p.J, s, inst): return self.nope('mem')
        return True
    def has_tuple(self, s, arr, tp):
        tp = tuple(s.norm(l) for l in tp)
        for q in s.ps.get(arr, ()):
            if len(q) != len(tp): continue
            ok = True
            for a, b in zip(q, tp):
                d = s.norm(a - b)
                if d.t or d.c: ok = False; break
            if ok: return True
        # second chance: provable equality of the first component
        for q in s.ps.get(arr, ()):
            if len(q) != len(tp): continue
            if s.norm(q[0] - tp[0]) == ZERO or not s.is_eq(q[0] - tp[0]): continue
            if all(s.is_eq(a - b) for a, b in zip(q[1:], tp[1:])): return True
        return self.tuple_extra(s, arr, tp)
    def tuple_extra(self, s, arr, tp): return False
    # ------------------------------------------------------------ absorb
    def absorb(self, p, s, live, cl, src=None, incl=False):
        """weaken p so that it covers s (approximately; checked by `includes` later)"""
        p.count += 1
        rows = self.rowsof(p, s, live)
        vals = {}
        for key, x, y in rows:
            if key in p.top: continue
            if x is None and y is None: p.top[key] = self.UNDEF; continue
            sx, lx = self.valrow(x) if x is not None else (None, None)
            sy, ly = self.valrow(y) if y is not None else (None, None)
            if x is None or y is None or sx != sy or lx is None or ly is None:
                if x is not None and x == y: continue
                if key[0] == 'g' : return False
                p.top[key] = self.topval(key, x, y)
                if key in p.psi: self.droprow(p, key)
                continue
            if key not in p.psi:
                d = s.norm(lx - ly)
                if not d.t and not d.c: continue
                p.psi[key] = newsym(self.rowname(key))
                p.ev[key] = p.e0.norm(lx); p.kind[key] = sx[1] if sx[0] == 'p' else None
            vals[key] = ly
        inst = dict((p.psi[k], v) for k, v in vals.items())
        for k in list(p.psi):
            if k[0] != 't': continue
            v = self.trow(s, k, inst)
            if v is None: self.droprow(p, k); continue
            vals[k] = v; inst[p.psi[k]] = v
        # difference vectors
        col = {}
        for k, v in vals.items():
            sy = p.psi[k]
            # states coming round the loop contain psi symbols: delta relative to them
            ref = S(sy) if (src is p and sy in p.bound) else p.ev[k]
            col[k] = s.norm(v - ref)
        p.cols.append(col)
        gen = src is p and not p.plainJ
        if not gen:
            p.infl.append((s, inst, col))
            self.gen_trows(p, s, inst, col)
        if not (src is p and not p.plainJ): p.wits.append((s, inst))
        self.relations(p)
        # filters
        gen = src is p and not p.plainJ
        p.cands = [c for c in p.cands if (gen and c in p.newc) or s.entails(c.subst(inst))]
        p.tuples = [(a, t) for a, t in p.tuples if (gen and (a, t) in p.newt) or self.has_tuple(s, a, tuple(l.subst(inst) for l in t))]
        p.kb = dict((k, (v[0] & s.kb[k][0], v[1] & s.kb[k][1])) for k, v in p.kb.items() if k in s.kb)
        p.ne = frozenset(l for l in p.ne if l in s.ne)
        if p.mem is None: p.mem = []
        p.mem.append(s)
        p.wasdirty = p.dirty; p.dirty2 = not incl
        if p.gen < self.GENMAX or incl:
            if not incl: p.gen += 1
            self.gen_cands(p, s, inst, cl)
            self.gen_tuples(p, s, inst)
        p.plainJ = False; p.dirty = True
        return True
    def droprow(self, p, key):
        sy = p.psi.pop(key); p.ev.pop(key); p.kind.pop(key)
        for c in p.cols: c.pop(key, None)
        p.cands = [c for c in p.cands if c.coef(sy) == 0]
        p.tuples = [(a, t) for a, t in p.tuples if all(l.coef(sy) == 0 for l in t)]
    # ------------------------------------------------------------ affine relations
    def colvec(self, p, k):
        v = {}; sp = False
        for ci, col in enumerate(p.cols):
            d = col.get(k)
            if d is None: continue
            d, spd = self.split_special(d)
            if spd is not None: sp = True
            for s, c in d.t: v[(ci, s)] = Fraction(c)
            if d.c: v[(ci, -1)] = Fraction(d.c)
        return v, sp
    def reduce_vec(self, v, basis):
        v = dict(v); combo = {}
        for pc, bv, bc in basis:
            if pc in v:
                f = v[pc] / bv[pc]
                for k2, c in bv.items():
                    nv = v.get(k2, 0) - f * c
                    if nv == 0: v.pop(k2, None)
                    else: v[k2] = nv
                for k2, c in bc.items(): combo[k2] = combo.get(k2, 0) - f * c
        return v, combo
    def relations(self, p):
        """p.rel: list of (Lin over psi, special) that must be zero"""
        order = []
        for k in p.psi:
            v, sp = self.colvec(p, k)
            order.append((sp, self.rowrank(k), len(v), len(order), k, v))
        order.sort(key=lambda t: t[:4])
        basis = []
        rel = []
        for sp, _, _, _, k, v in order:
            r, combo = self.reduce_vec(v, basis)
            combo[k] = combo.get(k, 0) + Fraction(1)
            if r:
                pc = sorted(r, key=str)[0]
                basis.append((pc, r, combo))
                continue
            den = 1
            for c in combo.values(): den = den * c.denominator // gcd(den, c.denominator)
            l = ZERO; special = False
            sums = [ZERO] * len(p.cols)
            for k2, c in combo.items():
                if c == 0: continue
                ci = int(c * den)
                l = l + (S(p.psi[k2]) - p.ev[k2]).scale(ci)
                for i, col in enumerate(p.cols):
                    d = col.get(k2)
                    if d is not None: sums[i] = sums[i] + d.scale(ci)
            if any(x.t or x.c for x in sums): special = True
            if special and den != 1: continue
            rel.append((l, special, p.psi[k]))
        p.rel = rel; p.basis = basis
    def rowrank(self, k): return 0 if k[0] != 'g' else 1
    # ------------------------------------------------------------ building J
    def build(self, p):
        p.newc = set(); p.newt = set()
        e0 = p.e0
        J = e0.copy()
        self.rebuild(J, p.base)
        J.kb = dict((k, v) for k, v in p.kb.items() if v != (0, 0))
        J.ne = p.ne
        for k, v in p.top.items(): self.setrow(J, k, v)
        for k, sy in p.psi.items():
            v = S(sy)
            if p.kind[k] is not None: v = self.Ptr(p.kind[k], v)
            self.setval(J, k, v)
        tps = {}
        for k, sy in p.psi.items():
            if k[0] == 't': tps.setdefault(k[1], []).append((k[2], S(sy)))
        for l, special, sy in sorted(p.rel, key=lambda r: r[1]):
            if special:
                _, sp = self.split_special(self.special_part(p, l))
                b = self.special_base(p, l)
                if b is None: continue
                key = l
                m = p.msym.get(key)
                if m is None: m = p.msym[key] = newsym('M', None, None, b)
                if not J.add_eq(l + S(m), sy): raise self.AErr('relation')
            else:
                if not J.add_eq(l): raise self.AErr('inconsistent relation')
        for c in p.cands:
            J.add_ge(c)
        ps = dict(tps)
        for a, t in p.tuples: ps.setdefault(a, []).append(tuple(J.norm(x) for x in t))
        J.ps = dict((a, tuple(ts)) for a, ts in ps.items())
        for s in p.mem or (): self.join_mem(J, J, s)
        J.trace = e0.trace
        p.J = J
    def special_base(self, p, l):
        bases = set()
        for i, col in enumerate(p.cols):
            for k, sy in p.psi.items():
                if l.coef(sy) and k in col:
                    for s, c in col[k].t:
                        b = s if s in self.splitmods else SYM_MULT[s]
                        if b is not None and b in self.splitmods: bases.add(b)
        if len(bases) == 1: return list(bases)[0]
        return None
    def special_part(self, p, l): return l
    def setval(self, J, key, v):
        if key[0] == 'e': J.env[key[1]] = v
        elif key[0] == 'g': J.g[key[1]] = v
        elif key[0] == 'c':
            o = self.objbyid(key[1])
            J.mw(o).cells[key[2]] = (key[3], v)
    # ------------------------------------------------------------ candidates
    def inv_map(self, p, X, newest):
        """old symbol -> expression in psi, from the values of the rows in X"""
        psis = set(p.psi.values())
        inv = {}
        pend = []
        for sy, l in X.items():
            if len(l.t) == 1 and l.t[0][1] == 1 and l.c == 0 and l.t[0][0] == sy: inv[sy] = S(sy)
            else: pend.append((sy, l))
        pend.sort(key=lambda x: len(x[1].t))
        for _ in range(2):
            rest = []
            for sy, l in pend:
                cand = None
                for s, c in (reversed(l.t) if newest else l.t):
                    if c in (1, -1) and s not in inv and not self.is_param(s) and SYM_MULT[s] is None:
                        if cand is None or (s in psis and cand[0] not in psis): cand = (s, c)
                if cand is None: continue
                s, c = cand
                r = Lin(l.c, tuple(x for x in l.t if x[0] != s))
                if any(x in psis and x not in inv for x, _ in r.t): rest.append((sy, l)); continue
                r = r.subst(inv)
                inv[s] = (S(sy) - r).scale(c)
            pend = rest
        return inv
    def gen_cands(self, p, s, inst, cl):
        psis = set(p.psi.values())
        out = []
        seen = p.tried
        def addc(l):
            if not l.t or l in seen or len(l.t) > 6: return
            hit = False
            for x, _ in l.t:
                if x in psis: hit = True; break
            if not hit: return
            g = l.gcd()
            if g > 1: l = Lin(l.c // g, tuple((x, a // g) for x, a in l.t))
            if l in seen: return
            seen.add(l); out.append(l)
        e0i = dict((p.psi[k], p.ev[k]) for k in p.psi)
        for X, vals, isE in ((p.e0, e0i, True), (s, inst, False)):
            facts = []
            n = p.base
            c = X.cons
            while c is not None and c is not n:
                facts.append(c.lin)
                if c.eq is not None: facts.append(-c.lin)
                c = c.p
            for sy, (lo, hi) in X.bnd.items():
                if lo is not None: facts.append(S(sy) - lo)
                if hi is not None: facts.append(K(hi) - S(sy))
            for newest in (False, True):
                inv = self.inv_map(p, vals, newest)
                for sy in inv:
                    if sy in psis: continue
                    if SYM_LO[sy] is not None: facts.append(S(sy) - SYM_LO[sy])
                    if SYM_HI[sy] is not None: facts.append(K(SYM_HI[sy]) - S(sy))
                allf = facts
                if isE:
                    # facts of the common prefix about the entry values, restated for psi
                    allf = list(facts)
                    c = n
                    while c is not None:
                        if any(x in inv for x, _ in c.lin.t):
                            allf.append(c.lin)
                            if c.eq is not None: allf.append(-c.lin)
                        c = c.p
                if cl: allf = allf + [q for d in cl for q in (d, -d)]
                for l in allf:
                    if any(x in psis and x not in inv for x, _ in l.t): continue
                    addc(l.subst(inv))
                    if l in (): pass
        if cl:
            for d in cl:
                d2 = d
                for _ in range(3):
                    m = dict((x, WRAPOF[x]) for x, _ in d2.t if x in WRAPOF)
                    if not m: break
                    d2 = d2.subst(m)
                for d in (d, d2) if d2 is not d else (d,):
                    for q in (d, -d):
                        addc(q); addc(q - 1); addc(q + 1)
        ks = sorted(p.psi, key=str)
        for k in ks:
            y = S(p.psi[k])
            addc(y); addc(y - p.ev[k]); addc(p.ev[k] - y)
            for l in self.row_limits(k, p): addc(l - y); addc(y - l)
        for i in range(len(ks)):
            for j in range(i):
                a = S(p.psi[ks[i]]); b = S(p.psi[ks[j]])
                addc(a - b); addc(b - a)
        for l in self.extra_cands(p, s, inst): addc(l)
        # facts not about psi: keep those common to every incoming state
        w = p.wits
        for c in out:
            ok = True
            for X, vals in reversed(w):
                v = dict(e0i); v.update(vals)
                if not X.entails(c.subst(v)): ok = False; break
            if ok: p.cands.append(c); p.newc.add(c)
        # plain facts
        c = p.e0.cons
        if not getattr(p, 'plain', None):
            p.plain = True
            n = p.base
            while c is not None and c is not n:
                for l in ((c.lin,) if c.eq is None else (c.lin, -c.lin)):
                    if all(X.entails(l) for X, _ in w[1:]): p.cands.append(l)
                c = c.p
    def row_limits(self, key, p): return ()
    def extra_cands(self, p, s, inst): return ()
    def gen_trows(self, p, s, inst, col):
        """rows for the values of point functions at loop-varying indices"""
        for arr, te in p.e0.ps.items():
            if arr[0] != 'PS': continue
            ts = s.ps.get(arr)
            if not ts: continue
            for a in te:
                for b in ts:
                    d = s.norm(b[0] - a[0])
                    if not d.t and not d.c: continue
                    F = self.express_rows(p, a[0], b[0], s, inst)
                    if F is None: continue
                    key = ('t', arr, F)
                    if key in p.psi: continue
                    vals = []
                    for X, xi, xc in p.infl:
                        v = self.trow(X, key, xi)
                        if v is None: break
                        vals.append(v)
                    if len(vals) != len(p.infl): continue
                    sy = p.psi[key] = newsym('PS.%s' % (arr[1],))
                    p.ev[key] = a[1]; p.kind[key] = None
                    for (X, xi, xc), v in zip(p.infl, vals):
                        xi[sy] = v; xc[key] = X.norm(v - a[1])
    def gen_tuples(self, p, s, inst):
        """points / quantified facts that hold at every incoming state"""
        e0i = dict((p.psi[k], p.ev[k]) for k in p.psi)
        cand = []
        for arr, te in p.e0.ps.items():
            if arr[0] == 'PS':
                for t in te: cand.append((arr, t))
            else:
                for a in te:
                    cand.append((arr, a))
                    for b in self.tuple_shapes(p, s, inst, arr, a): cand.append((arr, b))
        for t in cand:
            if t in p.tuples or t in p.triedt: continue
            p.triedt.add(t)
            ok = True
            for X, vals in p.wits:
                v = dict(e0i); v.update(vals)
                if not self.has_tuple(X, t[0], tuple(l.subst(v) for l in t[1])): ok = False; break
            if ok: p.tuples.append(t); p.newt.add(t)
    def tuple_shapes(self, p, s, inst, arr, a):
        """generalisations of an index fact: any loop-varying point index"""
        out = []
        for k in p.psi:
            if k[0] == 't' and k[1][1] == arr[1]: out.append((k[2],))
        return out
    def express_rows(self, p, x, y, s, inst):
        """affine form over psi with value x at e0 and y at s"""
        # constants
        d0 = s.norm(y - x)
        if not d0.t and not d0.c: return x
        # value y in terms of psi of this round: y(inst). Look for form F with F(e0)=x, F(s)=y
        if s is p.e0: return None
        # single row + constant, then row combinations by elimination against e0 differences
        rows = list(p.psi.items())
        vecs = []
        for k, sy in rows:
            if sy not in inst or k[0] == 't': continue
            vecs.append((sy, p.ev[k], s.norm(inst[sy] - p.ev[k])))
        target = s.norm(y - x)
        basis = []
        def tov(l):
            v = {}
            for a, c in l.t: v[a] = Fraction(c)
            if l.c: v[-1] = Fraction(l.c)
            return v
        vecs.sort(key=lambda t: len(t[2].t))
        for sy, ev, d in vecs:
            v, combo = self.reduce_vec(tov(d), basis)
            if v:
                combo[sy] = combo.get(sy, 0) + Fraction(1)
                basis.append((sorted(v, key=str)[0], v, combo))
        v, combo = self.reduce_vec(tov(target), basis)
        if v: return None
        evs = dict((sy, ev) for sy, ev, _ in vecs)
        l = x
        for sy, c in combo.items():
            if c == 0: continue
            if c.denominator != 1: return None
            l = l + (S(sy) - evs[sy]).scale(-int(c))
        return l
    # ------------------------------------------------------------ merge
    def join(self, A, B, live):
        if not self.compat(A, B, live): return None
        p = Part(A, self.common_node(A.cons, B.cons)); p.live = live
        if not self.absorb(p, B, live, None): return None
        self.build(p)
        return p.J
