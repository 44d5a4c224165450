"""Canonical loop-head states for fully enumerated (UNROLL) analyses.

At every loop head the state is rebuilt over canonical symbols: dead values and facts about
them are dropped, every remaining value gets a symbol named after its role only, and the
facts kept are the bounds of those values and their pairwise differences. Two iterations
that reach the same situation become identical, so loops converge instead of being cut.
Dropping facts only ever adds behaviours (sound)."""
from core import *
from core import memo_sym
from libc import *

class CanonMixin(object):
    CANON = True
    symbase = 0
    def run_func(self, f, args, st, ins=None, vararg=None):
        old = getattr(self, 'prot', frozenset())
        s = set(old)
        for v in st.env.values(): self.vsyms(st, v, s)
        self.prot = frozenset(s)
        r = super().run_func(f, args, st, ins, vararg)
        self.prot = old
        return r
    def vsyms(self, st, v, out):
        if isinstance(v, Lin):
            for x, _ in st.norm(v).t: out.add(x)
            for x, _ in v.t: out.add(x)
        elif isinstance(v, Ptr): self.vsyms(st, v.off, out)
        elif isinstance(v, Bits): out.add(v.s)
        elif isinstance(v, Cond): self.vsyms(st, v.d, out)
        elif isinstance(v, tuple):
            for x in v: self.vsyms(st, x, out)
    def keepsym(self, s): return s in PARAMS or s < self.symbase or s in self.prot
    def tidy(self, o, m):
        """drop numbers stored in large local arrays; one description for wholly unknown content"""
        big = o is not None and o.kind in ('stack', 'data') and o.size is not None and (o.size.t or o.size.c > 64)
        if big:
            m.cells = dict((k, c) for k, c in m.cells.items() if c[0] < 4 or isinstance(c[1], Ptr))
            m.syms = tuple(x for x in m.syms if x[1] < 4 or isinstance(x[2], Ptr))
        if not m.cells and not m.syms and all(b is None for _, _, b in m.fills):
            m.fills = ((ZERO, K(1 << 40), None),) if m.fills or big else ()
            return True
        return False
    def at_head(self, f, h, sts, live):
        if not self.CANON: return sts
        for s in sts: self.before_head(f, h, s)
        out = []; groups = {}
        for s in sts:
            s = self.canon(f, h, s, live)
            g = groups.setdefault(self.signature(s, live, set()), [])
            for i in g:
                if self.same_values(out[i], s, live):
                    out[i] = self.meet(out[i], s); break
            else: g.append(len(out)); out.append(s)
        return out
    def meet(self, a, b):
        r = self.meet_common(a, b)
        for rel in self.relations(r):
            l = sum((v.scale(c) for c, v in rel), ZERO)
            for q in (l, -l):
                if not r.entails(q) and a.entails(q) and b.entails(q): r.add_ge(q)
        return r
    def walked(self, o):
        """constant positions in this object are generalised"""
        return False
    def before_head(self, f, h, st): pass
    def relations(self, st):
        """combinations of tracked values whose sign is kept: tuples of (coefficient, value)"""
        return ()
    def counters(self, st, f, h):
        """positive constants that stand for a number of rounds: value -> lowest value kept"""
        return {}
    def counting(self, st, f, h, cnts):
        """memory cells seen with many constants here: they count rounds"""
        return ()
    def keepfact(self, l): return True
    def exact(self, f, h, k):
        """constant values of this tracked quantity stay constant at this loop"""
        return False
    def body_calls(self, f, h):
        """names of the functions called (also through others) in a loop"""
        k = (f.name, h)
        c = self.__dict__.setdefault('_calls', {})
        if k not in c:
            seen = set()
            def blocks(g, bs):
                for b in bs:
                    for ins in g.blocks[b]:
                        n = ins['callee'][1] if ins['o'] == 'call' and len(ins['callee']) > 1 else None
                        if isinstance(n, str) and n not in seen:
                            seen.add(n)
                            t = self.mod.func(n)
                            if t is not None: blocks(t, range(len(t.blocks)))
            blocks(f, f.loops[h])
            c[k] = seen
        return c[k]
    def canon(self, f, h, st, live):
        vals = []; seen = {}
        bits = set()
        def note(v, role, force=False):
            if isinstance(v, Lin):
                v = st.norm(v)
                if (v.t or force and v.c) and v not in seen: seen[v] = role; vals.append(v)
            elif isinstance(v, Ptr): note(v.off, role, v.obj is not None and self.walked(v.obj))
            elif isinstance(v, Bits): bits.add(v.s)
            elif isinstance(v, Cond): note(v.d, role) if isinstance(v.d, Lin) else bits.update(x for x in (v.d[0] if isinstance(v.d, tuple) else v.d,) if isinstance(x, int))
            elif isinstance(v, tuple):
                for i, x in enumerate(v): note(x, (role, i), force)
        cnts = self.counters(st, f, h)
        cc = self.counting(st, f, h, cnts)
        def ccount(i, k, c): return isinstance(c[1], Lin) and c[1] in cnts and (c[0] >= 8 or (i, k) in cc)
        keys = [k for k in sorted((k for k in live if isinstance(k, int)))] + ['va', 'fr']
        objs = set()
        def refs(v):
            if isinstance(v, Ptr) and v.obj is not None: objs.add(v.obj.id)
            elif isinstance(v, tuple):
                for x in v: refs(x)
        for k in keys:
            if k in st.env: note(st.env[k], ('e', k), st.env[k] in cnts if isinstance(st.env[k], Lin) else False); refs(st.env[k])
        mem = []
        for i in sorted(st.mem):
            m = st.mem[i]; o = OBJS.get(i)
            mem.append((i, m, o))
            for k in sorted(m.cells): refs(m.cells[k][1])
            for _, _, v in m.syms: refs(v)
        for v in st.g.values(): refs(v)
        ents = []
        for i, m, o in mem:
            if m.dead and i not in objs: continue
            if o is not None and o.kind == 'heap' and i not in objs and st.mon.get(('res', 'heap', i)) != 'live': continue
            m = m.copy()
            sc = self.tidy(o, m)
            ents.append((i, m, o, sc))
            if sc: continue
            for k in sorted(m.cells): note(m.cells[k][1], ('m', i, k), ccount(i, k, m.cells[k]))
            for so, ss, v in m.syms: note(so, ('s', i)); note(v, ('s', i, 1))
            for lo, hi, b in m.fills: note(lo, ('f', i)); note(hi, ('f', i, 1))
            if o is not None and o.size is not None and o.kind == 'heap': note(o.size, ('z', i))
        for k in [k for k in st.g if isinstance(k, tuple) and k[0] == 'fd' and st.mon.get(k[1]) == 'gone']:
            st.g.pop(k); st.mon.pop(k[1])
        for k in sorted(st.g, key=str): note(st.g[k], ('g', k), not self.exact(f, h, k))
        # renaming
        keep = set(); sub = {}; psis = []
        def kept(v): return v.t and all(self.keepsym(x) or x in bits or x in sub for x, _ in v.t)
        for x in bits:
            pass
        taken = set()
        def psi(v):
            role = seen[v]; n = 0
            while (role, n) in taken: n += 1
            taken.add((role, n))
            return memo_sym(('canon', self.symbase, role, n), 'h.' + str(role[0]) + str(role[-1])[:12], None, None)
        img = {}
        order = sorted(vals, key=lambda v: (len([1 for x, _ in v.t if not self.keepsym(x)]), ))
        for v in order:
            if kept(v) and v not in cnts: img[v] = v.subst(sub); continue
            un = [(x, a) for x, a in v.t if not (self.keepsym(x) or x in bits or x in sub)]
            if len(un) == 1 and abs(un[0][1]) == 1 and len(v.t) == 1:
                p = psi(v)
                x, a = un[0]
                sub[x] = S(p) - v.c if a == 1 else (-S(p)) + v.c
                img[v] = v.subst(sub); psis.append((S(p), v))
            else:
                p = psi(v)
                img[v] = S(p); psis.append((S(p), v))
        def nv(v, force=False):
            if isinstance(v, Lin):
                w = st.norm(v)
                r = img[w] if w.t or force and w.c else w
                return Lin(r.c, r.t, v.lit) if v.lit else r
            if isinstance(v, Ptr): return Ptr(v.obj, nv(v.off, self.walked(v.obj))) if v.obj is not None else v
            if isinstance(v, Cond) and isinstance(v.d, Lin): return Cond(v.k, nv(v.d), v.neg)
            if isinstance(v, tuple): return tuple(nv(x, force) for x in v)
            return v
        r = State()
        r.mon = dict(st.mon); r.trace = st.trace; r.ps = dict(st.ps)
        for k in [k for k, x in r.mon.items() if isinstance(k, tuple) and k[0] == 'res' and x == 'gone' and k[1] == 'heap' and k[2] not in objs]: r.mon.pop(k)
        for k in keys:
            if k in st.env: r.env[k] = nv(st.env[k], isinstance(st.env[k], Lin) and st.env[k] in cnts)
        ver = ('head', f.name, h)
        for i, m, o, sc in ents:
            q = Mem(); q.dead = m.dead
            if sc:
                q.fills = m.fills
                q.ver = (ver, i)
            else:
                q.cells = dict((k, (c[0], nv(c[1], ccount(i, k, c)))) for k, c in m.cells.items())
                q.syms = tuple((nv(so), ss, nv(v)) for so, ss, v in m.syms)
                q.fills = tuple((nv(lo), nv(hi), b) for lo, hi, b in m.fills); q.ver = m.ver if o is None or o.lazy else (ver, i)
            r.mem[i] = q; r.memown.add(i)
        for k, v in st.g.items(): r.g[k] = nv(v, not self.exact(f, h, k))
        # facts
        al = set()
        for v in list(r.env.values()) + list(r.g.values()): self.vsyms(r, v, al)
        for q in r.mem.values():
            for c in q.cells.values(): self.vsyms(r, c[1], al)
            for so, ss, v in q.syms: self.vsyms(r, so, al); self.vsyms(r, v, al)
        base = [x for x in range(self.symbase) if x in st.bnd or x in al]
        # facts over kept symbols only stay as they are
        for c in st.constraints():
            l = st.norm(c.lin) if c.eq is None else c.lin
            if l.t and all(self.keepsym(x) or x in bits for x, _ in l.t):
                if c.eq is None: r.add_ge(l)
                else: r.add_eq(l)
        for l in st.ne:
            l = st.norm(l)
            if all(self.keepsym(x) or x in bits for x, _ in l.t): r.add_ne(l)
            elif all(self.keepsym(x) or x in bits or x in sub for x, _ in l.t): r.add_ne(l.subst(sub))
        r.kb = dict((k, v) for k, v in st.kb.items() if self.keepsym(k) or k in bits)
        # linear facts that survive the renaming
        for c in st.constraints():
            if c.eq is not None: continue
            l = st.norm(c.lin)
            if l.t and any(x in sub for x, _ in l.t) and all(self.keepsym(x) or x in bits or x in sub for x, _ in l.t):
                l = l.subst(sub)
                if self.keepfact(l): r.add_ge(l)
        for p, v in psis:
            lo, hi = self.bounds_of(st, v) if v not in cnts else (cnts[v], None)
            if lo is not None: r.add_ge(p - lo)
            if hi is not None: r.add_ge(K(hi) - p)
        for rel in self.relations(st):
            l = st.norm(sum((v.scale(c) for c, v in rel), ZERO))
            im = [(c, img.get(st.norm(v), st.norm(v))) for c, v in rel]
            if any(v.t and not all(self.keepsym(x) or x in bits for x, _ in v.t) and st.norm(w) not in img for (c, v), (_, w) in zip(im, rel)): continue
            if st.entails(l): r.add_ge(sum((v.scale(c) for c, v in im), ZERO))
            if st.entails(-l): r.add_ge(sum((v.scale(-c) for c, v in im), ZERO))
        items = [(p, v) for p, v in psis if v not in cnts] + [(S(x), S(x)) for x in sorted(al) if self.keepsym(x)]
        by = {}
        for p, v in items:
            w = st.norm(v)
            if w.t: by.setdefault(w.t, (p, w.c))
        for i, (p, v) in enumerate(items):
            for p2, v2 in items[i + 1:]:
                t = st.norm(v + v2)
                if not t.t: r.add_eq(p + p2 - t.c)
                elif t.t in by: r.add_eq(p + p2 - by[t.t][0] - t.c + by[t.t][1])
                for a, b, x, y in ((p, p2, v, v2), (p2, p, v2, v)):
                    d = x - y
                    if st.entails(d - 1): r.add_ge(a - b - 1)
                    elif st.entails(d): r.add_ge(a - b)
                    elif st.entails(d + 1): r.add_ge(a - b + 1)
        return r
    def bounds_of(self, st, v):
        v = st.norm(v)
        lo, hi = st.interval(v)
        for b in (0, 1):
            if (lo is None or lo < b) and st.entails(v - b): lo = b
        # a bound of the whole combination, as in "sent + this piece is at most four"
        c = st.cidx.get((-v).t) if v.t else None
        if c is not None and (hi is None or hi > v.c + c): hi = v.c + c
        return lo, hi
