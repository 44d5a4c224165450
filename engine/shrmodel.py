"""Model of the environment of src/shr.c and the monitors that state its rules.

Anchors are public: API function names, struct field names (DWARF), libc/syscall names,
flag values. Everything else in the library is inlined and interpreted."""
from core import *
import core

F = {'KEEPEXIST': 1 << 0, 'DROP': 1 << 1, 'APPDATA': 1 << 2, 'FARM': 1 << 3, 'MAXMSGS': 1 << 4,
     'SYNC': 1 << 5, 'MLOCK': 1 << 6, 'FENCE': 1 << 12, 'RDONLY': 1 << 13, 'WRONLY': 1 << 14,
     'NONBLOCK': 1 << 15, 'BUFFERED': 1 << 16, 'POLLFD': 1 << 17}
BW_WAKE, BW_WAIT, BW_POLLFD = 2, 4, 16
F_SETLK, F_SETLKW = 6, 7
F_WRLCK, F_UNLCK = 1, 2

class Handler(object):
    def load(self, I, st, o, off, size, isptr, ins): return None
    def store(self, I, st, o, off, size, v, ins): return None
    def copy_from(self, I, st, d, s, ln, ins): return None
    def copy_to(self, I, st, d, s, ln, ins): return None
    def memset(self, I, st, d, b, ln, ins): return None

def sym(name, lo=None, hi=None): return S(newsym(name, lo, hi))

class RingH(Handler):
    """the mapped ring file of an open handle"""
    def __init__(self, M): self.M = M
    # ---- classification
    def classify(self, st, off, size):
        M = self.M
        off = st.norm(off)
        size = size if isinstance(size, Lin) else K(size)
        if not off.t:
            if off.c < M.hdr:
                return ('hdr', off.c)
        d = st.norm(off - M.hdr)
        if st.entails(d) and st.entails(M.n - d - size): return ('data', d)
        m = st.norm(d - M.n - M.pad)
        if st.entails(m) and st.entails(M.mvlen - m - size): return ('mv', m)
        a = st.norm(m - M.mvlen)
        if st.entails(a) and st.entails(M.applen - a - size): return ('app', a)
        return ('bad', off)
    def need_lock(self, I, st, ins, what):
        I.oblige('C01', st.mon.get('lock') == 1, st, ins, '%s of shared ring content while the ring lock is held' % what)
    def load(self, I, st, o, off, size, isptr, ins):
        M = self.M
        k, x = self.classify(st, off, size)
        if k == 'hdr':
            f = M.field_at(x, size)
            if f in M.immutable or f is None and x < 16:
                return [(st, I.mem_load(st, o, off, size, isptr))]
            self.need_lock(I, st, ins, 'read')
            return [(st, I.mem_load(st, o, off, size, isptr))]
        self.need_lock(I, st, ins, 'read')
        if k == 'mv': return M.mv_load(st, x, size, ins)
        I.oblige('C05', k != 'bad', st, ins, 'ring access stays inside the data area or the message table|offset %r' % st.norm(off))
        return [(st, I.fresh('ringbyte', 8 * size))]
    def store(self, I, st, o, off, size, v, ins):
        M = self.M
        k, x = self.classify(st, off, size)
        self.need_lock(I, st, ins, 'write')
        if k == 'hdr':
            return M.field_store(st, x, size, v, ins)
        if k == 'mv': return M.mv_store(st, x, size, v, ins)
        I.oblige('C05', False, st, ins, 'ring store stays inside the data area or the message table|offset %r' % st.norm(off))
        M.touch(st)
        return [st]
    def copy_from(self, I, st, d, s, ln, ins):
        M = self.M
        self.need_lock(I, st, ins, 'read')
        k, x = self.classify(st, s.off, ln)
        if k == 'hdr': 
            ln = st.norm(ln)
            if ln.t or x + ln.c > M.hdr:
                I.oblige('C05', False, st, ins, 'ring copy stays inside one area'); return [st]
            return None     # plain field copy
        if k == 'bad':
            I.oblige(('C05', 'C20') if M.api == 'shr_appdata' else 'C05', False, st, ins, 'ring copy stays inside one area|offset %r length %r' % (st.norm(s.off), st.norm(ln)))
            return [st]
        if k == 'data': return M.data_out(st, d, x, ln, ins)
        if k == 'app': return M.app_out(st, d, x, ln, ins)
        return [st]
    def copy_to(self, I, st, d, s, ln, ins):
        M = self.M
        self.need_lock(I, st, ins, 'write')
        k, x = self.classify(st, d.off, ln)
        if k == 'hdr':
            l = st.norm(ln)
            if l.t or x + l.c > M.hdr:
                I.oblige('C05', False, st, ins, 'ring copy stays inside one area'); return [st]
            M.hdr_written(st, x, l.c, ins)
            I.check_bounds(st, s, ln, ins, 'read')
            I.raw_copy(st, d, s, ln)
            return [st]
        if k == 'bad':
            I.oblige(('C05', 'C20') if M.api == 'shr_appdata' else 'C05', False, st, ins, 'ring copy stays inside one area|offset %r length %r' % (st.norm(d.off), st.norm(ln)))
            M.touch(st)
            return [st]
        if k == 'data': return M.data_in(st, x, s, ln, ins)
        if k == 'app': return M.app_in(st, x, s, ln, ins)
        I.oblige('C05', False, st, ins, 'message table is written entry by entry')
        M.touch(st)
        return [st]
    def memset(self, I, st, d, b, ln, ins):
        M = self.M
        self.need_lock(I, st, ins, 'write')
        k, x = self.classify(st, d.off, ln)
        l = st.norm(ln)
        if k == 'hdr' and not l.t and x + l.c <= M.hdr:
            M.hdr_written(st, x, l.c, ins)
            m = st.mw(d.obj)
            I.mem_kill(st, d.obj, K(x), l.c)
            bb = st.norm(b)
            for f, (o, sz) in M.scalars.items():
                if x <= o and o + sz <= x + l.c:
                    v = K(0) if not bb.t and bb.c == 0 else I.fresh('ms', 8 * sz)
                    m.cells[o] = (sz, v)
            return [st]
        I.oblige('C05', False, st, ins, 'ring fill stays inside one area')
        M.touch(st)
        return [st]

class SeqH(Handler):
    """an array of (base,len) elements with a prefix-sum function (caller vector, cache vector)"""
    def __init__(self, M, arr, src, count, elo): self.M = M; self.arr = arr; self.src = src; self.count = count; self.elo = elo
    def load(self, I, st, o, off, size, isptr, ins):
        off = st.norm(off)
        c = off.c % 16
        if any(a % 16 for _, a in off.t) or c not in (0, 8) or size != 8:
            raise AnalysisError('vector access shape at ' + I.loc(ins))
        k = Lin(off.c // 16, tuple((s, a // 16) for s, a in off.t))
        cnt = self.count(st)
        if c == 8 and isptr or c == 0 and not isptr:
            return [(st, UNDEF)]
        I.oblige('C03' if self.arr == 'iov' else 'C14', lambda: st.entails(k) and st.entails(cnt - k - 1), st, ins, 'vector element %s inside the %s vector|%r of %r' % ('base' if c == 0 else 'length', self.arr, k, cnt))
        P = self.M.ps_point(st, ('PS', self.arr), k)
        if c == 0: return [(st, Ptr(self.src(st), P))]
        P2 = self.M.ps_next(st, ('PS', self.arr), k, P, self.elo, None)
        if st.ps.get(('fa', self.arr)):
            for (h,) in st.ps[('fa', self.arr)]:
                if st.entails(h - k - 1):
                    st.add_ge(P2 - P - 1); break
        return [(st, P2 - P)]
    def store(self, I, st, o, off, size, v, ins):
        return self.M.seq_store(st, self, off, size, v, ins)

class Shr(Interp):
    sect_first = None   # analyse only these initial ring situations (partition of the work)
    def __init__(self, mod, api):
        Interp.__init__(self, mod)
        self.api = api
        t = mod.find_struct('shr_ctrl'); h = mod.find_struct('shr')
        if t is None or h is None: raise AnalysisError('ring control struct or handle struct not found')
        self.rf = mod.fields(t); self.hf = mod.fields(h)
        for f in ('n', 'i', 'u', 'm', 'mp', 'r', 'e', 'q', 'mm', 'mv_len', 'pad_len', 'app_len', 'gflags', 'd', 'w2r', 'r2w',
                  'stat.bw', 'stat.br', 'stat.mw', 'stat.mr', 'stat.md', 'stat.bd'):
            if f not in self.rf: raise AnalysisError('ring field %s not found' % f)
        for f in ('ring_fd', 'wait_fd', 'flags', 'q', 'md', 'w2r', 'r2w', 'c.buf', 'c.sz', 'c.n', 'c.iov', 'c.vt', 'c.vm', 'n', 'mm', 'buf', 's.st_size'):
            if f not in self.hf: raise AnalysisError('handle field %s not found' % f)
        self.hdr = self.rf['d'][0]
        self.scalars = dict((f, (o, s)) for f, (o, s, k) in self.rf.items() if k not in ('struct', 'array') and s in (1, 2, 4, 8))
        self.immutable = set(['gflags', 'n', 'mm', 'mv_len', 'pad_len', 'app_len', 'magic'])
        self.mut = ['i', 'u', 'm', 'mp', 'r', 'e', 'q']
        self.stats = [f for f in self.scalars if f.startswith('stat.')]
        self.rnd = 0
        self.install_models()
    # ------------------------------------------------------------ state construction
    def field_at(self, off, size):
        for f, (o, s) in self.scalars.items():
            if o <= off and off + size <= o + s: return f
        for f, (o, s, k) in self.rf.items():
            if k == 'array' and s and o <= off and off + size <= o + s: return f
        return None
    def hset(self, st, f, v):
        o, s = self.hf[f][0], self.hf[f][1]
        st.mw(self.H).cells[o] = (s, v)
    def hget(self, st, f):
        o, s, k = self.hf[f]
        return self.mem_load(st, self.H, K(o), s, k == 'ptr')
    def rget(self, st, f):
        o, s = self.scalars[f]
        return self.mem_load(st, self.R, K(o), s, False)
    def base_state(self, writer, buffered=False):
        """a handle as returned by a successful open, arbitrary history afterwards"""
        st = State()
        PARAMS.clear()
        self.n = sym('n', 1, 1 << 60); self.mm = sym('mm', 1, 1 << 56)
        PARAMS.add(self.n.t[0][0]); PARAMS.add(self.mm.t[0][0])
        self.pad = sym('pad', 0, 7); self.mvlen = self.mm.scale(16); self.applen = sym('applen', 0, 1 << 60)
        self.stsize = sym('st_size', 1, 1 << 62)
        assert st.add_ge(self.stsize - self.hdr - self.n - self.pad - self.mvlen - self.applen)
        self.gflags = newsym('gflags', 0, (1 << 32) - 1)
        self.R = Obj('ring', 'ring', None, handler=RingH(self))
        m = st.mw(self.R)
        for f, v in (('gflags', S(self.gflags)), ('n', self.n), ('mm', self.mm), ('mv_len', self.mvlen), ('pad_len', self.pad), ('app_len', self.applen)):
            o, s = self.scalars[f]; m.cells[o] = (s, v)
        self.H = Obj('handle', 'heap', self.mod.find_struct('shr')['size'] if 'size' in self.mod.find_struct('shr') else None)
        st.mw(self.H)
        self.hflags = newsym('hflags', 0, (1 << 32) - 1)
        self.ring_fd = sym('ring_fd', 0, 1 << 20); self.wait_fd = sym('wait_fd', -1, 1 << 20)
        self.W2R = Obj('w2r', 'bw'); self.R2W = Obj('r2w', 'bw')
        for o in (self.W2R, self.R2W): o.handler = OpaqueH()
        self.CB = Obj('cachebuf', 'heap', None, arr='cache'); self.CV = Obj('cachevec', 'heap', None)
        self.csz = sym('csz', 1, 1 << 60); self.cvt = sym('cvt', 1, 10000)
        z = (0, 0)
        for f, v in (('ring_fd', self.ring_fd), ('wait_fd', self.wait_fd), ('flags', S(self.hflags)), ('s.st_size', self.stsize),
                     ('n', self.n), ('mm', self.mm), ('buf', Ptr(self.R)), ('w2r', Ptr(self.W2R)), ('r2w', Ptr(self.R2W))):
            self.hset(st, f, v)
        sq = sym('sq', 0, 1 << 62); md = sym('md', 0, 1 << 62)
        self.sq0 = sq; self.md0 = md
        self.hset(st, 'q', sq); self.hset(st, 'md', md)
        kz, ko = 0, 0
        if writer: ko |= F['WRONLY']; kz |= F['RDONLY']
        else: ko |= F['RDONLY']; kz |= F['WRONLY']
        if buffered: ko |= F['BUFFERED']
        elif writer: kz |= F['BUFFERED']
        kz |= F['FENCE'] - 1
        st.kb = {self.hflags: (kz, ko), self.gflags: (0xffffffff & ~(F['DROP'] | F['FARM'] | F['SYNC'] | F['MLOCK'] | F['APPDATA']), 0)}
        if buffered:
            cn = sym('cn', 0, 1 << 60); cvm = sym('cvm', 0, 10000)
            self.hset(st, 'c.buf', Ptr(self.CB)); self.hset(st, 'c.iov', Ptr(self.CV))
            self.hset(st, 'c.sz', self.csz); self.hset(st, 'c.vt', self.cvt); self.hset(st, 'c.n', cn); self.hset(st, 'c.vm', cvm)
            st.add_ge(self.csz - cn); st.add_ge(self.cvt - cvm); st.add_ge(cn - cvm)
            st.add_ge(self.n - self.csz); st.add_ge(self.mm - self.cvt)
            self.cn0 = cn; self.cvm0 = cvm
            self.CB.size = self.csz; self.CV.size = self.cvt.scale(16)
            self.CV.handler = SeqH(self, 'cache', lambda s: self.CB, lambda s: self.cvm0, 1)
            self.CB.handler = CacheBufH(self)
            st.ps[('PS', 'cache')] = ((ZERO, ZERO), (cvm, cn))
            st.ps[('fa', 'cache')] = ((cvm,),)
            st.g['gc_n'] = ZERO; st.g['gc_b'] = ZERO; st.g['gc_c'] = ZERO
        else:
            self.hset(st, 'c.buf', NULL); self.hset(st, 'c.iov', NULL)
            for f in ('c.sz', 'c.n', 'c.vt', 'c.vm'): self.hset(st, f, ZERO)
        st.g['ret_b'] = ZERO; st.g['ret_n'] = ZERO
        st.mon = {'lock': 0}
        return st
    # ------------------------------------------------------------ prefix sums
    def ps_find(self, st, arr, k):
        pts = st.ps.get(arr, ())
        k = st.norm(k)
        hit = None
        for q in pts:
            d = st.norm(q[0] - k)
            if not d.t and not d.c:
                if hit is None: hit = q[1]
                else:
                    e = st.norm(q[1] - hit)
                    if e.t: st.add_eq(e)
        if hit is not None: return hit
        for q in pts:
            if st.is_eq(q[0] - k): return q[1]
        return None
    def mult_congr(self, st):
        """a multiple of a table size that lies strictly between -size and size is zero"""
        ch = False
        for s in (st.g.get('Mr'), st.g.get('Mq')):
            if s is None: continue
            s = st.norm(s)
            if not s.t: continue
            if any(SYM_MULT[x] is None for x, _ in s.t): continue
            b = S(SYM_MULT[s.t[0][0]])
            if st.entails(b - s - 1) and st.entails(b + s - 1):
                ch = True
                if not st.add_eq(s): return True, False
            elif s.t == self.mm.t: pass
            elif st.entails(s - 1) and st.entails(b.scale(2) - s - 1):
                ch = True
                if not st.add_eq(s - b): return True, False
        return ch, True
    def ps_congr(self, st):
        """equal indices have equal prefix sums, larger ones no smaller. returns (changed, feasible)"""
        ch, ok = self.mult_congr(st)
        if not ok: return True, False
        for arr, pts in list(st.ps.items()):
            if arr[0] != 'PS': continue
            for i in range(len(pts)):
                for j in range(i):
                    d = st.norm(pts[i][0] - pts[j][0]); e = st.norm(pts[i][1] - pts[j][1])
                    if not e.t and not e.c: continue
                    if not d.t and d.c: continue
                    if st.is_eq(d):
                        if not st.is_eq(e):
                            ch = True
                            if not st.add_eq(e): return True, False
                    elif st.entails(e - 1):
                        if not st.entails(d - 1):
                            ch = True
                            if not st.add_ge(d - 1): return True, False
                    elif st.entails(-e - 1):
                        if not st.entails(-d - 1):
                            ch = True
                            if not st.add_ge(-d - 1): return True, False
                    elif st.entails(d) and not st.entails(e):
                        ch = True
                        if not st.add_ge(e): return True, False
                    elif st.entails(-d) and not st.entails(-e):
                        ch = True
                        if not st.add_ge(-e): return True, False
        return ch, True
    def oblige(self, prop, ok, st, ins, msg):
        if self.mute: return True
        if self.only is not None and not any(p in self.only for p in (prop if isinstance(prop, tuple) else (prop,))): return True
        r = ok() if callable(ok) else ok
        if not r:
            ch, feas = self.ps_congr(st)
            if not feas: r = True
            elif ch: r = ok() if callable(ok) else ok
            if not r and not self.feasible(st): r = True
        return Interp.oblige(self, prop, r, st, ins, msg)
    def ps_order(self, st, arr, k, P, elo):
        for (k2, P2) in st.ps.get(arr, ()):
            d = st.norm(k2 - k)
            if not d.t and d.c == 0: continue
            if st.entails(d):
                st.add_ge(P2 - P - (d.scale(elo) if elo else ZERO))
            elif st.entails(-d):
                st.add_ge(P - P2 + (d.scale(elo) if elo else ZERO))
    def ps_point(self, st, arr, k, elo=0):
        P = self.ps_find(st, arr, k)
        if P is None:
            P = sym('PS', 0, None)
            self.ps_order(st, arr, k, P, elo)
            st.ps[arr] = st.ps.get(arr, ()) + ((st.norm(k), P),)
        return P
    def ps_next(self, st, arr, k, P, elo, ehi):
        P2 = self.ps_find(st, arr, k + 1)
        if P2 is None:
            P2 = sym('PS', 0, None)
            st.add_ge(P2 - P - elo)
            if ehi is not None: st.add_ge(ehi - P2 + P)
            else: st.add_ge(K((1 << 64) - 1) - P2 + P)
            self.ps_order(st, arr, k + 1, P2, elo)
            st.ps[arr] = st.ps.get(arr, ()) + ((st.norm(k + 1), P2),)
        return P2
    def tuple_extra(self, s, arr, tp):
        if arr[0] != 'fa': return False
        for (h,) in s.ps.get(arr, ()):
            if s.entails(h - tp[0]): return True
        pa = ('PS', arr[1])
        for (h,) in s.ps.get(arr, ()):
            d = s.norm(tp[0] - h - 1)
            if d.t or d.c: continue
            P = self.ps_find(s, pa, h); P2 = self.ps_find(s, pa, tp[0])
            if P is not None and P2 is not None and s.entails(P2 - P - 1): return True
        return False
    # ------------------------------------------------------------ lock sections
    def begin_section(self, st):
        """the ring lock was just taken: shared fields hold arbitrary values satisfying the invariant"""
        out = []
        farm = st.kb.get(self.gflags, (0, 0))[1] & F['FARM']
        first = self.sect_first if 'sect1' not in st.mon else None
        for case in ((0, 1, 2) if self.api in WRITE_API else (4, 2) if self.api in READ_API and not farm else (5, 6, 7, 8) if self.api in READ_API else (3,)):
            if first is not None and case not in first: continue
            s = st.copy()
            s.mon['sect1'] = True
            v = dict((f, sym(f + '0', 0, 1 << 62)) for f in self.mut)
            B = sym('B0', 0, 1 << 62)
            ok = s.add_ge(self.n - 1 - v['i']) and s.add_ge(self.mm - v['mp']) and s.add_ge(self.mm - 1 - v['r']) \
                and s.add_ge(self.mm - 1 - v['e']) and s.add_ge(self.n - B)
            if case == 0: ok = ok and s.add_eq(v['mp']) and s.add_eq(B) and s.add_eq(v['m']) and s.add_eq(v['u'])
            elif case == 1:
                ok = ok and s.add_eq(v['m']) and s.add_eq(v['u']) and s.add_ge(v['mp'] - 1) and s.add_ge(B - v['mp'])
            elif case == 4:
                ok = ok and s.add_eq(v['m']) and s.add_eq(v['u']) and s.add_ge(B - v['mp'])
            elif case >= 3:
                ok = ok and s.add_ge(v['mp'] - v['m']) and s.add_ge(v['u'] - v['m']) and s.add_ge(B - v['u'] - v['mp'] + v['m'])
            else:
                ok = ok and s.add_ge(v['m'] - 1) and s.add_ge(v['mp'] - v['m']) and s.add_ge(v['u'] - v['m']) \
                    and s.add_ge(B - v['u'] - v['mp'] + v['m'])
            if case >= 5:
                # position of a farm reader: at the end, inside, behind the oldest message
                sq = self.tolin(s, self.hget(s, 'q'), 64); end = v['q'] + v['mp']
                ok = ok and s.add_ge(end - sq)
                if case == 5: ok = ok and s.add_eq(v['mp'] - sq + v['q'], v['q'].t[0][0])
                elif case == 6: ok = ok and s.add_ge(sq - v['q']) and s.add_ge(end - sq - 1)
                elif case == 7: ok = ok and s.add_ge(v['q'] - sq - 1) and s.add_ge(v['mp'] - 1)
                else: ok = ok and s.add_ge(v['q'] - sq - 1) and s.add_eq(v['mp']) and s.add_eq(B)
            if not ok: continue
            # slots: e = q mod mm, r = e + mp - m mod mm
            mm = self.mm.t[0][0]
            Mq = S(newsym('Mq', 0, None, mm)); Mr = S(newsym('Mr', 0, None, mm))
            s.add_eq(v['q'] - v['e'] - Mq, v['q'].t[0][0])
            s.add_eq(v['e'] + v['mp'] - v['m'] - v['r'] - Mr, v['r'].t[0][0])
            m = s.mw(self.R)
            for f in self.mut:
                o, sz = self.scalars[f]; m.cells[o] = (sz, v[f])
            for f in self.stats:
                o, sz = self.scalars[f]
                x = sym(f, 0, 1 << 62) if sz == 8 else self.fresh(f, 32)
                m.cells[o] = (sz, x); s.g['s0.' + f] = x
            for f in self.mut: s.g[f + '0'] = v[f]
            s.g['B0'] = B; s.g['Mr'] = Mr
            for f in ('cp', 'cl', 'cb', 'rb', 'ob', 'ol'): s.g[f] = ZERO
            s.g['needk'] = K(-1)
            s.g['sqL'] = self.hget(s, 'q') if self.H.id in s.mem else ZERO
            s.g['mdL'] = self.hget(s, 'md') if self.H.id in s.mem else ZERO
            s.ps[('PS', 'ring')] = ((ZERO, ZERO), (v['mp'] - v['m'], B - v['u']), (v['mp'], B))
            if case == 6: self.ps_point(s, ('PS', 'ring'), sq - v['q'], 1)
            s.mon['lock'] = 1; s.mon['case'] = case
            for k in ('dirty', 'raised', 'arr', 'woke', 'forced', 'synced', 'unsync', 'fsect', 'din'): s.mon.pop(k, None)
            out.append(s)
        return out
    def end_section(self, st, ins):
        self.section_obligations(st, ins)
        m = st.mw(self.R)
        for f in self.mut + self.stats:
            o, sz = self.scalars[f]; m.cells.pop(o, None)
        for k in [k for k in st.g if k in SECT_G or isinstance(k, str) and k.startswith('s0.')]: del st.g[k]
        st.ps = dict((a, t) for a, t in st.ps.items() if a != ('PS', 'ring'))
        st.mon['lock'] = 0; st.mon.pop('case', None)
        for k in ('dirty', 'raised', 'arr', 'woke', 'forced', 'synced', 'unsync', 'fsect', 'din'): st.mon.pop(k, None)
    def touch(self, st):
        st.mon['dirty'] = True; st.mon['unsync'] = True
        st.mon.pop('synced', None)
    def hdr_written(self, st, off, ln, ins):
        for f, (o, s) in self.scalars.items():
            if o < off + ln and off < o + s:
                if f in self.immutable:
                    self.oblige('C06', False, st, ins, 'fields fixed at creation are not overwritten')
                elif f.startswith('stat.'): st.mon['statw'] = True
                else: self.oblige('C06', False, st, ins, 'bookkeeping is not overwritten by block copies')
        self.touch(st)
    def eqmod(self, st, a, b, base):
        """a == b modulo the symbol base"""
        d = strip_mult(st.norm(a - b), base)
        if not d.t and not d.c: return True
        c = st.norm(S(base))
        if not c.t and not d.t and c.c and d.c % c.c == 0: return True
        # try adding +-base and general entailment
        for k in (-1, 0, 1):
            if st.is_eq(a - b - S(base).scale(k)): return True
        return False
    def field_store(self, st, off, size, v, ins):
        f = self.field_at(off, size)
        if f is None or f in self.immutable or f.startswith('w2r') or f.startswith('r2w') or f.startswith('magic'):
            self.oblige('C06', False, st, ins, 'only bookkeeping and statistics fields are written')
            self.touch(st)
            return [st]
        self.mem_store(st, self.R, K(off), size, v)
        if st.mon.get('lock') == 1:
            v = self.tolin(st, v, 64)
            if f in ('m', 'mp'): self.count_store(st, f, v, ins)
            if f == 'r' and self.api in READ_API: self.consume_check(st, ins, slot=v)
            if f == 'u' and self.api in READ_API:
                self.oblige('C04', lambda: st.entails(v + st.g['rb'] - st.g['u0']), st, ins, 'bytes are marked consumed only after they were copied')
            if f == 'm' and self.api in READ_API: self.consume_check(st, ins, m=v)
        if f.startswith('stat.'): st.mon['statw'] = True
        self.touch(st)
        return [st]
    def count_store(self, st, f, v, ins):
        """raising m or mp publishes entries"""
        g = st.g
        old = g['m0'] if f == 'm' else None
        if f == 'm':
            if st.entails(g['m0'] - v): return      # lowered
        else:
            if st.entails(g['mp0'] - v) and st.mon.get('arr') is None: return
        if self.api not in WRITE_API:
            self.oblige(('C04', 'C06'), False, st, ins, 'message counts are raised only by writes'); return
        cnt = self.arr_count(st)
        if cnt is None:
            self.oblige('C04', False, st, ins, 'message counts are raised only after the entries were stored'); return
        n, tot = cnt
        self.oblige('C04', lambda: st.is_eq(g['cp'] - n) and st.is_eq(g['cl'] - n) and tot is not None and st.is_eq(g['cb'] - tot), st, ins,
                    'message counts are raised only after all bytes and entries of the write are stored')
        st.mon['raised'] = True
    def arr_count(self, st):
        a = st.mon.get('arr')
        if a is None: return None
        n = self.counts[a](st)
        return n, self.ps_find(st, ('PS', a), n)
    def consume_check(self, st, ins, slot=None, m=None):
        """a reader advances: everything up to the new position was copied out"""
        g = st.g
        start = g['mp0'] - g['m0']
        if m is not None:
            k = g['mp0'] - m
            P = self.ps_find(st, ('PS', 'ring'), k)
        else:
            P = None
            t = slot - g['e0']
            for (k, p) in st.ps.get(('PS', 'ring'), ()):
                if self.eqmod(st, k, t, self.mm.t[0][0]) and st.entails(k - start): P = p; break
        self.oblige('C04', lambda: P is not None and st.entails(g['rb'] - P + g['B0'] - g['u0']), st, ins, 'a message is marked consumed only after it was copied')
    # ------------------------------------------------------------ message table
    def slot_index(self, st, x):
        """sequence index (relative to the oldest message at lock time) of slot x, or None"""
        g = st.g; mm = self.mm.t[0][0]
        self.mult_congr(st)
        t = strip_mult(st.norm(x - g['e0']), mm)
        for (k, P) in st.ps.get(('PS', 'ring'), ()):
            d = strip_mult(st.norm(k - t), mm)
            if not d.t and not d.c:
                return k
        for (k, P) in st.ps.get(('PS', 'ring'), ()):
            for z in (0, 1, -1):
                if st.is_eq(x - g['e0'] - k - self.mm.scale(z)): return k
        for c in (t,):
            if st.entails(c) and st.entails(self.mm - c - 1): return c
        return None
    def mv_load(self, st, m, size, ins):
        c = m.c % 16
        if any(a % 16 for _, a in m.t) or c not in (0, 8) or size != 8:
            raise AnalysisError('message table access shape at ' + self.loc(ins))
        x = Lin(m.c // 16, tuple((s, a // 16) for s, a in m.t))
        g = st.g
        if st.mon.get('lock') != 1: return [(st, self.fresh('mv', 64))]
        k = self.slot_index(st, x)
        if k is None:
            self.oblige('C06', False, st, ins, 'table entry read is one of a present message|slot %r' % x)
            return [(st, self.fresh('mv', 64))]
        # k < mp0, possibly by the sum argument
        if not st.entails(g['mp0'] - k - 1):
            s2 = st.copy()
            feas = s2.add_eq(k - g['mp0'])
            if feas:
                Pk = self.ps_find(st, ('PS', 'ring'), k)
                if Pk is not None: feas = s2.add_eq(Pk - g['B0'])
            if feas: feas = self.feasible(s2)
            if not feas: st.add_ne(k - g['mp0'])
        self.oblige(('C06', 'C09') if st.mon.get('waited') else 'C06', lambda: st.entails(g['mp0'] - k - 1) and st.entails(k), st, ins, 'table entry read is one of a present message|index %r of %r' % (st.norm(k), st.norm(g['mp0'])))
        P = self.ps_point(st, ('PS', 'ring'), k, 1)
        P2 = self.ps_next(st, ('PS', 'ring'), k, P, 1, self.n)
        if self.api in WRITE_API:
            self.need_check(st, k, P)
        if c == 8: return [(st, P2 - P)]
        out = []
        for z in (0, 1):
            s = st.copy()
            v = g['i0'] - g['B0'] + P + (self.n if z else ZERO)
            if s.add_ge(v) and s.add_ge(self.n - 1 - v): out.append((s, v))
        return out
    def feasible(self, s):
        """rational feasibility of the whole store"""
        rows = [c.lin for c in s.constraints()] + [-c.lin for c in s.constraints() if c.eq is not None]
        return not infeasible(rows, s.bounds)
    def need_check(self, st, k, P):
        """writer looks at unread message k: does the write fail to fit without discarding it?"""
        g = st.g
        if not st.entails(k - g['mp0'] + g['m0']): return
        tot = self.cur_request(st)
        if tot is None: return
        cnt, bytes_ = tot
        s = st.copy()
        fits = s.add_ge(self.n - (g['B0'] - P) - bytes_) and s.add_ge(self.mm - (g['mp0'] - k) - cnt)
        if fits: fits = self.feasible(s)
        if not fits: st.g['needk'] = st.norm(k)
    def refit(self, st, ins):
        """a write that waited places messages only with the space re-tested in this section"""
        if not st.mon.get('waited'): return
        r = self.cur_request(st)
        if r is None: return
        g = st.g
        self.oblige('C09', lambda: st.entails(self.n - self.tolin(st, self.rget(st, 'u'), 64) - r[1]) and st.entails(self.mm - self.tolin(st, self.rget(st, 'm'), 64) - r[0]), st, ins, 'after a wake-up the space is tested again under the lock before messages are placed')
    def mv_store(self, st, m, size, v, ins):
        c = m.c % 16
        if any(a % 16 for _, a in m.t) or c not in (0, 8) or size != 8:
            raise AnalysisError('message table access shape at ' + self.loc(ins))
        x = Lin(m.c // 16, tuple((s, a // 16) for s, a in m.t))
        g = st.g
        self.touch(st)
        if st.mon.get('lock') != 1: return [st]
        if self.api not in WRITE_API:
            self.oblige(('C05', 'C06'), False, st, ins, 'only writes store table entries'); return [st]
        self.refit(st, ins)
        self.oblige('C04', not st.mon.get('raised'), st, ins, 'no table entry is stored after the message counts were raised')
        cnt = g['cp'] if c == 0 else g['cl']
        mm = self.mm.t[0][0]
        v = self.tolin(st, v, 64)
        self.oblige(('C05', 'C03'), lambda: self.eqmod(st, x, g['e0'] + g['mp0'] + cnt, mm), st, ins, 'entries are appended to the table in order|slot %r expected %r' % (st.norm(x), st.norm(g['e0'] + g['mp0'] + cnt)))
        # the slot must not belong to a message still present
        mpn = self.rget(st, 'mp')
        self.oblige(('C04', 'C06'), lambda: st.entails(self.mm - mpn - cnt - 1) , st, ins, 'a table entry is overwritten only after its message was retired')
        arr = st.mon.get('arr') or self.cur_arr(st)
        ok = False
        if arr is not None:
            P = self.ps_find(st, ('PS', arr), cnt)
            if c == 0:
                ok = P is not None and self.eqmod(st, v, g['i0'] + P, self.n.t[0][0]) and st.entails(v) and st.entails(self.n - v - 1)
                self.oblige(('C05', 'C06'), ok, st, ins, 'recorded position is the write position|%r' % st.norm(v))
            else:
                P2 = self.ps_find(st, ('PS', arr), cnt + 1)
                ok = P is not None and P2 is not None and st.is_eq(v - P2 + P)
                self.oblige(('C05', 'C03'), ok, st, ins, 'recorded length is the message length|%r' % st.norm(v))
                self.oblige(('C03', 'C06'), lambda: st.entails(v - 1) and st.entails(self.n - v), st, ins, 'recorded length is positive and fits the ring|%r' % st.norm(v))
            st.mon['arr'] = arr
        else:
            self.oblige(('C05', 'C03'), False, st, ins, 'entry belongs to a known request')
        g['cp' if c == 0 else 'cl'] = cnt + 1
        return [st]
    # ------------------------------------------------------------ message bytes
    def data_in(self, st, x, s, ln, ins):
        """copy into the data area at x"""
        g = st.g
        self.touch(st)
        if st.mon.get('lock') != 1: return [st]
        if self.api not in WRITE_API:
            self.oblige(('C05', 'C06'), False, st, ins, 'only writes store message bytes'); return [st]
        arr = s.obj.info.get('arr')
        self.check_bounds(st, s, ln, ins, 'read')
        self.refit(st, ins)
        self.oblige('C04', not st.mon.get('raised'), st, ins, 'no message byte is stored after the message counts were raised')
        self.oblige(('C05', 'C03'), arr is not None and st.mon.get('arr', arr) == arr, st, ins, 'bytes come from the messages of this write')
        if arr is not None: st.mon['arr'] = arr
        self.oblige(('C05', 'C03'), lambda: st.is_eq(s.off - g['cb']), st, ins, 'bytes are copied from the messages in order|source %r expected %r' % (st.norm(s.off), st.norm(g['cb'])))
        self.oblige('C05', lambda: self.eqmod(st, x, g['i0'] + g['cb'], self.n.t[0][0]), st, ins, 'bytes are stored at the write position, wrapping at the ring end|at %r expected %r' % (st.norm(x), st.norm(g['i0'] + g['cb'])))
        # retired region: bytes of messages recorded as present must stay intact
        mpn = self.rget(st, 'mp')
        a = g['mp0'] - mpn
        Pa = self.ps_find(st, ('PS', 'ring'), a)
        self.oblige(('C04', 'C06'), lambda: Pa is not None and st.entails(self.n - (g['B0'] - Pa) - g['cb'] - ln), st, ins,
                    'bytes are overwritten only after their messages were retired|retired %r' % st.norm(a))
        qn = self.rget(st, 'q'); en = self.rget(st, 'e')
        self.oblige('C04', lambda: st.is_eq(qn - g['q0'] - a) and self.eqmod(st, en, g['e0'] + a, self.mm.t[0][0]), st, ins, 'oldest-message position is advanced before bytes are overwritten')
        mn = self.rget(st, 'm'); un = self.rget(st, 'u')
        self.oblige(('C04', 'C06'), lambda: st.entails(self.n - un - g['cb'] - ln) and st.entails(mpn - mn), st, ins, 'unread bytes are not overwritten')
        g['cb'] = st.norm(g['cb'] + ln)
        st.mon['din'] = True
        return [st]
    def data_out(self, st, d, x, ln, ins):
        g = st.g
        self.check_bounds(st, d, ln, ins, 'write')
        if st.mon.get('lock') != 1: return [st]
        self.oblige('C05', self.api in READ_API, st, ins, 'only reads fetch message bytes')
        start = self.read_start(st)
        self.oblige('C05', lambda: start is not None and self.eqmod(st, x, g['i0'] - g['B0'] + start[1] + g['rb'], self.n.t[0][0]), st, ins,
                    'bytes are fetched from the message position, wrapping at the ring end|at %r' % st.norm(x))
        self.oblige(('C05', 'C13'), lambda: d.obj is self.RB and st.is_eq(d.off - g['rb']), st, ins, 'fetched bytes are placed one after another in the caller buffer')
        g['rb'] = st.norm(g['rb'] + ln)
        return [st]
    def read_start(self, st):
        """(index, prefix sum) of the first message this section may return"""
        g = st.g
        kz, ko = st.kb.get(self.gflags, (0, 0))
        if ko & F['FARM']:
            b = g['sqL'] if st.entails(g['sqL'] - g['q0']) else (g['q0'] if st.entails(g['q0'] - g['sqL']) else None)
            if b is None: return None
            k = b - g['q0']
            P = self.ps_find(st, ('PS', 'ring'), k)
            return None if P is None else (k, P)
        if kz & F['FARM']: return (g['mp0'] - g['m0'], g['B0'] - g['u0'])
        return None
    def app_out(self, st, d, x, ln, ins):
        self.check_bounds(st, d, ln, ins, 'write')
        self.oblige('C20', self.api == 'shr_appdata', st, ins, 'only the application data call reads application data')
        self.oblige('C20', lambda: st.is_eq(x) and st.is_eq(ln - self.applen) and not st.mon.get('appset'), st, ins, 'the whole stored application data is returned|offset %r length %r' % (st.norm(x), st.norm(ln)))
        self.oblige('C20', lambda: d.obj is self.appdst(st) and st.is_eq(d.off), st, ins, 'application data goes to the caller buffer')
        st.mon['appget'] = True
        return [st]
    def appdst(self, st): return None
    def app_in(self, st, x, s, ln, ins):
        self.check_bounds(st, s, ln, ins, 'read')
        self.touch(st)
        self.oblige('C20', self.api == 'shr_appdata', st, ins, 'only the application data call stores application data')
        self.oblige('C20', lambda: st.is_eq(x) and st.is_eq(ln - self.applen), st, ins, 'the whole application data is replaced|offset %r length %r' % (st.norm(x), st.norm(ln)))
        self.oblige('C20', lambda: getattr(self, 'ASET', None) is s.obj and st.is_eq(s.off), st, ins, 'application data comes from the caller buffer')
        st.mon['appset'] = True
        return [st]
    def seq_store(self, st, h, off, size, v, ins):
        raise AnalysisError('store into vector ' + h.arr)
    # ------------------------------------------------------------ section obligations
    def section_obligations(self, st, ins):
        g = st.g; mm = self.mm.t[0][0]; nn = self.n.t[0][0]
        ob = lambda p, ok, msg: self.oblige(p, ok, st, ins, msg)
        cur = dict((f, self.tolin(st, self.rget(st, f), 64)) for f in self.mut)
        W = self.api in WRITE_API; Rd = self.api in READ_API
        c = g['cp']; b = g['cb']
        farm = bool(st.kb.get(self.gflags, (0, 0))[1] & F['FARM'])
        if st.mon.get('dirty'):
            ob(('C03', 'C06'), lambda: st.is_eq(g['cp'] - g['cl']), 'each new table entry has both its position and its length stored')
            a = g['mp0'] + c - cur['mp']
            kr = g['mp0'] + c - cur['m']
            ob('C06', lambda: st.entails(a) and st.entails(g['mp0'] - a), 'messages present: %s' % 'old ones retired plus new ones|%r' % st.norm(a))
            ob('C06', lambda: st.is_eq(cur['q'] - g['q0'] - a), 'oldest sequence number advances with the messages retired')
            ob('C06', lambda: self.eqmod(st, cur['e'], g['e0'] + a, mm) and st.entails(cur['e']) and st.entails(self.mm - cur['e'] - 1), 'oldest slot agrees with the oldest sequence number')
            ob('C06', lambda: self.eqmod(st, cur['r'], g['e0'] + kr, mm) and st.entails(cur['r']) and st.entails(self.mm - cur['r'] - 1), 'next-read slot agrees with the unread count|%r' % st.norm(cur['r']))
            ob('C06', lambda: st.entails(cur['m']) and st.entails(cur['mp'] - cur['m']) and st.entails(self.mm - cur['mp']), 'unread <= present <= limit|%r %r' % (st.norm(cur['m']), st.norm(cur['mp'])))
            ob(('C05', 'C06'), lambda: self.eqmod(st, cur['i'], g['i0'] + b, nn) and st.entails(cur['i']) and st.entails(self.n - cur['i'] - 1), 'write position advances by the bytes written, inside the data area')
            Pk = self.ps_find(st, ('PS', 'ring'), kr)
            if Pk is None and st.is_eq(kr - g['mp0'] - c): Pk = g['B0'] + b
            ob('C06', lambda: Pk is not None and st.is_eq(cur['u'] - g['B0'] - b + Pk), 'unread bytes are those of the unread messages|%r' % st.norm(cur['u']))
            ob('C06', lambda: st.entails(self.n - cur['u']), 'unread bytes do not exceed the ring size')
            Pa = self.ps_find(st, ('PS', 'ring'), a)
            ob('C06', lambda: Pa is not None and st.entails(self.n - g['B0'] - b + Pa), 'bytes of the messages present fit the ring')
        start = g['mp0'] - g['m0']
        kr = g['mp0'] + c - cur['m']
        adv = st.norm(kr - start)
        if W:
            dropped = adv
            Pk = self.ps_find(st, ('PS', 'ring'), kr)
            if not st.is_eq(dropped):
                ob('C07', bool(st.kb.get(self.gflags, (0, 0))[1] & F['DROP']), 'unread messages are discarded only in drop mode')
                ob('C07', lambda: st.entails(dropped) and st.is_eq(g['needk'] - kr + 1) , 'no more messages are discarded than the write needs')
            db = Pk - g['B0'] + g['u0'] if Pk is not None else None
            if not st.mon.get('failpath'):
                ob(('C07', 'C21'), lambda: self.stat_is(st, 'stat.md', dropped) and (db is not None and self.stat_is(st, 'stat.bd', db)), 'discarded messages and bytes are counted')
            if st.is_eq(c) and st.is_eq(b):
                ob('C03', lambda: not st.mon.get('dirty'), 'a write that places nothing leaves the ring unchanged')
            else:
                cnt = self.arr_count(st)
                ob('C03', lambda: cnt is not None and st.is_eq(c - cnt[0]) and cnt[1] is not None and st.is_eq(b - cnt[1]), 'all messages of the write are placed')
                a_ = st.mon.get('arr')
                ob('C03', lambda: ('placed', a_) not in st.mon, 'messages are placed once')
                st.mon[('placed', a_)] = True
                ob('C10', 'w2r' in st.mon.get('woke', ()), 'a write wakes readers before unlocking')
                if not st.mon.get('failpath'):
                    ob('C21', lambda: self.stat_is(st, 'stat.bw', b) and self.stat_is(st, 'stat.mw', c), 'messages and bytes written are counted once')
            self.stats_same(st, ins, ('stat.br', 'stat.mr'))
        elif Rd:
            self.read_section(st, ins, cur, adv, farm)
        else:
            for f in self.mut: ob('C06', lambda: st.is_eq(cur[f] - g[f + '0']), 'calls that transfer nothing leave the bookkeeping unchanged')
            if self.api == 'shr_stat': self.stat_section(st, ins)
            else: self.stats_same(st, ins, ('stat.bw', 'stat.br', 'stat.mw', 'stat.mr', 'stat.md', 'stat.bd'))
        kz, ko = st.kb.get(self.gflags, (0, 0))
        if st.mon.get('unsync') and not (kz & F['SYNC']) and not st.mon.get('failpath'):
            ob('C15', False, 'a changed synchronous ring is flushed before unlocking')
    def stat_section(self, st, ins):
        g = st.g
        for f in self.stats: g['snap.' + f] = g['s0.' + f]
        g['snap.u'] = g['u0']; g['snap.m'] = g['m0']
        self.oblige('C21', not st.mon.get('stsect'), st, ins, 'one critical section serves the statistics call')
        st.mon['stsect'] = True
        if self.RS is None:
            for f in self.stats:
                self.oblige('C21', lambda: self.stat_is(st, f, ZERO), st, ins, 'without a reset the statistics are unchanged')
        else:
            cur = lambda f: self.tolin(st, self.rget(st, f), 64)
            for f in ('bw', 'br', 'mw', 'mr', 'md', 'bd'):
                self.oblige('C21', lambda: st.is_eq(cur('stat.' + f)), st, ins, 'a reset zeroes every counter')
            self.oblige('C21', lambda: st.is_eq(cur('stat.start.tv_sec') - self.rs0) and st.is_eq(cur('stat.start.tv_usec') - self.rs1), st, ins, 'a reset records the new start time')
    def stat_is(self, st, f, delta):
        v = self.tolin(st, self.rget(st, f), 64)
        return st.is_eq(v - st.g['s0.' + f] - delta)
    def stats_same(self, st, ins, fs):
        for f in fs:
            self.oblige('C21', lambda: self.stat_is(st, f, ZERO), st, ins, 'statistics of other operations are untouched')
    def read_section(self, st, ins, cur, adv, farm):
        g = st.g
        ob = lambda p, ok, msg: self.oblige(p, ok, st, ins, msg)
        sq = self.tolin(st, self.hget(st, 'q'), 64); md = self.tolin(st, self.hget(st, 'md'), 64)
        for f in ('i', 'mp', 'e', 'q'):
            ob('C06', lambda: st.is_eq(cur[f] - g[f + '0']), 'a read leaves the write side unchanged')
        kz, ko = st.kb.get(self.gflags, (0, 0))
        if ko & F['FARM']:
            for f in ('m', 'u', 'r'):
                ob('C12', lambda: st.is_eq(cur[f] - g[f + '0']), 'a farm read leaves the shared read position unchanged')
            skip = None
            if st.entails(g['sqL'] - g['q0']): base = g['sqL']; skip = ZERO
            elif st.entails(g['q0'] - g['sqL']): base = g['q0']; skip = g['q0'] - g['sqL']
            else: base = g['sqL']; skip = ZERO
            ob('C12', lambda: st.is_eq(md - g['mdL'] - skip), 'messages missed by a farm reader are counted')
            kc = st.norm(sq - base)
            ob('C12', lambda: st.entails(kc) and st.entails(g['q0'] + g['mp0'] - sq) or st.is_eq(kc), 'farm reader position advances within the messages present')
            P0 = self.ps_find(st, ('PS', 'ring'), base - g['q0']); P1 = self.ps_find(st, ('PS', 'ring'), sq - g['q0'])
            nb = P1 - P0 if P0 is not None and P1 is not None else None
            remain = g['q0'] + g['mp0'] - sq
            if st.is_eq(kc): nb = ZERO
            pc = 'C12'
        else:
            ob('C12', lambda: st.is_eq(sq - g['sqL']) and st.is_eq(md - g['mdL']), 'a shared reader has no private position')
            kc = adv
            P1 = self.ps_find(st, ('PS', 'ring'), g['mp0'] - cur['m'])
            nb = P1 - g['B0'] + g['u0'] if P1 is not None else None
            remain = cur['m']
            pc = 'C06'
        ob((pc, 'C13', 'C04'), lambda: nb is not None and st.is_eq(g['rb'] - nb), 'exactly the messages consumed were copied to the caller|copied %r consumed %r' % (st.norm(g['rb']), nb))
        if self.OV is not None:
            ob('C13', lambda: st.is_eq(g['ob'] - kc) and st.is_eq(g['ol'] - kc), 'one vector entry is filled per message returned')
        ob('C21', lambda: self.stat_is(st, 'stat.mr', kc) and nb is not None and self.stat_is(st, 'stat.br', nb), 'messages and bytes read are counted once')
        self.stats_same(st, ins, ('stat.bw', 'stat.mw', 'stat.md', 'stat.bd'))
        if not st.is_eq(kc):
            ob('C10', 'r2w' in st.mon.get('woke', ()), 'a read that returns data wakes writers before unlocking')
        fz, fo = st.kb.get(self.hflags, (0, 0))
        fc = st.mon.get('forced')
        if not (fz & F['NONBLOCK'] and st.is_eq(kc)):
            if fc == 1: ob('C11', lambda: st.entails(remain - 1), 'the descriptor is made readable only while messages remain')
            elif fc == 0: ob('C11', lambda: st.entails(-remain), 'the descriptor is cleared only when no message remains')
            else: ob('C11', False, 'the descriptor is adjusted after the read position moved')
        st.g['ret_b'] = st.norm(st.g['ret_b'] + g['rb']); st.g['ret_n'] = st.norm(st.g['ret_n'] + kc)
        if st.is_eq(kc):
            if st.entails(remain - 1):
                st.mon['didnotfit'] = True
                s0 = self.read_start(st)
                P = self.ps_find(st, ('PS', 'ring'), s0[0] + 1) if s0 else None
                ob('C13', lambda: P is not None and st.entails(P - s0[1] - self.len0 - 1), 'a present message is left only when it does not fit the whole buffer')
            elif st.entails(-remain): st.mon['empty'] = True

SECT_G = set(['i0', 'u0', 'm0', 'mp0', 'r0', 'e0', 'q0', 'B0', 'cp', 'cl', 'cb', 'rb', 'ob', 'ol', 'needk', 'sqL', 'mdL', 'Mr', 'Mq'])
WRITE_API = ('shr_write', 'shr_writev', 'shr_flush', 'shr_close')
READ_API = ('shr_read', 'shr_readv')

class OpaqueH(Handler):
    def load(self, I, st, o, off, size, isptr, ins):
        I.oblige('C01', False, st, ins, 'wake-up handle internals are used only by its own functions'); return [(st, I.fresh('bw', 8 * size))]
    def store(self, I, st, o, off, size, v, ins):
        I.oblige('C01', False, st, ins, 'wake-up handle internals are used only by its own functions'); return [st]

class CacheBufH(Handler):
    def __init__(self, M): self.M = M
    def copy_to(self, I, st, d, s, ln, ins): return self.M.cache_in(st, d, s, ln, ins)
