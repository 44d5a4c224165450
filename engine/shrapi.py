"""Drivers for the public calls of src/shr.c: entry states, models of what they call, obligations at return."""
from core import *
from shrmodel import *
from libc import Libc, sym

class OVH(Handler):
    """vector filled by shr_readv"""
    def __init__(self, M): self.M = M
    def load(self, I, st, o, off, size, isptr, ins): return [(st, UNDEF if isptr else I.fresh('ov', 64))]
    def store(self, I, st, o, off, size, v, ins): return self.M.ov_store(st, off, size, v, ins)

class ShrApi(Libc, Shr):
    OV = None; RB = None; ASET = None
    PROP_RES = 'C19'
    def __init__(self, mod, api):
        Shr.__init__(self, mod, api)
        self.counts = {}
    def install_models(self):
        self.install_libc()
        for n in ('fcntl', 'msync', 'bw_open', 'bw_wake', 'bw_force', 'bw_wait_ul', 'bw_close', 'bw_ctl', 'bw_ready_ul',
                  'munmap', 'close'):
            self.models[n] = getattr(self, 'm_' + n)
        for n in ('poll', 'epoll_wait', 'select', 'sleep', 'usleep', 'nanosleep', 'pause', 'read', 'recv', 'recvmsg', 'write', 'send', 'sendmsg', 'flock', 'lockf', 'sigwait', 'wait', 'waitpid'):
            self.models[n] = self.m_blocking
    def memprop(self, o, what):
        a = self.api
        if what == 'dead': return 'C19'
        if a in ('shr_write', 'shr_writev'):
            return 'C14' if o is self.CB or o is self.CV else ('C03', 'C05')
        if a in READ_API: return ('C13', 'C05')
        if a == 'shr_appdata': return 'C20'
        if a == 'shr_flush': return 'C14'
        if a == 'shr_stat': return 'C21'
        if a == 'shr_open': return 'C18'
        return 'C19'
    def bad_access(self, st, p, ins, what):
        a = self.api
        pr = {'shr_appdata': 'C20', 'shr_stat': 'C21', 'shr_flush': 'C14', 'shr_open': 'C18', 'shr_init': 'C17'}.get(a, 'C13' if a in READ_API else 'C03' if a in WRITE_API else 'C19')
        self.oblige(pr, False, st, ins, '%s through %s pointer' % (what, 'null' if isinstance(p, Ptr) else 'unknown'))
    def assert_prop(self, st):
        a = self.api
        pr = {'shr_appdata': 'C20', 'shr_stat': 'C21', 'shr_open': 'C18', 'shr_init': 'C17', 'shr_close': ('C19', 'C14'), 'shr_flush': ('C03', 'C14'), 'shr_farm_stat': 'C12'}.get(a, 'C13' if a in READ_API else 'C03')
        if not isinstance(pr, tuple): pr = (pr,)
        return pr + ('C09',) if st.mon.get('waited') else pr
    # ------------------------------------------------------------ models
    def flock_of(self, st, p):
        g = lambda o, s: self.mem_load(st, p.obj, p.off + o, s, False)
        return [st.norm(self.tolin(st, g(o, s), 8 * s)) for o, s in ((0, 2), (2, 2), (8, 8), (16, 8))]
    def is_ringfd(self, st, v):
        return st.is_eq(self.tolin(st, v, 32) - self.ring_fd)
    def m_fcntl(self, st, args, ins):
        if len(args) < 2: return self.external(st, 'fcntl', args, ins)
        cmd = st.norm(self.tolin(st, args[1], 32))
        if cmd.t or cmd.c not in (F_SETLK, F_SETLKW, 5, 36, 37, 38) or not self.is_ringfd(st, args[0]):
            return [(st, self.fresh('fcntl', 32))]
        if cmd.c in (5, 36): return [(st, self.fresh('fcntl', 32))]
        ty, wh, start, ln = self.flock_of(st, args[2])
        const = not (ty.t or wh.t or start.t or ln.t)
        out = []
        if const and ty.c == F_UNLCK:
            self.oblige('C02', wh.c == 0 and start.c == 0 and ln.c == 0, st, ins, 'unlocking covers the whole ring file')
            if st.mon.get('lock') == 1: self.end_section(st, ins)
            return [(st, ZERO)]
        self.oblige('C01', const and ty.c == F_WRLCK and wh.c == 0 and start.c == 0 and ln.c == 0, st, ins, 'the ring lock is exclusive and covers the whole file')
        self.oblige('C01', cmd.c == F_SETLKW, st, ins, 'the ring lock is taken in waiting mode')
        if st.mon.get('lock') == 1: return [(st, ZERO)]
        f = st.copy(); self.set_errno(f); f.mon['lockfail'] = True; f.mon['tried'] = True
        out.append((f, K(-1)))
        for s in self.begin_section(st): out.append((s, ZERO))
        return out
    def m_blocking(self, st, args, ins):
        self.oblige('C02', st.mon.get('lock') != 1, st, ins, 'no call that can block is made while the ring lock is held')
        if self.api != 'x': self.oblige('C08', False, st, ins, 'ring calls block only in the wake-up wait')
        return self.external(st, 'blocking', args, ins)
    def m_msync(self, st, args, ins):
        p, ln, fl = args
        fl = st.norm(self.tolin(st, fl, 32)); ln = st.norm(self.tolin(st, ln, 64))
        ok = isinstance(p, Ptr) and p.obj is self.R and st.is_eq(p.off) and not fl.t and fl.c & 4 and not fl.c & 1
        self.oblige('C15', lambda: ok and st.entails(ln - self.stsize), st, ins, 'the flush is synchronous and covers the whole mapping')
        self.oblige('C15', bool(st.kb.get(self.gflags, (0, 0))[1] & F['SYNC']), st, ins, 'only synchronous rings are flushed')
        self.oblige('C15', st.mon.get('lock') == 1, st, ins, 'the flush happens inside the critical section')
        f = st.copy(); self.set_errno(f); f.mon['failpath'] = True; f.mon['syncfail'] = True
        st.mon.pop('unsync', None)
        return [(st, ZERO), (f, K(-1))]
    def bw_name(self, st, p):
        if isinstance(p, Ptr) and p.obj is self.W2R: return 'w2r'
        if isinstance(p, Ptr) and p.obj is self.R2W: return 'r2w'
        if isinstance(p, Ptr) and p.obj is not None and p.obj.info.get('bw'): return p.obj.info['bw']
        return None
    def bw_lock(self, st, ins, what):
        self.oblige('C01', st.mon.get('lock') == 1, st, ins, 'the waiter table is used while the ring lock is held (%s)' % what)
    def live_bw(self, st, p, ins, what):
        nm = self.bw_name(st, p)
        self.oblige('C19', nm is not None and ('bwclosed', p.obj.id) not in st.mon, st, ins, '%s uses an open wake-up handle' % what)
        return nm
    def m_bw_wake(self, st, args, ins):
        nm = self.live_bw(st, args[0], ins, 'bw_wake')
        self.bw_lock(st, ins, 'bw_wake')
        self.oblige('C10', nm == ('r2w' if self.api in READ_API else 'w2r'), st, ins, 'the wake-up goes to the peers of the operation')
        f = st.copy(); f.mon['failpath'] = True; f.mon['wakefail'] = True
        for s in (st, f):
            s.mon['woke'] = tuple(sorted(set(s.mon.get('woke', ())) | set([nm])))
        return [(st, ZERO), (f, K(-1))]
    def m_bw_force(self, st, args, ins):
        nm = self.live_bw(st, args[0], ins, 'bw_force')
        self.bw_lock(st, ins, 'bw_force')
        self.oblige('C11', nm == 'w2r', st, ins, 'the reader descriptor is the one adjusted')
        out = []
        v = args[1]
        for s0, x in self.force(st, v):
            x = s0.norm(self.tolin(s0, x, 32))
            if not x.t: cs = [(s0, 1 if x.c else 0)]
            else:
                cs = []
                s = s0.copy()
                if s.add_eq(x): cs.append((s, 0))
                s = s0.copy()
                if s.add_ne(x): cs.append((s, 1))
            for s, k in cs:
                s.mon['forced'] = k
                out.append((s, ZERO))
                f = s.copy()
                if self.api == 'shr_open': f.mon['anyfail'] = True; out.append((f, K(-1)))
        return out
    def m_bw_wait_ul(self, st, args, ins):
        p = args[0]
        nm = self.live_bw(st, p, ins, 'bw_wait_ul')
        self.oblige('C02', st.mon.get('lock') != 1, st, ins, 'the wake-up wait is entered without the ring lock')
        self.oblige('C09', nm == ('w2r' if self.api in READ_API else 'r2w'), st, ins, 'a blocked call waits on its own wake-up channel')
        if nm is None: return []
        fz = st.kb.get(self.hflags, (0, 0))[0]
        self.oblige('C08', bool(fz & F['NONBLOCK']) or (self.api == 'shr_flush' and st.mon.get('waitarg')), st, ins, 'only a call on a blocking handle waits')
        if self.api in WRITE_API:
            gz = st.kb.get(self.gflags, (0, 0))[0]
            self.oblige('C08', bool(gz & F['DROP']), st, ins, 'a write to a drop-mode ring never waits')
        self.oblige('C09', bool(st.mon.get('insuff')), st, ins, 'a call waits only after it found under the lock that it cannot proceed')
        if self.api in WRITE_API:
            q = self.cur_request(st)
            self.oblige('C03', lambda: q is not None and st.entails(self.n - q[1]) and st.entails(self.mm - q[0]), st, ins, 'a write waits only for a request that fits an empty ring')
        st.mon.pop('insuff', None)
        st.mon['waited'] = True
        out = []
        for r, t in ((0, None), (-1, -1), (-3, -3)):
            s = st.copy()
            if t: s.mon['waitrc'] = t; 
            out.append((s, K(r)))
        return out
    def m_bw_ready_ul(self, st, args, ins):
        self.live_bw(st, args[0], ins, 'bw_ready_ul')
        return [(st, self.fresh('rdy', 32))]
    def m_bw_close(self, st, args, ins):
        p = args[0]
        nm = self.live_bw(st, p, ins, 'bw_close')
        self.bw_lock(st, ins, 'bw_close')
        if nm is not None:
            st.mon[('bwclosed', p.obj.id)] = True
            k = ('res', 'bw', p.obj.id)
            if k in st.mon: st.mon[k] = 'gone'
        if st.mon.get('lock') == 1: st.mon['unsync_bw'] = True
        return [(st, None)]
    def m_bw_open(self, st, args, ins):
        self.bw_lock(st, ins, 'bw_open')
        fl = st.norm(self.tolin(st, args[0], 32))
        h = args[1]
        ch = None
        if isinstance(h, Ptr) and h.obj is self.R:
            o = st.norm(h.off)
            for f in ('w2r', 'r2w'):
                if not o.t and o.c == self.rf[f][0]: ch = f
        mode = None if fl.t else ('wait' if fl.c & BW_WAIT else 'wake')
        want = ('w2r', 'wait') if self.reader_side(st) else ('r2w', 'wait')
        want2 = ('r2w', 'wake') if self.reader_side(st) else ('w2r', 'wake')
        self.oblige(('C09', 'C10'), (ch, mode) in (want, want2), st, ins, 'wake-up handle is opened on the channel of its direction')
        if mode == 'wait':
            ok = len(args) > 2 and isinstance(args[2], Ptr) and args[2].obj is self.H and st.is_eq(args[2].off - self.hf['wait_fd'][0])
            self.oblige('C11', ok, st, ins, 'the descriptor of the waiting side is recorded in the handle')
        f = st.copy(); f.mon['nochan'] = True
        key = ('bwobj', ch, mode)
        ob = self.gobj.get(key)
        if ob is None:
            ob = self.gobj[key] = Obj('bw_%s_%s' % (ch, mode), 'bw', None, handler=OpaqueH(), bw=ch, bwmode=mode)
        st.mon[('res', 'bw', ob.id)] = 'live'
        st.mon.pop(('bwclosed', ob.id), None)
        if mode == 'wait' and len(args) > 2 and isinstance(args[2], Ptr) and args[2].obj is not None:
            fd = sym('waitfd', 0, 1 << 20)
            for s in (st, f):
                self.mem_store(s, args[2].obj, args[2].off, 4, fd)
        return [(st, Ptr(ob)), (f, NULL)]
    def reader_side(self, st):
        if self.api in READ_API: return True
        if self.api in WRITE_API: return False
        return bool(st.kb.get(self.hflags, (0, 0))[1] & F['RDONLY'])
    def m_bw_ctl(self, st, args, ins):
        nm = self.live_bw(st, args[0], ins, 'bw_ctl')
        fl = st.norm(self.tolin(st, args[1], 32))
        if not fl.t and fl.c == BW_POLLFD:
            want = 'w2r' if self.reader_side(st) else 'r2w'
            ok = nm == want and len(args) > 2 and self.pollfd is not None and st.is_eq(self.tolin(st, args[2], 32) - self.pollfd)
            self.oblige('C09', lambda: ok, st, ins, 'the caller descriptor is added to the waiting side of the handle')
            st.mon['polladded'] = True
        f = st.copy(); f.mon['ctlfail'] = True
        return [(st, ZERO), (f, K(-1))]
    def m_munmap(self, st, args, ins):
        p = args[0]
        if isinstance(p, Ptr) and p.obj is not None:
            k = ('res', 'map', p.obj.id)
            self.oblige('C19', st.mon.get(k) == 'live' and st.is_eq(p.off), st, ins, 'unmapped region is mapped')
            if p.obj is self.R and hasattr(self, 'maplen'):
                self.oblige('C19', lambda: st.entails(self.tolin(st, args[1], 64) - self.maplen), st, ins, 'the whole mapping is released')
            if k in st.mon: st.mon[k] = 'gone'
            st.mw(p.obj).dead = 'unmapped'
            if p.obj is self.R: st.mon['unmapped'] = True
        else:
            self.oblige('C19', False, st, ins, 'unmapped region is mapped')
        return [(st, ZERO)]
    def closed_fd(self, st, k, ins):
        if self.is_ringfd(st, st.g[('fd', k)]) and st.mon.get('lock') == 1:
            self.end_section(st, ins)
    # ------------------------------------------------------------ read vector
    def ov_store(self, st, off, size, v, ins):
        off = st.norm(off); g = st.g
        c = off.c % 16
        if any(a % 16 for _, a in off.t) or c not in (0, 8) or size != 8:
            raise AnalysisError('vector access shape at ' + self.loc(ins))
        k = Lin(off.c // 16, tuple((s, a // 16) for s, a in off.t))
        self.oblige('C13', lambda: st.entails(k) and st.entails(self.niov0 - k - 1), st, ins, 'vector entry filled is inside the given vector|%r' % k)
        if st.mon.get('lock') != 1:
            self.oblige('C13', False, st, ins, 'vector entries are filled while the messages are being copied'); return [st]
        cnt = g['ob'] if c == 0 else g['ol']
        self.oblige('C13', lambda: st.is_eq(k - cnt), st, ins, 'vector entries are filled in order|%r expected %r' % (st.norm(k), st.norm(cnt)))
        start = self.read_start(st)
        if start is None:
            self.oblige('C13', False, st, ins, 'vector entry describes a message'); return [st]
        P = self.ps_find(st, ('PS', 'ring'), start[0] + cnt)
        if c == 0:
            ok = lambda: P is not None and isinstance(v, Ptr) and v.obj is self.RB and st.is_eq(v.off - P + start[1])
            self.oblige('C13', ok, st, ins, 'vector entry points at its message in the caller buffer')
            g['ob'] = st.norm(cnt + 1)
        else:
            P2 = self.ps_find(st, ('PS', 'ring'), start[0] + cnt + 1)
            ok = lambda: P is not None and P2 is not None and st.is_eq(self.tolin(st, v, 64) - P2 + P)
            self.oblige('C13', ok, st, ins, 'vector entry length is the message length')
            g['ol'] = st.norm(cnt + 1)
        return [st]
    # ------------------------------------------------------------ cache
    def cache_base(self, st):
        if ('placed', 'cache') in st.mon: return ZERO, ZERO
        return self.cvm0, self.cn0
    def seq_store(self, st, h, off, size, v, ins):
        if h.arr != 'cache':
            self.oblige('C03', False, st, ins, 'the caller vector is not modified'); return [st]
        off = st.norm(off)
        c = off.c % 16
        if any(a % 16 for _, a in off.t) or c not in (0, 8) or size != 8:
            raise AnalysisError('vector access shape at ' + self.loc(ins))
        k = Lin(off.c // 16, tuple((s, a // 16) for s, a in off.t))
        g = st.g
        self.oblige('C14', lambda: st.entails(k) and st.entails(self.cvt - k - 1), st, ins, 'holding area vector is not overfilled|%r' % k)
        bk, bb = self.cache_base(st)
        cnt = g['gc_n'] if c == 0 else g['gc_b']
        self.oblige('C14', lambda: st.is_eq(k - bk - cnt), st, ins, 'held messages are appended in order|%r expected %r' % (k, st.norm(bk + cnt)))
        a = self.src_arr
        P = self.ps_find(st, ('PS', a), cnt)
        if c == 0:
            ok = lambda: P is not None and isinstance(v, Ptr) and v.obj is self.CB and st.is_eq(v.off - bb - P)
            self.oblige('C14', ok, st, ins, 'held message points at its bytes in the holding area')
            g['gc_n'] = st.norm(cnt + 1)
        else:
            P2 = self.ps_find(st, ('PS', a), cnt + 1)
            ok = lambda: P is not None and P2 is not None and st.is_eq(self.tolin(st, v, 64) - P2 + P)
            self.oblige('C14', ok, st, ins, 'held message has the length of the given message')
            g['gc_b'] = st.norm(cnt + 1)
        return [st]
    def cache_in(self, st, d, s, ln, ins):
        g = st.g
        self.check_bounds(st, d, ln, ins, 'write'); self.check_bounds(st, s, ln, ins, 'read')
        bk, bb = self.cache_base(st)
        self.oblige('C14', lambda: s.obj.info.get('arr') == self.src_arr and st.is_eq(s.off - g['gc_c']), st, ins, 'held bytes come from the messages in order')
        self.oblige('C14', lambda: st.is_eq(d.off - bb - g['gc_c']), st, ins, 'held bytes are appended to the holding area|%r expected %r' % (st.norm(d.off), st.norm(bb + g['gc_c'])))
        g['gc_c'] = st.norm(g['gc_c'] + ln)
        return [st]
    # ------------------------------------------------------------ sections
    def end_section(self, st, ins):
        if st.mon.get('lock') == 1: self.classify_section(st, ins)
        Shr.end_section(self, st, ins)
    def classify_section(self, st, ins):
        g = st.g
        if not (st.is_eq(g['cp']) and st.is_eq(g['cb']) and st.is_eq(g['cl'])): st.mon['tried'] = True
        st.mon.pop('insuff', None)
        if self.api in WRITE_API and self.api != 'shr_close' or self.api == 'shr_close' and not st.mon.get('closing'):
            if st.is_eq(g['cp']) and st.is_eq(g['cb']) and st.is_eq(g['cl']):
                r = self.cur_request(st)
                if r is not None:
                    s = st.copy()
                    fits = s.add_ge(self.n - g['u0'] - r[1]) and s.add_ge(self.mm - g['m0'] - r[0])
                    if fits: fits = self.feasible(s)
                    if not fits: st.mon['insuff'] = True
                    if not fits and not st.mon.get('unsync_bw'): st.mon['tried'] = True
            elif self.buffered and self.src_arr != 'cache' and st.mon.get('arr') == self.src_arr:
                self.oblige('C14', lambda: ('placed', 'cache') in st.mon or st.is_eq(self.cvm0), st, ins, 'held messages enter the ring before later ones')
        elif self.api in READ_API:
            sq = self.tolin(st, self.hget(st, 'q'), 64)
            kz, ko = st.kb.get(self.gflags, (0, 0))
            if ko & F['FARM']:
                if st.entails(sq - g['q0'] - g['mp0']): st.mon['insuff'] = True
            elif kz & F['FARM']:
                if st.entails(-g['m0']): st.mon['insuff'] = True
    def cur_arr(self, st):
        """the messages the current transfer is to place: held ones first"""
        if self.api in ('shr_flush', 'shr_close'): return 'cache' if self.buffered else None
        if self.buffered and ('placed', 'cache') not in st.mon and not st.is_eq(self.cvm0): return 'cache'
        return self.src_arr
    def cur_request(self, st):
        a = self.cur_arr(st)
        if a not in self.counts: return None
        n = self.counts[a](st)
        P = self.ps_find(st, ('PS', a), n)
        if P is None: return None
        return n, P
    # ------------------------------------------------------------ drivers
    def run_api(self):
        n = 0
        for name, st, args in getattr(self, 'drv_' + self.api)():
            self.case = name
            st0 = st.copy()
            for s, v in self.run(self.api, args, st):
                n += 1
                self.check_exit(s, v)
        return n
    def xob(self, st, prop, ok, msg):
        f = self.mod.func(self.api)
        self.stack.append((self.api, '-'))
        self.oblige(prop, ok, st, {'l': (f.d.get('file') or self.api, f.d.get('line') or 0)}, 'at return of %s: %s' % (self.api, msg))
        self.stack.pop()
    def fresh_case(self, writer, buffered=False):
        self.buffered = buffered
        self.RB = self.OV = self.ASET = None
        self.src_arr = None; self.pollfd = None
        self.counts = {}
        st = self.base_state(writer, buffered)
        if buffered: self.counts['cache'] = lambda s: self.cvm0
        return st
    def vec_case(self, buffered):
        st = self.fresh_case(True, buffered)
        niov = sym('niov', 0, 1 << 60); tot = sym('total', 0, None)
        src = Obj('messages', 'data', None, arr='iov')
        src.size = tot
        iov = Obj('iov', 'data', None, handler=SeqH(self, 'iov', lambda s: src, lambda s: niov, 0))
        st.ps[('PS', 'iov')] = ((ZERO, ZERO), (niov, tot)); st.ps[('fa', 'iov')] = ((ZERO,),)
        self.counts['iov'] = lambda s: niov
        self.src_arr = 'iov'; self.req = (niov, tot)
        return st, [Ptr(self.H), Ptr(iov), niov]
    def msg_case(self, buffered):
        st = self.fresh_case(True, buffered)
        ln = sym('len', 0, (1 << 64) - 1)
        src = Obj('message', 'data', ln, arr='msg')
        st.ps[('PS', 'msg')] = ((ZERO, ZERO), (K(1), ln))
        self.counts['msg'] = lambda s: K(1)
        self.src_arr = 'msg'; self.req = (K(1), ln)
        return st, [Ptr(self.H), Ptr(src), ln]
    def drv_shr_write(self):
        for b in (False, True):
            st, a = self.msg_case(b)
            yield 'buffered' if b else 'direct', st, a
    def drv_shr_writev(self):
        for b in (False, True):
            st, a = self.vec_case(b)
            yield 'buffered' if b else 'direct', st, a
    def drv_shr_flush(self):
        for b in (True, False):
            for w in (0, 1):
                for rn in (0, 1):
                    st = self.fresh_case(True, b)
                    wait = sym('wait', 1, (1 << 31) - 1) if w else ZERO
                    if w: st.mon['waitarg'] = True
                    if rn:
                        self.hset(st, 'r2w', NULL)
                        kz, ko = st.kb[self.hflags]
                        st.kb = dict(st.kb); st.kb[self.hflags] = (kz, ko | F['NONBLOCK'])
                    self.src_arr = 'cache'
                    yield '%s,wait=%d%s' % ('buffered' if b else 'direct', w, ',no space channel' if rn else ''), st, [Ptr(self.H), wait]
    def drv_shr_close(self):
        for writer, b, rn in ((True, False, 0), (True, False, 1), (True, True, 0), (True, True, 1), (False, False, 0)):
            st = self.fresh_case(writer, b)
            self.src_arr = 'cache' if b else None
            if rn:
                self.hset(st, 'r2w', NULL)
                kz, ko = st.kb[self.hflags]
                st.kb = dict(st.kb); st.kb[self.hflags] = (kz, ko | F['NONBLOCK'])
            st.mon[('res', 'heap', self.H.id)] = 'live'
            if b:
                st.mon[('res', 'heap', self.CB.id)] = 'live'; st.mon[('res', 'heap', self.CV.id)] = 'live'
            st.mon[('res', 'map', self.R.id)] = 'live'; self.maplen = self.stsize
            k = ('res', 'fd', 'ring'); st.mon[k] = 'live'; st.g[('fd', k)] = self.ring_fd
            st.mon[('res', 'bw', self.W2R.id)] = 'live'
            if not rn: st.mon[('res', 'bw', self.R2W.id)] = 'live'
            yield '%s%s%s' % ('writer' if writer else 'reader', ',buffered' if b else '', ',no space channel' if rn else ''), st, [Ptr(self.H)]
    def read_case(self):
        st = self.fresh_case(False)
        self.len0 = sym('len', 0, (1 << 62))   # no object is larger
        self.RB = Obj('caller buffer', 'data', self.len0)
        return st
    def farm_split(self, mk):
        for farm in (0, 1):
            st = mk()
            kz, ko = st.kb[self.gflags]
            st.kb = dict(st.kb); st.kb[self.gflags] = (kz, ko | F['FARM'] | F['DROP']) if farm else (kz | F['FARM'], ko)
            yield ('farm reader' if farm else 'reader'), st
    def drv_shr_read(self):
        self.niov0 = None
        for nm, st in self.farm_split(self.read_case):
          yield nm, st, [Ptr(self.H), Ptr(self.RB), self.len0]
    def drv_shr_readv(self):
        for nm, st in self.farm_split(self.read_case):
          self.niov0 = sym('niov', 0, 1 << 60)
          self.OV = Obj('caller vector', 'data', None, handler=OVH(self))
          self.NP = Obj('niov', 'data', 8)
          st.mw(self.NP).cells[0] = (8, self.niov0)
          yield nm, st, [Ptr(self.H), Ptr(self.RB), self.len0, Ptr(self.OV), Ptr(self.NP)]
    def drv_shr_stat(self):
        t = self.mod.find_struct('shr_stat')
        for writer, b in ((False, False), (True, True)):
            for rs in (0, 1):
                st = self.fresh_case(writer, b)
                self.SO = Obj('stat out', 'data', t['size'])
                self.RS = Obj('reset time', 'data', 16) if rs else None
                if rs:
                    self.rs0 = sym('sec', 0, 1 << 62); self.rs1 = sym('usec', 0, 1 << 62)
                    st.mw(self.RS).cells.update({0: (8, self.rs0), 8: (8, self.rs1)})
                yield 'reset=%d' % rs, st, [Ptr(self.H), Ptr(self.SO), Ptr(self.RS) if rs else NULL]
    def drv_shr_farm_stat(self):
        for rs in (0, 1):
            st = self.fresh_case(False)
            self.rsarg = rs
            yield 'reset=%d' % rs, st, [Ptr(self.H), sym('reset', 1, (1 << 31) - 1) if rs else ZERO]
    def drv_shr_get_selectable_fd(self):
        for w in (False, True):
            st = self.fresh_case(w)
            yield 'writer' if w else 'reader', st, [Ptr(self.H)]
    def drv_shr_ctl(self):
        for w, rn in ((False, 0), (True, 0), (True, 1)):
            for known in (1, 0):
                st = self.fresh_case(w)
                if rn: self.hset(st, 'r2w', NULL)
                self.pollfd = sym('pollfd', -(1 << 31), (1 << 31) - 1)
                fl = K(F['POLLFD'])
                if not known:
                    fl = sym('flag', -(1 << 31), (1 << 31) - 1); st.add_ne(fl - F['POLLFD'])
                self.ctlknown = known; self.rn = rn
                yield 'known=%d' % known, st, [Ptr(self.H), fl, self.pollfd]
    def drv_shr_appdata(self):
        for g in ('none', 'alloc', 'given'):
            for sset in (0, 1):
                st = self.fresh_case(False)
                self.GP = Obj('get', 'data', 8); self.SZ = Obj('sz', 'data', 8)
                self.sz0 = sym('sz', 0, (1 << 64) - 1)
                st.mw(self.SZ).cells[0] = (8, self.sz0)
                self.AG = None
                if g == 'given':
                    self.AG = Obj('caller buffer', 'data', self.sz0)
                    st.mw(self.GP).cells[0] = (8, Ptr(self.AG))
                else: st.mw(self.GP).cells[0] = (8, NULL)
                self.ASET = Obj('new data', 'data', self.sz0) if sset else None
                self.agmode = (g, sset)
                yield 'get=%s,set=%d' % (g, sset), st, [Ptr(self.H), NULL if g == 'none' else Ptr(self.GP), Ptr(self.ASET) if sset else NULL, Ptr(self.SZ)]
    def appdst(self, st):
        v = self.mem_load(st, self.GP, ZERO, 8, True)
        return v.obj if isinstance(v, Ptr) else None
    # ------------------------------------------------------------ return checks
    def check_exit(self, st, v):
        x = self.xob
        x(st, 'C02', st.mon.get('lock') != 1, 'the ring lock is released')
        a = self.api
        r = None
        if isinstance(v, Lin): r = st.norm(v)
        elif isinstance(v, Cond): raise AnalysisError('condition returned')
        if st.mon.get('lockfail') and a not in ('shr_close', 'shr_init'):
            x(st, 'C01', lambda: (r is not None and st.entails(-r - 1)) if not isinstance(v, Ptr) else v.obj is None, 'a call that could not lock the ring reports an error')
        w = st.mon.get('waitrc')
        if w and r is not None:
            x(st, 'C09', lambda: st.is_eq(r - w), 'a ready caller descriptor gives -3 and a failed wait gives -1')
            x(st, 'C09', lambda: a not in READ_API or st.is_eq(st.g['ret_n']) , 'a call that returns because its wait ended transferred nothing')
            x(st, 'C09', lambda: a not in WRITE_API or ('placed', self.cur_arr(st)) not in st.mon, 'a call that returns because its wait ended transferred nothing')
        elif r is not None and a in WRITE_API + READ_API:
            x(st, 'C09', lambda: not st.feasible_with(-r - 3) or not st.feasible_with(r + 3) or self.never(st, r + 3), '-3 is returned only for a ready caller descriptor')
        if a not in ('shr_close', 'shr_open', 'shr_init'):
            fl = self.tolin(st, self.hget(st, 'flags'), 32)
            x(st, ('C08', 'C14'), lambda: st.is_eq(fl - S(self.hflags)), 'the handle keeps its modes')
            for f, val in (('ring_fd', self.ring_fd), ('n', self.n), ('mm', self.mm), ('s.st_size', self.stsize)):
                x(st, 'C06', lambda: st.is_eq(self.tolin(st, self.hget(st, f), 64) - val), 'the handle keeps its ring')
            if not self.buffered and a in WRITE_API:
                x(st, 'C14', lambda: all(st.is_eq(self.tolin(st, self.hget(st, f), 64)) for f in ('c.n', 'c.vm')), 'an unbuffered handle holds nothing')
        getattr(self, 'exit_' + a)(st, v, r)
    def never(self, st, d):
        s = st.copy()
        return not (s.add_eq(d) and self.feasible(s))
    def cache_now(self, st):
        return self.tolin(st, self.hget(st, 'c.n'), 64), self.tolin(st, self.hget(st, 'c.vm'), 64)
    def exit_shr_write(self, st, v, r):
        x = self.xob; a = self.src_arr; cnt, tot = self.req; g = st.g
        placed = ('placed', a) in st.mon
        held = False
        fp = st.mon.get('failpath')
        if self.buffered:
            cn, cvm = self.cache_now(st)
            bk, bb = self.cache_base(st)
            if fp and ('placed', 'cache') in st.mon and st.is_eq(cvm - self.cvm0) and st.is_eq(cn - self.cn0): bk, bb = self.cvm0, self.cn0
            x(st, 'C14', lambda: st.is_eq(g['gc_n'] - g['gc_b']) and st.is_eq(cvm - bk - g['gc_n']) and st.is_eq(cn - bb - g['gc_c']), 'the holding area holds exactly the messages not yet transferred|%r %r' % (st.norm(cvm), st.norm(cn)))
            if not st.is_eq(g['gc_n']):
                held = True
                x(st, 'C14', lambda: st.is_eq(g['gc_n'] - cnt) and st.is_eq(g['gc_c'] - tot) and not placed, 'a message is either held whole or written, not both')
            else:
                x(st, 'C14', lambda: st.is_eq(g['gc_c']), 'a refused message leaves nothing in the holding area')
        pos = st.feasible_with(r - 1)
        if pos and not (placed or held) and not self.never_ge(st, r - 1):
            x(st, ('C03', 'C14') if self.buffered else 'C03', False, 'a positive result means the messages were written or held')
        if placed or held:
            if not fp: x(st, ('C03', 'C14') if self.buffered else 'C03', lambda: st.is_eq(r - tot), 'the result is the byte total of the request|%r %r' % (r, st.norm(tot)))
            if st.mon.get('syncfail'): x(st, 'C15', lambda: st.entails(-r - 1), 'a write whose flush failed does not report success')
            if st.mon.get('wakefail') and not st.mon.get('syncfail'):
                x(st, 'C03', lambda: st.is_eq(r - tot) or st.entails(-r - 1), 'the result is the byte total or an error')
            return
        if st.mon.get('syncfail') or st.mon.get('lockfail') or st.mon.get('waitrc') or fp: return
        x(st, 'C03', lambda: st.entails(-r) and st.entails(r + 1), 'a write that placed nothing returns 0 or -1|%r' % r)
        if st.is_eq(r):
            x(st, ('C08', 'C03'), bool(st.mon.get('insuff')) and bool(st.kb.get(self.hflags, (0, 0))[1] & F['NONBLOCK']), '0 is returned only by a non-blocking handle that found too little space')
        else:
            x(st, 'C08', not st.mon.get('insuff'), 'a non-blocking write that finds too little space returns 0')
            x(st, 'C03', lambda: self.unfit(st, cnt, tot), '-1 without a failure means the request can never fit')
    exit_shr_writev = exit_shr_write
    def never_ge(self, st, l):
        s = st.copy()
        return not (s.add_ge(l) and self.feasible(s))
    def unfit(self, st, cnt, tot):
        s = st.copy()
        for q in (cnt - 1, self.n - tot, self.mm - cnt):
            if not s.add_ge(q): return True
        pts = s.ps.get(('PS', self.src_arr), ())
        for (k, P) in pts:
            for (k2, P2) in pts:
                d = s.norm(k2 - k)
                if not d.t and d.c == 1 and not s.add_ge(P2 - P - 1): return True
        return not self.feasible(s)
    def exit_shr_flush(self, st, v, r):
        x = self.xob
        cn, cvm = self.cache_now(st)
        if not self.buffered:
            x(st, 'C14', lambda: st.is_eq(r), 'flushing an unbuffered handle does nothing'); return
        placed = ('placed', 'cache') in st.mon
        fp = st.mon.get('failpath')
        keep = st.is_eq(cn - self.cn0) and st.is_eq(cvm - self.cvm0)
        empty = st.is_eq(cn) and st.is_eq(cvm)
        if placed:
            if fp:
                x(st, 'C14', keep or empty, 'the holding area is either kept or emptied')
                if st.mon.get('syncfail'): x(st, 'C15', lambda: st.entails(-r - 1), 'a flush to the ring that could not be synced does not report success')
                if not st.mon.get('syncfail'): x(st, 'C14', lambda: empty or st.entails(-r - 1), 'a reported flush empties the holding area')
            else:
                x(st, 'C14', empty, 'messages transferred to the ring are forgotten')
                x(st, ('C14', 'C03'), lambda: st.is_eq(r - self.cn0), 'the result is the number of bytes flushed|%r' % r)
        else:
            x(st, 'C14', keep, 'messages not transferred stay held')
            x(st, 'C14', lambda: st.entails(-r), 'a flush that transferred nothing does not report success')
            if not (st.mon.get('lockfail') or st.mon.get('waitrc') or fp or ('nochan' in st.mon)):
                x(st, 'C14', lambda: st.is_eq(r), 'a flush fails only if something failed')
                if st.is_eq(r):
                    x(st, ('C08', 'C14'), lambda: st.is_eq(self.cn0) or bool(st.mon.get('insuff')) and bool(st.kb.get(self.hflags, (0, 0))[1] & F['NONBLOCK']) and not st.mon.get('waitarg'), 'a flush returns 0 only with nothing held or, non-blocking, with too little space')
    def exit_shr_close(self, st, v, r):
        x = self.xob
        for k in self.leaks(st):
            if k[1] == 'bw' and st.mon.get('lockfail'): continue
            x(st, 'C19', False, 'closing releases the %s|%r' % ({'heap': 'memory of the handle', 'map': 'mapping', 'fd': 'descriptor', 'bw': 'waiter registrations'}[k[1]], k))
        x(st, 'C19', True, 'closing releases everything the handle held')
        if self.buffered and not st.is_eq(self.cn0):
            x(st, 'C14', bool(st.mon.get('tried')), 'closing attempts to flush held messages')
    def exit_shr_read(self, st, v, r):
        x = self.xob; g = st.g
        nb, nn = g['ret_b'], g['ret_n']
        gave = not st.is_eq(nn)
        nonb = bool(st.kb.get(self.hflags, (0, 0))[1] & F['NONBLOCK'])
        if gave:
            if st.mon.get('syncfail'):
                x(st, 'C13', lambda: st.is_eq(r - nb) or st.entails(-r - 1), 'the result is the number of bytes stored or an error')
            else:
                x(st, 'C13', lambda: st.is_eq(r - nb), 'the result is the number of bytes stored|%r %r' % (r, st.norm(nb)))
        else:
            x(st, 'C13', lambda: st.entails(-r), 'a read that stored nothing reports no bytes|%r' % r)
            if st.mon.get('syncfail') or st.mon.get('lockfail') or st.mon.get('waitrc'): pass
            elif st.mon.get('didnotfit'):
                x(st, 'C13', lambda: st.is_eq(r + 2), 'a message larger than the buffer gives -2|%r' % r)
            elif st.mon.get('insuff'):
                x(st, 'C08', nonb and st.is_eq(r), 'a non-blocking read of an empty ring returns 0|%r' % r)
            else:
                x(st, 'C13', lambda: st.is_eq(r + 1) and (st.is_eq(self.len0) or self.niov0 is not None and st.is_eq(self.niov0)), 'an error without a failure means no room was given|%r' % r)
        if self.niov0 is not None and not st.is_eq(r + 1):
            cnt = self.tolin(st, self.mem_load(st, self.NP, ZERO, 8, False), 64)
            x(st, 'C13', lambda: st.is_eq(cnt - nn), 'the reported count is the number of entries filled|%r %r' % (st.norm(cnt), st.norm(nn)))
    exit_shr_readv = exit_shr_read
    def set_errno(self, st, v=None):
        Libc.set_errno(self, st, v)
        if self.api in ('shr_open', 'shr_init', 'shr_stat', 'shr_appdata'): st.mon['anyfail'] = True
    def exit_shr_stat(self, st, v, r):
        x = self.xob
        if st.is_eq(r):
            t = self.mod.find_struct('shr_stat')
            for f, (o, s, k) in sorted(self.mod.fields(t).items()):
                if k in ('struct', 'array') or s not in (4, 8): continue
                want = {'bn': self.n, 'mm': self.mm, 'bu': st.g.get('snap.u'), 'mu': st.g.get('snap.m'), 'flags': S(self.gflags)}.get(f)
                if f in ('cn', 'cm', 'cb'):
                    want = self.tolin(st, self.hget(st, {'cn': 'c.sz', 'cm': 'c.vm', 'cb': 'c.n'}[f]), 64)
                if want is None: want = st.g.get('snap.stat.' + f)
                got = self.mem_load(st, self.SO, K(o), s, False)
                x(st, 'C21', lambda: want is not None and isinstance(got, (Lin, Bits)) and st.is_eq(self.tolin(st, got, 8 * s) - want), 'reported %s is the value under the lock' % f)
            x(st, 'C21', bool(st.mon.get('stsect')), 'the snapshot was taken under the lock')
        else:
            x(st, 'C21', lambda: st.entails(-r - 1), 'the result is 0 or -1')
            x(st, 'C21', bool(st.mon.get('anyfail')), 'it fails only if something failed')
    def exit_shr_farm_stat(self, st, v, r):
        md = self.tolin(st, self.hget(st, 'md'), 64)
        self.xob(st, 'C12', lambda: st.is_eq(r - self.md0), 'the loss count of the reader is returned')
        self.xob(st, 'C12', lambda: st.is_eq(md) if self.rsarg else st.is_eq(md - self.md0), 'the loss count is reset exactly on request')
    def exit_shr_get_selectable_fd(self, st, v, r):
        kz, ko = st.kb.get(self.hflags, (0, 0))
        self.xob(st, 'C11', lambda: st.is_eq(r + 1) or (bool(ko & F['RDONLY']) and bool(ko & F['NONBLOCK']) and st.is_eq(r - self.wait_fd)), 'the descriptor is given only for non-blocking readers')
        if ko & F['RDONLY'] and ko & F['NONBLOCK']:
            self.xob(st, 'C11', lambda: st.is_eq(r - self.wait_fd), 'a non-blocking reader gets its descriptor')
    def exit_shr_ctl(self, st, v, r):
        added = st.mon.get('polladded')
        if not self.ctlknown:
            self.xob(st, 'C09', lambda: st.entails(-r - 1) and not added, 'an unknown request is refused')
        elif st.mon.get('ctlfail'):
            self.xob(st, 'C09', lambda: st.entails(-r - 1), 'a failed registration is reported')
        else:
            self.xob(st, 'C09', lambda: bool(added and st.is_eq(r)) or bool(st.mon.get('lockfail') or 'nochan' in st.mon) and not added and st.entails(-r - 1)
                     or self.rn and not added and bool(st.kb.get(self.gflags, (0, 0))[1] & F['DROP']) and st.is_eq(r), 'the descriptor is registered on the waiting side of any handle that may wait')
    def exit_shr_appdata(self, st, v, r):
        x = self.xob; g, sset = self.agmode
        got = st.mon.get('appget'); put = st.mon.get('appset')
        sz = self.tolin(st, self.mem_load(st, self.SZ, ZERO, 8, False), 64)
        if st.is_eq(r):
            x(st, 'C20', lambda: st.entails(self.applen - 1), 'a ring without application data is refused')
            if g != 'none' and not (g == 'alloc' and sset):
                x(st, 'C20', bool(got), 'the application data is returned')
                x(st, 'C20', lambda: st.is_eq(sz - self.applen), 'the true length is returned|%r' % st.norm(sz))
                if g == 'alloc':
                    x(st, 'C20', self.appdst(st) is not None, 'the allocated buffer is returned')
            if sset and not (g == 'alloc'):
                x(st, 'C20', bool(put), 'the application data is replaced')
                x(st, 'C20', lambda: st.is_eq(self.sz0 - self.applen), 'a replacement has exactly the stored length')
            if not sset: x(st, 'C20', not put, 'a get changes nothing')
        else:
            x(st, 'C20', lambda: st.is_eq(r + 1), 'the result is 0 or -1')
            def reason():
                t = st.copy()
                if not t.add_ge(self.applen - 1): return True
                if g == 'alloc': return False
                if sset: return not t.add_eq(self.sz0 - self.applen)
                return not t.add_ge(self.sz0 - self.applen)
            x(st, 'C20', lambda: bool(st.mon.get('anyfail')) or reason(), 'a request that fits is refused only if something failed')
            if not st.mon.get('syncfail'): x(st, 'C20', not put, 'a refused replacement changes nothing')
            if g == 'given' and not st.mon.get('syncfail'):
                x(st, 'C20', lambda: not got, 'a refused get stores nothing')
        # the caller buffer and the block allocated for it belong to the caller
