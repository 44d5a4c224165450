"""Wake-up channels (lib/bw.c): the waiter table in the ring file and the waker's view of it.

One table slot K is followed exactly ("focus"); the other slots hold arbitrary content. The analysis is
repeated for several K, so every rule about a slot is decided for a first, a middle and the last slot.
Loops over the slots are followed to their end: states that agree on everything observable are merged."""
from core import *
from core import memo_sym
from libc import Libc
from shrmodel import Handler

BW_WAKE, BW_WAIT, BW_TRACE, BW_POLLFD = 2, 4, 8, 16
EAGAIN, ECONNREFUSED, EIO, EINTR = 11, 111, 5, 4
MSG_DONTWAIT = 0x40

def sym(name, lo=None, hi=None): return S(newsym(name, lo, hi))

class ArrH(Handler):
    """object holding arrays indexed by slot; only slot K is precise"""
    regions = ()
    def __init__(self, M): self.M = M
    def where(self, I, st, off, size, ins):
        """-> list of (state, region name or None, slot or None, offset inside the element)"""
        M = self.M
        off = st.norm(off)
        if not off.t:
            for nm, base, tot, esz in self.regions:
                if base <= off.c < base + tot:
                    i = (off.c - base) // esz; r = (off.c - base) % esz
                    if not size.t and r + size.c > esz: return [(st, nm, 'span', off.c)]
                    return [(st, nm, i, r)]
            return [(st, None, None, off.c)]
        for nm, base, tot, esz in self.regions:
            d = st.norm(off - base)
            if not (st.entails(d) and st.entails(K(tot) - d - size)): continue
            r = d.c % esz
            if any(c % esz for _, c in d.t): continue
            idx = Lin(d.c // esz, tuple((s, c // esz) for s, c in d.t))
            out = []
            a = st.copy()
            if a.add_eq(idx - M.k): out.append((a, nm, M.k, r))
            b = st.copy()
            if b.add_ne(idx - M.k): out.append((b, nm, 'other', r))
            return out
        return [(st, 'bad', None, off)]

class TableH(ArrH):
    def load(self, I, st, o, off, size, isptr, ins):
        M = self.M; out = []
        M.locked(st, ins)
        for s, nm, i, r in self.where(I, st, off, K(size), ins):
            if nm is None:
                if not M.inside(s, ins, r == 0 and size == 4): continue
                out.append((s, I.mem_load(s, o, K(r), size, isptr)))
            elif nm != 'wr' or i == 'span' : M.inside(s, ins, False)
            elif i == M.k: out.append((s, I.mem_load(s, o, K(M.wr0 + M.esz * i + r), size, isptr)))
            elif r == M.pid0 and size == 4:
                c = s.m(o).cells.get(M.wr0 + M.esz * i + r) if i != 'other' else None
                if c is not None: out.append((s, c[1]))
                elif M.others == 'free': out.append((s, ZERO))
                else: out.append((s, sym('opid', 1 if M.others == 'occ' else 0, 1 << 22)))
            else:
                c = s.m(o).cells.get(M.wr0 + M.esz * i + r) if i != 'other' else None
                out.append((s, c[1] if c is not None and c[0] == size else I.fresh('oname', 8 * size)))
        return out
    def store(self, I, st, o, off, size, v, ins):
        M = self.M; out = []
        M.locked(st, ins)
        for s, nm, i, r in self.where(I, st, off, K(size), ins):
            if nm is None:
                if not M.inside(s, ins, r == 0 and size == 4): continue
                M.bump(s, v, ins)
            elif nm != 'wr' or i == 'span': M.inside(s, ins, False); continue
            elif r == M.pid0:
                if i == M.k: M.pid_store(s, v, ins)
                else: M.opid_store(s, i, v, ins)
            elif i == M.k:
                M.name_store(s, ins)
                I.mem_store(s, o, K(M.wr0 + M.esz * i + r), size, v)
            elif i != 'other': I.mem_store(s, o, K(M.wr0 + M.esz * i + r), size, v)
            out.append(s)
        return out
    def copy_from(self, I, st, d, s, ln, ins):
        M = self.M
        M.locked(st, ins)
        out = []
        ln = st.norm(ln)
        for x, nm, i, r in self.where(I, st, s.off, ln, ins):
            if nm != 'wr' or i == 'span': M.inside(x, ins, False); continue
            I_d = d.obj.handler
            if i == M.k:
                src = Ptr(s.obj, K(M.wr0 + M.esz * i + r))
                if I_d is not None:
                    q = I_d.copy_to(I, x, d, src, ln, ins)
                    out.extend(q if q is not None else [x]); continue
                I.check_bounds(x, d, ln, ins, 'write'); I.raw_copy(x, d, src, ln)
            else:
                if I_d is not None:
                    q = I_d.copy_to(I, x, d, None, ln, ins)
                    out.extend(q if q is not None else [x]); continue
                I.check_bounds(x, d, ln, ins, 'write')
                if i != 'other' and any(M.wr0 + M.esz * i + r <= c < M.wr0 + M.esz * (i + 1) for c in x.m(s.obj).cells): I.raw_copy(x, d, Ptr(s.obj, K(M.wr0 + M.esz * i + r)), ln)
                else: I.mem_kill(x, d.obj, d.off, ln.c if not ln.t else ln); M.unknown_bytes(x, d, ln)
            out.append(x)
        return out
    def copy_to(self, I, st, d, s, ln, ins):
        M = self.M
        M.locked(st, ins)
        ln = st.norm(ln); out = []
        for x, nm, i, r in self.where(I, st, d.off, ln, ins):
            if nm != 'wr' or i == 'span' or r < M.name0: M.inside(x, ins, False); continue
            if s is not None: I.check_bounds(x, s, ln, ins, 'read')
            if i == M.k: M.name_store(x, ins)
            if i != 'other':
                if s is None: M.unknown_bytes(x, Ptr(d.obj, K(M.wr0 + M.esz * i + r)), ln)
                else: I.raw_copy(x, Ptr(d.obj, K(M.wr0 + M.esz * i + r)), s, ln)
            out.append(x)
        return out
    def memset(self, I, st, d, b, ln, ins):
        M = self.M
        M.locked(st, ins)
        ln = st.norm(ln); out = []
        for x, nm, i, r in self.where(I, st, d.off, ln, ins):
            if nm != 'wr' or i == 'span' or r < M.name0: M.inside(x, ins, False); continue
            if i == M.k: M.name_store(x, ins)
            bb = x.norm(b)
            if i != 'other' and not ln.t and not bb.t:
                o = M.wr0 + M.esz * i + r
                I.mem_kill(x, d.obj, K(o), ln.c)
                for j in range(ln.c): I.mem_put(x, d.obj, K(o + j), 1, bb)
            out.append(x)
        return out

class ViewH(ArrH):
    def load(self, I, st, o, off, size, isptr, ins):
        M = self.M; out = []
        if not M.alive(st, o, ins): return []
        for s, nm, i, r in self.where(I, st, off, K(size), ins):
            if nm is None:
                I.check_bounds(s, Ptr(o, K(r)), K(size), ins, 'load')
                out.append((s, I.mem_load(s, o, K(r), size, isptr)))
            elif nm == 'bad' or i == 'span' or nm == 'fd' and (size != 4 or r): M.inside(s, ins, False)
            elif i == M.k: out.append((s, I.mem_load(s, o, off if not st.norm(off).t else self.at(nm, i, r), size, isptr)))
            elif nm == 'fd':
                out.append((s, M.other_fd()))
            else: out.append((s, I.fresh('ovname', 8 * size)))
        return out
    def at(self, nm, i, r):
        for n, base, tot, esz in self.regions:
            if n == nm: return K(base + esz * i + r)
    def store(self, I, st, o, off, size, v, ins):
        M = self.M; out = []
        if not M.alive(st, o, ins): return [st]
        for s, nm, i, r in self.where(I, st, off, K(size), ins):
            if nm is None:
                I.check_bounds(s, Ptr(o, K(r)), K(size), ins, 'store')
                I.mem_store(s, o, K(r), size, v)
            elif nm == 'bad' or i == 'span' or nm == 'fd' and (size != 4 or r): M.inside(s, ins, False); continue
            elif i == M.k: I.mem_store(s, o, self.at(nm, i, r), size, v)
            elif nm == 'fd': M.handover(s, v)
            out.append(s)
        return out
    def copy_from(self, I, st, d, s, ln, ins):
        M = self.M; out = []
        ln = st.norm(ln)
        if not M.alive(st, s.obj, ins): return [st]
        for x, nm, i, r in self.where(I, st, s.off, ln, ins):
            if nm is None:
                out.append(x)
                if d.obj.handler is None: I.check_bounds(x, d, ln, ins, 'write'); I.raw_copy(x, d, s, ln)
                continue
            if nm == 'bad' or i == 'span': M.inside(x, ins, False); continue
            if d.obj.handler is not None:
                q = d.obj.handler.copy_to(I, x, d, Ptr(s.obj, self.at(nm, i, r)) if i == M.k else None, ln, ins)
                out.extend(q if q is not None else [x]); continue
            I.check_bounds(x, d, ln, ins, 'write')
            if i == M.k: I.raw_copy(x, d, Ptr(s.obj, self.at(nm, i, r)), ln)
            else: I.mem_kill(x, d.obj, d.off, ln.c if not ln.t else ln); M.unknown_bytes(x, d, ln)
            out.append(x)
        return out
    def copy_to(self, I, st, d, s, ln, ins):
        M = self.M; out = []
        ln = st.norm(ln)
        if not M.alive(st, d.obj, ins): return [st]
        for x, nm, i, r in self.where(I, st, d.off, ln, ins):
            if nm is None:
                I.check_bounds(x, d, ln, ins, 'write')
                if s is not None: I.raw_copy(x, d, s, ln)
                out.append(x); continue
            if nm == 'bad' or i == 'span': M.inside(x, ins, False); continue
            if s is not None and s.obj.handler is None: I.check_bounds(x, s, ln, ins, 'read')
            if i == M.k:
                if s is None: M.unknown_bytes(x, Ptr(d.obj, self.at(nm, i, r)), ln)
                else: I.raw_copy(x, Ptr(d.obj, self.at(nm, i, r)), s, ln)
            out.append(x)
        return out

class BwApi(Libc, Interp):
    HIST = True
    SUBSUME = 60
    def __init__(self, mod, api, thorough=False):
        Interp.__init__(self, mod)
        self.api = api; self.thorough = thorough
        t = mod.find_struct('bw_t'); h = mod.find_struct('bw_handle')
        if t is None or h is None: raise AnalysisError('wake-up handle structs not found')
        self.bwsize = t['size']; self.hsize = h['size']
        self.wf = mod.fields(t); self.tf = mod.fields(h)
        for f in ('flags', 'h', 'seqno', 'fd', 'name', 'slotno', 'listenfd', 'selffd', 'epollfd', 'drain', 'iov', 'hdr', 'zero', 'discard'):
            if f not in self.wf: raise AnalysisError('wake-up handle field %s not found' % f)
        self.nslot = self.wf['fd'][1] // 4
        self.wr0 = self.tf['wr'][0]; self.esz = self.tf['wr'][1] // self.nslot
        self.pid0, self.name0, self.nlen = 0, 4, self.esz - 4
        for m in h['members']:
            if m['name'] == 'wr':
                e = mod.strip(mod.strip(m['ty'])['base'])
                for x in e['members']:
                    if x['name'] == 'pid': self.pid0 = x['off']
                    if x['name'] == 'name': self.name0 = x['off']; self.nlen = x['size']
        self.only = None
        self.install_models()
    def install_models(self):
        self.install_libc()
        for n in ('has_pid_socket', 'socket', 'bind', 'connect', 'getsockname', 'setsockopt', 'ioctl', 'sendmsg', 'send', 'sendto', 'recvmsg', 'recv', 'recvfrom',
                  'recvmmsg', 'epoll_create', 'epoll_create1', 'epoll_ctl', 'epoll_wait', 'getpid', 'close', 'memcmp', 'bcmp', 'strncmp', 'strcmp', 'strlen', 'strnlen', 'fcntl'):
            self.models[n] = getattr(self, 'm_' + n)
        for n in ('poll', 'select', 'sleep', 'usleep', 'nanosleep', 'read', 'write', 'sendmmsg', 'kill'): self.models[n] = self.m_other
    def memprop(self, o, what): return 'C19' if what == 'dead' else 'C22'
    def bad_access(self, st, p, ins, what): self.oblige(('C22', 'C19'), False, st, ins, '%s through a valid pointer' % what)
    def assert_prop(self, st):
        return {'bw_open': ('C22', 'C23'), 'bw_wake': ('C23',), 'bw_close': ('C19', 'C22'), 'bw_force': ('C11',)}.get(self.api, ('C09',))
    LOCKED = ('bw_open', 'bw_wake', 'bw_close', 'bw_force')
    # ------------------------------------------------------------ rules about the table
    def locked(self, st, ins):
        self.oblige('C01', self.api in self.LOCKED, st, ins, 'the waiter table is used only by calls made under the ring lock')
    def inside(self, st, ins, ok):
        self.oblige('C22', ok, st, ins, 'access stays inside its table slot'); return ok
    def alive(self, st, o, ins):
        m = st.mem.get(o.id)
        if m is not None and m.dead:
            self.oblige('C19', False, st, ins, 'the wake-up handle is not used after it was freed'); return False
        return True
    def other_fd(self):
        v = newsym('ofd', -1, 1 << 20); self.ofds.add(v); return S(v)
    def unknown_bytes(self, st, d, ln):
        self.fill_unknown(st, d, ln)
    def tcell(self, st, what): return self.mem_load(st, self.H, K(self.wr0 + self.esz * self.k + what), 4, False)
    def pidk(self, st): return self.tolin(st, self.tcell(st, self.pid0), 32)
    def tname(self, st): return [self.mem_load(st, self.H, K(self.wr0 + self.esz * self.k + self.name0 + j), 1, False) for j in range(self.nlen)]
    def vname(self, st, w): return [self.mem_load(st, w, K(self.wf['name'][0] + self.nlen * self.k + j), 1, False) for j in range(self.nlen)]
    def same_bytes(self, st, a, b):
        for x, y in zip(a, b):
            if not isinstance(x, (Lin, Bits)) or not isinstance(y, (Lin, Bits)): return False
            if not st.is_eq(self.tolin(st, x, 8) - self.tolin(st, y, 8)): return False
        return True
    def bump(self, st, v, ins):
        cur = self.mem_load(st, self.H, ZERO, 4, False)
        d = st.norm(self.tolin(st, v, 32) - self.tolin(st, cur, 32))
        self.oblige('C22', not d.t and d.c != 0, st, ins, 'the table version changes when it is stored')
        w = self.W; ws = None
        if w is not None and not (st.mem.get(w.id) is not None and st.mem[w.id].dead):
            x = self.mem_load(st, w, K(self.wf['seqno'][0]), 4, False)
            if isinstance(x, Lin): ws = st.norm(x)
        for q in self.SEQ[1:]:
            if ws is not None and (not ws.t or any(s == q for s, _ in ws.t)) and ws == S(q): continue
            break
        st.mw(self.H).cells[0] = (4, S(q))
        if ws is not None: st.add_ne(S(q) - ws)
        st.mon['bump'] = True
    def pid_store(self, st, v, ins):
        cur = st.norm(self.pidk(st)); v = st.norm(self.tolin(st, v, 32))
        if st.is_eq(v):
            if st.mon.get('own') == self.k:
                if self.api == 'bw_close' or not st.mon.get('reg'): pass
            elif not st.is_eq(cur):
                self.oblige(('C23', 'C22'), bool(st.mon.get('gone') or st.mon.get('deadaddr')), st, ins, 'a registration is purged only when its waiter is known to be gone')
            if not st.is_eq(cur): st.mon['changed'] = True
            if st.mon.get('own') == self.k: st.mon['released'] = True
            else: st.mon['purged'] = True
            st.mw(self.H).cells[self.wr0 + self.esz * self.k + self.pid0] = (4, ZERO)
            return
        ok = self.api == 'bw_open' and bool(self.flags & BW_WAIT)
        self.oblige('C22', ok and st.is_eq(cur), st, ins, 'only a free slot is taken')
        self.oblige('C22', st.is_eq(v - self.PID), st, ins, 'a slot is taken with the process id of the waiter')
        self.oblige(('C22', 'C10'), self.same_bytes(st, self.tname(st), self.OWN), st, ins, 'a slot is taken only after the wake-up address was recorded in it')
        self.oblige('C22', 'own' not in st.mon, st, ins, 'a waiter takes one slot')
        st.mon['own'] = self.k; st.mon['reg'] = True; st.mon['changed'] = True
        st.mon.pop('bump', None)
        st.mw(self.H).cells[self.wr0 + self.esz * self.k + self.pid0] = (4, v)
    def opid_store(self, st, i, v, ins):
        v = st.norm(self.tolin(st, v, 32))
        if not st.is_eq(v):
            self.oblige('C22', 'own' not in st.mon, st, ins, 'a waiter takes one slot')
            st.mon['own'] = i; st.mon['reg'] = True
            st.mon.pop('bump', None)
            if i != 'other':
                st.mw(self.H).cells[self.wr0 + self.esz * i + self.pid0] = (4, v)
                nm = [self.mem_load(st, self.H, K(self.wr0 + self.esz * i + self.name0 + j), 1, False) for j in range(self.nlen)]
                self.oblige(('C22', 'C10'), self.same_bytes(st, nm, self.OWN), st, ins, 'a slot is taken only after the wake-up address was recorded in it')
        else:
            if st.mon.get('own') == i: st.mon['released'] = True
            elif self.api == 'bw_close': self.oblige('C22', False, st, ins, 'closing releases only the slot of the handle')
            if i != 'other' and st.mon.get('own') == i: st.mw(self.H).cells[self.wr0 + self.esz * i + self.pid0] = (4, ZERO)
        st.mon['changed'] = True
    def name_store(self, st, ins):
        self.oblige('C22', lambda: self.api == 'bw_open' and bool(self.flags & BW_WAIT) and st.is_eq(self.pidk(st)), st, ins, 'the address of a taken slot is never overwritten')
    # ------------------------------------------------------------ descriptors
    def new_fd(self, st, ins, kind):
        n = 0
        base = ('res', 'fd', kind + '@' + '/'.join(x[0] for x in self.stack[-1:]) + ':' + self.loc(ins))
        while base + (n,) in st.mon:
            n += 1
            if n > 8: raise AnalysisError('unbounded descriptors at ' + self.loc(ins))
        k = base + (n,)
        v = S(memo_sym(('bwfd', k), kind + 'fd', 0, 1 << 20))
        st.mon[k] = 'live'; st.g[('fd', k)] = v
        return v
    def forget(self, st, k):
        st.mon.pop(k, None); st.g.pop(('fd', k), None); st.mon.pop(('conn', k), None); st.mon.pop(('bound', k), None)
    def handover(self, st, v):
        k = self.find_fd(st, self.tolin(st, v, 32))
        if k is not None: self.forget(st, k)
    def held(self, st, v):
        w = self.W
        if w is None: return False
        for f in ('listenfd', 'selffd', 'epollfd'):
            x = self.mem_load(st, w, K(self.wf[f][0]), 4, False)
            if isinstance(x, Lin) and st.is_eq(x - v): return True
        x = self.mem_load(st, w, K(self.wf['fd'][0] + 4 * self.k), 4, False)
        return isinstance(x, Lin) and st.is_eq(x - v)
    def m_close(self, st, args, ins):
        v = st.norm(self.tolin(st, args[0], 32))
        k = self.find_fd(st, v)
        if k is None:
            self.oblige('C19', any(s in self.ofds for s, _ in v.t), st, ins, 'closed descriptor is open (no double close)')
            return [(st, ZERO)]
        self.oblige('C19', st.mon[k] == 'live', st, ins, 'closed descriptor is open (no double close)')
        w = self.W
        if w is not None and not (st.mem.get(w.id) is not None and st.mem[w.id].dead) and self.held(st, v):
            st.mon[k] = 'gone'
        else: self.forget(st, k)
        return [(st, ZERO)]
    def fail(self, st, e=EIO):
        f = st.copy(); self.set_errno(f, K(e))
        if e != EAGAIN: f.mon['fail'] = True
        return f
    def m_malloc(self, st, args, ins):
        out = Libc.m_malloc(self, st, args, ins); out[0][0].mon['fail'] = True
        return out
    def m_calloc(self, st, args, ins):
        out = Libc.m_calloc(self, st, args, ins); out[0][0].mon['fail'] = True
        return out
    def live(self, st, v, ins, what):
        v = st.norm(self.tolin(st, v, 32))
        k = self.find_fd(st, v)
        ok = k is not None and st.mon.get(k) == 'live' or k is None and any(s in self.ofds for s, _ in v.t)
        self.oblige('C19', ok, st, ins, '%s uses an open descriptor' % what)
        return k
    def m_socket(self, st, args, ins):
        f = self.fail(st)
        return [(st, self.new_fd(st, ins, 'sock')), (f, K(-1))]
    def m_bind(self, st, args, ins):
        k = self.live(st, args[0], ins, 'bind'); f = self.fail(st)
        n = st.norm(self.tolin(st, args[2], 32))
        if k is not None and not n.t and n.c == 2: st.mon[('bound', k)] = True
        return [(st, ZERO), (f, K(-1))]
    def m_getsockname(self, st, args, ins):
        k = self.live(st, args[0], ins, 'getsockname'); f = self.fail(st)
        p = args[1]
        self.check_bounds(st, p, K(8), ins, 'write')
        self.mem_kill(st, p.obj, p.off, 8)
        self.mem_put(st, p.obj, p.off, 2, K(1)); self.mem_put(st, p.obj, p.off + 2, 1, ZERO)
        for j in range(5): self.mem_put(st, p.obj, p.off + 3 + j, 1, self.OWN[1 + j] if k is not None and st.mon.get(('bound', k)) else self.fresh('nm', 8))
        q = args[2]
        self.mem_store(st, q.obj, q.off, 4, K(8))
        return [(st, ZERO), (f, K(-1))]
    def m_setsockopt(self, st, args, ins): return [(st, ZERO), (self.fail(st), K(-1))]
    def m_fcntl(self, st, args, ins): return [(st, ZERO), (self.fail(st), K(-1))]
    def m_connect(self, st, args, ins):
        k = self.live(st, args[0], ins, 'connect')
        f = self.fail(st, ECONNREFUSED)
        p = args[1]; n = st.norm(self.tolin(st, args[2], 32))
        by = [self.mem_load(st, p.obj, p.off + j, 1, False) for j in range(2, 8)]
        ok = not n.t and n.c == 8 and isinstance(by[0], Lin) and st.is_eq(by[0])
        who = 'x'
        if ok and self.same_bytes(st, by[1:], self.OWN[1:6]): who = 'own'
        elif ok and self.same_bytes(st, by[1:], self.tname(st)[1:6]): who = 'T'
        if k is not None: st.mon[('conn', k)] = who
        return [(st, ZERO), (f, K(-1))]
    def nonblock(self, st, fl, ins, what):
        fl = st.norm(self.tolin(st, fl, 32))
        self.oblige('C23' if what.startswith('send') else ('C09', 'C11'), not fl.t and bool(fl.c & MSG_DONTWAIT), st, ins, '%s never blocks' % what)
        if self.api in self.LOCKED:
            self.oblige('C02', not fl.t and bool(fl.c & MSG_DONTWAIT), st, ins, 'no call that can block is made while the ring lock is held (%s)' % what)
    def m_other(self, st, args, ins):
        self.oblige(('C02', 'C23') if self.api in self.LOCKED else ('C09',), False, st, ins, 'no call that can block is made by a wake-up call')
        return self.external(st, 'other', args, ins)
    def sent(self, st, fd, ins, nbytes):
        k = self.live(st, fd, ins, 'wake-up')
        self.oblige('C23', nbytes, st, ins, 'a wake-up carries a byte')
        v = st.norm(self.tolin(st, fd, 32))
        fk = self.fdk(st)
        foc = fk is not None and st.is_eq(fk - v)
        out = []
        for e in (None, EAGAIN, ECONNREFUSED, EIO):
            s = st.copy()
            if foc: s.mon['sent'] = True
            slf = k is not None and s.mon.get(('conn', k)) == 'own'
            if e is None:
                if slf: s.mon['selfsent'] = True
                out.append((s, K(1))); continue
            self.set_errno(s, K(e))
            if slf: s.mon['fail'] = True
            if foc and e != EAGAIN: s.mon['deadaddr'] = True
            out.append((s, K(-1)))
        return out
    def fdk(self, st):
        if self.W is None: return None
        x = self.mem_load(st, self.W, K(self.wf['fd'][0] + 4 * self.k), 4, False)
        return st.norm(x) if isinstance(x, Lin) else None
    def m_sendmsg(self, st, args, ins):
        self.nonblock(st, args[2], ins, 'sendmsg')
        h = args[1]; ok = False
        if isinstance(h, Ptr) and h.obj is not None:
            v = self.mem_load(st, h.obj, h.off + 16, 8, True); n = self.mem_load(st, h.obj, h.off + 24, 8, False)
            if isinstance(v, Ptr) and v.obj is not None and isinstance(n, Lin) and st.entails(n - 1):
                l = self.mem_load(st, v.obj, v.off + 8, 8, False)
                ok = isinstance(l, Lin) and st.entails(l - 1)
        return self.sent(st, args[0], ins, ok)
    def m_send(self, st, args, ins):
        self.nonblock(st, args[3], ins, 'send')
        return self.sent(st, args[0], ins, lambda: st.entails(self.tolin(st, args[2], 64) - 1))
    m_sendto = m_send
    def received(self, st, fd, ins, multi):
        k = self.live(st, fd, ins, 'receive')
        v = st.norm(self.tolin(st, fd, 32))
        own = self.lfd is not None and st.is_eq(v - self.lfd)
        out = []
        if multi is not False:
            s = st.copy(); s.mon.pop('empty', None); out.append((s, multi))
            s = st.copy()
            if s.add_ge(multi - 1 - S(self.nrecv)):
                if own: s.mon['empty'] = True
                out.append((s, S(self.nrecv)))
        else: s = st.copy(); out.append((s, S(self.nrecv)))
        s = self.fail(st, EAGAIN)
        if own: s.mon['empty'] = True
        out.append((s, K(-1)))
        s = self.fail(st, EIO); s.mon['recvfail'] = True; out.append((s, K(-1)))
        return out
    def m_recvmsg(self, st, args, ins):
        self.nonblock(st, args[2], ins, 'recvmsg'); return self.received(st, args[0], ins, False)
    def m_recv(self, st, args, ins):
        self.nonblock(st, args[3], ins, 'recv')
        self.check_bounds(st, args[1], self.tolin(st, args[2], 64), ins, 'write')
        return self.received(st, args[0], ins, False)
    m_recvfrom = m_recv
    def m_recvmmsg(self, st, args, ins):
        self.nonblock(st, args[3], ins, 'recvmmsg')
        p = args[1]
        if isinstance(p, Ptr) and p.obj is not None:
            self.check_bounds(st, p, self.tolin(st, args[2], 32).scale(64), ins, 'write')
        return self.received(st, args[0], ins, self.tolin(st, args[2], 32))
    def m_ioctl(self, st, args, ins):
        self.live(st, args[0], ins, 'ioctl')
        f = self.fail(st)
        c = st.norm(self.tolin(st, args[1], 64))
        if not c.t and c.c == 0x541B and self.lfd is not None and st.is_eq(self.tolin(st, args[0], 32) - self.lfd):
            self.mem_store(st, args[2].obj, args[2].off, 4, self.have)
        else: self.mem_store(st, args[2].obj, args[2].off, 4, self.fresh('ioctl', 32))
        return [(st, ZERO), (f, K(-1))]
    def m_epoll_create(self, st, args, ins):
        f = self.fail(st); return [(st, self.new_fd(st, ins, 'epoll')), (f, K(-1))]
    m_epoll_create1 = m_epoll_create
    def m_epoll_ctl(self, st, args, ins):
        ep = self.live(st, args[0], ins, 'epoll_ctl')
        op = st.norm(self.tolin(st, args[1], 32)); fd = st.norm(self.tolin(st, args[2], 32)); ev = args[3]
        f = self.fail(st); f.mon['ctlfail'] = True
        self.oblige('C09', not op.t and op.c == 1, st, ins, 'descriptors are only added to the wait set')
        ok = False
        if isinstance(ev, Ptr) and ev.obj is not None:
            e = self.mem_load(st, ev.obj, ev.off, 4, False); d = self.mem_load(st, ev.obj, ev.off + 4, 4, False)
            e = st.norm(self.tolin(st, e, 32)) if isinstance(e, (Lin, Bits)) else None
            ok = e is not None and not e.t and e.c & 1 and not e.c & 0xe0000000 and isinstance(d, Lin) and st.is_eq(d - fd)
        self.oblige('C09', ok, st, ins, 'a descriptor is watched for readability and identified by its number')
        st.mon['watched'] = st.mon.get('watched', 0) + 1
        for nm, x in (('listen', self.lfd_now(st)), ('poll', self.pollfd)):
            if x is not None and st.is_eq(x - fd) and not op.t and op.c == 1: st.mon['watch_' + nm] = True
        return [(st, ZERO), (f, K(-1))]
    def lfd_now(self, st):
        if self.W is None: return None
        x = self.mem_load(st, self.W, K(self.wf['listenfd'][0]), 4, False)
        return st.norm(x) if isinstance(x, Lin) else None
    def m_epoll_wait(self, st, args, ins):
        self.live(st, args[0], ins, 'epoll_wait')
        if self.api in self.LOCKED: self.oblige('C02', False, st, ins, 'no call that can block is made while the ring lock is held (epoll_wait)')
        mx = st.norm(self.tolin(st, args[2], 32)); to = st.norm(self.tolin(st, args[3], 32))
        if mx.t: raise AnalysisError('event count unknown')
        self.check_bounds(st, args[1], K(12 * mx.c), ins, 'write')
        out = []
        def put(s, i, fd):
            self.mem_kill(s, args[1].obj, args[1].off + 12 * i, 12)
            self.mem_put(s, args[1].obj, args[1].off + 12 * i, 4, K(1)); self.mem_put(s, args[1].obj, args[1].off + 12 * i + 4, 4, fd)
        for evs in ((self.lfd,), (self.pollfd,)) + (((self.lfd, self.pollfd), (self.pollfd, self.lfd)) if mx.c > 1 else ()):
            s = st.copy()
            for i, fd in enumerate(evs): put(s, i, fd)
            s.mon['ev'] = 'poll' if self.pollfd in evs else 'listen'
            out.append((s, K(len(evs))))
        if to.t or to.c >= 0:
            s = st.copy(); s.mon['ev'] = 'none'; out.append((s, ZERO))
        s = self.fail(st, EINTR); s.mon['ev'] = 'fail'; out.append((s, K(-1)))
        return out
    def m_getpid(self, st, args, ins): return [(st, self.PID)]
    # ------------------------------------------------------------ names
    def bytes_at(self, st, p, n):
        """n bytes at p if they can be read off, else None"""
        if not isinstance(p, Ptr) or p.obj is None: return None
        h = p.obj.handler
        out = []
        if isinstance(h, ArrH):
            w = h.where(self, st, p.off, K(n), None)
            if len(w) != 1: return None
            s, nm, i, r = w[0]
            if i != self.k:
                if not isinstance(h, TableH) or not isinstance(i, int): return None
                b = self.wr0 + self.esz * i
                if not any(b <= c < b + self.esz for c in st.m(p.obj).cells): return None
        for j in range(n):
            x = self.mem_load(st, p.obj, p.off + j, 1, False)
            if not isinstance(x, (Lin, Bits)): return None
            out.append(self.tolin(st, x, 8))
        return out
    def m_memcmp(self, st, args, ins):
        a, b, n = args
        n = st.norm(self.tolin(st, n, 64))
        for p in (a, b):
            if isinstance(p, Ptr) and p.obj is not None and isinstance(p.obj.handler, TableH): self.locked(st, ins)
            elif isinstance(p, Ptr) and p.obj is not None and p.obj.handler is None and p.obj.size is not None: self.check_bounds(st, p, n, ins, 'compare')
        if n.t or n.c > 64: return [(st, self.fresh('memcmp', 32))]
        x, y = self.bytes_at(st, a, n.c), self.bytes_at(st, b, n.c)
        if x is None or y is None: return [(st, ZERO), (st.copy(), K(1))]
        d = [st.norm(p - q) for p, q in zip(x, y)]
        if all(not q.t and not q.c for q in d): return [(st, ZERO)]
        if any(not q.t and q.c for q in d): return [(st, K(1))]
        e = st.copy(); ok = True
        for q in d: ok = ok and e.add_eq(q)
        f = st.copy()
        if st.mon.get('differ'): ok = ok and n.c < 6
        out = []
        if ok:
            if n.c >= 6 and st.mon.get('same') is None: e.mon['same'] = True
            out.append((e, ZERO))
        f.mon['differ'] = True
        out.append((f, K(1)))
        return out
    m_bcmp = m_memcmp
    m_strncmp = m_memcmp
    def m_strcmp(self, st, args, ins): return self.m_memcmp(st, list(args) + [K(self.nlen)], ins)
    def m_strlen(self, st, args, ins):
        p = args[0]
        if isinstance(p, Ptr) and p.obj is not None:
            h = p.obj.handler
            if isinstance(h, ArrH):
                for s, nm, i, r in h.where(self, st, p.off, K(1), ins):
                    if nm in ('wr', 'name'):
                        rel = r - (self.name0 if nm == 'wr' else 0)
                        return [(st, K(6 - rel))]
            else:
                out = []
                for j in range(16):
                    x = self.mem_load(st, p.obj, p.off + j, 1, False)
                    if not isinstance(x, (Lin, Bits)): break
                    x = st.norm(self.tolin(st, x, 8))
                    if not x.t and x.c == 0: return [(st, K(j))]
                    if not st.entails(x - 1) and not st.entails(-x - 1): break
        return [(st, sym('strlen', 0, 6))]
    def m_strnlen(self, st, args, ins): return self.m_strlen(st, args[:1], ins)
    def m_has_pid_socket(self, st, args, ins):
        p = self.tolin(st, args[0], 32)
        foc = st.is_eq(p - self.pidk(st))
        by = self.bytes_at(st, args[1], 6)
        out = []
        for r in (1, 0, -1):
            s = st.copy()
            if foc and by is not None and self.same_bytes(s, by, self.tname(s)):
                s.mon['asked'] = True
                if r == 0: s.mon['gone'] = True
            if r < 0: s.mon['fail'] = True
            out.append((s, K(r)))
        return out
    # ------------------------------------------------------------ heap
    def new_heap(self, st, ins, size, zero, name='heap'):
        o = Libc.new_heap(self, st, ins, size, zero, name)
        sz = st.norm(size)
        if self.api == 'bw_open' and not sz.t and sz.c == self.bwsize and self.W is None or o is self.W:
            self.W = o; o.handler = self.vh
            if not zero: self.mem_put(st, o, K(0), 1, self.fresh('junk', 8))
        return o
    # ------------------------------------------------------------ drivers
    def fresh_state(self, k, others):
        PARAMS.clear()
        self.k = k; self.others = others
        st = State(); st.mon = {}
        self.W = None; self.flags = 0
        self.SEQ = [newsym('seq%d' % i, 0, 1 << 30) for i in range(4)]
        self.PID = sym('pid', 1, 1 << 22)
        self.OWN = [K(64)] + [sym('own%d' % i, 48, 102) for i in range(5)] + [ZERO] * (self.nlen - 6)
        self.H = Obj('waiter table', 'data', K(self.hsize))
        th = TableH(self); th.regions = (('wr', self.wr0, self.esz * self.nslot, self.esz),)
        self.H.handler = th
        self.vh = ViewH(self); self.vh.regions = (('fd', self.wf['fd'][0], self.wf['fd'][1], 4), ('name', self.wf['name'][0], self.wf['name'][1], self.nlen))
        self.ofds = set()
        self.nrecv = newsym('nrecv', 1, 1024)
        m = st.mw(self.H)
        m.cells[0] = (4, S(self.SEQ[0]))
        self.pid_0 = sym('pidk', 0, 1 << 22)
        b = self.wr0 + self.esz * k
        m.cells[b + self.pid0] = (4, self.pid_0)
        self.T = [K(64)] + [sym('t%d' % i, 48, 102) for i in range(5)] + [ZERO] * (self.nlen - 6)
        for j in range(self.nlen): m.cells[b + self.name0 + j] = (1, self.T[j])
        self.lfd = self.pollfd = None
        self.have = sym('have', 0, 1 << 20)
        return st
    def slots(self): return (0, 5, self.nslot - 1)
    def make_w(self, st, flags):
        W = self.W = Obj('wake-up handle', 'heap', K(self.bwsize), handler=self.vh)
        m = st.mw(W); m.fills = ((ZERO, K(self.bwsize), None),)
        put = lambda f, v, sz=4: m.cells.__setitem__(self.wf[f][0], (sz, v))
        put('flags', K(flags)); put('h', Ptr(self.H), 8)
        for f in ('slotno', 'listenfd', 'selffd', 'epollfd'): put(f, K(-1))
        put('drain', NULL, 8)
        put('seqno', K(-1))
        st.mon[('res', 'heap', W.id)] = 'live'
        self.flags = flags
        put('fd', K(-1))
        m.cells.pop(self.wf['fd'][0])
        m.cells[self.wf['fd'][0] + 4 * self.k] = (4, K(-1))
        ib = self.wf['zero'][0] if flags & BW_WAKE else self.wf['discard'][0]
        io = self.wf['iov'][0]; hd = self.wf['hdr'][0]
        m.cells[io] = (8, Ptr(W, K(ib))); m.cells[io + 8] = (8, K(1 if flags & BW_WAKE else 8))
        m.cells[hd + 16] = (8, Ptr(W, K(io))); m.cells[hd + 24] = (8, K(1))
        return W
    def open_fd(self, st, key, v, conn=None):
        k = ('res', 'fd', key, 0)
        st.mon[k] = 'live'; st.g[('fd', k)] = v
        if conn: st.mon[('conn', k)] = conn
    def wait_w(self, st, slot):
        W = self.make_w(st, BW_WAIT)
        m = st.mw(W)
        for f, c in (('listenfd', None), ('selffd', 'own'), ('epollfd', None)):
            v = sym(f, 0, 1 << 20); m.cells[self.wf[f][0]] = (4, v); self.open_fd(st, f, v, c)
            if f == 'listenfd': self.lfd = v
        m.cells[self.wf['slotno'][0]] = (4, K(slot))
        st.mon['own'] = slot
        self.pollfd = sym('pollfd', 0, 1 << 20); st.add_ne(self.pollfd - self.lfd)
        return W
    def drv_bw_open(self):
        for k in self.slots():
            for fl, others in ((BW_WAKE, 'any'), (BW_WAIT, 'occ'), (BW_WAIT, 'free'), (0, 'any')):
                st = self.fresh_state(k, others); self.flags = fl
                self.FDO = Obj('fd out', 'data', K(4))
                yield 'slot %d,flags %d,others %s' % (k, fl, others), st, [K(fl), Ptr(self.H)] + ([Ptr(self.FDO)] if fl & BW_WAIT else [])
    def wake_entry(self, k):
        for c in ('free', 'known', 'closed', 'stale'):
            st = self.fresh_state(k, 'any')
            W = self.make_w(st, BW_WAKE); m = st.mw(W)
            fo = self.wf['fd'][0] + 4 * k; no = self.wf['name'][0] + self.nlen * k
            v = sym('fdk', 0, 1 << 20)
            m.cells[self.wf['seqno'][0]] = (4, S(self.SEQ[0]))
            if c == 'free': st.add_eq(self.pid_0)
            elif c == 'known':
                st.add_ge(self.pid_0 - 1)
                m.cells[fo] = (4, v); self.open_fd(st, 'fdk', v, 'T')
                for j in range(self.nlen): m.cells[no + j] = (1, self.T[j])
            else:
                ws = sym('wseq', -1, 1 << 30); st.add_ne(ws - S(self.SEQ[0]))
                m.cells[self.wf['seqno'][0]] = (4, ws)
                if c == 'stale':
                    m.cells[fo] = (4, v); self.open_fd(st, 'fdk', v, 'V')
                V = [K(64)] + [sym('v%d' % i, 48, 102) for i in range(5)] + [ZERO] * (self.nlen - 6)
                for j in range(self.nlen): m.cells[no + j] = (1, V[j])
            self.entry = c
            yield 'slot %d,%s' % (k, c), st, [Ptr(W)]
    def drv_bw_wake(self):
        for k in self.slots():
            for c in self.wake_entry(k): yield c
    def drv_bw_close(self):
        for k in self.slots():
            for c in self.wake_entry(k): yield c
            for slot in (k, (k + 7) % self.nslot):
                for dr in (0, 1):
                    st = self.fresh_state(k, 'any')
                    W = self.wait_w(st, slot)
                    if slot == k: st.add_ge(self.pid_0 - 1)
                    if dr:
                        o = Obj('drain block', 'heap', K(64 * 1024)); st.mw(o); st.mon[('res', 'heap', o.id)] = 'live'
                        st.mw(W).cells[self.wf['drain'][0]] = (8, Ptr(o))
                    self.entry = 'wait'
                    yield 'slot %d,wait in %d' % (k, slot), st, [Ptr(W)]
    def drv_bw_force(self):
        for dr in (0, 1):
            for want in (0, 1, 7):
                st = self.fresh_state(0, 'any'); W = self.wait_w(st, 0)
                if dr:
                    o = Obj('drain block', 'heap', K(64 * 1024)); m = st.mw(o); m.fills = ((ZERO, K(65536), None),); st.mon[('res', 'heap', o.id)] = 'live'
                    st.mw(W).cells[self.wf['drain'][0]] = (8, Ptr(o))
                self.want = want
                yield 'want %d' % want, st, [Ptr(W), K(want)]
    def drv_bw_wait_ul(self):
        st = self.fresh_state(0, 'any'); W = self.wait_w(st, 0)
        yield 'wait', st, [Ptr(W)]
    drv_bw_ready_ul = drv_bw_wait_ul
    def drv_bw_ctl(self):
        for known in (1, 0):
            st = self.fresh_state(0, 'any'); W = self.wait_w(st, 0)
            fl = K(BW_POLLFD)
            if not known: fl = sym('flag', -(1 << 31), (1 << 31) - 1); st.add_ne(fl - BW_POLLFD)
            self.known = known
            yield 'known %d' % known, st, [Ptr(W), fl, self.pollfd]
    # ------------------------------------------------------------ results
    def run_api(self):
        n = 0
        for name, st, args in getattr(self, 'drv_' + self.api)():
            self.case = name
            for s, v in self.run(self.api, args, st):
                n += 1
                self.exit_common(s)
                getattr(self, 'exit_' + self.api)(s, v, s.norm(v) if isinstance(v, Lin) else None)
        return n
    def xob(self, st, prop, ok, msg):
        f = self.mod.func(self.api)
        self.stack.append((self.api, '-'))
        self.oblige(prop, ok, st, {'l': (f.d.get('file') or self.api, f.d.get('line') or 0)}, 'at return of %s: %s' % (self.api, msg))
        self.stack.pop()
    def exit_common(self, st):
        self.xob(st, 'C22', not st.mon.get('changed') or bool(st.mon.get('bump')), 'every change of the table changes its version')
    def sure(self, st, prop, bad):
        self.xob(st, prop, not bad or bool(st.mon.get('fail')), 'it fails only if something failed')
    def wget(self, st, f, sz=4, ptr=False): return self.mem_load(st, self.W, K(self.wf[f][0]), sz, ptr)
    def view_ok(self, st, prop):
        """the waker's view of slot K agrees with the table, if it claims to be current"""
        x = self.xob
        ws = self.tolin(st, self.wget(st, 'seqno'), 32); hs = self.tolin(st, self.mem_load(st, self.H, ZERO, 4, False), 32)
        fk = self.fdk(st)
        if not (st.feasible_with(ws - hs) and st.feasible_with(hs - ws) and not self.never_eq(st, ws - hs)): return
        p = self.pidk(st)
        key = self.find_fd(st, fk)
        if st.is_eq(p): x(st, prop, lambda: st.is_eq(fk + 1), 'a waker is disconnected from a slot that was left')
        elif st.entails(p - 1):
            x(st, prop, lambda: key is not None and st.mon.get(key) == 'live' and (st.mon.get(('conn', key)) == 'T' or st.mon.get(('conn', key)) == 'V' and self.same_bytes(st, self.vname(st, self.W), self.tname(st))), 'a waker is connected to every registered waiter at its recorded address')
            x(st, prop, lambda: self.same_bytes(st, self.vname(st, self.W)[:6], self.tname(st)[:6]), 'a waker remembers the address it is connected to')
        else: x(st, prop, False, 'a waker has looked at every slot before it takes its view for current')
    def never_eq(self, st, d):
        s = st.copy(); return not s.add_eq(d)
    def exit_bw_open(self, st, v, r):
        x = self.xob
        ok = isinstance(v, Ptr) and v.obj is not None
        occ = st.entails(self.pid_0 - 1)
        if occ and self.flags and not st.mon.get('fail'):
            x(st, 'C22', bool(st.mon.get('asked')), 'an open looks whether each registered waiter still exists')
            x(st, 'C22', not st.mon.get('gone') or bool(st.mon.get('purged')), 'an open purges the registration of a waiter that is gone')
        full = self.others == 'occ' and self.flags & BW_WAIT and (st.entails(self.pidk(st) - 1))
        if self.flags and not full: self.sure(st, 'C22', not ok)
        if not ok:
            for k in self.leaks(st): x(st, ('C19',), False, 'a failed open releases its %s|%r' % ('memory' if k[1] == 'heap' else 'descriptors', k))
            x(st, 'C19', True, 'a failed open releases everything')
            x(st, ('C22', 'C19'), not st.mon.get('reg') or bool(st.mon.get('released')), 'a failed open leaves no registration')
            return
        W = self.W
        x(st, ('C19', 'C22'), v.obj is W and st.mon.get(('res', 'heap', W.id)) == 'live', 'the handle returned is live')
        if v.obj is not W: return
        fl = st.norm(self.tolin(st, self.wget(st, 'flags'), 32))
        x(st, ('C22', 'C23'), not fl.t and (fl.c & (BW_WAKE | BW_WAIT)) == (self.flags & (BW_WAKE | BW_WAIT)) and fl.c & (BW_WAKE | BW_WAIT) in (BW_WAKE, BW_WAIT), 'a handle has exactly one mode')
        h = self.wget(st, 'h', 8, True)
        x(st, ('C22', 'C23'), isinstance(h, Ptr) and h.obj is self.H and st.is_eq(h.off), 'the handle refers to its table')
        g = lambda f: self.tolin(st, self.wget(st, f), 32)
        held = set()
        for f in ('listenfd', 'selffd', 'epollfd'):
            k = self.find_fd(st, g(f)) if isinstance(self.wget(st, f), Lin) else None
            if k is not None: held.add(k)
        fk = self.fdk(st); kk = self.find_fd(st, fk) if fk is not None else None
        if kk is not None: held.add(kk)
        for k in self.leaks(st):
            x(st, 'C19', k in held or k[1] == 'heap' and k[2] == W.id, 'everything an open acquired is held by the handle|%r' % (k,))
        for k in held: x(st, 'C19', st.mon.get(k) == 'live', 'descriptors held by a handle are open')
        if self.flags & BW_WAKE:
            self.view_ok(st, 'C23')
            d = self.wget(st, 'hdr') if False else None
            hd = self.wf['hdr'][0]
            mi = self.mem_load(st, W, K(hd + 16), 8, True); mn = self.mem_load(st, W, K(hd + 24), 8, False)
            good = isinstance(mi, Ptr) and mi.obj is W and isinstance(mn, Lin) and st.is_eq(mn - 1)
            if good:
                il = self.mem_load(st, W, mi.off + 8, 8, False); ib = self.mem_load(st, W, mi.off, 8, True)
                good = isinstance(il, Lin) and st.is_eq(il - 1) and isinstance(ib, Ptr) and ib.obj is W
            x(st, 'C23', good, 'the wake-up message of a waker has one byte')
            x(st, 'C22', 'own' not in st.mon, 'a waker takes no slot')
        else:
            x(st, ('C22', 'C10'), bool(st.mon.get('reg')) and not st.mon.get('released'), 'a waiting handle is registered before it is returned')
            own = st.mon.get('own')
            x(st, 'C22', lambda: own is not None and own != 'other' and st.is_eq(g('slotno') - own), 'the handle records its slot')
            lk = self.find_fd(st, g('listenfd'))
            x(st, ('C22', 'C10'), lk is not None and bool(st.mon.get(('bound', lk))), 'the registered address is that of the handle')
            fo = self.mem_load(st, self.FDO, ZERO, 4, False)
            x(st, 'C11', lambda: isinstance(fo, Lin) and st.is_eq(fo - g('listenfd')), 'the pollable descriptor given out is the one that is woken')
            sk = self.find_fd(st, g('selffd'))
            x(st, 'C11', sk is not None and st.mon.get(('conn', sk)) == 'own', 'a waiting handle can set its own descriptor readable')
            x(st, 'C09', bool(st.mon.get('watch_listen')) and st.mon.get('watched') == 1, 'a waiting handle watches its wake-up channel')
        if occ and st.mon.get('own') == self.k and not st.mon.get('purged'): x(st, 'C22', False, 'an occupied slot is left alone')
    def exit_bw_wake(self, st, v, r):
        x = self.xob
        x(st, 'C19', st.mon.get(('res', 'heap', self.W.id)) == 'live', 'waking keeps the handle')
        fk = self.fdk(st); key = self.find_fd(st, fk) if fk is not None else None
        x(st, ('C19', 'C23'), lambda: fk is not None and (st.is_eq(fk + 1) or key is not None and st.mon.get(key) == 'live'), 'a waker refers only to open descriptors')
        for k in self.leaks(st):
            if k[1] == 'fd': x(st, 'C19', k == key, 'every descriptor a waker opened is recorded|%r' % (k,))
        self.view_ok(st, 'C23')
        self.sure(st, 'C23', r is None or not st.entails(r))
        if r is None or not st.entails(-r - 1):
            p = self.pidk(st)
            x(st, ('C23', 'C10'), lambda: st.is_eq(p) or bool(st.mon.get('sent')), 'every registered waiter was signalled')
            x(st, 'C23', lambda: st.is_eq(fk + 1) or bool(st.mon.get('sent')), 'every connected waiter was signalled')
    def exit_bw_close(self, st, v, r):
        x = self.xob
        for k in self.leaks(st): x(st, 'C19', False, 'closing releases the %s of the handle|%r' % ('memory' if k[1] == 'heap' else 'descriptors', k))
        x(st, 'C19', True, 'closing releases everything')
        if self.entry == 'wait':
            x(st, ('C19', 'C22'), bool(st.mon.get('released')), 'closing a waiting handle leaves its slot')
            x(st, 'C22', lambda: st.mon.get('own') == self.k or not st.mon.get('purged'), 'closing leaves other registrations alone')
        else: x(st, 'C22', not st.mon.get('changed'), 'closing a waker leaves the table alone')
    def exit_bw_force(self, st, v, r):
        x = self.xob
        self.sure(st, 'C11', not st.entails(r))
        if st.is_eq(r):
            if self.want: x(st, 'C11', lambda: st.entails(self.have - 1) or bool(st.mon.get('selfsent')), 'the descriptor is readable after it was forced readable')
            else: x(st, 'C11', lambda: st.is_eq(self.have) or bool(st.mon.get('empty')), 'the descriptor is drained after it was forced clear')
        else: x(st, 'C11', lambda: st.entails(-r - 1), 'the result is 0 or an error')
        if self.want: x(st, 'C11', not st.mon.get('empty') , 'wake-ups are kept when the descriptor should be readable')
        else: x(st, 'C11', not st.mon.get('selfsent'), 'no wake-up is added when the descriptor should be clear')
        dr = self.wget(st, 'drain', 8, True)
        for k in self.leaks(st):
            if k[1] == 'heap' and k[2] != self.W.id: x(st, 'C19', isinstance(dr, Ptr) and dr.obj is not None and dr.obj.id == k[2], 'blocks a handle allocated are recorded in it')
    def exit_bw_wait_ul(self, st, v, r):
        x = self.xob; e = st.mon.get('ev')
        x(st, 'C09', e is not None, 'the wait is entered')
        if e == 'poll': x(st, 'C09', lambda: st.is_eq(r + 3), 'a ready caller descriptor gives -3|%r' % r)
        elif e == 'fail': x(st, 'C09', lambda: st.is_eq(r + 1), 'a failed wait gives -1|%r' % r)
        elif e == 'listen': x(st, 'C09', lambda: st.is_eq(r + 1) if st.mon.get('recvfail') else st.is_eq(r), 'a wake-up gives 0|%r' % r)
    def exit_bw_ready_ul(self, st, v, r):
        self.xob(st, 'C09', lambda: st.entails(-r - 1) if st.mon.get('recvfail') else st.is_eq(r), 'a failed receive is reported, and a spurious wake-up is not an error')
    def exit_bw_ctl(self, st, v, r):
        x = self.xob
        if not self.known: x(st, 'C09', lambda: st.entails(-r - 1) and not st.mon.get('watched'), 'an unknown request is refused')
        elif st.mon.get('ctlfail'): x(st, 'C09', lambda: st.entails(-r - 1), 'a failed registration is reported')
        else: x(st, 'C09', lambda: st.is_eq(r) and bool(st.mon.get('watch_poll')), 'the caller descriptor is added to the wait set')
