"""shr_init and shr_open: creation of a ring file, opening of an untrusted one."""
from core import *
from shrmodel import *
from shrapi import ShrApi
from libc import Libc, sym

O_ACC, O_CREAT, O_EXCL, O_TRUNC = 3, 0o100, 0o200, 0o1000
EINVAL = 22
BADMAP = -1

class FileH(Handler):
    """mapped ring file during shr_init / shr_open"""
    def __init__(self, M): self.M = M
    def area(self, st, off, size):
        """'hdr' with a constant offset, 'app', or 'bad'"""
        M = self.M
        off = st.norm(off)
        if not off.t and not st.norm(size).t and 0 <= off.c and off.c + st.norm(size).c <= M.hdr: return 'hdr', off.c
        return 'other', off
    def load(self, I, st, o, off, size, isptr, ins):
        M = self.M
        k, x = self.area(st, off, K(size))
        M.interpret(st, o, off, K(size), ins)
        if k == 'hdr':
            f = M.field_at(x, size)
            if f not in M.immutable and f is not None: M.need(st, ins, 'read')
            return [(st, I.mem_load(st, o, off, size, isptr))]
        M.need(st, ins, 'read')
        return [(st, I.fresh('ringbyte', 8 * size))]
    def store(self, I, st, o, off, size, v, ins):
        M = self.M
        M.need(st, ins, 'write'); M.interpret(st, o, off, K(size), ins)
        M.written(st, o, off, K(size), ins)
        if self.area(st, off, K(size))[0] == 'hdr': I.mem_store(st, o, off, size, v)
        return [st]
    def copy_from(self, I, st, d, s, ln, ins):
        M = self.M
        M.interpret(st, s.obj, s.off, ln, ins)
        M.need(st, ins, 'read')
        if self.area(st, s.off, ln)[0] == 'hdr': return None
        I.check_bounds(st, d, ln, ins, 'write')
        I.mem_kill(st, d.obj, d.off, ln); I.fill_unknown(st, d, ln)
        return [st]
    def copy_to(self, I, st, d, s, ln, ins):
        M = self.M
        M.need(st, ins, 'write'); M.interpret(st, d.obj, d.off, ln, ins)
        I.check_bounds(st, s, ln, ins, 'read')
        M.written(st, d.obj, d.off, ln, ins)
        if self.area(st, d.off, ln)[0] == 'hdr': I.raw_copy(st, d, s, ln)
        else: M.area_copy(st, d, s, ln, ins)
        return [st]
    def memset(self, I, st, d, b, ln, ins):
        M = self.M
        M.need(st, ins, 'write'); M.interpret(st, d.obj, d.off, ln, ins)
        M.written(st, d.obj, d.off, ln, ins)
        k, x = self.area(st, d.off, ln)
        bb = st.norm(b)
        if k == 'hdr':
            I.mem_kill(st, d.obj, K(x), st.norm(ln).c)
            m = st.mw(d.obj)
            m.fills = m.fills + ((K(x), K(x + st.norm(ln).c), bb.c & 255 if not bb.t else None),)
        elif not bb.t and bb.c == 0 and st.mon.get('pristine') and st.entails(d.off): pass
        else: M.area_copy(st, d, None, ln, ins)
        return [st]

class OpenApi(ShrApi):
    VA_PROPS = ('C17', 'C28')
    def __init__(self, mod, api):
        ShrApi.__init__(self, mod, api)
        self.W2R = self.R2W = None
        self.buffered = False; self.counts = {}; self.src_arr = None; self.pollfd = None
        g = mod.globals.get('magic', {})
        self.magic = bytes(g['bytes']) if 'bytes' in g else None
    def install_models(self):
        ShrApi.install_models(self)
        for n in ('open', 'open64', 'openat', 'fstat', 'fstat64', 'stat', 'stat64', 'mmap', 'mmap64', 'mlock', 'ftruncate', 'ftruncate64', 'access', 'unlink', 'memcmp', 'bcmp', 'strncmp', 'strcmp', 'rename', 'truncate', 'link'):
            self.models[n] = getattr(self, 'm_' + n, None) or getattr(self, 'm_' + n.replace('64', ''))
    def memprop(self, o, what):
        if what == 'dead': return 'C19' if self.api == 'shr_open' else 'C16'
        return 'C18' if self.api == 'shr_open' else 'C17'
    def assert_prop(self, st): return ('C18',) if self.api == 'shr_open' else ('C17',)
    @property
    def PROP_RES(self): return 'C19' if self.api == 'shr_open' else 'C16'
    # ------------------------------------------------------------ mapped file
    def need(self, st, ins, what):
        self.oblige('C01', st.mon.get('lock') == 1, st, ins, '%s of ring content while the ring lock is held' % what)
    def interpret(self, st, o, off, size, ins):
        """the accessed bytes exist in the file"""
        pr = 'C18' if self.api == 'shr_open' else 'C17'
        lim = self.stsize if self.api == 'shr_open' else o.size
        self.oblige(pr, lambda: st.entails(off) and st.entails(lim - off - size), st, ins,
                    'file content is used only after the file is known to be large enough|offset %r size %r' % (st.norm(off), st.norm(size)))
    def written(self, st, o, off, size, ins):
        st.mon['dirty'] = True
        if self.api == 'shr_open':
            st.mon['changed'] = True
            if st.mon.get('unsync') is None: st.mon['unsync'] = True
    def area_copy(self, st, d, s, ln, ins):
        if self.api == 'shr_open':
            self.oblige('C18', False, st, ins, 'opening does not change ring data'); return
        st.mon['pristine'] = False
        base = self.appoff(st, d.obj)
        ok = s is not None and s.obj is self.APP and st.is_eq(s.off) and base is not None and st.is_eq(d.off - base) and st.is_eq(ln - self.appsz)
        self.oblige('C17', ok, st, ins, 'only the given application data is stored, after the message table|at %r length %r' % (st.norm(d.off), st.norm(ln)))
        if ok: st.mon['appstored'] = True
    def appoff(self, st, o):
        v = []
        for f in ('n', 'pad_len', 'mv_len'):
            x = self.mem_load(st, o, K(self.scalars[f][0]), self.scalars[f][1], False)
            if not isinstance(x, Lin): return None
            v.append(x)
        return v[0] + v[1] + v[2] + self.hdr
    # ------------------------------------------------------------ system calls
    def path_ok(self, p): return isinstance(p, Ptr) and p.obj is self.PATH and not p.off.t and p.off.c == 0
    def m_openat(self, st, args, ins): return self.m_open(st, args[1:], ins)
    def m_open(self, st, args, ins):
        fl = st.norm(self.tolin(st, args[1], 32))
        if not self.path_ok(args[0]):
            f = self.fd_fail(st, ins); v = self.new_fd(st, ins, 'other')
            return [(st, v), (f, K(-1))]
        if fl.t: raise AnalysisError('open flags unknown at ' + self.loc(ins))
        init = self.api == 'shr_init'
        f = self.fd_fail(st, ins)
        if init:
            self.oblige('C16', bool(fl.c & O_CREAT and fl.c & O_EXCL), st, ins, 'the ring file is created exclusively')
            self.oblige('C16', not fl.c & O_TRUNC or bool(fl.c & O_EXCL), st, ins, 'no existing file is truncated')
            self.oblige('C17', (fl.c & O_ACC) == 2, st, ins, 'the ring file is opened for reading and writing')
            self.oblige('C16', not (st.mon.get('exists') == 1 and self.keep), st, ins, 'an existing file is left alone when asked to')
            st.mon['created'] = 'live'
        else:
            self.oblige('C18', not fl.c & (O_CREAT | O_TRUNC), st, ins, 'opening neither creates nor truncates a file')
            self.oblige('C18', (fl.c & O_ACC) == 2, st, ins, 'the ring file is opened for reading and writing')
        v = self.new_fd(st, ins, 'ring')
        if 'ringfd' not in st.g: st.g['ringfd'] = v
        return [(st, v), (f, K(-1))]
    def is_ringfd(self, st, v):
        r = st.g.get('ringfd')
        return r is not None and st.is_eq(self.tolin(st, v, 32) - r)
    def m_fstat(self, st, args, ins):
        ok = self.is_ringfd(st, args[0])
        return self.stat_to(st, args[1], ins, ok)
    def m_stat(self, st, args, ins):
        if not self.path_ok(args[0]): return self.external(st, 'stat', args, ins)
        return self.stat_to(st, args[1], ins, False)
    def stat_to(self, st, p, ins, ok):
        f = self.fd_fail(st, ins)
        t = self.mod.find_struct('stat')
        o = self.mod.fields(t)['st_size'][0]
        self.check_bounds(st, p, K(t['size']), ins, 'write')
        self.mem_kill(st, p.obj, p.off, t['size'])
        for nm, (fo, fs, k) in self.mod.fields(t).items():
            if k in ('struct', 'array') or fs not in (1, 2, 4, 8): continue
            self.mem_put(st, p.obj, p.off + fo, fs, self.stsize if nm == 'st_size' and ok else self.fresh(nm, 8 * fs))
        return [(st, ZERO), (f, K(-1))]
    def m_access(self, st, args, ins):
        if not self.path_ok(args[0]): return [(st, self.fresh('access', 32))]
        md = st.norm(self.tolin(st, args[1], 32))
        self.oblige('C16', not md.t and md.c == 0, st, ins, 'existence is what is tested')
        f = st.copy(); self.set_errno(f); f.mon['exists'] = 0; f.mon.pop('anyfail', None)
        st.mon['exists'] = 1
        return [(st, ZERO), (f, K(-1))]
    def m_unlink(self, st, args, ins):
        if not self.path_ok(args[0]):
            self.oblige('C16', False, st, ins, 'only the ring file is removed'); return [(st, self.fresh('unlink', 32))]
        f = st.copy(); self.set_errno(f); f.mon['unlinkfail'] = True
        if st.mon.get('created') == 'live':
            st.mon['created'] = 'gone'; f.mon['created'] = 'gone'
        else:
            self.oblige('C16', self.api == 'shr_init' and not self.keep and not st.mon.get('createfail') and st.mon.get('created') is None, st, ins, 'no file is removed that this call did not create, except the one being replaced')
            st.mon['removed'] = True
        return [(st, ZERO), (f, K(-1))]
    def m_rename(self, st, args, ins):
        self.oblige('C16', False, st, ins, 'files are not renamed or truncated by path'); return [(st, self.fresh('rename', 32))]
    m_truncate = m_rename
    m_link = m_rename
    def m_ftruncate(self, st, args, ins):
        self.oblige('C16' if self.api == 'shr_init' else 'C18', self.api == 'shr_init' and self.is_ringfd(st, args[0]) and st.mon.get('created') == 'live', st, ins, 'only the new file is resized')
        out = []
        for s, l in self.uns(st, args[1], 64):
            s = s.copy()
            f = s.copy(); self.set_errno(f)
            s.g['filelen'] = l
            f.mon['truncfail'] = True
            out.extend([(s, ZERO), (f, K(-1))])
        return out
    def m_mmap(self, st, args, ins):
        out = []
        for st, ln in self.uns(st, args[1], 64):
            pr, fl, off = [st.norm(self.tolin(st, args[i], 64 if i == 5 else 32)) for i in (2, 3, 5)]
            p = 'C18' if self.api == 'shr_open' else 'C17'
            ring = self.is_ringfd(st, args[4])
            self.oblige(p, ring and not pr.t and pr.c & 3 == 3 and not fl.t and fl.c & 1 == 1 and not off.t and off.c == 0, st, ins, 'the whole ring file is mapped shared, for reading and writing')
            f = st.copy(); self.set_errno(f)
            s = st.copy()
            out.append((f, self.intptr(BADMAP)))
            if not s.add_ge(ln - 1): continue
            if self.api == 'shr_open':
                self.oblige('C18', lambda: s.is_eq(ln - self.stsize), s, ins, 'the mapping covers the whole file|%r' % s.norm(ln))
                o = self.R = Obj('ring', 'ring', None, handler=FileH(self))
                m = s.mw(o)
                for fn in self.immutable:
                    if fn in self.scalars:
                        fo, fs = self.scalars[fn]
                        v = S(self.gflags) if fn == 'gflags' else self.shared[fn]
                        m.cells[fo] = (fs, v)
                o.size = self.stsize
            else:
                o = self.R = Obj('ring', 'ring', None, handler=FileH(self))
                m = s.mw(o); m.fills = ((ZERO, K(self.hdr), 0),)
                o.size = s.norm(ln)
                s.mon['pristine'] = True
                fl = s.g.get('filelen')
                if fl is not None:
                    self.oblige('C17', lambda: s.entails(fl - ln), s, ins, 'the file is made large enough for its mapping|file %r mapping %r' % (s.norm(fl), s.norm(ln)))
                s.g['maplen'] = s.norm(ln)
            s.mon[('res', 'map', o.id)] = 'live'
            s.g[('maplen', o.id)] = s.norm(ln)
            s.mon['ringobj'] = o.id
            self.objs[o.id] = o
            out.append((s, Ptr(o)))
        return out
    def m_munmap(self, st, args, ins):
        p = args[0]
        ok = isinstance(p, Ptr) and p.obj is not None and st.mon.get(('res', 'map', p.obj.id)) == 'live' and st.is_eq(p.off)
        self.oblige(self.PROP_RES, ok, st, ins, 'unmapped region is mapped')
        if ok:
            self.oblige(self.PROP_RES, lambda: st.entails(self.tolin(st, args[1], 64) - st.g[('maplen', p.obj.id)]), st, ins, 'the whole mapping is released')
            st.mon[('res', 'map', p.obj.id)] = 'gone'
            st.mw(p.obj).dead = 'unmapped'
        return [(st, ZERO)]
    def m_mlock(self, st, args, ins):
        p = args[0]
        f = st.copy(); self.set_errno(f); f.mon['mlockfail'] = True
        ok = isinstance(p, Ptr) and p.obj is not None and p.obj.handler is not None and st.is_eq(p.off) and st.entails(self.tolin(st, args[1], 64) - self.stsize)
        self.oblige('C18', ok, st, ins, 'the whole mapping is locked into memory')
        if ok: st.mon['mlocked'] = True
        return [(st, ZERO), (f, K(-1))]
    def m_memcmp(self, st, args, ins):
        a, b, n = args
        ring = [p for p in (a, b) if isinstance(p, Ptr) and p.obj is not None and isinstance(p.obj.handler, FileH)]
        if not ring: return Libc.m_memcmp(self, st, args, ins)
        r = ring[0]; o = b if r is a else a
        ln = st.norm(self.tolin(st, n, 64))
        self.interpret(st, r.obj, r.off, ln, ins)
        self.need(st, ins, 'read')
        want = None
        if isinstance(o, Ptr) and o.obj is not None and not ln.t:
            c = [self.mem_load(st, o.obj, o.off + i, 1, False) for i in range(min(ln.c, 64))]
            c = [st.norm(x) if isinstance(x, Lin) else None for x in c]
            if all(x is not None and not x.t for x in c): want = bytes(x.c & 255 for x in c)
        f = st.copy()
        x = self.fresh('memcmp', 32)
        if not f.add_ne(x): return [(st, ZERO)]
        if st.is_eq(r.off) and want is not None and self.magic is not None and want[:len(self.magic)] == self.magic: st.mon['magic'] = True
        f.mon['badmagic'] = True
        return [(st, ZERO), (f, x)]
    m_bcmp = m_memcmp
    m_strncmp = m_memcmp
    def m_strcmp(self, st, args, ins):
        return self.m_memcmp(st, list(args) + [K(len(self.magic or b''))], ins)
    # ------------------------------------------------------------ lock
    def begin_section(self, st):
        s = st.copy()
        s.mon['lock'] = 1
        if self.api == 'shr_open':
            o = self.objs.get(s.mon.get('ringobj'))
            if o is not None:
                m = s.mw(o)
                for f in self.mut:
                    fo, fs = self.scalars[f]; m.cells[fo] = (fs, self.shared[f])
        return [s]
    def end_section(self, st, ins):
        if self.api == 'shr_open':
            kz, ko = st.kb.get(self.gflags, (0, 0))
            if st.mon.get('unsync') and not (kz & F['SYNC']) and not st.mon.get('failpath'): st.mon['closedunsync'] = True
        st.mon['lock'] = 0
    def m_fcntl(self, st, args, ins):
        if self.api == 'shr_init':
            # a created file is locked while it is filled
            pass
        return ShrApi.m_fcntl(self, st, args, ins)
    def closed_fd(self, st, k, ins):
        if self.is_ringfd(st, st.g[('fd', k)]) and st.mon.get('lock') == 1: self.end_section(st, ins)
    def m_msync(self, st, args, ins):
        p, ln, fl = args
        fl = st.norm(self.tolin(st, fl, 32))
        ok = isinstance(p, Ptr) and p.obj is not None and isinstance(p.obj.handler, FileH) and st.is_eq(p.off) and not fl.t and fl.c & 4 and not fl.c & 1
        self.oblige('C15', lambda: ok and st.entails(self.tolin(st, ln, 64) - self.stsize), st, ins, 'the flush is synchronous and covers the whole mapping')
        self.oblige('C15', bool(st.kb.get(self.gflags, (0, 0))[1] & F['SYNC']), st, ins, 'only synchronous rings are flushed')
        self.oblige('C15', st.mon.get('lock') == 1, st, ins, 'the flush happens inside the critical section')
        f = st.copy(); self.set_errno(f); f.mon['failpath'] = True; f.mon['syncfail'] = True
        st.mon.pop('unsync', None)
        return [(st, ZERO), (f, K(-1))]
    # ------------------------------------------------------------ wake-up handles (shr_open)
    def reader_side(self, st): return bool(self.oflags & F['RDONLY'])
    def m_bw_open(self, st, args, ins):
        self.bw_lock(st, ins, 'bw_open')
        fl = st.norm(self.tolin(st, args[0], 32)); h = args[1]; ch = None
        if isinstance(h, Ptr) and h.obj is not None and isinstance(h.obj.handler, FileH):
            o = st.norm(h.off)
            for f in ('w2r', 'r2w'):
                if not o.t and o.c == self.rf[f][0]: ch = f
        mode = None if fl.t else ('wait' if fl.c & BW_WAIT else 'wake')
        rd = self.reader_side(st)
        self.oblige(('C09', 'C10'), (ch, mode) in ((('w2r', 'wait'), ('r2w', 'wake')) if rd else (('r2w', 'wait'), ('w2r', 'wake'))), st, ins, 'wake-up handle is opened on the channel of its direction')
        self.oblige('C18', bool(st.mon.get('magic')), st, ins, 'no waiter is registered in a file that has not been checked')
        f = st.copy(); f.mon['anyfail'] = True
        if mode == 'wait':
            if len(args) > 2 and isinstance(args[2], Ptr) and args[2].obj is not None:
                fd = sym('waitfd', 0, 1 << 20)
                for s in (st, f): self.store1(s, args[2], 4, fd, ins)
                st.g['waitfd'] = fd
            else: self.oblige('C11', False, st, ins, 'the descriptor of the waiting side is recorded in the handle')
        ob = Obj('bw_%s_%s' % (ch, mode), 'bw', None, handler=OpaqueH(), bw=ch, bwmode=mode)
        self.objs[ob.id] = ob
        st.mon[('res', 'bw', ob.id)] = 'live'
        st.mon['unsync'] = True
        return [(st, Ptr(ob)), (f, NULL)]
    def store1(self, st, p, size, v, ins):
        self.check_bounds(st, p, K(size), ins, 'store')
        self.mem_store(st, p.obj, p.off, size, v)
    def m_bw_close(self, st, args, ins):
        r = ShrApi.m_bw_close(self, st, args, ins)
        return r
    # ------------------------------------------------------------ drivers
    def fresh_state(self):
        PARAMS.clear()
        st = State()
        self.objs = {}
        self.PATH = Obj('path', 'data', None, ro=True)
        st.mon = {'lock': 0}
        return st
    def drv_shr_open(self):
        combos = []
        for rw in (F['RDONLY'], F['WRONLY'], 0, F['RDONLY'] | F['WRONLY']):
            for x in (0, F['NONBLOCK'], F['BUFFERED'], F['NONBLOCK'] | F['BUFFERED']): combos.append(rw | x)
        for b in range(12): combos.append((F['RDONLY'] if b % 2 else F['WRONLY']) | 1 << b)
        for fl in combos:
            st = self.fresh_state()
            self.stsize = sym('st_size', 0, 1 << 62)
            self.gflags = newsym('gflags', 0, (1 << 32) - 1)
            self.shared = dict((f, sym(f, 0, (1 << 64) - 1)) for f in self.mut + ['n', 'mm', 'mv_len', 'pad_len', 'app_len'])
            self.oflags = fl; self.H = None
            yield 'flags=%#x' % fl, st, [Ptr(self.PATH), K(fl)]
    def drv_shr_init(self):
        for fl in range(128):
            yield self.init_case(fl, sym('data_sz', 1, (1 << 64) - 1))
        for fl in (F['FENCE'], F['RDONLY'], F['WRONLY'] | F['DROP'], F['NONBLOCK'], F['BUFFERED']):
            yield self.init_case(fl, sym('data_sz', 1, (1 << 64) - 1))
        for fl in (0, F['FARM'], F['KEEPEXIST']): yield self.init_case(fl, ZERO)
    def init_case(self, fl, dsz):
        st = self.fresh_state()
        self.oflags = fl; self.keep = bool(fl & F['KEEPEXIST']); self.dsz = dsz
        self.gflags = newsym('gflags', 0, (1 << 32) - 1)
        self.stsize = ZERO
        args = [Ptr(self.PATH), dsz, K(fl)]
        self.APP = None; self.appsz = ZERO; self.maxm = None
        if fl & F['APPDATA']:
            self.appsz = sym('appsize', 0, (1 << 64) - 1)
            self.APP = Obj('application data', 'data', self.appsz)
            args += [Ptr(self.APP), self.appsz]
        if fl & F['MAXMSGS']:
            self.maxm = sym('max_msgs', 0, (1 << 64) - 1)
            args += [self.maxm]
        return 'flags=%#x size=%s' % (fl, dsz), st, args
    # ------------------------------------------------------------ results
    def exit_shr_init(self, st, v, r):
        x = self.xob; fl = self.oflags
        leaks = self.leaks(st)
        x(st, 'C16', not leaks, 'creation releases every descriptor, mapping and block|%r' % (leaks,))
        x(st, 'C02', st.mon.get('lock') != 1, 'the ring lock is released')
        ok = st.is_eq(r)
        x(st, 'C17', lambda: ok or st.entails(-r - 1), 'the result is 0 or an error')
        bad = fl >= F['FENCE'] or st.is_eq(self.dsz)
        if bad:
            x(st, 'C17', lambda: st.entails(-r - 1), 'a zero size or an opening flag is refused')
            x(st, 'C16', st.mon.get('created') is None and not st.mon.get('removed'), 'a refused creation touches no file'); return
        if not ok:
            x(st, 'C16', st.mon.get('created') != 'live', 'a failed creation leaves no partial file')
            x(st, 'C16', bool(st.mon.get('anyfail')) or bool(self.unrep(st)), 'a creation fails only if something failed')
            x(st, 'C17', lambda: 'created' in st.mon or st.mon.get('exists') is not None or bool(self.unrep(st)), 'a representable request is not refused')
            return
        if st.mon.get('exists') == 1 and self.keep:
            x(st, 'C16', st.mon.get('created') is None and not st.mon.get('removed') and not st.mon.get('dirty'), 'an existing file is kept untouched'); return
        x(st, ('C16', 'C17'), st.mon.get('created') == 'live', 'a successful creation leaves the new file in place')
        o = self.objs.get(st.mon.get('ringobj'))
        if o is None or st.mon.get('created') != 'live': x(st, 'C17', False, 'the new ring is initialised'); return
        g = lambda f: st.norm(self.tolin(st, self.mem_load(st, o, K(self.scalars[f][0]), self.scalars[f][1], False), 64))
        x(st, 'C17', lambda: st.is_eq(g('n') - self.dsz), 'the data area has exactly the requested size')
        mm = g('mm')
        dflt = lambda: st.entails(self.dsz - (mm - 100).scale(100)) and st.entails((mm - 100).scale(100) + 99 - self.dsz)
        if self.maxm is None: x(st, 'C17', dflt, 'the message limit is one hundred plus a hundredth of the size|%r' % mm)
        else: x(st, 'C17', lambda: st.is_eq(mm - self.maxm) and st.entails(mm - 1) or st.is_eq(self.maxm) and dflt(), 'the message limit is the requested one|%r' % mm)
        x(st, 'C17', lambda: st.is_eq(g('mv_len') - mm.scale(16)), 'the message table has one slot per message|%r' % g('mv_len'))
        x(st, 'C17', lambda: st.is_eq(g('app_len') - self.appsz), 'the application area has the given size')
        pad = g('pad_len'); al = st.norm(pad + self.dsz + self.hdr)
        x(st, 'C17', lambda: st.entails(pad) and al.c % 8 == 0 and all(c % 8 == 0 for _, c in al.t), 'the message table is aligned|%r' % al)
        need = K(self.hdr) + self.dsz + pad + mm.scale(16) + self.appsz
        fl_ = st.g.get('filelen')
        x(st, 'C17', lambda: st.entails(o.size - need), 'the mapping holds all areas one after another|%r needs %r' % (o.size, st.norm(need)))
        x(st, 'C17', lambda: st.mon.get('truncfail') or fl_ is not None and st.entails(fl_ - need), 'the file holds all areas one after another')
        x(st, 'C17', lambda: st.entails(K((1 << 63) - 1) - need), 'a size whose total overflows is refused|%r' % st.norm(need))
        for f in self.mut: x(st, 'C17', lambda: st.is_eq(g(f)), 'positions and counters start at zero')
        for f in self.stats: x(st, 'C17', lambda: st.is_eq(g(f)), 'statistics start at zero')
        want = (F['DROP'] if fl & (F['DROP'] | F['FARM']) else 0) | (fl & (F['FARM'] | F['SYNC'] | F['MLOCK']))
        gf = g('gflags')
        mask = F['DROP'] | F['FARM'] | F['SYNC'] | F['MLOCK']
        x(st, ('C17', 'C28'), lambda: not gf.t and (gf.c & mask) == want, 'exactly the requested attributes are recorded|%r' % gf)
        mg = [self.mem_load(st, o, K(i), 1, False) for i in range(len(self.magic or b''))]
        mg = [st.norm(b) if isinstance(b, Lin) else None for b in mg]
        x(st, 'C17', lambda: bool(mg) and all(b is not None and not b.t for b in mg) and bytes(b.c & 255 for b in mg) == self.magic, 'the ring carries its signature')
        if self.APP is not None: x(st, 'C17', lambda: bool(st.mon.get('appstored')) or st.is_eq(self.appsz), 'the application data is stored')
    def unrep(self, st):
        """the request cannot be represented"""
        s = st.copy()
        mmx = self.maxm if self.maxm is not None and not s.is_eq(self.maxm) else K(0)
        return not (s.add_ge(K((1 << 62)) - self.dsz.scale(2) - mmx.scale(16) - self.appsz - 4096 - self.hdr) and self.feasible(s))
    def unusable(self, st):
        """the file cannot be a consistent ring"""
        s = st.copy(); q = self.shared
        for c in (q['n'] - 1, q['mm'] - 1, q['mv_len'] - q['mm'].scale(16), self.stsize - K(self.hdr) - q['n'] - q['pad_len'] - q['mv_len'] - q['app_len'],
                  q['n'] - 1 - q['i'], q['n'] - q['u'], q['mm'] - 1 - q['r'], q['mm'] - 1 - q['e'], q['mp'] - q['m'], q['mm'] - q['mp']):
            if not s.add_ge(c): return True
        return not self.feasible(s)
    def exit_shr_open(self, st, v, r):
        x = self.xob; fl = self.oflags
        rw = fl & (F['RDONLY'] | F['WRONLY'])
        okmode = rw in (F['RDONLY'], F['WRONLY']) and not fl & (F['FENCE'] - 1)
        null = not isinstance(v, Ptr) or v.obj is None
        x(st, 'C15', not st.mon.get('closedunsync') or null, 'a changed synchronous ring is flushed before unlocking')
        if null:
            lk = self.leaks(st)
            nm = {'heap': 'memory', 'map': 'mapping', 'fd': 'descriptor', 'bw': 'waiter registration'}
            for k in lk: x(st, 'C19', False, 'a failed open releases the %s|%r' % (nm[k[1]], k))
            x(st, 'C19', True, 'a failed open releases everything it acquired')
            x(st, 'C18', not st.mon.get('changed'), 'a failed open leaves the file unchanged')
            if okmode: x(st, 'C18', lambda: bool(st.mon.get('anyfail') or st.mon.get('failpath') or st.mon.get('badmagic')) or self.unusable(st), 'a usable ring is refused only if something failed')
            return
        x(st, 'C18', okmode, 'an open needs exactly one of read-only and write-only and no creation flag')
        x(st, ('C01', 'C18'), 'lockfail' not in st.mon, 'an open that could not lock fails')
        if not okmode: return
        self.H = v.obj
        h = lambda f: self.hget(st, f)
        hl = lambda f: st.norm(self.tolin(st, h(f), 64))
        num = lambda f: isinstance(h(f), (Lin, Bits))
        o = self.objs.get(st.mon.get('ringobj'))
        x(st, 'C18', o is not None and st.mon.get('magic') is True, 'the file carries the ring signature')
        if o is None: return
        q = self.shared
        E = st.entails
        x(st, 'C18', lambda: E(q['n'] - 1), 'the data area is not empty')
        need = K(self.hdr) + q['n'] + q['pad_len'] + q['mv_len'] + q['app_len']
        x(st, 'C18', lambda: E(self.stsize - need), 'the file is at least as large as its recorded areas|%r' % st.norm(need))
        x(st, 'C18', lambda: E(q['mv_len'] - q['mm'].scale(16)), 'the message table holds the recorded number of messages')
        x(st, 'C18', lambda: E(q['n'] - 1 - q['i']) and E(q['n'] - q['u']), 'write position and unread bytes are in range')
        x(st, 'C18', lambda: E(q['mm'] - 1 - q['r']) and E(q['mm'] - 1 - q['e']), 'slots of the next and of the oldest message are in range')
        x(st, 'C18', lambda: E(q['mp'] - q['m']) and E(q['mm'] - q['mp']), 'message counters are in range')
        kz, ko = st.kb.get(self.gflags, (0, 0))
        x(st, 'C18', bool(kz & F['MLOCK']) or bool(st.mon.get('mlocked')) and not st.mon.get('mlockfail'), 'a memory-locked ring is locked before the open succeeds')
        # the handle
        x(st, ('C18', 'C05'), lambda: num('n') and num('mm') and st.is_eq(hl('n') - q['n']) and st.is_eq(hl('mm') - q['mm']), 'the handle records the ring size and message limit')
        x(st, 'C12', lambda: st.is_eq(hl('q') - q['q']) and st.is_eq(hl('md')), 'a new reader starts at the oldest message with nothing lost')
        x(st, ('C18', 'C08'), lambda: st.is_eq(hl('flags') - fl), 'the handle records the requested modes')
        x(st, 'C18', lambda: isinstance(h('buf'), Ptr) and h('buf').obj is o and st.is_eq(h('buf').off) and st.is_eq(hl('s.st_size') - self.stsize), 'the handle records the mapping')
        x(st, 'C18', lambda: self.is_ringfd(st, h('ring_fd')), 'the handle records the ring descriptor')
        def bw(f, mode):
            p = h(f)
            return isinstance(p, Ptr) and p.obj is not None and p.obj.info.get('bw') == f and p.obj.info.get('bwmode') == mode and st.mon.get(('res', 'bw', p.obj.id)) == 'live'
        def none(f): return isinstance(h(f), Ptr) and h(f).obj is None or isinstance(h(f), Lin) and st.is_eq(h(f))
        if rw == F['RDONLY']:
            x(st, ('C09', 'C10', 'C11'), bw('w2r', 'wait') and bw('r2w', 'wake'), 'a reader can wait for data and wake writers')
            x(st, 'C11', lambda: st.is_eq(hl('wait_fd') - st.g['waitfd']), 'a reader records its pollable descriptor')
            fc = st.mon.get('forced')
            any_ = lambda: E(q['u'] - 1) or E(q['m'] - 1) or bool(ko & F['FARM']) and E(q['mp'] - 1)
            zero = lambda: st.is_eq(q['u']) or st.is_eq(q['m'])
            x(st, 'C11', lambda: fc == 1 and any_() or fc == 0 and zero(), 'the pollable descriptor reflects whether the ring holds data')
        else:
            x(st, 'C10', bw('w2r', 'wake'), 'a writer can wake readers')
            x(st, ('C09', 'C08'), bw('r2w', 'wait') or none('r2w') and bool(fl & F['NONBLOCK'] or ko & F['DROP']), 'a writer that may wait can wait for space')
        buf = rw == F['WRONLY'] and fl & F['BUFFERED']
        if buf:
            cb, ci = h('c.buf'), h('c.iov')
            x(st, 'C14', lambda: isinstance(cb, Ptr) and cb.obj is not None and E(hl('c.sz') - 1) and E(q['n'] - hl('c.sz')) and E(cb.obj.size - hl('c.sz')), 'the holding area is allocated and fits the ring|%r of %r' % (h('c.sz'), q['n']))
            x(st, 'C14', lambda: isinstance(ci, Ptr) and ci.obj is not None and E(hl('c.vt') - 1) and E(q['mm'] - hl('c.vt')) and E(ci.obj.size - hl('c.vt').scale(16)), 'the held-message vector is allocated and fits the ring')
            x(st, 'C14', lambda: st.is_eq(hl('c.n')) and st.is_eq(hl('c.vm')), 'the holding area starts empty')
        # everything acquired is held by the handle
        held = set()
        for f in ('w2r', 'r2w', 'c.buf', 'c.iov', 'buf'):
            p = h(f)
            if isinstance(p, Ptr) and p.obj is not None: held.add(p.obj.id)
        held.add(v.obj.id)
        for k in self.leaks(st):
            if k[1] == 'fd': x(st, 'C19', lambda: self.is_ringfd(st, st.g[('fd', k)]), 'every descriptor acquired is held by the handle')
            else: x(st, 'C19', k[2] in held, 'everything acquired is held by the handle|%r' % (k,))
        for k, val in st.mon.items():
            if isinstance(k, tuple) and k[0] == 'res' and val == 'gone' and (k[1] in ('heap', 'bw', 'map') and k[2] in held):
                x(st, 'C19', False, 'a successful open keeps what the handle uses|%r' % (k,))
