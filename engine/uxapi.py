"""Liveness probe (lib/ux.c): does process PID hold a socket with the given name?

The probe reads two kernel tables of arbitrary content: the descriptors of the process and the list of
local sockets. get_col, if present with its known interface, is analysed on its own against its contract
and replaced by that contract inside the probe."""
from core import *
from core import memo_sym
from libc import Libc
from shrmodel import Handler
from canon import CanonMixin

ESRCH, EPERM, EACCES, EIO = 3, 1, 13, 5
DENT_TYPE, DENT_NAME, DENT_SIZE, DT_LNK = 18, 19, 280, 10
SOCK = b'socket:['

def sym(name, lo=None, hi=None): return S(newsym(name, lo, hi))

class AtMixin(object):
    def at(self, ins, name, lo=None, hi=None):
        """the unknown a source position yields; loop heads rename what survives (CanonMixin)"""
        return S(memo_sym(('at', self.symbase, tuple(self.stack), self.loc(ins), ins.get('d') if isinstance(ins.get('d'), int) else None, name), name, lo, hi))

class ScanH(Handler):
    """buffer that holds the socket table: remembers the position last examined"""
    def __init__(self, M): self.M = M
    def load(self, I, st, o, off, size, isptr, ins):
        I.check_bounds(st, Ptr(o, off), K(size), ins, 'load')
        self.M.filled(st, o, off, K(size), ins)
        self.M.scan(st, off + size)
        if size == 1:
            for k in (0, 1):
                d = st.g.get(('dig', k))
                if d is not None and st.is_eq(off - d[0]): return [(st, d[1])]
        return [(st, UNDEF if isptr else I.at(ins, 'text', -(1 << (8 * size - 1)), (1 << (8 * size)) - 1))]

class TextH(Handler):
    """text of one line as get_col reads it. Every byte met for the first time is a space, a newline or
    another character; the columns seen so far are counted along."""
    def __init__(self, M): self.M = M
    def load(self, I, st, o, off, size, isptr, ins):
        I.check_bounds(st, Ptr(o, off), K(size), ins, 'load')
        e = st.g.get('seen')
        if size != 1 or e is None: st.g.pop('seen', None); return [(st, I.at(ins, 'text', -128, 255))]
        if st.is_eq(off - e + 1) and 'cur' in st.g: return [(st, st.g['cur'])]
        if not st.is_eq(off - e): st.g.pop('seen', None); return [(st, I.at(ins, 'text', -128, 127))]
        out = []
        for c in (' ', 'x', '\n'):
            s = st.copy(); s.g['seen'] = s.norm(e + 1)
            if c == 'x':
                v = I.at(ins, 'char', -128, 127); s.add_ne(v - 32); s.add_ne(v - 10)
                if s.mon.get('in'): s.g['rl'] = s.norm(s.g['rl'] + 1)
                elif not s.mon.get('line'):
                    s.mon['in'] = True; s.g['cn'] = s.norm(s.g['cn'] + 1); s.g['rs'] = s.norm(off); s.g['rl'] = ONE
            else:
                v = K(ord(c)); s.mon.pop('in', None)
            s.g['cur'] = v
            if s.mon.get('line'): pass
            else:
                # the sought column ends here, or the line does
                if c != 'x' and st.mon.get('in') and s.is_eq(s.g['cn'] - I.c): s.mon['line'] = 'found'
                elif c == '\n': s.mon['line'] = 'over'
            out.append((s, v))
        return out

class UxApi(AtMixin, CanonMixin, Libc, Interp):
    HIST = True
    PROP_RES = 'C24'; PROP_ASSERT = 'C24'
    def __init__(self, mod, api, thorough=False):
        Interp.__init__(self, mod)
        self.api = api; self.only = None
        self.install_libc()
        for n in ('kill', 'opendir', 'closedir', 'readdir', 'readlink', 'snprintf', 'open', 'read', 'close', 'realloc', 'strlen', 'memcmp', 'strncmp', 'bcmp', 'memchr'):
            self.models[n] = getattr(self, 'm_' + n)
        self.models['readdir64'] = self.m_readdir; self.models['open64'] = self.m_open
        self.colsum = False
        g = mod.func('get_col')
        if api != 'get_col' and g is not None and len(g.args) == 4 and not g.d['vararg']:
            self.colsum = True; self.models['get_col'] = self.m_get_col
        g = mod.func('slurp_special')
        if api == 'has_socket_name' and g is not None and len(g.args) == 2 and not g.d['vararg']: self.models['slurp_special'] = self.s_slurp
    def s_slurp(self, st, args, ins):
        """contract of slurp_special (decided by its own entry)"""
        self.oblige('C24', self.pathof(st, args[0]) == '/proc/net/unix', st, ins, 'the table of local sockets is read')
        p = args[1]
        self.oblige('C24', isinstance(p, Ptr) and p.obj is not None, st, ins, 'the length of the table has a place')
        if not isinstance(p, Ptr) or p.obj is None: return []
        self.check_bounds(st, p, K(8), ins, 'write')
        f = self.failed(st)
        n, z = self.table
        o = self.new_heap(st, ins, z, False)
        st.g['br'] = n; st.g['tab'] = Ptr(o); st.mon['eof'] = True
        self.mem_store(st, p.obj, p.off, 8, n)
        return [(f, NULL), (st, Ptr(o))]
    def walked(self, o): return o.handler is self.sh or isinstance(o.handler, TextH) or self.api == 'has_socket_name' and isinstance(o.handler, InoH)
    def tidy(self, o, m):
        if o is not None and o is self.link: return False
        return CanonMixin.tidy(self, o, m)
    def exact(self, f, h, k): return k == 'cn'
    def counters(self, st, f, h):
        out = {}
        if self.api == 'has_socket_name' and 'ik' in st.g:
            for k, lo in (('ik', 2), ('ihi', 16)):
                v = st.norm(st.g[k])
                if v.t or v.c >= lo: out[v] = lo
        if self.api == 'get_col' and 'seen' in st.g:
            for k in ('seen', 'rs', 'rl'):
                v = st.norm(st.g[k])
                if v.t or v.c >= 4: out[v] = 4
        return out
    def counting(self, st, f, h, cnts):
        return set((self.LEN.id, k) for k, c in st.m(self.LEN).cells.items()) if cnts and self.api == 'get_col' else ()
    def relations(self, st):
        if self.api == 'has_socket_name' and 'ik' in st.g:
            k, e, n = st.g['ik'], st.g['ihi'], self.nlist
            return [((8, k), (-1, e)), ((1, n), (-1, k))]
        if self.api != 'get_col' or 'seen' not in st.g: return ()
        n, e, s, l = self.n, st.g['seen'], st.g['rs'], st.g['rl']
        return [((1, n), (-1, e)), ((1, e), (-1, s)), ((1, e), (-1, s), (-1, l))]
    def before_head(self, f, h, st):
        if self.api == 'has_socket_name' and 'line' in st.g and not st.mon.get('dismissed') and self.passed(st): st.mon['dismissed'] = True
        if st.mon.get('dismissed'):
            for k in ('ilo', 'ihi', 'ik', 'lastino'): st.g.pop(k, None)
        if {'readdir', 'readdir64'} & self.body_calls(f, h): self.fresh_entry(st)
        if 'get_col' in self.body_calls(f, h):
            for k in (('col', 7), ('col', 8), 'nline', ('dig', 0), ('dig', 1)): st.g.pop(k, None)
    def fresh_entry(self, st):
        if self.link is not None and self.link.id in st.mem:
            m = st.mw(self.link); m.cells = {}; m.syms = (); m.fills = ((ZERO, K(1 << 20), None),); m.ver = fresh_ver()
    def use_summaries(self):
        for n, k in (('get_socket_inodes', 4), ('has_socket_name', 3)):
            g = self.mod.func(n)
            if g is None or len(g.args) != k or g.d['vararg']: return
        self.models['get_socket_inodes'] = self.s_inodes; self.models['has_socket_name'] = self.s_name
    def s_inodes(self, st, args, ins):
        """contract of get_socket_inodes (decided by its own entry)"""
        pid, arr, cap, cnt = args
        self.oblige('C24', st.is_eq(self.tolin(st, pid, 32) - self.PID), st, ins, 'the descriptors of the given process are listed')
        out = []
        for s, c in self.uns(st, cap, 64):
            s = s.copy(); c = s.norm(c)
            if not isinstance(cnt, Ptr) or cnt.obj is None or not isinstance(arr, Ptr) or arr.obj is None:
                self.bad_access(s, arr, ins, 'enumeration'); continue
            self.check_bounds(s, arr, c.scale(8), ins, 'write')
            n0 = self.mem_load(s, cnt.obj, cnt.off, 8, False)
            self.oblige('C24', lambda: s.is_eq(self.tolin(s, n0, 64)), s, ins, 'the list is empty before the enumeration')
            self.mem_kill(s, arr.obj, arr.off, c.scale(8) if c.t else 8 * c.c); self.fill_unknown(s, arr, c.scale(8))
            n = self.at(ins, 'listed', 0, 1 << 40)
            if not s.add_ge(c - n): continue
            self.mem_store(s, cnt.obj, cnt.off, 8, n)
            f = self.failed(s); f.mon['enum'] = 'failed'; out.append((f, K(-1)))
            s.mon['enum'] = 'end'; s.g['listed'] = n; s.mon['listin'] = arr.obj.id if s.is_eq(arr.off) else None
            out.append((s, ZERO))
        return out
    def s_name(self, st, args, ins):
        """contract of has_socket_name (decided by its own entry)"""
        arr, cnt, name = args
        self.oblige('C24', lambda: isinstance(arr, Ptr) and arr.obj is not None and st.mon.get('listin') == arr.obj.id and st.is_eq(arr.off) and 'listed' in st.g and st.is_eq(self.tolin(st, cnt, 64) - st.g['listed']),
                    st, ins, 'the sockets searched are those listed')
        self.oblige('C24', isinstance(name, Ptr) and name.obj is self.NAME and st.is_eq(name.off), st, ins, 'the name searched is the given name')
        f = self.failed(st)
        n = st.copy(); n.mon['eof'] = True; n.g['scan'] = n.g['br'] = K(1)
        y = st.copy(); y.mon['namematch'] = True
        return [(f, K(-1)), (n, ZERO), (y, ONE)]
    def memprop(self, o, what): return 'C24'
    def bad_access(self, st, p, ins, what): self.oblige('C24', False, st, ins, '%s through a valid pointer' % what)
    def failed(self, st, e=EIO):
        f = st.copy(); self.set_errno(f, K(e)); f.mon['fail'] = True
        return f
    def raw_fail(self, st, e):
        f = st.copy(); self.set_errno(f, K(e)); return f
    # ------------------------------------------------------------ process
    def m_kill(self, st, args, ins):
        ok = st.is_eq(self.tolin(st, args[0], 32) - self.PID) and st.is_eq(self.tolin(st, args[1], 32))
        self.oblige('C24', ok, st, ins, 'the existence test is made for the given process and sends nothing')
        d = self.raw_fail(st, ESRCH); d.mon['esrch'] = True
        return [(st, ZERO), (d, K(-1)), (self.raw_fail(st, EPERM), K(-1))]
    # ------------------------------------------------------------ directories
    def m_opendir(self, st, args, ins):
        self.oblige('C24', self.pathof(st, args[0]) == '/proc/PID/fd', st, ins, "the descriptors of the given process are listed")
        n = 0
        while ('res', 'dir', n) in st.mon: n += 1
        f = self.failed(st, EACCES); f2 = self.failed(st, EIO)
        o = self.dirs.setdefault(n, Obj('directory stream', 'static', K(1)))
        st.mon[('res', 'dir', n)] = 'live'; st.mon['enum'] = 'begun'
        return [(st, Ptr(o)), (f, NULL), (f2, NULL)]
    def dirkey(self, p):
        if isinstance(p, Ptr):
            for n, o in self.dirs.items():
                if p.obj is o: return ('res', 'dir', n)
    def m_closedir(self, st, args, ins):
        k = self.dirkey(args[0])
        self.oblige('C24', k is not None and st.mon.get(k) == 'live', st, ins, 'the directory stream is open (no double close)')
        if k: st.mon[k] = 'gone'
        return [(st, ZERO)]
    def pending(self, st, ins):
        self.oblige('C24', st.mon.get('dent') != 'pending', st, ins, 'every listed descriptor is looked at')
        self.oblige('C24', st.mon.get('sock') != 'pending', st, ins, 'every socket of the process is recorded')
        st.mon.pop('dent', None); st.mon.pop('sock', None); st.g.pop('inode', None)
        for k in [k for k, v in st.mon.items() if isinstance(k, tuple) and k[0] == 'path' and 'DENT' in v]: st.mon[k] = '?'
    def m_readdir(self, st, args, ins):
        k = self.dirkey(args[0])
        self.oblige('C24', k is not None and st.mon.get(k) == 'live', st, ins, 'the directory stream read is open')
        self.pending(st, ins)
        self.fresh_entry(st)
        e = st.copy(); e.mon['enum'] = 'end'
        f = self.failed(st, EIO)
        out = [(e, NULL), (f, NULL)]
        for t in ('link', 'other'):
            s = st.copy()
            m = s.mw(self.DENT); m.cells = {}; m.syms = (); m.fills = ((ZERO, K(DENT_SIZE), None),); m.ver = fresh_ver()
            if t == 'link': m.cells[DENT_TYPE] = (1, K(DT_LNK)); s.mon['dent'] = 'pending'
            else:
                v = self.at(ins, 'dtype', 0, 14); s.add_ne(v - DT_LNK); m.cells[DENT_TYPE] = (1, v)
            out.append((s, Ptr(self.DENT)))
        return out
    def text(self, st, p):
        if not isinstance(p, Ptr) or p.obj is None or p.off.t: return None
        o = p.obj
        if o.kind != 'global': return None
        if o.id not in st.mem: self.init_global(st, o)
        out = ''
        for i in range(p.off.c, p.off.c + 200):
            c = st.m(o).cells.get(i)
            if c is None or c[1].t: 
                return out if c is None and out else None
            if c[1].c == 0: return out
            out += chr(c[1].c & 255)
        return None
    def pathof(self, st, p):
        if not isinstance(p, Ptr) or p.obj is None: return None
        t = self.text(st, p)
        if t is not None: return t
        if p.off.t or p.off.c: return None
        return st.mon.get(('path', p.obj.id))
    def m_snprintf(self, st, args, ins):
        d, n, f = args[0], self.tolin(st, args[1], 64), self.text(st, args[2])
        n = st.norm(n)
        self.check_bounds(st, d, n, ins, 'write')
        lo = hi = 0; out = ''; rest = list(args[3:]); ok = f is not None
        i = 0
        while ok and i < len(f):
            if f[i] != '%': out += f[i]; lo += 1; hi += 1; i += 1; continue
            j = i + 1
            while j < len(f) and f[j] in 'lzhj0123456789.-': j += 1
            if j >= len(f) or not rest: ok = False; break
            v = rest.pop(0); c = f[j]
            if c in 'du':
                lo += 1; hi += 11; out += 'PID' if isinstance(v, (Lin, Bits)) and st.is_eq(self.tolin(st, v, 32) - self.PID) else '?'
            elif c == 's':
                lo += 1; hi += 255; out += 'DENT' if isinstance(v, Ptr) and v.obj is self.DENT and st.is_eq(v.off - DENT_NAME) and st.mon.get('dent') == 'pending' else '?'
            else: ok = False
            i = j + 1
        if d.obj.handler is None:
            self.mem_kill(st, d.obj, d.off, n if n.t else n.c); self.fill_unknown(st, d, n)
        if not ok:
            st.mon[('path', d.obj.id)] = '?'; return [(st, self.at(ins, 'len', 0, 1 << 20))]
        r = self.at(ins, 'len', lo, hi); res = []
        a = st.copy()
        if a.add_ge(n - r - 1): a.mon[('path', d.obj.id)] = out if st.is_eq(d.off) else '?'; res.append((a, r))
        b = st.copy()
        if b.add_ge(r - n): b.mon[('path', d.obj.id)] = 'truncated'; b.mon['odd'] = True; res.append((b, r))
        return res
    def m_readlink(self, st, args, ins):
        self.oblige('C24', self.pathof(st, args[0]) == '/proc/PID/fd/DENT', st, ins, 'the link read is that of the listed descriptor')
        p, n = args[1], st.norm(self.tolin(st, args[2], 64))
        self.check_bounds(st, p, n, ins, 'write')
        st.mon['dent'] = 'done'
        out = [(self.failed(st), K(-1))]
        def clear(s):
            self.mem_kill(s, p.obj, p.off, n if n.t else n.c); self.fill_unknown(s, p, n)
        self.link = p.obj
        s = st.copy(); clear(s); r = self.at(ins, 'linklen', 1, 4096)
        v = self.at(ins, 'link0', 33, 126); s.add_ne(v - SOCK[0]); self.mem_put(s, p.obj, p.off, 1, v)
        if s.add_ge(n - r): out.append((s, r))
        s = st.copy(); clear(s)
        if s.add_ge(n - 9):
            for i, c in enumerate(SOCK): self.mem_put(s, p.obj, p.off + i, 1, K(c))
            v = self.at(ins, 'linkx', -128, 127)
            s.mon['odd'] = True
            self.mem_put(s, p.obj, p.off + 8, 1, v); out.append((s, K(9)))
        for nd in (1, 2):
            s = st.copy(); clear(s)
            if not s.add_ge(n - (9 + nd)): continue
            val = ZERO
            for i, c in enumerate(SOCK): self.mem_put(s, p.obj, p.off + i, 1, K(c))
            for i in range(nd):
                v = self.at(ins, 'digit%d' % i, 48, 57); val = val.scale(10) + v - 48
                self.mem_put(s, p.obj, p.off + 8 + i, 1, v)
            self.mem_put(s, p.obj, p.off + 8 + nd, 1, K(93))
            s.mon['sock'] = 'pending'; s.g['inode'] = val
            out.append((s, K(9 + nd)))
        return out
    def store(self, st, p, size, v, ins):
        out = Interp.store(self, st, p, size, v, ins)
        if size >= 4 and isinstance(v, (Lin, Bits)) and isinstance(p, Ptr) and p.obj is not None and st.mon.get('sock') == 'pending':
            n = p.obj.size
            if n is None or n.t or n.c >= 64:
                for s in out:
                    if s.mon.get('sock') == 'pending' and s.is_eq(self.tolin(s, v, 64) - s.g['inode']):
                        s.mon['sock'] = 'recorded'
        return out
    # ------------------------------------------------------------ table file
    def filled(self, st, o, off, n, ins):
        t = st.g.get('tab')
        if t is not None: self.oblige('C24', lambda: st.entails(self.read_total(st) - off - n), st, ins, 'only bytes that were read are examined')
    def read_total(self, st): return st.g.get('br', ZERO)
    def scan(self, st, end):
        st.g['scan'] = st.norm(end)
    def m_open(self, st, args, ins):
        self.oblige('C24', self.pathof(st, args[0]) == '/proc/net/unix', st, ins, 'the table of local sockets is read')
        f = self.failed(st)
        return [(st, self.new_fd(st, ins, 'tab')), (f, K(-1))]
    def m_read(self, st, args, ins):
        k = self.find_fd(st, self.tolin(st, args[0], 32))
        self.oblige('C24', k is not None and st.mon.get(k) == 'live', st, ins, 'the descriptor read is open')
        out = []
        for s, n in self.uns(st, args[2], 64):
            s = s.copy(); n = s.norm(n); p = args[1]
            if not isinstance(p, Ptr) or p.obj is None:
                self.bad_access(s, p, ins, 'read'); continue
            self.check_bounds(s, p, n, ins, 'write')
            out.append((self.failed(s), K(-1)))
            e = s.copy()
            if e.add_ge(n - 1): e.mon['eof'] = True; out.append((e, ZERO))
            e = s.copy()
            if e.add_eq(n): out.append((e, ZERO))
            r = self.at(ins, 'nread', 1, 1 << 60)
            if s.add_ge(n - r):
                self.oblige('C24', lambda: s.is_eq(p.off - self.read_total(s)), s, ins, 'the pieces of the table are stored one after another')
                s.g['br'] = s.norm(self.read_total(s) + r); s.g['tab'] = Ptr(p.obj)
                self.mem_kill(s, p.obj, p.off, r); self.fill_unknown(s, p, r)
                out.append((s, r))
        return out
    def new_heap(self, st, ins, size, zero, name='heap'):
        ins = dict(ins); ins['d'] = (ins.get('d'), size)
        o = Libc.new_heap(self, st, ins, size, zero, name)
        if self.api in ('has_pid_socket', 'has_socket_name', 'slurp_special'): o.handler = self.sh
        return o
    def m_malloc(self, st, args, ins):
        out = Libc.m_malloc(self, st, args, ins); out[0][0].mon['fail'] = True
        return out
    def m_calloc(self, st, args, ins):
        out = Libc.m_calloc(self, st, args, ins); out[0][0].mon['fail'] = True
        return out
    def m_realloc(self, st, args, ins):
        out = [(self.failed(st, 12), NULL)]
        p = args[0]
        for s, n in self.uns(st, args[1], 64):
            s = s.copy()
            if isinstance(p, Ptr) and p.obj is not None:
                k = ('res', 'heap', p.obj.id)
                self.oblige('C24', s.mon.get(k) == 'live' and s.is_eq(p.off), s, ins, 'the block resized is a live allocation')
                m = s.mw(p.obj); m.dead = 'freed'; m.cells = {}; m.syms = (); m.fills = ()
                if k in s.mon: s.mon[k] = 'gone'
            o = self.new_heap(s, ins, s.norm(n), False)
            if s.g.get('tab') is not None: s.g['tab'] = Ptr(o)
            out.append((s, Ptr(o)))
        return out
    def line_end(self, st, ins=None):
        """a line is passed over only if it names another socket or none of the process's"""
        if 'line' not in st.g or not self.colsum: return
        ok = lambda: self.passed(st)
        m = "a socket of that name is passed over only if it is none of the process's"
        if ins is None: self.xob(st, ok, m)
        else: self.oblige('C24', ok, st, ins, m)
    def passed(self, st):
        if st.mon.get('dismissed') or st.mon.get('odd'): return True
        c = st.g.get(('col', 8))
        if c is not None:
            d = c[2] - self.namelen
            if st.entails(d - 1) or st.entails(-d - 1) or not st.copy().add_eq(d): return True
        if not st.mon.get('asked'): return st.is_eq(self.nlist)
        return self.differs(st) and 'ihi' in st.g and st.is_eq(st.g['ilo']) and st.is_eq(st.g['ihi'] - self.nlist.scale(8))
    def differs(self, st):
        if 'lastino' not in st.g or 'ino7' not in st.g: return 'ino7' in st.g
        return not st.copy().add_eq(st.g['lastino'] - st.g['ino7'])
    def newline(self, st, b, ins):
        if 'line' in st.g and st.is_eq(b.off - st.g['line']): return
        self.line_end(st, ins)
        for k in (('col', 7), ('col', 8), 'nline', ('dig', 0), ('dig', 1), 'ino7', 'lastino', 'ilo', 'ihi', 'ik'): st.g.pop(k, None)
        for k in ('dismissed', 'namematch', 'odd', 'asked'): st.mon.pop(k, None)
        st.g['line'] = st.norm(b.off)
    def m_get_col(self, st, args, ins):
        """contract: NULL, or the start and length of one column inside the given text"""
        col = st.norm(self.tolin(st, args[0], 32)); lenp, b = args[1], args[2]
        out = []
        for s, n in self.uns(st, args[3], 64):
            s = s.copy()
            if not isinstance(b, Ptr) or b.obj is None or not isinstance(lenp, Ptr) or lenp.obj is None:
                self.bad_access(s, b, ins, 'column'); continue
            self.check_bounds(s, b, n, ins, 'read')
            self.filled(s, b.obj, b.off, n, ins)
            if self.api == 'has_socket_name':
                self.newline(s, b, ins)
                if not col.t and col.c == 7:
                    for k in (('dig', 0), ('dig', 1), 'ino7'): s.g.pop(k, None)
                    s.mon.pop('odd', None)
            f = s.copy(); self.mem_store(f, lenp.obj, lenp.off, 8, self.fresh('collen', 64))
            if col.is_const() if hasattr(col, 'is_const') else not col.t:
                if col.c == 8: f.mon['dismissed'] = True
                else: f.mon['fail'] = True
            out.append((f, NULL))
            d = self.at(ins, 'coloff', 0, 1 << 60); l = self.at(ins, 'collen', 1, 20)
            if not (s.add_ge(n - d - l)): continue
            q = b.off + d
            kinds = ('any',) if col.t or col.c != 7 else (1, 2, 'bad', 'any')
            for k in kinds:
                t = s.copy() if k != kinds[-1] else s
                if k in (1, 2) and not t.add_eq(l - k) or k == 'bad' and not t.add_eq(l - 2): continue
                self.mem_store(t, lenp.obj, lenp.off, 8, t.norm(l))
                if not col.t: t.g[('col', col.c)] = (b.off, q, l, t.norm(q + l))
                self.scan(t, q + l)
                if not col.t and col.c == 7:
                    if k == 'any': t.mon['odd'] = True
                    elif k == 'bad':
                        v = self.at(ins, 'letter', 58, 126); t.g[('dig', 0)] = (q, K(49)); t.g[('dig', 1)] = (t.norm(q + 1), v); t.mon['fail'] = True
                    else:
                        val = ZERO
                        for i in range(k):
                            v = self.at(ins, 'digit%d' % i, 48, 57); val = val.scale(10) + v - 48
                            t.g[('dig', i)] = (t.norm(q + i), v)
                        t.g['ino7'] = val
                out.append((t, Ptr(b.obj, q)))
        return out
    # ------------------------------------------------------------ strings
    def m_strlen(self, st, args, ins):
        p = args[0]
        if isinstance(p, Ptr) and p.obj is self.NAME and st.is_eq(p.off): return [(st, self.namelen)]
        return [(st, self.at(ins, 'strlen', 0, 1 << 30))]
    def m_memchr(self, st, args, ins):
        p = args[0]; out = [(st.copy(), NULL)]
        for s, n in self.uns(st, args[2], 64):
            s = s.copy()
            if not isinstance(p, Ptr) or p.obj is None: self.bad_access(s, p, ins, 'search'); continue
            self.check_bounds(s, p, n, ins, 'read')
            d = self.at(ins, 'found', 0, 1 << 60)
            if s.add_ge(n - d - 1): self.scan(s, p.off + d + 1); out.append((s, Ptr(p.obj, p.off + d)))
        self.scan(out[0][0], p.off + self.tolin(out[0][0], args[2], 64)) if isinstance(p, Ptr) and p.obj is not None else None
        return out
    def m_memcmp(self, st, args, ins):
        a, b = args[0], args[1]; out = []
        for s, n in self.uns(st, args[2], 64):
            s = s.copy(); n = s.norm(n)
            for p in (a, b):
                if not isinstance(p, Ptr) or p.obj is None:
                    self.bad_access(s, p, ins, 'compare')
                    return out
                self.check_bounds(s, p, n, ins, 'compare')
            t = [self.text(s, p) for p in (a, b)]
            if not n.t and any(x is not None for x in t):
                x = t[0] if t[0] is not None else t[1]; q = b if t[0] is not None else a
                by = [self.mem_load(s, q.obj, q.off + i, 1, False) for i in range(n.c)]
                d = [s.norm(self.tolin(s, v, 8) - ord(c)) if isinstance(v, (Lin, Bits)) else None for v, c in zip(by, x)]
                if all(v is not None and not v.t and not v.c for v in d): out.append((s, ZERO)); continue
                out.append((s.copy(), K(1)))
                if all(v is None or s.add_eq(v) for v in d): out.append((s, ZERO))
                continue
            e = s.copy()
            for u, v in ((a, b), (b, a)):
                if v.obj is self.NAME and s.is_eq(v.off) and s.is_eq(n - self.namelen):
                    c = s.g.get(('col', 8))
                    if self.colsum and c is not None and s.is_eq(u.off - c[1]) and s.is_eq(c[2] - n):
                        e.mon['namematch'] = True; e.g['nline'] = c[0]; s.mon['dismissed'] = True
            out.append((e, ZERO)); out.append((s, K(1)))
        return out
    m_strncmp = m_memcmp
    m_bcmp = m_memcmp
    # ------------------------------------------------------------ drivers
    def base(self):
        PARAMS.clear()
        st = State(); st.mon = {}
        self.dirs = {}; self.link = None; self.sh = ScanH(self)
        self.DENT = Obj('directory entry', 'static', K(DENT_SIZE))
        self.PID = sym('pid', 1, 1 << 22)
        self.NAME = Obj('socket name', 'data', K(8), ro=True)
        self.namelen = sym('namelen', 1, 7)
        self.INO = None; self.inosyms = []
        self.symbase = newsym('end')
        m = st.mw(self.ERRNO); m.cells[0] = (4, sym('errno0', 0, 133))
        return st
    def inodes_obj(self, st, cap):
        o = self.INO = Obj('inode list', 'data', cap, lazy=self.lazy_inode)
        return o
    def lazy_inode(self, st, obj, off, size, isptr):
        v = self.lazy_default(st, obj, off, size, isptr)
        if isinstance(v, Lin): self.inosyms.extend(s for s, _ in v.t)
        return v
    def drv_has_pid_socket(self):
        st = self.base()
        self.use_summaries()
        yield 'any process', st, [self.PID, Ptr(self.NAME)]
    def drv_get_socket_inodes(self):
        f = self.mod.func('get_socket_inodes')
        for k in (0, 1):
            st = self.base()
            cap = sym('max_inodes', 1, 1 << 20); self.symbase = newsym('end'); n = sym('n_inodes', 0, 1 << 20)
            if k == 0: st.add_ge(cap - n)
            else: st.add_eq(n)
            o = self.inodes_obj(st, cap.scale(8)); o.handler = InoH(self)
            N = Obj('inode count', 'data', K(8)); st.mw(N).cells[0] = (8, n)
            self.ncell = N; self.cap = cap
            st.mon['esrch'] = False; st.g['cnt'] = n
            yield 'any list', st, [self.PID, Ptr(o), cap, Ptr(N)]
    def drv_has_socket_name(self):
        st = self.base()
        n = self.nlist = sym('n_inodes', 0, 1 << 20)
        self.table = sym('table', 0, 1 << 60), sym('block', 1, 1 << 61); st.add_ge(self.table[1] - self.table[0])
        self.symbase = newsym('end')
        o = self.inodes_obj(st, n.scale(8)); o.handler = InoH(self)
        st.mon['enum'] = 'end'
        yield 'any list', st, [Ptr(o), n, Ptr(self.NAME)]
    def drv_slurp_special(self):
        st = self.base()
        P = Obj('file name', 'data', K(16), ro=True); st.mon[('path', P.id)] = '/proc/net/unix'
        self.LEN = Obj('length out', 'data', K(8))
        yield 'any table', st, [Ptr(P), Ptr(self.LEN)]
    def drv_get_col(self):
        for col in (1, 2):
            st = self.base()
            n = sym('textlen', 0, 1 << 60)
            self.symbase = newsym('end')
            self.TXT = Obj('text', 'data', n, ro=True); self.n = n
            self.TXT.handler = TextH(self)
            self.LEN = Obj('length out', 'data', K(8))
            self.c = c = K(col)
            st.g['seen'] = ZERO; st.g['cn'] = ZERO; st.g['rs'] = ZERO; st.g['rl'] = ZERO
            yield 'column %d of any text' % col, st, [c, Ptr(self.LEN), Ptr(self.TXT), n]
    def fits(self):
        f = self.mod.func(self.api)
        want = {'has_pid_socket': 2, 'get_socket_inodes': 4, 'has_socket_name': 3, 'get_col': 4, 'slurp_special': 2}[self.api]
        return f is not None and len(f.args) == want
    # ------------------------------------------------------------ results
    def xob(self, st, ok, msg):
        f = self.mod.func(self.api)
        self.stack.append((self.api, '-'))
        self.oblige('C24', ok, st, {'l': (f.d.get('file') or self.api, f.d.get('line') or 0)}, 'at return of %s: %s' % (self.api, msg))
        self.stack.pop()
    def run_api(self):
        n = 0
        if not self.fits(): return 0
        self.kinds = set()
        for name, st, args in getattr(self, 'drv_' + self.api)():
            self.case = name
            for s, v in self.run(self.api, args, st):
                n += 1
                getattr(self, 'exit_' + self.api)(s, v, s.norm(self.tolin(s, v, 32)) if isinstance(v, (Lin, Bits)) else None)
        if not self.cut and not self.undecided:
            want = {'get_col': 'present gone', 'slurp_special': 'present gone', 'get_socket_inodes': 'gone unknown'}.get(self.api, 'present gone unknown').split()
            self.case = 'all answers'
            for k in want: self.xob(st, k in self.kinds, {'get_col': 'it can return with and without a column', 'slurp_special': 'it can succeed and fail', 'get_socket_inodes': 'it can succeed and fail'}.get(self.api, "it can answer '%s'" % k))
        return n
    def released(self, st):
        names = {'dir': 'directory stream', 'fd': 'descriptor', 'heap': 'memory'}
        for k in self.leaks(st): self.xob(st, False, 'the probe releases its %s' % names[k[1]])
        self.xob(st, True, 'the probe releases what it opened')
    def table_done(self, st):
        return bool(st.mon.get('eof')) and st.entails(st.g.get('scan', ZERO) - self.read_total(st))
    def matched(self, st):
        if not st.mon.get('namematch'): return False
        c = st.g.get(('col', 7)); nl = st.g.get('nline')
        return c is None or nl is None or st.is_eq(c[0] - nl)
    def sure(self, st, r, excuse=None):
        """no answer 'unknown' unless something failed or a table could not be understood"""
        self.kinds.add('unknown' if st.entails(-r - 1) else 'gone' if st.is_eq(r) else 'present')
        z = st.copy()
        if st.mon.get('fail') or st.mon.get('odd') or not z.add_ge(-r - 1): return
        self.xob(z, lambda: excuse is not None and excuse(z), "'unknown' is answered only if something failed")
    def exit_has_pid_socket(self, st, v, r):
        self.released(st)
        self.sure(st, r)
        z = st.copy()
        if z.add_eq(r):
            self.xob(z, lambda: bool(z.mon.get('esrch')) or z.mon.get('enum') == 'end' and not z.mon.get('fail') and z.mon.get('dent') != 'pending' and z.mon.get('sock') != 'pending',
                     "'gone' is answered only if the process does not exist or its descriptors were completely enumerated")
            self.xob(z, lambda: bool(z.mon.get('esrch')) or self.table_done(z), "'gone' is answered only after the whole socket table was examined")
        if not st.entails(-r):
            z = st.copy()
            if z.add_ge(r - 1):
                self.xob(z, lambda: not z.mon.get('fail') and not z.mon.get('esrch'), "'present' is not answered after a failure")
                if self.colsum: self.xob(z, lambda: self.matched(z), "'present' is answered only for a socket of that name and process")
        if st.mon.get('fail'): self.xob(st, lambda: st.entails(-r - 1), "'unknown' is answered on any failure")
    def exit_get_socket_inodes(self, st, v, r):
        self.released(st)
        self.sure(st, r, lambda z: z.is_eq(z.g.get('cnt', ZERO) - self.cap))
        if st.mon.get('fail'): self.xob(st, lambda: st.entails(-r - 1), 'a failed enumeration is reported')
        elif st.copy().add_eq(r):
            z = st.copy(); z.add_eq(r)
            self.xob(z, lambda: z.entails(self.cap - self.tolin(z, self.mem_load(z, self.ncell, ZERO, 8, False), 64)), 'no more sockets are listed than the list holds')
            self.xob(z, lambda: z.mon.get('enum') == 'end' and z.mon.get('dent') != 'pending' and z.mon.get('sock') != 'pending', 'a complete enumeration looked at every descriptor')
            self.xob(z, lambda: z.is_eq(self.tolin(z, self.mem_load(z, self.ncell, ZERO, 8, False), 64) - z.g['cnt']), 'every socket recorded is counted')
    def exit_has_socket_name(self, st, v, r):
        self.released(st)
        self.sure(st, r)
        z = st.copy()
        if z.add_eq(r):
            self.line_end(z)
            self.xob(z, lambda: self.table_done(z), "'gone' is answered only after the whole socket table was examined")
        if not st.entails(-r):
            z = st.copy()
            if z.add_ge(r - 1):
                if self.colsum: self.xob(z, lambda: self.matched(z), "'present' is answered only for a socket of that name and process")
                def listed():
                    if 'ino7' in z.g and self.colsum: return 'lastino' in z.g and z.is_eq(z.g['lastino'] - z.g['ino7'])
                    return any(not (z.norm(S(s)) == S(s)) for s in self.inosyms) or any(any(q in self.inosyms for q, _ in l.t) for l in z.eqs.values())
                self.xob(z, listed, "'present' is answered only if the socket belongs to the process")
        if st.mon.get('fail'): self.xob(st, lambda: st.entails(-r - 1), "'unknown' is answered on any failure")
    def exit_slurp_special(self, st, v, r):
        if isinstance(v, Ptr) and v.obj is not None:
            self.kinds.add('present')
            k = ('res', 'heap', v.obj.id)
            self.xob(st, st.mon.get(k) == 'live' and st.is_eq(v.off), 'the table returned is a live allocation')
            st.mon.pop(k, None)
            l = self.mem_load(st, self.LEN, ZERO, 8, False)
            l = self.tolin(st, l, 64) if isinstance(l, (Lin, Bits)) else None
            self.xob(st, lambda: l is not None and st.is_eq(l - self.read_total(st)) and st.entails(v.obj.size - l), 'the length returned is that of the text read')
            self.xob(st, lambda: bool(st.mon.get('eof')), 'the table is returned only when it was read to its end')
            self.xob(st, lambda: not st.mon.get('fail'), 'no table is returned after a failure')
        else:
            self.kinds.add('gone')
            self.xob(st, lambda: bool(st.mon.get('fail')), 'reading the table fails only if something failed')
        self.released(st)
    def exit_get_col(self, st, v, r):
        g = st.g
        if isinstance(v, Ptr) and v.obj is not None:
            self.kinds.add('present')
            l = self.mem_load(st, self.LEN, ZERO, 8, False)
            self.xob(st, lambda: v.obj is self.TXT and st.entails(v.off) and st.entails(l - 1) and st.entails(self.n - v.off - l), 'a column found lies inside the text')
            if 'seen' in g:
                self.xob(st, lambda: st.is_eq(g['cn'] - self.c) and st.is_eq(v.off - g['rs']) and st.is_eq(self.tolin(st, l, 64) - g['rl']), 'the column found is the one asked for')
                self.xob(st, lambda: st.mon.get('line') == 'found' or st.is_eq(g['seen'] - self.n), 'the column found is complete')
        else:
            self.kinds.add('gone')
            if 'seen' in g:
                self.xob(st, lambda: (st.mon.get('line') == 'over' or st.is_eq(g['seen'] - self.n)) and st.entails(self.c - g['cn'] - 1), 'a column is missed only if the line has fewer')

class InoH(Handler):
    def __init__(self, M): self.M = M
    def load(self, I, st, o, off, size, isptr, ins):
        I.check_bounds(st, Ptr(o, off), K(size), ins, 'load')
        v = I.mem_load(st, o, off, size, isptr)
        if size == 8 and I.api == 'has_socket_name' and isinstance(v, (Lin, Bits)):
            st.mon['asked'] = True
            fit = I.differs(st)
            st.g['lastino'] = I.tolin(st, v, 64)
            if 'ihi' not in st.g:
                st.g['ilo'] = st.norm(off); st.g['ihi'] = st.norm(off + 8)
                if st.is_eq(off): st.g['ik'] = ONE
            elif fit and st.is_eq(off - st.g['ihi']):
                st.g['ihi'] = st.norm(off + 8)
                if 'ik' in st.g: st.g['ik'] = st.norm(st.g['ik'] + 1)
            elif fit and st.is_eq(off + 8 - st.g['ilo']): st.g['ilo'] = st.norm(off)
        return [(st, v)]
    def store(self, I, st, o, off, size, v, ins):
        I.check_bounds(st, Ptr(o, off), K(size), ins, 'store')
        if 'cnt' in st.g and size == 8:
            I.oblige('C24', lambda: st.is_eq(off - st.g['cnt'].scale(8)), st, ins, 'a socket is recorded behind those listed before')
            st.g['cnt'] = st.norm(st.g['cnt'] + 1)
        I.mem_store(st, o, off, size, v)
        return [st]
