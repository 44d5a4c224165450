"""Models of libc and system calls shared by all analyses: heap, descriptors, errno, messages."""
from core import *

IGNORE = ('fprintf', 'printf', 'puts', 'putchar', 'fputc', 'fputs', 'fwrite', 'vfprintf', 'fflush', 'perror', 'putc')

def sym(name, lo=None, hi=None): return S(newsym(name, lo, hi))

class Libc(object):
    """mixin over Interp. Resources live in st.mon[('res', key)] = 'live'|'gone' with st.g[('fd', key)] for descriptors"""
    PROP_RES = 'C19'
    PROP_MEM = 'MEM'
    PROP_ASSERT = 'ASSERT'
    ABORT_OK = False
    def install_libc(self):
        for n in IGNORE: self.models[n] = self.m_ignore
        for n in ('malloc', 'calloc', 'free', 'strerror', '__errno_location', '__assert_fail', 'memcmp', 'exit', '_exit', 'abort'):
            self.models[n] = getattr(self, 'm_' + n)
        self.ERRNO = Obj('errno', 'static', 4)
        self.ERRSTR = Obj('errstr', 'static', None, ro=True)
        self.heap = {}
    def m_ignore(self, st, args, ins):
        return [(st, self.ret_fresh(ins, 'out') if 'd' in ins else None)]
    def m_strerror(self, st, args, ins): return [(st, Ptr(self.ERRSTR))]
    def m___errno_location(self, st, args, ins): return [(st, Ptr(self.ERRNO))]
    def set_errno(self, st, v=None):
        m = st.mw(self.ERRNO)
        m.cells = {0: (4, v if v is not None else sym('errno', 1, 133))}; m.syms = (); m.fills = ()
    def m_exit(self, st, args, ins): return []
    m__exit = m_exit
    m_abort = m_exit
    def m___assert_fail(self, st, args, ins):
        self.oblige(self.assert_prop(st), False, st, ins, 'assertion cannot fail')
        return []
    def assert_prop(self, st): return self.PROP_ASSERT
    # ---- heap
    def new_heap(self, st, ins, size, zero, name='heap'):
        base = ('heap', tuple(x[0] for x in self.stack), self.loc(ins), ins.get('d'))
        n = 0
        while True:
            o = self.heap.get(base + (n,))
            if o is None:
                o = self.heap[base + (n,)] = Obj('block@' + self.loc(ins), 'heap', None)
                break
            if ('res', 'heap', o.id) not in st.mon: break
            n += 1
            if n > 6: raise AnalysisError('unbounded allocations at ' + self.loc(ins))
        m = Mem(); st.mem[o.id] = m; st.memown.add(o.id)
        m.fills = ((ZERO, K(1 << 62), 0 if zero else None),)
        if not zero: m.ver = fresh_ver()
        o.size = size
        st.mon[('res', 'heap', o.id)] = 'live'
        return o
    def m_malloc(self, st, args, ins):
        out = []
        f = st.copy(); self.set_errno(f); out.append((f, NULL))
        for s, n in self.uns(st, args[0], 64):
            s = s.copy()
            o = self.new_heap(s, ins, s.norm(n), False)
            out.append((s, Ptr(o)))
        return out
    def m_calloc(self, st, args, ins):
        out = []
        f = st.copy(); self.set_errno(f); out.append((f, NULL))
        for s, a in self.uns(st, args[0], 64):
            for s2, b in self.uns(s, args[1], 64):
                s2 = s2.copy()
                a2 = s2.norm(a); b2 = s2.norm(b)
                if not b2.t: size = a2.scale(b2.c)
                elif not a2.t: size = b2.scale(a2.c)
                else: size = sym('calloc', 0, None)
                o = self.new_heap(s2, ins, size, True)
                out.append((s2, Ptr(o)))
        return out
    def m_free(self, st, args, ins):
        p = args[0]
        if p is UNDEF:
            self.oblige(self.PROP_RES, False, st, ins, 'freed pointer is known'); return [(st, None)]
        if not isinstance(p, Ptr) or p.obj is None: return [(st, None)]
        k = ('res', 'heap', p.obj.id)
        self.oblige(self.PROP_RES, lambda: st.mon.get(k) == 'live' and st.is_eq(p.off), st, ins, 'freed block is a live allocation (no double free)')
        if k in st.mon:
            st.mon[k] = 'gone'
        m = st.mw(p.obj); m.dead = 'freed'; m.cells = {}; m.syms = (); m.fills = ()
        return [(st, None)]
    def m_memcmp(self, st, args, ins):
        a, b, n = args
        for p in (a, b):
            if isinstance(p, Ptr) and p.obj is not None and p.obj.handler is None and p.obj.size is not None:
                self.check_bounds(st, p, self.tolin(st, n, 64), ins, 'compare')
        return [(st, self.fresh('memcmp', 32))]
    # ---- descriptors
    def new_fd(self, st, ins, kind):
        n = 0
        base = ('res', 'fd', kind + '@' + '/'.join(x[0] for x in self.stack[-1:]) + ':' + self.loc(ins))
        while base + (n,) in st.mon:
            n += 1
            if n > 8: raise AnalysisError('unbounded descriptors at ' + self.loc(ins))
        k = base + (n,)
        v = sym(kind + 'fd', 0, 1 << 20)
        st.mon[k] = 'live'; st.g[('fd', k)] = v
        return v
    def find_fd(self, st, v):
        """key of the live descriptor v denotes"""
        dead = None
        for k, x in st.g.items():
            if isinstance(k, tuple) and k[0] == 'fd':
                d = st.norm(x - v)
                if not d.t and d.c == 0:
                    if st.mon.get(k[1]) == 'live': return k[1]
                    dead = k[1]
        return dead
    def m_close(self, st, args, ins):
        v = self.tolin(st, args[0], 32)
        k = self.find_fd(st, v)
        if k is None:
            self.close_unknown(st, v, ins)
        else:
            self.oblige(self.PROP_RES, st.mon[k] == 'live', st, ins, 'closed descriptor is open (no double close)')
            st.mon[k] = 'gone'
            self.closed_fd(st, k, ins)
        return [(st, ZERO)]
    def close_unknown(self, st, v, ins): pass
    def closed_fd(self, st, k, ins): pass
    def leaks(self, st):
        return [k for k, v in st.mon.items() if isinstance(k, tuple) and k[0] == 'res' and v == 'live']
    def fd_fail(self, st, ins):
        f = st.copy(); self.set_errno(f)
        return f
