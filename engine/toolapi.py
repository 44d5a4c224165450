"""The command-line tool (util/shr-tool.c), analysed from main for each command.

The argument vector is a command with its operands; options are handed out by the model of getopt, each
documented option at most once, in any order. The library, the kernel and standard input and output are
models that may fail at any call, transfer any part of what is asked, and deliver events in any order."""
from core import *
from core import memo_sym
from libc import Libc, IGNORE
from shrmodel import Handler
from canon import CanonMixin
from uxapi import AtMixin, sym

EPIPE, EIO, EPERM, EINTR = 32, 5, 1, 4
EP_ADD, EP_DEL, EP_MOD, EPOLLIN = 1, 2, 3, 1
SIGFD, EPFD, SOCKFD, RINGFD, CLIENT, EXTRA, FILEFD = 13, 14, 15, 16, 17, 18, 19
SIGALRM = 14
INITFL = {'d': 'SHR_DROP', 'f': 'SHR_FARM', 'k': 'SHR_KEEPEXIST', 'l': 'SHR_MLOCK', 's': 'SHR_SYNC'}

class WordH(Handler):
    """text of an argument: unknown characters up to a terminator"""
    def __init__(self, M): self.M = M
    def load(self, I, st, o, off, size, isptr, ins):
        I.oblige(I.PROP, lambda: st.entails(off) and size == 1, st, ins, 'arguments are read from their start')
        return self.M.word_load(st, o, st.norm(off), ins)
    def store(self, I, st, o, off, size, v, ins): return self.M.word_store(st, o, st.norm(off), size, v, ins)

class ToolMain(AtMixin, CanonMixin, Libc, Interp):
    HIST = True
    FUNC = 'main'
    PROP = 'C26'
    WORDS = ()          # operands after the command
    OPTS = {}           # option letter -> takes an argument
    def __init__(self, mod, api):
        Interp.__init__(self, mod)
        self.api = api; self.only = None
        self.PROP_RES = self.PROP_ASSERT = self.PROP
        self.install_libc(); self.dups = {}; self.symbase = newsym('start')
        for n in dir(self):
            if n.startswith('m_') and n != 'm_ignore': self.models.setdefault(n[2:], getattr(self, n))
        for a, b in (('__isoc99_sscanf', 'm_sscanf'), ('open64', 'm_open'), ('fstat64', 'm_fstat'), ('stat64', 'm_stat'), ('statfs64', 'm_statfs'), ('mmap64', 'm_mmap'),
                     ('getopt_long', 'm_getopt'), ('accept4', 'm_accept'), ('epoll_create1', 'm_epoll_create'), ('strtoul', 'm_strtol'), ('strtoull', 'm_strtol'), ('strtoll', 'm_strtol'),
                     ('umount2', 'm_umount'), ('send', 'm_write'), ('__h_errno_location', 'm___errno_location'), ('mkdirat', 'm_mkdirat'), ('__isoc23_strtol', 'm_strtol'), ('__isoc23_strtoul', 'm_strtol')):
            if hasattr(self, b): self.models[a] = getattr(self, b)
        for n in ('printf', 'puts', 'putchar', 'fwrite', 'fputs', 'fputc', 'putc', 'fprintf'): self.models[n] = getattr(self, 'm_' + n)
        for n in ('sigfillset', 'sigemptyset', 'sigaddset', 'sigprocmask', 'sigdelset', 'setlinebuf', 'setvbuf'): self.models[n] = self.m_zero
        self.models['signalfd'] = lambda st, args, ins: self.fdres(st, SIGFD, 'setup')
    def fits(self):
        f = self.mod.func('main')
        return f is not None and len(f.args) == 2
    # ------------------------------------------------------------ bookkeeping
    def memprop(self, o, what): return self.PROP
    def bad_access(self, st, p, ins, what): self.oblige(self.PROP, False, st, ins, '%s through a valid pointer' % what)
    def failed(self, st, why, e=EIO):
        f = st.copy(); self.set_errno(f, K(e)); f.mon['cause'] = f.mon.get('cause', frozenset()) | {why}
        return f
    def m_zero(self, st, args, ins): return [(st, ZERO)]
    def fdres(self, st, n, why):
        return [(self.failed(st, why), K(-1)), (st, K(n))]
    def okfail(self, st, why): return [(self.failed(st, why), K(-1)), (st, ZERO)]
    def const(self, st, v):
        v = st.norm(self.tolin(st, v, 32)) if isinstance(v, (Lin, Bits)) else None
        return v.c if v is not None and not v.t else None
    def text(self, st, p):
        if not isinstance(p, Ptr) or p.obj is None: return None
        o = p.obj
        if 'text' in o.info: return o.info['text'] if st.is_eq(p.off) else None
        if p.off.t or o.kind not in ('global', 'stack'): return None
        b = self.mod.globals.get(o.name[1:], {}).get('bytes') if o.ro else None
        if b is not None and p.off.c >= 0:
            b = bytes(b)[p.off.c:]
            return b.split(bytes(1))[0].decode('latin1')
        if o.id not in st.mem:
            if o.kind != 'global': return None
            self.init_global(st, o)
        out = ''
        for i in range(p.off.c, p.off.c + 400):
            c = st.m(o).cells.get(i)
            if c is None:
                b = self.byte_at(st, st.m(o), i)
                if b == 0: return out
                if b is None: return out if 'bytes' in self.mod.globals.get(o.name[1:], {}) else None
                out += chr(b); continue
            if not isinstance(c[1], Lin) or c[1].t: return None
            if c[1].c == 0: return out
            out += chr(c[1].c & 255)
        return None
    def word(self, st, p):
        """which argument a pointer designates"""
        if isinstance(p, Ptr) and p.obj is not None and 'word' in p.obj.info and st.is_eq(p.off): return p.obj.info['word']
        return None
    def newword(self, name, text=None):
        o = Obj('argument ' + name, 'static', None)
        o.info['word'] = name
        if text is not None: o.info['text'] = text
        else: o.handler = self.wh
        return o
    def xob(self, st, ok, msg, prop=None):
        f = self.mod.func('main')
        self.stack.append((f.name, '-'))
        self.oblige(prop or self.PROP, ok, st, {'l': (f.d.get('file') or f.name, f.d.get('line') or 0)}, 'at the end of the program: %s' % msg)
        self.stack.pop()
    # ------------------------------------------------------------ entry
    def driver(self):
        PARAMS.clear()
        opts = sorted(self.OPTS)
        for ops, chosen in [(w, [c for i, c in enumerate(opts) if b >> i & 1]) for w in self.WORDS or [()] for b in range(1 << len(opts))]:
            if not self.sensible(chosen): continue
            st = State(); st.mon = {}
            m = st.mw(self.ERRNO); m.cells[0] = (4, sym('errno0', 0, 133))
            self.wh = WordH(self)
            words = [self.newword('program'), self.newword('command', self.api.split('/')[1])] + [self.newword(w) for w in ops]
            self.argobj = dict((o.info['word'], o) for o in words)
            self.optobj = dict((c, self.newword('-' + c)) for c in self.OPTS)
            av = Obj('argv', 'static', K(8 * (len(words) + 1)))
            m = st.mw(av)
            for i, o in enumerate(words): m.cells[8 * i] = (8, Ptr(o))
            m.cells[8 * len(words)] = (8, NULL)
            for g in self.mod.globals:
                if not g.startswith('.str') and not g.startswith('__') and g not in ('stdin', 'stdout', 'stderr', 'environ'): self.init_global(st, self.globalobj(g))
            for g, v, z in (('optind', ONE, 4), ('optarg', NULL, 8), ('opterr', ONE, 4)):
                if g in self.mod.globals: self.mem_store(st, self.globalobj(g), ZERO, z, v)
            st.mon['opts'] = frozenset(); self.chosen = chosen; st.mon['cause'] = frozenset()
            self.begin(st); self.consts = {}
            yield 'operands %s, options %s' % (' '.join(ops), ' '.join('-' + c for c in chosen) or 'none'), st, [K(len(words)), Ptr(av)]
    def bounds_of(self, st, v):
        lo, hi = CanonMixin.bounds_of(self, st, v)
        if v.t:
            if lo is not None and lo > 1: lo = 1
            if hi is not None and hi > 1 << 36: hi = 1 << 50
        return lo, hi
    def counting(self, st, f, h, cnts):
        if 'epoll_wait' not in self.body_calls(f, h): return ()
        out = set()
        for i, m in st.mem.items():
            o = OBJS.get(i)
            if o is None or o.ro or o.kind not in ('global', 'stack') or i == self.ERRNO.id: continue
            for k, c in m.cells.items():
                if c[0] < 4 or not isinstance(c[1], Lin): continue
                v = st.norm(c[1])
                if v.t or v.c <= 0: continue
                seen = self.consts.setdefault((f.name, h, i, k), set()); seen.add(v.c)
                if len(seen) > 4: out.add((i, k)); cnts[c[1]] = 1
        return out
    def keepfact(self, l): return len(l.t) == 1 or all(abs(a) == 1 for _, a in l.t)
    def sensible(self, chosen): return True
    def before_head(self, f, h, st):
        o = self.dups.get('events')
        if o is not None and o.id in st.mem and 'epoll_wait' in self.body_calls(f, h):
            m = st.mw(o); m.cells = {}; m.syms = (); m.fills = ((ZERO, K(1 << 20), None),); m.ver = fresh_ver()
    def begin(self, st): pass
    def run_api(self):
        n = 0
        if not self.fits(): return 0
        for name, st, args in getattr(self, 'drv_' + self.api.replace('/', '_'), self.driver)():
            self.case = name
            for s, v in self.run('main', args, st):
                n += 1
                self.at_exit(s, v)
            self.reached(self.PROP)
        return n
    def reached(self, prop): pass
    def m_exit(self, st, args, ins):
        self.usage_exit(st, args[0] if args else K(-1), ins)
        return []
    m__exit = m_exit
    def usage_exit(self, st, v, ins): pass
    def at_exit(self, st, v): pass
    def at_failed_exit(self, st, v): return
    # ------------------------------------------------------------ words
    def word_load(self, st, o, off, ins):
        v = memo_sym(('chr', o.id, off), 'char', -128, 127)
        return [(st, S(v))]
    def word_store(self, st, o, off, size, v, ins): return [st]
    def m_strdup(self, st, args, ins):
        w = self.word(st, args[0])
        if w is None: return [(st, Ptr(self.new_heap(st, ins, K(1 << 20), False)))]
        p = Obj('copy of ' + w, 'heap', None)
        k = ('dup', args[0].obj.id, self.loc(ins))
        if k not in self.dups:
            self.dups[k] = p
            p.info.update(args[0].obj.info); p.handler = args[0].obj.handler
        p = self.dups[k]
        st.mon[('res', 'heap', p.id)] = 'live'
        return [(st, Ptr(p))]
    def m_strcmp(self, st, args, ins):
        a, b = self.text(st, args[0]), self.text(st, args[1])
        if a is not None and b is not None: return [(st, K(0 if a == b else 1 if a > b else -1))]
        return [(st, K(0)), (st.copy(), K(1))]
    def m_strncmp(self, st, args, ins):
        a, b = self.text(st, args[0]), self.text(st, args[1]); n = st.norm(self.tolin(st, args[2], 64))
        if a is not None and b is not None and not n.t: return [(st, K(0 if a[:n.c] == b[:n.c] else 1))]
        return [(st, K(0)), (st.copy(), K(1))]
    def m_strlen(self, st, args, ins):
        p = args[0]
        if p is NULL or isinstance(p, Ptr) and p.obj is None: self.bad_access(st, p, ins, 'strlen'); return []
        t = self.text(st, p)
        if t is not None: return [(st, K(len(t)))]
        w = self.word(st, p)
        if w is not None: return [(st, S(memo_sym(('wordlen', w), 'strlen', 0, 1 << 17)))]
        return [(st, self.at(ins, 'strlen', 0, 1 << 30))]
    def m_strchr(self, st, args, ins):
        p = args[0]
        w = self.word(st, p)
        out = [(st.copy(), NULL)]
        if isinstance(p, Ptr) and p.obj is not None: out.append((st, Ptr(p.obj, st.norm(p.off + self.at(ins, 'pos', 0, 1 << 16)))))
        return out
    m_strrchr = m_strchr
    def m_strcat(self, st, args, ins): return [(st, args[0])]
    def number(self, st, w, lo=0, hi=1 << 20): return S(memo_sym(('number', w), 'number ' + w, lo, hi))
    def m_atoi(self, st, args, ins):
        w = self.word(st, args[0])
        if w is not None: return [(st, self.number(st, w, 0, (1 << 31) - 1))]
        return [(st, self.at(ins, 'atoi', -(1 << 31), (1 << 31) - 1))]
    m_atol = m_atoi
    # ------------------------------------------------------------ options
    def m_getopt(self, st, args, ins):
        optstr = self.text(st, args[2])
        out = []
        left = [c for c in self.chosen if c not in st.mon['opts']]
        for c in left:
            if optstr is None: continue
            i = optstr.find(c)
            ok = i >= 0 and (optstr[i + 1:i + 2] == ':') == bool(self.OPTS[c])
            self.oblige(self.PROP, ok, st, ins, 'option -%s is accepted %s an argument' % (c, 'with' if self.OPTS[c] else 'without'))
            if not ok: continue
            s = st.copy(); s.mon['opts'] = s.mon['opts'] | {c}
            self.mem_store(s, self.globalobj('optarg'), ZERO, 8, Ptr(self.optobj[c]) if self.OPTS[c] else NULL)
            self.option(s, c)
            out.append((s, K(ord(c))))
        if left and optstr is not None: return out
        self.mem_store(st, self.globalobj('optarg'), ZERO, 8, NULL)
        out.append((st, K(-1)))
        return out
    def option(self, st, c): pass
    # ------------------------------------------------------------ library
    def ring(self, w):
        k = ('ring', w)
        if k not in self.dups: self.dups[k] = Obj('handle of ' + w, 'static', None); self.dups[k].info['ring'] = w
        return self.dups[k]
    RINGS = {}       # operand -> 'r' | 'w'
    def m_shr_open(self, st, args, ins):
        w = self.word(st, args[0]); fl = self.const(st, args[1])
        rd, wr = self.flag('SHR_RDONLY'), self.flag('SHR_WRONLY')
        self.oblige(self.PROP, w in self.RINGS, st, ins, 'the ring opened is the one named')
        if w not in self.RINGS: return []
        self.oblige(self.PROP, fl is not None and fl & (rd | wr) == (rd if self.RINGS[w][0] == 'r' else wr), st, ins, 'the ring is opened for %s' % ('reading' if self.RINGS[w][0] == 'r' else 'writing'))
        if 'b' in self.RINGS[w]: self.oblige(self.PROP, fl is not None and not fl & self.flag('SHR_NONBLOCK'), st, ins, 'the ring written is opened in blocking mode, so that no message is skipped')
        if 'n' in self.RINGS[w]: self.oblige(self.PROP, fl is not None and bool(fl & self.flag('SHR_NONBLOCK')), st, ins, 'the ring read is opened in non-blocking mode, so that signals stay effective')
        self.oblige(self.PROP, st.mon.get(('open', w)) != 'live', st, ins, 'a ring is opened once')
        f = self.failed(st, 'open')
        st.mon[('open', w)] = 'live'
        return [(f, NULL), (st, Ptr(self.ring(w)))]
    def flag(self, n):
        if not hasattr(self, '_flags'):
            self._flags = {}
            import re, build
            for l in open('%s/src/shr.h' % build.REPO):
                x = re.match(r'\s*#\s*define\s+(SHR_\w+)\s+\(?\s*(?:1U?\s*<<\s*(\d+)|(0x[0-9a-fA-F]+|\d+))', l)
                y = re.match(r'\s*#\s*define\s+(SHR_\w+)\s+(SHR_\w+)', l)
                if y and y.group(2) in self._flags: self._flags[y.group(1)] = self._flags[y.group(2)]
                if x: self._flags[x.group(1)] = 1 << int(x.group(2)) if x.group(2) else int(x.group(3), 0)
        return self._flags[n]
    def isring(self, st, p, w): return isinstance(p, Ptr) and p.obj is not None and p.obj.info.get('ring') == w and st.mon.get(('open', w)) == 'live'
    def m_shr_get_selectable_fd(self, st, args, ins): return self.fdres(st, RINGFD, 'open')
    def m_shr_close(self, st, args, ins):
        p = args[0]
        w = p.obj.info.get('ring') if isinstance(p, Ptr) and p.obj is not None else None
        self.oblige(self.PROP, w is not None and st.mon.get(('open', w)) == 'live', st, ins, 'the ring closed is open (no double close)')
        if w is not None: st.mon[('open', w)] = 'gone'
        return [(st, None)]
    # ------------------------------------------------------------ system
    def m_socket(self, st, args, ins):
        out = self.fdres(st, SOCKFD, 'setup'); out[1][0].mon['sock'] = 'live'; return out
    def m_bind(self, st, args, ins): return self.okfail(st, 'setup')
    m_listen = m_setsockopt = m_connect = m_bind
    def m_gethostbyname(self, st, args, ins):
        k = 'hostent'
        if k not in self.dups:
            for n, z in (('hostent', 32), ('addrlist', 16), ('addr', 4)): self.dups[n] = Obj(n, 'static', K(z))
        h, l, a = self.dups['hostent'], self.dups['addrlist'], self.dups['addr']
        f = st.copy(); f.mon['cause'] = f.mon['cause'] | {'setup'}
        m = st.mw(h); m.cells = {16: (4, K(2)), 20: (4, K(4)), 24: (8, Ptr(l))}
        m = st.mw(l); m.cells = {0: (8, Ptr(a)), 8: (8, NULL)}
        m = st.mw(a); m.cells = {0: (4, S(memo_sym(('addr',), 'addr', 0, (1 << 32) - 1)))}
        return [(f, NULL), (st, Ptr(h))]
    def m_htons(self, st, args, ins): return [(st, self.at(ins, 'port', 0, 65535))]
    def m_htonl(self, st, args, ins): return [(st, ZERO if st.is_eq(self.tolin(st, args[0], 32)) else self.at(ins, 'addr', 0, (1 << 32) - 1))]
    def m_inet_ntoa(self, st, args, ins): return [(st, Ptr(self.ERRSTR))]
    m_hstrerror = m_inet_ntoa
    def m_epoll_create(self, st, args, ins): return self.fdres(st, EPFD, 'setup')
    def m_alarm(self, st, args, ins):
        st.mon['alarm'] = True; return [(st, ZERO)]
    def m_munmap(self, st, args, ins): return [(st, ZERO)]
    def m_epoll_ctl(self, st, args, ins):
        ep, op, fd = (self.const(st, a) for a in args[:3])
        p = args[3]
        self.oblige(self.PROP, ep == EPFD and op is not None and fd is not None, st, ins, 'the event set is changed for a known descriptor')
        if ep != EPFD or fd is None or op is None: return []
        ev = data = None
        if isinstance(p, Ptr) and p.obj is not None:
            self.check_bounds(st, p, K(12), ins, 'read')
            ev = self.const(st, self.mem_load(st, p.obj, p.off, 4, False)); data = self.const(st, self.mem_load(st, p.obj, p.off + 4, 4, False))
        elif op != EP_DEL: self.bad_access(st, p, ins, 'event'); return []
        k = ('ep', fd)
        known = k in st.mon
        self.oblige(self.PROP, known == (op != EP_ADD), st, ins, 'descriptors are added to the event set once and changed only when present')
        if known != (op != EP_ADD): return [(self.failed(st, 'epoll'), K(-1))]
        if op != EP_DEL: self.oblige(self.PROP, ev is not None and data == fd, st, ins, 'events of a descriptor carry its number')
        f = self.failed(st, 'epoll')
        if op == EP_DEL: st.mon.pop(k)
        else: st.mon[k] = ev
        return [(f, K(-1)), (st, ZERO)]
    def m_epoll_wait(self, st, args, ins):
        self.idle(st, ins)
        p = args[1]; tmo = self.const(st, args[3])
        self.oblige(self.PROP, self.const(st, args[0]) == EPFD, st, ins, 'events are awaited on the event set')
        out = [(self.failed(st, 'epoll', EINTR), K(-1))]
        self.check_bounds(st, p, K(12), ins, 'write')
        self.dups['events'] = p.obj
        for k in sorted(k for k in st.mon if isinstance(k, tuple) and k[0] == 'ep'):
            if not st.mon[k] & EPOLLIN: continue
            s = st.copy()
            self.mem_store(s, p.obj, p.off, 4, K(EPOLLIN)); self.mem_store(s, p.obj, p.off + 4, 4, K(k[1]))
            out.append((s, ONE))
        if tmo is None or tmo >= 0: out.append((st, ZERO))
        return out
    def idle(self, st, ins):
        """the tool waits for events"""
        st.mon['running'] = True
        self.oblige(self.PROP, bool(st.mon.get(('ep', SIGFD), 0) & EPOLLIN), st, ins, 'signals are awaited')
    def m_read(self, st, args, ins):
        fd = self.const(st, args[0]); p = args[1]
        if fd == SIGFD:
            self.check_bounds(st, p, self.tolin(st, args[2], 64), ins, 'write')
            f = self.failed(st, 'signal')
            self.mem_kill(st, p.obj, p.off, 128); self.fill_unknown(st, p, K(128))
            a = st.copy()
            self.mem_store(a, p.obj, p.off, 4, K(SIGALRM))
            v = self.at(ins, 'signo', 1, 64); st.add_ne(v - SIGALRM)
            self.mem_store(st, p.obj, p.off, 4, v); st.mon['cause'] = st.mon['cause'] | {'signal'}
            return [(f, K(-1)), (a, K(128)), (st, K(128))]
        return self.read_fd(st, fd, p, args[2], ins)
    def read_fd(self, st, fd, p, n, ins):
        self.oblige(self.PROP, False, st, ins, 'reads are made from a known descriptor')
        return []
    def m_recv(self, st, args, ins): return self.read_fd(st, self.const(st, args[0]), args[1], args[2], ins)
    def m_write(self, st, args, ins): return self.write_fd(st, self.const(st, args[0]), args[1], args[2], ins)
    def write_fd(self, st, fd, p, n, ins):
        self.oblige(self.PROP, False, st, ins, 'writes are made to a known descriptor')
        return []
    def m_close(self, st, args, ins):
        fd = self.const(st, args[0])
        self.oblige(self.PROP, fd is not None and fd >= 0, st, ins, 'the descriptor closed is known')
        if fd is not None: st.mon.pop(('ep', fd), None); self.closing(st, fd, ins)
        return [(st, ZERO)]
    def closing(self, st, fd, ins): pass
    def m_fflush(self, st, args, ins): return [(st, ZERO)]
    def out(self, st, fmt, args, ins): pass
    def stream(self, st, p):
        for n in ('stdout', 'stderr', 'stdin'):
            if isinstance(p, Ptr) and p.obj is not None and p.obj.info.get('stream') == n: return n
        return None
    def load(self, st, p, size, isptr, ins):
        if isptr and isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'global' and p.obj.name in ('@stdout', '@stderr', '@stdin'):
            n = p.obj.name[1:]
            if ('stream', n) not in self.heap: o = self.heap['stream', n] = Obj(n, 'static', None); o.info['stream'] = n
            return [(st, Ptr(self.heap['stream', n]))]
        return Interp.load(self, st, p, size, isptr, ins)
    def m_printf(self, st, args, ins):
        self.output(st, args[0], args[1:], ins); return self.m_ignore(st, args, ins)
    def m_fprintf(self, st, args, ins):
        if self.stream(st, args[0]) == 'stdout': self.output(st, args[1], args[2:], ins)
        return self.m_ignore(st, args, ins)
    def m_puts(self, st, args, ins):
        self.output(st, args[0], (), ins, '\n'); return self.m_ignore(st, args, ins)
    def m_fputs(self, st, args, ins):
        if self.stream(st, args[1]) == 'stdout': self.output(st, args[0], (), ins)
        return self.m_ignore(st, args, ins)
    def m_putchar(self, st, args, ins):
        c = self.const(st, args[0]); self.literal(st, chr(c & 255) if c is not None else '?', ins); return self.m_ignore(st, args, ins)
    def m_fputc(self, st, args, ins):
        if self.stream(st, args[1]) == 'stdout': return self.m_putchar(st, args, ins)
        return self.m_ignore(st, args, ins)
    m_putc = m_fputc
    def m_fwrite(self, st, args, ins):
        if self.stream(st, args[3]) == 'stdout': return self.fwrite(st, args, ins)
        return self.m_ignore(st, args, ins)
    def fwrite(self, st, args, ins): return self.m_ignore(st, args, ins)
    def output(self, st, f, args, ins, tail=''):
        t = self.text(st, f)
        if t is None: self.literal(st, '?', ins); return
        t += tail; i = 0; args = list(args); lit = ''
        while i < len(t):
            if t[i] != '%' or t[i:i + 2] == '%%':
                lit += t[i]; i += 2 if t[i:i + 2] == '%%' else 1; continue
            j = i + 1; star = False
            while j < len(t) and t[j] in "lzhjtq0123456789.-+ #*":
                if t[j] == '*' and args: self.starv = args.pop(0)
                j += 1
            if lit: self.literal(st, lit, ins); lit = ''
            self.oblige(self.PROP, bool(args), st, ins, 'every conversion printed has an argument')
            if not args: return
            self.value(st, t[i:j + 1], args.pop(0), ins)
            i = j + 1
        if lit: self.literal(st, lit, ins)
    def literal(self, st, t, ins): pass
    def value(self, st, conv, v, ins): pass
    def m_snprintf(self, st, args, ins):
        d, n = args[0], st.norm(self.tolin(st, args[1], 64))
        self.check_bounds(st, d, n, ins, 'write')
        self.mem_kill(st, d.obj, d.off, n if n.t else n.c); self.fill_unknown(st, d, n)
        st.mon[('printed', d.obj.id)] = self.printed(st, args[2], args[3:])
        return [(st, self.at(ins, 'len', 0, 1 << 16))]
    def printed(self, st, f, args): return None
    def intrinsic(self, st, ins, name, args):
        if name.startswith('llvm.memcpy'):
            d, s = args[0], args[1]
            if isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj is not None and d.obj is s.obj:
                def apart():
                    n = self.tolin(st, args[2], 64); x = s.off - d.off
                    return st.entails(x - n) or st.entails(-x - n) or st.is_eq(n)
                self.oblige(self.PROP, apart, st, ins, 'bytes are not copied over themselves')
        return Interp.intrinsic(self, st, ins, name, args)
    def bufwrite(self, st, p, n, ins):
        """the environment fills n bytes at p"""
        if p.obj.handler is None:
            self.mem_kill(st, p.obj, p.off, n if n.t else n.c); self.fill_unknown(st, p, n)

# ------------------------------------------------------------ subscriber
class BufH(Handler):
    """receive buffer: frame headers are read at frame boundaries only"""
    def __init__(self, M): self.M = M
    def load(self, I, st, o, off, size, isptr, ins):
        return [(st, self.M.header(st, o, off, K(size), ins))]
    def copy_from(self, I, st, d, s, ln, ins):
        M = self.M
        I.check_bounds(st, s, ln, ins, 'read')
        if d.obj is s.obj: return M.move(st, d, s, ln, ins)
        I.check_bounds(st, d, ln, ins, 'write')
        n = st.norm(ln)
        if n.t or n.c > 8:
            I.raw_copy(st, d, s, ln); return [st]
        v = M.header(st, s.obj, s.off, n, ins)
        I.mem_store(st, d.obj, d.off, n.c, v)
        return [st]
    def over(self, I, st, off, ins): I.oblige('C25', lambda: st.entails(off - st.g['end']), st, ins, 'received bytes are not overwritten')
    def store(self, I, st, o, off, size, v, ins):
        I.check_bounds(st, Ptr(o, off), K(size), ins, 'store'); self.over(I, st, off, ins)
        return [st]
    def copy_to(self, I, st, d, s, ln, ins):
        I.check_bounds(st, d, ln, ins, 'write'); self.over(I, st, d.off, ins)
        return [st]
    def memset(self, I, st, d, b, ln, ins):
        I.check_bounds(st, d, ln, ins, 'write'); self.over(I, st, d.off, ins)
        return [st]

class IovH(Handler):
    def __init__(self, M): self.M = M
    def store(self, I, st, o, off, size, v, ins):
        I.check_bounds(st, Ptr(o, off), K(size), ins, 'store')
        return self.M.iov_store(st, o, off, size, v, ins)
    def load(self, I, st, o, off, size, isptr, ins):
        I.check_bounds(st, Ptr(o, off), K(size), ins, 'load')
        return [(st, UNDEF if isptr else I.fresh('iov', 64))]

class SubApi(ToolMain):
    PROP = 'C25'
    WORDS = [('addr', 'ring')]
    OPTS = {'v': 0}
    RINGS = {'ring': 'wb'}
    BUF = IOV = None
    def begin(self, st):
        st.g['cut'] = st.g['end'] = st.g['cnt'] = ZERO
        self.BUF = self.IOV = None
    def idle(self, st, ins):
        ToolMain.idle(self, st, ins)
        if self.only is not None and 'C25' not in self.only: return
        self.oblige('C25', bool(st.mon.get(('ep', SOCKFD), 0) & EPOLLIN), st, ins, 'data from the publisher is awaited')
        self.oblige('C25', 'publisher' not in st.mon['cause'] and 'ring' not in st.mon['cause'], st, ins, 'a failure ends the subscription')
        self.oblige('C25', lambda: st.is_eq(st.g['cnt']) and not st.mon.get('iv0') and not st.mon.get('iv8'), st, ins, 'every frame collected was passed to the ring')
        rem = st.norm(st.g['end'] - st.g['cut'])
        if st.is_eq(rem): st.g['end'] = st.g['cut'] = ZERO
        self.oblige('C25', lambda: st.entails(K(3) - rem) or 'hdr' in st.g and st.entails(st.g['hdr'] + 3 - rem), st, ins, 'only a partial frame is held back')
        self.oblige('C25', lambda: 'hdr' not in st.g or self.BUF is not None and st.entails(self.BUF.size - 4 - st.g['hdr']), st, ins, 'a frame being collected fits the buffer')
    def read_fd(self, st, fd, p, n, ins):
        out = []
        self.oblige('C25', fd == SOCKFD, st, ins, 'the publisher connection is read')
        for s, n in self.uns(st, n, 64):
            s = s.copy(); n = s.norm(n)
            if not isinstance(p, Ptr) or p.obj is None: self.bad_access(s, p, ins, 'receive'); continue
            if self.BUF is None:
                self.BUF = p.obj; p.obj.handler = BufH(self)
                if isinstance(p.obj.size, int): p.obj.size = K(p.obj.size)
            self.check_bounds(s, p, n, ins, 'write')
            self.oblige('C25', lambda: s.entails(n - 1), s, ins, 'the buffer has room for more data')
            out.append((self.failed(s, 'publisher'), K(-1)))
            out.append((self.failed(s, 'publisher'), ZERO))
            r = self.at(ins, 'nread', 1, 1 << 40)
            if not s.add_ge(n - r): continue
            self.oblige('C25', lambda: p.obj is self.BUF and s.is_eq(p.off - s.g['end']), s, ins, 'received bytes are appended to the bytes held')
            if p.obj is not self.BUF or not s.is_eq(p.off - s.g['end']): continue
            s.g['end'] = s.norm(s.g['end'] + r)
            out.append((s, r))
        return out
    def header(self, st, o, off, n, ins):
        self.check_bounds(st, Ptr(o, off), n, ins, 'read')
        self.oblige('C25', lambda: st.entails(st.g['end'] - off - n), st, ins, 'only received bytes are interpreted')
        if n.t: return UNDEF
        if n.c == 4 and st.is_eq(off - st.g['cut']):
            if 'hdr' not in st.g: st.g['hdr'] = self.at(ins, 'blen', 0, (1 << 32) - 1)
            return st.g['hdr']
        return self.fresh('bytes', 8 * n.c)
    def move(self, st, d, s, ln, ins):
        if st.is_eq(ln): return [st]
        ok = lambda: st.is_eq(d.off) and st.is_eq(s.off - st.g['cut']) and st.is_eq(st.g['end'] - s.off - ln)
        self.oblige('C25', ok, st, ins, 'the bytes that belong to a partial frame, and no others, are kept')
        if not ok(): return []
        st.g['end'] = st.norm(ln); st.g['cut'] = ZERO
        return [st]
    def emit(self, st, v, l, ins):
        """one frame body becomes part of a message"""
        def ok():
            h = st.g.get('hdr')
            return h is not None and isinstance(v, Ptr) and v.obj is self.BUF and st.is_eq(v.off - st.g['cut'] - 4) and isinstance(l, (Lin, Bits)) and st.is_eq(self.tolin(st, l, 64) - h)
        self.oblige('C25', ok, st, ins, 'each message is the body of the next frame')
        if not ok(): return False
        h = st.g['hdr']
        self.oblige('C25', lambda: st.entails(st.g['end'] - st.g['cut'] - 4 - h), st, ins, 'a frame is passed on only when all of it was received')
        st.g['cut'] = st.norm(st.g['cut'] + 4 + h); st.g.pop('hdr')
        if st.is_eq(st.g['end'] - st.g['cut']): st.g['cut'] = st.g['end'] = ZERO
        return True
    def iov_store(self, st, o, off, size, v, ins):
        c = st.g['cnt']
        k = st.norm(off - c.scale(16))
        if size != 8 or k.t or k.c not in (0, 8):
            self.oblige('C25', False, st, ins, 'vector entries are filled one after another')
            return []
        st.mon['iv%d' % k.c] = True; st.g['iv%d' % k.c] = v if not isinstance(v, Bits) else self.tolin(st, v, 64)
        if st.mon.get('iv0') and st.mon.get('iv8'):
            b, l = st.g.pop('iv0'), st.g.pop('iv8'); st.mon.pop('iv0'); st.mon.pop('iv8')
            if not self.emit(st, b, l, ins): return []
            st.g['cnt'] = st.norm(c + 1)
        return [st]
    def store(self, st, p, size, v, ins):
        if self.IOV is None and self.BUF is not None and isinstance(v, Ptr) and v.obj is self.BUF and isinstance(p, Ptr) and p.obj is not None and p.obj.kind in ('global', 'heap') and p.obj.size is not None \
                and p.obj.name != '@cfg' and st.entails((p.obj.size if isinstance(p.obj.size, Lin) else K(p.obj.size)) - 160):
            self.IOV = p.obj; p.obj.handler = IovH(self)
        return Interp.store(self, st, p, size, v, ins)
    def m_shr_read(self, st, args, ins):
        self.oblige('C25', False, st, ins, 'the ring of a subscriber is only written'); return []
    def wrote(self, st, ins):
        return [(st, self.at(ins, 'wrote', 1, 1 << 40))] + [(self.failed(st, 'ring'), K(e)) for e in (-1, -2, -3)]
    def m_shr_writev(self, st, args, ins):
        p, n = args[1], self.tolin(st, args[2], 64)
        self.oblige('C25', self.isring(st, args[0], 'ring'), st, ins, 'frames go to the ring of the subscriber')
        self.oblige('C25', lambda: isinstance(p, Ptr) and p.obj is self.IOV and st.is_eq(p.off) and st.is_eq(n - st.g['cnt']) and not st.mon.get('iv0') and not st.mon.get('iv8'), st, ins, 'the frames collected, and no others, are passed to the ring')
        st.g['cnt'] = ZERO
        return self.wrote(st, ins)
    def m_shr_write(self, st, args, ins):
        self.oblige('C25', self.isring(st, args[0], 'ring'), st, ins, 'frames go to the ring of the subscriber')
        self.oblige('C25', lambda: st.is_eq(st.g['cnt']), st, ins, 'frames are passed on in order')
        if not self.emit(st, args[1], args[2], ins): return []
        return self.wrote(st, ins)
    def relations(self, st):
        r = [((1, st.g['cut']), (-4, st.g['cnt'])), ((1, st.g['end']), (-1, st.g['cut']))]
        r.append(((1, K(3)), (-1, st.g['end']), (1, st.g['cut'])))
        if self.BUF is not None:
            r.append(((1, self.BUF.size - 1), (-1, st.g['end']), (1, st.g['cut'])))
            r.append(((1, self.BUF.size), (-1, st.g['end'])))
            if 'hdr' in st.g: r += [((1, st.g['hdr']), (1, K(3)), (-1, st.g['end']), (1, st.g['cut'])), ((1, self.BUF.size - 4), (-1, st.g['hdr']))]
        return r
    def counters(self, st, f, h):
        c = st.norm(st.g['cnt'])
        return {c: 1} if not c.t and c.c > 0 else {}
    def at_exit(self, st, v):
        if not st.mon['cause'] and st.mon.get('running'):
            self.xob(st, lambda: 'hdr' in st.g and self.BUF is not None and st.entails(st.g['hdr'] + 4 - self.BUF.size - 1), 'the subscriber gives up only on a signal, a connection or ring failure, or a frame it cannot hold')


# ------------------------------------------------------------ readers
class MsgH(Handler):
    """buffer that holds the message read last"""
    def __init__(self, M): self.M = M
    def load(self, I, st, o, off, size, isptr, ins):
        M = self.M
        I.check_bounds(st, Ptr(o, off), K(size), ins, 'load')
        if 'nr' not in st.g: return [(st, UNDEF if isptr else I.fresh('bytes', 8 * size))]
        r = off - st.g['msg'].off
        I.oblige('C26', lambda: st.entails(r) and st.entails(st.g['nr'] - r - size), st, ins, 'only bytes of the message are looked at')
        v = I.at(ins, 'byte', -(1 << (8 * size - 1)), (1 << (8 * size)) - 1 if size > 1 else 127)
        if size == 1: st.g['byte'] = v; st.g['byteoff'] = st.norm(r)
        return [(st, v)]
    def kept(self, I, st, o, off, n, ins):
        def ok():
            if 'nr' not in st.g or st.g['msg'].obj is not o: return True
            b = st.g['msg'].off
            return st.entails(off - b - st.g['nr']) or st.entails(b - off - n)
        I.check_bounds(st, Ptr(o, off), n, ins, 'write')
        I.oblige('C26', ok, st, ins, 'the message is not changed before it is forwarded')
        return [st]
    def store(self, I, st, o, off, size, v, ins): return self.kept(I, st, o, off, K(size), ins)
    def copy_to(self, I, st, d, s, ln, ins):
        if s.obj.handler is None: I.check_bounds(st, s, ln, ins, 'read')
        return self.kept(I, st, d.obj, d.off, ln, ins)
    def memset(self, I, st, d, b, ln, ins): return self.kept(I, st, d.obj, d.off, ln, ins)

class ForwardApi(ToolMain):
    PROP = 'C26'
    BUF = None
    def begin(self, st):
        self.BUF = None
        st.g['done'] = ZERO
    def option(self, st, c):
        if c == 'N': st.g['lim'] = self.number(st, '-N', 0, (1 << 31) - 1)
    def m_shr_read(self, st, args, ins):
        p = args[1]
        self.oblige('C26', self.isring(st, args[0], 'ring'), st, ins, 'messages are read from the ring named')
        if not self.finish(st, ins): return []
        self.more(st, ins)
        out = []
        for s, n in self.uns(st, args[2], 64):
            s = s.copy(); n = s.norm(n)
            if not isinstance(p, Ptr) or p.obj is None: self.bad_access(s, p, ins, 'read'); continue
            self.check_bounds(s, p, n, ins, 'write')
            if p.obj.handler is None: p.obj.handler = MsgH(self)
            for e in (-1, -2, -3): out.append((self.failed(s, 'ring'), K(e)))
            z = s.copy(); z.mon['none'] = True; out.append((z, ZERO))
            r = self.at(ins, 'msglen', 1, 1 << 40)
            if not s.add_ge(n - r): continue
            s.g['nr'] = r; s.g['out'] = ZERO; s.g['msg'] = Ptr(p.obj, s.norm(p.off)); s.g['pre'] = ZERO
            s.mon['msg'] = True
            out.append((s, r))
        return out
    def more(self, st, ins):
        """another message may be read"""
        if 'N' not in st.mon['opts']: return
        def ok():
            l = st.g['lim']
            s = st.copy()
            return not s.add_ge(l - 1) or s.entails(l - 1 - s.g['done'])
        self.oblige('C26', ok, st, ins, 'no more messages are read than asked for')
    def complete(self, st): return st.is_eq(st.g['nr'] - st.g['out'])
    def over(self, st):
        for k in ('nr', 'out', 'msg', 'pre', 'byte', 'byteoff', 'shown'): st.g.pop(k, None)
        for k in ('msg', 'to', 'hex'): st.mon.pop(k, None)
    def finish(self, st, ins):
        if not st.mon.get('msg'): return True
        ok = self.complete(st)
        self.oblige('C26', ok, st, ins, 'every byte of a message is forwarded before the next is read')
        if 'done' in st.g: st.g['done'] = st.norm(st.g['done'] + 1)
        self.over(st)
        return ok
    def idle(self, st, ins):
        ToolMain.idle(self, st, ins)
        self.finish(st, ins)
        self.oblige('C26', 'signal' not in st.mon['cause'], st, ins, 'a termination signal ends the tool')
        self.oblige('C26', 'ring' not in st.mon['cause'] and 'write' not in st.mon['cause'], st, ins, 'failures to read or write end the tool')
        self.idle_ring(st, ins)
        self.over(st)
        st.mon.pop('none', None)
    def idle_ring(self, st, ins):
        self.oblige('C26', bool(st.mon.get(('ep', RINGFD), 0) & EPOLLIN), st, ins, 'new messages are awaited')
        self.more(st, ins)
    def at_exit(self, st, v):
        if not st.mon.get('running'): return
        self.xob(st, lambda: not st.mon.get('msg') or self.complete(st) or st.mon['cause'] & {'write', 'ring'}, 'every byte of a message read is forwarded')
        if st.mon.get('msg') and 'done' in st.g: st.g['done'] = st.norm(st.g['done'] + 1)
        self.xob(st, lambda: bool(st.mon['cause']) or self.may_end(st), 'the tool ends only on a signal, a failure, the end of the data or the limit asked for')
    def may_end(self, st): return False
    def piece(self, st, p, n, to, ins):
        """n bytes at p are sent; -> results of the write"""
        if not st.mon.get('msg'):
            self.oblige('C26', False, st, ins, 'only messages are written to the ' + to); return []
        out = []
        for s, n in self.uns(st, n, 64):
            s = s.copy(); n = s.norm(n)
            if s.is_eq(n): out.append((s, ZERO)); continue
            if not isinstance(p, Ptr) or p.obj is None: self.bad_access(s, p, ins, 'write'); continue
            self.check_bounds(s, p, n, ins, 'read')
            k = self.position(s, p, n, to, ins)
            if k is None: continue
            self.oblige('C26', lambda: s.entails(n - 1), s, ins, 'each write makes progress')
            out.append((self.wfail(s.copy()), K(-1)))
            r = self.at(ins, 'sent', 1, 1 << 40)
            if not s.add_ge(n - r): continue
            s.g[k] = s.norm(s.g[k] + r)
            out.append((s, r))
        return out
    def wfail(self, s): return self.failed(s, 'write', EPIPE)
    def position(self, s, p, n, to, ins):
        ok = p.obj is s.g['msg'].obj and s.is_eq(p.off - s.g['msg'].off - s.g['out'])
        self.oblige('C26', ok, s, ins, 'a message is sent in order, each piece following the bytes already sent')
        if not ok: return None
        ok = s.entails(s.g['nr'] - s.g['out'] - n)
        self.oblige('C26', ok, s, ins, 'nothing beyond the message is sent')
        return 'out' if ok else None
    def before_head(self, f, h, st):
        ToolMain.before_head(self, f, h, st)
        if st.mon.get('msg') and 'epoll_wait' in self.body_calls(f, h) and self.complete(st):
            if 'done' in st.g: st.g['done'] = st.norm(st.g['done'] + 1)
            self.over(st)
    def exact(self, f, h, k): return k == 'done' and 'epoll_wait' not in self.body_calls(f, h)
    def counters(self, st, f, h):
        if 'done' not in st.g or 'epoll_wait' not in self.body_calls(f, h): return {}
        c = st.norm(st.g['done'])
        return {c: 1} if not c.t and c.c > 0 else {}
    def relations(self, st):
        r = []
        if 'nr' in st.g: r += [((1, K(st.g['msg'].obj.size) if isinstance(st.g['msg'].obj.size, int) else st.g['msg'].obj.size), (-1, st.g['msg'].off), (-1, st.g['nr'])), ((1, st.g['nr']), (-1, st.g['out']))]
        if 'shown' in st.g: r += [((1, st.g['nr']), (-1, st.g['shown'])), ((1, st.g['nr']), (-1, st.g['shown']), (-1, ONE))]
        if 'lim' in st.g: r.append(((1, st.g['lim']), (-1, st.g['done']), (-1, ONE)))
        return r

class ReadApi(ForwardApi):
    WORDS = [('ring',)]
    OPTS = {'b': 0, 'N': 1}
    RINGS = {'ring': 'rn'}
    def write_fd(self, st, fd, p, n, ins):
        if fd != 1: return ForwardApi.write_fd(self, st, fd, p, n, ins)
        return self.piece(st, p, n, 'standard output', ins)
    def fwrite(self, st, args, ins):
        p = args[0]; z = st.norm(self.tolin(st, args[1], 64))
        if not isinstance(p, Ptr) or p.obj is None or 'msg' not in st.g or p.obj is not st.g['msg'].obj: return self.m_ignore(st, args, ins)
        n = self.tolin(st, args[2], 64)
        n = n.scale(z.c) if not z.t else st.norm(n) if not st.norm(n).t and st.norm(n).c == 1 else None
        if n is None: return self.m_ignore(st, args, ins)
        if not z.t and z.c != 1: n = z
        elif z.t: n = z
        out = []
        for s, r in self.piece(st, p, n, 'standard output', ins): out.append((s, r if not (isinstance(r, Lin) and not r.t and r.c == -1) else ZERO))
        return out
    def idle_ring(self, st, ins):
        ForwardApi.idle_ring(self, st, ins)
        self.oblige('C26', not (st.mon.get('none') and 'b' not in st.mon['opts']), st, ins, 'without -b reading ends when the ring is exhausted')
    def may_end(self, st):
        if st.mon.get('none') and 'b' not in st.mon['opts']: return True
        return 'N' in st.mon['opts'] and st.is_eq(st.g['lim'] - st.g['done'])

class HexApi(ReadApi):
    OPTS = {'b': 0}
    def complete(self, st): return not st.mon.get('hex') or bool(st.mon.get('allshown')) or 'shown' in st.g and st.is_eq(st.g['nr'] - st.g['shown'])
    def over(self, st):
        ReadApi.over(self, st); st.mon.pop('allshown', None)
    def before_head(self, f, h, st):
        if 'shown' in st.g:
            if 'byteoff' in st.g and st.is_eq(st.g['shown'] - st.g['byteoff'] - 1): st.g.pop('byteoff'); st.g.pop('byte', None)
            if st.is_eq(st.g['nr'] - st.g['shown']): st.mon['allshown'] = True; st.g.pop('shown')
        if st.mon.get('allshown'): st.g.pop('byteoff', None); st.g.pop('byte', None)
        ReadApi.before_head(self, f, h, st)
    def exact(self, f, h, k): return k == 'nr' or ReadApi.exact(self, f, h, k)
    def value(self, st, conv, v, ins):
        if conv[-1] not in 'xX' or not st.mon.get('msg') or 'byte' not in st.g or not isinstance(v, (Lin, Bits)): return
        d = st.norm(self.tolin(st, v, 32) - st.g['byte'])
        if d.t or d.c not in (0, 256): return
        sh = st.g.get('shown', ZERO)
        ok = not st.mon.get('allshown') and st.is_eq(st.g['byteoff'] - sh)
        self.oblige('C26', ok, st, ins, 'the bytes of a message are shown in order, each once')
        if ok: st.g['shown'] = st.norm(sh + 1); st.mon['hex'] = True
    def counters(self, st, f, h):
        c = dict(ReadApi.counters(self, st, f, h))
        if 'shown' in st.g and any(x != h and x in f.loops[h] for x in f.loops):
            v = st.norm(st.g['shown'])
            if not v.t and v.c > 1: c[v] = 1
        return c

class TeeApi(ForwardApi):
    WORDS = [('ring', 'ring1', 'ring2')]
    OPTS = {'b': 0}
    RINGS = {'ring': 'rn', 'ring1': 'wb', 'ring2': 'wb'}
    def m_shr_write(self, st, args, ins):
        to = [w for w in ('ring1', 'ring2') if self.isring(st, args[0], w)]
        self.oblige('C26', bool(to), st, ins, 'messages are copied to the destination rings')
        if not to: return []
        p, n = args[1], self.tolin(st, args[2], 64)
        ok = bool(st.mon.get('msg')) and isinstance(p, Ptr) and p.obj is st.g['msg'].obj and st.is_eq(p.off - st.g['msg'].off) and st.is_eq(n - st.g['nr'])
        self.oblige('C26', ok, st, ins, 'the message copied is the message read')
        if not ok: return []
        done = st.mon.get('to', frozenset())
        self.oblige('C26', to[0] not in done, st, ins, 'a message is copied once to each destination')
        f = [(self.failed(st, 'write'), K(e)) for e in (-1, -2, -3)]
        st.mon['to'] = done | set(to)
        return [(st, self.at(ins, 'wrote', 1, 1 << 40))] + f
    def complete(self, st): return len(st.mon.get('to', ())) == 2

class PubApi(ForwardApi):
    PROP = 'C29'
    def begin(self, st): ForwardApi.begin(self, st); st.g.pop('done')
    WORDS = [('addr', 'ring')]
    OPTS = {'P': 0, 'b': 0}
    RINGS = {'ring': 'rn'}
    def m_accept(self, st, args, ins):
        self.oblige('C29', self.const(st, args[0]) == SOCKFD, st, ins, 'connections are accepted on the listening socket')
        f = self.failed(st, 'accept')
        fd = CLIENT if st.mon.get(('conn', CLIENT)) is None else EXTRA
        self.oblige('C29', st.mon.get(('conn', fd)) is None, st, ins, 'additional connections are closed')
        st.mon[('conn', fd)] = 'live'
        return [(f, K(-1)), (st, K(fd))]
    def closing(self, st, fd, ins):
        if fd not in (CLIENT, EXTRA): return
        self.oblige('C29', st.mon.get(('conn', fd)) is not None, st, ins, 'the connection closed is open (no double close)')
        if fd == CLIENT and st.mon.get('msg'):
            self.oblige('C26', lambda: st.mon.get(('conn', fd)) == 'failed' or self.complete(st) or self.untouched(st), st, ins, 'a connection is kept until the message is sent unless it failed')
            self.over(st)
        st.mon.pop(('conn', fd), None)
    def untouched(self, st): return st.is_eq(st.g['out']) and st.is_eq(st.g['pre'])
    def read_fd(self, st, fd, p, n, ins):
        if fd != CLIENT: return ForwardApi.read_fd(self, st, fd, p, n, ins)
        self.oblige('C29', st.mon.get(('conn', CLIENT)) is not None, st, ins, 'the connection read is open')
        n = st.norm(self.tolin(st, n, 64))
        if not isinstance(p, Ptr) or p.obj is None: self.bad_access(st, p, ins, 'receive'); return []
        self.check_bounds(st, p, n, ins, 'write')
        f = st.copy(); self.set_errno(f, K(EIO)); f.mon[('conn', CLIENT)] = 'failed'
        e = st.copy(); e.mon[('conn', CLIENT)] = 'failed'
        self.bufwrite(st, p, n, ins)
        r = self.at(ins, 'got', 1, 1 << 30)
        out = [(f, K(-1)), (e, ZERO)]
        if st.add_ge(n - r): out.append((st, r))
        return out
    def write_fd(self, st, fd, p, n, ins):
        if fd != CLIENT: return ForwardApi.write_fd(self, st, fd, p, n, ins)
        self.oblige('C29', st.mon.get(('conn', CLIENT)) == 'live', st, ins, 'nothing is sent to a connection that is closed or failed')
        if st.mon.get(('conn', CLIENT)) != 'live': return []
        return self.piece(st, p, n, 'client', ins)
    def wfail(self, s):
        self.set_errno(s, K(EPIPE)); s.mon[('conn', CLIENT)] = 'failed'
        return s
    def prefix(self, st): return 'P' not in st.mon['opts']
    def position(self, s, p, n, to, ins):
        if not self.prefix(s) or s.is_eq(s.g['pre'] - 4): return ForwardApi.position(self, s, p, n, to, ins)
        def ok():
            if p.obj is s.g['msg'].obj: return False
            v = self.mem_load(s, p.obj, s.norm(p.off - s.g['pre']), 4, False)
            return isinstance(v, (Lin, Bits)) and s.is_eq(self.tolin(s, v, 32) - s.g['nr'])
        self.oblige('C26', ok, s, ins, 'a message is preceded by its length')
        if not ok(): return None
        ok = s.entails(K(4) - s.g['pre'] - n)
        self.oblige('C26', ok, s, ins, 'nothing beyond the length prefix is sent')
        return 'pre' if ok else None
    def complete(self, st): return ForwardApi.complete(self, st) and (not self.prefix(st) or st.is_eq(st.g['pre'] - 4))
    def idle_ring(self, st, ins):
        c = st.mon.get(('conn', CLIENT))
        self.oblige('C29', bool(st.mon.get(('ep', SOCKFD), 0) & EPOLLIN), st, ins, 'connections are awaited')
        self.oblige('C29', c != 'failed', st, ins, 'a connection that ended or failed is closed')
        self.oblige('C29', st.mon.get(('conn', EXTRA)) is None, st, ins, 'additional connections are closed')
        self.oblige('C29', (c is not None) == bool(st.mon.get(('ep', CLIENT), 0) & EPOLLIN), st, ins, 'the client is watched while it is connected')
        self.oblige('C29', (c is not None) == bool(st.mon.get(('ep', RINGFD), 0) & EPOLLIN), st, ins, 'the ring is watched exactly while a client is connected')
    def m_shr_read(self, st, args, ins):
        self.oblige('C29', st.mon.get(('conn', CLIENT)) is not None, st, ins, 'messages are consumed only for a connected client')
        return ForwardApi.m_shr_read(self, st, args, ins)
    def at_exit(self, st, v):
        if not st.mon.get('running'): return
        self.xob(st, lambda: bool(st.mon['cause']), 'the publisher ends only on a signal or a failure of the ring, the listener or the event set, not with its clients', 'C29')


# ------------------------------------------------------------ one-shot commands
RAMFS = {'tmpfs': 0x01021994, 'ramfs': 0x858458f6, 'hugetlbfs': 0x958458f6}
HUGEPAGES = '/proc/sys/vm/nr_hugepages'

class OneShot(ToolMain):
    """commands that act once and exit; the exit status is zero exactly when everything asked for was done"""
    HIST = True
    def m_strlen(self, st, args, ins):
        p = args[0]
        k = self.place(st, 'plen', p)
        if k in st.g: return [(st, st.g[k])]
        return ToolMain.m_strlen(self, st, args, ins)
    def place(self, st, what, p):
        if not isinstance(p, Ptr) or p.obj is None: return None
        o = st.norm(p.off)
        return None if o.t else (what, p.obj.id, o.c)
    def m_snprintf(self, st, args, ins):
        d, n = args[0], st.norm(self.tolin(st, args[1], 64))
        out = ToolMain.m_snprintf(self, st, args, ins)
        st.g[self.place(st, 'plen', d)] = l = self.at(ins, 'plen', 0, 1 << 16)
        st.add_ge(n - l - 1)
        t = self.text(st, args[2])
        st.g[self.place(st, 'printed', d)] = (t,) + tuple(self.tolin(st, a, 64) if isinstance(a, Bits) else a for a in args[3:])
        return out
    def contents(self, st, p):
        """what was formatted into the buffer at p"""
        return st.g.get(self.place(st, 'printed', p))
    # sizes: a number and a unit letter
    def m_sscanf(self, st, args, ins):
        w = self.word(st, args[0]); fmt = self.text(st, args[1]); out = [(st.copy(), K(-1)), (st.copy(), ZERO)]
        if w is None or fmt is None: self.oblige(self.PROP, False, st, ins, 'an argument is parsed'); return []
        conv = [c for c in fmt.replace('%%', '').split('%')[1:]]
        n = len(conv)
        for k in range(1, n + 1):
            s = st.copy()
            for j in range(k):
                c = conv[j]; d = args[2 + j]; t = c.strip()[-1:]
                if t in 'dux':
                    z = 8 if 'l' in c or 'z' in c or 'j' in c else 2 if 'h' in c else 4
                    v = self.number(s, w)
                else: z = 1; v = self.unitchar(s, w)
                self.check_bounds(s, d, K(z), ins, 'write')
                self.mem_store(s, d.obj, d.off, z, v)
            if k < 2: s.mon[('unit', w)] = 'none'
            out.append((s, K(k)))
        return out
    def unitchar(self, st, w): return S(memo_sym(('unit', w), 'unit ' + w, -128, 127))
    def number(self, st, w, lo=0, hi=1 << 20): return S(memo_sym(('number', w), 'number ' + w, lo, min(hi, 1 << 20)))
    def m_strtol(self, st, args, ins):
        w = self.word(st, args[0]); e = args[1]
        if isinstance(e, Ptr) and e.obj is not None: self.mem_store(st, e.obj, e.off, 8, Ptr(args[0].obj, ONE) if w is not None else UNDEF)
        if w is None: return [(st, self.at(ins, 'strtol', -(1 << 63), (1 << 63) - 1))]
        return [(st, self.number(st, w))]
    def sized(self, st, v, w):
        """v is the number in argument w scaled by its unit"""
        n = self.number(st, w); v = st.norm(v)
        if st.mon.get(('unit', w)) == 'none': return st.is_eq(v - n)
        u = self.unitchar(st, w)
        for k, l in ((4, 'tT'), (3, 'gG'), (2, 'mM'), (1, 'kK')):
            if any(st.is_eq(u - ord(c)) for c in l): return st.is_eq(v - n.scale(1024 ** k))
        return False
    def keepsym(self, s): return s in self.fixed or ToolMain.keepsym(self, s)
    def begin(self, st):
        self.fixed = set()
        for w in ('-s', '-H', '-N'):
            for v in (self.number(st, w), self.unitchar(st, w)): self.fixed.update(x for x, _ in v.t)
    def m_open(self, st, args, ins):
        p = args[0]; k = self.word(st, p) or self.text(st, p)
        return self.open_file(st, k, self.const(st, args[1]), ins)
    def open_file(self, st, k, fl, ins):
        self.oblige(self.PROP, False, st, ins, 'only documented files are opened')
        return []

class PathH(Handler):
    pass

class MountApi(OneShot):
    PROP = 'C27'
    WORDS = [('mp',), ('mp', 'sub1', 'sub2')]
    OPTS = {'d': 0, 'q': 0, 'u': 0, 's': 1, 't': 1, 'H': 1}
    def sensible(self, chosen):
        return len(chosen) <= 2 or set(chosen) == set('dHs') or set(chosen) == set('dst')
    def option(self, st, c):
        if c in 'dqu': st.mon['form'] = c
    def form(self, st): return st.mon.get('form', 'm')
    # paths
    def path(self, st, p):
        w = self.word(st, p)
        if w is not None: return w
        if not isinstance(p, Ptr) or p.obj is None: return None
        c = self.contents(st, p)
        if c is not None:
            if c[0] == '%s/..' and len(c) == 2 and self.word(st, c[1]): return self.word(st, c[1]) + '/..'
            if c[0] == '%s' and len(c) == 2: return self.word(st, c[1])
            return None
        return st.mon.get(('path', p.obj.id, st.norm(p.off)))
    def memcpy(self, st, d, s, n, ins):
        w = self.word(st, s)
        if w is None or not isinstance(d, Ptr) or d.obj is None: return ToolMain.memcpy(self, st, d, s, n, ins)
        n = self.tolin(st, n, 64); self.check_bounds(st, d, n, ins, 'write')
        whole = st.is_eq(n - S(memo_sym(('wordlen', w), 'strlen', 0, 1 << 17)) - 1)
        self.named(st, d, w if whole else None, n, ins)
        return [st]
    def named(self, st, d, w, n, ins):
        n = st.norm(n)
        self.mem_kill(st, d.obj, d.off, n if n.t else n.c); self.fill_unknown(st, d, n)
        st.g.pop(self.place(st, 'printed', d), None); st.mon[('path', d.obj.id, st.norm(d.off))] = w
    def length_of(self, w):
        a, _, b = w.partition('/')
        return S(memo_sym(('wordlen', a), 'strlen', 0, 1 << 17)) + (3 if b else 0)
    def m_strcpy(self, st, args, ins): return self.put(st, args[0], self.path(st, args[1]), ins)
    def put(self, st, d, w, ins):
        if w is None: self.oblige(self.PROP, False, st, ins, 'a known path is copied'); return []
        n = self.length_of(w) + 1
        self.check_bounds(st, d, n, ins, 'write')
        self.named(st, d, w, n, ins)
        return [(st, d)]
    def m_strncpy(self, st, args, ins):
        n = self.tolin(st, args[2], 64)
        self.check_bounds(st, args[0], n, ins, 'write')
        self.named(st, args[0], self.path(st, args[1]), n, ins)
        return [(st, args[0])]
    def m_strcat(self, st, args, ins):
        w = self.path(st, args[0]); t = self.text(st, args[1])
        return self.put(st, args[0], w + t if w is not None and t is not None else None, ins)
    m_strncat = m_strcat
    # ---- what is known of the directory
    def m_stat(self, st, args, ins):
        w = self.path(st, args[0]); p = args[1]
        self.check_bounds(st, p, K(144), ins, 'write')
        f = self.failed(st, 'stat'); out = [(f, K(-1))]
        for mode in (0o40755, 0o100644):
            for dev in ('same', 'other') if w in ('mp', 'mp/..') else ('third',):
                s = st.copy()
                if w in ('mp', 'mp/..'):
                    if w == 'mp/..' and mode != 0o40755: continue
                    if w in s.mon.get('devs', ()):
                        if dev != s.mon['devs'][w == 'mp/..']: continue
                    other = s.mon.get(('dev', 'mp/..' if w == 'mp' else 'mp'))
                    if s.mon.get(('dev', w)) not in (None, dev): continue
                    if other is None and dev == 'other': continue
                    s.mon[('dev', w)] = dev
                v = {'same': 5, 'other': 6, 'third': 7}[dev]
                self.mem_kill(s, p.obj, p.off, 144); self.fill_unknown(s, p, K(144))
                self.mem_store(s, p.obj, p.off, 8, K(v)); self.mem_store(s, p.obj, p.off + 24, 4, K(mode))
                out.append((s, ZERO))
        return out
    m_lstat = m_stat
    def mountpoint(self, st):
        a, b = st.mon.get(('dev', 'mp')), st.mon.get(('dev', 'mp/..'))
        return None if a is None or b is None else a != b
    def m_statfs(self, st, args, ins):
        w = self.path(st, args[0]); p = args[1]
        self.check_bounds(st, p, K(120), ins, 'write')
        out = [(self.failed(st, 'stat'), K(-1))]
        for t in ('tmpfs', 'ramfs', 'hugetlbfs', 'disk'):
            s = st.copy()
            if w == 'mp':
                if s.mon.get('fs') not in (None, t): continue
                s.mon['fs'] = t
            self.mem_kill(s, p.obj, p.off, 120); self.fill_unknown(s, p, K(120))
            self.mem_store(s, p.obj, p.off, 8, K(RAMFS.get(t, 0xef53)))
            out.append((s, ZERO))
        return out
    def ramdisk(self, st):
        """True, False or None when not established"""
        m, f = self.mountpoint(st), st.mon.get('fs')
        if m is False or f == 'disk': return False
        return None if m is None or f is None else True
    # ---- actions
    def m_mount(self, st, args, ins):
        o = self.form(st)
        self.oblige('C27', o in 'md', st, ins, 'the query and unmount forms mount nothing')
        self.oblige('C27', self.word(st, args[1]) == 'mp', st, ins, 'the directory named is mounted')
        self.oblige('C27', self.ramdisk(st) is not True, st, ins, 'a ramdisk is never mounted over a ramdisk')
        self.oblige('C27', self.ramdisk(st) is not None, st, ins, 'a ramdisk is mounted only when the directory is known not to be one')
        self.oblige('C27', not st.mon.get('mounted'), st, ins, 'a ramdisk is mounted once')
        t = args[2]
        ok = self.word(st, t) == '-t' if 't' in st.mon['opts'] else self.text(st, t) == 'ramfs'
        self.oblige('C27', ok, st, ins, 'the type of ramdisk asked for is mounted')
        d = args[4]
        if isinstance(d, Ptr) and d.obj is not None:
            c = self.contents(st, d)
            def ok(): return c is not None and len(c) == 2 and (c[0] or '')[:6] == 'size=%' and isinstance(c[1], Lin) and 's' in st.mon['opts'] and self.sized(st, c[1], '-s')
            self.oblige('C27', ok, st, ins, 'the size asked for reaches the mount')
        else:
            def ok():
                if 's' not in st.mon['opts'] or ('unit', '-s') not in st.mon and self.nosize(st): return True
                return st.is_eq(self.number(st, '-s')) or self.nosize(st)
            self.oblige('C27', ok, st, ins, 'the size asked for reaches the mount')
        f = self.failed(st, 'mount')
        st.mon['mounted'] = True
        return [(f, K(-1)), (st, ZERO)]
    def nosize(self, st): return st.mon.get('nosize')
    def m_sscanf(self, st, args, ins):
        r = OneShot.m_sscanf(self, st, args, ins)
        for s, v in r:
            if v.c <= 0: s.mon['nosize'] = True
        return r
    def m_umount(self, st, args, ins):
        self.oblige('C27', self.form(st) == 'u', st, ins, 'only the unmount form unmounts')
        self.oblige('C27', self.word(st, args[0]) == 'mp', st, ins, 'the directory named is unmounted')
        f = self.failed(st, 'umount'); st.mon['unmounted'] = True
        return [(f, K(-1)), (st, ZERO)]
    def m_chdir(self, st, args, ins):
        f = self.failed(st, 'chdir')
        st.mon['in'] = bool(st.mon.get('mounted')) and self.word(st, args[0]) == 'mp'
        return [(f, K(-1)), (st, ZERO)]
    def m_mkdir(self, st, args, ins):
        n = st.mon.get('subs', 0)
        self.oblige('C27', self.form(st) == 'd', st, ins, 'subdirectories are created only with -d')
        self.oblige('C27', bool(st.mon.get('mounted') and st.mon.get('in')), st, ins, 'subdirectories are created inside the new mount')
        self.oblige('C27', self.word(st, args[0]) == 'sub%d' % (n + 1), st, ins, 'each subdirectory named is created, once, in order')
        f = self.failed(st, 'mkdir'); st.mon['subs'] = n + 1
        return [(f, K(-1)), (st, ZERO)]
    def open_file(self, st, k, fl, ins):
        self.oblige('C27', k == HUGEPAGES and 'H' in st.mon['opts'], st, ins, 'the number of huge pages is changed only with -H')
        return self.fdres(st, FILEFD, 'open')
    def write_fd(self, st, fd, p, n, ins):
        c = self.contents(st, p)
        def ok(): return fd == FILEFD and c is not None and len(c) == 2 and c[0].strip() in ('%d', '%u', '%ld', '%zu') and st.is_eq(c[1] - self.number(st, '-H')) and st.is_eq(self.tolin(st, n, 64) - st.g[self.place(st, 'plen', p)])
        self.oblige('C27', ok, st, ins, 'the number of huge pages asked for is written')
        f = self.failed(st, 'write'); st.mon['huge'] = True
        return [(f, K(-1)), (st, self.tolin(st, n, 64))]
    def read_fd(self, st, fd, p, n, ins):
        self.oblige('C27', False, st, ins, 'nothing is read'); return []
    def literal(self, st, t, ins):
        r = self.ramdisk(st)
        if self.form(st) != 'q': return
        if 'not a ramdisk' in t:
            st.mon['told'] = True
            self.oblige('C27', r is not True, st, ins, 'a query denies only what is not a ramdisk')
        for n in RAMFS:
            if n in t:
                st.mon['told'] = True
                self.oblige('C27', r is True and st.mon.get('fs') == n, st, ins, 'a query reports a ramdisk only where one is mounted, and its type')
    def at_exit(self, st, v):
        v = st.norm(self.tolin(st, v, 32)) if isinstance(v, (Lin, Bits)) else None
        self.xob(st, v is not None and not v.t, 'the exit status is known')
        if v is None or v.t: return
        o = self.form(st); good = v.c == 0
        if o in 'md':
            full = bool(st.mon.get('mounted')) and (o == 'm' or bool(st.mon.get('in')) and st.mon.get('subs', 0) == len([w for w in self.case.split(', ')[0].split() if w.startswith('sub')]))
            if 'H' in st.mon['opts'] and not st.mon.get('huge'): full = full and st.is_eq(self.number(st, '-H'))
            self.xob(st, good == full or (good is False and bool(st.mon['cause'])), 'success is reported exactly when everything asked for was mounted and created')
        elif o == 'u': self.xob(st, good == bool(st.mon.get('unmounted')), 'success is reported exactly when the directory was unmounted')
        else: self.xob(st, bool(st.mon.get('told')) or not good, 'a query is answered')

LETTERS = {'d': 'SHR_DROP', 'f': 'SHR_FARM', 'k': 'SHR_KEEPEXIST', 'l': 'SHR_MLOCK', 's': 'SHR_SYNC'}

class FilesApi(OneShot):
    """reads files by mapping them"""
    def mapobj(self):
        if 'map' not in self.dups: self.dups['map'] = Obj('mapped file', 'static', self.filesize())
        return self.dups['map']
    def filesize(self): return S(memo_sym(('filesize',), 'file size', 0, 1 << 40))
    def begin(self, st):
        OneShot.begin(self, st)
        self.fixed.update(x for x, _ in self.filesize().t)
    FILE = None
    def open_file(self, st, k, fl, ins):
        self.oblige(self.PROP, k == self.FILE and fl is not None and fl & 3 == 0, st, ins, 'the file named is opened for reading')
        return self.fdres(st, FILEFD, 'open') if k == self.FILE else []
    def m_fstat(self, st, args, ins):
        p = args[1]
        self.check_bounds(st, p, K(144), ins, 'write')
        self.oblige(self.PROP, self.const(st, args[0]) == FILEFD, st, ins, 'the size of the file named is used')
        f = self.failed(st, 'stat')
        self.mem_kill(st, p.obj, p.off, 144); self.fill_unknown(st, p, K(144))
        self.mem_store(st, p.obj, p.off + 48, 8, self.filesize()); self.mem_store(st, p.obj, p.off + 24, 4, K(0o100644))
        return [(f, K(-1)), (st, ZERO)]
    def m_mmap(self, st, args, ins):
        n = self.tolin(st, args[1], 64); off = self.tolin(st, args[5], 64)
        def ok(): return self.const(st, args[4]) == FILEFD and st.is_eq(n - self.filesize()) and st.is_eq(off) and (self.const(st, args[2]) or 0) & 1
        self.oblige(self.PROP, ok, st, ins, 'the whole file named is mapped')
        f = self.failed(st, 'mmap')
        if not st.add_ge(self.filesize() - 1): return [(f, self.intptr(-1))]
        return [(f, self.intptr(-1)), (st, Ptr(self.mapobj()))]
    def m_munmap(self, st, args, ins):
        p = args[0]; n = self.tolin(st, args[1], 64)
        self.oblige(self.PROP, isinstance(p, Ptr) and p.obj is self.dups.get('map') and st.is_eq(n - self.filesize()) and not st.mon.get('unmapped'), st, ins, 'what is unmapped was mapped')
        st.mon['unmapped'] = True
        return [(st, ZERO)]
    def read_fd(self, st, fd, p, n, ins):
        self.oblige(self.PROP, False, st, ins, 'files are mapped'); return []

class LettersH(Handler):
    """the letters of option -m: each letter at most once, or one that is not documented"""
    def __init__(self, M): self.M = M
    def load(self, I, st, o, off, size, isptr, ins):
        off = st.norm(off)
        I.oblige('C28', not off.t and size == 1 and off.c <= st.mon.get('nlet', 0), st, ins, 'option letters are read in turn')
        if off.t or off.c > st.mon.get('nlet', 0): return []
        if ('let', off.c) in st.mon: return [(st, K(ord(st.mon[('let', off.c)])))]
        out = []
        given = st.mon.get('letters', frozenset())
        s = st.copy(); s.mon[('let', off.c)] = chr(0); out.append((s, ZERO))
        most = 3 if set(st.mon['opts']) <= set('ms') else 1
        for c in sorted(LETTERS) + ['x']:
            if c in given or len(given) == most: continue
            s = st.copy()
            for k in [k for k in s.mon if isinstance(k, tuple) and k[0] == 'let']: s.mon.pop(k)
            s.mon[('let', off.c)] = c; s.mon['letters'] = given | {c}; s.mon['nlet'] = off.c + 1
            out.append((s, K(ord(c))))
        return out
    def store(self, I, st, o, off, size, v, ins):
        I.oblige('C28', False, st, ins, 'arguments are not changed'); return [st]

class CreateApi(FilesApi):
    PROP = 'C28'
    WORDS = [('ring1', 'ring2')]
    OPTS = {'s': 1, 'A': 1, 'N': 1, 'm': 1, 'H': 1}
    FILE = '-A'
    def sensible(self, chosen): return 's' in chosen and ('H' not in chosen or len(chosen) < 4)
    def begin(self, st):
        FilesApi.begin(self, st)
        if 'm' in self.optobj: self.optobj['m'].handler = LettersH(self)
    def m_sscanf(self, st, args, ins):
        r = FilesApi.m_sscanf(self, st, args, ins)
        if len(self.chosen) < 3: return r
        # the units are followed through with few options only
        return [(s, v) for s, v in r if v.c < 2 or s.add_eq(self.unitchar(s, '-s') - ord('m'))]
    def m_strchr(self, st, args, ins):
        t = self.text(st, args[0]); c = self.const(st, args[1])
        if t is None or c is None: return FilesApi.m_strchr(self, st, args, ins)
        i = (t + chr(0)).find(chr(c & 255))
        return [(st, NULL if i < 0 else Ptr(args[0].obj, args[0].off + i))]
    def m_shr_init(self, st, args, ins):
        n = st.mon.get('made', 0); w = self.word(st, args[0]); aw = ins.get('aw') or []
        self.oblige('C28', w == 'ring%d' % (n + 1), st, ins, 'each ring named is created, once, in order')
        self.oblige('C28', lambda: self.sized(st, self.tolin(st, args[1], 64), '-s'), st, ins, 'the ring gets the size asked for')
        fl = self.const(st, args[2])
        want = 0; o = st.mon['opts']
        for c in st.mon.get('letters', ()): want |= self.flag(LETTERS[c]) if c in LETTERS else 0
        self.oblige('C28', 'x' not in st.mon.get('letters', ()), st, ins, 'a letter that is not documented is refused')
        wa, wn = 'A' in o, 'N' in o
        if wa: want |= self.flag('SHR_APPDATA')
        if wn: want |= self.flag('SHR_MAXMSGS_2')
        self.oblige('C28', lambda: fl == want, st, ins, 'exactly the attributes asked for are set')
        if fl is None: return []
        va = args[3:]; vw = aw[3:]; i = 0
        if fl & self.flag('SHR_APPDATA'):
            self.oblige('C28', len(va) >= 2 and vw[:2] == ['p', 64], st, ins, 'the application data and its length are passed')
            if len(va) < 2: return []
            self.oblige('C28', isinstance(va[0], Ptr) and va[0].obj is self.dups.get('map') and st.is_eq(va[0].off) and isinstance(va[1], (Lin, Bits)) and st.is_eq(self.tolin(st, va[1], 64) - self.filesize()), st, ins, 'the application data is the content of the file named')
            i = 2
        if fl & self.flag('SHR_MAXMSGS_2'):
            self.oblige('C28', len(va) > i and vw[i:i + 1] == [64], st, ins, 'the maximum number of messages is passed, as wide as the library takes it')
            if len(va) <= i: return []
            self.oblige('C28', isinstance(va[i], (Lin, Bits)) and st.is_eq(self.tolin(st, va[i], 64) - self.number(st, '-N')), st, ins, 'the maximum number of messages is the one asked for')
        f = self.failed(st, 'init')
        st.mon['made'] = n + 1
        return [(f, K(-1)), (st, ZERO)]
    def write_fd(self, st, fd, p, n, ins):
        self.oblige('C28', False, st, ins, 'nothing is written'); return []
    def at_exit(self, st, v):
        v = st.norm(self.tolin(st, v, 32)) if isinstance(v, (Lin, Bits)) else None
        self.xob(st, v is not None and not v.t, 'the exit status is known')
        if v is None: return
        self.xob(st, lambda: (v.c == 0) == (st.mon.get('made', 0) == 2), 'success is reported exactly when every ring was created')

# ------------------------------------------------------------ writers
class WriteBase(FilesApi):
    """one-shot writers: what is written to the ring, and how often"""
    PROP = 'C30'
    RINGS = {'ring': 'wb'}
    FILE = 'file'
    def m_shr_write(self, st, args, ins):
        self.oblige('C30', self.isring(st, args[0], 'ring'), st, ins, 'messages go to the ring named')
        self.oblige('C30', 'ring' not in st.mon['cause'], st, ins, 'a failure to write ends the command')
        n = st.norm(self.tolin(st, args[2], 64))
        if not isinstance(args[1], Ptr) or args[1].obj is None: self.bad_access(st, args[1], ins, 'write'); return []
        if not self.message(st, args[1], n, ins): return []
        f = [(self.failed(st, 'ring'), K(e)) for e in (-1, -2, -3)]
        if not st.add_ge(n - 1): return f
        return [(st, n)] + f
    def m_shr_writev(self, st, args, ins):
        self.oblige('C30', False, st, ins, 'messages are written one at a time'); return []
    def m_shr_read(self, st, args, ins):
        self.oblige('C30', False, st, ins, 'the ring is only written'); return []
    def write_fd(self, st, fd, p, n, ins):
        self.oblige('C30', False, st, ins, 'nothing is written elsewhere'); return []
    def at_exit(self, st, v):
        v = st.norm(self.tolin(st, v, 32)) if isinstance(v, (Lin, Bits)) else None
        self.xob(st, v is not None and not v.t, 'the exit status is known')
        if v is None or v.t: return
        self.xob(st, (v.c == 0) == (self.all_done(st) and not st.mon['cause'] & {'ring', 'input'}), 'success is reported exactly when everything given was written')
        self.xob(st, v.c == 0 or bool(st.mon['cause']) or self.refused(st), 'the command fails only for a reason')
    def refused(self, st): return False

class WriteFileApi(WriteBase):
    WORDS = [('file', 'ring')]
    def message(self, st, p, n, ins):
        self.oblige('C30', lambda: p.obj is self.dups.get('map') and st.is_eq(p.off) and st.is_eq(n - self.filesize()) and not st.mon.get('unmapped'), st, ins, 'the message is the content of the file named')
        self.oblige('C30', not st.mon.get('sent'), st, ins, 'the file is written once')
        st.mon['sent'] = True
        return True
    def all_done(self, st): return bool(st.mon.get('sent'))
    def refused(self, st): return st.is_eq(self.filesize())

class LineH(Handler):
    """the line read last: its text, a newline except at the end of the input, a terminator"""
    def __init__(self, M): self.M = M
    def load(self, I, st, o, off, size, isptr, ins):
        I.check_bounds(st, Ptr(o, off), K(size), ins, 'load')
        if isptr or size != 1 or 'llen' not in st.g: return [(st, UNDEF if isptr else I.fresh('bytes', 8 * size))]
        r = st.norm(off - st.g['lbase'].off); out = []
        L = st.g['llen']; nl = st.mon.get('nl')
        I.oblige('C30', lambda: st.entails(r) and st.entails(L - r), st, ins, 'only the line read is looked at')
        e = st.copy()
        if e.add_eq(r - L): out.append((e, ZERO))
        if not st.add_ge(L - r - 1): return out
        if nl:
            e = st.copy()
            if e.add_eq(r - L + 1): out.append((e, K(10)))
            if not st.add_ge(L - r - 2): return out
        v = I.at(ins, 'char', -128, 127); st.add_ne(v); st.add_ne(v - 10)
        out.append((st, v))
        return out
    def kept(self, I, st, o, off, n, ins):
        I.check_bounds(st, Ptr(o, off), n, ins, 'write')
        if 'llen' in st.g:
            r = off - st.g['lbase'].off
            I.oblige('C30', lambda: st.entails(r - self.M.textlen(st)), st, ins, 'the text of a line is not changed')
            st.mon['stripped'] = True
        return [st]
    def store(self, I, st, o, off, size, v, ins): return self.kept(I, st, o, off, K(size), ins)
    def copy_to(self, I, st, d, s, ln, ins): return self.kept(I, st, d.obj, d.off, ln, ins)
    def memset(self, I, st, d, b, ln, ins): return self.kept(I, st, d.obj, d.off, ln, ins)

class WriteApi(WriteBase):
    WORDS = [('ring',)]
    def begin(self, st):
        WriteBase.begin(self, st)
        self.GL = Obj('line block', 'heap', K(1 << 33), handler=LineH(self))
    def textlen(self, st): return st.norm(st.g['llen'] - (1 if st.mon.get('nl') else 0))
    def settled(self, st, ins):
        """the line read last was written, if there was anything on it"""
        if 'llen' not in st.g: return
        e = st.copy()
        if not st.mon.get('sent') and e.add_ge(self.textlen(e) - 1): self.oblige('C30', False, e, ins, 'every line is written before the next is read')
        else: self.oblige('C30', True, st, ins, 'every line is written before the next is read')
        for k in ('llen', 'lbase'): st.g.pop(k, None)
        for k in ('nl', 'sent', 'stripped', 'piece'): st.mon.pop(k, None)
    def next_line(self, st, args, ins):
        self.oblige('C30', self.stream(st, args[2 if len(args) == 3 else 3]) == 'stdin', st, ins, 'lines are taken from standard input')
        self.oblige('C30', not st.mon['cause'] & {'ring', 'input'}, st, ins, 'a failure to read or write ends the command')
        self.settled(st, ins)
        z = st.copy(); z.mon['eof'] = True
        f = self.failed(st, 'input')
        return z, f
    def read_line(self, st, b, n, ins):
        """what a line just read may look like: ended by a newline, the last one without, or only a piece of one"""
        out = []
        L = self.at(ins, 'linelen', 1, 1 << 31)
        if n is not None and not st.add_ge(n - 1 - L): return out
        st.g['llen'] = L; st.g['lbase'] = b
        a = st.copy(); a.mon['nl'] = True
        out += [a, st]
        if n is not None:
            p = st.copy()
            if p.add_eq(n - 1 - L): p.mon['piece'] = True; out.append(p)
        return out
    def m_fgets(self, st, args, ins):
        p = args[0]; n = self.tolin(st, args[1], 32)
        z, f = self.next_line(st, args, ins)
        if not isinstance(p, Ptr) or p.obj is None: self.bad_access(st, p, ins, 'fgets'); return []
        self.check_bounds(st, p, n, ins, 'write')
        if p.obj.handler is None: p.obj.handler = LineH(self)
        return [(z, NULL), (f, NULL)] + [(s, p) for s in self.read_line(st, Ptr(p.obj, st.norm(p.off)), n, ins)]
    def m_getline(self, st, args, ins):
        """a line of any length, in a block that getline allocates and enlarges"""
        pp, np_ = args[0], args[1]
        z, f = self.next_line(st, args, ins)
        if not isinstance(pp, Ptr) or pp.obj is None: self.bad_access(st, pp, ins, 'getline'); return []
        if not isinstance(np_, Ptr) or np_.obj is None: self.bad_access(st, np_, ins, 'getline'); return []
        self.check_bounds(st, pp, K(8), ins, 'write'); self.check_bounds(st, np_, K(8), ins, 'write')
        old = self.mem_load(st, pp.obj, pp.off, 8, True)
        mine = isinstance(old, Ptr) and old.obj is self.GL
        self.oblige('C30', mine and st.mon.get(('res', 'heap', self.GL.id)) == 'live' or isinstance(old, Ptr) and old.obj is None, st, ins, 'getline is given no block or the one it gave')
        out = []
        for s in (z, f): out.append((s, K(-1)))
        for s in self.read_line(st, Ptr(self.GL), None, ins): out.append((s, s.g['llen']))
        for s, r in out:
            self.mem_store(s, pp.obj, pp.off, 8, Ptr(self.GL)); self.mem_store(s, np_.obj, np_.off, 8, self.at(ins, 'linecap', 1, 1 << 32))
            s.mon[('res', 'heap', self.GL.id)] = 'live'
        return out
    def m_getdelim(self, st, args, ins):
        self.oblige('C30', self.const(st, args[2]) == 10, st, ins, 'a message is a line')
        return self.m_getline(st, args, ins)
    m___getdelim = m_getdelim
    def m_feof(self, st, args, ins):
        if st.mon.get('eof') or 'llen' in st.g and not st.mon.get('nl') and not st.mon.get('piece'): return [(st, ONE)]
        return [(st, ZERO)]
    def m_ferror(self, st, args, ins): return [(st, ONE if 'input' in st.mon['cause'] else ZERO)]
    def inline_at(self, st, p): return 'llen' in st.g and isinstance(p, Ptr) and p.obj is st.g['lbase'].obj and st.is_eq(p.off - st.g['lbase'].off)
    def m_strlen(self, st, args, ins):
        if self.inline_at(st, args[0]):
            return [(st, self.textlen(st) if st.mon.get('stripped') else st.g['llen'])]
        return WriteBase.m_strlen(self, st, args, ins)
    def m_strchr(self, st, args, ins):
        if self.inline_at(st, args[0]) and self.const(st, args[1]) == 10:
            return [(st, Ptr(args[0].obj, st.norm(args[0].off + st.g['llen'] - 1)) if st.mon.get('nl') and not st.mon.get('stripped') else NULL)]
        return WriteBase.m_strchr(self, st, args, ins)
    m_strrchr = m_strchr
    def m_memchr(self, st, args, ins): return self.m_strchr(st, args, ins)
    def m_strcspn(self, st, args, ins):
        ok = self.inline_at(st, args[0]) and self.text(st, args[1]) == '\n'
        return [(st, self.textlen(st) if ok else self.at(ins, 'span', 0, 1 << 31))]
    def message(self, st, p, n, ins):
        def ok(): return self.inline_at(st, p) and st.is_eq(n - self.textlen(st))
        self.oblige('C30', ok, st, ins, 'the message is the text of the line read, without its newline')
        self.oblige('C30', not st.mon.get('sent'), st, ins, 'each line is written once')
        self.oblige('C30', not st.mon.get('piece'), st, ins, 'a line is written whole, however long it is')
        st.mon['sent'] = True
        return ok()
    def all_done(self, st): return bool(st.mon.get('eof'))

class WriteHexApi(WriteBase):
    """digits come in pairs, each pair becomes one byte, in order"""
    WORDS = [('hex', 'ring'), ('hexodd', 'ring'), ('hexbad', 'ring'), ('hexempty', 'ring')]
    def begin(self, st):
        WriteBase.begin(self, st)
        st.g['conv'] = ZERO; self.OUTB = None
        self.HW = [w for w in self.argobj if w.startswith('hex')][0]
        self.fixed.update(x for x, _ in self.hexlen().t)
    def hexlen(self):
        h = S(memo_sym(('pairs', self.HW), 'pairs', 1, 1 << 16))
        return {'hex': h.scale(2), 'hexbad': h.scale(2), 'hexodd': h.scale(2) - 1, 'hexempty': ZERO}[self.HW]
    def hexat(self, st, p): return isinstance(p, Ptr) and p.obj is not None and p.obj.info.get('word') == self.HW
    def m_strlen(self, st, args, ins):
        if self.hexat(st, args[0]):
            self.oblige('C30', lambda: st.is_eq(st.g['conv']), st, ins, 'the length of the argument is taken before it is converted')
            return [(st, st.norm(self.hexlen() - args[0].off))]
        return WriteBase.m_strlen(self, st, args, ins)
    def m_strspn(self, st, args, ins):
        t = self.text(st, args[1])
        if self.hexat(st, args[0]) and t is not None and st.is_eq(args[0].off):
            L = self.hexlen()
            if self.HW == 'hexbad':
                v = self.at(ins, 'span', 0, 1 << 17)
                return [(st, v)] if st.add_ge(L - v - 1) else []
            if set(t) >= set('0123456789abcdefABCDEF'): return [(st, L)]
        return [(st, self.at(ins, 'span', 0, 1 << 17))]
    def word_load(self, st, o, off, ins):
        if o.info.get('word') == self.HW:
            L = self.hexlen(); out = []
            e = st.copy()
            if e.add_eq(off - L): out.append((e, ZERO))
            if not st.add_ge(L - off - 1): return out
            v = self.at(ins, 'digit', -128, 127); st.add_ne(v)
            return out + [(st, v)]
        return WriteBase.word_load(self, st, o, off, ins)
    def m_sscanf(self, st, args, ins):
        p = args[0]; t = self.text(st, args[1])
        if not self.hexat(st, p): return WriteBase.m_sscanf(self, st, args, ins)
        self.oblige('C30', t in ('%2x', '%2hhx', '%2X', '%02x'), st, ins, 'two digits are converted at a time')
        if t not in ('%2x', '%2hhx', '%2X', '%02x'): return []
        z = 1 if 'hh' in t else 4; d = args[2]
        self.check_bounds(st, d, K(z), ins, 'write')
        L = self.hexlen()
        self.oblige('C30', lambda: st.entails(p.off) and st.entails(L - p.off), st, ins, 'only the argument is converted')
        out = []
        if self.HW != 'hex':
            self.mem_kill(st, d.obj, d.off, z); v = self.at(ins, 'junk', 0, 255)
            out.append((st.copy(), ZERO)); out.append((st.copy(), K(-1)))
            self.mem_store(st, d.obj, d.off, z, v)
            return out + [(st, ONE)]
        inplace = self.OUTB is not None and self.OUTB is p.obj
        self.oblige('C30', lambda: st.is_eq(p.off - st.g['conv'].scale(2)) and st.entails(L - p.off - 2), st, ins, 'the next two digits are converted')
        v = self.at(ins, 'byte', 0, 255)
        st.g['hv'] = v
        self.mem_store(st, d.obj, d.off, z, v)
        return [(st, ONE)]
    def isbyte(self, st, v):
        if 'hv' not in st.g or not isinstance(v, (Lin, Bits)): return False
        v = st.norm(self.tolin(st, v, 8)); h = st.g['hv']
        return any(st.is_eq(v - h + c) for c in (0, 256))
    def placed(self, st, o, off, size, v, ins):
        if self.HW != 'hex': return [st]
        ok = lambda: size == 1 and self.isbyte(st, v) and st.is_eq(off - st.g['conv'])
        self.oblige('C30', ok, st, ins, 'each byte converted is placed after the previous one')
        if not ok(): return []
        self.OUTB = o; st.g.pop('hv'); st.g['conv'] = st.norm(st.g['conv'] + 1)
        return [st]
    def word_store(self, st, o, off, size, v, ins):
        if o.info.get('word') != self.HW: return WriteBase.word_store(self, st, o, off, size, v, ins)
        return self.placed(st, o, off, size, v, ins)
    def store(self, st, p, size, v, ins):
        if size == 1 and isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'heap' and p.obj.handler is None and self.HW == 'hex' and self.isbyte(st, v):
            self.check_bounds(st, p, K(1), ins, 'store')
            return self.placed(st, p.obj, st.norm(p.off), size, v, ins)
        return WriteBase.store(self, st, p, size, v, ins)
    def inner(self, f, h): return any(n in self.body_calls(f, h) for n in ('__isoc99_sscanf', 'sscanf', '__isoc23_sscanf'))
    def tracked(self, st):
        """numbers that may run along the digits or the bytes"""
        for k, v in st.env.items():
            if isinstance(k, int) and isinstance(v, Lin): yield None, v
        for i, m in st.mem.items():
            o = OBJS.get(i)
            if o is None or o.kind != 'stack': continue
            for k, x in m.cells.items():
                if x[0] == 8 and isinstance(x[1], Lin): yield (i, k), x[1]
    def counting(self, st, f, h, cnts):
        return set(k for k, v in self.tracked(st) if k is not None and v in cnts)
    def counters(self, st, f, h):
        c = st.norm(st.g['conv'])
        if c.t or c.c < 1: return {}
        if not self.inner(f, h): return {c: 1}
        return {c: 1, c + c: 2}
    def relations(self, st):
        r = []; seen = set()
        for _, v in self.tracked(st):
            v = st.norm(v)
            if v in seen or not v.t and v.c < 2: continue
            seen.add(v)
            r.append(((1, v), (-2, st.g['conv'])))
        L = self.hexlen()
        return r + [((1, L), (-2, st.g['conv']))]
    def message(self, st, p, n, ins):
        self.oblige('C30', self.HW == 'hex', st, ins, 'only pairs of hexadecimal digits are written')
        if self.HW != 'hex': return False
        self.oblige('C30', lambda: p.obj is self.OUTB and st.is_eq(p.off) and st.is_eq(n - st.g['conv']) and st.is_eq(self.hexlen() - n.scale(2)), st, ins, 'the message is the bytes given')
        self.oblige('C30', not st.mon.get('sent'), st, ins, 'the bytes are written once')
        st.mon['sent'] = True
        return True
    def all_done(self, st): return bool(st.mon.get('sent'))
    def refused(self, st): return self.HW != 'hex'

# ------------------------------------------------------------ status
COUNTERS = {'bytes-written': 'bw', 'bytes-read': 'br', 'bytes-dropped': 'bd', 'messages-written': 'mw', 'messages-read': 'mr', 'messages-dropped': 'md',
            'ring-size': 'bn', 'bytes-ready': 'bu', 'max-messages': 'mm', 'messages-ready': 'mu'}
ATTRS = {'drop': 'SHR_DROP', 'appdata': 'SHR_APPDATA', 'farm': 'SHR_FARM', 'mlock': 'SHR_MLOCK', 'sync': 'SHR_SYNC'}

class StatusApi(OneShot):
    """what status prints against what the library reports"""
    PROP = 'C31'
    WORDS = [('ring',)]
    OPTS = {'v': 0, 'A': 1}
    RINGS = {'ring': 'r'}
    def begin(self, st):
        OneShot.begin(self, st)
        t = self.mod.find_struct('shr_stat')
        if t is None: raise AnalysisError('struct shr_stat not found')
        self.sf = self.mod.fields(t); self.ssize = t['size']
    def counter(self, f): return S(memo_sym(('stat', f), f, 0, 1 << 62))
    def adlen(self): return S(memo_sym(('adlen',), 'app-data length', 1, 1 << 30))
    def keepsym(self, s): return s in self.kept_ or OneShot.keepsym(self, s)
    @property
    def kept_(self):
        if not hasattr(self, '_kept'): self._kept = frozenset(x for v in [self.counter(f) for f in COUNTERS.values()] + [self.adlen()] for x, _ in v.t)
        return self._kept
    def m_shr_stat(self, st, args, ins):
        p = args[1]
        self.oblige('C31', self.isring(st, args[0], 'ring'), st, ins, 'the ring named is examined')
        self.oblige('C31', args[2] is NULL or isinstance(args[2], Ptr) and args[2].obj is None, st, ins, 'the counters are not reset')
        self.check_bounds(st, p, K(self.ssize), ins, 'write')
        self.mem_kill(st, p.obj, p.off, self.ssize); self.fill_unknown(st, p, K(self.ssize))
        f = self.failed(st, 'stat')
        for n in COUNTERS.values():
            o, z = self.sf[n][:2]
            self.mem_store(st, p.obj, p.off + o, z, self.counter(n))
        st.mon['stat'] = True
        out = [(f, K(-1))]; bits = sorted(set(ATTRS.values()) | {'SHR_MAXMSGS_2'}); o, z = self.sf['flags'][:2]
        for b in range(1 << len(bits)):
            s = st.copy(); v = 0
            for i, n in enumerate(bits): v |= self.flag(n) if b >> i & 1 else 0
            s.mon['flags'] = v
            self.mem_store(s, p.obj, p.off + o, z, K(v))
            out.append((s, ZERO))
        return out
    def m_shr_appdata(self, st, args, ins):
        g, w, z = args[1:4]
        self.oblige('C31', self.isring(st, args[0], 'ring'), st, ins, 'the ring named is examined')
        self.oblige('C31', isinstance(w, Ptr) and w.obj is None, st, ins, 'the application data is not changed')
        self.check_bounds(st, g, K(8), ins, 'write'); self.check_bounds(st, z, K(8), ins, 'write')
        b = self.mem_load(st, g.obj, g.off, 8, True)
        self.oblige('C31', isinstance(b, Ptr) and b.obj is None, st, ins, 'room for the application data is left to the library')
        n = st.copy()
        if (st.mon.get('flags') or 0) & self.flag('SHR_APPDATA') == 0: return [(n, K(-1))]
        n.mon['cause'] = n.mon['cause'] | {'appdata'}
        a = self.new_heap(st, ins, self.adlen(), False); st.mon['ad'] = a.id
        self.mem_store(st, g.obj, g.off, 8, Ptr(a)); self.mem_store(st, z.obj, z.off, 8, self.adlen())
        return [(n, K(-1)), (st, ZERO)]
    def isad(self, st, p): return isinstance(p, Ptr) and p.obj is not None and p.obj.id == st.mon.get('ad') and st.is_eq(p.off)
    def literal(self, st, t, ins):
        lines = t.split('\n')
        for i, l in enumerate(lines):
            if i:
                st.mon['inattr'] = False
            for w in l.split():
                if st.mon.get('inattr'): self.attr(st, w, ins)
                elif w == 'attributes': st.mon['inattr'] = True; st.mon['attrs'] = frozenset()
            last = l.split()
            st.mon['label'] = last[-1].rstrip(':=') if last else None
    def attr(self, st, w, ins):
        fl = st.mon.get('flags')
        if w in ATTRS:
            self.oblige('C31', fl is not None and bool(fl & self.flag(ATTRS[w])), st, ins, 'an attribute is listed only if the ring has it')
            st.mon['attrs'] = st.mon['attrs'] | {w}
        elif w == 'none':
            self.oblige('C31', fl is not None and not any(fl & self.flag(x) for x in ATTRS.values()), st, ins, 'no attributes are reported only if there are none')
            st.mon['attrs'] = st.mon['attrs'] | {w}
    def value(self, st, conv, v, ins):
        l = st.mon.get('label')
        if conv[-1] == 's':
            t = self.text(st, v)
            if t is not None: self.literal(st, t, ins); return
            if 'ad' in st.mon or '*' in conv:
                n = getattr(self, 'starv', None)
                self.oblige('C31', lambda: self.isad(st, v) and '*' in conv and isinstance(n, (Lin, Bits)) and st.is_eq(self.tolin(st, n, 32) - self.adlen()), st, ins, 'the text printed is the application data')
            return
        if not isinstance(v, (Lin, Bits)): return
        wide = any(x in conv for x in 'lzjt')
        if l in COUNTERS:
            self.oblige('C31', lambda: wide and bool(st.mon.get('stat')) and st.is_eq(self.tolin(st, v, 64) - self.counter(COUNTERS[l])), st, ins, 'each counter is printed under its own name')
            st.mon['seen'] = st.mon.get('seen', frozenset()) | {l}
        elif l == 'app-data':
            want = self.adlen() if 'ad' in st.mon else ZERO
            self.oblige('C31', lambda: wide and st.is_eq(self.tolin(st, v, 64) - want), st, ins, 'the size of the application data is printed')
            st.mon['seen'] = st.mon.get('seen', frozenset()) | {l}
    def open_file(self, st, k, fl, ins):
        self.oblige('C31', k == '-A' and 'ad' in st.mon and fl is not None and fl & 3 in (1, 2) and fl & 0o100 and fl & 0o1000, st, ins, 'the file named is created or emptied, for the application data')
        return self.fdres(st, FILEFD, 'open') if k == '-A' else []
    def begin_write(self, st): return st.g.get('saved', ZERO)
    def write_fd(self, st, fd, p, n, ins):
        n = st.norm(self.tolin(st, n, 64)); done = st.g.get('saved', ZERO)
        def ok(): return fd == FILEFD and isinstance(p, Ptr) and p.obj is not None and p.obj.id == st.mon.get('ad') and st.is_eq(p.off - done) and st.is_eq(self.adlen() - done - n)
        self.oblige('C31', ok, st, ins, 'the application data is written to the file')
        if not ok(): return []
        self.oblige('C31', lambda: st.entails(n - 1), st, ins, 'something is left to be written')
        out = [(self.failed(st, 'write'), K(-1))]
        r = self.at(ins, 'put', 1, 1 << 30)
        if st.add_ge(n - r):
            st.g['saved'] = st.norm(done + r)
            out.append((st, r))
        return out
    def at_exit(self, st, v):
        v = st.norm(self.tolin(st, v, 32)) if isinstance(v, (Lin, Bits)) else None
        self.xob(st, v is not None and not v.t, 'the exit status is known')
        if v is None or v.t: return
        if v.c: self.xob(st, bool(st.mon['cause']), 'status fails only for a reason'); return
        self.xob(st, bool(st.mon.get('stat')), 'success is reported only if the counters were read')
        self.xob(st, st.mon.get('seen', frozenset()) >= set(COUNTERS), 'every counter is printed')
        fl = st.mon.get('flags') or 0; want = frozenset(w for w, n in ATTRS.items() if fl & self.flag(n))
        got = st.mon.get('attrs', frozenset())
        self.xob(st, got - {'none'} == want and (fl != 0 or 'none' in got), 'every attribute of the ring is listed')
        if 'ad' in st.mon and 'A' in st.mon['opts']: self.xob(st, lambda: st.is_eq(st.g.get('saved', ZERO) - self.adlen()), 'success is reported only if the file holds all of the application data')

ENTRIES = {'main/sub': SubApi, 'main/read': ReadApi, 'main/readhex': HexApi, 'main/tee': TeeApi, 'main/pub': PubApi, 'main/mount': MountApi, 'main/create': CreateApi, 'main/write': WriteApi, 'main/writefile': WriteFileApi, 'main/writehex': WriteHexApi, 'main/status': StatusApi}
def make(mod, api): return ENTRIES[api](mod, api)
