"""Generator of Firm programs: the same program as driver text and as version 1 of the model."""
import random
from vlib import words
from firmc import Canon, Modes, MODE_DEF, REG_FN, lay_frame

BITS = {'Bs': 8, 'Bu': 8, 'Hs': 16, 'Hu': 16, 'Is': 32, 'Iu': 32, 'Ls': 64, 'Lu': 64, 'F': 32, 'D': 64, 'b': 1}
EQ, LT, GT, UO = 1, 2, 4, 8
LE = 3
RELS = [1, 2, 4, 3, 5, 6]
PROP_NO_WRITE, PROP_PURE, PROP_TERM, PROP_NOTHROW = 1, 2, 8, 16
PROP_ALWAYS_INLINE, PROP_NOINLINE = 1 << 9, 1 << 10


class Ty:
    def __init__(self, prog, idx, kind, size, align, mode=None, elem=None, n=0, fields=(), offs=()):
        self.p, self.idx, self.kind, self.size, self.align = prog, idx, kind, size, align
        self.mode, self.elem, self.n, self.fields, self.offs = mode, elem, n, list(fields), list(offs)

    def leaves(self):
        if self.kind in ('prim', 'ptr'):
            return [(0, self.mode)]
        if self.kind == 'arr':
            l = self.elem.leaves()
            return [(k * self.elem.size + o, m) for k in range(self.n) for o, m in l]
        fs = self.fields[:1] if self.kind == 'union' else self.fields
        return [(self.offs[k] + o, m) for k, f in enumerate(fs) for o, m in f.leaves()]


class Glob:
    def __init__(self, idx, name, ty, vis, const, init, vol=0):
        self.idx, self.name, self.ty, self.vis, self.const, self.init, self.vol = idx, name, ty, vis, const, init, vol


class Prog:
    def __init__(self, pid, modes, pbits=64, ll_align=8):
        self.id, self.modes, self.pbits, self.ll_align = pid, modes, pbits, ll_align
        self.canon = Canon(modes, pbits)
        self.text, self.tys, self.tcache = [], [], {}
        self.globs, self.fnents = [], []
        self.bodies = []
        self.script = []

    # ---- types
    def prim(self, m):
        return self._ty(('prim', m), lambda i: self._prim(i, m))

    def _prim(self, i, m):
        sz = self.pbits // 8 if m == 'P' else BITS[m] // 8
        al = self.ll_align if m in ('Ls', 'Lu', 'D') else sz
        self.text.append('ty %d prim %s' % (i, m))
        return Ty(self, i, 'prim', sz, al, mode=m)

    def ptr(self, to):
        def mk(i):
            self.text.append('ty %d ptr %d' % (i, to.idx))
            return Ty(self, i, 'ptr', self.pbits // 8, self.pbits // 8, mode='P', elem=to)
        return self._ty(('ptr', to.idx), mk)

    def arr(self, el, n):
        def mk(i):
            self.text.append('ty %d arr %d %d' % (i, el.idx, n))
            return Ty(self, i, 'arr', el.size * n, el.align, elem=el, n=n)
        return self._ty(('arr', el.idx, n), mk)

    def struct(self, fields, union=False):
        i = len(self.tys)
        self.text.append('ty %d %s %d %s' % (i, 'union' if union else 'struct', len(fields), ' '.join(str(f.idx) for f in fields)))
        offs, off, al = [], 0, 1
        for f in fields:
            a = f.align
            al = max(al, a)
            if union:
                offs.append(0)
                off = max(off, f.size)
            else:
                off = (off + a - 1) // a * a
                offs.append(off)
                off += f.size
        t = Ty(self, i, 'union' if union else 'struct', (off + al - 1) // al * al, al, fields=fields, offs=offs)
        self.tys.append(t)
        return t

    def meth(self, ps, rs, props=0):
        def mk(i):
            self.text.append('ty %d meth %d %d %d %s' % (i, len(ps), len(rs), props, ' '.join(str(x.idx) for x in list(ps) + list(rs))))
            t = Ty(self, i, 'meth', 0, 1)
            t.ps, t.rs, t.props = list(ps), list(rs), props
            return t
        return self._ty(('meth', tuple(x.idx for x in ps), tuple(x.idx for x in rs), props), mk)

    def _ty(self, key, mk):
        if key not in self.tcache:
            t = mk(len(self.tys))
            self.tys.append(t)
            self.tcache[key] = t
        return self.tcache[key]

    # ---- entities
    def glob(self, name, ty, vis='e', const=0, init=None, vol=0):
        """init: None (zero), or list of leaf values: int | ('g',k,off) | ('f',k)"""
        i = len(self.globs)
        g = Glob(i, name, ty, vis, const, init, vol)
        self.globs.append(g)
        self.text.append('gl %d %s %d %s %d %d' % (i, name, ty.idx, vis, const, vol))
        g.reg = 1 if name == 'in' else self.canon.g(name)
        return g

    def fn(self, name, mt, vis='e', props=0, ext=None):
        i = len(self.fnents)
        self.text.append('fn %d %s %d %s %d' % (i, name, mt.idx, vis, props))
        fid = self.canon.f(name)
        self.fnents.append((name, mt, fid))
        if ext:
            self.canon.ext[name] = {'kind': ext, 'id': i + 1}
        return i

    def pmode(self):
        return self.modes.get('P', 'r', self.pbits, 0, self.pbits, 0, 0)

    def mi(self, m):
        if m == 'P':
            return self.pmode()
        so, b, *r = MODE_DEF[m]
        if so == 'f':
            return self.modes.get(m, 'f', b, 0, 0, r[0], r[1])
        return self.modes.get(m, so, b, r[0], r[1], 0, 0)

    def gbytes(self, g):
        b = [0] * g.ty.size
        if g.init is not None:
            for (off, m), v in zip(g.ty.leaves(), g.init):
                n = self.pbits // 8 if m == 'P' else BITS[m] // 8
                if isinstance(v, tuple):
                    v = (self.globs[v[1]].reg << 20) + v[2] if v[0] == 'g' else ((REG_FN + self.fnents[v[1]][2]) << 20)
                for k in range(n):
                    b[off + k] = (v >> (8 * k)) & 255
        return b

    def inits(self):
        out = []
        for g in self.globs:
            if g.name == 'in' or g.vis == 'x':
                continue
            if g.init is None:
                if g.vis != 'e' or g.const:
                    out.append('ini %d' % g.idx)
                continue
            t = []
            for (off, m), v in zip(g.ty.leaves(), g.init):
                if isinstance(v, tuple):
                    t.append('@g%d%s' % (v[1], '+%d' % v[2] if v[2] else '') if v[0] == 'g' else '@f%d' % v[1])
                else:
                    n = self.pbits if m == 'P' else BITS[m]
                    t.append('%x' % (v & ((1 << n) - 1)) if m != 'P' else 'n')
            out.append('ini %d %s' % (g.idx, ' '.join(t)))
        return out

    def driver_text(self, pre=(), script=()):
        l = list(pre) + self.text + self.inits()
        for b in self.bodies:
            l += b.driver_lines()
        return '\n'.join(l + list(script))

    def source_version(self, main='main_'):
        fns = {}
        for b in self.bodies:
            fns[b.name] = b.source()
        glob = [[g.reg, self.gbytes(g)] for g in self.globs if g.name != 'in']
        ro = [g.reg for g in self.globs if g.const]
        return {'tag': 'source', 'fns': fns, 'glob': glob, 'ro': ro, 'main': main}


class FB:
    """builds one function"""
    def __init__(self, prog, fnidx, mature='rand', rng=None):
        self.p, self.fnidx = prog, fnidx
        self.name, self.mt, self.fid = prog.fnents[fnidx]
        self.nslots, self.tmode = 1, {}
        self.nt = 0
        self.vslot, self.vmode = {}, {}
        self.frames = []        # (ty, par)
        self.blocks = [self._nb()]
        self.cur = 0
        self.lines = ['in 0'] if False else []
        self.segs = {}
        self.order = [0]
        prog.bodies.append(self)
        self.rng = rng or random.Random(1)
        self.mature_late = self.rng.random() < 0.5
        self.preds_open = {}
        self.pend_mature = []
        self.scripts = []

    def _nb(self):
        return {'segs': [], 'n': [], 't': None}

    def block(self):
        self.blocks.append(self._nb())
        return len(self.blocks) - 1

    def at(self, b):
        self.cur = b
        self.order.append(b)
        self.lines.append('in %d' % b)

    def mature(self, b):
        """all jumps to b have been made"""
        if b == 0:
            return
        if self.rng.random() < 0.3:
            self.pend_mature.append(b)
        else:
            self.lines.append('mat %d' % b)
        if self.pend_mature and self.rng.random() < 0.3:
            self.flush_mature(1)

    def flush_mature(self, n=10000):
        while self.pend_mature and n > 0:
            k = self.rng.randrange(len(self.pend_mature))
            self.lines.append('mat %d' % self.pend_mature.pop(k))
            n -= 1

    def t(self, mode):
        self.nslots += 1
        self.nt += 1
        self.tmode[self.nt] = (mode, self.nslots)
        return self.nt

    def s(self, t):
        return self.tmode[t][1]

    def m(self, t):
        return self.tmode[t][0]

    def rec(self, o, d=0, i=(), m=None, q=None, x=()):
        self.blocks[self.cur]['n'].append({'o': o, 'd': d, 'i': list(i), 'm': self.p.mi(m) if m else 1, 'q': self.p.mi(q) if q else 1,
                                           'x': list(x)})

    def mb(self, m):
        return self.p.pbits if m == 'P' else BITS[m]

    # ---- instructions
    def const(self, m, v):
        d = self.t(m)
        v &= (1 << self.mb(m)) - 1
        self.lines.append('c %d %s %x' % (d, m, v))
        self.rec('Const', self.s(d), m=m, x=words(v, self.mb(m)))
        return d

    def unknown(self, m):
        d = self.t(m)
        self.lines.append('u %d %s' % (d, m))
        self.rec('Unk', self.s(d), m=m)
        return d

    def arg(self, k):
        m = self.mt.ps[k].mode or 'P'
        d = self.t(m)
        self.lines.append('a %d %d' % (d, k))
        self.rec('Arg', self.s(d), m=m, x=[k + 1])
        return d

    def bin(self, op, a, b):
        m = self.m(a)
        if op == 'Sub' and m == 'P' and self.m(b) == 'P':
            m = 'Ls' if self.p.pbits == 64 else 'Is'
        d = self.t(m)
        self.lines.append('%s %d %d %d' % (op, d, a, b))
        self.rec(op, self.s(d), [self.s(a), self.s(b)], m, self.m(b))
        return d

    def un(self, op, a):
        d = self.t(self.m(a))
        self.lines.append('%s %d %d' % (op, d, a))
        self.rec(op, self.s(d), [self.s(a)], self.m(a), self.m(a))
        return d

    def cmp(self, rel, a, b):
        d = self.t('b')
        self.lines.append('Cmp %d %d %d %d' % (d, rel, a, b))
        self.rec('Cmp', self.s(d), [self.s(a), self.s(b)], 'b', self.m(a), [rel])
        return d

    def conv(self, m, a, op='Conv'):
        if self.m(a) == m:
            return a
        d = self.t(m)
        self.lines.append('%s %d %s %d' % (op, d, m, a))
        self.rec(op, self.s(d), [self.s(a)], m, self.m(a))
        return d

    def mux(self, c, f, t):
        d = self.t(self.m(f))
        self.lines.append('Mux %d %d %d %d' % (d, c, f, t))
        self.rec('Mux', self.s(d), [self.s(c), self.s(f), self.s(t)], self.m(f))
        return d

    def builtin(self, kind, name, a, rm):
        d = self.t(rm)
        mt = self.p.meth([self.p.prim(self.m(a))], [self.p.prim(rm)])
        self.lines.append('Bi %d %d %d 1 %d' % (d, kind, mt.idx, a))
        self.rec(name, self.s(d), [self.s(a)], rm, self.m(a))
        return d

    def setv(self, v, t):
        self.lines.append('set %d %d' % (v, t))
        if v not in self.vslot:
            self.nslots += 1
            self.vslot[v] = self.nslots
        self.vmode[v] = self.m(t)
        self.rec('Id', self.vslot[v], [self.s(t)])

    def getv(self, v, m=None):
        m = m or self.vmode[v]
        d = self.t(m)
        self.lines.append('get %d %d %s' % (d, v, m))
        if v not in self.vslot:
            self.nslots += 1
            self.vslot[v] = self.nslots
            self.vmode[v] = m
        self.rec('Id', self.s(d), [self.vslot[v]])
        return d

    def addr(self, g):
        d = self.t('P')
        self.lines.append('Addr %d %d' % (d, g.idx))
        self.rec('Addr', self.s(d), m='P', x=[g.reg])
        return d

    def faddr(self, f):
        d = self.t('P')
        self.lines.append('Faddr %d %d' % (d, f))
        self.rec('Addr', self.s(d), m='P', x=[REG_FN + self.p.fnents[f][2]])
        return d

    def frame(self, ty, par=-1):
        self.frames.append((ty, par))
        return len(self.frames) - 1

    def faddr_of(self, k):
        d = self.t('P')
        self.lines.append('Frame %d %d' % (d, k))
        # offset is known only when all frame entities are: patched in source()
        self.nslots += 1
        self.rec('Fb', self.nslots, m='P')
        self.rec('Off', self.s(d), [self.nslots], 'P', None, [('frame', k)])
        return d

    def member(self, a, ty, k):
        d = self.t('P')
        self.lines.append('Mem %d %d %d %d' % (d, a, ty.idx, k))
        self.rec('Off', self.s(d), [self.s(a)], 'P', None, words(ty.offs[k], 32))
        return d

    def sel(self, a, i, ty):
        d = self.t('P')
        self.lines.append('Sel %d %d %d %d' % (d, a, i, ty.idx))
        self.rec('Sel', self.s(d), [self.s(a), self.s(i)], 'P', self.m(i), [ty.elem.size])
        return d

    def size(self, m, ty):
        d = self.t(m)
        self.lines.append('Size %d %s %d' % (d, m, ty.idx))
        self.rec('Const', self.s(d), m=m, x=words(ty.size, self.mb(m)))
        return d

    def load(self, ty, a, vol=0):
        d = self.t(ty.mode)
        self.lines.append('Load %d %s %d %d %d' % (d, ty.mode, a, vol, ty.idx))
        self.rec('Load', self.s(d), [self.s(a)], ty.mode, None, [vol])
        return d

    def store(self, ty, a, v, vol=0):
        self.lines.append('Store %d %d %d %d' % (a, v, vol, ty.idx))
        self.rec('Store', 0, [self.s(a), self.s(v)], None, self.m(v), [vol])

    def copyb(self, d, s, ty):
        self.lines.append('CopyB %d %d %d' % (d, s, ty.idx))
        self.rec('CopyB', 0, [self.s(d), self.s(s)], x=[ty.size, 0])

    def div(self, op, a, b):
        d = self.t(self.m(a))
        self.lines.append('%s %d %d %d' % (op, d, a, b))
        self.rec('Div' if op[0] == 'D' else 'Mod', self.s(d), [self.s(a), self.s(b)], self.m(a), None, [1 if op == 'DivRL' else 0])
        return d

    def alloc(self, n, align=16):
        d = self.t('P')
        self.lines.append('Alloc %d %d %d' % (d, n, align))
        self.rec('Alloc', self.s(d), [self.s(n)], 'P')
        return d

    def call(self, ptr, mt, args):
        rs = [self.t(r.mode or 'P') for r in mt.rs]
        self.lines.append('Call %d %d %d %s %d %s' % (ptr, mt.idx, len(args), ' '.join(map(str, args)), len(rs), ' '.join(map(str, rs))))
        comp = lambda t: t.size if t.kind in ('struct', 'union', 'arr') else 0
        b = self.blocks[self.cur]
        t = self._t('call', [self.s(ptr)] + [self.s(a) for a in args])
        t.update(d=[self.s(x) for x in rs], dm=[self.p.mi(r.mode or 'P') for r in mt.rs], ps=[comp(x) for x in mt.ps], rs=[comp(x) for x in mt.rs])
        b['segs'].append({'n': b['n'], 't': t})
        b['n'] = []
        return rs

    def _t(self, o, i=(), t=()):
        return {'o': o, 'i': list(i), 't': [list(x) for x in t], 'm': 1, 'd': [], 'dm': [], 'ps': [], 'rs': [], 'tab': []}

    def end(self, t):
        b = self.blocks[self.cur]
        assert b['t'] is None
        b['t'] = t
        b['segs'].append({'n': b['n'], 't': t})

    def jmp(self, b):
        self.lines.append('jmp %d' % b)
        self.end(self._t('jmp', (), [[b + 1, 1]]))

    def cond(self, c, bt, bf, swap=0):
        self.lines.append('cond %d %d %d %d' % (c, bt, bf, swap))
        self.end(self._t('cond', [self.s(c)], [[bt + 1, 1], [bf + 1, 1]]))

    def switch(self, x, default, entries, blocks):
        """entries: (min, max, pn), pn from 1; blocks[pn-1]"""
        m = self.m(x)
        n = self.mb(m)
        self.lines.append('sw %d %s %d %d %d %s %s' % (x, m, default, len(blocks) + 1, len(entries),
                          ' '.join('%x %x %d' % (a & ((1 << n) - 1), b & ((1 << n) - 1), p) for a, b, p in entries), ' '.join(map(str, blocks))))
        t = self._t('sw', [self.s(x)], [[default + 1, 1]] + [[b + 1, 1] for b in blocks])
        t['tab'] = [[words(a, n), words(b, n), p] for a, b, p in entries]
        t['m'] = self.p.mi(m)
        self.end(t)

    def ret(self, vals=()):
        self.lines.append('ret %d %s' % (len(vals), ' '.join(map(str, vals))))
        self.end(self._t('ret', [self.s(v) for v in vals]))

    def keepm(self):
        self.lines.append('keepm')

    def driver_lines(self):
        self.flush_mature()
        nl = max(list(self.vslot) + [-1]) + 1
        fr = ' '.join('%d %d' % (t.idx, par) for t, par in self.frames)
        return ['body %d %d %d %d %s' % (self.fnidx, nl, len(self.blocks), len(self.frames), fr)] + self.lines + ['endbody']

    def source(self):
        ents = [(k, t.size, par, t.mode) for k, (t, par) in enumerate(self.frames)]
        foff, fs = lay_frame(ents)
        out = []
        for b in self.blocks:
            segs = []
            for s in b['segs']:
                ns = []
                for n in s['n']:
                    if n['x'] and isinstance(n['x'][0], tuple):
                        n = dict(n, x=words(foff[n['x'][0][1]], 32))
                    ns.append(n)
                segs.append({'n': ns, 't': s['t']})
            if not segs:
                segs = [{'n': [], 't': self._t('none')}]
            out.append({'p': [], 's': segs})
        pro = []
        for k, (t, par) in enumerate(self.frames):
            if par >= 0:
                a, p, s = self.nslots + 1, self.nslots + 2, self.nslots + 3
                self.nslots += 3
                P = self.p.mi('P')
                z = lambda o, d, i, m, q, x: {'o': o, 'd': d, 'i': i, 'm': m, 'q': q, 'x': x}
                pro.append(z('Fb', a, [], P, 1, []))
                pro.append(z('Off', p, [a], P, 1, words(foff[k], 32)))
                if t.mode:
                    pro.append(z('Arg', s, [], self.p.mi(t.mode), 1, [par + 1]))
                    pro.append(z('Store', 0, [p, s], 1, self.p.mi(t.mode), [0]))
                else:
                    pro.append(z('Arg', s, [], P, 1, [par + 1]))
                    pro.append(z('CopyB', 0, [p, s], 1, 1, [t.size, 0]))
        out[0]['s'][0] = {'n': pro + out[0]['s'][0]['n'], 't': out[0]['s'][0]['t']}
        return {'k': 'f', 'n': self.nslots, 'fs': fs, 'b': out, 'kind': '', 'id': 0}


INTERESTING = {8: [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 0x7f, 0x80, 0xff, 0xfe, 0x55, 0xf0],
               16: [0, 1, 2, 3, 7, 8, 16, 31, 32, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0xfffe, 0xff00],
               32: [0, 1, 2, 3, 4, 5, 7, 8, 10, 12, 16, 24, 31, 32, 63, 100, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff,
                    0xfffffffe, 0xff00ff00, 0x55555555, 0xaaaaaaaa, 0xf0f0f0f0, 0xffff0000],
               64: [0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 32, 33, 63, 64, 0xff, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000,
                    0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xfffffffffffffffe, 0xffffffff00000000, 0x5555555555555555]}


def interesting(rng, bits):
    k = rng.randrange(10)
    if k < 6:
        v = rng.choice(INTERESTING[bits])
    elif k == 6:
        v = 1 << rng.randrange(bits)
    elif k == 7:
        v = (1 << rng.randrange(bits)) - 1
    elif k == 8:
        v = rng.randrange(-16, 17)
    else:
        v = rng.getrandbits(bits)
    return v & ((1 << bits) - 1)


def fbits(rng, m):
    """bit patterns of ordinary float values"""
    import struct
    v = rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 3.0, 100.0, -0.0, 1e10, 0.1, rng.uniform(-100, 100), float(rng.randrange(-50, 50))])
    return int.from_bytes(struct.pack('<f' if m == 'F' else '<d', v), 'little')


DEFAULT = dict(modes=['Is', 'Iu', 'Ls', 'Lu', 'Bs', 'Bu', 'Hs', 'Hu'], wmodes=[6, 4, 3, 2, 1, 1, 1, 1], floats=0.0, mem=0.5, calls=0.3, ifs=0.5,
               loops=0.4, switch=0.15, goto=0.1, stmts=(4, 10), depth=3, nfun=2, mux=0.3, div=0.3, builtins=0.0, structs=True, exprdepth=4,
               globals=True, volatile=0.05, small_consts=0.6, undef=0.02, indirect=0.1, recursion=0.1, copyb=0.1, alloc=0.0, ptrvars=0.2,
               early_ret=0.1, compound=0.0, maxloop=6, wide_args=True, extern_int=True, confirm=0.0, raw=0.0, dead=0.0, deadloop=0.0, nonan=0, bytes=0.0)


class Gen:
    """random programs"""
    def __init__(self, pid, rng, modes, pbits=64, ll_align=8, **kw):
        self.o = dict(DEFAULT)
        self.o.update(kw)
        self.rng = rng
        self.p = Prog(pid, modes, pbits, ll_align)
        self.ptrint = 'Ls' if pbits == 64 else 'Is'
        self.setup()

    def chance(self, key):
        v = self.o[key] if isinstance(key, str) else key
        return self.rng.random() < v

    def imode(self):
        return self.rng.choices(self.o['modes'], self.o['wmodes'][:len(self.o['modes'])])[0]

    def setup(self):
        p, rng, o = self.p, self.rng, self.o
        I, L = p.prim('Is'), p.prim('Ls')
        P = p.ptr(I)
        self.P, self.I, self.L = P, I, L
        self.gin = p.glob('in', p.arr(p.prim('Iu'), 16))
        self.gin.reg = 1
        self.gout = p.glob('out', p.arr(L, 8))
        self.gsh = p.glob('sh', p.arr(I, 4), init=[rng.randrange(100) for _ in range(4)])
        self.ga = [p.glob('ga%d' % k, p.arr(p.prim(m), n), vis=vis, init=[interesting(rng, BITS[m]) for _ in range(n)])
                   for k, (m, n, vis) in enumerate([('Is', 4, 'e'), ('Bu', 8, 'l'), (rng.choice(['Hs', 'Ls', 'Iu']), 4, 'l')])]
        self.gscal = [p.glob('gs%d' % k, p.prim(m), vis=vis, init=[interesting(rng, BITS[m])])
                      for k, (m, vis) in enumerate([('Is', 'e'), ('Lu', 'l'), ('Hs', 'l')])]
        self.gconst = p.glob('gc', p.arr(I, 4), vis='l', const=1, init=[interesting(rng, 32) for _ in range(4)])
        self.st = p.struct([p.prim(m) for m in rng.sample(['Bs', 'Hs', 'Is', 'Ls', 'Bu', 'Iu'], rng.randrange(2, 5))])
        if o['structs']:
            self.st2 = p.struct([I, self.st, p.arr(p.prim('Hs'), 4)])
            self.gst = p.glob('gst', self.st2, vis=rng.choice('el'), init=[interesting(rng, BITS[m]) for _, m in self.st2.leaves()])
        if o['bytes']:
            self.gbb = [p.glob('bb%d' % k, p.arr(L, 4), vis=vis, init=[rng.getrandbits(63) for _ in range(4)]) for k, vis in enumerate('le')]
            self.bst = [p.struct([p.prim(m)] * n) for m, n in (('Bu', 3), ('Hs', 3), ('Is', 3), ('Ls', 2), ('Is', 1), ('Bu', 5), ('Hs', 5))]
        self.gvol = p.glob('gv', I, vis='e', init=[5], vol=1)
        self.ext = {}
        for nm, ps, rs, kind, props in (('e_log', [I], [I], 'log', 0), ('e_log2', [I, I], [], 'log', 0), ('e_rd', [P], [I], 'rd', 0),
                                        ('e_wr', [P], [], 'wr', 0), ('e_clob', [], [I], 'clob', 0),
                                        ('e_pure', [I], [I], 'pure', PROP_PURE | PROP_NO_WRITE | PROP_TERM | PROP_NOTHROW),
                                        ('e_prd', [P], [I], 'prd', PROP_NO_WRITE | PROP_TERM | PROP_NOTHROW), ('e_ll', [L, I], [L], 'log', 0)):
            mt = p.meth(ps, rs)
            self.ext[nm] = (p.fn(nm, mt, 'x', props, ext=kind), mt)
        # internal functions: declared first, so that calls may go anywhere
        self.fns, self.recs = [], set()
        for k in range(o['nfun']):
            np = rng.randrange(0, 4)
            ps = [rng.choice([I, I, L, p.prim('Iu'), P if self.chance('mem') else I] +
                             ([p.prim('D')] if self.chance('floats') else [])) for _ in range(np)]
            if o['compound'] and self.chance('compound'):
                ps.append(self.st)
            rs = [rng.choice([I, I, L])]
            props = rng.choice([0, 0, 0, PROP_ALWAYS_INLINE, PROP_NOINLINE])
            if self.chance('recursion'):
                self.recs.add(k)
                ps.insert(0, I)
                if props == PROP_ALWAYS_INLINE:
                    props = 0
            mt = p.meth(ps, rs)
            vis = rng.choice('lle')
            self.fns.append((p.fn('f%d' % k, mt, vis, props), mt))
        self.main_mt = p.meth([], [])
        self.main_idx = p.fn('main_', self.main_mt)
        for k in range(o['nfun']):
            self.body(k)
        self.body(-1)

    # ---- function bodies
    def body(self, k):
        rng, o = self.rng, self.o
        self.fk = k
        fb = FB(self.p, self.fns[k][0] if k >= 0 else self.main_idx, rng=rng)
        self.fb = fb
        self.scope = []          # variables that may be read (index, mode)
        self.frames = []
        self.nvar = 0
        self.fuel_calls = 3
        self.loopdepth = 0
        self._locked = set()
        # frame objects
        if self.chance('mem'):
            for _ in range(rng.randrange(1, 3)):
                ty = rng.choice([self.p.arr(self.p.prim(rng.choice(['Is', 'Bu', 'Ls', 'Hs'])), 4), self.p.prim(rng.choice(['Is', 'Ls'])), self.st])
                fr = fb.frame(ty)
                self.frames.append((fr, ty))
        for j, ty in enumerate(fb.mt.ps):
            if ty.kind == 'struct':
                self.frames.append((fb.frame(ty, j), ty, 'par'))
            elif ty.kind == 'prim':
                if rng.random() < 0.15 and o['mem'] > 0:
                    self.frames.append((fb.frame(ty, j), ty, 'par'))
                else:
                    v = self.newvar(ty.mode)
                    fb.setv(v, fb.arg(j))
            else:
                v = self.newvar('P')
                fb.setv(v, fb.arg(j))
        for f in self.frames:
            if len(f) == 2:
                a = fb.faddr_of(f[0])
                self.fill(a, f[1])
        if k < 0:
            for _ in range(rng.randrange(2, 5)):
                v = self.newvar(rng.choice(['Is', 'Iu', 'Ls', 'Is']))
                fb.setv(v, fb.conv(self.scope[-1][1], self.input()))
        else:
            v = self.newvar('Is')
            fb.setv(v, self.input() if rng.random() < .5 else fb.const('Is', interesting(rng, 32)))
            if k in self.recs:
                self.rec_guard()
        self.stmts(rng.randrange(*o['stmts']), o['depth'])
        self.finish()

    def rec_guard(self):
        """first parameter: how deep the recursion may still go"""
        fb = self.fb
        d = self.nvar
        self.nvar += 1
        self._locked = self.locked() | {d}
        self.depthvar = d
        fb.setv(d, fb.arg(0))
        bt, bf = fb.block(), fb.block()
        fb.cond(fb.cmp(LE, fb.getv(d, 'Is'), fb.const('Is', 0)), bt, bf, self.rng.randrange(2))
        fb.at(bt)
        fb.mature(bt)
        m = fb.mt.rs[0].mode
        fb.ret([self.expr(m, 1)])
        fb.at(bf)
        fb.mature(bf)
        self.rec_calls = 1

    def args(self, k, mt, self_call=False):
        """arguments of a call of function k"""
        rng, fb = self.rng, self.fb
        args = []
        for j, t in enumerate(mt.ps):
            if j == 0 and k in self.recs:
                if self_call:
                    args.append(fb.bin('Sub', fb.getv(self.depthvar, 'Is'), fb.const('Is', rng.choice([1, 1, 2]))))
                else:
                    args.append(fb.const('Is', rng.randrange(4)) if rng.random() < .6 else fb.bin('And', self.expr('Is', 1), fb.const('Is', 3)))
            elif t.kind == 'struct':
                o = [mk for mk, ty in self.objects() if ty is t]
                if not o:
                    return None
                args.append(rng.choice(o)())
            elif t.mode == 'P':
                ps = [v for v, m in self.scope if m == 'P']
                # the frame dies with a tail call: hand on pointers that came from outside
                args.append(fb.getv(rng.choice(ps), 'P') if ps and rng.random() < .6 else self.is_address())
            elif self_call and rng.random() < .4:
                vs = [v for v, m in self.scope if m == t.mode]
                args.append(fb.getv(rng.choice(vs), t.mode) if vs else self.leaf(t.mode))
            else:
                args.append(self.expr(t.mode, 2))
        return args

    def rec_call(self):
        fb, rng = self.fb, self.rng
        k = self.fk
        f, mt = self.fns[k]
        same = [j for j in self.recs if self.fns[j][1] is mt]
        if rng.random() < .3:
            f = self.fns[rng.choice(same)][0]       # mutual recursion
        a = self.args(k, mt, True)
        return None if a is None else fb.call(fb.faddr(f), mt, a)[0]

    def fill(self, a, ty):
        fb, rng = self.fb, self.rng
        if ty.kind == 'prim':
            fb.store(ty, a, self.leaf(ty.mode))
        elif ty.kind == 'arr':
            for i in range(ty.n):
                fb.store(ty.elem, fb.sel(a, fb.const(self.ptrint, i), ty), self.leaf(ty.elem.mode))
        else:
            for i, f in enumerate(ty.fields):
                self.fill(fb.member(a, ty, i), f)

    def finish(self):
        fb = self.fb
        if self.fk < 0:
            k = 0
            for v, m in self.scope[-8:]:
                if m == 'P' or m == 'b':
                    continue
                x = fb.getv(v, m)
                if m in ('F', 'D'):
                    if m == 'F':
                        x = fb.conv('D', x)
                    y = x
                    x = fb.conv('Ls', x, 'Bitcast')
                    if self.o['nonan']:      # the bits of a NaN are the processor's choice
                        x = fb.mux(fb.cmp(EQ, y, y), fb.const('Ls', 7), x)
                else:
                    x = fb.conv('Ls', x)
                a = fb.sel(fb.addr(self.gout), fb.const(self.ptrint, k), self.gout.ty)
                fb.store(self.L, a, x)
                k += 1
            fb.ret()
        else:
            m = fb.mt.rs[0].mode
            if self.fk in self.recs and self.loopdepth == 0 and self.rng.random() < .8:
                # (nearly) tail calls
                k = self.rng.choice(['t', 't', 't', 'Add', 'Mul', 'Minus', 'Sub', 'Add2', 'Mul2'])
                x = self.expr(m, 1) if k in ('Add', 'Mul', 'Sub', 'Add2', 'Mul2') and self.rng.random() < .7 else fb.const(m, 3)
                r = self.rec_call()
                if r is not None:
                    r = (r if k == 't' else fb.un('Minus', r) if k == 'Minus' else fb.bin(k, x, r) if k in ('Add', 'Mul', 'Sub')
                         else fb.bin(k[:3], r, x))
                    fb.ret([r])
                    return
            fb.ret([fb.conv(m, self.expr(m, 2))])

    def newvar(self, m):
        v = self.nvar
        self.nvar += 1
        self.scope.append((v, m))
        return v

    def input(self):
        fb = self.fb
        a = fb.sel(fb.addr(self.gin), fb.const(self.ptrint, self.rng.randrange(16)), self.gin.ty)
        x = fb.load(self.gin.ty.elem, a)
        return fb.conv('Is', x)

    # ---- statements
    def stmts(self, n, depth):
        for _ in range(n):
            self.stmt(depth)

    def stmt(self, depth):
        rng, o, fb = self.rng, self.o, self.fb
        ch = [('assign', 4), ('newvar', 2)]
        if depth > 0:
            ch += [('if', 3 * o['ifs']), ('loop', 2 * o['loops']), ('switch', 3 * o['switch']), ('goto', 3 * o['goto'])]
        if o['mem']:
            ch += [('store', 4 * o['mem']), ('ptr', 2 * o['ptrvars']), ('copyb', 2 * o['copyb'])]
        if o['bytes']:
            ch += [('bytes', 6 * o['bytes'])]
        if o['calls']:
            ch += [('call', 3 * o['calls'])]
        if o['dead']:
            ch += [('dead', 3 * o['dead'])]
        if o['volatile']:
            ch += [('vol', 2 * o['volatile'])]
        k = rng.choices([c[0] for c in ch], [c[1] for c in ch])[0]
        getattr(self, 's_' + k)(depth)

    def s_assign(self, depth):
        vs = [(v, m) for v, m in self.scope if m not in ('P',) and v not in self.locked()]
        if not vs:
            return self.s_newvar(depth)
        v, m = self.rng.choice(vs)
        self.fb.setv(v, self.expr(m, self.o['exprdepth']))

    def locked(self):
        return self._locked if hasattr(self, '_locked') else set()

    def s_newvar(self, depth):
        m = self.imode()
        if self.chance('floats'):
            m = self.rng.choice(['D', 'F', 'D'])
        t = self.expr(m, self.o['exprdepth'])
        v = self.nvar
        self.nvar += 1
        self.fb.setv(v, t)
        self.scope.append((v, m))

    def s_store(self, depth):
        fb = self.fb
        a, ty = self.address()
        fb.store(ty, a, self.expr(ty.mode, 3))

    def s_vol(self, depth):
        fb = self.fb
        if self.rng.random() < 0.5:
            fb.store(self.I, fb.addr(self.gvol), self.expr('Is', 2), 1)
        else:
            x = fb.load(self.I, fb.addr(self.gvol), 1)
            v = self.newvar('Is')
            fb.setv(v, x)

    def s_ptr(self, depth):
        # pointer variables always point at an Is location
        fb = self.fb
        v = self.nvar
        a = self.is_address()
        if self.rng.random() < 0.4:
            a = fb.mux(self.cond(1), a, self.is_address())
        self.nvar += 1
        fb.setv(v, a)
        self.scope.append((v, 'P'))

    def s_copyb(self, depth):
        fb = self.fb
        objs = self.objects()
        by = {}
        for mk, ty in objs:
            if ty.kind in ('arr', 'struct'):
                by.setdefault(ty.idx, []).append((mk, ty))
        c = [l for l in by.values() if len(l) >= 2]
        if not c:
            return self.s_store(depth)
        l = self.rng.choice(c)
        (m1, ty), (m2, _) = self.rng.sample(l, 2)
        fb.copyb(m1(), m2(), ty)

    def s_bytes(self, depth):
        """overlapping accesses of several sizes to two buffers, at constant aligned offsets"""
        rng, fb = self.rng, self.fb
        span = rng.choice([8, 12, 16, 24])

        def at(g, off):
            a = fb.addr(g)
            return fb.bin('Add', a, fb.const(self.ptrint, off)) if off else a
        for _ in range(rng.randrange(2, 8)):
            k = rng.random()
            g = rng.choice(self.gbb) if rng.random() < .4 else self.gbb[0]
            m = rng.choice(['Bu', 'Bs', 'Hs', 'Hu', 'Is', 'Iu', 'Ls'])
            n = BITS[m] // 8
            off = n * rng.randrange(0, span // n)
            if k < .12:
                # a value and a part of it, at the same place; a value where it came from
                w = rng.choice(['Is', 'Iu', 'Ls'])
                off = BITS[w] // 8 * rng.randrange(0, span // (BITS[w] // 8))
                x = fb.load(self.p.prim(w), at(g, off)) if rng.random() < .4 else self.expr(w, 1)
                l = [(w, x), (m, x if m == w else fb.conv(m, x))]
                if rng.random() < .6:
                    l = l[::-1]
                if rng.random() < .3:
                    l = l[:1]
                a = at(g, off)
                for mm, y in l:
                    fb.store(self.p.prim(mm), a, y)
            elif k < .4:
                v = fb.const(m, interesting(rng, BITS[m])) if rng.random() < .4 else self.expr(m, 1)
                fb.store(self.p.prim(m), at(g, off), v)
            elif k < .85:
                x = fb.load(self.p.prim(m), at(g, off))
                v = self.newvar(m)
                fb.setv(v, x)
            else:
                t = rng.choice(self.bst)
                o1, o2 = (4 * rng.randrange(0, (span - 1) // 4) if span > 8 and rng.random() < .5 else 0 for _ in '12')
                if t.leaves()[0][1] == 'Ls':
                    o1, o2 = o1 // 8 * 8, o2 // 8 * 8
                h = self.gbb[1 - self.gbb.index(g)]
                # often: what was written to the source shortly before is read from the copy
                ds = [d for d in range(0, t.size) if (o1 + d) % n == 0 and (o2 + d) % n == 0 and max(o1, o2) + d + n <= 32]
                d = rng.choice(ds) if ds and rng.random() < .75 else -1
                if d >= 0:
                    fb.store(self.p.prim(m), at(h, o2 + d), self.expr(m, 1))
                fb.copyb(at(g, o1), at(h, o2), t)
                if d >= 0:
                    if rng.random() < .2:
                        fb.store(self.p.prim('Is'), at(rng.choice([g, h]), 4 * rng.randrange(0, 4)), self.expr('Is', 1))
                    x = fb.load(self.p.prim(m), at(g, o1 + d))
                    v = self.newvar(m)
                    fb.setv(v, x)

    def s_call(self, depth):
        rng, fb = self.rng, self.fb
        cands = [k for k in range(len(self.fns)) if k < self.fk or self.fk < 0]
        if self.fk in self.recs and self.loopdepth == 0 and self.rec_calls > 0 and rng.random() < .5:
            self.rec_calls -= 1
            r = self.rec_call()
            if r is not None:
                v = self.newvar(fb.m(r))
                fb.setv(v, r)
                return
        if cands and self.fuel_calls > 0 and rng.random() < 0.5 and self.loopdepth < 2:
            self.fuel_calls -= 1
            k = rng.choice(cands)
            f, mt = self.fns[k]
            if self.chance('indirect'):
                same = [j for j in cands if self.fns[j][1] is mt]
                ptr = fb.faddr(f)
                if len(same) > 1:
                    j = rng.choice(same)
                    ptr = fb.mux(self.cond(1), ptr, fb.faddr(self.fns[j][0]))
            else:
                ptr = fb.faddr(f)
            args = self.args(k, mt)
            if args is None:
                return self.s_assign(depth)
            rs = fb.call(ptr, mt, args)
        else:
            nm = rng.choice(['e_log', 'e_log', 'e_log2', 'e_rd', 'e_wr', 'e_clob', 'e_pure', 'e_prd', 'e_ll'])
            if not self.o['mem'] and nm in ('e_rd', 'e_wr', 'e_prd'):
                nm = 'e_log'
            f, mt = self.ext[nm]
            args = [self.is_address() if t.mode == 'P' else self.expr(t.mode, 2) for t in mt.ps]
            rs = fb.call(fb.faddr(f), mt, args)
        for r in rs:
            v = self.nvar
            self.nvar += 1
            fb.setv(v, r)
            self.scope.append((v, fb.m(r)))

    def s_if(self, depth):
        rng, fb = self.rng, self.fb
        c = self.cond(2)
        bt, bf, be = fb.block(), fb.block(), fb.block()
        two = rng.random() < 0.6
        fb.cond(c, bt, bf if two else be, rng.randrange(2))
        n = len(self.scope)
        sv = self.nvar
        early = False
        fb.at(bt)
        fb.mature(bt)
        self.stmts(rng.randrange(1, 3), depth - 1)
        if self.chance('early_ret'):
            self.finish()
            early = True
        else:
            fb.jmp(be)
        del self.scope[n:]
        if two:
            fb.at(bf)
            fb.mature(bf)
            self.stmts(rng.randrange(1, 3), depth - 1)
            fb.jmp(be)
            del self.scope[n:]
        else:
            self.fb.lines.append('mat %d' % bf)
        fb.at(be)
        fb.mature(be)

    def s_loop(self, depth):
        rng, fb = self.rng, self.fb
        if self.loopdepth >= 2:
            return self.s_assign(depth)
        kind = rng.choice(['for', 'for', 'do', 'while'])
        m = rng.choice(['Is', 'Iu', 'Is', 'Ls'] if 'Ls' in self.o['modes'] else ['Is', 'Iu'])
        i = self.nvar
        self.nvar += 1
        old = self.locked()
        up = rng.random() < 0.7
        n = rng.randrange(1, self.o['maxloop'] + 1)
        step = rng.choice([1, 1, 1, 2])
        var_bound = rng.random() < 0.4
        if var_bound:
            lim = fb.bin('And', self.expr(m, 2), fb.const(m, 7))
        else:
            lim = fb.const(m, n * step)
        lv = self.nvar
        self.nvar += 1
        fb.setv(lv, lim)
        fb.setv(i, fb.const(m, 0) if up else lim)
        self.scope += [(i, m), (lv, m)]
        self._locked = old | {i, lv}
        self.loopdepth += 1
        fc = self.fuel_calls
        ns = len(self.scope)
        head, body, ex = fb.block(), fb.block(), fb.block()

        def test():
            x = fb.getv(i, m)
            if up:
                return fb.cmp(LT, x, fb.getv(lv, m) if var_bound else fb.const(m, n * step))
            return fb.cmp(GT, x, fb.const(m, 0))

        def advance():
            x = fb.getv(i, m)
            if up:
                fb.setv(i, fb.bin('Add', x, fb.const(m, step)))
            elif m in ('Iu', 'Lu'):
                fb.setv(i, fb.bin('Sub', x, fb.const(m, 1)))
            else:
                fb.setv(i, fb.bin('Sub', x, fb.const(m, step)))
        if kind == 'do':
            fb.jmp(body)
            fb.at(body)
            self.stmts(rng.randrange(1, 3), depth - 1)
            del self.scope[ns:]
            advance()
            # do-while with an unsigned down counter needs at least one iteration left
            x = fb.getv(i, m)
            if up:
                c = fb.cmp(LT, x, fb.getv(lv, m) if var_bound else fb.const(m, n * step))
            elif m in ('Iu', 'Lu'):
                c = fb.cmp(LT, fb.bin('Sub', x, fb.const(m, 1)), fb.const(m, 50))
            else:
                c = fb.cmp(GT, x, fb.const(m, 0))
            fb.cond(c, body, ex, rng.randrange(2))
            fb.mature(body)
            self.fb.lines.append('mat %d' % head)
        else:
            fb.jmp(head)
            fb.at(head)
            c = test()
            if kind == 'while' and rng.random() < 0.5:
                c = fb.bin('And', c, self.cond(1))
            fb.cond(c, body, ex, rng.randrange(2))
            fb.at(body)
            fb.mature(body)
            self.stmts(rng.randrange(1, 3), depth - 1)
            brk = rng.random() < 0.25
            if brk:
                nx = fb.block()
                fb.cond(self.cond(1), ex, nx)
                fb.at(nx)
                fb.mature(nx)
            del self.scope[ns:]
            advance()
            if rng.random() < 0.2:
                nx = fb.block()
                fb.cond(self.cond(1), head, nx)     # continue
                fb.at(nx)
                fb.mature(nx)
            fb.jmp(head)
            fb.mature(head)
        fb.at(ex)
        fb.mature(ex)
        self._locked = old
        self.loopdepth -= 1
        self.fuel_calls = min(fc, self.fuel_calls)

    def s_switch(self, depth):
        rng, fb = self.rng, self.fb
        m = rng.choice(['Is', 'Iu', 'Is'] + (['Ls', 'Lu', 'Bu'] if rng.random() < .4 else []))
        x = self.expr(m, 2)
        if rng.random() < 0.7:
            x = fb.bin('And', x, fb.const(m, rng.choice([3, 7, 15, 31])))
            if rng.random() < 0.3:
                x = fb.bin('Add', x, fb.const(m, rng.choice([100, -4, 5, 0x7ffffff0])))
        nb = rng.randrange(1, 5)
        blocks = [fb.block() for _ in range(nb)]
        dflt, ex = fb.block(), fb.block()
        entries, lo = [], rng.choice([0, 0, 1, -3 if m[1] == 's' else 2, 100])
        for k in range(rng.randrange(1, 9)):
            w = rng.choice([0, 0, 0, 1, 3])
            entries.append((lo, lo + w, rng.randrange(1, nb + 1)))
            lo += w + rng.choice([1, 1, 1, 2, 5, 40])
        if m == 'Bu' and lo > 200:
            entries = entries[:1]
        for k in range(nb):     # every block gets a label
            if not any(e[2] == k + 1 for e in entries):
                entries.append((lo, lo, k + 1))
                lo += 1
        if rng.random() < 0.4:
            # entries need not be sorted
            rng.shuffle(entries)
        fb.switch(x, dflt, entries, blocks)
        n = len(self.scope)
        for k, b in enumerate(blocks):
            fb.at(b)
            if not getattr(self, '_ft', None) == b:
                pass
            if k > 0 and ft:
                fb.lines.append('mat %d' % b)
            else:
                fb.mature(b)
            self.stmts(rng.randrange(0, 2), depth - 1)
            del self.scope[n:]
            ft = rng.random() < 0.3 and k + 1 < nb
            fb.jmp(blocks[k + 1] if ft else ex)
        fb.at(dflt)
        fb.mature(dflt)
        self.stmts(rng.randrange(0, 2), depth - 1)
        del self.scope[n:]
        fb.jmp(ex)
        fb.at(ex)
        fb.mature(ex)

    def s_goto(self, depth):
        """an irregular region: blocks with random jumps, bounded by a fuel variable"""
        rng, fb = self.rng, self.fb
        if self.loopdepth >= 1:
            return self.s_assign(depth)
        n = rng.randrange(2, 5)
        fuel = self.nvar
        self.nvar += 1
        fb.setv(fuel, fb.const('Is', rng.randrange(3, 8)))
        bs = [fb.block() for _ in range(n)]
        ex = fb.block()
        old = self.locked()
        self._locked = old | {fuel}
        ns = len(self.scope)
        self.loopdepth += 1
        # enter in the middle: irreducible
        fb.cond(self.cond(1), bs[0], rng.choice(bs), rng.randrange(2))
        for b in bs:
            fb.at(b)
            self.stmts(rng.randrange(0, 2), 0)
            del self.scope[ns:]
            x = fb.bin('Sub', fb.getv(fuel, 'Is'), fb.const('Is', 1))
            fb.setv(fuel, x)
            c2 = fb.block()
            fb.cond(fb.cmp(LT, x, fb.const('Is', 0)), ex, c2)
            fb.at(c2)
            fb.mature(c2)
            t1, t2 = rng.choice(bs + [ex]), rng.choice(bs + [ex])
            if t1 == t2 and rng.random() < 0.7:
                fb.jmp(t1)
            else:
                fb.cond(self.cond(1), t1, t2, rng.randrange(2))
        for b in bs:
            fb.mature(b)
        fb.at(ex)
        fb.mature(ex)
        self._locked = old
        self.loopdepth -= 1

    def s_dead(self, depth):
        """code no path leads to"""
        rng, fb = self.rng, self.fb
        d, j = fb.block(), fb.block()
        fb.jmp(j)
        fb.at(d)
        loop = rng.random() < self.o['deadloop']
        if not loop:
            fb.mature(d)
        n = len(self.scope)
        self.stmts(rng.randrange(1, 3), 0)
        del self.scope[n:]
        if loop:
            fb.cond(self.cond(1), d, j)
            fb.mature(d)
        else:
            fb.jmp(j)
        fb.at(j)
        fb.mature(j)

    # ---- memory
    def objects(self):
        """(maker of the address, type) of all objects"""
        fb = self.fb
        r = [((lambda f=f: fb.faddr_of(f[0])), f[1]) for f in self.frames]
        if self.o['globals']:
            r += [((lambda g=g: fb.addr(g)), g.ty) for g in self.ga + self.gscal + [self.gsh]]
            if self.o['structs']:
                r.append(((lambda: fb.addr(self.gst)), self.st2))
                r.append(((lambda: fb.member(fb.addr(self.gst), self.st2, 1)), self.st))
        return r

    def address(self, want=None):
        """address of a scalar location: (temp, type)"""
        fb, rng = self.fb, self.rng
        ps = [v for v, m in self.scope if m == 'P']
        if ps and rng.random() < 0.3 and want in (None, 'Is'):
            return fb.getv(rng.choice(ps), 'P'), self.I
        objs = self.objects()
        if self.chance('raw'):
            # a byte offset into some object
            mk, ty = rng.choice(objs)
            w = want or self.imode()
            n = BITS[w] // 8
            if ty.size >= n:
                off = rng.randrange(0, min(ty.size, 12) - n + 1)
                if rng.random() < .5:
                    off -= off % n
                a = mk()
                if off or rng.random() < .3:
                    a = fb.bin('Add', a, fb.const(self.ptrint, off))
                return a, self.p.prim(w)
        for _ in range(20):
            mk, ty = rng.choice(objs)
            a = None
            path = []
            t = ty
            while t.kind != 'prim':
                if t.kind == 'arr':
                    path.append(('sel', t))
                    t = t.elem
                else:
                    k = rng.randrange(len(t.fields))
                    path.append(('mem', t, k))
                    t = t.fields[k]
            if want is None or t.mode == want:
                a = mk()
                for s in path:
                    if s[0] == 'sel':
                        if rng.random() < 0.5:
                            i = fb.const(self.ptrint, rng.randrange(s[1].n))
                        else:
                            i = fb.bin('And', self.expr(rng.choice([self.ptrint, 'Is']), 1), None or fb.const('Is', 0)) if False else None
                            x = self.expr('Is', 1)
                            i = fb.bin('And', x, fb.const('Is', s[1].n - 1))
                            if self.ptrint == 'Ls' and rng.random() < 0.7:
                                i = fb.conv('Ls', i)
                        a = fb.sel(a, i, s[1])
                    else:
                        a = fb.member(a, s[1], s[2])
                return a, t
        g = self.ga[0]
        if want in (None, 'Is'):
            return fb.sel(fb.addr(g), fb.const(self.ptrint, 0), g.ty), self.I
        return None, None

    def is_address(self):
        a, ty = self.address('Is')
        return a

    # ---- expressions
    def cond(self, depth):
        rng, fb = self.rng, self.fb
        k = rng.random()
        if depth > 0 and k < 0.2:
            op = rng.choice(['And', 'Or', 'Eor'])
            return fb.bin(op, self.cond(depth - 1), self.cond(depth - 1))
        if depth > 0 and k < 0.27:
            return fb.un('Not', self.cond(depth - 1))
        if self.chance('floats') and rng.random() < 0.5:
            m = rng.choice(['D', 'F'])
            return fb.cmp(rng.choice(RELS + [13, 8, 7, 10, 14]), self.expr(m, 1), self.expr(m, 1))
        m = self.imode()
        a = self.expr(m, depth)
        b = self.expr(m, depth - 1) if rng.random() < 0.5 else fb.const(m, interesting(rng, BITS[m]))
        return fb.cmp(rng.choice(RELS), a, b)

    def leaf(self, m):
        rng, fb = self.rng, self.fb
        if m in ('F', 'D'):
            vs = [v for v, mm in self.scope if mm == m]
            if vs and rng.random() < 0.6:
                return fb.getv(rng.choice(vs), m)
            if rng.random() < 0.5:
                return fb.const(m, fbits(rng, m))
            return fb.conv(m, self.leaf('Is'))
        if m == 'P':
            return self.is_address()
        k = rng.random()
        if k < 0.02 and self.chance('undef'):
            return fb.unknown(m)
        vs = [v for v, mm in self.scope if mm == m]
        if vs and k < 0.6:
            return fb.getv(rng.choice(vs), m)
        vs = [(v, mm) for v, mm in self.scope if mm not in ('P', 'b', 'F', 'D')]
        if vs and k < 0.75:
            v, mm = rng.choice(vs)
            return fb.conv(m, fb.getv(v, mm))
        if k < 0.78 and self.o['mem']:
            return fb.conv(m, self.input())
        return fb.const(m, interesting(rng, BITS[m]))

    def expr(self, m, depth):
        rng, fb, o = self.rng, self.fb, self.o
        if depth <= 0 or rng.random() < 0.2:
            return self.leaf(m)
        if m in ('F', 'D'):
            k = rng.random()
            if k < 0.6:
                op = rng.choice(['Add', 'Sub', 'Mul'])
                return fb.bin(op, self.expr(m, depth - 1), self.expr(m, depth - 1))
            if k < 0.7:
                return fb.un('Minus', self.expr(m, depth - 1))
            if k < 0.8:
                return fb.div('Div', self.expr(m, depth - 1), self.expr(m, depth - 1))
            if k < 0.9:
                return fb.conv(m, self.expr('D' if m == 'F' else 'F', depth - 1))
            if self.chance('mux'):
                return fb.mux(self.cond(1), self.expr(m, depth - 1), self.expr(m, depth - 1))
            return self.leaf(m)
        if m == 'P':
            return self.leaf(m)
        k = rng.random()
        if k < 0.5:
            op = rng.choice(['Add', 'Add', 'Sub', 'Sub', 'Mul', 'And', 'Or', 'Eor', 'And', 'Or'])
            a = self.expr(m, depth - 1)
            b = fb.const(m, interesting(rng, BITS[m])) if rng.random() < o['small_consts'] * 0.6 else self.expr(m, depth - 1)
            if rng.random() < 0.15:
                a, b = b, a
            return fb.bin(op, a, b)
        if k < 0.62:
            op = rng.choice(['Shl', 'Shr', 'Shrs'])
            a = self.expr(m, depth - 1)
            if rng.random() < 0.75:
                b = fb.const('Iu', rng.randrange(BITS[m]))
            else:
                b = fb.bin('And', self.expr('Iu', depth - 1), fb.const('Iu', BITS[m] - 1))
                if rng.random() < 0.1:
                    b = self.expr('Iu', 1)
            return fb.bin(op, a, b)
        if k < 0.70:
            return fb.un(rng.choice(['Minus', 'Not']), self.expr(m, depth - 1))
        if k < 0.80:
            m2 = self.imode()
            return fb.conv(m, self.expr(m2, depth - 1))
        if k < 0.86 and self.chance('mux'):
            return fb.mux(self.cond(1), self.expr(m, depth - 1), self.expr(m, depth - 1))
        if k < 0.90 and self.chance('div'):
            a = self.expr(m, depth - 1)
            if rng.random() < 0.6:
                c = 0
                while c == 0 or (m[1] == 's' and c == (1 << BITS[m]) - 1):
                    c = interesting(rng, BITS[m])
                b = fb.const(m, c)
            else:
                b = fb.bin('Or', fb.bin('And', self.expr(m, depth - 1), fb.const(m, (1 << (BITS[m] - 1)) - 1)), fb.const(m, 1))
            return fb.div(rng.choice(['Div', 'Mod']), a, b)
        if k < 0.93 and o['builtins'] and self.chance('builtins') and m in ('Is', 'Iu', 'Ls'):
            kind, nm = rng.choice([(5, 'Ffs'), (6, 'Clz'), (7, 'Ctz'), (8, 'Popcount'), (9, 'Parity'), (10, 'Bswap')])
            am = rng.choice(['Iu', 'Iu', 'Lu']) if 'Lu' in o['modes'] else 'Iu'
            a = self.expr(am, depth - 1)
            if nm in ('Clz', 'Ctz'):
                a = fb.bin('Or', a, fb.const(am, 16))
            return fb.conv(m, fb.builtin(kind, nm, a, am if nm == 'Bswap' else 'Is'))
        if self.chance('floats'):
            return fb.conv(m, self.expr(rng.choice(['D', 'F']), depth - 1)) if m in ('Is', 'Ls') else self.leaf(m)
        if self.chance('mem'):
            a, ty = self.address(m if rng.random() < 0.7 else None)
            if a is not None:
                return fb.conv(m, fb.load(ty, a))
        c = self.cond(1)
        if self.chance('mux'):
            return fb.mux(c, fb.const(m, rng.choice([0, 0, 1, 5])), fb.const(m, rng.choice([1, 1, -1, 7])))
        return self.leaf(m)


def dead_cycle(prog):
    """some function has a cycle of blocks no execution can enter (see findings/dead-cycle.txt)"""
    for fb in prog.bodies:
        succ = [[x[0] - 1 for sg in b['segs'] for x in sg['t']['t']] for b in fb.blocks]
        reach, todo = {0}, [0]
        while todo:
            for y in succ[todo.pop()]:
                if y not in reach:
                    reach.add(y)
                    todo.append(y)
        dead = [b for b in range(len(succ)) if b not in reach]
        n = -1
        while n != len(dead):       # peel off blocks without dead successors
            n = len(dead)
            dead = [b for b in dead if any(y in dead for y in succ[b])]
        if dead:
            return True
    return False


def runs(rng, n):
    """inputs: contents of `in` and the words external functions return"""
    out = []
    for k in range(n):
        inp = []
        for _ in range(16):
            v = interesting(rng, 32) if rng.random() < .8 else rng.getrandbits(32)
            if k == 0 and rng.random() < .7:
                v = rng.randrange(0, 10)
            inp += [(v >> (8 * i)) & 255 for i in range(4)]
        orc = [words(rng.choice([rng.randrange(8), interesting(rng, 64), rng.getrandbits(64)]), 64) for _ in range(7)]
        out.append({'inp': inp, 'orc': orc})
    return out


class ArithGen:
    """straight-line programs: one operation with a constant operand (or two inputs) per output word"""
    def __init__(self, pid, rng, modes, pbits=64, ll_align=8, nonan=1, modes_=('Is', 'Iu', 'Ls', 'Lu', 'Bs', 'Bu', 'Hs', 'Hu'),
                 ops=('Div', 'Mod', 'Mul', 'Div', 'Mod', 'Mul', 'Shl', 'Shr', 'Shrs', 'Add', 'Sub', 'Rot', 'Cmp', 'Mask', 'Conv', 'Div2', 'Mod2'), nops=8, **kw):
        p = self.p = Prog(pid, modes, pbits, ll_align)
        gin = p.glob('in', p.arr(p.prim('Iu'), 16))
        gin.reg = 1
        gout = p.glob('out', p.arr(p.prim('Ls'), nops))
        mt = p.meth([], [])
        fb = FB(p, p.fn('main_', mt), rng=rng)
        self.ptrint = 'Ls' if pbits == 64 else 'Is'

        def load(m):
            def word():
                return fb.load(gin.ty.elem, fb.sel(fb.addr(gin), fb.const(self.ptrint, rng.randrange(16)), gin.ty))
            if BITS[m] == 64:
                hi = fb.bin('Shl', fb.conv('Lu', word()), fb.const('Iu', 32))
                return fb.conv(m, fb.bin('Or', hi, fb.conv('Lu', word())))
            return fb.conv(m, word())

        def cst(m):
            b = BITS[m]
            k = rng.randrange(8)
            v = (rng.randrange(1, 130) if k < 3 else interesting(rng, b) if k < 5 else (1 << rng.randrange(b)) if k == 5 else
                 rng.getrandbits(b) if k == 6 else -rng.randrange(1, 20))
            return v % (1 << b)
        for k in range(nops):
            m = rng.choice(modes_)
            b, sg = BITS[m], m[1] == 's'
            op = rng.choice(ops)
            x = load(m)
            if op in ('Div', 'Mod'):
                c = cst(m) or 3
                if sg and c == (1 << b) - 1:       # minimum / -1
                    c = 7
                r = fb.div(op, x, fb.const(m, c))
            elif op in ('Div2', 'Mod2'):
                y = fb.bin('Or', fb.bin('Shr', load(m), fb.const('Iu', rng.randrange(1, b - 1))), fb.const(m, 1)) if not sg else \
                    fb.bin('Or', fb.bin('And', load(m), fb.const(m, (1 << (b - 1)) - 1)), fb.const(m, 2))
                r = fb.div(op[:3], x, y)
            elif op in ('Mul', 'Add', 'Sub'):
                y = fb.const(m, cst(m)) if rng.random() < .8 else load(m)
                r = fb.bin(op, x, y) if rng.random() < .7 else fb.bin(op, y, x)
            elif op in ('Shl', 'Shr', 'Shrs'):
                y = fb.const('Iu', rng.randrange(b)) if rng.random() < .6 else fb.bin('And', load('Iu'), fb.const('Iu', b - 1))
                r = fb.bin(op, x, y)
            elif op == 'Rot':
                n = rng.randrange(1, b)
                r = fb.bin(rng.choice(['Or', 'Add', 'Eor']), fb.bin('Shl', x, fb.const('Iu', n)), fb.bin('Shr', x, fb.const('Iu', b - n)))
            elif op == 'Mask':
                r = fb.bin(rng.choice(['And', 'Or', 'Eor']), x, fb.const(m, cst(m)))
                if rng.random() < .5:
                    r = fb.un(rng.choice(['Not', 'Minus']), r)
            elif op == 'Cmp':
                y = fb.const(m, cst(m)) if rng.random() < .6 else load(m)
                r = fb.mux(fb.cmp(rng.choice(RELS), x, y), fb.const('Is', 3), fb.const('Is', rng.choice([4, 0, 1])))
            else:
                m2 = rng.choice(modes_)
                r = fb.conv(m2, x) if m2 != m else fb.un('Not', x)
            r = fb.conv('Ls', r)
            fb.store(p.prim('Ls'), fb.sel(fb.addr(gout), fb.const(self.ptrint, k), gout.ty), r)
        fb.ret()
        p.gout = gout
