"""Programs made of many small expressions: shapes local rewriting looks for."""
from gen import *

CMODES = ['Bs', 'Bu', 'Hs', 'Hu', 'Is', 'Iu', 'Ls', 'Lu']


class Peep:
    """main_ evaluates n expressions over a few inputs and stores all of them"""
    def __init__(self, pid, rng, modes, pbits=64, ll_align=8, n=24, floats=0.0, depth=3, modes_used=None, div=1.0, cf=0.3, builtins=0.1):
        self.rng, self.floats, self.depth, self.div, self.cf, self.bi = rng, floats, depth, div, cf, builtins
        self.ms = modes_used or CMODES
        p = self.p = Prog(pid, modes, pbits, ll_align)
        self.ptrint = 'Ls' if pbits == 64 else 'Is'
        I, L = p.prim('Is'), p.prim('Ls')
        self.L = L
        self.gin = p.glob('in', p.arr(p.prim('Iu'), 16))
        self.gin.reg = 1
        self.gout = p.glob('out', p.arr(L, n + 2))
        mt = p.meth([], [])
        idx = p.fn('main_', mt)
        fb = self.fb = FB(p, idx, rng=rng)
        self.seen = {}
        self.loads = {}
        self.nv = 0
        for k in range(n):
            self.one(k)
        fb.ret()

    def inp(self, k):
        fb = self.fb
        if k not in self.loads:
            a = fb.sel(fb.addr(self.gin), fb.const(self.ptrint, k), self.gin.ty)
            self.loads[k] = fb.load(self.gin.ty.elem, a)
        return self.loads[k]

    def var(self, m):
        """x: a few inputs only, so that operands coincide"""
        fb, rng = self.fb, self.rng
        k = rng.choice([0, 0, 0, 1, 1, 2])
        if (k, m) not in self.seen:
            if m in ('Ls', 'Lu'):
                hi = fb.bin('Shl', fb.conv(m, self.inp(4 + k)), fb.const('Iu', 32))
                v = fb.bin('Or', hi, fb.conv(m, self.inp(k)))
            elif m in ('F', 'D'):
                v = fb.conv(m, fb.conv('Is', self.inp(k)))
                if rng.random() < 0.5:
                    v = fb.bin('Mul', v, fb.const(m, fbits(rng, m)))
            else:
                v = fb.conv(m, self.inp(k))
            self.seen[(k, m)] = v
        return self.seen[(k, m)]

    def konst(self, m):
        rng, b = self.rng, BITS[m]
        M = (1 << b) - 1
        if rng.random() < 0.6 and self.kc.get(m):
            c = rng.choice(self.kc[m])
            c = rng.choice([c, c, -c, ~c, c + 1, c - 1, c << 1, c >> 1, b - c, c & -c, M ^ c ^ (M >> 1)]) & M
        else:
            c = interesting(rng, b)
        self.kc.setdefault(m, []).append(c)
        return self.fb.const(m, c)

    def leaf(self, m):
        rng = self.rng
        if rng.random() < 0.3 and self.pool.get(m):
            return rng.choice(self.pool[m])
        return self.var(m) if rng.random() < 0.65 else self.konst(m)

    def cond(self, d):
        rng, fb = self.rng, self.fb
        k = rng.random()
        if d > 0 and k < 0.25:
            return fb.bin(rng.choice(['And', 'Or', 'Eor']), self.cond(d - 1), self.cond(d - 1))
        if d > 0 and k < 0.3:
            return fb.un('Not', self.cond(d - 1))
        if d > 0 and k < 0.34:
            return fb.mux(self.cond(d - 1), self.cond(d - 1), self.cond(d - 1))
        if d > 0 and rng.random() < .2:     # two comparisons with common operands
            fl = rng.random() < self.floats
            m = rng.choice(['F', 'D']) if fl else self.m
            e = (lambda: self.fexpr(m, 1)) if fl else (lambda: self.expr(m, d - 1) if rng.random() < .5 else self.konst(m))
            x, y = e(), e()
            z, w = rng.choice([(x, y), (x, y), (y, x), (x, x), (y, y), (x, e()), (e(), y), (e(), e())])
            rels = RELS + [13, 8, 7, 10, 14, 9, 11, 12] if fl else RELS
            return fb.bin(rng.choice(['And', 'Or', 'Eor']), fb.cmp(rng.choice(rels), x, y), fb.cmp(rng.choice(rels), z, w))
        if rng.random() < self.floats:
            m = rng.choice(['F', 'D'])
            return fb.cmp(rng.choice(RELS + [13, 8, 7, 10, 14, 9, 11, 12]), self.fexpr(m, 1), self.fexpr(m, 1))
        m = self.m if rng.random() < .7 else rng.choice(self.ms)
        a = self.expr(m, d)
        b = self.konst(m) if rng.random() < 0.65 else self.expr(m, d - 1 if rng.random() < .5 else 0)
        if rng.random() < 0.1:
            a, b = b, a
        return fb.cmp(rng.choice(RELS), a, b)

    def fexpr(self, m, d):
        rng, fb = self.rng, self.fb
        if d <= 0 or rng.random() < 0.15:
            k = rng.random()
            if k < 0.6:
                return self.var(m)
            return fb.const(m, fbits(rng, m))
        k = rng.random()
        if k < 0.6:
            return fb.bin(rng.choice(['Add', 'Sub', 'Mul']), self.fexpr(m, d - 1), self.fexpr(m, d - 1))
        if k < 0.75:
            return fb.un('Minus', self.fexpr(m, d - 1))
        if k < 0.82:
            return fb.div('Div', self.fexpr(m, d - 1), self.fexpr(m, d - 1))
        if k < 0.9:
            return fb.conv(m, self.fexpr('D' if m == 'F' else 'F', d - 1))
        if k < 0.95:
            return fb.conv(m, self.expr(rng.choice(['Is', 'Iu', 'Hs', 'Bu', 'Ls']), d - 1))
        return fb.mux(self.cond(1), self.fexpr(m, d - 1), self.fexpr(m, d - 1))

    def expr(self, m, d):
        t = self.expr0(m, d)
        if self.rng.random() < 0.5:
            self.pool.setdefault(m, []).append(t)
        return t

    def expr0(self, m, d):
        rng, fb = self.rng, self.fb
        if d <= 0 or rng.random() < 0.08:
            return self.leaf(m)
        b = BITS[m]
        k = rng.random()
        if k < 0.44:
            op = rng.choice(['Add', 'Add', 'Sub', 'Sub', 'Mul', 'And', 'And', 'Or', 'Or', 'Eor', 'Eor'])
            x = self.expr(m, d - 1)
            r = rng.random()
            if r < 0.45:
                y = self.konst(m)
            elif r < 0.55:
                y = x
            elif r < 0.65:
                y = fb.un(rng.choice(['Not', 'Minus']), x)
            elif r < 0.72:      # bits of x again, shifted the other way (rotations)
                s = rng.randrange(b)
                o1, o2 = rng.choice([('Shl', 'Shr'), ('Shr', 'Shl'), ('Shl', 'Shl'), ('Shrs', 'Shl')])
                return fb.bin(op if op != 'Mul' else 'Or', fb.bin(o1, x, fb.const('Iu', s)),
                              fb.bin(o2, x if rng.random() < .8 else self.leaf(m), fb.const('Iu', rng.choice([b - s if s else 0, s]))))
            else:
                y = self.expr(m, d - 1)
            if rng.random() < 0.2:
                x, y = y, x
            return fb.bin(op, x, y)
        if k < 0.60:
            x = self.expr(m, d - 1)
            op = rng.choice(['Shl', 'Shr', 'Shrs'])
            cm = 'Iu' if rng.random() < .8 else rng.choice([z for z in self.ms if z[1] == 'u'] or ['Iu'])
            z = rng.random()
            if z < 0.72:
                n = rng.choice([rng.randrange(b), b - 1, b // 2, 8 if b > 8 else 4, 1, b - 8 if b > 8 else 7])
                if rng.random() < .06:
                    n = rng.choice([b, b + 1, 2 * b - 1, 32, 33, 63, 64, 65, 100, 200])
                y = fb.const(cm, n)
            elif z < .76 and m[1] == 'u':
                y = x
            elif z < .80:
                y = self.expr(cm, d - 1)
            else:
                y = self.expr('Iu', d - 1)
                if rng.random() < 0.7:
                    y = fb.bin('And', y, fb.const('Iu', b - 1))
                elif rng.random() < 0.5:
                    y = fb.bin('Sub', fb.const('Iu', b), fb.bin('And', y, fb.const('Iu', b - 1)))
            return fb.bin(op, x, y)
        if k < 0.68:
            return fb.un(rng.choice(['Minus', 'Not']), self.expr(m, d - 1))
        if k < 0.80:
            m2 = rng.choice(self.ms)
            if m2 == m:
                return fb.conv(m, self.cast(self.expr(rng.choice(self.ms), d - 1), rng.choice(self.ms)))
            return fb.conv(m, self.expr(m2, d - 1))
        if k < 0.90:
            c = self.cond(min(d - 1, 1))
            r = rng.random()
            if r < 0.4:
                f, t = self.konst(m), self.konst(m)
            elif r < 0.55:
                x = self.expr(m, d - 1)
                f, t = x, fb.un(rng.choice(['Minus', 'Not']), x)
            elif r < 0.7:
                x = self.expr(m, d - 1)
                f, t = x, self.konst(m)
            else:
                f, t = self.expr(m, d - 1), self.expr(m, d - 1)
            if rng.random() < .5:
                f, t = t, f
            if rng.random() < 0.3:      # abs / min / max shapes
                x = self.expr(m, d - 1)
                y = self.konst(m) if rng.random() < .4 else self.leaf(m)
                c = fb.cmp(rng.choice(RELS), x, y)
                f, t = rng.choice([(x, y), (y, x), (x, fb.un('Minus', x)), (fb.un('Minus', x), x)])
            return fb.mux(c, f, t)
        if k < 0.95 and rng.random() < self.div:
            x = self.expr(m, d - 1)
            if rng.random() < 0.8:
                c = 0
                while c == 0 or (m[1] == 's' and c == (1 << b) - 1):
                    c = interesting(rng, b)
                y = fb.const(m, c)
            else:
                y = fb.bin('Or', fb.bin('And', self.expr(m, d - 1), fb.const(m, (1 << (b - 1)) - 1)), fb.const(m, 1))
            return fb.div(rng.choice(['Div', 'Mod']), x, y)
        if rng.random() < self.bi and m in ('Is', 'Iu', 'Ls'):
            kind, nm = rng.choice([(5, 'Ffs'), (6, 'Clz'), (7, 'Ctz'), (8, 'Popcount'), (9, 'Parity'), (10, 'Bswap')])
            am = rng.choice(['Iu', 'Iu', 'Lu'])
            x = self.expr(am, d - 1)
            if nm in ('Clz', 'Ctz'):
                x = fb.bin('Or', x, fb.const(am, 16))
            return fb.conv(m, fb.builtin(kind, nm, x, am if nm == 'Bswap' else 'Is'))
        # a decided value
        return fb.mux(self.cond(1), fb.const(m, 0), fb.const(m, rng.choice([1, -1, 1, 2, 255])))

    def cast(self, t, m):
        return self.fb.conv(m, t)

    def store(self, k, t):
        fb = self.fb
        m = fb.m(t)
        if m == 'F':
            t = fb.conv('D', t)
            m = 'D'
        if m == 'D':
            t = fb.conv('Ls', t, 'Bitcast')
        else:
            t = fb.conv('Ls', t)
        fb.store(self.L, fb.sel(fb.addr(self.gout), fb.const(self.ptrint, k), self.gout.ty), t)

    def one(self, k):
        rng, fb = self.rng, self.fb
        self.kc, self.pool = {}, {}
        self.m = m = rng.choice(self.ms)
        if rng.random() < self.floats:
            m = rng.choice(['F', 'D'])
            self.store(k, self.fexpr(m, self.depth))
        elif rng.random() < self.cf:
            c = self.cond(2)
            bt, bf, be = fb.block(), fb.block(), fb.block()
            v = self.nv
            self.nv += 1
            fb.cond(c, bt, bf, rng.randrange(2))
            old = dict(self.seen), dict(self.loads)
            for b in (bt, bf):
                fb.at(b)
                fb.mature(b)
                self.pool = {}
                fb.setv(v, self.expr(m, self.depth - 2))
                fb.jmp(be)
                self.seen, self.loads = dict(old[0]), dict(old[1])
            fb.at(be)
            fb.mature(be)
            self.store(k, fb.getv(v, m))
        else:
            self.store(k, self.expr(m, self.depth))


def peep_runs(rng, n):
    out = []
    for k in range(n):
        w = [interesting(rng, 32) for _ in range(16)]
        if rng.random() < .3:
            w[1] = w[0]
        if rng.random() < .2:
            w[1] = -w[0] & 0xffffffff
        if rng.random() < .2:
            w[1] = ~w[0] & 0xffffffff
        if rng.random() < .3:
            w[0] = rng.randrange(0, 70)
        if rng.random() < .2:
            w[rng.randrange(2)] = rng.choice([31, 32, 33, 34, 63, 64, 65, 96, 8, 16])
        inp = [(v >> (8 * i)) & 255 for v in w for i in range(4)]
        out.append({'inp': inp, 'orc': [[0, 0, 0, 0]] * 7})
    return out
