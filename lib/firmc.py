"""Turn recorded graphs into the program versions of spec/Firm.tla and run the model."""
import json, os, subprocess, sys, heapq
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import *

# proj numbers
X_PROJ = {'Load': (2, 3), 'Store': (1, 2), 'Call': (2, 3), 'Div': (2, 3), 'Mod': (2, 3), 'CopyB': (), 'Builtin': ()}
BUILTINS = {5: 'Ffs', 6: 'Clz', 7: 'Ctz', 8: 'Popcount', 9: 'Parity', 10: 'Bswap'}
PUREOPS = {'Add', 'Sub', 'Mul', 'Mulh', 'And', 'Or', 'Eor', 'Shl', 'Shr', 'Shrs', 'Not', 'Minus', 'Cmp', 'Conv', 'Bitcast'}
WRITERS = {'Store', 'CopyB', 'Call', 'Alloc', 'Free', 'Builtin'}
REG_IN, REG_FN = 1, 3000


class Unsupported(Exception):
    pass


class Modes:
    """mode table of one case file; index 1-based in the model"""
    def __init__(self):
        self.tab, self.idx = [], {}
        self.get('none', 'x', 0, 0, 0, 0, 0)

    def get(self, name, sort, bits, sign, ms, e, m):
        k = {'i': 'i', 'r': 'i', 'b': 'i', 'f': 'f'}.get(sort, 'x')
        if k == 'f':
            x87 = 1 if (e == 15 and m == 64) else 0
            key = ('f', bits, 0, 0, e, m, x87)
        elif k == 'i':
            key = ('i', bits, sign, ms, 1, 1, 0)
        else:
            key = ('x', 0, 0, 0, 1, 1, 0)
        if key not in self.idx:
            self.idx[key] = len(self.tab) + 1
            self.tab.append({'k': key[0], 'b': key[1], 's': key[2], 'ms': key[3], 'f': list(key[4:7])})
        return self.idx[key]


MODE_DEF = {'Bs': ('i', 8, 1, 32), 'Bu': ('i', 8, 0, 32), 'Hs': ('i', 16, 1, 32), 'Hu': ('i', 16, 0, 32), 'Is': ('i', 32, 1, 32),
            'Iu': ('i', 32, 0, 32), 'Ls': ('i', 64, 1, 64), 'Lu': ('i', 64, 0, 64), 'b': ('b', 1, 0, 0), 'F': ('f', 32, 8, 23),
            'D': ('f', 64, 11, 52)}


def hexwords(h, bits):
    return words(int(h, 16), bits)


class Canon:
    """names -> region / function ids shared by all versions of one program"""
    def __init__(self, modes, pbits):
        self.modes, self.pbits = modes, pbits
        self.greg, self.fid = {'in': REG_IN}, {}
        self.next_g, self.next_f = 2, 1
        self.ext = {}        # external functions: name -> {kind, id, ..}

    def g(self, name):
        if name not in self.greg:
            self.greg[name] = self.next_g
            self.next_g += 1
        return self.greg[name]

    def f(self, name):
        if name not in self.fid:
            self.fid[name] = self.next_f
            self.next_f += 1
        return self.fid[name]


def lay_frame(ents):
    """frame offsets with undefined gaps between entities"""
    off, res = 16, {}
    for e, size, *_ in ents:
        res[e] = off
        off = (off + max(size, 1) + 16 + 15) // 16 * 16
    return res, off


class GraphFn:
    def __init__(self, canon, js, fn, order):
        self.c, self.js, self.order = canon, js, order
        self.N = fn['nodes']
        self.fn = fn
        self.ml = js['modes']
        self.nslots = 1
        self.slot = {}
        self.nclaims = 0

    def mode(self, k):
        nm, so, b, s, ms, e, m = self.ml[k]
        return self.c.modes.get(nm, so, b, s, ms, e, m)

    def mkind(self, k):
        return self.ml[k][1]

    def isval(self, i):
        return self.mkind(self.N[i][1]) in 'irbf'

    def op(self, i):
        return self.N[i][0]

    def ins(self, i):
        return self.N[i][3]

    def new(self):
        self.nslots += 1
        return self.nslots

    def resolve(self, i):
        """look through nodes that only rename a value"""
        seen = 0
        while i >= 0:
            seen += 1
            if seen > 10000:
                raise Unsupported('alias cycle')
            o = self.op(i)
            if o in ('Id', 'Confirm', 'Pin'):
                i = self.ins(i)[0]
            elif o == 'Proj' and self.op(self.resolve(self.ins(i)[0])) == 'Tuple':
                i = self.ins(self.resolve(self.ins(i)[0]))[self.N[i][4]]
            else:
                return i
        return i

    def val(self, i):
        """slot of value node i (1 = undefined)"""
        i = self.resolve(i)
        if i < 0 or self.op(i) in ('Bad', 'Deleted', 'Dummy'):
            return 1
        key = self.vkey(i)
        if key not in self.slot:
            self.slot[key] = self.new()
        return self.slot[key]

    def vkey(self, i):
        if self.op(i) == 'Proj':
            p = self.resolve(self.ins(i)[0])
            if self.op(p) == 'Proj':     # result / argument tuples
                pp = self.resolve(self.ins(p)[0])
                return (pp, 'r' if self.op(pp) != 'Start' else 'a', self.N[i][4])
            return (p, 'p', self.N[i][4])
        return (i,)

    def rec(self, o, d=0, i=(), m=1, q=1, x=()):
        return {'o': o, 'd': d, 'i': list(i), 'm': m, 'q': q, 'x': list(x)}

    def build(self):
        N, op, ins = self.N, self.op, self.ins
        fn = self.fn
        blocks = [i for i in range(len(N)) if op(i) == 'Block']
        endb = fn['endblk']
        succ = {}
        for b in blocks:
            for p in ins(b):
                p = self.resolve(p)
                if p >= 0 and op(p) != 'Bad':
                    q = p
                    while op(q) == 'Proj':
                        q = self.resolve(ins(q)[0])
                    succ.setdefault(N[q][2], []).append(b)
        reach, todo = set(), [fn['startblk']]
        while todo:
            b = todo.pop()
            if b not in reach:
                reach.add(b)
                todo += succ.get(b, [])
        order = [fn['startblk']] + [b for b in blocks if b in reach and b != fn['startblk'] and b != endb]
        bno = {b: k + 1 for k, b in enumerate(order)}
        foff, fsize = lay_frame(fn['frame'])
        self.usage(foff)
        byblock = {b: [] for b in blocks}
        for i in range(len(N)):
            if op(i) in ('Block', 'Bad', 'Deleted', 'Anchor', 'NoMem', 'End', 'Dummy'):
                continue
            r = i
            b = N[i][2]
            if op(i) == 'Proj':
                # lives in the block of its predecessor
                p = i
                while op(p) == 'Proj':
                    p = ins(p)[0]
                b = N[p][2]
            if b not in byblock:
                continue        # in a Bad block
            byblock[b].append(i)
        # control flow: target of each cf node
        target = {}
        for b in order:
            for k, p in enumerate(ins(b)):
                p = self.resolve(p)
                if p < 0 or op(p) == 'Bad':
                    continue
                target[p] = [bno[b], k + 1]
        frame_slot = None
        out = []
        for b in order:
            nodes = byblock[b]
            phis = [i for i in nodes if op(i) == 'Phi' and self.isval(i)]
            npred = len(ins(b))
            prec = []
            for i in phis:
                if len(ins(i)) != npred:
                    raise Unsupported('phi arity')
                prec.append([self.val(i), [self.val(x) for x in ins(i)]])
            lin = self.linear([i for i in nodes if op(i) != 'Phi'], b)
            segs, cur = [], []
            term = None
            pos = {i: k for k, i in enumerate(lin)}
            pos.update({i: -1 for i in phis})
            claims = self.claims(b, pos)
            if claims.get(-1):
                cur += claims[-1]
            if b == fn['startblk']:
                for e, size, par, mode, dw in fn['frame']:
                    if par >= 0 and dw:         # two words since the lowering of double words
                        for h in (0, 1):
                            a, s, p = self.new(), self.new(), self.new()
                            cur.append(self.rec('Fb', a, m=self.pmode()))
                            cur.append(self.rec('Off', p, [a], m=self.pmode(), x=words(foff[e] + 4 * h, 32)))
                            cur.append(self.rec('Arg', s, m=self.pmode(), x=[par + 1 + h]))
                            cur.append(self.rec('Store', 0, [p, s], q=self.pmode(), x=[0]))
                    elif par >= 0:
                        a, s, p = self.new(), self.new(), self.new()
                        cur.append(self.rec('Fb', a, m=self.pmode()))
                        cur.append(self.rec('Off', p, [a], m=self.pmode(), x=words(foff[e], 32)))
                        if mode >= 0:
                            cur.append(self.rec('Arg', s, m=self.mode(mode), x=[par + 1]))
                            cur.append(self.rec('Store', 0, [p, s], q=self.mode(mode), x=[0]))
                        else:
                            cur.append(self.rec('Arg', s, m=self.pmode(), x=[par + 1]))
                            cur.append(self.rec('CopyB', 0, [p, s], x=[size, 0]))
            for i in lin:
                o = op(i)
                n = N[i]
                m = self.mode(n[1])
                if o in PUREOPS:
                    a = [self.val(x) for x in ins(i)]
                    opm = [self.N[self.resolve(x)][1] if self.resolve(x) >= 0 else n[1] for x in ins(i)]
                    if o == 'Add' and self.mkind(n[1]) == 'r' and self.mkind(opm[0]) != 'r':
                        a.reverse()
                        opm.reverse()
                    q = opm[0] if o in ('Cmp', 'Conv', 'Bitcast') else opm[-1]
                    if o == 'Sub' and self.mkind(n[1]) not in 'r' and self.mkind(opm[0]) == 'r':
                        q = opm[1]
                    cur.append(self.rec(o, self.val(i), a, m, self.mode(q), [n[4]] if o == 'Cmp' else []))
                elif o == 'Const':
                    if n[4] == '?':
                        raise Unsupported('const')
                    mm = self.ml[n[1]]
                    x = [int(n[4])] if mm[1] == 'b' else hexwords(n[4], mm[2])
                    cur.append(self.rec('Const', self.val(i), m=m, x=x))
                elif o in ('Offset', 'Size', 'Align'):
                    cur.append(self.rec('Const', self.val(i), m=m, x=words(n[4], self.ml[n[1]][2])))
                elif o == 'Address':
                    cur.append(self.rec('Addr', self.val(i), m=m, x=[self.entreg(n[4])]))
                elif o == 'Unknown':
                    if self.isval(i):
                        cur.append(self.rec('Unk', self.val(i), m=m))
                elif o == 'Mux':
                    cur.append(self.rec('Mux', self.val(i), [self.val(x) for x in ins(i)], m))
                elif o == 'Member':
                    off = foff[n[5]] if n[4] else n[5]
                    cur.append(self.rec('Off', self.val(i), [self.val(ins(i)[0])], m, x=words(off, 32)))
                elif o == 'Sel':
                    cur.append(self.rec('Sel', self.val(i), [self.val(x) for x in ins(i)], m,
                                        self.mode(N[self.resolve(ins(i)[1])][1]), [n[4]]))
                elif o == 'Load':
                    cur.append(self.rec('Load', self.slot.get((i, 'p', 1), self.val_proj(i, 1)), [self.val(ins(i)[1])],
                                        self.mode(n[4]), x=[n[5]]))
                elif o == 'Store':
                    vm = N[self.resolve(ins(i)[2])][1] if self.resolve(ins(i)[2]) >= 0 else None
                    if vm is None or self.mkind(vm) not in 'irf':
                        raise Unsupported('store of Bad')
                    cur.append(self.rec('Store', 0, [self.val(ins(i)[1]), self.val(ins(i)[2])], q=self.mode(vm), x=[n[4]]))
                elif o == 'CopyB':
                    cur.append(self.rec('CopyB', 0, [self.val(ins(i)[1]), self.val(ins(i)[2])], x=[n[4], n[5]]))
                elif o in ('Div', 'Mod'):
                    cur.append(self.rec(o, self.val_proj(i, 1), [self.val(ins(i)[1]), self.val(ins(i)[2])], self.mode(n[4]),
                                        x=[n[5] if o == 'Div' else 0]))
                elif o == 'Alloc':
                    cur.append(self.rec('Alloc', self.val_proj(i, 1), [self.val(ins(i)[1])], self.pmode()))
                elif o == 'Free':
                    pass
                elif o == 'Builtin':
                    k = n[4]
                    if k in BUILTINS:
                        a = ins(i)[1]
                        d = self.val_proj(i, 1)
                        pm = self.projmode.get((i, 1))
                        cur.append(self.rec(BUILTINS[k], d, [self.val(a)], pm or m, self.mode(N[self.resolve(a)][1])))
                    elif k == 13:        # saturating increment: x + (x # maximum)
                        x = self.val(ins(i)[1])
                        pm = self.projmode.get((i, 1)) or self.mode(N[self.resolve(ins(i)[1])][1])
                        bits = self.c.modes.tab[pm - 1]['b']
                        ne, one, mx, inc = self.new(), self.new(), self.new(), self.new()
                        bm = self.c.modes.get('b', 'b', 1, 0, 0, 0, 0)
                        cur.append(self.rec('Const', mx, m=pm, x=words((1 << bits) - 1, bits)))
                        cur.append(self.rec('Const', one, m=pm, x=words(1, bits)))
                        cur.append(self.rec('Add', inc, [x, one], pm, pm))
                        cur.append(self.rec('Cmp', ne, [x, mx], bm, pm, [6]))
                        cur.append(self.rec('Mux', self.val_proj(i, 1), [ne, x, inc], pm))
                    else:
                        raise Unsupported('builtin %d' % k)
                elif o == 'Confirm':
                    if self.isval(i):
                        x, y = ins(i)
                        xm = N[self.resolve(x)][1]
                        cur.append(self.rec('Check', 0, [self.val(x), self.val(y)], q=self.mode(xm), x=[n[4]]))
                elif o == 'Proj':
                    p = self.resolve(ins(i)[0])
                    if op(p) == 'Start' and n[4] == 1:
                        cur.append(self.rec('Fb', self.val(i), m=m))
                    elif op(p) == 'Proj' and op(self.resolve(ins(p)[0])) == 'Start' and self.isval(i):
                        cur.append(self.rec('Arg', self.val(i), m=m, x=[n[4] + 1]))
                elif o == 'Call':
                    d, dm = [], []
                    k = 0
                    res = sorted([(kk[2], s) for kk, s in self.slot_results(i)])
                    nres = len(n[5])
                    d = [0] * nres
                    for num, s in res:
                        d[num] = s
                    dm = []
                    for k in range(nres):
                        dm.append(self.projmode.get((i, 'r', k), self.c.modes.get('', 'i', 64, 0, 0, 0, 0) if False else 1))
                    # modes of results nobody uses: unknown width; results are consecutive bits, so only trailing ones may be unknown
                    while dm and dm[-1] == 1:
                        dm.pop()
                    dm = [x if x != 1 else self.c.modes.get('Iu', 'i', 32, 0, 32, 0, 0) for x in dm]
                    t = {'o': 'call', 'i': [self.val(ins(i)[1])] + [self.val(x) for x in ins(i)[2:]], 't': [], 'm': 1, 'd': d,
                         'dm': dm, 'ps': n[4], 'rs': n[5]}
                    segs.append({'n': cur, 't': t})
                    cur = []
                elif o in ('Jmp', 'Cond', 'Switch', 'Return', 'Raise', 'IJmp'):
                    if term is not None:
                        raise Unsupported('two exits')
                    term = i
                elif o in ('Start', 'Sync', 'Id', 'Tuple', 'Pin', 'Bad', 'Deleted', 'Dummy', 'NoMem'):
                    pass
                else:
                    raise Unsupported('op ' + o)
                cur += claims.get(pos[i], [])
                if self.use and o in ('Load', 'Store'):
                    am = n[4] if o == 'Load' else N[self.resolve(ins(i)[2])][1]
                    cur.append(self.rec('Use', 0, [self.val(ins(i)[1])], self.mode(am), x=[4 if o == 'Load' else 2, self.ml[am][2] // 8, self.use]))
                elif self.use and o == 'CopyB':
                    for kind, k in ((2, 1), (4, 2)):
                        cur.append(self.rec('Use', 0, [self.val(ins(i)[k])], 1, x=[kind, n[4], self.use]))
            t = self.term(b, term, nodes, target)
            segs.append({'n': cur, 't': t})
            out.append({'p': prec, 's': segs})
        return {'k': 'f', 'n': self.nslots, 'fs': fsize, 'b': out, 'kind': '', 'id': 0}

    def claims(self, b, pos):
        """facts the analyses claim about values of block b: place in the block -> operations that check them"""
        res = {}
        N, ml = self.N, self.ml

        def put(k, r):
            res.setdefault(k, []).append(r)
            self.nclaims += 1

        def home(i):
            return N[i][2]
        for f in self.fn.get('facts', ()):
            k, i = f[0], f[1]
            if k == 'Dead':
                if i == b:
                    put(-1, self.rec('Dead'))
                continue
            if k in ('In', 'Rng', 'Bit', 'Nz'):
                if i not in pos or not self.isval(i):
                    continue
                m = self.ml[N[i][1]]
                mm = self.mode(N[i][1])
                a = [self.val(i)]
                if k == 'In':
                    put(pos[i], self.rec('In', 0, a, mm, x=[hexwords(f[2], m[2]), hexwords(f[3], m[2])]))
                elif k == 'Rng':
                    put(pos[i], self.rec('Rng', 0, a, mm, x=[hexwords(f[2], m[2]), hexwords(f[3], m[2]), f[4]]))
                elif k == 'Bit':
                    put(pos[i], self.rec('In', 0, a, mm, x=[[f[2]], [f[2]]]))
                else:
                    put(pos[i], self.rec('Nz', 0, a, mm))
                continue
            j = f[2]
            if k == 'Cmp':
                at = f[4]
                if at < 0:
                    at = i if home(i) != home(j) else None
                if at is None and i in pos and j in pos:
                    at = i if pos[i] > pos[j] else j
                if at is not None and at in pos:
                    put(pos[at], self.rec('Check', 0, [self.val(i), self.val(j)], q=self.mode(N[i][1]), x=[f[3]]))
            elif k in ('Disj', 'Over'):
                at = i if home(i) != home(j) else None
                if at is None and i in pos and j in pos:
                    at = i if pos[i] > pos[j] else j
                if at is not None and at in pos:
                    put(pos[at], self.rec(k, 0, [self.val(i), self.val(j)], x=[f[3], f[4]]))
        return res

    def usage(self, foff):
        """entities whose recorded usage claims something: [region (0 = this frame), from, to, flags, bits of its mode or 0, float]"""
        def row(reg, off, e):
            ent = self.js['ents'][e]
            if len(ent) < 9 or ent[6] & 1:
                return
            m = self.ml[ent[8]] if ent[8] >= 0 else None
            self.use.append([reg, off, off + ent[7], ent[6], m[2] if m and m[1] in 'irf' else 0, 1 if m and m[1] == 'f' else 0])
        self.use = []
        if self.fn.get('facts') is None:
            return
        for e, *_ in self.fn['frame']:
            row(0, foff[e], e)
        for e, ent in enumerate(self.js['ents']):
            if ent[1] == 'g' and ent[2] == 'l' and ent[0] != 'in':
                row(self.c.g(ent[0]), 0, e)
        self.nclaims += len(self.use)

    def slot_results(self, call):
        return [(k, s) for k, s in self.slot.items() if k[0] == call and len(k) == 3 and k[1] == 'r']

    def val_proj(self, i, num):
        k = (i, 'p', num)
        return self.slot.get(k, 0) if k in self.slot else (self.ensure(k) if k in self.projs else 0)

    def ensure(self, k):
        self.slot[k] = self.new()
        return self.slot[k]

    def pmode(self):
        return self.c.modes.get('P', 'r', self.c.pbits, 0, self.c.pbits, 0, 0)

    def entreg(self, e):
        name, kind = self.js['ents'][e][0], self.js['ents'][e][1]
        if kind == 'm':
            return REG_FN + self.c.f(name)
        if kind == 'g':
            return self.c.g(name)
        raise Unsupported('address of entity kind ' + kind)

    def term(self, b, term, nodes, target):
        op, ins, N = self.op, self.ins, self.N
        base = {'i': [], 't': [], 'm': 1, 'd': [], 'dm': [], 'ps': [], 'rs': [], 'tab': []}

        def tgt(p):
            return target.get(p, [0, 0])
        if term is None:
            # X_regular of a fragile node
            for i in nodes:
                if op(i) == 'Proj' and i in target:
                    p = self.resolve(ins(i)[0])
                    if op(p) in X_PROJ and X_PROJ[op(p)] and N[i][4] == X_PROJ[op(p)][0]:
                        return dict(base, o='jmp', t=[tgt(i)])
            return dict(base, o='none')
        o = op(term)
        if o == 'Jmp':
            if term not in target:
                return dict(base, o='none')
            return dict(base, o='jmp', t=[tgt(term)])
        if o == 'Return':
            return dict(base, o='ret', i=[self.val(x) for x in ins(term)[1:]])
        if o in ('Cond', 'Switch'):
            pr = {}
            for i in nodes:
                if op(i) == 'Proj' and self.resolve(ins(i)[0]) == term:
                    pr[N[i][4]] = tgt(i)
            s = self.val(ins(term)[0])
            if o == 'Cond':
                return dict(base, o='cond', i=[s], t=[pr.get(1, [0, 0]), pr.get(0, [0, 0])])
            sm = self.ml[N[self.resolve(ins(term)[0])][1]]
            tab = [[hexwords(mn, sm[2]), hexwords(mx, sm[2]), pn] for mn, mx, pn in N[term][5]]
            return dict(base, o='sw', i=[s], m=self.mode(N[self.resolve(ins(term)[0])][1]), tab=tab,
                        t=[pr.get(k, [0, 0]) for k in range(N[term][4])])
        return dict(base, o='none')

    def prescan(self):
        """slots for projections of memory operations and calls that have users"""
        self.projs, self.projmode = set(), {}
        for i in range(len(self.N)):
            if self.op(i) == 'Proj' and self.isval(i):
                r = self.resolve(i)
                if r != i:
                    continue
                k = self.vkey(i)
                self.projs.add(k)
                self.val(i)
                md = self.mode(self.N[i][1])
                if k[1] == 'p':
                    self.projmode[(k[0], k[2])] = md
                else:
                    self.projmode[(k[0], k[1], k[2])] = md

    def linear(self, nodes, blk):
        """one linear extension of the dependence order inside a block"""
        inb = set(nodes)
        dep = {i: set() for i in nodes}
        for i in nodes:
            for p in self.ins(i):
                # edges may lead through renaming nodes, which are in the node list as well
                if p in inb:
                    dep[i].add(p)
            if self.op(i) == 'Proj':
                pass
        term = [i for i in nodes if self.op(i) in ('Jmp', 'Cond', 'Switch', 'Return', 'Raise', 'IJmp')]
        users = {i: [] for i in nodes}
        cnt = {}
        for i in nodes:
            cnt[i] = len(dep[i])
            for p in dep[i]:
                users[p].append(i)

        def prio(i):
            o = self.op(i)
            if i in term:
                return (9, i)
            if o in ('Proj', 'Sync', 'Const', 'Start', 'Address', 'Tuple', 'Id', 'Confirm'):
                return (0, i)
            mem = o in WRITERS
            rd = o in ('Load', 'Div', 'Mod')
            if self.order == 0:
                return (1 if rd else 3 if mem else 2, -i)
            if self.order == 1:
                return (1 if mem else 3 if rd else 2, i)
            return ((hash_int(i * 7919 + self.order) % 97), i)
        heap = [(prio(i), i) for i in nodes if cnt[i] == 0]
        heapq.heapify(heap)
        res = []
        while heap:
            _, i = heapq.heappop(heap)
            res.append(i)
            for u in users[i]:
                cnt[u] -= 1
                if cnt[u] == 0:
                    heapq.heappush(heap, (prio(u), u))
        if len(res) != len(nodes):
            raise Unsupported('cyclic dependence in a block')
        # terminator last
        return [i for i in res if i not in term] + term


def hash_int(x):
    x = (x * 2654435761) & 0xffffffff
    return x ^ (x >> 15)


def init_bytes(canon, js, e, size):
    """bytes of an entity's initializer; None = not known"""
    b = [0] * size
    init = e[5]
    if init is None:
        return b
    for it in init:
        if len(it) == 2:
            off, h = it
            if h == -2 or h == '?':
                raise Unsupported('initializer')
            by = bytes.fromhex(h if len(h) % 2 == 0 else '0' + h)[::-1]
            for k, x in enumerate(by):
                b[off + k] = x
        else:
            off, ent, add, sz = it
            base = 0
            if ent >= 0:
                ee = js['ents'][ent]
                reg = REG_FN + canon.f(ee[0]) if ee[1] == 'm' else canon.g(ee[0])
                base = reg << 20
            v = (base + add) & ((1 << (8 * sz)) - 1)
            for k in range(sz):
                b[off + k] = (v >> (8 * k)) & 255
    return b


LINK_CONST = 1


def graph_version(canon, js, main, order, tag):
    """one version record of the model from an exported program"""
    fns, nclaims = {}, 0
    for fn in js['fns']:
        g = GraphFn(canon, js, fn, order)
        g.prescan()
        name = js['ents'][fn['ent']][0]
        fns[name] = g.build()
        nclaims += g.nclaims
    glob, ro = [], []
    for e in js['ents']:
        if e[1] == 'g' and e[0] != 'in':
            if e[4] > 0 or True:
                reg = canon.g(e[0])
                glob.append([reg, init_bytes(canon, js, e, e[4])])
                if e[3] & LINK_CONST:
                    ro.append(reg)
    for e in js['ents']:
        if e[1] == 'm':
            canon.f(e[0])
    canon.claims = getattr(canon, 'claims', 0) + nclaims
    return {'tag': tag, 'fns': fns, 'glob': glob, 'ro': ro, 'main': main}


def close_version(canon, ver):
    """function table in id order; externals filled in"""
    tab = []
    inv = {v: k for k, v in canon.fid.items()}
    for k in range(1, canon.next_f):
        name = inv[k]
        if name in ver['fns']:
            f = ver['fns'][name]
            tab.append(f)
        else:
            x = canon.ext.get(name) or runtime(canon, name) or {'kind': 'unsupported', 'id': 0}
            d = {'k': 'x', 'n': 1, 'fs': 0, 'b': [], 'kind': x['kind'], 'id': x['id'], 'op': x.get('op', ''), 'm': x.get('m', 1),
                 'q': x.get('q', 1), 'un': x.get('un', 0)}
            tab.append(d)
    ver = dict(ver)
    ver['fns'] = tab
    ver['main'] = canon.fid[ver['main']]
    return ver


def runtime(canon, name):
    M = canon.modes
    I = lambda b, s: M.get('', 'i', b, s, b, 0, 0)
    Fm = M.get('', 'f', 32, 0, 0, 8, 23)
    Dm = M.get('', 'f', 64, 0, 0, 11, 52)
    L, LU, W, WU = I(64, 1), I(64, 0), I(32, 1), I(32, 0)
    rt = {}
    for n, op, m in (('__divdi3', 'Div', L), ('__udivdi3', 'Div', LU), ('__moddi3', 'Mod', L), ('__umoddi3', 'Mod', LU),
                     ('__muldi3', 'Mul', L), ('__divsi3', 'Div', W), ('__udivsi3', 'Div', WU), ('__modsi3', 'Mod', W),
                     ('__umodsi3', 'Mod', WU), ('__mulsi3', 'Mul', W),
                     ('__ashldi3', 'Shl', L), ('__lshrdi3', 'Shr', LU), ('__ashrdi3', 'Shrs', L), ('__negdi2', 'Minus', L),
                     ('__addsf3', 'Add', Fm), ('__subsf3', 'Sub', Fm), ('__mulsf3', 'Mul', Fm), ('__divsf3', 'Div', Fm), ('__negsf2', 'Minus', Fm),
                     ('__adddf3', 'Add', Dm), ('__subdf3', 'Sub', Dm), ('__muldf3', 'Mul', Dm), ('__divdf3', 'Div', Dm), ('__negdf2', 'Minus', Dm)):
        rt[n] = (op, m, m, 0)
    for s, f in (('sf', Fm), ('df', Dm)):
        for c, un in (('eq', 1), ('ne', 1), ('lt', 1), ('le', 1), ('gt', 0xffffffff), ('ge', 0xffffffff)):
            rt['__%s%s2' % (c, s)] = ('Cmp3', W, f, un)
        rt['__unord%s2' % s] = ('Unord', W, f, 0)
        for t, im in (('si', W), ('di', L)):
            rt['__fix%s%s' % (s, t)] = ('Conv', im, f, 0)
            rt['__float%s%s' % (t, s)] = ('Conv', f, im, 0)
        for t, im in (('si', WU), ('di', LU)):
            rt['__fixuns%s%s' % (s, t)] = ('Conv', im, f, 0)
            rt['__floatun%s%s' % (t, s)] = ('Conv', f, im, 0)
    rt['__extendsfdf2'] = ('Conv', Dm, Fm, 0)
    rt['__truncdfsf2'] = ('Conv', Fm, Dm, 0)
    rt['__bswapsi2'] = ('Bswap', WU, WU, 0)
    rt['__bswapdi2'] = ('Bswap', LU, LU, 0)
    for s, m in (('si', WU), ('di', LU)):
        rt['__popcount%s2' % s] = ('Popcount', W, m, 0)
        rt['__parity%s2' % s] = ('Parity', W, m, 0)
        rt['__ffs%s2' % s] = ('Ffs', W, m, 0)
        rt['__clz%s2' % s] = ('Clz', W, m, 0)
        rt['__ctz%s2' % s] = ('Ctz', W, m, 0)
    if name in ('memcpy', 'memmove', 'memset'):
        return {'kind': 'memcpy' if name != 'memset' else 'memset', 'id': 0}
    if name in rt:
        op, m, q, un = rt[name]
        return {'kind': 'rt', 'id': 0, 'op': op, 'm': m, 'q': q, 'un': un}
    return None


def run_driver(lib, progs, target='x86_64-linux-gnu', opts=(), name='drv', shards=8, timeout=300):
    """progs: list of (id, text).  Returns {id: [json records]}"""
    exe = build_driver(name, lib)
    parts = [progs[k::shards] for k in range(shards)]

    def one(part):
        if not part:
            return ''
        text = ''.join('P %d\n%s\n.\n' % (i, t) for i, t in part)
        try:
            r = subprocess.run(['setarch', '-R', exe, target] + list(opts), input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors='replace', timeout=timeout, cwd=scratch_root())
        except subprocess.TimeoutExpired:
            raise CheckError('driver timed out')
        if r.returncode != 0:
            raise CheckError('driver failed (%d): %s' % (r.returncode, r.stderr[-500:]))
        return r.stdout
    res = {}
    with ThreadPoolExecutor(shards) as ex:
        for o in ex.map(one, parts):
            for l in o.splitlines():
                try:
                    j = json.loads(l)
                except ValueError:
                    # a record cut short by a crash
                    continue
                res.setdefault(j['id'], []).append(j)
    return res


GROUPED = {"Add", "Sub", "Mul", "And", "Or", "Eor", "Conv", "Cmp", "Shl", "Shr", "Shrs", "Not", "Minus", "Sel", "Off"}


def group_cases(cases, modes):
    """split every segment into groups (p = 1: integer operations only)"""
    tab = modes.tab

    def quiet(n):
        if n['o'] in ('Const', 'Id', 'Mux'):
            return 1
        if n['o'] not in GROUPED:
            return 0
        m, q = tab[n['m'] - 1], tab[n['q'] - 1]
        return 1 if m['k'] == 'i' and m['b'] <= 64 and (n['q'] == 1 or (q['k'] == 'i' and q['b'] <= 64)) else 0
    for cs in cases:
        for v in cs['vers']:
            for f in v['fns']:
                for b in f['b']:
                    for s in b['s']:
                        if 'g' in s:
                            continue
                        g = []
                        for n in s['n']:
                            k = quiet(n)
                            if not g or g[-1]['p'] != k:
                                g.append({'p': k, 'n': []})
                            g[-1]['n'].append(n)
                        s['g'] = g
                        del s['n']


def run_model(cases, modes, chk=None, batch=None, cfg_extra='', tmo=600, heap='16g', procs=None):
    """run TLC on the cases; returns list of terminal reports"""
    group_cases(cases, modes)
    size = [len(json.dumps(cs)) for cs in cases]
    if procs is None:
        procs = 1 if sum(size) < 2000000 else 2 if sum(size) < 8000000 else 4
    parts = [[] for _ in range(procs)]
    load = [0] * procs
    for s, cs in sorted(zip(size, cases), key=lambda z: -z[0]):
        k = load.index(min(load))
        parts[k].append(cs)
        load[k] += s
    paths = []
    for k, part in enumerate(parts):
        path = os.path.join(scratch_root(), 'cases-%d-%d.ndjson' % (id(cases), k))
        write_ndjson(path, [{'modes': modes.tab}] + part)
        paths.append(path)
    wk = {1: 8, 2: 4, 3: 3, 4: 2}[procs]

    def one(path):
        return run_tlc('Firm', 'SPECIFICATION Spec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n' + cfg_extra, env={'FIRM_FILE': path},
                       timeout=tmo, heap='%dg' % (int(heap[:-1]) // procs), workers=wk)
    with ThreadPoolExecutor(procs) as ex:
        ts = list(ex.map(one, paths))
    prints = []
    for t, path in zip(ts, paths):
        if t.violated:
            raise CheckError('type invariant of the model broken\n' + t.out[-2000:])
        os.unlink(path)
        if chk is not None:
            chk.tlc(t)
        prints += t.prints()
    return prints, ts[0]
