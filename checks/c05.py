"""C05: identifiers, linker names, member lists.  Recorded histories are judged by Names.tla."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from hist import *

SC = 20 if TIER == "thorough" else 1
PRIV = 4
FIELDS = {'new': 'abcde', 'alias': 'abcde', 'clone': 'abcd', 'free': 'a', 'move': 'ab', 'ren': 'ab', 'renid': 'ab', 'vis': 'ab',
          'link': 'ab', 'readd': 'a', 'freetype': 'a', 'newtype': 'a', 'gc': ''}


class Ent:
    """chooses legal operations; keeps what the contract needs (owner, name, visibility)"""
    def __init__(self, nnames, rec=None):
        self.n = nnames
        self.e = dict(rec) if rec else {}       # no -> (owner, name, vis, method?, lnk, target)
        self.live = [True] * 6
        self.h = {'head': 'H E', 'ops': [], 'ev': [], 'name': 'ent'}

    def used(self, but=0):
        return {v[1] for k, v in self.e.items() if k != but and v[0] in (0, 1) and v[2] != PRIV}

    def free_for(self, owner, name, vis, but=0):
        return not (owner in (0, 1) and vis != PRIV) or (name != 0 and name not in self.used(but))

    def op(self, o, **f):
        ev = dict({'o': o, 'n': self.n, 'a': 0, 'b': 0, 'c': 0, 'd': 0, 'e': 0}, **f)
        self.h['ops'].append('%s %d %s' % (o, self.n, ' '.join(str(ev[x]) for x in FIELDS[o])))
        self.h['ev'].append(ev)

    # every method returns False when the operation would leave the contract
    def new(self, a, t, name, kind, m, vis):
        v = {0: 0, 1: vis}.get(kind, PRIV)
        if a in self.e or not self.live[t] or kind == 1 and t > 2 or kind == 3 and t < 3:
            return False
        if kind >= 2:
            name, m = 0, 0
        elif name == 0:
            return False
        if kind == 2:
            t = 0
        if t == 4 and m or not self.free_for(t, name, v):
            return False
        self.op('new', a=a, b=t, c=name, d=kind * 2 + m, e=vis)
        self.e[a] = (t, name, v, m, m if kind < 2 else 0, 0)
        return True

    def alias(self, a, t, name, of, vis):
        if a in self.e or of not in self.e or t > 1 or name == 0 or not self.free_for(t, name, vis) or self.e[of][1] == 0:
            return False
        self.op('alias', a=a, b=t, c=name, d=of, e=vis)
        self.e[a] = (t, name, vis, self.e[of][3], 0, of)
        return True

    def clone(self, a, t, name, of):
        if a in self.e or of not in self.e or not self.live[t] or name == 0 or self.e[of][1] == 0:
            return False
        o = self.e[of]
        if (o[0] < 3) != (t < 3) or not self.free_for(t, name, o[2]):
            return False
        self.op('clone', a=a, b=t, c=name, d=of)
        self.e[a] = (t, name, o[2], o[3], o[4], o[5])
        return True

    def targets(self):
        return {v[5] for v in self.e.values()}

    def free(self, a):
        if a not in self.e or a in self.targets():
            return False
        self.op('free', a=a)
        del self.e[a]
        return True

    def move(self, a, t):
        if a not in self.e or not self.live[t] or not self.free_for(t, self.e[a][1], self.e[a][2], a) or self.e[a][1] == 0 \
           or self.e[a][5] and t > 1:
            return False
        self.op('move', a=a, b=t)
        self.e[a] = (t,) + self.e[a][1:]
        return True

    def ren(self, a, name):
        if a not in self.e or name == 0 or self.e[a][1] == 0 or not self.free_for(self.e[a][0], name, self.e[a][2], a):
            return False
        self.op('ren', a=a, b=name)
        o = self.e[a]
        self.e[a] = (o[0], name) + o[2:]
        return True

    def renid(self, a, name):
        if a not in self.e or name == 0:
            return False
        self.op('renid', a=a, b=name)
        return True

    def vis(self, a, v):
        if a not in self.e or self.e[a][1] == 0 or not self.free_for(self.e[a][0], self.e[a][1], v, a):
            return False
        self.op('vis', a=a, b=v)
        o = self.e[a]
        self.e[a] = o[:2] + (v,) + o[3:]
        return True

    def link(self, a, l):
        if a not in self.e:
            return False
        self.op('link', a=a, b=l)
        o = self.e[a]
        self.e[a] = o[:4] + (l, o[5])
        return True

    def readd(self, a):
        if a not in self.e:
            return False
        self.op('readd', a=a)
        return True

    def freetype(self, t):
        if t < 3 or not self.live[t] or any(v[5] and self.e[v[5]][0] == t for v in self.e.values()):
            return False
        self.op('freetype', a=t)
        self.live[t] = False
        self.e = {k: v for k, v in self.e.items() if v[0] != t}
        return True

    def newtype(self, t):
        if t < 3 or self.live[t]:
            return False
        self.op('newtype', a=t)
        self.live[t] = True
        return True

    def gc(self):
        keep = {k for k, v in self.e.items() if v[0] < 3 and (v[2] <= 2 or v[4] & 16 or v[4] & 32)}
        while True:
            more = keep | {self.e[k][5] for k in keep if self.e[k][5]}
            if more == keep:
                break
            keep = more
        self.op('gc')
        self.e = {k: v for k, v in self.e.items() if v[0] > 2 or k in keep}
        return True


def ent_random(rng, hs):
    for n in range(260 * SC):
        x = Ent(rng.choice([2, 4, 7]))
        ents = rng.choice([3, 8, 20])
        types = rng.choice([[0], [0, 3], [0, 1], list(range(6)), [0, 2, 4]])
        for _ in range(rng.randrange(10, 60)):
            a, t, nm, v = rng.randrange(1, ents), rng.choice(types), rng.randrange(1, x.n + 1), rng.randrange(5)
            other = rng.choice(sorted(x.e)) if x.e else 0
            mine = rng.choice(sorted(x.e)) if x.e else 0
            c = rng.choice(['new', 'new', 'new', 'alias', 'clone', 'free', 'move', 'move', 'ren', 'ren', 'renid', 'vis', 'vis', 'link',
                            'readd', 'freetype', 'newtype', 'gc' if rng.random() < 0.3 else 'ren'])
            if c == 'new':
                x.new(a, t, nm, rng.choice([0, 1, 1, 1, 2, 3]), rng.randrange(2), v)
            elif c == 'alias':
                x.alias(a, rng.choice([0, 1]), nm, other, v)
            elif c == 'clone':
                x.clone(a, t, nm, other)
            elif c == 'free':
                x.free(mine)
            elif c == 'move':
                x.move(mine, t)
            elif c == 'ren':
                x.ren(mine, nm)
            elif c == 'renid':
                x.renid(mine, nm)
            elif c == 'vis':
                x.vis(mine, v)
            elif c == 'link':
                x.link(mine, rng.choice([0, 1, 4, 16, 32, 48]))
            elif c == 'readd':
                x.readd(mine)
            elif c == 'freetype':
                x.freetype(t)
            elif c == 'newtype':
                x.newtype(t)
            else:
                x.gc()
        if x.h['ops']:
            hs.append(x.h)


def ent_exhaustive(rng, hs):
    """all histories of three (thorough: four) operations after two entities were created"""
    ops = [('free', 1), ('move', 1, 3), ('move', 1, 0), ('move', 2, 0), ('ren', 1, 2), ('ren', 1, 1), ('ren', 2, 1), ('vis', 1, PRIV),
           ('vis', 1, 0), ('vis', 2, 0), ('vis', 2, PRIV), ('new', 3, 0, 1, 1, 0, 0), ('clone', 3, 0, 2, 1), ('readd', 1), ('gc',)]
    for starts in ([('new', 1, 0, 1, 1, 0, 0), ('new', 2, 3, 1, 0, 0, 0)], [('new', 1, 0, 1, 1, 0, 0), ('new', 2, 1, 2, 1, 0, PRIV)],
                   [('new', 1, 0, 1, 1, 1, 3), ('new', 2, 0, 1, 1, 1, PRIV)]):
        for seq in itertools.product(ops, repeat=4 if TIER == "thorough" else 3):
            x = Ent(2)
            if all(getattr(x, o[0])(*o[1:]) for o in starts + list(seq)):
                hs.append(x.h)


def fnv_pairs(rng, n):
    """different strings with equal FNV-1 hash: prefixes that agree in the upper 24 bits are completed by a last byte each"""
    res, seen = [], {}
    for _ in range(n):
        s = bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyz0123456789_') for _ in range(6))
        v = 2166136261
        for c in s:
            v = (v * 16777619 & 0xffffffff) ^ c
        v = v * 16777619 & 0xffffffff
        t, w = seen.setdefault(v >> 8, (s, v))
        d = (v ^ w) & 255
        if t != s:
            c = 65 if d != 65 else 66
            res.append((s + bytes([c]), t + bytes([c ^ d])))
    return res


def idh(kind='id'):
    return {'head': 'H I', 'ops': [], 'ev': [], 'name': 'ident', 'k': kind}


def idop(h, o, a=b'', b=b'', x=0, y=0):
    hx = lambda s: s.hex() or '-'
    args = {'str': [hx(a)], 'chars': [hx(a), x, y], 'uniq': [hx(a)], 'fs': [hx(a)], 'fss': [hx(a), hx(b)], 'fsd': [hx(a), x],
            'fu': [a.decode('latin1')], 'fc': [x, hx(a)]}[o]
    h['ops'].append(o + ' ' + ' '.join(map(str, args)))
    h['ev'].append({'o': o, 'a': list(a), 'b': list(b), 'x': x, 'y': y})


def ids(rng, hs):
    coll = fnv_pairs(rng, 60000)
    log('hash collisions', len(coll))
    for n in range(250 * SC):
        h = idh()
        alpha = rng.choice([b'ab', b'a', bytes(range(1, 256)), b'xyz.%_0123456789'])
        pool = [bytes(rng.choice(alpha) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 17, 40]))) for _ in range(6)]
        for _ in range(2):
            if coll:
                pool += list(rng.choice(coll))
        pool += [p[:-1] for p in pool[:3] if p] + [p + b'.0' for p in pool[:2]]
        for _ in range(rng.randrange(5, 40)):
            a, b = rng.choice(pool), rng.choice(pool)
            o = rng.choice(['str', 'str', 'chars', 'uniq', 'fs', 'fss', 'fsd', 'fu', 'fc'])
            if o == 'chars':
                x = rng.randrange(len(a) + 1)
                idop(h, o, a, x=x, y=rng.randrange(x, len(a) + 1))
            elif o == 'fsd':
                idop(h, o, a, x=rng.choice([0, 1, -1, 9, 10, 99, -100, 2147483647, -2147483647, rng.randrange(-10**6, 10**6)]))
            elif o == 'fu':
                idop(h, o, str(rng.choice([0, 7, 10, 4294967295, rng.randrange(1 << 32)])).encode())
            elif o == 'fc':
                idop(h, o, a, x=rng.choice([65, 37, 126, 33]))
            else:
                idop(h, o, a, b)
        hs.append(h)
    for n in range(2 * SC):        # many identifiers: the table grows
        h = idh('many')
        m = 3000
        for k in range(m):
            if n % 2 == 0:
                idop(h, 'str', b'n%d' % rng.randrange(m))
            else:
                s = bytes(rng.choice(b'ab') for _ in range(rng.randrange(0, 14)))
                idop(h, rng.choice(['str', 'fs']), s)
        for a, b in coll[:40]:
            idop(h, 'str', a)
            idop(h, 'fs', b)
        hs.append(h)


def check(chk):
    rng = chk.rng
    hs = []
    ent_exhaustive(rng, hs)
    n = len(hs)
    ent_random(rng, hs)
    ids(rng, hs)
    lib = build_lib()
    drv = build_driver('entdrv', lib)
    done = record(chk, drv, hs)
    recs, states = [], 0
    for k in done:
        h = hs[k]
        kd = h.get('k', 'ent')
        recs.append({'k': kd, 'ev': [dict(e, r=r) for e, r in zip(h['ev'], h['out'])]})
        states += 1 if kd == 'many' else len(h['ev']) + 1
        chk.add('histories_' + kd, 1)
    chk.add('exhaustive_histories', n)
    for k in range(0, len(recs), max(1, len(recs) // 3)):
        chk.sample({'k': recs[k]['k'], 'events': recs[k]['ev'][:4]})

    def describe(b):
        r = recs[b['h'] - 1]
        e = r['ev'][b['i'] - 1]
        return ('%s: after operation %d (%s) the interface shows %s' % (r['k'], b['i'], {k: v for k, v in e.items() if k != 'r'}, e['r'][:40]),
                {'kind': r['k'], 'events': r['ev'][:b['i']][:200], 'specified': b['st'][:2000]}, None)
    validate(chk, 'Names', recs, states, describe)


if __name__ == '__main__':
    main('C05', 'model_checking', check)
