"""C19: writing a program to text and reading it back is the identity."""
import os, random, re, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from vlib import *
from flow import *
import flow
from behav import scale
from hist import validate
import gen as G

TARGETS = [('x86_64-linux-gnu', 64, 8), ('i686-linux-gnu', 32, 8), ('riscv32-unknown-elf', 32, 8)]
SCR = ['', '', 'local+cf+combo', 'inline0+scalar+ldst+gvnpre', 'jt+ifconv+place+conv', 'gvnpre+bool+cf+osr+dne', 'lower', 'tailrec+vrp+confopt', 'clone2+parmem+combmem', 'lcssa+df', 'conv+inv']
RICH = dict(builtins=.2, switch=.35, compound=.3, recursion=.2, volatile=.15, mem=.4, calls=.35, floats=.2)


def image(im):
    """sections as sequences of strings"""
    r = {}
    for s in ('modes', 'asms', 'types', 'ents'):
        r[s] = [json.dumps(x) for x in im[s]]
    r['name'] = [im['name']]
    r['segs'] = [str(x) for x in im['segs']]
    r['graphs'] = [x for e, fr, ns in im['graphs'] for x in ['graph %d %d %d' % (e, fr, len(ns))] + [json.dumps(y) for y in ns]]
    return r


def replay(c, lib, d):
    """reproducers of recorded findings: say so while they still fail (they do not count)"""
    for key, what in sorted(c.known.items()):
        m = re.match(r'file=(\S+) (.*)', what)
        if not m:
            continue
        target, text = open(os.path.join(VERIF, m.group(1))).read().split('\n', 1)
        f = d + '/known'
        imgs = []
        for t in (text + 'struct write %s align\nirexport %s' % (f, f), 'irimport %s\nstruct read %s align' % (f, f)):
            imgs += [r['image'] for r in run_driver(lib, [(1, t)], target, shards=1).get(1, []) if r['tag'] == 'struct']
        if len(imgs) == 2 and imgs[0] != imgs[1]:
            c.known_seen.add(key)
            print('KNOWN-FINDING: property=%s %s' % (c.prop, m.group(2)), flush=True)


def body(c):
    lib = build_lib()
    build_driver('drv', lib)
    d = tempfile.mkdtemp(dir=scratch_root())
    recs, infos, nst = [], [], 0
    replay(c, lib, d)
    for triple, pbits, ll in TARGETS:
        rng = random.Random('C19-%s-%d' % (triple, SEED))
        b = Batch(c, triple, pbits, ll)
        t1, t2, t3, t4 = [], [], [], []
        for j in range(scale(150 if pbits == 64 else 70, 8)):
            i = b.next
            b.next += 1
            kw = dict(RICH)
            g = G.Gen(i, rng, b.modes, pbits, ll, **kw)
            while G.dead_cycle(g.p):      # cycles of dead operations without Phi: outside of what the format can say
                g = G.Gen(i, rng, b.modes, pbits, ll, **kw)
            s = [x for x in rng.choice(SCR).split('+') if x]
            if s == ['lower'] and pbits == 32:       # operations of the IA-32 back end have no text
                s = []
            b.progs[i] = (g.p, G.runs(rng, 2))
            f = '%s/%s-%d' % (d, triple, i)
            fin = ['p ' + x for x in s]
            if rng.random() < .5:
                fin += ['decorate %d' % rng.randrange(1, 10 ** 9)]
            fin += ['struct write %s.1' % f, 'irexport %s.1' % f]
            t1.append((i, g.p.driver_text(('opt 1',), ['x construct'] + fin)))
            back = 'irimport %s.%%d\nstruct read %s.%%d\nx imported%%d\nstruct write %s.%%d\nirexport %s.%%d' % (f, f, f, f)
            t2.append((i, ('junk 60 %d\n' % rng.randrange(10 ** 6) if rng.random() < .3 else '') + back % (1, 1, 1, 2, 2)))
            t3.append((i, back % (2, 2, 2, 3, 3)))
        outs = []
        bad = set()
        for t in (t1, t2, t3):
            b.texts = t = [x for x in t if x[0] not in bad]
            outs.append(run_driver(lib, t, triple, ()))
            b.out = outs[-1]
            # a program that cannot be written/read ends the history of that program
            bad |= flow.judge_exits(b, c)
        b.texts = t1
        ids = []
        for i in b.progs:
            rs = [r for o in outs for r in o.get(i, [])]
            b.out[i] = rs
            ev, rc = [], 0
            for r in rs:
                if r['tag'] == 'import':
                    rc = r['rc']
                if r['tag'] == 'struct':
                    ev.append({'op': r['op'], 'file': os.path.basename(r['file']), 'rc': rc if r['op'] == 'read' else 0, 'img': image(r['image'])})
            if any(e['op'] == 'read' for e in ev):
                recs.append({'ev': ev})
                infos.append((triple, dict(t1)[i]))
                nst += 1 + len(ev)
            if not any(r['tag'] == 'exit' for r in rs):
                ids.append(i)
            c.add('programs')
            c.add('texts_read', sum(1 for e in ev if e['op'] == 'read'))
        # the programs read behave as the ones written
        n = len(ids) // 4 if TIER_ != 'thorough' else len(ids)
        flow.model(b, c, ids[:n], keep=lambda tag: tag.startswith('imported'), chunk=2000)
        

    def describe(x):
        triple, text = infos[x['g'] - 1]
        ev = recs[x['g'] - 1]['ev'][x['i'] - 1]
        return ('%s (target %s, %s): section %s, item %d: %s instead of %s' % (x['what'], triple, ev['file'], x['d']['section'], x['d']['at'],
                                                                           x['d']['is'][:200], x['d']['should'][:200]),
                {'program': text, 'target': triple, 'difference': x}, 'roundtrip:%s' % x['d']['section'])
    validate(c, 'RoundTrip', recs, nst, describe, env_name='RECS')
    shutil.rmtree(d)


if __name__ == '__main__':
    from vlib import TIER as TIER_
    vlib.main('C19', 'model_checking', body)
