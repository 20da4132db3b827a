"""Glue of the behaviour checks: generate programs, run the driver, build cases, run the model, judge."""
import json, os, random, sys
import vlib
from vlib import *
from firmc import *
import gen as G


def scripts_text(script, pre=()):
    # graphs may be built with the simplifier off; transformations run with it on
    return ['x construct'] + (['opt 1'] if 'opt 0' in pre else []) + ['p %s' % s for s in script if s]


class Batch:
    def __init__(self, chk, target='x86_64-linux-gnu', pbits=64, ll_align=8, opts=()):
        self.chk, self.target, self.pbits, self.ll = chk, target, pbits, ll_align
        self.modes = Modes()
        self.opts = opts
        self.progs = {}      # id -> (prog, runs)
        self.texts = []
        self.next = 1

    def add(self, rng, nruns, script, pre=('opt 1',), final=(), **kw):
        i = self.next
        self.next += 1
        g = G.Gen(i, rng, self.modes, self.pbits, self.ll, **kw)
        return self.add_prog(g.p, G.runs(rng, nruns), script, pre, final)

    def add_prog(self, p, runs, script, pre=('opt 1',), final=()):
        i = p.id
        self.progs[i] = (p, runs)
        self.texts.append((i, p.driver_text(pre, scripts_text(script, pre) + list(final))))
        return i

    def drive(self, lib):
        self.out = run_driver(lib, self.texts, self.target, self.opts)
        return self.out

    def case(self, i, orders=(0, 1), limit=400, keep=lambda tag: True):
        p, runs = self.progs[i]
        canon = p.canon
        vers = [p.source_version()]
        seen = set()
        for js in self.out.get(i, []):
            if 'fns' not in js:
                continue
            if not keep(js['tag']):
                continue
            for o in orders:
                try:
                    v = graph_version(canon, js, 'main_', o, js['tag'] + ('' if o == 0 else '/%d' % o))
                except Unsupported as e:
                    self.chk.add('graphs_not_expressible')
                    self.chk.cov.setdefault('not_expressible', {})
                    k = str(e)
                    self.chk.cov['not_expressible'][k] = self.chk.cov['not_expressible'].get(k, 0) + 1
                    continue
                key = json.dumps([v['fns'], v['glob'], v['ro']])
                h = hash(key)
                if h in seen:
                    continue
                seen.add(h)
                vers.append(v)
        self.chk.add('graph_versions_checked', len(vers) - 1)
        vers = [close_version(canon, v) for v in vers]
        obs = [g.reg for g in p.globs if g.vis == 'e' and not g.const and g.name != 'in' and (not g.vol)]
        esc = [g.reg for g in p.globs if g.name in ('sh', 'ga0')]
        return {'id': i, 'vers': vers, 'runs': runs, 'inreg': 1, 'obs': obs, 'esc': esc, 'vol': [g.reg for g in p.globs if g.vol], 'limit': limit, 'pbits': p.pbits}


def judge_exits(b, chk, ok_err=lambda js: False):
    """crashes, failed assertions, invalid graphs reported by the driver"""
    bad = set()
    for i, recs in sorted(b.out.items()):
        for js in recs:
            if js['tag'] == 'exit':
                if js['status'] == 99:
                    raise CheckError('driver: ' + js['err'])
                if ok_err(js):
                    continue
                if js['status'] == 0 and js['sig'] == 0:
                    chk.add('diagnostics')      # messages without consequences
                    if 'Verify' not in js['err'] and 'verif' not in js['err'].lower():
                        continue
                bad.add(i)
                what = 'library failed in "%s": signal %d status %d: %s' % (js['stage'], js['sig'], js['status'], js['err'][-300:])
                chk.violation(what, {'program': dict(b.texts)[i], 'target': b.target, 'exit': js}, key=crash_key(js))
            elif js.get('ver', 1) == 0:
                if i not in bad:
                    bad.add(i)
                    chk.violation('graph after "%s" fails the verifier' % js['tag'], {'program': dict(b.texts)[i], 'target': b.target})
    return bad


def crash_key(js):
    import re
    m = re.search(r"([\w./]+\.[ch]):\d+: (\w+): Assertion", js['err'])
    return 'crash:%s:%s' % (js['stage'].split()[0], m.group(2) if m else js['sig'])


def model(b, chk, ids, orders=(0, 1), limit=400, keep=lambda tag: True, chunk=60, maxbad=6, cfg='', on_bad=None):
    """check the given programs on the model; violations are reported"""
    ids = list(ids)
    total = {'ok': 0, 'skip': 0, 'bad': 0}
    why = {}
    texts = dict(b.texts)
    reports = []
    for k in range(0, len(ids), chunk):
        cases = [b.case(i, orders, limit, keep) for i in ids[k:k + chunk]]
        if not cases:
            continue
        try:
            prints, t = run_model(cases, b.modes, chk, cfg_extra=cfg)
        except CheckError as e:
            bad = unexecutable(cases, b, cfg)
            if not bad:
                raise
            for i in bad:
                chk.violation('program %d: the model cannot execute a graph the library produced: %s' % (i, str(e)[:300]),
                              {'program': texts[i], 'target': b.target})
            continue
        for kind, i, r, tag, text, n in prints:
            total[kind] += 1
            if kind == 'skip':
                why[text] = why.get(text, 0) + 1
            if kind == 'bad':
                reports.append((i, r, tag, text))
        if len(set((x[1], x[2]) for x in prints)) != sum(len(cs['runs']) for cs in cases):
            raise CheckError('not every run reached an end\n' + t.out[-2000:])
    for i, r, tag, text in sorted(reports)[:maxbad]:
        if on_bad and on_bad(i, r, tag, text):
            continue
        p, runs = b.progs[i]
        chk.violation('program %d, input %d: version "%s" differs from the program: %s' % (i, r, tag, text[:400]),
                      {'program': texts[i], 'target': b.target, 'run': runs[r - 1], 'version': tag, 'text': text})
    chk.add('runs_compared', total['ok'])
    chk.add('runs_skipped_undefined', total['skip'])
    chk.cov['skip_reasons'] = {**chk.cov.get('skip_reasons', {}), **why}
    return total


def unexecutable(cases, b, cfg):
    """after an evaluation error of TLC: the programs whose graphs (not whose source) the model cannot execute"""
    def fails(cs):
        try:
            run_model(cs, b.modes, None, cfg_extra=cfg)
            return False
        except CheckError:
            return True
    if fails([dict(c, vers=c['vers'][:1]) for c in cases]):
        return []
    bad = []

    def split(cs):
        if len(bad) >= 2 or not cs or not fails(cs):
            return
        if len(cs) == 1:
            bad.append(cs[0]['id'])
            return
        split(cs[:len(cs) // 2])
        split(cs[len(cs) // 2:])
    split(cases)
    return bad
