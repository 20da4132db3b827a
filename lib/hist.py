"""Histories of operations: run on a driver, record, validate against a TLA+ state machine."""
import os, subprocess, json
from vlib import *


def record(chk, drv, hists, timeout=60, conv=None, env=None, argv=()):
    """hists: list of {'head': str, 'ops': [line]}; adds 'out' (list of result lists); returns the completed ones.
    A history on which the library crashes or hangs is a violation (all histories stay inside the API's contract)."""
    e = dict(os.environ, MALLOC_PERTURB_='165')
    e.update(env or {})
    todo = list(range(len(hists)))
    done = []
    crashes = 0
    conv = conv or (lambda l: [int(x) for x in l.split()])
    while todo:
        text = ''.join(hists[k]['head'] + '\n' + ''.join(o + '\n' for o in hists[k]['ops']) for k in todo)
        try:
            r = subprocess.run([drv] + list(argv), input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               errors='replace', timeout=timeout, env=e)
            out, rc, err = r.stdout, r.returncode, r.stderr
        except subprocess.TimeoutExpired as ex:
            out, rc, err = (ex.stdout or b'').decode('utf8', 'replace') if isinstance(ex.stdout, bytes) else (ex.stdout or ''), 'timeout', ''
        lines = out.split('\n')
        if lines and not out.endswith('\n'):
            lines[-1] = '\0'        # incomplete line
        p = 0
        k = None
        for n, k in enumerate(todo):
            need = len(hists[k]['ops']) + 1
            got = lines[p:p + need]
            if len(got) < need or '\0' in got or (p + need >= len(lines) and not out.endswith('\n')):
                break
            hists[k]['out'] = [conv(l) for l in got[1:]]
            done.append(k)
            p += need
        else:
            if rc == 0 or not todo:
                return done
            k = todo[-1]
            n = len(todo) - 1
            if k in done:
                done.remove(k)
        crashes += 1
        at = max(0, len([l for l in lines[p:] if l != '\0' and l != '']) - 1)
        chk.violation('the library %s in a history' % ('hangs' if rc == 'timeout' else 'crashes (exit %s)' % rc),
                      {'head': hists[k]['head'], 'ops': hists[k]['ops'][:400], 'about_op': at, 'stderr': err[-1500:]},
                      key='crash:' + hists[k].get('name', ''))
        todo = todo[n + 1:]
        if crashes >= 5:
            break
    return done


def validate(chk, module, recs, expect_states, describe, env_name='HIST', cfg_extra='', heap='12g'):
    """every recorded history must be a behaviour of the machine in spec/module"""
    f = os.path.join(scratch_root(), module + '.ndjson')
    write_ndjson(f, recs)
    t = run_tlc(module, 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n' + cfg_extra, {env_name: f}, heap=heap)
    chk.tlc(t)
    bad = t.prints()
    for b in bad[:20]:
        what, data, key = describe(b)
        chk.violation(what, data, key)
    if not bad and expect_states is not None and t.distinct != expect_states:
        raise CheckError('%s: %d states instead of %d' % (module, t.distinct, expect_states))
    os.unlink(f)
    chk.add('traces_validated_against_impl', len(recs))
    return t
