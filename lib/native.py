"""Machine code checks: compile generated programs with a back end, run them, judge what was observed with spec/Firm.tla."""
import os, random, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import flow
from flow import *

NATIVE = os.path.join(VERIF, 'native')
# e_*: argument widths in bits
EXTARGS = {1: [32], 2: [32, 32], 3: [32], 4: [], 5: [], 8: [64, 32]}
FAIL = {1: 'returns with a changed stack pointer', 2: 'changes a register it has to preserve', 3: 'overwrites the frame of its caller',
        4: 'leaves the direction flag set', 5: 'calls with a misaligned stack', 6: 'leaves values on the x87 stack', 7: 'calls with a non-empty x87 stack'}


class Target:
    def __init__(self, triple, pbits, ll, asm, cflags, asflags, ldflags, ptr, nomux):
        self.triple, self.pbits, self.ll, self.asm, self.cflags, self.asflags, self.ldflags, self.ptr, self.nomux = triple, pbits, ll, asm, cflags, asflags, ldflags, ptr, nomux


AMD64 = Target('x86_64-linux-gnu', 64, 8, 'amd64.S', ['-m64'], ['--64'], ['-m', 'elf_x86_64'], '.quad', True)
IA32 = Target('i686-linux-gnu', 32, 8, 'ia32.S', ['-m32', '-mno-sse', '-mpreferred-stack-boundary=2'], ['--32'], ['-m', 'elf_i386'], '.long', True)


def sh(cmd, what, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)
    if r.returncode:
        return '%s: %s' % (what, (r.stderr or r.stdout)[-400:])
    return None


def build_harness(t, d):
    objs = []
    for src, extra in (('harness.c', ['-O1', '-ffreestanding', '-fno-builtin', '-fno-pic', '-fno-stack-protector', '-fno-tree-loop-distribute-patterns',
                                      '-fcf-protection=none', '-w']), (t.asm, [])):
        o = os.path.join(d, src + '.o')
        e = sh(['gcc'] + t.cflags + extra + ['-c', os.path.join(NATIVE, src), '-o', o], 'harness')
        if e:
            raise CheckError(e)
        objs.append(o)
    return objs


def words16(h):
    """hex number -> 16-bit words, lowest first"""
    v, n = int(h, 16), len(h) // 4
    return [(v >> (16 * i)) & 0xffff for i in range(n)]


def run_in(run):
    return bytes(run['inp']) + bytes([len(run['orc'])]) + b''.join(b''.join(x.to_bytes(2, 'little') for x in w) for w in run['orc'])


def observe(exe, run, tmo=10):
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_CPU, (4, 4))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (0, 0))
    try:
        r = subprocess.run([exe], input=run_in(run), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo, preexec_fn=lim, env={})
    except subprocess.TimeoutExpired:
        return {'x': 'does not terminate', 'log': [], 'mem': []}
    log, mem, x = [], [], ''
    for l in r.stdout.decode('latin1').splitlines():
        if l[0] == 'C':
            a, s = l[2:].split('|')
            f, *args = a.split()
            log.append([int(f, 16), [w for z in args for w in words16(z)], [list(bytes.fromhex(z)) for z in s.split()]])
        elif l[0] == 'F':
            mem = [[] if z == '-' else list(bytes.fromhex(z)) for z in l[1:].split()]
        elif l[0] == 'X':
            x = FAIL.get(int(l[2:], 16), 'fails')
    if not x and r.returncode < 0:
        x = 'is ended by signal %d' % -r.returncode
    elif not x and r.returncode:
        x = 'exits with status %d' % r.returncode
    return {'x': x, 'log': log, 'mem': mem}


def compile_run(t, harness, d, i, k, asm, p, runs, esc, obs, timing=None):
    """assemble and link one program, run it; returns observations, or an error text"""
    base = os.path.join(d, 'p%d-%d' % (i, k))
    tab = ['\n\t.section .data']
    for nm, l in (('v_esc', esc), ('v_obs', obs)):
        tab.append('\t.balign 8\n\t.globl %s\n%s:' % (nm, nm))
        for g in l:
            tab.append('\t.weak %s\n\t%s %s, %d' % (g.name, t.ptr, g.name, g.ty.size))
        tab.append('\t%s 0, 0' % t.ptr)
    text = open(asm).read()
    tab.append('\t.bss')
    for g in p.globs:       # uninitialised variables the program only declares
        if g.init is None and not g.const and not re.search(r'(?m)^%s:|\.l?comm\s+%s\b' % (g.name, g.name), text):
            tab.append('\t.balign 16\n\t.globl %s\n%s: .skip %d' % (g.name, g.name, g.ty.size))
    with open(asm, 'a') as f:
        f.write('\n'.join(tab) + '\n\t.section .note.GNU-stack,"",@progbits\n')
    e = sh(['as'] + t.asflags + [asm, '-o', base + '.o'], 'the assembler rejects the output')
    if e:
        return e
    e = sh(['ld', '-static', '-z', 'noexecstack'] + t.ldflags + ['-o', base] + harness + [base + '.o'], 'the linker rejects the output')
    if e:
        return e
    res = [observe(base, r) for r in runs]
    os.unlink(base)
    os.unlink(base + '.o')
    return res


def native(chk, lib, t, groups, key='', limit=400, maxbad=6, keepasm=None):
    """groups: list of (backend options, list of plans); a plan: dict(n, scripts, runs, pre, **generator options)"""
    d = tempfile.mkdtemp(dir=scratch_root())
    harness = build_harness(t, d)
    allcases, info, nxt = [], {}, None
    for gk, (opts, plan) in enumerate(groups):
        b = flow.Batch(chk, t.triple, t.pbits, t.ll, opts)
        b.next = nxt or b.next
        if gk == 0:
            modes = b.modes
        b.modes = modes
        for k, pl in enumerate(plan):
            pl = dict(pl)
            n, scripts, nr, pre, mk = pl.pop('n'), pl.pop('scripts'), pl.pop('runs', 3), pl.pop('pre', ('opt 1',)), pl.pop('gen', G.Gen)
            post = pl.pop('post', ())
            rng = random.Random('%s-%s-%d-%d-%d' % (chk.prop, key, gk, k, SEED))
            for j in range(n):
                s = scripts(rng) if callable(scripts) else scripts[j % len(scripts)]
                s = s.split('+') if s else []
                i = b.next
                b.next += 1
                g = mk(i, rng, b.modes, t.pbits, t.ll, nonan=1, **pl)
                while G.dead_cycle(g.p):
                    g = mk(i, rng, b.modes, t.pbits, t.ll, nonan=1, **pl)
                b.progs[i] = (g.p, G.runs(rng, nr))
                b.texts.append((i, g.p.driver_text(pre, ['opt 1'] + ['pass ' + x for x in s] + ['pass lhlall'] + (['pass lmux'] if t.nomux else []) + ['pass ' + x for x in post] + ['pass lowerq', 'emit %s/%d.s' % (d, i)])))
                chk.add('programs')
        b.drive(lib)
        bad = flow.judge_exits(b, chk)
        ids = [i for i in b.progs if i not in bad]
        todo = []
        for i in ids:
            p, runs = b.progs[i]
            esc = [g for g in p.globs if g.name in ('sh', 'ga0')]
            obs = [g for g in p.globs if g.vis == 'e' and not g.const and g.name != 'in' and not g.vol]
            todo.append((t, harness, d, i, 0, '%s/%d.s' % (d, i), p, runs, esc, obs))
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda a: compile_run(*a), todo))
        cases = []
        for i, o in zip(ids, res):
            if isinstance(o, str):
                chk.violation('program %d: %s' % (i, o), {'program': dict(b.texts)[i], 'target': t.triple, 'options': opts})
                continue
            cs = b.case(i, orders=(), limit=limit)
            cs['vers'].append({'tag': 'machine code ' + ' '.join(opts), 'rec': o, 'fns': []})
            chk.add('native_runs', len(o))
            cases.append((i, cs))
        if keepasm:
            for i in ids:
                shutil.copy('%s/%d.s' % (d, i), '%s/%d-%d.s' % (keepasm, gk, i))
                open('%s/%d-%d.txt' % (keepasm, gk, i), 'w').write(dict(b.texts)[i])
        texts = dict(b.texts)
        for i, _ in cases:
            info[i] = (texts[i], opts, b.progs[i])
        allcases += cases
        nxt = b.next
        chk.cov.setdefault('programs_by_options', {})[(' '.join([t.triple] + list(opts)))] = len(cases)
        log('machine code', t.triple, opts, len(cases), 'programs')
    judge(modes, info, chk, allcases, t, d, maxbad)
    shutil.rmtree(d)


def judge(modes, info, chk, cases, t, d, maxbad):
    prints, tl = run_model([cs for _, cs in cases], modes, chk)
    total = {'ok': 0, 'skip': 0, 'bad': 0}
    why = {}
    reports = []
    for kind, i, r, tag, text, n in prints:
        total[kind] += 1
        if kind == 'skip':
            why[text] = why.get(text, 0) + 1
        if kind == 'bad':
            reports.append((i, r, tag, text))
    if len(set((x[1], x[2]) for x in prints)) != sum(len(cs['runs']) for _, cs in cases):
        raise CheckError('not every run reached an end\n' + tl.out[-2000:])
    for i, r, tag, text in sorted(reports)[:maxbad]:
        ptext, opts, (p, runs) = info[i]
        asm = open('%s/%d.s' % (d, i)).read()
        chk.violation('program %d, input %d: "%s" differs from the program: %s' % (i, r, tag, text[:400]),
                      {"program": ptext, "target": t.triple, 'options': opts, 'run': runs[r - 1], 'version': tag, 'text': text, 'assembly': asm})
    chk.add('runs_compared', total['ok'])
    chk.add('runs_skipped_undefined', total['skip'])
    chk.cov['skip_reasons'] = {**chk.cov.get('skip_reasons', {}), **why}
