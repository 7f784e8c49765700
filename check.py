#!/usr/bin/env python3
"""check.py C04 [quick|thorough] [--record] [--jobs N] [--only SUBSTR] [--list]

Decides one property: compiles its harnesses together with /repo's current
headers to LLVM IR, executes the IR symbolically (engine/cosym), replays every
counterexample and a sample of the explored paths natively against the real
code, and writes evidence/<id>.json.
Exit 0: held on everything explored. 1: VIOLATION. 2: no answer.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from registry import REG, ASSUMPTIONS, MODES  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
INC = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'harness')]
T0 = time.time()
WRAP = ['-Wl,--wrap=malloc,--wrap=free,--wrap=mmap,--wrap=munmap,--wrap=make_fcontext']
RACE_WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('memcpy', 'memmove', 'memset', '_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv', '_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv', '__cxa_guard_acquire', '__cxa_guard_release', 'pthread_mutex_lock',
                                                       'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_once'))]
LIBS = ['-lboost_context', '-lpthread']
DEADLINE = {'quick': 800.0, 'thorough': 6 * 3600.0}
print_lock = threading.Lock()


def say(*a):
    with print_lock:
        print(*a, flush=True)


def run(cmd, timeout, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b'').decode('utf-8', 'replace') + '\n(timeout)'


# ------------------------------------------------------------------ engine
def engine():
    src = [os.path.join(HERE, 'engine', f) for f in ('cosym.cpp', 'cosym.h')]
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:16]
    build = os.path.join(HERE, 'build')
    os.makedirs(build, exist_ok=True)
    exe = os.path.join(build, 'cosym-' + h)
    with open(os.path.join(build, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            rc, out = run(['g++', '-std=c++17', '-O2', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', '-D__STDC_LIMIT_MACROS',
                           src[0], '-o', exe + '.tmp', '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'], 600)
            if rc:
                say('engine does not build:\n' + out[-3000:])
                sys.exit(2)
            os.rename(exe + '.tmp', exe)
    return exe


# ------------------------------------------------------------------ jobs
class Job:
    def __init__(self, harness, mode, defs, note=''):
        self.harness, self.mode, self.defs = harness, mode, tuple(defs)
        self.key = ' '.join([harness, mode] + ['%s=%s' % d for d in self.defs])
        self.vk = dict(self.defs).get('VK', 0)
        self.flags = list(MODES[mode]) + ['-DP_%s=%s' % d for d in self.defs]
        self.src = os.path.join(HERE, 'harness', harness + '.cpp')
        self.res = None
        self.error = None
        self.reduced = None
        self.validated = 0
        self.mismatch = []
        self.native_fail = []


class Runner:
    def __init__(self, exe, tmp, tier, seed, prop):
        self.exe, self.tmp, self.tier, self.seed, self.prop = exe, tmp, tier, seed, prop
        self.native_lock = threading.Lock()
        self.native_futs = {}

    def path(self, job, ext):
        return os.path.join(self.tmp, hashlib.md5(job.key.encode()).hexdigest()[:12] + ext)

    def left(self):
        return DEADLINE[self.tier] - (time.time() - T0)

    # ---- native builds of the same harness, cached
    def native(self, job, variant):
        key = (job.key, variant)
        with self.native_lock:
            f = self.native_futs.get(key)
            if f is None:
                f = self.native_futs[key] = cf.Future()
                mine = True
            else:
                mine = False
        if not mine:
            return f.result()
        opts = {'O3': ['-O3'], 'O0': ['-O0'],
                'san': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '--param', 'asan-stack=0', '-DNO_SIGNALS'],
                'race': ['-O1', '-g', '-DNO_SIGNALS'],
                'vg': ['-O1', '-g', '-DNO_SIGNALS']}[variant]
        out = self.path(job, '.' + variant)
        base = ['g++', '-w'] + opts + job.flags + INC
        if variant == 'race':      # instrumented for data races, with a runtime of our own
            rc, txt = run(base + ['-fsanitize=thread', '-c', job.src, '-o', out + '.o'], 300)
            if rc == 0:
                rc, txt = run(base + WRAP + RACE_WRAP + [out + '.o', os.path.join(HERE, 'replay', 'replay_rt.cpp'), os.path.join(HERE, 'replay', 'race_rt.cpp'), '-o', out] + LIBS, 300)
        else:
            rc, txt = run(base + WRAP + [job.src, os.path.join(HERE, 'replay', 'replay_rt.cpp'), '-o', out] + LIBS, max(60, min(300, self.left())))
        r = (None, txt) if rc else (out, '')
        f.set_result(r)
        return r

    def execute(self, job, variant, tape, strict, poison=None, timeout=60):
        exe, txt = self.native(job, variant)
        if not exe:
            return 14, txt
        env = dict(os.environ)
        if poison is not None:
            env['REPLAY_POISON'] = str(poison)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=98:detect_stack_use_after_return=0:allocator_may_return_null=1'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=0'
        cmd = [exe, tape] + ([] if strict else ['free'])
        if variant == 'vg':
            cmd = ['valgrind', '-q', '--error-exitcode=97', '--undef-value-errors=yes', '--max-stackframe=100000000'] + cmd
        return run(cmd, timeout, env)

    # ---- one job: IR, symbolic execution, trace validation
    def go(self, job):
        try:
            self.symbolic(job)
            if job.error is None and job.res['samples']:
                self.validate(job)
        except Exception as e:  # noqa: BLE001
            job.error = 'internal: %r' % (e,)
        return job

    def symbolic(self, job):
        bc, obc, js = self.path(job, '.bc'), self.path(job, '.o.bc'), self.path(job, '.json')
        compile_ = lambda: run(['clang++-18'] + job.flags + INC + ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-w', '-include', os.path.join(HERE, 'harness', 'pre.hpp'), '-DSYMBOLIC=1',
                                                          '-emit-llvm', '-c', job.src, '-o', bc], 300)
        rc, txt = compile_()
        if rc:      # without the parts that need more from the interface than the rest; what they decide stays open
            job.reduced = txt[:3000]
            job.flags.append('-DP_PLAIN=1')
            rc, txt2 = compile_()
        if rc:
            job.error = 'the harness does not compile against /repo:\n' + txt[:3000]
            return
        rc, txt = run(['opt-18', '-passes=sroa', bc, '-o', obc], 120)
        if rc:
            job.error = 'opt: ' + txt[:500]
            return
        limit = max(5.0, self.left() - 60)
        steps = ['--steps=200000000'] if int(dict(job.defs).get('LEN', 0)) > 1000 else []
        dump = []
        if self.tier == 'thorough':
            d = self.path(job, '.smt')
            os.makedirs(d, exist_ok=True)
            dump = ['--dump-smt=' + d, '--dump-every=101']
        rc, txt = run([self.exe, obc, '--out=' + js, '--repo=' + REPO.rstrip('/') + '/', '--time=%.0f' % limit] + steps + dump, limit + 40)
        os.unlink(bc)
        os.unlink(obc)
        try:
            job.res = json.load(open(js))
        except (OSError, ValueError):
            job.error = 'engine failed (%s): %s' % (rc, txt[-800:])
            return
        if rc not in (0, 1, 3):
            job.error = 'engine exit %s: %s' % (rc, txt[-800:])
        job.cross = None
        if dump:
            job.cross = self.cross(self.path(job, '.smt'))

    def cross(self, d):
        """second solver on a sample of the very same queries"""
        agree = differ = unknown = 0
        files = sorted(os.listdir(d))
        random.Random(self.seed).shuffle(files)
        for f in files[:60]:
            p = os.path.join(d, f)
            want = open(p).readline().split()[-1]
            rc, txt = run(['cvc5', '--tlimit=20000', p], 40)
            got = txt.strip().split('\n')[-1] if txt.strip() else ''
            if '(error' in txt or got not in ('sat', 'unsat'):
                unknown += 1
            elif got == want:
                agree += 1
            else:
                differ += 1
        shutil.rmtree(d, ignore_errors=True)
        return {'agree': agree, 'differ': differ, 'unknown': unknown}

    def tape(self, job, inputs, tag):
        p = self.path(job, '.%s.tape' % tag)
        with open(p, 'w') as f:
            for n, v in inputs:
                f.write('%s\t%d\n' % (n, v))
        return p

    def validate(self, job):
        s = job.res['samples']
        rnd = random.Random("%d %s" % (self.seed, job.key))
        rnd.shuffle(s)
        hung = 0
        for i, smp in enumerate(s[:24 if self.tier == 'quick' else 64]):
            t = self.tape(job, smp['inputs'], 's%d' % i)
            rc, txt = self.execute(job, 'O3', t, True, timeout=20)
            if rc == 14:
                job.error = 'native build of the harness failed: ' + txt[:1500]
                return
            if rc == -99:
                hung += 1
                if hung == 2:
                    job.mismatch.append((smp['inputs'], rc, 'does not terminate natively'))
                    return
            obs = [int(x[4:]) for x in txt.split('\n') if x.startswith('OBS ')]
            if rc == 0 and obs == smp['obs']:
                job.validated += 1
            elif rc in (10, 11, -11, -6):
                rc2, txt2 = self.execute(job, 'O3', t, True)
                if rc2 == rc:
                    job.native_fail.append((smp['inputs'], t, rc, txt))
                else:
                    job.mismatch.append((smp['inputs'], rc, txt[-400:]))
            else:
                job.mismatch.append((smp['inputs'], rc, txt[-400:]))
            os.unlink(t) if rc == 0 else None

    # ---- replay of a counterexample
    def replay(self, job, v):
        tape = self.tape(job, v['inputs'], 'cex')
        plans = [('O3', None), ('O0', None), ('O3', 170), ('O0', 170), ('O3', 255), ('san', None), ('vg', None)]
        if v['kind'] == 'race':
            plans = [('race', None)]
        log = []
        for variant, poison in plans:
            hang = v['kind'] == 'hang'
            rc, txt = self.execute(job, variant, tape, False, poison, 20 if hang else 120 if variant == 'vg' else 60)
            log.append((variant, poison, rc, txt[-600:]))
            hit = rc in (10, 11, -11, -6, -4, -7, -8)
            if hang:
                hit = rc in (-99, 11, -11)
            if variant == 'san' and not hang:
                hit = hit or rc == 98 or 'AddressSanitizer' in txt or 'runtime error:' in txt or rc in (1, 134, -6)
            if variant == 'vg' and not hang:
                hit = hit or rc == 97
            if hit:
                return variant, poison, rc, txt, tape, log
        return None, None, None, None, tape, log


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    f = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    return [k for k in json.load(open(f)) if k['property'] == prop and k['status'] == 'known']


def match_known(known, job, v):
    for k in known:
        if k['harness'] == job.harness and job.vk in k['value_kinds'] and v['kind'] == 'check' and v['msg'] == k['message']:
            return k
    return None


def write_replay(prop, n, job, v, r, runner):
    variant, poison, rc, txt, tape, log = r
    d = os.path.join(HERE, 'evidence', 'replay', prop, str(n))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(tape, os.path.join(d, 'tape'))
    opts = {'O3': '-O3', 'O0': '-O0', 'san': '-O1 -g -fsanitize=address,undefined --param asan-stack=0 -DNO_SIGNALS', 'vg': '-O1 -g -DNO_SIGNALS',
            'race': '-O1 -g -DNO_SIGNALS'}[variant]
    with open(os.path.join(d, 'replay.sh'), 'w') as f:
        f.write('#!/bin/sh\n# replays the counterexample natively against %s\nset -e\nd=$(cd "$(dirname "$0")" && pwd)\n' % REPO)
        if variant == 'race':
            f.write('g++ -w %s %s %s -fsanitize=thread -c %s -o "$d/h.o"\n' % (opts, ' '.join(job.flags), ' '.join(INC), job.src))
            f.write('g++ -w %s %s %s "$d/h.o" %s %s -o "$d/prog" %s\n' % (opts, WRAP[0], RACE_WRAP[0], os.path.join(HERE, 'replay', 'replay_rt.cpp'),
                                                                         os.path.join(HERE, 'replay', 'race_rt.cpp'), ' '.join(LIBS)))
        else:
            f.write('g++ -w %s %s %s %s %s %s -o "$d/prog" %s\n' % (opts, ' '.join(job.flags), ' '.join(INC), WRAP[0], job.src,
                                                             os.path.join(HERE, 'replay', 'replay_rt.cpp'), ' '.join(LIBS)))
        f.write('%sexec %s"$d/prog" "$d/tape" free\n' % ('REPLAY_POISON=%d ' % poison if poison is not None else '',
                                                        'valgrind -q --error-exitcode=97 ' if variant == 'vg' else ''))
    os.chmod(os.path.join(d, 'replay.sh'), 0o755)
    with open(os.path.join(d, 'violation.json'), 'w') as f:
        json.dump({'property': prop, 'job': job.key, 'kind': v['kind'], 'message': v['msg'], 'inputs': v['inputs'],
                   'backtrace': v['bt'], 'native': {'variant': variant, 'poison': poison, 'exit': rc, 'output': txt[-2000:]}}, f, indent=1)
    return os.path.join(d, 'replay.sh')


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--setup' in sys.argv[1:]:
        engine()
        say('engine built')
        return 0
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    opt = {}
    for a in sys.argv[1:]:
        if a.startswith('--'):
            k, _, v = a[2:].partition('=')
            opt[k] = v
    nworkers = int(opt.get('jobs', 0)) or min(8, os.cpu_count() or 4)
    reg = REG[prop]
    jobs = [Job(*j) for j in reg['jobs'](tier)]
    if 'only' in opt:
        jobs = [j for j in jobs if opt['only'] in j.key]
    if 'every' in opt:            # development aid: a part of the jobs
        k = int(opt['every'])
        jobs = [j for i, j in enumerate(jobs) if (i + len(j.key)) % k == 0]
    if 'list' in opt:
        for j in jobs:
            print(j.key)
        return 0
    exe = engine()
    tmp = tempfile.mkdtemp(prefix='cosym-%s-' % prop)
    try:
        return decide(prop, tier, seed, opt, nworkers, reg, jobs, exe, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, opt, nworkers, reg, jobs, exe, tmp):
    runner = Runner(exe, tmp, tier, seed, prop)
    with cf.ThreadPoolExecutor(nworkers) as ex:
        futs = [ex.submit(runner.go, j) for j in jobs]
        for f in cf.as_completed(futs):
            j = f.result()
            if 'verbose' in opt:
                r = j.res or {}
                say('%-60s %s paths=%s insts=%s q=%s wall=%.1f val=%d viol=%d %s %s' % (
                    j.key, j.error or '', r.get('paths'), r.get('instructions'), r.get('queries'), r.get('wall_s', 0), j.validated,
                    len(r.get('violations', [])), r.get('incomplete', ''), 'MISMATCH' if j.mismatch else ''))
    known = known_findings(prop)
    known_seen, real, unreproduced, problems = {}, [], [], []

    # counterexamples: one or two per distinct message and job are replayed
    todo = []
    for j in jobs:
        if j.error:
            problems.append('%s: %s' % (j.key, j.error))
            continue
        per = {}
        for v in j.res['violations']:
            k = (v['kind'], v['msg'])
            per.setdefault(k, []).append(v)
        for k, vs in per.items():
            todo.append((j, vs[:3]))

    def confirm(item):
        j, vs = item
        last = None
        for v in vs:
            r = runner.replay(j, v)
            last = (j, v, r)
            if r[0]:
                return True, last
        return False, last
    # same message in many jobs: confirm in at most 4 of them, unless it does not reproduce
    groups = {}
    for j, vs in todo:
        groups.setdefault((vs[0]['kind'], vs[0]['msg'], bool(match_known(known, j, vs[0]))), []).append((j, vs))
    with cf.ThreadPoolExecutor(nworkers) as ex:
        for k, items in groups.items():
            pick = items[:4] if len(items) > 4 else items
            for ok, (j, v, r) in ex.map(confirm, pick):
                if ok:
                    m = match_known(known, j, v)
                    if m:
                        known_seen.setdefault(m['id'], []).append(j.key)
                    else:
                        real.append((j, v, r))
                elif v['kind'] == 'hang':      # the bound on steps was too small
                    problems.append('%s: the bound on steps was reached: %s' % (j.key, v['inputs']))
                else:
                    unreproduced.append((j, v, r))
    # paths the solver accepted but whose native run fails the same assertions
    for j in jobs:
        for inputs, t, rc, txt in j.native_fail[:2]:
            m = re.search(r'CHECK-FAILED: (.*)', txt)
            v = {'kind': 'native', 'msg': m.group(1) if m else 'native run of an explored path fails: ' + txt.strip()[-200:], 'inputs': inputs, 'bt': []}
            if not match_known(known, j, dict(v, kind='check')):
                real.append((j, v, ('O3', None, rc, txt, t, [])))
    for j in jobs:
        if j.res and j.res['incomplete'] and not j.res['violations']:
            problems.append('%s: incomplete: %s' % (j.key, j.res['incomplete']))
        if j.mismatch and not j.res['violations']:
            problems.append('%s: native run of an explored path differs: %r' % (j.key, j.mismatch[0]))
        c = getattr(j, 'cross', None)
        if c and c['differ']:
            problems.append('%s: cvc5 disagrees with z3 on %d queries' % (j.key, c['differ']))

    # vacuity: every reachability witness recorded for this job must be reached
    cov_file = os.path.join(HERE, 'tools', 'witnesses.json')
    wit = json.load(open(cov_file)) if os.path.exists(cov_file) else {}
    if 'record' in opt:
        for j in jobs:
            if j.res and not j.error:
                wit[j.key] = sorted(j.res['covers'])
        with open(cov_file, 'w') as f:
            json.dump(wit, f, indent=0, sort_keys=True)
            f.write('\n')
    known_of = {}       # per harness: the witnesses of its recorded jobs
    for q in reg['jobs']('quick') if tier == 'thorough' else ():
        q = Job(*q)
        known_of.setdefault(q.harness, set()).update(wit.get(q.key, ()))
    open_of = {}
    for j in jobs:
        if j.error or j.res['violations']:
            continue
        if j.key not in wit and tier == 'thorough':     # deeper than what was recorded: the harness as a whole has to reach everything
            open_of.setdefault(j.harness, []).append(j)
            miss = set() if j.res['covers'] or not known_of.get(j.harness) else {'anything'}
        else:
            miss = set(wit.get(j.key, ['<no witnesses recorded>'])) - set(j.res['covers'])
        if miss:
            problems.append('%s: vacuous, not reached: %s' % (j.key, ', '.join(sorted(miss))))
        if j.res['checks'] == 0:
            problems.append('%s: vacuous, no assertion evaluated' % j.key)
    for h in open_of:
        if 'every' not in opt and not any(j.error or j.res['violations'] for j in jobs if j.harness == h):
            miss = known_of.get(h, set()) - set(c for j in jobs if j.harness == h for c in j.res['covers'])
            if miss:
                problems.append('%s: vacuous, not reached by any job: %s' % (h, ', '.join(sorted(miss))))

    for j in jobs:
        if j.reduced and not j.error:
            problems.append('%s: parts of the harness do not compile against /repo: %s' % (j.key, j.reduced[:600]))

    evidence(prop, tier, seed, reg, jobs, known_seen, real, unreproduced, problems, runner)
    if os.path.isdir(os.path.join(HERE, 'evidence', 'replay', prop)):
        shutil.rmtree(os.path.join(HERE, 'evidence', 'replay', prop), ignore_errors=True)
    if real:
        seen = set()
        n = 0
        for j, v, r in real:
            if v['msg'] in seen or n >= 8:
                continue
            seen.add(v['msg'])
            p = write_replay(prop, n, j, v, r, runner)
            n += 1
            say('VIOLATION property=%s replay=%s' % (prop, p))
            say('  %s [%s] in %s, native run %s: exit %s' % (v['msg'], v['kind'], j.key, r[0], r[2]))
            say('  inputs: %s' % ' '.join('%s=%s' % (a, b) for a, b in v['inputs'])[:600])
            for b in v['bt'][:6]:
                say('    at %s' % b[:200])
        return 1
    for k in known:
        if k['id'] in known_seen:
            say('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else:
            say('note: known finding %s did not occur in this run' % k['id'])
    if unreproduced:
        for j, v, r in unreproduced[:5]:
            say('UNREPRODUCED counterexample in %s: %s: %s %s' % (j.key, v['kind'], v['msg'], v['inputs']))
            for b in v['bt'][:5]:
                say('    at %s' % b[:200])
            for x in r[5]:
                say('    native %s poison=%s exit=%s %s' % (x[0], x[1], x[2], x[3][-160:].replace('\n', ' | ')))
        return 2
    if problems:
        # jobs without a verdict: named, and the run gives no answer unless the large majority was decided
        bad = len(set(p.split(': ')[0] for p in problems))
        few = bad * 4 <= len(jobs) and not os.environ.get('VERIF_STRICT')
        for p in problems[:8]:
            say(('note: undecided: ' if few else 'NO ANSWER: ') + p[:1500])
        if not few:
            return 2
        say('%d of %d jobs undecided; the property held on everything else' % (bad, len(jobs)))
    tot = sum(j.res['paths'] for j in jobs)
    say('%s holds: %d jobs, %d paths, %d solver queries (%.1f s), %d traces validated natively, %.0f s'
        % (prop, len(jobs), tot, sum(j.res['queries'] for j in jobs), sum(j.res['solver_s'] for j in jobs),
           sum(j.validated for j in jobs), time.time() - T0))
    return 0


def evidence(prop, tier, seed, reg, jobs, known_seen, real, unreproduced, problems, runner):
    ok = [j for j in jobs if j.res and not j.error]
    S = lambda k: sum(j.res[k] for j in ok)  # noqa: E731
    funcs = sorted(set(f for j in ok for f in j.res['repo_functions']))
    names = sorted(set(re.sub(r'<.*', '', re.sub(r'\(.*', '', f.replace('(anonymous namespace)', ''))) for f in funcs))
    lines = {}
    for j in ok:
        for f, l in j.res['repo_lines'].items():
            e = lines.setdefault(f[len(REPO.rstrip('/')) + 1:], [set(), set()])
            e[0].update(l['reached'])
            e[1].update(l['reached'])
            e[1].update(l['not_reached'])
    samples = []
    for j in ok[::max(1, len(ok) // 6)][:6]:
        for s in j.res['samples'][-1:]:
            samples.append({'job': j.key, 'inputs': dict((a, b) for a, b in s['inputs']), 'observations': s['obs'][:12]})
    cross = {'agree': 0, 'differ': 0, 'unknown': 0}
    for j in ok:
        for k, v in (getattr(j, 'cross', None) or {}).items():
            cross[k] += v
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': S('states'), 'transitions': S('instructions'),
            'traces_validated_against_impl': sum(j.validated for j in ok),
            'samples': samples,
            'method': 'bounded symbolic execution of LLVM IR compiled from /repo on this run; feasibility of every branch and every assertion decided by z3 (QF_BV)',
            'counts_mean': 'states: symbolic states run to their end (one per explored path, each standing for all inputs of its path condition); transitions: IR instructions executed symbolically',
            'forks': S('forks'), 'context_switches': S('switches'),
            'assertions_evaluated': S('checks'),
            'assertions_with_symbolic_condition_sent_to_solver': S('symbolic_checks'),
            'symbolic_comparisons_decided_by_term_simplification': S('folded_comparisons'),
            'queries': S('queries'), 'queries_sat': S('sat'), 'queries_unsat': S('unsat'), 'solver_s': round(S('solver_s'), 2),
            'cvc5_cross_check': cross if tier == 'thorough' else 'thorough tier only',
            'bounds': reg['bounds'][tier] if isinstance(reg['bounds'], dict) else reg['bounds'],
            'outside': reg.get('outside', ''),
            'exhaustive_within_bounds': not problems and all(not j.res['incomplete'] for j in ok) and len(ok) == len(jobs),
            'functions_encoded': names, 'functions_encoded_instances': len(funcs),
            'repo_lines_executed': dict((f, {'reached': len(a), 'of_instantiated': len(b), 'not_reached': sorted(b - a)}) for f, (a, b) in sorted(lines.items())),
            'witnesses_reached': dict((j.key, j.res['covers']) for j in ok),
            'jobs': [{'job': j.key, 'paths': j.res['paths'], 'queries': j.res['queries'], 'solver_s': round(j.res['solver_s'], 2),
                      'wall_s': round(j.res['wall_s'], 2), 'validated': j.validated, 'incomplete': j.res['incomplete']} for j in ok],
            'known_findings_seen': dict((k, len(v)) for k, v in known_seen.items()),
            'unreproduced_counterexamples': len(unreproduced), 'problems': [p[:300] for p in problems[:20]],
        },
        'assumptions': ASSUMPTIONS + reg.get('assumptions', []),
        'wall_s': round(time.time() - T0, 2),
        'violations': len(set(v['msg'] for _, v, _ in real)),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(p + '.tmp', p)


if __name__ == '__main__':
    sys.exit(main())
