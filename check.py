#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current code (see DESIGN.md).

  check.py run C01 [--tier quick|thorough] [--job NAME] [-v]
  check.py replay FILE          re-run a reported counterexample against the real code

Exit 0: held on everything explored.  1: VIOLATION line printed (counterexample replayed natively).
2: no verdict (unsupported construct, vacuous run, encoding disagrees with the compiled code).
An INCOMPLETE line names a job whose exploration was cut by its time limit or has queries without an answer: nothing that
was explored violates the property, the evidence says exhaustive=false.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, VERIF)
from registry import CHECKS  # noqa: E402

CXX = 'clang++-18'
PARALLEL = 4  # jobs whose symbolic runs go on at the same time
INC = ['-I' + VERIF + '/rt', '-I' + VERIF + '/harness', '-I' + REPO + '/Code/Json4C4', '-I' + REPO + '/Code/Terathon']
SYMFLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize', '-emit-llvm', '-g1',
            '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w']
NATFLAGS = ['-std=c++17', '-O1', '-g1', '-w', '-fsanitize=address', '-fsanitize=unreachable,return,shift-exponent,integer-divide-by-zero',
            '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
PLAINFLAGS = ['-std=c++17', '-O1', '-g1', '-w']
SYSCALLS = ['open', 'open64', 'openat', 'creat', 'close', 'read', 'write', 'pread', 'pwrite', 'fstat', 'stat', 'lseek', 'ftruncate', 'fsync',
            'unlink']
ENGINE_MODEL = [
    'loops and recursion are not cut: every feasible path of the harness is run to its end (an instruction limit and a call-depth limit report a violation, never a pass)',
    'memory model: every object is separate; out-of-bounds, freed, uninitialised and mismatched accesses are reported',
    'strtod/snprintf are modelled: exact for concrete text and for up to 15 digits, otherwise an uninterpreted function of the text; text printed by snprintf reads back as the printed value (all 17 digits) or without its low bits (fewer)',
    'allocation succeeds unless the harness makes it fail; requests over 64 MB fail',
    'file system: in-memory model of open/read/write/fstat/lseek/close (rt/rt_common.cpp)',
    'clang 18 x86-64 -O1 front end without optimisation passes, then sroa/early-cse/simplifycfg; Linux code paths only']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


class Broken(Exception):
    pass


def must(cmd, what, **kw):
    r = sh(cmd, **kw)
    if r.returncode != 0:
        raise Broken(what + ' failed:\n' + r.stderr[-3000:])
    return r


def repo_sources():
    s = sorted(glob.glob(REPO + '/Code/Json4C4/*.cpp') + glob.glob(REPO + '/Code/Terathon/*.cpp'))
    if not s:
        raise Broken('no sources found in ' + REPO)
    return s


class Build:
    """Everything one run needs, in a scratch directory."""

    def __init__(self, work):
        self.w = work
        self.pool = cf.ThreadPoolExecutor(8)
        self.objs = {}
        self.lock = threading.Lock()

    def key(self, flags):
        return re.sub(r'[^A-Za-z0-9]', '_', '_'.join(flags)) or 'base'

    def compile(self, flags, src, out):
        must([CXX] + flags + INC + ['-c', src, '-o', out], 'compiling ' + src)
        return out

    def base(self, kind, cfg):
        """future list of the repo's and the runtime's objects for kind in sym/nat/plain"""
        with self.lock:
            return self.base_(kind, cfg)

    def base_(self, kind, cfg):
        k = (kind, tuple(cfg))
        if k in self.objs:
            return self.objs[k]
        d = os.path.join(self.w, kind + '_' + self.key(cfg))
        os.makedirs(d)
        fl = {'sym': SYMFLAGS, 'nat': NATFLAGS, 'plain': PLAINFLAGS}[kind] + list(cfg)
        ext = '.bc' if kind == 'sym' else '.o'
        jobs = []

        def one(src):
            o = os.path.join(d, re.sub(r'[^A-Za-z0-9]', '_', src) + ext)
            self.compile(fl, src, o)
            if kind != 'sym':
                a = ['objcopy']
                for s in SYSCALLS:
                    a += ['--redefine-sym', s + '=vf_' + s]
                must(a + [o], 'objcopy')
            return o
        for s in repo_sources():
            jobs.append(self.pool.submit(one, s))
        jobs.append(self.pool.submit(self.compile, fl, VERIF + '/rt/rt_common.cpp', os.path.join(d, 'rt_common' + ext)))
        if kind == 'sym':
            jobs.append(self.pool.submit(self.compile, fl + ['-fno-builtin', '-D__NO_INLINE__'], VERIF + '/rt/rt_sym.cpp', os.path.join(d, 'rt_sym' + ext)))
        else:
            jobs.append(self.pool.submit(self.compile, fl, VERIF + '/rt/rt_native.cpp', os.path.join(d, 'rt_native' + ext)))
        self.objs[k] = jobs
        return jobs

    def jobflags(self, job):
        return ['-D%s=%s' % (k, v) for k, v in job.get('defs', {}).items()]

    def sym(self, job):
        base = self.base('sym', job.get('cfg', []))
        d = os.path.join(self.w, 'j_' + job['name'])
        os.makedirs(d, exist_ok=True)
        h = self.compile(SYMFLAGS + list(job.get('cfg', [])) + self.jobflags(job), VERIF + '/harness/' + job['src'], d + '/h.bc')
        objs = [f.result() for f in base] + [h]
        must(['llvm-link-18'] + objs + ['-o', d + '/l.bc'], 'llvm-link')
        must(['opt-18', '-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,instsimplify),globaldce',
              '--internalize-public-api-list=vf_main', d + '/l.bc', '-o', d + '/a.bc'], 'opt')
        return d + '/a.bc'

    def native(self, job, kind='nat'):
        base = self.base(kind, job.get('cfg', []))
        d = os.path.join(self.w, 'j_' + job['name'])
        os.makedirs(d, exist_ok=True)
        fl = (NATFLAGS if kind == 'nat' else PLAINFLAGS) + list(job.get('cfg', []))
        h = self.compile(fl + self.jobflags(job), VERIF + '/harness/' + job['src'], d + '/h_%s.o' % kind)
        exe = d + '/replay_' + kind
        must([CXX] + fl + [f.result() for f in base] + [h, '-o', exe], 'linking replay')
        return exe


def write_input(path, ins):
    with open(path, 'w') as f:
        for n, h in ins:
            f.write('%s %s\n' % (n, h))


def run_native(exe, inp, tmo=20, valgrind=False, leak=False):
    cmd = [exe, inp]
    env = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0', UBSAN_OPTIONS='exitcode=98')
    if leak:
        env['VF_LEAK'] = '1'
    if valgrind:
        cmd = ['valgrind', '-q', '--error-exitcode=97', '--undef-value-errors=yes', '--leak-check=no'] + cmd
    try:
        r = sh(cmd, timeout=tmo, env=env)
    except subprocess.TimeoutExpired:
        return ('bad', 'does not terminate within %d s' % tmo)
    out = r.stdout.strip()
    if r.returncode == 0:
        m = re.search(r'VF-OBS ([0-9a-f]+)', out)
        return ('ok', m.group(1) if m else '')
    if r.returncode in (3, 4, 2, 5, 6):
        return ('diverge', out)
    if r.returncode in (10, 11, 12, 13, 14):
        return ('bad', out.splitlines()[-1] if out else 'exit %d' % r.returncode)
    if r.returncode == 97:
        return ('bad', 'valgrind: ' + ' '.join(r.stderr.strip().splitlines()[:1]))
    m = re.search(r'ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*', r.stderr)
    return ('bad', m.group(0) if m else 'ends with status %d' % r.returncode)


def show_inputs(ins):
    o = []
    for n, h in ins:
        b = bytes.fromhex(h)
        if len(b) <= 2 or n.startswith('n_'):
            o.append('%s=%d' % (n, int.from_bytes(b, 'little')))
        else:
            o.append('%s=%r' % (n, b))
    return ' '.join(o)[:600]


def merge(prefix):
    t = {}
    files = sorted(glob.glob(prefix + '.*'))
    keys = ['paths', 'forks', 'insts', 'infeasible', 'asserts', 'asserts_symbolic', 'assumes', 'mem_checks', 'mem_symbolic', 'queries', 'z3_calls',
            'cache_hits', 'sat', 'unsat', 'unknown', 'fallback', 'refinements', 'z3_time']
    t = {k: 0 for k in keys}
    t.update(reached={}, functions=set(), unsupported=[], samples=[], violations=[], timed_out=False, z3_max=0)
    for f in files:
        d = json.load(open(f))
        for k in keys:
            t[k] += d[k]
        t['z3_max'] = max(t['z3_max'], d['z3_max'])
        t['timed_out'] |= d['timed_out']
        t['functions'] |= set(d['functions'])
        t['unsupported'] += d['unsupported']
        t['samples'].append(d['samples'])
        t['violations'] += d['violations']
        for k, v in d['reached'].items():
            t['reached'][k] = t['reached'].get(k, 0) + v
    # interleave the samples of the workers
    s = []
    for i in range(max([len(x) for x in t['samples']] + [0])):
        s += [x[i] for x in t['samples'] if i < len(x)]
    t['samples'] = s
    return t


def demangle(names):
    r = sh(['c++filt'], input='\n'.join(names))
    return r.stdout.split('\n') if r.returncode == 0 else names


def run_check(pid, tier, only, verbose):
    t0 = time.time()
    chk = CHECKS[pid]
    jobs = [j for j in chk['jobs'] if j.get('tier', tier) == tier and (not only or j['name'] in only)]
    must(['bash', VERIF + '/engine/build.sh'], 'building the engine')
    os.makedirs(VERIF + '/build', exist_ok=True)
    work = tempfile.mkdtemp(prefix='run.%s.' % pid, dir=VERIF + '/build')
    ev = VERIF + '/evidence'
    os.makedirs(ev, exist_ok=True)
    out = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking')
    tot = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    agg = {}
    funcs = set()
    perjob = []
    problems, viols, undecided = [], [], []
    try:
        b = Build(work)
        symf, natf = {}, {}
        jp = cf.ThreadPoolExecutor(8)
        for j in jobs:
            symf[j['name']] = jp.submit(b.sym, j)
        for j in jobs:
            natf[j['name']] = jp.submit(b.native, j)
        stop = threading.Event()
        lk = threading.Lock()

        def do_job(j):
            if stop.is_set():
                return
            n = j['name']
            try:
                bc = symf[n].result()
                exe = natf[n].result()
            except Broken as e:
                problems.append('%s: %s' % (n, e))
                return
            pre = os.path.join(work, 'j_' + n, 'res')
            leak = j.get('leak', chk.get('leak', False))
            tl = j.get('time', 240 if tier == 'quick' else 3600)
            if tier == 'quick':
                tl = int(max(20, min(tl, 600 - (time.time() - t0))))
            cmd = [VERIF + '/build/llsym', '--out', pre, '--time', str(tl), '--workers', str(j.get('workers', 8)), '--seeds', str(j.get('seeds', 160)),
                   '--samples', str(j.get('samples', 8)), '--max-inst', str(j.get('maxinst', 3000000)), '--mem', '3000'] + (['--leak'] if leak else []) + j.get('opts', []) + [bc]
            ts = time.time()
            r = sh(cmd)
            wall = time.time() - ts
            if r.returncode not in (0, 3):
                problems.append('%s: engine ended with status %d: %s' % (n, r.returncode, r.stderr[-400:]))
                return
            m = merge(pre)
            with lk:
                for k in ('paths', 'forks', 'insts', 'infeasible', 'asserts', 'asserts_symbolic', 'mem_checks', 'mem_symbolic', 'queries', 'z3_calls', 'cache_hits', 'sat', 'unsat', 'unknown', 'z3_time'):
                    agg[k] = agg.get(k, 0) + m[k]
            funcs.update(m['functions'])
            # validate sampled paths against the compiled code
            val = 0
            lim = j.get('validate', 24)
            inputs = []
            for i, s in enumerate(m['samples'][:lim]):
                p = os.path.join(work, 'j_' + n, 's%d.in' % i)
                write_input(p, s['in'])
                inputs.append((p, s))
            with cf.ThreadPoolExecutor(8) as tp:
                rs = list(tp.map(lambda x: run_native(exe, x[0], 30, False, leak), inputs))
            for (p, s), (st, msg) in zip(inputs, rs):
                if st == 'ok' and msg == s['obs']:
                    val += 1
                elif not m['violations']:
                    problems.append('%s: encoding and compiled code disagree on %s: %s %s (engine %s)' % (n, show_inputs(s['in']), st, msg, s['obs']))
                if st == 'ok' and len(tot['samples']) < 12:
                    tot['samples'].append({'job': n, 'inputs': show_inputs(s['in'])})
            uns = sorted(set(u for u in m['unsupported'] if not u.startswith('time limit')))
            if uns:
                (undecided if m['reached'] or all(u.startswith('solver unknown') for u in uns) else problems).append('%s: %d paths cannot be followed: %s' % (n, len(uns), '; '.join(uns[:3])))
            if m['timed_out']:
                undecided.append('%s: time limit of %d s' % (n, tl))
            if m['unknown']:
                undecided.append('%s: %d queries without an answer' % (n, m['unknown']))
            if r.returncode == 3 and not m['violations']:
                problems.append('%s: engine worker failed: %s' % (n, r.stderr[-300:]))
            for lab in j.get('reach', []):
                if not m['reached'].get(lab) and not m['violations']:
                    (undecided if m['timed_out'] or uns else problems).append('%s: vacuous: "%s" is never reached' % (n, lab))
            # counterexamples: only what the compiled code reproduces is reported
            seen = set()
            for v in m['violations'][:40]:
                if len(seen) >= 2:
                    break
                p = os.path.join(work, 'j_' + n, 'v.in')
                write_input(p, v['in'])
                vg = v['kind'].startswith('uninit')
                st, msg = run_native(b.native(j, 'plain') if vg else exe, p, 30, vg, leak)
                if st != 'bad':
                    problems.append('%s: %s (%s) at %s not reproduced natively with %s: %s %s' % (n, v['kind'], v['msg'], v['where'][:200], show_inputs(v['in']), st, msg))
                    continue
                if v['msg'] in seen:
                    continue
                seen.add(v['msg'])
                os.makedirs(ev + '/replays', exist_ok=True)
                rp = '%s/replays/%s.%s.%d.json' % (ev, pid, n, len(seen))
                json.dump(dict(property=pid, job=n, kind=v['kind'], message=v['msg'], where=v['where'], native=msg, inputs=v['in'], shown=show_inputs(v['in'])), open(rp, 'w'), indent=1)
                viols.append((rp, '%s: %s %s | native: %s | %s' % (n, v['kind'], v['msg'], msg, show_inputs(v['in']))))
            tot['traces_validated_against_impl'] += val
            perjob.append(dict(job=n, bounds=j.get('bounds', ''), paths=m['paths'], forks=m['forks'], instructions=m['insts'], infeasible_branches=m['infeasible'],
                               assertions=m['asserts'], assertions_decided_by_solver=m['asserts_symbolic'], queries=m['queries'], solver_calls=m['z3_calls'],
                               cached_verdicts=m['cache_hits'], sat=m['sat'], unsat=m['unsat'], unknown=m['unknown'], solver_time_s=round(m['z3_time'], 2),
                               slowest_query_s=m['z3_max'], wall_s=round(wall, 1), validated_traces=val, reached=m['reached'], timed_out=m['timed_out']))
            if verbose:
                print('  %-22s paths %-8d queries %-9d z3 %.1fs wall %.1fs validated %d viol %d %s' % (n, m['paths'], m['queries'], m['z3_time'], wall, val, len(m['violations']), m['reached']), flush=True)
            if viols and not only:
                stop.set()
        with cf.ThreadPoolExecutor(PARALLEL) as ep:
            for f in [ep.submit(do_job, j) for j in jobs]:
                f.result()
        perjob.sort(key=lambda x: x['job'])
    finally:
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
    tot['states'] = agg.get('paths', 0)
    tot['transitions'] = agg.get('insts', 0)
    fl = sorted(x for x in set(demangle(sorted(funcs))) if ('C4::' in x or 'Terathon::' in x))
    tot.update(states_meaning='feasible symbolic paths run to the end', transitions_meaning='IR instructions executed symbolically',
               forks=agg.get('forks', 0), infeasible_branches_pruned=agg.get('infeasible', 0), assertions_checked=agg.get('asserts', 0),
               assertions_decided_by_solver=agg.get('asserts_symbolic', 0), memory_accesses_checked=agg.get('mem_checks', 0),
               queries_discharged=agg.get('queries', 0), solver_calls=agg.get('z3_calls', 0), queries_answered_from_cached_verdicts=agg.get('cache_hits', 0),
               sat=agg.get('sat', 0), unsat=agg.get('unsat', 0), unknown=agg.get('unknown', 0), solver_time_s=round(agg.get('z3_time', 0), 2), solver='z3 4.8.12',
               functions_encoded=fl, functions_encoded_count=len(fl), bounds=chk['bounds'], outside=chk.get('outside', []), jobs=perjob, exhaustive=not problems and not undecided, problems=problems[:20], undecided=undecided[:20])
    out.update(coverage=tot, assumptions=ENGINE_MODEL + chk.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(viols))
    json.dump(out, open('%s/%s.json' % (ev, pid), 'w'), indent=1)
    if not problems and not viols and not any(x['reached'] for x in perjob):
        problems.append('no job reached its end')
    for p in problems:
        print('INCONCLUSIVE property=%s %s' % (pid, p))
    for p in undecided:
        print('INCOMPLETE property=%s %s' % (pid, p))
    for rp, what in viols:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  ' + what)
    if viols:
        return 1
    if problems:
        return 2
    print('OK property=%s tier=%s paths=%d queries=%d validated=%d wall=%.1fs' % (pid, tier, tot['states'], tot['queries_discharged'], tot['traces_validated_against_impl'], time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    chk = CHECKS[d['property']]
    job = [j for j in chk['jobs'] if j['name'] == d['job']][0]
    os.makedirs(VERIF + '/build', exist_ok=True)
    work = tempfile.mkdtemp(prefix='replay.', dir=VERIF + '/build')
    try:
        b = Build(work)
        vg = d['kind'].startswith('uninit')
        exe = b.native(job, 'plain' if vg else 'nat')
        p = work + '/in'
        write_input(p, d['inputs'])
        st, msg = run_native(exe, p, 30, vg, job.get('leak', chk.get('leak', False)))
        print(d['shown'])
        print(st, msg)
        return 1 if st == 'bad' else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('arg')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--job', action='append')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    try:
        if a.cmd == 'run':
            return run_check(a.arg, a.tier, a.job, a.v)
        if a.cmd == 'replay':
            return replay(a.arg)
    except Broken as e:
        print('INCONCLUSIVE property=%s %s' % (a.arg, e))
        return 2
    return 2


if __name__ == '__main__':
    sys.exit(main())
