#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough]

Re-extracts the functions under contract from /repo's current sources, discharges
every obligation, runs the run-time contract checks, writes evidence/<id>.json.
Exit 0: held.  Exit 1: VIOLATION line printed.
"""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, 'contracts'))
sys.setrecursionlimit(20000)
from irv import contract, build  # noqa: E402

REPO = build.REPO
JOBS = 8


def rac_sources(pid):
    src = os.path.join(VERIF, 'rac', pid + '.cc')
    if not os.path.exists(src):
        return None, [], [], 1.0
    head = open(src).read().split('\n')
    srcs, flags, gen = [], [], False
    for l in head[:12]:
        if l.startswith('// SOURCES:'):
            srcs += l.split(':', 1)[1].split()
        if l.startswith('// FLAGS:'):
            flags += l.split(':', 1)[1].split()
        if l.startswith('// ALL-SOURCES'):
            gen = True
    if gen:
        full = "-DCERES_RESTRICT_SCHUR_SPECIALIZATION" not in flags
        d = os.path.join(REPO, 'internal/ceres')
        for f in sorted(os.listdir(d)):
            if f.endswith('.cc') and not re.search(r'(_test|_benchmark|_test_utils|test_util|gmock|numeric_diff_test|main)\.cc$', f) \
                    and 'cuda' not in f and 'fake_' not in f and 'gtest' not in f:
                srcs.append(f)
        g = os.path.join(d, 'generated')
        srcs += sorted('generated/' + f for f in os.listdir(g) if f.endswith('.cc') and (full or f.endswith('_d_d_d.cc')))
    return src, srcs, flags, 1.0


def rac_build(pid, wd):
    """Compile the run-time checker against the real sources; returns binary or error."""
    src, srcs, flags, _ = rac_sources(pid)
    if src is None:
        return None, None
    inc = ['-I%s/shim' % VERIF, '-I%s/shim/gen' % VERIF, '-I%s/rac' % VERIF, '-I%s/internal' % REPO,
           '-I%s/include' % REPO, '-I/usr/include/eigen3']
    cc = ['g++', '-std=c++17', '-O1', '-w', '-DCERES_STATIC_DEFINE'] + flags + inc
    objs = []
    jobs = []
    for s in [src] + [os.path.join(REPO, 'internal/ceres', x) for x in srcs]:
        o = os.path.join(wd, 'rac_%d.o' % len(objs))
        objs.append(o)
        jobs.append(cc + ['-c', s, '-o', o])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(lambda j: subprocess.run(j, capture_output=True, text=True), jobs):
            if r.returncode != 0:
                return None, ' '.join(r.args[-3:]) + '\n' + r.stderr[-1500:]
    exe = os.path.join(wd, 'rac')
    r = subprocess.run(['g++', '-o', exe] + objs + [f for f in flags if f.startswith('-f')] +
                       ['-labsl_strings', '-labsl_str_format_internal', '-labsl_strings_internal', '-labsl_throw_delegate',
                        '-labsl_raw_logging_internal', '-labsl_time', '-labsl_time_zone', '-labsl_int128', '-labsl_base',
                        '-labsl_hash', '-labsl_raw_hash_set', '-labsl_city', '-labsl_low_level_hash', '-labsl_hashtablez_sampler',
                        '-labsl_synchronization', '-labsl_spinlock_wait', '-labsl_graphcycles_internal', '-labsl_malloc_internal',
                        '-labsl_stacktrace', '-labsl_symbolize', '-labsl_debugging_internal', '-labsl_demangle_internal',
                        '-labsl_exponential_biased', '-labsl_civil_time', '-labsl_strerror', '-lpthread'],
                       capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-2000:]
    return exe, None


def rac_run(exe, wd, factor, pool=None, seed=None, timeout=300):
    env = dict(os.environ, RAC_FACTOR=str(factor))
    if seed is not None:
        env['VERIF_SEED'] = str(seed)
    env.setdefault('VERIF_SEED', '1')
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=1:handle_segv=0:handle_abort=0'
    cmd = [exe] + (['--pool', pool] if pool else [])
    env['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1'
    try:
        for _ in range(8):      # ThreadSanitizer may refuse an address-space layout; that is no verdict
            p = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=timeout, cwd=wd, errors='replace')
            if 'FATAL: ThreadSanitizer' not in p.stderr or 'SUMMARY cases' in p.stdout:
                break
        else:
            return dict(rc=None, out=p.stdout, err=p.stderr[-3000:], cmd=cmd)
    except subprocess.TimeoutExpired as e:
        return dict(rc=None, out=(e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), cmd=cmd)
    out = p.stdout
    m = re.search(r'SUMMARY cases=(\d+) clauses=(\d+) failures=(\d+)', out)
    return dict(rc=p.returncode, out=out, err=p.stderr[-3000:], cases=int(m.group(1)) if m else 0,
                clauses=int(m.group(2)) if m else 0, failures=int(m.group(3)) if m else None, cmd=cmd)


def known_findings(pid):
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) match=(".*?"|\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2).strip('"'), m.group(3)))
    return out


def _worker(i):
    sys.setrecursionlimit(20000)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    n, u, f, o = contract.REGISTRY[i]
    return contract.run_contract((n, u, f, o, _worker.wd))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    pid, tier = a.pid, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        return go(pid, tier, seed, t0, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def go(pid, tier, seed, t0, wd):
    from props import PROPS
    slug = {x['id']: x['module'] for x in PROPS}[pid]
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rpdir = os.path.join(evdir, 'replay')
    os.makedirs(rpdir, exist_ok=True)
    importlib.import_module(slug)
    mod = sys.modules[slug]
    deadline = t0 + (400 if tier == 'quick' else 5000)

    rac = []
    racfail = None
    known = known_findings(pid)
    base = 1.0 if tier == 'quick' else 20.0

    def run(exe, factor, pool=None, sd=None, timeout=240):
        nonlocal racfail
        if exe is None:
            return
        r = rac_run(exe, wd, factor, pool, sd, timeout)
        rac.append(r)
        if r['rc'] not in (0, None) and racfail is None:
            racfail = r

    def rac_first():
        exe, err = rac_build(slug, wd)
        run(exe, base, sd=seed, timeout=240 if tier == 'quick' else 1800)
        return exe, err
    ex = cf.ThreadPoolExecutor(2)
    racf = ex.submit(rac_first)
    # extraction first (shared by the contracts of one translation unit)
    units = {id(u): u for _, u, _, _ in contract.REGISTRY}
    uerr = {}

    def b(u):
        try:
            u.build(wd)
        except build.ExtractError as e:
            uerr[id(u)] = str(e)[-1500:]
    # one clang run per (tu, defines): build first of each, then the rest
    seen = {}
    for u in units.values():
        seen.setdefault((u.tu, tuple(u.defines), tuple(u.flags)), []).append(u)
    with cf.ThreadPoolExecutor(JOBS) as e2:
        list(e2.map(lambda us: [b(u) for u in us], seen.values()))
    _worker.wd = wd

    def attempt(todo, deadline, factor):
        out = {}
        orig = {i: contract.REGISTRY[i] for i in todo}
        for i in todo:
            n, u, f, o = orig[i]
            contract.REGISTRY[i] = (n, u, f, dict(o, timeout=o.get('timeout', 8000) * factor,
                                                  limit=max(20, min(o.get('limit', 200) * factor, deadline - time.time()))))
        ctx = mp.get_context('fork')
        with ctx.Pool(JOBS, maxtasksperchild=1) as pool:
            pend = [(i, pool.apply_async(_worker, (i,))) for i in todo]
            for i, r in pend:
                n, u, f, o = orig[i]
                bad = dict(contract=n, tu=u.tu, entries=list(u.entries), results=[], error=None,
                           unsupported=None, wall=0, assumptions=[], vacuity={}, funcs=[], solver_time=0, loops={})
                while True:
                    lim = min(deadline, time.time() + 45 if racfail is not None else deadline)
                    try:
                        out[i] = r.get(timeout=max(0.1, min(lim - time.time(), 5)))
                        break
                    except mp.TimeoutError:
                        if time.time() >= deadline or (racfail is not None and time.time() > attempt.t_fail() + 45):
                            out[i] = dict(bad, unsupported='time budget exhausted')
                            break
                    except Exception as e:
                        out[i] = dict(bad, error=repr(e))
                        break
            pool.terminate()
        for i in todo:
            contract.REGISTRY[i] = orig[i]
        return out
    tf = []

    def t_fail():
        if not tf:
            tf.append(time.time())
        return tf[0]
    attempt.t_fail = t_fail
    got = {}
    if contract.REGISTRY:
        got = attempt(list(range(len(contract.REGISTRY))), deadline, 1 if tier == 'quick' else 4)
    exe, racerr = racf.result()

    def weak(r):
        return r['unsupported'] == 'time budget exhausted' or r['error'] or any(
            not x['ok'] and not x.get('refuted') for x in r['results'])
    again = [i for i in got if weak(got[i])]
    if again and racfail is None and not any(x.get('refuted') for r in got.values() for x in r['results']):
        # a second attempt with larger limits before anything is reported as not discharged
        d2 = min(time.time() + (200 if tier == 'quick' else 2000), t0 + (600 if tier == 'quick' else 8000))
        for i, r in attempt(again, d2, 3).items():
            if sum(x['ok'] for x in r['results']) > sum(x['ok'] for x in got[i]['results']) or not weak(r):
                got[i] = r
    res = [got[i] for i in sorted(got)]

    obl = [dict(x, contract=r['contract']) for r in res for x in r['results']]
    failed = [x for x in obl if not x['ok']]
    refuted = [x for x in failed if x.get('refuted')]
    undecided = [x for x in failed if not x.get('refuted')]
    broken = [r for r in res if r['unsupported'] or r['error']]

    # replay: run the same contracts on the real code around the counter-models
    if (failed or broken) and racfail is None and exe is not None:
        pf = os.path.join(wd, 'pool')
        with open(pf, 'w') as f:
            for x in failed:
                for v in (x.get('model') or {}).values():
                    if isinstance(v, (int, float)) and not isinstance(v, bool):
                        f.write('%r\n' % float(v))
        run(exe, base * 4, pool=pf, sd=seed + 1000, timeout=80)
        if racfail is None:
            run(exe, base * 8, pool=pf, sd=seed + 2000, timeout=80)

    for m, what in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))

    nob, ndis = len(obl), sum(x['ok'] for x in obl)
    backends = {}
    for x in obl:
        if x['ok']:
            backends[x['backend']] = backends.get(x['backend'], 0) + 1
    assumptions = sorted({s for r in res for s in r.get('assumptions', [])} | set(getattr(mod, 'ASSUMPTIONS', [])))
    assumptions.insert(0, 'floating-point arithmetic treated as exact real arithmetic in the proof (the run-time checks use IEEE doubles)')
    vac = {}
    for r in res:
        for k, v in (r.get('vacuity') or {}).items():
            vac[k] = vac.get(k, 0) + v
    cov = dict(
        obligations=nob, discharged=ndis,
        checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, tier),
        trusted_base=['clang 18.1.3 and opt 18 (extraction to LLVM IR: inlining, SROA, instcombine, simplifycfg)',
                      '/verif/irv (IR semantics, loop summaries, rational normal form)', 'z3 Python API', 'cvc5 1.1.2',
                      '/verif/shim absl log/check stand-in (CHECK failure = failed obligation; log text dropped)'] +
        list(getattr(mod, 'TRUSTED', [])),
        backends=backends,
        solver_time_s=round(sum(r.get('solver_time') or 0 for r in res), 2),
        contracts=[dict(contract=r['contract'], tu=r['tu'], obligations=len(r['results']),
                        discharged=sum(x['ok'] for x in r['results']), wall_s=r['wall'],
                        unsupported=r['unsupported'], error=(r['error'] or '')[-600:] or None,
                        vacuity=r.get('vacuity'), loops=r.get('loops')) for r in res],
        functions_under_contract=sorted({r['contract'] for r in res}),
        entry_points=sorted({e for r in res for e in r['entries']}),
        reachability=vac,
        undecided=[dict(contract=x['contract'], name=x['name'], why=x.get('why')) for x in undecided][:40],
        refuted=[dict(contract=x['contract'], name=x['name'], why=x.get('why'), model=x.get('model')) for x in refuted][:40],
        bounded_runtime_checks=dict(
            label='bounded: seeded run-time contract checks on the real code, not counted as proved',
            cases=sum(r.get('cases') or 0 for r in rac), clauses_evaluated=sum(r.get('clauses') or 0 for r in rac),
            build_error=racerr, timed_out=[r['rc'] is None for r in rac].count(True),
            groups_only_bounded=list(getattr(mod, 'BOUNDED_ONLY', []))),
        samples=[re.search(r'SAMPLE (.*)', r['out']).group(1)[:1500] for r in rac if re.search(r'SAMPLE (.*)', r['out'])][:1] +
                [x['contract'] + ' / ' + x['name'] for x in obl[:5]],
    )
    status = 0
    lines = []
    rp = os.path.join(rpdir, pid + '.txt')
    if racfail is not None:
        status = 1
        with open(rp, 'w') as f:
            m = re.search(r'FAIL (?:\(crash\) )?(?:signal=\d+ )?group=(\S+) index=(-?\d+) seed=(\d+)', racfail['out'])
            f.write('property: %s\nfailing input found by running the contract on the real code\n' % pid)
            f.write(racfail['out'][-8000:] + '\n' + racfail.get('err', '') + '\n')
            if m:
                f.write('replay: build /verif/rac/%s.cc as check.py does, then ./rac --replay %s %s %s\n' % (
                    slug, m.group(1), m.group(2), m.group(3)))
            for x in refuted + undecided:
                f.write('obligation not discharged: %s / %s: %s\n' % (x['contract'], x['name'], x.get('why')))
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
    elif refuted or undecided or broken or nob == 0:
        status = 1
        with open(rp, 'w') as f:
            f.write('property: %s\nobligations the verifier does not accept; no failing input found on the real code\n' % pid)
            for x in refuted:
                f.write('\nobligation: %s / %s\nwhy: %s\nmodel: %s\ngoal: %s\n' % (
                    x['contract'], x['name'], x.get('why'), x.get('model'), x.get('goal')))
            for x in undecided:
                f.write('\nnot discharged: %s / %s\nwhy: %s\ngoal: %s\n' % (x['contract'], x['name'], x.get('why'), x.get('goal')))
            for r in broken:
                f.write('\nno obligations could be generated: %s\n%s\n' % (r['contract'], r['unsupported'] or r['error']))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(lines))
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d/%d obligations discharged (%s), %d refuted, %d undecided, %d contracts not extracted; '
          'run-time checks: %d cases, %d clauses; %.1fs' % (
              pid, ndis, nob, backends, len(refuted), len(undecided), len(broken),
              cov['bounded_runtime_checks']['cases'], cov['bounded_runtime_checks']['clauses_evaluated'], time.time() - t0))
    for x in (refuted + undecided)[:10]:
        print('  not discharged: %s / %s: %s' % (x['contract'], x['name'], x.get('why')))
    for r in broken[:10]:
        print('  not extracted: %s: %s' % (r['contract'], (r['unsupported'] or r['error'])[-600:]))
    if racerr:
        print('  run-time checker did not build: ' + racerr[-600:])
    for l in lines:
        print(l)
    return status


if __name__ == '__main__':
    sys.exit(main())
