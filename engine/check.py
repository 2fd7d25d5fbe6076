"""Runs the check of one property: check.py <property> (tier from VERIF_TIER or --tier).

exit 0  the property held on every path within the bounds
exit 1  a counterexample was found and reproduced against the real build
exit 2  the check could not decide (undecided query, unsupported construct, time limit, build failure)
exit 3  the symbolic executor and the real code disagree (an error of the check)"""
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build   # noqa: E402
from sym import REFUSALS   # noqa: E402

ROOT = build.ROOT
RUN = []
PROFILE = {'checked': 'dev', 'wrapping': 'release'}


def case_line(fn, params, inputs):
    return '%s | %s | %s' % (fn, ' '.join(map(str, params)), ' '.join('%d=%d' % kv for kv in sorted(inputs.items())))


def replay(d, profile, lines, timeout=60):
    """run cases natively; returns (list of result tuples, stdout bytes, status)"""
    tmp = os.path.join(d, 'replay-%d-%d.out' % (os.getpid(), threading.get_ident()))
    p = None
    try:
        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen([os.path.join(d, 'replay-' + profile), tmp], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limit, cwd=d)
        try:
            out, _ = p.communicate(('\n'.join(lines) + '\n').encode(), timeout=timeout)
            status = 'ok' if p.returncode == 0 else 'crash'
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            status = 'hang'
        res = []
        if os.path.exists(tmp):
            with open(tmp) as fh:
                for l in fh:
                    f = l.rstrip('\n').split('\t')
                    if len(f) >= 5:
                        res.append((f[0], int(f[1]), int(f[2]), f[3], f[4]))
        return res, out, status
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)


def confirm(d, job, what, inputs):
    """does the counterexample reproduce on the real build?  returns a description or None"""
    line = case_line(job['fn'], job['params'], inputs)
    res, out, status = replay(d, PROFILE[job['cfg']], [line], timeout=20)
    if status == 'hang':
        return 'does not return'
    if status == 'crash':
        return 'process crashed'
    if not res:
        return None
    end, code, pok, outs, msg = res[0]
    if end == 'FAIL':
        return 'check %d fails (%s)' % (code, outs)
    if end == 'PANIC' and (not pok or pok == 2 and any(w in msg for w in REFUSALS)):
        return 'panics: %s' % msg
    if what == 'output' and out:
        return 'writes to standard output: %r' % out[:80]
    return None


def shrink(params, b):
    """the same job with the ranges of its inputs cut to b bits"""
    out = list(params)
    for k in range(params[2]):
        u, lo, hi = out[3 + 3 * k:6 + 3 * k]
        if u:
            continue
        l, h = max(lo, -(1 << b)), min(hi, 1 << b)
        if l > h:
            l, h = (lo, min(hi, lo + (1 << b))) if lo > 0 else (max(lo, hi - (1 << b)), hi)
        out[4 + 3 * k:6 + 3 * k] = [l, h]
    return out if out != list(params) else None


def attempt(sym, solver, mods, job, params, limit, i, q, deadline):
    t0 = time.time()
    ex = sym.Exec(mods[job['cfg']], solver.Solver(**job.get('solver', {})),
                  step_limit=job.get('steps', 400000), path_limit=job.get('paths', 200000))
    ex.cut = job.get('cut', 0)
    ex.deadline = min(deadline, t0 + limit)
    ex.on_violation = lambda what, inp: q.put(('v', i, what, params, inp))
    err = None
    try:
        ex.run(job['fn'], params, sample_every=job.get('sample_every', 7),
               sample_max=job.get('sample_max', 12), forbid_print=job.get('forbid_print', False))
    except sym.Unsupported as e:
        err = str(e) if 'time limit' in str(e) else 'unsupported: %s' % e
    except RecursionError:
        err = 'recursion limit'
    except Exception:
        err = traceback.format_exc()
    s = ex.solver
    return dict(err=err, problems=ex.problems, outcomes=ex.outcomes, panics=ex.panics, params=params,
                covers=ex.coverhits, samples=ex.samples, paths=ex.paths, forks=ex.forks,
                merges=ex.merges, instrs=ex.instrs, checks=ex.nchecks, discharged=ex.discharged,
                nviol=len(ex.violations), called=sorted(ex.called), queries=s.queries, sat=s.sat, unsat=s.unsat,
                unknown=s.unknown, solver_s=s.time, fallbacks=s.fallbacks, wall=time.time() - t0)


def worker(mods, jobs, nxt, q, deadline, seed):
    sys.setrecursionlimit(50000)
    import sym
    import solver
    while True:
        with nxt.get_lock():
            i = nxt.value
            nxt.value += 1
        if i >= len(jobs):
            break
        job = jobs[i]
        r = attempt(sym, solver, mods, job, job['params'], job.get('time', 250), i, q, deadline)
        # out of time or undecided: decide the job for smaller inputs, and say so
        lost = 0
        for b in (12, 8, 5, 3):
            if not (r['err'] == 'time limit exceeded' or r['problems']) or r['nviol'] or time.time() > deadline - 5:
                break
            p = shrink(job['params'], b)
            if p is None:
                continue
            lost += r['wall']
            r = attempt(sym, solver, mods, job, p, job.get('time', 250) / 2, i, q, deadline)
            r['reduced'] = b
        r['lost'] = lost
        q.put(('r', i, r))
    q.put(('e', 0, None))


def demangle(names):
    """readable names of the encoded functions of the crate under check"""
    out = set()
    for n in names:
        if '7clarith' in n:
            parts = []
            i = n.find('7clarith')
            j = i
            s = n
            while j < len(s):
                k = j
                while k < len(s) and s[k].isdigit():
                    k += 1
                if k > j and s[j] != '0':
                    ln = int(s[j:k])
                    if s[k:k + 1] == '_':
                        k += 1
                    parts.append(s[k:k + ln])
                    j = k + ln
                else:
                    j += 1
            if parts:
                out.add('::'.join(parts[:6]))
    return sorted(out)


def bounds(jobs, res):
    """what was free in each group of jobs, and how far it was followed"""
    out = {}
    for i, r in sorted(res.items()):
        j, p = jobs[i], r['params']
        g = out.setdefault(j['group'], {'free_inputs': 0, 'largest_input': 0, 'symbols_read': 0, 'builds': [],
                                        'steps_per_path': 0})
        g['free_inputs'] = max(g['free_inputs'], p[2])
        for k in range(p[2]):
            u, lo, hi = p[3 + 3 * k:6 + 3 * k]
            g['largest_input'] = max(g['largest_input'], (1 << 64) - 1 if u else max(abs(lo), abs(hi)))
        g['symbols_read'] = max(g['symbols_read'], p[0])
        g['steps_per_path'] = max(g['steps_per_path'], j.get('steps', 400000))
        if j['cfg'] not in g['builds']:
            g['builds'].append(j['cfg'])
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in sys.argv
    t0 = time.time()
    limit = 840 if tier == 'quick' else 860
    deadline = t0 + limit
    import props
    spec = props.PROPS[pid]
    jobs = spec['jobs'](tier)
    if '--only' in sys.argv:
        sel = sys.argv[sys.argv.index('--only') + 1]
        jobs = [j for j in jobs if sel in j['group']]
    cfgs = sorted({j['cfg'] for j in jobs})
    try:
        d = build.prepare(cfgs=cfgs, profiles=sorted({PROFILE[c] for c in cfgs}))
    except build.BuildError as e:
        print('build failed: %s' % e)
        return 2
    RUN.append(d)
    import ir
    mods = {}
    for c in cfgs:
        with open(os.path.join(d, c + '.ll')) as fh:
            mods[c] = ir.parse_module(fh.read())
        mods[c].library = lambda: build.library(d)
    jobs = sorted(jobs, key=lambda j: -j.get('cost', 1))
    nxt = mp.Value('i', 0)
    q = mp.Queue()
    nw = min(int(os.environ.get('VP_WORKERS', '8')), len(jobs))
    procs = [mp.Process(target=worker, args=(mods, jobs, nxt, q, deadline, seed), daemon=True) for _ in range(nw)]
    for p in procs:
        p.start()
    live = nw
    res = {}
    bad = []        # violations that did not reproduce
    seen = set()
    found = None
    while live and found is None:
        try:
            kind, i, *rest = q.get(timeout=5)
        except Exception:
            dead = [p for p in procs if not p.is_alive()]
            if len(dead) == nw and q.empty():
                break
            if time.time() > deadline + 15:
                break
            continue
        if kind == 'e':
            live -= 1
        elif kind == 'r':
            res[i] = rest[0]
            if verbose:
                r = rest[0]
                print('%-8s %-46s %6.1fs paths=%d %s q=%d st=%.1f chk=%d %s %s cov=%s %s' % (
                    jobs[i]['group'], jobs[i]['fn'] + str(jobs[i]['params']), r['wall'], r['paths'], r['outcomes'], r['queries'],
                    r['solver_s'], r['checks'], r['err'] or '', r['problems'] or '', r['covers'],
                    'REDUCED to %d bits after %.0fs' % (r['reduced'], r['lost']) if r.get('reduced') else ''))
                sys.stdout.flush()
        else:
            what, params, inp = rest
            key = (i, what, tuple(sorted(inp.items())))
            if key in seen or len([k for k in seen if k[0] == i and k[1] == what]) > 12:
                continue
            seen.add(key)
            case = dict(jobs[i], params=params)
            how = confirm(d, case, what, inp)
            if how:
                found = (case, what, inp, how)
            elif what != 'unsupported':
                bad.append((case, what, inp))
    for p in procs:
        p.terminate()
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    errors = []
    for i, j in enumerate(jobs):
        name = '%s%r' % (j['fn'], tuple(j['params']))
        if i not in res:
            if not found:
                errors.append('%s: no result' % name)
            continue
        r = res[i]
        if r['err']:
            errors.append('%s: %s' % (name, r['err'].strip().split('\n')[-1]))
            if verbose:
                print(r['err'])
        for k, v in r['problems'].items():
            errors.append('%s: %s (x%d)' % (name, k, v))
    # every group must have reached its assertions
    hits = {}
    for i, r in res.items():
        for c, n in r['covers'].items():
            k = (jobs[i]['group'], c)
            hits[k] = hits.get(k, 0) + n
    if not found:
        for g in sorted({j['group'] for j in jobs}):
            need = {c for j in jobs if j['group'] == g for c in j.get('need', (0,))}
            for c in sorted(need):
                if not hits.get((g, c)):
                    errors.append('group %s: nothing reached cover point %d' % (g, c))
    # replay sample paths on the real build and compare what was observed
    validated = 0
    mismatch = []
    samples = []
    if not found:
        for cfg in cfgs:
            lines = []
            exp = []
            for i, r in res.items():
                if jobs[i]['cfg'] != cfg:
                    continue
                for kind, inp, outs, prints in r['samples']:
                    lines.append(case_line(jobs[i]['fn'], r['params'], inp))
                    exp.append((kind, outs, jobs[i]))
            if not lines:
                continue
            got, text, status = replay(d, PROFILE[cfg], lines, timeout=120)
            quiet = all(p == 0 for i, r in res.items() if jobs[i]['cfg'] == cfg for *_, p in r['samples'])
            if status == 'ok' and quiet and text:
                mismatch.append('unexpected output of the sample paths: %r' % text[:80])
            if status != 'ok' or len(got) != len(lines):
                errors.append('native replay of sample paths: %s, %d of %d' % (status, len(got), len(lines)))
            for l, (kind, outs, job), (end, code, pok, o, msg) in zip(lines, exp, got):
                want = ' '.join('%d:%d' % (t, v - (1 << 64) if v is not None and v >> 63 else v or 0) for t, v in outs)
                ok = (end == 'DONE' and kind == 'done') or (end == 'PANIC' and kind == 'panic')
                ok = ok and o == want
                if ok:
                    validated += 1
                elif end == 'FAIL' or end == 'PANIC' and (not pok or pok == 2 and any(w in msg for w in REFUSALS)):
                    # seen on the real code, though not in the encoding
                    found = (dict(job, params=[int(x) for x in l.split('|')[1].split()]), 'sample path',
                             {int(k): int(v) for k, v in (x.split('=') for x in l.split('|')[2].split())},
                             'check %d fails (%s)' % (code, o) if end == 'FAIL' else 'panics: %s' % msg)
                else:
                    mismatch.append('%s: symbolic %s [%s], native %s [%s] %s' % (l, kind, want, end, o, msg))
                if len(samples) < 6 and len(lines) and (len(samples) * max(1, len(lines) // 6)) <= validated:
                    samples.append({'case': l, 'config': cfg, 'outcome': end, 'observed': o})
    tot = lambda k: sum(r[k] for r in res.values())  # noqa: E731
    outcomes = {}
    for r in res.values():
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
    called = set()
    for r in res.values():
        called.update(r['called'])
    groups = {}
    for i, r in res.items():
        g = groups.setdefault(jobs[i]['group'], {'jobs': 0, 'paths': 0, 'checks': 0})
        g['jobs'] += 1
        g['paths'] += r['paths']
        g['checks'] += r['checks']
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('forks') + len(res),
            'transitions': tot('instrs'),
            'traces_validated_against_impl': validated,
            'samples': samples,
            'symbolic_paths': tot('paths'),
            'path_outcomes': outcomes,
            'paths_merged': tot('merges'),
            'assertions_evaluated': tot('checks'),
            'assertion_queries_discharged': tot('discharged'),
            'solver_queries': tot('queries'), 'solver_unsat': tot('unsat'), 'solver_sat': tot('sat'),
            'solver_unknown': tot('unknown'), 'solver_portfolio_calls': tot('fallbacks'),
            'solver_seconds': round(tot('solver_s'), 2),
            'jobs': len(res), 'groups': groups,
            'jobs_decided_for_smaller_inputs': [
                {'job': '%s%r' % (jobs[i]['fn'], tuple(jobs[i]['params'])), 'bits': r['reduced']}
                for i, r in sorted(res.items()) if r.get('reduced')],
            'cover_points': {'%s/%d' % k: v for k, v in sorted(hits.items())},
            'bounds': bounds(jobs, res),
            'functions_encoded': demangle(called),
        },
        'assumptions': props.ASSUMPTIONS + spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if found else 0,
    }
    if not samples and found:
        ev['coverage']['samples'] = [{'case': case_line(found[0]['fn'], found[0]['params'], found[2])}]
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', pid + '.json.tmp')
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.rename(tmp, os.path.join(ROOT, 'evidence', pid + '.json'))
    if found:
        job, what, inp, how = found
        path = os.path.join(ROOT, 'evidence', pid + '.replay')
        with open(path, 'w') as fh:
            fh.write(case_line(job['fn'], job['params'], inp) + '\n')
            fh.write('# profile %s; %s; %s\n' % (PROFILE[job['cfg']], what, how))
            fh.write('# run: python3 engine/replay.py %s\n' % path)
        print('counterexample: %s' % case_line(job['fn'], job['params'], inp))
        print('on the real code (%s profile): %s' % (PROFILE[job['cfg']], how))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s %s: %d jobs, %d paths, %d assertions, %d queries (%.1fs solver), %d traces validated, %.1fs' % (
        pid, tier, len(res), tot('paths'), tot('checks'), tot('queries'), tot('solver_s'), validated, time.time() - t0))
    for i, r in sorted(res.items()):
        if r.get('reduced'):
            print('smaller bound (%d bits): %s%r' % (r['reduced'], jobs[i]['fn'], tuple(jobs[i]['params'])))
    for e in sorted(set(errors))[:30]:
        print('UNDECIDED: %s' % e)
    for job, what, inp in bad[:10]:
        print('NOT REPRODUCED: %s %s' % (what, case_line(job['fn'], job['params'], inp)))
    for m in mismatch[:10]:
        print('MISMATCH: %s' % m)
    if bad or mismatch:
        return 3
    if errors:
        return 2
    return 0


if __name__ == '__main__':
    sys.setrecursionlimit(50000)
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    if RUN:
        build.discard(RUN[0])
    sys.stdout.flush()
    os._exit(rc)
