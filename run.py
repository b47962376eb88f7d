#!/usr/bin/env python3
"""Solver-based checks for opensky-sensor.

  run.py ID quick|thorough     decide property ID on /repo's working tree
  run.py replay FILE           replay a recorded counterexample natively
  run.py setup                 build the engine

Every run compiles the harness together with /repo's current sources to LLVM
bitcode and executes it symbolically with symx (see symx/, DESIGN.md); every
reported violation has been reproduced on the natively compiled code."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
sys.dont_write_bytecode = True
EVID = os.path.join(VERIF, 'evidence')
SYMX = os.path.join(VERIF, 'symx')
CORES = 8

INC = ['-I' + os.path.join(VERIF, 'shim'), '-I' + os.path.join(VERIF, 'harness'),
       '-I' + os.path.join(REPO, 'src')]
BASE = ['-DHAVE_CONFIG_H', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE']


class Inconclusive(Exception):
    pass


def limit():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def sh(cmd, timeout, env=None, cwd=None):
    """run a command; returns (rc, stdout, stderr); rc None on timeout"""
    fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=env, cwd=cwd, stdin=subprocess.DEVNULL,
                         preexec_fn=limit, start_new_session=True)
    try:
        rc = p.wait(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        rc = None
    if rc is None:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
    r = []
    for f in (fo, fe):
        f.seek(0)
        r.append(f.read().decode(errors='replace'))
        f.close()
    return rc, r[0], r[1]


def engine():
    """build the engine once per source state"""
    h = hashlib.sha256()
    for f in ('symx.cpp', 'expr.h', 'build.sh'):
        h.update(open(os.path.join(SYMX, f), 'rb').read())
    d = os.path.join(VERIF, 'build')
    exe = os.path.join(d, 'symx-' + h.hexdigest()[:16])
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        rc, o, e = sh([os.path.join(SYMX, 'build.sh'), tmp], 600)
        if rc != 0:
            raise Inconclusive('engine build failed:\n' + e[-3000:])
        os.rename(tmp, exe)
    return exe


def defs(r):
    return ['-D%s' % k if v is None else '-D%s=%s' % (k, v) for k, v in r.get('defs', {}).items()]


WEAK = os.path.join(VERIF, 'shim', 'weak.c')


def harness_path(r):
    return os.path.join(VERIF, 'harness', r['file'])


SAN = 'signed-integer-overflow,shift-exponent,integer-divide-by-zero,bounds,return,unreachable,vla-bound,float-cast-overflow'


def build_symx(r, work):
    """harness + real sources + C library model -> bitcode"""
    bcs = []
    srcs = [(harness_path(r), BASE + defs(r) + r.get('cflags', []))] + \
           [(os.path.join(REPO, s), BASE + defs(r) + r.get('cflags', [])) for s in r.get('link', [])]
    plain = [(WEAK, []), (os.path.join(SYMX, 'rt.c'), ['-fno-builtin'])]
    for i, (src, fl) in enumerate(srcs + plain):
        bc = os.path.join(work, 'm%d.bc' % i)
        cxx = src.endswith(('.cc', '.cpp'))
        cmd = ['clang++' if cxx else 'clang', '-std=gnu++14' if cxx else '-std=gnu11', '-O0', '-Xclang',
               '-disable-O0-optnone', '-g', '-w', '-emit-llvm', '-c', '-D__NO_CTYPE', '-fno-exceptions',
               '-ffp-contract=off', '-fno-stack-protector', '-fno-threadsafe-statics'] + INC + fl + [src, '-o', bc]
        if (src, fl) not in plain:
            cmd[1:1] = ['-fsanitize=' + SAN, '-fsanitize-trap=all'] if not r.get('preempt') else ['-fsanitize=thread']
        rc, o, e = sh(cmd, 120)
        if rc != 0:
            raise Inconclusive('compilation failed (%s):\n%s' % (r['name'], e[-3000:]))
        bcs.append(bc)
    a, b = os.path.join(work, 'all.bc'), os.path.join(work, 'opt.bc')
    rc, o, e = sh(['llvm-link-18'] + bcs[:-1] + [bcs[-1], '-o', a], 60)
    if rc != 0:
        raise Inconclusive('llvm-link failed (%s):\n%s' % (r['name'], e[-3000:]))
    rc, o, e = sh(['opt-18', '-passes=' + r.get('passes', 'function(sroa,simplifycfg,early-cse)'), a, '-o', b], 60)
    if rc != 0:
        raise Inconclusive('opt failed (%s):\n%s' % (r['name'], e[-3000:]))
    return b


NATIVE_VARIANTS = [['-ftrivial-auto-var-init=zero'], ['-ftrivial-auto-var-init=pattern']]


def build_native(r, work, variant, tag):
    exe = os.path.join(work, 'native' + tag)
    obj = os.path.join(work, 'nd%s.o' % tag)
    sanf = ['-g', '-O1', '-w', '-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero',
            '-fno-sanitize=float-divide-by-zero,shift-base,alignment', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    rc, o, e = sh(['gcc', '-std=gnu11', '-c', '-g', '-O1', os.path.join(SYMX, 'native.c'), '-o', obj], 60)
    if rc == 0:
        weak = os.path.join(work, 'w%s.o' % tag)
        rc, o, e = sh(['gcc', '-std=gnu11', '-c', '-g', '-O1', '-w', WEAK, '-o', weak], 60)
        if rc != 0:
            raise Inconclusive('native build failed (%s):\n%s' % (r['name'], e[-3000:]))
        src = [harness_path(r)] + [os.path.join(REPO, s) for s in r.get('link', [])]
        if r.get('preempt'):
            # same compiler and instrumentation points as the symbolic build
            tmp = os.path.join(work, 'h%s.o' % tag)
            rc, o, e = sh(['clang', '-std=gnu11', '-O0', '-g', '-w', '-fsanitize=thread', '-c'] + INC + BASE +
                          defs(r) + r.get('cflags', []) + src + ['-o', tmp], 60)
            if rc == 0:
                rc, o, e = sh(['gcc', tmp, weak, obj, '-o', exe] + r.get('libs', ['-lm']), 60)
            if rc != 0:
                raise Inconclusive('native build failed (%s):\n%s' % (r['name'], e[-3000:]))
            return exe
        cxx = any(s.endswith(('.cc', '.cpp')) for s in src)
        if cxx:
            # C sources are compiled as C
            for i, c in enumerate(src):
                if not c.endswith('.c'):
                    continue
                tmp = os.path.join(work, 'l%s-%d.o' % (tag, i))
                rc, o, e = sh(['gcc', '-std=gnu11'] + sanf + variant + INC + BASE + defs(r) + r.get('cflags', []) +
                              ['-c', c, '-o', tmp], 60)
                if rc != 0:
                    raise Inconclusive('native build failed (%s):\n%s' % (r['name'], e[-3000:]))
                src[i] = tmp
        cmd = ['g++' if cxx else 'gcc', '-std=gnu++14' if cxx else '-std=gnu11'] + sanf + variant + INC + BASE + \
            defs(r) + r.get('cflags', []) + src + [weak, obj, '-o', exe] + r.get('libs', ['-lm'])
        rc, o, e = sh(cmd, 180)
    if rc != 0:
        raise Inconclusive('native build failed (%s):\n%s' % (r['name'], e[-3000:]))
    return exe


def native_run(exe, replay, timeout=20):
    env = dict(os.environ, ND_REPLAY=replay,
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=67:allocator_may_return_null=1:detect_stack_use_after_return=0',
               UBSAN_OPTIONS='print_stacktrace=0:exitcode=68:halt_on_error=1')
    d = tempfile.mkdtemp(prefix='vrun')
    try:
        rc, o, e = sh([exe], timeout, env=env, cwd=d)
        return rc, e
    finally:
        shutil.rmtree(d, ignore_errors=True)


def classify(rc, out):
    """did the native run show a violation?"""
    if rc == 3 or 'ASSUME failed' in out:
        return 'infeasible'
    if rc == 4:
        return 'error'
    if rc is None:
        return 'violation: does not terminate'
    m = re.search(r'CHECK failed: (.*)', out)
    if m:
        if m.group(1).startswith('env:'):
            return 'error: ' + m.group(1)
        return 'violation: CHECK ' + m.group(1)
    if rc == 0:
        return 'ok'
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|Assertion [^\n]*failed[^\n]*)', out)
    return 'violation: ' + (m.group(1) if m else 'exit %s' % rc)


def trace_of(out):
    return [l for l in out.split('\n') if l.startswith(('REACHED ', 'OBS '))]


def write_replay(prop, r, desc, vals, name, d=None):
    d = d or os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, re.sub(r'[^\w.-]', '_', name)[:120] + '.txt')
    spec = {k: r[k] for k in ('name', 'file', 'defs', 'cflags', 'link', 'libs', 'preempt') if k in r}
    with open(p, 'w') as f:
        f.write('# property %s, harness %s (%s)\n' % (prop, r['name'], r['file']))
        f.write('# %s\n' % desc.replace('\n', ' '))
        f.write('# replay with: python3 run.py replay %s\n' % p)
        f.write('#spec %s\n' % json.dumps(spec))
        for v in vals:
            f.write('%d\n' % v)
    return p


def run_one(prop, r, deadline, jobs, known):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    res = dict(name=r['name'], file=r['file'], bounds=dict(r.get('defs', {})), violations=[], problems=[],
               witnesses=0, samples=[])
    try:
        bc = build_symx(r, work)
        left = min(deadline - time.time(), r.get('timeout', 1e9))
        cmd = [engine(), bc, '-j', str(r.get('jobs', jobs)), '-t', str(max(5, left - 30)), '-s',
               str(r.get('steps', 3000000)), '-r', REPO + '/', '-n', str(r.get('samples', 3))]
        for k in known:
            if k['harness'] == r['name'] or r['name'].startswith(k['harness'].rstrip('*')) and k['harness'].endswith('*'):
                cmd += ['-k', k['what']]
        rc, out, err = sh(cmd, left + 15)
        recs = []
        for line in out.split('\n'):
            if line.startswith('{'):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    res['problems'].append('%s: bad engine output' % r['name'])
        if rc != 0:
            res['problems'].append('%s: engine exit %s %s' % (r['name'], rc, err[-500:]))
        S = [x for x in recs if x['kind'] == 'stats']
        for k in ('paths', 'steps', 'queries', 'cache', 'checks', 'forks', 'assumed', 'solver'):
            res[k] = sum(x[k] for x in S)
        cov = {}
        for x in S:
            for f, fn, bits in x['fn']:
                old = cov.get((f, fn), '0' * len(bits))
                cov[f, fn] = ''.join('1' if '1' in p else '0' for p in zip(old, bits))
        res['functions'] = ['%s:%s (%d/%d blocks)' % (f, fn, b.count('1'), len(b)) for (f, fn), b in sorted(cov.items())]
        problems = sorted({x['what'] for x in recs if x['kind'] == 'problem'})
        exes = {}

        def native(i):
            if i not in exes:
                exes[i] = build_native(r, work, NATIVE_VARIANTS[i], str(i))
            return exes[i]

        # violations: reproduce natively
        groups = {}
        for x in recs:
            if x['kind'] == 'violation':
                groups.setdefault((x['what'], x['loc']), []).append(x)
        for n, ((what, loc), xs) in enumerate(sorted(groups.items())):
            if n >= 12:
                break
            verdicts, ok = [], None
            for j, x in enumerate(xs[:6]):
                rp = write_replay(prop, r, '%s at %s' % (what, loc), x['nd'], '%s-%s-%d-%d' % (prop, r['name'], n, j))
                for i in range(len(NATIVE_VARIANTS)):
                    c = classify(*native_run(native(i), rp))
                    verdicts.append(c)
                    if c.startswith('violation'):
                        ok = (rp, c)
                        break
                if ok:
                    break
                os.unlink(rp)
            if what.startswith('CHECK env:'):
                res['problems'].append('%s: %s at %s (native: %s)' % (r['name'], what, loc, verdicts[-1]))
            elif ok:
                res['violations'].append(dict(what=what, where=loc, native=ok[1], replay=ok[0]))
            else:
                res['problems'].append('%s: %s at %s: not reproduced natively (%s)' % (r['name'], what, loc, ', '.join(sorted(set(verdicts)))))
        for p in problems:
            res['problems'].append('%s: %s' % (r['name'], p))
        # witnesses
        labels = {x['what'] for x in recs if x['kind'] == 'label'} - set(r.get('optional', []))
        reach = {}
        for x in recs:
            if x['kind'] == 'reach':
                reach.setdefault(x['what'], x['nd'])
        if not labels:
            res['problems'].append('%s: harness has no witness' % r['name'])
        if not res['violations']:
            for l in sorted(labels - set(reach)):
                res['problems'].append('%s: witness "%s" is not reachable (vacuous harness?)' % (r['name'], l))
            todo = [('witness "%s"' % l, nd, None, l) for l, nd in sorted(reach.items())]
            todo += [('path', x['nd'], x['trace'], None) for x in recs if x['kind'] == 'path'][:40]
            for i, (desc, nd, trace, label) in enumerate(todo):
                rp = write_replay(prop, r, desc, nd, 'w%d' % i, work)
                rc, o = native_run(native(0), rp)
                c = classify(rc, o)
                if c.startswith('violation'):
                    rp = write_replay(prop, r, desc + ': native run fails: ' + c, nd, '%s-%s-w%d' % (prop, r['name'], i))
                    res['violations'].append(dict(what=c[11:], where='native replay of a symbolic path', native=c, replay=rp))
                elif (trace is not None and (c != 'ok' or trace_of(o) != trace)) or \
                        (label is not None and ('REACHED ' + label not in o or c not in ('ok', 'infeasible'))):
                    res['problems'].append('%s: %s does not replay natively: %s %s / %s\n%s' % (
                        r['name'], desc, c, trace, trace_of(o), o[-400:]))
                else:
                    res['witnesses'] += 1
                    if len(res['samples']) < 3:
                        res['samples'].append('%s: %s inputs %s' % (r['name'], desc, nd[:40]))
    except Inconclusive as e:
        res['problems'].append(str(e))
    except Exception as e:  # noqa
        import traceback
        res['problems'].append('%s: %r\n%s' % (r['name'], e, traceback.format_exc()))
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('kept', r['name'], work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                k = json.loads(line)
                if k['property'] == prop:
                    res.append(k)
    return res


def check(prop, tier, only=None):
    import specs
    from bounds import BOUNDS
    t0 = time.time()
    spec = specs.SPECS[prop]
    runs = spec['thorough'] if tier == 'thorough' and spec.get('thorough') else spec['quick']
    if only:
        runs = [r for r in runs if re.search(only, r['name'])]
    budget = 840 if tier == 'quick' else int(os.environ.get('VERIF_BUDGET', '3600'))
    deadline = t0 + budget
    os.makedirs(EVID, exist_ok=True)
    known = known_findings(prop)
    engine()
    jobs = CORES if len(runs) < 4 else max(2, CORES // 2)
    with ThreadPoolExecutor(max_workers=CORES) as ex:
        results = list(ex.map(lambda r: run_one(prop, r, deadline, jobs, known), runs))
    viol, kf = [], []
    for x in results:
        for v in x['violations']:
            for k in known:
                if (k['harness'] == x['name'] or k['harness'].endswith('*') and x['name'].startswith(k['harness'][:-1])) \
                        and k['what'] in v['what']:
                    kf.append((k, v))
                    break
            else:
                viol.append((x, v))
    problems = [p for x in results for p in x['problems']]
    tot = lambda k: sum(x.get(k, 0) for x in results)
    fns = sorted({f for x in results for f in x.get('functions', [])})
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
              coverage=dict(
                  states=max(1, tot('steps')), transitions=max(1, tot('paths')),
                  traces_validated_against_impl=tot('witnesses'),
                  samples=[s for x in results for s in x['samples']][:12] or ['none'],
                  counts_mean='states: LLVM instructions executed symbolically; transitions: execution paths '
                  'explored to their end (every feasible path within the bounds, unless inconclusive is present); '
                  'traces: solver models of complete paths and witnesses replayed on the natively compiled code '
                  'with identical observations',
                  checks=tot('checks'), solver_queries=tot('queries'), solver_cache_hits=tot('cache'),
                  solver_s=round(tot('solver'), 3), paths=tot('paths'), forks=tot('forks'),
                  functions_encoded=fns,
                  harnesses=[{k: x.get(k) for k in ('name', 'file', 'bounds', 'paths', 'steps', 'checks', 'queries',
                                                    'solver', 'witnesses', 'wall_s')} for x in results],
                  bounds_text=BOUNDS.get(prop, ('', ''))[0],
                  outside=BOUNDS.get(prop, ('', spec.get('outside', '')))[1],
                  exhaustive=False),
              assumptions=spec.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if problems:
        ev['coverage']['inconclusive'] = problems
    if kf:
        ev['coverage']['known_findings'] = sorted({k['id'] for k, _ in kf})
    if not only:
        with open(os.path.join(EVID, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for k in {k['id']: k for k, _ in kf}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['title']))
    for x in results:
        print('%s %-28s %6.1fs paths=%s steps=%s checks=%s queries=%s solver=%.1fs replayed=%s' % (
            prop, x['name'], x['wall_s'], x.get('paths'), x.get('steps'), x.get('checks'), x.get('queries'),
            x.get('solver') or 0, x['witnesses']))
    if viol:
        for x, v in viol:
            print('  %s: %s at %s\n     native: %s  replay=%s' % (x['name'], v['what'], v['where'], v['native'], v['replay']))
        for p in problems if os.environ.get('VERIF_V') else []:
            print('  problem: ' + p)
        print('VIOLATION property=%s replay=%s' % (prop, viol[0][1]['replay']))
        return 1
    if problems:
        for p in problems:
            print('INCONCLUSIVE ' + p)
        return 2
    print('OK property=%s tier=%s: held for every value within the stated bounds' % (prop, tier))
    return 0


def replay(path):
    r = None
    for line in open(path):
        if line.startswith('#spec '):
            r = json.loads(line[6:])
    work = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        for i, v in enumerate(NATIVE_VARIANTS):
            exe = build_native(r, work, v, str(i))
            rc, out = native_run(exe, os.path.abspath(path))
            print(out[-4000:])
            print('exit', rc, classify(rc, out))
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1:] == ['setup']:
        print('engine:', engine())
    elif len(sys.argv) == 3 and sys.argv[1] == 'replay':
        replay(sys.argv[2])
    elif len(sys.argv) in (3, 4):
        sys.exit(check(*sys.argv[1:]))
    else:
        print(__doc__)
        sys.exit(64)
