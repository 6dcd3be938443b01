"""Driver: build the harness with the current sources, execute it symbolically, replay, report."""
import os, sys, time, json, glob, shutil, subprocess, tempfile, resource, traceback, signal, pickle
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
NCPU = min(8, os.cpu_count() or 1)


class Build:
    def __init__(self, spec, tmp):
        self.spec = spec
        self.tmp = tmp
        self.srcs = []
        for d in spec['srcs']:
            self.srcs += sorted(glob.glob(os.path.join(REPO, 'src', d)))
        self.incs = [os.path.join(VERIF, 'harness'), os.path.join(REPO, 'includes'), os.path.join(REPO, 'src')]
        self.harness = [os.path.join(VERIF, 'harness', h) for h in spec['harness']]
        self.defs = spec.get('defs', [])

    def ir(self):
        from . import llvmc
        units = self.harness + [os.path.join(VERIF, 'harness', 'prelude.cpp')] + self.srcs
        outs = [os.path.join(self.tmp, 'u%d.bc' % i) for i in range(len(units))]
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda so: llvmc.compile_bc(so[0], so[1], self.incs, self.defs), zip(units, outs)))
        return llvmc.Module(outs, passes=self.spec.get('passes', 'default<O1>'), noinline=self.spec.get('noinline', ()))

    def native(self, flavour):
        """flavour: 'asan' or 'plain' -> path of the executable"""
        d = os.path.join(self.tmp, flavour)
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, 'replay')
        flags = ['-std=gnu++17', '-g', '-O1', '-w', '-DNDEBUG', '-include', 'cstdint', '-fno-omit-frame-pointer'] + self.defs
        if flavour == 'asan':
            flags += ['-fsanitize=address']
        units = self.harness + [os.path.join(VERIF, 'harness', 'native.cpp')] + self.srcs
        outs = [os.path.join(d, 'n%d.o' % i) for i in range(len(units))]

        def cc(so):
            r = subprocess.run(['g++'] + flags + ['-I' + i for i in self.incs] + ['-c', so[0], '-o', so[1]],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise RuntimeError('native compile failed: %s\n%s' % (so[0], r.stdout[-3000:]))
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(cc, zip(units, outs)))
        r = subprocess.run(['g++', '-rdynamic'] + flags + outs + ['-lgmpxx', '-lgmp', '-lcrypto', '-ldl', '-o', exe],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError('native link failed:\n' + r.stdout[-3000:])
        return exe


def concrete_inputs(solver, model, inputs, draws):
    """-> (dict name->int, [draw ints]); inputs a model does not mention are free"""
    env = dict(solver.fnenv())
    env.update(model)

    def val(t):
        from .term import Term, subterms
        if not isinstance(t, Term):
            return int(t)
        for x in subterms([t]):
            if x.op in ('var', 'ivar', 'bvar') and x not in env:
                lo = x.lo if x.op == 'ivar' else (x.aux[0] if x.op == 'var' and x.aux else 0)
                env[x] = lo if lo is not None else 0
        return int(solver.evaluate(t, env))
    return {n: val(t) for n, t in inputs.items()}, [val(d[3]) for d in draws]


def hexs(v):
    return '-%x' % -v if v < 0 else '%x' % v


def job(mod, spec, entry, opts, q):
    """one symbolic run (in its own process)"""
    out = dict(entry=entry, cands=[], reach=[], error=None, choose=opts.get('choose', {}))
    t0 = time.time()
    from . import engine, gmp, libc, api, solve, term as T
    lim = opts.get('mem', 6) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    solver = solve.Solver(opts.get('solver'))
    e = engine.Engine(mod, solver, opts)
    e.trivial = 0
    e.deadline = t0 + opts.get('timeout', 300)
    solver.engine = e
    gmp.install(e)
    libc.install(e)
    api.install(e)
    try:
        for inst in opts.get('install', ()):
            m = __import__('symx.' + inst, fromlist=['install'])
            m.install(e)
        st = e.initial()
        st = run_ctors(e, st)
        for inst in opts.get('install', ()):
            m = sys.modules['symx.' + inst]
            if hasattr(m, 'setup'):
                m.setup(e, st)
        finals = e.call_function(st, entry, [])
        out['finals'] = len(finals)
        if e.incomplete:
            out['error'] = 'not encodable: ' + e.incomplete[0]
    except engine.StopRun:
        out['stopped'] = True
    except engine.Unsupported as ex:
        out['error'] = 'not encodable: %s' % ex
    except MemoryError:
        out['error'] = 'memory limit'
    except Exception as ex:
        out['error'] = 'internal: ' + traceback.format_exc()[-1500:]
    try:
        for c in e.cands:
            r = dict(label=c['label'], status=c['status'])
            if c['model'] is not None:
                r['inputs'], r['draws'] = concrete_inputs(solver, c['model'], c['inputs'], c['draws'])
            out['cands'].append(r)
        for lab, (n, ms) in e.reached.items():
            ok = 0
            for pc, draws, inputs in ms:
                s, model = solver.check(pc, timeout=opts.get('reachtime', 20)) if pc else ('sat', {})
                r = dict(label=lab, status=s, count=n)
                if s == 'sat':
                    r['inputs'], r['draws'] = concrete_inputs(solver, model, inputs, draws)
                    ok += 1
                out['reach'].append(r)
                if ok >= opts.get('reachmodels', 3):
                    break
    except MemoryError:
        out['error'] = out['error'] or 'memory limit'
    except Exception as ex:
        out['error'] = out['error'] or 'internal: ' + traceback.format_exc()[-1500:]
    s = solver.st
    out['stats'] = dict(steps=e.steps, forks=e.forks, merges=e.merges, paths=e.paths, checks=len(e.checks), trivial=e.trivial,
                        queries=s.queries, feas=s.feas, z3calls=s.z3calls, z3time=s.z3time, fftime=s.fftime,
                        theory=s.theory, conflicts=s.conflicts, unsat=s.unsat, sat=s.sat, unknown=s.unknown, bysimp=s.bysimp)
    out['labels'] = sorted({l for l, r in e.checks})
    out['undischarged'] = sorted({l for l, r in e.checks if r == 'unknown'})
    out['functions'] = sorted({mod.funcs[n].dem for n in e.executed})
    out['bounded'] = e.assumptions
    out['wall'] = time.time() - t0
    q.send(out)
    q.close()


def run_ctors(e, st):
    from .llvmc import L
    v = e.mod.globals.get('llvm.global_ctors')
    if v is None:
        return st
    c = e.mod.const(L().GetInitializer(v))
    for x in c[1]:
        f = x[1][1]
        if isinstance(f, tuple):
            f = f[1]
        r = e.call_function(st, f[1] if isinstance(f, tuple) else f, [])
        if len(r) != 1:
            raise RuntimeError('static initialisation forked')
        st = r[0]
    return st


def run_jobs(mod, spec, jobs, log):
    """jobs: [(entry, opts)] -> results; at most NCPU processes"""
    ctx = mp.get_context('fork')
    pend = list(enumerate(jobs))
    live = {}
    res = [None] * len(jobs)
    from multiprocessing.connection import wait
    while pend or live:
        while pend and len(live) < NCPU:
            i, (entry, opts) = pend.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=job, args=(mod[opts['_part']], spec, entry, opts, w))
            p.start()
            w.close()
            live[r] = (i, p, time.time() + opts.get('timeout', 300) + 90)
        for r in wait(list(live), 1.0):
            i, p, end = live.pop(r)
            try:
                res[i] = r.recv()
            except EOFError:
                res[i] = None
            p.join()
            if res[i] is None:
                res[i] = dict(entry=jobs[i][0], cands=[], reach=[], error='worker died (exit %s)' % p.exitcode, stats={}, labels=[],
                              undischarged=[], functions=[], bounded={}, wall=0)
            res[i]['part'] = jobs[i][1]['_part']
            if log(res[i]):
                # a confirmed violation: nothing else is needed
                for i, p, end in live.values():
                    p.kill()
                    p.join()
                for i, x in enumerate(res):
                    if x is None:
                        res[i] = dict(entry=jobs[i][0], cands=[], reach=[], error=None, stats={}, labels=[], undischarged=[],
                                      functions=[], bounded={}, wall=0, stopped=True)
                return res
        for r in list(live):
            i, p, end = live[r]
            if time.time() > end:
                p.kill()
                p.join()
                live.pop(r)
                res[i] = dict(entry=jobs[i][0], cands=[], reach=[], error='time limit', stats={}, labels=[],
                              undischarged=[], functions=[], bounded={}, wall=0)
                log(res[i])
    return res


def write_replay(path, prop, entry, cand):
    with open(path, 'w') as f:
        f.write('# property=%s entry=%s label=%s\n' % (prop, entry, cand['label'].replace('\n', ' ')))
        for n, v in sorted(cand['inputs'].items()):
            f.write('%s %s\n' % (n, hexs(v)))
        for d in cand['draws']:
            f.write('draw %s\n' % hexs(d))


def native_run(exe, entry, path, valgrind=False, timeout=120, trace=False):
    env = dict(os.environ)
    env.pop('SYMX_TRACE', None)
    if trace:
        env['SYMX_TRACE'] = '1'
    env['SYMX_REPLAY'] = path
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=1:max_free_fill_size=1048576:free_fill_byte=165'
    cmd = [exe, entry]
    if valgrind:
        cmd = ['valgrind', '-q', '--error-exitcode=1', '--leak-check=no'] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
        return r.returncode, r.stdout.decode('latin1')
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def known_findings(prop):
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                kv = dict(x.split('=', 1) for x in line.split('#')[0].split()[1:] if '=' in x)
                kv['text'] = line.split('#', 1)[1].strip() if '#' in line else ''
                out.append(kv)
    return out


def check(prop, tier):
    from . import props
    t0 = time.time()
    spec = props.PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tmp = tempfile.mkdtemp(prefix='symx-%s-' % prop)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage={}, assumptions=[], wall_s=0.0, violations=0)
    code = 2
    try:
        code = _check(prop, tier, spec, tmp, ev, t0)
    except Exception as ex:
        print('ERROR %s: %s' % (prop, traceback.format_exc()[-3000:]))
        code = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        ev['wall_s'] = round(time.time() - t0, 2)
        if not ev['coverage']:
            ev['coverage'] = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], note='no run')
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', prop + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
    return code


def _check(prop, tier, spec, tmp, ev, t0):
    verbose = bool(os.environ.get('SYMX_VERBOSE'))
    builds, mod, entries = [], [], []
    for i, part in enumerate(spec.get('parts') or [{}]):
        sp = dict(spec, **part)
        d = os.path.join(tmp, 'part%d' % i)
        os.makedirs(d)
        builds.append(Build(sp, d))
        mod.append(builds[i].ir())
        for name, opts in sp['entries']:
            if name not in mod[i].funcs:
                raise RuntimeError('entry %s missing' % name)
            entries.append((name, dict(sp.get('opts', {}), **opts, _part=i)))
    tb = time.time() - t0
    jobs = []
    for name, opts in entries:
        o = dict(opts)
        if tier == 'thorough':
            o.update(o.get('thorough', {}))
        elif o.get('only') == 'thorough':
            continue
        split = o.get('split')
        combos = [{}]
        for k, vals in (split or {}).items():
            combos = [dict(c, **{k: v}) for c in combos for v in vals]
        for c in combos:
            o2 = dict(o)
            o2['choose'] = dict(o.get('choose', {}), **{k: v for k, v in c.items() if k[0] != '@'})
            for k, v in c.items():
                if k[0] == '@':
                    o2[k[1:]] = v
            jobs.append((name, o2))
    jobs.sort(key=lambda j: -j[1].get('weight', 1))
    npid = os.fork()
    if npid == 0:
        rc = 0
        try:
            for b in builds:
                b.native('asan')
        except BaseException as ex:
            sys.stderr.write(str(ex)[-3000:] + '\n')
            rc = 1
        os._exit(rc)

    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + '-*.txt')):
        os.remove(f)
    known = known_findings(prop)
    violations, findings, unconfirmed = [], [], []
    samples = []
    count = dict(n=0, validated=0)
    seen, tries, built = set(), {}, {}

    def native(kind, part):
        if not built:
            _, status = os.waitpid(npid, 0)
            if status:
                raise RuntimeError('native build failed')
            for i, b in enumerate(builds):
                built['asan', i] = os.path.join(b.tmp, 'asan', 'replay')
        if (kind, part) not in built:
            built[kind, part] = builds[part].native(kind)
        return built[kind, part]

    def finding(entry, label):
        k = None
        for kf in known:
            if kf.get('entry') in (entry, None) and kf.get('label', '').replace('_', ' ') == label:
                k = kf
        return k
    kind = spec.get('native', 'asan')

    def candidate(r, c):
        """replay a candidate violation against the real code; True when it is one"""
        if c['status'] != 'sat':
            unconfirmed.append('%s: %s (undecided)' % (r['entry'], c['label']))
            return False
        key = (r['entry'], c['label'])
        if key in seen or tries.get(key, 0) >= 6:
            return False
        tries[key] = tries.get(key, 0) + 1
        count['n'] += 1
        path = os.path.join(rdir, '%s-%d.txt' % (prop, count['n']))
        write_replay(path, prop, r['entry'], c)
        rc, txt = native_run(native(kind, r['part']), r['entry'], path)
        if rc == 0 and ('uninit' in c['label'] or 'freed' in c['label']):
            rc, txt = native_run(native('plain', r['part']), r['entry'], path, valgrind=True)
        if verbose:
            print('  candidate', key, 'replay', rc, txt[:600])
        if rc in (0, 77, 99, 'timeout') and not (rc == 'timeout' and spec.get('hangs')):
            unconfirmed.append('%s: %s (replay: %s)' % (r['entry'], c['label'], rc))
            return False
        count['validated'] += 1
        seen.add(key)
        k = finding(r['entry'], c['label'])
        (findings if k else violations).append((r['entry'], c, path, txt, k))
        return not k

    def log(r):
        if verbose:
            print('  [%s %s] %.1fs %s err=%s cands=%s undis=%s' % (r['entry'], r.get('choose'), r['wall'], r['stats'], r['error'],
                  [(c['label'], c['status']) for c in r['cands']], r['undischarged']), flush=True)
        bad = False
        for c in r['cands']:
            bad = candidate(r, c) or bad
        return bad
    res = run_jobs(mod, spec, jobs, log)
    traces = []
    for r, (name, o) in zip(res, jobs):
        for c in r['reach']:
            if c['status'] == 'sat' and o.get('traces', True) and not violations:
                count['n'] += 1
                path = os.path.join(rdir, '%s-t%d.txt' % (prop, count['n']))
                write_replay(path, prop, r['entry'], c)
                traces.append((r, c, path))
    exe = [native(kind, i) for i in range(len(builds))]
    with ThreadPoolExecutor(NCPU) as pool:
        runs = list(pool.map(lambda t: native_run(exe[t[0]['part']], t[0]['entry'], t[2], trace=True), traces))
    for (r, c, path), (rc, txt) in zip(traces, runs):
        if verbose and rc != 0:
            print('  trace', r['entry'], c['label'], 'native', rc, txt[:1500])
        if rc == 77 or rc == 99 or rc == 'timeout':
            unconfirmed.append('%s: trace %s does not replay (%s)' % (r['entry'], c['label'], rc))
            continue
        count['validated'] += 1
        if rc != 0:
            lab = [l[7:] for l in txt.split('\n') if l.startswith('FAILED ')]
            lab = lab[0] if lab else 'native run failed'
            k = finding(r['entry'], lab)
            cc = dict(c)
            cc['label'] = lab
            (findings if k else violations).append((r['entry'], cc, path, txt, k))
        else:
            if len(samples) < 12:
                samples.append(dict(entry=r['entry'], reached=c['label'],
                                    inputs={k: hexs(v) for k, v in sorted(c['inputs'].items())[:12]},
                                    draws=[hexs(d) for d in c['draws'][:8]]))
            os.remove(path)
    validated = count['validated']
    errors = ['%s %s: %s' % (r['entry'], r.get('choose') or '', r['error']) for r in res if r['error']]
    noreach = [r['entry'] for r in res if not r['error'] and not r.get('stopped') and not r['cands']
               and not r['reach']]
    for x in noreach:
        errors.append('%s: end of the harness not reached' % x)
    S = {}
    for r in res:
        for k, v in r['stats'].items():
            S[k] = S.get(k, 0) + v
    fns = sorted({f for r in res for f in r['functions']})
    own = [f for f in fns if not f.startswith(('std::', '__gnu_cxx', 'void std::', 'bool std::', 'f0')) and 'symx' not in f]
    cov = dict(states=max(1, S.get('forks', 0) + len(res)), transitions=S.get('steps', 0),
               traces_validated_against_impl=validated, samples=samples or ['(no completed trace)'],
               harness_entries=[dict(entry=r['entry'], variant={k: (str(v) if isinstance(v, range) else v) for k, v in (r.get('choose') or {}).items()}, wall_s=round(r['wall'], 2),
                                     checks=r['stats'].get('checks', 0), labels=r['labels'][:60]) for r in res][:80],
               functions_encoded=[f[:200] for f in own][:250], functions_encoded_total=len(fns),
               ir_instructions_executed=S.get('steps', 0), forks=S.get('forks', 0), merges=S.get('merges', 0),
               assertions=S.get('checks', 0), assertions_closed_by_simplification=S.get('trivial', 0),
               queries=S.get('queries', 0), queries_unsat=S.get('unsat', 0), queries_sat=S.get('sat', 0),
               queries_unknown=S.get('unknown', 0), queries_closed_by_normalisation=S.get('bysimp', 0),
               feasibility_queries=S.get('feas', 0), z3_calls=S.get('z3calls', 0), z3_seconds=round(S.get('z3time', 0), 2),
               field_theory_calls=S.get('theory', 0), field_theory_conflicts=S.get('conflicts', 0),
               field_theory_seconds=round(S.get('fftime', 0), 2),
               build_seconds=round(tb, 2), bounds=spec.get('bounds', []), unconfirmed=unconfirmed[:20], errors=errors[:20],
               bounded_paths={k: v for r in res for k, v in r['bounded'].items()})
    ev['coverage'] = cov
    ev['assumptions'] = spec.get('assumptions', []) + props_assumptions()
    ev['violations'] = len(violations)
    for k, c in {k.get('text') or c['label']: (k, c) for en, c, path, txt, k in findings}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text'] or c['label']))
    if violations:
        done = set()
        for en, c, path, txt, k in violations:
            if (en, c['label']) in done:
                continue
            done.add((en, c['label']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  entry %s: %s' % (en, c['label']))
            for l in [l for l in txt.split('\n') if 'FAILED' in l or 'ERROR' in l or 'SUMMARY' in l][:4]:
                print('    ' + l)
        return 1
    und = [u for r in res for u in r['undischarged']]
    if errors or unconfirmed:
        for x in list(dict.fromkeys(errors + unconfirmed))[:40]:
            print('NO ANSWER %s: %s' % (prop, x))
        return 2
    print('HELD %s: %d assertions, %d queries, %d traces replayed, %.1f s' % (prop, S.get('checks', 0), S.get('queries', 0), validated, time.time() - t0))
    return 0


def props_assumptions():
    from . import props
    return props.COMMON_ASSUMPTIONS


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(check(prop, tier))


if __name__ == '__main__':
    main()
