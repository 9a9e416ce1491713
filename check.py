#!/usr/bin/env python3
"""check.py <PROPERTY> --tier quick|thorough : decides one property on /repo's current tree.
exit 0: held on everything decided; exit 1: VIOLATION; exit 2: nothing could be decided."""
import argparse, concurrent.futures as cf, importlib, json, multiprocessing as mp, os, resource, shutil, subprocess, sys, time, tempfile
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'): os.environ.setdefault(v, '1')
if os.path.abspath(sys.executable) != PY and os.path.exists(PY) and not os.environ.get('VERIF_REEXEC'):
    os.environ['VERIF_REEXEC'] = '1'
    os.execv(PY, [PY, '-B', os.path.abspath(__file__)] + sys.argv[1:])


def load_props(pid):
    from symx import harness
    importlib.import_module('props.' + pid.lower())
    return harness.REGISTRY.get(pid, [])


def worker(args):
    pid, name, params, seed, tier, limit = args
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        from symx import harness
        load_props(pid)
        return harness.run_case(harness.find_ob(pid, name), params, seed, tier, limit)
    except MemoryError:
        return {'ob': name, 'params': params, 'error': 'out of memory'}
    except BaseException as e:
        import traceback
        return {'ob': name, 'params': params, 'error': f"{type(e).__name__}: {str(e)[:300]}", 'trace': traceback.format_exc()[-1500:]}


def replay_server(pid, extdir):
    """child process: one JSON request per line -> one JSON answer per line"""
    load_props(pid)
    from symx import harness, loader
    import numpy as np
    sys.path.insert(0, os.path.join(loader.REPO, 'src'))
    outfd = os.dup(1); os.dup2(2, 1)
    out = os.fdopen(outfd, 'w')
    for line in sys.stdin:
        q = json.loads(line)
        try: r = harness.replay(harness.find_ob(pid, q['ob']), q['params'], q['asg'], q['choices'], extdir)
        except BaseException as e: r = {'status': 'replay-error', 'exception': f"{type(e).__name__}: {e}", 'failures': [], 'obs': []}
        out.write(json.dumps(r) + "\n"); out.flush()


class Replayer:
    def __init__(self, pid, extdir, env=None): self.pid = pid; self.extdir = extdir; self.p = None; self.n = 0; self.env = env
    def start(self):
        self.p = subprocess.Popen([sys.executable, '-B', os.path.join(HERE, 'check.py'), self.pid, '--serve', self.extdir or ''],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=self.env and {**os.environ, **self.env})
    def ask(self, q, timeout=120):
        if self.p is None or self.p.poll() is not None: self.start()
        self.n += 1
        import threading
        try:
            self.p.stdin.write(json.dumps(q) + "\n"); self.p.stdin.flush()
        except BrokenPipeError:
            self.p = None
            return {'status': 'crash', 'failures': [], 'obs': []}
        t = threading.Timer(timeout, self.p.kill); t.start()
        line = self.p.stdout.readline()
        t.cancel()
        if not line:
            rc = self.p.wait()
            self.p = None
            return {'status': 'timeout' if rc == -9 else 'crash', 'rc': rc, 'failures': [], 'obs': []}
        return json.loads(line)
    def close(self):
        if self.p and self.p.poll() is None:
            self.p.stdin.close(); self.p.wait(10)


class Sanitised:
    """replays of memory errors and data races, which need not change a result: the extensions are built with the sanitizer that detects them"""
    KINDS = {'data race': ('thread', 'libtsan.so', {'TSAN_OPTIONS': 'halt_on_error=1:exitcode=78'}, 78),
             'memory': ('address,undefined', 'libasan.so', {'ASAN_OPTIONS': 'detect_leaks=0:halt_on_error=1:exitcode=77:detect_stack_use_after_return=1', 'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=77'}, 77)}
    TEXT = ('out of bounds', 'between the elements', 'freed memory', 'double delete', 'delete of', 'through a null', 'through an invalid', 'undefined behaviour', 'of a negative number')

    def __init__(self, pid, exts): self.pid = pid; self.exts = exts; self.r = {}; self.dirs = []

    def ask(self, msg, q):
        """-> what the sanitizer saw, or None"""
        kind = 'data race' if 'data race' in msg else 'memory' if any(t in msg for t in self.TEXT) else None
        if kind is None or not self.exts: return None
        flag, lib, opts, rc = self.KINDS[kind]
        if kind not in self.r:
            from symx import buildext
            d = tempfile.mkdtemp(prefix='frds_san_'); self.dirs.append(d)
            buildext.build(names=self.exts, extra=[f"-fsanitize={flag}", '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-fsanitize=float-cast-overflow' if 'undefined' in flag else '-g', '-g'], outdir=d)
            so = subprocess.run(['g++', f"-print-file-name={lib}"], capture_output=True, text=True).stdout.strip()
            self.r[kind] = Replayer(self.pid, d, {'LD_PRELOAD': so, 'OPENBLAS_NUM_THREADS': '1', 'VERIF_SANITISED': '1', **opts})
        a = self.r[kind].ask(q, timeout=240)
        return f"{flag} sanitizer: {kind} error" if a.get('rc') == rc else f"the process crashed (exit {a.get('rc')})" if a['status'] == 'crash' else None

    def close(self):
        for r in self.r.values(): r.close()
        for d in self.dirs: shutil.rmtree(d, ignore_errors=True)


def known_findings(pid):
    """lines 'finding: property=<id> match=<text> -- description' of known_findings.txt"""
    out = []
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding:') and f"property={pid} " in l:
                m = l.split('match=', 1)[1].split(' -- ')
                out.append((m[0].strip(), m[1].strip() if len(m) > 1 else m[0].strip()))
    return out


def failing(r):
    """does a replay answer show the property broken on the real code?"""
    if r['status'] == 'ok': return '; '.join(r['failures'][:3]) if r['failures'] else None
    if r['status'] == 'assumption-unmet': return None
    if r['status'] == 'exception':
        if r['failures']: return '; '.join(r['failures'][:3])
        return f"{r['exception']} at {r.get('where')}" if r.get('in_repo') else None
    if r['status'] == 'crash': return f"the process crashed (exit {r.get('rc')})"
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--serve'); ap.add_argument('--replay'); ap.add_argument('--only'); ap.add_argument('--seq', action='store_true')
    ap.add_argument('--strict', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.pid
    if a.serve is not None:
        import faulthandler
        return replay_server(pid, a.serve or None)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from symx import buildext
    if a.replay:
        q = json.load(open(a.replay))
        obs = load_props(pid)
        exts = sorted({n for o in obs for n in (o.opts.get('exts') or (buildext.EXTS if o.opts.get('ext') else ()))})
        d = buildext.build(names=exts) if exts else None
        rp = Replayer(pid, d)
        r = rp.ask(q); rp.close()
        if d: shutil.rmtree(d, ignore_errors=True)
        print(json.dumps(r, indent=1)[:3000])
        f = failing(r)
        if not f and q.get('msg'):
            san = Sanitised(pid, exts); f = san.ask(q['msg'], q); san.close()
        if f: print(f"VIOLATION property={pid} replay={a.replay}"); return 1
        return 0
    obs = load_props(pid)
    if a.only: obs = [o for o in obs if a.only in o.name]
    cases = [(pid, o.name, p, seed, a.tier, o.opts.get('time_s', 150 if a.tier == 'quick' else 700)) for o in obs for p in o.cases(a.tier)]
    needext = any(o.opts.get('ext') for o in obs)
    extdir = tempfile.mkdtemp(prefix='frds_ext_') if needext else None
    results = []
    builder = None
    hard = 600 if a.tier == 'quick' else 3000
    try:
        if needext:
            import threading
            exts = sorted({n for o in obs for n in (o.opts.get('exts') or (buildext.EXTS if o.opts.get('ext') else ()))})
            from symx import extsym
            irb = threading.Thread(target=lambda: extsym.build_ir(exts, extdir)); irb.start()
            builder = threading.Thread(target=lambda: buildext.build(outdir=extdir, names=exts)); builder.start()
            irb.join()
            os.environ['VERIF_IRDIR'] = extdir
        if a.seq:
            for c in cases: results.append(worker(c))
        else:
            ctxm = mp.get_context('spawn')
            with cf.ProcessPoolExecutor(max_workers=min(8, max(1, len(cases))), mp_context=ctxm, max_tasks_per_child=None) as ex:
                futs = {ex.submit(worker, c): c for c in cases}
                try:
                    for f in cf.as_completed(futs, timeout=hard):
                        try: results.append(f.result())
                        except Exception as e: results.append({'ob': futs[f][1], 'params': futs[f][2], 'error': f"worker died: {e}"})
                except cf.TimeoutError:
                    for f, c in futs.items():
                        if not f.done(): results.append({'ob': c[1], 'params': c[2], 'error': 'time limit'})
                    for p in list(ex._processes.values()): p.kill()
        if builder: builder.join()
        order = {(c[1], json.dumps(c[2])): i for i, c in enumerate(cases)}
        results.sort(key=lambda r: order[(r['ob'], json.dumps(r['params']))])
        # replays on the real code
        rp = Replayer(pid, extdir); san = Sanitised(pid, exts if needext else [])
        violations = []; inconcl = []; validated = 0; unconfirmed = 0; knowns = {}
        kf = known_findings(pid)
        def report(r, msg, asg, choices):
            for m, desc in kf:
                if m in f"{r['ob']}: {msg}":
                    knowns[desc] = knowns.get(desc, 0) + 1; return
            violations.append({'ob': r['ob'], 'params': r['params'], 'asg': asg, 'choices': choices, 'msg': msg})
        for r in results:
            if 'error' in r:
                inconcl.append(f"{r['ob']}{r['params']}: {r['error']}"); continue
            for m in r['inconclusive']: inconcl.append(f"{r['ob']}{r['params']}: {m}")
            for c in r['cands']:
                if len(violations) >= 6: break
                ans = rp.ask({'ob': r['ob'], 'params': r['params'], 'asg': c['asg'], 'choices': c['choices']})
                f = failing(ans) or san.ask(c['msg'], {'ob': r['ob'], 'params': r['params'], 'asg': c['asg'], 'choices': c['choices']})
                if f: report(r, c['msg'] + ' | on the real code: ' + f, c['asg'], c['choices'])
                else:
                    unconfirmed += 1
                    inconcl.append(f"{r['ob']}{r['params']}: counterexample not reproduced ({c['msg']}; replay: {ans['status']} {ans.get('exception', '')})")
            for w in r['witness']:
                ans = rp.ask({'ob': r['ob'], 'params': r['params'], 'asg': w['asg'], 'choices': w['choices']})
                f = failing(ans)
                if f:
                    report(r, 'on a witness run of the real code: ' + f, w['asg'], w['choices'])
                    continue
                if ans['status'] != 'ok':
                    inconcl.append(f"{r['ob']}{r['params']}: witness replay {ans['status']} {ans.get('exception', '')} {ans.get('where', '')}"); continue
                bad = compare(w['obs'], ans['obs'])
                if bad: inconcl.append(f"{r['ob']}{r['params']}: encoding and real code disagree on a witness ({bad})")
                else: validated += 1
            if r['completed'] and not r['witness'] and not r['cands']: inconcl.append(f"{r['ob']}{r['params']}: no witness found (vacuity not excluded)")
            if not r['completed'] and not r['cands'] and not r['inconclusive']: inconcl.append(f"{r['ob']}{r['params']}: no feasible path (vacuous)")
        rp.close(); san.close()
    finally:
        if extdir: shutil.rmtree(extdir, ignore_errors=True)
    # report
    good = [r for r in results if 'error' not in r]
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    ev_viol = 0
    for i, v in enumerate(violations):
        path = os.path.join(HERE, 'evidence', 'replays', f"{pid}-{i}.json")
        json.dump(v, open(path, 'w'), indent=1, default=str)
        print(f"  {v['ob']}{v['params']}: {v['msg'][:400]}")
        print(f"  input: {json.dumps(v['asg'])[:300]} choices: {v['choices']}")
        print(f"VIOLATION property={pid} replay={path}")
        ev_viol += 1
    for d, n in knowns.items(): print(f"KNOWN-FINDING: property={pid} {d}")
    for m in inconcl[:40 if a.v else 12]: print("INCONCLUSIVE", m[:300])
    S = lambda k: sum(r[k] for r in good)
    D = lambda k: sum(r['discharged'][k] for r in good)
    solver_checks = D('solver'); nf = D('normal_form'); conc = D('concrete')
    clean = [r for r in good if not r['cands'] and not r['inconclusive'] and r['complete'] and r['completed']]
    funcs = sorted({f for r in good for f in r['funcs']})
    notes = {}
    for r in good:
        for k, n in (r['notes'] or {}).items(): notes[k] = notes.get(k, 0) + n
    samples = [{'obligation': r['ob'], 'params': r['params'], 'input': {k: v for k, v in list(w['asg'].items())[:40]}, 'choices': w['choices'][:30]} for r in good for w in r['witness'][:1]][:6]
    from symx import harness
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': S('paths') - S('infeasible'), 'transitions': S('queries'), 'traces_validated_against_impl': validated, 'samples': samples,
                       'explanation': "states = symbolic execution paths of the real code (each stands for every input that follows it); transitions = solver queries discharged (path feasibility and assertions); traces_validated_against_impl = solver assignments replayed on the real package whose observations matched the encoding.",
                       'obligation_cases': len(results), 'obligation_cases_fully_decided': len(clean),
                       'assertions_by_solver': solver_checks, 'assertions_by_polynomial_normal_form': nf, 'assertions_concrete_on_path': conc,
                       'solver_answers': {'sat': S('sat'), 'unsat': S('unsat'), 'unknown': S('unknown')},
                       'solver_seconds': round(S('solver_s'), 3), 'infeasible_paths': S('infeasible'), 'llvm_instructions_executed': sum(r.get('extinstr', 0) for r in good),
                       'functions_encoded': funcs, 'files_encoded': sorted({f for r in good for f in r['files']}),
                       'bounds': {o.name: {'cases': o.cases(a.tier), 'bounds': o.bounds} for o in obs},
                       'per_obligation': [{'ob': r['ob'], 'params': r['params'], 'paths': r['paths'], 'queries': r['queries'], 'wall_s': round(r['wall_s'], 2), 'solver_s': round(r['solver_s'], 2)} for r in good],
                       'inconclusive': inconcl[:60], 'counterexamples_not_reproduced': unconfirmed, 'engine_notes': notes},
          'assumptions': sorted({x for o in obs for x in o.opts.get('assume', [])} | set(BASE_ASSUMPTIONS)),
          'wall_s': round(time.time() - t0, 2), 'violations': ev_viol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1, default=str)
    print(f"{pid} {a.tier}: {len(clean)}/{len(results)} obligation cases decided, {S('paths')} paths, {S('queries')} queries, {nf}+{solver_checks}+{conc} assertions (normal form+solver+concrete), {validated} witness replays, solver {S('solver_s'):.1f}s, wall {time.time()-t0:.1f}s")
    if violations: return 1
    if inconcl and (a.strict or not clean): return 2
    return 0


BASE_ASSUMPTIONS = [
    "floating-point values are treated as real numbers (rounding, overflow, NaN and signed zero are outside the claim unless a case passes them literally)",
    "numpy/scipy operations behave as documented (their element-wise meaning is re-stated in symx/npshim.py); validated by replaying solver assignments on the real package",
    "sizes, numbers of steps and of simulations are the ones listed under bounds",
]


def compare(a, b):
    if len(a) != len(b): return f"{len(a)} observations against {len(b)}"
    for (k, x), (k2, y) in zip(a, b):
        if k == '?' or x is None or y is None: continue
        x, y = float(x), float(y)
        if x == y or (x != x and y != y): continue
        if abs(x - y) > 1e-5 * max(abs(x), abs(y), 1e-6): return f"{x} against {y}"
    return None


if __name__ == '__main__':
    sys.exit(main())
