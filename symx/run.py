"""Runner: explores the scenarios of one property, replays, writes evidence, prints verdict lines."""
from __future__ import annotations

import argparse
import hashlib
import json
import multiprocessing as mp
import os
import re
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup_path():
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    if Z3PATH not in sys.path:
        sys.path.append(Z3PATH)


class Replayer:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.p = None

    def start(self):
        self.p = subprocess.Popen([PY if os.path.exists(PY) else sys.executable, '-m', 'symx.replayd'], cwd=HERE,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env={**os.environ, 'TZ': 'UTC', 'PYTHONDONTWRITEBYTECODE': '1',
                                       'PROGRESSBAR_DISABLE_FASTPATH': '1'})

    def run(self, scenario, inputs, timeout=60):
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write((json.dumps({'prop': self.prop, 'tier': self.tier, 'scenario': scenario,
                                                'inputs': inputs})
                                    + '\n').encode())
                self.p.stdin.flush()
                r, _, _ = select.select([self.p.stdout], [], [], timeout)
                if not r:
                    self.close()
                    return {'status': 'error', 'msg': 'replay timed out', 'obs': [], 'key': None, 'reached': []}
                line = self.p.stdout.readline()
                if line:
                    return json.loads(line)
            except (BrokenPipeError, OSError, ValueError):
                pass
            self.close()
        return {'status': 'error', 'msg': 'replay process died', 'obs': [], 'key': None, 'reached': []}

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None


_FUNCS = set()


def _monitor():
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, 'symx')
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if '/dliswriter/' in fn:
            _FUNCS.add(fn.split('/src/')[-1] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def explore(prop, tier, idx, budget, seed, known, verbose=False):
    """Explore one scenario; returns a result dict."""
    setup_path()
    os.environ['TZ'] = 'UTC'
    time.tzset()
    import random
    import z3
    from symx import core, models, instrument, symctx
    from symx.core import Explorer, FairExplorer, PathDone, Violation, Budget, Unsupported, Steer
    models.install()
    mod = instrument.load_props(prop, True)
    sc = mod.scenarios(tier)[idx]
    res = {'scenario': sc.name, 'violations': [], 'known': [], 'exhausted': False, 'errors': [], 'mismatch': [],
           'witnesses': 0, 'validated': 0, 'samples': [], 'unsupported': {}, 'done_reasons': {}}
    t0 = time.time()
    rep = Replayer(prop, tier)
    z3.set_param('smt.random_seed', seed % 1000)
    try:
        _monitor()
        loader = lambda: instrument.load_instrumented(models.lru_cache, models.cache)      # noqa: E731
        ex = Explorer(timeout_ms=sc.timeout_ms)
        ex.deadline = t0 + budget
        rng = random.Random(seed * 7919 + idx)
        # three phases: depth first; if that does not finish, a fair order for a while; then depth first again
        dfs, fair = ex, None
        fair_from, fair_to = t0 + budget * 0.45, t0 + budget * 0.8
        n_fair = 0
        nwit = 0
        maxwit = sc.witnesses if tier == 'quick' else sc.witnesses * 4
        seen_known = set()
        complete = 0
        while True:
            ex.begin_path()
            dw = loader()
            ctx = symctx.SymCtx(ex, dw, loader)
            ctx.replayer = lambda inp: rep.run(sc.name, inp)
            core.set_cur(ctx)
            status = 'complete'
            info = ''
            try:
                sc.fn(ctx)
                complete += 1
            except Violation as e:
                status = 'violation'
                inp, key = e.inputs
                _record(res, sc, inp, e.msg, key, known, 'solver counterexample')
            except Budget:
                res['exhausted'] = False
                status = 'budget'
            except PathDone as e:
                status = 'done'
                k = str(e)[:80]
                res['done_reasons'][k] = res['done_reasons'].get(k, 0) + 1
            except Unsupported as e:
                status = 'unsupported'
                info = str(e)[:200]
            except z3.Z3Exception as e:
                status = 'unsupported'
                info = 'z3: ' + str(e)[:200]
            except Steer as e:
                status = 'unsupported'
                info = repr(e)[:200]
            except RecursionError:
                status, info = 'unsupported', 'recursion'
            except Exception as e:       # noqa: BLE001
                status = 'error'
                info = f'{type(e).__name__}: {e}'
                tb = traceback.extract_tb(e.__traceback__)
                info += ' @ ' + ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb[-6:]))
                if verbose:
                    traceback.print_exc()
            if status in ('unsupported', 'error'):
                res['unsupported'][info] = res['unsupported'].get(info, 0) + 1
            if verbose:
                print(f'  path {ex.stats.paths} {status} {info} t={time.time()-t0:.1f} q={ex.stats.queries}',
                      flush=True)
            # a witness of this path on the real code
            nviol = len(res['violations'])
            take = status in ('complete', 'unsupported', 'error') and (nwit < maxwit or rng.random() < 0.02)
            if status in ('unsupported', 'error') and nwit < maxwit + 40:
                take = True
            if take:
                nwit += 1
                try:
                    inp = ctx.build_inputs()
                    if inp is not None:
                        v = rep.run(sc.name, inp)
                        res['witnesses'] += 1
                        if v['status'] == 'violation':
                            _record(res, sc, inp, v['msg'], v.get('key'), known, 'witness of a path (' + status + ')')
                        elif v['status'] == 'ok' and status == 'complete':
                            exp = ctx.digests(ctx.wm)
                            if exp == v['obs']:
                                res['validated'] += 1
                            else:
                                res['mismatch'].append({'inputs': symctx._short(inp), 'symbolic': exp,
                                                        'real': v['obs']})
                        elif status == 'complete':
                            res['mismatch'].append({'inputs': symctx._short(inp), 'status': v['status'],
                                                    'info': v['msg'][-400:]})
                        if len(res['samples']) < 3:
                            res['samples'].append({'scenario': sc.name, 'inputs': symctx._short(inp),
                                                   'verdict': v['status']})
                except (PathDone, Unsupported, z3.Z3Exception, Budget):
                    pass
                except Exception as e:      # noqa: BLE001
                    res['errors'].append(f'witness: {type(e).__name__}: {e} ' + traceback.format_exc()[-300:])
            if len(res['violations']) >= 1:
                break
            now = time.time()
            if ex is dfs and fair is None and now > fair_from and not sc.max_paths:
                if not dfs.next_path():
                    res['exhausted'] = True
                    break
                ex = fair = FairExplorer(random.Random(seed * 104729 + idx), sc.timeout_ms, dfs.stats)
                ex.deadline = fair_to
                maxwit += max(4, maxwit // 2)
                continue
            if ex is fair:
                n_fair += 1
                if now > fair_to:
                    ex = dfs
                continue
            if status == 'budget' or time.time() - t0 > budget:
                if ex.levels or status == 'budget':
                    break
            if sc.max_paths and ex.stats.paths >= sc.max_paths:
                break
            if not ex.next_path():
                res['exhausted'] = True
                break
        core.set_cur(None)
        st = ex.stats.as_dict()
        st.pop('violations', None)
        res['stats'] = st
        res['complete_paths'] = complete
        res['fair_paths'] = n_fair
        res['functions'] = sorted(_FUNCS)
        res['instrumented'] = dict(instrument.TOTALS)
    except BaseException as e:      # noqa: BLE001
        res['errors'].append(f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:])
        # last resort: default inputs on the real code
        try:
            v = rep.run(sc.name, {})
            if v['status'] == 'violation':
                _record(res, sc, {}, v['msg'], v.get('key'), known, 'default inputs (engine failed)')
        except Exception:       # noqa: BLE001
            pass
    finally:
        rep.close()
    res['wall'] = time.time() - t0
    return res


def _record(res, sc, inp, msg, key, known, how):
    k = key or ''
    for e in known:
        if (e.get('scenario') in (None, sc.name)) and re.search(e['match'], f'{k} {msg}'):
            if e['what'] not in res['known']:
                res['known'].append(e['what'])
            return
    res['violations'].append({'scenario': sc.name, 'inputs': inp, 'msg': msg, 'key': k, 'how': how})


def _child(q, prop, tier, idx, budget, seed, known):
    signal.signal(signal.SIGTERM, lambda *a: os._exit(3))
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except (ValueError, OSError):
        pass
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    try:
        r = explore(prop, tier, idx, budget, seed, known)
    except BaseException as e:      # noqa: BLE001
        r = {'scenario': str(idx), 'violations': [], 'known': [], 'exhausted': False, 'errors': [repr(e)]}
    q.put((idx, r))
    q.close()
    q.join_thread()
    os._exit(0)


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)['findings'] if e['property'] == prop and e.get('status') == 'open']


def check(prop, tier, seed, jobs=8, only=None):
    setup_path()
    t0 = time.time()
    from symx import instrument
    mod = instrument.load_props(prop.lower(), False)
    scs = mod.scenarios(tier)
    known = load_known(prop)
    total = {'quick': getattr(mod, 'QUICK_S', 75), 'thorough': getattr(mod, 'THOROUGH_S', 700)}[tier]
    ctxm = mp.get_context('fork')
    q = ctxm.Queue()
    order = sorted(range(len(scs)), key=lambda i: -scs[i].weight)
    if only:
        order = [i for i in order if re.search(only, scs[i].name)]
    running = {}
    results = {}
    wsum = sum(scs[i].weight for i in order)
    stop_new = False
    pend = list(order)
    hard = t0 + total * 1.25 + 40
    while pend or running:
        while pend and len(running) < jobs and not stop_new:
            i = pend.pop(0)
            left = t0 + total - time.time()
            # fair share: what remains of the budget, over the work that remains
            wrem = sum(scs[j].weight for j in pend) + scs[i].weight
            par = min(jobs, len(pend) + 1)
            share = max(left, 2) * min(1.0, max(scs[i].weight * par / wrem, 0.15))
            if not pend:
                share = max(left, 2)
            b = max(3.0, min(share, left if left > 3 else 3))
            p = ctxm.Process(target=_child, args=(q, prop.lower(), tier, i, b, seed, known))
            p.start()
            running[i] = (p, time.time(), b)
        if not running:
            break
        try:
            i, r = q.get(timeout=1.0)
            results[i] = r
            p, _, _ = running.pop(i)
            p.join(5)
            if r['violations']:
                stop_new = True
                # give the rest a moment, then stop
                hard = min(hard, time.time() + 5)
        except Exception:       # queue.Empty
            pass
        now = time.time()
        for i, (p, s, b) in list(running.items()):
            dead = not p.is_alive()
            if dead or now - s > b * 1.3 + 45 or now > hard:
                if dead:
                    try:
                        j, r = q.get(timeout=0.5)
                        results[j] = r
                        running.pop(j, None)
                        if r['violations']:
                            stop_new = True
                            hard = min(hard, time.time() + 5)
                        if j == i:
                            continue
                    except Exception:
                        pass
                p.kill()
                p.join(2)
                running.pop(i, None)
                results.setdefault(i, {'scenario': scs[i].name, 'violations': [], 'known': [], 'exhausted': False,
                                       'errors': ['killed (time or crash)']})
    subprocess.run(['pkill', '-P', str(os.getpid())], stderr=subprocess.DEVNULL)
    return finish(prop, tier, seed, mod, scs, results, order, t0)


def finish(prop, tier, seed, mod, scs, results, order, t0):
    rs = [results[i] for i in order if i in results]
    viol = [v for r in rs for v in r['violations']]
    knownf = sorted({k for r in rs for k in r['known']})
    S = lambda k: sum(r.get('stats', {}).get(k, 0) for r in rs)      # noqa: E731
    funcs = sorted({f for r in rs for f in r.get('functions', [])})
    conc = {}
    reached = {}
    for r in rs:
        for k, v in r.get('stats', {}).get('concretised', {}).items():
            conc[k] = conc.get(k, 0) + v
        for k, v in r.get('stats', {}).get('reached', {}).items():
            reached[k] = reached.get(k, 0) + v
    paths = S('paths')
    complete = sum(r.get('complete_paths', 0) for r in rs)
    exhausted = [r['scenario'] for r in rs if r['exhausted'] and not r['unsupported']]
    per = [{'scenario': r['scenario'], 'paths': r.get('stats', {}).get('paths', 0),
            'complete': r.get('complete_paths', 0), 'exhausted': r['exhausted'],
            'queries': r.get('stats', {}).get('queries', 0), 'wall_s': round(r.get('wall', 0), 1),
            'truncated': r.get('stats', {}).get('truncated', 0), 'paths_fair_order': r.get('fair_paths', 0),
            'witnesses_replayed': r.get('witnesses', 0), 'witnesses_identical': r.get('validated', 0),
            'not_followed': r.get('unsupported', {}), 'done': r.get('done_reasons', {}), 'errors': r['errors'],
            'encoding_mismatches': r.get('mismatch', [])[:3],
            'unreproduced': r.get('stats', {}).get('unreproduced', [])[:3],
            'incomplete': r.get('stats', {}).get('incomplete', [])[:5]} for r in rs]
    samples = [s for r in rs for s in r.get('samples', [])][:12] or [{'note': 'no witness'}]
    notrun = [scs[i].name for i in order if i not in results]
    sched = getattr(mod, 'EXPLANATION', '')
    cov = {
        'explanation': (
            'Symbolic execution of the real source (AST-instrumented at load time from the current tree) with z3: each '
            'path of each scenario is one feasible combination of branch outcomes; its obligations are discharged by '
            'the solver for every input value on that path. Counterexamples are replayed on the uninstrumented '
            'library in a separate process before being reported. ' + sched),
        'bounds': getattr(mod, 'BOUNDS', ''),
        'outside_bounds': getattr(mod, 'OUTSIDE', ''),
        'functions_encoded': funcs, 'functions_encoded_count': len(funcs),
        'scenarios': per, 'scenarios_exhausted': len(exhausted), 'scenarios_total': len(order),
        'scenarios_not_run': notrun,
        'paths': paths, 'paths_complete': complete, 'paths_truncated': S('truncated'),
        'queries_discharged': S('queries'), 'obligations': S('requires'),
        'obligations_sent_to_solver': S('requires_solver'),
        'solver_seconds': round(S('solver_s'), 2), 'solver_unknown': S('unknown'),
        'concretisation_sites': conc, 'reached': reached,
        'witnesses_replayed_on_real_code': sum(r.get('witnesses', 0) for r in rs),
        'witnesses_with_identical_observations': sum(r.get('validated', 0) for r in rs),
        'evaluations': max(S('requires'), 1), 'distinct_nontrivial': max(complete, 2),
        'rule': 'one evaluation = one obligation on one path (all input values of that path at once)',
        'samples': samples,
        'known_findings': knownf,
    }
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'other'), 'coverage': cov,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    out = []
    for v in viol:
        h = hashlib.sha256(json.dumps([v['scenario'], v['inputs']], sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(HERE, 'evidence', f'replay_{prop}_{h}.json')
        with open(p, 'w') as f:
            json.dump({'property': prop, 'tier': tier, **v}, f, indent=1)
        out.append((p, v))
    ev['coverage']['violations_detail'] = [{'replay': p, 'scenario': v['scenario'], 'msg': v['msg'], 'how': v['how']}
                                          for p, v in out]
    tmp = os.path.join(HERE, 'evidence', f'.{prop}.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', f'{prop}.json'))
    for k in knownf:
        print(f'KNOWN-FINDING: property={prop} {k}')
    print(f'{prop} {tier}: {len(order)} scenarios ({len(exhausted)} exhausted), {paths} paths '
          f'({complete} complete), {S("requires")} obligations, {S("queries")} queries, '
          f'{S("solver_s"):.1f}s solver, {sum(r.get("validated", 0) for r in rs)}/'
          f'{sum(r.get("witnesses", 0) for r in rs)} witnesses identical, {time.time() - t0:.1f}s')
    for r in rs:
        if r.get('unsupported') or r['errors'] or r.get('mismatch') or r.get('stats', {}).get('unreproduced'):
            print(f'  note {r["scenario"]}: unsupported={r.get("unsupported")} errors={r["errors"][:1]} '
                  f'mismatch={len(r.get("mismatch", []))} '
                  f'unreproduced={len(r.get("stats", {}).get("unreproduced", []))}')
    for p, v in out:
        print(f'VIOLATION property={prop} replay={p}')
        print(f'  {v["scenario"]}: {v["msg"]} [{v["how"]}]')
    return 1 if out else 0


COMMON_ASSUMPTIONS = [
    'the models of native functions (struct, numpy array operations, open, h5py, progressbar) in /verif/symx agree '
    'with the real ones on the values used; every witness replay compares them with the real library',
    'iteration over containers has concrete length; loops are unrolled by re-execution',
    'float casts between widths are uninterpreted functions (numpy is trusted to cast)',
    'time zone of the process is UTC',
]


def replay_cmd(path):
    setup_path()
    with open(path) as f:
        v = json.load(f)
    r = Replayer(v['property'].lower(), v.get('tier', 'thorough')).run(v['scenario'], v['inputs'])
    print(json.dumps({k: r[k] for k in ('status', 'msg')}, indent=1))
    return 1 if r['status'] == 'violation' else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'debug', 'list'])
    ap.add_argument('arg')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--budget', type=float, default=60)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.cmd == 'replay':
        sys.exit(replay_cmd(a.arg))
    if a.cmd == 'list':
        setup_path()
        from symx import instrument
        for s in instrument.load_props(a.arg.lower(), False).scenarios(a.tier):
            print(s.name, s.weight)
        return
    if a.cmd == 'debug':
        setup_path()
        from symx import instrument
        prop = a.arg.lower()
        scs = [s.name for s in instrument.load_props(prop, False).scenarios(a.tier)]
        for k in [k for k in sys.modules if k == 'props' or k.startswith('props.')]:
            del sys.modules[k]
        for i, n in enumerate(scs):
            if a.only and not re.search(a.only, n):
                continue
            for k in [k for k in sys.modules if k == 'props' or k.startswith('props.')]:
                del sys.modules[k]
            print('==', n, flush=True)
            r = explore(prop, a.tier, i, a.budget, seed, load_known(a.arg.upper()), True)
            st = r.pop('stats', {})
            r.pop('functions', None)
            print(json.dumps(r, indent=1, default=str)[:6000])
            print(json.dumps(st, default=str)[:3000])
        return
    try:
        rc = check(a.arg.upper(), a.tier, seed, a.jobs, a.only)
    except Exception:       # noqa: BLE001
        traceback.print_exc()
        rc = 0
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
