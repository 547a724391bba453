"""Decide one property: python3 -m nemsa.check Cxx  (environment: VERIF_SEED, VERIF_TIER, NEMSA_SRC)."""
import importlib
import json
import multiprocessing as mp
from multiprocessing.connection import wait
import os
import re
import signal
import sys
import time
import traceback
from collections import Counter

from . import scen
from .model import Fault, Undet

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('NEMSA_EVIDENCE') or os.path.join(ROOT, 'evidence')
MODULES = ['nemsa.props_market', 'nemsa.props_solver', 'nemsa.props_inputs', 'nemsa.props_docs', 'nemsa.props_cache', 'nemsa.props_db', 'nemsa.props_effects', 'nemsa.props_valid']
STRUCTURES = {'quick': 160, 'thorough': 4000}
DEADLINE = {'quick': 600, 'thorough': 3 * 3600}


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def registry():
    """property -> {obligation name: obligation}"""
    out = {}
    for mn in MODULES:
        try:
            m = importlib.import_module(mn)
        except ModuleNotFoundError as e:
            if e.name == mn:
                continue
            raise
        for p, obs in m.obligations().items():
            out.setdefault(p, {}).update({o.name: o for o in obs})
    return out


class Obligation:
    """one thing to decide.  prepare() analyses the source; structure(k) decides it in the k-th relational structure and
    returns differences.  Obligations without structures (purely syntactic or summary level) are decided by prepare()."""
    structures = True
    weight = 1.0
    single = False      # all structures in one task
    rule = ''

    def __init__(self, name):
        self.name = name
        self.ready = False
        self.funcs = {}
        self.stats = {}

    def prepare(self):
        return []

    def structure(self, k):
        return [], None

    def describe(self):
        return ''


_OBS = {}


def _init(obs):
    _OBS.clear()
    _OBS.update(obs)
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, _alarm)


def _work(task):
    name, lo, hi, seed, until = task
    ob = _OBS[name]
    res = {'name': name, 'n': 0, 'ok': 0, 'undet': Counter(), 'diffs': [], 'funcs': [], 'stats': {}, 'error': None, 'sample': None,
           'lo': lo}
    try:
        if not ob.ready:
            signal.alarm(240)
            d = ob.prepare()
            signal.alarm(0)
            ob.ready = True
            ob.static = d or []
        res['funcs'] = sorted(ob.funcs)
        if lo == 0:
            for x in ob.static:
                res['diffs'].append({'structure': None, 'diffs': [x], 'rows': None})
        if ob.structures:
            for k in range(lo, hi):
                if time.time() > until:
                    res['undet']['deadline'] += hi - k
                    break
                res['n'] += 1
                try:
                    signal.alarm(30)
                    d, rows = ob.structure(seed * 1000003 + k)
                    signal.alarm(0)
                except (Undet, Fault) as e:
                    signal.alarm(0)
                    res['undet']['%s: %s' % (type(e).__name__, str(e)[:120])] += 1
                    continue
                except Timeout:
                    res['undet']['time'] += 1
                    continue
                except RecursionError:
                    signal.alarm(0)
                    res['undet']['recursion'] += 1
                    continue
                if d:
                    res['diffs'].append({'structure': seed * 1000003 + k, 'diffs': d, 'rows': rows() if rows else None})
                    if len(res['diffs']) >= 3:
                        break
                else:
                    res['ok'] += 1
        else:
            res['n'] = 1
            res['ok'] = 0 if ob.static else 1
        res['stats'] = ob.stats
        ob.stats = {}
        if lo == 0:
            res['sample'] = ob.describe()
    except (Undet, Fault, Timeout, RecursionError) as e:
        signal.alarm(0)
        res['error'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    except Exception as e:      # the analyser met something it cannot model: no verdict
        signal.alarm(0)
        tb = traceback.extract_tb(e.__traceback__)
        res['error'] = 'analyser: %s: %s @ %s' % (type(e).__name__, str(e)[:160], ' < '.join(
            '%s:%d' % (os.path.basename(x.filename), x.lineno) for x in reversed(tb[-4:])))
    return res


def known_findings():
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) obligation=(\S+) match=/(.*)/ (.*)$', line.strip())
            if m:
                out.append(m.groups())
    return out


def _child(conn, obs, task):
    _init(obs)
    conn.send(_work(task))
    conn.close()


def _lost(task, why):
    return {'name': task[0], 'n': task[2] - task[1], 'ok': 0, 'undet': Counter({why: task[2] - task[1]}), 'diffs': [], 'funcs': [],
            'stats': {}, 'error': None, 'sample': None, 'lo': task[1]}


def spread(obs, tasks, workers, until, stop):
    """the results of all tasks, each done by a process of its own; one that is lost (memory ran out, say) is tried again with
    nothing beside it, and is undetermined when it is lost once more"""
    ctx = mp.get_context('fork')
    todo, again, running, results = list(tasks), [], {}, []
    while todo or again or running:
        alone = not todo
        while (todo or (again and not running)) and len(running) < workers:
            task = todo.pop(0) if todo else again.pop(0)
            mine, theirs = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(theirs, obs, task), daemon=True)
            p.start()
            theirs.close()
            running[mine] = (p, task, alone)
        for conn in wait(list(running), timeout=5):
            p, task, was_alone = running.pop(conn)
            try:
                results.append(conn.recv())
            except (EOFError, OSError):
                if was_alone or time.time() > until:
                    results.append(_lost(task, 'process lost'))
                else:
                    again.append(task)
            conn.close()
            p.join(5)
        if stop(results) or time.time() > until:
            late = time.time() > until
            for p, task, _ in running.values():
                p.kill()
                if late:
                    results.append(_lost(task, 'deadline'))
            if late:
                results += [_lost(t, 'deadline') for t in todo + again]
            break
    return results


def sources():
    out = []
    for d, _, fs in os.walk(scen.SRC):
        out += [os.path.join(d, f) for f in fs if f.endswith('.py')]
    return sorted(out)


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in STRUCTURES else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    only = argv[1:] or None
    import ast
    for p in sources():
        try:
            with open(p, encoding='utf-8') as fh:
                ast.parse(fh.read())
        except SyntaxError as e:
            print('cannot parse %s: %s' % (p, e))
            return 2
    obs = registry().get(prop)
    if not obs:
        print('no obligations for', prop)
        return 2
    if only:
        obs = {k: v for k, v in obs.items() if k in only}
    until = t0 + DEADLINE[tier]
    tasks = []
    for n, o in obs.items():
        if not o.structures:
            tasks.append((n, 0, 1, seed, until))
            continue
        total = max(8, int(STRUCTURES[tier] * o.weight))
        step = total if o.single else max(1, -(-total // (4 if tier == 'quick' else 16)))
        tasks += [(n, i, min(total, i + step), seed, until) for i in range(0, total, step)]
    tasks.sort(key=lambda t: t[1])
    stop = (lambda rs: sum(bool(r['diffs']) for r in rs) >= 4) if tier == 'quick' else (lambda rs: False)
    results = spread(obs, tasks, min(8, os.cpu_count() or 1, len(tasks)), until + 60, stop)
    return report(prop, tier, seed, obs, results, t0)


def report(prop, tier, seed, obs, results, t0):
    per = {}
    for r in results:
        d = per.setdefault(r['name'], {'n': 0, 'ok': 0, 'undet': Counter(), 'diffs': [], 'funcs': set(), 'stats': Counter(), 'errors': set(),
                                       'sample': None})
        d['n'] += r['n']
        d['ok'] += r['ok']
        d['undet'].update(r['undet'])
        d['diffs'] += r['diffs']
        d['funcs'].update(r['funcs'])
        d['stats'].update(r['stats'])
        d['sample'] = d['sample'] or r['sample']
        if r['error']:
            d['errors'].add(r['error'])
    known = [k for k in known_findings() if k[0] == prop]
    violations, seen_known = [], set()
    for n, d in sorted(per.items()):
        for x in sorted(d['diffs'], key=lambda x: x['structure'] or 0):
            hit = next((k for k in known if re.fullmatch(k[1], n) and all(re.search(k[2], y) for y in x['diffs'])), None)
            if hit:
                seen_known.add(hit)
            else:
                violations.append((n, x))
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    undet = {n: dict(d['undet'], **{e: 1 for e in d['errors']}) for n, d in per.items() if d['undet'] or d['errors']}
    for n, u in sorted(undet.items()):
        for why, c in sorted(u.items())[:4]:
            print('UNDETERMINED property=%s obligation=%s %s (%d)' % (prop, n, why, c))
    ok = [n for n, d in per.items() if d['ok'] and not d['diffs'] and not d['errors']]
    funcs = sorted(set().union(*[d['funcs'] for d in per.values()]) if per else [])
    stats = Counter()
    for d in per.values():
        stats.update(d['stats'])
    evid = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
        'coverage': {
            'explanation': 'Static: /repo/src/nempy is parsed and abstractly interpreted (never imported or executed) from each listed '
                           'entry point with symbolic tables; the resulting gated value-flow summaries are compared with the '
                           'reference summaries by random interpretation over finite relational structures.',
            'rule': sorted({o.rule for o in obs.values() if o.rule}),
            'obligations': len(obs),
            'discharged': len(ok),
            'undetermined': undet,
            'structures_decided': sum(d['ok'] for d in per.values()),
            'structures_tried': sum(d['n'] for d in per.values()),
            'functions_analysed': len(funcs),
            'functions': funcs,
            'compared': dict(stats),
            'samples': [d['sample'] for n, d in sorted(per.items()) if d['sample']][:4],
            'per_obligation': {n: {'structures': d['n'], 'agree': d['ok']} for n, d in sorted(per.items())},
        },
        'assumptions': ['pandas/numpy/python-mip operations behave as modelled in nemsa (documented semantics)',
                        'input tables satisfy the documented input contract unless the obligation says otherwise',
                        'loops over rows are summarised by one generic row'],
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as fh:
        json.dump(evid, fh, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d structures, %d functions analysed, %.1fs' % (
        prop, len(obs), len(ok), evid['coverage']['structures_decided'], len(funcs), time.time() - t0))
    path = os.path.join(EVID, prop + '.violation.json')
    if violations:
        n, x = violations[0]
        with open(path, 'w') as fh:
            json.dump([{'property': prop, 'obligation': n, 'entry': obs[n].describe(), 'construct': sorted(per[n]['funcs']),
                        'structure': x['structure'], 'differences': x['diffs'], 'input_rows': x['rows']}
                       for n, x in violations[:10]], fh, indent=1, default=str)
        shown = set()
        for n, x in violations:
            if n not in shown and len(shown) < 6:
                shown.add(n)
                print('  obligation %s: %s' % (n, '; '.join(str(y) for y in x['diffs'])[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if os.path.exists(path):
        os.remove(path)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
