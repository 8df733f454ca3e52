"""Explore all harnesses of a property, validate, replay, report, write evidence."""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


class Harness(object):
    def __init__(self, name, fn, quick, thorough=None, reach=(), note='', stubs=(), env=None):
        self.name, self.fn = name, fn
        self.quick, self.thorough = quick, thorough if thorough is not None else quick
        self.reach, self.note, self.stubs = reach, note, stubs
        self.env = env            # optional callable(ctx_symbolic) installed per process

    def bounds(self, tier):
        return self.thorough if tier == 'thorough' else self.quick


def load_property(pid):
    return importlib.import_module('harnesses.%s' % pid.lower())


# ------------------------------------------------------------------ worker side
_W = {}
_FUNCS = set()


def _trace_functions():
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, 'symx')
    except ValueError:
        return
    root = os.path.realpath(os.path.join(REPO, 'sympl')) + os.sep

    def start(code, off):
        if code.co_filename.startswith(root):
            _FUNCS.add('%s:%s' % (os.path.relpath(code.co_filename, REPO), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def _init(pid, tier, symbolic):
    from . import patches
    import warnings
    warnings.simplefilter('ignore')
    mod = load_property(pid)
    if hasattr(mod, 'install'):
        mod.install(symbolic)
    if symbolic:
        patches.install_symbolic()
    else:
        patches.install_concrete()
    world = patches.World()
    _W.update(mod=mod, tier=tier, world=world, h={h.name: h for h in mod.HARNESSES})
    if symbolic:
        _trace_functions()


def _reset():
    _W['world'].reset()
    r = getattr(_W['mod'], 'reset', None)
    if r:
        r()


def _explore(hname, prefixes, budget, seed):
    """depth-first from the given prefixes, for about `budget` seconds"""
    from . import engine
    h = _W['h'][hname]
    B = h.bounds(_W['tier'])
    stack = list(prefixes)
    agg = dict(h=hname, paths=0, aborted=0, timeouts=0, infeasible=0, exceptions=[], queries=0,
               solver_time=0.0, unknowns=0, realised=0, branches=0, obligations=0,
               discharged=0, undecided=0, reached=set(), assignments=[], violations=[],
               sample=None, maxvars=0)
    t0 = time.time()
    while stack:
        prefix = stack.pop()
        r = engine.run_symbolic(h.fn, B, prefix, seed + len(prefix) * 7919 + sum(
            (i + 1) * d for i, d in enumerate(prefix)), _reset)
        stack.extend(r['alternatives'])
        for k in ('queries', 'solver_time', 'unknowns', 'branches'):
            agg[k] += r[k]
        agg['realised'] += 1 if r['realised'] else 0
        agg['reached'].update(r['reached'])
        st = r['status']
        if st == 'abort':
            agg['aborted'] += 1
        elif st == 'timeout':
            agg['timeouts'] += 1
        elif st == 'infeasible':
            agg['infeasible'] += 1
        else:
            agg['paths'] += 1
            agg['maxvars'] = max(agg['maxvars'], r['nvars'])
            for k in ('obligations', 'discharged', 'undecided'):
                agg[k] += r['obl'][k]
            for a in r['assignments']:
                agg['assignments'].append(a)
                if st == 'exception':
                    agg['exceptions'].append((r['exc'], r['tb'], a))
            for l, a in r['violations']:
                agg['violations'].append((l, a))
            if agg['sample'] is None:
                agg['sample'] = dict(harness=hname, choices=r['choices'], symbolic_inputs=r['nvars'],
                                     decisions=len(r['decisions']), obligations=r['obl'])
        if time.time() - t0 > budget:
            break
    agg['left'] = stack
    agg['funcs'] = sorted(_FUNCS)
    agg['elapsed'] = time.time() - t0
    return agg


def _validate(hname, assignments):
    from . import engine
    h = _W['h'][hname]
    B = h.bounds(_W['tier'])
    out = []
    for a in assignments:
        r = engine.run_concrete(h.fn, B, a, _reset)
        bad = r['failures'] or r['exc']
        out.append((r['status'], r['failures'][:3], r['exc'], a if bad else None, r['checks']))
    return hname, out


# ------------------------------------------------------------------ main side
def replay_file(path):
    """exit 1 when the recorded input violates the property on the current tree"""
    with open(path) as f:
        d = json.load(f)
    _init(d['property'], d['tier'], False)
    from . import engine
    h = _W['h'][d['harness']]
    r = engine.run_concrete(h.fn, h.bounds(d['tier']), d['assignment'], _reset)
    print('harness %s: status=%s checks=%d' % (d['harness'], r['status'], r['checks']))
    if r['exc']:
        print('unexpected exception:', r['exc'])
        print(r.get('tb', ''))
    for f in r['failures']:
        print('FAILED:', f)
    return 1 if (r['failures'] or r['exc']) and r['status'] != 'assume' else 0


def _env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg')
    return e


def _confirm(pid, tier, hname, label, assignment, n):
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, n))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, tier=tier, harness=hname, label=label,
                       assignment=assignment), f, indent=1)
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'check.py'), '--replay', path], cwd=HERE,
                           env=_env(), capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return None, path, 'replay timed out'
    return p.returncode == 1, path, p.stdout[-3000:] + p.stderr[-1500:]


def load_known(pid):
    """known-findings: lines 'finding: property=<id> match=<substring> :: <what>'"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                m, what = line.split('match=', 1)[1].split(' :: ', 1)
                out.append((m, what))
    return out


def main(pid, tier, seed):
    t0 = time.time()
    import resource
    wall_limit = float(os.environ.get('VERIF_WALL', '300' if tier == 'quick' else '3000'))
    sys.path.insert(0, HERE)
    import sympl
    assert os.path.realpath(sympl.__file__).startswith(os.path.realpath(REPO) + os.sep), sympl.__file__
    mod = load_property(pid)
    rng = random.Random(seed)
    nproc = int(os.environ.get('VERIF_NPROC') or min(8, os.cpu_count() or 2))
    ctxmp = mp.get_context('fork')
    known = load_known(pid)
    st = {h.name: dict(paths=0, aborted=0, timeouts=0, infeasible=0, queries=0, solver_time=0.0,
                       unknowns=0, realised=0, branches=0, obligations=0, discharged=0,
                       undecided=0, maxvars=0, validated=0, unsupported=0, spurious=0, left=0,
                       checks=0)
          for h in mod.HARNESSES}
    reached = {h.name: set() for h in mod.HARNESSES}
    funcs, samples, unsupported_msgs = set(), [], {}
    candidates = []        # (harness, label, assignment, kind)
    sym = cf.ProcessPoolExecutor(nproc, mp_context=ctxmp, initializer=_init,
                                 initargs=(pid, tier, True))
    con = cf.ProcessPoolExecutor(max(2, nproc // 2), mp_context=ctxmp, initializer=_init,
                                 initargs=(pid, tier, False))
    pend = {}
    queue = [(h.name, [[]]) for h in mod.HARNESSES]
    truncated = False
    broken = None

    def submit():
        while queue and sum(1 for k in pend.values() if k[0] == 's') < nproc * 2:
            i = 0 if tier == 'quick' else rng.randrange(len(queue))
            hn, pf = queue.pop(i)
            pend[sym.submit(_explore, hn, pf, 1.5, seed)] = ('s', hn, pf)

    submit()
    enough = 12
    while pend:
        done, _ = cf.wait(list(pend), timeout=5, return_when=cf.FIRST_COMPLETED)
        for f in done:
            kind, hn, arg = pend.pop(f)
            try:
                r = f.result()
            except Exception as e:
                broken = '%s worker failed: %r' % (kind, e)
                continue
            if kind == 's':
                s = st[hn]
                for k in ('paths', 'aborted', 'timeouts', 'infeasible', 'queries', 'solver_time',
                          'unknowns', 'realised', 'branches', 'obligations', 'discharged',
                          'undecided'):
                    s[k] += r[k]
                s['maxvars'] = max(s['maxvars'], r['maxvars'])
                reached[hn].update(r['reached'])
                funcs.update(r['funcs'])
                if r['sample'] and len([x for x in samples if x['harness'] == hn]) < 2:
                    samples.append(r['sample'])
                for l, a in r['violations']:
                    candidates.append((hn, l, a, 'assert'))
                for msg, tb, a in r['exceptions']:
                    candidates.append((hn, msg, a, 'exception'))
                    unsupported_msgs.setdefault((hn, msg[:160]), tb)
                if r['assignments']:
                    pend[con.submit(_validate, hn, r['assignments'])] = ('c', hn, None)
                # split leftovers so that all workers stay busy
                left = r['left']
                if left:
                    n = min(len(left), max(1, nproc))
                    for i in range(n):
                        queue.append((hn, left[i::n]))
            else:
                s = st[hn]
                for status, fails, exc, a, checks in r[1]:
                    s['checks'] += checks
                    if status == 'assume':
                        continue
                    if fails or exc:
                        candidates.append((hn, (fails[0] if fails else 'unexpected exception ' + exc),
                                           a, 'concrete'))
                    else:
                        s['validated'] += 1
        n_conc = sum(1 for c in candidates if c[3] in ('concrete', 'assert'))
        over = time.time() - t0 > wall_limit
        if over or broken or n_conc >= 24:
            for hn, pf in queue:
                st[hn]['left'] += len(pf)
            if queue:
                truncated = True
            queue = []
        submit()
    sym.shutdown(wait=False, cancel_futures=True)
    con.shutdown(wait=False, cancel_futures=True)

    # ---------------- replay candidate violations on the real code, in a fresh process
    violations, spurious, findings = [], [], {}
    candidates.sort(key=lambda c: {'assert': 0, 'concrete': 1, 'exception': 2}[c[3]])
    seen, n, misses = {}, 0, {}
    for hn, label, a, kind in candidates:
        key = (hn, label.split(':')[0].split('[')[0][:80])
        if seen.get(key) or len(violations) >= 2:
            continue
        if misses.get((key, kind), 0) >= 4:
            continue
        if kind == 'exception' and not broken and misses.get(('exc', hn), 0) >= 3:
            continue
        n += 1
        ok, path, out = _confirm(pid, tier, hn, label, a, n)
        if ok:
            seen[key] = True
            km = [w for m, w in known if m in out or m in label]
            if km:
                findings[km[0]] = path
                continue
            violations.append((hn, label, path, out))
        else:
            misses[(key, kind)] = misses.get((key, kind), 0) + 1
            if kind == 'exception':
                misses[('exc', hn)] = misses.get(('exc', hn), 0) + 1
                st[hn]['unsupported'] += 1
            else:
                spurious.append((hn, label, kind, path, out))
    hit = {k for k in seen}
    spurious = [s for s in spurious
                if s[2] == 'assert' and (s[0], s[1].split(':')[0].split('[')[0][:80]) not in hit]
    for hn in st:
        st[hn]['spurious'] = len([x for x in spurious if x[0] == hn])

    # ---------------- vacuity
    vac = []
    for h in mod.HARNESSES:
        miss = [r for r in h.reach if r not in reached[h.name]]
        if miss:
            vac.append((h.name, miss))
        elif st[h.name]['paths'] == 0:
            vac.append((h.name, ['no feasible path']))

    wall = time.time() - t0
    tot = {k: sum(s[k] for s in st.values()) for k in
           ('paths', 'aborted', 'timeouts', 'queries', 'unknowns', 'realised', 'branches',
            'obligations', 'discharged', 'undecided', 'validated', 'unsupported', 'left', 'checks')}
    tot['solver_time'] = round(sum(s['solver_time'] for s in st.values()), 2)
    exhaustive = not truncated and not broken and not any(
        tot[k] for k in ('timeouts', 'undecided', 'unknowns', 'realised', 'unsupported', 'left')) \
        and not spurious
    for s in st.values():
        s['solver_time'] = round(s['solver_time'], 2)
    cov = dict(
        states=tot['paths'], transitions=tot['branches'],
        traces_validated_against_impl=tot['validated'], samples=samples[:12],
        exhaustive=exhaustive,
        functions_encoded=sorted(funcs),
        bounds={h.name: h.bounds(tier) for h in mod.HARNESSES},
        harness_notes={h.name: h.note for h in mod.HARNESSES},
        stubs=sorted({x for h in mod.HARNESSES for x in h.stubs}),
        queries_discharged=tot['queries'], solver_time_s=tot['solver_time'],
        obligations_decided_by_solver=tot['obligations'], obligations_unsat=tot['discharged'],
        undecided=tot['undecided'], concretised_paths=tot['realised'],
        unsupported_paths=tot['unsupported'], truncated_prefixes=tot['left'],
        concrete_assertions_evaluated=tot['checks'],
        reach_labels={k: sorted(v) for k, v in reached.items()},
        per_harness=st,
        meaning='states = feasible symbolic paths through the real code; transitions = symbolic '
                'choices and branches taken on them; per path one solver query decides the '
                'negated obligations over all values of the symbolic inputs')
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2),
              violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    print('%s %s: %d paths, %d obligations (%d unsat, %d undecided), %d queries, solver %.1fs, '
          '%d validated, exhaustive=%s, wall %.1fs' % (
              pid, tier, tot['paths'], tot['obligations'], tot['discharged'], tot['undecided'],
              tot['queries'], tot['solver_time'], tot['validated'], exhaustive, wall))
    for hn, s in st.items():
        print('   %-28s %s' % (hn, ' '.join('%s=%s' % (k, v) for k, v in s.items() if v)))
    for what, path in findings.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    for (hn, msg), tb in list(unsupported_msgs.items())[:5]:
        print('   exception in symbolic run of %s: %s' % (hn, msg))
        if os.environ.get('VERIF_DEBUG'):
            print(tb)
    for hn, label, path, out in violations:
        print('--- %s: %s\n%s' % (hn, label, out))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if violations:
        return 1
    if spurious:
        for hn, label, kind, path, out in spurious[:5]:
            print('NOT REPRODUCED %s: %s (%s)\n%s' % (hn, label, path, out))
        # the real code satisfies the property on the solver's input: not a violation, but
        # the obligation is not decided either (exhaustive=False in the evidence)
        if os.environ.get('VERIF_STRICT'):
            return 2
    if broken:
        print('ERROR', broken)
        return 2
    if vac and not truncated:
        print('VACUOUS', vac)
        return 2
    return 0
