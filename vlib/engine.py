"""Runs the laws of one property over generated cases.

A property module defines TITLE, RULE and a list LAWS.  A law has
  strategy : a hypothesis strategy producing one JSON-able case,
  check    : check(case, ctx); raises Violation when the code under test breaks the law,
             returns False when the case turned out trivial (anything else: non-trivial),
  quick / thorough : how many cases to generate in each tier.
All randomness of a case is inside the case (array contents are written out or are
given by a drawn seed), so a case is its own replay file.
"""
import contextlib, hashlib, json, os, signal, sys, time, traceback, collections
import multiprocessing, concurrent.futures
import hypothesis.errors

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The code under test broke the law."""


class _Abort(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


class Law:
    def __init__(self, name, strategy, check, quick, thorough=None, shards=None, fixed=()):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.shards = shards
        self.fixed = list(fixed)


def law(laws, strategy, quick, thorough=None, shards=None, fixed=(), large=None):
    """large: (factor, quick, thorough), the same law on a few cases of that much longer sides."""
    def deco(f):
        laws.append(Law(f.__name__, strategy, f, quick, thorough, shards, fixed))
        if large:
            from . import gen
            k, q, t = large
            laws.append(Law(f.__name__ + '_large', gen.large(strategy, k), f, q, t, 4))
        return f
    return deco


class Ctx:
    def __init__(self, law, tmp):
        self.law, self.labels, self._tmp = law, collections.Counter(), tmp
        self.case_labels = []
        self._n = 0

    def label(self, *labels):
        self.case_labels.extend(str(s) for s in labels)

    def tmpdir(self):
        """A fresh scratch directory for this case."""
        self._n += 1
        d = os.path.join(self._tmp, '%d_%d' % (os.getpid(), self._n))
        os.makedirs(d)
        self._dirs = getattr(self, '_dirs', []) + [d]
        return d

    def clean(self):
        import shutil
        for d in getattr(self, '_dirs', []):
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


_state = {}


def snapshot_state():
    """Remember every plain module-level value of tools21cm, to undo set_* calls."""
    import numpy as np
    snap = {}
    for n, m in list(sys.modules.items()):
        if m is not None and (n == 'tools21cm' or n.startswith('tools21cm.')):
            d = {}
            for k, v in vars(m).items():
                if k.startswith('__'):
                    continue
                if isinstance(v, (int, float, str, bool, np.generic)) or v is None:
                    d[k] = v
                elif isinstance(v, np.ndarray) and v.size < 10000:
                    d[k] = v.copy()
            snap[n] = d
    _state['snap'] = snap


def restore_state():
    import numpy as np
    for n, d in _state['snap'].items():
        md = vars(sys.modules[n])
        for k, v in d.items():
            md[k] = v.copy() if isinstance(v, np.ndarray) else v
    np.random.seed(12345)


def call(f, *a, **k):
    """Call the code under test; an exception it raises is a violation (the inputs are valid)."""
    try:
        return f(*a, **k)
    except Violation:
        raise
    except (KeyboardInterrupt, MemoryError, _Abort):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for fr in tb:
            if os.sep + 'tools21cm' + os.sep in fr.filename:
                where = '%s:%s' % (os.path.basename(fr.filename), fr.name)
        raise Violation('%s raised %s: %s (in %s)' % (getattr(f, '__name__', f), type(e).__name__,
                                                     str(e)[:300], where or '?')) from e


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


def run_one(lw, case, ctx):
    """True when non-trivial, False when trivial; raises Violation."""
    restore_state()
    ctx.case_labels = []
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        r = lw.check(case, ctx)
    except (Violation, MemoryError, hypothesis.errors.HypothesisException):
        raise
    except (Exception, CaseTimeout) as e:
        # a result the oracle cannot even compare (wrong type, unit or length), or a case that never ends
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation('the outcome cannot be judged: %s: %s (%s:%d)' % (
            type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno)) from e
    finally:
        signal.alarm(0)
        ctx.clean()
    return r is not False


CASE_LIMIT_S = 150


def _on_alarm(*_):
    raise CaseTimeout('one case ran for more than %d s' % CASE_LIMIT_S)


def _silence():
    if os.environ.get('VERIF_DEBUG'):
        return
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 1)
    os.dup2(n, 2)


def _task(args):
    """One shard of one law, in a forked worker."""
    prop, li, shard, n, seed, deadline, tmp, shrink_s = args
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, Verbosity
    import tools21cm  # noqa  (already imported by the parent)
    _silence()
    import gc
    gc.collect()
    gc.freeze()     # some functions under test call gc.collect(); keep that cheap
    lw = _state['laws'][li]
    ctx = Ctx(lw, tmp)
    res = dict(law=lw.name, evaluations=0, nontrivial=[], distinct=0, labels={}, samples=[], fail=None,
               error=None, skipped=0, wall=0.0)
    t0 = time.time()
    labels, hashes, nontriv = collections.Counter(), set(), set()
    st = dict(fail_at=None)

    def body(case):
        if st['fail_at'] is None and time.time() > deadline:
            res['skipped'] += 1
            return
        if st['fail_at'] is not None and time.time() - st['fail_at'] > shrink_s:
            raise _Abort()
        if st['fail_at'] is None:
            res['evaluations'] += 1
        h = case_hash(case)
        try:
            nt = run_one(lw, case, ctx)
        except Violation as e:
            if st['fail_at'] is None:
                st['fail_at'] = time.time()
            best = res['fail']
            size = len(json.dumps(case, default=str))
            # hypothesis shrinks towards simpler cases; keep the last failing one
            res['fail'] = dict(case=case, message=str(e)[:2000], size=size, seen=1 + (best or {}).get('seen', 0))
            raise
        if st['fail_at'] is None:
            hashes.add(h)
            for l in set(ctx.case_labels):
                labels[l] += 1
            if nt:
                nontriv.add(h)
                if len(res['samples']) < 2:
                    s = json.dumps(case, default=str)
                    res['samples'].append(case if len(s) < 1500 else s[:1500] + '...')

    try:
        if shard == 0:
            for c in lw.fixed:
                body(c)
        test = hypothesis.given(lw.strategy)(body)
        test = settings(max_examples=max(n, 1), database=None, deadline=None, print_blob=False,
                        report_multiple_bugs=False, verbosity=Verbosity.quiet,
                        phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=(HealthCheck.too_slow, HealthCheck.data_too_large,
                                               HealthCheck.large_base_example))(test)
        sd = int(hashlib.sha1(('%d/%s/%s/%d' % (seed, prop, lw.name, shard)).encode()).hexdigest()[:12], 16)
        test = hypothesis.seed(sd)(test)
        test()
    except _Abort:
        pass
    except Violation:
        pass
    except BaseException as e:  # noqa
        if res['fail'] is None:
            res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    res['wall'] = time.time() - t0
    res['distinct'] = len(hashes)
    res['nontrivial'] = sorted(nontriv)
    res['labels'] = dict(labels)
    return res


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, default=str)
        f.write('\n')
    os.replace(tmp, path)


def load_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)['findings'] if e['property'] == prop]


def run_property(mod, prop, tier, seed, budget_s, tmp, only_law=None, workers=None):
    """Returns (exit code, evidence dict)."""
    t0 = time.time()
    laws = [l for l in mod.LAWS if only_law is None or l.name == only_law]
    _state['laws'] = laws
    snapshot_state()
    workers = workers or int(os.environ.get('VERIF_WORKERS', '8'))
    tasks = []
    deadline = t0 + budget_s
    for li, lw in enumerate(laws):
        n = int((lw.quick if tier == 'quick' else lw.thorough) * getattr(mod, 'SCALE', 3))
        k = lw.shards or max(1, min(workers, n // 40))
        for s in range(k):
            tasks.append((prop, li, s, -(-n // k), seed, deadline, tmp, 45 if tier == 'quick' else 120))
    # spread: shard 0 of every law first
    tasks.sort(key=lambda t: (t[2], t[1]))
    results, errors = [], []
    ctxmp = multiprocessing.get_context('fork')
    with concurrent.futures.ProcessPoolExecutor(max_workers=workers, mp_context=ctxmp) as ex:
        futs = [(t, ex.submit(_task, t)) for t in tasks]
        for t, f in futs:
            try:
                results.append(f.result())
            except BaseException as e:  # noqa
                errors.append('%s shard %d: worker died: %r' % (laws[t[1]].name, t[2], e))
    known = []
    for e in load_findings(prop):
        if e.get('status', 'open') != 'open':
            continue
        lw = next((l for l in mod.LAWS if l.name == e['law']), None)
        if lw is None or (only_law and lw.name != only_law):
            continue
        try:
            with open(os.devnull, 'w') as nul, contextlib.redirect_stdout(nul), contextlib.redirect_stderr(nul):
                run_one(lw, e['case'], Ctx(lw, tmp))
        except Violation as v:
            known.append((e, str(v)[:300]))
    per, fails = collections.OrderedDict(), []
    allnt = set()
    for r in results:
        p = per.setdefault(r['law'], dict(evaluations=0, distinct=0, nontrivial=0, skipped_over_budget=0,
                                          labels=collections.Counter(), cpu_s=0.0, samples=[]))
        p['evaluations'] += r['evaluations']
        p['distinct'] += r['distinct']
        p['skipped_over_budget'] += r['skipped']
        nt = {r['law'] + ':' + h for h in r['nontrivial']}
        p['nontrivial'] += len(nt - allnt)
        allnt |= nt
        p['labels'].update(r['labels'])
        p['cpu_s'] = round(p['cpu_s'] + r['wall'], 2)
        if len(p['samples']) < 2:
            p['samples'] += r['samples'][:2 - len(p['samples'])]
        if r['fail']:
            fails.append(r)
        if r['error']:
            errors.append('%s: %s' % (r['law'], r['error']))
    wall = time.time() - t0
    viol = []
    seen = set()
    for r in sorted(fails, key=lambda r: r['fail']['size']):
        if r['law'] in seen:
            continue
        seen.add(r['law'])
        path = os.path.join(VERIF, 'out', 'replays', '%s-%s.json' % (prop, r['law']))
        write_json(path, dict(property=prop, law=r['law'], case=r['fail']['case'], message=r['fail']['message'],
                              seed=seed, tier=tier))
        viol.append((r['law'], path, r['fail']['message']))
    for e, m in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    for l, path, m in viol:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  law %s: %s' % (l, m.splitlines()[0][:500] if m else ''))
    total = sum(p['evaluations'] for p in per.values())
    rule = mod.RULE
    if any(l.endswith('_large') for l in per):
        rule += '; NAME_large: the cases of law NAME with sides or lists several times larger'
    cov = dict(evaluations=total, distinct_nontrivial=len(allnt), rule=rule,
               samples=[dict(law=l, case=s) for l, p in per.items() for s in p['samples'][:1]],
               laws={l: {k: (dict(v) if isinstance(v, collections.Counter) else v) for k, v in p.items() if k != 'samples'}
                     for l, p in per.items()},
               known_findings_reproduced=[e['id'] for e, _ in known],
               budget_hit=any(p['skipped_over_budget'] for p in per.values()))
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=len(viol))
    told = set()
    for e in errors:
        if e.split(':')[0] not in told:
            told.add(e.split(':')[0])
            print('HARNESS-ERROR %s' % e[:60].splitlines()[0] + '\n' + '\n'.join(e.splitlines()[-9:]), file=sys.stderr)
    code = 1 if viol else (2 if errors else 0)
    return code, ev
