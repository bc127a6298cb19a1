"""Driver of one check: deductive groups + run-time contract evaluation, known findings, evidence, verdict."""
import os, sys, time, json, random, traceback, importlib, signal, hashlib, pickle, select, inspect

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Missing(Exception):
    """An anchor (module, class, function) the harness needs is not there: undecided."""


class Fail(Exception):
    """A contract evaluated to false on the real code."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def need(modname, *attrs):
    try:
        m = importlib.import_module(modname)
    except ImportError as e:
        raise Missing(f'{modname}: {e}')
    out = []
    for a in attrs:
        o = m
        for part in a.split('.'):
            if not hasattr(o, part):
                raise Missing(f'{modname}.{a}')
            o = getattr(o, part)
        out.append(o)
    return out[0] if len(out) == 1 else (out if out else m)


def check(cond, msg, key=None):
    if not cond:
        raise Fail(msg() if callable(msg) else msg, key)


class GroupResult:
    def __init__(self, name):
        self.name = name
        self.obls = []           # dicts
        self.undecided = []
        self.violations = []     # dict(key, msg, replayed, detail)
        self.assumptions = []
        self.functions = {}
        self.paths = 0
        self.time = 0.0
        self.solver_time = 0.0


class Ctx:
    """Handed to every deductive group."""

    def __init__(self, name, tier, seed):
        from . import core
        self.name, self.tier, self.seed = name, tier, seed
        self.session = core.Session(timeout_ms=8000 if tier == 'quick' else 30000)
        self.replayers = []       # fn(obligation) -> message or None
        self.assumptions = []
        self.undecided = []

    def assume_note(self, *txt):
        self.assumptions.extend(txt)

    def on_refuted(self, fn):
        """fn(obligation) -> (message, params) when the counter-model (or a search guided by it) fails on the real code."""
        self.replayers.append(fn)

    def explore(self, fn, **kw):
        from . import core
        res = core.explore(self.session, fn, **kw)
        return res

    def run(self, fn, name=None, raises_ok=(), raise_msg=None):
        """Explore fn; every path must end normally (or be cut); an escaping exception is a refuted obligation."""
        from . import core
        ok = 0
        for p, (kind, v) in core.explore(self.session, fn):
            if kind == 'ok':
                ok += 1
            elif kind == 'raise':
                if raises_ok and isinstance(v, tuple(raises_ok)):
                    ok += 1
                    continue
                if isinstance(v, (TypeError, AttributeError, NameError, NotImplementedError, core.Unsupported)):
                    # typically a stand-in object of the harness lacking something the code now uses: not a verdict about the code
                    self.undecided.append(f'{name or self.name}: {type(v).__name__} under symbolic stand-ins: {str(v)[:200]}')
                    continue
                r, m, _ = core._z3_check(p.pc, 4000)
                o = core.Obligation(f'{name or self.name}: no exception [{type(v).__name__}]')
                o.detail = str(v)[:300]
                o.havoc = p.havoc
                o.status = 'discharged' if r == core.z3.unsat else ('refuted' if r == core.z3.sat else 'unknown')
                o.model, o.backend, o.pc = m, 'z3', list(p.pc)
                self.session.obls.append(o)
        if not ok:
            self.undecided.append(f'{name or self.name}: no path reaches the postcondition (vacuous)')
        return ok


def run_group(name, fn, tier, seed):
    from . import core
    g = GroupResult(name)
    t0 = time.time()
    ctx = Ctx(name, tier, seed)
    try:
        fn(ctx)
    except core.Unsupported as e:
        g.undecided.append(f'{name}: unsupported: {e}')
    except Missing as e:
        g.undecided.append(f'{name}: missing anchor: {e}')
    except core.PyRaise as e:
        g.undecided.append(f'{name}: exception outside a path: {e.exc!r}')
    except RecursionError as e:
        g.undecided.append(f'{name}: recursion limit')
    except MemoryError:
        g.undecided.append(f'{name}: out of memory')
    except Exception as e:                      # engine problem: undecided, never a violation
        g.undecided.append(f'{name}: engine error: {type(e).__name__}: {e} @ {traceback.format_exc()[-700:]}')
    s = ctx.session
    g.undecided.extend(ctx.undecided)
    if not s.obls and not g.undecided:
        g.undecided.append(f'{name}: zero obligations')
    s.reach_flush()
    reach = [o for o in s.obls if o.reachable]
    if s.obls and not reach:
        g.undecided.append(f'{name}: all obligations vacuous')
    refuted = list(s.refuted)
    for o in refuted:
        if any('unsupported' in u for u in g.undecided):
            pass
        msg = None
        params = None
        for r in ctx.replayers:
            try:
                out = r(o)
            except (core.Unsupported, Missing):
                out = None
            except Exception as e:
                out = None
                o.detail += f' [replayer error {type(e).__name__}: {e}]'
            if out:
                msg, params = out if isinstance(out, tuple) else (out, None)
                break
        g.violations.append(dict(key='obligation:' + o.name, msg=msg or '', replayed=bool(msg), params=params,
                                 detail=f'{o.name}: refuted by {o.backend}; {o.detail}',
                                 model=str(o.model)[:3000] if o.model is not None else None))
    g.obls = [dict(name=o.name, status=o.status, backend=o.backend, time=round(o.time, 4), reachable=bool(o.reachable)) for o in s.obls]
    for o in s.unknown:
        g.undecided.append(f'{o.name}: unknown ({o.backend})')
    g.assumptions = ctx.assumptions
    g.functions = dict(s.functions)
    g.paths, g.solver_time = s.paths, s.solver_time
    g.time = time.time() - t0
    return g


# ------------------------------------------------------------------------------ bounded part
class CaseRun:
    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.failures = []
        self.skipped = []
        self.per_suite = {}


def run_cases(mod, tier, seed, budget, only=None):
    R = CaseRun()
    rng = random.Random(seed)
    t_end = time.time() + budget
    seen_fail = {}
    miss = set()
    try:
        gen = mod.cases(tier, rng)
        for item in gen:
            fn, params = item[0], item[1]
            key = item[2] if len(item) > 2 else None
            suite = fn.__name__
            if suite in miss:
                continue
            try:
                r = fn(params)
                R.evaluations += 1
                R.per_suite[suite] = R.per_suite.get(suite, 0) + 1
                k = key if key is not None else (r if isinstance(r, (str, tuple)) else None)
                if k is not None:
                    kk = hashlib.md5((suite + repr(k)).encode()).hexdigest()
                    if kk not in R.keys:
                        R.keys.add(kk)
                        if R.per_suite[suite] <= 40 and len([1 for s in R.samples if s['contract'] == suite]) < 2:
                            R.samples.append(dict(contract=suite, input=_short(params)))
            except Missing as e:
                miss.add(suite)
                R.skipped.append(f'{suite}: missing anchor {e}')
            except Fail as e:
                R.evaluations += 1
                _add_fail(R, seen_fail, suite, params, str(e), e.key)
            except Exception as e:
                if not _through_repo(e):
                    # the oracle itself failed (for instance a decomposition that does not converge): says nothing about the code
                    R.skipped.append(f'{suite}: oracle failed with {type(e).__name__}: {str(e)[:100]}')
                    continue
                R.evaluations += 1
                _add_fail(R, seen_fail, suite, params, f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}', f'exception:{type(e).__name__}')
            if time.time() > t_end:
                R.skipped.append(f'time budget {budget}s reached')
                break
            if len(R.failures) >= 12:
                break
    except Missing as e:
        R.skipped.append(f'missing anchor {e}')
    return R


def _through_repo(e):
    """was the exception raised while code of the repository was running?"""
    repo = os.path.realpath(os.environ.get('PYVC_REPO', '/repo')) + os.sep
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        t = e.__traceback__
        while t is not None:
            if os.path.realpath(t.tb_frame.f_code.co_filename).startswith(repo):
                return True
            t = t.tb_next
        e = e.__cause__ or e.__context__
    return False


def _add_fail(R, seen, suite, params, msg, key):
    k = f'{suite}:{key or "contract"}'
    seen[k] = seen.get(k, 0) + 1
    if seen[k] <= 2:
        R.failures.append(dict(key=k, suite=suite, params=params, msg=msg))


def _short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


# ------------------------------------------------------------------------------ process pool (fork per job)
def _fork_job(fn, timeout):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        code = 0
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            if not os.environ.get('PYVC_VERBOSE'):
                os.dup2(devnull, 2)
            sys.setrecursionlimit(20000)
            out = fn()
            data = pickle.dumps(out)
        except BaseException as e:
            data = pickle.dumps(('__crash__', f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}'))
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        os._exit(code)
    os.close(w)
    return dict(pid=pid, r=r, buf=b'', end=time.time() + timeout)


def run_jobs(jobs, nproc):
    """jobs: list of (name, fn, timeout). Returns {name: result | ('__crash__', msg) | ('__timeout__', s)}"""
    pending = list(jobs)
    live = {}
    res = {}
    while pending or live:
        while pending and len(live) < nproc:
            name, fn, to = pending.pop(0)
            j = _fork_job(fn, to)
            j['name'], j['to'] = name, to
            live[j['r']] = j
        rl, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rl:
            j = live[fd]
            d = os.read(fd, 1 << 20)
            if d:
                j['buf'] += d
                continue
            os.close(fd)
            del live[fd]
            try:
                os.waitpid(j['pid'], 0)
            except ChildProcessError:
                pass
            try:
                res[j['name']] = pickle.loads(j['buf'])
            except Exception as e:
                res[j['name']] = ('__crash__', f'child died: {e}')
        for fd in list(live):
            j = live[fd]
            if time.time() > j['end']:
                try:
                    os.killpg(j['pid'], signal.SIGKILL)
                except ProcessLookupError:
                    try:
                        os.kill(j['pid'], signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                os.close(fd)
                del live[fd]
                os.waitpid(j['pid'], 0)
                res[j['name']] = ('__timeout__', j['to'])
    return res


def load_known(pid):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn))['findings'] if k['property'] == pid]


def main(mod, tier, seed, replay=None):
    t0 = time.time()
    pid = mod.ID
    level = getattr(mod, 'LEVEL', 'proof')
    groups = list(getattr(mod, 'groups', lambda: [])())
    if replay:
        d = json.load(open(replay))
        if d.get('suite'):
            fn = getattr(mod, d['suite'])
            params = d['params']
            try:
                fn(params)
                print('replay: contract holds on this tree')
                return 0
            except Fail as e:
                print(f'replay: {e}')
                return 1
        groups = [g for g in groups if g[0] == d.get('group')]
    gt = 250 if tier == 'quick' else 700
    bt = getattr(mod, 'BUDGET', {'quick': 90, 'thorough': 600})[tier]
    jobs = []
    if hasattr(mod, 'cases') and not replay:
        nsh = 1
        jobs.append(('__cases__', lambda: run_cases(mod, tier, seed, bt), bt + 150))
    for name, fn in groups:
        jobs.append((name, (lambda name=name, fn=fn: run_group(name, fn, tier, seed)), gt))
    if hasattr(mod, 'prepare'):
        mod.prepare()
    res = run_jobs(jobs, int(os.environ.get('PYVC_JOBS', '8')))
    undecided, violations, obls, assumptions = [], [], [], list(getattr(mod, 'ASSUMPTIONS', []))
    functions, paths, solver_time = {}, 0, 0.0
    for name, fn in groups:
        r = res[name]
        if isinstance(r, tuple):
            undecided.append(f'{name}: {r[0].strip("_")} {r[1]}')
            continue
        undecided.extend(r.undecided)
        for o in r.obls:
            o['group'] = name
            obls.append(o)
        for v in r.violations:
            v['group'] = name
            violations.append(v)
        for a in r.assumptions:
            if a not in assumptions:
                assumptions.append(a)
        for k, n in r.functions.items():
            functions[k] = functions.get(k, 0) + n
        paths += r.paths
        solver_time += r.solver_time
    C = res.get('__cases__')
    if isinstance(C, tuple):
        undecided.append(f'run-time contracts: {C[0].strip("_")} {C[1]}')
        C = None
    fails = []
    if C is not None:
        for f in C.failures:
            fails.append(dict(key=f['key'], msg=f['msg'], suite=f['suite'], params=f['params'], replayed=True))
    known = load_known(pid)
    kn_keys = {k['key']: k for k in known if k.get('status') == 'known'}
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    real, seen_known = [], {}
    for f in fails:
        if f['key'] in kn_keys:
            seen_known[f['key']] = f
        else:
            real.append(f)
    obl_real = []
    for v in violations:
        if v['key'] in kn_keys:
            seen_known[v['key']] = v
        else:
            obl_real.append(v)
    for k in kn_keys.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    # obligations refuted: attach a concrete failing input when run-time evaluation found one
    out = []
    for n, f in enumerate(real):
        path = os.path.join(VERIF, 'evidence', 'replays', f'{pid}-{n}.json')
        rel = [v['detail'] for v in obl_real]
        json.dump(dict(property=pid, suite=f['suite'], params=_jsonable(f['params']), message=f['msg'], failed_obligations=rel,
                       how=f'/verif/run.sh {pid} --replay {path}'), open(path, 'w'), indent=1)
        out.append((path, True, f['key'], f['msg']))
    for n, v in enumerate(obl_real):
        path = os.path.join(VERIF, 'evidence', 'replays', f'{pid}-obl-{n}.json')
        json.dump(dict(property=pid, group=v['group'], obligation=v['key'], verifier_output=v['detail'], model=v['model'],
                       message=v['msg'], input=_jsonable(v['params']), how=f'/verif/run.sh {pid} --replay {path}'), open(path, 'w'), indent=1)
        out.append((path, v['replayed'] or bool(real), v['key'], v['msg'] or v['detail']))
    nobl = len(obls)
    ndis = sum(1 for o in obls if o['status'] == 'discharged' and o['reachable'])
    backs = {}
    for o in obls:
        if o['status'] == 'discharged':
            backs[o['backend']] = backs.get(o['backend'], 0) + 1
    cov = dict(
        obligations=nobl, discharged=sum(1 for o in obls if o['status'] == 'discharged'),
        vacuous=sum(1 for o in obls if not o['reachable']),
        checker_cmd=f'/verif/run.sh {pid} --tier {tier}',
        trusted_base=getattr(mod, 'TRUSTED', TRUSTED_DEFAULT),
        backends=backs, solver_seconds=round(solver_time, 2), paths=paths,
        functions_under_contract=sorted(functions), undecided=undecided,
        obligation_groups={g: sum(1 for o in obls if o['group'] == g) for g, _ in groups},
        slowest=sorted([(o['time'], o['name']) for o in obls], reverse=True)[:3])
    if C is not None:
        cov.update(evaluations=C.evaluations, distinct_nontrivial=len(C.keys), rule=getattr(mod, 'RULE', 'run-time contract evaluation on the real functions'),
                   samples=C.samples[:12] or [dict(note='none')], bounded_contracts=C.per_suite, bounded_skipped=C.skipped)
    if level == 'other':
        cov['explanation'] = getattr(mod, 'EXPLANATION', mod.__doc__ or '')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(out))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w'), indent=1, default=str)
    print(f'{pid}: obligations {nobl} discharged {cov["discharged"]} undecided {len(undecided)} '
          f'evaluations {C.evaluations if C else 0} violations {len(out)} wall {ev["wall_s"]}s')
    for u in undecided:
        print('UNDECIDED', u[:1500])
    if C:
        for s in C.skipped:
            print('SKIPPED', s)
    out.sort(key=lambda x: not x[1])
    confirmed = [o for o in out if o[1]]
    for path, rep, key, msg in out:
        print(f'  failed: {key}: {str(msg)[:800]}')
    if out:
        path, rep, key, msg = out[0]
        print(f'VIOLATION property={pid} replay={path}' + ('' if rep else ' no-failing-input-found'))
        return 1
    return 0


def _jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)


TRUSTED_DEFAULT = [
    'pyvc symbolic interpreter (/verif/pyvc) and its models of Python builtins and numpy (/verif/pyvc/npmodel.py)',
    'z3 5.3.2 and cvc5 1.4.2',
    'machine integers and floats treated as mathematical integers and reals; NaN/inf outside the symbolic domain',
]
