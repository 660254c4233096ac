"""
Campaign engine: generated cases -> check function -> counts, shrinking,
replay files.  A worker process runs one shard of every campaign of one
property; run.py fans shards out and merges their reports.
"""
import gc
import hashlib
import json
import os
import random
import time

from . import sim as _sim
import hypothesis
from hypothesis import HealthCheck, Phase, Verbosity, settings
from hypothesis import strategies as st
import hypothesis.internal.conjecture.engine as _hyp_engine

_hyp_engine.MAX_SHRINKING_SECONDS = 45

real_time = _sim._real_mono


class Violation(Exception):
    """The property under check does not hold for this case."""


class Invalid(Exception):
    """The case lies outside the property's domain (counted, not judged)."""


class Stop(Exception):
    pass


class Campaign:
    """
    name:      identifies the campaign in replay files
    run(case): raises Violation, or returns (classes, nontrivial)
    strategy:  Hypothesis strategy of JSON-able cases        (kind 'hyp')
    cases():   iterable of JSON-able cases                   (kind 'enum')
    sweep(case, run): yields derived cases of a drawn one    (kind 'sweep')
    quick/thorough: number of cases over all shards; for 'enum' a cap on the
               number of cases (None = all, evenly thinned if larger)
    """

    def __init__(self, name, run, *, strategy=None, cases=None, sweep=None,
                 quick=1000, thorough=20000, desc=''):
        self.name = name
        self.run = run
        self.strategy = strategy
        self.cases = cases
        self.sweep = sweep
        self.quick = quick
        self.thorough = thorough
        self.desc = desc
        self.kind = ('sweep' if sweep else 'hyp') if strategy is not None \
            else 'enum'


def canon(case):
    return json.loads(json.dumps(case))


def digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(),
                           digest_size=8).digest()


def call(camp, case):
    """camp.run(case); a stray exception from /repo's code is a violation."""
    try:
        return camp.run(case)
    except (Violation, Invalid, Stop, _sim.HarnessError):
        raise
    except Exception as e:
        from . import target
        last = None
        tb = e.__traceback__
        while tb is not None:
            last = tb.tb_frame.f_code.co_filename
            if last.startswith(target.REPO + '/'):
                raise Violation(f'unexpected {e!r} from {last}:'
                                f'{tb.tb_lineno}') from e
            tb = tb.tb_next
        raise


class Stats:
    def __init__(self):
        self.evals = 0
        self.invalid = 0
        self.nontrivial = set()
        self.classes = {}
        self.samples = []
        self.budget_hit = False
        self.exhausted = True

    def add(self, case, classes, nontrivial):
        self.evals += 1
        for c in classes:
            self.classes[c] = self.classes.get(c, 0) + 1
        if nontrivial:
            d = digest(case)
            if d not in self.nontrivial:
                self.nontrivial.add(d)
                n = len(self.nontrivial)
                if n in (1, 20, 200) and len(json.dumps(case)) < 4000:
                    self.samples.append(case)


class Runner:
    """Runs cases of one campaign, counting and remembering failures."""

    def __init__(self, camp, stats, deadline, curfile=None):
        self.camp = camp
        self.stats = stats
        self.deadline = deadline
        self.last_fail = None      # (case, message)
        self.curfile = curfile
        self.n = 0
        self.failed = False

    def __call__(self, case, count=True):
        case = canon(case)
        self.n += 1
        if self.n % 128 == 0:
            gc.collect()
        if self.curfile is not None:
            self.curfile.seek(0)
            self.curfile.write(json.dumps([self.camp.name, case]) + '\n')
            self.curfile.truncate()
            self.curfile.flush()
        if not self.failed and real_time() > self.deadline:
            self.stats.budget_hit = True
            raise Stop
        try:
            r = call(self.camp, case)
        except Violation as e:
            self.failed = True
            self.last_fail = (case, str(e))
            self.stats.evals += 1
            raise
        except Invalid:
            self.stats.invalid += 1
            return
        if count:
            classes, nt = r if r is not None else ((), False)
            self.stats.add(case, classes, nt)


def _fails(camp, case):
    try:
        call(camp, canon(case))
    except Violation as e:
        return str(e)
    except Exception:  # noqa  malformed case
        return None
    return None


def shrink_json(camp, case, msg, seconds=25, tries=1500):
    """Greedy structural shrinking of a JSON case; keeps it failing."""
    end = real_time() + seconds
    n = [0]
    best = [case, msg]

    def attempt(c):
        if n[0] >= tries or real_time() > end:
            raise Stop
        n[0] += 1
        if n[0] % 64 == 0:
            gc.collect()
        m = _fails(camp, c)
        if m is not None:
            best[0], best[1] = canon(c), m
            return True
        return False

    def paths(x, p=()):
        yield p, x
        if isinstance(x, dict):
            for k in sorted(x):
                yield from paths(x[k], p + (k,))
        elif isinstance(x, list):
            for i in range(len(x)):
                yield from paths(x[i], p + (i,))

    def setp(c, p, v):
        c = canon(c)
        if not p:
            return v
        o = c
        for k in p[:-1]:
            o = o[k]
        o[p[-1]] = v
        return c

    try:
        changed = True
        while changed:
            changed = False
            for p, x in list(paths(best[0])):
                if isinstance(x, list) and x:
                    # try removing elements, last first
                    i = len(x) - 1
                    while i >= 0:
                        try:
                            cur = best[0]
                            for k in p:
                                cur = cur[k]
                        except (KeyError, IndexError, TypeError):
                            break
                        if not isinstance(cur, list):
                            break
                        if i < len(cur) and attempt(
                                setp(best[0], p, cur[:i] + cur[i + 1:])):
                            changed = True
                        i -= 1
            for p, x in list(paths(best[0])):
                if type(x) in (int, float) and x:
                    try:
                        cur = best[0]
                        for k in p:
                            cur = cur[k]
                    except (KeyError, IndexError, TypeError):
                        continue
                    if type(cur) not in (int, float) or not cur:
                        continue
                    cands = [0]
                    if type(cur) is int and abs(cur) > 1:
                        cands += [cur // 2, cur - 1]
                    for v in cands:
                        if attempt(setp(best[0], p, v)):
                            changed = True
                            break
    except Exception:  # noqa  Stop, or a path that is not there any more
        pass
    return best[0], best[1]


def run_hyp(camp, runner, n, seed):
    def body(case):
        runner(case)

    test = hypothesis.given(camp.strategy)(body)
    test = settings(
        max_examples=max(1, n), database=None, deadline=None,
        phases=[Phase.generate, Phase.shrink], print_blob=False,
        suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
        report_multiple_bugs=False,
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except Stop:
        pass
    except Violation:
        pass
    except hypothesis.errors.HypothesisException:
        if runner.last_fail is None:
            raise


def run_sweep(camp, runner, n, seed):
    def body(case):
        runner(case)
        for c in camp.sweep(canon(case)):
            runner(c)

    test = hypothesis.given(camp.strategy)(body)
    test = settings(
        max_examples=max(1, n), database=None, deadline=None,
        phases=[Phase.generate], print_blob=False,
        suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
        report_multiple_bugs=False,
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except (Stop, Violation):
        pass
    except hypothesis.errors.HypothesisException:
        if runner.last_fail is None:
            raise


def run_enum(camp, runner, cap, shard, nshards, seed):
    """Every shard takes every nshards-th case; a cap thins at random."""
    try:
        if cap is None:
            for i, case in enumerate(camp.cases()):
                if i % nshards == shard:
                    runner(case)
        else:
            total = getattr(camp, '_total', None)
            if total is None:
                total = camp._total = sum(1 for _ in camp.cases())
            rnd = random.Random(f'{seed} {camp.name}').random
            if total > cap:
                runner.stats.exhausted = False
            j = 0
            for i, case in enumerate(camp.cases()):
                if total <= cap or rnd() * total < cap:
                    if j % nshards == shard:
                        runner(case)
                    j += 1
    except (Stop, Violation):
        pass


def run_shard(mod, tier, seed, shard, nshards, budget, curpath=None,
              only=None):
    """Run one shard of all campaigns of a check module. -> report dict."""
    t0 = real_time()
    report = {'campaigns': [], 'failure': None}
    curf = open(curpath, 'w') if curpath else None
    camps = mod.campaigns(tier)
    for k, camp in enumerate(camps):
        if only and camp.name not in only:
            continue
        stats = Stats()
        c0 = real_time()
        left = len(camps) - k
        # each campaign may use its share of what is left, and a bit more
        share = (budget - (c0 - t0)) / left * (1.6 if left > 1 else 1)
        runner = Runner(camp, stats, c0 + max(5, share), curf)
        n = camp.quick if tier == 'quick' else camp.thorough
        s = seed * 1009 + shard * 101 + k
        if camp.kind == 'hyp':
            run_hyp(camp, runner, -(-n // nshards), s)
        elif camp.kind == 'sweep':
            run_sweep(camp, runner, -(-n // nshards), s)
        else:
            run_enum(camp, runner, n, shard, nshards, seed)
        report['campaigns'].append({
            'name': camp.name, 'kind': camp.kind, 'desc': camp.desc,
            'evaluations': stats.evals, 'invalid': stats.invalid,
            'nontrivial': [d.hex() for d in stats.nontrivial],
            'classes': stats.classes, 'samples': stats.samples,
            'budget_hit': stats.budget_hit,
            'exhaustive': camp.kind == 'enum' and stats.exhausted
            and not stats.budget_hit and runner.last_fail is None,
            'wall_s': round(real_time() - c0, 2),
        })
        if runner.last_fail is not None:
            case, msg = runner.last_fail
            if _fails(camp, case):
                case, msg = shrink_json(camp, case, msg)
            report['failure'] = {'campaign': camp.name, 'case': case,
                                 'message': msg}
            break
    report['wall_s'] = round(real_time() - t0, 2)
    return report


def replay(mod, campaign, case, tier='quick'):
    for camp in mod.campaigns(tier):
        if camp.name == campaign:
            return call(camp, canon(case))
    raise _sim.HarnessError(f'no campaign {campaign!r}')


# -- common strategies -------------------------------------------------------

def sched(max_p=4, max_b=6, big=300):
    gap = st.one_of(st.integers(0, 12), st.integers(0, 60),
                    st.integers(0, big))
    return st.fixed_dictionaries({
        'p': st.lists(st.tuples(gap, st.integers(0, 3)), max_size=max_p),
        'b': st.lists(st.integers(0, 3), max_size=max_b),
        'q': st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3, 5, 8, 13, 21, 34]),
        'r': st.one_of(st.just([]), st.just([]), st.lists(
            st.integers(0, 9), min_size=3, max_size=10)),
        'f': st.sampled_from([0, 0, 0, 1]),
    })


NO_SCHED = {'p': [], 'b': [], 'q': 0}
