"""Fan shards out, confirm failures in a fresh process, write evidence."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = os.path.join(ROOT, 'vf', 'run.py')
NSHARDS = 8
HARD = {'quick': 780, 'thorough': 7200}
SOFT = {'quick': 300, 'thorough': 5400}


def env():
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = '0'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['GIT_OPTIONAL_LOCKS'] = '0'
    return e


def replay_file(pid, path, timeout):
    """-> 'violated' | 'held' | 'error' | 'hang', output"""
    try:
        p = subprocess.run([sys.executable, RUN, pid, '--replay', path],
                           env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return 'hang', (e.stdout or b'').decode(errors='replace')
    return ({0: 'held', 1: 'violated'}.get(p.returncode, 'error'),
            p.stdout.decode(errors='replace'))


def write_replay(pid, name, d):
    rd = os.path.join(ROOT, 'replays', pid)
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, name + '.json')
    with open(path, 'w') as f:
        json.dump(d, f, indent=1)
    return path


def known_findings(pid):
    """Lines 'known: {json}' of known_findings.txt for this property."""
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known:'):
                d = json.loads(line[6:])
                if d['property'] == pid:
                    out.append(d)
    return out


def check(pid, tier, only):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in SOFT:
        tier = 'quick'
    work = tempfile.mkdtemp(prefix=f'vf-{pid}-')
    try:
        return _check(pid, tier, only, t0, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _check(pid, tier, only, t0, seed, work):
    failure = None       # (replay path, message)
    errors = []
    # 1. regression tier: saved inputs
    corpus = sorted(glob.glob(os.path.join(ROOT, 'corpus', pid, '*.json')))
    corpus_n = 0
    # 2. shards
    ncpu = min(NSHARDS, os.cpu_count() or 1)
    pending = list(range(NSHARDS))
    running = {}
    reports = {}
    soft = SOFT[tier] * min(1.0, 1.0)
    e = env()
    e['VF_WORK'] = work

    def start(i):
        out = os.path.join(work, f'out{i}.json')
        cur = os.path.join(work, f'cur{i}.json')
        log = open(os.path.join(work, f'log{i}.txt'), 'wb')
        p = subprocess.Popen(
            [sys.executable, RUN, pid, '--worker', str(i), str(NSHARDS),
             tier, str(seed), str(soft), cur, out] + only,
            env=e, stdout=log, stderr=subprocess.STDOUT)
        running[i] = (p, out, cur, time.time())

    def logtail(i):
        try:
            with open(os.path.join(work, f'log{i}.txt'), 'rb') as f:
                return f.read()[-3000:].decode(errors='replace')
        except OSError:
            return ''

    # the saved inputs run as a shard of their own, in one process
    corpus_proc = None
    if corpus and not only:
        listing = os.path.join(work, 'corpus.json')
        corpus_proc = subprocess.Popen(
            [sys.executable, os.path.join(ROOT, 'vf', 'corpus.py'), pid,
             listing] + corpus, env=e, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)

    stop = False
    hung = []
    stale = {}
    while (pending or running) and not stop:
        while pending and len(running) < ncpu:
            start(pending.pop(0))
        time.sleep(0.02)
        for i, (p, out, cur, st) in list(running.items()):
            if p.poll() is not None:
                del running[i]
                if os.path.exists(out):
                    reports[i] = json.load(open(out))
                    if reports[i].get('error'):
                        errors.append(f'shard {i}: {reports[i]["error"]}')
                        stop = True
                    elif reports[i]['failure']:
                        stop = True
                else:
                    errors.append(f'shard {i} died ({p.returncode}): '
                                  + logtail(i))
                    stop = True
                continue
            # hang detection: the same case for too long
            now = time.time()
            try:
                m = os.stat(cur).st_mtime_ns
            except OSError:
                m = 0
            if stale.get(i, (None,))[0] != m:
                stale[i] = (m, now)
            elif now - stale[i][1] > 120 and m:
                hung.append(i)
                stop = True
        if time.time() - t0 > HARD[tier]:
            errors.append('hard time limit')
            stop = True
    for i, (p, out, cur, st) in running.items():
        p.kill()
        p.wait()

    # 3. confirm failures
    for i in sorted(reports):
        f = reports[i].get('failure')
        if f and failure is None:
            path = write_replay(pid, f'{f["campaign"]}-{seed}-{i}', {
                'property': pid, 'campaign': f['campaign'], 'tier': tier,
                'case': f['case'], 'message': f['message']})
            r, o = replay_file(pid, path, 300)
            if r in ('violated', 'hang'):
                failure = (path, f['message'])
                break
            # not reproduced alone: state carried over between cases?
            path = write_replay(pid, f'shard-{seed}-{i}', {
                'property': pid, 'tier': tier, 'seed': seed, 'shard': i,
                'nshards': NSHARDS, 'message': f['message'],
                'alone': {'campaign': f['campaign'], 'case': f['case'],
                          'result': o}})
            r, o = replay_file(pid, path, 400)
            if r == 'violated':
                failure = (path, f['message'])
                break
            errors.append(f'shard {i}: failure did not reproduce: '
                          f'{f["message"]}\n{json.dumps(f["case"])}\n{o}')
    if failure is None and hung:
        i = hung[0]
        try:
            name, case = json.loads(open(os.path.join(
                work, f'cur{i}.json')).readline())
            path = write_replay(pid, f'hang-{seed}-{i}', {
                'property': pid, 'campaign': name, 'tier': tier,
                'case': case, 'message': 'does not terminate'})
            r, o = replay_file(pid, path, 100)
            if r in ('hang', 'violated'):
                failure = (path, 'the case does not terminate')
            else:
                errors.append(f'shard {i} hung once, not reproduced')
        except Exception as ex:  # noqa
            errors.append(f'shard {i} hung: {ex!r}')

    if corpus_proc is not None:
        if failure is not None:
            corpus_proc.kill()
            corpus_proc.wait()
        else:
            try:
                o, _ = corpus_proc.communicate(timeout=300)
                res = json.load(open(listing))
                corpus_n = len(res)
                for path, r, msg in res:
                    if r == 'violated' and failure is None:
                        failure = (path, msg)
                    elif r == 'error':
                        errors.append(f'{path}: {msg}')
            except Exception as ex:  # noqa
                corpus_proc.kill()
                errors.append(f'corpus: {ex!r}')

    # 4. evidence
    meta = _meta(pid)
    camps = {}
    for i in sorted(reports):
        for c in reports[i].get('campaigns', ()):
            d = camps.setdefault(c['name'], {
                'kind': c['kind'], 'desc': c['desc'], 'evaluations': 0,
                'invalid': 0, 'nontrivial': set(), 'classes': {},
                'samples': [], 'budget_hit': False, 'exhaustive': True})
            d['evaluations'] += c['evaluations']
            d['invalid'] += c['invalid']
            d['nontrivial'].update(c['nontrivial'])
            for k, v in c['classes'].items():
                d['classes'][k] = d['classes'].get(k, 0) + v
            if len(d['samples']) < 3:
                d['samples'] += c['samples'][:3 - len(d['samples'])]
            d['budget_hit'] |= c['budget_hit']
            d['exhaustive'] &= c['exhaustive']
    ev = sum(d['evaluations'] for d in camps.values())
    nt = sum(len(d['nontrivial']) for d in camps.values())
    samples = [{'campaign': n, 'case': s} for n, d in camps.items()
               for s in d['samples'][:2]]
    for d in camps.values():
        d['distinct_nontrivial'] = len(d.pop('nontrivial'))
        d.pop('samples')
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': meta.get('level', 'exploration'),
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': nt,
            'rule': meta.get('rule', ''),
            'samples': samples, 'campaigns': camps,
            'saved_inputs_replayed': corpus_n,
            'shards_completed': sum(1 for r in reports.values()
                                    if not r.get('error')),
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if failure else 0,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', f'.{pid}.tmp')
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1)
    os.rename(tmp, os.path.join(ROOT, 'evidence', f'{pid}.json'))

    for d in known_findings(pid):
        print(f'KNOWN-FINDING: property={pid} {d["what"]}')
    if failure is not None:
        print(failure[1] if len(failure[1]) < 6000 else
              failure[1][:6000] + ' ...')
        print(f'VIOLATION property={pid} replay={failure[0]}')
        return 1
    if errors:
        for x in errors:
            print('ERROR:', x)
        return 2
    print(f'{pid}: held on {ev} cases ({nt} distinct non-trivial), '
          f'{corpus_n} saved inputs, {evidence["wall_s"]} s'
          + (' [time budget hit]' if any(d['budget_hit']
                                         for d in camps.values()) else ''))
    return 0


def _meta(pid):
    from vf import meta
    return meta.META[pid]
