"""Talks to a lockproc.py server (one per worker)."""
import atexit
import json
import os
import select
import subprocess
import sys
import tempfile

from . import sim as S
from . import target

_p = [None]
HERE = os.path.dirname(os.path.abspath(__file__))


def _start():
    base = os.environ.get('VF_WORK')
    if not base or not os.path.isdir(base):
        base = tempfile.mkdtemp(prefix='vf-lockproc-')
        import shutil
        atexit.register(shutil.rmtree, base, True)
    _p[0] = subprocess.Popen(
        [sys.executable, os.path.join(HERE, 'lockproc.py'), target.REPO,
         os.path.join(base, 'proc')], stdin=subprocess.PIPE,
        stdout=subprocess.PIPE, bufsize=0)


def ask(case, timeout=130):
    if _p[0] is None or _p[0].poll() is not None:
        _start()
    p = _p[0]
    p.stdin.write(json.dumps(case).encode() + b'\n')
    data = b''
    while not data.endswith(b'\n'):
        if not select.select([p.stdout], [], [], timeout)[0]:
            p.kill()
            p.wait()
            _p[0] = None
            raise S.HarnessError('the lock process server does not answer')
        b = os.read(p.stdout.fileno(), 65536)
        if not b:
            p.wait()
            _p[0] = None
            raise S.HarnessError('the lock process server died')
        data += b
    r = json.loads(data)
    if 'error' in r:
        raise S.HarnessError(r['error'] + r.get('tb', ''))
    return r
