"""Ways to call FileLock.acquire."""
EPS = 1e-4
POLL = 0.05
DEFAULTS = [-1, 0, 0.12]
# (args, kwargs), mode, timeout, poll; mode: 'nb', 'block', 'timed', 'default'
#   'lax' is a timed one asked not to block: upper bound only
FORMS = [
    ((False,), {}, 'nb', 0, POLL),
    ((), {}, 'default', None, POLL),
    ((), {'timeout': 0}, 'timed', 0, POLL),
    ((), {'timeout': 0.12}, 'timed', 0.12, POLL),
    ((True, -1), {}, 'block', None, POLL),
    ((False,), {'timeout': -1}, 'nb', 0, POLL),
    ((False,), {'timeout': 0.1}, 'lax', 0.1, POLL),
    ((True, 0.07, 0.02), {}, 'timed', 0.07, 0.02),
    ((), {'timeout': 0.3, 'poll_interval': 0.5}, 'timed', 0.3, 0.5),
    ((), {'blocking': False, 'timeout': None}, 'nb', 0, POLL),
    ((), {'timeout': 0.05, 'poll_interval': 0.01}, 'timed', 0.05, 0.01),
    ((False, -1, 0.3), {}, 'nb', 0, 0.3),
    ((), {'timeout': -1}, 'block', None, POLL),
    ((True,), {'poll_interval': 0.2}, 'default', None, 0.2),
    ((True, 0), {}, 'timed', 0, POLL),
]


def params(form, default):
    """-> args, kwargs, mode, timeout, poll"""
    a, k, mode, T, poll = FORMS[form % len(FORMS)]
    if mode == 'default':
        mode, T = ('block', None) if default < 0 else ('timed', default)
    return a, k, mode, T, poll
