"""parse_to_dict against a model, with literals known by construction."""
import ast
import builtins
import collections
import json
import sys
import types

from hypothesis import strategies as st

from .. import target
from ..engine import Campaign, Invalid, Violation


# -- audit: nothing but literal construction ---------------------------------
_armed = [False]
_trips = []


def _audit(event, args):
    if _armed[0] and event in ('exec', 'os.system',
                               'subprocess.Popen'):
        _trips.append(event)


sys.addaudithook(_audit)


class _Trip:
    """Reachable from every expression; notices any use."""

    def _hit(self, *a, **k):
        _trips.append('tripwire used')
        raise RuntimeError('trip')

    __call__ = __add__ = __getitem__ = __neg__ = __iter__ = _hit
    __str__ = __format__ = __radd__ = __bool__ = __hash__ = _hit

    def __getattr__(self, name):
        if not name.startswith('__'):
            self._hit()
        raise AttributeError(name)

    def __repr__(self):
        return '<tripwire>'


builtins.vf_trip = _Trip()


# -- literals by construction -------------------------------------------------
def render(s):
    """spec -> (text, value)"""
    k = s[0]
    if k == 'i':
        n = s[1]
        f = s[2] % 5
        t = [str(n), hex(n), oct(n), bin(n),
             f'{n:_}'][f] if n >= 0 else str(n)
        return t, n
    if k == 'f':
        v = s[1] / 8.0
        return repr(v), v
    if k == 'e':
        return f'{s[1]}e{s[2]}', float(f'{s[1]}e{s[2]}')
    if k == 's':
        v = s[1]
        f = s[2] % 4
        if f == 0:
            return repr(v), v
        if f == 1:
            return json.dumps(v) if all(ord(c) < 0xd800 for c in v) \
                else repr(v), v
        if f == 2:
            return 'u' + repr(v), v
        return "'' " + repr(v), v        # implicit concatenation
    if k == 'b':
        v = s[1].encode('utf8')
        return repr(v), v
    if k == 'N':
        return 'None', None
    if k == 'B':
        return repr(bool(s[1])), bool(s[1])
    if k == 'E':
        return '...', ...
    if k == 'c':
        im = abs(s[2])
        sign = '+' if s[2] >= 0 else '-'
        return f'{s[1]}{sign}{im}j', \
            complex(s[1], 0) + (im * 1j if s[2] >= 0 else -im * 1j)
    if k == '-':
        t, v = render(['i', abs(s[1]), 0])
        return '-' + t, -v
    if k == '+':
        return f'+{abs(s[1])}', abs(s[1])
    if k in 'tlSd':
        if k == 'd':
            ps = [(render(a), render(b)) for a, b in s[1]]
            txt = '{' + ', '.join(f'{a[0]}: {b[0]}' for a, b in ps) + '}'
            try:
                return txt, {a[1]: b[1] for a, b in ps}
            except TypeError:
                raise Unhash(txt)
        xs = [render(x) for x in s[1]]
        j = ', '.join(x[0] for x in xs)
        vs = [x[1] for x in xs]
        if k == 't':
            return ('(' + j + (',' if len(xs) == 1 else '') + ')'), tuple(vs)
        if k == 'l':
            return '[' + j + ']', vs
        if not xs:
            return 'set()', set()
        try:
            return '{' + j + '}', set(vs)
        except TypeError:
            raise Unhash('{' + j + '}')
    if k == 'w':      # surrounding blanks literal_eval accepts
        t, v = render(s[2])
        return [' ', '\t', '  '][s[1] % 3] + t + ['', ' ', '\n'][s[1] % 3], v
    if k == 'p':
        t, v = render(s[1])
        return '(' + t + ')', v
    raise ValueError(k)


class Unhash(Exception):
    pass


def text_of(s):
    """-> (text, known, value): value is known by construction if known"""
    if s[0] == 'raw':
        return s[1], False, None
    if s[0] == 'deep':
        t = {0: '(', 1: '[', 2: '-', 3: '{', 4: '{1:'}[s[1] % 5] * s[2]
        if s[1] % 5 == 1 and s[3]:
            t += ']' * s[2]
        if s[1] % 5 == 2:
            t += '1'
        return t, False, None
    if s[0] == 'huge':
        return '9' * s[1], False, None
    try:
        t, v = render(s)
        return t, '"w"' not in json.dumps(s), v
    except Unhash as e:
        return str(e), True, Unhash      # not a literal


def ref(text):
    try:
        return ast.literal_eval(text)
    except Exception:
        return text


def same(a, b):
    todo = [(a, b)]      # they may be nested deeper than calls may be
    while todo:
        a, b = todo.pop()
        if type(a) is not type(b):
            return False
        if isinstance(a, (list, tuple)):
            if len(a) != len(b):
                return False
            todo.extend(zip(a, b))
        elif isinstance(a, dict):
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not same(x, y):
                    return False
                todo.append((a[x], b[y]))
        elif isinstance(a, float):
            if not (a == b and str(a) == str(b) or a != a and b != b):
                return False
        elif isinstance(a, complex):
            if repr(a) != repr(b):
                return False
        elif isinstance(a, (set, frozenset)):
            if a != b or sorted(map(repr, a)) != sorted(map(repr, b)):
                return False
        elif a != b:
            return False
    return True


class Obj:
    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f'Obj{self.i}'


class MyStr(str):
    pass


OBJS = [Obj(0), 5, None, 2.5, b'1', ('1',), frozenset(['1']), Obj(1), True,
        ['1', 2], {'a': '1'}, MyStr('1'), MyStr('zz')]
KOBJS = [o for o in OBJS if not isinstance(o, (list, dict))]

PARSERS = {
    'int': int,
    'json': json.loads,
    'upper': lambda x: x.upper(),
    'fail': lambda x: (_ for _ in ()).throw(LookupError(x)),
    'wrap': lambda x: ('p', x),
    'zero': lambda x: 1 // 0,
    'cond': lambda x: len(x) if x > 'm' else [][0],
}


class M(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def run(case):
    m = target.fresh('parsing')
    sep = case['sep']
    pk = case['pk']
    pname = case['parse']
    kw = {}
    if sep != '=' or case['explicit']:
        kw['sep'] = sep
    if pk is not True or case['explicit']:
        kw['parse_keys'] = pk
    if pname:
        parser = PARSERS[pname]
        kw['parse'] = parser

    def want(text, known, value):
        if pname:
            try:
                return parser(text)
            except Exception:
                return text
        r = ref(text)
        if known:
            exp = text if value is Unhash else value
            if not same(exp, r):
                raise AssertionError(f'harness: {text!r} {exp!r} {r!r}')
        return r

    pairs = []     # (raw key, raw value, expected key, expected value)
    nont = False
    classes = set()
    for ks, vs in case['pairs']:
        side = []
        for which, s in (('k', ks), ('v', vs)):
            if s[0] == 'obj':
                o = (KOBJS if which == 'k' else OBJS)
                o = o[s[1] % len(o)]
                if isinstance(o, str):
                    e = want(o, False, None) if which == 'v' or pk else o
                else:
                    e = o
                side.append((o, e))
                classes.add('object ' + which)
            else:
                t, known, v = text_of(s)
                e = want(t, known, v) if which == 'v' or pk else t
                side.append((t, e))
                if e is not t or sep in t or s[0] == 'raw' and \
                        set(t) & set('()._+'):
                    nont = True
                classes.add(f'{which}:{s[0]}')
        pairs.append((side[0][0], side[1][0], side[0][1], side[1][1]))

    shape = case['shape']
    exp_err = None
    items = []
    expected = []
    if shape in ('dict', 'mapping', 'proxy', 'odict'):
        d = {}
        for k, v, ek, ev in pairs:
            if k in d:
                continue      # a mapping has no duplicates
            d[k] = v
            expected.append((ek, ev))
        items = {'dict': d, 'mapping': M(d), 'odict':
                 collections.OrderedDict(d),
                 'proxy': types.MappingProxyType(d)}[shape]
    else:
        for j, (k, v, ek, ev) in enumerate(pairs):
            form = case['forms'][j % len(case['forms'])] \
                if case['forms'] else 0
            strs = isinstance(k, str) and isinstance(v, str)
            if shape == 'strings' or shape == 'mixed' and form == 2:
                if not strs:
                    if shape == 'strings':
                        continue
                    form = 0
                else:
                    s = k + sep + v
                    at = s.find(sep)
                    if at != len(k) or type(k) is MyStr or type(v) is MyStr:
                        # the first occurrence splits, by definition
                        k, v = s[:at], s[at + len(sep):]
                        ek = want(k, False, None) if pk else k
                        ev = want(v, False, None)
                        classes.add('separator in key')
                    if sep in v:
                        classes.add('separator in value')
                        nont = True
                    items.append(s)
                    expected.append((ek, ev))
                    continue
            items.append([k, v] if form == 1 else (k, v))
            expected.append((ek, ev))
        if case['bad'] is not None and shape in ('strings', 'mixed'):
            b = case['bad'][1].replace(sep, '')
            while sep in b:
                b = b.replace(sep, '')
            items.insert(case['bad'][0] % (len(items) + 1), b)
            exp_err = ValueError
            classes.add('no separator')
            nont = True
        if case['lazy'] == 1:
            items = iter(items)
        elif case['lazy'] == 2:
            items = (x for x in list(items))
        elif case['lazy'] == 3:
            items = tuple(items)
    try:
        model = {}
        for ek, ev in expected:
            model[ek] = ev
    except TypeError:
        if exp_err is None:
            raise Invalid('unhashable parsed key')
        raise Invalid('unhashable parsed key')
    del _trips[:]
    _armed[0] = not pname
    try:
        try:
            got = m.parse_to_dict(items, **kw)
        finally:
            _armed[0] = False
    except ValueError as e:
        if exp_err is ValueError:
            if _trips:
                raise Violation(f'evaluated code: {_trips}')
            return sorted(classes) + ['shape=' + shape], nont
        raise Violation(f'raised {e!r} for {items!r}')
    except Exception as e:
        raise Violation(f'raised {e!r} for {items!r} '
                        f'(expected {exp_err or "a result"})')
    if _trips:
        raise Violation(f'evaluated code: {_trips}')
    if exp_err:
        raise Violation(f'no ValueError for an item without {sep!r}; '
                        f'got {got!r}')
    if type(got) is not dict:
        raise Violation(f'returned a {type(got).__name__}')
    if not same(got, model):
        raise Violation(f'returned {got!r}, model {model!r}')
    for ek, ev in expected:
        if isinstance(ev, Obj) and model[ek] is ev and got[ek] is not ev:
            raise Violation('non-string value not passed through')
    for k in got:
        if isinstance(got[k], (list, dict)) and any(
                got[k] == o and isinstance(model[k], type(o))
                and model[k] is o and got[k] is not o for o in OBJS):
            raise Violation('non-string value was copied')
    return sorted(classes) + ['shape=' + shape, 'parse=' + (pname or 'default'),
                              f'pk={pk}'], nont


def run_shapes(case):
    """Mapping, pair sequence and strings describing the same pairs agree."""
    m = target.fresh('parsing')
    sep = case['sep']
    d = {}
    for ks, vs in case['pairs']:
        k, v = text_of(ks)[0], text_of(vs)[0]
        if (k + sep + v).find(sep) != len(k):
            continue
        d[k] = v
    outs = []
    for it in (d, list(d.items()), [k + sep + v for k, v in d.items()]):
        try:
            outs.append(('ok', m.parse_to_dict(it, sep=sep,
                                               parse_keys=case['pk'])))
        except Exception as e:
            outs.append(('err', type(e).__name__))
    if outs[0][0] == 'err':
        if case['pk'] and all(o == ('err', 'TypeError') for o in outs):
            raise Invalid('unhashable')
        raise Violation(f'shapes: {outs!r}')
    for o in outs[1:]:
        if o[0] != 'ok' or not same(o[1], outs[0][1]):
            raise Violation(f'shapes disagree: {outs!r}')
    return ['shapes'], len(d) >= 1


txt = st.text(alphabet=st.one_of(
    st.sampled_from(list('=:ab1"\'\\ \t\n([{)]},._-+jeE#%$|^*?')),
    st.characters(codec=None)), max_size=8)
RAW = ['', 'a', 'abc', 'vf_trip', 'vf_trip()', 'vf_trip.x', '-vf_trip',
       '[vf_trip()]', '{1: vf_trip.x}', "__import__('os').getcwd()", 'open',
       '1+1', '2*3', '"a" "b"', '"a"+"b"', 'f"{vf_trip}"', "f'a'", '1 if 1 '
       'else 2', 'lambda: 1', '[x for x in (1,2)]', 'set()', 'set([1])',
       'frozenset()', 'dict()', 'true', 'null', 'NaN', 'nan', 'inf', '1_0',
       '01', '0x', '1.', '.5', '1e5', '1j', '1+2j', '1-2j', '2j+1', '-1-2j',
       '--1', '~1', 'not 1', '1 # c', '#', '1;2', '1\n2', '1\n', ' 1', '\t1',
       '\n1', '\x001', '1\x00', '\ud800', "'\ud800'", '{[]: 1}', '{{}}',
       '{**{}}', '[*(1,)]', '(1)', '(1,)', '()', '{}', '...', 'Ellipsis',
       'None', 'True', '"1"', "'None'", '"\'a\'"', '["1"]', '"[1]"',
       '{"1": "2"}', "'1=2'", 'b"a"', 'rb"\\a"', 'b"\xe9"', '"\\x"', '"', "'",
       '"""a"""', 'a=b', '=', '==', '1=2', ':', 'print(1)', 'vf_trip[0]',
       '1 == 1', '1,2', '1,', ',', '(yield)', 'await x', 'x:=1', '`1`',
       '0b12', '1__0', '\ufeff1', '１', '1' * 50, '%s', '{0}', '{sep}',
       'vf_trip+1', '[1][0]', '"a".upper()', '(1).real', '"%s"%vf_trip',
       '1 .real', '1 < 2', '1 and 2', '1 or vf_trip()', '+1', '-True',
       '-None', '-"a"', '1+True', '1+2', '1j+2j', '1.5-2.5j']
#: texts which are literals themselves, to be put into string literals
NESTED = ['1', '-1', 'None', 'True', '1.5', "'a'", '"1"', '[1]', '(1, 2)',
          '{}', "b'1'", '...', ' 1', "'1'", '"\'1\'"', "{'1': '2'}", '0x1',
          '1=2', "'='", 'vf_trip()', '"vf_trip()"', "''", "('a')", '1j']
small = st.integers(-30, 2000)
leaf = st.one_of(
    st.tuples(st.just('i'), st.integers(-5, 10**20), st.integers(0, 4)),
    st.tuples(st.just('f'), st.integers(-10**6, 10**6)),
    st.tuples(st.just('e'), st.integers(0, 99), st.integers(-400, 400)),
    st.tuples(st.just('s'), txt, st.integers(0, 3)),
    st.tuples(st.just('s'), st.sampled_from(NESTED), st.integers(0, 3)),
    st.tuples(st.just('b'), st.text('ab\\\'"\n=é', max_size=5)),
    st.just(('N',)), st.tuples(st.just('B'), st.integers(0, 1)),
    st.just(('E',)),
    st.tuples(st.just('c'), small, small),
    st.tuples(st.just('-'), small), st.tuples(st.just('+'), small),
)
lit = st.recursive(leaf, lambda c: st.one_of(
    st.tuples(st.sampled_from(['t', 'l', 'S']), st.lists(c, max_size=3)),
    st.tuples(st.just('d'), st.lists(st.tuples(c, c), max_size=3)),
    st.tuples(st.just('w'), st.integers(0, 2), c),
    st.tuples(st.just('p'), c),
), max_leaves=6)
raw = st.tuples(st.just('raw'), st.one_of(txt, st.sampled_from(RAW)))
odd = st.one_of(
    st.tuples(st.just('deep'), st.integers(0, 4), st.integers(1, 4000),
              st.integers(0, 1)),
    st.tuples(st.just('huge'), st.integers(4000, 6000)))
obj = st.tuples(st.just('obj'), st.integers(0, 30))
SEPS = ['=', ':', '=', '==', '->', '|', '.', '*', '^', ' ', '%s', '\n', 'a',
        '()', '\\', "'", ',', '1', 'aa', 'é', '=:']


def strategy(pair_k, pair_v):
    return st.fixed_dictionaries({
        'pairs': st.lists(st.tuples(pair_k, pair_v), max_size=4),
        'sep': st.sampled_from(SEPS),
        'pk': st.sampled_from([True, True, False]),
        'parse': st.sampled_from(['', '', '', '', ''] + sorted(PARSERS)),
        'explicit': st.booleans(),
        'shape': st.sampled_from(['dict', 'mapping', 'proxy', 'odict',
                                  'pairs', 'strings', 'strings', 'mixed',
                                  'mixed']),
        'forms': st.lists(st.integers(0, 2), max_size=4),
        'bad': st.one_of(st.none(), st.none(), st.none(), st.tuples(
            st.integers(0, 4), st.one_of(txt, st.sampled_from(RAW)))),
        'lazy': st.integers(0, 3),
    })


def table():
    for r in RAW:
        for shape in ('dict', 'pairs', 'strings'):
            for pk in (True, False):
                for sep in ('=', ':', ' '):
                    for kv in (0, 1):
                        p = [['raw', r], ['raw', 'q']]
                        if not kv:
                            p.reverse()
                        yield {'pairs': [p], 'sep': sep, 'pk': pk,
                               'parse': '', 'explicit': False,
                               'shape': shape, 'forms': [], 'bad': None,
                               'lazy': 0}
    for a in range(5):
        for n in (50, 150, 400, 1000, 3000, 100000):
            for c in (0, 1):
                yield {'pairs': [[['raw', 'k'], ['deep', a, n, c]]],
                       'sep': '=', 'pk': True, 'parse': '',
                       'explicit': False, 'shape': 'strings', 'forms': [],
                       'bad': None, 'lazy': 0}


def campaigns(tier):
    k = st.one_of(lit, raw, raw, obj)
    v = st.one_of(lit, lit, raw, raw, obj)
    kv = st.one_of(lit, raw)
    return [
        Campaign('table', run, cases=table, quick=None, thorough=None,
                 desc='every listed text in every shape'),
        Campaign('random', run, strategy=strategy(k, v), quick=16000,
                 thorough=400000),
        Campaign('odd', run, strategy=strategy(
            st.one_of(raw, odd), st.one_of(lit, odd)), quick=800,
            thorough=16000),
        Campaign('shapes', run_shapes, strategy=st.fixed_dictionaries({
            'pairs': st.lists(st.tuples(kv, kv), max_size=4),
            'sep': st.sampled_from(SEPS), 'pk': st.booleans()}),
            quick=6000, thorough=100000),
    ]
