"""C15: array, object and string functions against a list/dict/str model. Oracle: a mirrored world stepped along with the script, aliasing included."""
import copy
import datetime
import itertools
import re
import string
import urllib.parse

from vf.host import execute, library, model_of
from vf.lang import escape_string
from vf.reflib import MUTATORS, SPEC, WALKERS, Fail, OneOf, apply
from vf.run import Violation
from vf.values import DATES, REGEXES, compare, heavy, norm_dt, show, tname

RULE = ('A case is one script: a history of up to 30 calls over a pool of six aliased variables (global or local), each call written directly, through an alias of '
        'the function or through systemPartial, with nested calls as arguments, indexes -2..len+2 as float literals or computed ints, and one call in six with a '
        'wrong-typed, missing, surplus or out-of-range argument; or a block of an exhaustive grid (every index against every length 0..4, every start/end pair, every '
        'type at every argument position, every argument count). After every call a host monitor pictures the result and the whole pool including '
        'aliasing and compares it with a mirrored list/dict/str world. Plus regexEscape and URL encoding on one string. Distinct by text.')
REQUIRED = ('calls', 'failures', 'mutations', 'pictures', 'aliased_pictures', 'circular', 'partial_calls', 'repeated_partials', 'alias_calls', 'nested_calls', 'local_histories', 'regex_texts', 'regex_nonmatches',
            'urls', 'callbacks', 'grid_calls', 'wrong_typed', 'missing', 'surplus', 'out_of_range', 'failures_with_container', 'large_histories', 'far_histories')
ASSUMPTIONS = ('The return value of arrayDelete, an empty separator of stringSplit and an empty search string at or beyond the end of the text are not judged '
               '(documentation and pinned tests disagree or are silent); a missing value argument of arraySet/objectSet is not generated.',)

VARS = ('v0', 'v1', 'v2', 'v3', 'v4', 'v5')
ALPHABET = ('a', 'b', 'A', 'ab', 'ba', 'é', '\U0001f600', '1', '2', ' ', ',', '.', '', 'ß', '\u0130', '\x00', '\u00a0', '\u3000')
TEXTS = ('', 'a', 'abc', 'abab', 'aaa', ' pad ', '\t\nx\r ', 'a,b,,c', 'é\U0001f600z', '\U0001f600\U0001f600', 'Straße', '\u0130I\u0131', "it's", 'a\\b', '\n', 'x\x00y', 'e\u0301', '2', '10', '\u00a0\u2003x y\u3000\n', '\u2028\u00a0')
KEYS = ('a', 'b', 'c', '', 'é', '__proto__', 'a b', '1')


def picture(value, memo=None):
    """A comparable picture with aliasing; functions are one kind (script functions have no identity in the mirror)"""
    memo = {} if memo is None else memo
    kind = tname(value)
    if kind == 'number':
        return ('number', 'nan') if value != value else ('number', value + 0)
    if kind == 'datetime':
        return (kind, norm_dt(value))
    if kind == 'regex':
        return (kind, value.pattern)
    if kind == 'function':
        return (kind,)
    if kind in ('array', 'object'):
        if id(value) in memo:
            return ('ref', memo[id(value)])
        memo[id(value)] = len(memo)
        if kind == 'array':
            return (kind, tuple(picture(item, memo) for item in value))
        return (kind, tuple((key, picture(item, memo)) for key, item in value.items()))
    return (kind, value if kind in ('null', 'boolean', 'string') else repr(value))


# Callbacks: script text and mirror
CALLBACKS = '''\
function isTwo(x):
    return x == 2
endfunction
function ident(x):
    return x
endfunction
function never():
endfunction
function isText(x):
    return systemType(x) == 'string'
endfunction
function desc(x, y):
    return systemCompare(y, x)
endfunction
function byLength(x, y):
    return (stringLength(x) - stringLength(y)) / 8
endfunction
function equal(x, y):
    return 0
endfunction
function byType(x, y):
    return systemCompare(systemType(x), systemType(y)) * 1000
endfunction
'''


def mirror_length(value):
    return len(value) if tname(value) == 'string' else 0


PREDICATES = {'isTwo': lambda x: compare(x, 2) == 0, 'ident': lambda x: x, 'never': lambda x: None, 'isText': lambda x: tname(x) == 'string'}
COMPARERS = {'desc': lambda x, y: compare(y, x), 'byLength': lambda x, y: mirror_length(x) - mirror_length(y), 'equal': lambda x, y: 0,
             'byType': lambda x, y: compare(tname(x), tname(y))}
MIRROR_FN = {**PREDICATES, **COMPARERS}


def call_mirror(fn, args):
    return fn(*args)


def host_globals(extra=None):
    out = {'dt': DATES[0], 'dt2': datetime.date(2024, 1, 1), 're1': REGEXES[0], 'inf': float('inf'), 'nan': float('nan'), 'int1': 1, 'int0': 0}
    for ix, text in enumerate(TEXTS):
        out[f't{ix}'] = text
    out.update(extra or {})
    return out


CONSTANTS = {'dt': DATES[0], 'dt2': datetime.date(2024, 1, 1), 're1': REGEXES[0], 'inf': float('inf'), 'nan': float('nan')}


class World:
    """A script under construction and the mirrored world it should produce"""

    def __init__(self, mon):
        self.mon = mon
        self.lines = []
        self.pool = {name: None for name in VARS}
        self.expected = []
        self.notes = []
        self.partials = 0
        self.texts = {}

    # ------- arguments: (text, mirror value)
    def lit(self, value):
        kind = tname(value)
        if kind == 'null':
            return 'null', None
        if kind == 'boolean':
            return ('true' if value else 'false'), value
        if kind == 'string':
            if value in TEXTS and len(value) % 2:
                return f't{TEXTS.index(value)}', value
            if not value.isprintable():
                name = f'c{len(self.texts)}'
                self.texts[name] = value
                return name, value
            return "'" + escape_string(value, "'") + "'", value
        raise KeyError(kind)

    @staticmethod
    def number(rng, value):
        value = float(value)
        text = repr(abs(value))
        if value == int(value) and abs(value) < 1e15:
            text = str(int(abs(value)))
            pick = rng.random()
            if pick < 0.5:
                text += '.0'
            elif pick < 0.6:
                text += 'e+0'
            elif pick < 0.65:
                text = '0' + text
        elif 'e' in text and 'e-' not in text and 'e+' not in text:
            text = text.replace('e', 'e+')
        return ('-' if value < 0 else '') + text, value

    def emit(self, rng, name, args, to=None, form='direct', record=True):
        """One call; steps the mirror and records the expected picture"""
        texts = [text for text, _ in args]
        values = [value for _, value in args]
        if form == 'alias':
            self.lines.append(f'fn = {name}')
            text = f'fn({", ".join(texts)})'
            self.mon.count('alias_calls')
        elif form == 'partial' and args:
            split = rng.randint(1, len(args))
            again = rng.random() < 0.5
            if again:
                split = len(args)
            self.partials += 1
            self.lines.append(f'p{self.partials} = systemPartial({name}, {", ".join(texts[:split])})')
            if rng.random() < 0.3:
                # A second call through the same partial: an independent failure must leave it intact
                self.lines.append(f'p{self.partials}({", ".join(["null"] * 9)})')
                if '...*' in SPEC[name]:
                    self.lines.pop()
            text = f'p{self.partials}({", ".join(texts[split:])})'
            self.mon.count('partial_calls')
            if again:
                # The same fully bound partial is called twice: the first call must not have changed what is bound
                self.step(name, values, text, to, record)
                self.mon.count('repeated_partials')
        else:
            text = f'{name}({", ".join(texts)})'
        return self.step(name, values, text, to, record)

    def step(self, name, values, text, to, record):
        self.mon.count('calls')
        has_container = any(type(value) in (list, dict) for value in values)
        before = picture(values + list(self.pool.values()))
        try:
            result = apply(name, values, call_mirror)
            if name in MUTATORS:
                self.mon.count('mutations')
        except Fail as exc:
            result = exc.value
            self.mon.count('failures')
            if has_container:
                self.mon.count('failures_with_container')
            if picture(values + list(self.pool.values())) != before:
                raise RuntimeError('the reference mutates on failure') from None
        self.lines.append(f'r = {text}')
        options = result.values if isinstance(result, OneOf) else (result,)
        if isinstance(result, OneOf):
            self.mon.count('open_results')
        elif to is not None:
            self.pool[to] = result
            self.lines.append(f'{to} = r')
        if record:
            self.lines.append(f'snap(r, {", ".join(VARS)})')
            self.expected.append([picture([option] + [self.pool[var] for var in VARS]) for option in options])
            self.notes.append(text)
        return result

    def script(self, local):
        head = CALLBACKS
        if not local:
            return head + '\n'.join(self.lines)
        self.mon.count('local_histories')
        body = '\n'.join('    ' + line for line in self.lines)
        return head + f'function main({", ".join(VARS)}):\n{body}\nendfunction\nmain()'

    def run(self, local=False):
        """Execute the script and compare every picture"""
        text = self.script(local)
        seen = []

        def snap(args, unused_options):
            seen.append(picture(list(args)))
            return None
        model = model_of(text)
        out = execute(model, host_globals({**self.texts, 'snap': snap}))
        for ix, options in enumerate(self.expected):
            if ix >= len(seen):
                break
            self.mon.count('pictures')
            if "'ref'" in repr(options[0]):
                self.mon.count('aliased_pictures')
            if seen[ix] not in options:
                raise Violation(f'call {ix + 1}, {self.notes[ix]}: result or pool differs from the list/dict/str model', observed=repr(seen[ix]), expected=repr(options[0]),
                                calls=self.notes[max(0, ix - 6):ix + 1])
        if out.kind != 'value' or len(seen) != len(self.expected):
            raise Violation(f'the history did not run to its end: {out.text()}', pictures=len(seen), expected=len(self.expected), script=text[-1500:])


# ---------------------------------------------------------------- argument generation

def circular(value, path=()):
    if type(value) not in (list, dict):
        return False
    if id(value) in path or len(path) > 40:
        return True
    path += (id(value),)
    return any(circular(item, path) for item in (value if type(value) is list else value.values()))


def wrong_args(world):
    """Texts and values of every type"""
    return [('null', None), ('true', True), ('false', False), ('0', 0.0), ('1.5', 1.5), ('-1', -1.0), ('7.0', 7.0), ("'str'", 'str'), ("''", ''), ("'1'", '1'), ('dt', DATES[0]), ('re1', REGEXES[0]),
            ('ident', PREDICATES['ident']), ('dt2', datetime.date(2024, 1, 1)), ('1e+300', 1e300), ('inf', float('inf')), ('nan', float('nan')), ('arrayNew()', []), ('objectNew()', {}),
            ('arrayNew(1)', [1.0]), ("objectNew('a', 1)", {'a': 1.0})]


def fresh(value):
    return list(value) if type(value) is list else (dict(value) if type(value) is dict else value)


def pick_var(rng, world, kind):
    names = [name for name in VARS if tname(world.pool[name]) == kind]
    return rng.choice(names) if names else None


def container(rng, world, kind):
    """An argument that is an array/object: a variable, an element reached through another call, or fresh"""
    if rng.random() < 0.85:
        name = pick_var(rng, world, kind)
        if name:
            return name, world.pool[name]
    for name in VARS:
        value = world.pool[name]
        if type(value) is list and rng.random() < 0.5:
            for ix, item in enumerate(value):
                if tname(item) == kind:
                    world.mon.count('nested_calls')
                    return f'arrayGet({name}, {ix})', item
        if type(value) is dict and rng.random() < 0.5:
            for key, item in value.items():
                if tname(item) == kind:
                    world.mon.count('nested_calls')
                    return f'objectGet({name}, {world.lit(key)[0]})', item
    if kind == 'array':
        items = [any_arg(rng, world, False) for _ in range(rng.randint(0, 3))]
        return f'arrayNew({", ".join(text for text, _ in items)})', [value for _, value in items]
    key, item = rng.choice(KEYS), any_arg(rng, world, False)
    return f'objectNew({world.lit(key)[0]}, {item[0]})', {key: item[1]}


def long_text(rng):
    """Text well beyond one line"""
    unit = ''.join(rng.choice(ALPHABET) for _ in range(rng.randint(1, 3)))
    return (unit * rng.randint(20, 120))[:rng.randint(40, 300)] + rng.choice(ALPHABET)


def text_arg(rng, world, related=None):
    pick = rng.random()
    if related and pick < 0.5:
        start = rng.randint(0, len(related))
        value = related[start:start + rng.choice((0, 1, 1, 1, 2, 3))]
    elif pick < 0.75:
        value = rng.choice(TEXTS + ALPHABET)
    else:
        name = pick_var(rng, world, 'string')
        if name:
            return name, world.pool[name]
        value = ''.join(rng.choice(ALPHABET) for _ in range(rng.randint(0, 4))) if rng.random() < 0.85 else long_text(rng)
    return world.lit(value)


def key_arg(rng, world, obj=None):
    if obj and rng.random() < 0.6:
        return world.lit(rng.choice(list(obj)))
    return world.lit(rng.choice(KEYS))


def index_arg(rng, world, size):
    pick = rng.random()
    if pick < 0.12:
        name = pick_var(rng, world, 'array')
        if name:
            world.mon.count('nested_calls')
            return f'arrayLength({name})', len(world.pool[name])
    if pick < 0.2:
        name = pick_var(rng, world, 'string')
        if name:
            return f"stringLength({name}) - 1", len(world.pool[name]) - 1
    if pick < 0.23:
        return 'int1', 1
    return world.number(rng, rng.randint(0, max(size - 1, 0)) if rng.random() < 0.7 else rng.randint(-2, size + 2))


def any_arg(rng, world, nested=True):
    pick = rng.random()
    if pick < 0.35:
        name = rng.choice(VARS)
        return name, world.pool[name]
    if pick < 0.6:
        return world.number(rng, rng.choice((0, 1, 2, 2, 3, 0.5, -1, 10)))
    if pick < 0.78:
        return text_arg(rng, world)
    if pick < 0.86:
        return world.lit(rng.choice((None, True, False)))
    if pick < 0.9:
        name = rng.choice(('dt', 're1', 'dt2'))
        return name, CONSTANTS[name]
    if pick < 0.93:
        name = rng.choice(tuple(PREDICATES))
        return name, PREDICATES[name]
    if nested:
        return container(rng, world, rng.choice(('array', 'object')))
    return 'arrayNew()', []


def arguments(rng, world, name):
    """Arguments of the documented types"""
    args = []
    spec = SPEC[name].split()
    for item in spec:
        first = args[0][1] if args else None
        size = len(first) if type(first) in (list, str) else 3
        if item == '...*':
            if name == 'objectNew':
                for _ in range(rng.randint(0, 3)):
                    args += [key_arg(rng, world), any_arg(rng, world)]
                if rng.random() < 0.2:
                    args.append(key_arg(rng, world))
            elif name == 'stringFromCharCode':
                args += [world.number(rng, rng.choice((65, 97, 48, 233, 128512, 0, 1114111, 8364))) for _ in range(rng.randint(0, 4))]
            else:
                args += [any_arg(rng, world) for _ in range(rng.randint(0, 4))]
            break
        if item[1:] and rng.random() < 0.4:
            if item.endswith('?') and rng.random() < 0.3:
                args.append(('null', None))
                continue
            break
        if name == 'objectGet' and len(args) == 2 and rng.random() < 0.5:
            break
        kind = item[0]
        if kind == 'A':
            args.append(container(rng, world, 'array'))
        elif kind == 'O':
            args.append(container(rng, world, 'object'))
        elif kind == 'I':
            args.append(index_arg(rng, world, size if name not in ('arrayNewSize', 'stringRepeat') else 4))
        elif kind == 'F':
            fn = rng.choice(tuple(COMPARERS))
            args.append((fn, COMPARERS[fn]))
            world.mon.count('callbacks')
        elif kind == 'S':
            if name.startswith('object'):
                args.append(key_arg(rng, world, first))
            else:
                args.append(text_arg(rng, world, first if type(first) is str else None))
        elif name in ('arrayIndexOf', 'arrayLastIndexOf') and rng.random() < 0.8:
            if rng.random() < 0.35:
                fn = rng.choice(tuple(PREDICATES))
                args.append((fn, PREDICATES[fn]))
                world.mon.count('callbacks')
            elif first:
                ix = rng.randrange(len(first))
                args.append((f'arrayGet({args[0][0]}, {ix})', first[ix]) if args[0][0] in VARS else world.number(rng, 2))
            else:
                args.append(world.number(rng, 2))
        else:
            args.append(any_arg(rng, world))
    return args


def spoil(rng, world, name, args):
    """Make a call faulty: wrong type, missing, surplus"""
    spec = SPEC[name].split()
    pick = rng.random()
    typed = [ix for ix, item in enumerate(spec) if item[0] not in '*.' and ix < len(args)]
    if name in ('objectNew', 'stringFromCharCode') and args:
        typed = [ix for ix in range(len(args)) if name != 'objectNew' or ix % 2 == 0]
    if pick < 0.6 and typed:
        args[rng.choice(typed)] = rng.choice(wrong_args(world)) if rng.random() < 0.6 else any_arg(rng, world)
        world.mon.count('wrong_typed')
    elif pick < 0.8 and args and '*' not in SPEC[name]:
        args = args[:rng.randrange(len(args))]
        world.mon.count('missing')
    elif '...*' not in spec:
        full = len(spec)
        while len(args) < full:
            args.append(('null', None))
        args = args + [any_arg(rng, world) for _ in range(rng.randint(1, 2))]
        world.mon.count('surplus')
    return args


NAMES = tuple(name for name in SPEC if not name.startswith(('regex', 'url')))
WEIGHTS = [3 if name in MUTATORS else (2 if name.startswith(('array', 'object')) else 1) for name in NAMES]


def bounded(name, args, large=False):
    values = [value for _, value in args]
    if name in WALKERS and any(circular(value) or heavy(value, 1500) for value in values):
        return False
    size = sum(len(value) for value in values if type(value) in (list, str, dict))
    if size > (900 if large else 150):
        return False
    if name in ('stringRepeat', 'arrayNewSize') and any(tname(value) == 'number' and 50 < value < float('inf') for value in values):
        return False
    if name == 'stringReplace' and all(type(value) is str for value in values) and len(values) == 3 and len(values[0]) * (len(values[2]) + 1) > 400:
        return False
    if name == 'arraySort' and any(callable(value) and value not in COMPARERS.values() for value in values):
        return False
    spec = SPEC[name].split()
    if any(value - value != 0 and (ix >= len(spec) or spec[ix][0] != 'I') for ix, value in enumerate(values) if type(value) is float):
        return False    # non-finite numbers have no text and no order
    return not any(heavy(value, 3000) and not circular(value) for value in values)


def large_value(rng, kind):
    size = rng.choice((20, 33, 65, 130, 300))
    if kind == 'array':
        pick = rng.random()
        if pick < 0.3:
            return [float(rng.randint(0, 9)) for _ in range(size)]
        if pick < 0.6:
            return [rng.choice((1.0, 2, 2.0, 'a', 'ab', 'b', None, True, 'abc', 10.0)) for _ in range(size)]
        return [[float(rng.randint(0, 3)), rng.choice('abc')] for _ in range(size)]
    if kind == 'object':
        return {f'k{rng.randint(0, 999)}': float(ix) for ix in range(size)}
    return ''.join(rng.choice(('a', 'b', 'ab', ',', 'é', '\U0001f600')) for _ in range(size))


def history(mon, rng, length, large=False):
    world = World(mon)
    if large:
        mon.count('large_histories')
        for ix, kind in enumerate(('array', 'object', 'array', 'string')):
            value = large_value(rng, kind)
            world.pool[VARS[ix]] = value
            world.texts[f'big{ix}'] = copy.deepcopy(value)
            world.lines.append(f'{VARS[ix]} = big{ix}')
    for ix, name in enumerate(() if large else VARS[:4]):
        kind = ('arrayNew', 'objectNew', 'arrayNew', 'stringNew')[ix]
        args = arguments(rng, world, kind)
        if kind == 'arrayNew' and not args:
            args = [world.number(rng, 1), world.number(rng, 2)]
        if kind == 'stringNew':
            args = [text_arg(rng, world)]
        world.emit(rng, kind, args, name, record=False)
    done = 0
    for _ in range(length * 3):
        if done >= length:
            break
        name = rng.choices(NAMES, WEIGHTS)[0]
        args = arguments(rng, world, name)
        if rng.random() < 0.16:
            args = spoil(rng, world, name, args)
        if name in ('arraySet', 'objectSet') and len(args) < 3 or not bounded(name, args, large):
            continue
        form = rng.choices(('direct', 'alias', 'partial'), (8, 1, 1))[0]
        done += 1
        world.emit(rng, name, args, rng.choice(VARS) if rng.random() < 0.45 else None, form)
    if any(circular(value) for value in world.pool.values()):
        mon.count('circular')
    local = rng.random() < 0.3
    text = world.script(local)
    with mon.case(lambda: {'script': text}, key=text):
        world.run(local)


def far(mon, rng):
    """Long texts and containers of filler with a few odd places far away, searched and changed there"""
    world = World(mon)
    mon.count('far_histories')
    size = rng.choice((64, 100, 127, 255, 256, 257, 300, 511, 513, 700, 1000, 1023, 1025, 2049))
    fill, odd = rng.choice((('a', 'b'), ('ab', 'c'), (' ', 'x'), ('é', 'e'), ('A', 'a'), ('x,', 'y'), ('\U0001f600', 'z'), ('ab', 'ba'), ('aab', 'aac')))
    text = (fill * size)[:size]
    places = sorted(rng.sample(range(size), rng.choice((0, 1, 1, 1, 2))))
    for place in places:
        text = text[:place] + odd + text[place + rng.choice((0, len(odd))):]
    array = [float(ord(char)) if rng.random() < 0.01 else char for char in text]
    if rng.random() < 0.3:
        array = [1.0] * size
        for place in places:
            array[place] = rng.choice((2.0, None, 'a', [1.0], {'k': 1.0}))
    if rng.random() < 0.3:
        array = [float((ix * 7919) % 1009) for ix in range(size)]
    values = {VARS[0]: text, VARS[1]: array, VARS[2]: {f'k{ix}': float(ix) for ix in rng.sample(range(size), size)}, VARS[3]: copy.deepcopy(array[size // 2:]) + [0.0] * 3}
    for ix, (name, value) in enumerate(values.items()):
        world.pool[name] = value
        world.texts[f'big{ix}'] = copy.deepcopy(value)
        world.lines.append(f'{name} = big{ix}')

    def place(limit):
        pick = rng.random()
        value = rng.choice(places or [0]) + rng.choice((-1, 0, 0, 1)) if pick < 0.4 else rng.choice((0, 1, limit - 1, limit, limit // 2, rng.randint(0, limit)))
        return world.number(rng, value)

    def ref(ix):
        return VARS[ix], world.pool[VARS[ix]]

    def item(values):
        if values and rng.random() < 0.7:
            ix = rng.choice([min(place, len(values) - 1) for place in places] + [rng.randrange(len(values)), len(values) - 1])
            if tname(values[ix]) in ('null', 'boolean', 'string'):
                return world.lit(values[ix])
            if tname(values[ix]) == 'number':
                return world.number(rng, values[ix])
        if rng.random() < 0.4:
            fn = rng.choice(tuple(PREDICATES))
            return fn, PREDICATES[fn]
        return world.number(rng, rng.choice((2, 97)))
    for _ in range(rng.randint(4, 9)):
        name = rng.choice((
            'stringIndexOf', 'stringIndexOf', 'stringLastIndexOf', 'stringIndexOf', 'stringLastIndexOf', 'stringStartsWith', 'stringEndsWith', 'stringReplace', 'stringSplit', 'stringSlice',
            'stringCharCodeAt', 'stringLength', 'stringTrim', 'stringUpper', 'stringLower', 'stringRepeat', 'arrayIndexOf', 'arrayIndexOf', 'arrayLastIndexOf', 'arrayLastIndexOf', 'arraySlice',
            'arrayGet', 'arraySet', 'arrayDelete', 'arrayPop', 'arrayShift', 'arrayPush', 'arrayExtend', 'arrayJoin', 'arraySort', 'arrayCopy', 'arrayLength', 'arrayNewSize', 'objectGet', 'objectHas',
            'objectNew', 'objectNew', 'objectDelete', 'objectSet', 'objectKeys', 'objectAssign', 'objectCopy', 'stringFromCharCode', 'arrayNew'))
        if name in ('stringFromCharCode', 'arrayNew'):
            count = rng.choice((10, 33, 41, 64, 65, 66, 129, 257))
            args = [world.number(rng, rng.choice((65, 97, 233, 0, 128512, 1114111, 65 + ix % 60))) if name == 'stringFromCharCode' else item(world.pool[VARS[1]]) for ix in range(count)]
            if rng.random() < 0.2:
                args[rng.choice((0, count - 1, rng.randrange(count)))] = world.lit(rng.choice((None, 'a', True))) if rng.random() < 0.5 else world.number(rng, rng.choice((-1, 1.5)))
        elif name.startswith('string'):
            first = ref(0)
            args = [first]
            limit = len(first[1])
            if name in ('stringIndexOf', 'stringLastIndexOf', 'stringStartsWith', 'stringEndsWith', 'stringSplit', 'stringReplace'):
                start = rng.choice(places or [0]) + rng.randint(-2, 1) if rng.random() < 0.6 else rng.randint(0, limit)
                length = rng.choice((1, 1, 2, 5, 70, 300))
                start = limit - length if name == 'stringEndsWith' else (0 if name == 'stringStartsWith' else start)
                part = first[1][max(start, 0):max(start, 0) + length] or odd
                if rng.random() < 0.2:
                    ix = rng.randrange(len(part))
                    part = part[:ix] + rng.choice((odd, fill, 'q')) + part[ix + 1:]
                args.append(world.lit(rng.choice((odd, part, part))))
                if name == 'stringReplace':
                    args.append(world.lit(rng.choice(('', odd, 'QQ', '\\1', '$&'))))
                elif name.endswith('IndexOf') and rng.random() < 0.5:
                    args.append(place(limit))
            elif name == 'stringSlice':
                args += [place(limit), place(limit)][:rng.randint(1, 2)]
            elif name == 'stringCharCodeAt':
                args.append(place(limit))
            elif name == 'stringRepeat':
                args = [world.lit(rng.choice(('a', 'ab', ''))), world.number(rng, rng.choice((0, 1, 50, 255, 1000)))]
        elif name.startswith('array'):
            first = ref(rng.choice((1, 1, 3)))
            args = [first]
            limit = len(first[1])
            if name.endswith('IndexOf'):
                args.append(item(first[1]))
                if rng.random() < 0.4:
                    args.append(place(limit))
            elif name in ('arrayGet', 'arrayDelete'):
                args.append(place(limit))
            elif name == 'arraySet':
                args += [place(limit), item(first[1])]
            elif name == 'arrayPush':
                args += [item(first[1]) for _ in range(rng.choice((1, 2, 40)))]
            elif name == 'arraySlice':
                args += [place(limit), place(limit)][:rng.randint(0, 2)]
            elif name == 'arrayExtend':
                args.append(ref(3))
            elif name == 'arrayJoin':
                args.append(world.lit(rng.choice(('', ',', ', '))))
            elif name == 'arraySort' and rng.random() < 0.4:
                fn = rng.choice(tuple(COMPARERS))
                args.append((fn, COMPARERS[fn]))
            elif name == 'arrayNewSize':
                args = [world.number(rng, rng.choice((0, 255, 256, 1000, 4097, 12001) if rng.random() < 0.5 else (3,))), item(first[1])]
        elif name == 'objectNew':
            args = []
            for ix in range(rng.choice((16, 31, 32, 33, 65, 70))):
                args += [world.lit(f'k{ix if rng.random() < 0.95 else 0}'), item(world.pool[VARS[1]])]
        else:
            args = [ref(2)]
            if name in ('objectGet', 'objectHas', 'objectDelete', 'objectSet'):
                args.append(world.lit(rng.choice((f'k{rng.randint(0, size)}', 'k0', f'k{size - 1}'))))
                if name == 'objectSet':
                    args.append(world.number(rng, 5))
            elif name == 'objectAssign':
                args.append(('other', {'k0': 7.0, 'new': 8.0, f'k{size - 1}': None}))
                world.texts['other'] = copy.deepcopy(args[-1][1])
        if any(tname(value) == 'array' and len(value) > 14000 for value in world.pool.values()):
            break
        if circular(world.pool[VARS[1]]) or circular(world.pool[VARS[3]]):
            break
        world.emit(rng, name, args, None, 'alias' if rng.random() < 0.1 else 'direct')
    local = rng.random() < 0.3
    text = world.script(local)
    with mon.case(lambda: {'script': text, 'values': [size, fill, odd, places]}, key=(text, size, fill, odd, tuple(places))):
        world.run(local)


# ---------------------------------------------------------------- grids

def base_args(rng, world, name, size):
    """Well-typed arguments over a container of the given size"""
    out = []
    for item in SPEC[name].split():
        kind = item[0]
        if kind == 'A':
            out.append((f'arrayNew({", ".join(str(n + 1) for n in range(size))})', [float(n + 1) for n in range(size)]))
        elif kind == 'O':
            pairs = [(key, float(ix)) for ix, key in enumerate('abcd'[:size])]
            out.append((f'objectNew({", ".join(repr(key) + ", " + str(int(value)) for key, value in pairs)})', dict(pairs)))
        elif kind == 'S':
            text = 'abcab'[:size]
            out.append((f"'{text}'", text))
        elif kind == 'I':
            out.append(world.number(rng, 0))
        elif kind == 'F':
            out.append(('desc', COMPARERS['desc']))
        elif item == '...*':
            out += [("'k'", 'k'), ('2', 2.0)] if name == 'objectNew' else [('65', 65.0), ('66', 66.0)]
        else:
            out.append(('2.0', 2.0))
    return out


def grid(rng, mon):
    """Every (function, args) of the exhaustive grids, as lists of calls"""
    world = World(mon)
    for name in SPEC:
        if name.startswith(('regex', 'url')):
            continue
        spec = SPEC[name].split()
        for size in range(5):
            base = base_args(rng, world, name, size)
            indexes = [ix for ix, item in enumerate(spec) if item[0] == 'I']
            spots = [float(n) for n in range(-2, size + 3)] + [0.5, size - 0.5]
            for combo in itertools.product(spots, repeat=len(indexes)):
                args = list(base)
                for ix, value in zip(indexes, combo):
                    args[ix] = world.number(rng, value)
                yield name, args, 'range'
            if indexes:
                for combo in itertools.product((None, 0.0, float(size)), repeat=len(indexes)):
                    args = list(base)
                    for ix, value in zip(indexes, combo):
                        args[ix] = ('null', None) if value is None else world.number(rng, value)
                    yield name, args, 'range'
            for count in range(len(base) + 4):
                if name in ('arraySet', 'objectSet') and count == 2:
                    continue
                if count <= len(base):
                    yield name, base[:count], 'missing'
                elif '...*' not in spec:
                    yield name, base + [('null', None)] * (count - len(base)), 'surplus'
                    yield name, base + [('1', 1.0)] * (count - len(base)), 'surplus'
            positions = [ix for ix, item in enumerate(spec) if item[0] != '.'] + (list(range(len(base))) if name in ('objectNew', 'stringFromCharCode') else [])
            for ix in positions:
                for wrong in wrong_args(world):
                    args = list(base)
                    args[ix] = wrong
                    if not bounded(name, args) or name in ('stringRepeat', 'arrayNewSize') and any(value == 1e300 for _, value in args):
                        continue
                    yield name, args, 'typed'
                    yield name, args[:ix + 1], 'typed'


def grid_block(mon, rng, block):
    world = World(mon)
    for name, args, kind in block:
        if name in ('arraySet', 'objectSet') and len(args) == 2:
            continue
        args = [(text, fresh(value)) for text, value in args]
        # The first two containers live in variables so that unchanged-on-failure is visible
        for var, ix in zip(('v0', 'v1'), [ix for ix, (_, value) in enumerate(args) if type(value) in (list, dict)]):
            world.lines.append(f'{var} = {args[ix][0]}')
            world.pool[var] = args[ix][1]
            args[ix] = (var, args[ix][1])
        world.lines.append('v2 = arrayNew(v0, v1)')
        world.pool['v2'] = [world.pool['v0'], world.pool['v1']]
        mon.count('grid_calls')
        if kind == 'range':
            mon.count('out_of_range')
        world.emit(rng, name, args, 'v3', 'direct')
        world.lines.append('v3 = null')
        world.pool['v3'] = None
    text = world.script(False)
    with mon.case(lambda: {'grid': world.notes}, key=text):
        world.run()


# ---------------------------------------------------------------- regexEscape and URL encoding

SPECIALS = '.^$*+?{}[]\\|()-#&~/!=<>:,\'"% \t\n\r\x0b\x0c_@;`'
REGEX_ALPHABET = SPECIALS + 'abPnsdwDSWbBAZ019' + 'é\U0001f600ß\u0130\u2028\x00'


def regex_text(rng):
    pick = rng.random()
    if pick < 0.15:
        return rng.choice(('(?<a>', '(?<a>b)', '\\(?<a>', '(?P<a>', '\\d', '[a-z]', 'a{2}', 'a|b', '.*', '^a$', '\\\\', '\\', '(?i)a', '(?#c)', '\\1', 'a+?', '[', '(', '\n', 'a\nb', '-', '&&', '[[a]]', 'a#b', ' ',
                           '(?<n1>x)(?<n2>y)', '\\(?<n>', '\\Z', '$', '', '(?<', '(?<a', 'x(?<abc>'))
    if pick < 0.3:
        return chr(rng.choice((rng.randint(0, 255), rng.randint(0, 0xd7ff), rng.randint(0xe000, 0x10ffff))))
    return ''.join(rng.choice(REGEX_ALPHABET) for _ in range(rng.choice((1, 2, 2, 3, 5, 9))))


def near_misses(rng, text):
    """Texts that differ from the text"""
    out = {text + 'x', 'x' + text, text + text, text[1:], text[:-1], text.swapcase(), text + '\n', text[::-1], text.replace('\\', ''), '\\' + text, text.replace('.', 'z'), text.upper(), text.lower()}
    for ix in range(min(len(text), 6)):
        out.add(text[:ix] + text[ix + 1:])
        out.add(text[:ix] + rng.choice(REGEX_ALPHABET) + text[ix + 1:])
        out.add(text[:ix] + rng.choice(REGEX_ALPHABET) + text[ix:])
        out.add(text[:ix] + text[ix] + text[ix:])
        out.add(text[:ix] + text[ix].swapcase() + text[ix + 1:])
    out.discard(text)
    return out


REGEX_SCRIPT = '''\
pattern = regexEscape(s)
re = regexNew(pattern)
return arrayNew(pattern, re, regexMatch(re, s), regexMatch(re, pre + s + post), regexReplace(re, pre + s + post + s, 'Q'), regexSplit(re, pre + s + post), s)'''


def regex_case(mon, rng, text):
    pre, post = rng.choice(('', 'x', 'ab', text[:1], '\n')), rng.choice(('', 'y', 'ab', text[-1:], '\n'))
    with mon.case(lambda: {'regexEscape': text, 'pre': pre, 'post': post}, key=('regex', text, pre, post)):
        out = execute(REGEX_SCRIPT, {'s': text, 'pre': pre, 'post': post})
        if out.kind != 'value' or type(out.value) is not list or tname(out.value[1]) != 'regex' or type(out.value[0]) is not str:
            raise Violation('regexEscape does not yield a pattern', observed=out.text())
        pattern, regex, own, found, replaced, split, kept = out.value
        mon.count('regex_texts')
        whole = re.compile(pattern)
        for other in near_misses(rng, text):
            mon.count('regex_nonmatches')
            if whole.fullmatch(other) or regex.fullmatch(other):
                raise Violation('the escaped pattern matches another text', pattern=pattern, other=other)
        if not regex.fullmatch(text) or not whole.fullmatch(text):
            raise Violation('the escaped pattern does not match the text', pattern=pattern)
        hay = pre + text + post
        if type(own) is not dict or own.get('index') != 0 or own.get('groups') != {'0': text}:
            raise Violation('the escaped pattern does not match exactly the text', pattern=pattern, observed=show(own))
        if type(found) is not dict or found.get('index') != hay.find(text):
            raise Violation('the escaped pattern matches elsewhere', pattern=pattern, observed=show(found), expected=hay.find(text))
        if text and (replaced != (hay + text).replace(text, 'Q') or split != hay.split(text)):
            raise Violation('replacing or splitting by the escaped pattern differs from the plain text', pattern=pattern, observed=show([replaced, split]),
                            expected=show([(hay + text).replace(text, 'Q'), hay.split(text)]))
        if kept != text:
            raise Violation('the text changed')


URL_SAFE = set(string.ascii_letters + string.digits + "-_.~!*'();:@&=+$,/?#[]%")


def decode(text):
    """Percent-decoding"""
    out = bytearray()
    ix = 0
    while ix < len(text):
        if text[ix] == '%':
            if not re.fullmatch('[0-9A-Fa-f]{2}', text[ix + 1:ix + 3], re.ASCII):
                raise Violation('a raw percent sign is left in the encoded text', encoded=text)
            out.append(int(text[ix + 1:ix + 3], 16))
            ix += 3
        else:
            out += text[ix].encode('utf-8')
            ix += 1
    try:
        return out.decode('utf-8')
    except UnicodeDecodeError:
        raise Violation('the percent-decoded bytes are not UTF-8', encoded=text) from None


def url_case(mon, text):
    with mon.case(lambda: {'url': text}, key=('url', text)):
        out = execute('return arrayNew(urlEncode(s), urlEncodeComponent(s), urlEncodeComponent(urlEncode(s)), urlEncode(s), s)', {'s': text})
        if out.kind != 'value' or any(type(item) is not str for item in out.value):
            raise Violation('URL encoding failed', observed=out.text())
        mon.count('urls')
        full, part, twice, again, kept = out.value
        for name, encoded in (('urlEncode', full), ('urlEncodeComponent', part)):
            if decode(encoded) != text or urllib.parse.unquote(encoded) != text:
                raise Violation(f'{name} is not reversible by percent-decoding', encoded=encoded, decoded=decode(encoded))
            if not set(encoded) <= URL_SAFE:
                raise Violation(f'{name} leaves a character that may not appear in a URL', encoded=encoded)
        if set(part) & set('&=?#/+:@;,[]$ '):
            raise Violation('urlEncodeComponent leaves a URL delimiter', encoded=part)
        if decode(twice) != full or again != full or kept != text:
            raise Violation('encoding twice does not decode once', encoded=twice)


def url_text(rng):
    pick = rng.random()
    if pick < 0.2:
        return rng.choice(('http://x.com/a b?c=d&e=%20#f', '%', '%%', '%41', '%zz', 'a+b', 'a b', '', '/', "it's (x)", '\u20ac', '\U0001f600', 'é', '%e2%82', '~-_.', '?x=1;y=2', '\x7f', '\x00', '\n'))
    if pick < 0.5:
        return chr(rng.choice((rng.randint(0, 0x2ff), rng.randint(0, 0xd7ff), rng.randint(0xe000, 0x10ffff)))) * rng.randint(1, 2) + rng.choice(('', '%', 'a'))
    return ''.join(rng.choice(SPECIALS + 'aZ09é\u20ac\U0001f600') for _ in range(rng.randint(1, 10)))


def plan(tier):
    quick = tier == 'quick'
    shards = [('grid', {'part': ix, 'parts': 8, 'cost': 3}) for ix in range(8)]
    for _ in range(16 if quick else 120):
        shards.append(('history', {'n': 1300 if quick else 12000, 'length': 30, 'cost': 4}))
        shards.append(('short', {'n': 2000 if quick else 20000, 'length': 7, 'cost': 2}))
    for _ in range(8 if quick else 48):
        shards.append(('large', {'n': 200 if quick else 1500, 'length': 12, 'cost': 2}))
    for _ in range(8 if quick else 48):
        shards.append(('far', {'n': 250 if quick else 2500, 'cost': 3}))
    for _ in range(4 if quick else 24):
        shards.append(('texts', {'n': 2500 if quick else 20000, 'cost': 2}))
    shards.append(('ascii', {'cost': 1}))
    return shards


def shard(kind, spec, rng, mon):
    if kind == 'grid':
        calls = list(grid(rng, mon))[spec['part']::spec['parts']]
        for start in range(0, len(calls), 25):
            grid_block(mon, rng, calls[start:start + 25])
    elif kind in ('history', 'short', 'large'):
        for _ in range(spec['n']):
            history(mon, rng, rng.randint(2, spec['length']), kind == 'large')
    elif kind == 'far':
        for _ in range(spec['n']):
            far(mon, rng)
    elif kind == 'ascii':
        for code in list(range(0, 256)) + [0x2028, 0x3000, 0xfeff, 0x1f600, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]:
            regex_case(mon, rng, chr(code))
            url_case(mon, chr(code))
            regex_case(mon, rng, 'a' + chr(code) + 'b')
            url_case(mon, '%' + chr(code) + '4' + chr(code))
    else:
        for _ in range(spec['n']):
            regex_case(mon, rng, regex_text(rng))
            url_case(mon, url_text(rng))
