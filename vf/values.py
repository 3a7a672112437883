"""BareScript values: types, reference semantics of values, generators, snapshots.

Everything here is written from the language description, not from the implementation under test.
"""
import datetime
import math
import re

REGEX = type(re.compile(''))


def tname(value):
    """The BareScript type name of a host value, None for a host value that is no BareScript value"""
    if value is None:
        return 'null'
    if value is True or value is False:
        return 'boolean'
    if type(value) in (int, float):
        return 'number'
    if type(value) is str:
        return 'string'
    if isinstance(value, (datetime.datetime, datetime.date)):
        return 'datetime'
    if type(value) is list:
        return 'array'
    if type(value) is dict:
        return 'object'
    if type(value) is REGEX:
        return 'regex'
    if callable(value):
        return 'function'
    if isinstance(value, (int, float)):
        return 'number'
    if isinstance(value, str):
        return 'string'
    if isinstance(value, dict):
        return 'object'
    if isinstance(value, list):
        return 'array'
    return None


def is_number(value):
    return type(value) in (int, float)


def norm_dt(value):
    """The naive local datetime a datetime value denotes"""
    if isinstance(value, datetime.datetime):
        if value.tzinfo is not None:
            return value.astimezone().replace(tzinfo=None)
        return value
    return datetime.datetime(value.year, value.month, value.day)


# ---------------------------------------------------------------- truthiness, order, text

def truthy(value):
    kind = tname(value)
    if kind == 'null':
        return False
    if kind == 'boolean':
        return value
    if kind == 'number':
        return value != 0
    if kind == 'string':
        return value != ''
    if kind == 'array':
        return len(value) > 0
    return True


def sign(left, right):
    return -1 if left < right else (1 if left > right else 0)


def compare(left, right):
    """The total value order: null first; same type by value; otherwise by type name"""
    tl, tr = tname(left), tname(right)
    if tl == 'null' or tr == 'null':
        return (tl != 'null') - (tr != 'null')
    if tl != tr:
        return sign(tl or 'unknown', tr or 'unknown')
    if tl in ('string', 'number', 'boolean'):
        return sign(left, right)
    if tl == 'datetime':
        return sign(norm_dt(left), norm_dt(right))
    if tl == 'array':
        for item_left, item_right in zip(left, right):
            result = compare(item_left, item_right)
            if result:
                return result
        return sign(len(left), len(right))
    if tl == 'object':
        keys_left, keys_right = sorted(left), sorted(right)
        for key_left, key_right in zip(keys_left, keys_right):
            if key_left != key_right:
                return sign(key_left, key_right)
            result = compare(left[key_left], right[key_right])
            if result:
                return result
        return sign(len(keys_left), len(keys_right))
    return 0


def num_text(value):
    """The text of a finite number: integral values without a fraction"""
    if type(value) is int:
        return str(value)
    if not math.isfinite(value):
        raise NoText()
    text = repr(value)
    if text.endswith('.0'):
        text = text[:-2]
    return text


class NoText(Exception):
    """The value has no (judged) text form"""


_ESC = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\b': '\\b', '\f': '\\f'}


def json_string(text):
    out = []
    for char in text:
        code = ord(char)
        if char in _ESC:
            out.append(_ESC[char])
        elif 32 <= code < 127:
            out.append(char)
        elif code < 0x10000:
            out.append(f'\\u{code:04x}')
        else:
            code -= 0x10000
            out.append(f'\\u{0xd800 + (code >> 10):04x}\\u{0xdc00 + (code & 0x3ff):04x}')
    return '"' + ''.join(out) + '"'


def json_text(value):
    """Compact JSON text with sorted keys"""
    kind = tname(value)
    if kind == 'null':
        return 'null'
    if kind == 'boolean':
        return 'true' if value else 'false'
    if kind == 'number':
        if type(value) is float and not math.isfinite(value):
            raise NoText()
        return num_text(value)
    if kind == 'string':
        return json_string(value)
    if kind == 'datetime':
        return json_string(dt_text(value))
    if kind == 'array':
        return '[' + ','.join(json_text(item) for item in value) + ']'
    if kind == 'object':
        return '{' + ','.join(json_string(key) + ':' + json_text(value[key]) for key in sorted(value)) + '}'
    if kind == 'function':
        return '"<function>"'
    if kind == 'regex':
        return 'null'
    raise NoText()


def dt_text(value):
    """ISO text of a datetime: local offset, milliseconds only if there is a sub-second part"""
    local = norm_dt(value).astimezone()
    text = f'{local.year:04d}-{local.month:02d}-{local.day:02d}T{local.hour:02d}:{local.minute:02d}:{local.second:02d}'
    if local.microsecond:
        text += f'.{local.microsecond // 1000:03d}'
    minutes = int(local.utcoffset().total_seconds() // 60)
    mark = '+' if minutes >= 0 else '-'
    minutes = abs(minutes)
    return f'{text}{mark}{minutes // 60:02d}:{minutes % 60:02d}'


def heavy(value, cap=3000):
    """Does walking the value visit more than cap nodes (or is it circular)?"""
    if type(value) is str:
        return len(value) > cap
    if type(value) not in (list, dict):
        return False
    stack = [value]
    seen = 0
    while stack:
        item = stack.pop()
        seen += 1
        if seen > cap:
            return True
        if type(item) is list:
            stack.extend(item)
        elif type(item) is dict:
            stack.extend(item.values())
        elif type(item) is str:
            seen += len(item)
    return seen > cap


def text_of(value):
    kind = tname(value)
    if kind == 'string':
        return value
    if kind == 'null':
        return 'null'
    if kind == 'boolean':
        return 'true' if value else 'false'
    if kind == 'number':
        return num_text(value)
    if kind == 'datetime':
        return dt_text(value)
    if kind == 'function':
        return '<function>'
    if kind == 'regex':
        return '<regex>'
    return json_text(value)


# ---------------------------------------------------------------- equality and snapshots

def same(left, right, fn_identity=False, memo=None):
    """Observational equality of two host values (numbers by value, whatever their host type)"""
    tl, tr = tname(left), tname(right)
    if tl != tr:
        return False
    if tl == 'number':
        return left == right or (left != left and right != right)
    if tl == 'datetime':
        try:
            return left is right or norm_dt(left) == norm_dt(right)
        except (OverflowError, ValueError):
            return repr(left) == repr(right)
    if tl == 'function':
        return left is right if fn_identity else True
    if tl == 'regex':
        return left.pattern == right.pattern and left.flags == right.flags
    if tl in ('array', 'object'):
        if left is right:
            return True
        if len(left) != len(right):
            return False
        memo = set() if memo is None else memo
        pair = (id(left), id(right))
        if pair in memo:
            return True
        memo.add(pair)
        if tl == 'array':
            return all(same(a, b, fn_identity, memo) for a, b in zip(left, right))
        return all(key in right and same(value, right[key], fn_identity, memo) for key, value in left.items())
    if tl is None:
        return left is right
    return left == right


def snapshot(value, memo=None):
    """A comparable picture of a value including aliasing (container identity is renamed in visit order)"""
    memo = {} if memo is None else memo
    kind = tname(value)
    if kind == 'number':
        return ('number', 'nan') if value != value else ('number', value + 0)
    if kind == 'datetime':
        return (kind, norm_dt(value))
    if kind == 'regex':
        return (kind, value.pattern, value.flags)
    if kind == 'function':
        return (kind, id(value))
    if kind in ('array', 'object'):
        if id(value) in memo:
            return ('ref', memo[id(value)])
        memo[id(value)] = len(memo)
        if kind == 'array':
            return (kind, tuple(snapshot(item, memo) for item in value))
        return (kind, tuple((key, snapshot(item, memo)) for key, item in value.items()))
    return (kind, value if kind in ('null', 'boolean', 'string') else repr(value))


def show(value, depth=0):
    """Readable rendition that distinguishes types"""
    kind = tname(value)
    if depth > 8:
        return '...'
    if kind in ('null', 'boolean', 'number', 'string'):
        try:
            return repr(value) if not isinstance(value, int) or abs(value) < 10 ** 400 else '<huge int>'
        except ValueError:
            return '<huge int>'
    if kind == 'array':
        return '[' + ', '.join(show(item, depth + 1) for item in value[:30]) + ']'
    if kind == 'object':
        return '{' + ', '.join(f'{key!r}: {show(item, depth + 1)}' for key, item in list(value.items())[:30]) + '}'
    if kind == 'datetime':
        return repr(value)
    if kind == 'regex':
        return f're:{value.pattern}'
    return f'<{kind or type(value).__name__}>'


def is_value(value, depth=0):
    """Is the host value a BareScript value all the way down?"""
    kind = tname(value)
    if kind is None or depth > 60:
        return depth > 60
    if kind == 'array':
        return all(is_value(item, depth + 1) for item in value)
    if kind == 'object':
        return all(type(key) is str and is_value(item, depth + 1) for key, item in value.items())
    return True


# ---------------------------------------------------------------- generators

def fn_one(args, unused_options):
    return 1.0


def fn_first(args, unused_options):
    return args[0] if args else None


def fn_fail(unused_args, unused_options):
    raise KeyError('host failure')


FUNCTIONS = (fn_one, fn_first)
REGEXES = (re.compile('a+'), re.compile('(b)|c', re.I))
DATES = (
    datetime.datetime(2024, 2, 29, 12, 30, 15, 250000), datetime.datetime(1999, 12, 31, 23, 59, 59), datetime.datetime(2024, 1, 1),
    datetime.date(2024, 1, 1), datetime.date(1970, 1, 1), datetime.datetime(2024, 1, 1, 0, 0, tzinfo=datetime.timezone.utc),
    datetime.datetime(2024, 1, 1, 5, 30, tzinfo=datetime.timezone(datetime.timedelta(hours=5, minutes=30)))
)
NUMBERS = (0, 0.0, -0.0, 1, 1.0, -1, -1.0, 2, 2.0, 3.0, 7, 10.0, 0.5, -0.5, 1.5, 2.75, -3.25, 100.0, 1e3, 1e15, -1e15, 2 ** 53, 2.0 ** 53, 1e16,
           1e21, 1e-7, 1e100, -1e100, 1e308, 5e-324, 123456789.125)
STRINGS = ('', 'a', 'b', 'A', 'ab', 'abc', 'a b', '0', '1', '12', 'null', 'true', 'x.y', '.', '.0', '1.0', '[1]', '"', "it's", '\\', 'Z', '~')


def random_datetime(rng):
    """A random naive datetime: whole days, seconds or milliseconds, near a fixed base or anywhere in 1902-2199"""
    base = datetime.datetime(2024, 1, 1)
    if rng.random() < 0.5:
        span = rng.choice((3000, 10 ** 6, 10 ** 9, 4 * 10 ** 10))
        return base + datetime.timedelta(milliseconds=rng.randint(-span, span))
    return datetime.datetime(1902, 1, 1) + datetime.timedelta(days=rng.randint(0, 108000), seconds=rng.choice((0, 0, rng.randint(0, 86399))), milliseconds=rng.choice((0, rng.randint(0, 999))))


def small_value(rng, depth=2, kinds=None):
    """A random value of any type"""
    kind = rng.choice(kinds or ('null', 'boolean', 'number', 'number', 'string', 'string', 'datetime', 'array', 'object', 'function', 'regex'))
    if kind == 'null':
        return None
    if kind == 'boolean':
        return rng.random() < 0.5
    if kind == 'number':
        pick = rng.random()
        if pick < 0.6:
            return rng.choice(NUMBERS)
        if pick < 0.8:
            return float(rng.randint(-20, 20))
        return rng.choice((rng.randint(-1000, 1000), rng.uniform(-10, 10), rng.randint(-1000, 1000) / 8))
    if kind == 'string':
        if rng.random() < 0.6:
            return rng.choice(STRINGS)
        return ''.join(rng.choice('abcAB01. ,') for _ in range(rng.randint(0, 6)))
    if kind == 'datetime':
        if rng.random() < 0.5:
            return rng.choice(DATES)
        return random_datetime(rng)
    if kind == 'function':
        return rng.choice(FUNCTIONS)
    if kind == 'regex':
        return rng.choice(REGEXES)
    if depth <= 0:
        return [] if kind == 'array' else {}
    if kind == 'array':
        return [small_value(rng, depth - 1, kinds) for _ in range(rng.choice((0, 1, 1, 2, 3)))]
    return {rng.choice('abcdxyz') + rng.choice(('', '', '1')): small_value(rng, depth - 1, kinds) for _ in range(rng.choice((0, 1, 1, 2, 3)))}
