"""C11: value comparison is a total preorder and every consumer agrees with it. Reference comparator plus rank check over observed results."""
import datetime
import os
import time

from bare_script import evaluate_expression, execute_script, parse_expression, parse_script

from vf.host import execute, library
from vf.run import Violation
from vf.values import DATES, FUNCTIONS, NUMBERS, REGEXES, STRINGS, compare, same, show, small_value

RULE = ('A case is one row of a pool (a value compared with every pool value, in both orders, through systemCompare and the six operators), one pool '
        'matrix (all observed results must be the signs of differences of one rank: reflexive, antisymmetric and transitive over all triples), or one '
        'call of a consumer (arraySort, dataSort, mathMin/mathMax, arrayIndexOf/arrayLastIndexOf). Pools mix a fixed list of all nine types with random '
        'values and near-copies (int/float respelling, one element changed, added or removed; dates in several time zones; large values whose first difference is far away). Distinct by (consumer, values).')
REQUIRED = ('pairs', 'triples', 'operator_results', 'mixed_type_pairs', 'equal_pairs', 'nested_pairs', 'respelled_pairs', 'sorts', 'data_sorts', 'data_sorts_multi',
            'min_max', 'index_of', 'index_found', 'datetime_pairs', 'script_sorts', 'zones', 'far_pools')
ASSUMPTIONS = ('NaN is excluded; int/float respelling is judged below 2**53.',
               'Stability of arraySort and which of several equal arguments mathMin/mathMax return are not judged.')

ZONES = ('UTC', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe')


def tz(hours, minutes=0):
    return datetime.timezone(datetime.timedelta(hours=hours, minutes=minutes))


INF = float('inf')
MORE_DATES = (
    datetime.datetime(2024, 1, 1, 0, 0, 0, 1000), datetime.datetime(2024, 1, 1, 0, 0, 0, 1), datetime.date(2024, 1, 2), datetime.datetime(2023, 12, 31, 23, 59, 59, 999999),
    datetime.datetime(2024, 1, 1, 5, 0, tzinfo=datetime.timezone.utc), datetime.datetime(2023, 12, 31, 19, 0, tzinfo=tz(-5)), datetime.datetime(2024, 1, 1, 0, 0, tzinfo=tz(14)),
    datetime.datetime(2024, 1, 1, 0, 0, tzinfo=tz(-12)), datetime.date(1999, 12, 31), datetime.date(2024, 2, 29), datetime.datetime(2024, 3, 10, 7, 30, tzinfo=datetime.timezone.utc),
    datetime.datetime(2024, 11, 3, 5, 30, tzinfo=datetime.timezone.utc), datetime.datetime(2024, 11, 3, 6, 30, tzinfo=datetime.timezone.utc),
    datetime.datetime(2024, 11, 3, 1, 30), datetime.datetime(2024, 7, 1, 12, 0, tzinfo=tz(5, 30)), datetime.datetime(2024, 7, 1, 6, 30), datetime.datetime(200, 1, 1), datetime.date(8000, 1, 1)
)


def fixed_pool():
    pool = [None, True, False, *NUMBERS, INF, -INF, 2 ** 53 + 1, 2 ** 53 - 1, -2, 3, 5, 10, 0.1, 1e-300, *STRINGS, 'é', '\uffff', '\U0001f600', 'a\x00', 'aa', 'aB', 'false', 'array', '\n',
            *DATES, *MORE_DATES, *FUNCTIONS, len, *REGEXES]
    pool += [[], [None], [[]], [{}], [1], [1.0], [1, 2], [1.0, 2.0], [2], [True], [False], ['1'], ['a'], ['b'], ['a', 'b'], [None, None], [1, None], [None, 1], [[1], [2]], [[1, 2]], [[[]]], [[[1]]],
             [1, [2, {'a': 3}]], [1.0, [2, {'a': 3.0}]], [1, [2, {'a': 4}]], [DATES[2]], [DATES[3]], [FUNCTIONS[0]], [REGEXES[0]], [0], [-0.0], [0, 0], ['0']]
    pool += [{}, {'a': None}, {'a': 1}, {'a': 1.0}, {'a': 2}, {'a': '1'}, {'a': True}, {'b': 1}, {'b': None}, {'a': 1, 'b': 2}, {'b': 2, 'a': 1}, {'a': 1, 'b': 3}, {'a': 2, 'b': 1}, {'a': 1, 'c': 0},
             {'a': {}}, {'a': []}, {'a': {'b': 1}}, {'a': {'b': 1.0}}, {'a': {'b': {'c': 1}}}, {'': 1}, {'A': 1}, {'aa': 1}, {'a': [1, 2]}, {'a': [1, 3]}, {'a': DATES[2]}, {'a': DATES[3]},
             {'a': 1, 'b': None}, {'a': FUNCTIONS[0]}, {'a': 0, 'b': 0, 'c': 0}, {'é': 1}, {'a': 1, '': 2}]
    return pool


def respell(value):
    """The same value with integral numbers in the other spelling and object members in another order"""
    if type(value) is int and abs(value) < 2 ** 53:
        return float(value)
    if type(value) is float and value == value and abs(value) < 2 ** 53 and value == int(value):
        return int(value)
    if type(value) is list:
        return [respell(item) for item in value]
    if type(value) is dict:
        return {key: respell(value[key]) for key in reversed(list(value))}
    return value


def near(rng, value, depth=3):
    """A value close to the given one"""
    if type(value) is list:
        out = list(value)
        pick = rng.random()
        if pick < 0.3 or not out:
            out.insert(rng.randint(0, len(out)), small_value(rng, 0))
        elif pick < 0.5:
            del out[rng.randrange(len(out))]
        elif depth > 0:
            ix = rng.randrange(len(out))
            out[ix] = near(rng, out[ix], depth - 1)
        return out
    if type(value) is dict:
        out = dict(value)
        pick = rng.random()
        if pick < 0.3 or not out:
            out[rng.choice('abcdxyz') + rng.choice(('', '1', ' '))] = small_value(rng, 0)
        elif pick < 0.5:
            del out[rng.choice(list(out))]
        elif depth > 0:
            key = rng.choice(list(out))
            out[key] = near(rng, out[key], depth - 1)
        return out
    if type(value) is str:
        return value + rng.choice(('', 'a', ' ', '\x00')) if rng.random() < 0.6 else value[:-1]
    if type(value) in (int, float):
        return rng.choice((value + 1, value - 1, value + 0.5, -value, respell(value), str(value), bool(value))) if abs(value) < 1e300 else -value
    if isinstance(value, datetime.datetime):
        return value + datetime.timedelta(milliseconds=rng.choice((0, 1, -1, 3600000)))
    if value is None or value is True or value is False:
        return rng.choice((None, True, False, 0, 1, '', 'null', [], {}))
    return value


def random_pool(rng, size):
    pool = []
    while len(pool) < size:
        value = small_value(rng, 3)
        pool.append(value)
        for _ in range(rng.choice((0, 1, 2))):
            value = near(rng, value)
            pool.append(value)
        if rng.random() < 0.3:
            pool.append(respell(value))
    return pool[:size]


def far_pool(rng):
    """Large values whose first difference is far from where the comparison starts"""
    pool = []
    for _ in range(8):
        length = rng.choice((40, 65, 129, 300, 1025, 2100))
        text = rng.choice('ab') * length
        pool += [text, text + 'a', text[:-1] + 'c', text[:-1]]
        array = [rng.choice((1, 'a', None))] * length
        pool += [array, array + [0], array[:-1] + [2], array[:-1], respell(array)]
        names = [f'k{ix}' for ix in range(min(length, 300))]
        rng.shuffle(names)
        object_ = {name: 1 for name in names}
        greatest = max(names)
        pool += [object_, {**object_, greatest: 2}, {**object_, 'l': 0}, {name: 1 for name in names if name != greatest}, {**object_, rng.choice(names): '1'}]
    for _ in range(4):
        depth = rng.choice((10, 33, 65, 110))
        for core in (1, 1.0, 2, None, [1], {}):
            value, other = core, core
            for ix in range(depth):
                value = [value] if ix % 2 else {'a': value}
                other = [0, other]
            pool += [value, other]
    return rng.sample(pool, 120)


OPS = (('<', lambda c: c < 0), ('<=', lambda c: c <= 0), ('>', lambda c: c > 0), ('>=', lambda c: c >= 0), ('==', lambda c: c == 0), ('!=', lambda c: c != 0))
_EXPRS = {}


def operator_results(left, right):
    """The six results through evaluate_expression"""
    if not _EXPRS:
        for op, _ in OPS:
            _EXPRS[op] = parse_expression(f'a {op} b')
    options = {'globals': {'a': left, 'b': right}}
    return [evaluate_expression(_EXPRS[op], options, None, False) for op, _ in OPS]


def kind_of(value):
    from vf.values import tname
    return tname(value)


def check_pair(mon, left, right, operators):
    observed = library()['systemCompare']([left, right], None)
    expected = compare(left, right)
    mon.count('pairs')
    kl, kr = kind_of(left), kind_of(right)
    if kl != kr:
        mon.count('mixed_type_pairs')
    elif kl in ('array', 'object'):
        mon.count('nested_pairs')
    elif kl == 'datetime':
        mon.count('datetime_pairs')
    if expected == 0:
        mon.count('equal_pairs')
    if type(observed) not in (int, float) or (observed > 0) - (observed < 0) != observed or observed != expected:
        raise Violation('systemCompare gives the wrong order', left=show(left), right=show(right), observed=show(observed), expected=expected)
    if operators:
        results = operator_results(left, right)
        mon.count('operator_results', 6)
        for (op, test), result in zip(OPS, results):
            if result is not test(expected):
                raise Violation(f'{op} is not the sign test of the comparison', left=show(left), right=show(right), observed=show(result), compare=expected)
    return observed


def matrix_case(mon, pool, operators):
    rows = []
    for ix, left in enumerate(pool):
        with mon.case(lambda: {'value': show(left), 'against': len(pool)}, key=('row', show(left), len(pool))):
            row = [check_pair(mon, left, right, operators or (ix + jx) % 5 == 0) for jx, right in enumerate(pool)]
            other = respell(left)
            for jx, right in enumerate(pool):
                mon.count('respelled_pairs')
                for pair in ((other, right), (other, respell(right))):
                    got = library()['systemCompare'](list(pair), None)
                    if got != row[jx]:
                        raise Violation('holding a number as int or float changes the comparison', left=show(pair[0]), right=show(pair[1]), observed=show(got), before=row[jx])
            rows.append(row)
    if len(rows) != len(pool) or any(len(row) != len(pool) for row in rows):
        return
    # A total preorder: the results are the signs of differences of a rank
    with mon.case(lambda: {'matrix': len(pool)}, key=('matrix', tuple(show(value) for value in pool))):
        rank = [sum(1 for item in row if item > 0) for row in rows]
        for ix, row in enumerate(rows):
            for jx, item in enumerate(row):
                if item != (rank[ix] > rank[jx]) - (rank[ix] < rank[jx]):
                    raise Violation('the comparison is not transitive', left=show(pool[ix]), right=show(pool[jx]), observed=item, ranks=(rank[ix], rank[jx]))
                if item != -rows[jx][ix]:
                    raise Violation('the comparison is not antisymmetric', left=show(pool[ix]), right=show(pool[jx]))
        mon.count('triples', len(pool) ** 3)


# ---------------------------------------------------------------- consumers

def permutation(before, after):
    """Is after the same items (by identity, numbers and strings by value) in some order?"""
    def key(item):
        return id(item) if isinstance(item, (list, dict)) else (type(item).__name__, repr(item))
    return sorted(map(str, map(key, before))) == sorted(map(str, map(key, after)))


def ordered(items, by=lambda item: item, descending=False):
    for first, second in zip(items, items[1:]):
        if (compare(by(second), by(first)) if descending else compare(by(first), by(second))) > 0:
            return first, second
    return None


_SCRIPTS = {}


def script(text):
    if text not in _SCRIPTS:
        _SCRIPTS[text] = parse_script(text)
    return _SCRIPTS[text]


def sort_case(mon, rng, values):
    with mon.case(lambda: {'arraySort': [show(value) for value in values]}, key=('sort', tuple(map(show, values))), nontrivial=len(values) > 1):
        array = list(values)
        pick = rng.random()
        if pick < 0.5:
            result = library()['arraySort']([array], None)
        else:
            mon.count('script_sorts')
            text = 'return arraySort(array)' if pick < 0.8 else ('return arraySort(array, systemCompare)' if pick < 0.9 else
                                                              'function cmp(a, b):\n  return if(a < b, -1, if(a == b, 0, 1))\nendfunction\nreturn arraySort(array, cmp)')
            out = execute(script(text), {'array': array})
            if out.kind != 'value':
                raise Violation('sorting failed', observed=out.text())
            result = out.value
        mon.count('sorts')
        if type(result) is not list or not permutation(values, result):
            raise Violation('arraySort did not return a permutation', before=[show(v) for v in values], after=show(result))
        bad = ordered(result)
        if bad:
            raise Violation('arraySort did not order the values', first=show(bad[0]), second=show(bad[1]), result=show(result))
        if array is not result and (len(array) != len(result) or any(a is not b for a, b in zip(array, result))):
            raise Violation('arraySort did not sort its argument', array=show(array), result=show(result))


def data_sort_case(mon, rng, values):
    fields = ['k', 'm', 'n'][:rng.choice((1, 1, 2, 3))]
    rows = []
    for ix, value in enumerate(values):
        row = {'id': ix}
        row['k'] = value
        for field in fields[1:]:
            if rng.random() < 0.85:
                row[field] = rng.choice(values[:3]) if rng.random() < 0.8 else small_value(rng, 1)
        if rng.random() < 0.3:
            row['k'] = rng.choice(values[:4])
        if rng.random() < 0.1:
            del row['k']
        rows.append(row)
    rng.shuffle(fields)
    sorts = [[field, desc] if (desc := rng.random() < 0.5) or rng.random() < 0.5 else [field] for field in fields]
    with mon.case(lambda: {'dataSort': show(rows), 'sorts': sorts}, key=('data', show(rows), str(sorts)), nontrivial=len(rows) > 1):
        out = execute(script('return dataSort(rows, sorts)'), {'rows': list(rows), 'sorts': sorts})
        mon.count('data_sorts')
        if len(sorts) > 1:
            mon.count('data_sorts_multi')
        result = out.value
        if out.kind != 'value' or type(result) is not list:
            raise Violation('dataSort failed', observed=out.text())
        if sorted(row.get('id', -1) for row in result) != list(range(len(rows))) or any(not same(row, rows[row['id']]) for row in result):
            raise Violation('dataSort did not return a permutation', result=show(result))
        for first, second in zip(result, result[1:]):
            for item in sorts:
                order = compare(first.get(item[0]), second.get(item[0])) * (-1 if len(item) > 1 and item[1] else 1)
                if order > 0:
                    raise Violation('dataSort did not order the rows', first=show(first), second=show(second), sorts=sorts)
                if order < 0:
                    break


def min_max_case(mon, values):
    with mon.case(lambda: {'mathMin/mathMax': [show(value) for value in values]}, key=('minmax', tuple(map(show, values))), nontrivial=len(values) > 1):
        for name, direction in (('mathMin', 1), ('mathMax', -1)):
            result = library()[name](list(values), None)
            mon.count('min_max')
            if not any(item is result or same(item, result, True) for item in values):
                raise Violation(f'{name} did not return an argument', values=[show(v) for v in values], observed=show(result))
            for item in values:
                if compare(result, item) * direction > 0:
                    raise Violation(f'{name} did not return a {"least" if direction > 0 else "greatest"} argument', values=[show(v) for v in values], observed=show(result),
                                    better=show(item))


def index_case(mon, rng, values):
    target = rng.choice(values) if rng.random() < 0.7 else small_value(rng, 2)
    if rng.random() < 0.5:
        target = respell(target)
    if kind_of(target) == 'function':
        return
    array = list(values)
    with mon.case(lambda: {'array': [show(v) for v in array], 'value': show(target)}, key=('index', tuple(map(show, array)), show(target)), nontrivial=len(array) > 1):
        start = rng.choice((None, None, 0, float(rng.randrange(len(array)))))
        hits = [ix for ix, item in enumerate(array) if compare(item, target) == 0]
        first = next((ix for ix in hits if ix >= (start or 0)), -1)
        last = next((ix for ix in reversed(hits) if ix <= (len(array) - 1 if start is None else start)), -1)
        for name, expected in (('arrayIndexOf', first), ('arrayLastIndexOf', last)):
            result = library()[name]([array, target] + ([] if start is None else [start]), None)
            mon.count('index_of')
            if expected >= 0:
                mon.count('index_found')
            if result != expected or isinstance(result, bool):
                raise Violation(f'{name} disagrees with the comparison', array=[show(v) for v in array], value=show(target), start=start, observed=show(result), expected=expected)


def script_case(mon, left, right):
    """The operators within a script, as statement conditions"""
    text = ('r = arrayNew()\n' + ''.join(f'if a {op} b:\n  arrayPush(r, 1)\nelse:\n  arrayPush(r, 0)\nendif\narrayPush(r, !(a {op} b))\n' for op, _ in OPS) + 'return r')
    with mon.case(lambda: {'script': [show(left), show(right)]}, key=('script', show(left), show(right))):
        out = execute(script(text), {'a': left, 'b': right})
        order = compare(left, right)
        expected = [item for _, test in OPS for item in (1 if test(order) else 0, not test(order))]
        if out.kind != 'value' or out.value != expected or any((type(a) is bool) != (type(b) is bool) for a, b in zip(out.value, expected)):
            raise Violation('the operators in a script disagree with the comparison', left=show(left), right=show(right), observed=out.text(), expected=expected)


def plan(tier):
    quick = tier == 'quick'
    shards = []
    for zone in ZONES:
        shards.append(('fixed', {'zone': zone, 'cost': 3}))
    for ix in range(16 if quick else 96):
        shards.append(('random', {'pools': 12 if quick else 100, 'size': 110, 'zone': ZONES[ix % 4], 'cost': 3}))
        if ix % 4 == 0:
            shards.append(('far', {'pools': 1 if quick else 10, 'zone': ZONES[ix // 4 % 4], 'cost': 3}))
        shards.append(('consumers', {'n': 4000 if quick else 40000, 'zone': ZONES[ix % 4], 'cost': 2}))
    return shards


def shard(kind, spec, rng, mon):
    before = os.environ.get('TZ')
    os.environ['TZ'] = spec['zone']
    time.tzset()
    mon.count('zones')
    try:
        if kind == 'fixed':
            matrix_case(mon, fixed_pool(), True)
        elif kind == 'far':
            for _ in range(spec['pools']):
                matrix_case(mon, far_pool(rng), False)
                mon.count('far_pools')
        elif kind == 'random':
            for ix in range(spec['pools']):
                base = fixed_pool()
                pool = random_pool(rng, spec['size']) + rng.sample(base, 30)
                matrix_case(mon, pool, ix % 3 == 0)
        else:
            base = fixed_pool()
            for _ in range(spec['n']):
                kinds = rng.choice((None, None, ('number',), ('number', 'boolean', 'null'), ('string', 'number'), ('array', 'object'), ('array',), ('object',), ('datetime', 'datetime', 'string')))
                values = [small_value(rng, 2, kinds) if rng.random() < 0.6 else rng.choice(base) for _ in range(rng.choice((1, 2, 2, 3, 4, 6, 10, 25, 90 if _ % 10 == 0 else 3)))]
                if kinds and 'datetime' in kinds:
                    values = [rng.choice(DATES + MORE_DATES) for _ in values]
                for ix in range(1, len(values)):
                    if rng.random() < 0.3:
                        values[ix] = near(rng, values[rng.randrange(ix)]) if rng.random() < 0.6 else respell(values[rng.randrange(ix)])
                sort_case(mon, rng, values)
                data_sort_case(mon, rng, values)
                min_max_case(mon, values)
                index_case(mon, rng, values)
                script_case(mon, values[0], values[-1])
    finally:
        if before is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = before
        time.tzset()
