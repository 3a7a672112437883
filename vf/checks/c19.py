"""C19: data functions against a naive relational reference, and CSV round trips."""
import copy
import csv
import datetime
import functools
import io
import math
import os
import time
from fractions import Fraction

import bare_script
from bare_script import add_calculated_field

from vf.host import execute
from vf.lang import BINARY_OPS, Evaluator, Unjudged, binop, call, group, num, render, string, unop, var
from vf.run import Violation
from vf.values import compare, dt_text, num_text, same, show, snapshot, truthy

RULE = ('A case is one table (to 12 rows x 5 fields; duplicate keys, nulls, missing fields, mixed key types, datetimes, arrays and objects as keys, colliding names a, a2, a3, texts with JSON '
        'punctuation) and one call, or a pipeline of up to 5 calls over the same table (a few tables of 20-260 rows, a few with names that differ by number suffixes): filter, calculated field, sort, top, aggregate, join; called from a script and as the exported Python '
        'function. The reference is written without keys or buckets: nested loops over rows that compare values with the reference order, insertion sort, exact rational arithmetic. Also '
        'typed tables written with csv.writer in several dialects and time zones and read back with dataParseCSV (whole, as several arguments) and dataValidate. Distinct by table and call.')
REQUIRED = ('csv_parsed_again', 'filter', 'calculated', 'sort', 'top', 'aggregate', 'join', 'pipelines', 'script_calls', 'host_calls', 'multi_sorts', 'stable_ties', 'mixed_keys', 'joined_rows', 'renamed_fields', 'double_renames', 'unmatched_rows',
            'right_expressions', 'variables', 'float_counts', 'category_tops', 'punctuation_keys', 'groups', 'null_categories', 'agg_count', 'agg_sum', 'agg_min', 'agg_max', 'agg_average', 'agg_stddev',
            'csv_tables', 'csv_cells', 'csv_nulls', 'csv_datetimes', 'csv_numbers', 'csv_booleans', 'csv_strings', 'csv_date_like', 'csv_quoted', 'csv_multi_line', 'csv_parts', 'csv_large', 'csv_late_columns', 'csv_long_cells', 'large_tables', 'wide_calls')
ASSUMPTIONS = ('Whether left rows without a match are kept is not judged (the documentation and the pinned tests disagree).',
               'The count of a group without any non-null value is not judged (pinned as null).',
               'Sums, averages and deviations are compared within 1e-12 of the magnitude of the values.')


# ---------------------------------------------------------------- tables

PUNCTUATION = ('a","b', '"', '[1]', '{}', 'null', '1', 'true', ',', '","', ']', "'", '\\', '\\"', 'a', 'a,b', '', ' ', 'A', 'é', '1.0', '[null]', '2024-01-01T00:00:00+00:00', 'a"', '"b', 'b","')
KEY_VALUES = PUNCTUATION + (None, None, 0, 1, 1.0, 2, 2.0, -1, 0.5, 1e21, True, False)
FIELDS = ('a', 'b', 'a2', 'a3', 'c d')


def a_datetime(rng):
    base = datetime.datetime(2024, 2, 28, 12) + datetime.timedelta(days=rng.randint(0, 2), hours=rng.choice((0, 0, 5)))
    pick = rng.random()
    if pick < 0.2:
        return base.date()
    if pick < 0.35:
        return base.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=rng.choice((0, 3, -5)))))
    if pick < 0.5:
        return base + datetime.timedelta(microseconds=rng.choice((1, 999, 1000)))
    return base


def key_value(rng, kind):
    if kind == 'few':
        return rng.choice((None, 1, 1.0, 2, 'x', 'y'))
    if kind == 'numbers':
        return rng.choice((None, 1, 1.0, 2, 3, -1, 0, 0.5))
    if kind == 'strings':
        return rng.choice(PUNCTUATION)
    if kind == 'datetimes':
        return a_datetime(rng)
    if kind == 'nested':
        return rng.choice(([], [1], [1.0], ['1'], [None], [[1]], {'a': 1}, {'a': '1'}, {'b': 1}, {}, {'a': 1, 'b': 2}, {'b': 2, 'a': 1.0}, None, 'null', '[1]', True, 1))
    pick = rng.random()
    return a_datetime(rng) if pick < 0.1 else ([rng.choice(KEY_VALUES)] if pick < 0.15 else rng.choice(KEY_VALUES))


KINDS = ('few', 'few', 'numbers', 'strings', 'datetimes', 'nested', 'mixed')


def table(rng, fields=None, rows=None):
    """A table: list of row dicts"""
    if fields is None and rng.random() < 0.02:
        # Names of which one plus a suffix is another plus another suffix: a + 12, a1 + 2
        fields = ['a', 'a1', *[f'a{ix}' for ix in range(2, 12)]] if rng.random() < 0.5 else rng.sample(['a', 'a1', 'a2', 'a11', 'a12', 'a112'], rng.randint(2, 6))
    if fields is None:
        fields = rng.sample(FIELDS, rng.randint(1, 5)) if rng.random() < 0.8 else rng.sample(FIELDS + ('a22', 'b2', 'c d2', 'a4', 'x"y', 'é'), rng.randint(1, 5))
    kinds = {field: rng.choice(KINDS) for field in fields}
    # A few values again and again: rows that agree in several fields
    narrow = rows is None and rng.random() < 0.06
    pools = {field: [key_value(rng, kinds[field]) for _ in range(2)] for field in fields} if narrow else {}
    out = []
    for _ in range(rng.choice((0, 1, 2, 3, 4, 5, 6, 8, 10, 12)) if rows is None else rows):
        if out and rng.random() < 0.15:
            out.append(dict(rng.choice(out)))
            continue
        row = {}
        for field in rng.sample(fields, len(fields)) if rng.random() < 0.15 else fields:
            if rng.random() > 0.1:
                row[field] = copy.copy(rng.choice(pools[field]) if narrow else key_value(rng, kinds[field]))
        out.append(row)
    return out


# ---------------------------------------------------------------- reference

def pred(args, _options):
    return len(args) > 0 and compare(args[0], 1) > 0


def pick_first(args, _options):
    return args[0] if args else None


HOST = {'pred': pred, 'first': pick_first, 'g': 1, 'h': 'text'}


def ref_eval(expr, row, variables):
    globals_ = dict(HOST)
    globals_.update(variables or {})
    return Evaluator(globals_, None).eval(expr, row)


def ref_filter(data, expr, variables):
    return [row for row in data if truthy(ref_eval(expr, row, variables))]


def ref_calculated(data, field, expr, variables):
    out = []
    for row in data:
        row = dict(row)
        row[field] = ref_eval(expr, row, variables)
        out.append(row)
    return out


def ref_before(left, right, sorts):
    """Does the right row belong before the left one?"""
    for sort in sorts:
        result = compare(right.get(sort[0]), left.get(sort[0]))
        if len(sort) > 1 and sort[1]:
            result = -result
        if result:
            return result < 0
    return False


def ref_sort(data, sorts):
    out = []
    for row in data:
        ix = len(out)
        while ix > 0 and ref_before(out[ix - 1], row, sorts):
            ix -= 1
        out.insert(ix, row)
    return out


def equal_values(left, right):
    return len(left) == len(right) and all(compare(a, b) == 0 for a, b in zip(left, right))


def ref_groups(data, fields):
    groups = []
    for row in data:
        values = [row.get(field) for field in fields]
        for known, rows in groups:
            if equal_values(known, values):
                rows.append(row)
                break
        else:
            groups.append((values, [row]))
    return groups


def ref_top(data, count, fields):
    return [row for _, rows in ref_groups(data, fields or []) for row in rows[:int(count)]]


ANY = object()


class Near:
    """A number that must be matched within a tolerance"""

    def __init__(self, value, slack):
        self.value, self.slack = value, slack

    def matches(self, other):
        return type(other) in (int, float) and abs(Fraction(other) - self.value) <= self.slack

    def __repr__(self):
        return f'~{float(self.value)!r}'


def ref_measure(function, values):
    """The measure of the non-null values (Near for rounded results)"""
    if not values:
        return ANY if function == 'count' else None
    if function == 'count':
        return len(values)
    if function in ('min', 'max'):
        best = values[0]
        for value in values[1:]:
            result = compare(value, best)
            if result < 0 if function == 'min' else result > 0:
                best = value
        return best
    exact = [Fraction(value) for value in values]
    magnitude = max(abs(value) for value in exact)
    total = sum(exact)
    if function == 'sum':
        return Near(total, sum(abs(value) for value in exact) * Fraction(1, 10 ** 12))
    mean = total / len(exact)
    if function == 'average':
        return Near(mean, magnitude * Fraction(1, 10 ** 12))
    variance = sum((value - mean) ** 2 for value in exact) / len(exact)
    deviation = Fraction(math.sqrt(variance))
    return Near(deviation, magnitude * Fraction(1, 10 ** 12) + deviation * Fraction(1, 10 ** 9))


def ref_aggregate(data, categories, measures):
    out = []
    for values, rows in ref_groups(data, categories or []):
        row = dict(zip(categories or [], values))
        for measure in measures:
            row[measure.get('name', measure['field'])] = ref_measure(measure['function'], [value for value in (row2.get(measure['field']) for row2 in rows) if value is not None])
        out.append(row)
    return out


def ref_names(left, right):
    """The names of the right fields in joined rows"""
    left_fields = {field for row in left for field in row}
    right_fields = list(dict.fromkeys(field for row in right for field in row))
    names = {}
    for field in right_fields:
        if field not in left_fields:
            names[field] = field
    for field in right_fields:
        if field in left_fields:
            ix = 2
            while f'{field}{ix}' in left_fields or f'{field}{ix}' in right_fields or f'{field}{ix}' in names.values():
                ix += 1
            names[field] = f'{field}{ix}'
    return names


def ref_join(mon, left, right, left_expr, right_expr, variables):
    """(rows, rows without the unmatched left ones)"""
    names = ref_names(left, right)
    mon.count('renamed_fields', sum(1 for field, name in names.items() if field != name))
    mon.count('double_renames', sum(1 for field, name in names.items() if field != name and not name == f'{field}2'))
    every, matched = [], []
    for left_row in left:
        key = ref_eval(left_expr, left_row, variables)
        found = False
        for right_row in right:
            if compare(ref_eval(right_expr, right_row, variables), key) == 0:
                found = True
                row = dict(left_row)
                for field, value in right_row.items():
                    row[names[field]] = value
                every.append(row)
                matched.append(row)
                mon.count('joined_rows')
        if not found:
            mon.count('unmatched_rows')
            every.append(dict(left_row))
    return every, matched


# ---------------------------------------------------------------- comparison

def same_value(expected, observed):
    if expected is ANY:
        return True
    if isinstance(expected, Near):
        return expected.matches(observed)
    return same(expected, observed)


def same_table(expected, observed):
    """None, or what differs"""
    if type(observed) is not list:
        return f'the result is {show(observed)}'
    if len(expected) != len(observed):
        return f'{len(observed)} rows instead of {len(expected)}'
    for ix, (wanted, row) in enumerate(zip(expected, observed)):
        if type(row) is not dict:
            return f'row {ix} is {show(row)}'
        if set(wanted) != set(row):
            return f'row {ix} has the fields {sorted(row)} instead of {sorted(wanted)}'
        for field, value in wanted.items():
            if not same_value(value, row[field]):
                return f'row {ix} field {field!r} is {show(row[field])} instead of {value if isinstance(value, Near) else show(value)}'
    return None


def show_table(data):
    return [{field: show(value) if not isinstance(value, Near) else repr(value) for field, value in row.items()} for row in data]


# ---------------------------------------------------------------- expressions

def field_var(rng, fields):
    return var(rng.choice(fields)) if fields else num(1)


def expression(rng, fields, depth=2):
    pick = rng.random()
    if depth <= 0 or pick < 0.3:
        pick = rng.random()
        if pick < 0.75:
            return field_var(rng, fields)
        return rng.choice((num(1), num(2), string('x'), string('a'), var('v'), var('w'), var('g'), var('null'), var('true')))
    if pick < 0.75:
        return binop(rng.choice([op for op in BINARY_OPS if op != '**']), expression(rng, fields, depth - 1), expression(rng, fields, depth - 1))
    if pick < 0.83:
        return unop(rng.choice('!!-'), expression(rng, fields, depth - 1))
    if pick < 0.88:
        return group(expression(rng, fields, depth - 1))
    if pick < 0.94:
        return call('pred', expression(rng, fields, depth - 1))
    if pick < 0.97:
        return call('first', expression(rng, fields, depth - 1))
    return call('if', expression(rng, fields, depth - 1), expression(rng, fields, depth - 1), expression(rng, fields, depth - 1))


def variables_of(rng, mon):
    if rng.random() < 0.6:
        return None
    mon.count('variables')
    return rng.choice(({'v': 1, 'w': 'x'}, {'g': 2}, {'v': None}, {}, {'a': 1, 'v': 2}, {'pred': pick_first, 'w': 2}))


# ---------------------------------------------------------------- calls

class Call:
    """One data function call: how to make it and what must come out"""

    def __init__(self, name, args, expected, allowed=(), check_input=True, host=None):
        self.name, self.args, self.expected, self.allowed, self.check_input, self.host = name, args, expected, allowed, check_input, host


def host_options():
    return {'globals': dict(HOST)}


def choose_call(mon, rng, data, others):
    """A random call on the table"""
    fields = list(dict.fromkeys(field for row in data for field in row))
    pick = rng.randrange(6)
    if pick == 0:
        expr = expression(rng, fields, rng.choice((1, 2, 3)))
        variables = variables_of(rng, mon)
        mon.count('filter')
        return Call('dataFilter', [render(expr), variables], ref_filter(data, expr, variables), host=lambda rows, text, vs: bare_script.filter_data(rows, text, vs, host_options()))
    if pick == 1:
        expr = expression(rng, fields, rng.choice((1, 2, 3)))
        variables = variables_of(rng, mon)
        field = rng.choice(fields + ['new', 'a', 'z 9', 'x]y']) if rng.random() < 0.9 else 'new'
        mon.count('calculated')
        return Call('dataCalculatedField', [field, render(expr), variables], ref_calculated(data, field, expr, variables), check_input=False,
                    host=lambda rows, field, text, vs: add_calculated_field(rows, field, text, vs, host_options()))
    if pick == 2:
        sorts = []
        for _ in range(rng.choice((0, 1, 1, 1, 2, 2, 3, 5))):
            field = rng.choice(fields + ['missing']) if rng.random() < 0.9 or not fields else 'missing'
            sorts.append(rng.choice(([field], [field, True], [field, False], [field, True])))
        mon.count('sort')
        mon.count('multi_sorts', len(sorts) > 1)
        expected = ref_sort(data, sorts)
        mon.count('stable_ties', sum(1 for a, b in zip(expected, expected[1:]) if not ref_before(a, b, sorts) and not ref_before(b, a, sorts)))
        mon.count('mixed_keys', len({type(row.get(sorts[0][0])) for row in data} - {int, type(None)}) > 1 if sorts else 0)
        return Call('dataSort', [sorts], expected, check_input=False, host=bare_script.sort_data)
    if pick == 3:
        count = rng.choice((1, 1.0, 2, 2.0, 3.0, 5, 100.0))
        categories = None if rng.random() < 0.25 or not fields else rng.sample(fields + ['missing'], rng.randint(0 if rng.random() < 0.1 else 1, min(3, len(fields))) if rng.random() < 0.85 else len(fields))
        mon.count('top')
        mon.count('float_counts', type(count) is float)
        if categories:
            mon.count('category_tops')
            count_keys(mon, data, categories)
        return Call('dataTop', [count, categories], ref_top(data, count, categories), host=bare_script.top_data)
    if pick == 4:
        return aggregate_call(mon, rng, data, fields)
    right = rng.choice(others) if others and rng.random() < 0.7 else table(rng)
    if rng.random() < 0.1:
        right = data
    right_fields = list(dict.fromkeys(field for row in right for field in row))
    shared = [field for field in fields if field in right_fields]
    variables = variables_of(rng, mon)
    if rng.random() < 0.45 and right_fields and fields:
        left_expr, right_expr = (var(rng.choice(fields)), var(rng.choice(right_fields))) if rng.random() < 0.7 else (expression(rng, fields, 1), expression(rng, right_fields, 1))
        mon.count('right_expressions')
        texts = [render(left_expr), render(right_expr)]
    else:
        left_expr = right_expr = var(rng.choice(shared)) if shared and rng.random() < 0.7 else expression(rng, shared or fields, 2)
        texts = [render(left_expr), None]
    mon.count('join')
    every, matched = ref_join(mon, data, right, left_expr, right_expr, variables)
    left_join = rng.choice((False, True, None))
    return Call('dataJoin', [copy_table(right), texts[0], texts[1], bool(left_join), variables], every, (matched,),
                host=lambda rows, right, expr, rexpr, left, vs: bare_script.join_data(rows, right, expr, rexpr, left, vs, host_options()))


def wide_table(rng):
    """A long table of spread-out values"""
    rows = rng.choice((20, 40, 66, 100, 130, 200, 260, 400))
    keys = rng.choice((('x', 'y'), ('x', 'x', 'x', 'x', 'y', None), (1, 1.0, 2), tuple(range(7)), tuple(f'k{ix}' for ix in range(90)), (datetime.datetime(2024, 1, 1), datetime.datetime(2024, 1, 2))))
    nulls = rng.choice((0, 0, 0.1, 0.5))
    number = rng.choice((lambda: rng.uniform(-1e3, 1e3), lambda: rng.randint(-10 ** 6, 10 ** 6), lambda: rng.randint(0, 5), lambda: rng.expovariate(0.01), lambda: -rng.random()))
    numbers = [number() for _ in range(rows)]
    if rng.random() < 0.25:
        numbers.sort(reverse=rng.random() < 0.5)
    out = []
    for ix in range(rows):
        row = {'k': rng.choice(keys), 'm': numbers[ix], 's': ''.join(rng.choice('abC') for _ in range(rng.randint(1, 6))), 'd': datetime.datetime(2020, 1, 1) + datetime.timedelta(hours=rng.randint(0, 50000)),
               'ix': ix}
        for field in ('m', 's', 'd'):
            if rng.random() < nulls:
                row[field] = None
        out.append(row)
    return out


def wide_call(mon, rng, data, _others):
    mon.count('wide_calls')
    pick = rng.randrange(6)
    if pick <= 2:
        measures = [{'field': field, 'function': function, 'name': f'{function} {field}'} for field, functions in
                    (('m', ('count', 'sum', 'min', 'max', 'average', 'stddev')), ('s', ('count', 'min', 'max')), ('d', ('count', 'min', 'max'))) for function in functions]
        measures = [measure for measure in measures if any(row.get(measure['field']) is not None for row in data)]
        rng.shuffle(measures)
        categories = rng.choice((None, None, ['k'], ['k'], ['s'], ['k', 's']))
        aggregation = {'measures': measures or [{'field': 'ix', 'function': 'max', 'name': 'top ix'}]}
        if categories:
            aggregation['categories'] = categories
        mon.count('aggregate')
        return Call('dataAggregate', [aggregation], ref_aggregate(data, categories, aggregation['measures']), host=bare_script.aggregate_data)
    if pick == 3:
        sorts = rng.choice(([['m']], [['m', True]], [['k'], ['m', True]], [['k', True], ['s'], ['m']], [['s']], [['d', True]], [['k']], [['k', True]]))
        mon.count('sort')
        return Call('dataSort', [sorts], ref_sort(data, sorts), check_input=False, host=bare_script.sort_data)
    if pick == 4:
        count = rng.choice((1, 10, 63, 64, 65, 100.0, 128, 255, 257))
        categories = rng.choice((None, ['k'], ['s'], ['k', 's']))
        mon.count('top')
        return Call('dataTop', [count, categories], ref_top(data, count, categories), host=bare_script.top_data)
    expr = rng.choice((binop('>', var('m'), num(1)), binop('==', var('k'), string('x')), binop('<', var('s'), string('b')), binop('>=', binop('%', var('ix'), num(50)), num(25)), binop('>', var('ix'), num(len(data) - 9))))
    mon.count('filter')
    return Call('dataFilter', [render(expr), None], ref_filter(data, expr, None), host=lambda rows, text, vs: bare_script.filter_data(rows, text, vs, host_options()))


def count_keys(mon, data, fields):
    mon.count('punctuation_keys', sum(1 for row in data for field in fields if type(row.get(field)) is str and any(char in row[field] for char in '",[]{}')))
    mon.count('null_categories', sum(1 for row in data for field in fields if row.get(field) is None))


def kind_of(data, field):
    kinds = {type(row.get(field)) for row in data} - {type(None)}
    if kinds <= {int, float}:
        return 'number'
    if kinds == {str}:
        return 'string'
    if kinds == {datetime.datetime} and all(row.get(field) is None or row[field].tzinfo is None for row in data):
        return 'datetime'
    return 'other'


def aggregate_call(mon, rng, data, fields):
    categories = None if rng.random() < 0.2 or not fields else rng.sample(fields, rng.randint(1, min(3, len(fields))) if rng.random() < 0.85 else len(fields))
    measures = []
    names = set(categories or [])
    for _ in range(rng.randint(1, 4)):
        field = rng.choice(fields + ['m', 'missing']) if fields else 'm'
        kind = kind_of(data, field)
        functions = {'number': ('count', 'sum', 'min', 'max', 'average', 'stddev'), 'string': ('count', 'min', 'max'), 'datetime': ('count', 'min', 'max'), 'other': ('count',)}[kind]
        measure = {'field': field, 'function': rng.choice(functions)}
        name = field
        if field in names or rng.random() < 0.5:
            name = rng.choice(('n1', 'n2', 'total', 'x y', field + '2'))
            measure['name'] = name
        if name in names:
            continue
        names.add(name)
        measures.append(measure)
        mon.count('agg_' + measure['function'])
    if not measures:
        measures = [{'field': 'missing', 'function': 'count', 'name': next(name for name in ('only', 'alone', 'single', 'o1', 'o2', 'o3') if name not in names)}]
    aggregation = {'measures': measures}
    if categories is not None:
        aggregation['categories'] = categories
        count_keys(mon, data, categories)
    expected = ref_aggregate(data, categories, measures)
    mon.count('aggregate')
    mon.count('groups', len(expected))
    return Call('dataAggregate', [aggregation], expected, host=bare_script.aggregate_data)


def copy_table(data):
    return [dict(row) for row in data]


def perform(mon, rng, call_, data):
    """Make the call on the table; the result"""
    if rng.random() < 0.6 or call_.host is None:
        mon.count('script_calls')
        globals_ = {f'arg{ix}': arg for ix, arg in enumerate([data] + call_.args)}
        globals_.update({name: value for name, value in HOST.items()})
        names = [f'arg{ix}' for ix in range(len(call_.args) + 1)]
        while len(names) > 2 and call_.args[len(names) - 2] is None and rng.random() < 0.5:
            names.pop()
        out = execute(f'return {call_.name}({", ".join(names)})', globals_)
        if out.kind != 'value':
            raise Violation(f'the call of {call_.name} {out.text()}')
        return out.value
    mon.count('host_calls')
    try:
        return call_.host(data, *call_.args)
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(f'the function behind {call_.name} raised {type(exc).__name__}: {exc}') from None


def pipeline_case(mon, rng, length, rows=None, wide=False):
    """A sequence of calls, each on the result of the last"""
    data = wide_table(rng) if wide else add_measures(rng, table(rng, rows=rows))
    if rows:
        mon.count('large_tables')
    others = [table(rng) for _ in range(2)]
    if rows and not wide and rng.random() < 0.5:
        # A large right table; fields that only late rows have
        others = [table(rng, rows=rng.choice((20, 45, 70))) for _ in range(2)]
        for some in (data, *others):
            for ix in rng.sample(range(len(some) // 2, len(some)), 2):
                some[ix][rng.choice(FIELDS)] = key_value(rng, 'few')
        mon.count('late_fields')
    state = {'table': show_table(data), 'calls': []}
    with mon.case(lambda: state, key=repr((state['table'], length, rng.getrandbits(8))), nontrivial=len(data) > 1):
        real = copy_table(data)
        if length > 1:
            mon.count('pipelines')
        for _ in range(length):
            try:
                call_ = (wide_call if wide else choose_call)(mon, rng, data, others)
            except Unjudged:
                mon.count('unjudged')
                return
            state['calls'].append([call_.name, *[show(arg) for arg in call_.args]])
            before, args_before = snapshot(real), snapshot(call_.args)
            rows_before = {id(row) for row in real}
            result = perform(mon, rng, call_, real)
            difference = same_table(call_.expected, result)
            expected = call_.expected
            for other in call_.allowed:
                if difference is not None and same_table(other, result) is None:
                    difference, expected = None, other
            if difference is not None:
                raise Violation(f'{call_.name}: {difference}', observed=show_table(result[:12]) if type(result) is list and all(type(row) is dict for row in result) else show(result),
                                expected=show_table(expected[:12]))
            if call_.check_input and (snapshot(real) != before or snapshot(call_.args) != args_before):
                raise Violation(f'{call_.name} changes its input', before=state['table'], after=show_table(real))
            if call_.name in ('dataSort', 'dataFilter', 'dataTop') and any(id(row) not in rows_before for row in result):
                raise Violation(f'{call_.name} gives rows that are not the rows of the table')
            if wide and (call_.name == 'dataAggregate' or not result):
                return
            if len(result) > (14 if not rows else 400) or any(value is ANY for row in expected for value in row.values()):
                return
            # Continue on the result (rounded values as they came out)
            real = result
            data = [{field: row[field] for field in wanted} for wanted, row in zip(expected, result)]
            data = copy_table(data)


def add_measures(rng, data):
    """A number column, sometimes with a large offset"""
    if rng.random() < 0.75:
        style = rng.choice(('small', 'small', 'floats', 'offset', 'huge', 'cancel', 'wide'))
        for row in data:
            if rng.random() < 0.85:
                row['m'] = {'small': lambda: rng.randint(-5, 9), 'floats': lambda: rng.choice((0.1, 0.2, 0.3, 1.5, -0.7, 2)), 'offset': lambda: 1e9 + rng.randint(0, 9),
                            'huge': lambda: rng.choice((1e16, 1, -1e16, 3)), 'cancel': lambda: rng.choice((1e16, 1.0, -1e16, 1.0)), 'wide': lambda: rng.uniform(-1e3, 1e3)}[style]()
            elif rng.random() < 0.5:
                row['m'] = None
    return data


def exhaustive_case(mon, keys_left, keys_right):
    """Every pair of keys: equality of keys is equality of values in joins, groups and tops"""
    left = [{'k': key, 'l': ix} for ix, key in enumerate(keys_left)]
    right = [{'k': key, 'r': ix} for ix, key in enumerate(keys_right)]
    with mon.case(lambda: {'left': show_table(left), 'right': show_table(right)}, key=('keys', show(keys_left), show(keys_right))):
        globals_ = {'left': left, 'right': right}
        out = execute("return arrayNew(dataJoin(left, right, 'k'), dataTop(left, 1, arrayNew('k')), "
                      "dataAggregate(left, objectNew('categories', arrayNew('k'), 'measures', arrayNew(objectNew('field', 'l', 'function', 'count')))), dataSort(dataFilter(left, 'true'), arrayNew(arrayNew('k'))))", globals_)
        if out.kind != 'value':
            raise Violation(f'the calls {out.text()}')
        joined, top, groups, ordered = out.value
        expected, matched = ref_join(mon, left, right, var('k'), var('k'), None)
        difference = same_table(expected, joined)
        if difference is not None and same_table(matched, joined) is not None:
            raise Violation(f'dataJoin: {difference}', observed=show_table(joined), expected=show_table(expected))
        for name, wanted, got in (('dataTop', ref_top(left, 1, ['k']), top), ('dataAggregate', ref_aggregate(left, ['k'], [{'field': 'l', 'function': 'count'}]), groups),
                                  ('dataSort', ref_sort(left, [['k']]), ordered)):
            difference = same_table(wanted, got)
            if difference is not None:
                raise Violation(f'{name}: {difference}', observed=show_table(got), expected=show_table(wanted))


def many_fields_case(mon, rng):
    """Rows of many fields, many keys, long keys that differ at one place only"""
    count = rng.choice((20, 41, 42, 65, 66, 90, 129, 257))
    fields = [f'f{ix}' for ix in range(count)]
    rows = rng.randint(2, 5)
    at = rng.choice((count - 1, count - 1, count - 2, 0, rng.randrange(count)))
    data = [{field: rng.choice((1, 1.0)) if ix != at else row % 3 for ix, field in enumerate(fields)} for row in range(rows)]
    for row in data:
        filler = [rng.choice((0, 0.0)) for _ in range(count)]
        filler[at] = row[fields[at]]
        row['key'] = filler if rng.random() < 0.5 else dict(zip(fields, filler))
        row['m'] = rng.choice((None, rng.randint(0, 9)))
    rng.shuffle(data)
    right = [{field: rng.choice(('r', None)) for field in rng.sample(fields, rng.randint(count // 2, count))} | {'key': copy.deepcopy(rng.choice(data)['key'])} for _ in range(rng.randint(1, 3))]
    before = copy_table(data)
    with mon.case(lambda: {'fields': count, 'rows': show_table(before), 'right': show_table(right)}, key=('many fields', count, at, rng.getrandbits(40))):
        mon.count('many_fields')
        field = fields[at]
        measures = [{'field': name, 'function': 'count', 'name': f'n {name}'} for name in fields] + [{'field': field, 'function': 'max', 'name': 'top'}]
        sorts = [[name] for name in fields]
        sorts[at] = [field, rng.random() < 0.5]
        expr = binop('==', var(field), num(1))
        calls = (Call('dataTop', [1, fields], ref_top(data, 1, fields)), Call('dataTop', [1.0, ['key']], ref_top(data, 1, ['key'])),
                 Call('dataSort', [sorts], ref_sort(data, sorts), check_input=False), Call('dataSort', [[['key']]], ref_sort(data, [['key']]), check_input=False),
                 Call('dataAggregate', [{'categories': fields, 'measures': [{'field': 'key', 'function': 'count'}]}], ref_aggregate(data, fields, [{'field': 'key', 'function': 'count'}])),
                 Call('dataAggregate', [{'categories': ['key'], 'measures': measures}], ref_aggregate(data, ['key'], measures)),
                 Call('dataFilter', [render(expr), None], ref_filter(data, expr, None)))
        for call_ in calls:
            result = perform(mon, rng, call_, copy_table(before))
            difference = same_table(call_.expected, result)
            if difference is not None:
                raise Violation(f'{call_.name} with {count} fields: {difference}', args=show(call_.args), observed=show(result))
        expected, matched = ref_join(mon, data, right, var('key'), var('key'), None)
        for left_rows, right_rows, expression_ in ((data, right, 'key'),):
            out = execute("return dataJoin(left, right, expr)", {'left': copy_table(left_rows), 'right': copy_table(right_rows), 'expr': expression_})
            difference = same_table(expected, out.value) if out.kind == 'value' else out.text()
            if difference is not None and (out.kind != 'value' or same_table(matched, out.value) is not None):
                raise Violation(f'dataJoin with {count} fields: {difference}', observed=show(out.value) if out.kind == 'value' else None, expected=show_table(expected))


def many_columns_case(mon, rng):
    """CSV with many columns"""
    count = rng.choice((20, 41, 42, 65, 66, 90, 129, 257))
    rows = rng.randint(1, 4)
    columns = {f'c{ix}': csv_column(rng, rows) for ix in range(count)}
    columns = {name: column for name, column in columns.items() if gap_safe(column[1])}
    expected = [{name: values[ix] for name, (_, values, _) in columns.items()} for ix in range(rows)]
    buffer = io.StringIO(newline='')
    writer = csv.writer(buffer, lineterminator='\n')
    writer.writerow(columns)
    for ix in range(rows):
        writer.writerow(texts[ix] for _, _, texts in columns.values())
    text = buffer.getvalue()
    with mon.case(lambda: {'csv': text}, key=('csv', text)):
        mon.count('csv_many_columns')
        records = list(csv_records(text))
        for parts in ([text], records):
            names = [f'part{ix}' for ix in range(len(parts))]
            out = execute(f'return dataParseCSV({", ".join(names)})', dict(zip(names, parts)))
            difference = same_table(expected, out.value) if out.kind == 'value' else out.text()
            if difference is not None:
                raise Violation(f'dataParseCSV of {len(columns)} columns: {difference}', expected=show_table(expected))


def many_parts_case(mon, rng):
    """A table given as many arguments"""
    rows = rng.choice((30, 41, 66, 129, 260))
    values = [rng.choice((None, rng.randint(-99, 99), rng.random())) for _ in range(rows)]
    parts = ['n'] + ['null' if value is None else num_text(value) for value in values]
    names = [f'part{ix}' for ix in range(len(parts))]
    with mon.case(lambda: {'csv': parts}, key=('csv parts', tuple(parts))):
        mon.count('csv_many_parts')
        out = execute(f'return dataParseCSV({", ".join(names)})', dict(zip(names, parts)))
        difference = same_table([{'n': value} for value in values], out.value) if out.kind == 'value' else out.text()
        if difference is not None:
            raise Violation(f'dataParseCSV of {len(parts)} parts: {difference}')


def csv_records(text):
    """The records of a CSV text, each with its line end"""
    begin, quoted = 0, False
    for ix, char in enumerate(text):
        if char == '"':
            quoted = not quoted
        elif char == '\n' and not quoted:
            yield text[begin:ix + 1]
            begin = ix + 1


# ---------------------------------------------------------------- CSV

DATE_LIKE = ('2024-02-30', '2023-02-29', '2024-13-01', '2024-00-10', '0000-01-01', '2024-04-31', '2024-02-30T00:00:00Z', '2024-01-01T25:00:00Z', '2024-01-01T00:61:00+00:00', '2024-06-31', '9999-99-99',
             '2024-01-32', '2024-1-1', '2024-01-01T00:00:00+99:99', '2024-01-01T10:00:00.1234Z extra', '2024-02-30T10:00:00.5-05:00')
PLAIN = ('abc', 'x y', 'a,b', 'say "hi"', '"', 'a\nb', 'line\r\nline', "it's", 'é', 'x,', ',y', '""', 'Null', 'nul', 'True', 'TRUE', 'yes', 'a\tb', '1,5', '1a', '#', 'tail ', '\U0001f600', '12abc', '--', 'a;b', 'NULL', 'a\rb', '\r', 'a\x00b', 'a\u2028b', '\x85', 'a\x0cb', 'x\x1cy', '\ufeffz')
LATER = PLAIN + DATE_LIKE + ('12', '1.5', 'true', 'false', '2024-01-01', '2024-01-01T00:00:00+00:00', '0', '-1', '1e5')


def csv_column(rng, rows):
    """(kind, values, texts) of a typed column"""
    kind = rng.choice(('number', 'number', 'boolean', 'datetime', 'string', 'string', 'datelike', 'null'))
    values = []
    # A column may begin with nulls, its type is that of its first value
    first = rng.randint(1, rows - 1) if rows > 1 and rng.random() < 0.25 else 0
    for ix in range(rows):
        if ix < first or rng.random() < 0.2 and (ix > first or not first):
            values.append(None)
        elif kind == 'number':
            values.append(rng.choice((0, 1, -1, 2.5, 1e21, 1e-7, 123456789012345, 0.1, -3.25, 1e300, 5e-324, rng.uniform(-1e6, 1e6), rng.randint(-10 ** 9, 10 ** 9))))
        elif kind == 'boolean':
            values.append(rng.random() < 0.5)
        elif kind == 'datetime':
            value = datetime.datetime(rng.choice((1970, 1999, 2024, 2024, 2030)), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
            if rng.random() < 0.4:
                value = value.replace(microsecond=rng.choice((1, 20, 500, 999)) * 1000)
            values.append(value)
        elif kind == 'string':
            values.append(rng.choice(LATER) if any(value is not None for value in values) else rng.choice(PLAIN))
        elif kind == 'datelike':
            values.append(rng.choice(DATE_LIKE) if rng.random() < 0.8 or all(value is None for value in values) else rng.choice(LATER))
        else:
            values.append(None)
    strings = kind in ('string', 'datelike', 'null')
    if strings is False and all(value is None for value in values):
        strings = True
    texts = []
    for value in values:
        if value is None:
            texts.append('null' if strings or rng.random() < 0.6 else '')
        elif value is True or value is False:
            texts.append('true' if value else 'false')
        elif isinstance(value, datetime.datetime):
            texts.append(dt_text(value))
        elif isinstance(value, str):
            texts.append(value)
        else:
            texts.append(num_text(value))
    if kind == 'string' and rng.random() < 0.002:
        ix = rng.randrange(rows)
        values[ix] = texts[ix] = rng.choice(('x', 'a,b "c"\n', '\u00e9')) * rng.choice((300, 5000, 40000, 140000))
    return kind, values, texts


def gap_safe(values):
    """Does every datetime exist exactly once in the local zone (so that its text denotes it)?"""
    for value in values:
        if isinstance(value, datetime.datetime) and (value.astimezone().astimezone(datetime.timezone.utc).astimezone().replace(tzinfo=None) != value or
                                                     value.astimezone().utcoffset().total_seconds() % 60):
            return False
    return True


def csv_case(mon, rng):
    rows = rng.choice((1, 1, 2, 3, 4, 6, 8, 12)) if rng.random() < 0.98 else rng.choice((30, 60, 120, 200, 300))
    mon.count('csv_large', rows > 12)
    names = rng.sample(('a', 'b', 'c d', 'e"f', 'g,h', 'é', 'n1', '2', 'x\ny', 'null', 'true'), rng.randint(1, 5))
    columns = {name: csv_column(rng, rows) for name in names}
    if not all(gap_safe(values) for _, values, _ in columns.values()):
        return
    expected = [{name: columns[name][1][ix] for name in names} for ix in range(rows)]
    cells = [[columns[name][2][ix] for name in names] for ix in range(rows)]
    quoting = rng.choice((csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL))
    if quoting == csv.QUOTE_ALL and rng.random() < 0.5:
        # A quoted cell keeps the blanks at its ends
        for name, (kind, values, texts) in columns.items():
            for ix in range(rows):
                if isinstance(values[ix], str) and values[ix] in PLAIN and rng.random() < 0.3:
                    values[ix] = texts[ix] = expected[ix][name] = rng.choice((' ', '  ', '\t', '\n')) + values[ix]
                    cells[ix][names.index(name)] = texts[ix]
    if quoting == csv.QUOTE_MINIMAL and len(names) == 1 and any(cell == '' for row in cells for cell in row):
        quoting = csv.QUOTE_ALL
    terminator = rng.choice(('\r\n', '\n', '\n'))
    records = []
    for record in [names] + cells:
        buffer = io.StringIO(newline='')
        csv.writer(buffer, quoting=quoting, lineterminator=terminator).writerow(record)
        records.append(buffer.getvalue())
    if rng.random() < 0.3:
        records[-1] = records[-1][:-len(terminator)]
    if rng.random() < 0.15 and quoting == csv.QUOTE_MINIMAL:
        # Blanks after commas are dropped
        records = [record.replace(',', ', ') if '"' not in record and '\n' not in record[:-len(terminator)] and ', ' not in record else record for record in records]
    parts = [''.join(records)]
    if rng.random() < 0.35:
        cut = sorted(rng.sample(range(len(records) + 1), rng.randint(1, min(3, len(records)))))
        parts = [''.join(records[begin:end]) for begin, end in zip([0] + cut, cut + [len(records)])]
        # A part that does not end in a line terminator ends its line all the same
        parts = [part[:-len(terminator)] if part.endswith(terminator) and rng.random() < 0.4 else part for part in parts]
        if rng.random() < 0.3:
            parts.insert(rng.randint(0, len(parts)), None)
        mon.count('csv_parts')
    with mon.case(lambda: {'csv': parts, 'columns': {name: column[0] for name, column in columns.items()}}, key=('csv', tuple(parts))):
        mon.count('csv_tables')
        mon.count('csv_long_cells', sum(len(cell) > 1000 for row in cells for cell in row))
        mon.count('csv_late_columns', sum(values[0] is None and any(value is not None for value in values) for _, values, _ in columns.values()))
        mon.count('csv_cells', rows * len(names))
        mon.count('csv_quoted', sum(record.count('"') > 0 for record in records))
        mon.count('csv_multi_line', sum('\n' in cell for row in cells for cell in row))
        for kind, values, _ in columns.values():
            mon.count('csv_nulls', sum(value is None for value in values))
            mon.count({'number': 'csv_numbers', 'boolean': 'csv_booleans', 'datetime': 'csv_datetimes', 'string': 'csv_strings', 'datelike': 'csv_date_like', 'null': 'csv_nulls'}[kind])
        globals_ = {f'part{ix}': part for ix, part in enumerate(parts)}
        out = execute(f'return dataParseCSV({", ".join(globals_)})', dict(globals_))
        if out.kind != 'value':
            raise Violation(f'dataParseCSV {out.text()}')
        difference = same_table(expected, out.value)
        if difference is not None:
            raise Violation(f'dataParseCSV: {difference}', observed=show(out.value), expected=show_table(expected))
        # Parsed again after the first table was changed in place
        if rng.random() < 0.3 and out.value:
            row = rng.choice(out.value)
            row[rng.choice(names)] = rng.choice(('changed', None, 7))
            if rng.random() < 0.5:
                execute("dataCalculatedField(data, 'added', '1 + 1')", {'data': out.value})
            else:
                out.value.append({})
            again = execute(f'return dataParseCSV({", ".join(globals_)})', dict(globals_))
            difference = same_table(expected, again.value) if again.kind == 'value' else again.text()
            mon.count('csv_parsed_again')
            if difference is not None:
                raise Violation(f'dataParseCSV of the same text, after a change of the first table: {difference}', expected=show_table(expected))
        # The same cells as a table of strings
        data = [dict(zip(names, row)) for row in cells]
        if rng.random() < 0.5:
            out = execute('return dataValidate(data, true)', {'data': data})
            difference = same_table(expected, out.value) if out.kind == 'value' else out.text()
        else:
            try:
                types = bare_script.validate_data(data, True)
            except Exception as exc:  # pylint: disable=broad-except
                raise Violation(f'validate_data raised {type(exc).__name__}: {exc}') from None
            difference = same_table(expected, data)
            for name, (kind, values, _) in columns.items():
                if difference is None and any(value is not None for value in values) and types.get(name) != {'datelike': 'string'}.get(kind, kind):
                    difference = f'the type of column {name!r} is {types.get(name)}, not {kind}'
        if difference is not None:
            raise Violation(f'dataValidate: {difference}', expected=show_table(expected))
        # A typed table is valid as it is
        typed = copy_table(expected)
        out = execute('return dataValidate(data)', {'data': typed})
        difference = same_table(expected, out.value) if out.kind == 'value' else out.text()
        if difference is not None:
            raise Violation(f'dataValidate of a typed table: {difference}', expected=show_table(expected))


# ---------------------------------------------------------------- plan

ZONES = ('UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Chatham')


def plan(tier):
    quick = tier == 'quick'
    shards = []
    for ix in range(12 if quick else 64):
        shards.append(('pipeline', {'n': 5000 if quick else 25000, 'zone': ZONES[ix % len(ZONES)], 'cost': 3}))
    for ix in range(8 if quick else 32):
        shards.append(('csv', {'n': 2500 if quick else 15000, 'zone': ZONES[ix % len(ZONES)], 'cost': 3}))
    for ix in range(4 if quick else 16):
        shards.append(('large', {'n': 300 if quick else 3000, 'zone': ZONES[ix % len(ZONES)], 'cost': 3}))
        shards.append(('keys', {'n': 300 if quick else 3000, 'zone': ZONES[ix % len(ZONES)], 'cost': 2}))
    return shards


@functools.lru_cache(maxsize=1)
def all_keys():
    base = datetime.datetime(2024, 2, 28, 12)
    return KEY_VALUES + (base, base.date(), datetime.datetime(2024, 2, 28), base + datetime.timedelta(microseconds=1), base + datetime.timedelta(milliseconds=1), base.replace(tzinfo=datetime.timezone.utc),
                         base.astimezone(), [], [1], [1.0], ['1'], [None], [[1]], [True], {'a': 1}, {'a': '1'}, {'b': 1}, {}, {'a': 1, 'b': 2}, {'b': 2, 'a': 1.0}, [''], ['a', 'b'], ['a","b'], {'a': None}, -0.0)


def shard(kind, spec, rng, mon):
    os.environ['TZ'] = spec['zone']
    time.tzset()
    all_keys.cache_clear()
    if kind == 'keys':
        keys = list(all_keys())
        for left in keys:
            exhaustive_case(mon, [left], keys)
        for _ in range(spec['n']):
            exhaustive_case(mon, [rng.choice(keys) for _ in range(rng.randint(1, 12))], [rng.choice(keys) for _ in range(rng.randint(0, 12))])
        return
    for _ in range(spec['n']):
        if kind == 'large':
            pipeline_case(mon, rng, rng.choice((1, 2, 3)), rng.choice((20, 40, 70, 100, 150, 260)))
            pipeline_case(mon, rng, rng.choice((1, 1, 2, 3)), 400, True)
            if rng.random() < 0.25:
                many_fields_case(mon, rng)
                many_columns_case(mon, rng)
                many_parts_case(mon, rng)
        elif kind == 'pipeline':
            pipeline_case(mon, rng, rng.choice((1, 1, 1, 2, 3, 5)))
        else:
            csv_case(mon, rng)
