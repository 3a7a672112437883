"""C12: int and float spellings of a number are interchangeable. Metamorphic: every function, operator and program runs once per spelling."""
import math

from bare_script import evaluate_expression, execute_script

from vf.checks.c01 import random_program
from vf.checks.c03 import ALIASES
from vf.host import library, model_of
from vf.lang import BINARY_OPS, binop, call, render_program, string, unop, var
from vf.libargs import SIGS, VOLATILE, fuzz_args, typed_args
from vf.run import Violation
from vf.values import NUMBERS, heavy, show, small_value, tname

RULE = ('A case is one call (every library function, every expression alias, every operator, on typed, near-typed and hostile arguments of every type) or '
        'one program (nested library calls on literals, data expressions, loops with index variables, random programs), run once per spelling: all '
        'integral numbers below 1e15 as float, all as int, and random mixtures, recursively inside containers. Result, failure, return value of the failed '
        'call, log output, globals and the state and aliasing of the arguments after the call must agree. Non-trivial: some number is respelled; '
        'distinct by (callee, arguments).')
REQUIRED = ('calls', 'max_functions', 'alias_calls', 'operator_cases', 'respelled_numbers', 'failures', 'values', 'mutations', 'nested_programs', 'random_programs',
            'data_programs', 'mixed_spellings', 'script_calls', 'nested_values', 'many_rows', 'long_arrays')
ASSUMPTIONS = ('Clock, random and fetch functions are left out, as are numbers of magnitude 1e15 and above (as arguments).',
               'Program-level runs keep numbers small so that no intermediate result leaves the range where int and float agree.')
SKIP = VOLATILE | {'systemFetch'}
LIMIT = 1e15


def respell(value, pick, memo=None, count=None):
    """A deep copy with integral numbers spelled as pick() says (aliasing and cycles kept); dates, functions and regexes are shared"""
    if type(value) in (int, float):
        if value != value or abs(value) >= LIMIT or value != int(value) or (value == 0 and math.copysign(1, value) < 0):
            return value
        if count is not None:
            count[0] += 1
        return pick()(value)
    if type(value) not in (list, dict):
        return value
    memo = {} if memo is None else memo
    if id(value) in memo:
        return memo[id(value)][0]
    out = [] if type(value) is list else {}
    memo[id(value)] = (out, value)
    if type(value) is list:
        out.extend(respell(item, pick, memo, count) for item in value)
    else:
        for key, item in value.items():
            out[key] = respell(item, pick, memo, count)
    return out


def out_of_range(value, memo=None):
    """Does the value hold a host int beyond the judged magnitude?"""
    if type(value) is int:
        return abs(value) >= LIMIT
    if type(value) in (list, dict):
        memo = set() if memo is None else memo
        if id(value) in memo:
            return False
        memo.add(id(value))
        return any(out_of_range(item, memo) for item in (value if type(value) is list else value.values()))
    return False


def spellings(rng):
    """The spelling choices of one case: float, int, and two mixtures"""
    return [lambda: float, lambda: int, lambda: rng.choice((int, float)), lambda: rng.choice((int, float))]


def picture(value, memo=None, depth=0):
    """Values by value, aliasing by visit order; the sign of zero counts (its text differs)"""
    memo = {} if memo is None else memo
    kind = tname(value)
    if kind == 'number':
        if value != value:
            return 'nan'
        return (kind, value, value == 0 and math.copysign(1, value) < 0)
    if kind in ('array', 'object'):
        if id(value) in memo:
            return ('ref', memo[id(value)])
        memo[id(value)] = len(memo)
        if depth > 300:
            return ('deep',)
        if kind == 'array':
            return (kind, tuple(picture(item, memo, depth + 1) for item in value))
        return (kind, tuple((key, picture(item, memo, depth + 1)) for key, item in value.items()))
    if kind == 'function':
        return (kind, getattr(value, '__qualname__', ''))
    if kind == 'regex':
        return (kind, value.pattern, value.flags)
    return (kind, repr(value))


def observe(func, args, expression=None, aliases=()):
    """Everything visible of one call: through the function itself, or through a script expression"""
    logs = []
    globals_ = {f'a{ix}': arg for ix, arg in enumerate(args)}
    names = list(globals_)
    options = {'globals': globals_, 'logFn': logs.append, 'debug': True, 'maxStatements': 0}
    failure = None
    result = None
    try:
        if expression is None:
            result = func(list(args), options)
        else:
            result = evaluate_expression(expression, options, None, True)
    except RecursionError:
        return None
    except Exception as exc:  # pylint: disable=broad-except
        failure = ('failed', picture(getattr(exc, 'return_value', None)))
    memo = {}
    reports = host_neutral(logs)
    extra = {key: value for key, value in globals_.items() if key not in names and key not in library()}
    return {'failure': failure, 'result': picture(result, memo), 'arguments': tuple(picture(arg, memo) for arg in args), 'globals': picture(extra, memo),
            'logs': (len(logs), tuple(reports))}


def host_neutral(logs):
    """Failure reports may quote host type names and host values"""
    return ['failure' if ' failed with error: ' in line and not line.split(' failed with error: ')[1].startswith(('Invalid "', 'Too many')) else line for line in logs]


def compare_all(mon, views, spelled, **detail):
    first = views[0]
    for view, args in zip(views[1:], spelled[1:]):
        for part in ('failure', 'result', 'arguments', 'globals', 'logs'):
            if view[part] != first[part]:
                raise Violation(f'the {part} depends on the spelling of a number', first=str(first[part])[:700], second=str(view[part])[:700],
                                first_args=shown(spelled[0]), second_args=shown(args), **detail)


def shown(args):
    return [show(arg) for arg in args]


def call_case(mon, rng, name, args, alias=None):
    if any(heavy(arg, 20000) for arg in args if type(arg) is not str) or any(tname(arg) is None for arg in args):
        return
    count = [0]
    spelled = []
    try:
        if any(out_of_range(arg) for arg in args):
            return
        for ix, pick in enumerate(spellings(rng)):
            memo = {}
            spelled.append([respell(arg, pick, memo, count if ix == 0 else None) for arg in args])
    except RecursionError:
        return
    mon.count('respelled_numbers', count[0])
    with mon.case(lambda: {'function': alias or name, 'args': shown(args)}, key=(alias or name, show(args)), nontrivial=count[0] > 0):
        mon.count('mixed_spellings', 2)
        func = library()[name]
        views = [observe(func, respelled_copy(args_)) for args_ in spelled]
        if any(view is None for view in views):
            mon.count('too_deep')
            return
        mon.count('alias_calls' if alias else 'calls')
        mon.count('failures' if views[0]['failure'] else 'values')
        if any(type(arg) in (list, dict) and len(arg) for arg in args):
            mon.count('nested_values')
        if views[0]['arguments'] != tuple(picture_all(args)):
            mon.count('mutations')
        compare_all(mon, views, spelled, function=name)
        if alias or rng.random() < 0.3:
            mon.count('script_calls')
            expression = call(alias or name, *[var(f'a{ix}') for ix in range(len(args))])
            if alias is None:
                expression = {'function': {'name': name, 'args': expression['function']['args']}}
                views = [observe_global(name, func, respelled_copy(args_), expression) for args_ in spelled]
            else:
                views = [observe(None, respelled_copy(args_), expression) for args_ in spelled]
            if any(view is None for view in views):
                return
            compare_all(mon, views, spelled, function=alias or name, through='expression')


def observe_global(name, func, args, expression):
    logs = []
    globals_ = {f'a{ix}': arg for ix, arg in enumerate(args)}
    globals_[name] = func
    try:
        result = evaluate_expression(expression, {'globals': globals_, 'logFn': logs.append, 'debug': True}, None, False)
        failure = None
    except RecursionError:
        return None
    except Exception as exc:  # pylint: disable=broad-except
        result, failure = None, type(exc).__name__
    memo = {}
    reports = host_neutral(logs)
    return {'failure': failure, 'result': picture(result, memo), 'arguments': tuple(picture(arg, memo) for arg in args), 'globals': (), 'logs': (len(logs), tuple(reports))}


def picture_all(args):
    memo = {}
    picture(None, memo)
    return [picture(arg, memo) for arg in args]


def respelled_copy(args):
    """A fresh deep copy, spelling kept"""
    memo = {}
    return [respell(arg, lambda: (lambda value: value), memo) for arg in args]


def operator_case(mon, rng, op, left, right):
    if out_of_range([left, right]):
        return
    count = [0]
    spelled = []
    for ix, pick in enumerate(spellings(rng)):
        memo = {}
        spelled.append([respell(left, pick, memo, count if ix == 0 else None), respell(right, pick, memo)])
    with mon.case(lambda: {'operator': op, 'left': show(left), 'right': show(right)}, key=(op, show(left), show(right)), nontrivial=count[0] > 0):
        mon.count('operator_cases')
        for literals in (False, True):
            for text in (False, True):
                views = []
                for args in spelled:
                    operands = [{'number': arg} if literals and type(arg) in (int, float) and math.isfinite(arg) else var(f'a{ix}') for ix, arg in enumerate(args)]
                    expression = unop(op[1:], operands[0]) if op.startswith('u') else (call('if', *operands) if op == 'if' else binop(op, *operands))
                    views.append(observe(None, args, binop('+', string('t:'), {'group': expression}) if text else expression))
                compare_all(mon, views, spelled, operator=op)


# ---------------------------------------------------------------- programs

def literal(rng, value):
    """An expression denoting the value (numbers as literals), or None"""
    kind = tname(value)
    if kind == 'null':
        return var('null')
    if kind == 'boolean':
        return var('true' if value else 'false')
    if kind == 'number':
        if value != value or abs(value) > 1e6 or 0 < abs(value) < 1e-6:
            return None
        return {'number': abs(value)} if value >= 0 else unop('-', {'number': -value})
    if kind == 'string':
        return string(value[:9] if sum(char.isdigit() for char in value) < 6 else value[:5])      # (no digits beyond the judged magnitude, no huge sizes)
    if kind == 'array':
        items = [literal(rng, item) for item in value]
        return call('arrayNew', *items) if None not in items else None
    if kind == 'object':
        parts = []
        for key, item in value.items():
            parts += [string(key), literal(rng, item)]
        return call('objectNew', *parts) if None not in parts else None
    return None


SMALL_FUNCS = sorted(set(SIGS) - SKIP - {'systemLog', 'systemLogDebug', 'schemaTypeModel', 'mathPi', 'systemGlobalSet'})
NUMERIC = ('arrayLength', 'stringLength', 'arrayIndexOf', 'stringIndexOf', 'mathFloor', 'mathRound', 'numberParseInt', 'numberParseFloat', 'mathAbs', 'mathCeil', 'mathMax', 'mathMin',
           'stringCharCodeAt', 'systemCompare', 'datetimeYear', 'mathSign')


def nested_expr(rng, depth, name=None):
    name = name or rng.choice(SMALL_FUNCS)
    args = []
    for value in typed_args(rng, name):
        expr = literal(rng, value)
        if depth > 0 and (expr is None or rng.random() < 0.4):
            if tname(value) == 'number':
                inner = nested_expr(rng, depth - 1, rng.choice(NUMERIC))
                expr = inner if rng.random() < 0.6 else binop(rng.choice(('+', '-', '%')), inner, expr or var('one'))
            elif tname(value) == 'datetime':
                expr = call('datetimeNew', *[{'number': float(n)} for n in (rng.choice((2024, 1999)), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23))])
            elif rng.random() < 0.5:
                expr = nested_expr(rng, depth - 1)
        args.append(expr if expr is not None else var('null'))
    return call(name, *args)


def respell_model(node, pick):
    if isinstance(node, dict):
        if set(node) == {'number'}:
            return {'number': respell(node['number'], pick)}
        return {key: respell_model(value, pick) for key, value in node.items()}
    if isinstance(node, list):
        return [respell_model(value, pick) for value in node]
    return node


def run_model(model, globals_):
    logs = []
    failure = result = None
    try:
        result = execute_script(model, {'globals': globals_, 'logFn': logs.append, 'debug': True, 'maxStatements': 3000})
    except RecursionError:
        return None
    except Exception as exc:  # pylint: disable=broad-except
        failure = (type(exc).__name__, str(exc))
    memo = {}
    extra = {key: value for key, value in globals_.items() if not (key in library() and value is library()[key])}
    if heavy(extra, 20000):
        return None
    logs = host_neutral([line for line in logs if 'milliseconds' not in line])
    return {'failure': failure, 'result': picture(result, memo), 'arguments': (), 'globals': picture(extra, memo), 'logs': (len(logs), tuple(logs))}


def many(mon, rng, args):
    """The arguments with their arrays made longer"""
    args = list(args)
    for ix, arg in enumerate(args):
        if type(arg) is list and arg and not heavy(arg, 200):
            mon.count('long_arrays')
            rows = all(type(item) is dict for item in arg)
            size = rng.choice((6, 12, 40, 120))
            args[ix] = arg + [{key: rng.choice((float(rng.randint(-9, 99)), item)) for key, item in rng.choice(arg).items()} if rows else rng.choice((float(rng.randint(-9, 9999)), rng.choice(arg)))
                              for _ in range(size)]
    return args


def some_numbers(rng):
    """The data the programs work on: mostly a few small numbers, sometimes many or large ones"""
    if rng.random() < 0.5:
        return [3, 1, 2], [(1, 2), (2, 1), (1, 3), (3, 3)]
    limit = rng.choice((3, 9, 100, 10 ** 6, 10 ** 9))
    count = rng.choice((1, 2, 5, 6, 9, 17, 40))
    def some():
        return rng.randint(-limit, limit) if rng.random() < 0.3 else rng.randint(0, limit)
    rows = [(rng.choice((1, 2, 3, some())), None if rng.random() < 0.05 else some() + (rng.choice((0.5, 0.25, 0.1)) if rng.random() < 0.05 else 0)) for _ in range(count)]
    return [some() for _ in range(rng.choice((1, 2, 3, 8, 20)))], rows


def program_case(mon, rng, model, counter, text=None):
    numbers, rows = some_numbers(rng) if counter == 'data_programs' else ([3, 1, 2], [(1, 2), (2, 1), (1, 3), (3, 3)])
    with mon.case(lambda: {'program': text or str(model)[:3000], 'numbers': numbers, 'rows': rows}, key=(counter, text or str(model), str(numbers), str(rows))):
        mon.count('many_rows', len(rows) > 4)
        views, spelled = [], []
        for pick in spellings(rng):
            globals_ = {'one': pick()(1), 'numbers': respell(numbers, pick), 'rows': [{'a': respell(a, pick), 'b': respell(b, pick)} for a, b in rows],
                        'name': 'n', 'zero': pick()(0), 'c': lambda args, options: False}
            spelled.append([dict(globals_)])
            view = run_model(respell_model(model, pick), globals_)
            if view is None:
                mon.count('too_deep')
                return
            views.append(view)
        mon.count(counter)
        compare_all(mon, views, spelled)


DATA_TEXTS = (
    "return dataCalculatedField(rows, 'c', 'a + b * {n}')", "return dataCalculatedField(rows, 'c', 'fixed(a / {n}, {n}) + text(b)')", "return dataFilter(rows, 'a >= {n} && b % 2 == 1')",
    "return dataTop(rows, {n}, arrayNew('a'))", "return dataSort(rows, arrayNew(arrayNew('a', {b}), arrayNew('b')))", "return dataJoin(rows, rows, 'a', 'b + v - {n}', false, objectNew('v', {n}))",
    "return dataAggregate(rows, objectNew('categories', arrayNew('a'), 'measures', arrayNew(objectNew('field', 'b', 'function', '{f}'), objectNew('field', 'a', 'function', 'count', 'name', 'n'))))",
    "return dataAggregate(rows, objectNew('measures', arrayNew(objectNew('field', 'b', 'function', '{f}'))))", "return dataFilter(rows, 'slice(text(a), {n} - 2) != x', objectNew('x', {n}))",
    "for v, ix in numbers:\n  arraySet(numbers, ix, v + ix * {n})\n  systemLog(ix + ':' + arrayGet(numbers, arrayLength(numbers) - ix - 1) + ':' + stringSlice('abcdef', ix, ix + {n}))\nendfor\nreturn numbers",
    "x = {n}\nwhile x > 0:\n  x = x - one\n  arrayPush(numbers, x, x / 2, x % 2, -x)\n  systemLog(numberToFixed(x, x) + jsonStringify(numbers, x + 1))\nendwhile\nreturn arraySort(numbers)",
    "o = objectNew('k', {n})\nobjectSet(o, stringNew({n}), one)\nobjectSet(o, 'd', datetimeNew(2024, {n}, one, 0, {n}, zero, 5) + one)\nreturn arrayNew(o, stringNew(o), datetimeISOFormat(objectGet(o, 'd')))",
    "function f(n, rest...):\n  return if(n > 0, n + f(n - 1, rest, one), arrayLength(rest))\nendfunction\np = systemPartial(f, {n})\nreturn arrayNew(f({n}, {n}), f(arrayLength(numbers)), p(one))",
    "a = arrayNewSize({n}, zero)\nfor v, i in a:\n  arraySet(a, i, stringFromCharCode(65 + i + {n}))\nendfor\nreturn arrayJoin(a, stringRepeat('-', {n}))",
    "return arrayNew(jsonStringify(numbers), stringNew(rows), jsonStringify(objectNew('a', {n}), {n}), mathRound({n} / 3, {n}), numberParseInt('11', {n} + 1), mathLog({n}, 2), {n} ** {n})",
    "jumpif ({n} - {n}) never\nif zero:\n  systemLog('truthy')\nelif {n}:\n  systemLog('n')\nendif\nnever:\nreturn arrayNew(!{n}, !zero, {n} && one, zero || {n}, {n} == one, {n} <= zero)",
    "i = 0\nx = arrayNew(5, 3, 4)\nfor v, i in x:\n  arraySet(x, i, -i)\nendfor\nreturn arrayNew(x, stringNew(x), arrayIndexOf(x, -{n}), 5 % -5, -zero, '' + -zero)"
)


def plan(tier):
    quick = tier == 'quick'
    shards = []
    for ix in range(16 if quick else 96):
        shards.append(('library', {'n': 150 if quick else 1500, 'cost': 4}))
        shards.append(('operators', {'n': 6000 if quick else 60000, 'cost': 2}))
        shards.append(('programs', {'n': 2000 if quick else 20000, 'cost': 3}))
    return shards


def shard(kind, spec, rng, mon):
    lib = library()
    if kind == 'library':
        names = [name for name in sorted(lib) if name not in SKIP]
        mon.count('max_functions', len(names))
        for name in names:
            for ix in range(spec['n']):
                args = typed_args(rng, name) if ix % 3 else fuzz_args(rng, name)
                if ix % 10 == 9:
                    args = many(mon, rng, args)
                call_case(mon, rng, name, args[:5] if len(args) > 5 and rng.random() < 0.3 else args)
        for alias, name in ALIASES.items():
            if name in SKIP or name not in lib:
                continue
            for ix in range(max(4, spec['n'] // 3)):
                call_case(mon, rng, name, typed_args(rng, name) if ix % 3 else fuzz_args(rng, name), alias)
    elif kind == 'operators':
        pool = [n for n in NUMBERS if abs(n) < LIMIT]
        for _ in range(spec['n']):
            op = rng.choice(BINARY_OPS + ['u-', 'u!', 'if'])
            left = rng.choice(pool) if rng.random() < 0.6 else small_value(rng, 2)
            right = rng.choice(pool) if rng.random() < 0.6 else small_value(rng, 2)
            if rng.random() < 0.3:
                left, right = float(rng.randint(-10 ** 15 + 1, 10 ** 15 - 1)), float(rng.choice((rng.randint(-10 ** 15 + 1, 10 ** 15 - 1), rng.randint(-9, 9))))
            operator_case(mon, rng, op, left, right)
    else:
        for _ in range(spec['n']):
            pick = rng.random()
            if pick < 0.5:
                statements = [{'expr': {'name': f'r{ix}', 'expr': nested_expr(rng, 2)}} for ix in range(rng.randint(1, 3))]
                program_case(mon, rng, {'statements': statements + [{'return': {'expr': call('arrayNew', *[var(f'r{ix}') for ix in range(len(statements))])}}]}, 'nested_programs')
            elif pick < 0.8:
                text = rng.choice(DATA_TEXTS).replace('{n}', str(rng.choice((1, 2, 3, 4)))).replace('{b}', rng.choice(('true', 'false', '1', '0')))
                text = text.replace('{f}', rng.choice(('average', 'count', 'max', 'min', 'stddev', 'sum')))
                program_case(mon, rng, model_of(text), 'data_programs', text)
            else:
                program, _ = random_program(rng, rng.randint(1, 5))
                text = '\n'.join(render_program(program))
                program_case(mon, rng, model_of(text), 'random_programs', text)
