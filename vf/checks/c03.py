"""C03: typed expression semantics. Differential against the reference evaluator with effect-logging operands."""
import copy
import datetime
import re

from vf.host import evaluate, execute, library, parses
from vf.lang import BINARY_OPS, Evaluator, RefRuntimeError, Unjudged, binop, call, group, num, render, string, unop, var
from vf.run import Violation
from vf.values import DATES, FUNCTIONS, REGEXES, random_datetime, same, show, small_value, snapshot, tname

RULE = ('A case is one expression evaluation with its operand values. (1) The full matrix: every operator over every ordered pair of a pool of values of '
        'all nine types; (2) random expression trees whose operands are effect-logging host functions, compared for value, aliasing of the selected '
        'operand and the exact order and number of effects; (3) every expression-mode alias against its library function on random arguments of every '
        'type. Non-trivial: at least one operator or call is evaluated; distinct by expression and operand values.')
REQUIRED = ('long_matrix', 'long_operands', 'matrix', 'effects', 'effects_skipped_right', 'branch_unselected', 'alias_value', 'alias_failure', 'alias_distinct_functions',
            'nonnull_results', 'null_results', 'trees')
ASSUMPTIONS = ('The text of NaN and of infinities is not judged. % has the sign of the divisor (host modulo), as in the unmodified tree.',)

POOL = [None, True, False, 0, 0.0, 1, 1.0, -1, 2.0, 3, 0.5, -2.5, 7.0, 100, 1e3, 123456.0, -7, 86400000.0, 1e14, '', 'a', 'b', 'ab', '0', '5', 'true', 'null',
        'a b', "it's", [], [1.0], [1.0, 'x'], [1, 2], [[1.0], None], [None], {}, {'a': 1.0}, {'b': 2.0, 'a': [1.0]}, {'a': None}] + list(DATES) + \
    list(FUNCTIONS) + list(REGEXES) + [1e200, 1e308, -1e308, 1e-300, datetime.datetime(1, 1, 1), datetime.datetime(9999, 12, 31, 23, 59, 59, 999000)]
ARITH_ONLY_EXTREMES = {1e200, 1e308, -1e308, 1e-300}

# The documented aliases (https://craigahobbs.github.io/bare-script/library/expression.html)
ALIASES = {
    'abs': 'mathAbs', 'acos': 'mathAcos', 'asin': 'mathAsin', 'atan': 'mathAtan', 'atan2': 'mathAtan2', 'ceil': 'mathCeil',
    'charCodeAt': 'stringCharCodeAt', 'cos': 'mathCos', 'date': 'datetimeNew', 'day': 'datetimeDay', 'endsWith': 'stringEndsWith',
    'indexOf': 'stringIndexOf', 'fixed': 'numberToFixed', 'floor': 'mathFloor', 'fromCharCode': 'stringFromCharCode', 'hour': 'datetimeHour',
    'lastIndexOf': 'stringLastIndexOf', 'len': 'stringLength', 'lower': 'stringLower', 'ln': 'mathLn', 'log': 'mathLog', 'max': 'mathMax',
    'min': 'mathMin', 'millisecond': 'datetimeMillisecond', 'minute': 'datetimeMinute', 'month': 'datetimeMonth', 'now': 'datetimeNow',
    'parseInt': 'numberParseInt', 'parseFloat': 'numberParseFloat', 'pi': 'mathPi', 'rand': 'mathRandom', 'replace': 'stringReplace',
    'rept': 'stringRepeat', 'round': 'mathRound', 'second': 'datetimeSecond', 'sign': 'mathSign', 'sin': 'mathSin', 'slice': 'stringSlice',
    'sqrt': 'mathSqrt', 'startsWith': 'stringStartsWith', 'text': 'stringNew', 'tan': 'mathTan', 'today': 'datetimeToday', 'trim': 'stringTrim',
    'upper': 'stringUpper', 'year': 'datetimeYear'
}
VOLATILE = {'now', 'today', 'rand'}


def same_result(expected, observed):
    if tname(expected) in ('array', 'object', 'function', 'regex') and expected is observed:
        return True
    return same(expected, observed, True)


def judge_value(expected, status, observed, what='the value differs', **detail):
    if status != 'value':
        raise Violation(f'evaluation failed: {status} {observed!r}', expected=show(expected), **detail)
    if not same_result(expected, observed):
        raise Violation(what, expected=show(expected), observed=show(observed), **detail)


def matrix_case(mon, op, left, right):
    with mon.case(lambda: {'op': op, 'left': show(left), 'right': show(right)}, key=(op, show(left), type(left).__name__, show(right),
                                                                                    type(right).__name__)):
        expr = binop(op, var('l'), var('r'))
        try:
            evaluator = Evaluator({'l': left, 'r': right}, None)
            evaluator.cap = 200000
            expected = evaluator.eval(expr)
        except Unjudged:
            return
        mon.count('matrix')
        mon.count('long_matrix', any(type(value) in (str, list, dict) and len(value) > 3000 for value in (left, right)))
        mon.count('null_results' if expected is None else 'nonnull_results')
        judge_value(expected, *evaluate(expr, None, {'l': left, 'r': right}))
        status, observed = evaluate(expr, {'globals': {'l': left, 'r': right}})
        judge_value(expected, status, observed)
        if op in ('&&', '||') and not (observed is left or observed is right):
            raise Violation(f'{op} does not return one of its operands', observed=show(observed))
        if op not in ('&&', '||') and observed is not None and (isinstance(observed, bool) != (op in ('==', '!=', '<=', '<', '>=', '>'))):
            raise Violation('the result has the wrong type', observed=show(observed))


def unary_case(mon, op, value):
    with mon.case(lambda: {'op': op, 'value': show(value)}, key=('unary', op, show(value), type(value).__name__)):
        expr = unop(op, var('v'))
        expected = Evaluator({'v': value}, None).eval(expr)
        mon.count('matrix')
        judge_value(expected, *evaluate(expr, None, {'v': value}))


# ---------------------------------------------------------------- effect trees

def effect_tree(rng, depth, counter, names):
    pick = rng.random()
    if depth <= 0 or pick < 0.2:
        pick = rng.random()
        if pick < 0.7:
            counter[0] += 1
            return call('e', num(counter[0]))
        if pick < 0.85:
            return var(rng.choice(names))
        return rng.choice((num(rng.choice((0, 1, 2, 3, 10, 0.5))), string(rng.choice(('', 'a', 'z9'))), var(rng.choice(('null', 'true', 'false')))))
    if pick < 0.42:
        return binop(rng.choice(('&&', '||')), effect_tree(rng, depth - 1, counter, names), effect_tree(rng, depth - 1, counter, names))
    if pick < 0.62:
        return binop(rng.choice(BINARY_OPS), effect_tree(rng, depth - 1, counter, names), effect_tree(rng, depth - 1, counter, names))
    if pick < 0.76:
        return call('if', *[effect_tree(rng, depth - 1, counter, names) for _ in range(rng.choice((0, 1, 2, 2, 3, 3, 3, 3, 4)))])
    if pick < 0.84:
        return call(rng.choice(('g', 'fail', 'last')), *[effect_tree(rng, depth - 1, counter, names) for _ in range(rng.randint(0, 4))])
    if pick < 0.92:
        return unop(rng.choice('!-'), effect_tree(rng, depth - 1, counter, names))
    return group(effect_tree(rng, depth - 1, counter, names))


class Effects:
    def __init__(self, values):
        self.values = values
        self.log = []

    def globals(self):
        def effect(args, _):
            self.log.append(('e', args[0]))
            return self.values[int(args[0]) % len(self.values)]

        def gather(args, _):
            self.log.append(('g', tuple(snapshot(arg) for arg in args)))
            return args[0] if args else None

        def last(args, _):
            self.log.append(('last', len(args)))
            return args[-1]

        def fail(args, _):
            self.log.append(('fail', len(args)))
            raise KeyError('host failure')
        return {'e': effect, 'g': gather, 'last': last, 'fail': fail}


def tree_size(expr):
    (key, node), = expr.items()
    if key == 'binary':
        return 1 + tree_size(node['left']) + tree_size(node['right'])
    if key == 'unary':
        return 1 + tree_size(node['expr'])
    if key == 'group':
        return tree_size(node)
    if key == 'function':
        return 1 + sum(tree_size(arg) for arg in node['args'])
    return 0


def effect_case(mon, rng):
    counter = [0]
    names = ('u', 'v', 'w')
    tree = effect_tree(rng, rng.randint(1, 6), counter, names)
    values = [rng.choice(POOL) if rng.random() < 0.5 else small_value(rng) for _ in range(max(counter[0], 1) + 1)]
    env = {name: small_value(rng) for name in names if rng.random() < 0.8}
    local_env = {name: small_value(rng) for name in names if rng.random() < 0.4} if rng.random() < 0.5 else None
    text = render(tree)
    with mon.case(lambda: {'expr': text, 'effects': [show(v) for v in values], 'globals': {k: show(v) for k, v in env.items()},
                           'locals': {k: show(v) for k, v in (local_env or {}).items()}}, key=(text, show(values), show(env), show(local_env)),
                  nontrivial=tree_size(tree) > 0):
        reference = Effects(values)
        ref_globals = {**env, **reference.globals()}
        evaluator = Evaluator(ref_globals, None)
        try:
            expected = evaluator.eval(tree, local_env)
        except Unjudged:
            mon.count('unjudged')
            return
        except RefRuntimeError:
            raise RuntimeError('oracle self-check: no undefined names are generated') from None
        total = text.count('e(')
        if total > len([1 for item in reference.log if item[0] == 'e']):
            mon.count('effects_skipped_right')
        if 'if(' in text:
            mon.count('branch_unselected')
        mon.count('trees')
        mon.count('effects', len(reference.log))
        status, model = parses(text)
        if status != 'ok':
            raise Violation('the expression text was rejected', error=str(model))
        for variant, expr in (('model', tree), ('text', model)):
            observed_fx = Effects(values)
            options = {'globals': {**env, **observed_fx.globals()}}
            status, observed = evaluate(expr, options, local_env, rng.random() < 0.5)
            judge_value(expected, status, observed, f'the value differs ({variant})', log=reference.log)
            if observed_fx.log != reference.log:
                raise Violation(f'sub-expressions are not evaluated exactly once, left to right ({variant})', expected=reference.log,
                                observed=observed_fx.log)
        if local_env is None and rng.random() < 0.3:
            observed_fx = Effects(values)
            out = execute('return ' + text, {**env, **observed_fx.globals()})
            if out.kind != 'value' or not same_result(expected, out.value) or observed_fx.log != reference.log:
                raise Violation('the script statement evaluates differently', expected=show(expected), observed=out.text(), log=observed_fx.log)


# ---------------------------------------------------------------- aliases

NUMERIC = (0.0, 1.0, 2.0, 3.0, -1.0, -2.0, 0.5, 1.25, -0.75, 7.0, 10.0, 16.0, 31.0, 65.0, 97.0, 2024.0, 12.0, 36.0, 37.0, 1, 2, 5)
TEXTS = ('', 'a', 'abc', 'abcabc', 'ABC', ' a b ', 'b', 'c', '12', '1.5', 'ff', '0x1f', '1e3', 'xyz', 'zz')


def alias_args(rng):
    args = []
    for _ in range(rng.choice((0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 7))):
        pick = rng.random()
        if pick < 0.45:
            args.append(rng.choice(NUMERIC))
        elif pick < 0.75:
            args.append(rng.choice(TEXTS))
        elif pick < 0.85:
            args.append(rng.choice(DATES))
        else:
            args.append(small_value(rng, 1))
    if rng.random() < 0.25 and args:    # a typed call: text then numbers
        args = [rng.choice(TEXTS)] + [rng.choice(NUMERIC + TEXTS) for _ in args[1:]]
    return [min(arg, 40.0) if type(arg) in (int, float) and arg > 3000 else arg for arg in args]


def typed_args(rng, alias):
    """Mostly valid arguments, by family"""
    if alias in ('abs', 'acos', 'asin', 'atan', 'ceil', 'cos', 'floor', 'ln', 'sign', 'sin', 'sqrt', 'tan'):
        return [rng.choice(NUMERIC)]
    if alias in ('atan2', 'log', 'round', 'fixed'):
        return [rng.choice(NUMERIC), float(rng.randint(0, 10))][:rng.choice((1, 2, 2))]
    if alias == 'date':
        return [float(rng.randint(1, 40)) if ix else float(rng.randint(1900, 2100)) for ix in range(rng.randint(2, 7))]
    if alias in ('day', 'hour', 'millisecond', 'minute', 'month', 'second', 'year'):
        return [rng.choice(DATES)]
    if alias in ('max', 'min'):
        return [small_value(rng, 1) if rng.random() < 0.3 else rng.choice(NUMERIC) for _ in range(rng.randint(0, 5))]
    if alias in ('parseInt', 'parseFloat'):
        return [rng.choice(TEXTS), float(rng.randint(2, 36))][:rng.choice((1, 2))]
    if alias == 'fromCharCode':
        return [float(rng.randint(1, 200)) for _ in range(rng.randint(0, 4))]
    if alias in ('charCodeAt', 'rept'):
        return [rng.choice(TEXTS), float(rng.randint(0, 6))]
    if alias == 'replace':
        return [rng.choice(TEXTS), rng.choice(TEXTS), rng.choice(TEXTS)]
    if alias == 'slice':
        return [rng.choice(TEXTS), float(rng.randint(0, 4)), float(rng.randint(0, 6))][:rng.choice((2, 3))]
    if alias in ('indexOf', 'lastIndexOf', 'startsWith', 'endsWith'):
        return [rng.choice(TEXTS), rng.choice(TEXTS), float(rng.randint(0, 4))][:rng.choice((2, 2, 3))]
    if alias in ('len', 'lower', 'trim', 'upper'):
        return [rng.choice(TEXTS)]
    return [small_value(rng)]


def alias_case(mon, rng, alias, seen):
    args = typed_args(rng, alias) if rng.random() < 0.6 else alias_args(rng)
    lib = library()
    full = ALIASES[alias]
    with mon.case(lambda: {'alias': alias, 'args': [show(arg) for arg in args]}, key=(alias, show(args))):
        if full not in lib:
            raise Violation(f'library function {full} does not exist')
        names = [f'a{ix}' for ix in range(len(args))]
        env = dict(zip(names, args))
        arg_exprs = [var(name) for name in names]
        logs_a, logs_b = [], []
        status_a, value_a = evaluate(call(alias, *arg_exprs), {'globals': dict(env), 'logFn': logs_a.append, 'debug': True})
        if rng.random() < 0.3:
            status_a, value_a = evaluate(call(alias, *arg_exprs), None, dict(env))
            logs_a = None
        status_b, value_b = evaluate(call(full, *arg_exprs), {'globals': {**env, full: lib[full]}, 'logFn': logs_b.append, 'debug': True}, None, False)
        if status_a != 'value' or status_b != 'value':
            raise Violation('a call failed', alias=f'{status_a} {value_a!r}', full=f'{status_b} {value_b!r}')
        seen.add(full)
        mon.count('alias_failure' if logs_b else 'alias_value')
        if logs_a is not None and bool(logs_a) != bool(logs_b):
            raise Violation('the alias and its library function differ in failing', alias=logs_a, full=logs_b)
        if alias in VOLATILE:
            if tname(value_a) != tname(value_b):
                raise Violation('the alias and its library function return different types', alias=show(value_a), full=show(value_b))
            if tname(value_a) == 'datetime':
                if abs((value_a - value_b).total_seconds()) > (86400 if alias == 'today' else 30):
                    raise Violation('the alias and its library function return different times', alias=show(value_a), full=show(value_b))
                if alias == 'today' and value_a != value_a.replace(hour=0, minute=0, second=0, microsecond=0):
                    raise Violation('today has a time of day', observed=show(value_a))
            elif value_a is not None and not 0 <= value_a < 1:
                raise Violation('rand is out of range', observed=show(value_a))
        elif not same_result(value_b, value_a):
            raise Violation('the alias and its library function return different values', alias=show(value_a), full=show(value_b))


def plan(tier):
    quick = tier == 'quick'
    shards = [('matrix', {'op': op, 'cost': 2}) for op in BINARY_OPS] + [('unary', {})]
    for ix in range(8 if quick else 48):
        shards.append(('effects', {'index': ix, 'n': 12000 if quick else 80000, 'cost': 6}))
        shards.append(('alias', {'index': ix, 'n': 250 if quick else 3000, 'cost': 3}))
        shards.append(('pairs', {'index': ix, 'n': 12000 if quick else 80000, 'cost': 3}))
    for _ in range(2 if quick else 16):
        shards.append(('long', {'n': 120 if quick else 1500, 'cost': 2}))
    return shards


def long_value(rng, kind):
    """A long string or array, or a number"""
    size = rng.choice((100, 255, 256, 1000, 1024, 4096, 9999, 10000, 10001, 20000, 65536, 100001))
    if kind == 'string':
        text = rng.choice(('a', 'ab ', 'é', '\U0001f600x', '12', '\n')) * size
        return text[:size] + rng.choice(('', '', 'z', 'B'))
    if kind == 'array':
        return [rng.choice((1.0, 2.0)) if ix > size - 3 else 1.0 for ix in range(size // 10)] + ([None] if rng.random() < 0.2 else [])
    if kind == 'object':
        return {f'k{ix}': 1.0 if ix != 7 else rng.choice((1.0, 2.0)) for ix in range(size // 10)}
    return rng.choice((None, True, 1.0, 2.5, -3.0, '', 'a', 'zz'))


def long_case(mon, rng):
    """Operators on long operands"""
    mon.count('long_operands')
    kind = rng.choice(('string', 'string', 'array', 'object'))
    left = long_value(rng, kind)
    if rng.random() < 0.3:
        right = left if isinstance(left, str) or rng.random() < 0.3 else copy.deepcopy(left)
    else:
        right = long_value(rng, kind if rng.random() < 0.5 else rng.choice(('other', 'other', 'array', 'string')))
    if rng.random() < 0.3:
        left, right = right, left
    matrix_case(mon, rng.choice(('+', '+', '+', '+', '==', '!=', '<', '<=', '>', '>=', '&&', '||', '-', '*') if isinstance(left, str) or isinstance(right, str) else BINARY_OPS), left, right)


def shard(kind, spec, rng, mon):
    if kind == 'matrix':
        for left in POOL:
            for right in POOL:
                matrix_case(mon, spec['op'], left, right)
    elif kind == 'long':
        for _ in range(spec['n']):
            long_case(mon, rng)
    elif kind == 'unary':
        for op in '!-':
            for value in POOL:
                unary_case(mon, op, value)
    elif kind == 'pairs':
        for _ in range(spec['n']):
            left, right = small_value(rng, 3), small_value(rng, 3)
            if rng.random() < 0.3:
                kinds = [rng.choice(('number', 'string', 'datetime', 'array', 'object'))]
                left, right = small_value(rng, 3, kinds + ['number']), small_value(rng, 3, kinds)
            if rng.random() < 0.1:
                left, right = random_datetime(rng), random_datetime(rng) if rng.random() < 0.7 else float(rng.randint(-10 ** 12, 10 ** 12)) / rng.choice((1, 1, 8))
                matrix_case(mon, rng.choice('+--'), *((left, right) if rng.random() < 0.7 else (right, left)))
            if any(type(v) is int and abs(v) > 1e15 for v in (left, right)):
                continue
            matrix_case(mon, rng.choice(BINARY_OPS), left, right)
    elif kind == 'effects':
        for _ in range(spec['n']):
            effect_case(mon, rng)
    else:
        seen = set()
        for _ in range(spec['n']):
            for alias in ALIASES:
                alias_case(mon, rng, alias, seen)
        mon.count('max_alias_functions', len(seen))
        mon.count('alias_distinct_functions', len(seen))
