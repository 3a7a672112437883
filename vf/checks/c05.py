"""C05: containment. Monitor: only documented exceptions escape, results are BareScript values, failed calls are null, reported, and do not stop the run."""
import random

from bare_script import BareScriptRuntimeError

from vf.checks.c02 import near_soup, soup
from vf.checks.c03 import POOL
from vf.host import evaluate, execute, library, model_of
from vf.lang import BINARY_OPS, BigStep, RefRuntimeError, StepLimit, Unjudged, binop, call, num, render_program, string, unop, var
from vf.libargs import VOLATILE, fuzz_args, hostile
from vf.run import Violation
from vf.values import heavy, is_value, same, show, small_value, text_of

RULE = ('A case is one execution: a library call on random near-typed/hostile arguments (NaN, infinities, 400-digit integers, circular and 1500-deep '
        'containers, lone surrogates, extreme datetimes, failing callbacks), an operator on such operands, a generated program whose host functions fail '
        'in twelve ways, a fault-injected include or fetch, unbounded recursion, a program with many or long parts, or a random script. The monitor classifies what escaped, checks the '
        'value domain, the failure value of the failed call, the debug report and that the next statement ran. Distinct by call/operands/text.')
REQUIRED = ('library_calls', 'library_failures', 'failures_reported', 'operator_cases', 'program_failures', 'runtime_errors', 'parser_errors',
            'recursion_cases', 'include_faults', 'random_scripts', 'max_library_functions', 'scale_cases')
ASSUMPTIONS = ('Counts handed to stringRepeat, arrayNewSize, jsonStringify indentation and digit arguments are kept below 1000 when finite.',
               'Callbacks of the embedding application itself (logFn, urlFn) do not raise.')


def contained(out, mon, **detail):
    """The outcome of a run is documented"""
    if out.kind == 'host':
        raise Violation(f'{type(out.error).__name__} escaped from execute_script', error=repr(out.error)[:300], **detail)
    mon.count({'value': 'values', 'runtime': 'runtime_errors', 'parser': 'parser_errors'}[out.kind])
    if out.kind == 'value' and not is_value(out.value):
        raise Violation('the result is no BareScript value', observed=show(out.value), python_type=type(out.value).__name__, **detail)


def fetch_for(options_log):
    def fetch(request):
        options_log.append(request.get('url'))
        if 'fail' in str(request.get('url')):
            raise OSError('injected fetch failure')
        return f'text of {request.get("url")}'
    return fetch


def safe_same(left, right):
    try:
        if heavy(left, 20000) or heavy(right, 20000):
            return True
        return same(left, right)
    except RecursionError:
        return True


def library_case(mon, rng, name, func):
    seed = rng.getrandbits(60)
    args = fuzz_args(random.Random(seed), name)
    with mon.case(lambda: {'function': name, 'args': [show(arg) for arg in args]}, key=(name, show(args))):
        mon.count('library_calls')
        # What the function itself does, called directly on its own copy of the arguments
        direct_options = {'globals': {}, 'fetchFn': fetch_for([])}
        failure = None
        try:
            direct = func(fuzz_args(random.Random(seed), name), direct_options)
        except Exception as exc:  # pylint: disable=broad-except
            failure, direct = exc, None
        names = [f'arg{ix}' for ix in range(len(args))]
        text = f'r = {name}({", ".join(names)})\nsystemLog("next")\nreturn r'
        debug = rng.random() < 0.6
        out = execute(text, dict(zip(names, args)), 1000, debug, fetchFn=fetch_for([]))
        contained(out, mon)
        documented = BareScriptRuntimeError
        if out.kind != 'value':
            if not isinstance(failure, documented):
                raise Violation('the call stopped the script', observed=out.text(), direct=repr(failure))
            return
        if isinstance(failure, documented):
            raise Violation('a runtime error was swallowed', direct=repr(failure))
        if 'next' not in out.logs:
            raise Violation('the statement after the call did not run', logs=out.logs)
        vague = isinstance(failure, (RecursionError, MemoryError))
        if failure is not None:
            mon.count('library_failures')
            expected = getattr(failure, 'return_value', None)
            if not vague and not safe_same(out.value, expected):
                raise Violation('a failed call does not evaluate to null (or its documented failure value)', expected=show(expected),
                                observed=show(out.value), failure=repr(failure)[:200])
            if debug and not vague:
                if not any(name in str(line) for line in out.logs):
                    raise Violation('a failed call was not reported through logFn in debug mode', logs=out.logs, failure=repr(failure)[:200])
                mon.count('failures_reported')
        elif name not in VOLATILE and not safe_same(out.value, direct):
            raise Violation('the call evaluates to another value than the function returned', expected=show(direct), observed=show(out.value))
        if not debug and name not in ('systemLog', 'systemLogDebug') and out.logs != ['next']:
            raise Violation('logged without debug mode', logs=out.logs)


def operator_case(mon, rng):
    pool = [hostile(rng) if rng.random() < 0.6 else (rng.choice(POOL) if rng.random() < 0.5 else small_value(rng)) for _ in range(2)]
    op = rng.choice(BINARY_OPS + ['!', '-u', 'if', 'while', 'for', 'call'])
    # Repeating a huge string or list is not what any operator does; exponentiation stays in floats
    left, right = pool
    with mon.case(lambda: {'op': op, 'left': show(left), 'right': show(right)}, key=(op, show(left), show(right))):
        mon.count('operator_cases')
        globals_ = {'l': left, 'r': right}
        if op in BINARY_OPS:
            status, value = evaluate(binop(op, var('l'), var('r')), {'globals': globals_})
            if status == 'host':
                raise Violation(f'{type(value).__name__} escaped from evaluate_expression', error=repr(value)[:300])
            if status != 'value':
                raise Violation('an operator raised', error=repr(value)[:300])
            if not is_value(value):
                raise Violation('the result is no BareScript value', observed=show(value), python_type=type(value).__name__)
            text = f'x = l {op} r\nsystemLog("next")\nreturn x'
        elif op in '!-u':
            status, value = evaluate(unop(op[0], var('l')), {'globals': globals_})
            if status != 'value' or not is_value(value):
                raise Violation('a unary operator failed', observed=f'{status} {value!r}'[:300])
            text = f'x = {op[0]}l\nsystemLog("next")\nreturn x'
        elif op == 'if':
            text = 'x = if(l, 1, 2)\nif l:\n    x = x + 1\nelif r:\n    x = x + 2\nendif\nsystemLog("next")\nreturn x'
        elif op == 'while':
            text = 'x = 0\nwhile l && x < 3:\n    x = x + 1\n    if x == r:\n        continue\n    endif\nendwhile\nsystemLog("next")\nreturn x'
        elif op == 'for':
            text = 'for v, i in l:\n    x = v\nendfor\nsystemLog("next")\nreturn x'
        else:
            text = 'x = l(r, l)\nsystemLog("next")\nreturn x'
            if left is None:
                return
        out = execute(text, globals_, 5000 if op != 'for' else 100000, rng.random() < 0.5)
        contained(out, mon)
        if out.kind != 'value' or 'next' not in out.logs:
            raise Violation('the run did not continue', observed=out.text(), logs=out.logs, text=text)


# ---------------------------------------------------------------- programs with failing host functions

class HostError(Exception):
    pass


FAILURES = (KeyError('k'), ZeroDivisionError('z'), OverflowError('o'), TypeError('t'), ValueError('v'), RecursionError('r'), MemoryError('m'),
            StopIteration(), AssertionError(), UnicodeDecodeError('utf-8', b'x', 0, 1, 'bad'), OSError(2, 'no'), HostError({'a': 1}), AttributeError('a'),
            IndexError(), LookupError('l'), NotImplementedError(), EOFError(), BufferError(), Exception('plain'))


def fail_expr(rng, depth):
    pick = rng.random()
    if depth <= 0 or pick < 0.25:
        return rng.choice((num(1), num(0), string('s'), var('a'), var('b'), var('null'), call('fail0'), call('fail1', num(1))))
    if pick < 0.5:
        return call(rng.choice(('fail0', 'fail1', 'fail2', 'ok', 'ok', 'f', 'notFunction', 'g')), *[fail_expr(rng, depth - 1) for _ in range(rng.randint(0, 3))])
    if pick < 0.75:
        return binop(rng.choice(BINARY_OPS), fail_expr(rng, depth - 1), fail_expr(rng, depth - 1))
    if pick < 0.85:
        return call('if', fail_expr(rng, depth - 1), fail_expr(rng, depth - 1), fail_expr(rng, depth - 1))
    return unop(rng.choice('!-'), fail_expr(rng, depth - 1))


def program_case(mon, rng):
    body = [('expr', call('systemLog', string('in f'))), ('assign', 'x', fail_expr(rng, 2)), ('return', fail_expr(rng, 2))]
    program = [('func', 'f', ['a', 'b'], rng.random() < 0.2, body), ('func', 'g', ['a'], False, [('return', call(rng.choice(('fail2', 'ok')), var('a')))])]
    for ix in range(rng.randint(2, 6)):
        pick = rng.random()
        expr = fail_expr(rng, 3)
        if pick < 0.4:
            program.append(('assign', rng.choice('abx'), expr))
        elif pick < 0.6:
            program.append(('expr', expr))
        elif pick < 0.8:
            program.append(('if', [(expr, [('expr', call('systemLog', string(f't{ix}')))])], [('expr', call('systemLog', string(f'e{ix}')))]))
        else:
            program.append(('expr', call('systemLog', binop('+', string(f's{ix}:'), expr))))
    program.append(('return', var('x')))
    text = '\n'.join(render_program(program))
    errors = [rng.choice(FAILURES) for _ in range(3)]
    with mon.case({'text': text, 'failures': [repr(error) for error in errors]}, key=(text, repr(errors))):
        def make(logs):
            def failing(error):
                def host(args, _options):
                    raise error
                return host

            def ok(args, _options):
                return args[-1] if args else 'ok'
            out = {f'fail{ix}': failing(error) for ix, error in enumerate(errors)}
            out.update({'ok': ok, 'notFunction': 7.0, 'a': [1.0], 'b': 'bee'})
            return out
        ref_logs = []
        ref_globals = make(ref_logs)
        ref_globals['systemLog'] = lambda args, _: ref_logs.append(text_of(args[0]))
        interp = BigStep(ref_globals, {}, 2000)
        interp.ev.runtime_errors = (RefRuntimeError, StepLimit, Unjudged)
        try:
            expected = interp.run(program)
        except (RefRuntimeError, StepLimit, Unjudged):
            return
        failures = interp.ev.failures
        mon.count('program_failures', len(failures))
        for debug in (True, False):
            out = execute(model_of(text), make([]), 0, debug)
            contained(out, mon)
            if out.kind != 'value' or not same(out.value, expected):
                raise Violation('the run with failing host functions differs', expected=show(expected), observed=out.text(), debug=debug)
            lines = [line for line in out.logs if line in ref_logs]
            if [line for line in lines if line in ref_logs] != ref_logs:
                raise Violation('the logged output differs', expected=ref_logs, observed=out.logs, debug=debug)
            if not debug:
                if out.logs != ref_logs:
                    raise Violation('logged without debug mode', expected=ref_logs, observed=out.logs)
                continue
            it = iter(line for line in out.logs if line not in ref_logs)
            for ix, name in enumerate(failures):
                if not any(name in line for line in it):
                    raise Violation('a failure was not reported through logFn in debug mode, in order', failure=f'{ix}: {name}', failures=failures,
                                    logs=out.logs)
                mon.count('failures_reported')
        # No logFn at all, or null
        for extra in ({'logFn': None}, {'logFn': None, 'debug': True}):
            out = execute(model_of(text), make([]), 0, **extra)
            contained(out, mon)
            if out.kind != 'value' or not same(out.value, expected):
                raise Violation('the run without logFn differs', expected=show(expected), observed=out.text())


# ---------------------------------------------------------------- includes, fetches, recursion, random scripts

BAD_TEXTS = ('x = = 1', 'if a:', 'function f(', 'endif', 'while 1:\n', 'return (', "'", 'foo(', 'a b', 'break', 'jump missing', 'undefinedThing()', 'include "x"',
             "include 'fail.bare'", "include 'again.bare'\nreturn 1", 'x = fail0(1)\n', 'return 1 / 0', '', '# only a comment', 'function g():\n  return 1\n')


def include_case(mon, rng):
    content = rng.choice(BAD_TEXTS)
    mode = rng.choice(('none', 'raise', 'null', 'text', 'text', 'text', 'number', 'bytes'))
    in_function = rng.random() < 0.4
    inc = "include 'inc.bare'" if rng.random() < 0.7 else 'include <inc.bare>'
    text = f'function f():\n    {inc}\n    return 5\nendfunction\nx = f()\nsystemLog("next")\nreturn x' if in_function else \
        f'{inc}\nsystemLog("next")\nreturn 1'
    error = rng.choice(FAILURES)
    depth = [0]

    def fetch(request):
        depth[0] += 1
        if mode == 'raise' or request['url'].endswith('fail.bare'):
            raise error
        if mode == 'null':
            return None
        if mode == 'number':
            return 5.0
        if mode == 'bytes':
            return b'x = 1'
        if request['url'].endswith('again.bare'):
            return "include 'again.bare'" if depth[0] < 3 else 'y = 2'
        return content
    with mon.case({'text': text, 'mode': mode, 'content': content, 'error': repr(error)}, key=(text, mode, content, repr(error))):
        mon.count('include_faults')

        def fail0(args, _options):
            raise error
        extra = {} if mode == 'none' else {'fetchFn': fetch}
        if rng.random() < 0.3:
            extra['systemPrefix'] = 'https://sys/'
        out = execute(text, {'fail0': fail0}, 5000, rng.random() < 0.5, **extra)
        if mode in ('number', 'bytes'):
            if out.kind == 'host':
                return      # the embedder's fetch function broke its contract
        contained(out, mon)
        if mode in ('none', 'raise', 'null') and out.kind != 'runtime':
            raise Violation('an include that cannot be fetched did not raise the runtime error', observed=out.text())


def fetch_case(mon, rng):
    urls = [rng.choice(('a.txt', 'fail1', 'b.txt', 'fail2')) for _ in range(rng.randint(1, 4))]
    mode = rng.choice(('one', 'array', 'none'))
    with mon.case({'urls': urls, 'mode': mode}, key=('fetch', mode, tuple(urls))):
        mon.count('library_calls')
        error = rng.choice(FAILURES)

        def fetch(request):
            if 'fail' in request['url']:
                if rng.random() < 0.3:
                    return None
                raise error
            return 'T ' + request['url']
        arg = urls[0] if mode == 'one' else list(urls)
        out = execute('r = systemFetch(u)\nsystemLog("next")\nreturn r', {'u': arg}, 100, True, **({} if mode == 'none' else {'fetchFn': fetch}))
        contained(out, mon)
        results = [None if mode == 'none' or 'fail' in url else 'T ' + url for url in urls]
        expected = results[0] if mode == 'one' else results
        if out.kind != 'value' or not same(out.value, expected) or 'next' not in out.logs:
            raise Violation('failing fetches are not contained', expected=show(expected), observed=out.text(), logs=out.logs)
        for url, result in zip(urls[:1] if mode == 'one' else urls, results):
            if result is None and not any(url in line for line in out.logs):
                raise Violation('a failed fetch was not reported in debug mode', url=url, logs=out.logs)


RECURSIONS = (
    'function f():\n    return f()\nendfunction\nreturn f()',
    'function f(n):\n    return 1 + f(n + 1)\nendfunction\nx = f(0)\nsystemLog("next")\nreturn x',
    'function f(n):\n    return g(n)\nendfunction\nfunction g(n):\n    if f(n):\n        return 1\n    endif\nendfunction\nreturn f(1)',
    'function f(a, b):\n    arraySort(arr, f)\n    return 0\nendfunction\narr = arrayNew(2, 1)\nreturn arraySort(arr, f)',
    'function f(a):\n    return arrayIndexOf(arr, f)\nendfunction\narr = arrayNew(2, 1)\nreturn f(1)',
    'function f(a):\n    h = systemPartial(f, a)\n    return h()\nendfunction\nreturn f(1)',
    'function f():\n    return dataFilter(rows, "f()")\nendfunction\nrows = arrayNew(objectNew("a", 1))\nreturn f()',
    'function f():\n    return dataFilter(rows, "f()", objectNew("v", 1))\nendfunction\nrows = arrayNew(objectNew("a", 1))\nx = f()\nsystemLog("next")\nreturn x',
    "include 'self.bare'",
    "function f():\n    include 'self.bare'\nendfunction\nf()",
    'function f(a...):\n    return f(a, a)\nendfunction\nreturn f()',
    'a = arrayNew()\narrayPush(a, a)\nreturn jsonStringify(a)', 'a = arrayNew()\narrayPush(a, a)\nb = arrayNew()\narrayPush(b, b)\nreturn a == b',
    'a = arrayNew()\narrayPush(a, a)\nx = "t" + a\nsystemLog("next")\nreturn x',
    'a = objectNew()\nobjectSet(a, "a", a)\nsystemLog(a)\nreturn stringNew(a)',
    'a = arrayNew()\narrayPush(a, a)\nb = arrayNew()\narrayPush(b, b)\nreturn arraySort(arrayNew(a, b, a))',
)


def recursion_case(mon, text, limit, debug, extra_depth):
    with mon.case({'text': text, 'limit': limit, 'debug': debug, 'stack': extra_depth}, key=(text, limit, debug, extra_depth)):
        mon.count('recursion_cases')

        def at_depth(n):
            if n:
                return at_depth(n - 1)
            return execute(text, {}, limit, debug, fetchFn=lambda request: "include 'self.bare'")
        out = at_depth(extra_depth)
        contained(out, mon)


LINES = ('{n} = {e}', '{e}', 'return {e}', 'if {e}:', 'elif {e}:', 'else:', 'endif', 'while {e}:', 'endwhile', 'for {n} in {e}:', 'for {n}, i in {e}:', 'endfor',
         'break', 'continue', 'function {n}(a, b...):', 'function {n}():', 'endfunction', 'lab:', 'jump lab', 'jumpif ({e}) lab', 'jump nolab',
         "include 'x.bare'", 'include <y.bare>', '# c', '', 'systemLog({e})', '{n} = arrayNew({e}, {e})', '{n} = {n}({e})')


def balanced_script(rng, depth=2):
    out = []
    for _ in range(rng.randint(1, 4)):
        pick = rng.random()
        if depth and pick < 0.4:
            kind = rng.choice(('if', 'while', 'for'))
            body = ['  ' + line for line in balanced_script(rng, depth - 1)]
            if kind == 'for' and rng.random() < 0.3:
                body.append('  break')
            out += [{'if': 'if {e}:', 'while': 'while {e}:', 'for': 'for {n}, i in {e}:'}[kind]] + body + ['end' + kind]
        elif pick < 0.5:
            out += ['function {n}(a, b):'] + ['  {n} = {e}', '  return {e}'] + ['endfunction'] if depth == 2 else ['{e}']
        else:
            out.append(rng.choice(('{n} = {e}', '{e}', 'systemLog({e})', 'return {e}', 'jump lab', 'lab:', '{n}({e}, {e})', "include 'x.bare'", '{n} = {n}({e})',
                                   'jumpif ({e}) lab')))
    return out


def random_script_case(mon, rng):
    lines = balanced_script(rng) if rng.random() < 0.75 else [rng.choice(LINES) for _ in range(rng.randint(1, 8))]

    def expr():
        return near_soup(rng) if rng.random() < 0.85 else soup(rng)
    text = '\n'.join(line.replace('{n}', rng.choice(('a', 'b', 'f', 'g', 'x1'))).replace('{e}', expr().replace('\n', ' ')) for line in lines)
    globals_ = {name: hostile(rng) if rng.random() < 0.4 else small_value(rng, 2) for name in ('a', 'b', 'f', 'g', 'v w') if rng.random() < 0.7}
    with mon.case(lambda: {'text': text, 'globals': {k: show(v) for k, v in globals_.items()}}, key=(text, show(globals_))):
        mon.count('random_scripts')

        def fetch(request):
            if rng.random() < 0.3:
                raise OSError('injected')
            return rng.choice(('a = 1', 'b = a + 1\nreturn 7', 'x = (', 'lab:', 'return f(1)'))
        out = execute(text, globals_, 300, rng.random() < 0.5, fetchFn=fetch)
        contained(out, mon)


def expression_case(mon, rng):
    """evaluate_expression on random parsed expressions with hostile variables, built-ins on"""
    text = near_soup(rng)
    from vf.host import parses
    status, model = parses(text)
    if status != 'ok':
        return
    globals_ = {name: hostile(rng) if rng.random() < 0.5 else small_value(rng, 2) for name in ('a', 'b', 'f', 'g', 'v w') if rng.random() < 0.7}
    with mon.case(lambda: {'expr': text, 'globals': {k: show(v) for k, v in globals_.items()}}, key=(text, show(globals_))):
        mon.count('operator_cases')
        for options in ({'globals': globals_}, {'globals': globals_, 'debug': True}, None):
            status, value = evaluate(model, options, globals_ if options is None else None, rng.random() < 0.5)
            if status == 'host':
                raise Violation(f'{type(value).__name__} escaped from evaluate_expression', error=repr(value)[:300])
            if status == 'value' and not is_value(value):
                raise Violation('the result is no BareScript value', observed=show(value))


def scale_cases(n):
    """Programs with n of something, and what they return"""
    names = [f'a{ix}' for ix in range(n)]
    numbers = [f'{ix}' for ix in range(n)]
    lines = '\n'.join
    yield 'arguments', f'return arrayLength(arrayNew({", ".join(numbers)}))', float(n)
    yield 'nested arguments', f'return stringLength(jsonStringify(arrayNew({", ".join(["arrayNew(1)"] * n)})))', float(4 * n + 1)
    yield 'parameters', lines((f'function f({", ".join(names)}):', f'    return arrayNew(a0, {names[-1]})', 'endfunction', f'return arrayGet(f({", ".join(numbers)}), 1)')), float(n - 1)
    yield 'surplus arguments', lines(('function f(a, b...):', '    return arrayLength(b)', 'endfunction', f'return f({", ".join(numbers)})')), float(n - 1)
    yield 'missing arguments', lines((f'function f({", ".join(names)}):', f'    return {names[-1]} == null', 'endfunction', 'return f(1)')), n > 1
    yield 'wrong arguments', lines((f'x = stringLength({", ".join(numbers)})', 'return arrayNew(x)')), [0.0]
    yield 'failing host', lines((f'x = fail({", ".join(numbers)})', 'return arrayNew(x)')), [None]
    yield 'globals', lines([f'{name} = {ix}' for ix, name in enumerate(names)] + [f'return {names[-1]}']), float(n - 1)
    yield 'locals', lines(['function f():'] + [f'    {name} = {ix}' for ix, name in enumerate(names)] + [f'    return {names[-1]}', 'endfunction', 'return f()']), float(n - 1)
    yield 'functions', lines([line for ix in range(n) for line in (f'function f{ix}():', f'    return {ix}', 'endfunction')] + [f'return f{n - 1}()']), float(n - 1)
    yield 'labels', lines([f'l{ix}:' for ix in range(n)] + ['x = if(x == null, 1, x + 1)', f'jumpif (x < 3) l{n - 1}', 'return x']), 3.0
    yield 'elif', lines(['x = 1', f'if x == {n + 1}:', '    y = 0'] + [line for ix in range(n) for line in (f'elif x == {n - ix}:', f'    y = {ix}')] + ['endif', 'return y']), float(n - 1)
    yield 'loops', lines([line for ix in range(n) for line in ('for i in arrayNew(1, 2):', '    x = x + i', 'endfor')] + ['return x']), None
    yield 'long name', f'{"n" * n} = 1\nreturn {"n" * n} + 1', 2.0
    yield 'long text', f"return stringLength('{'t' * n}')", float(n)
    yield 'long number', f'return 0.{"0" * (n - 1)}1 >= 0 && 1{"0" * n} > 0', True
    yield 'long undefined', f'{"u" * n}(1)', BareScriptRuntimeError
    yield 'long jump', f'jump {"u" * n}', BareScriptRuntimeError
    yield 'long include', f"include '{'u' * n}'", BareScriptRuntimeError
    if n <= 160:
        yield 'parentheses', f'return {"(" * n}1{")" * n}', 1.0
        yield 'calls', f'return {"abs1(" * n}1{")" * n}', 1.0
        yield 'negations', f'return {"!" * n}true', n % 2 == 0
        yield 'blocks', lines([f'{"while" if ix % 2 else "if"} true:' for ix in range(n)] + ['return 7'] + [f'{"endwhile" if ix % 2 else "endif"}' for ix in reversed(range(n))]), 7.0
        yield 'operators', f'return {" + ".join(["1"] * n)}', float(n)
        yield 'conditions', f'return {" && ".join(["1"] * n)}', 1.0
        yield 'calling down', lines(('function f(n):', '    return if(n > 0, f(n - 1) + 1, 0)', 'endfunction', f'return f({n // 4})')), float(n // 4)


def scale_shard(mon, size):
    def fail(args, options):
        raise ValueError('failure')
    for what, text, expected in scale_cases(size):
        for debug in (False, True):
            with mon.case({'many': what, 'n': size, 'debug': debug}, key=(what, size, debug)):
                mon.count('scale_cases')
                out = execute(text, {'fail': fail, 'abs1': lambda args, options: args[0]}, debug=debug)
                contained(out, mon, many=what, n=size)
                if expected is BareScriptRuntimeError:
                    if out.kind != 'runtime':
                        raise Violation('no runtime error', observed=out.text()[:300])
                elif out.kind != 'value' or not same(out.value, expected):
                    raise Violation('a long program does not continue as documented', observed=out.text()[:300], expected=show(expected))


def plan(tier):
    quick = tier == 'quick'
    shards = [('recursion', {'cost': 4})]
    for size in (2, 17, 33, 64, 65, 100, 130, 160, 255, 256, 300, 513, 1000, 1025) + (() if quick else (2000, 2049, 4096, 5000)):
        shards.append(('scale', {'size': size, 'cost': 1}))
    for ix in range(16 if quick else 96):
        shards.append(('library', {'index': ix, 'n': 90 if quick else 700, 'cost': 8}))
    for ix in range(8 if quick else 48):
        shards.append(('operators', {'index': ix, 'n': 5000 if quick else 30000, 'cost': 5}))
        shards.append(('programs', {'index': ix, 'n': 1500 if quick else 10000, 'cost': 5}))
        shards.append(('scripts', {'index': ix, 'n': 5000 if quick else 30000, 'cost': 5}))
        shards.append(('includes', {'index': ix, 'n': 900 if quick else 4000, 'cost': 3}))
    return shards


def shard(kind, spec, rng, mon):
    if kind == 'scale':
        scale_shard(mon, spec['size'])
    elif kind == 'library':
        lib = sorted(library().items())
        for _ in range(spec['n']):
            for name, func in lib:
                library_case(mon, rng, name, func)
        mon.count('max_library_functions', len(lib))
    elif kind == 'operators':
        for _ in range(spec['n']):
            operator_case(mon, rng)
    elif kind == 'programs':
        for _ in range(spec['n']):
            program_case(mon, rng)
    elif kind == 'includes':
        for _ in range(spec['n']):
            include_case(mon, rng)
            if rng.random() < 0.3:
                fetch_case(mon, rng)
    elif kind == 'scripts':
        for _ in range(spec['n']):
            random_script_case(mon, rng)
            expression_case(mon, rng)
    else:
        for text in RECURSIONS:
            # (without a limit, a callback that recurses once per element legitimately runs for an exponential time)
            for limit in (5000, 30) if 'arrayIndexOf' in text or 'arraySort(arr, f)' in text else (0, 5000, 30):
                for debug in (False, True):
                    for extra_depth in (0, 7, 100, 400):
                        recursion_case(mon, text, limit, debug, extra_depth)
