"""C04: scoping, calling convention, host globals. Differential against the reference interpreter on collision-heavy programs."""
import functools

from bare_script import execute_script

from vf.checks.c03 import ALIASES
from vf.host import evaluate, execute, library, model_of
from vf.lang import BigStep, Evaluator, RefFunction, RefRuntimeError, StepLimit, Unjudged, binop, call, num, render_program, string, var
from vf.libargs import SIGS
from vf.run import Violation
from vf.values import heavy, is_number, same, show, text_of, tname

RULE = ('A case is one program with its host globals (or one expression with its locals/globals). Families: the exhaustive arity matrix (0-5 parameters, '
        'trailing "..." or not, 0-8 arguments, called directly, through a variable, a partial, a callback and by the host); random collision-heavy '
        'programs where variables, parameters, functions, library names and host globals share a few names; every expression built-in shadowed by each '
        'kind of local/global binding; library-installation histories. Non-trivial: at least one call or shadowed lookup; distinct by text + globals.')
REQUIRED = ('many_arguments', 'independent_runs', 'arity_cases', 'runs', 'calls', 'undefined_function_errors', 'host_calls', 'shadow_cases', 'library_installs', 'log_events',
            'host_overrides', 'partials', 'callbacks')
ASSUMPTIONS = ('Comparators handed to arraySort are pure: the number and order of comparisons is not judged.',)


# ---------------------------------------------------------------- reference library

def ref_library(interp_globals, logs, mon=None):
    def note(name):
        if mon is not None:
            mon.count(name)

    def array_push(args, _):
        if not args or tname(args[0]) != 'array':
            return None
        args[0].extend(args[1:])
        return args[0]

    def global_get(args, _):
        if not 1 <= len(args) <= 2 or tname(args[0]) != 'string':
            raise ValueError()
        return interp_globals.get(args[0], args[1] if len(args) > 1 else None)

    def global_set(args, _):
        if not 1 <= len(args) <= 2 or tname(args[0]) != 'string':
            raise ValueError()
        value = args[1] if len(args) > 1 else None
        interp_globals[args[0]] = value
        return value

    def partial(args, _):
        if not args or tname(args[0]) != 'function' or len(args) < 2:
            raise ValueError()
        note('partials')
        func, bound = args[0], list(args[1:])
        return lambda more, options: func(bound + list(more), options)

    def sort(args, options):
        if not args or tname(args[0]) != 'array' or len(args) != 2 or tname(args[1]) != 'function':
            raise Unjudged()
        func = args[1]

        def key(left, right):
            result = func([left, right], options)
            if not is_number(result):
                raise Unjudged()
            return result
        note('callbacks')
        args[0].sort(key=functools.cmp_to_key(key))
        return args[0]

    def log(args, _):
        if len(args) > 1:
            raise ValueError()
        if args and heavy(args[0]):
            raise Unjudged()
        logs.append(text_of(args[0] if args else None))

    return {
        'systemLog': log,
        'arrayNew': lambda args, _: list(args),
        'arrayLength': lambda args, _: len(args[0]) if len(args) == 1 and tname(args[0]) == 'array' else 0,
        'arrayPush': array_push, 'systemGlobalGet': global_get, 'systemGlobalSet': global_set, 'systemPartial': partial, 'arraySort': sort
    }


def judge_program(mon, program, fresh_globals, make_host, step_limit=500):
    """fresh_globals: makes the host globals of one side; make_host: fresh host functions per side (name -> callable)"""
    logs = []
    interp_globals = {}
    lib = ref_library(interp_globals, logs, mon)
    interp_globals.update(lib)
    supplied = {**fresh_globals(), **make_host(logs)}
    interp_globals.update(supplied)
    if any(name in lib for name in supplied):
        mon.count('host_overrides')
    interp = BigStep(interp_globals, {}, step_limit)
    try:
        expected, error = interp.run(program), None
    except RefRuntimeError as exc:
        expected, error = None, str(exc)
    except (StepLimit, Unjudged, RecursionError):
        mon.count('discarded')
        return
    text = '\n'.join(render_program(program))
    model = model_of(text)
    real_logs = []
    real_globals = {**fresh_globals(), **make_host(real_logs)}
    real_supplied = dict(real_globals)
    out = execute(model, real_globals, interp.steps * 40 + 1000, debug='vary', logFn=real_logs.append)
    mon.count('runs')
    mon.count('calls', interp.branches.get('call', 0))
    mon.count('log_events', len(logs))
    if real_logs != logs:
        raise Violation('logged output differs', expected=logs, observed=real_logs, outcome=out.text(), text=text)
    if error is not None:
        mon.count('undefined_function_errors')
        if out.kind != 'runtime' or error.split('"')[1] not in str(out.error):
            raise Violation('expected a runtime error for the undefined function', expected=error, observed=out.text(), text=text)
    elif out.kind != 'value' or not same(out.value, expected):
        raise Violation('the result differs', expected=show(expected), observed=out.text(), text=text)
    # The caller's globals object is the one the script wrote
    for name, value in interp_globals.items():
        if name in lib and value is lib[name]:
            if name not in real_globals or real_globals[name] is not library()[name]:
                raise Violation(f'library function "{name}" was not installed unchanged', observed=show(real_globals.get(name)), text=text)
            continue
        if name not in real_globals:
            raise Violation(f'global "{name}" is missing', expected=show(value), text=text)
        if not same(real_globals[name], value):
            raise Violation(f'global "{name}" differs', expected=show(value), observed=show(real_globals[name]), text=text)
        if name in supplied and value is supplied[name] and real_globals[name] is not real_supplied[name]:
            raise Violation(f'the caller-supplied global "{name}" was replaced', expected=show(value), observed=show(real_globals[name]), text=text)
    for name in real_globals:
        if name not in interp_globals and name not in library():
            raise Violation(f'unexpected global "{name}"', observed=show(real_globals[name]), text=text)
    return interp, interp_globals, real_globals, out


# ---------------------------------------------------------------- random collision programs

VALUES = (None, True, 0.0, 1.0, 5.0, 'a', 'txt', [1.0, 2.0], {'k': 1.0})
NAMES = ('a', 'b', 'c', 'f', 'g', 'abs', 'max', 'arrayLength', 'arrayPush')
FUNC_NAMES = ('f', 'g', 'h', 'abs', 'arrayLength', 'c')


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.defined = ['f', 'g']
        self.callees = None

    def expr(self, scope, depth=2):
        rng = self.rng
        pick = rng.random()
        if depth <= 0 or pick < 0.35:
            pick = rng.random()
            if pick < 0.6:
                return var(rng.choice(scope))
            if pick < 0.8:
                return num(rng.choice((0, 1, 2, 3, 7)))
            return rng.choice((string('s'), string(''), var('null'), var('true')))
        if pick < 0.62:
            return self.call(scope, depth)
        if pick < 0.75:
            return binop(rng.choice(('+', '-', '==', '<', '&&', '||')), self.expr(scope, depth - 1), self.expr(scope, depth - 1))
        if pick < 0.83:
            return call('arrayNew', *[self.expr(scope, depth - 1) for _ in range(rng.randint(0, 3))])
        if pick < 0.88:
            return call('systemGlobalGet', string(rng.choice(NAMES)), *([self.expr(scope, 0)] if rng.random() < 0.4 else []))
        if pick < 0.93:
            return call('systemGlobalSet', string(rng.choice(NAMES)), self.expr(scope, depth - 1))
        if pick < 0.97:
            return call('systemPartial', var(rng.choice(FUNC_NAMES)), *[self.expr(scope, depth - 1) for _ in range(rng.randint(1, 2))])
        return call('if', self.expr(scope, depth - 1), self.expr(scope, depth - 1), self.expr(scope, depth - 1))

    def call(self, scope, depth):
        rng = self.rng
        pick = rng.random()
        name = rng.choice(self.callees or self.defined) if pick < 0.82 else rng.choice(tuple(ALIASES)) if pick < 0.85 else (rng.choice(FUNC_NAMES) if pick < 0.9 else rng.choice(scope))
        return call(name, *[self.expr(scope, depth - 1) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4)))])

    def stmt(self, scope, in_func, depth):
        rng = self.rng
        self.n += 1
        pick = rng.random()
        if pick < 0.4:
            return ('assign', rng.choice(scope + ['new' + rng.choice('12')]), self.expr(scope))
        if pick < 0.65:
            return ('expr', call('systemLog', binop('+', string(f's{self.n}:'), self.expr(scope))))
        if pick < 0.72:
            return ('expr', self.call(scope, 2))
        if pick < 0.8 and depth > 0:
            return ('if', [(self.expr(scope, 1), [self.stmt(scope, in_func, depth - 1)])], [self.stmt(scope, in_func, depth - 1)]
                    if rng.random() < 0.4 else None)
        if pick < 0.86:
            return ('expr', call('arrayPush', var(rng.choice(scope)), self.expr(scope, 0) if rng.random() < 0.2 else num(self.n)))
        if in_func:
            return ('return', self.expr(scope)) if rng.random() < 0.6 else ('assign', rng.choice(scope), self.expr(scope))
        return self.func()

    def func(self, name=None):
        rng = self.rng
        params = rng.sample(NAMES, rng.choice((0, 1, 1, 2, 2, 3)))
        scope = list(dict.fromkeys(params + rng.sample(NAMES, 3)))
        name = name or rng.choice(FUNC_NAMES)
        if name in self.defined and rng.random() < 0.85:
            # Mostly no recursion (which seldom ends here)
            self.callees = self.defined[self.defined.index(name) + 1:] + ['arrayNew']
        body = [self.stmt(scope, True, 1) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.7:
            body.append(('return', self.expr(scope)))
        self.callees = None
        return ('func', name, params, bool(params) and rng.random() < 0.3, body, rng.random() < 0.1)


def make_host_factory(names):
    def make(logs):
        out = {}
        for name in names:
            def host(args, _options, name=name):
                logs.append(f'host {name} {len(args)}')
                return args[0] if args else name
            out[name] = host
        return out
    return make


def random_case(mon, rng):
    gen = Gen(rng)
    program = []
    gen.defined = rng.sample(FUNC_NAMES, rng.randint(2, 5))
    for name in gen.defined:
        program.append(gen.func(name))
    hosts = [name for name in ('f', 'h', 'arrayLength', 'arrayNew', 'systemLog', 'b', 'hostOnly') if rng.random() < 0.12]
    gen.defined += hosts
    scope = list(NAMES)
    for _ in range(rng.randint(2, 7)):
        program.append(gen.stmt(scope, False, 1))
    if rng.random() < 0.4:
        program.append(('return', gen.call(scope, 2) if rng.random() < 0.5 else gen.expr(scope)))
    host = {name: rng.choice(VALUES) for name in NAMES + ('other',) if rng.random() < 0.3}
    host = {name: ([*value] if isinstance(value, list) else (dict(value) if isinstance(value, dict) else value)) for name, value in host.items()
            if name not in hosts}
    shared = {name: show(value) for name, value in host.items()}
    text = '\n'.join(render_program(program))
    with mon.case({'text': text, 'globals': shared, 'host': hosts}, key=(text, repr(shared), repr(hosts))):
        def fresh():
            return {name: ([*value] if isinstance(value, list) else (dict(value) if isinstance(value, dict) else value))
                    for name, value in host.items()}
        judged = judge_program(mon, program, fresh, make_host_factory(hosts))
        if judged is not None:
            host_call_case(mon, rng, judged)


def host_call_case(mon, rng, judged):
    """The host calls a script function left in the globals"""
    interp, interp_globals, real_globals, out = judged
    if out.kind != 'value':
        return
    names = [name for name, value in interp_globals.items() if isinstance(value, RefFunction) and value.name == name]
    if not names:
        return
    name = rng.choice(names)
    args = [rng.choice((1.0, 'x', None, True)) for _ in range(rng.randint(0, 4))]
    given = list(args)
    interp.steps = 0
    try:
        expected, error = interp_globals[name](list(args), {}), None
    except RefRuntimeError as exc:
        expected, error = None, exc
    except (StepLimit, Unjudged, RecursionError):
        return
    mon.count('host_calls')
    try:
        observed = real_globals[name](given, out.options)
        if error is not None or not same(observed, expected):
            raise Violation('a host call of a script function returns another value', function=name, args=[show(a) for a in args],
                            expected=show(expected) if error is None else str(error), observed=show(observed))
    except Violation:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        if error is None or type(exc).__name__ != 'BareScriptRuntimeError':
            raise Violation('a host call of a script function failed', function=name, args=[show(a) for a in args], error=repr(exc),
                            expected=show(expected) if error is None else str(error)) from None
    if given != args:
        raise Violation('a host call changed the argument list', function=name)


# ---------------------------------------------------------------- arity matrix

def arity_case(mon, nparams, last, nargs, how, collect):
    params = [f'p{ix}' for ix in range(nparams)]
    values = [[f'v{ix}'] if ix % 3 == 2 else (float(ix) if ix % 2 else f's{ix}') for ix in range(nargs)]
    expected = []
    for ix in range(nparams):
        if last and ix == nparams - 1:
            expected.append(list(values[ix:]))
        else:
            expected.append(values[ix] if ix < nargs else None)
    body = []
    if collect and last:
        body.append(f'    arrayPush({params[-1]}, "extra")')
        expected[-1] = expected[-1] + ['extra']
    text = f'function f({", ".join(params)}{"..." if last else ""}):\n' + '\n'.join(
        body + [f'    return arrayNew({", ".join(params)})', 'endfunction'])
    names = [f'g{ix}' for ix in range(nargs)]
    bound = nargs // 2
    if how == 'direct':
        text += f'\nreturn f({", ".join(names)})'
    elif how == 'variable':
        text += f'\nh = f\nreturn h({", ".join(names)})'
    elif how == 'argument':
        text += f'\nfunction caller(p0):\n    return p0({", ".join(names)})\nendfunction\nreturn caller(f)'
    elif how == 'partial':
        if not bound:
            return
        text += f'\nh = systemPartial(f, {", ".join(names[:bound])})\nh({", ".join(names[bound:])})\nreturn h({", ".join(names[bound:])})'
    elif how == 'script-args':
        text += f'\nfunction caller({", ".join(names)}):\n    return f({", ".join(names)})\nendfunction\nreturn caller({", ".join(names)})'
    with mon.case({'text': text, 'how': how}, key=(text, how)):
        mon.count('arity_cases')
        globals_ = dict(zip(names, values))
        out = execute(text, globals_)
        observed = out.value
        if how == 'host':
            given = list(values)
            observed = globals_['f'](given, out.options)
            if len(given) != len(values) or any(a is not b for a, b in zip(given, values)):
                raise Violation('the caller\'s argument list was changed', observed=show(given))
        if out.kind != 'value' or not same(observed, expected):
            raise Violation('parameters are not bound as documented', expected=show(expected), observed=show(observed) + ' ' + out.text())
        for ix in range(min(nparams - (1 if last else 0), nargs)):
            if isinstance(values[ix], list) and observed[ix] is not values[ix]:
                raise Violation('an argument was copied', observed=show(observed))
        for name in globals_:
            if name.startswith('p') and name[1:].isdigit():
                raise Violation('a parameter leaked to the globals', name=name)


# ---------------------------------------------------------------- expression built-ins shadowed

def shadow_cases(mon):
    lib = library()
    builtins = {alias: lib[full] for alias, full in ALIASES.items()}

    def bound_fn(args, _options):
        return ['bound', len(args)]
    args = [string('abc'), num(1), num(2)]
    bindings = {'unbound': None, 'function': bound_fn, 'null': None, 'number': 5.0, 'string': 'x', 'array': [1.0], 'false': False}
    for name in list(ALIASES) + ['if', 'mathAbs', 'nothing']:
        for local in bindings:
            for glob in bindings:
                for with_builtins in (True, False):
                    for nargs in (0, 1, 2):
                        if name in ('now', 'today', 'rand') and local == 'unbound' and glob == 'unbound':
                            continue
                        locals_ = {name: bindings[local]} if local != 'unbound' else ({} if nargs else None)
                        globals_ = {name: bindings[glob]} if glob != 'unbound' else {}
                        expr = call(name, *args[:nargs])
                        with mon.case({'name': name, 'local': local, 'global': glob, 'builtins': with_builtins, 'args': nargs},
                                      key=(name, local, glob, with_builtins, nargs)):
                            mon.count('shadow_cases')
                            try:
                                expected, error = Evaluator(globals_, {}, builtins if with_builtins else None).eval(expr, locals_), None
                            except RefRuntimeError as exc:
                                expected, error = None, exc
                            status, observed = evaluate(expr, {'globals': globals_}, locals_, with_builtins)
                            if error is not None:
                                if status != 'runtime' or name not in str(observed):
                                    raise Violation('expected an undefined function error', observed=f'{status} {show(observed)}')
                            elif status != 'value' or not same(expected, observed):
                                raise Violation('the wrong binding was called', expected=show(expected), observed=f'{status} {show(observed)}')
                            # variable read
                            expected = Evaluator(globals_, {}).eval(var(name), locals_)
                            status, observed = evaluate(var(name), {'globals': globals_}, locals_, with_builtins)
                            if status != 'value' or not (expected is observed or same(expected, observed)):
                                raise Violation('the wrong binding was read', expected=show(expected), observed=f'{status} {show(observed)}')


# ---------------------------------------------------------------- library installation

def install_cases(mon, rng, n):
    lib = library()
    names = sorted(lib)
    with mon.case('every documented library function is added'):
        for name in SIGS:
            if name not in lib:
                raise Violation(f'library function "{name}" is not added to the globals')
    for _ in range(n):
        chosen = rng.sample(names, rng.choice((0, 1, 2, 5, 20)))
        supplied = {name: rng.choice((None, 0.0, False, '', 'x', [], bound_identity, lib[rng.choice(names)])) for name in chosen}
        supplied['own'] = [1.0]
        redefined = rng.sample(names, rng.randint(0, 2))
        text = '\n'.join([f'function {name}(a):\n    return "script {name}"\nendfunction' for name in redefined] +
                         ['own2 = 1'] + ([f'res = {redefined[0]}(1)'] if redefined else []))
        with mon.case({'supplied': {k: show(v) for k, v in supplied.items()}, 'text': text}, key=(repr(sorted(supplied)), text, show(list(supplied.values())))):
            mon.count('library_installs')
            globals_ = dict(supplied)
            options = {'globals': globals_}
            for run in range(rng.choice((1, 1, 2))):
                execute_script(model_of(text), options)
                if options['globals'] is not globals_:
                    raise Violation('the globals object was replaced')
                for name, value in supplied.items():
                    if name not in redefined and (name not in globals_ or globals_[name] is not value):
                        raise Violation(f'the caller-supplied name "{name}" was overwritten', supplied=show(value), observed=show(globals_.get(name)),
                                        run=run)
                for name in names:
                    if name not in supplied and name not in redefined and globals_.get(name) is not lib[name]:
                        raise Violation(f'library function "{name}" was not added', observed=show(globals_.get(name)), run=run)
                for name in redefined:
                    if globals_.get(name) is lib[name] or globals_.get(name) is supplied.get(name, lib):
                        raise Violation(f'the script definition of "{name}" did not replace the bound function')
                    if globals_[name]([1.0], options) != f'script {name}':
                        raise Violation(f'the script definition of "{name}" is not what is bound')
                if redefined and globals_['res'] != f'script {redefined[0]}':
                    raise Violation('a call did not reach the script definition', observed=show(globals_['res']))
                if globals_.get('own2') != 1:
                    raise Violation('a top-level assignment did not write the globals object')
                extra = set(globals_) - set(supplied) - set(names) - {'own2', 'res'}
                if extra:
                    raise Violation('unexpected globals', names=sorted(extra))
    # Library tables must not be changed by a script that redefines library functions
    fresh = {}
    execute_script({'statements': []}, {'globals': fresh})
    with mon.case('library unchanged by the redefinitions'):
        for name in names:
            if fresh.get(name) is not lib[name]:
                raise Violation(f'library function "{name}" changed for later runs', observed=show(fresh.get(name)))
    # No globals at all
    with mon.case('no globals member'):
        options = {}
        if execute_script(model_of('a = arrayNew(1)\nreturn arrayLength(a)'), options) != 1:
            raise Violation('a run without a globals member does not see the library')
        if execute_script(model_of('a = arrayNew(1)\nreturn arrayLength(a)')) != 1:
            raise Violation('a run without options does not see the library')
    # ... and nothing else: every such run has globals of its own
    with mon.case('runs without globals are independent'):
        probe = model_of('b = arrayNew(left, systemGlobalGet("made"), arrayLength)\nfunction made():\n    return 1\nendfunction\nfunction arrayLength():\n    return 2\nendfunction\n'
                         'left = 1\nsystemGlobalSet("set", 1)\nreturn arrayNew(arrayGet(b, 0), arrayGet(b, 1), systemIs(arrayGet(b, 2), arrayLength), systemGlobalGet("seen"), if(set == 1, 0, 1))')
        for make in (lambda: None, dict, lambda: {'globals': None}, lambda: {'globals': {}}, lambda: {'globals': {'x': 1.0}}, lambda: {'logFn': None, 'maxStatements': 100}):
            for _ in range(3):
                mon.count('independent_runs')
                options = make()
                got = execute_script(probe, options)
                if got != [None, None, False, None, 0]:
                    raise Violation('a run without globals sees what an earlier run left', observed=show(got))
                if options is not None and options['globals'].get('left') != 1:
                    raise Violation('the globals of the run are not in its options')
                if options is not None:
                    options['globals']['seen'] = 1


def bound_identity(args, _options):
    return args


def plan(tier):
    quick = tier == 'quick'
    shards = [('arity', {'cost': 1}), ('shadow', {'cost': 2})]
    for ix in range(16 if quick else 96):
        shards.append(('random', {'index': ix, 'n': 4500 if quick else 30000, 'cost': 6}))
    for ix in range(4 if quick else 24):
        shards.append(('install', {'index': ix, 'n': 400 if quick else 3000, 'cost': 2}))
    return shards


def shard(kind, spec, rng, mon):
    if kind == 'arity':
        for nparams in range(6):
            for last in ((False, True) if nparams else (False,)):
                for nargs in range(9):
                    for how in ('direct', 'variable', 'argument', 'partial', 'script-args', 'host'):
                        for collect in (False, True):
                            arity_case(mon, nparams, last, nargs, how, collect)
        for nparams in (1, 2, 3, 8, 15, 16, 17, 20, 33, 40, 65, 130):
            for last in (False, True):
                for nargs in (0, 1, 9, 15, 16, 17, 18, 32, 33, 34, 40, 66, 129, 131):
                    for how in ('direct', 'variable', 'argument', 'partial', 'script-args', 'host'):
                        mon.count('many_arguments', nargs > 9)
                        arity_case(mon, nparams, last, nargs, how, True)
    elif kind == 'shadow':
        shadow_cases(mon)
    elif kind == 'install':
        install_cases(mon, rng, spec['n'])
    else:
        for _ in range(spec['n']):
            random_case(mon, rng)
        sort_cases(mon, rng, spec['n'] // 20)


def sort_cases(mon, rng, n):
    """Callbacks from library functions see globals, not the caller's locals"""
    for _ in range(n):
        values = [float(rng.randint(0, 9)) for _ in range(rng.randint(0, 6))]
        sign = rng.choice((1.0, -1.0))
        local = rng.choice((1.0, -1.0, 0.0))
        program = [
            ('assign', 'dir', num(1) if sign > 0 else binop('-', num(0), num(1))),
            ('func', 'cmp', ['a', 'b', 'c'], False, [('assign', 'dir2', var('dir')), ('return', binop('*', binop('-', var('a'), var('b')), var('dir')))]),
            ('func', 'main', ['arr', 'fn'], False, [
                ('assign', 'dir', num(local) if local >= 0 else binop('-', num(0), num(1))), ('assign', 'a', string('mine')),
                ('assign', 'sorted', call('arraySort', var('arr'), var('fn'))),
                ('return', call('arrayNew', var('a'), var('dir'), var('sorted'), var('b'), var('dir2')))]),
            ('return', call('main', call('arrayNew', *[num(v) for v in values]), var('cmp')))
        ]
        text = '\n'.join(render_program(program))
        with mon.case({'text': text}, key=text):
            judge_program(mon, program, dict, make_host_factory([]))
