"""C09: the statement budget. Differential against a reference executor that counts statements, for every limit."""
from bare_script import parse_script

from vf.host import execute, library, model_of
from vf.lang import RefRuntimeError
from vf.refexec import RefExec
from vf.run import Violation
from vf.values import same, show, text_of

RULE = ('A case is one (program, limit). Programs mix loops, recursion, script functions called directly, as arraySort/arrayIndexOf/arrayLastIndexOf/'
        'systemPartial callbacks, from data expressions (with and without variables), by host functions, functions defined in and called from nested '
        'includes; some never end. Limits: every L in 1..N+2 when N <= 70, else a sample with the edges, and 0. The reference executor counts the '
        'statements; log lines, host calls, result, error and final globals must match at every limit. Non-trivial: N >= 3; distinct by (program, limit).')
REQUIRED = ('long_programs', 'runs', 'aborted', 'completed', 'unlimited', 'exact_limit_runs', 'endless_programs', 'callback_calls', 'data_calls', 'include_statements',
            'recursive_calls', 'host_calls', 'aborted_in_callback', 'aborted_in_include')
ASSUMPTIONS = ('What a program does at a given statement is taken from the reference executor; library functions in the reference run are the real ones, '
               'so the number of callback invocations is the implementation\'s own.',)


class Stop(BaseException):
    """The reference budget ended (not an Exception: library code must not swallow it)"""

    def __init__(self, where):
        super().__init__()
        self.where = where


class Deep(BaseException):
    """Recursion the reference does not follow (the program is discarded)"""


class BudgetExec(RefExec):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.where = ['main']

    def too_deep(self):
        raise Deep()

    def statements(self, statements, locals_, base):
        # Counting happens in RefExec; the limit must not be an ordinary exception here
        try:
            return super().statements(statements, locals_, base)
        except RefRuntimeError as exc:
            if 'Exceeded' in str(exc):
                raise Stop(list(self.where)) from None
            raise


FILES = ('inc1.bare', 'inc2.bare', 'lib/inc3.bare')


class Gen:
    """Random programs over a fixed set of function names"""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.loops = 0

    def mark(self):
        self.n += 1
        return self.rng.choice((f"systemLog('m{self.n}')", f't({self.n})', f"x = t({self.n})", f'g{self.n % 3} = {self.n}'))

    def filler(self, depth=1):
        rng = self.rng
        out = []
        for _ in range(rng.randint(0, 2)):
            pick = rng.random()
            if pick < 0.55 or depth <= 0:
                out.append(self.mark())
            elif pick < 0.7:
                self.loops += 1
                name = f'i{self.loops}'
                out += [f'{name} = 0', f'while {name} < {rng.randint(0, 3)}:', f'    {name} = {name} + 1'] + ['    ' + line for line in self.filler(depth - 1)] + \
                    (['    if t(0) == ' + str(rng.randint(0, 1)) + ':', '        ' + rng.choice(('break', 'continue')), '    endif'] if rng.random() < 0.4 else []) + ['endwhile']
            elif pick < 0.82:
                out += [f'for v in arrayNew({", ".join("12345"[:rng.randint(0, 3)])}):'] + ['    ' + line for line in self.filler(depth - 1)] + ['endfor']
            else:
                out += [f'if {rng.choice(("true", "false", "t(1)", "x"))}:'] + ['    ' + line for line in self.filler(depth - 1)] + \
                    (['else:'] + ['    ' + line for line in self.filler(depth - 1)] if rng.random() < 0.5 else []) + ['endif']
        return out

    def function(self, name, params, result):
        return [f'function {name}({params}):'] + ['    ' + line for line in self.filler() + ([f'return {result}'] if result else [])] + ['endfunction']

    def call(self, depth=2):
        """A statement that runs script functions"""
        rng = self.rng
        return rng.choice((
            'x = pred(2)', 'x = pred(pred(1))', 'x = arraySort(arrayNew(3, 1, 2), cmp)', 'x = arraySort(arrayNew(5, 4, 3, 2, 1, 0), cmp)',
            'x = arrayIndexOf(arrayNew(1, 2, 3), pred)', 'x = arrayLastIndexOf(arrayNew(1, 2, 3), pred)', 'x = rec(3)', 'x = rec(1) + rec(2)',
            'p = systemPartial(cmp, 4)\nx = p(2)', 'x = arrayIndexOf(arrayNew(0, 1, 2), systemPartial(cmp, 2))', "x = dataFilter(rows(), 'pred(a)')",
            "x = dataFilter(rows(), 'pred(a) && v', objectNew('v', 1))", "x = dataCalculatedField(rows(), 'c', 'rec(a)')",
            "x = dataCalculatedField(rows(), 'c', 'cmp(a, v)', objectNew('v', 2))", "x = dataJoin(rows(), rows(), 'pred(a)', 'pred(b)')",
            "x = dataJoin(rows(), rows(), 'pred(a)', 'pred(b)', false, objectNew('v', 2))", 'x = apply(pred, 3)', 'x = apply(rec, 2)', 'x = twice(pred)',
            "x = if(t(1), pred(1), rec(3))", 'x = pred(1) || rec(2)', 'x = deep(2)', "x = dataFilter(rows(), 'arrayIndexOf(arrayNew(a, b), pred) >= 0', objectNew('v', 1))",
            'x = indirect()', "x = dataFilter(rows(), 'deep(1)', objectNew('v', 1))", "x = fromInclude(2)", 'x = arraySort(arrayNew(2, 1), fromInclude)'
        ))

    def text(self):
        rng = self.rng
        lines = []
        lines += self.function('pred', 'x', 'x > 1')
        lines += self.function('cmp', 'a, b', 'a - b')
        lines += ['function rec(n):'] + ['    ' + line for line in self.filler(0)] + ['    if n > 0:', '        return rec(n - 1) + 1', '    endif', '    return 0', 'endfunction']
        lines += ['function rows():', "    return arrayNew(objectNew('a', 1, 'b', 2), objectNew('a', 2, 'b', 1), objectNew('a', 3))", 'endfunction']
        lines += ['function twice(f):'] + ['    ' + line for line in self.filler(0)] + ['    return f(1) || f(2)', 'endfunction']
        lines += ['function deep(n):', '    x = arraySort(arrayNew(2, 1), cmp)', "    y = dataFilter(rows(), 'pred(a)', objectNew('v', n))", '    ' + self.mark(),
                  '    return if(n > 0, deep(n - 1), x)', 'endfunction']
        lines += ['function indirect():', f"    include '{rng.choice(FILES)}'", '    ' + self.mark(), '    return 1', 'endfunction']
        lines += ['function fromInclude(a, b):', '    ' + self.mark(), '    return b', 'endfunction']
        for _ in range(rng.randint(1, 4)):
            pick = rng.random()
            if pick < 0.55:
                lines += self.call().split('\n')
            elif pick < 0.72:
                lines.append(rng.choice((f"include '{rng.choice(FILES)}'", f"include '{rng.choice(FILES)}'\ninclude '{rng.choice(FILES)}'", 'include <sys.bare>')))
            elif pick < 0.85:
                lines += ['q = 0', f'while q < {rng.randint(1, 3)}:', '    q = q + 1', *['    ' + line for line in self.call().split('\n')], 'endwhile']
            else:
                lines += self.filler(2)
        endless = rng.random() < 0.15
        if endless:
            lines += rng.choice((['while true:', '    ' + self.mark(), 'endwhile'], ['again:', *self.call().split('\n'), 'jump again'],
                                 ['while t(1) || true:', '    if true:', '        continue', '    endif', 'endwhile'],
                                 ['function forever():', '    while true:', '        x = t(2)', '    endwhile', 'endfunction',
                                  rng.choice(('forever()', "dataFilter(rows(), 'forever()', objectNew('v', 1))", 'arraySort(arrayNew(2, 1), forever)', 'apply(forever, 1)'))],
                                 ["include 'endless.bare'"]))
        elif rng.random() < 0.6:
            lines.append('return x')
        return '\n'.join(lines), endless

    def files(self):
        rng = self.rng
        out = {}
        for depth, name in enumerate(FILES):
            lines = self.filler(1)
            if rng.random() < 0.5:
                lines += ['function fromInclude(a, b):', '    ' + self.mark(), '    return a - b', 'endfunction']
            if rng.random() < 0.6:
                lines += self.call().split('\n')
            if depth > 0 and rng.random() < 0.6:
                lines.append(f"include '{rng.choice(FILES[:depth])}'")
            if rng.random() < 0.3:
                lines.append('return 5')
            lines += self.filler(0)
            out[name] = '\n'.join(lines)
        out['sys.bare'] = self.mark()
        out['endless.bare'] = 'while true:\n    t(3)\nendwhile'
        return out


def base_of(url):
    # All files live side by side: the base name identifies the file
    return url.split('/')[-1] if 'inc3' not in url else 'lib/inc3.bare'


def make_globals(logs, trace, note, mode='real'):
    def tick(args, _):
        trace.append(args[0])
        return len(trace) % 2 == 1

    def apply_function(args, options):
        note('host_calls')
        return args[0]([args[1], 1.0], options)
    return {'t': tick, 'apply': apply_function}


def reference(model, files, limit, hard):
    logs, trace = [], []
    globals_ = dict(library())
    notes = {}

    def note(what):
        notes[what] = notes.get(what, 0) + 1
    globals_.update(make_globals(logs, trace, note))
    globals_['systemLog'] = lambda args, _: logs.append(text_of(args[0]))
    options = {'globals': globals_}

    def include(base, entry):
        note('include_statements')
        return None, files[base_of(entry['url'])]
    executor = BudgetExec(globals_, limit or hard, options, include, hard + 10)
    wrap(executor, note, globals_)
    executor.ev.options = options
    try:
        value, error = executor.run(model), None
    except Stop as stop:
        value, error = None, stop
    except RefRuntimeError as exc:
        value, error = None, str(exc)
    return value, error, logs, trace, globals_, executor.count, notes


def wrap(executor, note, globals_):
    """Note which library functions run script functions (only for the evidence counters)"""
    def wrapped(name, func, what):
        def run(args, options):
            before = executor.count
            executor.where.append(what)
            result = func(args, options)
            executor.where.pop()
            if executor.count != before:
                note(what)
            return result
        return run
    for name in ('arraySort', 'arrayIndexOf', 'arrayLastIndexOf'):
        globals_[name] = wrapped(name, globals_[name], 'callback_calls')
    for name in ('dataFilter', 'dataCalculatedField', 'dataJoin'):
        globals_[name] = wrapped(name, globals_[name], 'data_calls')
    inner = executor.include

    def include(base, entry):
        result = inner(base, entry)
        executor.where.append('include')
        return result
    executor.include = include


def plain(globals_, skip):
    return {k: v for k, v in globals_.items() if k not in skip and not callable(v) and not k.startswith('__bareScript')}


def check_limit(mon, text, model, files, texts, limit, hard, reuse=None):
    value, error, logs, trace, ref_globals, count, notes = reference(model, files, limit, hard)
    real_trace = []
    globals_ = make_globals([], real_trace, lambda _: None)

    def fetch(request):
        return texts[base_of(request['url'])]
    # Unlimited endless programs are not run for real; the caller avoids them
    out = execute(model, globals_, limit, debug="vary", fetchFn=fetch, **(reuse or {}))
    mon.count('runs')
    for name, n in notes.items():
        mon.count(name, n)
    if isinstance(error, Stop):
        mon.count('aborted')
        if 'callback_calls' in error.where or 'data_calls' in error.where:
            mon.count('aborted_in_callback')
        if 'include' in error.where:
            mon.count('aborted_in_include')
        if out.kind != 'runtime' or str(out.error) != f'Exceeded maximum script statements ({limit})':
            raise Violation(f'statement {limit + 1} would start but the run was not aborted', observed=out.text(), expected_count=count,
                            logs=out.logs[-20:], expected_logs=logs[-20:])
    elif error is not None:
        if out.kind != 'runtime' or str(out.error) != error:
            raise Violation('expected a runtime error', expected=error, observed=out.text())
    else:
        mon.count('completed')
        if limit == 0:
            mon.count('unlimited')
        if limit == count:
            mon.count('exact_limit_runs')
        if out.kind != 'value':
            raise Violation(f'the program takes {count} statements but was aborted under the limit {limit}', observed=out.text())
        if not same(out.value, value):
            raise Violation('the result differs', expected=show(value), observed=show(out.value), limit=limit)
    if out.logs != logs:
        raise Violation('the log differs from the statements that may run', limit=limit, expected=logs, observed=out.logs)
    if real_trace != trace:
        raise Violation('the host calls differ from the statements that may run', limit=limit, expected=trace[-30:], observed=real_trace[-30:])
    lib = library()
    expected, observed = plain(ref_globals, lib), plain(out.globals, lib)
    if set(expected) != set(observed) or any(not same(expected[k], observed[k]) for k in expected):
        raise Violation('the globals differ from the statements that may run', limit=limit, expected={k: show(v) for k, v in expected.items()},
                        observed={k: show(v) for k, v in observed.items()})
    return count, error


def program_case(mon, rng, every):
    gen = Gen(rng)
    texts = gen.files()
    text, endless = gen.text()
    try:
        files = {name: parse_script(content) for name, content in texts.items()}
    except Exception as exc:  # pylint: disable=broad-except
        with mon.case({'files': texts}):
            raise Violation(f'parse_script rejected a valid include: {exc}') from None
    with mon.case(lambda: {'text': text, 'files': texts}, key=text):
        model = model_of(text)
    try:
        _, error, _, _, _, total, _ = reference(model, files, 0, 1500)
    except Deep:
        # Endless recursion: only limits the reference can follow
        error, total, endless = Stop(['recursion']), 60, True
        mon.count('endless_recursion')
    if total > 1490 and not endless:
        return      # too long to sweep
    if 'rec(' in text:
        mon.count('recursive_calls')
    finished = not isinstance(error, Stop)
    if not finished:
        mon.count('endless_programs')
    top = total + 2 if finished else 60 if total == 60 else 400
    limits = list(range(1, top + 1)) if finished and top <= 72 and every else \
        sorted({1, 2, max(1, total - 1), total, total + 1} & set(range(1, top + 1)) | set(rng.sample(range(1, top + 1), min(top, 14))))
    if finished:
        limits.append(0)
        limits.append(10 ** 9)
    for limit in limits:
        with mon.case(lambda: {'text': text, 'files': texts, 'limit': limit}, key=(text, limit), nontrivial=total > 2):
            check_limit(mon, text, model, files, texts, limit, 1500)
    # The same options object again: the budget starts afresh
    if finished and total > 1:
        with mon.case(lambda: {'text': text, 'files': texts, 'limit': total, 'same options twice': True}, key=(text, 'again')):
            from bare_script import BareScriptRuntimeError, execute_script
            trace = []
            options = {'globals': make_globals([], trace, lambda _: None), 'maxStatements': total, 'fetchFn': lambda request: texts[base_of(request['url'])]}
            outcomes = []
            for _ in range(2):
                options['globals'] = make_globals([], trace, lambda _: None)
                del trace[:]
                try:
                    outcomes.append(('value', execute_script(model, options)))
                except BareScriptRuntimeError as exc:
                    outcomes.append(('error', str(exc)))
            if outcomes[0][0] != outcomes[1][0] or not same(outcomes[0][1], outcomes[1][1]):
                raise Violation('a second run with the same options differs', first=show(outcomes[0]), second=show(outcomes[1]))


LONG = (
    'i = 0\nwhile i < {n}:\n    i = i + 1\nendwhile\nreturn i',
    'function f(x):\n    return x + 1\nendfunction\ni = 0\nwhile i < {n}:\n    i = f(i)\nendwhile\nreturn i',
    'function rec(n):\n    return if(n > 0, n + rec(n - 1), 0)\nendfunction\ni = 0\ntotal = 0\nwhile i < {n} / 10:\n    i = i + 1\n    total = total + rec(9)\nendwhile\nreturn total',
    "values = arrayNewSize({n})\ntotal = 0\nfor value, ix in values:\n    if ix % 100 == 0:\n        systemLog('at ' + ix)\n    endif\n    total = total + ix\nendfor\nreturn total",
    'function cmp(a, b):\n    return b - a\nendfunction\nvalues = arrayNew()\nfor value, ix in arrayNewSize({n} / 10):\n    arrayPush(values, (ix * 7) % 101)\nendfor\narraySort(values, cmp)\nreturn values',
    'i = 0\nagain:\ni = i + 1\njumpif (i < {n}) again\nreturn i'
)


def long_case(mon, rng):
    """Programs of thousands of statements, with limits around where they end and at round numbers"""
    mon.count('long_programs')
    text = rng.choice(LONG).replace('{n}', str(rng.choice((700, 1000, 1700, 2500, 3500))))
    with mon.case(lambda: {'text': text}, key=text):
        model = model_of(text)
    total = reference(model, {}, 0, 60000)[5]
    limits = {total - 1, total, total + 1, rng.randint(1, total)} | set(rng.sample((1000, 1024, 2048, 4096, 4999, 5000, 5001, 8192, 10000, 10 ** 9), 3))
    for limit in sorted(limits):
        with mon.case(lambda: {'text': text, 'limit': limit}, key=(text, limit)):
            check_limit(mon, text, model, {}, {}, limit, 60000)


def plan(tier):
    quick = tier == 'quick'
    return [('programs', {'index': ix, 'n': 110 if quick else 1200, 'cost': 3}) for ix in range(24 if quick else 128)]


def shard(kind, spec, rng, mon):
    for _ in range(spec['n']):
        program_case(mon, rng, True)
        if rng.random() < 0.05:
            long_case(mon, rng)
