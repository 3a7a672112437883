"""C08: jump-level execution. Differential: execute_script on models against the reference jump executor."""
import copy
import itertools

from vf.host import Tape, execute, model_of
from vf.lang import RefRuntimeError, Unjudged, binop, call, num, render, render_program, string, unop, var
from vf.models import check_script
from vf.refexec import RefExec
from vf.run import Violation
from vf.checks.c01 import Gen, random_program
from vf.values import same, show, snapshot, text_of

RULE = ('A case is one (model, decision tape). Models: every statement list up to length 4 (thorough: 5; length 5 sampled in quick) over an alphabet of 13 '
        'statements (log, assignment, two labels, jumps and conditional jumps to them, jump to an unknown label, returns, a function definition with '
        'its own labels, a call), at global scope and as a function body; random models of up to 40 statements with nested function statements, '
        'duplicate labels, missing optional members; parsed structured programs; histories of models that come and go under one options object, and of included texts with their own labels and jumps. Every model runs twice and must be unchanged. Distinct by (model, tape).')
REQUIRED = ('large_lists', 'runs', 'jump-back', 'jump-forward', 'jump-not-taken', 'unknown-label', 'return', 'call', 'limit_outcomes', 'models_unchanged', 'random_models',
            'nested_functions', 'repeat_runs', 'shared_option_runs', 'included_lists')
ASSUMPTIONS = ('Runs are bounded with maxStatements (a run that would loop forever must end with the limit error at the same point).',
               'A lastArgArray flag on a function without arguments is not judged.')

C = call('c')


def stmt(expr, name=None):
    return {'expr': {'name': name, 'expr': expr} if name else {'expr': expr}}


def lab(name):
    return {'label': name}


def jump(name, expr=None):
    return {'jump': {'label': name, 'expr': expr} if expr is not None else {'label': name}}


def ret(expr=None):
    return {'return': {'expr': expr} if expr is not None else {}}


def func(name, statements, **extra):
    return {'function': {'name': name, 'statements': statements, **extra}}


# The exhaustive alphabet: each entry is a factory of (position) -> statement
ALPHABET = [
    lambda ix: stmt(call('systemLog', num(ix))),
    lambda ix: stmt(binop('+', var('a'), num(1)), 'a'),
    lambda ix: lab('A'),
    lambda ix: lab('B'),
    lambda ix: jump('A'),
    lambda ix: jump('B'),
    lambda ix: jump('A', C),
    lambda ix: jump('B', C),
    lambda ix: jump('Z', C),
    lambda ix: ret(var('a')),
    lambda ix: ret(),
    lambda ix: func('f', [jump('B', C), stmt(call('systemLog', string('f'))), lab('A'), stmt(num(2), 'a'), lab('B'), jump('A', C), ret(var('a'))]),
    lambda ix: stmt(call('f', num(ix)), 'r'),
]


def ref_lib(logs):
    def array_new(args, _):
        return list(args)

    def array_set(args, _):
        if isinstance(args[0], list) and 0 <= args[1] < len(args[0]):
            args[0][int(args[1])] = args[2]
            return args[2]
        return None
    return {'arraySet': array_set, 'systemLog': lambda args, _: logs.append(text_of(args[0])), 'arrayNew': array_new,
            'arrayLength': lambda args, _: len(args[0]) if isinstance(args[0], list) else 0,
            'arrayGet': lambda args, _: args[0][int(args[1])]}


def reference(model, bits, initial, limit, include=None):
    logs = []
    lib = ref_lib(logs)
    globals_ = dict(lib)
    globals_.update(copy.deepcopy(initial))
    tape = Tape(bits)
    globals_['c'] = tape
    executor = RefExec(globals_, limit, include=include)
    try:
        value, error = executor.run(model), None
    except RefRuntimeError as exc:
        value, error = None, str(exc)
    finals = {k: v for k, v in globals_.items() if k != 'c' and not (k in lib and v is lib[k])}
    return value, error, logs, finals, tape.used, executor


def judge(mon, model, bits, initial, limit, include=None, **how):
    """One run of the real code against the reference; returns the number of decisions taken"""
    try:
        value, error, logs, finals, used, executor = reference(model, bits, initial, limit, include)
    except Unjudged:
        mon.count('discarded')
        return None
    globals_ = copy.deepcopy(initial)
    globals_['c'] = Tape(bits)
    out = execute(copy.deepcopy(model) if how else model, globals_, limit, debug='vary', **how)
    mon.count('runs')
    for name, n in executor.stats.items():
        mon.count(name, n)
    if error is not None:
        if 'Exceeded' in error:
            mon.count('limit_outcomes')
        if out.kind != 'runtime' or str(out.error) != error:
            raise Violation('expected a runtime error', expected=error, observed=out.text(), logs=out.logs)
    elif out.kind != 'value':
        raise Violation('the run failed', expected=show(value), observed=out.text())
    elif not same(out.value, value):
        raise Violation('the result differs', expected=show(value), observed=show(out.value))
    if out.logs != logs:
        raise Violation('the output differs', expected=logs, observed=out.logs)
    for name, val in finals.items():
        if name not in out.globals or not same(out.globals[name], val):
            raise Violation(f'global "{name}" differs', expected=show(val), observed=show(out.globals.get(name)))
    from vf.checks.c01 import LIB_NAMES
    for name in out.globals:
        if name not in finals and name != 'c' and name not in LIB_NAMES():
            raise Violation(f'unexpected global "{name}"', observed=show(out.globals[name]))
    return used


def model_case(mon, rng, model, tapes, initial, limit):
    """A model under several tapes, the last one twice"""
    before = snapshot(model)
    last = None
    for bits in tapes:
        with mon.case(lambda: {'model': model, 'tape': [int(b) for b in bits]}, key=(repr(model), tuple(bits))):
            judge(mon, model, bits, initial, limit)
        last = bits
    with mon.case(lambda: {'model': model, 'tape': [int(b) for b in last], 'repeat': True}, key=(repr(model), tuple(last), 'again')):
        judge(mon, model, last, initial, limit)
        mon.count('repeat_runs')
        if snapshot(model) != before:
            raise Violation('execution modified the model', model=model)
        mon.count('models_unchanged')


# ---------------------------------------------------------------- random models

NAMES = ('a', 'b', 'f', 'g', 'h')


def random_expr(rng, depth=2):
    pick = rng.random()
    if depth <= 0 or pick < 0.35:
        return rng.choice((var('a'), var('b'), var('p'), var('q'), num(1), {'number': 2}, string('s'), var('null'), var('true'), C))
    if pick < 0.6:
        return binop(rng.choice(('+', '-', '==', '<', '&&', '||', '*')), random_expr(rng, depth - 1), random_expr(rng, depth - 1))
    if pick < 0.7:
        return unop(rng.choice('!-'), random_expr(rng, depth - 1))
    if pick < 0.76:
        return {'group': random_expr(rng, depth - 1)}
    if pick < 0.82:
        return call('if', C, random_expr(rng, depth - 1), random_expr(rng, depth - 1))
    if pick < 0.86:
        return {'function': {'name': rng.choice(('arrayNew', 'f', 'g'))}}     # no args member
    return call(rng.choice(('f', 'f', 'g', 'h', 'arrayNew', 'undefinedFunction' if rng.random() < 0.2 else 'g')),
                *[random_expr(rng, depth - 1) for _ in range(rng.randint(0, 3))])


def random_statements(rng, size, depth):
    labels = ['A', 'B', 'A b', '', '__bareScriptDone0'][:rng.randint(1, 5)]
    out = []
    for ix in range(rng.randint(0, size)):
        pick = rng.random()
        if pick < 0.2:
            out.append(stmt(call('systemLog', random_expr(rng))))
        elif pick < 0.36:
            out.append(stmt(random_expr(rng), rng.choice(('a', 'b', 'p', 'v w') if rng.random() < 0.95 else NAMES)))
        elif pick < 0.55:
            out.append(lab(rng.choice(labels)))
        elif pick < 0.72:
            out.append(jump(rng.choice(labels) if rng.random() < 0.93 else 'Unknown', random_expr(rng, 1) if rng.random() < 0.3 else C))
        elif pick < 0.76:
            out.append(jump(rng.choice(labels)))
        elif pick < 0.81:
            out.append(ret(random_expr(rng)) if rng.random() < 0.8 else ret())
        elif pick < 0.9 and depth > 0:
            extra = {}
            if rng.random() < 0.75:
                extra['args'] = rng.sample(('p', 'q', 'a'), rng.randint(1, 3))
                if rng.random() < 0.4:
                    extra['lastArgArray'] = rng.random() < 0.6
            if rng.random() < 0.2:
                extra['async'] = rng.random() < 0.5
            out.append(func(rng.choice('fgh'), random_statements(rng, 6, depth - 1), **extra))
        else:
            out.append(stmt(random_expr(rng)))
    return out


def random_model(rng):
    statements = [func(name, random_statements(rng, 6, 1), args=['p', 'q']) for name in 'fgh' if rng.random() < 0.6]
    statements += random_statements(rng, rng.choice((6, 12, 40)), 2)
    if rng.random() < 0.2 and statements:
        # One statement object at several places
        statements.insert(rng.randint(0, len(statements)), rng.choice(statements))
    if rng.random() < 0.1:
        functions = [s['function'] for s in statements if 'function' in s]
        if len(functions) > 1:
            functions[-1]['statements'] = functions[0]['statements']     # two functions share one statement list
    return {'statements': statements}


def large_model(rng):
    """A long statement list with labels spread over it"""
    size = rng.choice((100, 199, 200, 205, 260, 300, 520))
    names = [f'L{ix}' for ix in range(size)]
    rng.shuffle(names)
    statements = []
    for ix in range(size):
        pick = rng.random()
        if pick < 0.35:
            statements.append(lab(names[ix]))
        elif pick < 0.5:
            statements.append(jump(rng.choice(names), C))
        elif pick < 0.7:
            statements.append(stmt(call('systemLog', num(ix))))
        elif pick < 0.9:
            statements.append(stmt(binop('+', var('a'), num(ix)), 'a'))
        else:
            statements.append(stmt(C))
    known = [statement['label'] for statement in statements if 'label' in statement]
    for ix, statement in enumerate(statements):
        if 'jump' in statement and rng.random() < 0.97:
            # Mostly far forward jumps, so that the run gets around in the list
            statement['jump']['label'] = rng.choice(known)
    if known and rng.random() < 0.7:
        statements.insert(rng.randint(0, 3), jump(rng.choice(known[len(known) // 2:]), rng.choice((None, C))))
    if rng.random() < 0.3:
        return {'statements': [func('main', statements, args=['a']), stmt(call('main', num(3)), 'm'), stmt(call('systemLog', var('m')))]}
    return {'statements': statements}


def jump_text(statements, indent=''):
    """The text of jump-level statements (identifier labels)"""
    lines = []
    for statement in statements:
        (key, node), = statement.items()
        if key == 'expr':
            lines.append(indent + (f'{node["name"]} = ' if 'name' in node else '') + render(node['expr']))
        elif key == 'label':
            lines.append(f'{indent}{node}:')
        elif key == 'jump':
            lines.append(f'{indent}jumpif ({render(node["expr"])}) {node["label"]}' if 'expr' in node else f'{indent}jump {node["label"]}')
        elif key == 'return':
            lines.append(f'{indent}return {render(node["expr"])}' if 'expr' in node else f'{indent}return')
        else:
            lines.append(f'{indent}function {node["name"]}({", ".join(node.get("args", ()))}):')
            lines.extend(jump_text(node['statements'], indent + '    '))
            lines.append(f'{indent}endfunction')
    return lines


def alphabet_list(rng, size):
    out = [rng.choice(ALPHABET)(pos) for pos in range(size)]
    if rng.random() < 0.8:
        # No unknown labels, few endless loops
        labels = {s['label'] for s in out if 'label' in s}
        out = [s for s in out if s.get('jump', {}).get('label') != 'Z' and ('jump' not in s or 'expr' in s['jump'] or rng.random() < 0.3)]
        for name in 'AB':
            if name not in labels:
                out.insert(rng.randint(0, len(out)), lab(name))
    return out


def history_case(mon, rng):
    """Models that come and go under one options object: what an earlier model was must not matter to a later one"""
    shared = {}
    size = rng.randint(3, 8)
    for ix in range(rng.randint(3, 9)):
        if rng.random() < 0.3:
            model = random_model(rng)
        else:
            model = {'statements': alphabet_list(rng, size if rng.random() < 0.7 else rng.randint(1, 12))}
        bits = tapes_for(rng, 3, 8)[0]
        with mon.case(lambda: {'model': model, 'tape': [int(b) for b in bits], 'run_of_options': ix}, key=('history', ix, repr(model), tuple(bits))):
            judge(mon, model, bits, {'a': 0.0}, 60, shared=shared)
            mon.count('shared_option_runs')


def included_case(mon, rng):
    """Included texts with their own labels and jumps, each its own statement list, gone once it ran"""
    size = rng.randint(2, 6)
    files = {}
    for ix in range(rng.randint(2, 10)):
        files[f'i{ix}.bare'] = '\n'.join(jump_text(alphabet_list(rng, size if rng.random() < 0.7 else rng.randint(1, 9))))
    models = {url: model_of(text) for url, text in files.items()}
    statements = alphabet_list(rng, rng.randint(0, 5))
    for url in files:
        statements.insert(rng.randint(0, len(statements)), {'include': {'includes': [{'url': url}]}})
    urls = list(files)
    if rng.random() < 0.3:
        statements.append({'include': {'includes': [{'url': url} for url in rng.choices(urls, k=rng.randint(1, 6))]}})
    model = {'statements': statements}
    bits = tapes_for(rng, 3, 8)[0]
    with mon.case(lambda: {'model': model, 'files': files, 'tape': [int(b) for b in bits]}, key=('included', repr(model), repr(files), tuple(bits))):
        judge(mon, model, bits, {'a': 0.0}, 80, include=lambda base, entry: (base, models[entry['url']]),
              fetchFn=lambda request: files.get(request['url']))
        mon.count('included_lists', len(files))


def edited(rng, model):
    """Edit a model in place (an embedder may)"""
    statements = model['statements']
    ix = rng.randint(0, len(statements))
    statements.insert(ix, rng.choice((lab('A'), lab('B'), stmt(call('systemLog', string('edited'))))))


def plan(tier):
    quick = tier == 'quick'
    shards = [('lists', {'length': n, 'part': 0, 'parts': 1, 'sample': 1, 'tapes': 6, 'cost': 1}) for n in (0, 1, 2, 3)]
    for part in range(8):
        shards.append(('lists', {'length': 4, 'part': part, 'parts': 8, 'sample': 1, 'tapes': 3 if quick else 12, 'cost': 4}))
    for part in range(16 if quick else 64):
        shards.append(('lists', {'length': 5, 'part': part, 'parts': 16 if quick else 64, 'sample': 0.08 if quick else 1, 'tapes': 2 if quick else 4, 'cost': 5}))
    if not quick:
        for part in range(64):
            shards.append(('lists', {'length': 6, 'part': part, 'parts': 64, 'sample': 0.05, 'tapes': 2, 'cost': 6}))
    for ix in range(16 if quick else 96):
        shards.append(('random', {'index': ix, 'n': 600 if quick else 5000, 'cost': 4}))
        shards.append(('history', {'index': ix, 'n': 150 if quick else 1500, 'cost': 3}))
        shards.append(('parsed', {'index': ix, 'n': 120 if quick else 1200, 'cost': 3}))
    return shards


def tapes_for(rng, count, length=6):
    out = [[], [True] * length]
    while len(out) < count:
        out.append([rng.random() < 0.5 for _ in range(rng.randint(1, length))])
    rng.shuffle(out)
    return out[:count]


def shard(kind, spec, rng, mon):
    if kind == 'lists':
        for ix, chosen in enumerate(itertools.product(ALPHABET, repeat=spec['length'])):
            if ix % spec['parts'] != spec['part'] or (spec['sample'] < 1 and rng.random() > spec['sample']):
                continue
            body = [make(pos) for pos, make in enumerate(chosen)]
            if ix % 3 == 2:
                # The same list as a function body, with the labels also outside
                model = {'statements': [lab('A'), func('main', body, args=['a']), stmt(call('main', num(5)), 'm'), lab('Z'), lab('B'),
                                        stmt(call('systemLog', var('m')))]}
                body[:] = [s for s in body]
            else:
                model = {'statements': body}
            model_case(mon, rng, model, tapes_for(rng, spec['tapes']), {'a': 0.0}, 40)
    elif kind == 'random':
        for _ in range(spec['n']):
            model = random_model(rng)
            check_script(model)
            mon.count('random_models')
            mon.count('nested_functions', sum(1 for s in model['statements'] if 'function' in s for t in s['function']['statements'] if 'function' in t))
            initial = {name: rng.choice((1.0, 's', None, [1.0], True)) for name in ('a', 'b') if rng.random() < 0.7}
            model_case(mon, rng, model, tapes_for(rng, 3, 20), initial, rng.choice((60, 60, 200)))
            if rng.random() < 0.06:
                mon.count('large_lists')
                model_case(mon, rng, large_model(rng), tapes_for(rng, 3, 20), {'a': 0.0}, rng.choice((150, 400, 700)))
            if rng.random() < 0.3:
                edited(rng, model)
                model_case(mon, rng, model, tapes_for(rng, 2, 20), initial, 60)
    elif kind == 'history':
        for _ in range(spec['n']):
            history_case(mon, rng)
            included_case(mon, rng)
    else:
        for _ in range(spec['n']):
            program, initial = random_program(rng, rng.randint(2, 4))
            text = '\n'.join(render_program(program))
            if 'systemGlobal' in text:
                continue
            model = model_of(text)
            if not all(isinstance(v, (int, float, str, type(None), bool, list, dict)) for v in initial.values()):
                initial = {}
            model_case(mon, rng, model, tapes_for(rng, 3, 20), initial, 300)
