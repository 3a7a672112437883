"""C01: structured control flow. Differential: execute_script(parse_script(text)) against the big-step reference interpreter."""
import itertools
import re

from vf.host import Tape, execute, model_of, next_tape
from vf.lang import BigStep, RefRuntimeError, StepLimit, Unjudged, binop, call, num, render_program, string, unop, var
from vf.run import Violation
from vf.values import DATES, REGEXES, same, show, text_of, tname

RULE = ('A case is one (program, decision tape) pair. Programs: every chain of up to three (thorough: four, sampled) nested block slots drawn from '
        'if/if-else/else/elif/else-after-elif/while/for/for-index/function bodies with each leaf (log, break, continue, return, conditional '
        'break/continue/return, second loop), at global scope and inside a function, plus random structured programs. The tape drives the '
        'conditions and all tapes up to the bound are enumerated. Non-trivial: the program runs at least one block construct; distinct by '
        '(program text, tape).')
REQUIRED = ('runs', 'log_events', 'branch_while-iteration', 'branch_for-iteration', 'branch_elif', 'branch_else', 'branch_while-break',
            'branch_while-continue', 'branch_for-break', 'branch_for-continue', 'branch_return', 'branch_call', 'rebound_names', 'renamed_programs', 'giant_runs')
ASSUMPTIONS = (
    'The final value of a for loop\'s index variable after the loop is not judged (the property does not define it).',
    'Loops whose body changes the length of the array being walked are not judged.'
)


def log(text):
    return ('expr', call('systemLog', string(text)))


def logv(expr):
    return ('expr', call('systemLog', expr))


COND = call('c')


# Each slot wraps a body; k makes log texts unique
def slot_then(k, body):
    return [log(f'{k}a'), ('if', [(COND, [log(f'{k}t')] + body + [log(f'{k}u')])], None), log(f'{k}z')]


def slot_then_else(k, body):
    return [('if', [(COND, body)], [log(f'{k}e')]), log(f'{k}z')]


def slot_else(k, body):
    return [('if', [(COND, [log(f'{k}t')])], body + [log(f'{k}f')])]


def slot_elif(k, body):
    return [('if', [(COND, [log(f'{k}t')]), (COND, body + [log(f'{k}s')])], None), log(f'{k}z')]


def slot_elif_mid(k, body):
    return [('if', [(COND, [log(f'{k}t')]), (COND, body), (COND, [log(f'{k}3')])], [log(f'{k}e')]), log(f'{k}z')]


def slot_elif_else(k, body):
    return [('if', [(COND, [log(f'{k}t')]), (COND, [log(f'{k}2')])], [log(f'{k}e')] + body), log(f'{k}z')]


def slot_while(k, body):
    return [log(f'{k}a'), ('while', COND, [log(f'{k}i')] + body + [log(f'{k}j')]), log(f'{k}z')]


def slot_while_true(k, body):
    return [('while', var('true'), [log(f'{k}i'), ('if', [(unop('!', COND), [('break',)])], None)] + body + [log(f'{k}j')]), log(f'{k}z')]


def slot_for(k, body):
    return [('for', f'v{k}', None, call('arrayNew', num(1), string('b')), [logv(var(f'v{k}'))] + body + [log(f'{k}j')]),
            logv(var(f'v{k}'))]


def slot_for_index(k, body):
    return [('for', f'v{k}', f'x{k}', call('arrayNew', string('p'), string('q'), string('r')),
             [logv(binop('+', binop('+', var(f'x{k}'), string(':')), var(f'v{k}')))] + body), log(f'{k}z')]


def slot_many_elif(k, body):
    chain = [(COND, [log(f'{k}{n}')]) for n in range(6)]
    return [('if', chain[:5] + [(COND, body)] + chain[5:], [log(f'{k}e')]), log(f'{k}z')]


def slot_after_many(k, body):
    many = []
    for n in range(12):
        many.append(('if', [(binop('==', num(n), num(3)), [log(f'{k}{n}')])], None) if n % 3 else
                    ('for', f'm{k}', None, call('arrayNew', num(n)), [('if', [(binop('>', var(f'm{k}'), num(5)), [('continue',)])], None), log('m')]))
    return many + slot_while(k, body)


def slot_function(k, body):
    return [('func', f'f{k}', ['p'], False, [log(f'{k}i')] + body + [('return', string(f'{k}r'))]),
            logv(call(f'f{k}', num(1))), log(f'{k}z')]


DEEP_SLOTS = [slot_many_elif, slot_after_many]
SLOTS = [slot_then, slot_then_else, slot_else, slot_elif, slot_elif_mid, slot_elif_else, slot_while, slot_while_true, slot_for, slot_for_index,
         slot_function]
LOOPS = {slot_after_many, slot_while, slot_while_true, slot_for, slot_for_index}


def leaves(in_loop):
    out = [
        [log('leaf')],
        [('return', string('R'))],
        [('if', [(COND, [('return', num(7))])], None), log('leaf')],
        [('while', COND, [('if', [(COND, [('break',)])], [('continue',)]), log('no')]), log('leaf')],
        [('for', 'w', None, call('arrayNew', num(5), num(6)), [('if', [(COND, [('continue',)]), (COND, [('break',)])], None), logv(var('w'))])],
    ]
    if in_loop:
        out += [
            [('break',)], [('continue',)], [log('leaf'), ('break',), log('dead')], [('continue',), log('dead')],
            [('if', [(COND, [('break',)])], None), log('leaf')],
            [('if', [(COND, [('continue',)])], None), log('leaf')],
            [('if', [(COND, [('continue',)])], [('break',)])],
            [('if', [(COND, [('continue',)]), (COND, [('break',)])], None), ('while', COND, [log('w2')]), ('if', [(COND, [('continue',)])], None)],
        ]
    return out


def chain_program(slots, leaf, in_function):
    body = leaf
    for ix in range(len(slots) - 1, -1, -1):
        body = slots[ix](chr(ord('A') + ix), body)
    if in_function:
        return [('func', 'main', [], False, body + [log('end')]), logv(call('main')), log('after')]
    return body + [log('end')]


ENTER = {slot_then: [True], slot_then_else: [True], slot_else: [False], slot_elif: [False, True], slot_elif_mid: [False, True], slot_elif_else: [False, False],
         slot_while: [True], slot_while_true: [True], slot_for: [], slot_for_index: []}


def deep_program(rng, depth):
    """A nest of that many blocks, and decisions that lead to its leaf"""
    loops = rng.sample(range(depth), 3)
    slots = [rng.choice((slot_for, slot_for_index)) if ix in loops else rng.choice([slot for slot in SLOTS[:-1] if slot not in (slot_for, slot_for_index)]) for ix in range(depth)]
    if rng.random() < 0.3:
        # Many branches within the innermost loop
        branches = [slot for slot in SLOTS[:-1] if slot not in LOOPS]
        slots = [slot if ix < 4 else rng.choice(branches) for ix, slot in enumerate(slots)]
        slots[3] = rng.choice([slot for slot in SLOTS[:-1] if slot in LOOPS])
    body = rng.choice(leaves(chain_in_loop(slots)))
    for ix in range(depth - 1, -1, -1):
        body = slots[ix](f'd{ix}', body)
    bits = [bit for slot in slots for bit in ENTER[slot]] + [rng.random() < 0.5 for _ in range(rng.randint(0, 6))]
    if rng.random() < 0.5:
        return [('func', 'main', [], False, body + [log('end')]), logv(call('main')), log('after')], bits
    return body + [log('end')], bits


def wide_program(rng, chains):
    """Many small nests one after the other (in functions and outside)"""
    program, body = [], []
    for ix in range(chains):
        slots = [rng.choice(SLOTS[:-1]) for _ in range(rng.randint(1, 3))]
        nest = rng.choice([leaf for leaf in leaves(chain_in_loop(slots)) if leaf[0][0] != 'return'])
        for at in range(len(slots) - 1, -1, -1):
            nest = slots[at](f'{chr(ord("A") + at)}{ix % 40}', nest)
        body += nest
        if rng.random() < 0.02:
            if rng.random() < 0.5:
                program += [('func', f'g{ix}', [], False, body), logv(call(f'g{ix}'))]
            else:
                program += body
            body = []
    return program + body + [log('end')]


def chain_in_loop(slots):
    state = False
    for slot in slots:
        if slot is slot_function:
            state = False
        elif slot in LOOPS:
            state = True
    return state


# ---------------------------------------------------------------- the oracle

def ref_library(logs):
    def array_push(args, _):
        args[0].extend(args[1:])
        return args[0]

    def array_set(args, _):
        if tname(args[0]) == 'array' and 0 <= args[1] < len(args[0]):
            args[0][int(args[1])] = args[2]
            return args[2]
        return None
    return {
        'arraySet': array_set,
        'systemLog': lambda args, _: logs.append(text_of(args[0])),
        'arrayNew': lambda args, _: list(args),
        'arrayLength': lambda args, _: len(args[0]) if tname(args[0]) == 'array' else 0,
        'arrayPush': array_push,
    }


def index_vars(program, out):
    for stmt in program:
        kind = stmt[0]
        if kind == 'for':
            if stmt[2] is not None:
                out.add(stmt[2])
            index_vars(stmt[4], out)
        elif kind == 'while':
            index_vars(stmt[2], out)
        elif kind == 'if':
            for _, body in stmt[1]:
                index_vars(body, out)
            index_vars(stmt[2] or [], out)
        elif kind == 'func':
            index_vars(stmt[4], out)
    return out


def copy_value(value):
    if isinstance(value, list):
        return [copy_value(v) for v in value]
    if isinstance(value, dict):
        return {k: copy_value(v) for k, v in value.items()}
    return value


def reference(program, bits, initial, step_limit):
    logs = []
    library = ref_library(logs)
    globals_ = {key: copy_value(value) for key, value in initial.items()}
    tape = Tape(bits)
    interp_globals = dict(library)
    interp_globals.update(globals_)
    interp_globals['c'] = tape
    library['systemGlobalGet'] = lambda args, _: interp_globals.get(args[0])
    library['systemGlobalSet'] = lambda args, _: interp_globals.__setitem__(args[0], args[1])
    interp_globals['systemGlobalGet'] = library['systemGlobalGet']
    interp_globals['systemGlobalSet'] = library['systemGlobalSet']
    interp = BigStep(interp_globals, None, step_limit)
    try:
        value, error = interp.run(program), None
    except RefRuntimeError as exc:
        value, error = None, str(exc)
    finals = {key: val for key, val in interp_globals.items() if not (key in library and val is library[key])}
    return value, error, logs, finals, tape.used, interp


def observe(model, bits, initial, steps):
    globals_ = {key: copy_value(value) for key, value in initial.items()}
    tape = Tape(bits)
    globals_['c'] = tape
    out = execute(model, globals_, max_statements=steps * 40 + 2000, debug='vary')
    return out, tape.used


def judge(mon, model, program, bits, initial, skip, step_limit=4000):
    """Run both; returns the number of tape positions consumed, None if discarded"""
    try:
        value, error, logs, finals, used, interp = reference(program, bits, initial, step_limit)
    except (StepLimit, Unjudged):
        mon.count('discarded')
        return None
    out, _ = observe(model, bits, initial, interp.steps)
    mon.count('runs')
    mon.count('log_events', len(logs))
    for name, n in interp.branches.items():
        mon.count('branch_' + name, n)
    if out.kind == 'host':
        raise Violation('a host exception escaped', error=repr(out.error))
    if out.logs != logs:
        raise Violation('logged output differs from the structured reading', expected=logs, observed=out.logs, outcome=out.text())
    if error is not None:
        if out.kind != 'runtime' or str(out.error) != error:
            raise Violation('expected a runtime error', expected=error, observed=out.text())
    elif out.kind != 'value':
        raise Violation('the run failed', expected=show(value), observed=out.text())
    elif not same(out.value, value):
        raise Violation('the return value differs from the structured reading', expected=show(value), observed=show(out.value))
    for name, val in finals.items():
        if name in skip or name == 'c':
            continue
        if name not in out.globals:
            raise Violation(f'global "{name}" is missing at the end', expected=show(val))
        if not same(out.globals[name], val):
            raise Violation(f'global "{name}" differs at the end', expected=show(val), observed=show(out.globals[name]))
    lib = ref_library([])
    for name in out.globals:
        if name not in finals and name not in skip and name not in lib and not name.startswith('__bareScript') and \
           name not in LIB_NAMES():
            raise Violation(f'unexpected global "{name}" at the end', observed=show(out.globals[name]))
    return used


_LIB = set()


def LIB_NAMES():
    if not _LIB:
        from vf.host import library
        _LIB.update(library())
    return _LIB


# ---------------------------------------------------------------- random programs

INITIALS = (None, True, False, 0, 3.0, -2, 'abc', '', [1.0, 'x'], {'k': 2.0}, DATES[0], REGEXES[0])
GLOBAL_NAMES = ('a', 'b', 'd', 'e')


class Gen:
    def __init__(self, rng, depth):
        self.rng = rng
        self.max_depth = depth
        self.loops = 0
        self.funcs = []
        self.prefix = []
        self.size = 0

    def expr(self, scope, depth=2):
        rng = self.rng
        pick = rng.random()
        if depth <= 0 or pick < 0.45:
            pick = rng.random()
            if pick < 0.55:
                return var(rng.choice(scope))
            if pick < 0.8:
                return num(rng.choice((0, 1, 2, 3, 10, 0.5)))
            if pick < 0.93:
                return string(rng.choice(('', 's', 'T', "q'")))
            return var(rng.choice(('null', 'true', 'false')))
        if pick < 0.72:
            return binop(rng.choice(('+', '+', '-', '*', '==', '!=', '<', '<=', '>', '>=')), self.expr(scope, depth - 1),
                         self.expr(scope, depth - 1))
        if pick < 0.82:
            return binop(rng.choice(('&&', '||')), self.expr(scope, depth - 1), self.cond(scope, depth - 1))
        if pick < 0.88:
            return unop(rng.choice('!-'), self.expr(scope, depth - 1))
        if pick < 0.9:
            return call('systemGlobalGet', string(rng.choice(GLOBAL_NAMES)))
        if pick < 0.93:
            return call('arrayNew', *[self.expr(scope, 0) for _ in range(rng.randint(0, 3))])
        return call('arrayLength', self.expr(scope, 0))

    def cond(self, scope, depth=1):
        rng = self.rng
        pick = rng.random()
        if pick < 0.7:
            return COND
        if pick < 0.8:
            return unop('!', COND)
        return binop(rng.choice(('&&', '||')), self.expr(scope, depth - 1), COND) if depth > 0 else COND

    def body(self, depth, scope, in_loop, in_func, indexes):
        rng = self.rng
        count = rng.choice((1, 1, 2, 2, 3, 4))
        return [self.stmt(depth, scope, in_loop, in_func, indexes) for _ in range(count)]

    def stmt(self, depth, scope, in_loop, in_func, indexes):
        rng = self.rng
        self.size += 1
        readable = scope + indexes
        if depth <= 0 or self.size > 60 or rng.random() < 0.42:
            pick = rng.random()
            if pick < 0.35:
                return ('assign', rng.choice(scope[:6]), self.expr(readable))
            if pick < 0.6:
                return logv(binop('+', string(f's{self.size} '), self.expr(readable, 1)))
            if pick < 0.72 and self.funcs:
                name, nparams = rng.choice(self.funcs)
                args = [self.expr(readable, 1) for _ in range(max(0, nparams + rng.choice((-1, 0, 0, 1))))]
                target = call(name, *args)
                if in_func:
                    return ('if', [(COND, [('assign', rng.choice(scope[:6]), target)])], None)
                return rng.choice((('expr', target), ('assign', rng.choice(scope[:6]), target), logv(target)))
            if pick < 0.86 and in_loop:
                leaf = rng.choice((('break',), ('continue',)))
                return leaf if rng.random() < 0.25 else ('if', [(self.cond(readable), [leaf])], None)
            if pick < 0.88:
                return ('expr', call('systemGlobalSet', string(rng.choice(GLOBAL_NAMES)), self.expr(readable, 1)))
            if pick < 0.94:
                value = None if rng.random() < 0.2 else self.expr(readable)
                return ('return', value) if rng.random() < 0.2 else ('if', [(self.cond(readable), [('return', value)])], None)
            return ('expr', self.expr(readable))
        kind = rng.choice(('if', 'if', 'if', 'while', 'while', 'for', 'for', 'func', 'counter'))
        if kind == 'if':
            chain = [((self.cond(readable) if rng.random() < 0.7 else self.expr(readable)), self.body(depth - 1, scope, in_loop, in_func, indexes))
                     for _ in range(rng.choice((1, 1, 2, 3)))]
            return ('if', chain, self.body(depth - 1, scope, in_loop, in_func, indexes) if rng.random() < 0.5 else None)
        if kind == 'while':
            cond = COND if rng.random() < 0.7 else binop('&&', COND, self.expr(readable, 1))
            return ('while', cond, self.body(depth - 1, scope, True, in_func, indexes))
        if kind == 'for':
            self.loops += 1
            index = f'ix{self.loops}' if rng.random() < 0.5 else None
            value = rng.choice((f'val{self.loops}', rng.choice(scope[:6])))
            array = call('arrayNew', *[self.expr(readable, 1) for _ in range(rng.choice((0, 1, 2, 3)))])
            inner = scope + ([value] if value not in scope else [])
            pick = rng.random()
            if pick < 0.1:
                array = self.expr(readable, 1)
            elif pick < 0.45:
                # The array is held by a variable the body may assign or change, and may hold arrays to walk in turn
                held = rng.choice(scope[:6])
                if rng.random() < 0.3:
                    array = call('arrayNew', array, call('arrayNew', string('m'), num(self.size)))
                body = self.body(depth - 1, inner, True, in_func, indexes + ([index] if index else []))
                if rng.random() < 0.6:
                    change = rng.choice((('assign', held, rng.choice((num(7), call('arrayNew', string('other'))))), ('assign', held, self.expr(readable, 1)),
                                         ('expr', call('arraySet', var(held), num(rng.choice((0, 1, 2))), string('set'))), ('assign', value, string('gone'))))
                    body.insert(rng.randint(0, len(body)), change)
                if rng.random() < 0.3:
                    self.loops += 1
                    body.insert(rng.randint(0, len(body)), ('for', f'val{self.loops}', None, var(value), [logv(binop('+', string(f'w{self.size} '), var(f'val{self.loops}')))]))
                return ('if', [(var('true'), [('assign', held, array), ('for', value, index, var(held), body)])], None)
            return ('for', value, index, array, self.body(depth - 1, inner, True, in_func, indexes + ([index] if index else [])))
        if kind == 'counter':
            self.loops += 1
            name = f'n{self.loops}'
            body = self.body(depth - 1, scope, True, in_func, indexes + [name])
            bump = ('assign', name, binop('+', var(name), num(1)))
            self.prefix.append(name)
            cond = binop('<', binop('+', var(name), num(0)), num(rng.randint(1, 4)))
            # The counter starts as null: null + 0 is null, and null < n is true; the first bump makes it a number
            first = ('if', [(binop('==', var(name), var('null')), [('assign', name, num(0))])], None)
            return ('while', cond, [first, bump] + body)
        if in_func:
            return logv(self.expr(readable))
        return self.func(depth)

    def func(self, depth):
        rng = self.rng
        name = rng.choice(('fa', 'fb', 'fc'))
        params = list(GLOBAL_NAMES[:1] + ('p', 'q'))[rng.randint(0, 1):rng.randint(1, 3)]
        scope = list(dict.fromkeys(params + ['loc', 'a', 'b', 'd', 'e']))
        self.funcs.append((name, len(params)))
        body = self.body(depth - 1, scope, False, True, [])
        if rng.random() < 0.7:
            body.append(('return', self.expr(scope)))
        return ('func', name, params, bool(params) and rng.random() < 0.2, body, rng.random() < 0.1)


def random_program(rng, depth):
    gen = Gen(rng, depth)
    scope = list(GLOBAL_NAMES)
    program = [gen.func(depth) for _ in range(rng.choice((0, 1, 1, 2)))]
    for _ in range(rng.randint(2, 6)):
        program.append(gen.stmt(depth, scope, False, False, []))
    initial = {name: rng.choice(INITIALS) for name in GLOBAL_NAMES if rng.random() < 0.7}
    return program, initial


# ---------------------------------------------------------------- shards

def plan(tier):
    shards = []
    parts = 22
    for part in range(parts):
        shards.append(('chains', {'part': part, 'parts': parts, 'depth': 3, 'bits': 5 if tier == 'quick' else 8, 'cost': 3,
                                  'tapes': 16 if tier == 'quick' else 200}))
    shards.append(('names', {'cost': 1}))
    for ix in range(3 if tier == 'quick' else 16):
        shards.append(('giant', {'index': ix, 'programs': 24 if tier == 'quick' else 120, 'cost': 4}))
    shards.append(('chains', {'part': 0, 'parts': 1, 'depth': 1, 'bits': 10, 'tapes': 1500, 'cost': 2}))
    for part in range(4):
        shards.append(('chains', {'part': part, 'parts': 4, 'depth': 2, 'bits': 8 if tier == 'quick' else 11,
                                  'tapes': 60 if tier == 'quick' else 2500, 'cost': 2}))
    for ix in range(16 if tier == 'quick' else 96):
        shards.append(('random', {'index': ix, 'programs': 500 if tier == 'quick' else 3000, 'cost': 3}))
    if tier != 'quick':
        for ix in range(48):
            shards.append(('deep', {'index': ix, 'programs': 1500, 'cost': 4}))
    else:
        for ix in range(4):
            shards.append(('deep', {'index': ix, 'programs': 300, 'cost': 3}))
    return shards


def run_chain(mon, rng, slots, leaf, in_function, max_bits, max_tapes):
    program = chain_program(slots, leaf, in_function)
    text = '\n'.join(render_program(program))
    model = None
    skip = index_vars(program, set())
    bits = []
    tapes = 0
    while bits is not None and tapes < max_tapes:
        with mon.case(lambda: {'text': text, 'tape': [int(b) for b in bits]}, key=(text, tuple(bits))):
            if model is None:
                model = model_of(text)
            used = judge(mon, model, program, bits, {}, skip)
        tapes += 1
        if model is None:
            return
        bits = next_tape(bits, used if used is not None else 0, max_bits) if used is not None else None
    # Random longer decision strings beyond the enumerated ones
    for _ in range(2):
        bits = [rng.random() < 0.7 for _ in range(rng.randint(max_bits, 24))]
        with mon.case(lambda: {'text': text, 'tape': [int(b) for b in bits]}, key=(text, tuple(bits))):
            judge(mon, model, program, bits, {}, skip)


NAMES_PROGRAM = '''\
function probe(x):
    for v, ix in x:
        out(ix, v)
    endfor
    while x:
        out('w')
        if ticked():
            x = null
            continue
        elif x:
            break
        endif
    endwhile
    return 'done'
endfunction
for item, at in list:
    if at == 1:
        continue
    elif !item:
        out('falsy')
    else:
        out(at, item)
    endif
endfor
for item in list:
    out(item)
    if item == 'b':
        break
    endif
endfor
while more():
    out('more')
endwhile
jumpif (true) over
out('skipped')
over:
if false:
    out('never')
endif
if null == 5 || true == 5:
    out('no')
endif
return probe(list)
'''
# The recorded finding for-helper-names: exactly these wrong traces
FINDING = {
    ('arrayLength', 'host function'): 'poison-arrayLength 0-a poison-arrayLength a b more more poison-arrayLength 0-a 1-b w',
    ('arrayLength', 'host value'): 'more more w',
    ('arrayLength', 'assigned'): 'more more w',
    ('arrayLength', 'function'): 'poison-arrayLength 0-a poison-arrayLength a b more more poison-arrayLength 0-a 1-b w',
    ('arrayLength', 'local'): '0-a falsy 3-c a b more more w',
    ('arrayGet', 'host function'): 'poison-arrayGet 0-2 poison-arrayGet poison-arrayGet 2-2 poison-arrayGet 3-2 poison-arrayGet 2 poison-arrayGet 2 poison-arrayGet 2 poison-arrayGet 2 more more poison-arrayGet 0-2 poison-arrayGet 1-2 poison-arrayGet 2-2 poison-arrayGet 3-2 w',
    ('arrayGet', 'host value'): 'falsy falsy falsy None None None None more more 0-None 1-None 2-None 3-None w',
    ('arrayGet', 'assigned'): 'falsy falsy falsy None None None None more more 0-None 1-None 2-None 3-None w',
    ('arrayGet', 'function'): 'poison-arrayGet 0-2.0 poison-arrayGet poison-arrayGet 2-2.0 poison-arrayGet 3-2.0 poison-arrayGet 2.0 poison-arrayGet 2.0 poison-arrayGet 2.0 poison-arrayGet 2.0 more more poison-arrayGet 0-2.0 poison-arrayGet 1-2.0 poison-arrayGet 2-2.0 poison-arrayGet 3-2.0 w',
    ('arrayGet', 'local'): '0-a falsy 3-c a b more more 0-None 1-None 2-None 3-None w',
}



def names_run(name, how):
    """Trace of the program with a library name bound to something else"""
    trace = []
    ticks = iter(range(1000))

    def poison(args, _):
        trace.append(('poison', name))
        return 2
    globals_ = {'list': ['a', 'b', 0.0, 'c'], 'out': lambda args, _: trace.append(tuple(args)), 'more': lambda args, _: next(ticks) < 2, 'ticked': lambda args, _: next(ticks) % 3 == 0}
    text = NAMES_PROGRAM
    if how == 'host function':
        globals_[name] = poison
    elif how == 'host value':
        globals_[name] = 5
    elif how == 'assigned':
        text = f'{name} = 5\n{text}'
    elif how == 'function':
        text = f"function {name}(a...):\n    out('poison', '{name}')\n    return 2\nendfunction\n{text}"
    elif how == 'local':
        text = text.replace('function probe(x):\n', f'function probe(x):\n    {name} = 5\n')
    out = execute(model_of(text), globals_, max_statements=5000)
    return trace, (show(out.value) if out.kind == 'value' else out.text()), text


RENAMED = ('probe', 'x', 'v', 'ix', 'item', 'at', 'list', 'over', 'out', 'more', 'ticked', 'join', 'p', 'q', 'r', 'total', 'again')
RENAMED_PREFIX = '''\
function join(p, q, r...):
    total = p + q + arrayLength(r)
    jumpif (total > 4) over
    out('small')
    jump again
    over:
    out('large')
    again:
    return total
endfunction
out(join(1, 2, 3, 4), join(1, 2), join(1, 3, 5))
'''
IDENTIFIERS = ('_', '__', '_9', 'a_b', 'a_1', 'x9', 'X', 'Zz_0', 'camelCase9', 'ifx', 'if_', 'for1', 'endif_', 'returnValue', 'jumper', 'in_', 'functional', 'async1', 'include_', 'breaks', 'continueOn', 'elseX',
               'whileTrue', 'elif2', 'truex', 'nullable', 'zZ', 'A_', 'y_y_y', 'e1', 'E5', 'i', 'I', 'O0', '_if', 'for_in', 'end', 'endwhile1', 'label', 'Y', 'k_' * 30, 'q' * 130, 'maxValue', 'x_0_1', 'B2b')


def renamed_run(names):
    """Trace of the program under other names"""
    trace = []
    ticks = iter(range(1000))
    globals_ = {'list': ['a', 'b', 0.0, 'c'], 'out': lambda args, _: trace.append(tuple(args)), 'more': lambda args, _: next(ticks) < 2, 'ticked': lambda args, _: next(ticks) % 3 == 0}
    globals_ = {names.get(name, name): value for name, value in globals_.items()}
    text = re.sub(r"'[^']*'|\b[A-Za-z_]\w*", lambda match: names.get(match.group(0), match.group(0)), RENAMED_PREFIX + NAMES_PROGRAM)
    out = execute(model_of(text), globals_, max_statements=5000)
    return trace, (show(out.value) if out.kind == 'value' else out.text()), text


def renamed_shard(mon, rng):
    """Names do not matter"""
    expected, value, _ = renamed_run({})
    for _ in range(400):
        chosen = rng.sample(RENAMED, rng.choice((1, 3, len(RENAMED))))
        names = dict(zip(chosen, rng.sample(IDENTIFIERS, len(chosen))))
        with mon.case({'names': names}, key=('renamed', repr(sorted(names.items())))):
            trace, observed, text = renamed_run(names)
            mon.count('renamed_programs')
            if (trace, observed) != (expected, value):
                raise Violation('control flow depends on the names chosen', text=text, observed=[show(item) for item in trace], result=observed, expected=[show(item) for item in expected], expected_result=value)


def names_shard(mon):
    """Control flow does not go through the library names a script or its host may bind to something else"""
    expected, value, _ = names_run(None, None)
    for name in sorted(LIB_NAMES()) + ['null', 'true', 'false']:
        for how in ('host function', 'host value', 'assigned', 'function', 'local'):
            with mon.case({'library name': name, 'bound by': how}, key=('names', name, how)):
                trace, observed, text = names_run(name, how)
                mon.count('rebound_names')
                if (trace, observed) != (expected, value):
                    known = 'for-helper-names' if observed == value and FINDING.get((name, how)) == ' '.join('-'.join(map(str, item)) for item in trace) else None
                    raise Violation('control flow depends on what a library name is bound to', known, text=text, observed=[show(item) for item in trace], result=observed,
                                    expected=[show(item) for item in expected], expected_result=value)


def shard(kind, spec, rng, mon):
    if kind == 'names':
        names_shard(mon)
        renamed_shard(mon, rng)
    elif kind == 'chains':
        chains = list(itertools.product(SLOTS, repeat=spec['depth']))
        for ix, slots in enumerate(chains):
            if ix % spec['parts'] != spec['part']:
                continue
            functions = [s for s in slots if s is slot_function]
            for in_function in (False, True):
                if functions and (in_function or len(functions) > 1):
                    continue    # function definitions do not nest in the language
                for leaf in leaves(chain_in_loop(slots)):
                    run_chain(mon, rng, slots, leaf, in_function, spec['bits'], spec['tapes'])
            mon.count('chains')
    elif kind == 'giant':
        for ix in range(spec['programs']):
            if ix % 4:
                program, bits = deep_program(rng, rng.choice((25, 50, 80, 120)))
                tapes = [bits, bits[:rng.randint(0, len(bits))], [not bit if rng.random() < 0.02 else bit for bit in bits]]
                mon.count('giant_nests')
            else:
                program = wide_program(rng, rng.choice((150, 600, 1200)))
                tapes = [[rng.random() < 0.6 for _ in range(rng.randint(0, 6000))] for _ in range(2)]
                mon.count('giant_rows')
            text = '\n'.join(render_program(program))
            skip = index_vars(program, set())
            model = None
            for bits in tapes:
                with mon.case(lambda: {'text': text, 'tape': [int(bit) for bit in bits]}, key=(text, tuple(bits))):
                    if model is None:
                        model = model_of(text)
                    if judge(mon, model, program, bits, {}, skip, 60000) is not None:
                        mon.count('giant_runs')
    elif kind == 'deep':
        for _ in range(spec['programs']):
            depth = rng.randint(4, 6)
            slots = [rng.choice(SLOTS[:-1] + DEEP_SLOTS) for _ in range(depth)]
            in_function = rng.random() < 0.5
            if not in_function and rng.random() < 0.3:
                slots[rng.randrange(depth)] = slot_function
            leaf = rng.choice(leaves(chain_in_loop(slots)))
            run_chain(mon, rng, slots, leaf, in_function, 6, 12)
    else:
        for _ in range(spec['programs']):
            program, initial = random_program(rng, rng.randint(2, 5))
            text = '\n'.join(render_program(program))
            skip = index_vars(program, set())
            model = None
            for _ in range(4):
                bits = [rng.random() < 0.6 for _ in range(rng.randint(0, 40))]
                with mon.case(lambda: {'text': text, 'tape': [int(b) for b in bits], 'globals': {k: show(v) for k, v in initial.items()}},
                              key=(text, tuple(bits))):
                    if model is None:
                        model = model_of(text)
                    judge(mon, model, program, bits, initial, skip, 1500)
