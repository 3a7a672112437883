"""C18: lint. Oracles: purity and determinism of lint_script, a second label/argument/function census, and execution of the model before and after acting on each warning."""
import copy
import itertools
import json
import os
import re
import signal
import subprocess
import sys

import bare_script
from bare_script import lint_script, parse_script

from vf.checks import c01, c04, c09
from vf.host import Tape, execute, library, next_tape
from vf.lang import BINARY_OPS, binop, call, group, num, render_program, string, unop, var
from vf.models import census, check_script, scopes
from vf.run import Violation
from vf.values import same, show

RULE = ('A case is one model: exhaustive jump-level models of up to 4 (thorough 5) statements over an alphabet of labels, jumps, logging and pointless statements, as a script and as a function '
        'body; random jump-level models with duplicate and dangling labels, duplicate functions and arguments and functions within functions; parsed random structured programs; all '
        'shipped .bare scripts and mutants of them; odd schema-valid models (any text as a name, deep expressions, empty parts). Monitored: the model and the warnings over repeated '
        'calls, copies, JSON round trips and hash seeds; the label and redefinition warnings against a census; the result, logs, error and globals of runs (several decision strings, then '
        'each defined function called on its own) before and after each warned edit and all edits together.')
REQUIRED = ('lints', 'warnings', 'edits', 'edit_runs', 'edit_unused_variable', 'edit_unused_argument', 'edit_unused_label', 'edit_pointless', 'combined_edits', 'unknown_labels', 'unknown_label_raised',
            'redefined_functions', 'redefined_labels', 'duplicate_arguments', 'nested_functions', 'shipped', 'shipped_mutants', 'structured', 'odd_models', 'hash_seeds', 'function_runs', 'census_models', 'wide_models')
ASSUMPTIONS = ('Edits are judged on runs that end within 400 statements and 3 s of CPU.',)

LIMIT = 400
FRESH = 'vfFreshName'
INCLUDES = {'inc.bare': "emit('included')\na = 'inc'\nincFn = 1\n", 'sys.bare': "emit('system')\nlabel:\nb = a"}


# ---------------------------------------------------------------- warnings

def parsed(warning):
    """(kind, function, name, index) of a warning; kind None for others"""
    low = warning.lower()
    quoted = re.findall(r'"([^"]*)"', warning)
    index = re.search(r'\(index (\d+)\)', warning)
    index = int(index.group(1)) if index else None
    name = quoted[0] if quoted else None
    scope = re.search(r'function "([^"]*)"', warning)
    scope = scope.group(1) if scope else None
    if low.startswith('unknown') and 'label' in low:
        return 'unknown_label', scope, name, index
    if low.startswith('unused') and 'label' in low:
        return 'unused_label', scope, name, index
    if low.startswith('redefinition of') and 'label "' in low:
        return 'redefined_label', scope, name, index
    if low.startswith('redefinition of'):
        return 'redefined_function', None, name, index
    if low.startswith('duplicate argument'):
        return 'duplicate_argument', scope, name, index
    if low.startswith('unused variable'):
        return 'unused_variable', scope, name, index
    if low.startswith('unused argument'):
        return 'unused_argument', scope, name, index
    if low.startswith('pointless'):
        return 'pointless', scope, None, index
    return None, scope, name, index


def lint(mon, model):
    """Lint with the purity and determinism monitors"""
    before = json.dumps(model)
    try:
        warnings = lint_script(model)
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(f'lint_script raised {type(exc).__name__}: {exc}') from None
    mon.count('lints')
    if type(warnings) is not list or any(type(warning) is not str for warning in warnings):
        raise Violation('lint_script returned no list of strings', observed=repr(warnings)[:300])
    mon.count('warnings', len(warnings))
    if json.dumps(model) != before:
        raise Violation('lint_script modified the model', before=before[:600], after=json.dumps(model)[:600])
    first = list(warnings)
    warnings.append('not a warning')
    for other in (model, copy.deepcopy(model), json.loads(before)):
        again = lint_script(other)
        if again != first:
            raise Violation('the same model gives other warnings', first=first, again=again)
    if json.dumps(model) != before:
        raise Violation('lint_script modified the model', before=before[:600], after=json.dumps(model)[:600])
    return first


def functions_of(model):
    """Every function definition node, the functions within functions last"""
    out, ix = [], 0
    pending = [model['statements']]
    while ix < len(pending):
        for stmt in pending[ix]:
            if 'function' in stmt:
                out.append(stmt['function'])
                pending.append(stmt['function']['statements'])
        ix += 1
    return out


def repeated(names):
    return {name for name in names if names.count(name) > 1}


def check_census(mon, model, warnings):
    """The label and redefinition warnings are exactly those of the census"""
    expected = {kind: set() for kind in ('unknown_label', 'redefined_label', 'redefined_function', 'duplicate_argument')}
    for name, statements in scopes(model):
        defs, jumps = census(statements)
        expected['unknown_label'] |= {(name, label) for label in jumps if label not in defs}
        expected['redefined_label'] |= {(name, label) for label, count in defs.items() if count > 1}
        expected['redefined_function'] |= {(None, fname) for fname in repeated([stmt['function']['name'] for stmt in statements if 'function' in stmt])}
    for node in functions_of(model):
        expected['duplicate_argument'] |= {(node['name'], arg) for arg in repeated(node.get('args') or [])}
    mon.count('unknown_labels', len(expected['unknown_label']))
    mon.count('redefined_labels', len(expected['redefined_label']))
    mon.count('redefined_functions', len(expected['redefined_function']))
    mon.count('duplicate_arguments', len(expected['duplicate_argument']))
    observed = {kind: set() for kind in expected}
    for warning in warnings:
        kind, scope, name, _ = parsed(warning)
        if kind in observed:
            observed[kind].add((scope, name))
    for kind, wanted in expected.items():
        if observed[kind] != wanted:
            raise Violation(f'the warnings of kind "{kind.replace("_", " ")}" are not exactly the justified ones', missing=sorted(map(str, wanted - observed[kind])),
                            unjustified=sorted(map(str, observed[kind] - wanted)), warnings=warnings[:20])
    return {label for _, label in expected['unknown_label']}


# ---------------------------------------------------------------- edits

def scope_statements(model, scope, accept):
    """The statement lists a warning may be about"""
    if scope is None:
        return [model['statements']]
    return [node['statements'] for node in functions_of(model) if node['name'] == scope and accept(node)]


def assigned(statements, name):
    return [ix for ix, stmt in enumerate(statements) if 'expr' in stmt and stmt['expr'].get('name') == name]


def apply_edit(model, warning):
    """Edit the model in place as the warning suggests; False when the warned place is ambiguous"""
    kind, scope, name, index = parsed(warning)
    nothing = Violation('a warning is about something that is not there', warning=warning)
    if kind == 'unused_variable':
        nodes = [node for node in functions_of(model) if node['name'] == scope and assigned(node['statements'], name)]
        if not nodes:
            raise nothing
        if len(nodes) > 1:
            nodes = [node for node in nodes if assigned(node['statements'], name)[0] == index]
        if len(nodes) != 1:
            return False
        rename(nodes[0], name)
    elif kind == 'unused_argument':
        nodes = [node for node in functions_of(model) if node['name'] == scope and name in (node.get('args') or [])]
        if not nodes:
            raise nothing
        if len(nodes) != 1:
            return False
        nodes[0]['args'] = [FRESH + arg if arg == name else arg for arg in nodes[0]['args']]
        rename(nodes[0], name)
    elif kind == 'unused_label':
        lists = scope_statements(model, scope, lambda node: {'label': name} in node['statements'])
        if not any({'label': name} in statements for statements in lists):
            raise nothing
        if len(lists) != 1:
            return False
        lists[0][:] = [stmt for stmt in lists[0] if stmt != {'label': name}]
    elif kind == 'pointless':
        lists = scope_statements(model, scope, lambda node: True)
        if not any(index < len(statements) for statements in lists):
            raise nothing
        if len(lists) != 1:
            return False
        lists[0][index] = {'label': FRESH + str(index)}      # a deleted statement (keeps the indexes of the other warnings)
    else:
        return None
    return True


def rename(node, name):
    for stmt in node['statements']:
        if 'expr' in stmt and stmt['expr'].get('name') == name:
            stmt['expr']['name'] = FRESH + name


def drop_markers(model):
    for _, statements in scopes(model):
        statements[:] = [stmt for stmt in statements if not ('label' in stmt and stmt['label'].startswith(FRESH))]


# ---------------------------------------------------------------- runs

class TooHeavy(BaseException):
    """The run builds values that double at every step (not an Exception: the code under test must not swallow it)"""


def too_heavy(_signum, _frame):
    raise TooHeavy()


def fetch(request):
    return INCLUDES.get(request['url'])


def observe(model, bits, call_functions):
    """Run the model, then each function it defined: [(kind, value, error, logs, globals)]"""
    tape = Tape(bits)
    logs = []

    def emit(args, _options):
        logs.append(' '.join(show(arg) for arg in args))
        return args[0] if args else None
    circular = []
    circular.append(circular)
    globals_ = {'decide': tape, 'emit': emit, 't': emit, 'circ': circular, 'host': [1, 'two', None]}
    out = execute(model, globals_, max_statements=LIMIT, fetchFn=fetch, systemPrefix='')
    result = [(out.kind, out.value, str(out.error), logs + out.logs, picture(globals_))]
    if call_functions:
        for name in sorted(defined_functions(globals_)):
            tape.used = 0
            logs.clear()
            out = execute({'statements': [{'return': {'expr': call(name, string('p0'), num(1), var('host'), string('p3'))}}]}, globals_, max_statements=LIMIT, fetchFn=fetch, systemPrefix='')
            result.append((out.kind, out.value, str(out.error), list(logs) + out.logs, picture(globals_)))
    return result, tape.used


def defined_functions(globals_):
    return [name for name, value in globals_.items() if callable(value) and name not in ('decide', 'emit', 't') and library().get(name) is not value]


def picture(globals_):
    """A shallow copy of the globals (deep copies of what a later run can change)"""
    return {name: ('function' if callable(value) else copy.deepcopy(value)) for name, value in globals_.items() if not (callable(value) and library().get(name) is value)}


def same_runs(left, right):
    if len(left) != len(right):
        return 'other functions are defined'
    for (kind, value, error, logs, globals_), (kind2, value2, error2, logs2, globals2) in zip(left, right):
        if (kind, error) != (kind2, error2):
            return f'{kind} {error} became {kind2} {error2}'
        if not same(value, value2):
            return f'the result {show(value)} became {show(value2)}'
        if logs != logs2:
            return f'the output {logs[-6:]} became {logs2[-6:]}'
        if globals_.keys() != globals2.keys():
            return f'the globals {sorted(globals_)} became {sorted(globals2)}'
        for name, item in globals_.items():
            if not same(item, globals2[name]):
                return f'the global {name} {show(item)} became {show(globals2[name])}'
    return None


def check_edits(mon, rng, model, warnings, unknown, tapes, max_edits=8):
    """Act on the warnings"""
    edited = []
    for warning in warnings if len(warnings) <= max_edits else rng.sample(warnings, max_edits):
        copied = copy.deepcopy(model)
        done = apply_edit(copied, warning)
        if done:
            drop_markers(copied)
            edited.append((warning, copied))
            mon.count('edits')
            mon.count('edit_' + parsed(warning)[0])
        elif done is False:
            mon.count('ambiguous')
    acted = [warning for warning in warnings if parsed(warning)[0] in ('unused_variable', 'unused_argument', 'unused_label', 'pointless')]
    names = [node['name'] for node in functions_of(model)]
    if len(acted) > 1 and len(set(names)) == len(names):
        copied = copy.deepcopy(model)
        order = [warning for warning in acted if parsed(warning)[0] == 'pointless'] + [warning for warning in acted if parsed(warning)[0] == 'unused_argument'] + \
            [warning for warning in acted if parsed(warning)[0] == 'unused_variable'] + [warning for warning in acted if parsed(warning)[0] == 'unused_label']
        done = 0
        for warning in order:
            try:
                done += apply_edit(copied, warning) is True
            except Violation:
                # An argument that is unused and assigned was renamed already
                if parsed(warning)[0] != 'unused_variable':
                    raise
        if done > 1:
            drop_markers(copied)
            edited.append(('all warnings', copied))
            mon.count('combined_edits')
    bits = ()
    for _ in range(tapes):
        before, used = observe(model, bits, True)
        mon.count('function_runs', len(before) - 1)
        if all('Exceeded' not in run[2] for run in before):
            for kind, _, error, _, _ in before:
                found = re.search(r'Unknown jump label "(.*)"', error)
                if kind == 'runtime' and found:
                    mon.count('unknown_label_raised')
                    if found.group(1) not in unknown:
                        raise Violation('a jump raised "Unknown jump label" that lint does not report', observed=error, warnings=warnings[:20])
            for warning, copied in edited:
                mon.count('edit_runs')
                after, _ = observe(copied, bits, True)
                difference = same_runs(before, after)
                if difference:
                    raise Violation('acting on a warning changes the behaviour', warning=warning, difference=difference, decisions=list(bits))
        else:
            mon.count('endless')
        bits = next_tape(bits, used, 6) if rng.random() < 0.6 else tuple(rng.random() < 0.5 for _ in range(6))
        if bits is None:
            break


C_ENCODER = json.encoder.c_make_encoder


def guarded_edits(mon, *args):
    # A signal cannot interrupt the C encoder: shared values that double at every step have texts of gigabytes
    json.encoder.c_make_encoder = None
    signal.signal(signal.SIGVTALRM, too_heavy)
    signal.setitimer(signal.ITIMER_VIRTUAL, 3)
    try:
        check_edits(mon, *args)
    except TooHeavy:
        mon.count('too_heavy')
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        json.encoder.c_make_encoder = C_ENCODER


def model_case(mon, rng, model, key, tapes, label=None):
    with mon.case({'model': model}, key=key):
        check_script(model)
        if label:
            mon.count(label)
        mon.count('nested_functions', sum(1 for node in functions_of(model) for stmt in node['statements'] if 'function' in stmt))
        warnings = lint(mon, model)
        unknown = check_census(mon, model, warnings)
        guarded_edits(mon, rng, model, warnings, unknown, tapes)


# ---------------------------------------------------------------- workloads

LETTERS = (
    lambda ix: {'label': 'A'},
    lambda ix: {'label': 'B'},
    lambda ix: {'jump': {'label': 'A'}},
    lambda ix: {'jump': {'label': 'B', 'expr': call('decide')}},
    lambda ix: {'expr': {'expr': call('emit', num(ix), var('a'))}},
    lambda ix: {'expr': {'expr': binop('+', var('a'), num(ix))}},
    lambda ix: {'expr': {'name': 'a', 'expr': num(ix)}},
    lambda ix: {'return': {'expr': num(ix)}},
)


def enumerate_case(mon, rng, letters, wrap):
    statements = [LETTERS[letter](ix) for ix, letter in enumerate(letters)]
    if wrap == 1:
        statements = [{'function': {'name': 'f', 'args': ['a'], 'statements': statements}}, {'return': {'expr': call('f', string('x'))}}]
    elif wrap == 2:
        statements = [{'label': 'A'}, {'function': {'name': 'f', 'statements': [{'function': {'name': 'g', 'args': ['b'], 'statements': statements}}, {'expr': {'expr': call('g')}},
                                                                              {'jump': {'label': 'B', 'expr': call('decide')}}]}}, {'expr': {'expr': call('f')}}]
    model_case(mon, rng, {'statements': statements}, ('enum', letters, wrap), 3, 'enumerated')


VARS = ('a', 'b', 'c', 'd')
LABELS = ('A', 'B', 'C', 'a', 'f')
FUNCS = ('f', 'g', 'h', 'k')


class Models:
    """Random jump-level models"""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.unique = rng.random() < 0.7
        self.used = set()

    def expr(self, depth=2):
        rng = self.rng
        pick = rng.random()
        if depth <= 0 or pick < 0.35:
            pick = rng.random()
            if pick < 0.6:
                return var(rng.choice(VARS + ('f', 'circ', 'host', 'null', 'true')))
            if pick < 0.8:
                return num(rng.choice((0, 1, 2, 5)))
            return string(rng.choice(('', 'x', 'a')))
        if pick < 0.52:
            return self.call(depth)
        if pick < 0.8:
            return binop(rng.choice(BINARY_OPS), self.expr(depth - 1), self.expr(depth - 1))
        if pick < 0.9:
            return unop(rng.choice('!-'), self.expr(depth - 1))
        return group(self.expr(depth - 1))

    def call(self, depth):
        rng = self.rng
        name = rng.choice(('emit', 'emit', 'decide', 'arrayNew', 'if', 'systemGlobalGet', 'systemType', 'f', 'g', 'h', 'k', 'a', 'nope', 'arrayPush', 'systemGlobalSet', 'abs'))
        if name in ('systemGlobalGet', 'systemGlobalSet'):
            return call(name, string(rng.choice(VARS)), *([self.expr(0)] if rng.random() < 0.7 else []))
        if name == 'arrayPush':
            return call(name, var('host'), num(self.n))
        args = [self.expr(depth - 1) for _ in range(rng.choice((0, 1, 1, 2)))]
        return {'function': {'name': name}} if not args and rng.random() < 0.5 else call(name, *args)

    def statements(self, size, depth):
        rng = self.rng
        out = []
        for _ in range(size):
            self.n += 1
            pick = rng.random()
            if pick < 0.14:
                out.append({'label': rng.choice(LABELS)})
            elif pick < 0.27:
                jump = {'label': rng.choice(LABELS)}
                if rng.random() < 0.85:
                    jump['expr'] = rng.choice((call('decide'), call('decide'), self.expr(2))) if rng.random() < 0.85 else rng.choice((var('false'), var('true'), var('null'), num(0), num(1), string('')))
                out.append({'jump': jump})
            elif pick < 0.42:
                out.append({'expr': {'expr': call('emit', num(self.n), self.expr(1))}})
            elif pick < 0.6:
                out.append({'expr': {'name': rng.choice(VARS), 'expr': self.expr(2)}})
            elif pick < 0.75:
                out.append({'expr': {'expr': self.expr(3)}})
            elif pick < 0.8:
                out.append({'return': {'expr': self.expr(2)} if rng.random() < 0.7 else {}})
            elif pick < 0.83:
                entry = {'url': rng.choice(('inc.bare', 'sys.bare'))}
                if rng.random() < 0.5:
                    entry['system'] = rng.random() < 0.5
                out.append({'include': {'includes': [entry] * rng.choice((1, 1, 2))}})
            elif depth > 0:
                out.append({'function': self.function(depth - 1)})
                if rng.random() < 0.8:
                    out.append({'expr': {'expr': call('emit', call(out[-1]['function']['name'], num(self.n), string('y')))}})
            else:
                out.append({'expr': {'expr': call('emit', num(self.n))}})
        return out

    def function(self, depth):
        rng = self.rng
        name = rng.choice(FUNCS)
        if self.unique:
            for name in FUNCS + tuple(f'fn{ix}' for ix in range(30)):
                if name not in self.used and rng.random() < 0.6:
                    break
        self.used.add(name)
        node = {'name': name}
        if rng.random() < 0.7:
            node['args'] = [rng.choice(VARS) for _ in range(rng.choice((1, 1, 2, 2, 3, 4)))]
            if rng.random() < 0.2:
                node['lastArgArray'] = rng.random() < 0.7
        if rng.random() < 0.1:
            node['async'] = rng.random() < 0.5
        node['statements'] = self.statements(rng.randint(0, 7), depth)
        return node


def random_case(mon, rng):
    models = Models(rng)
    model = {'statements': models.statements(rng.randint(1, 9), 3)}
    model_case(mon, rng, model, json.dumps(model), 4, 'random_models')


def structured_case(mon, rng):
    pick = rng.random()
    if pick < 0.4:
        program, _ = c01_program(rng)
        text = '\n'.join(render_program(program))
    elif pick < 0.75:
        gen = c04.Gen(rng)
        gen.defined = list(c04.FUNC_NAMES[:3])
        program = [gen.func(name) for name in gen.defined] + [gen.stmt(list(c04.NAMES), False, 1) for _ in range(rng.randint(1, 5))]
        text = '\n'.join(render_program(program))
    else:
        text = c09.Gen(rng).text()[0]
    try:
        model = parse_script(text)
    except Exception as exc:  # pylint: disable=broad-except
        with mon.case({'text': text}, key=text):
            raise Violation(f'parse_script rejected a valid script: {exc}', text=text) from None
        return
    # Sprinkle some statements to warn about
    for _ in range(rng.randint(0, 4)):
        sprinkle(rng, model)
    model_case(mon, rng, model, json.dumps(model), 2, 'structured')


def c01_program(rng):
    result = c01.random_program(rng, 3)
    return result if isinstance(result, tuple) else (result, None)


def sprinkle(rng, model):
    statements = rng.choice(scopes(model))[1]
    labels = [stmt['label'] for stmt in statements if 'label' in stmt] + ['vfLabel']
    stmt = rng.choice((
        {'label': rng.choice(labels)}, {'label': 'vfLabel'}, {'jump': {'label': rng.choice(labels), 'expr': call('decide')}}, {'expr': {'expr': binop('*', var('a'), num(2))}},
        {'expr': {'name': 'vfVar', 'expr': call('emit', string('assigned'))}}, {'expr': {'name': rng.choice('abx'), 'expr': num(1)}}, {'expr': {'expr': var('vfVar')}},
        {'function': {'name': rng.choice('fg'), 'args': ['a', 'b', 'a'], 'statements': [{'expr': {'expr': call('emit', var('b'))}}]}}))
    statements.insert(rng.randint(0, len(statements)), copy.deepcopy(stmt))


SHIPPED_DIR = os.path.join(os.path.dirname(bare_script.__file__), 'include')


def shipped():
    for name in sorted(os.listdir(SHIPPED_DIR)):
        if name.endswith('.bare'):
            with open(os.path.join(SHIPPED_DIR, name), encoding='utf-8') as file:
                yield name, file.read()


def shipped_case(mon, rng, name, text, mutants):
    model = parse_script(text)
    for ix in range(mutants + 1):
        mutant = copy.deepcopy(model)
        if ix:
            for _ in range(rng.randint(1, 6)):
                pick = rng.random()
                statements = rng.choice(scopes(mutant))[1]
                if pick < 0.5 or not statements:
                    sprinkle(rng, mutant)
                elif pick < 0.75:
                    del statements[rng.randrange(len(statements))]
                else:
                    statements.insert(rng.randint(0, len(statements)), copy.deepcopy(rng.choice(statements)))
        with mon.case({'file': name, 'model': mutant if ix else name}, key=(name, json.dumps(mutant))):
            mon.count('shipped_mutants' if ix else 'shipped')
            warnings = lint(mon, mutant)
            unknown = check_census(mon, mutant, warnings)
            guarded_edits(mon, rng, mutant, warnings, unknown, 1, 4)


ODD_NAMES = ('', ' ', '"', "'", 'a b', 'é', '\n', 'function "f"', 'label "A" (index 0)', '__proto__', 'constructor', 'null', '0', 'if', '\x00', 'x' * 300, '{}', '%s', '{0}', '\\')


def odd_case(mon, rng):
    """Schema-valid models a parser never gives"""
    def expr(depth):
        pick = rng.random()
        if depth <= 0 or pick < 0.3:
            return rng.choice(({'number': 1}, {'number': -1.5}, {'number': 1e300}, {'string': ''}, {'string': rng.choice(ODD_NAMES)}, {'variable': rng.choice(ODD_NAMES)}))
        if pick < 0.45:
            return {'group': expr(depth - 1)}
        if pick < 0.6:
            return {'unary': {'op': rng.choice('!-'), 'expr': expr(depth - 1)}}
        if pick < 0.8:
            return {'binary': {'left': expr(depth - 1), 'right': expr(depth - 1), 'op': rng.choice(BINARY_OPS)}}
        if rng.random() < 0.3:
            return {'function': {'name': rng.choice(ODD_NAMES)}}
        return {'function': {'args': [expr(depth - 1) for _ in range(rng.randint(0, 3))], 'name': rng.choice(ODD_NAMES)}}

    def statement(depth):
        pick = rng.random()
        if pick < 0.2:
            return {'label': rng.choice(ODD_NAMES)}
        if pick < 0.35:
            return {'jump': {'label': rng.choice(ODD_NAMES)} if rng.random() < 0.5 else {'expr': expr(3), 'label': rng.choice(ODD_NAMES)}}
        if pick < 0.55:
            return {'expr': {'expr': expr(4)} if rng.random() < 0.5 else {'expr': expr(4), 'name': rng.choice(ODD_NAMES)}}
        if pick < 0.65:
            return {'return': {} if rng.random() < 0.5 else {'expr': expr(3)}}
        if pick < 0.75:
            return {'include': {'includes': [{'url': rng.choice(ODD_NAMES)} for _ in range(rng.randint(1, 3))]}}
        node = {'name': rng.choice(ODD_NAMES), 'statements': [statement(depth - 1) for _ in range(rng.randint(0, 4))] if depth > 0 else []}
        if rng.random() < 0.6:
            node['args'] = [rng.choice(ODD_NAMES) for _ in range(rng.randint(1, 4))]
        for flag in ('async', 'lastArgArray'):
            if rng.random() < 0.2:
                node[flag] = rng.random() < 0.5
        return {'function': node}

    pick = rng.random()
    if pick < 0.9:
        model = {'statements': [statement(3) for _ in range(rng.randint(0, 6))]}
    elif pick < 0.95:
        # Deep expressions and functions
        deep = {'variable': 'a'}
        for ix in range(rng.randint(10, 150)):
            deep = rng.choice(({'group': deep}, {'unary': {'op': '-', 'expr': deep}}, {'binary': {'op': '+', 'left': deep, 'right': {'number': ix}}},
                               {'binary': {'op': '*', 'left': {'number': ix}, 'right': deep}}, {'function': {'name': 'f', 'args': [deep]}}))
        model = {'statements': [{'expr': {'expr': deep}}, {'jump': {'label': 'a', 'expr': deep}}, {'return': {'expr': deep}}]}
    else:
        statements = [{'label': 'x'}]
        for ix in range(rng.randint(10, 150)):
            statements = [{'function': {'name': f'f{ix % 7}', 'args': ['a'], 'statements': statements}}, {'label': 'x'}]
        model = {'statements': statements}
    with mon.case({'model': model}, key=json.dumps(model)):
        check_script(model)
        mon.count('odd_models')
        lint(mon, model)


def census_case(mon, rng):
    """Models with many labels, functions, variables and warnings in one scope"""
    mon.count('census_models')
    size = rng.choice((30, 49, 50, 51, 64, 65, 100, 128, 150, 257, 300))

    def scope(prefix):
        statements = []
        for ix in range(size):
            name = f'{prefix}{ix}'
            pick = rng.random()
            if pick < 0.3:
                statements.append({'jump': {'label': name}} if rng.random() < 0.5 else {'jump': {'expr': {'variable': 'a'}, 'label': name}})
            if 0.15 < pick < 0.5:
                statements.append({'label': name})
                if rng.random() < 0.1:
                    statements.append({'label': name})
            elif 0.5 <= pick < 0.65:
                statements.append({'expr': {'name': name, 'expr': {'number': ix}}})
            elif 0.65 <= pick < 0.75:
                statements.append({'expr': {'expr': {'variable': name}}})
            elif 0.75 <= pick < 0.85:
                statements.append({'expr': {'expr': {'function': {'name': 'f', 'args': [{'variable': name}]}}}})
            elif pick >= 0.85:
                statements.append({'expr': {'name': 'b', 'expr': {'binary': {'op': '+', 'left': {'variable': name}, 'right': {'number': 1}}}}})
        if rng.random() < 0.5:
            rng.shuffle(statements)
        return statements

    style = rng.randrange(4)
    if style == 0:
        statements = scope('g')
    elif style == 1:
        statements = [{'function': {'name': 'f', 'args': ['a'], 'statements': scope('v')}}] + scope('g')[:rng.choice((0, 10))]
    elif style == 2:
        statements = [{'function': {'name': f'f{ix if rng.random() < 0.8 else 0}', 'args': [f'p{n}' for n in range(rng.choice((1, 3, 60)))], 'statements': scope('v')[:3]}} for ix in range(size)]
    else:
        args = [f'p{ix if rng.random() < 0.97 else 0}' for ix in range(size)]
        statements = [{'function': {'name': 'f', 'args': args, 'statements': scope('p')}}]
    model = {'statements': statements}
    with mon.case({'model': model}, key=json.dumps(model)):
        check_script(model)
        check_census(mon, model, lint(mon, model))


def wide_case(mon, rng):
    """Functions whose many variables and arguments are read in one place of one wide or deep expression, or far down"""
    size = rng.choice((12, 33, 41, 65, 66, 101, 130))
    names = [f'v{ix}' for ix in range(size)]
    # Arguments or variables
    count = rng.choice((0, size, size // 2))
    args, assigned_names = names[:count], names[count:]
    if args and rng.random() < 0.5:
        args = args + [rng.choice(args)] if rng.random() < 0.5 else [args[-1]] + args
    used = [name for name in names if rng.random() < 0.95]
    style = rng.randrange(7)
    if style == 0:
        expr = {'function': {'name': 'arrayNew', 'args': [{'variable': name} for name in used]}}
    elif style == 1:
        # A chain to the left or the right
        expr = num(0)
        left = rng.random() < 0.5
        for name in used:
            expr = binop('+', expr, var(name)) if left else binop('+', var(name), expr)
    elif style == 2:
        # Deep nesting of every kind
        expr = num(1)
        for name in used:
            part = binop('||', expr, var(name))
            expr = rng.choice((part, {'group': part}, {'unary': {'op': '!', 'expr': {'group': part}}}, call('arrayNew', part), call('if', part, var(name), num(2))))
    elif style == 3:
        expr = {'function': {'name': 'objectNew', 'args': [arg for name in used for arg in ({'string': name}, {'variable': name})]}}
    else:
        expr = None
    statements = [{'expr': {'name': name, 'expr': num(ix)}} for ix, name in enumerate(assigned_names)]
    if expr is not None:
        end = rng.randrange(4)
        if end == 0:
            statements.append({'return': {'expr': expr}})
        elif end == 1:
            statements += [{'expr': {'expr': call('emit', expr)}}]
        elif end == 2:
            statements += [{'jump': {'label': 'done', 'expr': expr}}, {'return': {'expr': num(1)}}, {'label': 'done'}, {'return': {'expr': num(2)}}]
        else:
            statements += [{'expr': {'name': 'r', 'expr': expr}}, {'return': {'expr': var('r')}}]
    elif style == 4:
        # Each read by a statement of its own
        statements += [{'expr': {'expr': call('emit', var(name))}} for name in used]
    elif style == 5:
        # Each called
        statements = [{'expr': {'name': name, 'expr': var('emit')}} for name in assigned_names] + [{'expr': {'expr': call(name, num(ix))}} for ix, name in enumerate(used) if name not in args]
    else:
        # Each read for the next
        statements += [{'expr': {'name': names[ix + 1], 'expr': binop('+', var(names[ix]), num(1))}} for ix in range(size - 1)] + [{'return': {'expr': var(names[-1])}}]
    values = ', '.join(str(ix) for ix in range(len(args)))
    model = {'statements': [{'function': {'name': 'f', 'args': args or ['unused'], 'statements': statements}}] + [{'expr': {'expr': call('emit', call('f', *[num(int(ix)) for ix in values.split(', ') if ix]))}}]}
    if rng.random() < 0.25:
        # The same at the top level
        model['statements'] = [{'expr': {'name': name, 'expr': num(ix)}} for ix, name in enumerate(args)] + [stmt for stmt in statements if 'return' not in stmt or style > 3 or stmt is statements[-1]]
    model_case(mon, rng, model, json.dumps(model), 1, 'wide_models')


HASH_CODE = 'import json, sys; from bare_script import lint_script; print(json.dumps([lint_script(model) for model in json.load(sys.stdin)]))'


def hash_case(mon, rng, n):
    """The warnings do not depend on the process (its hash seed)"""
    models = []
    for _ in range(n):
        gen = Models(rng)
        models.append({'statements': gen.statements(rng.randint(4, 14), 3)})
    text = json.dumps(models)
    with mon.case({'models': n}, key=('hash', text)):
        first = [lint(mon, model) for model in models]
        for seed in ('0', '1', '2', '77'):
            env = dict(os.environ, PYTHONHASHSEED=seed)
            done = subprocess.run([sys.executable, '-c', HASH_CODE], input=text, env=env, capture_output=True, text=True, timeout=300, check=False)
            if done.returncode:
                raise Violation('lint_script failed in another process', observed=done.stderr[-600:])
            mon.count('hash_seeds')
            for model, ours, theirs in zip(models, first, json.loads(done.stdout)):
                if ours != theirs:
                    raise Violation('the same model gives other warnings in another process', model=model, observed=theirs, expected=ours)


def plan(tier):
    quick = tier == 'quick'
    shards = []
    for part in range(8 if quick else 32):
        shards.append(('enum', {'part': part, 'parts': 8 if quick else 32, 'size': 3 if quick else 5, 'sample': 0.1, 'cost': 3}))
    for _ in range(12 if quick else 64):
        shards.append(('random', {'n': 700 if quick else 8000, 'cost': 4}))
    for _ in range(6 if quick else 32):
        shards.append(('structured', {'n': 250 if quick else 2500, 'cost': 4}))
    shards.append(('shipped', {'n': 6 if quick else 80, 'cost': 5}))
    shards.append(('odd', {'n': 3000 if quick else 60000, 'cost': 2}))
    for _ in range(2 if quick else 16):
        shards.append(('census', {'n': 150 if quick else 2000, 'cost': 2}))
    shards.append(('hash', {'n': 60 if quick else 2000, 'cost': 2}))
    return shards


def shard(kind, spec, rng, mon):
    # Unlimited recursion must reach the statement limit first
    sys.setrecursionlimit(8000)
    if kind == 'enum':
        ix = 0
        for size in range(spec['size'] + 2):
            for letters in itertools.product(range(len(LETTERS)), repeat=size):
                # Sizes above the exhaustive bound are sampled
                if size > spec['size'] and rng.random() > spec['sample']:
                    continue
                for wrap in range(3):
                    ix += 1
                    if ix % spec['parts'] == spec['part']:
                        enumerate_case(mon, rng, letters, wrap)
    elif kind == 'shipped':
        for name, text in shipped():
            shipped_case(mon, rng, name, text, spec['n'])
    elif kind == 'hash':
        hash_case(mon, rng, spec['n'])
    else:
        case = {'random': random_case, 'structured': structured_case, 'odd': odd_case, 'census': census_case}[kind]
        for _ in range(spec['n']):
            case(mon, rng)
            if kind == 'census':
                wide_case(mon, rng)
