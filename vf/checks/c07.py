"""C07: lowered code is well formed. Oracle: an independent schema walk, the label/jump census of every scope, lint, and execution."""
import glob
import itertools
import os
import re

from bare_script import BareScriptParserError, lint_script, parse_script, validate_script

from vf.checks.c01 import COND, DEEP_SLOTS, SLOTS, chain_in_loop, chain_program, deep_program, leaves, log, random_program, slot_function, wide_program
from vf.checks.c06 import base_program, judged, mutate
from vf.host import Tape, execute, model_of
from vf.lang import call, num, render_program, var
from vf.models import Shape, census, check_script, label_warnings, scopes
from vf.run import Violation
from vf.scriptparse import ScriptReject, accept
from vf.values import snapshot

RULE = ('A case is one script text: every chain of nested block slots (quick: depth 3, thorough: depth 4) with each leaf, at global scope and inside a '
        'function; every pair of sibling blocks; random structured programs with user labels and jumps mixed in; mutated programs the parser still '
        'accepts. Non-trivial: the text has at least one block; distinct by text.')
REQUIRED = ('models', 'scopes', 'function_scopes', 'emitted_labels', 'emitted_jumps', 'lints', 'executions', 'user_labels', 'giant_scripts')
ASSUMPTIONS = ('User-written labels and jumps are taken from the source text by the independent line scanner and exempted from the census.',)

INCLUDES = os.path.join(os.path.realpath(os.environ.get('VF_REPO', '/repo')), 'src', 'bare_script', 'include')


def user_names(text):
    """Labels and jump targets written in the source"""
    labels, targets = set(), set()
    for line in accept(text):
        if line.kind == 'label':
            labels.add(line.parts)
        elif line.kind == 'jump':
            targets.add(line.parts[0])
    return labels, targets


def judge(mon, text, model, user=(frozenset(), frozenset())):
    mon.count('models')
    try:
        check_script(model)
    except Shape as exc:
        raise Violation(f'the model does not have the published shape: {exc}', model=model) from None
    before = snapshot(model)
    try:
        validated = validate_script(model)
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(f'the model does not validate: {type(exc).__name__}: {exc}', model=model) from None
    if validated != model or snapshot(model) != before:
        raise Violation('validation changes the model', model=model)
    structured = not (user[0] or user[1])
    mon.count('user_labels', len(user[0] | user[1]))
    for name, statements in scopes(model):
        mon.count('scopes')
        if name is not None:
            mon.count('function_scopes')
        defs, jumps = census(statements)
        for label, n in jumps.items():
            if label in user[1]:
                continue
            mon.count('emitted_jumps', n)
            if defs.get(label, 0) != 1:
                raise Violation(f'an emitted jump targets the label "{label}" that is defined {defs.get(label, 0)} times in its scope',
                                scope=name, statements=statements)
        for label, n in defs.items():
            if label in user[0]:
                continue
            mon.count('emitted_labels', n)
            if label not in jumps:
                raise Violation(f'the emitted label "{label}" is the target of no jump', scope=name, statements=statements)
            if n != 1:
                raise Violation(f'the emitted label "{label}" is defined {n} times', scope=name, statements=statements)
    warnings = lint_script(model)
    mon.count('lints')
    for kind, label in label_warnings(warnings):
        if structured or label not in user[0] | user[1]:
            raise Violation(f'lint reports a label the user did not write: {kind} label "{label}"', warnings=warnings)
    return structured


def run(mon, text, model, bits, user_targets=frozenset()):
    out = execute(model, {'c': Tape(bits)}, 4000)
    mon.count('executions')
    if out.kind == 'runtime' and 'Unknown jump label' in str(out.error):
        match = re.search(r'label "(.*)"', str(out.error))
        if match is None or match.group(1) not in user_targets:
            raise Violation(f'structured code raised {out.error}', text=text)


def text_case(mon, rng, text, runs=1):
    with mon.case(lambda: {'text': text}, key=text):
        model = model_of(text)
        judge(mon, text, model)
        for _ in range(runs):
            run(mon, text, model, [rng.random() < 0.6 for _ in range(rng.randint(0, 12))])


def mutant_case(mon, rng):
    lines = base_program(rng)
    blocks = [ix for ix, line in enumerate(lines) if re.match(r'\s*(if|elif|else|while|for|function|end|break|continue)', line)]
    if rng.random() < 0.5:
        lines = mutate(rng, lines)
    for _ in range(rng.randint(0, 2)):
        if blocks:
            ix = min(rng.choice(blocks), len(lines))
            lines.insert(ix, rng.choice(('lab1:', 'lab2:', 'jump lab1', 'jumpif (c()) lab2', 'break', 'continue', 'else:', 'if c():\n  continue\nendif',
                                         'while c():\nendwhile', 'for q in x:\nendfor', 'if c():\nendif', 'if c():\nelse:\nendif')))
    text = '\n'.join(lines)
    if not judged(text) or '__bareScript' in text:
        return
    try:
        user = user_names(text)
    except ScriptReject:
        return
    with mon.case(lambda: {'text': text}, key=text):
        try:
            model = parse_script(text)
        except BareScriptParserError:
            return      # C06 judges acceptance
        judge(mon, text, model, user)
        run(mon, text, model, [rng.random() < 0.6 for _ in range(rng.randint(0, 12))], user[1])


def siblings():
    """Every ordered pair of sibling blocks, each with a break/continue leaf where it has a loop, in three surroundings"""
    for first, second in itertools.product(SLOTS, repeat=2):
        for leaf_first in leaves(chain_in_loop([first])):
            for leaf_second in (leaves(chain_in_loop([second]))[-3:] or [[log('x')]]):
                if first is slot_function and second is slot_function:
                    continue
                body = first('A', leaf_first) + second('B', leaf_second)
                yield body
                yield [('while', COND, body + [('if', [(COND, [('continue',)])], None)])]
                if slot_function not in (first, second):
                    yield [('func', 'main', [], False, body), ('expr', call('main'))] + second('C', leaf_second)
                    yield first('C', leaf_first) + [('func', 'm', [], False, [('for', 'z', 'zi', var('arr'), body + [('continue',)])]),
                                                    ('func', 'n', [], False, body), ('expr', call('m', num(1)))]


def plan(tier):
    quick = tier == 'quick'
    shards = []
    parts = 22
    for part in range(parts):
        shards.append(('chains', {'part': part, 'parts': parts, 'depth': 3, 'sample': 1, 'cost': 4}))
    if not quick:
        for part in range(64):
            shards.append(('chains', {'part': part, 'parts': 64, 'depth': 4, 'sample': 1, 'cost': 8}))
    else:
        for part in range(8):
            shards.append(('chains', {'part': part, 'parts': 8, 'depth': 4, 'sample': 0.01, 'cost': 3}))
    for part in range(8):
        shards.append(('siblings', {'part': part, 'parts': 8, 'cost': 3}))
    for ix in range(16 if quick else 96):
        shards.append(('random', {'index': ix, 'n': 300 if quick else 3000, 'cost': 3}))
        shards.append(('mutants', {'index': ix, 'n': 500 if quick else 5000, 'cost': 3}))
    for ix in range(6 if quick else 16):
        shards.append(('giant', {'index': ix, 'n': 3 if quick else 40, 'cost': 5}))
    shards.append(('shipped', {'cost': 1}))
    return shards


def shard(kind, spec, rng, mon):
    if kind == 'chains':
        for ix, slots in enumerate(itertools.product(SLOTS, repeat=spec['depth'])):
            if ix % spec['parts'] != spec['part']:
                continue
            functions = [s for s in slots if s is slot_function]
            for in_function in (False, True):
                if functions and (in_function or len(functions) > 1):
                    continue
                for leaf in leaves(chain_in_loop(slots)):
                    if spec['sample'] == 1 or rng.random() < spec['sample']:
                        text_case(mon, rng, '\n'.join(render_program(chain_program(slots, leaf, in_function))))
    elif kind == 'siblings':
        for ix, body in enumerate(siblings()):
            if ix % spec['parts'] == spec['part']:
                text_case(mon, rng, '\n'.join(render_program(body)), 2)
    elif kind == 'random':
        for ix in range(spec['n']):
            if ix % 4 == 0:
                slots = [rng.choice(SLOTS[:-1] + DEEP_SLOTS) for _ in range(rng.randint(4, 8))]
                if rng.random() < 0.4:
                    slots[rng.randrange(len(slots))] = slot_function
                program = chain_program(slots, rng.choice(leaves(chain_in_loop(slots))), rng.random() < 0.4 and slot_function not in slots)
            else:
                program, _ = random_program(rng, rng.randint(2, 6))
            text_case(mon, rng, '\n'.join(render_program(program)), 2)
    elif kind == 'giant':
        for ix in range(spec['n']):
            program = wide_program(rng, rng.choice((300, 1000, 2500))) if ix % 2 else deep_program(rng, rng.choice((30, 70, 150)))[0]
            mon.count('giant_scripts')
            text_case(mon, rng, '\n'.join(render_program(program)))
    elif kind == 'mutants':
        for _ in range(spec['n']):
            mutant_case(mon, rng)
    else:
        for path in sorted(glob.glob(os.path.join(INCLUDES, '*.bare'))):
            with open(path, encoding='utf-8') as fh:
                text = fh.read()
            with mon.case({'path': os.path.basename(path)}):
                judge(mon, text, parse_script(text), user_names(text))
