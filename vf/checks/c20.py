"""C20: diffLines of the shipped include library, executed through execute_script and the command line; the shipped scripts themselves."""
import contextlib
import io
import itertools
import json
import os
import re

import bare_script
from bare_script import bare, execute_script, lint_script, parse_script, validate_script

from vf.models import check_script
from vf.run import Violation
from vf.values import show, snapshot

RULE = ('A case is one pair of inputs of diffLines: all pairs of line lists of length <= 6 (longer ones sampled) over 3 letters up to renaming, under several alphabets (empty, blank, '
        'numeric-looking, keyword-like, long and non-ASCII lines); random pairs to 40 lines made by edits (insert, delete, replace, move, duplicate, swap); the inputs as arrays, LF text, CRLF '
        'text, mixed endings and arrays of multi-line parts. Monitored: the block types and lines, the concatenations of Identical+Remove and Identical+Add, the inputs afterwards. Run through '
        'execute_script with the include fetcher of the command line, and through the command line itself. Also every shipped script: parse, validate, lint, include. Distinct by input pair.')
REQUIRED = ('large_inputs', 'diffs', 'blocks_identical', 'blocks_add', 'blocks_remove', 'identical_inputs', 'empty_inputs', 'text_inputs', 'crlf_inputs', 'mixed_kind_inputs', 'multi_line_parts', 'long_inputs',
            'cli_diffs', 'exhaustive_pairs', 'shipped_scripts', 'shipped_includes', 'interleaved', 'reincludes', 'host_calls')
ASSUMPTIONS = ('The lines of a text are its parts between LF or CRLF (an empty text is one empty line); an array input is the concatenation of the lines of its parts.',)

INCLUDE_DIR = os.path.join(os.path.dirname(bare_script.__file__), 'include')


def shipped():
    return sorted(name for name in os.listdir(INCLUDE_DIR) if name.endswith('.bare'))


def own_fetch(request):
    """Stands in for the command line's include fetcher should it not be there under its name"""
    name = request['url'].rpartition('/')[2]
    with open(os.path.join(INCLUDE_DIR, name), encoding='utf-8', newline='') as file:
        return file.read()


FETCH = getattr(bare, '_fetch_include', own_fetch)
PREFIX = getattr(bare, '_FETCH_INCLUDE_PREFIX', ':bare-include:/')
SCRIPT = '''\
include <diff.bare>
results = arrayNew()
for pair in pairs:
    arrayPush(results, diffLines(arrayGet(pair, 0), arrayGet(pair, 1)))
endfor
return results
'''
TWICE = 'include <diff.bare>\ninclude <diff.bare>\n' + SCRIPT + "include <diff.bare>\n"


# ---------------------------------------------------------------- oracle

def lines_of(value):
    if isinstance(value, list):
        return [line for part in value for line in re.split('\r?\n', part)]
    return re.split('\r?\n', value)


def judge(mon, left, right, result, before):
    if snapshot([left, right]) != before:
        raise Violation('diffLines changes its input', observed=show([left, right]))
    mon.count('diffs')
    left_lines, right_lines = lines_of(left), lines_of(right)
    detail = {'observed': show(result), 'left_lines': left_lines, 'right_lines': right_lines}
    if type(result) is not list:
        raise Violation('diffLines gives no list', **detail)
    for block in result:
        if type(block) is not dict or block.get('type') not in ('Identical', 'Add', 'Remove') or set(block) != {'type', 'lines'} or type(block['lines']) is not list or \
                any(type(line) is not str for line in block['lines']):
            raise Violation('diffLines gives something that is no block', **detail)
        if not block['lines']:
            raise Violation('a block has no lines', **detail)
        mon.count('blocks_' + block['type'].lower())
    for kept, lines, what in (('Remove', left_lines, 'left'), ('Add', right_lines, 'right')):
        if [line for block in result if block['type'] in ('Identical', kept) for line in block['lines']] != lines:
            raise Violation(f'the Identical and {kept} blocks are not the {what} lines', **detail)
    if left_lines == right_lines:
        mon.count('identical_inputs')
        if any(block['type'] != 'Identical' for block in result):
            raise Violation('identical inputs yield an Add or Remove block', **detail)
    kinds = [block['type'] for block in result]
    mon.count('interleaved', kinds.count('Identical') > 1 and 'Add' in kinds and 'Remove' in kinds)
    mon.count('empty_inputs', not left_lines or not right_lines)


def run_batch(mon, pairs, rng):
    """Diff the pairs in one run"""
    pairs = [list(pair) for pair in pairs]
    before = [snapshot(pair) for pair in pairs]
    globals_ = {'pairs': pairs}
    # A run that does not end is stopped: far more statements than comparing every line with every line, again and again, takes
    sizes = [(len(lines_of(pair[0])) + 1, len(lines_of(pair[1])) + 1) for pair in pairs]
    limit = 100000 + sum(40 * left * right * (left + right) for left, right in sizes)
    options = {'globals': globals_, 'maxStatements': limit, 'fetchFn': FETCH, 'systemPrefix': PREFIX, 'logFn': lambda text: None}
    if rng.random() < 0.2:
        options['debug'] = True
    how = rng.random()
    results = error = None
    try:
        if how < 0.15:
            # A host keeps the function and calls it itself
            execute_script(parse_script('include <diff.bare>'), options)
            results = [globals_['diffLines'](list(pair), options) for pair in pairs]
            mon.count('host_calls', len(pairs))
        else:
            mon.count('reincludes', how < 0.3)
            results = execute_script(parse_script(TWICE if how < 0.3 else SCRIPT), options)
    except Exception as exc:  # pylint: disable=broad-except
        error = f'{type(exc).__name__}: {exc}'
    for ix, (pair, snap) in enumerate(zip(pairs, before)):
        with mon.case(lambda pair=pair: {'left': show(pair[0]), 'right': show(pair[1])}, key=repr(pair), nontrivial=lines_of(pair[0]) != lines_of(pair[1])):
            if error is not None or type(results) is not list or len(results) != len(pairs):
                raise Violation(f'the run of diffLines fails: {error or show(results)}', pairs=len(pairs))
            judge(mon, pair[0], pair[1], results[ix], snap)


# ---------------------------------------------------------------- workloads

ALPHABETS = (
    ('a', 'b', 'c'), ('', 'a', ' '), ('1', '1.0', '01'), ('null', 'true', ''), ('a', 'A', 'a '), ('\t', '', 'x'), ('é', 'e\u0301', 'e'), ('x' * 300, 'x' * 299 + 'y', 'x' * 301), ('\r', 'a\r', 'a'),
    ('{', '}', '    }'), ('ab', 'a', 'b'), ('[]', '{}', '0'), ("'", '"', '\\'), ('\u2028', '\x0b', '\x0c'), ('\U0001f600', '\x00', '#')
)


def canonical_pairs(size):
    """All pairs of lists of letters 0-2 of up to the size, up to renaming the letters"""
    lists = [letters for length in range(size + 1) for letters in itertools.product(range(3), repeat=length)]
    for left in lists:
        for right in lists:
            top = -1
            for letter in left + right:
                if letter > top + 1:
                    break
                top = max(top, letter)
            else:
                yield left, right


def present(mon, rng, lines, force=None):
    """Lines as one of the inputs diffLines takes"""
    kind = force or rng.choice(('array', 'array', 'lf', 'crlf', 'mixed', 'parts'))
    if not lines:
        return []
    if any('\r' in line for line in lines):
        return list(lines)
    if kind == 'array':
        return list(lines)
    mon.count('text_inputs')
    if kind == 'lf':
        return '\n'.join(lines)
    if kind == 'crlf':
        mon.count('crlf_inputs')
        return '\r\n'.join(lines)
    if kind == 'mixed':
        text = lines[0]
        for line in lines[1:]:
            text += rng.choice(('\n', '\r\n')) + line
        return text
    mon.count('multi_line_parts')
    out, ix = [], 0
    while ix < len(lines):
        step = rng.randint(1, 4)
        out.append(rng.choice(('\n', '\r\n')).join(lines[ix:ix + step]))
        ix += step
    return out


def large_pair(mon, rng):
    """Long inputs with a few differences"""
    mon.count('large_inputs')
    size = rng.choice((99, 100, 101, 127, 128, 129, 150, 200, 255, 257))
    unique = rng.random() < 0.7
    left = [f'line {ix if unique else rng.randrange(30)}' for ix in range(size)]
    right = list(left)
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        at = rng.choice((0, len(right) - 1, len(right) // 2, rng.randrange(len(right)), 99, 100))
        pick = rng.random()
        if pick < 0.4:
            right[at:at] = [f'new {rng.randrange(5)}' for _ in range(rng.randint(1, 3))]
        elif pick < 0.7:
            del right[at:at + rng.randint(1, 3)]
        elif at < len(right):
            right[at] = 'other'
    if rng.random() < 0.3:
        left, right = right, left
    return present(mon, rng, left), present(mon, rng, right)


def random_pair(mon, rng):
    alphabet = rng.choice(ALPHABETS)
    if rng.random() < 0.5:
        alphabet = alphabet + tuple(f'line {ix}' for ix in range(rng.choice((1, 4, 20, 60))))
    left = [rng.choice(alphabet) for _ in range(rng.choice((0, 1, 2, 5, 8, 12, 20, 30, 40)))]
    right = list(left)
    for _ in range(rng.choice((0, 1, 1, 2, 3, 5, 10))):
        pick = rng.random()
        at = rng.randint(0, len(right))
        if pick < 0.3:
            right[at:at] = [rng.choice(alphabet) for _ in range(rng.randint(1, 4))]
        elif pick < 0.55:
            del right[at:at + rng.randint(1, 4)]
        elif pick < 0.75 and at < len(right):
            right[at] = rng.choice(alphabet)
        elif pick < 0.85:
            block = right[at:at + 4]
            del right[at:at + 4]
            to = rng.randint(0, len(right))
            right[to:to] = block
        elif pick < 0.92:
            right[at:at] = right[max(0, at - 3):at]
        elif pick < 0.96:
            right.reverse()
        else:
            right = [rng.choice(alphabet) for _ in range(rng.randint(0, 20))]
    right = right[:40]
    if rng.random() < 0.3:
        left, right = right, left
    mon.count('long_inputs', len(left) > 15 and len(right) > 15)
    one, two = present(mon, rng, left), present(mon, rng, right)
    mon.count('mixed_kind_inputs', type(one) is not type(two))
    return one, two


def cli_case(mon, rng):
    """The command line: inputs as expressions of -v, the result as JSON"""
    left, right = random_pair(mon, rng)
    args = []
    for name, value in (('left', left), ('right', right)):
        args += ['-v', f'{name}Text', "'" + json.dumps(value).replace('\\', '\\\\').replace("'", "\\'") + "'"]
    with mon.case(lambda: {'left': show(left), 'right': show(right), 'cli': args}, key=('cli', repr((left, right)))):
        stdout = io.StringIO()
        code = None
        with contextlib.redirect_stdout(stdout):
            try:
                bare.main(args + ['-c', "include <diff.bare>\nsystemLog(jsonStringify(diffLines(jsonParse(leftText), jsonParse(rightText))))"])
            except SystemExit as exc:
                code = exc.code
        mon.count('cli_diffs')
        if code != 0:
            raise Violation(f'the command line ends with {code}', observed=stdout.getvalue()[:600])
        try:
            result = json.loads(stdout.getvalue())
        except ValueError:
            raise Violation('the command line prints something that is no JSON text', observed=stdout.getvalue()[:600]) from None
        judge(mon, left, right, result, snapshot([left, right]))


def shipped_cases(mon):
    names = shipped()
    for name in names:
        with mon.case({'script': name}, key=('shipped', name)):
            mon.count('shipped_scripts')
            with open(os.path.join(INCLUDE_DIR, name), encoding='utf-8', newline='') as file:
                text = file.read()
            try:
                model = parse_script(text)
                validate_script(model)
            except Exception as exc:  # pylint: disable=broad-except
                raise Violation(f'{name} does not parse and validate: {type(exc).__name__}: {exc}') from None
            try:
                check_script(model)
            except Exception as exc:  # pylint: disable=broad-except
                raise Violation(f'the model of {name} does not have the published shape: {exc}') from None
            warnings = lint_script(model)
            if warnings:
                raise Violation(f'{name} is not lint-clean', warnings=warnings)
        with mon.case({'include': name}, key=('include', name)):
            # As the command line includes it, with the static analysis of debug mode
            logs = []
            mon.count('shipped_includes')
            try:
                execute_script(parse_script(f'include <{name}>'), {'fetchFn': FETCH, 'systemPrefix': PREFIX, 'logFn': logs.append, 'debug': True, 'globals': {}})
            except Exception as exc:  # pylint: disable=broad-except
                raise Violation(f'the include of {name} fails: {type(exc).__name__}: {exc}') from None
            if any('warning' in line and 'static analysis' in line.lower() for line in logs):
                raise Violation(f'the include of {name} is not lint-clean', logs=logs[:20])
        with mon.case({'static': name}, key=('static', name)):
            stdout = io.StringIO()
            code = None
            with contextlib.redirect_stdout(stdout):
                try:
                    bare.main(['-s', os.path.join(INCLUDE_DIR, name)])
                except SystemExit as exc:
                    code = exc.code
            if code != 0:
                raise Violation(f'the command line\'s static analysis of {name} ends with {code}', observed=stdout.getvalue()[:600])


def plan(tier):
    quick = tier == 'quick'
    parts = 16 if quick else 64
    shards = [('exhaustive', {'part': part, 'parts': parts, 'size': 6, 'rate': 1, 'alphabets': 1 if quick else 6, 'cost': 5}) for part in range(parts)]
    if not quick:
        shards += [('exhaustive', {'part': part, 'parts': parts, 'size': 7, 'rate': 0.3, 'alphabets': 1, 'cost': 5}) for part in range(parts)]
    shards += [('longer', {'n': 1000 if quick else 10000, 'cost': 2}) for _ in range(2 if quick else 32)]
    shards += [('random', {'n': 700 if quick else 6000, 'cost': 4}) for _ in range(8 if quick else 64)]
    shards += [('large', {'n': 12 if quick else 100, 'cost': 4}) for _ in range(2 if quick else 24)]
    shards.append(('cli', {'n': 150 if quick else 1500, 'cost': 2}))
    shards.append(('shipped', {'cost': 3}))
    return shards


def shard(kind, spec, rng, mon):
    if kind == 'shipped':
        shipped_cases(mon)
        return
    if kind == 'cli':
        for _ in range(spec['n']):
            cli_case(mon, rng)
        return
    batch = []

    def add(pair):
        batch.append(pair)
        if len(batch) >= 100:
            flush()

    def flush():
        if batch:
            run_batch(mon, batch, rng)
            batch.clear()

    if kind == 'exhaustive':
        for ix, (left, right) in enumerate(canonical_pairs(spec['size'])):
            if ix % spec['parts'] != spec['part'] or (max(len(left), len(right)) == spec['size'] and rng.random() >= spec['rate']):
                continue
            for turn in range(spec['alphabets']):
                alphabet = ALPHABETS[0] if (ix + turn) % 3 == 0 else rng.choice(ALPHABETS)
                mon.count('exhaustive_pairs')
                one, two = [alphabet[letter] for letter in left], [alphabet[letter] for letter in right]
                if rng.random() < 0.25:
                    one, two = present(mon, rng, one), present(mon, rng, two)
                add((one, two))
    elif kind == 'longer':
        for _ in range(spec['n']):
            alphabet = rng.choice(ALPHABETS)
            add(tuple(present(mon, rng, [rng.choice(alphabet) for _ in range(rng.randint(5, 9))]) for _ in range(2)))
    elif kind == 'large':
        for _ in range(spec['n']):
            add(large_pair(mon, rng))
    else:
        for _ in range(spec['n']):
            add(random_pair(mon, rng))
    flush()
