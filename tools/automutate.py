#!/usr/bin/env python3
"""Development tool: generic mutants of /repo/src/bare_script that still pass the tests, and which checks catch them.

  automutate.py tests FILE...        -> /tmp/mut/survivors.jsonl (mutants the tests do not catch)
  automutate.py checks [BEGIN END]   -> /tmp/mut/results.jsonl (checks that catch each survivor)
Works on scratch copies only.
"""
import ast
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys

REPO = '/repo'
WORK = '/tmp/mut'
PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def segments(path):
    """(begin, end, replacement, what) of every generic mutation of a Python file"""
    with open(path, encoding='utf-8') as file:
        source = file.read()
    lines = source.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    data = source.encode()

    def span(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    def text(node):
        begin, end = span(node)
        return data[begin:end].decode()
    tree = ast.parse(source)
    doc = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.Module, ast.ClassDef)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            doc.add(node.body[0])
            doc.add(node.body[0].value)
    out = []

    def add(node, new, what):
        begin, end = span(node)
        if data[begin:end].decode() != new:
            out.append((begin, end, new, what, node.lineno))
    compare = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
    arith = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '*', ast.FloorDiv: '/', ast.Pow: '*'}
    for node in ast.walk(tree):
        if node in doc:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            add(node, f'{text(node.left)} {compare[type(node.ops[0])]} {text(node.comparators[0])}', 'compare')
            if isinstance(node.ops[0], (ast.Lt, ast.Gt)):
                add(node, f'{text(node.left)} {">" if isinstance(node.ops[0], ast.Lt) else "<"} {text(node.comparators[0])}', 'compare flip')
        elif isinstance(node, ast.Compare):
            for ix, op in enumerate(node.ops):
                parts = [node.left] + node.comparators
                new = text(parts[0])
                for jx, other in enumerate(node.ops):
                    symbol = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}[type(other)]
                    new += f' {compare[type(op)] if ix == jx else symbol} {text(parts[jx + 1])}'
                add(node, new, 'compare chain')
        elif isinstance(node, ast.BoolOp):
            old, new = (' and ', ' or ') if isinstance(node.op, ast.And) else (' or ', ' and ')
            add(node, new.join(f'({text(value)})' for value in node.values), 'boolop')
            for ix in range(len(node.values)):
                add(node, '(' + old.join(f'({text(value)})' for jx, value in enumerate(node.values) if jx != ix) + ')', 'drop operand')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(node, text(node.operand), 'drop not')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            add(node, text(node.operand), 'drop minus')
        elif isinstance(node, ast.BinOp) and type(node.op) in arith:
            add(node, f'({text(node.left)}) {arith[type(node.op)]} ({text(node.right)})', 'arith')
            if not isinstance(node.op, ast.Mod):
                add(node, text(node.left), 'left only')
        elif isinstance(node, ast.Constant):
            if node.value is True or node.value is False:
                add(node, str(not node.value), 'bool')
            elif isinstance(node.value, (int, float)):
                add(node, repr(node.value + 1), '+1')
                add(node, repr(node.value - 1), '-1')
            elif isinstance(node.value, str) and node.lineno == node.end_lineno and text(node)[0] == 'r':
                body = text(node)
                for match in re.finditer(r'\*|\+|\?|\^|\$|\\s|\\b', body):
                    swap = {'*': '+', '+': '*', '?': '', '^': '', '$': '', '\\s': ' ', '\\b': ''}[match.group()]
                    add(node, body[:match.start()] + swap + body[match.end():], 'regex')
            elif isinstance(node.value, str) and node.lineno == node.end_lineno and node.value and text(node)[0] == "'":
                add(node, repr(node.value + 'Z'), 'string')
        elif isinstance(node, (ast.If, ast.While)):
            add(node.test, 'True' if isinstance(node, ast.If) else 'False', 'cond true')
            add(node.test, 'False', 'cond false')
        elif isinstance(node, ast.IfExp):
            add(node, f'({text(node.body)})', 'then')
            add(node, f'({text(node.orelse)})', 'else')
        elif isinstance(node, ast.Return) and node.value is not None:
            add(node, 'return None', 'return none')
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)):
            add(node, 'pass', 'drop statement')
        elif isinstance(node, ast.Break):
            add(node, 'continue', 'break')
        elif isinstance(node, ast.Continue):
            add(node, 'pass', 'continue')
        if isinstance(node, ast.Call):
            if len(node.args) >= 2 and not any(isinstance(arg, ast.Starred) for arg in node.args):
                begin, end = span(node.args[0])
                first, second = text(node.args[0]), text(node.args[1])
                b2, e2 = span(node.args[1])
                out.append((begin, e2, second + data[end:b2].decode() + first, 'swap args', node.lineno))
                last = node.args[-1]
                before = node.args[-2]
                if not node.keywords:
                    out.append((span(before)[1], span(last)[1], '', 'drop arg', node.lineno))
            for keyword in node.keywords:
                if isinstance(keyword.value, ast.Constant) and isinstance(keyword.value.value, bool):
                    pass
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            for name in ('lower', 'upper'):
                bound = getattr(node.slice, name)
                if bound is not None:
                    add(bound, f'({text(bound)}) + 1', 'slice +1')
                    add(bound, f'({text(bound)}) - 1', 'slice -1')
        if isinstance(node, ast.ExceptHandler) and node.type is not None:
            add(node.type, 'ZeroDivisionError', 'except')
    unique = {}
    for begin, end, new, what, line in out:
        unique.setdefault((begin, end, new), (begin, end, new, what, line))
    return data, list(unique.values())


def mutated(data, mutant):
    return data[:mutant['begin']] + mutant['new'].encode() + data[mutant['end']:]


def copy_dir(slot):
    path = f'{WORK}/copy{slot}'
    if os.path.isdir(path):
        shutil.rmtree(path)
    shutil.copytree(REPO, path, ignore=shutil.ignore_patterns('.git', 'build', '__pycache__', 'node_modules'))
    return path


def env_for(path):
    return {**os.environ, 'PYTHONPATH': f'{path}/src', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'TZ': 'UTC', 'LANG': 'C.UTF-8', 'PYTEST_DISABLE_PLUGIN_AUTOLOAD': '1'}


def tests_pass(path):
    try:
        done = subprocess.run(['timeout', '-k', '2', '60', PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'pytest_timeout', '--timeout=10', 'src/tests'], cwd=path, env=env_for(path),
                              capture_output=True, text=True, check=False)
    except subprocess.SubprocessError:
        return False
    return done.returncode == 0


def test_slot(slot, jobs):
    path = copy_dir(slot)
    out = []
    for mutant in jobs:
        target = f"{path}/src/bare_script/{mutant['file']}"
        with open(target, 'rb') as file:
            data = file.read()
        new = mutated(data, mutant)
        try:
            compile(new, target, 'exec')
        except SyntaxError:
            continue
        with open(target, 'wb') as file:
            file.write(new)
        ok = tests_pass(path)
        with open(target, 'wb') as file:
            file.write(data)
        if ok:
            out.append(mutant)
    shutil.rmtree(path)
    return out


def main_tests(files):
    os.makedirs(WORK, exist_ok=True)
    jobs = []
    for name in files:
        data, found = segments(f'{REPO}/src/bare_script/{name}')
        for begin, end, new, what, line in found:
            jobs.append({'file': name, 'begin': begin, 'end': end, 'new': new, 'what': what, 'line': line, 'old': data[begin:end].decode()})
    random.Random(7).shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    survivors = []
    with concurrent.futures.ProcessPoolExecutor(8) as pool:
        for found in pool.map(test_slot, range(8), [jobs[ix::8] for ix in range(8)]):
            survivors += found
    survivors.sort(key=lambda mutant: (mutant['file'], mutant['begin']))
    with open(f'{WORK}/survivors.jsonl', 'a', encoding='utf-8') as file:
        for mutant in survivors:
            file.write(json.dumps(mutant) + '\n')
    print(len(survivors), 'survive the tests')


ORDER = {
    'parser.py': 'C02 C06 C10 C07 C01 C17 C13'.split(), 'runtime.py': 'C01 C03 C04 C05 C08 C09 C17 C11'.split(), 'value.py': 'C13 C12 C14 C15 C16 C11 C03 C19'.split(),
    'data.py': 'C19 C09 C05 C11'.split(), 'model.py': 'C18 C07'.split(), 'options.py': 'C17'.split(), 'bare.py': 'C17'.split(), 'library.py': 'C15 C14 C16 C11 C05 C19 C12 C13 C03 C09'.split(),
}
LIBRARY = ((400, 'C15 C11 C09 C12'), (520, 'C19 C09 C12 C05'), (760, 'C16'), (800, 'C14 C12'), (1060, 'C03 C12 C11'), (1130, 'C13 C12'), (1300, 'C15'), (1430, 'C15 C05'),
           (1490, 'C05'), (1740, 'C15 C12 C13'), (9999, 'C15 C11 C05 C03 C04'))
ALL = [f'C{ix:02d}' for ix in range(1, 21)]


def order_of(mutant):
    if mutant['file'] == 'library.py':
        return next(order.split() for line, order in LIBRARY if mutant['line'] < line)
    if mutant['file'] == 'parser.py' and mutant['what'] == 'regex':
        return 'C02 C10 C06 C13'.split()
    return ORDER[mutant['file']]


def main_checks(begin, end):
    with open(f'{WORK}/survivors.jsonl', encoding='utf-8') as file:
        mutants = [json.loads(line) for line in file]
    path = f'{WORK}/checked{begin}'
    for ix, mutant in enumerate(mutants[begin:end], begin):
        if mutant['file'] == 'library.py' and mutant['what'] == 'string' or str(ix) in os.environ.get('SKIP', '').split():
            continue
        if os.path.isdir(path):
            shutil.rmtree(path)
        shutil.copytree(REPO, path, ignore=shutil.ignore_patterns('.git', 'build', '__pycache__', 'node_modules'))
        target = f"{path}/src/bare_script/{mutant['file']}"
        with open(target, 'rb') as file:
            data = file.read()
        with open(target, 'wb') as file:
            file.write(mutated(data, mutant))
        order = order_of(mutant)
        if os.environ.get('ALL'):
            order = order + [prop for prop in ALL if prop not in order]
        caught = None
        for prop in order:
            done = subprocess.run(['timeout', '400', './check', prop, 'quick'], cwd=VERIF, env={**os.environ, 'VF_REPO': path, 'VF_EVIDENCE': f'{WORK}/evidence'}, capture_output=True, text=True, check=False)
            if done.returncode == 1:
                caught = prop
                break
            if done.returncode != 0:
                caught = f'{prop} rc={done.returncode}'
                break
        mutant['caught'] = caught
        mutant['ix'] = ix
        with open(f'{WORK}/results.jsonl', 'a', encoding='utf-8') as file:
            file.write(json.dumps(mutant) + '\n')
        print(ix, mutant['file'], mutant['line'], mutant['what'], repr(mutant['old'][:60]), '->', repr(mutant['new'][:60]), caught, flush=True)
    if os.path.isdir(path):
        shutil.rmtree(path)


if __name__ == '__main__':
    if sys.argv[1] == 'tests':
        main_tests(sys.argv[2:])
    else:
        main_checks(int(sys.argv[2]) if len(sys.argv) > 2 else 0, int(sys.argv[3]) if len(sys.argv) > 3 else None)
