"""The published model shape, written down a second time; walking helpers and model generators"""
import re

from vf.lang import BINARY_OPS


class Shape(Exception):
    pass


def _need(cond, what):
    if not cond:
        raise Shape(what)


def _members(node, required, optional, what):
    _need(type(node) is dict, f'{what} is no object')
    for name in required:
        _need(name in node, f'{what} has no member "{name}"')
    for name in node:
        _need(name in required or name in optional, f'{what} has the unknown member "{name}"')


def check_expr(expr):
    _need(type(expr) is dict and len(expr) == 1, f'expression with members {sorted(expr) if isinstance(expr, dict) else expr!r}')
    (key, node), = expr.items()
    if key == 'number':
        _need(type(node) in (int, float), 'number literal is no number')
    elif key in ('string', 'variable'):
        _need(type(node) is str, f'{key} is no string')
    elif key == 'group':
        check_expr(node)
    elif key == 'unary':
        _members(node, ('op', 'expr'), (), 'unary')
        _need(node['op'] in ('!', '-'), f'unary operator {node["op"]!r}')
        check_expr(node['expr'])
    elif key == 'binary':
        _members(node, ('op', 'left', 'right'), (), 'binary')
        _need(node['op'] in BINARY_OPS, f'binary operator {node["op"]!r}')
        check_expr(node['left'])
        check_expr(node['right'])
    elif key == 'function':
        _members(node, ('name',), ('args',), 'function expression')
        _need(type(node['name']) is str, 'function name')
        if 'args' in node:
            _need(type(node['args']) is list, 'function args')
            for arg in node['args']:
                check_expr(arg)
    else:
        raise Shape(f'unknown expression "{key}"')


def check_statements(statements):
    _need(type(statements) is list, 'statements is no array')
    for stmt in statements:
        _need(type(stmt) is dict and len(stmt) == 1, 'statement is no one-member object')
        (key, node), = stmt.items()
        if key == 'expr':
            _members(node, ('expr',), ('name',), 'expr statement')
            _need('name' not in node or type(node['name']) is str, 'assignment name')
            check_expr(node['expr'])
        elif key == 'jump':
            _members(node, ('label',), ('expr',), 'jump')
            _need(type(node['label']) is str, 'jump label')
            if 'expr' in node:
                check_expr(node['expr'])
        elif key == 'return':
            _members(node, (), ('expr',), 'return')
            if 'expr' in node:
                check_expr(node['expr'])
        elif key == 'label':
            _need(type(node) is str, 'label')
        elif key == 'function':
            _members(node, ('name', 'statements'), ('async', 'args', 'lastArgArray'), 'function statement')
            _need(type(node['name']) is str, 'function name')
            for flag in ('async', 'lastArgArray'):
                _need(flag not in node or type(node[flag]) is bool, flag)
            if 'args' in node:
                _need(type(node['args']) is list and node['args'] and all(type(a) is str for a in node['args']), 'function args')
            check_statements(node['statements'])
        elif key == 'include':
            _members(node, ('includes',), (), 'include')
            _need(type(node['includes']) is list and node['includes'], 'includes')
            for inc in node['includes']:
                _members(inc, ('url',), ('system',), 'include entry')
                _need(type(inc['url']) is str and ('system' not in inc or type(inc['system']) is bool), 'include entry')
        else:
            raise Shape(f'unknown statement "{key}"')


def check_script(model):
    _members(model, ('statements',), (), 'script')
    check_statements(model['statements'])


def scopes(model):
    """(name, statements) of every scope: None for the global one"""
    out = [(None, model['statements'])]
    ix = 0
    while ix < len(out):
        for stmt in out[ix][1]:
            if 'function' in stmt:
                out.append((stmt['function']['name'], stmt['function']['statements']))
        ix += 1
    return out


def census(statements):
    """(label -> definitions, label -> jumps) of one scope"""
    defs, jumps = {}, {}
    for stmt in statements:
        if 'label' in stmt:
            defs[stmt['label']] = defs.get(stmt['label'], 0) + 1
        elif 'jump' in stmt:
            label = stmt['jump']['label']
            jumps[label] = jumps.get(label, 0) + 1
    return defs, jumps


LABEL_WARNING = re.compile(r'(?i)\b(unknown|unused|redefinition of)\b.*?\blabel "((?:[^"]|"(?! \(| in ))*)"')


def label_warnings(warnings):
    """(kind, label) of the label warnings"""
    out = []
    for warning in warnings:
        match = LABEL_WARNING.search(warning)
        if match:
            out.append((match.group(1).lower().split(' ')[0], match.group(2)))
    return out
