"""The language, written down a second time: expression evaluation and structured (big-step) execution.

Expressions are the public expression model (dicts). Structured programs are lists of tuples:
  ('assign', name, expr) ('expr', expr) ('if', [(cond, body), ...], else_body|None) ('while', cond, body)
  ('for', value_name, index_name|None, array_expr, body) ('break',) ('continue',) ('return', expr|None)
  ('func', name, [params]|None, last_array, body) ('label', name) ('jump', name, expr|None) ('include', url, system)
"""
import datetime
import math

from vf.values import NoText, compare, heavy, is_number, norm_dt, text_of, tname, truthy


class RefRuntimeError(Exception):
    """The reference says: BareScriptRuntimeError"""


class StepLimit(Exception):
    """The reference ran out of its own step budget (the case is discarded)"""


class Unjudged(Exception):
    """The reference does not define this (the case is discarded)"""


# ---------------------------------------------------------------- expression constructors

def num(x):
    return {'number': float(x)}


def string(s):
    return {'string': s}


def var(n):
    return {'variable': n}


def call(n, *args):
    return {'function': {'name': n, 'args': list(args)}}


def binop(op, left, right):
    return {'binary': {'op': op, 'left': left, 'right': right}}


def unop(op, e):
    return {'unary': {'op': op, 'expr': e}}


def group(e):
    return {'group': e}


LEVELS = [('**',), ('*', '/', '%'), ('+', '-'), ('<=', '<', '>=', '>'), ('==', '!='), ('&&',), ('||',)]
PREC = {op: len(LEVELS) - ix for ix, ops in enumerate(LEVELS) for op in ops}   # higher binds tighter
BINARY_OPS = [op for ops in LEVELS for op in ops]


# ---------------------------------------------------------------- rendering

def escape_string(s, quote):
    return s.replace('\\', '\\\\').replace(quote, '\\' + quote)


def is_ident(name):
    return name.isascii() and name.isidentifier()


def num_literal(value):
    """A literal accepted by the grammar digits[.digits][e(+|-)digits]"""
    text = repr(float(value))
    if text.endswith('.0'):
        text = text[:-2]
    return text


def render(expr, rng=None, parent=0, right=False):
    """Text of an expression model; adds parentheses only where the tree needs them"""
    def gap():
        return '' if rng is None else rng.choice(('', '', ' ', '  ', '\t'))
    (key, node), = expr.items()
    if key == 'number':
        return num_literal(node)
    if key == 'string':
        quote = "'" if rng is None else rng.choice("'\"")
        return quote + escape_string(node, quote) + quote
    if key == 'variable':
        if is_ident(node) and (rng is None or rng.random() < 0.9):
            return node
        return '[' + gap().replace('\t', ' ') + node.replace('\\', '\\\\').replace(']', '\\]') + ']'
    if key == 'group':
        return '(' + gap() + render(node, rng) + gap() + ')'
    if key == 'unary':
        return node['op'] + gap() + render(node['expr'], rng, 100)
    if key == 'function':
        return node['name'] + gap() + '(' + gap() + (gap() + ',' + gap()).join(render(arg, rng) for arg in node.get('args', ())) + gap() + ')'
    op = node['op']
    sep = ' ' if rng is None else None
    left = render(node['left'], rng, PREC[op], False)
    rite = render(node['right'], rng, PREC[op], True)
    text = left + (sep or gap()) + op + (sep or gap()) + rite
    if parent == 100 or parent > PREC[op] or (parent == PREC[op] and right):
        return '(' + text + ')'
    return text


def render_program(stmts, indent=0, step=4, rng=None):
    """Source lines of a structured program"""
    pad = ' ' * (indent * step)
    lines = []
    for stmt in stmts:
        kind = stmt[0]
        if kind == 'assign':
            lines.append(f'{pad}{stmt[1]} = {render(stmt[2], rng)}')
        elif kind == 'expr':
            lines.append(f'{pad}{render(stmt[1], rng)}')
        elif kind == 'if':
            for ix, (cond, body) in enumerate(stmt[1]):
                lines.append(f'{pad}{"if" if ix == 0 else "elif"} {render(cond, rng)}:')
                lines.extend(render_program(body, indent + 1, step, rng))
            if stmt[2] is not None:
                lines.append(f'{pad}else:')
                lines.extend(render_program(stmt[2], indent + 1, step, rng))
            lines.append(f'{pad}endif')
        elif kind == 'while':
            lines.append(f'{pad}while {render(stmt[1], rng)}:')
            lines.extend(render_program(stmt[2], indent + 1, step, rng))
            lines.append(f'{pad}endwhile')
        elif kind == 'for':
            index = f', {stmt[2]}' if stmt[2] is not None else ''
            lines.append(f'{pad}for {stmt[1]}{index} in {render(stmt[3], rng)}:')
            lines.extend(render_program(stmt[4], indent + 1, step, rng))
            lines.append(f'{pad}endfor')
        elif kind in ('break', 'continue'):
            lines.append(pad + kind)
        elif kind == 'return':
            lines.append(f'{pad}return' + ('' if stmt[1] is None else ' ' + render(stmt[1], rng)))
        elif kind == 'func':
            params = ', '.join(stmt[2] or ()) + ('...' if stmt[3] else '')
            prefix = 'async ' if len(stmt) > 5 and stmt[5] else ''
            lines.append(f'{pad}{prefix}function {stmt[1]}({params}):')
            lines.extend(render_program(stmt[4], indent + 1, step, rng))
            lines.append(f'{pad}endfunction')
        elif kind == 'label':
            lines.append(f'{pad}{stmt[1]}:')
        elif kind == 'jump':
            lines.append(f'{pad}jump {stmt[1]}' if stmt[2] is None else f'{pad}jumpif ({render(stmt[2], rng)}) {stmt[1]}')
        elif kind == 'include':
            lines.append(f'{pad}include <{stmt[1]}>' if stmt[2] else f"{pad}include '{stmt[1]}'")
        else:
            raise ValueError(kind)
    return lines


# ---------------------------------------------------------------- expression semantics

def arith(op, a, b):
    """Typed arithmetic on two evaluated operands; null when the types (or the result) are not supported"""
    na, nb = is_number(a), is_number(b)
    ta, tb = tname(a), tname(b)
    try:
        if op == '+':
            if na and nb:
                return a + b
            if ta == 'string' or tb == 'string':
                return text_of(a) + text_of(b)
            if ta == 'datetime' and nb:
                return norm_dt(a) + datetime.timedelta(milliseconds=b)
            if na and tb == 'datetime':
                return norm_dt(b) + datetime.timedelta(milliseconds=a)
            return None
        if op == '-':
            if na and nb:
                return a - b
            if ta == 'datetime' and tb == 'datetime':
                micro = (norm_dt(a) - norm_dt(b)) // datetime.timedelta(microseconds=1)
                half = 1 if micro >= 0 else -1
                return half * ((abs(micro) * 2 + 1000) // 2000)
            return None
        if not (na and nb):
            return None
        if op == '*':
            return float(a) * float(b)
        if op == '/':
            return a / b if b != 0 else None
        if op == '%':
            return float(a) % float(b) if b != 0 else None
        result = float(a) ** float(b)
        return None if isinstance(result, complex) else result
    except NoText:
        raise Unjudged() from None
    except (OverflowError, ZeroDivisionError, ValueError, RecursionError):
        return None


RELATIONAL = {
    '==': lambda c: c == 0, '!=': lambda c: c != 0, '<=': lambda c: c <= 0,
    '<': lambda c: c < 0, '>=': lambda c: c >= 0, '>': lambda c: c > 0
}


class Evaluator:
    """Reference expression evaluator. builtins: name -> callable for expression mode (or None)"""

    cap = 3000

    def __init__(self, globals_, options, builtins=None, runtime_errors=()):
        self.globals = globals_
        self.options = options
        self.builtins = builtins
        self.runtime_errors = (RefRuntimeError, StepLimit, Unjudged, RecursionError) + tuple(runtime_errors)
        self.failures = []

    def eval(self, expr, locals_=None):
        (key, node), = expr.items()
        if key in ('number', 'string'):
            return node
        if key == 'variable':
            if node == 'null':
                return None
            if node == 'true':
                return True
            if node == 'false':
                return False
            if locals_ is not None and node in locals_:
                return locals_[node]
            return self.globals.get(node) if self.globals is not None else None
        if key == 'group':
            return self.eval(node, locals_)
        if key == 'unary':
            value = self.eval(node['expr'], locals_)
            if node['op'] == '!':
                return not truthy(value)
            return (-value if value else -0.0 if math.copysign(1, value) > 0 else 0.0) if is_number(value) else None
        if key == 'binary':
            op = node['op']
            left = self.eval(node['left'], locals_)
            if op == '&&':
                return self.eval(node['right'], locals_) if truthy(left) else left
            if op == '||':
                return left if truthy(left) else self.eval(node['right'], locals_)
            right = self.eval(node['right'], locals_)
            if heavy(left, self.cap) or heavy(right, self.cap):
                raise Unjudged()
            if op in RELATIONAL:
                return RELATIONAL[op](compare(left, right))
            return arith(op, left, right)
        name = node['name']
        args = node.get('args', [])
        if name == 'if':
            chosen = truthy(self.eval(args[0], locals_)) if args else False
            ix = 1 if chosen else 2
            return self.eval(args[ix], locals_) if len(args) > ix else None
        values = [self.eval(arg, locals_) for arg in args]
        if locals_ is not None and name in locals_:
            func = locals_[name]
        elif self.globals is not None and name in self.globals:
            func = self.globals[name]
        else:
            func = self.builtins.get(name) if self.builtins is not None else None
        if func is None:
            raise RefRuntimeError(f'Undefined function "{name}"')
        return self.apply(name, func, values)

    def apply(self, name, func, values):
        try:
            return func(values, self.options)
        except self.runtime_errors:
            raise
        except Exception as exc:  # pylint: disable=broad-except
            self.failures.append(name)
            return getattr(exc, 'return_value', None) if type(exc).__name__ == 'ValueArgsError' else None


# ---------------------------------------------------------------- structured execution

class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, value):
        super().__init__()
        self.value = value


class BigStep:
    """Direct interpreter of structured programs"""

    def __init__(self, globals_, options=None, step_limit=4000, runtime_errors=()):
        self.globals = globals_
        self.ev = Evaluator(globals_, options, None, runtime_errors)
        self.steps = 0
        self.step_limit = step_limit
        self.depth = 0
        self.branches = {}

    def run(self, program):
        try:
            self.block(program, None)
        except _Return as ret:
            return ret.value
        return None

    def tick(self):
        self.steps += 1
        if self.steps > self.step_limit:
            raise StepLimit()

    def note(self, what):
        self.branches[what] = self.branches.get(what, 0) + 1

    def assign(self, name, value, locals_):
        if locals_ is not None:
            locals_[name] = value
        else:
            self.globals[name] = value

    def block(self, stmts, locals_):
        for stmt in stmts:
            self.stmt(stmt, locals_)

    def stmt(self, stmt, locals_):
        self.tick()
        kind = stmt[0]
        if kind == 'assign':
            self.assign(stmt[1], self.ev.eval(stmt[2], locals_), locals_)
        elif kind == 'expr':
            self.ev.eval(stmt[1], locals_)
        elif kind == 'if':
            for ix, (cond, body) in enumerate(stmt[1]):
                if truthy(self.ev.eval(cond, locals_)):
                    self.note('if' if ix == 0 else 'elif')
                    self.block(body, locals_)
                    return
            if stmt[2] is not None:
                self.note('else')
                self.block(stmt[2], locals_)
        elif kind == 'while':
            while truthy(self.ev.eval(stmt[1], locals_)):
                self.tick()
                self.note('while-iteration')
                try:
                    self.block(stmt[2], locals_)
                except _Break:
                    self.note('while-break')
                    break
                except _Continue:
                    self.note('while-continue')
        elif kind == 'for':
            values = self.ev.eval(stmt[3], locals_)
            if tname(values) != 'array':
                return
            total = len(values)
            for ix in range(total):
                self.tick()
                self.note('for-iteration')
                if len(values) != total:
                    raise Unjudged()
                if stmt[2] is not None:
                    self.assign(stmt[2], ix, locals_)
                self.assign(stmt[1], values[ix], locals_)
                try:
                    self.block(stmt[4], locals_)
                except _Break:
                    self.note('for-break')
                    break
                except _Continue:
                    self.note('for-continue')
        elif kind == 'break':
            raise _Break()
        elif kind == 'continue':
            raise _Continue()
        elif kind == 'return':
            self.note('return')
            raise _Return(None if stmt[1] is None else self.ev.eval(stmt[1], locals_))
        elif kind == 'func':
            self.globals[stmt[1]] = RefFunction(self, stmt)
        else:
            raise ValueError(kind)


class RefFunction:
    """A script function value of the reference interpreter"""

    def __init__(self, interp, stmt):
        self.interp = interp
        self.name, self.params, self.last_array, self.body = stmt[1], stmt[2] or [], stmt[3], stmt[4]

    def __call__(self, args, options):
        interp = self.interp
        interp.note('call')
        interp.depth += 1
        if interp.depth > 60:
            raise Unjudged()
        locals_ = {}
        for ix, param in enumerate(self.params):
            if self.last_array and ix == len(self.params) - 1:
                locals_[param] = list(args[ix:])
            else:
                locals_[param] = args[ix] if ix < len(args) else None
        try:
            interp.block(self.body, locals_)
        except _Return as ret:
            return ret.value
        finally:
            interp.depth -= 1
        return None


def finite(value):
    return not (type(value) is float and not math.isfinite(value))
