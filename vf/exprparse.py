"""The expression grammar written down a second time: a character-level precedence-climbing recogniser.

Raises Reject(position) for text that is not a well-formed expression. Judged text is ASCII.
"""
from vf.lang import PREC

OPS = sorted(PREC, key=len, reverse=True)
SPACE = ' \t\n\r\f\v'
IDENT0 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_'
DIGITS = '0123456789'
IDENT = IDENT0 + DIGITS


class Reject(Exception):
    pass


class _P:
    def __init__(self, text):
        self.t = text
        self.n = len(text)
        self.i = 0

    def ws(self):
        while self.i < self.n and self.t[self.i] in SPACE:
            self.i += 1

    def peek(self):
        return self.t[self.i] if self.i < self.n else ''

    def operator(self):
        """The binary operator at the cursor (not consumed)"""
        self.ws()
        for op in OPS:
            if self.t.startswith(op, self.i):
                return op
        return None

    def binary(self, min_prec=1):
        left = self.operand()
        while True:
            op = self.operator()
            if op is None or PREC[op] < min_prec:
                return left
            self.i += len(op)
            right = self.binary(PREC[op] + 1)
            left = {'binary': {'op': op, 'left': left, 'right': right}}

    def delimited(self, close):
        """Quoted text up to an unescaped close character; backslash escapes itself and the close character only"""
        out = []
        while self.i < self.n:
            char = self.t[self.i]
            if char == close:
                self.i += 1
                return ''.join(out)
            if char == '\\' and self.i + 1 < self.n and self.t[self.i + 1] in ('\\', close):
                out.append(self.t[self.i + 1])
                self.i += 2
                continue
            out.append(char)
            self.i += 1
        raise Reject(self.i)

    def operand(self):
        self.ws()
        char = self.peek()
        if char == '(':
            self.i += 1
            inner = self.binary()
            self.ws()
            if self.peek() != ')':
                raise Reject(self.i)
            self.i += 1
            return {'group': inner}
        if char and char in '!-':
            self.i += 1
            return {'unary': {'op': char, 'expr': self.operand()}}
        if char and (char in DIGITS or (char == '+' and self.t[self.i + 1:self.i + 2] in tuple(DIGITS))):
            return self.number()
        if char and char in '\'"':
            self.i += 1
            return {'string': self.delimited(char)}
        if char == '[':
            self.i += 1
            self.ws()
            name = self.delimited(']')
            if name == '':
                raise Reject(self.i)
            return {'variable': name}
        if char and char in IDENT0:
            start = self.i
            while self.peek() and self.peek() in IDENT:
                self.i += 1
            name = self.t[start:self.i]
            mark = self.i
            self.ws()
            if self.peek() != '(':
                self.i = mark
                return {'variable': name}
            self.i += 1
            args = []
            self.ws()
            if self.peek() == ')':
                self.i += 1
                return {'function': {'name': name, 'args': args}}
            while True:
                args.append(self.binary())
                self.ws()
                char = self.peek()
                if char and char in ',)':
                    self.i += 1
                    if char == ')':
                        return {'function': {'name': name, 'args': args}}
                else:
                    raise Reject(self.i)
        raise Reject(self.i)

    def number(self):
        start = self.i
        if self.peek() == '+':
            self.i += 1
        self.digits()
        if self.peek() == '.':
            self.i += 1
            self.digits()
        if self.peek() == 'e' and self.t[self.i + 1:self.i + 2] in ('+', '-') and self.t[self.i + 2:self.i + 3] in tuple(DIGITS):
            self.i += 2
            self.digits()
        return {'number': float(self.t[start:self.i])}

    def digits(self):
        while self.peek() and self.peek() in DIGITS:
            self.i += 1


def ref_parse(text):
    """The expression model of a text; raises Reject"""
    parser = _P(text)
    expr = parser.binary()
    parser.ws()
    if parser.i < parser.n:
        raise Reject(parser.i)
    return expr


def normal(expr):
    """Expression model with the optional args member spelled out"""
    (key, node), = expr.items()
    if key == 'group':
        return {'group': normal(node)}
    if key == 'unary':
        return {'unary': {'op': node['op'], 'expr': normal(node['expr'])}}
    if key == 'binary':
        return {'binary': {'op': node['op'], 'left': normal(node['left']), 'right': normal(node['right'])}}
    if key == 'function':
        return {'function': {'name': node['name'], 'args': [normal(arg) for arg in node.get('args', ())]}}
    return {key: node}


def strip_groups(expr):
    (key, node), = expr.items()
    if key == 'group':
        return strip_groups(node)
    if key == 'unary':
        return {'unary': {'op': node['op'], 'expr': strip_groups(node['expr'])}}
    if key == 'binary':
        return {'binary': {'op': node['op'], 'left': strip_groups(node['left']), 'right': strip_groups(node['right'])}}
    if key == 'function':
        return {'function': {'name': node['name'], 'args': [strip_groups(arg) for arg in node.get('args', ())]}}
    return {key: node}
