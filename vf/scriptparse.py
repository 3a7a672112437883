"""The script-level grammar written down a second time: logical lines, line kinds and block structure.

accept(text) returns the logical lines with their kinds, or raises ScriptReject(lines) with the set of logical lines (by index) that
may be blamed. Judged text is ASCII.
"""
from vf.exprparse import IDENT, IDENT0, SPACE, Reject, ref_parse


class ScriptReject(Exception):
    """blame: acceptable logical line indexes; expr: (offset, text) when the error is within an expression of the blamed line"""

    def __init__(self, blame, what, expr=None):
        super().__init__(what)
        self.blame, self.what, self.expr = blame, what, expr


class Line:
    """A logical line: text, first physical line index, kind and parts"""
    __slots__ = ('text', 'first', 'last', 'kind', 'parts', 'open')

    def __init__(self, text, first, last, is_open=False):
        self.text, self.first, self.last, self.open = text, first, last, is_open
        self.kind, self.parts = None, None


def physical_lines(text):
    out = []
    for part in text.split('\n'):
        out.append(part)
    return [part[:-1] if part.endswith('\r') and ix < len(out) - 1 else part for ix, part in enumerate(out)]


def is_skipped(line):
    stripped = line.strip()
    return stripped == '' or stripped.startswith('#')


def logical_lines(physical):
    """Logical lines of physical lines; the last one is open when its continuation never ends"""
    lines = []
    parts, first = [], None
    for ix, line in enumerate(physical):
        if is_skipped(line):
            continue
        bare = line.rstrip()
        if not parts:
            first = ix
        if bare.endswith('\\'):
            parts.append(bare[:-1])
            continue
        if parts:
            parts.append(line)
            text = ' '.join([parts[0].rstrip()] + [part.strip() for part in parts[1:]])
            lines.append(Line(text, first, ix))
            parts = []
        else:
            lines.append(Line(line, ix, ix))
    if parts:
        lines.append(Line(' '.join([parts[0].rstrip()] + [part.strip() for part in parts[1:]]), first, len(physical) - 1, True))
    return lines


# ---------------------------------------------------------------- one logical line

def skip(text, ix):
    while ix < len(text) and text[ix] in SPACE:
        ix += 1
    return ix


def ident(text, ix):
    """(name, end) of an identifier at ix, or (None, ix)"""
    end = ix
    if end < len(text) and text[end] in IDENT0:
        while end < len(text) and text[end] in IDENT:
            end += 1
    return (text[ix:end], end) if end > ix else (None, ix)


def head(text, word):
    """Index after the keyword (a whole word) or None"""
    ix = skip(text, 0)
    name, end = ident(text, ix)
    return end if name == word else None


def colon_expr(text, start):
    """(offset, expression text) between the blank at start and the final colon, or None"""
    stop = len(text.rstrip())
    if stop == 0 or text[stop - 1] != ':':
        return None
    begin = skip(text, start)
    if begin == start:
        return None
    if begin < stop - 1:
        return begin, text[begin:stop - 1]
    return (stop - 2, text[stop - 2]) if begin - start > 1 else None     # a blank expression


BARE_WORDS = {'endfunction', 'endif', 'endwhile', 'endfor', 'break', 'continue'}


def params(text, ix):
    """Parse '(a, b...) :' at ix: (names, last_array) or None"""
    if text[ix:ix + 1] != '(':
        return None
    ix = skip(text, ix + 1)
    names = []
    name, ix2 = ident(text, ix)
    while name is not None:
        names.append(name)
        ix = skip(text, ix2)
        if text[ix:ix + 1] != ',':
            break
        ix = skip(text, ix + 1)
        name, ix2 = ident(text, ix)
        if name is None:
            return None
    last_array = text.startswith('...', ix)
    if last_array:
        ix = skip(text, ix + 3)
    if text[ix:ix + 1] != ')':
        return None
    ix = skip(text, ix + 1)
    if text[ix:ix + 1] != ':' or skip(text, ix + 1) != len(text):
        return None
    return names, last_array


def include_url(text, ix):
    """The include path at ix up to the end of the line: (url, system) or None"""
    tail = text[ix:].rstrip()
    if len(tail) >= 2 and tail[0] == '<' and tail[-1] == '>' and '>' not in tail[1:-1]:
        return tail[1:-1], True
    if len(tail) >= 2 and tail[0] == "'" and tail[-1] == "'":
        inner = tail[1:-1]
        for pos, char in enumerate(inner):
            if char == "'" and (pos == 0 or inner[pos - 1] != '\\'):
                return None
        out, pos = [], 0
        while pos < len(inner):
            if inner[pos] == '\\' and inner[pos + 1:pos + 2] in ('\\', "'"):
                pos += 1
            out.append(inner[pos])
            pos += 1
        return ''.join(out), False
    return None


def classify(text):
    """(kind, parts) of a logical line; expressions are given as (offset, text)"""
    start = skip(text, 0)
    name, end = ident(text, start)
    after = skip(text, end)
    if name is not None and text[after:after + 1] == '=' and text[after + 1:after + 2] not in ('=', ''):
        value = skip(text, after + 1)
        return 'assign', (name, (value, text[value:]) if value < len(text) else (len(text) - 1, text[-1]))
    if name == 'function' or name == 'async':
        ix = end
        if name == 'async':
            word, ix = ident(text, after)
            if word != 'function':
                ix = None
            # 'asyncfunction' cannot reach here: an identifier is read greedily
        if ix is not None:
            gap = skip(text, ix)
            fname, fend = ident(text, gap)
            if gap > ix and fname is not None:
                sig = params(text, skip(text, fend))
                if sig is not None:
                    return 'function', (fname, sig[0], sig[1], name == 'async')
    if name in BARE_WORDS and after == len(text):
        return name, None
    if name in ('if', 'elif', 'while'):
        expr = colon_expr(text, end)
        if expr is not None:
            return name, expr
    if name == 'else' and text[after:after + 1] == ':' and skip(text, after + 1) == len(text):
        return 'else', None
    if name == 'for' and after > end:
        value, ix = ident(text, after)
        if value is not None:
            nxt = skip(text, ix)
            index = None
            good = True
            if text[nxt:nxt + 1] == ',':
                index, ix = ident(text, skip(text, nxt + 1))
                good = index is not None
            if good:
                gap = skip(text, ix)
                word, wend = ident(text, gap)
                if gap > ix and word == 'in':
                    expr = colon_expr(text, wend)
                    if expr is not None:
                        return 'for', (value, index, expr)
    if name is not None and text[after:after + 1] == ':' and skip(text, after + 1) == len(text):
        return 'label', name
    if name == 'jump' and after > end:
        label, ix = ident(text, after)
        if label is not None and skip(text, ix) == len(text):
            return 'jump', (label, None)
    if name == 'jumpif' and text[after:after + 1] == '(':
        tail = len(text.rstrip())
        back = tail
        while back > 0 and text[back - 1] in IDENT:
            back -= 1
        while back < tail and text[back] not in IDENT0:
            back = tail     # a label name starts with a letter
        close = back
        while close > 0 and text[close - 1] in SPACE:
            close -= 1
        if back < tail and close < back and close - 1 > after + 1 and text[close - 1] == ')':
            return 'jump', (text[back:tail], (after + 1, text[after + 1:close - 1]))
    if name == 'return':
        if after == len(text):
            return 'return', None
        if after > end:
            return 'return', (after, text[after:])
    if name == 'include' and after > end:
        url = include_url(text, after)
        if url is not None:
            return 'include', url
    return 'expr', (0, text)


def exprs_of(kind, parts):
    if kind in ('expr', 'if', 'elif', 'while'):
        return [parts]
    if kind == 'assign':
        return [parts[1]]
    if kind == 'for':
        return [parts[2]]
    if kind == 'jump' and parts[1] is not None:
        return [parts[1]]
    if kind == 'return' and parts is not None:
        return [parts]
    return []


def accept(text):
    """The classified logical lines of an acceptable script; raises ScriptReject for the first error"""
    lines = logical_lines(physical_lines(text))
    stack = []      # (kind, line index, has_else)
    for ix, line in enumerate(lines):
        if line.open:
            raise ScriptReject({ix}, 'unterminated continuation')
        kind, parts = classify(line.text)
        line.kind, line.parts = kind, parts

        def top():
            return stack[-1] if stack else None
        if kind == 'function':
            if any(entry[0] == 'function' for entry in stack):
                raise ScriptReject({ix}, 'nested function')
            # A function within an open block: its own scope begins
            stack.append(['function', ix, False])
            continue
        if kind == 'endfunction':
            if not any(entry[0] == 'function' for entry in stack):
                raise ScriptReject({ix}, 'no function')
            if top()[0] != 'function':
                blame = {ix}
                for entry in reversed(stack):
                    if entry[0] == 'function':
                        break
                    blame.add(entry[1])
                raise ScriptReject(blame, 'open block at endfunction')
            stack.pop()
            continue
        expressions = exprs_of(kind, parts)
        structure = None
        if kind in ('elif', 'else', 'endif'):
            if top() is None or top()[0] != 'if':
                structure = f'{kind} without if'
            elif kind != 'endif' and top()[2]:
                structure = f'{kind} after else'
        elif kind in ('endwhile', 'endfor'):
            if top() is None or top()[0] != kind[3:]:
                structure = f'{kind} without {kind[3:]}'
        elif kind in ('break', 'continue'):
            for entry in reversed(stack):
                if entry[0] in ('while', 'for'):
                    break
                if entry[0] == 'function':
                    structure = f'{kind} outside a loop'
                    break
            else:
                structure = f'{kind} outside a loop'
        if structure:
            raise ScriptReject({ix}, structure)
        for offset, expr_text in expressions:
            try:
                ref_parse(expr_text)
            except Reject:
                raise ScriptReject({ix}, 'expression', (offset, expr_text)) from None
        if kind in ('if', 'while', 'for'):
            stack.append([kind, ix, False])
        elif kind == 'else':
            top()[2] = True
        elif kind in ('endif', 'endwhile', 'endfor'):
            stack.pop()
    if stack:
        raise ScriptReject({entry[1] for entry in stack}, 'open block at end of input')
    return lines
