"""C06: the parser is total, drops no line, and its diagnostics point at the source. Oracle: an independent script acceptor."""
import re
import string as strings

from bare_script import BareScriptParserError, parse_script

from vf.checks.c01 import random_program
from vf.checks.c02 import bracket_unjudged, near_soup, soup as expr_soup
from vf.exprparse import Reject, normal, ref_parse
from vf.lang import render_program
from vf.run import Violation
from vf.scriptparse import ScriptReject, accept, exprs_of, logical_lines, physical_lines

RULE = ('A case is one script text given to parse_script: mutated valid programs, line soup, every error column of lines of 0..400 characters, '
        'unclosed blocks and continuations, control-character and Unicode soup. Non-trivial: the text has at least one non-blank, non-comment '
        'line; distinct by text.')
REQUIRED = ('accepted', 'rejected', 'rejected_expression', 'rejected_structure', 'lines_accounted', 'deletions', 'prefix_checks', 'expression_shifts', 'chunked',
            'caret_checks', 'elided_left', 'elided_right', 'elided_both', 'hostile_texts', 'unclosed', 'scale_texts', 'echo_texts')
ASSUMPTIONS = (
    'Accept/reject is judged on printable ASCII, tab and line ends; other characters are judged for totality and diagnostics only.',
    'For a block left open, the line of any unclosed opener is accepted as the reported line.',
    'A reported column of length + 1 (just after the last character) counts as inside the line.'
)
JUDGED = set(strings.printable) - set('\x0b\x0c')


def squeeze(text):
    return ' '.join(text.split())


def judged(text):
    # (how deep an expression the recursive parser takes depends on the host stack)
    if max((sum(line.count(char) for char in '([!-+*/%<>=&|') for line in re.sub(r'\\[ \t\r]*\n', '', text).split('\n')), default=0) > 150:
        return False
    return set(text) <= JUDGED and not any(c == '\r' and text[ix + 1:ix + 2] != '\n' for ix, c in enumerate(text)) and 'asyncfunction' not in text and \
        not bracket_unjudged(text)


def attempt(text, start=None):
    """('ok', model) or ('error', exc)"""
    try:
        return 'ok', (parse_script(text) if start is None else parse_script(text, start))
    except BareScriptParserError as exc:
        return 'error', exc
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(f'parse_script raised {type(exc).__name__}: {str(exc)[:200]}') from None


# ---------------------------------------------------------------- accounting

def contains(node, expr):
    """Is the expression model a subtree of the model part?"""
    if node == expr:
        return True
    if isinstance(node, dict):
        return any(contains(value, expr) for value in node.values())
    if isinstance(node, list):
        return any(contains(value, expr) for value in node)
    return False


def norm_model(node):
    """args spelled out wherever a function call has none"""
    if isinstance(node, dict):
        if set(node) == {'function'} and 'statements' not in node['function']:
            return {'function': {'name': node['function']['name'], 'args': norm_model(node['function'].get('args', []))}}
        return {key: norm_model(value) for key, value in node.items()}
    if isinstance(node, list):
        return [norm_model(value) for value in node]
    return node


def account(mon, lines, model):
    """Every logical line must be found, in order, in the model"""
    scopes = [[norm_model(model['statements']), 0]]
    for line in lines:
        kind, parts = line.kind, line.parts
        statements, ix = scopes[-1]
        want = [normal(ref_parse(text)) for _, text in exprs_of(kind, parts)]
        found = None
        if kind == 'endfunction':
            scopes.pop()
            mon.count('lines_accounted')
            continue
        if kind in ('endif', 'endwhile', 'endfor', 'else', 'break', 'continue'):
            mon.count('lines_accounted')
            continue
        if kind == 'include':
            # Adjacent includes may share one statement
            entry = {'url': parts[0], **({'system': True} if parts[1] else {})}
            while ix < len(statements):
                stmt = statements[ix]
                if 'include' in stmt and stmt['include']['includes']:
                    first = stmt['include']['includes'][0]
                    if {k: v for k, v in first.items() if v is not False} == entry:
                        statements[ix] = {'include': {'includes': stmt['include']['includes'][1:]}}
                        found = ix
                        break
                ix += 1
            if found is None:
                raise Violation('an include line is missing from the model', line=line.text, model=model)
            scopes[-1][1] = found
            mon.count('lines_accounted')
            continue
        while ix < len(statements):
            stmt = statements[ix]
            ix += 1
            if kind == 'assign':
                hit = 'expr' in stmt and stmt['expr'].get('name') == parts[0] and stmt['expr']['expr'] == want[0]
            elif kind == 'expr':
                hit = 'expr' in stmt and 'name' not in stmt['expr'] and stmt['expr']['expr'] == want[0]
            elif kind == 'return':
                hit = 'return' in stmt and (stmt['return'].get('expr') == want[0] if want else 'expr' not in stmt['return'])
            elif kind == 'label':
                hit = stmt.get('label') == parts
            elif kind == 'jump':
                hit = 'jump' in stmt and stmt['jump']['label'] == parts[0] and (stmt['jump'].get('expr') == want[0] if want else 'expr' not in stmt['jump'])
            elif kind == 'function':
                hit = 'function' in stmt and stmt['function']['name'] == parts[0] and list(stmt['function'].get('args') or []) == parts[1] and \
                    bool(stmt['function'].get('lastArgArray')) == parts[2] and bool(stmt['function'].get('async')) == parts[3]
            else:
                hit = 'function' not in stmt and contains(stmt, want[0])
            if hit:
                found = stmt
                break
        if found is None:
            raise Violation(f'a line is not accounted for in the model: {line.text!r}', kind=kind, model=model)
        scopes[-1][1] = ix
        if kind == 'function':
            scopes.append([found['function']['statements'], 0])
        mon.count('lines_accounted')


# ---------------------------------------------------------------- diagnostics

def caret(mon, exc):
    """The caret of the formatted message sits under the character the column names"""
    line, column = exc.line, exc.column_number
    parts = str(exc).split('\n')
    if len(parts) < 4 or parts[-1] != '' or parts[-2].strip(' ') != '^' or not parts[-2].endswith('^'):
        raise Violation('the message has no caret line', message=str(exc)[-600:])
    shown, pos = parts[-3], len(parts[-2])      # pos: 1-based caret position
    offset = column - pos
    mon.count('caret_checks')
    for left in (0, 4):
        for right in (0, 4):
            if left and not shown.startswith('... ') or right and not shown.endswith(' ...'):
                continue
            middle = shown[left:len(shown) - right] if right else shown[left:]
            begin = left + offset                # index in line of the first shown character
            if begin < 0 or line[begin:begin + len(middle)] != middle:
                continue
            if not left and begin != 0 or not right and begin + len(middle) != len(line):
                continue
            if not left <= pos - 1 <= left + len(middle):
                continue
            mon.count(('shown_whole', 'elided_right', 'elided_left', 'elided_both')[(1 if right else 0) + (2 if left else 0)])
            return
    raise Violation('the caret is not under the character the column names', column=column, line=line, message=str(exc))


def generic(mon, exc, text, start=1):
    """What every parser error must satisfy, whatever the text"""
    physical = text.count('\n') + 1
    if type(exc.line_number) is not int or not start <= exc.line_number < start + physical:
        raise Violation('the line number is outside the text', observed=exc.line_number, physical=physical, start=start)
    if not isinstance(exc.line, str):
        raise Violation('the error has no line text', observed=repr(exc.line))
    if type(exc.column_number) is not int or not 1 <= exc.column_number <= len(exc.line) + 1:
        raise Violation('the column is outside the line', column=exc.column_number, line=exc.line)
    # The line text is the text of that line (up to whitespace and line continuations)
    words = squeeze(exc.line).split(' ')
    source = physical_lines(text)[exc.line_number - start]
    if '\\' not in source and words != squeeze(source).split(' '):
        raise Violation('the error line is not the source line of that number', observed=exc.line, expected=source, line_number=exc.line_number)
    if f'line number {exc.line_number}' not in str(exc):
        raise Violation('the message does not name the line number', message=str(exc)[:600])
    caret(mon, exc)


def expr_column(text):
    """The column parse_expression itself reports"""
    from bare_script import parse_expression
    try:
        parse_expression(text)
    except BareScriptParserError as exc:
        return exc.column_number
    return None


def judge(mon, text, start=1):
    """Compare with the reference acceptor; returns 'ok'/'error' and the model/exception"""
    status, result = attempt(text, None if start == 1 else start)
    if status == 'error':
        generic(mon, result, text, start)
    if not judged(text):
        return status, result
    try:
        lines = accept(text)
    except ScriptReject as rej:
        if status == 'ok':
            raise Violation(f'accepted a text the grammar rejects ({rej.what})', text=text, model=result) from None
        mon.count('rejected')
        mon.count('rejected_expression' if rej.expr else 'rejected_structure')
        if 'open block' in rej.what or 'unterminated' in rej.what:
            mon.count('unclosed')
        lines = logical_lines(physical_lines(text))
        numbers = {start + lines[ix].first: lines[ix].text for ix in rej.blame}
        if result.line_number not in numbers:
            raise Violation(f'wrong line number ({rej.what})', observed=result.line_number, expected=sorted(numbers), text=text) from None
        if squeeze(result.line) != squeeze(numbers[result.line_number]):
            raise Violation('the error line is not the logical line', observed=result.line, expected=numbers[result.line_number]) from None
        if rej.expr and len(result.line) == len(numbers[result.line_number]):
            offset, expr_text = rej.expr
            expected = offset + expr_column(expr_text)
            viable = reject_position(expr_text)
            mon.count('column_checks')
            if result.column_number != expected:
                raise Violation('the column is not the position of the expression error within the line', observed=result.column_number,
                                expected=expected, line=result.line) from None
            if expected - offset - 1 > viable:
                raise Violation('the column is beyond the first character that cannot be part of an expression', observed=result.column_number,
                                limit=offset + viable + 1, line=result.line) from None
        return status, result
    if status == 'error':
        raise Violation('rejected a text the grammar accepts', error=str(result), text=text)
    mon.count('accepted')
    account(mon, lines, result)
    return status, result


def reject_position(text):
    try:
        ref_parse(text)
    except Reject as rej:
        return rej.args[0]
    return len(text)


PREFIXES = ('# comment', '', '   ', '\t# c', 'a = 1', 'x1 = "s" + [v w]', 'systemLog("x")', 'f(1)', '#', "  # if x:", 'z = a \\\n  + 1', 'return 5', 'lab1:',
            'if a:\nendif', 'function pre():\n  return 1\nendfunction')
SIMPLE = len(PREFIXES) - 2


def prefixed(mon, rng, text, status, result):
    """Prepended lines move the reported line number and change nothing else"""
    chosen = [PREFIXES[rng.randrange(SIMPLE)] for _ in range(rng.randint(1, 4))]
    start = rng.choice((1, 1, 1, 10, 1000))
    added = sum(p.count('\n') + 1 for p in chosen)
    full = '\n'.join(chosen + [text])
    status2, result2 = attempt(full, start)
    mon.count('prefix_checks')
    if status2 != status:
        raise Violation('prepending valid lines changed the outcome', prefix=chosen, before=status, after=str(result2)[:500])
    if status == 'error':
        if result2.line_number != result.line_number + added + start - 1:
            raise Violation('prepending lines moved the line number by a different amount', prefix=chosen, before=result.line_number,
                            after=result2.line_number, start=start)
        if (result2.line, result2.column_number, result2.error) != (result.line, result.column_number, result.error):
            raise Violation('prepending lines changed the diagnostic', before=str(result), after=str(result2))
        first, second = str(result).replace(f'line number {result.line_number}', 'N'), str(result2).replace(f'line number {result2.line_number}', 'N')
        if first != second:
            raise Violation('prepending lines changed the message', before=first, after=second)
    else:
        pre = attempt('\n'.join(chosen))[1]['statements']
        if result2['statements'][:len(pre)] != pre or result2['statements'][len(pre):] != result['statements']:
            # Adjacent include statements may have been merged; no prefix has one
            raise Violation('prepending simple lines changed the rest of the model', prefix=chosen, before=result, after=result2)


def deletions(mon, rng, text, model, limit=6):
    """Deleting any logical line of an accepted text must be visible"""
    physical = physical_lines(text)
    lines = logical_lines(physical)
    for line in rng.sample(lines, min(limit, len(lines))):
        if any(is_comment(physical[ix]) for ix in range(line.first, line.last + 1)):
            continue
        rest = '\n'.join(physical[:line.first] + physical[line.last + 1:])
        status, result = attempt(rest)
        mon.count('deletions')
        if status == 'ok' and result == model:
            raise Violation('deleting a line does not change the model (the line was dropped)', line=line.text, text=text)


def chunked(mon, text, status, result):
    """The text as a list of lines gives the same model or the same diagnostic"""
    mon.count('chunked')
    try:
        other = ('ok', parse_script(physical_lines(text)))
    except BareScriptParserError as exc:
        other = ('error', exc)
    if other[0] != status or status == 'ok' and other[1] != result or status == 'error' and str(other[1]) != str(result):
        raise Violation('the text as a list of lines parses differently', text=text, whole=str(result)[:500], lines=str(other[1])[:500])


def is_comment(line):
    return line.strip().startswith('#')


# ---------------------------------------------------------------- workloads

EXTRA = ('lab:', 'jump lab', 'jumpif (a > 1) lab', 'jumpif((a)) lab', "include 'a.bare'", 'include <b.bare>', "include 'it\\'s.bare'", 'return', 'return a + 1', 'f( )',
         '[v w]', "a = 'x' + \"y\"", 'a=b', 'a == b', 'async function g(a, b...):', 'endfunction', 'function g():', 'function h( a , b ) :', 'else:', 'else :',
         'endif', 'endfor', 'endwhile', 'break', 'continue', 'for i in x:', 'for i , j in [x y] :', 'while  true:', 'if !a :', 'elif a :', '  # note', '',
         'function f(a,):', 'function (a):', 'for in x:', 'for i in :', 'if :', 'if a', 'while:', 'return =', 'jump', 'jump a b', 'jumpif lab', 'jumpif () lab',
         'include', 'include "a"', "include 'a", 'include <a', 'endif x', 'break 1', 'x = ', 'x =', '= x', 'x = = y', 'a b', 'f(', 'f(a', "'", '"abc', '[a', '(a', 'a)',
         'a +', '+ a', '1 2', 'lab :', '1lab:', 'function f(a):x', 'if a: b', 'else: x', 'if a::', "if 'x:':", "if 'a:b' == c:", 'elif', 'end if', 'function f(a...):',
         'function f(...):', 'function f(a, ...):', 'function f(a b):', 'endfunction # c', 'x = 1 # c', 'jumpif (a) (b) lab', 'jumpif (a) lab x', 'include <a>>',
         'return(1)', 'returnx', 'if(a):', 'async', 'async function', 'asyncx function f():', 'function', 'while a b:', 'if (a:', 'elif b c:', 'for x in y z:', 'for x, y in (:',
         'a = \\', 'f(1, \\', '\\', '  \\  ', 'x \\ y', 'continue \\', 'jumpif (a b) lab', '   jumpif  (a b)  lab', 'return a b', '  return   (', "return 'x", 'a = [b', 'a.b = 1', 'a, b = 1')
CHARS = "abxf01 ()[]'\"\\:,.=+-*/%<>!&|#\t_e"


def base_program(rng):
    program, _ = random_program(rng, rng.randint(1, 4))
    lines = render_program(program, rng=rng if rng.random() < 0.5 else None)
    lines = [line for part in lines for line in part.split('\n')]
    for _ in range(rng.randint(0, 3)):
        lines.insert(rng.randint(0, len(lines)), rng.choice(('lab1:', 'jump lab1', "include 'a.bare'", 'include <b.bare>', '# c', '', '  return', 'jumpif (a) lab1',
                                                             "include 'a\\'b.bare'", '[v w]', 'async1 = 2')))
    return lines


def break_line(rng, line):
    """Break a line with a continuation at a space"""
    spots = [ix for ix, char in enumerate(line) if char == ' ' and line[:ix].strip() and line[ix:].strip()]
    if not spots or "'" in line or '"' in line or '[' in line:
        return [line]
    ix = rng.choice(spots)
    out = [line[:ix] + rng.choice(('\\', ' \\', ' \\  '))]
    if rng.random() < 0.2:
        out.append(rng.choice(('# in between', '')))
    return out + [' ' * rng.randint(0, 4) + line[ix:].strip()]


def mutate(rng, lines):
    lines = list(lines)
    for _ in range(rng.choice((0, 1, 1, 1, 2, 3))):
        if not lines:
            break
        ix = rng.randrange(len(lines))
        pick = rng.random()
        if pick < 0.15:
            del lines[ix]
        elif pick < 0.25:
            lines.insert(rng.randint(0, len(lines)), lines[ix])
        elif pick < 0.35:
            jx = rng.randrange(len(lines))
            lines[ix], lines[jx] = lines[jx], lines[ix]
        elif pick < 0.5:
            lines.insert(ix, rng.choice(EXTRA))
        elif pick < 0.6:
            lines = lines[:ix]
        elif pick < 0.7:
            lines[ix:ix + 1] = break_line(rng, lines[ix])
        elif pick < 0.73:
            lines[ix] += rng.choice(('\\', ' \\'))
        else:
            line = lines[ix]
            jx = rng.randint(0, len(line))
            kind = rng.random()
            if kind < 0.35:
                lines[ix] = line[:jx] + line[jx + 1:]
            elif kind < 0.75:
                lines[ix] = line[:jx] + rng.choice(CHARS) + line[jx:]
            else:
                lines[ix] = line[:jx] + rng.choice(CHARS) + line[jx + 1:]
    return lines


ECHO_HEADERS = ('return ', '  return  ', 'x = ', 'x=', 'abc =  ', 'if ', 'if a:\nelif ', 'while ', 'for n in ', 'for a, in in ', 'for i  in  ', 'jumpif (', 'jumpif  ( ', 'return(', 'x = f(', 'x = [', "x = '", '  ')


def echo_texts():
    """Broken expressions whose text also stands further left in the line"""
    for header in ECHO_HEADERS:
        line = header.split('\n')[-1]
        word = line.strip()
        for length in range(1, len(word) + 1):
            blanks = line[len(line.rstrip()):]
            for expr in (word[-length:] + blanks + word[-length:], word[-length:] + blanks + word[-length:] + blanks + word[-length:], word[-length:] + ' ' + word[-length:], word[-length:], word[:length], word[:length] + ' 1'):
                for tail in ('', ':', ' :', ') lab', ' lab', '\nx = 1', ' x', ' )'):
                    yield header + expr + tail


def text_case(mon, rng, text):
    with mon.case(lambda: {'text': text}, key=text, nontrivial=bool(text.strip())):
        start = rng.choice((1, 1, 1, 1, 7))
        status, result = judge(mon, text, start)
        if start == 1:
            if rng.random() < 0.2:
                chunked(mon, text, status, result)
            if rng.random() < 0.5:
                prefixed(mon, rng, text, status, result)
            if status == 'ok':
                deletions(mon, rng, text, result)


def long_case(mon, rng, shape, length, at):
    """An error at one column of a line of a given length"""
    filler = ''
    n = 0
    while len(filler) < length:
        filler += f'v{n} + ' if length <= 400 else rng.choice((f'v{n} + ', f'aName{"x" * rng.randint(40, 200)}{n} * ', f"'{'text ' * rng.randint(10, 60)}' - "))
        n += 1
    filler = filler[:length]
    bad = filler[:at] + ' ) ' + filler[at:] if at <= length else filler
    text = shape.replace('{}', bad)
    pre = rng.randint(0, 2)
    with mon.case(lambda: {'text': text, 'length': length, 'at': at}, key=(shape, length, at)):
        judge(mon, '# pre\n' * pre + text)


def scale_case(mon, rng):
    """One error far along a long line, or far down a long script"""
    mon.count('scale_texts')
    good = ('a = 1', '# comment', '', "b = 'text' + \\\n    a", 'f(a, b)', 'if a:\n    b = 2\nendif', 'for v in c:\n    g(v)\nendfor')
    if rng.random() < 0.5:
        lines = [rng.choice(('', '', '# pre'))] * rng.choice((0, 0, 3, 120))
        length = rng.choice((512, 1000, 1023, 1024, 1100, 2047, 2100, 3000, 5000, 5200, 8200))
        long_case(mon, rng, rng.choice(SHAPES).replace('x = {}', rng.choice(('x = {}', 'aLongerName = {}'))), length, rng.choice((0, 60, length // 2, length - 1, length, rng.randint(0, length), length + 1)))
        return
    count = rng.choice((100, 255, 300, 520, 1000, 1030, 1500))
    opener = rng.choice((None, None, 'function f(a, b):', 'while a:', 'if a:', 'for v in a:'))
    lines = [rng.choice(good) for _ in range(count)]
    if rng.random() < 0.3:
        lines = ['    ' + line.replace('\n', '\n    ') for line in lines]
    if rng.random() < 0.8:
        lines[rng.randrange(len(lines) // 2, len(lines))] = rng.choice(('a = 1 +', 'f(', 'endif', 'a b', 'elif a:', 'if a )', 'endwhile', 'break', 'return )', 'else:', 'jump', 'x = 1 + \\\n  2 )'))
    if opener:
        lines.insert(rng.randrange(len(lines) // 2), opener)
        if rng.random() < 0.6:
            lines.append('end' + opener.split()[0])
    text = '\n'.join(lines)
    with mon.case(lambda: {'text': text}, key=text):
        judge(mon, text, rng.choice((1, 1, 1, 40, 5000)))


SHAPES = ('{}', 'x = {}', '    return {}', 'if {}:\nendif', 'if a:\n  elif {}:\nendif', 'while {}:\nendwhile', '  for a in {} :\nendfor', 'jumpif ({}) lab',
          'function f():\n    x = f({})\nendfunction', 'x = 1 + \\\n   {}')


def special_char(rng):
    return rng.choice(('\u2028', '\x85', '\x0b', '\x0c', '\x1c', '\u00a0', '\u3000', '\u0660', '\u00b2', '\u00e9', '\ud800', '\udfff', '\U0001f600', '\x00', '\x1b', '\r',
                       '\n', '\r\n', '\ufeff', '\u0130', '\u200b', "'", '"', '\\', '(', ')', '#', ':', '\n\n', ' '))


def hostile_case(mon, rng):
    pick = rng.random()
    if pick < 0.4:
        text = ''.join(special_char(rng) if rng.random() < 0.4 else rng.choice(CHARS) for _ in range(rng.randint(0, 30)))
    elif pick < 0.8:
        text = '\n'.join(rng.choice((base_program, lambda r: [r.choice(EXTRA) for _ in range(3)]))(rng))
        for _ in range(rng.randint(1, 4)):
            ix = rng.randint(0, len(text))
            text = text[:ix] + special_char(rng) + text[ix:]
    elif pick < 0.9:
        text = ''.join(chr(rng.randrange(0x110000)) for _ in range(rng.randint(1, 12)))
    else:
        unit = rng.choice(('(', 'f(', '!', '-', '[', "'", 'a+(', '((', 'if(a,', '{', '\\\n', 'a**', "'\\", '[\\]', '"\\\\', 'f(,', 'if a:\n', 'function f():\n', 'x=', '... '))
        text = unit * rng.choice((3, 50, 200, 1500)) + rng.choice(('', 'a', ')', '1', '\n'))
    with mon.case(lambda: {'text': text}, key=text):
        mon.count('hostile_texts')
        judge(mon, text)


def shift_case(mon, rng):
    """An expression error moves with the text in front of it"""
    text = (near_soup if rng.random() < 0.7 else expr_soup)(rng)
    with mon.case(lambda: {'expr': text}, key=('expr', text)):
        mon.count('expression_shifts')
        column = expr_column(text)
        prefix = rng.choice(('1 +', 'a-', '"x" ==', '1 + 2 * f(1) ||'))
        moved = expr_column(prefix + text)
        if (column is None) != (moved is None) or column is not None and moved != column + len(prefix):
            raise Violation('the error column does not move with the text', prefix=prefix, before=column, after=moved)
        if column is not None and not 1 <= column <= len(text) + 1:
            raise Violation('the column is outside the expression text', observed=column)


def plan(tier):
    quick = tier == 'quick'
    shards = []
    for ix in range(16 if quick else 96):
        shards.append(('mutants', {'index': ix, 'n': 2500 if quick else 20000, 'cost': 4}))
        shards.append(('soup', {'index': ix, 'n': 6000 if quick else 50000, 'cost': 3}))
        shards.append(('hostile', {'index': ix, 'n': 2000 if quick else 20000, 'cost': 3}))
    for _ in range(4 if quick else 24):
        shards.append(('scale', {'n': 60 if quick else 500, 'cost': 3}))
    shards.append(('echo', {'cost': 2}))
    for ix in range(len(SHAPES)):
        shards.append(('columns', {'shape': ix, 'step': 3 if quick else 1, 'cost': 4}))
    return shards


def shard(kind, spec, rng, mon):
    if kind == 'mutants':
        for _ in range(spec['n']):
            text = rng.choice(('\n', '\n', '\n', '\r\n')).join(mutate(rng, base_program(rng)))
            text_case(mon, rng, text)
    elif kind == 'soup':
        for _ in range(spec['n']):
            lines = []
            for _ in range(rng.choice((1, 1, 2, 3, 5, 8))):
                if rng.random() < 0.85:
                    lines.append(rng.choice(('', '', '  ')) + rng.choice(EXTRA) + rng.choice(('', '', ' ')))
                else:
                    lines.append(expr_soup(rng).replace('\n', ' '))
            text_case(mon, rng, '\n'.join(lines))
    elif kind == 'echo':
        for text in echo_texts():
            mon.count('echo_texts')
            text_case(mon, rng, text)
    elif kind == 'scale':
        for _ in range(spec['n']):
            scale_case(mon, rng)
    elif kind == 'hostile':
        for _ in range(spec['n']):
            hostile_case(mon, rng)
            shift_case(mon, rng)
    else:
        shape = SHAPES[spec['shape']]
        lengths = list(range(0, 30, 3)) + [55, 59, 60, 61, 62, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 130, 150,
                                           178, 179, 180, 181, 182, 183, 184, 185, 239, 240, 241, 300, 400]
        for length in lengths:
            for at in range(rng.randrange(spec['step']), length + 1, spec['step']):
                long_case(mon, rng, shape, length, at)
            for at in (0, length, length + 1):
                long_case(mon, rng, shape, length, at)
