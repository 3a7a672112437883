"""C10: source layout does not change the parsed program. Metamorphic: layout rewrites of a text must give an equal model; parsing keeps no state."""
import collections
import copy
import glob
import json
import os
import subprocess
import sys
import threading

import bare_script
from bare_script import BareScriptParserError, parse_expression, parse_script

from vf.checks.c06 import EXTRA, base_program, judged, mutate
from vf.checks.c02 import near_soup, soup as expr_soup
from vf.exprparse import DIGITS, IDENT, IDENT0, SPACE
from vf.run import Violation
from vf.scriptparse import ScriptReject, accept, classify, is_skipped, logical_lines, physical_lines
from vf.values import show

RULE = ('A case is one (text, layout rewrite): LF/CRLF, chunkings (list, tuple, generator, file, with 0..6 cuts), blank and comment lines inserted anywhere '
        'including inside continued lines, indentation and trailing whitespace, a trailing backslash at any gap between tokens; the model must equal '
        'the model of the base text (a text that is rejected must stay rejected). Or one history of parse calls: repeated, interleaved, nested, '
        'concurrent, after failed parses, with earlier results modified. Distinct by (base text, rewritten text, chunking).')
REQUIRED = ('rewrites', 'continuations', 'comments_inside_continuation', 'insertions', 'indents', 'trailing', 'crlf', 'chunked', 'generator_chunks', 'every_gap',
            'shipped_texts', 'rejected_stay_rejected', 'repeat_calls', 'interleaved', 'reentrant', 'threads', 'processes', 'mutated_results', 'joined')
ASSUMPTIONS = ('Line numbers in errors are not part of the claim (C06 judges them); an erroneous text only has to stay erroneous.',
               'A space is allowed between any two tokens, except between "return" and an adjacent parenthesis (which reads as a function call).')


# ---------------------------------------------------------------- token gaps

def spans(text):
    """Token spans of a logical line: identifiers, numbers, strings, bracket variables, operators and punctuation"""
    out = []
    ix, operand = 0, False      # operand: an operand has just ended
    while ix < len(text):
        char = text[ix]
        if char in SPACE:
            ix += 1
            continue
        start = ix
        signed = char == '+' and not operand and text[ix + 1:ix + 2] in tuple(DIGITS)
        if char in IDENT0:
            while ix < len(text) and text[ix] in IDENT:
                ix += 1
            operand = True
        elif char in DIGITS or signed:
            ix += 1
            while ix < len(text) and text[ix] in DIGITS:
                ix += 1
            if text[ix:ix + 1] == '.':
                ix += 1
                while ix < len(text) and text[ix] in DIGITS:
                    ix += 1
            if text[ix:ix + 1] == 'e' and text[ix + 1:ix + 2] in ('+', '-') and text[ix + 2:ix + 3] in tuple(DIGITS):
                ix += 2
                while ix < len(text) and text[ix] in DIGITS:
                    ix += 1
            operand = True
        elif char in '\'"[':
            close = ']' if char == '[' else char
            ix += 1
            while ix < len(text) and text[ix] != close:
                ix += 2 if text[ix] == '\\' and text[ix + 1:ix + 2] in ('\\', close) else 1
            ix += 1
            operand = True
        elif text.startswith('...', ix):
            ix += 3
        else:
            ix += 2 if text[ix:ix + 2] in ('**', '<=', '>=', '==', '!=', '&&', '||') else 1
            operand = char == ')'
        out.append((start, min(ix, len(text))))
    return out


def gaps(text):
    """Offsets (end of the left token, start of the right token) where a line break is allowed"""
    kind, _ = classify(text)
    if kind == 'include':
        start = text.index('include') + len('include')
        end = start
        while text[end] in SPACE:
            end += 1
        return [(start, end)]
    marks = spans(text)
    out = []
    for ix in range(len(marks) - 1):
        left, right = marks[ix], marks[ix + 1]
        adjacent = left[1] == right[0]
        if adjacent and ix == 0 and text[left[0]:left[1]] in ('return', 'jump', 'include', 'if', 'elif', 'while', 'for', 'function', 'async'):
            continue
        out.append((left[1], right[0]))
    return out


# ---------------------------------------------------------------- rewrites

COMMENTS = ('#', '# comment', '  # indented', '\t#tab', '# ends with a backslash \\', '#\\', '# if x:', '#endif', "# it's", '# "', '# function f():', '# a = 1', '##', '# \\  ',
            '#' + 'x' * 200)
BLANKS = ('', ' ', '    ', '\t', ' \t ')
INDENTS = ('', ' ', '  ', '    ', '\t', '\t\t', ' \t', '        ')
TRAIL = ('', '', ' ', '   ', '\t', ' \t ')


def filler(rng):
    return rng.choice(COMMENTS) if rng.random() < 0.5 else rng.choice(BLANKS)


def rewrite(rng, mon, lines, p_break=0.3, p_insert=0.3, p_indent=0.5, p_trail=0.4):
    """New physical lines for the logical lines"""
    out = []

    def insert(inside):
        while rng.random() < p_insert:
            out.append(filler(rng))
            mon.count('comments_inside_continuation' if inside else 'insertions')

    insert(False)
    for text in lines:
        if rng.random() < p_indent:
            text = rng.choice(INDENTS) + text.strip(' \t')
            mon.count('indents')
        spots = gaps(text)
        chosen = sorted(rng.sample(spots, min(len(spots), rng.choice((1, 1, 2, 3, len(spots)))))) if spots and rng.random() < p_break else []
        pieces, at = [], 0
        for left, right in chosen:
            pieces.append(text[at:left])
            at = right
        pieces.append(text[at:])
        if chosen and rng.random() < 0.1:
            pieces.insert(0, '')        # (leading whitespace is allowed, so a line can break there too)
        if chosen and rng.random() < 0.1:
            pieces.insert(rng.randint(1, len(pieces) - 1), '')
        for ix, piece in enumerate(pieces):
            if ix > 0:
                piece = rng.choice(INDENTS) + piece
            if ix < len(pieces) - 1:
                out.append(piece + rng.choice(('\\', ' \\', '  \\', '\t\\')) + rng.choice(TRAIL))
                mon.count('continuations')
                insert(True)
            else:
                if rng.random() < p_trail:
                    piece = piece.rstrip(' \t') + rng.choice(TRAIL)
                    mon.count('trailing')
                out.append(piece)
        insert(False)
    return out


def feed(rng, mon, physical):
    """A parse_script argument holding the physical lines: (argument factory, description)"""
    style = rng.choice(('\n', '\n', '\r\n', '\r\n', 'mixed'))
    ends = [rng.choice(('\n', '\r\n')) if style == 'mixed' else style for _ in physical]
    if style != '\n':
        mon.count('crlf')

    def joined(part, part_ends):
        return ''.join(line + end for line, end in zip(part[:-1], part_ends)) + part[-1]

    pick = rng.random()
    if pick < 0.4:
        text = joined(physical, ends)
        if rng.random() < 0.3:
            text += rng.choice(('\n', '\r\n', '\n\n', '\n  \n', '\n# end', '\n# end \\'))
        return (lambda: text), text
    cuts = sorted(rng.sample(range(1, len(physical)), min(len(physical) - 1, rng.randint(0, 6)))) if pick < 0.8 else list(range(1, len(physical)))
    chunks = [joined(physical[a:b], ends[a:b]) for a, b in zip([0] + cuts, cuts + [len(physical)])]
    mon.count('chunked')
    if rng.random() < 0.2:
        chunks = [chunk + rng.choice(('\n', '\r\n')) if rng.random() < 0.6 and not chunk.rstrip().endswith('\\') else chunk for chunk in chunks]
    if rng.random() < 0.2:
        chunks.insert(rng.randint(0, len(chunks)), '')
    form = rng.randrange(6)
    if form == 0:
        return (lambda: chunks), chunks
    if form == 1:
        return (lambda: tuple(chunks)), chunks
    if form == 2:
        mon.count('generator_chunks')
        return (lambda: (chunk for chunk in chunks)), chunks
    if form == 3:
        return (lambda: iter(chunks)), chunks
    if form == 4:
        return (lambda: collections.deque(chunks)), chunks
    return (lambda: map(str, chunks)), chunks


def outcome(argument):
    try:
        return 'ok', parse_script(argument)
    except BareScriptParserError as exc:
        return 'error', exc
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(f'parse_script raised {type(exc).__name__}: {str(exc)[:200]}', argument=str(argument)[:500]) from None


def agree(what, first, second, **detail):
    """The outcomes of two layouts of one program"""
    if first[0] != second[0]:
        raise Violation(f'{what}: one layout is accepted and the other rejected', first=str(first[1])[:600], second=str(second[1])[:600], **detail)
    if first[0] == 'ok' and first[1] != second[1]:
        raise Violation(f'{what}: the models differ', first=first[1], second=second[1], **detail)
    if first[0] == 'ok' and json.dumps(first[1]) != json.dumps(second[1]):
        raise Violation(f'{what}: the models differ in a value type or member order', first=json.dumps(first[1])[:2000], second=json.dumps(second[1])[:2000], **detail)


def layout_case(mon, rng, text, n=4, **probabilities):
    """Rewrites of one base text"""
    base = None
    try:
        lines = [line.text for line in accept(text)]
        valid = True
    except ScriptReject:
        logical = logical_lines(physical_lines(text))
        valid = False
        lines = [line.text for line in logical]
        if any(line.open for line in logical):
            return
    for _ in range(n):
        if valid:
            physical = rewrite(rng, mon, lines, **probabilities) or ['']
        else:
            physical = rewrite(rng, mon, lines, **{**probabilities, 'p_break': 0}) or ['']
        argument, shown = feed(rng, mon, physical)
        with mon.case(lambda: {'text': text, 'rewritten': shown}, key=(text, str(shown)), nontrivial=bool(lines)):
            if base is None:
                base = outcome(text)
                mon.count('joined')
                agree('continued lines joined', base, outcome('\n'.join(lines)), lines=lines)
            mon.count('rewrites')
            before = copy.deepcopy(shown)
            other = outcome(argument())
            agree('layout rewrite', base, other, rewritten=shown)
            if base[0] == 'error':
                mon.count('rejected_stay_rejected')
            if shown != before:
                raise Violation('parse_script modified its argument', before=before, after=shown)


def every_gap(mon, text):
    """A break at each gap of each line in turn"""
    try:
        lines = [line.text for line in accept(text)]
    except ScriptReject:
        return
    with mon.case(lambda: {'text': text, 'breaks': 'every gap'}, key=('gaps', text), nontrivial=bool(lines)):
        base = outcome('\n'.join(lines))
        for ix, line in enumerate(lines):
            for left, right in gaps(line):
                broken = lines[:ix] + [line[:left] + '\\', line[right:]] + lines[ix + 1:]
                mon.count('every_gap')
                agree('a break at one gap', base, outcome('\n'.join(broken)), line=line, broken=[line[:left] + '\\', line[right:]])
            # Spaces instead of breaks: the same claim without the backslash (whitespace is insignificant at both ends)
            padded = lines[:ix] + ['\t ' + line.strip(' \t') + ' \t'] + lines[ix + 1:]
            agree('indentation and trailing whitespace', base, outcome('\r\n'.join(padded)), line=line)


# ---------------------------------------------------------------- statelessness

def text_of_rng(rng):
    pick = rng.random()
    if pick < 0.55:
        return '\n'.join(base_program(rng))
    if pick < 0.8:
        return '\n'.join(mutate(rng, base_program(rng)))
    if pick < 0.9:
        return '\n'.join(rng.choice(EXTRA) for _ in range(rng.randint(1, 5)))
    return rng.choice(('function f():', 'if a:\nwhile b:', 'x = \\', 'x = (', 'for a in b:\nfunction g():', 'include <a>\ninclude <b>', "include 'a'\ninclude <b>\n# c\ninclude 'd'",
                       'while a:\n  break', 'function f():\nendfunction\nendfunction', 'if a:\nendfunction', '', 'a = 1 \\\n + 2 \\', 'else:', 'x = 1\nelif b:'))


def frozen(result):
    """A comparable form of an outcome"""
    status, value = result
    if status == 'ok':
        return 'ok', json.dumps(value)
    return 'error', str(value), value.error, value.line, value.column_number, value.line_number


def expr_outcome(text):
    try:
        return 'ok', parse_expression(text)
    except BareScriptParserError as exc:
        return 'error', exc
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(f'parse_expression raised {type(exc).__name__}: {str(exc)[:200]}', text=text) from None


def spoil(node):
    """Modify a returned model in place, everywhere"""
    if isinstance(node, dict):
        for value in list(node.values()):
            spoil(value)
        node['spoiled'] = True
    elif isinstance(node, list):
        for value in node:
            spoil(value)
        node.append('spoiled')


def history_case(mon, rng):
    texts = [text_of_rng(rng) for _ in range(rng.randint(2, 4))]
    exprs = [(near_soup if rng.random() < 0.7 else expr_soup)(rng) for _ in range(rng.randint(1, 3))]
    with mon.case(lambda: {'texts': texts, 'exprs': exprs}, key=('history', tuple(texts), tuple(exprs))):
        first, order = {}, []
        calls = [('script', text) for text in texts] + [('expr', text) for text in exprs]
        for call in calls:
            result = outcome(call[1]) if call[0] == 'script' else expr_outcome(call[1])
            first[call] = frozen(result)
            if rng.random() < 0.5 and result[0] == 'ok':
                spoil(result[1])
                mon.count('mutated_results')
            order.append(call)
        for _ in range(8):
            call = rng.choice(calls)
            order.append(call)
            if call[0] == 'script' and rng.random() < 0.4:
                # Another parse runs while this one consumes its input
                other = rng.choice(calls)
                mon.count('reentrant')

                def chunks(lines=physical_lines(call[1]), other=other):
                    for ix, line in enumerate(lines):
                        if ix % 2 == 0:
                            got = outcome(other[1]) if other[0] == 'script' else expr_outcome(other[1])
                            if frozen(got) != first[other]:
                                raise Violation('a parse nested in the input of another one gives a different result', text=other[1], before=first[other], after=frozen(got))
                        yield line
                try:
                    result = ('ok', parse_script(chunks()))
                except BareScriptParserError as exc:
                    result = ('error', exc)
            elif call[0] == 'script' and rng.random() < 0.15:
                # The input ends in the middle with an exception of its own
                def broken(lines=physical_lines(call[1])):
                    yield from lines[:len(lines) // 2]
                    raise KeyError('input')
                try:
                    parse_script(broken())
                except (KeyError, BareScriptParserError):
                    pass
                except Exception as exc:  # pylint: disable=broad-except
                    raise Violation(f'parse_script raised {type(exc).__name__}: {exc}') from None
                mon.count('interrupted')
                result = outcome(call[1])
            else:
                result = outcome(call[1]) if call[0] == 'script' else expr_outcome(call[1])
            mon.count('repeat_calls')
            got = frozen(result)
            if got != first[call]:
                raise Violation('the same text parses differently later', text=call[1], before=first[call], after=got, order=[c[1] for c in order])
            if rng.random() < 0.3 and result[0] == 'ok':
                spoil(result[1])
        mon.count('interleaved')


def thread_case(mon, rng):
    """Concurrent parses with a tiny switch interval"""
    texts = [text_of_rng(rng) for _ in range(6)]
    expected = [frozen(outcome(text)) for text in texts]
    with mon.case(lambda: {'threads': texts}, key=('threads', tuple(texts))):
        bad = []
        seed = rng.random()

        def work(k):
            import random
            own = random.Random(f'{seed}:{k}')
            for _ in range(12):
                ix = own.randrange(len(texts))
                try:
                    got = frozen(outcome(physical_lines(texts[ix]) if own.random() < 0.3 else texts[ix]))
                except Violation as exc:
                    bad.append((ix, exc.what))
                    return
                if got != expected[ix]:
                    bad.append((ix, got))
        interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            threads = [threading.Thread(target=work, args=(k,)) for k in range(4)]
            for thread in threads:
                thread.start()
            for thread in threads:
                thread.join()
        finally:
            sys.setswitchinterval(interval)
        mon.count('threads', len(threads))
        if bad:
            raise Violation('concurrent parses interfere', text=texts[bad[0][0]], expected=expected[bad[0][0]], observed=bad[0][1])


CHILD = '''
import json, sys
from bare_script import BareScriptParserError, parse_expression, parse_script
out = []
for kind, text in json.load(sys.stdin):
    try:
        out.append(json.dumps((parse_script if kind == 'script' else parse_expression)(text)))
    except BareScriptParserError as exc:
        out.append(str(exc))
json.dump(out, sys.stdout)
'''


def process_case(mon, rng):
    """Fresh processes with different hash seeds, in a different order"""
    calls = [('script', text_of_rng(rng)) for _ in range(40)] + [('expr', near_soup(rng)) for _ in range(40)]
    mine = []
    for kind, text in calls:
        result = outcome(text) if kind == 'script' else expr_outcome(text)
        mine.append(json.dumps(result[1]) if result[0] == 'ok' else str(result[1]))
    for seed in ('0', '1', str(rng.randrange(2, 10 ** 6))):
        order = list(range(len(calls)))
        rng.shuffle(order)
        with mon.case(lambda: {'process': seed, 'calls': len(calls)}, key=('process', seed, tuple(calls))):
            env = {**os.environ, 'PYTHONHASHSEED': seed}
            done = subprocess.run([sys.executable, '-c', CHILD], input=json.dumps([calls[ix] for ix in order]), capture_output=True, text=True, env=env, check=False)
            if done.returncode != 0:
                raise Violation('parsing in another process failed', stderr=done.stderr[-1500:])
            mon.count('processes')
            for ix, text in zip(order, json.loads(done.stdout)):
                if text != mine[ix]:
                    raise Violation('another process parses the text differently', text=calls[ix][1], here=mine[ix], there=text, hashseed=seed)


def shipped():
    """The .bare scripts of the repository"""
    root = os.path.dirname(bare_script.__file__)
    repo = os.path.realpath(os.environ.get('VF_REPO', '/repo'))
    paths = set(glob.glob(os.path.join(root, '**', '*.bare'), recursive=True))
    for base, dirs, files in os.walk(repo):
        dirs[:] = [name for name in dirs if not name.startswith('.') and name != 'build']
        paths.update(os.path.join(base, name) for name in files if name.endswith('.bare'))
    return sorted({os.path.realpath(path) for path in paths})


FEATURES = ("include <a.bare>\ninclude 'b.bare'\n\ninclude <c.bare>", 'async function f(a, b...):\n  return a + 1\nendfunction\nf(1)', 'function  g ( a , b , c... ) :\nendfunction',
            'function h(x ...):\n return\nendfunction', "x='a  b' + 'c\t d' + \"# not a comment\" + '\\\\'", "f('a\\'b', \"c\\\"d\", [e \\] f], [g  h])", 'jumpif(a&&!b)c\n', 'jumpif ( a ) b',
            'for a,b in c :\nendfor', 'for  a  in  f ( b ) :\n continue\nendfor', 'x=1+2*3**-4%5', 'x = 1.5e+10+-2e-3 - +7', 'x = a<=b||c>=d&&e!=f==g', 'lab:\njump lab',
            'if a:\n if b:\n x\n elif c:\n y\n else :\n z\n endif\nendif', 'while a:\n if b:\n  break\n endif\n continue\nendwhile', 'return', 'return a', 'return (a)', 'returns(a)',
            "x = '\\\\n'", "x = 'trailing   '", "x = '   leading'", 'x = if(a, b, c)', 'iff = 1\nif1(a)', 'x = -1\nx = --1\nx = !-!a', 'f ( a , ( b ) , g ( ) )', "include 'a  b.bare'",
            "x = f(1, 'a:', 2)\ny = ':'", "if 'a:' == b:\nendif", 'endx = 1\nbreaks = 2\ncontinue1 = 3', "systemLog('a \\\\')", '[a b c]', "x = 'a\u2003b' + 'é\U0001f600'",
            "x = 'a\x0bb\x0cc'", "x = 'a = b'", "f('x', 'endif')")


def plan(tier):
    quick = tier == 'quick'
    shards = []
    for ix in range(16 if quick else 96):
        shards.append(('layout', {'n': 260 if quick else 5000, 'cost': 4}))
        shards.append(('history', {'n': 100 if quick else 1500, 'cost': 2}))
    for ix in range(8):
        shards.append(('shipped', {'part': ix, 'n': 3 if quick else 60, 'cost': 5}))
        shards.append(('process', {'n': 2 if quick else 20, 'cost': 2}))
    shards.append(('features', {'n': 40 if quick else 600, 'cost': 5}))
    return shards


def shard(kind, spec, rng, mon):
    if kind == 'layout':
        for _ in range(spec['n']):
            text = '\n'.join(base_program(rng) if rng.random() < 0.8 else mutate(rng, base_program(rng)))
            if rng.random() < 0.3:
                parts = [text, rng.choice(FEATURES)]
                rng.shuffle(parts)
                text = '\n'.join(parts)
            if not judged(text) and not text.isascii():
                continue
            layout_case(mon, rng, text, p_break=rng.choice((0.3, 0.3, 1)), p_insert=rng.choice((0, 0.3, 0.3, 0.6)))
            if rng.random() < 0.15:
                every_gap(mon, text)
    elif kind == 'features':
        for text in FEATURES:
            every_gap(mon, text)
            layout_case(mon, rng, text, spec['n'], p_break=1)
    elif kind == 'shipped':
        for ix, path in enumerate(shipped()):
            if ix % 8 != spec['part']:
                continue
            with open(path, encoding='utf-8') as fh:
                text = fh.read()
            mon.count('shipped_texts')
            layout_case(mon, rng, text, spec['n'])
            layout_case(mon, rng, text, spec['n'], p_break=0.9)
            if len(text) < 4000:
                every_gap(mon, text)
    elif kind == 'history':
        for ix in range(spec['n']):
            history_case(mon, rng)
            if ix % 10 == 0:
                thread_case(mon, rng)
    else:
        for _ in range(spec['n']):
            process_case(mon, rng)
