"""C02: expression text -> tree. Differential: parse_expression against a second, character-level precedence-climbing recogniser."""
import itertools

from bare_script import BareScriptParserError, parse_script

from vf.exprparse import Reject, normal, ref_parse, strip_groups
from vf.host import parses
from vf.lang import BINARY_OPS, binop, call, group, num, render, string, unop, var
from vf.run import Violation

RULE = ('A case is one expression text, parsed by parse_expression (and a sample of them again inside assignment/return/if/while/for/jumpif '
        'statements) and compared with the reference recogniser: same tree, or both reject. Texts: every operator chain up to length 3 (thorough: 5; '
        'quick samples length 4 exhaustively) plain and with unary/parenthesis decorations, random rendered trees, token soup, and character '
        'mutations of valid texts. Non-trivial: at least one operator, call, group or rejected text; distinct by text.')
REQUIRED = ('accepted', 'rejected', 'trees_round_trip', 'statement_contexts', 'statement_rejects', 'mixed_precedence', 'long_tokens', 'blank_expressions')
ASSUMPTIONS = ('Judged texts are ASCII; nesting depth and chain length stay below 200 (deeper text is rejected by the recursion guard).',
               'Whitespace at the end of a bracketed variable name is not judged.')

NAMES = ('a', 'b', 'c', 'd', 'e', 'f')


def ref(text):
    try:
        return ref_parse(text)
    except Reject:
        return None


def precedences(model, out):
    (key, node), = model.items()
    if key == 'binary':
        out.add(node['op'])
        precedences(node['left'], out)
        precedences(node['right'], out)
    return out


def check_text(mon, text, context=None):
    expected = ref(text)
    status, model = parses(text)
    if expected is None:
        mon.count('rejected')
        if status == 'ok':
            raise Violation('text that is no well-formed expression was accepted', text=text, model=model)
    else:
        mon.count('accepted')
        if status != 'ok':
            raise Violation('a well-formed expression was rejected', text=text, expected=expected, error=str(model))
        if normal(model) != normal(expected):
            raise Violation('the tree is not the one the precedence rules dictate', text=text, expected=expected, observed=model)
        if len(precedences(model, set())) > 1:
            mon.count('mixed_precedence')
    if context is not None:
        in_statement(mon, text, expected, context)
    return expected


CONTEXTS = {
    'assign': ('x = {}', lambda s: s['expr']['expr']),
    'return': ('return {}', lambda s: s['return']['expr']),
    'if': ('if {} :\nendif', lambda s: s['jump']['expr']['unary']['expr']),
    'while': ('while {} :\nendwhile', lambda s: s['jump']['expr']['unary']['expr']),
    'for': ('for v in {} :\nendfor', lambda s: s['expr']['expr']),
    'jumpif': ('jumpif ({}) lab\nlab:', lambda s: s['jump']['expr']),
    'arg': ('f({})', lambda s: s['expr']['expr']['function']['args'][0]),
    'function': ('function g():\n    return {}\nendfunction', lambda s: s['function']['statements'][0]['return']['expr']),
}


def in_statement(mon, text, expected, context):
    if '\n' in text or '\r' in text or text.strip() == '' or text.rstrip().endswith('\\'):
        return
    template, get = CONTEXTS[context]
    script = template.format(text)
    if expected is None and context not in ('assign', 'return', 'function'):
        return      # other statement forms could legitimately read the text differently
    if text.lstrip()[0] in '=:':
        return      # 'return = 1' assigns a variable, 'return:' is a label
    if ref(text.strip()) is None and expected is not None:
        return
    try:
        statements = parse_script(script)['statements']
        status = 'ok'
    except BareScriptParserError as exc:
        status, statements = 'error', exc
    if expected is None:
        mon.count('statement_rejects')
        if status == 'ok':
            raise Violation('a statement with a malformed expression was accepted', text=script, model=statements)
        return
    mon.count('statement_contexts')
    if status != 'ok':
        raise Violation('a statement with a well-formed expression was rejected', text=script, error=str(statements))
    try:
        observed = get(statements[0])
        good = normal(observed) == normal(expected)
    except (KeyError, IndexError, TypeError, AttributeError, ValueError):
        observed, good = statements, False
    if not good:
        # The lowered form of a block condition is not part of this property: accept any place where the expression occurs intact
        if context in ('if', 'while', 'for') and occurs(statements, normal(expected)):
            return
        raise Violation(f'the expression of the {context} statement has another tree', text=script, expected=expected, observed=observed)


def occurs(node, expected):
    if isinstance(node, dict):
        try:
            if normal(node) == expected:
                return True
        except (ValueError, KeyError, TypeError, AttributeError):
            pass
        return any(occurs(value, expected) for value in node.values())
    if isinstance(node, list):
        return any(occurs(value, expected) for value in node)
    return False


# ---------------------------------------------------------------- generators

def chain_text(ops, rng, decorate):
    parts = []
    for ix in range(len(ops) + 1):
        operand = NAMES[ix % 6]
        if decorate:
            pick = rng.random()
            if pick < 0.15:
                operand = '-' + operand
            elif pick < 0.3:
                operand = '!' + operand
            elif pick < 0.35:
                operand = '- !' + operand
            elif pick < 0.45:
                operand = '2.5'
            elif pick < 0.5:
                operand = 'f(1, a)'
        parts.append(operand)
    if decorate and len(ops) > 1 and rng.random() < 0.7:
        start = rng.randrange(len(parts))
        stop = rng.randrange(start, len(parts))
        parts[start] = rng.choice(('(', '-(', '!(', 'g(')) + parts[start]
        parts[stop] += ')'
    text = parts[0]
    for op, part in zip(ops, parts[1:]):
        gap = (' ', ' ') if not decorate else (rng.choice(('', ' ', '  ', '\t')), rng.choice(('', ' ', '\n')))
        text += gap[0] + op + gap[1] + part
    return text


STRINGS = ('', 'a', "it's", 'say "hi"', 'back\\slash', '\\', "\\'", 'a\\\\b', "'", '"', ']', 'x]y', '(', '1 + 2', '#', 'caf\u00e9', 'tail\\')


def random_tree(rng, depth):
    pick = rng.random()
    if depth <= 0 or pick < 0.12:
        pick = rng.random()
        if pick < 0.3:
            return num(rng.choice((0, 1, 7, 12, 0.5, 3.25, 100, 1e21, 1.5e-7, 2 ** 40)))
        if pick < 0.55:
            return string(rng.choice(STRINGS))
        return var(rng.choice(NAMES + ('null', 'true', 'abc1', '_x', 'if1', 'a b', 'x]y', 'b\\c', 'Total (%)', '9lives')))
    if pick < 0.7:
        return binop(rng.choice(BINARY_OPS), random_tree(rng, depth - 1), random_tree(rng, depth - 1))
    if pick < 0.8:
        return unop(rng.choice('!-'), random_tree(rng, depth - 1))
    if pick < 0.88:
        return group(random_tree(rng, depth - 1))
    return call(rng.choice(('f', 'if', 'g2', 'max', '_h')), *[random_tree(rng, depth - 2) for _ in range(rng.choice((0, 1, 2, 3)))])


TOKENS = ('a', 'b', 'f', 'x1', 'null', '1', '2.5', '3.', '.5', '1e+3', '2e-2', '1e3', '007', '+5', '-5', "'s'", '"d"', "''", '""', "'\\''", '"\\\\"',
          "'", '"', '[v w]', '[v\\]]', '[', ']', '(', ')', '(', ')', ',', '!', '-', '+', '=', '&', '|', '.', '\\', '#', ':', '@', '[]', '0x1',
          '1_0') + tuple(BINARY_OPS)


def soup(rng):
    return ''.join(rng.choice(TOKENS) + rng.choice(('', '', ' ', ' ', '\t')) for _ in range(rng.randint(1, rng.choice((3, 5, 9)))))


def near_soup(rng):
    """Alternating operand/operator token streams, mostly well formed"""
    out = []
    depth = 0
    for ix in range(rng.randint(1, 7)):
        if ix:
            out.append(rng.choice(BINARY_OPS))
        while rng.random() < 0.3:
            out.append(rng.choice(('-', '!', '(', 'f(', '(')))
            depth += out[-1].endswith('(')
        out.append(rng.choice(('a', '1', "'s'", '"d"', '[v w]', '2.5e+1', 'f()', 'g(1, b)', '+3')))
        while depth and rng.random() < 0.4:
            out.append(')')
            depth -= 1
    out += [')'] * depth
    if rng.random() < 0.4:
        out[rng.randrange(len(out))] = rng.choice(TOKENS)
    if rng.random() < 0.2:
        del out[rng.randrange(len(out))]
    return rng.choice(('', ' ')).join(out)


def long_token(rng):
    """A literal or name of up to several thousand characters"""
    size = rng.choice((17, 18, 20, 31, 32, 33, 64, 100, 200, 300))
    pick = rng.random()
    if pick < 0.5:
        digits = ''.join(rng.choice('0123456789') for _ in range(size))
        zeros = '0' * rng.randint(0, 300)
        return rng.choice((digits, f'{digits}.{digits}', f'0.{zeros}{digits}', f'{digits}.', f'{zeros}{digits[:20]}', f'{digits}e-{size}', f'{digits[:5]}.{digits}e+{rng.randint(0, 290)}',
                           f'{digits[:17]}{zeros[:280]}', f'{digits[:9]}e-000{digits[:2]}', f'{digits}.{digits}e-{rng.randint(1, 600)}'))
    size *= rng.choice((1, 1, 10))
    if pick < 0.65:
        return rng.choice('abXY_') + ''.join(rng.choice('ab_Z09') for _ in range(size))
    if pick < 0.75:
        return '[' + 'n' + ''.join(rng.choice('ab (%+\\') for _ in range(size)) + 'm]'
    quote = rng.choice('\'"')
    return quote + ''.join(rng.choice(('a', 'b', ' ', '(', ')', '+', ',', '\\\\', '\\' + quote, '\\n', '"' if quote == "'" else "'")) for _ in range(size)) + quote


MUTANTS = "()!-+*/%<>=&|,'\"[]\\ .0aex_#"


def bracket_unjudged(text):
    """Whitespace before a closing bracket (or an all-space name): not judged"""
    ix = text.find(']')
    while ix >= 0:
        if ix > 0 and text[ix - 1].isspace():
            return True
        ix = text.find(']', ix + 1)
    return False


def plan(tier):
    quick = tier == 'quick'
    shards = [('chains', {'length': n, 'first': op, 'cost': 1}) for n in (1, 2, 3) for op in BINARY_OPS]
    shards += [('chains', {'length': 4, 'first': op, 'cost': 3}) for op in BINARY_OPS]
    if not quick:
        shards += [('chains', {'length': 5, 'first': op, 'cost': 20}) for op in BINARY_OPS]
    for ix in range(8 if quick else 64):
        shards.append(('trees', {'index': ix, 'n': 12000 if quick else 20000, 'cost': 5}))
        shards.append(('soup', {'index': ix, 'n': 20000 if quick else 60000, 'cost': 3}))
        shards.append(('long', {'index': ix, 'n': 60 if quick else 400, 'cost': 4}))
        shards.append(('tokens', {'index': ix, 'n': 400 if quick else 2000, 'cost': 2}))
    shards.append(('blank', {'cost': 1}))
    return shards


def shard(kind, spec, rng, mon):
    contexts = sorted(CONTEXTS)
    if kind == 'chains':
        for rest in itertools.product(BINARY_OPS, repeat=spec['length'] - 1):
            ops = (spec['first'],) + rest
            text = chain_text(ops, rng, False)
            with mon.case(text):
                check_text(mon, text)
            for _ in range(2 if spec['length'] > 2 else 12):
                text = chain_text(ops, rng, True)
                with mon.case(text):
                    check_text(mon, text)
    elif kind == 'trees':
        for _ in range(spec['n']):
            tree = random_tree(rng, rng.randint(1, 7))
            text = render(tree, rng)
            if bracket_unjudged(text) or len(text) > 2000:
                continue
            with mon.case(text):
                expected = check_text(mon, text, rng.choice(contexts))
                if expected is None or strip_groups(expected) != strip_groups(tree):
                    raise RuntimeError(f'oracle self-check failed for {text!r}')
                mon.count('trees_round_trip')
            for _ in range(2):
                ix = rng.randrange(len(text) + 1)
                pick = rng.random()
                mutant = text[:ix] + rng.choice(MUTANTS) + text[ix:] if pick < 0.4 else \
                    (text[:ix] + text[ix + 1:] if pick < 0.7 else text[:ix] + rng.choice(MUTANTS) + text[ix + 1:])
                if mutant and not bracket_unjudged(mutant):
                    with mon.case(mutant):
                        check_text(mon, mutant, rng.choice(contexts) if rng.random() < 0.5 else None)
    elif kind == 'soup':
        for _ in range(spec['n']):
            text = soup(rng) if rng.random() < 0.5 else near_soup(rng)
            if bracket_unjudged(text):
                continue
            with mon.case(text):
                check_text(mon, text, rng.choice(contexts) if rng.random() < 0.3 else None)
    elif kind == 'tokens':
        for _ in range(spec['n']):
            text = rng.choice(('{}', 'a + {}', '{} * b', 'f({}, 1)', '-{}', '({} == {})', 'f({}) {}', '{} {}')).replace('{}', '\0')
            while '\0' in text:
                text = text.replace('\0', long_token(rng), 1)
            if bracket_unjudged(text):
                continue
            with mon.case(text):
                mon.count('long_tokens')
                check_text(mon, text, rng.choice(contexts))
    elif kind == 'blank':
        for space in ('', ' ', '  ', '\t', ' \t '):
            for template in ('x ={}', 'x = {}', 'x = ({})', 'jumpif ({}) lab\nlab:', 'jumpif({}) lab\nlab:', 'jumpif (a +{}) lab\nlab:', 'for v in {}:\nendfor', 'for v, i in {}:\nendfor',
                             'return ({})', 'return a +{}', 'f(a,{})', 'f({},a)', 'if ({}):\nendif', 'if a &&{}:\nendif', 'elif ({}):', 'while ({}):\nendwhile', 'while !{}:\nendwhile', '-{}', '!{}',
                             'if a:\nelif ({}):\nendif', 'function g():\n    x ={}\nendfunction', '({})', 'a *{}'):
                text = template.format(space)
                with mon.case(text):
                    mon.count('blank_expressions')
                    try:
                        model = parse_script(text)
                    except BareScriptParserError:
                        continue
                    raise Violation('a statement without its expression was accepted', text=text, model=model)
    else:
        for _ in range(spec['n']):
            ops = [rng.choice(BINARY_OPS) for _ in range(rng.randint(10, 120))]
            text = chain_text(ops, rng, rng.random() < 0.7)
            with mon.case(text):
                check_text(mon, text, rng.choice(contexts))
            n = rng.randint(5, 60)
            text = '(' * n + 'a' + rng.choice((')', ')', ' + b)', ' ** 2)')) * n
            with mon.case(text):
                check_text(mon, text)
            text = ''.join(rng.choice('!-') for _ in range(n)) + 'a ** -b'
            with mon.case(text):
                check_text(mon, text)
