"""C14: JSON serialisation is faithful. Round-trip monitor with an independent strict JSON reader."""
import copy
import itertools
import json
import math

from bare_script import parse_script

from vf.checks.c13 import random_number
from vf.host import execute, library
from vf.run import Violation
from vf.values import compare, same, show, snapshot

RULE = ('A case is one value and one indentation. Strings: every string of length <= 4 over {a . 0 , ] }} as value, key, array element and next to numbers; random '
        'strings over an alphabet of punctuation, escapes, control characters, line separators, non-BMP code points; number-like and JSON-like texts. '
        'Values to depth 5 (some to 200), numbers as in C13, indent none and 1..8. The text is read by a strict reader written for this check, by the '
        'host JSON parser and by jsonParse; all must give the value back; keys sorted, integers without fraction, indentation only between tokens, '
        'different values different texts; a value changed in place is written anew, a text parsed twice gives two values. Distinct by (value, indent).')
REQUIRED = ('texts', 'round_trips', 'exhaustive_strings', 'as_keys', 'indented', 'numbers', 'integral_numbers', 'non_bmp', 'control', 'escaped', 'objects_sorted', 'distinct_pairs',
            'string_paths', 'parsed_foreign', 'arguments_unchanged', 'long_strings', 'parsed_again', 'changed_in_place')
ASSUMPTIONS = ('Lone surrogates are not judged (they have no UTF-8 form); the sign of zero is not judged.',)


class Bad(Exception):
    pass


class Reader:
    """A strict RFC 8259 reader that also records the order of keys and the number tokens"""

    def __init__(self, text):
        self.text, self.ix = text, 0
        self.numbers, self.sorted = [], True

    def fail(self, what):
        raise Bad(f'{what} at {self.ix}: {self.text[max(0, self.ix - 20):self.ix + 20]!r}')

    def space(self):
        while self.text[self.ix:self.ix + 1] in (' ', '\t', '\n', '\r') and self.ix < len(self.text):
            self.ix += 1

    def token(self, chars):
        if not self.text.startswith(chars, self.ix):
            self.fail(f'expected {chars!r}')
        self.ix += len(chars)

    def read(self):
        self.space()
        value = self.value()
        self.space()
        if self.ix != len(self.text):
            self.fail('trailing text')
        return value

    def value(self):
        char = self.text[self.ix:self.ix + 1]
        if char == '{':
            out = {}
            self.token('{')
            self.space()
            last = None
            if self.text[self.ix:self.ix + 1] != '}':
                while True:
                    self.space()
                    key = self.string()
                    if key in out:
                        self.fail('duplicate key')
                    if last is not None and not last < key:
                        self.sorted = False
                    last = key
                    self.space()
                    self.token(':')
                    self.space()
                    out[key] = self.value()
                    self.space()
                    if self.text[self.ix:self.ix + 1] != ',':
                        break
                    self.token(',')
            self.token('}')
            return out
        if char == '[':
            out = []
            self.token('[')
            self.space()
            if self.text[self.ix:self.ix + 1] != ']':
                while True:
                    self.space()
                    out.append(self.value())
                    self.space()
                    if self.text[self.ix:self.ix + 1] != ',':
                        break
                    self.token(',')
            self.token(']')
            return out
        if char == '"':
            return self.string()
        for word, value in (('null', None), ('true', True), ('false', False)):
            if self.text.startswith(word, self.ix):
                self.token(word)
                return value
        return self.number()

    def digits(self):
        start = self.ix
        while '0' <= self.text[self.ix:self.ix + 1] <= '9':
            self.ix += 1
        if self.ix == start:
            self.fail('expected a digit')

    def number(self):
        start = self.ix
        if self.text[self.ix:self.ix + 1] == '-':
            self.ix += 1
        if self.text[self.ix:self.ix + 1] == '0':
            self.ix += 1
        else:
            self.digits()
        if self.text[self.ix:self.ix + 1] == '.':
            self.ix += 1
            self.digits()
        if self.text[self.ix:self.ix + 1] in ('e', 'E'):
            self.ix += 1
            if self.text[self.ix:self.ix + 1] in ('+', '-'):
                self.ix += 1
            self.digits()
        token = self.text[start:self.ix]
        self.numbers.append(token)
        return float(token)

    def string(self):
        if self.text[self.ix:self.ix + 1] != '"':
            self.fail('expected a string')
        self.ix += 1
        units = []      # UTF-16 code units and code points
        simple = {'"': '"', '\\': '\\', '/': '/', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
        while True:
            char = self.text[self.ix:self.ix + 1]
            if char == '':
                self.fail('unterminated string')
            if char == '"':
                self.ix += 1
                break
            if ord(char) < 32:
                self.fail('raw control character')
            if char == '\\':
                kind = self.text[self.ix + 1:self.ix + 2]
                if kind in simple and kind:
                    units.append(ord(simple[kind]))
                    self.ix += 2
                elif kind == 'u':
                    code = self.text[self.ix + 2:self.ix + 6]
                    if len(code) != 4 or any(c not in '0123456789abcdefABCDEF' for c in code):
                        self.fail('bad escape')
                    units.append(int(code, 16))
                    self.ix += 6
                else:
                    self.fail('bad escape')
            else:
                units.append(ord(char))
                self.ix += 1
        out = []
        ix = 0
        while ix < len(units):
            code = units[ix]
            if 0xd800 <= code < 0xdc00 and ix + 1 < len(units) and 0xdc00 <= units[ix + 1] < 0xe000:
                out.append(chr(0x10000 + ((code - 0xd800) << 10) + (units[ix + 1] - 0xdc00)))
                ix += 2
            else:
                out.append(chr(code))
                ix += 1
        return ''.join(out)


def numbers_of(value, out):
    if type(value) in (int, float):
        out.append(value)
    elif type(value) is list:
        for item in value:
            numbers_of(item, out)
    elif type(value) is dict:
        for key in sorted(value):
            numbers_of(value[key], out)
    return out


def reject_constant(name):
    raise Bad(f'{name} is no JSON')


_MODEL = {}


def model(text):
    if text not in _MODEL:
        _MODEL[text] = parse_script(text)
    return _MODEL[text]


def stringify(value, indent):
    """The text, through a direct call or through a script"""
    try:
        return library()['jsonStringify']([value] if indent is None else [value, indent], None)
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(f'jsonStringify failed: {type(exc).__name__}: {str(exc)[:300]}') from None


def check_value(mon, value, indents, script=False, nontrivial=True):
    for indent in (None, *indents):
        with mon.case(lambda: {'value': show(value), 'indent': indent}, key=(show(value) if not isinstance(value, str) else value, type(value).__name__, indent), nontrivial=nontrivial):
            before = snapshot(value)
            text = stringify(value, indent)
            mon.count('texts')
            if snapshot(value) != before:
                raise Violation('jsonStringify modified its argument')
            mon.count('arguments_unchanged')
            if type(text) is not str:
                raise Violation('jsonStringify returned no text', observed=show(text))
            reader = Reader(text)
            try:
                back = reader.read()
            except Bad as exc:
                raise Violation(f'the text is not valid JSON: {exc}', text=text[:1500]) from None
            if not same(back, value):
                raise Violation('the text denotes another value', text=text[:1500], denotes=show(back), value=show(value))
            try:
                host = json.loads(text, parse_constant=reject_constant)
            except (ValueError, Bad) as exc:
                raise Violation(f'the host JSON parser rejects the text: {exc}', text=text[:1500]) from None
            if not same(host, value):
                raise Violation('the host JSON parser reads another value', text=text[:1500], denotes=show(host))
            if script and indent is None:
                out = execute(model('return jsonParse(jsonStringify(v))'), {'v': value})
                parsed = out.value
                if out.kind != 'value':
                    raise Violation('jsonParse(jsonStringify(v)) failed', observed=out.text(), text=text[:1500])
            else:
                try:
                    parsed = library()['jsonParse']([text], None)
                except Exception as exc:  # pylint: disable=broad-except
                    raise Violation(f'jsonParse failed: {type(exc).__name__}: {exc}', text=text[:1500]) from None
            mon.count('round_trips')
            if not same(parsed, value):
                raise Violation('jsonParse(jsonStringify(v)) differs from v', text=text[:1500], observed=show(parsed), value=show(value))
            if compare(parsed, value) != 0 or library()['systemCompare']([parsed, value], None) != 0:
                raise Violation('jsonParse(jsonStringify(v)) does not compare equal to v', text=text[:1500])
            if not reader.sorted:
                raise Violation('the object keys are not in sorted order', text=text[:1500])
            if any(type(item) is dict for item in ([value] + (value if type(value) is list else list(value.values()) if type(value) is dict else []))):
                mon.count('objects_sorted')
            numbers = numbers_of(value, [])
            mon.count('numbers', len(numbers))
            for number, token in zip(numbers, reader.numbers):
                if number == math.floor(number):
                    mon.count('integral_numbers')
                    if abs(number) < 1e16 and ('.' in token or 'e' in token.lower()) or '.' in token and token.rstrip('0').endswith('.'):
                        raise Violation('an integral number is written with a fraction', token=token, text=text[:1500])
            if indent is not None:
                mon.count('indented')
            if type(value) in (list, dict) and indent is None:
                # The text form of a container is its JSON text
                for path, got in (('stringNew', library()['stringNew']([value], None)), ("'' + v", execute(model("return '' + v"), {'v': value}).value)):
                    mon.count('string_paths')
                    reader = Reader(got)
                    try:
                        if not same(reader.read(), value):
                            raise Violation(f'{path} gives a text that denotes another value', text=got[:1500])
                    except Bad as exc:
                        raise Violation(f'{path} gives a text that is not JSON: {exc}', text=got[:1500]) from None


SMALL = 'a.0,]}'
CHARS = list('aaab..00,,]]}}[[{{""\\\\//::  eE+-19_#\'') + ['\n', '\r', '\t', '\b', '\f', '\x00', '\x01', '\x1f', '\x7f', '\x80', '\x85', 'é', '\u00a0', '\u2028', '\u2029', '\ufeff', '\uffff', '\ufffd',
                                                          '\U0001f600', '\U0010ffff', '\U00010000', '中']
FRAGMENTS = ('.0', '1.0', '.0,', '.00]', '0.0}', 'etc., x', '"', '\\', '\\"', '\\\\"', '":', '","', 'null', 'true', '1e5', '1.0e5', '.0e', '\\u0041', '\\n', '{"a":1.0}', '[1.0,2.0]', '"1.0"', '\\".0', '\\\\".0',
             ' 1.0 ', '\n1.0\n', '-0.0', 'NaN', 'Infinity', '</script>', '\x00.0', '\U0001f600.0', '.0\u2028', '1.0\\', '0.00', '100.0', '.', '..', 'a.b', '10.000', "'", '%', '$1', '\\1')


def rand_string(rng):
    pick = rng.random()
    if pick < 0.35:
        return ''.join(rng.choice(FRAGMENTS) for _ in range(rng.randint(1, 4)))
    if pick < 0.8:
        return ''.join(rng.choice(CHARS) for _ in range(rng.choice((0, 1, 2, 3, 5, 8, 13))))
    if pick < 0.9:
        return ''.join(rng.choice(SMALL) for _ in range(rng.randint(1, 12)))
    out = ''
    while len(out) < 6:
        code = rng.randrange(0x110000)
        if not 0xd800 <= code < 0xe000:
            out += chr(code)
    return out


def rand_value(rng, depth):
    pick = rng.random()
    if depth <= 0 or pick < 0.45:
        pick = rng.random()
        if pick < 0.5:
            return rand_string(rng)
        if pick < 0.8:
            return random_number(rng) if rng.random() < 0.5 else rng.choice((0, 0.0, 1.0, 10.0, 100.0, -1.0, 0.5, 1.05, 10.01, 100.001, 1e16, 1e-7, 1e21, 1.5e300, 20.0, 5, -7, 1000, 0.1, 3.0))
        return rng.choice((None, True, False))
    size = rng.choice((0, 1, 1, 2, 3, 4))
    if pick < 0.75:
        return [rand_value(rng, depth - 1) for _ in range(size)]
    return {rand_string(rng): rand_value(rng, depth - 1) for _ in range(size)}


def tally(mon, value):
    """What kinds of characters were seen"""
    stack = [value]
    while stack:
        item = stack.pop()
        if type(item) is list:
            stack.extend(item)
        elif type(item) is dict:
            stack.extend(item)
            stack.extend(item.values())
        elif type(item) is str:
            if any(ord(char) > 0xffff for char in item):
                mon.count('non_bmp')
            if any(ord(char) < 32 for char in item):
                mon.count('control')
            if '"' in item or '\\' in item:
                mon.count('escaped')


def neighbour(rng, value):
    """A different value close to the given one"""
    if type(value) is str:
        ix = rng.randint(0, len(value))
        return rng.choice((value + rng.choice(('.0', '0', '.', 'a', '\\', '"')), value[:ix] + rng.choice(CHARS) + value[ix:], value.replace('.0', ''), value[:-1]))
    if type(value) is list:
        out = list(value)
        if out and rng.random() < 0.7:
            ix = rng.randrange(len(out))
            out[ix] = neighbour(rng, out[ix])
        else:
            out.insert(rng.randint(0, len(out)), rng.choice((None, '', 0.0, [])))
        return out
    if type(value) is dict:
        out = dict(value)
        if out and rng.random() < 0.8:
            key = rng.choice(list(out))
            if rng.random() < 0.5:
                out[key] = neighbour(rng, out[key])
            else:
                out[neighbour(rng, key)] = out.pop(key)
        else:
            out[rand_string(rng)] = None
        return out
    if value is None or type(value) is bool:
        return rng.choice((None, True, False, 'null', 'true', 0.0))
    return rng.choice((value + 1, -value, str(value), value + 0.5, [value], math.nextafter(value, math.inf)))


def pair_case(mon, rng, value):
    other = neighbour(rng, value)
    if type(other) is float and not math.isfinite(other) or same(value, other):
        return
    with mon.case(lambda: {'value': show(value), 'other': show(other)}, key=('pair', show(value), show(other))):
        indent = rng.choice((None, None, 1, 2.0, 4))
        mon.count('distinct_pairs')
        first, second = stringify(value, indent), stringify(other, indent)
        if first == second:
            raise Violation('two different values have the same text', text=first[:1500])


def containers_of(value, out):
    if type(value) is list:
        out.append(value)
        for item in value:
            containers_of(item, out)
    elif type(value) is dict:
        out.append(value)
        for item in value.values():
            containers_of(item, out)
    return out


def mutate(rng, value):
    """Change a container in place, within any depth; mostly without changing its length"""
    target = rng.choice(containers_of(value, []))
    item = rng.choice((None, True, 7.0, 'changed', '.0', [1.0], {'a': 2.0}))
    if type(target) is list:
        if target and rng.random() < 0.8:
            ix = rng.randrange(len(target))
            target[ix] = [target[ix]] if same(target[ix], item) else item
        else:
            target.append(item)
    elif target and rng.random() < 0.8:
        key = rng.choice(list(target))
        target[key] = [target[key]] if same(target[key], item) else item
    else:
        target['added' + rand_string(rng)] = item


def mutation_case(mon, rng, value):
    """The text is that of the value as it is now, and a parsed text is a new value every time"""
    value = copy.deepcopy(value)
    with mon.case(lambda: {'value': show(value)}, key=('mutation', show(value))):
        indent = rng.choice((None, None, 2.0))
        steps = rng.randint(1, 3)
        for _ in range(steps):
            text = stringify(value, indent)
            first = library()['jsonParse']([text], None)
            original = copy.deepcopy(value)
            mutate(rng, first)
            second = library()['jsonParse']([text], None)
            mon.count('parsed_again')
            if not same(second, original):
                raise Violation('jsonParse of the same text gives another value after the first one was changed', text=text[:1500], observed=show(second), value=show(original))
            before = {id(item) for item in containers_of(first, [])}
            if any(id(item) in before for item in containers_of(second, [])):
                raise Violation('two parses of a text share a container', text=text[:1500])
            mutate(rng, value)
            mon.count('changed_in_place')
            again = stringify(value, indent)
            try:
                back = Reader(again).read()
            except Bad as exc:
                raise Violation(f'the text is not valid JSON: {exc}', text=again[:1500]) from None
            if not same(back, value):
                raise Violation('the text of a value changed in place denotes another value', text=again[:1500], denotes=show(back), value=show(value))


def foreign_case(mon, rng, value):
    """Texts of another JSON writer"""
    text = json.dumps(value, ensure_ascii=rng.random() < 0.5, indent=rng.choice((None, 0, 1, '\t', ' \t')), separators=rng.choice((None, (',', ':'), (' ,  ', '\t:\n'))))
    text = rng.choice(('', ' ', '\n\r\t ')) + text + rng.choice(('', ' ', '\n'))
    with mon.case(lambda: {'text': text}, key=('foreign', text)):
        mon.count('parsed_foreign')
        try:
            parsed = library()['jsonParse']([text], None)
        except Exception as exc:  # pylint: disable=broad-except
            raise Violation(f'jsonParse failed on valid JSON: {type(exc).__name__}: {exc}', text=text[:1500]) from None
        if not same(parsed, value):
            raise Violation('jsonParse reads another value', observed=show(parsed), value=show(value))


def plan(tier):
    quick = tier == 'quick'
    shards = []
    for ix, first in enumerate(SMALL):
        shards.append(('strings', {'first': first, 'length': 4 if quick else 6, 'indents': (1 + ix, 2, 4) if quick else (1, 2, 3, 4, 5, 6, 7, 8), 'cost': 3}))
    for ix in range(16 if quick else 96):
        shards.append(('random', {'n': 3500 if quick else 40000, 'cost': 3}))
    shards.append(('numbers', {'n': 8000 if quick else 200000, 'cost': 3}))
    shards.append(('large', {'cost': 2}))
    return shards


def shard(kind, spec, rng, mon):
    if kind == 'strings':
        for length in range(0, spec['length']):
            for rest in itertools.product(SMALL, repeat=length):
                text = spec['first'] + ''.join(rest)
                mon.count('exhaustive_strings')
                few = () if length > 3 else spec['indents']
                check_value(mon, text, few[:1])
                mon.count('as_keys')
                check_value(mon, {text: 1.0, text + '"': [2.0, text], 'z': {text: text}}, few)
                check_value(mon, [1.0, text, 10.0, {text: 20.0, 'b' + text: text}, text + text[::-1], text], few)
        if spec['first'] == 'a':
            check_value(mon, '', (1,))
            check_value(mon, {'': ''}, tuple(range(1, 9)))
    elif kind == 'random':
        for ix in range(spec['n']):
            value = rand_value(rng, rng.choice((0, 1, 2, 3, 4, 5)))
            tally(mon, value)
            check_value(mon, value, (rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 2.0, 4.0)),) if ix % 2 else (), ix % 3 == 0)
            pair_case(mon, rng, value)
            if type(value) in (list, dict) and ix % 2:
                mutation_case(mon, rng, value)
            if ix % 3 == 0:
                foreign_case(mon, rng, value)
    elif kind == 'numbers':
        for _ in range(spec['n'] // 10):
            numbers = [random_number(rng) for _ in range(9)]
            check_value(mon, numbers + [{'a': numbers[0], 'b': [numbers[1]]}], (rng.randint(1, 8),))
    else:
        for fragment in FRAGMENTS:
            mon.count('long_strings')
            check_value(mon, {fragment * 5000: [fragment * 20000, 1.0]}, (2,))
        for depth in (10, 40, 64, 100, 130, 200):
            value = 1.0
            for ix in range(depth):
                value = [value, '.0'] if ix % 2 else {'.0': value, 'a': 2.0}
            check_value(mon, value, tuple(range(1, 9)))
        shared = [1.0, '.0']
        check_value(mon, [shared, shared, {'a': shared, 'b': shared}], (1, 3))
        check_value(mon, {str(ix) + '.0': float(ix) for ix in range(3000)}, (2,))
        check_value(mon, [float(ix) for ix in range(5000)], (2,))
