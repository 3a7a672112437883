"""C13: numbers survive conversion to text and back. Round-trip monitor over doubles; exact-rational reference for the parsers."""
import fractions
import math
import re
import struct
import sys

from bare_script import BareScriptParserError, execute_script, parse_expression, parse_script

from vf.host import execute, library, parses
from vf.run import Violation
from vf.values import show

RULE = ('A case is one number or one text. Numbers: uniform random bit patterns, powers of two and ten with their neighbours, integers around 2**k and 10**k, '
        'subnormals, decimals n/10**k, -0, host ints. Each is stringified through every path (both concatenation orders, stringNew, arrayJoin, systemLog, '
        'jsonStringify, containers, objects), must give one text, and the text must read back as exactly the number through numberParseFloat, through '
        'parse_expression and inside parsed and executed scripts. Texts: canonical numbers, near-misses and soup for numberParseFloat/numberParseInt in '
        'every radix, judged with exact rational arithmetic. Distinct by bit pattern / (text, radix).')
REQUIRED = ('round_trips', 'integral', 'exponent_forms', 'subnormals', 'negative', 'literals', 'script_literals', 'host_ints', 'parse_number', 'parse_null', 'parse_overflow',
            'int_number', 'int_null', 'radix_cases', 'containers', 'data_paths')
ASSUMPTIONS = ('The sign of zero is not judged; integral values of magnitude 1e16 and above may use an exponent.',
               'Texts with surrounding whitespace, non-ASCII digits or a radix prefix, and lenient spellings (".5", "1.", "+5", "1E5") are judged only for being '
               'either null or exact.')

TEXT = ("systemLog(x)\nsystemLog('log ' + x)\n"
        "return arrayNew('' + x, x + '', stringNew(x), arrayJoin(arrayNew(x, x), ' '), jsonStringify(x), stringNew(arrayNew(x)), stringNew(objectNew('k', x)), jsonStringify(arrayNew(x, 'a'), 2), "
        "'a' + x + 'b', numberParseFloat('' + x), numberParseFloat(stringNew(x)))")
PATHS = ("'' + x", "x + ''", 'stringNew(x)', 'arrayJoin(arrayNew(x, x))', 'jsonStringify(x)', 'stringNew(arrayNew(x))', "stringNew(objectNew('k', x))",
         "jsonStringify(arrayNew(x, 'a'), 2)", "'a' + x + 'b'")
_MODEL = []


def exact(text):
    """The double nearest to the decimal text (exact rational arithmetic), inf on overflow"""
    mantissa, _, exponent = text.lower().partition('e')
    negative = mantissa.startswith('-')
    mantissa = mantissa.lstrip('+-')
    whole, _, fraction = mantissa.partition('.')
    digits = int((whole + fraction) or '0')
    power = int(exponent or '0') - len(fraction)
    if digits == 0:
        return 0.0
    if power + len(str(digits)) > 400:
        return math.inf
    if power + len(str(digits)) < -400:
        return 0.0
    value = fractions.Fraction(digits) * (fractions.Fraction(10) ** power)
    try:
        result = float(value)
    except OverflowError:
        return math.inf
    return -result if negative else result


def round_trip(mon, x, in_script):
    with mon.case(lambda: {'number': repr(x), 'bits': struct.pack('>d', float(x)).hex()}, key=(struct.pack('>d', float(x)), type(x).__name__)):
        if not _MODEL:
            _MODEL.append(parse_script(TEXT))
        out = execute(_MODEL[0], {'x': x})
        mon.count('round_trips')
        if out.kind != 'value' or type(out.value) is not list or len(out.value) != len(PATHS) + 2 or len(out.logs) != 2:
            raise Violation('stringifying a number failed', observed=out.text(), logs=out.logs)
        text = out.value[0]
        if type(text) is not str:
            raise Violation('the number has no text', observed=show(text))
        expected = (text, text, text, f'{text} {text}', text, f'[{text}]', f'{{"k":{text}}}', f'[\n  {text},\n  "a"\n]', f'a{text}b')
        for path, got, want in zip(PATHS, out.value, expected):
            if got != want:
                raise Violation(f'{path} gives another text', observed=show(got), expected=show(want))
        if out.logs != [text, 'log ' + text]:
            raise Violation('systemLog gives another text', observed=out.logs, expected=text)
        mon.count('containers', 4)
        for back in out.value[len(PATHS):]:
            if type(back) not in (int, float) or back != x:
                raise Violation('numberParseFloat does not give the number back', text=text, observed=show(back), expected=repr(x))
        # An independent reading of the text
        if not re.fullmatch(r'-?\d+(\.\d+)?(e[+-]\d+)?', text, re.ASCII):
            raise Violation('the text is no plain number', text=text)
        if type(x) is float and exact(text) != x:
            raise Violation('the text denotes another number', text=text, denotes=exact(text), expected=repr(x))
        if x == int(x):
            mon.count('integral')
            if abs(x) < 1e16 or type(x) is int:
                if text.lstrip('-') != str(abs(int(x))):
                    raise Violation('an integral number is not printed as an integer', text=text, expected=str(int(x)))
            elif re.search(r'\.\d*0(e|$)', text):
                raise Violation('trailing zeros in the fraction', text=text)
        elif re.search(r'\.\d*0(e|$)', text) or '.' not in text and 'e-' not in text:
            raise Violation('a fraction is misprinted', text=text)
        if 'e' in text:
            mon.count('exponent_forms')
        if 0 < abs(x) < 2.2250738585072014e-308:
            mon.count('subnormals')
        if x < 0:
            mon.count('negative')
        if type(x) is int:
            mon.count('host_ints')
        # Source text
        status, model = parses(text)
        if x >= 0 and not text.startswith('-'):
            if status != 'ok' or model != {'number': x} or type(model['number']) not in (int, float):
                raise Violation('the text is not the numeric literal of the number', text=text, observed=str(model))
        elif status != 'ok':
            raise Violation('the text is not an expression', text=text, observed=str(model))
        mon.count('literals')
        if in_script:
            script = (f'a = {text}\nb = arrayNew({text},{text} , 1-{text})\nif {text} == x:\n    c = true\nendif\nreturn arrayNew(a, arrayGet(b, 0), arrayGet(b, 1), a == x, c, {text}, '
                      f'arrayGet(b, 2) == 1 - x)')
            try:
                result = execute_script(parse_script(script), {'globals': {'x': x}})
            except Exception as exc:  # pylint: disable=broad-except
                raise Violation(f'the text within a script fails: {type(exc).__name__}: {exc}', text=text) from None
            mon.count('script_literals')
            if result != [x, x, x, True, True, x, True]:
                raise Violation('the text within a script denotes another number', text=text, observed=show(result))
            row = {'v': x, 't': text}
            out = execute("return dataCalculatedField(arrayNew(r), 'c', \"text(v) + '' + (parseFloat(t) == v)\")", {'r': row})
            mon.count('data_paths')
            if row.get('c') != text + 'true':
                raise Violation('text() within a data expression differs', observed=show(row.get('c')), expected=text + 'true')


# ---------------------------------------------------------------- parsers

CANONICAL = re.compile(r'-?\d+(\.\d+)?(e[+-]\d+)?', re.ASCII)
LENIENT = re.compile(r'[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?', re.ASCII)
DIGITS = '0123456789abcdefghijklmnopqrstuvwxyz'


def number_result(mon, name, value, text, args):
    if value is None:
        return
    if type(value) not in (int, float) or value != value or value in (math.inf, -math.inf):
        raise Violation(f'{name} returned a non-finite number or another type', text=text, args=args, observed=show(value))


def call(name, args):
    try:
        return library()[name](list(args), None)
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(f'{name} failed: {type(exc).__name__}: {exc}', args=args) from None


def float_case(mon, text):
    with mon.case(lambda: {'numberParseFloat': text}, key=('float', text)):
        value = call('numberParseFloat', [text])
        number_result(mon, 'numberParseFloat', value, text, [])
        bare = text.strip()
        if LENIENT.fullmatch(bare):
            wanted = exact(bare)
            if math.isinf(wanted):
                mon.count('parse_overflow')
                if value is not None:
                    raise Violation('a number beyond the finite range is not null', text=text, observed=show(value))
            elif value is None:
                if CANONICAL.fullmatch(text):
                    raise Violation('numberParseFloat returned null for a number', text=text)
                mon.count('lenient_null')
            elif value != wanted:
                raise Violation('numberParseFloat returned another (or a partial) value', text=text, observed=show(value), expected=wanted)
            else:
                mon.count('parse_number')
        elif bare.isascii():
            mon.count('parse_null')
            if value is not None:
                raise Violation('numberParseFloat returned a value for text that is not a number', text=text, observed=show(value))
        else:
            mon.count('non_ascii')
            if value is not None and not any(char.isdigit() and ord(char) > 127 for char in bare):
                raise Violation('numberParseFloat returned a value for text that is not a number', text=text, observed=show(value))


def int_case(mon, text, radix):
    args = [text] if radix is None else [text, radix]
    base = 10 if radix is None else int(radix)
    with mon.case(lambda: {'numberParseInt': args}, key=('int', text, radix)):
        value = call('numberParseInt', args)
        number_result(mon, 'numberParseInt', value, text, args)
        if radix is not None and radix != 10:
            mon.count('radix_cases')
        bare = text.strip()
        body = bare[1:] if bare[:1] in ('+', '-') else bare
        lowered = body.lower() if body.isascii() else body
        if body and body.isascii() and all(char in DIGITS[:base] for char in lowered):
            wanted = 0
            for char in lowered:
                wanted = wanted * base + DIGITS.index(char)
            wanted = -wanted if bare.startswith('-') else wanted
            if value is None:
                if text == bare and not bare.startswith('+') and len(body) < 4000:
                    raise Violation('numberParseInt returned null for an integer', args=args, expected=str(wanted)[:60])
            elif value != wanted and (abs(wanted) < 2 ** 53 or value != float(wanted)):
                raise Violation('numberParseInt returned another (or a partial) value', args=args, observed=show(value), expected=str(wanted)[:60])
            mon.count('int_number')
        elif bare.isascii():
            prefix = {16: '0x', 8: '0o', 2: '0b'}.get(base)
            if prefix and lowered.startswith(prefix):
                mon.count('radix_prefix')
                return
            mon.count('int_null')
            if value is not None:
                raise Violation('numberParseInt returned a value for text that is not an integer', args=args, observed=show(value))
        else:
            mon.count('non_ascii')


NEAR = ('', ' ', '-', '+', '.', 'e', 'e5', '-e5', '1e', '1e+', '1e-', '1.e5', '.e5', '1..2', '1.2.3', '--1', '+-1', '1-', '1+1', '1 2', '1,000', '1_000', '_1', '1_', '1__0', '0x10', '0b1', '0o7',
        '0x', 'nan', 'NaN', '-nan', 'inf', 'Infinity', '-inf', '+inf', 'infinity', 'INF', 'null', 'true', 'abc', '12abc', 'abc12', '1e400', '-1e400', '1e309', '1.7976931348623159e+308',
        '1.7976931348623157e+308', '1e-400', '5e-324', '2e-324', '4.9e-324', '1e5', '1E5', '1e+5', '1e05', '01', '007', '-01', '00.5', '1.50', '1.', '.5', '-.5', '+5', '1f', '1d', '1L', '1j', '0x1p3',
        '1' * 308, '1' * 309, '9' * 400, '-' + '9' * 400, '0.' + '0' * 400 + '1', '1' + '0' * 22, '9007199254740993', '9007199254740992.5', '1e22', '1e23', '8.5e+1', '$1', '1%', '1/2', '½', '²', '١٢', '１２',
        '1\x00', '\x001', '1\n', '\t1', '1\u2028', '−1', '1e１', '٫5', '1e1_0', '1_0.0', '1.0_0', '1e1000000', '1e-1000000', '0e1000000', '0' * 500, '1#', '#1', "'1'", '"1"', '(1)', '[1]', '1;', 'e', 'E',
        'ff', 'FF', 'zz', 'Zz', '-ff', '7f', '1.5', '1.0', '1e3', '12e', '0', '-0', '0.0', '-0.0', 'None', 'NAN', 'i', '1i', 'infin', 'nan0', 'inf5', '1inf', '1nan', 'snan', '1 e5', '1e 5', '- 1')


def canonical_text(rng):
    text = str(rng.randint(0, 10 ** rng.choice((1, 2, 5, 12, 20, 40))))
    if rng.random() < 0.5:
        text += '.' + ''.join(rng.choice('0123456789') for _ in range(rng.choice((1, 2, 5, 17, 30))))
    if rng.random() < 0.4:
        text += 'e' + rng.choice('+-') + str(rng.randint(0, rng.choice((5, 25, 330))))
    return rng.choice(('', '-')) + text


def near_text(rng):
    text = rng.choice((canonical_text, lambda r: r.choice(NEAR), lambda r: ''.join(r.choice('0123456789.eE+-_xabfinf ') for _ in range(r.randint(1, 8)))))(rng)
    for _ in range(rng.choice((0, 1, 1, 2))):
        ix = rng.randint(0, len(text))
        pick = rng.random()
        char = rng.choice('0123456789.eE+-_xXabdfiInN, \t\nL%$\u0660\u00b2\u2212\uff11')
        text = text[:ix] + char + text[ix:] if pick < 0.5 else (text[:ix] + text[ix + 1:] if pick < 0.75 else text[:ix] + char + text[ix + 1:])
    return text


def grid():
    """Numbers at the edges"""
    out = [0.0, -0.0, 1.0, math.pi, math.e, 1 / 3, 2 / 3, 0.1, 0.2, 0.3, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, sys.float_info.max, 1e16, 1e15, 1e21, 1e22, 1e23, 9007199254740993.0,
           123456789012345680.0, 0.0001, 0.00001, 1e-5, 1e-4, 9999999999999998.0, 999999999999999.9, 1.0000000000000002, 100.0, 1000000.0, 10.5, 1200.0, 0.5e-6, 1.5e300, 1e100, 10.0]
    for power in range(-320, 309):
        out.append(float(f'1e{power}'))
        out.append(float(f'{1.2345 if power % 2 else 9.99}e{power}') if power < 308 else 1.0)
    for power in range(0, 1023, 1):
        out.append(2.0 ** power)
        out.append(2.0 ** -power)
    for power in range(1, 22):
        out += [float(10 ** power - 1), float(10 ** power + 1), float(10 ** power // 3), 10 ** power + 0.5 if power < 15 else 1.0, float(10 ** power * 12)]
    near = []
    for x in out:
        near += [math.nextafter(x, math.inf), math.nextafter(x, -math.inf), -x]
    ints = [n for k in range(0, 54) for n in (2 ** k, 2 ** k - 1, -2 ** k, 2 ** k // 3)] + [10 ** k for k in range(16)] + [-(10 ** k) for k in range(16)]
    return [x for x in out + near if math.isfinite(x)] + ints


def random_number(rng):
    pick = rng.random()
    if pick < 0.5:
        while True:
            x = struct.unpack('>d', rng.getrandbits(64).to_bytes(8, 'big'))[0]
            if math.isfinite(x):
                return x
    if pick < 0.6:
        return rng.randint(-10 ** 6, 10 ** 6) / 10 ** rng.randint(0, 8)
    if pick < 0.7:
        return float(rng.randint(-2 ** rng.randint(1, 80), 2 ** rng.randint(1, 80)))
    if pick < 0.8:
        return rng.randint(-2 ** 53, 2 ** 53) if rng.random() < 0.5 else rng.randint(-10 ** rng.randint(1, 15), 10 ** rng.randint(1, 15))
    if pick < 0.9:
        return float(rng.randint(1, 999) * 10 ** rng.randint(0, 20)) * rng.choice((1, -1))
    if pick < 0.95:
        return struct.unpack('>d', rng.getrandbits(52).to_bytes(8, 'big'))[0]
    return rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 22)


def plan(tier):
    quick = tier == 'quick'
    shards = []
    for ix in range(4):
        shards.append(('grid', {'part': ix, 'cost': 3}))
    for ix in range(16 if quick else 96):
        shards.append(('random', {'n': 12000 if quick else 150000, 'cost': 3}))
        shards.append(('parsers', {'n': 12000 if quick else 120000, 'cost': 2}))
    shards.append(('near', {'cost': 2}))
    return shards


def shard(kind, spec, rng, mon):
    if kind == 'grid':
        for x in grid()[spec['part']::4]:
            round_trip(mon, x, True)
    elif kind == 'random':
        for ix in range(spec['n']):
            round_trip(mon, random_number(rng), ix % 5 == 0)
    elif kind == 'near':
        for text in NEAR:
            float_case(mon, text)
            int_case(mon, text, None)
            for radix in range(2, 37):
                int_case(mon, text, float(radix))
    else:
        for _ in range(spec['n']):
            float_case(mon, near_text(rng))
            radix = rng.choice((None, 10.0, 10, 2.0, 16.0, 8.0, 36.0, float(rng.randint(2, 36))))
            if rng.random() < 0.5:
                base = int(radix or 10)
                text = rng.choice(('', '-')) + ''.join(rng.choice(DIGITS[:base] + DIGITS[:base].upper()) for _ in range(rng.choice((1, 2, 5, 12, 20))))
                if rng.random() < 0.3:
                    ix = rng.randint(0, len(text))
                    text = text[:ix] + rng.choice('.gzZ_9,- ' + DIGITS) + text[ix:]
            else:
                text = near_text(rng)
            int_case(mon, text, radix)
