"""Reference model of the array, object and string library functions over plain lists, dicts and strs"""
import functools

from vf.values import compare, text_of, tname, truthy


class Fail(Exception):
    """The call fails with its documented failure value"""

    def __init__(self, value):
        super().__init__()
        self.value = value


class OneOf:
    """Any of these results is accepted (documentation and behaviour leave it open)"""

    def __init__(self, *values):
        self.values = values


# A array, O object, S string, I integer >= 0, F function, * any, ...* the rest. Suffix: ? nullable (default null), =0 default 0
SPEC = {
    'arrayCopy': 'A', 'arrayDelete': 'A I', 'arrayExtend': 'A A', 'arrayGet': 'A I', 'arrayIndexOf': 'A * I=0', 'arrayJoin': 'A S',
    'arrayLastIndexOf': 'A * I?', 'arrayLength': 'A', 'arrayNew': '...*', 'arrayNewSize': 'I=0 *=0', 'arrayPop': 'A', 'arrayPush': 'A ...*',
    'arraySet': 'A I *', 'arrayShift': 'A', 'arraySlice': 'A I=0 I?', 'arraySort': 'A F?', 'objectAssign': 'O O', 'objectCopy': 'O',
    'objectDelete': 'O S', 'objectGet': 'O S *', 'objectHas': 'O S', 'objectKeys': 'O', 'objectNew': '...*', 'objectSet': 'O S *',
    'stringCharCodeAt': 'S I', 'stringEndsWith': 'S S', 'stringFromCharCode': '...*', 'stringIndexOf': 'S S I=0', 'stringLastIndexOf': 'S S I?',
    'stringLength': 'S', 'stringLower': 'S', 'stringNew': '*', 'stringRepeat': 'S I', 'stringReplace': 'S S S', 'stringSlice': 'S I I?',
    'stringSplit': 'S S', 'stringStartsWith': 'S S', 'stringTrim': 'S', 'stringUpper': 'S', 'regexEscape': 'S', 'urlEncode': 'S', 'urlEncodeComponent': 'S'
}
FAILURE = {'arrayIndexOf': -1, 'arrayLastIndexOf': -1, 'stringIndexOf': -1, 'stringLastIndexOf': -1, 'arrayLength': 0, 'stringLength': 0, 'objectHas': False}
KINDS = {'A': 'array', 'O': 'object', 'S': 'string', 'I': 'number', 'F': 'function'}
WALKERS = ('arrayIndexOf', 'arrayLastIndexOf', 'arrayJoin', 'arraySort', 'stringNew')     # functions that walk into values
MUTATORS = ('arrayDelete', 'arrayExtend', 'arrayPop', 'arrayPush', 'arraySet', 'arrayShift', 'arraySort', 'objectAssign', 'objectDelete', 'objectSet')


def validated(name, args):
    fail = FAILURE.get(name)
    if name == 'objectGet' and len(args) >= 3:
        fail = args[2]
    out = []
    spec = SPEC[name].split()
    for ix, item in enumerate(spec):
        if item == '...*':
            out.append(list(args[ix:]))
            return out, fail
        kind, nullable, default = item[0], item.endswith('?'), item.endswith('=0')
        if ix >= len(args):
            if default:
                out.append(0)
            elif nullable or kind == '*':
                out.append(None)
            else:
                raise Fail(fail)
            continue
        value = args[ix]
        if kind != '*' and not (value is None and nullable):
            if tname(value) != KINDS[kind]:
                raise Fail(fail)
            if kind == 'I' and (value != value or value in (float('inf'), float('-inf')) or value < 0 or int(value) != value):
                raise Fail(fail)
        out.append(value)
    if len(args) > len(spec):
        raise Fail(fail)
    return out, fail


def find(array, value, order, call):
    for ix in order:
        if tname(value) == 'function':
            if truthy(call(value, [array[ix]])):
                return ix
        elif compare(array[ix], value) == 0:
            return ix
    return -1


def apply(name, raw, call=None):
    """The result the model gives (a value or OneOf); raises Fail. Mutates the containers in raw as documented."""
    args, fail = validated(name, raw)
    if name == 'arrayNew':
        return args[0]
    if name == 'objectNew':
        out = {}
        for ix in range(0, len(args[0]), 2):
            if tname(args[0][ix]) != 'string':
                raise Fail(None)
            out[args[0][ix]] = args[0][ix + 1] if ix + 1 < len(args[0]) else None
        return out
    if name == 'stringFromCharCode':
        out = ''
        for code in args[0]:
            if tname(code) != 'number' or not 0 <= code <= 0x10ffff or int(code) != code:
                raise Fail(None)
            out += chr(int(code))
        return out
    if name == 'arrayNewSize':
        return [args[1]] * int(args[0])
    first = args[0]
    if name == 'arrayCopy':
        return list(first)
    if name in ('arrayDelete', 'arrayGet', 'arraySet', 'stringCharCodeAt'):
        if args[1] >= len(first):
            raise Fail(fail)
        index = int(args[1])
        if name == 'arrayGet':
            return first[index]
        if name == 'stringCharCodeAt':
            return ord(first[index])
        old = first[index]
        if name == 'arraySet':
            first[index] = args[2]
            return args[2]
        first[:] = first[:index] + first[index + 1:]
        return OneOf(None, old)
    if name == 'arrayExtend':
        first += list(args[1])
        return first
    if name == 'arrayIndexOf':
        if args[2] >= len(first):
            raise Fail(fail)
        return find(first, args[1], range(int(args[2]), len(first)), call)
    if name == 'arrayLastIndexOf':
        start = len(first) - 1 if args[2] is None else int(args[2])
        if start >= len(first):
            raise Fail(fail)
        return find(first, args[1], range(start, -1, -1), call)
    if name == 'arrayJoin':
        return args[1].join([text_of(item) for item in first])
    if name in ('arrayLength', 'stringLength'):
        return len(first)
    if name in ('arrayPop', 'arrayShift'):
        if not first:
            raise Fail(fail)
        item = first[-1 if name == 'arrayPop' else 0]
        first[:] = first[:-1] if name == 'arrayPop' else first[1:]
        return item
    if name == 'arrayPush':
        first += args[1]
        return first
    if name in ('arraySlice', 'stringSlice'):
        end = len(first) if args[2] is None else args[2]
        if args[1] > len(first) or end > len(first):
            raise Fail(fail)
        out = first[:0]
        for ix in range(int(args[1]), int(end)):
            out += [first[ix]] if name == 'arraySlice' else first[ix]
        return out
    if name == 'arraySort':
        order = compare if args[1] is None else (lambda a, b: call(args[1], [a, b]))
        first[:] = sorted(first, key=functools.cmp_to_key(order))
        return first
    if name == 'objectAssign':
        for key, value in list(args[1].items()):
            first[key] = value
        return first
    if name == 'objectCopy':
        return dict(first)
    if name == 'objectDelete':
        first.pop(args[1], None)
        return None
    if name == 'objectGet':
        return first[args[1]] if args[1] in first else args[2]
    if name == 'objectHas':
        return args[1] in first
    if name == 'objectKeys':
        return list(first)
    if name == 'objectSet':
        first[args[1]] = args[2]
        return args[2]
    return apply_string(name, first, args, fail)


def apply_string(name, text, args, fail):
    if name == 'stringEndsWith':
        return text[len(text) - len(args[1]):] == args[1] if len(args[1]) <= len(text) else False
    if name == 'stringStartsWith':
        return text[:len(args[1])] == args[1]
    if name == 'stringIndexOf':
        if args[2] >= len(text):
            if args[1] == '' and args[2] == len(text):
                return OneOf(-1, len(text))
            raise Fail(fail)
        for ix in range(int(args[2]), len(text) - len(args[1]) + 1):
            if text[ix:ix + len(args[1])] == args[1]:
                return ix
        return -1
    if name == 'stringLastIndexOf':
        if text == '' or args[1] == '' and args[2] is None:
            return OneOf(-1, 0, len(text), max(len(text) - 1, 0)) if args[1] == '' else -1
        start = len(text) - 1 if args[2] is None else int(args[2])
        if start >= len(text):
            raise Fail(fail)
        for ix in range(start, -1, -1):
            if text[ix:ix + len(args[1])] == args[1]:
                return ix
        return -1
    if name == 'stringLower':
        return text.lower()
    if name == 'stringUpper':
        return text.upper()
    if name == 'stringNew':
        return text_of(text)
    if name == 'stringRepeat':
        return ''.join([text for _ in range(int(args[1]))])
    if name == 'stringReplace':
        return replace(text, args[1], args[2])
    if name == 'stringSplit':
        if args[1] == '':
            return OneOf(None, list(text), [''] + list(text) + [''])
        out, start = [], 0
        while True:
            at = text.find(args[1], start)
            if at < 0:
                return out + [text[start:]]
            out.append(text[start:at])
            start = at + len(args[1])
    if name == 'stringTrim':
        return text.strip()
    raise KeyError(name)


def replace(text, old, new):
    if old == '':
        return new + ''.join(char + new for char in text)
    out, ix = '', 0
    while ix < len(text):
        if text[ix:ix + len(old)] == old:
            out += new
            ix += len(old)
        else:
            out += text[ix]
            ix += 1
    return out
