"""Argument generators for every library function (well-typed, near-typed and hostile)"""
import copy
import datetime
import math
import re

from vf.values import DATES, FUNCTIONS, REGEXES, small_value

SIGS = {
    'arrayCopy': 'array', 'arrayDelete': 'array int', 'arrayExtend': 'array array', 'arrayGet': 'array int', 'arrayIndexOf': 'array anyfn int?',
    'arrayJoin': 'array string', 'arrayLastIndexOf': 'array anyfn int?', 'arrayLength': 'array', 'arrayNew': 'any*', 'arrayNewSize': 'count? any?',
    'arrayPop': 'array', 'arrayPush': 'array any*', 'arraySet': 'array int any', 'arrayShift': 'array', 'arraySlice': 'array int? int?',
    'arraySort': 'array cmp?', 'dataAggregate': 'rows aggregation', 'dataCalculatedField': 'rows field expr vars?', 'dataFilter': 'rows expr vars?',
    'dataJoin': 'rows rows expr expr? bool? vars?', 'dataParseCSV': 'csv*', 'dataSort': 'rows sorts', 'dataTop': 'rows count fields?',
    'dataValidate': 'rows bool?', 'datetimeDay': 'datetime', 'datetimeHour': 'datetime', 'datetimeISOFormat': 'datetime bool?',
    'datetimeISOParse': 'iso', 'datetimeMillisecond': 'datetime', 'datetimeMinute': 'datetime', 'datetimeMonth': 'datetime',
    'datetimeNew': 'year month int int? int? int? int?', 'datetimeNow': '', 'datetimeSecond': 'datetime', 'datetimeToday': '',
    'datetimeYear': 'datetime', 'jsonParse': 'json', 'jsonStringify': 'any indent?', 'mathAbs': 'number', 'mathAcos': 'number', 'mathAsin': 'number',
    'mathAtan': 'number', 'mathAtan2': 'number number', 'mathCeil': 'number', 'mathCos': 'number', 'mathFloor': 'number', 'mathLn': 'number',
    'mathLog': 'number number?', 'mathMax': 'any*', 'mathMin': 'any*', 'mathPi': '', 'mathRandom': '', 'mathRound': 'number digits?',
    'mathSign': 'number', 'mathSin': 'number', 'mathSqrt': 'number', 'mathTan': 'number', 'numberParseInt': 'numtext radix?',
    'numberParseFloat': 'numtext', 'numberToFixed': 'number digits? bool?', 'objectAssign': 'object object', 'objectCopy': 'object',
    'objectDelete': 'object field', 'objectGet': 'object field any?', 'objectHas': 'object field', 'objectKeys': 'object', 'objectNew': 'pairs',
    'objectSet': 'object field any', 'regexEscape': 'string', 'regexMatch': 'regex string', 'regexMatchAll': 'regex string',
    'regexNew': 'pattern flags?', 'regexReplace': 'regex string string', 'regexSplit': 'regex string', 'schemaParse': 'schema*',
    'schemaParseEx': 'schemas types? string?', 'schemaTypeModel': '', 'schemaValidate': 'types typename any', 'schemaValidateTypeModel': 'types',
    'stringCharCodeAt': 'string int', 'stringEndsWith': 'string string', 'stringFromCharCode': 'code*', 'stringIndexOf': 'string string int?',
    'stringLastIndexOf': 'string string int?', 'stringLength': 'string', 'stringLower': 'string', 'stringNew': 'any', 'stringRepeat': 'string count',
    'stringReplace': 'string string string', 'stringSlice': 'string int int?', 'stringSplit': 'string string', 'stringStartsWith': 'string string',
    'stringTrim': 'string', 'stringUpper': 'string', 'systemBoolean': 'any', 'systemCompare': 'any any', 'systemFetch': 'url',
    'systemGlobalGet': 'field any?', 'systemGlobalSet': 'field any', 'systemIs': 'any any', 'systemLog': 'any', 'systemLogDebug': 'any',
    'systemPartial': 'fn any*', 'systemType': 'any', 'urlEncode': 'string', 'urlEncodeComponent': 'string'
}
# Functions whose work grows with the magnitude of a number argument
SIZED = {'stringRepeat', 'arrayNewSize', 'jsonStringify', 'numberToFixed', 'mathRound'}
VOLATILE = {'datetimeNow', 'datetimeToday', 'mathRandom'}

FIELDS = ('a', 'b', 'c', 'key', '')
EXPRS = ('a', 'b', 'a + b', "a == 'x'", 'a > 1', 'c', 'if(a, b, c)', '1', 'null', 'a /', '', 'nope(a)', 'x + a', "text(a)", 'len(b)', '!a', 'a / b', '((', 'fail(a)')
ISO = ('2024-02-29', '2024-02-30', '2024-01-01T12:30:00Z', '2024-01-01T12:30:00.125+05:30', '2024-13-01', '0001-01-01', '9999-12-31', '2024-1-1', 'x', '',
       '2024-02-29T24:00:00Z', '2024-02-29T12:60:00Z', '2024-01-01T12:30:00', '9999-12-31T23:59:59-12:00', '0001-01-01T00:00:00+14:00', '0000-01-01',
       '2024-01-01T12:30:00.1234567Z')
JSONS = ('{}', '[]', '1', '"a"', '{"a": [1, 2, {"b": null}]}', '{', '', 'nul', '[1,]', '1e400', '-0', '"\\ud83d\\ude00"', 'NaN', '[' * 60 + ']' * 60)
NUMTEXTS = ('0', '1', '-1', '12.5', '1e3', '1e400', 'ff', '0x10', '1_000', '', ' 7 ', 'abc', 'inf', 'nan', '-', '.', '1.', '.5', '1' * 400, 'zz', '12abc')
PATTERNS = ('a', 'a+', '(b)|c', '(?<n>x)y', '[', '(', '*', '\\d+', '^$', '', 'a{2,3}', '(?P<q>z)', '\\', '[^a]')
SCHEMAS = ('struct S', '    int a', '    optional string b', 'enum E', '    X', 'typedef int T', 'struct S (S)', '', 'nonsense text', '  bad', '# comment')
CSV = ('a,b,c', '1,2,3', 'x,y', '2024-01-01,true,null', '2024-02-30,1e3,"q,r"', '"unterminated', '', '1', 'a,a,a', ',,', '"multi\nline",2,3')
TYPES = ({}, {'S': {'struct': {'name': 'S', 'members': [{'name': 'a', 'type': {'builtin': 'int'}}]}}},
         {'E': {'enum': {'name': 'E', 'values': [{'name': 'X'}]}}}, {'T': {'typedef': {'name': 'T', 'type': {'builtin': 'string'}}}}, {'S': {'bad': 1.0}})
AGGREGATIONS = ({'measures': [{'field': 'a', 'function': 'sum'}]}, {'categories': ['b'], 'measures': [{'field': 'a', 'function': 'average', 'name': 'm'}]},
                {'categories': ['b', 'c'], 'measures': [{'field': 'a', 'function': f} for f in ('count', 'max', 'min', 'stddev')]},
                {'measures': []}, {}, {'measures': [{'field': 'a', 'function': 'median'}]})
HUGE_INT = 10 ** 400


def compare_numbers(args, _options):
    return args[0] - args[1]


def compare_fail(args, _options):
    raise ValueError('comparator failure')


def compare_text(args, _options):
    return 'not a number'


def is_a(args, _options):
    return args[0] == 'a'


def circular():
    array = [1.0]
    array.append(array)
    return array


def circular_object():
    obj = {'a': 1.0}
    obj['self'] = [obj]
    return obj


def deep(depth, leaf=None):
    value = leaf
    for ix in range(depth):
        value = [value] if ix % 2 else {'a': value}
    return value


def hostile(rng):
    pick = rng.randrange(22)
    if pick < 6:
        return rng.choice((float('nan'), float('inf'), float('-inf'), 1e308, -1e308, 5e-324, HUGE_INT, -HUGE_INT, 2 ** 64, 1e15, -1e15, 1e300, 2.0 ** 53))
    if pick < 8:
        return rng.choice((circular, circular_object))()
    if pick < 10:
        return deep(rng.choice((50, 400, 1500)))
    if pick < 12:
        return rng.choice(('\ud800', '\x00', '\u00e9', '\U0001f600' * 3, 'x' * 5000, "'\"\\", '\n', '{0}', '%s', '\\1', '$1', '(', '[a-'))
    if pick < 14:
        return rng.choice((datetime.datetime.min, datetime.datetime.max, datetime.date.min, datetime.date.max,
                           datetime.datetime(9999, 12, 31, 23, 59, 59, 999999, tzinfo=datetime.timezone.utc),
                           datetime.datetime(1, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(hours=14)))))
    if pick < 16:
        return rng.choice((compare_fail, compare_text, is_a, len, abs))
    if pick < 18:
        return [None, 1.0, 'a', [], {}, True][:rng.randint(0, 6)]
    return small_value(rng, 3)


def one(rng, kind):
    if kind == 'array':
        return [small_value(rng, 1) for _ in range(rng.randint(0, 5))] if rng.random() < 0.5 else \
            [rng.choice((1.0, 2.0, 3.0, 'a', 'b', None, 2, True)) for _ in range(rng.randint(0, 6))]
    if kind == 'object':
        return {rng.choice('abcd'): small_value(rng, 1) for _ in range(rng.randint(0, 4))}
    if kind == 'string':
        return rng.choice(('', 'a', 'b', 'abc', 'abcabc', 'aXbXc', ' pad ', 'X', 'c', 'A.B*C', 'foo bar', 'http://x/?a=b c', '%41', "it's \"q\"",
                           '\u00e9\u00df', '\U0001f600z', 'line1\nline2', ','))
    if kind == 'int':
        return float(rng.choice((0, 0, 1, 1, 2, 3, 4, 5, 6, 7, -1, -2, 12)))
    if kind == 'count':
        return float(rng.choice((0, 1, 2, 3, 5, 9, -1)))
    if kind == 'number':
        return rng.choice((0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 1.5, 2.5, 3.0, 10.0, 100.0, 1234.5678, -7.25, 0.005, 1e10, 7.0, 12.0, 1 / 3))
    if kind == 'bool':
        return rng.random() < 0.5
    if kind == 'datetime':
        return rng.choice(DATES)
    if kind == 'regex':
        return rng.choice(REGEXES + (re.compile('(?P<n>a)(b)?'), re.compile('')))
    if kind in ('fn', 'cmp'):
        return compare_numbers if kind == 'cmp' else rng.choice(FUNCTIONS + (is_a,))
    if kind == 'anyfn':
        return rng.choice((is_a, small_value(rng, 1), 1.0, 2.0, 'a', None))
    if kind == 'rows':
        return [{name: rng.choice((1.0, 2.0, 3.0, 2, 'x', 'y', None, True, DATES[2], '1', '2024-01-01')) for name in 'abc' if rng.random() < 0.85}
                for _ in range(rng.randint(0, 5))]
    if kind == 'field':
        return rng.choice(FIELDS)
    if kind == 'fields':
        return [rng.choice(FIELDS) for _ in range(rng.randint(1, 2))]
    if kind == 'expr':
        return rng.choice(EXPRS)
    if kind == 'vars':
        return {'x': rng.choice((1.0, 'v', None))}
    if kind == 'sorts':
        return [[rng.choice(FIELDS), rng.random() < 0.5][:rng.choice((1, 2))] for _ in range(rng.randint(0, 3))]
    if kind == 'aggregation':
        return copy.deepcopy(rng.choice(AGGREGATIONS))
    if kind == 'csv':
        return rng.choice(CSV) if rng.random() < 0.7 else [rng.choice(CSV) for _ in range(rng.randint(0, 4))]
    if kind == 'iso':
        return rng.choice(ISO)
    if kind == 'json':
        return rng.choice(JSONS)
    if kind == 'numtext':
        return rng.choice(NUMTEXTS)
    if kind == 'radix':
        return float(rng.choice((2, 8, 10, 16, 36, 1, 37, 0)))
    if kind == 'digits':
        return float(rng.choice((0, 1, 2, 3, 10, -1)))
    if kind == 'indent':
        return float(rng.choice((1, 2, 4, 0, -1)))
    if kind == 'pattern':
        return rng.choice(PATTERNS)
    if kind == 'flags':
        return rng.choice(('', 'i', 'm', 's', 'ims', 'x', 'ii'))
    if kind == 'schema':
        return rng.choice(SCHEMAS) if rng.random() < 0.7 else [rng.choice(SCHEMAS) for _ in range(rng.randint(0, 4))]
    if kind == 'schemas':
        return ['struct S', '    int a'] if rng.random() < 0.5 else [rng.choice(SCHEMAS) for _ in range(rng.randint(0, 4))]
    if kind == 'types':
        return copy.deepcopy(rng.choice(TYPES))
    if kind == 'typename':
        return rng.choice(('S', 'E', 'T', 'Nope'))
    if kind == 'code':
        return float(rng.choice((65, 97, 48, 0, 233, 128512, 55296, 1114111, 1114112, -1)))
    if kind == 'year':
        return float(rng.choice((2024, 1999, 2000, 1, 9999, 100, 99)))
    if kind == 'month':
        return float(rng.choice((1, 2, 12, 13, 0, -11, 25, 6)))
    if kind == 'url':
        return rng.choice(('a.txt', ['a.txt', 'b.txt'], {'url': 'a.txt'}, [{'url': 'a.txt', 'body': 'b'}, 'fail'], [], {'nope': 1.0}, 'fail'))
    return small_value(rng, 2)


def typed_args(rng, name):
    """Arguments of the documented types (optional ones sometimes omitted)"""
    args = []
    for kind in SIGS.get(name, 'any*').split():
        if kind == 'pairs':
            for _ in range(rng.randint(0, 3)):
                args += [rng.choice(FIELDS), small_value(rng, 1)]
            if rng.random() < 0.2:
                args.append('odd')
        elif kind.endswith('*'):
            args += [one(rng, kind[:-1]) for _ in range(rng.randint(0, 4))]
        elif kind.endswith('?'):
            if rng.random() < 0.35:
                break
            args.append(one(rng, kind[:-1]))
        else:
            args.append(one(rng, kind))
    return args


def fuzz_args(rng, name):
    """Near-typed and hostile arguments"""
    args = typed_args(rng, name)
    pick = rng.random()
    if pick < 0.3 and args:
        args[rng.randrange(len(args))] = hostile(rng)
    elif pick < 0.45 and args:
        args[rng.randrange(len(args))] = small_value(rng, 2)
    elif pick < 0.55:
        args = args[:rng.randint(0, len(args))]
    elif pick < 0.62:
        args = args + [small_value(rng, 1) for _ in range(rng.randint(1, 2))]
    elif pick < 0.8:
        args = [hostile(rng) if rng.random() < 0.5 else small_value(rng, 2) for _ in range(rng.randint(0, max(len(args), 1) + 1))]
    elif pick < 0.84 and len(args) > 1 and isinstance(args[0], (list, dict)):
        args[-1] = args[0]      # aliased arguments
    return tame(name, args)


def tame(name, args):
    """Keep the work bounded: very large finite counts are not an execution we can wait for"""
    if name in SIZED:
        args = [(99.0 if arg > 0 else -99.0) if type(arg) in (int, float) and not (isinstance(arg, float) and not math.isfinite(arg)) and abs(arg) > 1000
                and (ix > 0 or name in ('arrayNewSize',)) else arg for ix, arg in enumerate(args)]
    return args
