"""Running the code under test and recording what an embedding application can observe"""
import zlib

from bare_script import (BareScriptParserError, BareScriptRuntimeError, evaluate_expression, execute_script, parse_expression,
                         parse_script)

from vf.run import Violation
from vf.values import show


class Outcome:
    """The observable outcome of one run"""
    __slots__ = ('kind', 'value', 'error', 'logs', 'globals', 'options')

    def __init__(self, kind, value, error, logs, globals_, options):
        self.kind, self.value, self.error, self.logs, self.globals, self.options = kind, value, error, logs, globals_, options

    def text(self):
        return f'returned {show(self.value)}' if self.kind == 'value' else f'{self.kind}: {self.error}'


class Reports:
    """A logFn that drops the reports of debug mode"""

    def __init__(self, log):
        self.log = log

    def __call__(self, text):
        if not text.startswith('BareScript: '):
            self.log(text)


def execute(script, globals_=None, max_statements=0, debug=False, shared=None, **extra):
    """Execute a script model (or text); logs are collected. shared: an options object used again and again;
    debug 'vary': every fifth program runs in debug mode, the mode's own reports are not collected"""
    logs = []
    log = logs.append
    if debug == 'vary':
        debug = zlib.crc32((script if isinstance(script, str) else repr(script)).encode('utf-8', 'surrogatepass')) % 5 == 0
        if debug:
            log = Reports(extra.pop('logFn', log))
    globals_ = {} if globals_ is None else globals_
    options = {} if shared is None else shared
    options.update({'globals': globals_, 'logFn': log, 'maxStatements': max_statements})
    options.pop('debug', None)
    if debug:
        options['debug'] = True
    options.update(extra)
    try:
        if isinstance(script, str):
            script = parse_script(script)
        value = execute_script(script, options)
    except BareScriptRuntimeError as exc:
        return Outcome('runtime', None, exc, logs, globals_, options)
    except BareScriptParserError as exc:
        return Outcome('parser', None, exc, logs, globals_, options)
    except Exception as exc:  # pylint: disable=broad-except
        return Outcome('host', None, exc, logs, globals_, options)
    return Outcome('value', value, None, logs, globals_, options)


_LIBRARY = {}


def library():
    """The library functions as an embedder sees them: what execute_script adds to the globals"""
    if not _LIBRARY:
        globals_ = {}
        execute_script({'statements': []}, {'globals': globals_})
        _LIBRARY.update(globals_)
    return _LIBRARY


def parses(text):
    """parse_expression outcome: ('ok', model) or ('error', BareScriptParserError); anything else is a violation"""
    try:
        return 'ok', parse_expression(text)
    except BareScriptParserError as exc:
        return 'error', exc
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(f'parse_expression raised {type(exc).__name__}: {exc}', text=text) from None


def model_of(text, what='a valid script'):
    """Parse a script that the oracle knows to be valid"""
    try:
        return parse_script(text)
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(f'parse_script rejected {what}: {type(exc).__name__}: {exc}', text=text) from None


def evaluate(expr, options=None, locals_=None, builtins=True):
    """('value', v) | ('runtime', exc) | ('parser', exc) | ('host', exc)"""
    try:
        return 'value', evaluate_expression(expr, options, locals_, builtins)
    except BareScriptRuntimeError as exc:
        return 'runtime', exc
    except BareScriptParserError as exc:
        return 'parser', exc
    except Exception as exc:  # pylint: disable=broad-except
        return 'host', exc


class Tape:
    """A decision source: plays the given booleans (as varied truthy/falsy values), then false forever"""
    TRUTHY = (True, 1.0, 'x', [0.0], {'a': 1.0}, 2, -1.0, ' ', '0', 'false', {})
    FALSY = (False, 0, '', None, [], 0.0)

    def __init__(self, bits):
        self.bits = bits
        self.used = 0
        self.limit = None

    def __call__(self, unused_args, unused_options):
        ix = self.used
        self.used += 1
        if ix < len(self.bits) and self.bits[ix]:
            return self.TRUTHY[(ix * 7 + len(self.bits)) % len(self.TRUTHY)]
        return self.FALSY[(ix * 5 + len(self.bits)) % len(self.FALSY)]


def next_tape(bits, used, limit):
    """The next decision string in depth-first order over the decisions actually consumed (None at the end)"""
    path = (list(bits) + [False] * limit)[:min(used, limit)]
    while path and path[-1]:
        path.pop()
    if not path:
        return None
    path[-1] = True
    return path
