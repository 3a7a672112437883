"""C17: includes. Oracle: a reference walk of the include tree (own path resolution) predicting the fetch sequence, logs, globals and errors."""
import contextlib
import functools
import io
import os
import posixpath
import re
import shutil
import tempfile

import bare_script
from bare_script import BareScriptParserError, BareScriptRuntimeError, execute_script, parse_script
from bare_script.bare import main as cli_main
from bare_script import url_file_relative

from vf.host import execute
from vf.run import Violation
from vf.values import show

RULE = ('A case is one virtual file system with an include tree to depth 4 (quick) or 6 and fan-out to 3: files in nested relative, absolute and URL directories, references written relative '
        '(with ./, ../ and doubled slashes), absolute or as URLs, plain and system includes, adjacent and separate statements, includes within functions (called in the same file, another '
        'file, as a callback, or in a later run), conditionals and loops, re-includes and bounded self-includes, early returns, missing files, throwing fetch functions and broken files; with '
        'urlFn none, file-relative (path or URL base) or custom, with and without a system prefix, debug on and off. Monitored: every fetch request, every log line, final globals, the '
        'result and the error. Also the same trees on a scratch directory through the bare CLI. Distinct by file texts and options.')
REQUIRED = ('same_options_runs', 'same_options_after_failure', 'chain_trees', 'wide_trees', 'runs', 'fetches', 'nested_fetches', 'deep_fetches', 'system_fetches', 'url_fetches', 'absolute_refs', 'dotdot_refs', 'world_changes', 'function_includes', 'loop_includes', 'returns', 'missing', 'throwing',
            'broken', 'after_include_resolutions', 'self_includes', 'second_runs', 'cli_runs', 'cli_errors', 'cli_system', 'callback_includes', 'no_fetch_fn', 'empty_files', 'adjacent', 'repeated_includes', 'changing_texts', 'resolutions', 'long_headers', 'opaque_urls')
ASSUMPTIONS = ('Locations are compared after removing "." and ".." segments; URL bases have a path (a base such as http://host without a slash, or a slash within a query, is not generated).',
               'System prefixes end in a slash.')

NAMES = ('a.bare', 'b.bare', 'c d.bare', 'e.bare', 'lib.bare', 'é.bare', 'x.y.bare', 'noext', "q'.bare", 'b\\s.bare', 'f#1.bare', 'p%20q.bare', '1:2.bare', 'q?a=b.bare')
DIRS = ('d1', 'd2', 'sub', 'x.d', 'a b')
SHIPPED = tuple(sorted(name for name in os.listdir(os.path.join(os.path.dirname(bare_script.__file__), 'include')) if name.endswith('.bare')))
VARS = ('v0', 'v1', 'v2')


def is_url(text):
    return re.match(r'[a-z]+:', text) is not None


def canonical(location):
    """A location without '.', '..' and empty segments"""
    match = re.match(r'([a-z]+://[^/]*)(/.*)?$', location, re.S)
    if match:
        return match.group(1) + posixpath.normpath(match.group(2) or '/')
    match = re.match(r'([a-z]+:)(.+)$', location, re.S)
    if match:
        return match.group(1) + posixpath.normpath(match.group(2))
    path = posixpath.normpath(location)
    return path[1:] if path.startswith('//') else path


def resolve(base, ref):
    """The location of ref as written in the file at base (None: no base)"""
    if base is None or is_url(ref) or ref.startswith('/'):
        return canonical(ref)
    scheme = base.partition(':')[0] + ':' if is_url(base) else ''
    return canonical(base[:max(base.rfind('/') + 1, len(scheme))] + ref)


class Missing(Exception):
    """A location that cannot be fetched"""


class Broken(Exception):
    """A syntax error in an included text"""


class Undefined(Exception):
    """A call of a function that is not defined (yet)"""


class _Return(Exception):
    pass


# ---------------------------------------------------------------- trees

class Node:
    """A file: where it is and what its statements are"""

    def __init__(self, location, ident):
        self.location = location
        self.ident = ident
        self.items = []
        self.blank = None
        self.versioned = False
        self.newline = '\n'
        self.open = False
        self.state = 'ok'


def own_name(location):
    """The reference of a file to itself"""
    return re.sub(r'^[a-z]+:', '', posixpath.basename(location))


def ref_to(rng, mon, base, location, world_only=False):
    """A reference that resolves to the location from the base (None: anything goes that is unchanged)"""
    if is_url(location) and '://' not in location:
        mon.count('opaque_urls')
        scheme, _, path = location.partition(':')
        if base is not None and base.startswith(scheme + ':') and rng.random() < 0.6:
            return noise(rng, mon, posixpath.relpath(path, posixpath.dirname(base[len(scheme) + 1:])))
        return location if '/' in path else f'{scheme}:app/../{path}'
    if is_url(location):
        if base is not None and is_url(base) and base.split('/')[:3] == location.split('/')[:3] and rng.random() < 0.75:
            host = '/'.join(base.split('/')[:3])
            return noise(rng, mon, posixpath.relpath(location[len(host):], posixpath.dirname(base[len(host):])))
        mon.count('world_changes')
        return location
    if location.startswith('/'):
        if base is not None and base.startswith('/') and rng.random() < 0.6:
            return noise(rng, mon, posixpath.relpath(location, posixpath.dirname(base)))
        mon.count('absolute_refs')
        return location
    if base is None:
        return noise(rng, mon, location)
    return noise(rng, mon, posixpath.relpath(location, posixpath.dirname(base) or '.'))


def noise(rng, mon, ref):
    pick = rng.random()
    if pick < 0.1:
        ref = './' + ref
    elif pick < 0.17:
        ref = rng.choice(DIRS) + '/../' + ref
    elif pick < 0.22 and '/' in ref:
        ref = ref.replace('/', '//', 1)
    elif pick < 0.26 and '/' in ref:
        ref = ref.replace('/', '/./', 1)
    if '..' in ref:
        mon.count('dotdot_refs')
    return ref


class Tree:
    """A random include tree with a reference execution"""

    def __init__(self, mon, rng, depth, cli=False):
        self.mon, self.rng, self.depth, self.cli = mon, rng, depth, cli
        self.files = {}
        self.count = 0
        self.budget = rng.choice((4, 8, 14, 25))
        pick = rng.random()
        self.prefix = None if pick < 0.15 else rng.choice(('sys/', '/sys/lib/', 'https://sys.host/lib/', 'http://h1/lib/deep/', ':bare-include:/'))
        if cli:
            self.prefix = ':bare-include:/'
        self.base_kind = rng.choice(('none', 'relative', 'relative', 'absolute', 'url', 'custom'))
        self.base = {'none': None, 'relative': rng.choice(('main.bare', 'd1/main.bare', 'd1/sub/main.bare', '../up/main.bare')), 'absolute': rng.choice(('/main.bare', '/srv/app/main.bare')),
                     'url': rng.choice(('http://h1/main.bare', 'http://h1/app/v1/main.bare', 'https://h2:8080/x/'))}.get(self.base_kind)
        if cli:
            self.base_kind, self.base = 'relative', rng.choice(('main.bare', 'd1/main.bare'))
        self.fault = rng.choice((None, None, None, 'missing', 'missing', 'throwing', 'broken', 'broken'))
        # Files of a common long header and the same length differ only far behind their beginning
        self.header = '\n'.join(f'# {line:02d} the same words at the top of each of the files of this project, long enough' for line in range(rng.choice((8, 30, 60)))) + '\n' if rng.random() < 0.2 else None
        # Now and then a long chain of files, or many files side by side
        self.shape = rng.choice(('chain', 'wide', 'wide')) if rng.random() < 0.05 else None
        if self.shape:
            self.budget = 90
            mon.count(f'{self.shape}_trees')
        if self.shape == 'chain':
            self.depth = rng.randint(9, 22)
        self.root = Node(self.base, 'main')
        self.grow(self.root, 0)

    # ------- construction
    def place(self, near):
        """A new location, often near the given one"""
        rng = self.rng
        pick = rng.random()
        name = rng.choice(NAMES)
        if near is not None and pick < 0.75:
            head, _, _ = near.rpartition('/')
            move = rng.random()
            if move < 0.35:
                head = head + '/' + rng.choice(DIRS) if head or near.startswith('/') else rng.choice(DIRS)
            elif move < 0.55 and '/' in head.replace('://', ''):
                up = head.rpartition('/')[0]
                head = up if not re.fullmatch(r'[a-z]+:/?', up) else head
            location = (head + '/' + name) if head or near.startswith('/') else name
        elif self.cli:
            location = rng.choice(('', 'd1/', 'd2/sub/')) + name
        else:
            location = rng.choice(('', 'd1/', 'd2/sub/', '/srv/app/', '/', '/opt/x.d/', 'http://h1/', 'http://h1/app/', 'https://h3/deep/er/', 'ftp://h/', 'mem:app/', 'urn:x/y/', 'file:/srv/app/')) + name
        return canonical(location)

    def fresh_node(self, near):
        for _ in range(20):
            location = self.place(near)
            if location not in self.files and location != (canonical(self.base) if self.base else None) and not location.startswith('..'):
                break
        else:
            return None
        self.count += 1
        node = Node(location, f'f{self.count}')
        node.versioned = not self.cli and self.rng.random() < 0.15
        node.newline = self.rng.choice(('\n', '\n', '\n', '\r\n', '\n\n', '\n    # comment\n', '\n\t\n'))
        self.files[location] = node
        return node

    def include_of(self, node, depth):
        """An include (ref, system) of a new or known file"""
        rng = self.rng
        base = self.effective_base(node)
        if rng.random() < 0.22 and depth < self.depth:
            # System include
            if self.cli:
                self.mon.count('cli_system')
                return rng.choice(SHIPPED), True
            name = rng.choice(NAMES).replace('>', '')
            ref = rng.choice(('', '', 'in/', 'in/deep/', '../')) + name
            if rng.random() < 0.08:
                ref = rng.choice(('/abs/sys.bare', 'http://h9/sys.bare'))
            location = resolve(self.prefix, ref) if self.prefix is not None else self.resolve_plain(node, ref)
            if location in self.files and self.files[location].open:
                return None
            if location not in self.files and not location.startswith('..'):
                self.count += 1
                target = Node(location, f'f{self.count}')
                self.files[location] = target
                self.grow(target, depth + 1)
            return ref, True
        known = [file.location for file in self.files.values() if file.items and file.ident != node.ident and not file.open]
        if known and rng.random() < 0.25:
            location = rng.choice(known)
        else:
            target = self.fresh_node(base if self.base_kind != 'custom' or node is not self.root else None)
            if target is None:
                return None
            location = target.location
            if rng.random() < 0.05:
                # A file without statements is fetched, and does nothing
                self.mon.count('empty_files')
                target.blank = rng.choice(('', '', '\n', '# nothing', '  \r\n\t# a\n'))
            elif self.fault and rng.random() < 0.3:
                target.state = self.fault
                self.fault = None
            if target.blank is None:
                self.grow(target, depth + 1)
        if node is self.root and self.base_kind == 'custom':
            if location.startswith('cdn/'):
                return location[4:], False
            del_ref = location if is_url(location) or location.startswith('/') else None
            if del_ref is None:
                self.files['cdn/' + location] = self.files[location]
                return location, False
            return del_ref, False
        return ref_to(rng, self.mon, base, location), False

    def effective_base(self, node):
        return node.location

    def resolve_plain(self, node, ref):
        if node is self.root and self.base_kind == 'custom':
            return canonical(custom_url(ref))
        return resolve(self.effective_base(node), ref)

    def grow(self, node, depth):
        rng = self.rng
        node.open = True
        items = node.items
        items.append(('log', 'begin'))
        fan = rng.randint(0, 3) if depth else rng.randint(1, 3)
        if self.shape == 'chain':
            fan = 1 if rng.random() < 0.9 else 2
        elif self.shape == 'wide':
            fan = rng.choice((rng.randint(8, 30), rng.randint(8, 30), 70)) if not depth else rng.choice((0, 0, 0, 1))
        if depth >= self.depth:
            fan = 0
        for ix in range(fan):
            if self.budget <= 0:
                break
            self.budget -= 1
            if rng.random() < (0 if fan == 70 else 0.05 if self.shape == 'wide' else 0.5):
                items.append(('set', rng.choice(VARS), f'{node.ident}.{ix}'))
            include = self.include_of(node, depth)
            if include is None:
                continue
            pick = rng.random() if not self.shape or fan < 70 and rng.random() < 0.15 else 1
            if pick < 0.15:
                items.append(('function', f'fn_{node.ident}_{ix}', include))
                items.append(('call', f'fn_{node.ident}_{ix}', rng.choice(('direct', 'direct', 'callback', 'partial'))) if rng.random() < 0.7 else ('log', 'defined'))
            elif pick < 0.3:
                items.append(('loop', f'q_{node.ident}_{ix}', rng.randint(0, 3), include, rng.random() < 0.5))
            elif pick < 0.38:
                items.append(('while', f'n_{node.ident}_{ix}', rng.randint(1, 2), include))
            elif pick < 0.46:
                items.append(('if', rng.choice(VARS), include))
            else:
                items.append(('include', include))
                if rng.random() < 0.15:
                    # The same include again, in the same run of includes
                    self.mon.count('repeated_includes')
                    items.append(('include', include))
            if self.shape == 'wide' and rng.random() < 0.95:
                continue
            if rng.random() < 0.5:
                items.append(('log', f'after{ix}'))
            if rng.random() < 0.12:
                items.append(('return', rng.random() < 0.5))
            if rng.random() < 0.1:
                names = [item[1] for file in self.files.values() for item in file.items if item[0] == 'function']
                if names:
                    items.append(('call', rng.choice(names), 'direct'))
        if depth and rng.random() < 0.06 and not node.location.startswith('..'):
            items.append(('self', f's_{node.ident}', 'SELF'))
        if self.fault and node is self.root:
            # Place the pending fault somewhere directly below the root
            target = self.fresh_node(self.effective_base(node))
            if target is not None and not (self.base_kind == 'custom'):
                target.state = self.fault
                items.append(('include', (ref_to(rng, self.mon, self.effective_base(node), target.location), False)))
                self.fault = None
        if rng.random() < 0.5:
            items.append(('set', rng.choice(VARS), node.ident))
        items.append(('log', 'end'))
        if rng.random() < 0.15:
            items.append(('return', True))
        node.open = False

    # ------- texts
    @staticmethod
    def include_line(include):
        ref, system = include
        if system:
            return f'include <{ref}>'
        return "include '" + ref.replace('\\', '\\\\').replace("'", "\\'") + "'"

    def text(self, node):
        ident = node.ident
        lines = []
        for item in node.items:
            kind = item[0]
            if kind == 'log':
                lines.append(f"systemLog('{ident} {item[1]} ' + v0 + ' ' + v1 + ' ' + v2)")
            elif kind == 'set':
                lines.append(f"{item[1]} = '{item[2]}'")
            elif kind == 'include':
                lines.append(self.include_line(item[1]))
            elif kind == 'function':
                lines += [f'function {item[1]}(v0, v1):', "    v2 = 'local'", '    ' + self.include_line(item[2]),
                          f"    systemLog('{ident} in {item[1]} ' + v0 + ' ' + v1 + ' ' + v2)", "    return 'done'", 'endfunction']
            elif kind == 'call':
                if item[2] == 'direct':
                    lines.append(f"systemLog('{ident} called ' + {item[1]}('arg'))")
                elif item[2] == 'partial':
                    lines += [f"pf_{ident} = systemPartial({item[1]}, 'arg')", f"systemLog('{ident} called ' + pf_{ident}())"]
                else:
                    lines.append(f"systemLog('{ident} called ' + arrayIndexOf(arrayNew('arg', 'other'), {item[1]}))")
            elif kind == 'loop':
                values = ', '.join(f"'{ix}'" for ix in range(item[2]))
                lines += [f'for {item[1]} in arrayNew({values}):']
                if item[4]:
                    lines += [f"    systemLog('{ident} turn ' + {item[1]})"]
                lines += ['    ' + self.include_line(item[3]), f"    systemLog('{ident} turned ' + {item[1]})", 'endfor']
            elif kind == 'while':
                lines += [f'{item[1]} = 0', f'while {item[1]} < {item[2]}:', f'    {item[1]} = {item[1]} + 1', '    ' + self.include_line(item[3]), 'endwhile']
            elif kind == 'if':
                lines += [f'if {item[1]}:', '    ' + self.include_line(item[2]), 'else:', f"    systemLog('{ident} not')", 'endif']
            elif kind == 'self':
                lines += [f'if {item[1]} == null:', f"    {item[1]} = 'once'", '    ' + self.include_line((own_name(node.location), False)), 'endif']
            else:
                lines += [f"return '{ident} value'" if item[1] else 'return', f"systemLog('{ident} unreachable')"]
        return '\n'.join(lines)

    BROKEN_LINES = ('foo bar', 'endif', 'x = (1', 'for in:', 'while true:', '1 +', 'a = = 1', "include 'x", 'function f(:', 'break', 'f(,)', "s = 'abc", 'if x:', 'jumpif (1 a')

    def file_text(self, node):
        return self.dress(node, self.plain_text(node))

    def dress(self, node, text):
        if self.header is None or node.blank is not None:
            return text
        self.mon.count('long_headers')
        text = self.header + text
        return text + '\n# ' + 'x' * (8000 - len(text))

    def plain_text(self, node):
        if node.blank is not None:
            return node.blank
        text = self.text(node)
        if node.state == 'broken':
            lines = text.split('\n')
            node.broken_at = len(node.ident) * 7 % (len(lines) + 1)
            lines.insert(node.broken_at if not any(line.startswith((' ', 'for', 'while', 'if', 'function', 'end')) for line in lines) else len(lines), self.BROKEN_LINES[len(text) % len(self.BROKEN_LINES)])
            return '\n'.join(lines)
        return text.replace('\n', node.newline)

    # ------- reference execution
    def expect(self):
        """(fetches, logs, globals, outcome); outcome is ('value', v) | ('missing', location) | ('broken', location)"""
        self.fetches, self.logs, self.functions, self.versions = [], [], {}, {}
        self.globals = {var: None for var in VARS}
        self.seen_self = set()
        self.parsed_ok = {}
        self.steps = 0
        self.value = None
        return self.finish(lambda: self.run(self.root, 0))

    def finish(self, action):
        try:
            value = action()
            return ('value', value)
        except Missing as exc:
            return ('missing', exc.args[0])
        except Broken as exc:
            return ('broken', exc.args[0])
        except Undefined as exc:
            self.mon.count('undefined_calls')
            return ('undefined', exc.args[0])

    def show(self, var, locals_=None):
        value = locals_[var] if locals_ is not None else self.globals[var]
        return 'null' if value is None else value

    def include(self, node, include, depth):
        ref, system = include
        self.steps += 1
        if self.steps > 400 or depth > 25:
            raise OverflowError()
        if system and self.prefix is not None:
            location = resolve(self.prefix, ref)
            self.mon.count('system_fetches')
        else:
            location = self.resolve_plain(node, ref)
        self.fetches.append(location)
        self.mon.count('nested_fetches', depth > 0)
        self.mon.count('deep_fetches', depth > 2)
        self.mon.count('url_fetches', is_url(location))
        if self.cli and system:
            return
        target = self.files.get(location)
        if target is None or target.state in ('missing', 'throwing'):
            self.mon.count('missing' if target is None or target.state == 'missing' else 'throwing')
            raise Missing(location)
        if target.state == 'broken':
            self.mon.count('broken')
            raise Broken(location)
        if target.versioned and target.blank is None:
            # The text changes with every fetch
            self.versions[target.ident] = self.versions.get(target.ident, 0) + 1
            self.logs.append(f'{target.ident} version {self.versions[target.ident]}')
            self.mon.count('changing_texts', self.versions[target.ident] > 1)
        outer = target.location
        target.location = location
        self.run(target, depth + 1)
        target.location = outer

    def run(self, node, depth):
        try:
            after = False
            for item in node.items:
                kind = item[0]
                if kind == 'log':
                    self.logs.append(f'{node.ident} {item[1]} {self.show("v0")} {self.show("v1")} {self.show("v2")}')
                elif kind == 'set':
                    self.globals[item[1]] = item[2]
                elif kind == 'include':
                    self.mon.count('after_include_resolutions', after)
                    self.include(node, item[1], depth)
                    after = True
                elif kind == 'function':
                    self.functions[item[1]] = (node, node.location, item)
                elif kind == 'call':
                    self.call(node, item, depth)
                elif kind == 'loop':
                    for ix in range(item[2]):
                        self.mon.count('loop_includes')
                        if item[4]:
                            self.logs.append(f'{node.ident} turn {ix}')
                        self.include(node, item[3], depth)
                        self.logs.append(f'{node.ident} turned {ix}')
                elif kind == 'while':
                    for _ in range(item[2]):
                        self.mon.count('loop_includes')
                        self.include(node, item[3], depth)
                elif kind == 'if':
                    if self.globals[item[1]]:
                        self.include(node, item[2], depth)
                    else:
                        self.logs.append(f'{node.ident} not')
                elif kind == 'self':
                    if item[1] not in self.seen_self:
                        self.seen_self.add(item[1])
                        self.mon.count('self_includes')
                        self.include(node, (own_name(node.location), False), depth)
                else:
                    self.mon.count('returns')
                    raise _Return(f'{node.ident} value' if item[1] else None)
        except _Return as exc:
            return exc.args[0]
        return None

    def call(self, node, item, depth):
        found = self.functions.get(item[1])
        if found is None:
            raise Undefined(item[1])
        home, location, function = found
        arg = 'arg'
        for _ in range(1):
            self.mon.count('callback_includes' if item[2] == 'callback' else 'function_includes')
            outer = home.location
            home.location = location
            self.include(home, function[2], depth)
            home.location = outer
            self.logs.append(f'{home.ident} in {item[1]} {arg} null local')
        self.logs.append(f'{node.ident} called ' + ('0' if item[2] == 'callback' else 'done'))


def custom_url(url):
    return url if is_url(url) or url.startswith('/') else 'cdn/' + url


class Fetcher:
    """The virtual file system as a fetchFn; records every request"""
    ERRORS = (OSError, KeyError, ValueError, RuntimeError, TypeError, BareScriptRuntimeError, UnicodeError)

    def __init__(self, tree):
        self.tree = tree
        self.requests = []
        self.versions = {}
        self.texts = {} if len(tree.files) % 2 else None

    def __call__(self, request):
        if not isinstance(request, dict) or set(request) - {'url'} and any(request[key] is not None for key in request if key != 'url'):
            self.requests.append(f'bad request {request!r}')
            return None
        url = request['url']
        self.requests.append(url)
        node = self.tree.files.get(canonical(url))
        if node is None or node.state == 'missing':
            return None
        if node.state == 'throwing':
            raise self.ERRORS[len(self.requests) % len(self.ERRORS)]('fetch failure')
        if node.versioned and node.blank is None and node.state == 'ok':
            self.versions[node.ident] = self.versions.get(node.ident, 0) + 1
            return self.tree.dress(node, f"systemLog('{node.ident} version {self.versions[node.ident]}')\n" + self.tree.plain_text(node))
        if self.texts is None:
            return self.tree.file_text(node)
        # The very same text object every time
        if node.ident not in self.texts:
            self.texts[node.ident] = self.tree.file_text(node)
        return self.texts[node.ident]


def options_of(tree, fetcher):
    options = {'fetchFn': fetcher}
    if tree.budget % 3 == 0:
        options.update({'systemPrefix': None, 'urlFn': None})
    if tree.prefix is not None:
        options['systemPrefix'] = tree.prefix
    if tree.base_kind == 'custom':
        options['urlFn'] = custom_url
    elif tree.base is not None:
        options['urlFn'] = functools.partial(url_file_relative, tree.base)
    return options


def judge(mon, tree, out, fetcher, logs, expected, fetch_ok=True):
    """Compare one run with the reference"""
    observed = [canonical(url) for url in fetcher.requests]
    mon.count('fetches', len(observed))
    if observed != tree.fetches:
        raise Violation('the sequence of fetched locations differs', observed=fetcher.requests, expected=tree.fetches)
    if expected[0] == 'value':
        if out.kind != 'value' or out.value != expected[1]:
            raise Violation(f'the run ended with another outcome: {out.text()}', expected=show(expected[1]))
    elif expected[0] == 'undefined':
        if out.kind != 'runtime':
            raise Violation(f'a call of a function no executed include has defined is no runtime error: {out.text()}', expected=expected[1])
    elif expected[0] == 'missing':
        if out.kind != 'runtime':
            raise Violation(f'a location that cannot be fetched is no runtime error: {out.text()}', expected=expected[1])
        if fetcher.requests[-1] not in str(out.error):
            raise Violation('the runtime error does not name the resolved location', observed=str(out.error), expected=fetcher.requests[-1])
    else:
        if out.kind != 'parser':
            raise Violation(f'a syntax error in an included text is no parser error: {out.text()}', expected=expected[1])
        if fetcher.requests[-1] not in str(out.error):
            raise Violation('the parser error does not name the included location', observed=str(out.error), expected=fetcher.requests[-1])
        node = tree.files[expected[1]]
        try:
            parse_script(tree.file_text(node))
        except BareScriptParserError as exc:
            if (exc.error, exc.line, exc.line_number, exc.column_number) != (out.error.error, out.error.line, out.error.line_number, out.error.column_number):
                raise Violation('the parser error of an include is not that of the included text', observed=str(out.error), expected=str(exc)) from None
    if logs != tree.logs:
        raise Violation('the log sequence differs', observed=logs[-12:], expected=tree.logs[-12:], differs=first_difference(logs, tree.logs))
    for var in VARS:
        if out.globals.get(var) != tree.globals[var]:
            raise Violation(f'the final global {var} differs', observed=show(out.globals.get(var)), expected=show(tree.globals[var]))


def first_difference(left, right):
    for ix, (a, b) in enumerate(zip(left, right)):
        if a != b:
            return ix, a, b
    return min(len(left), len(right)), 'length'


def describe(tree):
    return {'files': {location: tree.file_text(node) for location, node in tree.files.items()}, 'states': {location: node.state for location, node in tree.files.items() if node.state != 'ok'},
            'main': tree.text(tree.root), 'base': tree.base, 'baseKind': tree.base_kind, 'prefix': tree.prefix}


def tree_case(mon, rng, depth):
    tree = Tree(mon, rng, depth)
    text = tree.text(tree.root)
    with mon.case(lambda: describe(tree), key=(text, tree.base, tree.prefix, tuple(sorted(tree.files))), nontrivial=bool(tree.files)):
        try:
            expected = tree.expect()
        except OverflowError:
            mon.count('too_long')
            return
        mon.count('adjacent', sum(1 for node in tree.files.values() for a, b in zip(node.items, node.items[1:]) if a[0] == b[0] == 'include'))
        fetcher = Fetcher(tree)
        debug = rng.random() < 0.15
        out = execute(text, {}, debug=debug, **options_of(tree, fetcher))
        logs = [line for line in out.logs if not line.startswith('BareScript:')] if debug else out.logs
        mon.count('runs')
        judge(mon, tree, out, fetcher, logs, expected)
        # The same run again with the very same options object (the host's urlFn and prefix still apply)
        if rng.random() < 0.35:
            fetcher = Fetcher(tree)
            expected = tree.expect()
            out = execute(text, {}, shared=out.options, fetchFn=fetcher)
            mon.count('same_options_runs')
            mon.count('same_options_after_failure', expected[0] != 'value')
            judge(mon, tree, out, fetcher, out.logs, expected)
        # A later run over the same globals: functions still include relative to their own file
        names = sorted(tree.functions)
        if expected[0] == 'value' and names and rng.random() < 0.8:
            second = Node('http://later/run/main.bare' if rng.random() < 0.5 else 'later/main.bare', 'later')
            second.items = [('call', rng.choice(names), rng.choice(('direct', 'partial', 'callback'))), ('log', 'end')]
            tree.fetches, tree.logs, tree.versions = [], [], {}
            try:
                again = tree.finish(lambda: tree.run(second, 0))
            except OverflowError:
                return
            fetcher2 = Fetcher(tree)
            options = options_of(tree, fetcher2)
            options['urlFn'] = functools.partial(url_file_relative, second.location)
            out2 = execute(tree.text(second), out.globals, **options)
            mon.count('second_runs')
            judge(mon, tree, out2, fetcher2, out2.logs, again)


def no_fetch_case(mon, rng):
    """Without a fetch function (or with a null one) every include fails, naming its resolved location"""
    base = rng.choice((None, 'main.bare', 'd/main.bare', '/abs/x/main.bare', 'http://h/x/main.bare'))
    ref = rng.choice(('a.bare', 'sub/a.bare', '/r/a.bare', 'http://k/a.bare', '../a.bare'))
    with mon.case(lambda: {'base': base, 'ref': ref, 'fetchFn': None}, key=('nofetch', base, ref)):
        options = {'fetchFn': None} if rng.random() < 0.5 else {}
        if base is not None:
            options['urlFn'] = functools.partial(url_file_relative, base)
        out = execute(f"systemLog('before')\ninclude '{ref}'\nsystemLog('after')", {}, **options)
        mon.count('no_fetch_fn')
        if out.kind != 'runtime' or out.logs != ['before']:
            raise Violation(f'an include without a fetch function is no runtime error: {out.text()}', logs=out.logs)
        quoted = re.search(r'"(.*)"', str(out.error))
        if quoted is None or canonical(quoted.group(1)) != resolve(base, ref):
            raise Violation('the runtime error does not name the resolved location', observed=str(out.error), expected=resolve(base, ref))


def resolution_case(mon, rng):
    """url_file_relative on its own"""
    base = ''.join(rng.choice(('', '/', 'http://h/', 'https://h:1/', '../', ':p:/'))) + ''.join(rng.choice(DIRS) + '/' for _ in range(rng.randint(0, 4))) + rng.choice(NAMES + ('',))
    ref = rng.choice(('', '', '', '/', 'http://k/', '../', './', '../../')) + ''.join(rng.choice(DIRS) + '/' for _ in range(rng.randint(0, 3))) + rng.choice(NAMES)
    if base == '' or (base.startswith(':p:') and '..' in ref):
        return
    with mon.case(lambda: {'file': base, 'url': ref}, key=('resolve', base, ref)):
        got = url_file_relative(base, ref)
        mon.count('resolutions')
        if type(got) is not str or canonical(got) != resolve(base, ref):
            raise Violation('a reference resolves to another location', observed=show(got), expected=resolve(base, ref))
        if is_url(ref) and got != ref:
            raise Violation('an absolute URL is changed', observed=got)


# ---------------------------------------------------------------- command line

@contextlib.contextmanager
def scratch_directory():
    here = os.getcwd()
    path = tempfile.mkdtemp(prefix='vf-c17-')
    try:
        os.chdir(path)
        yield path
    finally:
        os.chdir(here)
        shutil.rmtree(path)


def cli_case(mon, rng, depth):
    tree = Tree(mon, rng, depth, cli=True)
    text = tree.text(tree.root)
    if any(node.location.startswith('..') for node in tree.files.values()):
        return
    with mon.case(lambda: describe(tree), key=('cli', text, tuple(sorted(tree.files)))):
        try:
            expected = tree.expect()
        except OverflowError:
            return
        with scratch_directory() as path:
            for location, node in list(tree.files.items()) + [(tree.base, None)]:
                os.makedirs(os.path.dirname(location) or '.', exist_ok=True)
                if node is not None and node.state in ('missing', 'throwing'):
                    if node.state == 'throwing':
                        os.makedirs(location, exist_ok=True)      # reading a directory fails
                    continue
                with open(location, 'w', encoding='utf-8') as file:
                    file.write(text if node is None else tree.file_text(node))
            # '..' segments of a reference need their directories on a real file system
            for root in {os.path.dirname(location) for location in list(tree.files) + [tree.base]}:
                for name in DIRS:
                    with contextlib.suppress(FileExistsError, NotADirectoryError):
                        os.makedirs(os.path.join(root, name), exist_ok=True)
            mode = rng.random()
            argv = [tree.base] if mode < 0.5 else (['-c', f"include '{tree.base}'"] if mode < 0.8 else [os.path.join(path, tree.base)])
            stdout = io.StringIO()
            code = None
            with contextlib.redirect_stdout(stdout):
                try:
                    cli_main(argv)
                except SystemExit as exc:
                    code = exc.code
            lines = stdout.getvalue().splitlines()
            mon.count('cli_runs')
            if expected[0] == 'value':
                want = 1 if expected[1] and mode >= 0.8 or expected[1] and mode < 0.5 else 0
                if lines != tree.logs or code != want:
                    raise Violation('the command line run differs', observed=lines[-8:], expected=tree.logs[-8:], code=code, argv=argv, differs=first_difference(lines, tree.logs))
                return
            mon.count('cli_errors')
            rest = '\n'.join(lines[len(tree.logs):])
            if code == 0 or lines[:len(tree.logs)] != tree.logs:
                raise Violation('the command line run differs', observed=lines[-8:], expected=tree.logs[-8:], code=code, argv=argv)
            if expected[0] == 'undefined':
                return
            location = expected[1]
            named = re.findall(r'(?:Include of|Included from) "(.*?)"', rest)
            if not any(canonical(os.path.relpath(name, path) if os.path.isabs(name) else name) == location for name in named):
                raise Violation('the error does not name the location', observed=rest[:400], expected=location)


def plan(tier):
    quick = tier == 'quick'
    shards = []
    for _ in range(16 if quick else 64):
        shards.append(('tree', {'n': 3000 if quick else 12000, 'depth': 4 if quick else 6, 'cost': 4}))
    for _ in range(4 if quick else 16):
        shards.append(('cli', {'n': 300 if quick else 1200, 'depth': 3, 'cost': 3}))
    shards.append(('resolve', {'n': 8000 if quick else 200000, 'cost': 1}))
    return shards


def shard(kind, spec, rng, mon):
    for _ in range(spec['n']):
        if kind == 'tree':
            tree_case(mon, rng, spec['depth'])
        elif kind == 'cli':
            cli_case(mon, rng, spec['depth'])
        else:
            resolution_case(mon, rng)
            if rng.random() < 0.05:
                no_fetch_case(mon, rng)
