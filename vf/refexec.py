"""Reference executor of jump-level models with exact statement accounting"""
from vf.lang import Evaluator, RefRuntimeError, Unjudged
from vf.values import truthy


class RefLimit(RefRuntimeError):
    pass


class RefExec:
    """Runs the public script model. include: callable(base, entry) -> (new_base, model) for include statements"""

    def __init__(self, globals_, limit=0, options=None, include=None, hard_limit=200000, max_depth=80):
        self.globals = globals_
        self.limit = limit
        self.count = 0
        self.hard_limit = hard_limit
        self.include = include
        self.ev = Evaluator(globals_, options, None)
        self.depth = 0
        self.max_depth = max_depth
        self.stats = {}

    def note(self, what):
        self.stats[what] = self.stats.get(what, 0) + 1

    def too_deep(self):
        raise Unjudged()

    def run(self, model, base=None):
        return self.statements(model['statements'], None, base)

    def statements(self, statements, locals_, base):
        ix = 0
        while ix < len(statements):
            self.count += 1
            if 0 < self.limit < self.count:
                raise RefLimit(f'Exceeded maximum script statements ({self.limit})')
            if self.count > self.hard_limit:
                raise Unjudged()
            (key, node), = statements[ix].items()
            if key == 'expr':
                value = self.ev.eval(node['expr'], locals_)
                if 'name' in node:
                    if locals_ is None:
                        self.globals[node['name']] = value
                    else:
                        locals_[node['name']] = value
            elif key == 'jump':
                if 'expr' not in node or truthy(self.ev.eval(node['expr'], locals_)):
                    for target, stmt in enumerate(statements):
                        if 'label' in stmt and stmt['label'] == node['label']:
                            self.note('jump-back' if target < ix else 'jump-forward')
                            ix = target
                            break
                    else:
                        self.note('unknown-label')
                        raise RefRuntimeError(f'Unknown jump label "{node["label"]}"')
                else:
                    self.note('jump-not-taken')
            elif key == 'return':
                self.note('return')
                return self.ev.eval(node['expr'], locals_) if 'expr' in node else None
            elif key == 'function':
                self.globals[node['name']] = JumpFunction(self, node, base)
            elif key == 'include':
                for entry in node['includes']:
                    self.note('include')
                    new_base, model = self.include(base, entry)
                    saved = {name: value for name, value in self.globals.items() if name.startswith('__bareScript')}
                    self.statements(model['statements'], None, new_base)
                    self.globals.update(saved)
            ix += 1
        return None


class JumpFunction:
    def __init__(self, executor, node, base):
        self.executor, self.node, self.base = executor, node, base

    def __call__(self, args, options):
        executor, node = self.executor, self.node
        executor.note('call')
        locals_ = {}
        params = node.get('args') or []
        for ix, param in enumerate(params):
            if node.get('lastArgArray') and ix == len(params) - 1:
                locals_[param] = list(args[ix:])
            else:
                locals_[param] = args[ix] if ix < len(args) else None
        executor.depth += 1
        if executor.depth > executor.max_depth:
            executor.too_deep()
        try:
            return executor.statements(node['statements'], locals_, self.base)
        finally:
            executor.depth -= 1
