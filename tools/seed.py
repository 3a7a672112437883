#!/usr/bin/env python3
"""Development tool: make and check the planted bugs of /verif/seeded.

  seed.py make SPECS.py      write seeded/<id>/ for each spec of SPECS.py (a list named SEEDS)
  seed.py verify [ID...]     patch applies, tests pass, demo 0 without and non-zero with the patch
  seed.py catch [-a] [ID...] which checks report it (the bug's property only, or all with -a)
"""
import concurrent.futures
import difflib
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = f'{VERIF}/seeded'
WORK = '/tmp/seed'
DEMO = '''#!/bin/bash
# exit 0: the property's example holds, 1: it is broken
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def make(specs):
    for spec in runpy.run_path(specs)['SEEDS']:
        path = f"{SEEDED}/{spec['id']}"
        os.makedirs(path, exist_ok=True)
        patch = ''
        edits = spec['edits']
        for name in dict.fromkeys(edit[0] for edit in edits):
            with open(f'/repo/src/bare_script/{name}', encoding='utf-8') as file:
                old = new = file.read()
            for edit_name, before, after in edits:
                if edit_name == name:
                    if new.count(before) != 1:
                        raise SystemExit(f"{spec['id']}: {new.count(before)} matches of {before!r}")
                    new = new.replace(before, after)
            rel = f'src/bare_script/{name}'
            patch += ''.join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), f'a/{rel}', f'b/{rel}'))
        for name, text in (('patch.diff', patch), ('demo.sh', DEMO), ('demo.py', spec['demo'].lstrip()),
                           ('meta.json', json.dumps({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, indent=2) + '\n')):
            with open(f'{path}/{name}', 'w', encoding='utf-8') as file:
                file.write(text)
        os.chmod(f'{path}/demo.sh', 0o755)
        print('made', spec['id'])


def copy(name):
    path = f'{WORK}/{name}'
    if os.path.isdir(path):
        shutil.rmtree(path)
    shutil.copytree('/repo', path, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    return path


def run(cmd, cwd, **env):
    done = subprocess.run(cmd, cwd=cwd, env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', **env}, capture_output=True, text=True, check=False)
    return done.returncode, done.stdout + done.stderr


def verify(name):
    path = copy(f'v-{name}')
    demo = shutil.copytree(f'{SEEDED}/{name}', f'{WORK}/demo-{name}', dirs_exist_ok=True)
    os.remove(f'{demo}/patch.diff')
    try:
        clean, out1 = run(['bash', f'{demo}/demo.sh'], path)
        code, out = run(['git', 'apply', f'{SEEDED}/{name}/patch.diff'], path, GIT_CEILING_DIRECTORIES=WORK)
        if code != 0:
            return f'{name}: patch does not apply: {out}'
        broken, out2 = run(['bash', f'{demo}/demo.sh'], path)
        tests, out3 = run(['timeout', '120', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'src/tests'], path, PYTHONPATH=f'{path}/src', TZ='UTC', PYTHONHASHSEED='0')
        ok = clean == 0 and broken != 0 and tests == 0
        text = f'{name}: {"ok" if ok else "BAD"} demo clean={clean} patched={broken} tests={tests}'
        if not ok:
            text += '\n' + '\n'.join(filter(None, [out1[-800:] if clean else '', '' if broken else out2[-500:], '\n'.join(line for line in out3.splitlines() if line.startswith(('FAILED', 'E  ')))[:600] if tests else '']))
        return text
    finally:
        shutil.rmtree(path)
        shutil.rmtree(demo)


def catch(name, everything):
    with open(f'{SEEDED}/{name}/meta.json', encoding='utf-8') as file:
        prop = json.load(file)['property']
    path = copy(f'c-{name}')
    try:
        run(['git', 'apply', f'{SEEDED}/{name}/patch.diff'], path, GIT_CEILING_DIRECTORIES=WORK)
        found = []
        for check in [f'C{ix:02d}' for ix in range(1, 21)] if everything else [prop]:
            code, out = run(['timeout', '800', './check', check, os.environ.get('TIER', 'quick')], VERIF, VF_REPO=path, VF_EVIDENCE=f'{WORK}/evidence-{name}', VERIF_SEED=os.environ.get('SEED', '1'))
            if code != 0:
                found.append(check if code == 1 and f'VIOLATION property={check}' in out else f'{check}(rc={code})')
        return f'{name} [{prop}] {"caught by " + " ".join(found) if prop in found else "MISSED " + " ".join(found)}'
    finally:
        shutil.rmtree(path)
        shutil.rmtree(f'{WORK}/evidence-{name}', ignore_errors=True)


def main():
    os.makedirs(WORK, exist_ok=True)
    args = sys.argv[2:]
    if sys.argv[1] == 'make':
        make(args[0])
        return
    everything = '-a' in args
    names = [arg for arg in args if arg != '-a'] or sorted(os.listdir(SEEDED))
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        for text in pool.map((lambda name: verify(name)) if sys.argv[1] == 'verify' else (lambda name: catch(name, everything)), names):
            print(text, flush=True)


if __name__ == '__main__':
    main()
