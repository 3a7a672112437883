"""Setup: the code under test imports from /repo and the reference models agree with a few facts of the language document"""
import os


def main():
    import bare_script
    from vf.exprparse import ref_parse
    from vf.lang import BigStep, binop, num, render_program, var
    from vf.values import compare, json_text

    repo = os.path.realpath(os.environ.get('VF_REPO', '/repo'))
    assert os.path.realpath(bare_script.__file__).startswith(repo + os.sep), bare_script.__file__
    assert ref_parse('a + b * c') == {'binary': {'op': '+', 'left': {'variable': 'a'}, 'right': {'binary': {
        'op': '*', 'left': {'variable': 'b'}, 'right': {'variable': 'c'}}}}}
    assert compare(None, 0) == -1 and compare([1, 2], [1.0, 2.0]) == 0 and json_text({'b': 1.0, 'a': [None]}) == '{"a":[null],"b":1}'
    program = [('assign', 'x', num(1)), ('while', binop('<', var('x'), num(5)), [('assign', 'x', binop('*', var('x'), num(2)))]),
               ('return', var('x'))]
    assert BigStep({}).run(program) == 8 and render_program(program)[1] == 'while x < 5:'
    print('selftest ok')
    return 0
