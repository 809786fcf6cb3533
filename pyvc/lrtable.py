"""print the LALR table that ply builds from /repo's grammar: {'prods': [[lhs, rhs...]], 'action': {state: {token: n}}}"""
import io
import json
import os
import sys
import types
import contextlib


def table(src):
    sys.dont_write_bytecode = True
    g = types.ModuleType('repo_parser')
    g.__path__ = [os.path.join(src, 'parser')]
    sys.modules['repo_parser'] = g
    import importlib
    with contextlib.redirect_stdout(sys.stderr):
        m = importlib.import_module('repo_parser.myparser')
        _, y = m.build_lex_yacc()
    return {'prods': [[str(p.name)] + [str(x) for x in p.prod] for p in y.productions], 'funcs': [p.func for p in y.productions], 'action': {str(s): dict(a) for s, a in y.action.items()}, 'goto': {str(s): dict(a) for s, a in y.goto.items()}}


if __name__ == '__main__':
    sys.stdout.write(json.dumps(table(sys.argv[1])))
