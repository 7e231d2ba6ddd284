"""programs of hyperion/bin as modules whose numpy & co. can be swapped; main(args) runs the whole program"""
import ast
import io
import os
import sys
import types
REPO = os.environ.get('VERIF_REPO', '/repo')


class Program(object):
    def __init__(self, name):
        self.path = os.path.join(REPO, 'hyperion', 'bin', name)
        self.name = name
        self.error = None
        self.mod = types.ModuleType('hyperion.bin_' + name.replace('-', '_').replace('.py', ''))
        self.mod.__file__ = self.path
        try:
            with open(self.path) as f:
                tree = ast.parse(f.read(), self.path)
            flags = 0
            body, main = [], []
            for n in tree.body:
                if isinstance(n, ast.If) and '__main__' in ast.dump(n.test):
                    main += n.body
                else:
                    body.append(n)
            self.compiled = compile(ast.Module(body, []), self.path, 'exec', flags, True)
            compile(tree, self.path, 'exec', 0, True)
            self.main_code = compile(ast.Module(main, []), self.path, 'exec', flags, True)
            exec(self.compiled, self.mod.__dict__)
            sys.modules[self.mod.__name__] = self.mod
        except Exception as e:
            self.error = '%s: %s' % (type(e).__name__, e)

    def main(self, *args):
        """as from the command line; an option with value None is not given"""
        assert self.error is None, self.error
        import logging
        argv, sys.argv = sys.argv, [self.path] + [str(a) for a in args]
        lv = logging.root.manager.disable
        hs = list(logging.root.handlers)
        logging.disable(logging.CRITICAL)
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            exec(self.main_code, self.mod.__dict__)
        except SystemExit as e:
            raise RuntimeError('program ends with %s' % (e.code,))
        finally:
            sys.stderr = err
            sys.argv = argv
            logging.disable(lv)
            for h in list(logging.root.handlers):
                if h not in hs:
                    logging.root.removeHandler(h)


def opts(**kw):
    """options from names: a_b=1 -> --a-b 1; None: not given; True: flag; lists: several values"""
    out = []
    for k, v in kw.items():
        if v is None or v is False:
            continue
        out.append('--' + k.replace('_', '-'))
        if v is True:
            continue
        out += [x for x in v] if isinstance(v, (list, tuple)) else [v]
    return out
