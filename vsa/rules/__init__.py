import importlib
import os


def load():
    d = os.path.dirname(__file__)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module(__name__ + '.' + f[:-3])
