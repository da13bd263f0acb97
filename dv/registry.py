import importlib
import os
from . import dsl


def load_all():
    if dsl.REG:
        return dsl.REG
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("props." + f[:-3])
    return dsl.REG


def instances(prop=None, match=None):
    out = []
    for sc in load_all():
        if prop and sc.prop != prop:
            continue
        for name, kw in sc.instances():
            if match and match not in name:
                continue
            out.append((sc, name, kw))
    return out
