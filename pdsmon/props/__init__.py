import importlib, os, re


def load(prop):
    here = os.path.dirname(__file__)
    hit = False
    for fn in sorted(os.listdir(here)):
        if fn.startswith(prop.lower() + "_") and fn.endswith(".py"):
            importlib.import_module(f"pdsmon.props.{fn[:-3]}")
            hit = True
    if not hit:
        raise SystemExit(f"no monitor for {prop}")
