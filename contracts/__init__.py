import importlib
from pyver.contract import Registry

MODULES = ["coordinates", "sudoku", "solve", "dlx", "analyze", "generate", "solvers", "actions", "notation", "shell", "game"]
THEORIES = ["geom", "sud", "solving", "cover", "comps", "rows", "brute", "create", "strings", "gen", "steps", "search", "tuples", "solver", "singles", "acts", "text", "notes", "cuts", "acttext", "picture", "shell", "game"]


def registry():
    R = Registry()
    for m in MODULES:
        importlib.import_module("contracts." + m).register(R)
    return R
