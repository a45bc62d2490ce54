from refute.c12 import search as search12

BOUND = "sudokus with side <= 9 (thorough: 12): unique, several completions, none, conflicting, complete, empty"


def search(ctx):
    search12(ctx, True)
