"""z3.MultiPattern of the installed z3 5.3.2 drops its references to its arguments before it calls Z3_mk_pattern, so
terms made in the call are freed under it; this version keeps them alive."""
import z3
from z3 import z3core


def multi_pattern(*args):
    arr = (z3.Ast * len(args))(*[a.as_ast() for a in args])
    return z3.PatternRef(z3core.Z3_mk_pattern(args[0].ctx.ref(), len(args), arr), args[0].ctx)


z3.MultiPattern = multi_pattern
