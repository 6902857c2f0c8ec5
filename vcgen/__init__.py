import z3


def _multi_pattern(*args):
    """z3py drops the terms of a multi-pattern before the pattern holds them."""
    ctx = args[0].ctx
    arr, sz = z3.z3._to_ast_array(args)
    p = z3.PatternRef(z3.Z3_mk_pattern(ctx.ref(), sz, arr), ctx)
    del args
    return p


z3.MultiPattern = _multi_pattern
