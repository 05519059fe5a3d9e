"""Loads lib_src.py through the same rewriting as the code under verification."""
import os
from .load import instrument



def ideq(a, b):
    """one element or an equal one; the same number or text is an equal one"""
    from . import rt

    if {type(a), type(b)} <= {rt.SInt, rt.SStr, rt.SBits, int, str}:
        return a == b
    x = rt.is_(a, b)
    if type(x) is bool:
        return x or a == b
    # forks where the run decides it
    return True if rt.b_bool(x) else a == b


_p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib_src.py")
exec(compile(instrument(open(_p).read(), _p, "vc.lib"), _p, "exec"), globals())
