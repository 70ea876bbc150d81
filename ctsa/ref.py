"""reference formulas: small expressions evaluated by the same interpreter, so both sides get the same normal form"""
import ast
from .values import *


def expr(I, W, src, env):
    st = State()
    e = dict(env)
    e.setdefault('np', E('numpy'))
    st.frames.append(Frame(e, None, W.SC.mod, None))
    I.muted += 1
    try:
        r = I.ev(ast.parse(src.strip(), mode='eval').body, st)
    finally:
        I.muted -= 1
    assert len(r) == 1, src
    return topoly(r[0][0])
