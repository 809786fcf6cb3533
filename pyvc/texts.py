"""Reading texts: a text is a list of pieces: literal str | Hole | Rep(n, index, pieces, separator)."""
from .objs import *


class Rep:
    """pieces(0) sep pieces(1) sep ... pieces(n-1)"""
    def __init__(self, n, var, body, sep=''):
        self.n, self.var, self.body, self.sep = n, var, body, sep

    def __repr__(self):
        return 'Rep(%s<%s,%r,%r)' % (self.var, self.n, self.body, self.sep)


def sl_pieces(ip, s, sep=''):
    """pieces of the texts in the list term s, with sep between them"""
    s = ip.resolve_ifl(s)
    if isinstance(s, Lit):
        out = []
        for j, x in enumerate(s.items):
            if j and sep:
                out.append(sep)
            out += pieces(ip, x)
        return merge_lits(out)
    if isinstance(s, Comp):
        inner = s.chunk
        if sep and not (isinstance(inner, Lit) and len(inner.items) == 1):
            raise Unsupported('text joined from a nested list')
        return [Rep(s.n, s.var, sl_pieces(ip, inner), sep)]
    if isinstance(s, Cat):
        if sep:
            # a separator between the parts: only when no part can be empty
            out = []
            for j, p in enumerate(s.parts):
                if not ip.c.holds(slen(p) >= 1):
                    raise Unsupported('text joined from possibly empty parts')
                if j:
                    out.append(sep)
                out += sl_pieces(ip, p, sep)
            return merge_lits(out)
        return merge_lits([q for p in s.parts for q in sl_pieces(ip, p)])
    raise Unsupported('text joined from %s' % type(s).__name__)


def merge_lits(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '' if isinstance(p, str) else True:
            out.append(p)
    return out


def pieces(ip, t):
    if isinstance(t, str):
        return [t] if t else []
    if isinstance(t, Hole):
        if t.what == 'join':
            return sl_pieces(ip, t.info)
        if t.what == 'joined':
            sep = t.info[0]
            return sl_pieces(ip, t.info[1], sep)
        return [t]
    if isinstance(t, SStr):
        return merge_lits([q for p in t.parts for q in pieces(ip, p)])
    raise Unsupported('text %r' % (t,))
