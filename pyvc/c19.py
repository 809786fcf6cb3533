"""C19: the printed report.  mean, std and get_vals_probs by their contracts (C09), dice of numbers and sequences by C01/C08."""
import re
from .texts import *

PCT = re.compile(r'[<>]?\d*\.2[f%]$')
ALIGN = re.compile(r'[<>^]?\d*$')


def subject(ip, k):
    """(what to report, law of its die or None for blank ones)"""
    c = ip.c
    i = c.binder('li')
    if k == 'die':
        d = rv_obj(ip, 'd')
        return d, T.mk_agg('sum', d.g.m, i, PSI(rt(d.g.el(i))) * real(d.g.P(i)))
    if k == 'number':
        x = anynum(ip)
        return x, PSI(rt(x))
    if k in ('sequence', 'list'):
        q, n, el = seq_obj(ip, 'q') if k == 'sequence' else numlist(ip, 'q')
        c.assume(n >= 1)
        return q, T.mk_agg('sum', n, i, PSI(rt(el(i))))
    if k == 'blank':
        return ip.call(glob(ip, 'blackrv', 'BlankRV'), []), None
    if k == 'none':
        return None, None
    if k == 'empty sequence':
        return ip.call(glob(ip, 'seq', 'Seq'), []), None
    return VList('list', Lit(())), PSI(z3.RealVal(0))          # (the die of no outcome is the constant 0)


def number_shown(c, p, spec_ok):
    """the number whose text this hole is, in one of the accepted formats"""
    if p.what == 'str':
        return (p.info, '') if is_num(p.info) else None
    if p.what == 'fmt':
        x, spec = p.info
        if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], Hole) and x.parts[0].what == 'str':
            x = x.parts[0].info
        if not is_num(x):
            return None
        if isinstance(spec, SStr):          # a width computed by the code
            spec = ''.join(q if isinstance(q, str) else '1' for q in spec.parts)
        return x, spec
    return None


def report(ip, what):
    c = ip.c
    use_rv(ip)
    x, spec = subject(ip, what)
    if isinstance(x, (Obj, VList)):
        x.pre = True
    M, Sd = num(ip, 'mean', 'float'), num(ip, 'deviation', 'float')
    stats = ('known', 'none', 'texts')[c.choose(3)] if what == 'die' else 'known'
    n = c.fresh('listed')
    c.assume(n >= 1)
    v, t, p = c.fresh_fn('lv', [I], R), c.fresh_fn('lt', [I], I), c.fresh_fn('lp', [I], R)
    dice, cuts = [], []

    def stat(val):
        def h(ip, a, k):
            dice.append(a[0])
            if stats == 'texts':
                raise PyRaise('TypeError')
            return val if stats == 'known' else None
        return h

    def gvp(ip, a, k):
        dice.append(a[0])
        cuts.append((list(a[1:]) + list(k.values()) + [0])[0])
        u = c.binder('g')
        return VList('tuple', Comp(n, u, Lit(((SNum(v(u), t(u)), SNum(p(u), 'float')),))))
    for name, h in (('mean', stat(M)), ('std', stat(Sd)), ('get_vals_probs', gvp)):
        ip.contracts['randvar:RV.' + name] = h
    S = glob(ip, 'settings', 'SETTINGS')
    printed = []

    def printer(which):
        def f(ip, a, k):
            printed.append((which, a, k))
            return None
        return PyFn('printer', f)
    w0 = num(ip, 'default_width', 'int')
    S.d = dict(S.d, DEFAULT_PRINT_FN=printer('setting'), DEFAULT_OUTPUT_WIDTH=w0)
    kw = {}
    name = None
    if c.choose(2):
        name = SStr([Hole('str', marker('name'))])
        kw['named'] = name
    if what in ('die', 'blank') and c.choose(2):
        kw['blocks_width'] = num(ip, 'width', 'int')
    rows = True
    if c.choose(2):
        rows = bool(c.choose(2))
        kw['show_pdf'] = rows
    cut = 0
    if what == 'die' and c.choose(2):
        cut = num(ip, 'cut', 'float')
        kw['cdf_cut'] = cut
    mode = ('return', 'print', 'given')[c.choose(3)]
    if mode == 'return':
        kw['print_'] = False
    elif mode == 'given':
        kw['print_fn'] = printer('given')
    if what in ('die', 'blank') and c.choose(2):
        kind, r = outcome(ip, ip.getattr(x, 'output'), [], kw)
    else:
        kind, r = outcome(ip, glob(ip, 'output', 'output'), [x], kw)
    if not c.prove('report: does not raise', kind == 'ok'):
        return
    # --- where it goes
    if mode == 'return':
        c.prove('returned: nothing is printed', not printed)
        out = r
    else:
        if not c.prove('printed exactly once, by the right printer', len(printed) == 1 and printed[0][0] == ('given' if mode == 'given' else 'setting') and len(printed[0][1]) == 1):
            return
        c.prove('printed: nothing is returned', r is None)
        out = printed[0][1][0]
    if not c.prove('the report is a text', isinstance(out, (str, SStr))):
        return
    ps = pieces(ip, out)
    # --- the name
    if name is not None:
        if not c.prove('the name comes first', len(ps) >= 2 and ps[0] is name.parts[0] and isinstance(ps[1], str) and ps[1].startswith(' ')):
            return
        ps = merge_lits([ps[1][1:]] + ps[2:])
    reps = [q for q in ps if isinstance(q, Rep)]
    if spec is None:
        c.prove('blank: no outcome line', not reps and all(q.strip('\n-') == '' if isinstance(q, str) else q.what == 'repeat' and q.info[0] == '-' for q in ps))
        c.prove('blank: no statistics are asked for', not dice)
        frame_ok(ip)
        return
    # --- the statistics
    one = None
    for d in dice:
        if one is None:
            one = d
            if d is not x:
                has_law(ip, 'the die reported', d, spec)
        c.prove('one die is reported', d is one)
    if not rows:
        c.prove('no rows asked for, none shown', not reps)
        head = ps
    else:
        if not c.prove('one list of rows', len(reps) == 1):
            return
        k = ps.index(reps[0])
        head, foot = ps[:k], ps[k + 1:]
        c.prove('a closing line after the rows', bool(foot) and all(q.strip('\n-') == '' if isinstance(q, str) else q.what == 'repeat' and q.info[0] == '-' for q in foot) and isinstance(foot[0], str) and foot[0].startswith('\n'))
        c.prove('every listed outcome has a row', reps[0].n == n)
        row(ip, reps[0], v, p)
        c.prove_eq('the cut is in percent', real(nt(cuts[-1])), real(nt(cut)) / 100)
    if stats == 'known':
        hs = [number_shown(c, q, None) if isinstance(q, Hole) else q for q in head]
        if any(q is None for q in hs):
            raise Unsupported('statistics line %r' % (head,))
        if c.prove('mean and deviation on the first line', len(hs) == 3 and hs[1] == ' ± ' and not isinstance(hs[0], str) and not isinstance(hs[2], str)):
            rd = lambda y: ip.call(ip.builtins['round'], [y, 2])
            for q, want, nm in ((hs[0], M, 'mean'), (hs[2], Sd, 'deviation')):
                y, f = q
                c.prove_eq('the %s, to two decimals' % nm, real(nt(y)), real(nt(want if f.endswith('.2f') else rd(want))))
    elif stats == 'none':
        c.prove('without weight: no mean and no deviation', head == ['None ± None'])
    else:
        c.prove('statistics do not exist: one line all the same', all(isinstance(q, str) and '\n' not in q for q in head) and head != [])
    frame_ok(ip)


def row(ip, rep, v, p):
    c = ip.c
    i = c.fresh('row')
    c.assume(z3.And(i >= 0, i < rep.n))
    b = list(M.subst_sl(Lit(tuple(rep.body)), [(rep.var, i)]).items)
    if not c.prove('a row is one line', isinstance(b[0], str) and b[0] == '\n' and rep.sep == '' and all('\n' not in q for q in b[1:] if isinstance(q, str))):
        return
    b = b[1:]
    if len(b) < 3 or not isinstance(b[0], Hole) or not isinstance(b[2], Hole):
        raise Unsupported('row %r' % (b,))
    val, pct = number_shown(c, b[0], None), number_shown(c, b[2], None)
    if val is None or pct is None:
        raise Unsupported('row %r' % (b,))
    c.prove('a row: the outcome as it is', bool(ALIGN.match(val[1])))
    c.prove_eq('a row: the outcome', real(nt(val[0])), v(i))
    share = real(nt(pct[0])) * (100 if pct[1].endswith('%') else 1)
    c.prove_eq('a row: its probability in percent', share, p(i) * 100)
    c.prove('a row: to two decimals', bool(PCT.match(pct[1])))
    c.prove('a row: a colon between them', isinstance(b[1], str) and b[1].strip() == ':')
    c.prove('a row: no other number', all(isinstance(q, str) and not any(ch.isdigit() for ch in q) or isinstance(q, Hole) and q.what == 'repeat' for q in b[3:]))




def entry(what, funcs):
    task('C19', 'report: ' + what, funcs)(lambda ip: report(ip, what))


for w in ('die', 'number', 'sequence', 'list', 'empty list'):
    entry(w, ['output:output'] + (['randvar:RV.output'] if w == 'die' else []))
for w in ('blank', 'none', 'empty sequence'):
    entry(w, ['output:output', 'output:_output_blank'] + (['blackrv:BlankRV.output'] if w == 'blank' else []))
