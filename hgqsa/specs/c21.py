from HGQ.utils import apf_to_tuple, tuple_to_apf


def kif(kn, lo=-40, hi=40):
    return kn, _sym('i', lo=lo, hi=hi, integral=True, shape=()), _sym('f', lo=lo, hi=hi, integral=True, shape=())


MODES = (('TRN', 'WARP'), ('RND', 'WARP'), ('RND_CONV', 'WARP'), ('RND', 'SAT'), ('TRN', 'SAT'), ('RND_CONV', 'SAT_SYM'), ('TRN', 'WRAP'), ('RND', 'WRAP'), ('RND_ZERO', 'WRAP_SM'), ('TRN_ZERO', 'SAT_ZERO'), ('RND_INF', 'WRAP'), ('RND_MIN_INF', 'SAT'))


def text(kn, i, f, rnd, sat):
    """the type as it has to be written"""
    b = max(kn + i + f, 1)
    head = 'fixed<' if kn else 'ufixed<'
    if sat != 'WARP':
        tail = f',{rnd},{sat}>'
    elif rnd != 'TRN':
        tail = f',{rnd}>'
    else:
        tail = '>'
    return f'{head}{b},{kn + i}{tail}'


def writes(kn, rnd, sat):
    k, i, f = kif(kn)
    _same('text', tuple_to_apf((k, i, f), rnd, sat), text(k, i, f, rnd, sat))


def defaults(kn):
    k, i, f = kif(kn)
    _same('default modes', tuple_to_apf((k, i, f)), text(k, i, f, 'TRN', 'WARP'))
    _same('list instead of tuple', tuple_to_apf([k, i, f]), text(k, i, f, 'TRN', 'WARP'))
    _same('only rounding', tuple_to_apf((k, i, f), 'RND'), text(k, i, f, 'RND', 'WARP'))


def ob_write():
    """(sign, integer, fractional) bits to text"""
    for kn in (0, 1):
        for r, s in MODES:
            _case(f'{kn} {r} {s}', writes, kn, r, s)
        _case(f'{kn} defaults', defaults, kn)


def trip(kn, rnd, sat):
    k, i, f = kif(kn)
    f = _sym('b', lo=1, hi=80, integral=True, shape=()) - k - i
    _same('same bits', tuple(apf_to_tuple(tuple_to_apf((k, i, f), rnd, sat))), (k, i, f))


def small(kn, rnd, sat):
    """types without bits are written with one"""
    k, i, f = kif(kn)
    f = _sym('b', lo=-80, hi=0, integral=True, shape=()) - k - i
    _same('one bit', tuple(apf_to_tuple(tuple_to_apf((k, i, f), rnd, sat))), (k, i, 1 - k - i))


def ob_round_trip():
    """text written is read back as the same bits"""
    for kn in (0, 1):
        for r, s in MODES:
            _case(f'{kn} {r} {s}', trip, kn, r, s)
            _case(f'{kn} {r} {s} empty', small, kn, r, s)


def reads(kn, fmt):
    b = _sym('b', lo=1, hi=100, integral=True, shape=())
    n = _sym('n', lo=-60, hi=60, integral=True, shape=())
    pre, mid, post = fmt
    t = f'{pre}{"" if kn else "u"}fixed<{mid[0]}{b}{mid[1]}{n}{post}'
    _same('bits', tuple(apf_to_tuple(t)), (kn, n - kn, b - n))


def ob_read():
    """any such text is read exactly"""
    for kn in (0, 1):
        for fmt in (('', ('', ','), '>'), ('', ('', ', '), '>'), ('', (' ', ' , '), ' >'), (' ', ('', ','), '> '), ('', ('', ','), ',RND>'), ('', ('', ','), ',RND,SAT>'), ('', ('', ','), ', RND_CONV, SAT_SYM>'), ('', ('', ','), ',TRN,WRAP_SM>'), ('', ('', ','), ',TRN,WRAP,0>')):
            _case(f'{kn} {fmt}', reads, kn, fmt)


BAD = ('', 'fixed', 'fixed<', 'fixed<>', 'fixed<8>', 'fixed<8,>', 'fixed<,4>', 'fixed<a,4>', 'fixed<8,b>', 'fixed<8,4', 'fixed 8,4', 'fixed(8,4)', 'sfixed<8,4>', 'int8', 'uufixed<8,4>', 'float', 'fixed<-8,4>', 'fixed<8.5,4>', 'fixed<8;4>', 'Fixed<8,4>', 'ufix<8,4>')


def ob_malformed():
    """anything else is rejected"""
    for t in BAD:
        _raises(f'"{t}"', lambda: apf_to_tuple(t))
    for t in ('fixed<8,4>', 'ufixed<8,4>', 'fixed<8,-4>', 'ufixed<1,12>', 'fixed<16,6,RND,SAT>'):
        _raises(f'"{t}"', lambda: apf_to_tuple(t), False)


def ob_nuke():
    """types without bits are marked as such on request, and only those"""
    for kn in (0, 1):
        _case(f'{kn}', nuke, kn)


def nuke(kn):
    k, i, f = kif(kn)
    got = tuple_to_apf((k, i, f), keep_zeros=False)
    want = 'nuke' if k + i + f <= 0 else text(k, i, f, 'TRN', 'WARP')
    _same('text', got, want)
