"""Floating point layout helpers and type tables."""
from rules.util import *

SRC = ['units/type_helpers.cc']
LAY = [('float', 32, 8, 127), ('double', 64, 11, 1023), ('unsigned short', 16, 5, 15), ('short', 16, 5, 15), ('unsigned int', 32, 8, 127),
       ('int', 32, 8, 127), ('unsigned long', 64, 11, 1023), ('long', 64, 11, 1023)]


def fields(v, e):
    w = v.w
    m = w - e - 1
    return bit(v, w - 1), [bit(v, i) for i in range(m, w - 1)], [bit(v, i) for i in range(m)]


def classes(v, e):
    sign, ex, sig = fields(v, e)
    allones = land(*ex)
    sigzero = land(*[lnot(b) for b in sig])
    nan = land(allones, lnot(sigzero))
    return {'IsInf': land(allones, sigzero), 'IsNaN': nan, 'IsSNaN': land(nan, lnot(sig[-1])), 'IsQNaN': land(nan, sig[-1]), 'SignBit': sign}


def consts(w, e, bias):
    m = w - e - 1
    em = ((1 << e) - 1) << m
    return {'BitSize': w, 'ExpSize': e, 'ExpBias': bias, 'SigSize': m, 'ExpMask': em, 'SigMask': (1 << m) - 1,
            'InfMask': (1 << (w - 1)) - 1, 'CanonicalNaN': em | 1 << (m - 1), 'PosInf': em, 'NegInf': em | 1 << (w - 1)}


def run_fp(s):
    def layout(name, w, e, bias):
        cls = 'verif_unit::FpProbe<%s>' % name

        def f(c):
            for k, x in consts(w, e, bias).items():
                c.eq(c.static(cls, k), x, k, '%s: %s' % (name, k))

        def g(c):
            v = c.sym('value', w)
            for k, x in classes(v, e).items():
                c.eq(c.static(cls, k, v), x, k, '%s: %s' % (name, k))
        s.explore('layout-' + name.replace(' ', '-'), f)
        if 'Half' not in name:
            s.explore('classify-' + name.replace(' ', '-'), g)
    for l in LAY:
        layout(*l)
    layout('mpact::sim::generic::HalfFP', 16, 5, 15)

    def half(c):
        v = c.sym('value', 16)
        for i, (k, x) in enumerate(classes(v, 5).items()):
            c.eq(c.func('verif_unit::ProbeHalf', i, v), x, k, 'half: %s' % k)
    s.explore('classify-half', half)


def run_half(s):
    def conv(c):
        # one partition per exponent value, so that the result is a bit vector
        e = c.choose(*range(32))
        sign, sig = c.sym('sign', 1), [c.sym('sig%d' % i, 1) for i in range(10)]
        z = boolc(False)
        lead = None
        if e == 0:
            lead = c.choose(*range(-1, 10))
            sig = [b if i < lead else boolc(i == lead) for i, b in enumerate(sig)]
        v = frombits(sig + [boolc(bool(e >> i & 1)) for i in range(5)] + [sign])
        got = c.func('verif_unit::HalfBits', v)
        if e == 31:
            if c.decide(land(*[lnot(b) for b in sig])):
                want = frombits([z] * 23 + [boolc(True)] * 8 + [sign])
                c.eq(got, want, 'infinity', 'infinities convert to infinities of the same sign')
            else:
                cl = classes(got, 8)
                c.check(cl['IsNaN'], 'nan', 'NaNs convert to NaNs')
                c.eq(cl['SignBit'], sign, 'nan-sign', 'a NaN keeps its sign')
            return
        if e == 0:
            if lead < 0:
                c.eq(got, frombits([z] * 31 + [sign]), 'zero', 'zeros keep their sign')
                return
            # sig = 2^lead * 1.f, value 2^(lead-24)
            frac = [z] * (23 - lead) + [sig[i] for i in range(lead)]
            ee = lead - 24 + 127
        else:
            frac = [z] * 13 + sig
            ee = e - 15 + 127
        want = frombits(frac + [boolc(bool(ee >> i & 1)) for i in range(8)] + [sign])
        c.eq(got, want, 'exact', 'finite half precision values convert exactly (exponent field %d)' % e)
    s.explore('half', conv)


PROPS = {
    'P17': dict(sources=SRC, run=run_fp, rule='per-bit dataflow of the classification helpers for a fully symbolic encoding, and of the layout constants, against IEEE-754'),
    'P18': dict(sources=SRC, run=run_half, rule='per-bit dataflow of the half to single conversion, partitioned by exponent and leading significand bit, for symbolic sign and significand'),
}


def run_tables(s):
    import witness
    witness.check(s, 'witness/types.cc')


PROPS['P19'] = dict(sources=['units/type_helpers.cc'], run=run_tables, rule='static assertions over the type tables, checked by the compiler front end for the current tree')
