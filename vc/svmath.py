"""functions phasor.math.dispatched finds for exact scalars"""
def _m(n):
    def f(x):
        return getattr(x, n)()
    return f


sqrt = _m('sqrt')
exp = _m('exp')
cos = _m('cos')
sin = _m('sin')
tan = _m('tan')
log = _m('log')
atan = _m('arctan')


def check_symbolic_type(x):
    return False


def angle(x):
    return x.imag.arctan2(x.real)


def atan2(y, x):
    return y.arctan2(x)
