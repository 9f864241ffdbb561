"""P11: phasor.math.complex.Complex computes in the complex field."""
import numpy as np
from vc.harness import Suite
from vc import phys

S = Suite('P11')
phys.install()


def Z(c, name, nz=False):
    from phasor.math.complex import Complex
    r, i = c.real(name + 'r', special=(0, 1, -1)), c.real(name + 'i', special=(0, 1, -1))
    if nz:
        if c.sym:
            c.assume('!=', r + 1j * i)
        elif np.any((abs(np.asarray(r)) + abs(np.asarray(i))) < 1e-6):
            r = np.where((abs(np.asarray(r)) + abs(np.asarray(i))) < 1e-6, 1., r)[()]
    return Complex(r, i), r + 1j * i


def val(z):
    return z.real + 1j * z.imag


OPS = [('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a * b), ('/', lambda a, b: a / b)]


@S.case('arithmetic of two Complex')
def _(c):
    from phasor.math.complex import Complex
    n, f = c.choice('op', OPS)
    a, av = Z(c, 'a')
    b, bv = Z(c, 'b', nz=n == '/')
    r = f(a, b)
    c.true('type', isinstance(r, Complex))
    if n == '/':
        c.eq('(a / b) b = a', val(r) * bv, av)
    else:
        c.eq('a op b', val(r), f(av, bv))
    c.eq('operands unchanged', val(a), av)
    c.eq('operands unchanged', val(b), bv)


@S.case('arithmetic with plain numbers on either side')
def _(c):
    n, f = c.choice('op', OPS)
    a, av = Z(c, 'a', nz=True)
    kind = c.choice('kind', ['real', 'int', 'cplx'])
    x = {'real': lambda: c.real('x', nz=True), 'int': lambda: 3, 'cplx': lambda: 2 - 3j}[kind]()
    r = f(a, x)
    c.eq('a op x', val(r), f(av, x))
    if kind != 'real' or c.sym:
        # (the left operand of a numpy value belongs to numpy)
        r = f(x, a) if not (c.sym and kind == 'real') else {'+': a.__radd__, '-': a.__rsub__, '*': a.__rmul__, '/': a.__rtruediv__}[n](x)
        c.eq('x op a', val(r), f(x, av))


@S.case('conjugate, negation, modulus')
def _(c):
    a, av = Z(c, 'a')
    c.eq('conjugate', val(a.conjugate()), av.conjugate())
    c.eq('negation', val(-a), -av)
    c.eq('identity', val(+a), av)
    c.eq('|a|^2', a.abs_sq(), av.real**2 + av.imag**2)
    c.eq('|a|^2 = abs^2', abs(a)**2, av.real**2 + av.imag**2)
    c.ge('abs >= 0', abs(a))


@S.case('conversion from complex and real values', arr=True)
def _(c):
    from phasor.math.complex import Complex
    v = c.cplx('v')
    c.eq('from complex', val(Complex(v)), v)
    r = c.real('r')
    c.eq('from real', val(Complex(r)), r)
    c.eq('from a Complex', val(Complex(Complex(v))), v)


@S.case('integer powers are repeated products', arr=True)
def _(c):
    k = c.choice('k', [1, 2, 3, 4, 5, 6, 7, 8, 12, 0, -1, -2, -3, 2., 3., -2.])
    a, av = Z(c, 'a', nz=True)
    r = a**k
    w = 1
    for _ in range(abs(int(k))):
        w = w * av
    if k < 0:
        c.eq('a^k a^-k = 1', val(r) * w, 1)
    else:
        c.eq('a^k', val(r), w)


@S.case('square root', arr=False)
def _(c):
    # every complex number is the square of one with u >= 0
    from phasor.math.complex import Complex
    u, v = c.nonneg('u'), c.real('v', special=(0,))
    a = Complex(u * u - v * v, 2 * u * v)
    av = val(a)
    r = a**.5
    c.eq('root squared', val(r) * val(r), av)
    c.ge('principal branch', r.real)


@S.case('arithmetic and roots at any magnitude', sym=False, arr=False, bounded=True, samples=60)
def _(c):
    # the field has no smallest element: the values of optics reach far below 1
    from phasor.math.complex import Complex
    m = 10. ** c.choice('unit', [-30, -13, -7, 5, 20])
    a, av = Z(c, 'a', nz=True)
    b, bv = Z(c, 'b', nz=True)
    am, avm = Complex(a.real * m, a.imag * m), av * m
    for n, f in OPS:
        w = f(avm, bv * m)
        c.eq('a %s b, both of the magnitude' % n, val(f(am, Complex(b.real * m, b.imag * m))), w, scale=(1. if n == '/' else m * m if n == '*' else m) * (abs(w / (1. if n == '/' else m * m if n == '*' else m)) + 1))
        w = f(avm, bv)
        if n in '*/':
            c.eq('a %s b, one of the magnitude' % n, val(f(am, b)), w, scale=abs(w))
    c.eq('modulus', abs(am), abs(avm), scale=abs(avm))
    c.eq('conjugate', val(am.conjugate()), avm.conjugate(), scale=abs(avm))
    for k in (2, 3, -1, -2):
        c.eq('integer power', val(am**k), avm**k, scale=abs(avm**k))
    u, v = abs(a.real) + .1, a.imag
    z = Complex((u * u - v * v) * m, 2 * u * v * m)
    r = val(z**.5)
    c.eq('root squared', r * r, val(z), scale=abs(val(z)))
    c.true('principal branch', r.real > 0)
    p = c.choice('p', [1.5, .25, -.5, 1 / 3.])
    c.eq('fractional power', val(am**p), complex(avm)**p, scale=abs(complex(avm)**p))
    x = abs(b.real) + .1
    c.eq('root of a real value', val(Complex(x * x * m, 0. * m)**.5), x * m**.5, scale=x * m**.5)
    c.eq('root of a negative real value', val(Complex(-x * x * m, 0. * m)**.5), 1j * x * m**.5, scale=x * m**.5)


@S.case('square root of real values', arr=False)
def _(c):
    from phasor.math.complex import Complex
    x = c.pos('x')
    s = c.choice('sign', [1, -1])
    r = Complex(s * x * x, 0)**.5
    c.eq('sqrt(x^2) = x, sqrt(-x^2) = i x', val(r), x if s > 0 else 1j * x)
    c.eq('zero', val(Complex(0. * x, 0. * x)**.5), 0)


@S.case('fractional powers and angle against cmath', sym=False, arr=False, bounded=True, samples=200)
def _(c):
    import cmath
    from phasor.math import complex as C
    a, av = Z(c, 'a', nz=True)
    p = c.choice('p', [1.5, .25, -.5, -1.5, 2.5, .1, 1 / 3.])
    av = complex(av)
    c.eq('a^p', val(a**p), av**p, scale=abs(av**p))
    c.eq('angle', C.angle(a), cmath.phase(av))
    c.eq('angle in degrees', C.angle(a, deg=True), cmath.phase(av) * 180 / cmath.pi, scale=100)
    c.eq('exp', val(C.exp(a)), cmath.exp(av), scale=abs(cmath.exp(av)))


@S.case('equality is equality of both parts', arr=False)
def _(c):
    a, av = Z(c, 'a')
    from phasor.math.complex import Complex
    b = Complex(a.real, a.imag)
    c.true('equal', a == b and not (a != b))
    d = c.pos('d')
    c.true('real parts differ', a != Complex(a.real + d, a.imag) and not (a == Complex(a.real + d, a.imag)))
    c.true('imaginary parts differ', a != Complex(a.real, a.imag + d) and not (a == Complex(a.real, a.imag + d)))
    c.true('plain real', Complex(2., 0.) == 2 and not (Complex(2., 1.) == 2) and Complex(2., 1.) != 2)
    c.true('plain complex', Complex(2., 1.) == 2 + 1j and Complex(2., 1.) != 2 - 1j)
    c.true('something else', not (Complex(2., 1.) == None) and Complex(2., 1.) != None)   # noqa
    c.true('equal values hash equally', c.sym or hash(a) == hash(b))


@S.case('indexing is elementwise', sym=False, arr=False, bounded=True)
def _(c):
    from phasor.math.complex import Complex
    r = np.array([c.real('r%d' % k) for k in range(3)])
    i = np.array([c.real('i%d' % k) for k in range(3)])
    z = Complex(r, i)
    for k in range(3):
        c.eq('element', val(z[k]), r[k] + 1j * i[k])
