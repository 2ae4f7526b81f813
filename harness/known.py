"""The exact inputs of the listed findings (known_findings.json)."""
import numpy as np

from rec import Session, rel_value


def c01_underflow():
    """60 modes of 10 THz at 1 K: every quantum weight underflows extended precision, the occupations are 0/0"""
    s = Session()
    nu = np.full((2, 60), 10.0)
    nu[1] = 10.1
    k = s.pf('Q', nu)
    s.system('a', [k])
    s.q('a', 'P', np.array([1.0]), chk=['dist'])
    return 'ApiTrace', s


def c04_zero_point():
    """the zero-point energy reverses the order of two minima: T = 0 is not the limit of T -> 0"""
    s = Session()
    e = s.pf('E', np.array([0.0, 0.01]), np.array([1.0, 1.0]))
    q = s.pf('Q', np.array([[30.0], [10.0]]))
    s.system('a', [e, q])
    k = s.q('a', 'P', np.array([0.0]))
    s.q('a', 'P', np.array([1.0]), rel=[rel_value(k, 2, 1, kind='limit', tol=1e-6)])
    return 'ApiTrace', s


def c04_quantum_only():
    """quantum vibrations alone: equal occupations are reported at T = 0 although zero-point energies differ"""
    s = Session()
    q = s.pf('Q', np.array([[30.0], [10.0]]))
    s.system('a', [q])
    k = s.q('a', 'P', np.array([0.0]))
    s.q('a', 'P', np.array([1.0]), rel=[rel_value(k, 2, 1, kind='limit', tol=1e-6)])
    return 'ApiTrace', s


def _sym(S, unit):
    import files
    f = files.Files('')
    f.sym(S, __import__('shapes').xyz(S) * unit)
    return 'LoadTrace', f.close()


def c18_alloy_triangle():
    """C2v, but the moments of Pt and Au are nearly those of a symmetric top: pymatgen looks for an axis of order > 2"""
    I = __import__('shapes').I
    return _sym([('Au', I(-1, 1, 0)), ('Au', I(0, 1, 1)), ('Pt', I(-1, 0, 1))], 2.0)


def c18_octahedron_in_tetrahedral_shell():
    """Td with orbits of 6 and 12 atoms only: pymatgen finds C3v"""
    I = __import__('shapes').I
    pts = [(1, 0, -2, 0), (1, 2, -1, -1), (1, 1, 2, 1), (1, -1, 2, -1), (1, -2, -1, 1), (1, -1, 1, -2), (1, 2, 0, 0),
           (1, 1, -2, -1), (1, 1, 1, 2), (1, 1, -1, -2), (1, -1, -1, 2), (1, 0, 2, 0), (1, -2, 0, 0), (1, 0, 0, -2),
           (1, -2, 1, -1), (1, 0, 0, 2), (1, -1, -2, 1), (1, 2, 1, 1)]
    return _sym([('Au', I(*p[1:])) for p in pts], 2.14)


FINDINGS = {'KF4': c18_alloy_triangle, 'KF5': c18_octahedron_in_tetrahedral_shell,
            'KF1': c01_underflow, 'KF2': c04_zero_point, 'KF3': c04_quantum_only}
