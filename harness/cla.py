"""Stand-in for the package src.CLA, which the repository uses and does not
contain: classical lamination theory for stacks of equal-thickness plies.
Order of the lamination parameters: A (0:4), B (4:8), D (8:12), each
(cos 2t, cos 4t, sin 2t, sin 4t); z runs from -1 (first ply) to 1."""
import sys
import types

import numpy as np


def _trig(angle):
    a = np.deg2rad(float(angle))
    return np.array([np.cos(2*a), np.cos(4*a), np.sin(2*a), np.sin(4*a)])


def _lampam(ss):
    ss = np.asarray(ss).ravel()
    n = ss.size
    lampam = np.zeros(12)
    for i, angle in enumerate(ss):
        z0, z1 = -1 + 2*i/n, -1 + 2*(i + 1)/n
        t = _trig(angle)
        lampam[0:4] += t*(z1 - z0)/2
        lampam[4:8] += t*(z1**2 - z0**2)/2
        lampam[8:12] += t*(z1**3 - z0**3)/2
    return lampam


def calc_lampam(ss, constraints=None):
    if isinstance(ss, list):
        if ss and np.ndim(ss[0]) == 0:
            return _lampam(ss)
        return np.array([_lampam(s) for s in ss])
    ss = np.asarray(ss)
    if ss.ndim == 2 and ss.shape[0] > 1:
        return np.array([_lampam(s) for s in ss])
    return _lampam(ss)


def calc_lampam_2(ss):
    return _lampam(ss)


def calc_lampam_from_delta_lp_matrix(ss, constraints, delta_lampams):
    lampam = np.zeros(12)
    for ind_ply in range(delta_lampams.shape[0]):
        lampam += delta_lampams[
            ind_ply, constraints.ind_angles_dict[ss[ind_ply]]]
    return lampam


def calc_delta_lampam(mom_areas, angles, constraints, *args, **kwargs):
    raise NotImplementedError('not needed')


calc_delta_lampam_mp_3 = calc_delta_lampam


def calc_lampamA(ss, constraints=None):
    return _lampam(ss)[0:4]


def calc_lampamD(ss, constraints=None):
    return _lampam(ss)[8:12]


def _stiffness(x, mat, factor):
    """matrix of an isotropic part and four lamination parameters"""
    iso = 0 if factor is None else 1
    k = 1/12 if factor == 'D' else 1/4 if factor is None else 1
    u1, u2, u3, u4, u5 = mat.U1, mat.U2, mat.U3, mat.U4, mat.U5
    m11 = iso*u1 + u2*x[0] + u3*x[1]
    m22 = iso*u1 - u2*x[0] + u3*x[1]
    m12 = iso*u4 - u3*x[1]
    m66 = iso*u5 - u3*x[1]
    m16 = u2*x[2]/2 + u3*x[3]
    m26 = u2*x[2]/2 - u3*x[3]
    return k*np.array([[m11, m12, m16], [m12, m22, m26], [m16, m26, m66]])


def A_from_lampam(lampam, mat, *args, **kwargs):
    return _stiffness(lampam[0:4], mat, 'A')


def B_from_lampam(lampam, mat, *args, **kwargs):
    return _stiffness(lampam[4:8], mat, None)


def D_from_lampam(lampam, mat, *args, **kwargs):
    """per unit of cubed thickness"""
    return _stiffness(lampam[8:12], mat, 'D')


def install():
    """registers the stand-in unless the repository has its own src.CLA"""
    try:
        import src.CLA.lampam_functions   # noqa
        import src.CLA.lp_functions_2     # noqa
        import src.CLA.ABD                # noqa
        return 'repository'
    except ImportError:
        pass
    pkg = types.ModuleType('src.CLA')
    pkg.__path__ = []
    lf = types.ModuleType('src.CLA.lampam_functions')
    lf.calc_lampam = calc_lampam
    lf.calc_lampam_2 = calc_lampam_2
    lf.calc_lampam_from_delta_lp_matrix = calc_lampam_from_delta_lp_matrix
    lf.calc_delta_lampam = calc_delta_lampam
    lf.calc_delta_lampam_mp_3 = calc_delta_lampam_mp_3
    lp2 = types.ModuleType('src.CLA.lp_functions_2')
    lp2.calc_lampamA = calc_lampamA
    lp2.calc_lampamD = calc_lampamD
    abd = types.ModuleType('src.CLA.ABD')
    abd.A_from_lampam = A_from_lampam
    abd.B_from_lampam = B_from_lampam
    abd.D_from_lampam = D_from_lampam
    sys.modules['src.CLA'] = pkg
    sys.modules['src.CLA.lampam_functions'] = lf
    sys.modules['src.CLA.lp_functions_2'] = lp2
    sys.modules['src.CLA.ABD'] = abd
    import src
    src.CLA = pkg
    pkg.lampam_functions, pkg.lp_functions_2, pkg.ABD = lf, lp2, abd
    return 'stand-in'
