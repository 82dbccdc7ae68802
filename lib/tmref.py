"""Independent transfer maps: exponential of the second-order (Carleman)
linearisation of the curvilinear Hamiltonian equations of motion.

Coordinates (x, px/p0, y, py/p0, tau = -xi, delta = dE/(p0 c)); h = curvature.
"""
import numpy as np
from scipy.linalg import expm


def generator(h, k1, k2, gamma):
    b = np.sqrt(1 - 1 / gamma**2)
    ig = 1 / (b**2 * gamma**2)
    A = np.zeros((6, 6))
    Q = np.zeros((6, 6, 6))
    A[0, 1] = 1
    Q[0, 0, 1] = h
    Q[0, 1, 5] = -1 / b
    A[1, 5] = h / b
    A[1, 0] = -h**2 - k1
    Q[1, 1, 1] = Q[1, 3, 3] = -h / 2
    Q[1, 5, 5] = -h * ig / 2
    Q[1, 0, 0] = -h * k1 - k2 / 2
    Q[1, 2, 2] = (k2 + h * k1) / 2
    A[2, 3] = 1
    Q[2, 0, 3] = h
    Q[2, 3, 5] = -1 / b
    A[3, 2] = k1
    Q[3, 0, 2] = k2 + h * k1
    A[4, 0] = h / b
    A[4, 5] = -ig
    Q[4, 0, 5] = -h * ig
    Q[4, 1, 1] = Q[4, 3, 3] = 1 / (2 * b)
    Q[4, 5, 5] = 1.5 * ig / b
    return A, Q


def maps(s, h, k1, k2, gamma):
    """R (6x6) and T (6x6x6, not symmetrised) of a length s."""
    A, Q = generator(h, k1, k2, gamma)
    I6 = np.eye(6)
    M = np.zeros((42, 42))
    M[:6, :6] = A
    M[:6, 6:] = Q.reshape(6, 36)
    M[6:, 6:] = np.kron(A, I6) + np.kron(I6, A)
    E = expm(M * s)
    return E[:6, :6], E[:6, 6:].reshape(6, 6, 6)


def fold(T):
    """Coefficients of the monomials x_i x_j, i <= j."""
    S = T + np.swapaxes(T, 1, 2)
    out = np.zeros_like(T)
    for i in range(6):
        out[:, i, i] = T[:, i, i]
        for j in range(i + 1, 6):
            out[:, i, j] = S[:, i, j]
    return out


def to_map(st6, gref):
    """(x, y, xi, px, py, pz) -> map coordinates."""
    x, y, xi, px, py, pz = st6
    b = np.sqrt(1 - gref**-2)
    g = np.sqrt(1 + px**2 + py**2 + pz**2)
    p0 = gref * b
    return np.array([x, px / p0, y, py / p0, -xi, (g - gref) / p0])


def from_map(m, gref):
    b = np.sqrt(1 - gref**-2)
    p0 = gref * b
    g = gref + m[5] * p0
    px, py = m[1] * p0, m[3] * p0
    return np.array([m[0], m[2], -m[4], px, py,
                     np.sqrt(g**2 - 1 - px**2 - py**2)])


def rotate(st6, angle, x_off=0.):
    """From the frame of the reference orbit to the laboratory frame."""
    x, y, xi, px, py, pz = st6
    c, s = np.cos(angle), np.sin(angle)
    return np.array([c * x + s * xi + x_off, y, -s * x + c * xi,
                     c * px + s * pz, py, -s * px + c * pz])


def unrotate(st6, angle, x_off=0.):
    st6 = np.array(st6, dtype=float)
    st6[0] = st6[0] - x_off
    return rotate(st6, -angle)


def ref_element(st6, s, L, theta, k1, k2, gref, order, n, th0=0., x0=0.):
    """States after each of n equal sub-steps over length s of an element.

    Returns list of (state in the laboratory frame, theta_ref, x_ref).
    """
    R_, T_ = maps(s / n, -theta / L, k1, k2, gref)
    m = to_map(unrotate(st6, th0, x0), gref)
    out = []
    for i in range(n):
        new = R_ @ m
        if order == 2:
            new = new + np.einsum('ijk,jn,kn->in', T_, m, m)
        m = new
        l_ = s * (i + 1) / n
        th = th0 + theta * l_ / L
        if theta != 0:
            xr = x0 - L / theta * (np.cos(th) - np.cos(th0))
        else:
            xr = x0 + l_ * np.sin(th0)
        out.append((rotate(from_map(m, gref), th, xr), th, xr))
    return out
