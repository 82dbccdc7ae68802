"""Independent reference of the gridless quasistatic r-z model.

P. Baxevanis and G. Stupakov, PRAB 21, 071301 (2018), with the documented
extensions (laser, finite and parabolic plasma, limits on psi, dxi_psi, b_theta
and gamma).  Everything in normalised units (lengths in skin depths).  Written
for clarity with dense linear algebra instead of the shooting recursions.
"""
import numpy as np
from C06 import weights


class Column:
    """Fields of a set of charged sheets (r, pr, q) in a plasma column."""

    def __init__(s, p, r, pr, src):
        # src: a2, nabla_a2, b0 at each particle
        s.p = p
        o = np.argsort(r, kind='stable')
        s.o = o
        s.r, s.pr, s.q = r[o], pr[o].copy(), p.q[o]
        s.a2, s.na2, s.b0 = (x[o] for x in src)
        s.n = len(r)
        s.S1 = np.cumsum(s.q)
        s.S2 = np.cumsum(s.q * np.log(s.r))
        mid = (s.r[1:] + s.r[:-1]) / 2
        s.left = np.concatenate([[0.], mid])
        s.right = np.concatenate([mid, [s.r[-1] + p.dr_p / 2]])
        s._psi()
        s.gamma = (1 + s.pr**2 + s.a2 + (1 + s.psi)**2) / (2 * (1 + s.psi))
        s.pz = s.gamma - (1 + s.psi)
        s.bt = s._bt_particles()

    # ---- potential
    def dpsi_at(s, r, S1, S2):
        rm, pc = s.p.rm, s.p.pc
        ion = np.where(r <= rm, r**2/4 + pc*r**4/16, rm**2/4 + pc*rm**4/16
                       + (rm**2/2 + pc*rm**4/4) * np.log(r/rm))
        return S1 * np.log(r) - S2 - ion

    def drpsi_at(s, r, S1):
        rm, pc = s.p.rm, s.p.pc
        ion = np.where(r <= rm, r/2 + pc*r**3/4, (rm**2/2 + pc*rm**4/4) / r)
        return S1 / r - ion

    def at_particles(s, L, Rv):
        """Linear interpolation of left and right values to the sheet."""
        return L + (Rv - L) / (s.right - s.left) * (s.r - s.left)

    def _psi(s):
        p = s.p
        pr_ = s.dpsi_at(s.right, s.S1, s.S2)
        pl = np.zeros(s.n)
        dl = np.zeros(s.n)
        if s.n > 1:
            pl[1:] = s.dpsi_at(s.left[1:], s.S1[:-1], s.S2[:-1])
            dl[1:] = s.drpsi_at(s.left[1:], s.S1[:-1])
        psi = s.at_particles(pl, pr_) - s.dpsi_at(
            max(s.right[-1], p.rm), s.S1[-1], s.S2[-1])
        s.psi = np.maximum(psi, -0.9)
        s.dr_psi = s.at_particles(dl, s.drpsi_at(s.right, s.S1))
        S3 = np.cumsum(s.q * s.pr / (s.r * (1 + s.psi)))
        dx = s.at_particles(np.concatenate([[0.], -S3[:-1]]), -S3) + S3[-1]
        tie = abs(s.right[-1] - p.rm) < 1e-9 * p.dr_p
        if tie and s.pr[-1] != 0:
            p.tied = True
        if p.tie_gt if tie else s.right[-1] > p.rm:
            dx = dx - (s.S1[-1] - p.rm**2/2 - p.pc*p.rm**4/4) * s.pr[-1] / (
                s.right[-1] * (1 + s.psi[-1]))
        s.dxi_psi = np.clip(dx, -3, 3)

    def psi_grid(s, rj):
        k = np.searchsorted(s.r, rj, side='left')   # sheets with r < rj
        S1 = np.concatenate([[0.], s.S1])[k]
        S2 = np.concatenate([[0.], s.S2])[k]
        return s.dpsi_at(rj, S1, S2) - s.dpsi_at(
            max(s.r[-1], s.p.rm), s.S1[-1], s.S2[-1])

    # ---- magnetic field: b = a_i r + b_i/r between sheets i and i+1
    def abc(s):
        f = 1 + s.psi
        r, q, pr = s.r, s.q, s.pr
        A = q / (r * f)
        B = q * (-s.gamma * s.dr_psi / (r * f**2)
                 + pr**2 * s.dr_psi / (r * f**3) + pr * s.dxi_psi / (r * f**2)
                 + pr**2 / (r**2 * f**2) + s.b0 / (r * f)
                 + s.na2 / (2 * r * f**2))
        C = q * (pr**2 / (r * f**2) - (s.gamma / f - 1) / r)
        return A, B, C

    def ab(s):
        """a_0..a_n and b_0..b_n with b_0 = 0 and a_n = 0.

        b jumps by C_i at sheet i, its slope by A_i*b_mean + B_i, where
        b_mean is the average of both sides."""
        n, r = s.n, s.r
        A, B, C = s.abc()
        M = np.zeros((2*n + 2, 2*n + 2))
        rhs = np.zeros(2*n + 2)
        sc = np.concatenate([[1.], r])   # b_i = beta_i * sc_i**2
        M[0, n + 1] = 1.
        M[1, n] = 1.
        for i in range(1, n + 1):
            ri = r[i-1]
            # unknown columns: a_{i-1}, a_i, beta_{i-1}, beta_i
            ia, ib = i, n + 1 + i
            bl, br = sc[i-1]**2 / ri, sc[i]**2 / ri
            # jump condition
            row = 2 * i
            M[row, ia] += ri
            M[row, ia-1] -= ri
            M[row, ib] += br
            M[row, ib-1] -= bl
            rhs[row] = C[i-1]
            # slope condition: d(b)/dr jump is A*<b> + B - C/r
            # (from (1/r) d(r b)/dr = 2 a jumping by A <b> + B)
            row = 2 * i + 1
            M[row, ia] += 2.
            M[row, ia-1] -= 2.
            h = A[i-1] / 2
            M[row, ia-1] -= h * ri
            M[row, ib-1] -= h * bl
            M[row, ia] -= h * ri
            M[row, ib] -= h * br
            rhs[row] = B[i-1]
        # symmetric form is equivalent to the explicit recursion in the paper
        u = np.linalg.solve(M, rhs)
        return u[:n+1], u[n+1:] * sc**2

    def _bt_particles(s):
        a, b = s.ab()
        p = s.p
        right = s.right.copy()
        right[-1] = s.r[-1] + p.dr_p / 4
        L = np.zeros(s.n)
        L[1:] = a[1:-1] * s.left[1:] + b[1:-1] / s.left[1:]
        Rv = a[1:] * right + b[1:] / right
        bt = L + (Rv - L) / (right - s.left) * (s.r - s.left)
        return np.clip(bt, -3, 3)

    def bt_grid(s, rj, side='left'):
        a, b = s.ab()
        k = np.searchsorted(s.r, rj, side=side)
        return a[k] * rj + b[k] / rj

    def derivs(s):
        """dr/ds, dpr/ds with s = -xi, in the original particle order."""
        f = 1 + s.psi
        dpr = s.gamma * s.dr_psi / f - s.bt - s.b0 - s.na2 / (2 * f)
        dr = s.pr / f
        o1, o2 = np.empty(s.n), np.empty(s.n)
        o1[s.o], o2[s.o] = dr, dpr
        return o1, o2


class P:
    pass


def setup(n_r, n_xi, dr, dxi, ppc, r_max_plasma, pc):
    p = P()
    p.n_r, p.n_xi, p.dr, p.dxi = n_r, n_xi, dr, dxi
    n = int(round(r_max_plasma / dr * ppc))
    p.dr_p = dr / ppc
    p.rm = n * p.dr_p
    p.pc = pc
    p.tied, p.tie_gt = False, False
    p.r0 = (np.arange(n) + 0.5) * p.dr_p
    p.q = p.dr_p * (p.r0 + pc * p.r0**3)
    p.rj = (np.arange(n_r) + 0.5) * dr
    return p


def solve(p, a2, na2, b0, pusher, shape, max_gamma, perturb=None,
          stale=False, stale_last=False, tie_gt=False):
    """Returns dict of psi, bt, bt2 (other side), rho, chi, info.

    `stale`: particles beyond the last radial node keep what they gathered
    before (recorded defect); `stale_last` the same for the last substep;
    `tie_gt`: how a sheet that touches the plasma edge is counted."""
    p.tie_gt = tie_gt
    src = (a2, na2, b0)
    par = (1, -1, -1)
    bufs = [[np.zeros(len(p.q)) for _ in src] for _ in range(4)]
    info = dict(left=None, chaotic=None, clip=False, fast=False)
    rl = p.rj[-1]

    def gather(r, slc, frac, buf, i, freeze=False):
        """sources at slice slc - frac."""
        out = []
        keep = r > rl
        lo = slc - 1 if frac > 0 else slc
        cr = r / p.dr - 0.5
        k = np.clip(np.floor(cr).astype(int), -1, p.n_r - 2)
        u = cr - k
        for m, (f, s) in enumerate(zip(src, par)):
            row = f[slc] if frac == 0 else (1 - frac) * f[slc] + frac * f[lo]
            kk = np.where(k < 0, 0, k)
            vl = np.where(k < 0, s * row[0], row[kk])
            # below the first node the recorded scheme keeps a2 constant
            # (its mirror image has the same value)
            v = (1 - u) * vl + u * row[k + 1]
            if freeze:
                v = bufs[buf][m]
            elif stale:
                v = np.where(keep, bufs[buf][m], v)
            else:
                if np.any(keep & (bufs[buf][m] != 0)) and \
                        info['left'] is None:
                    info['left'] = slc
                v = np.where(keep, 0., v)
            bufs[buf][m] = v
            out.append(v)
        return out

    r = p.r0.copy()
    if perturb is not None:
        r = r * (1 + perturb)
    pr = np.zeros_like(r)
    hist = []
    psi = np.zeros((p.n_xi, p.n_r))
    bt, bt2, bamb = psi.copy(), psi.copy(), psi.copy()
    rho, chi = psi.copy(), psi.copy()
    charge = np.zeros(p.n_xi)
    deg = 1 if shape == 'linear' else 3
    close_last = np.abs(p.r0 - rl) < 1e-9 * p.dr
    info['edge'] = bool(np.any(close_last)) and any(
        np.any(np.abs(f[:, -1]) > 1e-12) for f in src)
    for i in range(p.n_xi - 1, -1, -1):
        c = Column(p, r, pr, gather(r, i, 0., 0, i))
        if np.any(c.psi <= -0.9) or np.any(np.abs(c.dxi_psi) >= 3) or \
                np.any(np.abs(c.bt) >= 3):
            info['clip'] = True
        fast = c.gamma >= max_gamma
        if np.any(np.abs(c.gamma - max_gamma) < 1e-6) and \
                info['chaotic'] is None:
            info['chaotic'] = i
        if np.any(fast):
            info['fast'] = True
            c.gamma = np.where(fast, 1., c.gamma)
            c.pz = np.where(fast, 0., c.pz)
            c.pr = np.where(fast, 0., c.pr)
            pr = pr.copy()
            pr[c.o] = c.pr
        psi[i] = c.psi_grid(p.rj)
        bt[i] = c.bt_grid(p.rj)
        d = np.abs(p.rj[:, None] - c.r[None]).min(axis=1)
        bamb[i] = d < 1e-9 * p.dr
        bt2[i] = c.bt_grid(np.where(bamb[i], p.rj + 1e-8 * p.dr, p.rj))
        bt[i] = c.bt_grid(np.where(bamb[i], p.rj - 1e-8 * p.dr, p.rj))
        w = c.q / (p.dr * c.r * (1 - c.pz / c.gamma))
        wz = weights(float(i), p.n_xi, deg, False)
        col, colx = np.zeros(p.n_r), np.zeros(p.n_r)
        for k in range(c.n):
            if c.r[k] <= p.n_r * p.dr:
                s = weights(c.r[k] / p.dr - 0.5, p.n_r, deg, False)
                col += w[k] * s
                colx += w[k] / c.gamma[k] * s
            if abs(c.r[k] - p.n_r * p.dr) < 1e-9 * p.dr and \
                    info['chaotic'] is None:
                info['chaotic'] = i
        rho += np.outer(wz, col)
        chi += np.outer(wz, colx)
        if i == 0:
            break
        h = p.dxi
        k1 = c.derivs()
        if pusher == 'ab5':
            hist = [k1] + hist[:4]
            co = np.array([1901, -2774, 2616, -1274, 251]) / 720
            r = r + h * sum(b * x[0] for b, x in zip(co, hist))
            pr = pr + h * sum(b * x[1] for b, x in zip(co, hist))
            neg = r < 0
            sg = np.where(neg, -1., 1.)
            hist = [(x[0] * sg, x[1] * sg) for x in hist]
        else:
            def sub(rr, pp, frac, buf, freeze=False):
                s = np.where(rr < 0, -1., 1.)
                rr, pp = rr * s, pp * s
                cc = Column(p, rr, pp, gather(rr, i, frac, buf, i, freeze))
                x, y = cc.derivs()
                return x * s, y * s
            k2 = sub(r + h/2*k1[0], pr + h/2*k1[1], 0.5, 1)
            k3 = sub(r + h/2*k2[0], pr + h/2*k2[1], 0.5, 2)
            k4 = sub(r + h*k3[0], pr + h*k3[1], 1., 3,
                     stale_last and i == 1)
            r = r + h/6 * (k1[0] + 2*k2[0] + 2*k3[0] + k4[0])
            pr = pr + h/6 * (k1[1] + 2*k2[1] + 2*k3[1] + k4[1])
            sg = np.where(r < 0, -1., 1.)
        r, pr = r * sg, pr * sg
    info['tied'] = p.tied
    return dict(psi=psi, bt=bt, bt2=bt2, bamb=bamb, rho=rho, chi=chi,
                info=info)


def beam_field(q, dr):
    """Azimuthal field of the deposited beam (q: normalised, nz x nr)."""
    n = q.shape[1]
    out = np.zeros_like(q)
    for k in range(n):
        inside = q[:, :k].sum(axis=1) + q[:, k] * (0.25 if k == 0 else 0.5)
        out[:, k] = inside * dr / ((k + 0.5) * dr)
    return out


def grad_r(f, dr):
    """Radial derivative of an even function given at (k+1/2) dr."""
    out = np.empty_like(f)
    out[:, 1:-1] = (f[:, 2:] - f[:, :-2]) / (2 * dr)
    out[:, 0] = (f[:, 1] - f[:, 0]) / (2 * dr)
    out[:, -1] = (f[:, -1] - f[:, -2]) / dr
    return out
