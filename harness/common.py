"""helpers shared by harnesses"""
import numpy as np


def nq(n):
    return (n + 1) * (n + 2) // 2


def wellcond(A, full_matrices=True, compute_uv=True):
    """svd contract for harnesses restricted to well-conditioned matrices: positive singular values whose ratio is
    bounded; the singular vectors are not modelled"""
    from symx import core, shim
    c = core.cur()
    if compute_uv:
        c.poison('singular vectors requested')
    k = min(A.shape)
    shim.CONTRACTS_USED.add('linalg.svd (values only): a fixed well-conditioned spectrum (descending from 2 to 1) stands for '
                            'the singular values; ill-conditioned sets are outside these harnesses')
    return shim.np_array([2.0 - i / max(1, k - 1) if k > 1 else 1.0 for i in range(k)])


def monomials(x, q):
    """independent statement of the polynomial basis: 1, x_i, x_i^2/2, then products x_i x_{i+k} diagonal by diagonal"""
    n = len(x)
    m = [1.0] + [x[i] for i in range(n)] + [0.5 * x[i] * x[i] for i in range(n)]
    for k in range(1, n):
        for i in range(n - k):
            m.append(x[i + k] * x[i])
    return m[:q]


class Struct:
    def __init__(self, **k):
        self.__dict__.update(k)


# concrete sample geometries (fixed, generic) used where the factorisation kernels are run on concrete data
def geometry(n, p, kind):
    rs = np.random.RandomState(1000 + 17 * n + 3 * p + kind)
    if kind == 0:
        Y = np.zeros((n, p))
        for j in range(1, p):
            if j <= n:
                Y[j - 1, j] = -1.0
            elif j <= 2 * n:
                Y[j - n - 1, j] = 1.5
            else:
                i, k = [(a, b) for a in range(n) for b in range(a + 1, n)][(j - 2 * n - 1) % max(1, n * (n - 1) // 2)]
                Y[i, j] = 1.0
                Y[k, j] = -0.75
        return Y + np.arange(1, n + 1).reshape(-1, 1)
    return np.round(rs.uniform(-2, 2, (n, p)), 3) * (10.0 ** (kind - 1))
