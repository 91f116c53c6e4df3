"""Reference Bayesian linear regression for the supervised learners."""
import numpy as np
from mpi4py import MPI


def share(*xs):
    """The rows handed to the learner of this MPI process: all of them in a single process."""
    n = MPI.COMM_WORLD.size
    out = [x if x is None or n == 1 else np.array_split(x, n)[MPI.COMM_WORLD.rank] for x in xs]
    return out[0] if len(out) == 1 else out


def kernel(eps, confs, refs):
    """Features: prediction = kernel @ (parameters at the reference sites, support index major, local state minor)."""
    if confs.ndim == 2:
        confs = confs[..., None]
    D, M, L = eps.shape
    refs = np.broadcast_to(refs, (M,))
    K = np.zeros((len(confs), M, D), dtype=eps.dtype)
    for i, x in enumerate(confs):
        for k in range(x.shape[1]):
            for m in range(M):
                p = 1.0
                for j in range(L):
                    if j != refs[m]:
                        p = p * eps[x[j, k], m, j]
                K[i, m, x[refs[m], k]] += p
    return K.reshape(len(confs), M * D)


def at_refs(eps, refs):
    D, M, L = eps.shape
    refs = np.broadcast_to(refs, (M,))
    return np.array([eps[d, m, refs[m]] for m in range(M) for d in range(D)])


class Problem:
    """Data f = K w + noise of precision S, prior of precision alpha; kind: real, complex (proper) or expand (real and imaginary parts
    of the weights are separate real weights). mult: right-hand side S*f where given explicitly (zero amplitudes)."""

    def __init__(self, K, f, S, alpha, kind, mult=None):
        self.K, self.f, self.S, self.alpha, self.kind = K, f, S, alpha, kind
        self.mult = S * f if mult is None else mult
        if kind == "expand":
            self.X = np.hstack((K, 1j * K))
        else:
            self.X = K
        X = self.X
        self.G = X.conj().T @ (S[:, None] * X)
        self.b = X.conj().T @ self.mult
        if kind == "expand":
            self.G, self.b = self.G.real, self.b.real
        self.prior = alpha / 2 if kind == "expand" else alpha

    def valid(self, cutoff=1e-10):
        return np.abs(np.diag(self.G)) > cutoff

    def ambiguous(self, cutoff=1e-10):
        d = np.abs(np.diag(self.G))
        return bool(np.any((d > cutoff * 1e-3) & (d < cutoff * 1e3)))

    def active(self, cutoff=1e10):
        return self.valid() & (self.alpha < cutoff)

    def A(self, act=None):
        act = self.active() if act is None else act
        return self.G[np.ix_(act, act)] + np.diag(self.prior[act])

    def weights(self, act=None):
        act = self.active() if act is None else act
        w = np.zeros(len(self.alpha), dtype=self.b.dtype)
        if act.any():
            w[act] = np.linalg.solve(self.A(act), self.b[act])
        return w

    def condition(self):
        act = self.active()
        return np.linalg.cond(self.A(act)) if act.any() else 1.0

    def evidence(self, act=None):
        """log density of the data under the model (no zero amplitudes)."""
        act = self.active() if act is None else act
        X = self.X[:, act]
        n = len(self.f)
        P = (X / self.alpha[act]) @ X.conj().T  # prior covariance of complex data: E[f f^H], with unit alpha^-1 per (complex or real) weight
        if self.kind == "real":
            C = np.diag(1 / self.S) + P.real
            return -0.5 * (n * np.log(2 * np.pi) + np.linalg.slogdet(C)[1] + self.f @ np.linalg.solve(C, self.f))
        if self.kind == "complex":
            C = np.diag(1 / self.S) + P
            return -(n * np.log(np.pi) + np.linalg.slogdet(C)[1] + (self.f.conj() @ np.linalg.solve(C, self.f)).real)
        # real weights, complex data: joint real Gaussian of (Re f, Im f), noise variance 1/(2S) per component
        R = np.vstack((X.real, X.imag))
        C = (R / self.alpha[act]) @ R.T + np.diag(np.concatenate((0.5 / self.S, 0.5 / self.S)))
        f = np.concatenate((self.f.real, self.f.imag))
        return -0.5 * (2 * n * np.log(2 * np.pi) + np.linalg.slogdet(C)[1] + f @ np.linalg.solve(C, f))
