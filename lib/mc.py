"""Monte Carlo states over the repository's models: construction and exact references."""
import functools

import jax
import jax.numpy as jnp
import netket as nk
import numpy as np
from mpi4py import MPI
from hypothesis import strategies as st

from GPSKet.operator.hamiltonian import FermiHubbard, FermiHubbardOnTheFly, get_J1_J2_Hamiltonian
from GPSKet.sampler import ARDirectSampler, MetropolisFastHopping, MetropolisHopping
from lib import fermi, models, specs


def sampler(case):
    sp, name, n = case["spec"]["space"], case["sampler"], case["chains"]
    h = models.space(sp)
    if name == "exact":
        return nk.sampler.ExactSampler(h, dtype=jnp.uint8 if sp["kind"] == "fermi" else jnp.int8)
    if name == "ar":
        return ARDirectSampler(h)
    kw = {"n_chains": n, "sweep_size": case.get("sweep", 2)}
    if sp["kind"] != "fermi":
        kw["dtype"] = jnp.int8
    if name == "hop":
        return MetropolisHopping(h, **kw)
    if name == "fasthop":
        return MetropolisFastHopping(h, **kw)
    if name == "exchange":
        return nk.sampler.MetropolisExchange(h, clusters=[(i, j) for i in range(sp["L"]) for j in range(i)], **kw)
    return nk.sampler.MetropolisLocal(h, **kw)


@st.composite
def states(draw, ar=True, big=True):
    """Spec of a small space, a model over it, and a sampler of it."""
    kind = draw(st.sampled_from(["fermi", "fermi", "fermi", "spin", "spin", "ar"] if ar else ["fermi", "fermi", "spin"]))
    dt = {"dtype": draw(specs.dtypes)}
    if kind == "ar":
        sp = draw(specs.fermi_space(2, 3)) if draw(st.booleans()) else {"kind": "spin", "L": 4, "sz": 0}
        c = {"spec": {"type": draw(st.sampled_from(["ARqGPS", "ARqGPSFull"])), "space": sp, "M": draw(st.integers(1, 2)), "pow": 2, **dt},
             "sampler": "ar"}
    elif kind == "fermi":
        sp = draw(specs.fermi_space(2, 4, max_states=40))
        m = draw(st.sampled_from(["qGPS"] * 6 + ["Slater", "CPDBackflow"]))
        fast = draw(st.booleans())
        s = {"type": m, "space": sp, "M": draw(st.integers(1, 2)), **dt, "fast": fast}
        if m == "Slater":
            s["dets"] = 1
        if m == "CPDBackflow":
            s["fixed"], s["restricted"] = True, False
        if m == "qGPS":
            s["sym"] = draw(st.sampled_from(["none", "trans"]))
        c = {"spec": s, "sampler": draw(st.sampled_from(["hop", "exact", "fasthop" if fast else "hop"]))}
    else:
        sp = draw(specs.spin_space(3, 5))
        c = {"spec": {"type": "qGPS", "space": sp, "M": draw(st.integers(1, 2)), "sym": draw(st.sampled_from(["none", "flip"])), **dt},
             "sampler": draw(st.sampled_from(["exact", "exchange" if sp.get("sz") is not None else "local"]))}
    if big and c["spec"]["type"] == "qGPS" and c["sampler"] != "exact" and draw(st.integers(0, 4)) == 0:
        c["spec"]["big"] = draw(st.sampled_from([800, -800]))
    c["chains"] = draw(st.sampled_from([1, 2, 4])) if c["sampler"] not in ("exact", "ar") else 1
    return c


def operator(case):
    """(operator of the repository, dense matrix over models.all_configs)."""
    sp, o = case["spec"]["space"], case["op"]
    L = sp["L"]
    basis = models.all_configs(sp)
    if sp["kind"] == "fermi":
        edges = [(i, (i + 1) % L) for i in range(L if L > 2 else L - 1)]
        cls = FermiHubbardOnTheFly if o["fly"] else FermiHubbard
        op = cls(models.space(sp), edges, U=o["U"], t=o["t"])
        return op, fermi.hubbard_hamiltonian(basis, edges, o["U"], [o["t"]] * len(edges))
    pbc = L > 2
    op = get_J1_J2_Hamiltonian(L, J1=o["U"], total_sz=sp.get("sz"), sign_rule=False, on_the_fly_en=o["fly"], pbc=pbc)
    H = np.zeros((len(basis),) * 2)
    index = {tuple(int(a) for a in x): k for k, x in enumerate(basis)}
    for k, x in enumerate(basis):
        for i in range(L if pbc else L - 1):
            j = (i + 1) % L
            if x[i] == x[j]:
                H[k, k] += o["U"] / 4
            else:
                y = x.copy()
                y[i], y[j] = x[j], x[i]
                H[k, k] -= o["U"] / 4
                H[k, index[tuple(int(a) for a in y)]] += o["U"] / 2
    return op, H


@st.composite
def operators(draw):
    return {"fly": draw(st.booleans()), "U": draw(st.sampled_from([1.0, 2.5, -1.5])), "t": draw(st.sampled_from([1.0, 0.7]))}


@functools.lru_cache(None)
def _jacobians(model):
    f = lambda p, rest, x: model.apply({"params": p, **rest}, x)  # noqa: E731
    return jax.jit(lambda p, rest, x: (jax.jacrev(lambda q: f(q, rest, x).real)(p), jax.jacrev(lambda q: f(q, rest, x).imag)(p)))


class Reference:
    """Amplitudes, local energies and log-derivatives of a state, over the enumerated space."""

    def __init__(self, spec, variables, H):
        sp = spec["space"]
        self.basis = models.all_configs(sp)
        self.index = {tuple(int(a) for a in x): k for k, x in enumerate(self.basis)}
        self.model = models.build(spec)
        self.logs = np.asarray(models.f_full(self.model)(variables, self.basis)).astype(complex)
        self.psi = np.exp(self.logs - self.logs.real.max())
        with np.errstate(all="ignore"):
            self.eloc = (H @ self.psi) / self.psi
        self.variables = variables

    def rows(self, samples):
        return np.array([self.index[tuple(int(a) for a in x)] for x in np.asarray(samples).reshape(-1, self.basis.shape[1])], dtype=int)

    def jacobian(self):
        """[(leaf is complex, O of shape (n_states, leaf.size))] in tree order."""
        params = self.variables["params"]
        rest = {k: v for k, v in self.variables.items() if k != "params"}
        leaves = jax.tree_util.tree_leaves(params)
        re, im = (jax.tree_util.tree_leaves(x) for x in _jacobians(self.model)(params, rest, jnp.asarray(self.basis)))
        out = []
        n = len(self.basis)
        for leaf, a, b in zip(leaves, re, im):
            a, b = np.asarray(a).reshape(n, -1), np.asarray(b).reshape(n, -1)
            if np.iscomplexobj(np.asarray(leaf)):
                # jax returns conj(d f / d z) conventions for R-valued f: d f/d re = Re(g), d f/d im = -Im(g)
                ore, oim = a.real + 1j * b.real, -a.imag - 1j * b.imag
                out.append((True, ore, oim))
            else:
                out.append((False, a + 1j * b, None))
        return out

    def gradient(self, rows, weights):
        """Energy gradient sum_x w conj(O)(E - mean) for complex parameters, 2 Re for real ones, flat per leaf."""
        e = self.eloc[rows]
        mean = np.sum(weights * e)
        c = weights * (e - mean)
        out = []
        for cplx, ore, oim in self.jacobian():
            if cplx:
                # (dE/dx + i dE/dy) / 2 of the parameter x + iy; equals conj(O)^T c for holomorphic amplitudes
                out.append(np.real(np.conj(ore[rows]).T @ c) + 1j * np.real(np.conj(oim[rows]).T @ c))
            else:
                out.append(2 * np.real(np.conj(ore[rows]).T @ c))
        return out

    def split_jacobian(self, real=False):
        """d log psi / d (real parts..., imaginary parts...) over the enumerated space, one column per real parameter."""
        J = self.jacobian()
        cols = [a for _, a, _ in J] + [b for c, _, b in J if c]
        O = np.concatenate(cols, axis=1)
        return O.real.astype(complex) if real else O

    def holomorphic_jacobian(self):
        J = self.jacobian()
        assert all(c for c, _, _ in J)
        return np.concatenate([a for _, a, _ in J], axis=1)


def split_vector(tree):
    """Parameters as one real vector: all real parts, then all imaginary parts (tree order)."""
    leaves = [np.asarray(x).reshape(-1) for x in jax.tree_util.tree_leaves(tree)]
    return np.concatenate([x.real for x in leaves] + [x.imag for x in leaves if np.iscomplexobj(x)])


def flat_vector(tree):
    return np.concatenate([np.asarray(x).reshape(-1) for x in jax.tree_util.tree_leaves(tree)])


def ranks():
    return MPI.COMM_WORLD.size


def gather(x):
    """Rows of all MPI processes, in the order of the processes (of this one if it is the only one)."""
    x = np.asarray(x)
    return x if ranks() == 1 else np.concatenate(MPI.COMM_WORLD.allgather(x))


def part(x):
    """The rows of this MPI process."""
    return x if ranks() == 1 else np.split(np.asarray(x), ranks())[MPI.COMM_WORLD.rank]


class Recorded:
    """Mixin of Monte Carlo states: remembers every batch of samples drawn (by all processes)."""

    def sample(self, *a, **k):
        out = super().sample(*a, **k)
        self.__dict__.setdefault("drawn", []).append(gather(np.asarray(out).reshape(-1, out.shape[-1])))
        return out


class RecordedMCState(Recorded, nk.vqs.MCState):
    pass
