#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.   python3 tools/spec.py  rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe)))


prop("C01", "The fermionic space is exactly the requested particle-number sector",
     "A fermionic space over L sites with fixed numbers of up and down electrons contains exactly the occupation strings "
     "(0 empty, 1 up, 2 down, 3 both) with those numbers, each once, with consistent numbering, size and membership test; "
     "without fixed numbers it contains all 4^L strings. Random states have the requested shape and type, always belong to "
     "the space and are uniformly distributed over it. Two spaces compare (and hash) equal exactly if they have the same "
     "sites and electron numbers, and powers of a space are the corresponding product spaces.",
     ["inputs", "configurations"], "all numbers of sites and electron numbers, batch shapes, dtypes and keys",
     "no existing test touches the fermionic space beyond two fixed fillings; uniformity and membership quantify over all states",
     ["GPSKet/hilbert/discrete_fermion.py", "GPSKet/hilbert/random/discrete_fermion.py"],
     [("sector constraint", "GPSKet/hilbert/discrete_fermion.py"), ("random state", "GPSKet/hilbert/random/discrete_fermion.py")],
     "property-based testing against an enumerated reference space; chi-square uniformity",
     "spaces up to 5 sites fully enumerated, membership up to 9 sites")

prop("C02", "Fermionic Hamiltonians have the second-quantised matrix elements",
     "For every configuration, the connected configurations and matrix elements of the Fermi-Hubbard operator (any set of "
     "bonds, any U, uniform or per-bond hopping) and of the ab-initio operators (dense and sparse, any symmetric one-body and "
     "8-fold symmetric two-body integrals, integrals with small entries dropped) reproduce exactly the Hamiltonian "
     "sum h c+c + 1/2 sum (pq|rs) c+c+cc, including the fermionic signs with up orbitals ordered before down orbitals. "
     "The padded and the section-wise listing describe the same rows, never leave the space, and the hopping helper returns "
     "the right configuration, parity and validity.",
     ["inputs", "configurations"], "all bond lists, integrals, electron numbers and configurations",
     "the tests compare a handful of energies of one model; signs and index conventions must hold for every row",
     ["GPSKet/operator/hamiltonian/hubbard.py", "GPSKet/operator/hamiltonian/ab_initio.py", "GPSKet/operator/hamiltonian/ab_initio_sparse.py", "GPSKet/operator/fermion.py"],
     [("matrix elements", "GPSKet/operator/hamiltonian"), ("parity of a hop", "GPSKet/operator/fermion.py")],
     "property-based differential testing against dense second quantisation",
     "up to 4-5 sites with the full matrix, larger systems row by row")

prop("C03", "On-the-fly fermionic local energies equal <x|H|psi>/<x|psi>",
     "For every wavefunction model, parameters, configuration and Hamiltonian, the local energy computed on the fly for the "
     "Hubbard and ab-initio Hamiltonians (with or without fast updating, with any chunking) equals the sum over connected "
     "configurations of matrix element times amplitude ratio, as the general estimator gives it. The local one- and "
     "two-body reduced density matrices it can return reproduce, contracted with any integrals, the corresponding local energy.",
     ["inputs", "configurations"], "all models, parameters, Hamiltonians, configurations and chunk sizes",
     "existing tests sample one model with fixed fillings; the equality has to hold for each configuration and integral set",
     ["GPSKet/operator/hamiltonian/hubbard.py", "GPSKet/operator/hamiltonian/ab_initio.py", "GPSKet/operator/hamiltonian/ab_initio_sparse.py"],
     [("local energy kernels", "GPSKet/operator/hamiltonian")],
     "property-based differential testing: on-the-fly estimator against dense Hamiltonian times amplitude table",
     "whole enumerated sector up to 4 sites; amplitudes taken from full evaluations of the model")

prop("C04", "The exclusion-process operator is the tilted open-boundary generator",
     "For every set of rates and counting field, the matrix elements are those of the tilted generator of the open "
     "asymmetric exclusion process: bulk hops and boundary injection and removal carry their rate times exp(+-lambda) and "
     "the diagonal carries minus the total escape rate. At zero field the rows sum to zero, and hermiticity is reported "
     "exactly when the matrix is hermitian.",
     ["inputs"], "all sizes, rates, counting fields and configurations",
     "there is no test of this operator",
     ["GPSKet/operator/hamiltonian/asep.py", "GPSKet/operator/asep.py"], [("generator", "GPSKet/operator/hamiltonian/asep.py")],
     "property-based testing against an explicit Markov generator", "up to 6 sites, all configurations")

prop("C05", "Heisenberg and J1-J2 Hamiltonians match their definition, also on the fly",
     "The J1-J2 Hamiltonians on chains, square lattices and given graphs have the matrix elements of J1 and J2 times the "
     "Heisenberg exchange over first and second neighbours, with the sign-rotated off-diagonals when a sign rule is asked for. "
     "The on-the-fly local energies (with or without fast updating, any chunking) equal the sum over matrix elements times "
     "amplitude ratios for every configuration.",
     ["inputs", "configurations"], "all lattices, couplings, sign rules, models and configurations",
     "tests cover single lattices and random samples",
     ["GPSKet/operator/hamiltonian/J1J2.py"],
     [("construction and on-the-fly kernel", "GPSKet/operator/hamiltonian/J1J2.py")],
     "property-based differential testing against explicit bond sums", "up to 9 sites")

prop("C06", "Fast updates of GPS models equal evaluation from scratch after any history",
     "For qGPS, plaquette-GPS and autoregressive-GPS models with any symmetries, after any sequence of partial updates "
     "(lists of changed sites with their new occupancies, in any order, possibly listing a site more than once) the "
     "log-amplitude returned by the fast update equals the log-amplitude of the complete updated configuration, "
     "whether or not the update is committed to the cached intermediates.",
     ["histories", "inputs"], "all models, parameters, update histories and listings",
     "an existing test checks single updates of a few models; stale caches only show after histories",
     ["GPSKet/models/qGPS.py", "GPSKet/models/plaquetteqGPS.py", "GPSKet/models/autoreg_qGPS_full.py"],
     [("cached intermediates", "GPSKet/models")],
     "stateful property-based testing: generated update histories against full evaluation", "histories of up to 7 operations on 4 chains")

prop("C07", "Fast updates of determinant models equal evaluation from scratch",
     "For Slater, Slater-GPS, Slater-Jastrow, antisymmetrised GPS and backflow models (restricted, unrestricted or generalised, "
     "any symmetries) after any sequence of electron moves given as lists of changed sites, the log-amplitude returned "
     "by the fast update equals that of the complete updated configuration, whether or not the update is committed. This holds "
     "as long as no visited determinant is singular.",
     ["histories", "inputs"], "all models, parameters, move histories",
     "existing tests check single hops for a few models",
     ["GPSKet/models/slater.py", "GPSKet/models/slater_qGPS.py", "GPSKet/models/slater_jastrow.py", "GPSKet/models/asymm_qGPS.py", "GPSKet/models/backflow.py", "GPSKet/models/cpd_backflow.py", "GPSKet/models/backflow_jastrow.py", "GPSKet/models/jastrow.py"],
     [("incremental inverse and determinant", "GPSKet/models/slater.py")],
     "stateful property-based testing: generated move histories against full evaluation", "histories of up to 6 operations on 4 chains")

prop("C08", "GPS amplitudes equal their definition and respect the given symmetries",
     "For every configuration and parameters, the amplitude of the qGPS, plaquette and segmented GPS models equals its "
     "defining sum over support dimensions of products of local parameters (summed over plaquettes and symmetry images). "
     "With a symmetry group it is invariant under that group; the lattice symmetry helpers produce the group images and "
     "their inverses consistently.",
     ["inputs", "configurations"], "all spaces, support dimensions, parameters, symmetries, configurations",
     "tests check a few models against themselves",
     ["GPSKet/models/qGPS.py", "GPSKet/models/plaquetteqGPS.py", "GPSKet/models/segmented_qGPS.py"],
     [("amplitude formula", "GPSKet/models/qGPS.py")],
     "property-based testing against a direct reference evaluation; metamorphic symmetry relations", "spaces up to 6 sites")

prop("C09", "Autoregressive models are normalised, causal and constrained",
     "For every parameter set, the squared amplitudes (to the chosen power) of a normalised autoregressive model sum to one over "
     "the space, configurations violating the constraint have zero amplitude, and the conditional distribution at a site is a "
     "normalised distribution that depends only on the preceding sites; amplitudes are the products of these conditionals, "
     "averaged over symmetry images as documented. All conditionals at once, one at a time, and the amplitude agree.",
     ["inputs", "configurations"], "all models, parameters, configurations",
     "tests check normalisation for a few fixed sizes",
     ["GPSKet/models/autoreg_qGPS.py", "GPSKet/models/autoreg_qGPS_full.py", "GPSKet/models/autoreg_plaquetteqGPS.py"],
     [("masked conditionals", "GPSKet/models/autoreg_qGPS.py")],
     "property-based testing against a reference autoregressive evaluation over enumerated spaces", "spaces up to 6 sites")

prop("C10", "Direct autoregressive sampling follows the model's distribution",
     "Configurations drawn by the direct autoregressive sampler are independent and distributed as the normalised squared "
     "modulus of the model's amplitude (with the model's power), for every model, constraint and group of symmetries. "
     "Sampling is a function of the sampler state, and the returned state continues with fresh randomness.",
     ["inputs", "histories"], "all autoregressive models, parameters, seeds",
     "tests cannot judge a distribution from a fixed handful of samples",
     ["GPSKet/sampler/autoreg.py"], [("sequential draw and symmetry image", "GPSKet/sampler/autoreg.py")],
     "property-based statistical testing: chi-square against the exact distribution", "8000 draws per model; false-alarm probability below 1e-9 per test")

prop("C11", "Determinant-based amplitudes equal their definition; projections give singlets",
     "The amplitudes of Slater, Slater-GPS, Jastrow, Slater-Jastrow, antisymmetrised-GPS and backflow models equal the determinants "
     "(sums, products, symmetrised sums) that define them, for every configuration and parameters, including restricted, "
     "unrestricted and generalised orbitals. With spin projection the state is the projected state, and with a full projection "
     "(or the singlet constructions) the state has total spin zero.",
     ["inputs", "configurations"], "all models, orbitals, fillings, configurations",
     "tests check shapes and a few identities",
     ["GPSKet/models/slater.py", "GPSKet/models/slater_qGPS.py", "GPSKet/models/slater_jastrow.py", "GPSKet/models/jastrow.py", "GPSKet/models/asymm_qGPS.py", "GPSKet/models/backflow.py", "GPSKet/models/cpd_backflow.py", "GPSKet/models/backflow_jastrow.py", "GPSKet/hilbert/discrete_fermion.py"],
     [("determinant evaluation", "GPSKet/models/slater.py")],
     "property-based testing against explicit determinants over enumerated sectors", "up to 4 sites, all configurations")

prop("C12", "Pfaffians, their derivatives and pair states are correct",
     "For every real or complex skew-symmetric matrix the Pfaffian routine returns the Pfaffian (its logarithm with the correct "
     "phase; zero for singular matrices) and its derivative is the derivative of the Pfaffian. The amplitude of the Pfaffian pair "
     "state is the Pfaffian of the pairing matrix restricted to the occupied orbitals, summed over the symmetry images "
     "and projections requested.",
     ["inputs", "configurations"], "all skew-symmetric matrices, states and configurations",
     "a test compares a few random matrices",
     ["GPSKet/models/pfaffian.py"], [("Pfaffian and its derivative rule", "GPSKet/models/pfaffian.py")],
     "property-based testing against a combinatorial Pfaffian and finite differences", "matrices up to 8x8; 4-site pair states")

prop("C13", "Sampler proposals conserve particles and follow their symmetric law",
     "A fermionic hopping proposal moves a uniformly chosen electron to a uniformly chosen site without that spin (or, with a site "
     "transition matrix, to a site drawn from the row of the start site, staying put if it is not allowed), or, with "
     "the complementary probability, swaps an electron on a singly occupied site with one of opposite spin; exchange proposals swap "
     "the two sites of a uniformly chosen cluster. Proposals conserve the number of electrons of each spin, are symmetric, "
     "independent between chains, keep the data type, and list every site they change; a transition matrix that is not symmetric is "
     "refused.",
     ["inputs", "configurations"], "all spaces, fillings, hop probabilities, transition matrices, configurations, keys",
     "no test looks at proposals",
     ["GPSKet/sampler/rules/fermionic_hopping.py", "GPSKet/sampler/rules/exchange_with_update.py", "GPSKet/sampler/fermionic_hopping.py"],
     [("transition functions", "GPSKet/sampler/rules")],
     "property-based statistical testing against the exact proposal law", "1500 proposals per start; false-alarm probability below 1e-9 per test")

prop("C14", "Fast Metropolis sampling realises the Metropolis chain of the wavefunction",
     "For every model with fast updates, the fast hopping and exchange samplers advance each chain by the Metropolis transition "
     "with respect to |psi|^machine_pow, exactly as full evaluation would: positions after any number of sweeps follow the exact "
     "transition probabilities. Samples stay in the space; the returned state holds the last samples, their log-probabilities, and correct "
     "step and acceptance counts.",
     ["histories", "inputs"], "all models, parameters, start configurations, sweep lengths, chain lengths",
     "tests run a sampler for a few sweeps without judging its distribution",
     ["GPSKet/sampler/metropolis_fast.py", "GPSKet/sampler/fermionic_hopping.py"],
     [("fast Metropolis loop", "GPSKet/sampler/metropolis_fast.py")],
     "property-based statistical testing: chain positions against powers of the exact transition matrix", "4500 chains per case; enumerated spaces up to 64 states")

exec(open(os.path.join(HERE, "tools", "spec_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "spec_more.py")) else None


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": [], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py --index",
        "hooks": {"guard": "none", "enable": "no hooks: the checks import /repo unmodified", "source_commits": []},
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 run.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in P if os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py"))],
        "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in P
                           if not os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py"))],
        "notes": "All checks are generated-input searches (Hypothesis strategies, deterministic per VERIF_SEED) against explicit oracles; "
                 "see DESIGN.md. Repairs of genuine defects are listed in known_findings.json.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
