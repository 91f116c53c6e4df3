MAP.update({"gradients over unique samples": "C15", "stratified sampling states": "C25", "minSR pairs": "C17", "minSR weights": "C17",
            "default differentiation mode of QGTJacobianDenseRMSProp": "C18", "QGTJacobianDenseRMSProp averages": "C18",
            "QGTJacobianDenseUniqueSamples weights": "C18", "QGTJacobianDenseUniqueSamples without": "C18", "SRDense can be": "C18"})
MAP.update({"arguments of the on-the-fly Hubbard kernel": "C20", "imaginary time steps can be nested": "C20", "amplitudes of imaginary time steps": "C20",
            "supervised learners notice configurations": "C21", "supervised learners notice reference sites": "C21",
            "weightings of vanishing": "C22", "marginal likelihood of weighted fits": "C27", "prior precisions are restored": "C27",
            "noise optimisation in log space": "C27", "fitted weights belong": "C22", "rejected updates of alpha": "C22",
            "marginal likelihood of weighted data": "C27", "order of the prior precisions": "C22"})
MAP.update({"sign of the determinant": "C27", "precision derivative of the marginal": "C27", "noise derivative of the marginal likelihood in log": "C27",
            "noise derivative of the marginal likelihood with": "C27", "growing relevance vector machine with current": "C27",
            "growing relevance vector machine with a prior": "C27", "growing relevance vector machine with complex": "C27",
            "growing relevance vector machine with separate": "C27", "Newton step of": "C28", "generalised linear models keep": "C28",
            "generalised linear models leave": "C28", "generalised linear models with precomputed": "C28", "inactive weights of": "C28",
            "number of data of": "C28", "causal convolutions": "C23", "H2O dataset after": "C26", "CISD amplitudes": "C26"})
MAP.update({"VMC_SRRMSProp on several": "C29", "gradient of ARStateFitting on several": "C29"})
MAP.update({"PlaquetteqGPS with symmetry": "C08", "derivative of the marginal likelihood of complex": "C28"})
MAP.update({"open boundary conditions of the ARGPS": "C30", "exchange environments of the CPD": "C31", "generalised Hartree-Fock orbitals": "C31",
            "exchange environments of generalised": "C31", "Fermi-Hubbard experiments resumed": "C32", "no optimisation step is skipped": "C32",
            "checkpoints of VMC_SRRMSProp": "C32", "an interrupted write keeps": "C32"})
MAP.update({"ab-initio scripts continue after": "C34", "continued ab-initio scripts count": "C34", "continued H4x4x4 runs": "C34", "H4x4x4 stores": "C34"})
