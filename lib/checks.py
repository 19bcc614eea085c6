CASES = ("a case is one generated input (rule name + index, seeded from VERIF_SEED); it is non-trivial when at least one oracle was evaluated on "
         "it and it was not abandoned as out of the property's domain; distinct by the fingerprint of every random draw that built it")

CHECKS = {
    "C01": dict(src="c01_algebra.cpp", rule=CASES),
}
CHECKS["C02"] = dict(src="c02_rotations.cpp", rule=CASES)
CHECKS["C03"] = dict(src="c03_diff.cpp", rule=CASES)
CHECKS["C04"] = dict(src="c04_planar.cpp", rule=CASES)
CHECKS["C05"] = dict(src="c05_autodiff.cpp", rule=CASES)
CHECKS["C06"] = dict(src="c06_text.cpp", rule=CASES)
CHECKS["C07"] = dict(src="c07_joint.cpp", rule=CASES)
CHECKS["C08"] = dict(src="c08_structure.cpp", rule=CASES)
CHECKS["C09"] = dict(src="c09_subchain.cpp", rule=CASES)
CHECKS["C10"] = dict(src="c10_fkpos.cpp", rule=CASES)
CHECKS["C11"] = dict(src="c11_velocity.cpp", rule=CASES)
CHECKS["C12"] = dict(src="c12_jacdot.cpp", rule=CASES)
CHECKS["C13"] = dict(src="c13_inertia.cpp", rule=CASES)
CHECKS["C14"] = dict(src="c14_invdyn.cpp", rule=CASES)
CHECKS["C15"] = dict(src="c15_fwddyn.cpp", rule=CASES)
CHECKS["C16"] = dict(src="c16_vereshchagin.cpp", rule=CASES)
CHECKS["C21"] = dict(src="c21_decomp.cpp", rule=CASES)
CHECKS["C22"] = dict(src="c22_containers.cpp", rule=CASES)
CHECKS["C17"] = dict(src="c17_ikvel.cpp", rule=CASES)
CHECKS["C18"] = dict(src="c18_ikpos.cpp", rule=CASES)
CHECKS["C19"] = dict(src="c19_tree.cpp", rule=CASES)
CHECKS["C20"] = dict(src="c20_estimator.cpp", rule=CASES)
CHECKS["C23"] = dict(src="c23_protocol.cpp", rule=CASES)
CHECKS["C24"] = dict(src="c24_purity.cpp", rule=CASES)
CHECKS["C25"] = dict(src="c25_profiles.cpp", rule=CASES)
CHECKS["C26"] = dict(src="c26_paths.cpp", rule=CASES)
CHECKS["C27"] = dict(src="c27_trajectories.cpp", rule=CASES)
CHECKS["C28"] = dict(src="c28_threads.cpp", rule=CASES, flavors=["T"], thorough_flavors=["T", "A"])
CHECKS["C29"] = dict(src="c29_pykdl.py", runner="pyrun", rule=CASES, scale=2)
CHECKS["C30"] = dict(src="c30_pylife.py", runner="pyrun", rule=CASES, scale=2)
CHECKS["C33"] = dict(src="c33_realtime.cpp", rule=CASES, flavors=["R"], thorough_flavors=["R"], scale=4, thorough_scale=60)
CHECKS["C31"] = dict(src="c31_ownership.cpp", rule=CASES, thorough_flavors=["A", "F"])
CHECKS["C32"] = dict(src="c32_equality.cpp", rule=CASES, scale=2)
