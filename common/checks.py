ASAN = ["-O1", "-g0", "-fsanitize=address"]
PLAIN = ["-O1", "-g0"]
DEFAULTS = {
    "flags": ASAN,
    "cap": {"quick": 200, "thorough": 1500},
    "assumptions": ["compiled by g++ 13 with the options the repository's tests use plus the sanitizers named in common/checks.py",
                    "generated sizes are bounded (see rule and labels)"],
}
CHECKING = ["-DDUNE_ISTL_WITH_CHECKING", "-DDUNE_CHECK_BOUNDS", '-DVARIANT="/checking"']
CHECKS = {
    "C01": {"builds": [("", ["c01_build.cc"], []), ("chk", ["c01_build.cc"], CHECKING)], "scale": {"quick": 4, "thorough": 1}},
    "C02": {"builds": [("", ["c02_history.cc"], []), ("chk", ["c02_history.cc"], CHECKING)], "scale": {"quick": 6, "thorough": 4}},
    "C03": {"builds": [(n + v, ["c03_maps.cc"], ["-D" + n] + e) for n in ("PART1", "PART2", "PART3") for v, e in (("", []), ("chk", CHECKING))], "scale": {"quick": 5, "thorough": 8}},
    "C04": {"builds": [(n + v, ["c04_vectors.cc"], ["-D" + n] + e) for n in ("PART1", "PART2") for v, e in (("", []), ("chk", CHECKING))], "scale": {"quick": 3, "thorough": 5}},
    "C05": {"builds": [("", ["c05_products.cc"], []), ("chk", ["c05_products.cc"], CHECKING)], "scale": {"quick": 3, "thorough": 6}},
    "C06": {"builds": [(n, ["c06_files.cc"], ["-D" + n]) for n in ("PART1", "PART2", "PART3")] + [("mpi", ["c06_parallel.cc"], [])], "scale": {"quick": 5, "thorough": 20}},
    "C07": {"builds": [(n, ["c07_direct.cc"], ["-D" + n]) for n in ("PART1", "PART2", "PART3")], "scale": {"quick": 2, "thorough": 4}},
    "C08": {"builds": [(n, ["c08_truth.cc"], ["-D" + n]) for n in ("PART1", "PART2", "PART3")], "scale": {"quick": 10, "thorough": 20}},
    "C09": {"sources": ["c09_reuse.cc"], "scale": {"quick": 10, "thorough": 20}},
    "C10": {"builds": [(n + v, ["c10_splitting.cc"], ["-D" + n] + e) for n in ("PART1", "PART2", "PART3") for v, e in (("", []), ("chk", CHECKING))][:5], "scale": {"quick": 2, "thorough": 3}},
    "C11": {"builds": [(n + v, ["c11_incomplete.cc"], ["-D" + n] + e) for n in ("PART1", "PART2") for v, e in (("", []), ("chk", CHECKING + ["-DDUNE_FMatrix_WITH_CHECKING"]))], "scale": {"quick": 8, "thorough": 12}},
    "C16": {"builds": [(n, ["c16_schwarz.cc"], ["-D" + n]) for n in ("PART1", "PART2", "PART3")], "scale": {"quick": 20, "thorough": 40}},
    "C17": {"builds": [("eigen", ["c17_eigen.cc"], [])], "scale": {"quick": 3, "thorough": 4}},
    "C18": {"builds": [(n, ["c18_factory.cc"], ["-D" + n]) for n in ("PART1", "PART2", "PART3", "PART4", "PART5")], "scale": {"quick": 12, "thorough": 60}},
    "C19": {"builds": [("", ["c19_flat.cc"], []), ("chk", ["c19_flat.cc"], CHECKING)], "scale": {"quick": 8, "thorough": 4}},
    "C20": {"builds": [(n + v, ["c20_structured.cc"], ["-D" + n] + e) for n in ("PART1", "PART2") for v, e in (("", []), ("chk", CHECKING + ["-DDUNE_FMatrix_WITH_CHECKING"]))], "scale": {"quick": 2, "thorough": 4}},
    "C12": {"builds": [(n + v, ["c12_coarsening.cc"], ["-D" + n] + e) for n, v, e in (("PART1", "", []), ("PART2", "", []), ("PART2", "chk", CHECKING))], "scale": {"quick": 20, "thorough": 40}},
    "C13": {"builds": [(n, ["c13_cycles.cc"], ["-D" + n]) for n in ("PART1", "PART2", "PART3", "PART4")], "scale": {"quick": 10, "thorough": 20}},
    "C14": {"mpi": True, "sources": ["c14_comm.cc", "c14_solve1.cc", "c14_solve2.cc"], "scale": {"quick": 30, "thorough": 15}},
    "C15": {"mpi": True, "sources": ["c15_redist.cc"], "scale": {"quick": 12, "thorough": 10}},
    "C21": {"mpi": True, "sources": ["c21_krylov.cc", "c21_amg.cc", "c21_amg1.cc"], "scale": {"quick": 12, "thorough": 4}},
}
NOT_APPLICABLE = {}
