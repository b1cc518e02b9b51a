TRUSTED = ["engine/vpv (IR semantics, path exploration, obligation generation)", "clang 18 front end and the LLVM passes inline/sroa/simplifycfg/early-cse/instsimplify",
           "z3 4.8.12"]
ASSUME = ["floating-point values are exact real numbers (rounding, infinities and NaN are not modelled)",
          "machine integers are exact: every signed operation carries a no-overflow obligation, unsigned ones wrap",
          "memory allocation always succeeds",
          "the Release meaning of the code (assert() active as an obligation where compiled in)"]
PLAN = {
    "C01": dict(level="proof", files=["c01_interval"]),

    "C02": dict(level="model_checking", files=["c02_list"]),
    "C03": dict(level="model_checking", files=["c03_cells"]),
    "C04": dict(level="model_checking", files=["c04_find"]),
    "C05": dict(level="model_checking", files=["c05_subset"]),
    "C06": dict(level="proof", files=["c06_geometry"]),
    "C07": dict(level="model_checking", files=["c07_mesh_1d", "c07_mesh_2d", "c07_mesh_3d"]),
    "C08": dict(level="model_checking", files=["c08_grad_1d", "c08_grad_2d", "c08_grad_3d"]),
    "C09": dict(level="model_checking", files=["c09_transfer_1d", "c09_transfer_2d", "c09_transfer_3d"]),
    "C10": dict(level="model_checking", files=["c10_tags_1d", "c10_tags_2d", "c10_tags_3d", "c10_update_1d", "c10_update_2d", "c10_update_3d", "c10_adapt_1d", "c10_adapt_2d", "c10_adapt_3d"]),
    "C11": dict(level="model_checking", files=["c11_bc_1d", "c11_bc_2d", "c11_bc_3d"]),
    "C12": dict(level="model_checking", files=["c12_ghost_1d", "c12_ghost_2d", "c12_ghost_3d"]),
    "C13": dict(level="model_checking", files=["c13_field_1d", "c13_field_2d", "c13_field_3d", "c13_gauss"]),
    "C14": dict(level="model_checking", files=["c14_iter_1d", "c14_iter_2d", "c14_iter_3d"]),
    "C15": dict(level="model_checking", files=["c15_flux_1d", "c15_flux_2d", "c15_flux_3d", "c15_ops_1d", "c15_ops_2d", "c15_ops_3d", "c15_weno"]),
}
