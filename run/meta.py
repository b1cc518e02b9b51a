#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (python3 run/meta.py). The properties, their anchors and levels live here."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/samurai/"
P = []
NA = []
NOTE = {}


def prop(id, title, statement, over, quant, why, files, mech, note=None, na=None, observe=None):
    a = {"files": [I + f for f in files], "mechanism": [{"name": n, "where": I + w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        NOTE[id] = note


PROVED = "clang IR of the real headers, obligations generated by engine/vpv and discharged by z3 on every run"
prop("C01", "Integer interval arithmetic is exact",
     "An integer interval denotes the set {start, ..., end-1}: membership, size and validity agree with that set, shifting by an integer moves every element by it, multiplying scales both bounds, changing the level up multiplies both bounds by a power of two, and changing it down gives the smallest coarse interval whose refinement covers the original. Even and odd parts are exactly the even and odd elements, and the in-place forms agree with the value forms.",
     ["inputs"], "all interval bounds (including negative), shifts, levels and factors for which the result is representable",
     "the tests call each operator on a few positive intervals; rounding of negative odd bounds, empty results and large shifts are quantified over all integers",
     ["interval.hpp"], [("Interval operators", "interval.hpp:113"), ("even_elements / odd_elements", "interval.hpp")],
     "proof for all inputs (no bound); division of an interval by a constant rounds its end down, recorded as a known finding")
prop("C02", "Inserting in an interval list keeps the exact union in canonical form",
     "After any history of insertions of points and intervals, the list denotes exactly the union of everything inserted, whatever the order; its intervals are non-empty, sorted, pairwise disjoint and never adjacent. Inserting an empty interval changes nothing.",
     ["inputs", "histories"], "all insertion histories: overlapping, touching, nested, swallowing several intervals, in any order",
     "the tests insert a handful of intervals in a fixed order; merging with several following intervals depends on the whole history",
     ["list_of_intervals.hpp"], [("add_interval: find the first interval not before, merge forward", "list_of_intervals.hpp:87")],
     "insertion step and histories verified for all coordinates; the number of intervals in the list is bounded (stated per contract), long histories run natively")
prop("C03", "Cell containers hold exactly the inserted cells, ordered and numbered",
     "A cell array built from a cell list contains exactly the cells inserted in the list, per level and in any dimension; forward and reverse iteration visit each of them exactly once, in lexicographic order and its reverse, and the storage numbers of its cells are 0..n-1, contiguous in that order over the levels. Building from a box gives exactly the cells of the box, and two arrays compare equal exactly when they hold the same cells on the same levels.",
     ["inputs", "histories"], "all sets of cells (any rows, gaps, overlaps, negative coordinates), any non-empty combination of levels, dimensions 1 to 3",
     "the tests build two or three fixed small arrays; row offsets and numbering depend on the gaps of every row and level",
     ["level_cell_list.hpp", "level_cell_array.hpp", "cell_list.hpp", "cell_array.hpp", "algorithm.hpp"],
     [("list to array compression with row offsets", "level_cell_array.hpp"), ("multi-level iterator", "cell_array.hpp"), ("update_index", "level_cell_array.hpp"), ("for_each_cell / for_each_interval", "algorithm.hpp")],
     "verified symbolically for all coordinates; number of row pieces and levels bounded (stated per contract)")
prop("C04", "Looking up a cell finds it exactly when it is present",
     "Searching a cell by its integer coordinates succeeds exactly when the cell is in the set, and returns the interval that contains it. The storage number, the interval and the cell object obtained by level and coordinates agree with the numbering used for iteration.",
     ["inputs"], "all sets and all queried coordinates, in dimensions 1 to 3",
     "the tests query a few present cells of fixed arrays; bisection and row offsets have boundary cases at every interval end and in every row",
     ["algorithm.hpp", "level_cell_array.hpp", "cell_array.hpp"], [("find / find_on_dim / bisection", "algorithm.hpp:370"), ("get_index, get_interval, get_cell", "level_cell_array.hpp")],
     "verified symbolically for all coordinates and queries; number of row pieces bounded")
prop("C05", "Set operations enumerate exactly the mathematical set, each cell once",
     "Evaluating any composition of intersection, union, difference, translation and contraction of cell sets on a chosen level visits every cell of the mathematical set exactly once and no other cell, with intervals ordered row by row. A set finer than the evaluation level contributes every coarse cell it touches, a coarser one all the cells it covers, and evaluating above the finest operand refines the result. Empty operands behave as empty sets.",
     ["inputs", "configurations"], "all sets (any coordinates, gaps and row structure), all level combinations and compositions, dimensions 1 to 3",
     "the tests evaluate a dozen expressions on fixed small sets; the sweep has a case for every relative position of interval ends on every level",
     ["subset/subset_op_base.hpp", "subset/subset_op.hpp", "subset/subset_node.hpp", "subset/node_op.hpp"],
     [("sweep over interval ends", "subset/subset_op_base.hpp:395"), ("level change and row projection", "subset/subset_node.hpp:175"), ("translation, contraction", "subset/node_op.hpp:316")],
     "verified symbolically for all coordinates and translations within a bounded number of row pieces and levels 0 to 3; random larger sets natively")

prop("C06", "Cells and boxes have the geometry their level and coordinates say",
     "A cell of level l has side scale/2^l, its corner, centre and face centres are at the origin plus that side times its integer coordinates (plus a half), the face between two neighbours is the same point for both, and the 2^dim children of a cell tile it. Cells handed out by a mesh carry the mesh's origin and scale; boxes report exact corners, lengths, validity and scalings. Discretising a box gives cells that cover it entirely, starting at its minimum corner, made of whole coarse cells, and sticking out by no more than the requested tolerance.",
     ["inputs"], "all origins, scales, levels, coordinates and boxes",
     "the tests evaluate one cell and one box; the covering of a box depends on floating-point quotients that only some sizes hit",
     ["cell.hpp", "box.hpp", "level_cell_array.hpp", "cell_array.hpp"], [("Cell::corner/center/face_center", "cell.hpp:98"), ("approximate_box", "box.hpp:163"), ("construction from a box", "level_cell_array.hpp:344")],
     "cell and box formulas proved for all real inputs; discretisation verified within a bound symbolically and sampled natively in floating point")

prop("C07", "A mesh stores its cells, the ghosts they need and one consistent numbering",
     "A mesh (multiresolution, AMR or uniform) built from a set of cells contains exactly these cells; its domain is what they cover, and its union holds exactly the coarser cells that contain finer ones. Every cell has its whole stencil stored; the children of every projected cell and the neighbourhood every ghost of the domain is predicted from are stored, and every ghost of the domain is either projected or predicted. On periodic sides the cells across the boundary are stored too, and so is the image, beyond the opposite side, of every cell within the ghost width of a side. All sub-meshes share one numbering of the stored cells, consecutive from 0. A mesh built with reference to another keeps its domain, levels and periodicity, a mesh built from a box has the cells of the box, and swapping two meshes swaps all of that.",
     ["inputs", "configurations"], "all sets of cells (graded for the ghosts), positions, level ranges, stencil widths, periodicities, dimensions 1 to 3",
     "no test looks at the ghosts: missing ghosts only show as wrong values, for some relative positions of coarse and fine cells",
     ["mesh.hpp", "mr/mesh.hpp", "amr/mesh.hpp", "uniform_mesh.hpp"],
     [("construct_union / construct_subdomain / renumbering", "mesh.hpp:520"), ("MRMesh::update_sub_mesh_impl", "mr/mesh.hpp:126"), ("amr::Mesh::update_sub_mesh_impl", "amr/mesh.hpp:103"), ("UniformMesh", "uniform_mesh.hpp:143")],
     "every obligation discharged for all positions, over every mesh of a bounded shape (number of root cells, refinements and levels stated per contract)")

prop("C08", "Graduation gives the coarsest graded refinement",
     "A set of cells is reported graduated exactly when no cell has a neighbour (in the directions of the stencil) more than one level coarser. Making it graduated yields the coarsest refinement of it that is graduated: the same region, cells refined only, and only where needed, numbered consecutively. Graduating adaptation tags on a graduated mesh yields tags whose mesh is again graduated and covers the same region, refining every cell asked to be refined below the finest level and coarsening no cell asked to be kept or refined.",
     ["inputs", "configurations"], "all sets of cells and tags, positions, level ranges, stencil widths, dimensions 1 to 3",
     "the tests graduate one set of two cells per dimension; whether a refinement triggers another depends on the whole configuration",
     ["graduation.hpp", "algorithm/graduation.hpp", "algorithm/utils.hpp", "stencil.hpp"],
     [("is_graduated", "graduation.hpp:11"), ("make_graduation", "graduation.hpp:42"), ("graduation of tags", "algorithm/graduation.hpp:108"), ("star_stencil", "stencil.hpp:94")],
     "discharged for all positions over every mesh of a bounded shape; tags enumerated; larger random meshes natively")

prop("C09", "Projection averages children; prediction is conservative and exact",
     "Projecting a field on a coarse cell gives the arithmetic mean of its 2^dim children, for every component and storage layout, in place or into another field, for one field or several. Predicting the children of a coarse cell reproduces the cell means of every polynomial of degree up to twice the prediction order in each single variable (and of sums of such), the children of a cell always average to the value of the cell (so predicting then projecting is the identity), and averaging over all directions but one gives the one-dimensional interpolation. The prediction called on coarse intervals and the one called on fine intervals (starting or ending in the middle of a coarse cell, odd, even or negative) give the same values. The detail of a cell is its value minus its prediction. No other cell is modified, and only the stencil neighbourhood is read.",
     ["inputs", "configurations"], "all levels, cell positions (negative included), interval parities, cell values, components, layouts, prediction orders 0 to 5, dimensions 1 to 3",
     "the tests adapt one or two fields and compare to references; the sign and coefficient of every neighbour, each parity of the interval ends, each component layout and order must be right for all values",
     ["numeric/projection.hpp", "numeric/prediction.hpp", "mr/operators.hpp", "field.hpp", "operators_base.hpp"],
     [("projection_op", "numeric/projection.hpp:16"), ("interpolation coefficients", "numeric/prediction.hpp:16"), ("prediction_op", "numeric/prediction.hpp:340"), ("compute_detail_op", "mr/operators.hpp:165"), ("Field row access", "field.hpp:150")],
     "proof for all positions, levels and real values, intervals of one to three cells (each cell of a row is computed alike); mesh.get_interval assumed by its C04 contract; the sign of the mixed terms in 2-D and 3-D is a recorded known finding and left open for orders above 1")


prop("C10", "Adaptation keeps a graded tiling of the domain and conserves the fields",
     "After adapting, the cells cover the same domain exactly once, their levels stay between the minimum and maximum level, neighbouring cells (across corners and periodic sides too) differ by at most one level, periodicity is kept, and the integral of every adapted or transported field component is unchanged. Turning tags into a mesh follows the flags (refine over keep over coarsen, within the level range): kept cells keep their values, coarsened cells get the mean of their children, refined cells the reconstruction of theirs, and the result tells whether the mesh changed. A constant ends up on the coarsest level; with a zero threshold nothing is coarsened. Each tagging rule marks exactly the cells it names: thresholded details, neighbours of refined cells, children kept together, 2:1 balance.",
     ["inputs", "configurations", "histories"], "all meshes, field values, tags, thresholds, periodicities, components and layouts, dimensions 1 to 3",
     "the tests only run the adaptation on one field per dimension; gradation and conservation depend on the combination of tags across levels and boundaries",
     ["mr/adapt.hpp", "mr/operators.hpp", "mr/criteria.hpp", "algorithm/update.hpp", "algorithm/utils.hpp", "algorithm/graduation.hpp"],
     [("Adapt::harten", "mr/adapt.hpp:190"), ("update_field / update_field_mr", "algorithm/update.hpp"), ("to_coarsen_mr / to_refine_mr", "mr/criteria.hpp"), ("maximum, balance_2to1, extend, make_graduation", "mr/operators.hpp"), ("keep_around_refine, tag_to_keep, keep_children_together", "algorithm/utils.hpp")],
     "tagging operators verified for all positions and flags on rows of at most 3 cells; mesh update for all values and positions on bounded mesh shapes; the whole adaptation for all values on small meshes, larger random ones natively (bounded)")


prop("C11", "Boundary conditions give the ghosts outside the domain the value they state",
     "After applying the boundary conditions, across every face of the domain a Dirichlet condition of order k makes the polynomial through the k inner cells and the ghosts take the prescribed value on the boundary (for the first order, the mean of the inner cell and its ghost is the value), and a Neumann condition makes the difference between ghost and mirrored inner cell equal to the prescribed outward derivative times the distance between them, on every level and for every component. The value may be a constant, the default zero or a function of position, which is evaluated on the boundary face; a condition attached to a region or to given directions acts there and only there. Ghosts beyond the first layers and those beyond edges and corners of the domain are extrapolated from the cells towards the domain. No value inside the domain changes.",
     ["inputs", "configurations"], "all field values, prescribed values, mesh positions, levels, stencil widths, components, layouts, sides and regions, dimensions 1 to 3",
     "the tests only check that conditions can be attached; ghost values depend on side, level, distance to the boundary, corner and component",
     ["bc.hpp", "stencil.hpp", "boundary.hpp"],
     [("apply_bc_impl / apply_field_bc / update_bc", "bc.hpp:891"), ("extrapolation of outer and corner ghosts", "bc.hpp:980"), ("Dirichlet and Neumann values", "bc.hpp:1049"), ("regions", "bc.hpp:257"), ("convert_for_direction", "stencil.hpp:410")],
     "discharged for all values and positions over every box-shaped domain of a bounded size; extrapolated ghosts up to three layers (the widest the code implements)")

prop("C12", "Updating the ghosts makes every level consistent with the leaves",
     "After updating the ghosts of one or several fields, the cells of the mesh keep their values; every stored cell of the domain covered by finer cells holds the mean of its children; every stored ghost of the domain covered by a coarser cell holds the value predicted from the level below; on periodic sides every ghost within the ghost width holds the value of the cell or ghost it is the image of, across edges and corners too, also where a periodic side meets one with a boundary condition; and the ghosts outside the domain satisfy the boundary conditions. This holds for multiresolution and AMR meshes, scalar and vector fields, one field alone or several at once. Updating periodic tags gives a cell and its image the union of their flags.",
     ["inputs", "configurations"], "all graded meshes, values, periodicities, stencil widths, prediction orders, components and layouts, dimensions 1 to 3",
     "no test reads a ghost after an update; the order of projections, predictions, periodic copies and boundary conditions over the levels decides the values",
     ["algorithm/update.hpp", "bc.hpp", "numeric/projection.hpp", "numeric/prediction.hpp", "mr/mesh.hpp", "amr/mesh.hpp"],
     [("update_ghost_mr", "algorithm/update.hpp:91"), ("update_ghost", "algorithm/update.hpp:28"), ("update_ghost_periodic", "algorithm/update.hpp:498"), ("update_tag_periodic", "algorithm/update.hpp:592")],
     "discharged for all values over every graded mesh of a bounded shape; predicted values are stated through the prediction operator, whose own contract is C09")

prop("C13", "A field holds one value per cell and component, however it is accessed",
     "Accessing a field by cell, by storage number, by level, interval and row, with a step, by component or component range, or by iteration denotes the same numbers, for scalar and vector fields in both storage layouts; writing through any of them changes exactly the values named; an interval that is stored only in part is refused. Evaluating a field expression assigns to every cell the value of the expression there. A copied field is equal and independent of the original, has exactly its name and boundary conditions; fields compare equal exactly when their meshes and values do; swapping exchanges everything. A field made from a function holds its values at the cell centres or, with a quadrature, its cell means, exact for polynomials up to the stated degree; the L2 error against a function is the quadrature of the squared difference.",
     ["inputs", "configurations"], "all meshes, positions, values, components, layouts, sub-intervals and steps, polynomial degrees 0 to 39, dimensions 1 to 3",
     "the tests touch one or two fields of constant values; a wrong offset shows only for some row, step, layout or component",
     ["field.hpp", "field_expression.hpp", "numeric/gauss_legendre.hpp", "numeric/error.hpp"],
     [("field data access", "field.hpp:100"), ("Field operators, iteration, copies", "field.hpp:460"), ("field_function", "field_expression.hpp"), ("make_field", "field.hpp:889"), ("GaussLegendre", "numeric/gauss_legendre.hpp:15"), ("compute_error", "numeric/error.hpp")],
     "discharged for all values and positions over meshes of a bounded shape; quadrature exactness for all coefficients up to 1e-12")

prop("C14", "Iterating over interfaces and stencils visits every face and cell exactly once",
     "Iterating over the interior interfaces of a mesh in a direction calls back exactly once for every face between two leaves of the same level and once for every face between a fine leaf and a coarser one, on both sides; iterating over the boundary interfaces of a direction calls back exactly once for every face of a leaf lying on the boundary of the domain, periodic sides included (their ghosts stand for the cells on the other side). The two cells given are the two sides of that face, in the order of the direction, and the stencil given holds, in the order of the stencil, the cells at its offsets, each with its own level, coordinates, size and storage number. Iterating over a stencil on a mesh, level or set of cells gives, for every cell there exactly once, the cells at the offsets of the stencil. Named stencils, their search and their rotation into another direction give the offsets they name. A level without cells is skipped.",
     ["inputs", "configurations"], "all graded meshes, positions, levels, directions, stencils, periodicities, multiresolution and AMR meshes, dimensions 1 to 3",
     "no test iterates over interfaces; a face that is missed, visited twice or given the wrong cell number shows only at some jump of level, side or direction",
     ["interface.hpp", "stencil.hpp", "algorithm.hpp"],
     [("for_each_interior_interface (same level, level jumps)", "interface.hpp:12"), ("for_each_boundary_interface", "interface.hpp:337"), ("IteratorStencil, for_each_stencil", "stencil.hpp:459"), ("find, named stencils", "stencil.hpp:54"), ("convert_for_direction", "stencil.hpp:410"), ("for_each_meshinterval", "algorithm.hpp:135")],
     "discharged for all positions over every graded mesh of a bounded shape")


prop("C15", "A finite-volume operator is the balance of the fluxes through each cell's faces",
     "Applying a flux-based scheme gives in every cell the sum over its faces of the flux of the scheme times the face area over the cell volume, outgoing counted positive; every interior face, also between two levels, gives exactly opposite amounts to its two sides, so that, periodic or without boundary fluxes, the total over the domain is zero. The flux is that of the scheme evaluated on the cells and ghosts of its stencil. Applying to a given output field adds to it and changes nothing outside the cells of the mesh; applying by direction gives the contribution of that direction. This holds for linear, nonlinear and heterogeneous schemes, scalar and vector fields. The operators provided (diffusion, Laplacian, multi-component diffusion, divergence, gradient, upwind and WENO5 convection, identity, zero) use the fluxes they state: they are consistent with the differential operator, componentwise where the field is a vector. Multiples, sums and differences of schemes give the multiples, sums and differences of their results; cell-based schemes apply their stencil coefficients in each cell.",
     ["inputs", "configurations"], "all graded meshes, values, velocities, coefficients, boundary values, periodicities, field sizes, dimensions 1 to 3",
     "no test applies a finite-volume scheme; a wrong sign, face ratio, component or missed face shows only at some level jump, side, direction or velocity sign",
     ["schemes/fv/flux_based/*.hpp", "schemes/fv/cell_based/*.hpp", "schemes/fv/operators/*.hpp", "schemes/fv/scheme_operators.hpp", "schemes/fv/explicit_operator_sum.hpp", "interface.hpp"],
     [("explicit application of flux-based schemes", "schemes/fv/flux_based/"), ("flux definitions", "schemes/fv/flux_based/flux_definition.hpp"), ("provided operators", "schemes/fv/operators/"), ("scheme algebra", "schemes/fv/scheme_operators.hpp"), ("cell-based schemes", "schemes/fv/cell_based/")],
     "discharged for all values and velocities over every graded mesh of a bounded shape; WENO5 by native execution on sampled values only")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as o:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            o.write(json.dumps(p) + "\n")
    import sys
    sys.path.insert(0, os.path.join(V, "run"))
    from plan import PLAN
    checks = []
    for p in P:
        if p["id"] not in NOTE:
            continue
        checks.append({"property": p["id"], "quick_cmd": f"python3 run/check.py {p['id']} quick", "thorough_cmd": f"python3 run/check.py {p['id']} thorough",
                       "technique": PLAN[p["id"]].get("technique", "contracts on the real C++ code, obligations generated from its LLVM IR and discharged by z3 (engine/vpv)"),
                       "level": PLAN[p["id"]]["level"], "level_note": NOTE[p["id"]]})
    m = {"version": 1, "setup_cmd": "bash run/setup.sh", "checks": checks, "not_applicable": NA,
         "hooks": {"guard": "SAMURAI_VERIF", "enable": "the checks compile with -DSAMURAI_VERIF", "source_commits": HOOKS}}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    assert set(PLAN) == set(NOTE), set(PLAN) ^ set(NOTE)


HOOKS = []
if __name__ == "__main__":
    main()
