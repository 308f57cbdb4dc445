"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, pathlib
S = "scikit-topt/sktopt/"
P = []


def add(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    anchors = {"files": [S + f for f in files],
               "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


CD = "core/optimizers/common_density.py"
OC = "core/optimizers/oc.py"
LM = "core/optimizers/logmoc.py"

add("C01", "Densities stay finite, within bounds, and solid outside the design domain",
    "After every iteration of either optimizer every design density is finite and lies in the configured [minimum, maximum], and every element outside the design domain (loaded, fixed and, by default, clamped elements) has density exactly 1. The projected densities that are recorded and exported are finite; with the spatial filter they lie in [0, 1].",
    ["inputs", "configurations", "histories"],
    "every mesh (hexahedra and tetrahedra, uneven element sizes), support, load set, optimizer, filter, interpolation and continuation schedule, at every iteration of every run",
    "The existing tests run each optimizer on one or two meshes with default-like settings and only check that the run ends; nothing looks at the densities of the intermediate iterations.",
    [CD, OC, LM], [("initial densities and solid elements", CD + ":initialize_density"), ("iteration loop", CD + ":_optimize_impl"), ("OC clipping", OC + ":bisection_with_physical_volume"), ("log-space update", LM + ":lagrangian_log_update")],
    state=[("rho", "element densities before/after the update", CD + ":DensityState")],
    observe=["density snapshots data/*-rho.npz of every iteration", "the optimizer's state after every single-iteration step", "rho_projected in the exported meshes"])

add("C02", "No design density moves further than the move limit in one iteration",
    "Between two consecutive iterations no design density changes by more than the move limit scheduled for that iteration, for both optimizers; the recorded largest density change is exactly the largest change that happened.",
    ["inputs", "configurations", "histories"],
    "every iteration of every run, over constant, stepped and sawtooth move-limit schedules, both optimizers, all meshes and filters",
    "The tests never compare two consecutive density fields, so neither an oversized step nor a wrong recorded change would be seen.",
    [CD, OC, LM], [("OC clip to the move-limit box", OC + ":bisection_with_physical_volume"), ("log-space box", LM + ":lagrangian_log_update"), ("recorded change", CD + ":_optimize_impl")],
    observe=["consecutive snapshots", "history rho_change_max"])

add("C03", "The OC update meets the volume target; recorded volume error is the real one",
    "After every OC iteration the volume-weighted mean of the filtered and projected design densities equals the scheduled volume fraction to the stated bisection tolerance, unless the move limit, the density bounds or the configured range of the multiplier make that unreachable, in which case the design is at the nearest reachable end. For both optimizers the recorded volume error is the volume-weighted mean projected density minus the scheduled target of that iteration.",
    ["inputs", "configurations", "histories"],
    "every iteration over meshes with uneven element volumes, targets above and below the start volume, both filters, all projection sharpness values and update exponents",
    "Tests never recompute the volume of a result; a wrong weighting, a bisection that stops early or a target of the wrong iteration leaves the run finishing normally.",
    [OC, LM, CD], [("bisection on the projected volume", OC + ":bisection_with_physical_volume"), ("LogMOC volume", LM + ":rho_update")],
    observe=["state after each iteration, re-filtered and re-projected independently", "history vol_error"])

add("C04", "Elastic states satisfy equilibrium and the supports; compliance is f.u",
    "For every density field the returned displacement vanishes (to rounding) on the supported degrees of freedom and balances the applied load on all others, and the objective of each load case equals load times displacement, is positive, and equals twice the summed element strain energies. Several load cases solved together give what each gives alone, scaling a load by s scales its displacement by s and its objective by s squared, and every available linear solver gives the same answer to its tolerance.",
    ["inputs", "configurations"],
    "every mesh, density field in [0,1], penalisation, interpolation model, support (full and per-component), set of loads, and installed solver back end",
    "Tests only run whole optimisations; no residual, reaction or energy balance is checked anywhere, and no two solver back ends are compared.",
    ["fea/solver_elastic.py", "fea/solver.py", "fea/composer.py"],
    [("single load solve", "fea/solver_elastic.py:compute_compliance_basis"), ("multi load solve", "fea/solver_elastic.py:solve_multi_load"), ("assembly", "fea/composer.py:assemble_stiffness_matrix"), ("energies", "fea/solver_elastic.py:strain_energy_skfem_multi")],
    observe=["displacement array and objectives returned by each evaluation"])

add("C05", "Elastic design sensitivities are the gradient of the mean compliance",
    "The sensitivity handed to the density update at an iteration is the derivative, with respect to each design density, of the compliance averaged over the load cases, through the whole chain of (spatial) filter, projection and SIMP or RAMP interpolation with that iteration's parameters.",
    ["inputs", "configurations", "histories"],
    "every element, density field, interpolation model, penalisation, projection sharpness and threshold, filter radius, number of load cases, load scale and mesh",
    "No test differentiates anything numerically; a wrong chain factor still yields a descent-like direction and a finished run.",
    [CD, "core/derivatives.py", "core/projection.py", "filters/spacial.py"],
    [("sensitivity chain", CD + ":_optimize_impl"), ("SIMP/RAMP compliance derivative", "core/derivatives.py:dC_drho_simp / dC_drho_ramp"), ("projection derivative", "core/projection.py:heaviside_projection_derivative_inplace"), ("filter adjoint", "filters/spacial.py:SpacialFilter.gradient")],
    observe=["the sensitivity array entering the density update, against finite differences of independently evaluated objectives"])

add("C06", "Density filters average: constants, bounds, linearity, radius, mask",
    "The spatial filter replaces every design density by the Gaussian-weighted average of the design densities within the radius, so it is linear, keeps constants, never leaves the range of its input and leaves non-design elements untouched. The Helmholtz filter returns the element means of the Helmholtz-PDE solution for the averaged nodal field (value 1 held on non-design nodes), so it keeps a constant 1 and, without a mask, every constant and the volume-weighted mean on uniform meshes. Changing the radius changes the filter to the one built with that radius, and filtering never changes its input.",
    ["inputs", "configurations", "histories"],
    "every mesh, density field, radius (smaller and larger than an element), design mask, and sequence of radius changes and calls on one filter",
    "The tests use one radius and one filter per run and never look at a filtered field.",
    ["filters/spacial.py", "filters/helmholtz_filter_nodal.py"],
    [("spatial weights", "filters/spacial.py:build_filter_matrix"), ("Helmholtz solve", "filters/helmholtz_filter_nodal.py:solve_helmholtz"), ("element to node averaging", "filters/helmholtz_filter_nodal.py:element_to_node_density_averaging")],
    observe=["returned filtered fields against an independent dense reference"])

add("C07", "The filter's sensitivity map is the transpose of the filter",
    "Mapping a sensitivity field back through a density filter is the transpose of the linear map the filter applies to the design densities, with the radius and mask in force, so that inner products agree for every pair of fields. (For the Helmholtz filter the code guarantees this only for sign-definite fields; deviations that are part of the shipped formulation are listed as known findings.)",
    ["inputs", "configurations"],
    "every pair of fields, mesh, radius and mask",
    "No test checks an inner-product identity; a non-transposed map still gives smooth, plausible sensitivities.",
    ["filters/spacial.py", "filters/helmholtz_filter_nodal.py"],
    [("spatial adjoint", "filters/spacial.py:SpacialFilter.gradient"), ("Helmholtz adjoint", "filters/helmholtz_filter_nodal.py:HelmholtzFilterNodal.gradient")],
    observe=["returned fields of the forward and backward maps"])

add("C08", "The projection is a smooth monotone step with an exact derivative",
    "For every sharpness and threshold the projection maps 0 to 0 and 1 to 1, stays in [0,1] on [0,1], is monotone, and is steeper around the threshold for larger sharpness; the reported derivative is its derivative. The buffer-reusing variants give the same values as the plain ones and change nothing but the output they are given.",
    ["inputs", "configurations"],
    "every sharpness, threshold in [0,1], density array, layout and output buffer (fresh, dirty, aliased where allowed)",
    "Tests use the projection only inside full runs with two sharpness values and never evaluate the derivative.",
    ["core/projection.py"], [("projection", "core/projection.py:heaviside_projection / heaviside_projection_inplace"), ("derivative", "core/projection.py:heaviside_projection_derivative / _inplace")],
    observe=["returned arrays and input arrays before/after"])

add("C09", "Material interpolation is bounded, monotone, and its derivative is exact",
    "SIMP and RAMP map density 0 to the minimum stiffness and 1 to the full stiffness, are monotone in between, decrease with the penalty, and the derivatives used for sensitivities are their derivatives; all variants of the same law agree. A stiffness or conductivity matrix assembled from a density field is symmetric, positive semidefinite with the rigid-body (constant) null space, and equals the sum of element matrices weighted by the interpolated property.",
    ["inputs", "configurations"],
    "every density in [0,1], penalty, stiffness ratio, mesh and density field",
    "Only SIMP with penalties 1..3 is exercised by the tests and no matrix or derivative is inspected.",
    ["fea/composer.py", "core/derivatives.py"],
    [("interpolation laws", "fea/composer.py:simp_interpolation / ramp_interpolation"), ("derivatives", "core/derivatives.py"), ("assembly", "fea/composer.py:assemble_stiffness_matrix / assemble_conduction_matrix")],
    observe=["returned values and matrices"])

add("C10", "Running in pieces equals running at once; runs are reproducible",
    "Splitting a run into any sequence of partial step counts gives, iteration by iteration, exactly the densities, histories and final files' contents of the uninterrupted run, and a repeated identical run reproduces them. A finished optimizer does nothing when asked for more steps, non-positive step counts do nothing, and no run changes the process environment, the caller's configuration or (apart from its documented design-domain adjustment) the problem definition.",
    ["schedules", "histories", "configurations"],
    "every partition of the iteration count into calls, including zero, negative and overlong ones, for both optimizers, filters, schedules, load-case counts and physics, and after other optimizers ran in the same process",
    "One test compares a full run with a single fixed split for one optimizer on one mesh.",
    [CD, OC], [("stepwise driver", CD + ":optimize_steps / _optimize_impl / _ensure_state_initialized"), ("environment guard", OC + ":_scaled_sensitivity_mode")],
    state=[("_iter_next, _completed", "where the run continues, whether it ended", CD)],
    observe=["histories, snapshots and exported meshes of both runs", "os.environ before/after"])

add("C11", "A run killed at any point restarts to the result of the uninterrupted run",
    "If a run is killed at any file write, also half way through it, or between iterations, then restarting it from the same output directory resumes from the last completely written snapshot - or from the completed iteration named in restart_from, whatever the files' times - and ends with the same densities, histories and snapshots as if it had never been interrupted. Any number of kills and restarts may follow each other.",
    ["crash_points", "fault_sequences", "histories"],
    "every write, replace and iteration boundary as crash point, with partial and missing data, repeated crashes, explicit restart points, both optimizers, once a first snapshot exists",
    "No test restarts anything or injects a fault.",
    [CD, "core/misc.py", "tools/history.py", OC, LM],
    [("restart", CD + ":initialize_density"), ("snapshot and history writing", CD + ":_optimize_impl"), ("latest snapshot lookup", "core/misc.py:find_latest_iter_file"), ("history export/import", "tools/history.py:export_histories / import_histories")],
    state=[("data/NNNNNN-rho.npz", "densities and update memory of a completed iteration", CD), ("histories.npz", "recorded histories up to the snapshot", "tools/history.py")],
    observe=["output directory after kill", "output directory after restart against an uninterrupted control run"])

add("C12", "A fresh run is unaffected by what its output directory contained",
    "A run without restart started in a directory that already holds results of earlier, longer or different runs gives the same histories and files as in an empty directory, and a later restart in that directory never resumes from or mixes in data of the earlier run. Files that do not belong to the optimizer are left alone (the folder mesh_rho is the optimizer's own).",
    ["histories", "configurations", "inputs"],
    "every sequence of runs (fresh, interrupted, restarted; different lengths, meshes and optimizers) sharing one output directory, with foreign files present",
    "Tests reuse directories without looking at what a later run reads back.",
    [CD, "core/misc.py", "tools/history.py"], [("clearing of stale results", CD + ":DensityMethod.__init__"), ("restart import", CD + ":initialize_density")],
    observe=["directory listings and file contents after each run"])

add("C13", "Continuation schedules start, end, stay in range and move as declared",
    "Every schedule whose plateaus last longer than one iteration yields its start value first, and every schedule its target value at the end; it never leaves the interval between them, moves monotonically in the declared number of plateaus (sawtooth: linearly within each cycle, starting anew with the next), and evaluating it twice at an iteration gives the same value. Curvature 1 equals the plain stepped schedule, accelerating stays at or behind and decelerating at or ahead of it, and a constant or absent schedule never changes.",
    ["inputs", "configurations", "histories"],
    "every start, target, number of steps, curvature and iteration count, including more steps than iterations, increasing and decreasing targets, evaluated in any order",
    "The tests check three schedule kinds at a handful of parameter combinations.",
    ["tools/scheduler.py"], [("schedule evaluation", "tools/scheduler.py:schedule_* / Scheduler.value"), ("configuration", "tools/scheduler.py:SchedulerConfig"), ("collection", "tools/scheduler.py:Schedulers")],
    observe=["values at every iteration"])

add("C14", "Histories hold one faithful entry per iteration and survive export and import",
    "After n iterations every recorded quantity has exactly n entries, in order, each equal to the value (or the min, mean, max and spread) of that quantity at that iteration. Writing the histories to disk and reading them back yields the same entries, for any mixture of scalar and array quantities and any number of entries including none.",
    ["histories", "inputs", "configurations"],
    "every sequence of recorded values and collection of quantities, every run length and partition, and repeated export/import round trips",
    "No test reads a history back or compares it with the fields it summarises.",
    ["tools/history.py", CD], [("series and statistics", "tools/history.py:HistorySeries"), ("collection I/O", "tools/history.py:HistoryCollection.export_histories / import_histories / histories_to_array")],
    observe=["history data during and after runs, histories.npz"])

add("C15", "Every promised snapshot exists and shows the iteration it names",
    "A run saves a density snapshot and a mesh file at its first, its last (or converged) and every record-interval iteration and at no other, the saved densities are those after that iteration's update, and the mesh file shows that iteration's projected densities and energies with the mesh's own geometry. The latest snapshot is found whatever other files are present, and an observer reading the directory at any moment sees only complete snapshots and histories.",
    ["histories", "configurations", "crash_points"],
    "every iteration count, recording frequency (more, fewer or equally many as iterations), physics, mesh, optimizer, and every moment a concurrent reader may look",
    "Tests check neither which files exist nor what they contain.",
    [CD, "core/misc.py", "core/visualization.py"], [("save condition and files", CD + ":_optimize_impl"), ("mesh export", "core/visualization.py:export_mesh_with_info"), ("lookup", "core/misc.py:find_latest_iter_file")],
    observe=["files in the output directory during and after runs"])

add("C16", "A task splits the mesh into consistent design, fixed, loaded and clamped parts",
    "However a problem is defined (node sets, facet sets or mesh tags; one or several regions), exactly the requested displacement components (temperatures) of exactly the region's nodes are constrained, constrained and free unknowns partition all unknowns, and design and fixed elements partition all elements with no loaded element (and on request no clamped or cooled-boundary element) designable. The result depends only on the arguments, not on problems built earlier in the process, and does not change its inputs.",
    ["inputs", "configurations", "histories"],
    "every mesh kind, region count and size, direction list, design subset, physics, and sequence of earlier constructions in the same process",
    "Tests build four fixed problems, one per process lifetime of their mesh, and look at none of the sets.",
    ["mesh/task_common.py", "mesh/task_elastic.py", "mesh/task_heat.py", "mesh/utils.py"],
    [("construction", "mesh/task_common.py:FEMDomain.from_nodes / from_facets"), ("tags", "mesh/task_elastic.py:from_mesh_tags, mesh/task_heat.py:from_mesh_tags"), ("elements of nodes", "mesh/utils.py:get_elements_by_nodes"), ("clamped elements", "mesh/task_common.py:exlude_dirichlet_from_design")],
    observe=["index sets of the constructed task"])

add("C17", "Applied loads have the requested resultant on the requested surface",
    "Each elastic load case's nodal load vector acts only on nodes of its surface and only in its direction, sums to the requested total force, and distributes it as the uniform traction's consistent load (so its moment is right too). Separate regions give separate load cases in order, and heat boundaries contribute exactly the film-coefficient surface integrals.",
    ["inputs", "configurations"],
    "every mesh (uneven facets, hexahedra and tetrahedra), surface, direction, sign and magnitude, and number of regions",
    "No test sums a load vector.",
    ["mesh/task_elastic.py", "mesh/task_heat.py"], [("surface forces", "mesh/task_elastic.py:assemble_surface_forces"), ("film terms", "mesh/task_heat.py:assemble_surface_robin")],
    observe=["load vectors and film matrices of the constructed task against an independent facet integration"])

add("C18", "Element volumes are exact and re-orientation preserves the elements",
    "Every reported element volume is the exact positive volume of that (tri)linear element, the volumes add up to the volume of the body, and they scale with the cube of a length scaling and are unaffected by rigid motions and node numbering. Re-orienting a mesh turns every element positive while keeping its corner set and shape, and leaves already positive elements as they are, with any number of worker threads.",
    ["inputs", "configurations", "schedules"],
    "every distorted, stretched, sheared, rotated or mirrored hexahedral or tetrahedral mesh and every thread count",
    "Tests use axis-aligned boxes where even wrong formulas agree.",
    ["fea/composer.py", "mesh/utils.py", "mesh/toy_problem.py"], [("volumes", "fea/composer.py:get_elements_volume"), ("orientation", "mesh/utils.py:fix_elements_orientation"), ("box meshes", "mesh/toy_problem.py:create_box_hex / create_box_tet")],
    observe=["returned volumes and connectivities"])

add("C19", "Temperature states satisfy the heat balance and the prescribed values",
    "For every density field and load case the returned temperature equals the prescribed values on the prescribed nodes (to solver precision), balances conduction and film exchange (on the boundary, and on the density interface) on all others, is uniform where no film exists, and on well-shaped meshes with mild films lies between the prescribed and ambient temperatures; the reported thermal objective is the one declared, evaluated on that state. Load cases solved together give what each gives alone, and evaluating repeatedly changes nothing.",
    ["inputs", "configurations", "histories"],
    "every mesh, density field, set of prescribed regions and values, film coefficient and ambient temperature, objective kind, number of load cases, and repeated evaluation in any order",
    "The heat tests only run optimisations to the end; no residual is computed.",
    ["fea/solver_heat.py", "mesh/task_heat.py"], [("state solve", "fea/solver_heat.py:solve_multi_load / solve_heat_system_multi"), ("objective", "fea/solver_heat.py:FEM_SimpLinearHeatConduction.objectives_multi_load"), ("density dependent film", "fea/solver_heat.py:get_robin_virtual")],
    observe=["temperature array and objectives returned by each evaluation"])

add("C20", "Heat design sensitivities are the gradient of the reported objective",
    "The sensitivity used for a thermal design is the derivative of the reported thermal compliance with respect to each element density, including the density-dependent film terms, for SIMP and RAMP (for zero prescribed temperature; the cases in which the shipped formulation differs are listed as known findings).",
    ["inputs", "configurations"],
    "every mesh, density field, interpolation, penalty, film coefficient, ambient temperature and prescribed region",
    "No test differentiates the thermal objective.",
    ["fea/solver_heat.py", "core/derivatives.py"], [("sensitivity", "fea/solver_heat.py:compliance_sensitivity_multi_load"), ("conduction part", "core/derivatives.py"), ("film part", "fea/solver_heat.py:_robin_compliance_explicit_grad_")],
    observe=["returned sensitivities against finite differences of the objective"])

add("C21", "Configurations survive export and import; command lines mean what they say",
    "Reading back an exported configuration gives an equal one that drives an identical run, for both optimizers and every combination of settings including schedules and solver options. Every command-line option of the optimizers reaches the setting of the same name, and schedule options build the schedule they describe.",
    ["configurations", "inputs"],
    "every combination of settings and schedule kinds; every command line",
    "No test imports a configuration or parses a command line.",
    [CD, "core/misc.py", "fea/_petsc_compat.py", "tools/scheduler.py"], [("export/import", CD + ":DensityMethodConfig.export / import_from"), ("arguments", "core/misc.py:add_common_arguments / args2OC_Config_dict")],
    observe=["cfg.json, imported objects and the resulting runs"])

add("C22", "Unit scaling is undone completely and does not change the physics",
    "Scaling a problem by a length and a force factor multiplies all coordinates and all load vectors by exactly those factors, and scaling back restores coordinates and loads to rounding; a run with automatic scaling leaves the problem with its original coordinates and loads. Compliance and displacements of a scaled problem are those of the original expressed in the new units.",
    ["inputs", "configurations", "histories"],
    "every mesh, number of load cases, and sequence of scalings; full and stepwise runs",
    "No test enables scaling.",
    ["mesh/task_common.py", CD], [("scaling", "mesh/task_common.py:FEMDomain.scale"), ("run-level scaling", CD + ":DensityMethod.scale / unscale")],
    observe=["mesh coordinates, loads and evaluated states"])

add("C23", "Exported meshes describe the same body with the right data on each element",
    "Every exported mesh file has the points and elements of the analysed mesh in the file format's node order (so each cell has the element's corners and positive volume), carries each datum on the element or node it belongs to, and the condition file marks exactly the loaded, supported, fixed and design parts. The extracted sub-mesh contains exactly the elements outside the design and the design elements whose density exceeds the threshold, with unchanged geometry; nothing is written when there are none.",
    ["inputs", "configurations"],
    "every mesh kind, density field, threshold, data set and boundary definition",
    "Tests write files but never read them.",
    ["mesh/utils.py", "mesh/visualization.py", "mesh/task_common.py", "core/visualization.py"], [("cell order", "mesh/utils.py:cells_in_vtk_order"), ("sub-mesh", "mesh/visualization.py:export_submesh"), ("conditions", "mesh/task_common.py:export_analysis_condition_on_mesh"), ("fields", "core/visualization.py:export_mesh_with_info")],
    observe=["written files, read back and compared geometrically"])

add("C24", "Timing sections account for every interval exactly once",
    "For any nesting and repetition of timed sections, also when one ends by an exception or a return, each section's count, total, mean and longest duration equal those of the intervals actually spent in it, the self times of a tree add up to the time of its root, and no section influences another's numbers. Summaries, reports and charts show those numbers with one entry per section.",
    ["schedules", "histories", "fault_sequences"],
    "every well-nested sequence of sections, names, durations and exceptions, nested and flat mode, resets included",
    "No test uses the timer directly.",
    ["tools/timer.py"], [("section bookkeeping", "tools/timer.py:SectionTimer.section / stats / self_times")],
    observe=["statistics, reports and chart contents after a random schedule driven by a simulated clock"])

add("C25", "Mesh queries return exactly the elements, neighbours and points asked for",
    "Elements of a node set are exactly those touching one of the nodes, element adjacency is exactly the symmetric sharing of a face (tetrahedra) or of a node, range and boundary queries return exactly the points in range, whatever meshes were queried before and in whatever order or repetition.",
    ["inputs", "histories"],
    "every mesh, node set and range, and every sequence of queries over different meshes in one process (including meshes already garbage collected)",
    "Tests query one mesh once.",
    ["mesh/utils.py", "fea/composer.py"], [("queries", "mesh/utils.py"), ("adjacency", "fea/composer.py:adjacency_matrix")],
    observe=["returned index sets against brute force"])

add("C26", "Recovered stresses and energies are those of linear elasticity",
    "For any displacement field the recovered stress is the isotropic linear-elastic stress of its strain with the element's interpolated stiffness: zero for rigid motions, exact for uniform strain, linear in the displacement; the von Mises value is the invariant it names (zero for hydrostatic states, rotation invariant). Element strain energies are non-negative, zero for rigid motions, quadratic in the displacement, and add up to half of displacement times stiffness times displacement.",
    ["inputs", "configurations"],
    "every mesh, displacement field, density field, Poisson ratio and interpolation",
    "No test evaluates stress or compares an energy with a stiffness matrix.",
    ["fea/composer.py", "fea/solver_elastic.py"], [("stress", "fea/composer.py:stress_tensor_skfem / von_mises_from_stress_tensor"), ("energy", "fea/composer.py:strain_energy_skfem / strain_energy_skfem_multi")],
    observe=["returned arrays"])

add("C27", "A run stops early exactly when both convergence criteria hold",
    "With convergence checking on, a run ends at the first iteration whose largest density change and stationarity residual are both below their tolerances, saves that iteration and finishes its outputs; otherwise, and always with checking off, it performs exactly the configured number of iterations.",
    ["configurations", "histories", "schedules"],
    "every pair of tolerances (never, always and sometimes satisfied), both optimizers, full and stepwise driving",
    "Convergence checking is off in every test.",
    [CD], [("criteria and exit", CD + ":_optimize_impl / _finalize")],
    observe=["histories of change and residual against the number of iterations performed and files written"])

add("C28", "Problems read from mesh files are the problems in the files",
    "A finite-element basis, stiffness matrix or shipped example built from a mesh file describes the body in the file: same nodes and elements, tetrahedra positively oriented, hexahedra with their own edges, and a matrix equal to that of linear elasticity with the given Young's modulus and Poisson ratio, symmetric, with exactly the rigid-body motions in its null space, and scaling linearly with the modulus.",
    ["inputs", "configurations"],
    "every hexahedral and tetrahedral mesh file (mirrored elements included) and material",
    "No test reads a mesh file through the loader.",
    ["mesh/loader.py"], [("file to basis", "mesh/loader.py:basis_from_file"), ("file to matrix", "mesh/loader.py:load_stiffness_matrix")],
    observe=["returned basis, matrix and tasks, for files written here"])

add("C29", "Each iteration uses exactly the parameter values scheduled for it",
    "At iteration k of a run the penalty, projection sharpness, filter radius, load scale, move limit, volume target and update exponent are the scheduled values of iteration k: the recorded objective, projected densities and load scale of iteration k are those obtained by evaluating the densities before that iteration with the scheduled values. A fresh run starts from the uniform design at the volume target's starting value, within the density bounds.",
    ["configurations", "histories", "schedules"],
    "every combination of continuation schedules, full, stepwise and restarted runs, both optimizers and physics",
    "Tests never recompute an iteration.",
    [CD, "tools/scheduler.py"], [("schedule lookup and use", CD + ":_optimize_impl"), ("schedule set-up", CD + ":init_schedulers")],
    observe=["history entries and exported fields of each iteration against an independent re-evaluation"])

add("C30", "Optimised designs beat equal-volume uniform ones and follow the physics",
    "On well-posed elastic problems over evenly divided bodies, the design optimised with the spatial filter has a lower compliance than the uniform design of the same material volume. OC designs depend on the problem alone: multiplying all loads or the modulus by a power of two leaves every design iterate unchanged and scales the objective accordingly; translating, turning, mirroring or renumbering the mesh changes designs only by rounding; and a symmetric elastic problem keeps a symmetric design.",
    ["inputs", "configurations", "histories"],
    "well-posed support/load combinations, SIMP and RAMP, both filters, elastic and thermal; every power-of-two rescaling, rigid motion and numbering",
    "Tests check that runs end, not that they improve anything, and never run a rescaled or moved problem.",
    [CD, OC, LM], [("update directions", OC + ":rho_update"), ("sensitivity scaling", OC + ":rho_update"), ("log update", LM + ":rho_update")],
    observe=["final designs and objective histories of paired runs"])

add("C31", "Every density update is the declared rule for that iteration's sensitivities",
    "Each OC update multiplies every density by its clipped sensitivity ratio for one recorded multiplier, within the move window and bounds; each log update moves ln(density) along the recorded Lagrangian gradient within the same window. Multiplier recurrences (decaying or augmented), constraint coefficient, volume-chain scaling, centring, filtering, running sensitivity scale and percentile follow the configuration, and the recorded residual is the largest violation of stationarity over interior elements.",
    ["configurations", "histories", "schedules"],
    "every option of both update rules, filters, physics and schedule, full and stepwise runs",
    "Tests never look at an update or turn most of the options on.",
    [OC, LM, CD], [("OC rule", OC + ":bisection_with_physical_volume"), ("OC residual", OC + ":rho_update"), ("log rule", LM + ":rho_update / lagrangian_log_update")],
    observe=["sensitivities and densities entering and leaving every update, against the recorded multiplier, coefficient and residual"])

add("C32", "PETSc solves answer the same system, with the options asked for",
    "Choosing petsc or petsc_spdirect hands PETSc the system the direct solver gets: the matrix and every right-hand side, with the tolerance, iteration limit, Krylov method, preconditioner, factorisation package, prefix and use of the options database that were asked for, whether given as object, dict, part of a dict or through cfg.json. What PETSc returns for a load case becomes that case's state, so states, objectives, energies and whole runs agree with the direct solver to the solver's tolerance. petsc_spdirect is always a direct factorisation: contradicting options are refused. A solve that PETSc reports as failed is announced, and answered by the direct solver where the fallback is allowed; without petsc4py the choice is a clear error.",
    ["inputs", "configurations", "faults"],
    "every mesh, density, load case count, physics, option set, options database, and any failure PETSc can report",
    "The tests never select PETSc (it is not installed where they run).",
    ["fea/solver_elastic.py", "fea/solver_heat.py", "fea/solver_petsc.py", CD],
    [("entry points", "fea/solver_petsc.py:solve_u_petsc / solve_u_petsc_multi"), ("options", "fea/solver_petsc.py:petsc_options_for_solver / merge_petsc_options"),
     ("selection", "fea/solver_elastic.py:solve_u / solve_multi_load"), ("heat", "fea/solver_heat.py:solve_heat_system_multi"), ("configuration", "core/optimizers/common_density.py:DensityMethodConfig.__post_init__")],
    observe=["every solve a stand-in petsc4py is asked for (matrix, right-hand side, options, outcome)", "states, objectives and energies returned", "warnings and errors"])

add("C33", "Figures, images and animations show the recorded data",
    "Every history with data appears on axes of its own in the progress figure, in order, with exactly its entries (minimum, mean, maximum and the one-sigma band where kept) on the declared scale; the schedule figure shows the value of every iteration; the final histogram counts every design density, whatever the densities are. With export_img every saved iteration is drawn once from that iteration's file, with the field named by the image, its title and a colour range that holds the data; without it none is, and without a display the run goes on and says so. Animations show the images of their field in iteration order, skipping as asked, at the asked scale. The mesh statistics print and draw nearest distances and the volumes of the parts of the problem.",
    ["inputs", "configurations", "histories"],
    "every number and kind of histories, schedules, runs, saved iterations, image sets, scales and skips, meshes and problems",
    "Tests only let figures be written; nothing reads them.",
    ["tools/history.py", "tools/scheduler.py", "core/visualization.py", "mesh/task_common.py", CD],
    [("progress", "tools/history.py:HistoryCollection.export_progress"), ("schedules", "tools/scheduler.py:Schedulers.export"),
     ("images", "core/visualization.py:write_mesh_with_info_as_image / images2gif / rho_histo_plot"), ("statistics", "mesh/task_common.py:FEMDomain.nodes_and_elements_stats")],
    observe=["the data of all axes at the moment a figure is saved", "what a stand-in pyvista is asked to draw", "frames of written animations", "printed statistics"])

add("C34", "Requests that cannot be honoured are refused and change nothing",
    "A request the library declares impossible is refused with an error rather than served with something else: schedules without the values their kind needs or of an unknown kind; loads, films and fluxes whose regions, directions and values do not match or whose direction is no axis; problems with no design element, an unknown objective, or an objective whose boundary or state is missing; unknown interpolations, filters, kernels, solvers, load schedules, settings, chart kinds, orders and history names; solvers that are not installed or cannot take several loads; meshes of unknown or inverted elements; restarts from iterations never saved; command lines with words that are no flag, number or option. The objects it was made on are as before, a refused run does no iteration, a refused restart keeps every earlier result, and the same request without its fault is served before and after.",
    ["inputs", "configurations", "histories"],
    "every kind of request, fault and surroundings (what was registered, recorded, solved or saved before), and repeated use of the same objects afterwards",
    "Tests make valid requests only.",
    ["tools/scheduler.py", "tools/timer.py", "tools/history.py", "mesh/task_elastic.py", "mesh/task_heat.py", "mesh/task_common.py", "mesh/loader.py", "fea/solver_elastic.py", "fea/solver_heat.py", "fea/composer.py", "filters/spacial.py", "core/misc.py", CD],
    [("schedules", "tools/scheduler.py:SchedulerConfig.from_defaults / Schedulers.add_object_from_config"), ("problems", "mesh/task_common.py:FEMDomain.from_nodes"),
     ("solvers", "fea/solver_elastic.py:solve_u / solve_multi_load"), ("runs", CD + ":DensityMethod.__init__ / init_schedulers / parameterize / initialize_density")],
    observe=["whether a request raised", "fingerprints of the objects and directories involved before and after", "the valid twin of every request, before and after"])

add("C35", "Equivalent ways of writing the same request give the same result",
    "Whole numbers mean the equal decimals in every numeric setting, schedule, load, temperature, film, material and recorded value; one load, support, film or temperature means the list of it; boundary facets and design elements mean the same in any order and integer type; a support or film in parts means their union; a continuation that stays at a value means that constant, a load ramp of one step the full load; defaults written out mean the defaults. Runs give the same histories and designs, problems the same loads, supports, states and objectives, schedules the same values and recorders the same entries, up to rounding.",
    ["inputs", "configurations"],
    "every setting, both optimizers, both physics, random problems, schedules, groups of settings and spellings",
    "Tests write each request one way; a value silently ignored for its type or order still gives a plausible finished run.",
    ["core/optimizers/oc.py", "core/optimizers/logmoc.py", "core/optimizers/common_density.py", "tools/scheduler.py", "tools/history.py", "mesh/task_common.py", "mesh/task_elastic.py", "mesh/task_heat.py"],
    [("settings", CD + ":DensityMethod_Config"), ("schedules", "tools/scheduler.py:Scheduler.value"), ("problems", "mesh/task_common.py:FEMDomain.from_facets"),
     ("loads", "mesh/task_elastic.py:assemble_surface_forces"), ("films", "mesh/task_heat.py:assemble_surface_robin")],
    observe=["histories and saved densities of runs differing only in spelling", "loads, supports, solved states and objectives of problems differing only in spelling"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
