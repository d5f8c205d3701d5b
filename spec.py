"""Source of properties.jsonl and MANIFEST.json: run `python3 spec.py` to regenerate both."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, na=None, level="model_checking", note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, na=na, level=level, note=note))


I, C, H = "inputs", "configurations", "histories"

prop(
    "C01", "Mobile hydrogen obeys Fick and Soret transport in every material",
    "At every solve, in every volume, the discrete equation for mobile hydrogen is exactly storage minus divergence of D(T) times the concentration gradient (plus the thermodiffusion flux when enabled), with the diffusivity, heat of transport and temperature of that volume at the current time. Cylindrical and spherical meshes get the corresponding geometric term, storage is absent in steady state and is the backward difference over the current step otherwise. Nothing else appears in the volumes or on the boundary when nothing else is requested.",
    [I, C], "all material parameters, temperature fields, solution fields, previous fields and step sizes; every coordinate system, dimension, material layout, steady or transient, soret on/off",
    "the tests compare forms or a few MMS cases for fixed coefficients and layouts; an error in one coordinate system, one material or one term combination is not sampled",
    ["festim/concentration/mobile.py", "festim/h_transport_problem.py", "festim/materials/material.py", "festim/materials/materials.py", "festim/temperature/temperature.py"],
    [("create_diffusion_form", "festim/concentration/mobile.py"), ("define_variational_problem", "festim/h_transport_problem.py"), ("find_material_from_id", "festim/materials/materials.py")],
    ["the residual handed to the nonlinear solver"],
)
prop(
    "C02", "Trapping follows the trap kinetics and exchanges hydrogen exactly",
    "For every trap, in each material it lives in, the discrete equation is the rate of change of trapped hydrogen equal to k(T) c_m (n - c_t) - p(T) c_t with that material's parameters and density at the current time, and outside those materials no trapping happens (the trapped concentration is held at zero in steady state). The opposite of the same rate enters the mobile balance, so that trapping never creates or destroys hydrogen. This holds for any number of traps, materials, and parameter lists.",
    [I, C], "all rate parameters, densities in space and time, temperatures, solution fields; traps in one or several materials, parameters shared or per material, CG or DG traps, steady or transient",
    "tests check a few forms with fixed numbers and one or two materials; combinations of several traps, materials with several volumes and per-material lists are not reached",
    ["festim/concentration/traps/trap.py", "festim/concentration/traps/traps.py", "festim/concentration/mobile.py", "festim/h_transport_problem.py"],
    [("create_trapping_form", "festim/concentration/traps/trap.py"), ("create_diffusion_form couples source terms", "festim/concentration/mobile.py")],
    ["the residual handed to the nonlinear solver"],
)
prop(
    "C03", "Chemical-potential formulation conserves concentration across the conversion",
    "When conservation of chemical potential is enabled the unknown is c/S (Sievert materials) or sqrt(c/S) (Henry materials), and transport, trapping, sources, boundary laws and initial conditions are those of the concentration recovered with the solubility and law of the local material at the temperature of the same time level. The exported and post-processed mobile concentration and retention are that recovered concentration in every volume. The balance solved is the same as without the conversion, whatever mix of laws is used.",
    [I, C], "all solubility parameters and laws, temperature fields in space and time, solution fields; any mix of Sievert and Henry materials, with traps, sources, flux and Dirichlet conditions",
    "tests use fixed solubilities and mostly one law; the previous-time-level solubility and mixed-law layouts are not sampled with a varying temperature",
    ["festim/concentration/theta.py", "festim/materials/materials.py", "festim/h_transport_problem.py", "festim/concentration/mobile.py"],
    [("mobile_concentration, previous concentration", "festim/concentration/theta.py"), ("create_solubility_law_markers", "festim/materials/materials.py"), ("update_post_processing_solutions", "festim/h_transport_problem.py")],
    ["residual handed to the solver", "exports and derived quantities"],
)
prop(
    "C04", "Volumetric sources act on the requested species, volumes and time only",
    "Every volumetric source (constant, space- or time-dependent, implantation profile, radioactive decay) adds exactly its value to the balance of the species it names, in exactly the volumes it names, evaluated at the current time. An implantation source is the normalised Gaussian of its depth and width times its flux, and radioactive decay removes the decay constant times the local concentration of each targeted species. Several sources add up, and a source on a named trap never reaches another species.",
    [I, C], "all source values, depths, widths and decay constants, positions and times; every target species (mobile, any trap including user-numbered ones, all), one or several volumes",
    "tests evaluate single sources at fixed numbers; additivity, targeting by user-defined trap ids, several volumes and time updates over steps are not covered",
    ["festim/sources/source.py", "festim/sources/implantation_flux.py", "festim/sources/radioactive_decay.py", "festim/concentration/mobile.py", "festim/concentration/traps/trap.py", "festim/generic_simulation.py"],
    [("attribute_source_terms", "festim/generic_simulation.py"), ("create_source_form", "festim/concentration/mobile.py"), ("RadioactiveDecay.form", "festim/sources/radioactive_decay.py")],
    ["residual handed to the solver"],
)
prop(
    "C05", "Flux boundary conditions impose the documented flux on their surfaces",
    "On every surface named by a flux condition, the boundary term of the mobile balance is exactly the documented law - prescribed flux, convective exchange, recombination of any order, dissociation, or the user function - of the local concentration and temperature at the current time, counted inward. Surfaces that are not named receive nothing, and several conditions on one surface add up. The law uses the concentration (not the solver's unknown) in every formulation.",
    [I, C], "all coefficients (constants or functions of space and time), solution and temperature fields, recombination orders; one or several surfaces and conditions, all dimensions, with and without chemical potential",
    "tests compare a few UFL expressions; signs and laws over combined conditions, time dependence over steps and chemical potential are not covered",
    ["festim/boundary_conditions/fluxes/*.py", "festim/concentration/mobile.py", "festim/h_transport_problem.py"],
    [("create_fluxes_form", "festim/concentration/mobile.py"), ("create_form of each flux", "festim/boundary_conditions/fluxes/")],
    ["residual handed to the solver"],
)
prop(
    "C06", "Imposed concentrations follow their surface laws and units",
    "Every imposed-value condition fixes, on exactly the surfaces it names and for exactly the species it names, the value of its law (constant, expression, user function of temperature, Sievert, Henry, implantation balance with diffusion and recombination) at the current time and local temperature. With conservation of chemical potential the imposed unknown is that concentration converted with the solubility and law of the material adjoining the surface. Values are refreshed before every solve.",
    [I, C], "all law parameters, temperatures and times, surfaces and species; with and without chemical potential, Sievert and Henry materials",
    "tests check each law at a handful of temperatures and rarely through time steps or with both solubility laws",
    ["festim/boundary_conditions/dirichlets/*.py", "festim/h_transport_problem.py"],
    [("create_dirichletbc / normalise_by_solubility", "festim/boundary_conditions/dirichlets/dirichlet_bc.py"), ("dc_imp", "festim/boundary_conditions/dirichlets/dc_imp.py"), ("BoundaryConditionExpression", "festim/helpers.py")],
    ["Dirichlet conditions handed to the solver"],
)
prop(
    "C07", "Surface kinetics conserve hydrogen between surface, subsurface and gas",
    "On each surface with surface kinetics, the adsorbed concentration obeys its balance - subsurface-to-surface minus surface-to-subsurface exchange plus the gas-side flux, with coverage limits and user rate laws evaluated from current temperature, adsorbed and mobile concentrations - and the mobile balance receives the opposite of the same exchange flux including the interstitial storage term. Surfaces do not affect one another. In steady state the storage terms are absent.",
    [I, C], "all rate functions and parameters, initial coverages, solution fields, one or several surfaces and conditions, steady or transient",
    "tests use one or two fixed configurations in 1D",
    ["festim/boundary_conditions/fluxes/surface_kinetics.py", "festim/h_transport_problem.py"],
    [("create_form", "festim/boundary_conditions/fluxes/surface_kinetics.py"), ("adsorbed unknowns in the mixed space", "festim/h_transport_problem.py")],
    ["residual handed to the solver", "adsorbed hydrogen derived quantity"],
)
prop(
    "C08", "The heat equation solved is the documented one",
    "A solved temperature satisfies, in every volume, storage (density times heat capacity times backward difference over the current step) minus divergence of conductivity times gradient, minus the requested heat sources, with temperature-dependent properties of that volume's material and the geometric terms of the coordinate system. Prescribed heat fluxes, convective exchange and imposed temperatures hold on exactly their surfaces at the current time. The previous temperature used is that of the preceding time level, and transport uses the newly solved temperature.",
    [I, C, H], "all properties (numbers or functions of temperature), sources, boundary values in space and time, steps; steady or transient",
    "tests compare forms for fixed coefficients and a few MMS runs",
    ["festim/temperature/temperature_solver.py", "festim/boundary_conditions/fluxes/convective_flux.py", "festim/materials/material.py"],
    [("define_variational_problem", "festim/temperature/temperature_solver.py"), ("update", "festim/temperature/temperature_solver.py")],
    ["residual and Dirichlet conditions handed to the temperature solver"],
)
prop(
    "C09", "Evolving trap densities follow their creation laws step by step",
    "The density of an extrinsic trap advances each accepted time step by the documented creation and annihilation law with the trap's parameters, the current temperature and the current step, starting from its initial density; the trapping equation uses the density reached by the latest accepted step. Time- or space-dependent parameters are evaluated at the current time.",
    [I, C, H], "all parameters of both evolving-density models, temperatures, steps and number of steps",
    "tests check one form and one step with fixed numbers",
    ["festim/concentration/traps/extrinsic_trap.py", "festim/concentration/traps/neutron_induced_trap.py", "festim/h_transport_problem.py", "festim/generic_simulation.py"],
    [("create_form_density", "festim/concentration/traps/extrinsic_trap.py"), ("solve_extrinsic_traps", "festim/concentration/traps/traps.py")],
    ["density problems handed to the solver"],
)
prop(
    "C10", "Time marches forward, hits every milestone, and ends at the final time",
    "Whatever step-size settings, solver iteration counts and milestones, accepted times increase strictly, never pass a milestone that lies ahead without stopping on it, and the last one is the final time (to rounding). Each accepted solve covers exactly the interval between two consecutive accepted times, i.e. the step used in the equations is the difference of those times.",
    [I, C, H], "all positive initial steps, change ratios, caps, milestone positions, final times and solver iteration counts within the bounds",
    "tests run a few schedules; interactions of milestones, caps and adaptive growth are a history quantifier",
    ["festim/stepsize.py", "festim/generic_simulation.py"],
    [("adapt / next_milestone", "festim/stepsize.py"), ("iterate / run_transient", "festim/generic_simulation.py")],
    ["simulation time at each solve and the step constant"],
)
prop(
    "C11", "The adaptive step-size policy is applied as documented",
    "With an adaptive step the next step is the last one multiplied by the ratio after fast convergence (fewer than five iterations), divided by it after slower convergence or divergence, and never exceeds the maximum step once its start time is reached; the minimum step aborts the run when a diverging step would fall below it. A constant step is used unchanged except when shortened to hit a milestone or the final time, after which it is restored.",
    [I, C, H], "all ratios, caps, thresholds, step values, iteration counts and convergence outcomes",
    "tests call the policy with a few numbers; sequences of decisions are not explored",
    ["festim/stepsize.py", "festim/generic_simulation.py"],
    [("modify_value", "festim/stepsize.py"), ("adapt", "festim/stepsize.py")],
    ["step constant after each solve"],
)
prop(
    "C12", "Unconverged solves are never accepted and are retried from the same state",
    "A solve that did not converge never becomes the previous state: with an adaptive step it is retried from the same previous state and initial guess with a smaller step ending at the correspondingly earlier time, otherwise the run stops with an error. A steady run that did not converge reports an error. The nonlinear solver receives the tolerances, iteration limit, linear solver and preconditioner the user requested and the exact derivative of the residual.",
    [I, C, H], "all convergence outcomes and iteration counts in the bounded histories, all solver settings",
    "a failing nonlinear solve at a chosen step is a fault schedule that tests do not inject beyond one case",
    ["festim/h_transport_problem.py", "festim/generic_simulation.py", "festim/stepsize.py", "festim/nonlinear_problem.py"],
    [("solve_once / update", "festim/h_transport_problem.py"), ("adapt", "festim/stepsize.py"), ("run_steady", "festim/generic_simulation.py")],
    ["sequence of solves: guess, previous state, time, step, parameters"],
)
prop(
    "C13", "Every time-dependent input is evaluated at the time being solved for",
    "At each solve, every time-dependent input - temperature, trap densities, sources, flux and imposed-value laws, and their parameters - has the value for the end of the step being solved, including after a retried step; previous fields are those of the last accepted step.",
    [I, C, H], "all time-dependent inputs affine in time, all step sequences including retries",
    "tests check single updates in isolation",
    ["festim/h_transport_problem.py", "festim/generic_simulation.py", "festim/helpers.py", "festim/temperature/temperature.py"],
    [("update_expressions", "festim/helpers.py"), ("call_time_dependent updates", "festim/generic_simulation.py")],
    ["residual and Dirichlet conditions at each solve"],
)
prop(
    "C14", "Initial conditions set exactly the species they name",
    "Before the first transient step, each species starts at the value of its initial condition (number, expression, or stored field) in every volume, species without one start at zero, and the first solve uses those as previous state; with conservation of chemical potential the starting concentration is preserved by the conversion.",
    [I, C], "all initial values and fields, any subset of species, user-numbered traps, surface coverages, both formulations",
    "tests set one or two species with fixed values",
    ["festim/initial_condition.py", "festim/h_transport_problem.py", "festim/concentration/concentration.py", "festim/concentration/theta.py"],
    [("initialise_concentrations", "festim/h_transport_problem.py"), ("initialise", "festim/concentration/theta.py")],
    ["previous state at the first solve"],
)
prop(
    "C15", "Volumes and surfaces are marked from the material borders or the mesh files",
    "On a 1D mesh every cell belongs to the material whose border interval contains it, the two ends are the first and second surface, and no other facet is a surface; the equations of each cell and end use them. Vertices may be given in any order and repeated, materials in any order and with several intervals. Borders that do not begin at zero, do not join, or do not end at the size of the mesh are rejected, and no others. A mesh read from files keeps the volumes and surfaces marked there.",
    [I, C], "all border positions, vertex positions, material orders, nested borders, within the bounds",
    "tests use a few fixed meshes and borders",
    ["festim/meshing/mesh_1d.py", "festim/meshing/mesh_from_xdmf.py", "festim/meshing/mesh_from_vertices.py", "festim/materials/materials.py"],
    [("define_markers", "festim/meshing/mesh_1d.py"), ("check_borders / find_subdomain_from_x_coordinate", "festim/materials/materials.py")],
    ["volume and surface markers"],
)
prop(
    "C16", "Invalid models are rejected instead of being silently solved",
    "A model that misses required settings, gives a property to some materials only, reuses identifiers, mixes incompatible boundary conditions, fields or time settings, or gives values of the wrong type is rejected with an error, at the latest when it is initialised, instead of being run; valid models are not rejected. However they are put into their lists, materials, traps, exports and quantities stay in order and are found again by their identifiers and names.",
    [I, C], "all combinations of presence/absence and identifier equality among the checked settings",
    "tests exercise each error once",
    ["festim/generic_simulation.py", "festim/materials/materials.py", "festim/settings.py", "festim/helpers.py", "festim/boundary_conditions/*.py"],
    [("check_consistency / check_unique_ids / check_missing_properties", "festim/materials/materials.py"), ("initialise", "festim/generic_simulation.py")],
    ["exceptions raised by initialise"],
)
prop(
    "C17", "Integral derived quantities equal the integrals they name",
    "Total, average and flux quantities equal the stated integral of the stated field over exactly the named volume or surface with the measure of the coordinate system (angular ranges included), the averages being the total over the measure; surface fluxes use the outward normal, the local material's diffusivity or conductivity at current temperature, and include thermodiffusion when enabled. The value is that of the current solution at each computation.",
    [I, C], "all fields, weights, material properties, angular ranges, volumes and surfaces",
    "tests compare against closed forms for a few fields and ranges",
    ["festim/exports/derived_quantities/*.py"],
    [("compute", "festim/exports/derived_quantities/"), ("ArheniusCoeff / ThermalProp", "festim/materials/materials.py")],
    ["values recorded in derived quantities"],
)
prop(
    "C18", "Extrema and point values are those of the named field and region",
    "Maximum and minimum quantities return the largest and smallest nodal value of the named field over exactly the named volume or surface, and point values return the field at the requested position, for the current solution.",
    [I, C], "all nodal values, volumes, surfaces and positions",
    "tests use one field per class and call the computation by hand",
    ["festim/exports/derived_quantities/maximum_volume.py", "festim/exports/derived_quantities/minimum_volume.py", "festim/exports/derived_quantities/maximum_surface.py", "festim/exports/derived_quantities/minimum_surface.py", "festim/exports/derived_quantities/point_value.py"],
    [("compute", "festim/exports/derived_quantities/")],
    ["values recorded in derived quantities"],
)
prop(
    "C19", "Exports are written exactly when requested with the current time and field",
    "Field exports are written at every n-th accepted step or at the last step as requested, profile exports at each requested time (or every step), each carrying the accepted time and the field values of that step; nothing is written for rejected steps. A requested profile time is always reached.",
    [I, C, H], "all export periods and times, step sequences, histories with retries",
    "tests run single schedules",
    ["festim/exports/exports.py", "festim/exports/xdmf_export.py", "festim/exports/txt_export.py", "festim/generic_simulation.py"],
    [("is_export / is_it_time_to_export", "festim/exports/"), ("run_post_processing", "festim/generic_simulation.py")],
    ["writes to files with time stamps and values"],
)
prop(
    "C20", "The derived-quantity table matches its header, times and cadence",
    "The table of derived quantities has one row per requested computation time with the accepted time first and each value under its own title, in order, with units matching the field and the mesh dimension; the stored series of each quantity equal the columns. Selecting quantities by surface, volume, field or kind returns exactly the matching ones.",
    [I, C, H], "all lists of quantities, computation and export periods, step histories, filters",
    "tests check a few titles and one table",
    ["festim/exports/derived_quantities/*.py", "festim/exports/exports.py"],
    [("compute / write / make_header / filter", "festim/exports/derived_quantities/derived_quantities.py")],
    ["table written to csv and data attributes"],
)
prop(
    "C21", "Profile exports give the field at every mesh position, sorted, once",
    "A profile export contains every mesh vertex once in increasing order of position (twice at material interfaces when the field may jump there, or for every vertex when not filtered), with in each column the field at that position at the time written in the column header.",
    [I, C], "all nodal values, vertex positions, numbers of materials and requested times within the bounds",
    "tests check one mesh and one field",
    ["festim/exports/txt_export.py", "festim/exports/exports.py"],
    [("initialise / write", "festim/exports/txt_export.py")],
    ["table written to the text file"],
)
prop(
    "C22", "A field name always designates the same species everywhere",
    "Whatever spelling designates a species (number, digit string, name, user-defined trap number), exports, derived quantities, sources, initial and boundary conditions all act on the same species, total retention being the sum of mobile and all trapped hydrogen.",
    [I, C], "all numbers of traps, id assignments, spellings and solution fields",
    "tests use automatic numbering and few fields",
    ["festim/h_transport_problem.py", "festim/generic_simulation.py", "festim/concentration/traps/traps.py", "festim/exports/exports.py"],
    [("update_post_processing_solutions", "festim/h_transport_problem.py"), ("assign_traps_ids", "festim/concentration/traps/traps.py")],
    ["values in exports, residual rows, Dirichlet components"],
)
prop(
    "C23", "Initialising and running again reproduces the same model",
    "Initialising the same simulation object again and running it gives the same sequence of equations, steps, times and exports as the first run, with or without changed parameters taken into account, and a run does not modify the user's inputs in a way that changes a later run; simulations of different inputs do not affect one another, in whatever order they are created, filled in and run.",
    [I, C, H], "all parameters and step histories in the bounds; steady and transient, with traps, heat transfer, chemical potential, exports",
    "no test initialises and runs twice and compares",
    ["festim/generic_simulation.py", "festim/h_transport_problem.py", "festim/stepsize.py", "festim/exports/*.py", "festim/temperature/*.py"],
    [("initialise", "festim/generic_simulation.py"), ("initialise_value", "festim/stepsize.py")],
    ["residuals, times, exports of two runs"],
)
prop(
    "C90", "The discrete solution converges to the exact one under refinement",
    "Refining the mesh and the step makes the computed fields converge to the exact solution of the documented equations at the order of the elements and of backward Euler.",
    [I, C], "all smooth data", "tests sample a few manufactured solutions",
    ["festim/h_transport_problem.py"], [("dolfin assembly and Newton solve", "festim/h_transport_problem.py")],
    na="an asymptotic statement about dolfin's compiled assembly and linear algebra: the code that makes it true (FFC-generated kernels, PETSc) cannot be encoded within reach, and a bounded symbolic instance says nothing about a limit",
)
prop(
    "C91", "Results do not depend on the number of MPI processes",
    "Running the same model on several processes gives the same fields and derived quantities as on one.",
    [C, "schedules"], "all partitionings", "tests run serially",
    ["festim/exports/txt_export.py", "festim/exports/derived_quantities/*.py"], [("dolfin collective operations", "dolfin")],
    na="depends on dolfin/PETSc's distributed vectors and MPI, which are C++ outside this repository; no local stand-in of them would be a check of the real code",
)
prop(
    "C92", "Fields written to XDMF/HDF5 read back identically",
    "A field exported with checkpointing and read back as an initial condition or temperature is the same field.",
    [I], "all fields and labels", "one test round-trips one field",
    ["festim/exports/xdmf_export.py", "festim/helpers.py"], [("XDMFFile", "dolfin")],
    na="the round trip is performed entirely by dolfin's XDMF/HDF5 C++ code; FESTIM only passes label, time and append flag, which C19 and C14 decide",
)

TECH = "symbolic execution of the real Python code with z3 (SMT), counterexamples replayed on the real code"
NOTE = "Every obligation is decided by z3 over all real values on every feasible path of each listed configuration; configurations, sizes and steps are bounded (see DESIGN.md and the evidence), dolfin is a stand-in validated against the real dolfin by conformance runs in every check."


def main():
    claimed, na = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fo:
        for p in P:
            has = os.path.exists(os.path.join(HERE, "fv", "props", p["id"].lower() + ".py"))
            if not has and not p["na"]:
                continue
            assert len(p["title"]) <= 80, p["title"]
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            fo.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
            if p["na"]:
                na.append(dict(property=p["id"], reason=p["na"]))
            else:
                claimed.append(
                    dict(
                        property=p["id"],
                        quick_cmd="/opt/venv/bin/python check.py %s --tier quick" % p["id"],
                        thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % p["id"],
                        technique=TECH,
                        level=p["level"],
                        level_note=p["note"] or NOTE,
                    )
                )
    man = dict(version=1, setup_cmd="/opt/venv/bin/python -B -c 'import fv.sym, fv.fakefenics'", checks=claimed, not_applicable=na)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fo:
        json.dump(man, fo, indent=1)
        fo.write("\n")
    print(len(claimed), "claimed", len(na), "not applicable")


if __name__ == "__main__":
    main()
