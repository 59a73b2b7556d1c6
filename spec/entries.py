prop("P01", "Runge-Kutta schemes are consistent, convex and reach their declared order",
     "Every documented (stages, order) pair of the explicit time integrator combines earlier stages with non-negative weights that sum to one and meets every order condition up to the declared order. The physical time handed to each stage is the abscissa those weights imply. A pair outside the documented list never silently runs with a scheme of lower order.",
     ["configurations"], "all (number of stages, order) pairs a user may configure and every stage of each of them",
     "No unit test touches the coefficient tables; a convergence run exercises one pair and cannot see a wrong stage time when the forcing is steady.",
     [SRC + "simulation/stepper/explicit_ssp_rk_stepper.cpp", SRC + "simulation/stepper/explicit_ssp_rk_stepper.hpp"],
     [("coefficient tables and stage-time recurrence", SRC + "simulation/stepper/explicit_ssp_rk_stepper.cpp InitializeCoefficients")],
     ["time passed to every forcing and boundary condition", "state after one full step"],
     "constant propagation of the coefficient tables through the initialiser, then exact evaluation of the Butcher order conditions",
     "Every pair is evaluated; order conditions up to order 4 are checked with tolerance 2e-10 (the tables are printed to 15 digits). " + TRUST)

prop("P03", "Flux, its Jacobian and the eigen-splittings describe one conservation law",
     "The shallow-water flux in each direction, the normal flux, the flux Jacobian, its eigen-decomposition and its positive/negative/absolute parts are all derived from one and the same conservation law with one gravity constant. Every derivative routine used by the implicit solvers is the exact derivative of the routine it differentiates.",
     ["inputs"], "all wet states, bathymetries, directions, spherical factors and gravities",
     "The unit tests evaluate the Jacobians at a few sampled states; an error that vanishes there (zero velocity, axis-aligned normal, unit spherical factor) is invisible.",
     [SWE + "problem_flux/swe_flux.hpp", SWE + "problem_jacobian/swe_jacobian.hpp", SWE + "swe_definitions.hpp"],
     [("flux routines", SWE + "problem_flux/swe_flux.hpp"), ("Jacobians and eigen-splittings", SWE + "problem_jacobian/swe_jacobian.hpp")],
     ["values returned by the flux and Jacobian routines"], VG + ", formal differentiation",
     "Each matrix entry is compared as an algebraic term with the reference formula or the formal derivative. " + TRUST)

prop("P04", "Numerical flux is consistent, conservative and upwinds with the true wave speed",
     "The numerical flux equals the physical normal flux when both sides agree, is antisymmetric under exchange of the two sides with the normal reversed, and dissipates with the larger of the two sides' wave speeds scaled by the spherical projection factor. The stabilization parameter of the hybridized schemes is the wave speed of the trace state for the gravity it is given, and its supplied derivatives are its true derivatives.",
     ["inputs"], "all pairs of wet states, bathymetries, normals, projection factors and gravities",
     "Unit tests sample planar meshes only and never swap the two sides.",
     [SWE + "discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp", SWE + "problem_stabilization_parameters/swe_stab_param_LF.hpp"],
     [("local Lax-Friedrichs flux", SWE + "discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp"),
      ("stabilization parameter", SWE + "problem_stabilization_parameters/swe_stab_param_LF.hpp")],
     ["flux handed to edge kernels"], VG + ", substitution and formal differentiation",
     "Compared as algebraic terms against the definition. " + TRUST)

prop("P05", "What an element loses across an edge its neighbour gains",
     "On a planar mesh, the mass flux one element loses across an interior edge or a rank boundary is exactly what the element on the other side gains, at facing quadrature points and for every wet/dry combination; between wet elements the same holds for momentum, and a dry element is never drained. An overtopped levee presents one and the same weir discharge to both of its sides, and a levee above both water levels reflects. The flux enters each element's residual with that element's own quadrature weights and never anywhere else.",
     ["inputs", "configurations"], "all states, wet/dry combinations, edge orientations, numbers of quadrature points 1-4 and water levels relative to a levee crest",
     "No test evaluates both sides of an edge together, and wetting/drying and weir branches are never reached by the unit tests.",
     [SWE + "discretization_RKDG/interface_specializations/rkdg_swe_is_internal.hpp", SWE + "discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp",
      SWE + "discretization_EHDG/interface_specializations/ehdg_swe_is_internal.hpp",
      SWE + "discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed.hpp", SWE + "discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp",
      SWE + "discretization_EHDG/dist_boundary_conditions/ehdg_swe_dbc_distributed.hpp"],
     [("interface fluxes", SWE + "discretization_RKDG/interface_specializations"), ("rank-boundary fluxes", SWE + "discretization_RKDG/dist_boundary_conditions"),
      ("edge kernels", SWE + "discretization_RKDG/kernels_processor")],
     ["residual of the two elements of an edge", "messages between ranks"], VG + ", case enumeration over wet/dry flags and quadrature sizes",
     "Both sides compared point by point with one antisymmetric reference flux; the number of quadrature points is enumerated (3 quick, 1-4 thorough), everything else is symbolic. " + TRUST)

prop("P02", "Time advances by exactly one step per step and every stage runs once",
     "A run executes ceil(run time / step size) steps; each step runs every stage of the integrator exactly once and advances the clock once per stage, so time grows by one step size per step in every driver. Each stage state is the tabulated combination of the stored stages, and the forcing ramp follows the stage's own time. Split stepping runs a half step, a full step of the dispersive part and a half step, in that order.",
     ["programs", "schedules"], "all stages, steps and step sizes, in the serial and the distributed driver of every problem",
     "No unit test runs a time step of any driver; a wrong clock is invisible with steady forcing.",
     [SRC + "simulation/stepper/explicit_ssp_rk_stepper.hpp", SRC + "simulation/stepper/implicit_stepper.hpp", SRC + "simulation/stepper/second_strang_stepper.hpp",
      SRC + "simulation/serial/simulation.hpp", SRC + "simulation/ompi/simulation_ompi.hpp"],
     [("clock", SRC + "simulation/stepper/explicit_ssp_rk_stepper.cpp operator++"), ("stage combination", SRC + "simulation/stepper/explicit_ssp_rk_stepper.hpp UpdateState"),
      ("drivers", SRC + "simulation/ompi/simulation_ompi.hpp Run")],
     ["time used by forcing, boundary conditions and output"], "abstract evaluation of the steppers and structural analysis of the driver loops on the resolved call tree",
     "Stage counts enumerated up to 8, everything else symbolic. " + TRUST)

prop("P06", "An element's residual is the weak form of the shallow water equations",
     "The interior contribution to an element's residual is the flux tested against the gradients of the basis plus the sources tested against the basis, with the element's own quadrature weights, the current stage's state and nothing else. Water depth is surface elevation plus bathymetry; bottom slope and friction enter with their physical formulas. Dry elements are left untouched.",
     ["inputs"], "all element states, geometries, bathymetries and source options, for the explicit and hybridized schemes",
     "Unit tests use manufactured planar states and tolerance 1e-2.",
     [SWE + "discretization_RKDG/kernels_processor/rkdg_swe_proc_volume.hpp", SWE + "discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp",
      SWE + "discretization_EHDG/kernels_processor/ehdg_swe_proc_volume.hpp", SWE + "problem_source/swe_source.hpp"],
     [("volume kernels", SWE + "discretization_RKDG/kernels_processor/rkdg_swe_proc_volume.hpp"), ("source kernels", SWE + "problem_source/swe_source.hpp")],
     ["residual of an element"], VG, "Compared as algebraic terms with the reference residual. " + TRUST)

prop("P07", "Boundary conditions impose what the input prescribes, alike in every scheme",
     "Tidal elevation and river discharge are the ramped harmonic series of the input constituents, interpolated from the boundary nodes and evaluated at the time the scheme needs; a land boundary lets no water through. The explicit, the hybridized explicit and the implicit scheme all impose the same condition, and the implicit scheme's boundary equations carry the exact derivative of the residual they solve.",
     ["inputs", "configurations"], "all states, normals, constituents, node values, stages and ramps",
     "No unit test evaluates a tide, flow or land boundary with a time-dependent series, and none compares the schemes.",
     [SWE + "discretization_RKDG/boundary_conditions/rkdg_swe_bc_tide.hpp", SWE + "discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp",
      SWE + "discretization_EHDG/boundary_conditions/ehdg_swe_bc_flow.hpp", SWE + "discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp"],
     [("explicit boundary conditions", SWE + "discretization_RKDG/boundary_conditions"), ("hybridized boundary conditions", SWE + "discretization_EHDG/boundary_conditions"),
      ("implicit boundary conditions", SWE + "discretization_IHDG/boundary_conditions")],
     ["flux through the domain boundary", "boundary rows of the implicit system"], VG + ", formal differentiation, comparison of sibling implementations with one reference",
     "The number of quadrature points is fixed (3 quick, 4 thorough); constituents, nodes, states and times are symbolic. In the derivative of the implicit boundary residual the prescribed outside state is frozen, as the scheme defines it. " + TRUST)

prop("P09", "Exchanges between sub-domains are matched and used only once complete",
     "In every distributed driver each exchange posts its receives, fills every rank boundary's message, sends, and completes receives and sends exactly once per round, for the same sub-domains and under conditions all ranks share, so that no rank waits for a message nobody sends and no sub-domain waits before its siblings have sent. Messages are never refilled before their send completed, and received data are used by every rank boundary only between completion and the next posting.",
     ["schedules", "configurations"], "all meshes, partitions, numbers of threads and ranks, and run options, in every distributed driver of every problem",
     "The tests run no distributed driver at all; a missing wait or an overwritten buffer shows only under a particular arrival order.",
     [SRC + "communication/ompi_communicator.hpp", SRC + "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp",
      SRC + "problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp", SRC + "problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp"],
     [("exchange rounds of the drivers", SRC + "problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp"), ("communicator phases", SRC + "communication/ompi_communicator.hpp")],
     ["hang or wrong state of a distributed run"], "typestate analysis of every exchange over the driver's abstract schedule, with bottom-up effect summaries of all work routines",
     "Every communication phase and message access of each driver is placed in the order, loops and conditions in which the driver executes it; a loop body stands for all its iterations. " + TRUST)

prop("P11", "The distributed run does the serial run's work, in an equivalent order",
     "For every problem, preprocessing and each stage of the distributed run change the same quantities of elements, interfaces and boundaries as the serial run, equally often, under the same options and in an order that no data dependency can tell apart. In both, whatever the edges of an element add up is cleared before and used only after all edges have added, and no stage uses a value before it was computed.",
     ["schedules", "configurations"], "all meshes, partitions and run options, in the serial and the distributed driver of every problem",
     "No test runs a distributed driver, and none compares the two; a kernel called in the wrong place changes the answer without failing.",
     [SWE + "discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp", SWE + "discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp",
      SWE + "discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp", SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp",
      GN + "discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_step.hpp"],
     [("distributed stages", SWE + "discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp"), ("serial stages", SWE + "discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp")],
     ["solution of a distributed run compared with the serial one"], "bottom-up effect analysis of all work routines, comparison of dependence-normal forms of the two drivers' schedules",
     "Effects are tracked per field and entity family; edges of different families are taken to touch disjoint slots. Integer numbering used to assemble the global matrix is outside the comparison. " + TRUST)

prop("P12", "Threads share no unprotected state and divide the sub-domains exactly",
     "The threads of a rank work on disjoint ranges that together cover all sub-domains of the rank. State shared by the threads - the clock, the global solver and its vectors, global options - is changed by one thread only, with the whole team waiting before and after. Barriers and collective operations are reached by every thread and every rank alike.",
     ["schedules"], "all numbers of threads, sub-domains and ranks and all interleavings, in every distributed driver",
     "No test starts more than one thread; a race or a missing barrier shows only under particular timing.",
     [SRC + "simulation/ompi/simulation_ompi.hpp", SWE + "discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp",
      SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_sol_glob_prob.hpp", GN + "discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp"],
     [("division of sub-domains", SRC + "simulation/ompi/simulation_ompi.hpp Run"), ("one-thread sections", SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_sol_glob_prob.hpp")],
     ["races, hangs and wrong clocks of a threaded run"], "may-happen-in-parallel analysis between barriers over the driver's abstract schedule, with effect summaries",
     "Calls of the solver library are taken to depend on all work. The division formula is evaluated for up to 9 threads and 24 sub-domains. " + TRUST)

prop("P13", "An undefined value in the solution stops the run in the same stage",
     "Every stage of every shallow-water scheme, serial and distributed, examines all elements after its last change to the solution and under no condition. The run is ended exactly when some coefficient of some component of the current state is undefined.",
     ["inputs", "configurations"], "all states, elements and run options, in the serial and the distributed driver of every scheme",
     "No test produces an undefined value.",
     [SWE + "problem_postprocessor/swe_post_scrutinize.hpp", SWE + "discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp"],
     [("examination", SWE + "problem_postprocessor/swe_post_scrutinize.hpp scrutinize_solution"), ("call in each stage", SWE + "discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp")],
     ["termination of the run"], "effect analysis of the stage schedule and case enumeration on the extracted result of the examination",
     "The dispersive correction of the Boussinesq solver is examined by the shallow-water stage that follows it. " + TRUST)

prop("P08", "A sub-domain reads from a message what its neighbour computed at that place",
     "Whatever a side of a rank boundary computes from a received message equals what it would compute from the neighbouring element's own values at the facing quadrature point of their common edge: states, bottom, means, centres, dispersive derivatives and the numbers of shared unknowns. The value a side keeps for a later average is its own trace. Every message fits the part of the buffer reserved for its edge and exchange, and these parts do not overlap.",
     ["inputs", "configurations"], "all states, element shapes and orders, wet and dry neighbours, and every exchange of every distributed driver",
     "No test runs a distributed driver; a reordered entry or an edge read in the wrong direction still yields plausible numbers.",
     [SWE + "discretization_RKDG/kernels_processor/rkdg_swe_proc_dbound.hpp", SWE + "discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed.hpp",
      SWE + "discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_init_global_prob.hpp", SWE + "problem_slope_limiter/swe_CS_sl_ompi.hpp",
      GN + "discretization_EHDG/kernels_preprocessor/grad_methods/projection_dbath_ompi.hpp"],
     [("writer of the state message", SWE + "discretization_RKDG/kernels_processor/rkdg_swe_proc_dbound.hpp"), ("reader of the state message", SWE + "discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed.hpp"),
      ("buffer parts", SWE + "discretization_RKDG/rkdg_swe_problem.hpp comm_buffer_offsets")],
     ["solution along rank boundaries compared with the serial run"], "abstract evaluation of each sending routine, whose symbolic message is then handed to the abstract evaluation of the receiving routine of the same exchange; the results are compared with the neighbour's terms",
     "Writers and readers are paired by the driver's abstract schedule. Quadrature points per edge: 3 (quick) and 1 to 4 (thorough). For a dry neighbour only what the receiver may use is compared. " + TRUST)

prop("P10", "Every message reaches the neighbour and the exchange it is meant for",
     "Each message between two sub-domains is sent with the rank and the tag under which the neighbour receives it, different pairs of sub-domains of two ranks never share a tag, and the messages of different exchanges are received in the order they are sent. Buffers have their final size before requests are bound to them, the requests cover the whole buffer and each phase starts or completes all requests of its kind. Sub-domains without neighbours and ranks without sub-domains take part in every run.",
     ["schedules", "configurations"], "all partitions with fewer than 256 sub-domains per rank, all numbers of ranks and threads",
     "The tests build no communicator; a wrong tag or peer hangs a run or mixes sub-domains only for particular partitions.",
     [SRC + "communication/ompi_communicator.hpp", SRC + "communication/ompi_communicator.cpp", SRC + "communication/db_data_exchanger.hpp",
      SRC + "preprocessor/mesh_metadata.hpp", SRC + "dgswemv2-ompi.cpp"],
     [("requests", SRC + "communication/ompi_communicator.cpp"), ("boundary lists", SRC + "preprocessor/mesh_metadata.hpp")],
     ["hang of a distributed run", "messages delivered to the wrong sub-domain"], "abstract evaluation of the communicator with symbolic peers, tag injectivity over the extracted tag terms, effect analysis of buffer growth against request binding in every driver",
     "The message library is trusted to deliver by rank, tag and order. " + TRUST)

prop("P15", "Wetting and drying keeps the water and leaves no corner too shallow",
     "With wetting and drying on, every stage corrects every element after its last update: the mean depth is kept, or raised to the minimum depth where it was below, no corner is left below the minimum depth unless the mean is, a fully wet element is not changed, and a dry element carries no momentum. An element is wet exactly if its highest corner would flood its lowest bottom and some corner is wet. At the start elements with a dry corner are dry and at rest.",
     ["inputs", "configurations"], "all element states and bottoms, by the order and thresholds of the corner depths, in every scheme that offers wetting and drying, serial and distributed",
     "No test runs wetting and drying; the correction has a dozen branches, chosen by the order of the depths.",
     [SWE + "problem_postprocessor/swe_post_wet_dry.hpp", SWE + "problem_preprocessor/swe_pre_init_data.hpp", SWE + "discretization_RKDG/kernels_processor/rkdg_swe_proc_serial_step.hpp"],
     [("correction", SWE + "problem_postprocessor/swe_post_wet_dry.hpp wetting_drying_kernel"), ("initial flag", SWE + "problem_preprocessor/swe_pre_init_data.hpp")],
     ["water mass of an element before and after a stage", "depths at the corners"], "path-partitioned abstract evaluation: one region per arrangement of the corner depths, values symbolic on each region, compared with the rule; schedule analysis of every stage driver",
     "Branch conditions are settled by one witness per arrangement of the three depths around the thresholds (quick: a third of the arrangements). The projections between coefficients and corner values are taken as inverse to each other. " + TRUST)

prop("P16", "Slope limiting keeps the mean of every cell and limits as prescribed",
     "With slope limiting on, every stage limits every wet cell without dry neighbours exactly once, after the last update of its state. The mean of each conserved quantity is unchanged, smooth cells keep all their coefficients, and a limited cell gets the characteristic minmod reconstruction from its neighbours' means. Neighbour data, weights, distances and the inflow-jump indicator of troubled cells are alike on both sides of an edge and across ranks.",
     ["inputs", "configurations"], "all states, meshes and partitions, in every scheme, serial and distributed",
     "No test switches the limiter on; a wrong neighbour, sign or weight still yields a bounded solution.",
     [SWE + "problem_slope_limiter/swe_CS_slope_limiter.hpp", SWE + "problem_slope_limiter/swe_trouble_check.hpp", SWE + "problem_slope_limiter/swe_CS_sl_ompi.hpp",
      SWE + "problem_slope_limiter/swe_CS_sl_serial.hpp", SWE + "problem_preprocessor/swe_pre_init_data.hpp"],
     [("limiter", SWE + "problem_slope_limiter/swe_CS_slope_limiter.hpp slope_limiting_kernel"), ("indicator", SWE + "problem_slope_limiter/swe_trouble_check.hpp check_trouble"),
      ("weights and directions", SWE + "problem_preprocessor/swe_pre_init_data.hpp")],
     ["mean and corner values of a cell before and after a stage", "troubled cells of a run"], "path-partitioned abstract evaluation of the limiter against the published reconstruction; symbolic comparison of geometry, neighbour data and indicator with their definitions; schedule analysis of every stage driver",
     "Branches of the limiter are settled by witnesses (14 quick, 80 thorough); the eigenvector pair is replaced by a fixed invertible pair (its inverse property is P03). " + TRUST)

prop("P14", "Quadrature rules and bases are exact to the degree they are asked for",
     "A quadrature rule asked for degree p integrates every polynomial of degree p exactly over its segment or triangle, and a degree no rule reaches is refused. The basis of order p is orthogonal on the reference element with the mass matrix it states, its derivatives and edge values are those of the same functions, and the vertex and linear-projection tables agree with it.",
     ["configurations", "inputs"], "all degrees of the segment and triangle rules, basis orders up to 5 (8 thorough), every point of the reference element incl. its singular corner",
     "Unit tests integrate a few monomials with tolerance 1e-10 and never evaluate a basis at the singular corner.",
     [SRC + "integration/integrations_1D/integration_gausslegendre_1D.cpp", SRC + "integration/integrations_2D/integration_dunavant_2D.cpp", SRC + "basis/bases_2D/basis_dubiner_2D.cpp",
      SRC + "basis/bases_1D/basis_legendre_1D.cpp", SRC + "basis/polynomials/basis_polynomials.cpp"],
     [("segment rules", SRC + "integration/integrations_1D/integration_gausslegendre_1D.cpp"), ("triangle rules", SRC + "integration/integrations_2D/integration_dunavant_2D.cpp"),
      ("triangle basis", SRC + "basis/bases_2D/basis_dubiner_2D.cpp"), ("edge basis", SRC + "basis/bases_1D/basis_legendre_1D.cpp")],
     ["integrals of polynomials", "basis values and mass matrices"], "constant propagation of every rule table and basis polynomial through the initialisers, then exact rational evaluation of moments, orthogonality and derivatives",
     "Segment rules to degree 65, triangle rules to degree 20, tolerance 1e-12 times the number of points (the tables are printed to 15-20 digits). " + TRUST)

prop("P17", "What the input file asks for is what is simulated",
     "Every entry of an input file reaches the setting it is meant for, an entry that is left out has its default, and the settings become the switches and constants of the computation; output intervals are rounded up to whole steps. A file that lacks a required entry or names an unknown format, coordinate system or problem is refused, and an incomplete optional section leaves its feature off and everything else as asked. An input file that is written back means the same when it is read again, a sub-domain reads the files cut for it, and each boundary node gets the tide, flow or levee data given for it.",
     ["inputs", "configurations"], "all values of the entries, which optional sections are present or incomplete, and all boundary data",
     "The tests read and rewrite one complete file; a swapped entry, a lost section or a default that leaks in is silent.",
     [SRC + "preprocessor/input_parameters.hpp", SWE + "problem_input/swe_inputs.cpp", SWE + "problem_preprocessor/swe_pre_init_prob_params.hpp", GN + "discretization_EHDG/ehdg_gn_problem.hpp"],
     [("reading and writing", SRC + "preprocessor/input_parameters.hpp"), ("physical settings and boundary data", SWE + "problem_input/swe_inputs.cpp"),
      ("switches", SWE + "problem_preprocessor/swe_pre_init_prob_params.hpp")],
     ["settings after reading", "exceptions", "rewritten input file", "boundary data per node"], "abstract evaluation of the reader on documents with symbolic values against a model of the YAML library; each setting is compared with the entry, and the document written is compared and read again",
     "Names and words are samples, all numbers symbolic; the model of the YAML library, of strings and of calendar times is trusted. " + TRUST)

prop("P18", "Every side of every cell gets exactly one edge, of its kind, with its own data",
     "When a mesh is set up, each side of each cell becomes part of exactly one interface, boundary or rank boundary of its kind, joining the right cells, sides, orientation and polynomial degree, and each edge of the trace mesh belongs to one of these. Tide, flow and levee data reach the edge node by node in its own node order, and each rank boundary gets its own disjoint place in the message buffers, in the order both ranks agree on. A mesh whose sides or data do not match up is refused, and a loop over the edges of a kind visits each of them once.",
     ["inputs", "configurations"], "all meshes and cuts made of the edge kinds, decided on a mesh holding every kind and combination of neighbours on one cell",
     "The tests set up two meshes with land or tide boundaries and never check which edge a side became; levees and rank boundaries of every kind are not run.",
     [SRC + "preprocessor/initialize_mesh.hpp", SWE + "problem_preprocessor/swe_pre_create_intface.hpp", SWE + "problem_preprocessor/swe_pre_create_bound.hpp",
      SWE + "problem_preprocessor/swe_pre_create_dbound.hpp", SWE + "problem_preprocessor/swe_pre_create_edge_dbound.hpp", SRC + "geometry/mesh.hpp", SRC + "geometry/element.hpp"],
     [("mesh set-up", SRC + "preprocessor/initialize_mesh.hpp"), ("interfaces", SWE + "problem_preprocessor/swe_pre_create_intface.hpp"), ("boundaries", SWE + "problem_preprocessor/swe_pre_create_bound.hpp"),
      ("rank boundaries", SWE + "problem_preprocessor/swe_pre_create_dbound.hpp"), ("containers", SRC + "geometry/mesh.hpp")],
     ["interfaces, boundaries and rank boundaries of a mesh", "data of boundary nodes", "message buffers"], "abstract evaluation of the set-up on symbolic mesh data with every kind of side, containers modelled with known keys; the created edges are compared one by one with the sides of the mesh",
     "One mesh holding all kinds stands for all meshes. " + TRUST)

prop("P19", "Meshes keep their meaning from the ADCIRC file to the rank's sub-domain",
     "An ADCIRC mesh becomes cells that keep their nodes, counterclockwise, whose sides are linked to the cell sharing both nodes (or lying behind the levee) or carry the kind of the boundary they lie on; an edge that is neither is refused. Every mesh and boundary file that is written is read back into the same values, whatever names, numbers and boundary kinds it holds. The rank boundary files of a cut mesh list every edge between two sub-domains once, with the right cells, sides and degree, in the same order for both sides.",
     ["inputs", "configurations"], "all meshes, boundary kinds and cuts, decided on small meshes with symbolic coordinates and numbers, every orientation and every position of an edge",
     "The tests read two small meshes without islands, levees or clockwise cells; the partitioner is not built by them, and no written file is compared.",
     [SRC + "preprocessor/mesh_metadata.cpp", SRC + "preprocessor/mesh_metadata.hpp", SRC + "preprocessor/ADCIRC_reader/adcirc_format.cpp",
      SRC + "preprocessor/ADCIRC_reader/adcirc_format.hpp", "partitioner/write_distributed_interfaces.cpp"],
     [("mesh from ADCIRC", SRC + "preprocessor/mesh_metadata.cpp"), ("ADCIRC boundaries", SRC + "preprocessor/ADCIRC_reader/adcirc_format.cpp"), ("rank boundary files", "partitioner/write_distributed_interfaces.cpp")],
     ["mesh files", "rank boundary files", "kinds and neighbours of a cell's sides"], "writers and readers evaluated abstractly to the sequence of values they put on or take from the stream, matched item by item; links and kinds evaluated on small symbolic meshes against the definition",
     "Meshes of one to eight cells stand for all. Coordinates are read back to the written 15 digits or more. " + TRUST)

prop("P20", "The output files say what the state is, at the steps asked for",
     "Every array of a VTK or VTU file holds the variable it is named after, evaluated at the centroid or corner of the cell it stands for; the file is well formed, its grid is the mesh of the sub-domain, and the modal files list every coefficient of the variable with its cell and time. Each kind of output is written before the first step and then at the end of exactly those steps its own interval asks for, with the final state of the step. Earlier output is never overwritten by a later step or by another sub-domain.",
     ["inputs", "configurations", "histories"], "all states, meshes, numbers of sub-domains, intervals and combinations of output kinds",
     "No test reads an output file; a swapped variable, a wrong corner or a lost record goes unnoticed.",
     [SRC + "simulation/writer.hpp", SWE + "problem_postprocessor/swe_post_write_vtk.hpp", SWE + "problem_postprocessor/swe_post_write_vtu.hpp",
      SWE + "problem_postprocessor/swe_post_write_modal.hpp", SRC + "geometry/element.hpp", SRC + "shape/shapes_2D/shape_straighttriangle.cpp"],
     [("schedule and files", SRC + "simulation/writer.hpp"), ("values", SWE + "problem_postprocessor/swe_post_write_vtu.hpp"), ("coefficients", SWE + "problem_postprocessor/swe_post_write_modal.hpp"),
      ("grid", SRC + "shape/shapes_2D/shape_straighttriangle.cpp")],
     ["*_data_<step>.vtk, *_data_<step>.vtu, *_modal_*.txt", "output folders"], "abstract evaluation of the writer to the text of its files with symbolic values in place; the text is parsed as the file format defines it and every value compared with the term it must be",
     "Decided on two cells with two coefficients each and symbolic states; the number of digits written is not judged. " + TRUST)

prop("P21", "The geometry of a triangle is consistent: maps, areas, edges and normals",
     "For every triangle the map to physical coordinates sends the reference corners to its corners, its Jacobian, inverse and determinant are the derivative of that map, and its area and edge lengths follow. Each edge is traversed by the same segment everywhere it is used, from one of its ends to the other counterclockwise, with the unit normal pointing out. Point location accepts exactly the points inside or on the triangle, whatever order its corners were given in.",
     ["inputs"], "all non-degenerate triangles and points",
     "The unit tests use one right-angled triangle, for which transposed or swapped terms coincide.",
     [SRC + "shape/shapes_2D/shape_straighttriangle.cpp", SRC + "master/elements_2D/master_triangle.tpp"],
     [("triangle", SRC + "shape/shapes_2D/shape_straighttriangle.cpp"), ("edge parametrisation", SRC + "master/elements_2D/master_triangle.tpp")],
     ["coordinates of quadrature points", "normals", "elements found for survey points"], VG + " in the corner coordinates",
     "Compared as terms in symbolic corners, or on four sample triangles where the forms differ. " + TRUST)

prop("P22", "An implicit step solves the theta-scheme: exact residual, exact derivative",
     "The residual the implicit solver drives to zero is that of the declared theta-scheme for the shallow water equations and for the flux balance over each edge. Every block of the Newton system is the exact derivative of its residual with respect to its unknowns, also where the water is at rest, so a converged step solves the scheme. The part that belongs to the old time level is evaluated once, at the old state and time, and the first guess is the old state.",
     ["inputs", "configurations"], "all states, meshes, boundary kinds and thetas",
     "The tests run the implicit solver on one smooth case and compare an error norm; a wrong block only slows the iteration or shifts the answer slightly.",
     [SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_volume.hpp", SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp",
      SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_intface.hpp", SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_edge_intface.hpp",
      SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_init_iter.hpp"],
     [("cell kernels", SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_volume.hpp"), ("edge kernels", SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_edge_intface.hpp"),
      ("old time level", SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_init_iter.hpp")],
     ["Newton iterations", "states after an implicit step"], "abstract evaluation of the kernels with symbolic states; the blocks are compared with the symbolic derivatives of the residual found, the residual with the theta-scheme",
     "Quadrature is kept abstract (its tables are P25); specified inputs at a boundary count as constants. " + TRUST)

prop("P23", "The global trace system is the exact elimination of the cell unknowns",
     "Every trace unknown of the whole mesh has exactly one number, the same on both sides of every edge and rank boundary, and only traces next to a wet cell are numbered where cells can dry. The system handed to the linear solver is, entry by entry, the Schur complement of the cell blocks of the elements meeting at each trace, its right side their eliminated residual, and its solution is put back into exactly the traces and cells it belongs to. The implicit iteration ends exactly when the whole increment, over all ranks, is negligible (relative to 1e-8).",
     ["inputs", "configurations", "schedules"], "all meshes made of the edge kinds, cut into sub-domains and ranks (also empty ones), wet and dry cells",
     "The serial tests solve one mesh without dry cells; rank boundaries, the parallel assembly, empty ranks and renumbering after a cell dries are not run.",
     [SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_serial_sol_glob_prob.hpp", SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_sol_glob_prob.hpp",
      GN + "discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp", GN + "discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp",
      SWE + "discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_ompi.hpp", GN + "discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp"],
     [("implicit scheme", SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_sol_glob_prob.hpp"), ("dispersive correction", GN + "discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp"),
      ("numbering", SWE + "discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_ompi.hpp")],
     ["solution of the global system", "states after an implicit step or dispersive correction"], "abstract evaluation of the numbering, assembly and back-substitution on small symbolic meshes, PETSc, MPI and the traversals replaced by their specification; each entry is compared with the elimination",
     "The linear solver is trusted to solve the system it is handed. Meshes of two to four cells stand for all: the code treats each edge alike. " + TRUST)

prop("P25", "Integration, interpolation and projection use the element's own tables",
     "For every element, side of an edge and trace unknown, the quadrature points lie where they belong and face the neighbour's points in opposite order, the weights integrate every product of two basis functions exactly, and each table of basis values, derivatives and weighted products belongs to that triangle, that side and those points. The inverse mass matrices invert exactly those integrals. Every interpolation, differentiation, projection and integration routine applies the table it is named after.",
     ["inputs", "configurations"], "all triangles, all pairs of sides, trace directions, basis orders 1-2 (to 4 thorough) and arguments",
     "The unit tests use one triangle and check integrals of constants and low monomials; mixed tables, outer sides and clockwise traces are not evaluated.",
     [SRC + "geometry/element.hpp", SRC + "geometry/interface.hpp", SRC + "geometry/boundary.hpp", SRC + "geometry/edge_interface.hpp", SRC + "geometry/edge_boundary.hpp",
      SRC + "master/elements_2D/master_triangle.tpp"],
     [("element tables", SRC + "geometry/element.hpp Initialize"), ("edge tables", SRC + "geometry/interface.hpp"), ("trace tables", SRC + "geometry/edge_interface.hpp")],
     ["integrals, projections and interpolated values"], "abstract evaluation of the constructors with symbolic corners and the routines with symbolic arguments, virtual calls resolved to the triangle; each table entry is compared with its definition on sample triangles",
     "Entries are terms in the corner coordinates; they are compared on two triangles of different shape and size. " + TRUST)

prop("P24", "A run starts from the data it was given and is driven by its records",
     "Before the first step every cell, edge and rank boundary holds the bottom, its slope, the projection factor, the friction and rotation factors and the initial condition of its own place, from the mesh and files given; a mesh in longitude and latitude is projected with the radius and reference given. Wind and pressure are interpolated in time between the two records around the stage, for every integrator. The data are read, projected and built once each, before what needs them, and every forcing that is switched on acts on the momentum.",
     ["inputs", "configurations", "histories"], "all triangles, node files, initial conditions, record intervals of 1-3 steps, and the stages of every kind of integrator",
     "The tests start from constant or analytic states on a flat frictionless bed in Cartesian coordinates without forcing records.",
     [SWE + "problem_preprocessor/swe_pre_init_data.hpp", SWE + "problem_preprocessor/swe_pre_preprocess_mesh.hpp", SWE + "problem_parser/swe_parser.hpp", SWE + "problem_source/swe_source.hpp",
      SRC + "simulation/serial/simulation.hpp", SRC + "simulation/ompi/sim_unit_ompi.hpp"],
     [("start", SWE + "problem_preprocessor/swe_pre_init_data.hpp"), ("records", SWE + "problem_parser/swe_parser.hpp"), ("order", SRC + "simulation/ompi/sim_unit_ompi.hpp")],
     ["state and bottom of the first output", "forcing at every stage"], "abstract evaluation of the start over one entity of each kind with symbolic data, and of the record reader over the stages of a run; results are compared as terms with their definitions",
     "One entity of each kind stands for all: the traversal is P18's. Parsed numbers are exact. " + TRUST)

prop("P26", "The error a run reports is the L2 distance from the reference solution",
     "The contribution of a cell is the integral over that cell of the squared difference between its current state and the reference solution at the current time and place, summed over all variables. The run adds up every cell of every sub-domain of every rank and reports the square root of the sum exactly once.",
     ["inputs", "configurations"], "all states, cells, numbers of sub-domains and ranks",
     "The tests compare one reported error with a tolerance, so a missing variable, cell or rank only lowers it.",
     [SRC + "geometry/element.hpp", SWE + "problem_postprocessor/swe_post_comp_res_l2.hpp", SRC + "simulation/serial/simulation.hpp", SRC + "simulation/ompi/simulation_ompi.hpp"],
     [("cell", SRC + "geometry/element.hpp ComputeResidualL2"), ("sum", SRC + "simulation/ompi/simulation_ompi.hpp ComputeL2Residual")],
     ["the reported error"], "abstract evaluation of the cell's contribution with a symbolic quadrature rule and reference, and of the sum over two sub-domains of two cells and two ranks",
     "The quadrature rule is P14's, the map to physical coordinates P21's. " + TRUST)

prop("P27", "The dispersive correction solves the discrete Green-Naghdi equations",
     "For every state, bottom and mesh, each entry of a cell's and an edge's blocks is that of the hybridized weak form of the dispersive operator with the declared parameter, the right side is the dispersive source of the depth, velocities and bottom with their derivatives, and traces balance the dispersive fluxes of both sides, or let none through walls and dry neighbours. Both sides of an edge use facing points, their own normal and one trace depth. Only wet, dispersive, untroubled cells are corrected, by gravity's share minus the solution.",
     ["inputs"], "all states, derivatives, bottoms, basis values, weights, normals, wet/dry combinations and boundary kinds except levees, on serial and MPI",
     "No unit test evaluates the dispersive kernels; an example run with one direction, a flat bottom and a tolerance on the error shows neither the terms in the bottom, the other direction nor walls.",
     [GN + "discretization_EHDG/kernels_processor/ehdg_gn_proc_volume.hpp", GN + "discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp", GN + "discretization_EHDG/kernels_processor/ehdg_gn_proc_edge_intface.hpp",
      GN + "discretization_EHDG/kernels_processor/ehdg_gn_proc_edge_bound.hpp", GN + "discretization_EHDG/kernels_processor/ehdg_gn_proc_edge_dbound.hpp"],
     [("cell", GN + "discretization_EHDG/kernels_processor/ehdg_gn_proc_volume.hpp"), ("source", GN + "discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp"),
      ("edges", GN + "discretization_EHDG/kernels_processor/ehdg_gn_proc_edge_intface.hpp")],
     ["dispersive momentum after each step"], "abstract evaluation of the kernels over cells and edges with symbolic bases, weights, states and derivatives; each entry is compared as a polynomial with the weak form",
     "Two basis functions and two points per entity stand for all: the kernels treat each alike. Derivatives of the state are inputs here. " + TRUST)

NA = "Not decided: "
prop("P90", "The error falls with the declared order when mesh or step are refined",
     "For a smooth solution the error of a run falls with the polynomial degree plus one in the cell size and with the declared order of the integrator in the step size.",
     ["inputs"], "all smooth solutions and mesh sequences", "The tests run single meshes with a tolerance.",
     [SRC + "geometry/element.hpp"], [("error", SRC + "geometry/element.hpp ComputeResidualL2")], ["reported errors"],
     na="An asymptotic statement about floating-point solutions: it needs stability and approximation theory, or runs. Its static ingredients are claimed: order conditions (P01), quadrature and bases (P14), weak form (P06), tables (P25), reported error (P26).")
prop("P91", "A lake at rest over any bottom stays at rest",
     "If the surface is level and nothing moves, the state stays so to round-off over any bottom, for wet, dry and mixed cells.",
     ["inputs", "histories"], "all bottoms and shore lines", "No test has a sloping bottom.",
     [SWE + "problem_flux/swe_flux.hpp"], [("pressure and bed slope", SWE + "problem_source/swe_source.hpp")], ["states"],
     na="Exact balance depends on the quadrature integrating a product of projected bottom and surface over sloping cells and on cancellation in floating point; the algebraic parts (pressure flux, bed slope, facing points, wet/dry treatment) are P03, P06, P08, P15.")
prop("P92", "A distributed run gives the serial results to round-off at every step",
     "Whatever the partition, numbers of ranks and of threads, every cell has the serial run's state up to round-off at every step.",
     ["configurations", "schedules", "histories"], "all partitions", "Two small partitions are run and only a norm is compared.",
     [SRC + "simulation/ompi/simulation_ompi.hpp"], [("drivers", SRC + "simulation/ompi/simulation_ompi.hpp")], ["states"],
     na="Round-off growth over a run is not bounded by a static argument in reach, and limiters and wetting are discontinuous in it; the exact-arithmetic parts are claimed: same work in an equivalent order (P11), messages (P08, P10), exchanges (P09), threads (P12), global system (P23).")
prop("P93", "The nonlinear and linear solvers converge",
     "The Newton iteration of an implicit step and the solution of the global system converge for every admissible state.",
     ["inputs", "histories"], "all admissible states", "One smooth case is run.",
     [SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_serial_step.hpp"], [("iteration", SWE + "discretization_IHDG/kernels_processor/ihdg_swe_proc_serial_step.hpp")], ["iteration counts"],
     na="Convergence depends on the states met at run time and on the external solver; claimed instead: exact derivative (P22), exact system and stopping rule (P23).")
prop("P94", "Partitions are balanced and connected by few edges",
     "The partitioner divides the work of the mesh evenly over ranks and sub-domains and keeps the cut small.",
     ["inputs"], "all meshes", "No test looks at balance.",
     ["partitioner/partition.cpp"], [("partition", "partitioner/partition.cpp")], ["sizes of sub-domains"],
     na="The quality is decided by METIS, which is not here, so the partitioner is not part of the build; that the files it writes describe the mesh is P19.")
