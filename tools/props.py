prop("C01", "The mesh generator creates exactly the described grids",
     "For every description of a grid (2D or 3D, every element type, blocks, clusters, domains, elements, start, lengths, projection, switched-off blocks), of a set of grids or of a tower of grids (free or glued in any direction), the generated mesh consists of the described cells: its nodes are the (projected) points of the regular grid, each once; the elements of the selected type fill every cell of a switched-on block exactly once, positively oriented and conforming over cells, domains and clusters, midside nodes are in the middle. "
     "Node regions hold exactly the mesh nodes in their interval (open and closed bounds), edge, face and element regions exactly the entities in it, chessboard regions the cells of their colour. Every cluster is one MPI process and, with the uniform decomposition, every described domain is one domain; other decompositions and the number of threads do not change the mesh.",
     ["inputs", "configurations"], "descriptions of grids x element types x regions x decompositions x threads",
     "The tests use a few grids, all with closed intervals over complete sides, and compare statistics of solutions: a wrong corner node, a gap or a wrong switched-off block stays hidden.",
     ["src/input/parsers/meshgenerator", "src/input/builders/generatedinput.cpp", "src/mesh/preprocessing"],
     [("geometry of clusters", "src/input/parsers/meshgenerator/composition"), ("intervals", "src/input/parsers/meshgenerator/primitives/block.cpp, src/input/parsers/meshgenerator/selection"), ("element types", "src/input/parsers/meshgenerator/elements"), ("linking of clusters", "src/input/builders/generatedinput.cpp")],
     ["EnSight Gold file written by mesio for the generated mesh", "printed statistics"],
     "Reference model: the stored mesh is mapped to the lattice of the description (a quarter of a cell) in exact integers and compared with it. Up to 1500 cells and 6 ranks. Excluded as not implemented: edges of 3D grids (silently empty), 3D intervals of nodes, points. Face, edge and element intervals are aligned to cells.")
prop("C02", "EnSight Gold databases are imported exactly",
     "For every valid EnSight Gold geometry (ASCII or C binary, any id mode, any order and numbering of part nodes) the loaded database has exactly the nodes, elements and named regions of the file: every coordinate, every element with its type and node order, every element, boundary and node region with exactly its members. "
     "Nothing is lost, duplicated, merged or invented, and the result does not depend on the number of MPI ranks, threads, loader, stripe size or decomposer.",
     ["inputs", "configurations"], "all valid EnSight geometries (element types, quadratic, multi-body, regions) x ranks x threads x loaders x stripe sizes x decomposers",
     "The existing tests only use the internal mesh generator: no external database is read, and never with a varying number of ranks and stripes.",
     ["src/input/parsers/ensight", "src/input/builders", "src/mesh/preprocessing", "src/output/visualization/ensightgold.cpp"],
     [("distributed parsing and clusterization", "src/input/parsers/ensight/*, src/input/builders/*"), ("linking of elements, faces and regions", "src/mesh/preprocessing/*")],
     ["EnSight Gold file written by mesio for the loaded mesh", "region statistics printed by mesio"],
     "Round trip: a generated mesh is written as EnSight, converted by mesio with random run settings, and the stored database is compared, entity by entity, with the generated mesh. Bounded by mesh size (a few thousand elements) and 1-5 ranks.")
prop("C03", "VTK legacy databases are imported exactly",
     "For every valid set of VTK legacy files (unstructured grids, one file per region or one multi-cell file, any layout of white space allowed by the format) the loaded database has exactly the nodes, elements and regions described by the files, with shared nodes merged and nothing lost or duplicated. "
     "The result does not depend on the number of MPI ranks, threads, loader, stripe size or decomposer.",
     ["inputs", "configurations"], "all valid VTK legacy sets (element types, regions, formatting) x ranks x threads x loaders x stripe sizes",
     "No existing test reads a VTK file.",
     ["src/input/parsers/vtklegacy", "src/input/builders", "src/mesh/preprocessing"],
     [("distributed parsing of ASCII sections", "src/input/parsers/vtklegacy/*, src/basis/io/*"), ("merging of duplicate nodes and linking of faces", "src/input/builders/*")],
     ["EnSight Gold file written by mesio for the loaded mesh", "region statistics printed by mesio"],
     "As C02, with VTK legacy files.")
prop("C04", "ANSYS CDB databases are imported exactly",
     "For every valid ANSYS CDB file of solid elements (any supported element types, also degenerated ones and with elements to be ignored, any widths of fields and line ends, node and element numbers in any order and with gaps, several blocks, components given by lists and ranges, selections by element type or material) the loaded database has exactly the nodes, elements and regions described by the file. "
     "The result does not depend on the number of MPI ranks, threads, loader, stripe size or decomposer.",
     ["inputs", "configurations"], "all valid CDB files of the supported commands x ranks x threads x loaders x stripe sizes",
     "No existing test reads a CDB file; what happens depends on where ranks and threads split the file, on numbering and on combinations of blocks.",
     ["src/input/parsers/ansyscdb", "src/input/builders", "src/mesh/preprocessing"],
     [("distributed scanning and parsing of blocks", "src/input/parsers/ansyscdb/parser/*"), ("building of the mesh from IDs", "src/input/builders/sequentialinput.cpp, src/input/builders/scatteredinput.cpp")],
     ["EnSight Gold file written by mesio for the loaded mesh", "region statistics printed by mesio"],
     "As C02, with CDB files. Selections and components of nodes by NSEL and geometry based selections are not implemented by the reader and not generated; regions of contact elements are not interpreted.")
prop("C05", "Netgen neutral and Neper meshes are imported exactly",
     "For every valid Netgen neutral file (tetrahedra and boundary triangles with numbered regions) and every valid Neper msh file (linear and quadratic tetrahedra, hexahedra and prisms, elements of lower dimension to be ignored, node sets, groups of polyhedra, nodes and elements in any numbering) the loaded database has exactly the nodes, elements and regions described by the file. "
     "The result does not depend on the number of MPI ranks, threads, loader, stripe size or decomposer.",
     ["inputs", "configurations"], "all valid Netgen and Neper files x ranks x threads x loaders x stripe sizes",
     "No existing test reads these formats; what happens depends on where ranks and threads split the file and on the numbering of nodes, elements and regions.",
     ["src/input/parsers/netgen", "src/input/parsers/neper", "src/input/parsers/asciiparser.cpp", "src/input/builders"],
     [("line based parsing by ranks and threads", "src/input/parsers/netgen/parser/neutralmesh.cpp"), ("keyword scanning, elements, node sets and groups", "src/input/parsers/neper/parser/msh.parser.cpp")],
     ["EnSight Gold file written by mesio for the loaded mesh", "region statistics printed by mesio"],
     "As C02, with Netgen and Neper files. Orientations of polyhedra are generated, but not part of the stored geometry. The Abaqus, OpenFOAM and XDMF readers are not covered (prototype, polyhedral meshes only, HDF5 not installed).")
prop("C07", "The C API of mesio returns exactly the loaded mesh, distributed consistently",
     "For every readable database, every communicator, number of threads, decomposer and number of domains, the data returned by the functions of mesio.h on all ranks describe together exactly the mesh of the database: every node and element is owned by one rank, offsets, sizes and totals are consistent on all ranks, every shared node has the same id, coordinates and global position on all ranks and the list of exactly the ranks and domains that use it, "
     "face neighbours are exactly the elements sharing a face (-1 for external faces), bodies are the connected components, all element and boundary regions contain exactly the elements and nodes of the database with counters of all types, and the parent of a boundary element contains it.",
     ["inputs", "configurations"], "databases x communicators x ranks x threads x decomposers x domains",
     "No test calls the API; consistency of a distributed mesh has to hold for every mesh and partition.",
     ["include/mesio.h", "src/api/wrapper.mesio.cpp", "src/mesh/preprocessing", "src/mesh/store", "src/input"],
     [("API", "src/api/wrapper.mesio.cpp"), ("distribution, dual graph, bodies, domains", "src/mesh/preprocessing"), ("builders", "src/input/builders")],
     ["arrays returned by the functions of mesio.h on every rank"],
     "Model-based: a C++ harness linked to libmesioapi loads a generated database (EnSight, VTK legacy, ANSYS CDB) and dumps every array on every rank; the oracle is the generated mesh and its topology recomputed in Python. 1-4 ranks, communicators other than MPI_COMM_WORLD included. XDMF and PT-Scotch are not installed; MESIODestroy is declared only; one mesh per process (the library has global state).")
prop("C08", "Requested modifications of the input mesh are exact",
     "For every input mesh and every modification requested by the input section, the resulting mesh is the input mesh modified as described: without mid-points every element is the linear element of its corners; translated or rotated copies are the mesh moved k times with all of its regions, and nodes that meet within the duplication tolerance are one node; "
     "a node region given by a sphere or a block holds exactly the nodes inside; a clipping box keeps exactly the elements that lie inside, with their nodes and regions; omitted face sets leave everything else untouched. The result does not depend on the format, the number of ranks and threads, the loader, and the decomposer.",
     ["inputs", "configurations"], "meshes x modifications x formats x ranks x threads",
     "No test requests any of these modifications.",
     ["src/input/meshbuilder.cpp", "src/input/builders", "src/config/ecf/input"],
     [("omitted mid-points, copies, node regions", "src/input/meshbuilder.cpp"), ("merging of nodes by tolerance inside of a rank and on borders of ranks", "src/input/builders/input.cpp, src/input/builders/scatteredinput.cpp"), ("clipping", "src/input/builders/input.cpp")],
     ["EnSight output and mesh statistics"],
     "Differential against an independent model of the modifications applied to the generated mesh. Regions whose border passes within 1e-5 of a node and empty regions are not generated; SCALE and SHEAR are not implemented by the program; NOISE is random by definition. On more than one rank a clipping box is ignored for databases (listed finding), so clipping is generated for one rank only.")
prop("C09", "The configuration is what the configuration file says",
     "For every set of assignments to parameters, every order and formatting of the file (letter case, white space, line ends, '=', comments of all kinds at any place, quoted strings, reopened objects, repeated assignments) and every way of giving a value (in the file, by an argument, a default argument, a variable, the environment, an included file, a command line option), all ranks get exactly the written values, later assignments replace earlier ones, and a parameter that is not mentioned keeps its default. "
     "A file with an unknown parameter or object, a value of another type, an option that does not exist, a missing or superfluous bracket, semicolon or quote, an unfinished comment, a missing argument or a missing included file is refused with an error instead of being partially used.",
     ["inputs", "configurations"], "assignments x formatting x sources of values x defects x ranks",
     "Existing tests read about 150 files that are formatted alike and valid; nothing checks what is refused.",
     ["src/config/reader", "src/config/configuration.cpp", "src/config/holders", "src/config/ecf"],
     [("tokenizer", "src/config/reader/tokenizer.cpp"), ("reader: links, arguments, variables, command line", "src/config/reader/reader.cpp"), ("conversion of values", "src/config/holders/valueholder.h"), ("registration of parameters", "src/config/ecf")],
     ["parameters of the configuration object after the file is read"],
     "Model-based: a harness linked to the libraries of espreso reads the file and dumps all parameters on all ranks; the model is the dump of an empty file with the assignments applied. All registered parameters (about 1900, maps included) are drawn with values of their type. Parameters that set other parameters (STORE_RESULTS), lists of numbers, tabular csv values, and RANGES are outside.")
prop("C10", "Steady heat transfer solves the discretized problem the user described",
     "For every steady linear 3D heat transfer problem (any mesh of the supported elements, any conductivity model and material coordinate system, coefficients and loads given by constants or expressions of position and time, heat source, heat flux, heat flow, translation motion and prescribed temperatures on regions) the stored temperature is the finite element solution of that problem, and the stored gradient and flux are those of the stored temperature. "
     "The solution does not depend on ranks, threads, domains or the linear solver (up to the solver precision).",
     ["inputs", "configurations"], "meshes x materials x loads x expressions x ranks x threads x domains x solvers",
     "The tests compare statistics of a few fixed problems on regular hexahedral grids with mostly constant coefficients; materials, expressions, element types, partial vectors and partitions cannot be enumerated.",
     ["src/analysis/assembler/heattransfer.cpp", "src/analysis/assembler/heattransfer", "src/analysis/assembler/general", "src/analysis/linearsystem", "src/analysis/pattern", "src/feti"],
     [("element operators and SIMD assembly", "src/analysis/assembler/heattransfer/kernel.h"), ("evaluation of expressions", "src/analysis/assembler/general/op.expression.h, src/basis/evaluator"), ("linear systems", "src/analysis/linearsystem, src/feti")],
     ["TEMPERATURE, GRADIENT, FLUX in the stored EnSight results"],
     "Differential: an independent numpy/scipy finite element solution of the same generated problem (shape functions by name, same quadrature order, complex-step derivatives). Meshes up to a few hundred elements, 1-3 ranks, MKL PARDISO and TOTAL FETI. Convection, radiation, sigma stabilization and 2D are outside this check.")
prop("C11", "Steady linear elasticity solves the discretized problem the user described",
     "For every steady linear 3D structural mechanics problem (any mesh of the supported elements, isotropic elasticity and density given by constants or expressions of position and time, acceleration, angular velocity, pressure, normal pressure, nodal forces and displacements of any components prescribed on regions) the stored displacement is the finite element solution of that problem, the reaction forces are in balance with it, and the stored stress and strain are those of the stored displacement. "
     "The solution does not depend on ranks, threads, domains or the linear solver (up to the solver precision).",
     ["inputs", "configurations"], "meshes x materials x loads x expressions x constraints x ranks x threads x domains x solvers",
     "The tests compare statistics of a few fixed problems on regular grids; combinations of element types, regions shared by several processes, partial vectors and expressions cannot be enumerated.",
     ["src/analysis/assembler/structuralmechanics.cpp", "src/analysis/assembler/structuralmechanics", "src/analysis/assembler/general", "src/analysis/linearsystem", "src/analysis/pattern", "src/feti"],
     [("element operators and SIMD assembly", "src/analysis/assembler/structuralmechanics/kernel.h"), ("filling of nodal and boundary loads", "src/analysis/pattern/vector.uniform.dense.cpp, src/analysis/assembler/general/filler.h"), ("constraints", "src/analysis/linearsystem, src/feti")],
     ["DISPLACEMENT, REACTION_FORCES, COMPONENT_/VON_MISES_ STRESS and STRAIN in the stored EnSight results"],
     "Differential: an independent numpy/scipy finite element solution of the same generated problem. Meshes up to a few hundred elements, 1-3 ranks, MKL PARDISO and TOTAL FETI. Anisotropic materials and 2D are outside this check; an angular velocity has one component.")
prop("C12", "Any FETI configuration and decomposition solves the undecomposed problem",
     "For every steady heat transfer or linear elasticity problem, every decomposition (ranks, domains per rank, decomposer, internal generator or imported mesh, several bodies) and every available FETI configuration (total and hybrid method, implicit and explicit dual operators, projector options, preconditioners, iterative solvers, regularization, fix points) the stored solution equals, up to the requested precision, the direct solution of the undecomposed problem; the solver neither crashes, nor hangs, nor stops with a wrong solution.",
     ["inputs", "configurations"], "problems x decompositions x combinations of FETI options x threads",
     "The tests cover selected options on regular grids with equal domains; the product of options, unequal domains, domains without interior unknowns, multipliers shared by many processes and threads cannot be enumerated.",
     ["src/feti", "src/analysis/linearsystem", "src/wrappers/mkl", "src/math", "src/mesh/preprocessing", "src/input/builders/generator.cpp"],
     [("dual operators and projectors", "src/feti/dualoperator, src/feti/projector"), ("preconditioners and iterative solvers", "src/feti/preconditioner, src/feti/iterativesolver"), ("regularization and constraints", "src/analysis/linearsystem")],
     ["TEMPERATURE or DISPLACEMENT in the stored EnSight results"],
     "Differential: an independent direct numpy/scipy solution of the undecomposed problem. Options reported by espreso as not implemented (conjugate projector for singular matrices, MPRGP, GPU operators, hybrid FETI with several clusters per rank) and problems with an exact initial approximation (constant solutions, nothing for a relative criterion) are outside.")
prop("C06", "A stored mesh is exactly the loaded mesh in every output format",
     "For every loaded mesh and every output format of the mesh (VTK legacy, EnSight Gold, STL surface, Netgen) the written files hold exactly the nodes, elements and regions of the mesh: every region with its members, types and node order; an STL surface is the closed outward surface of the mesh, each boundary facet once. "
     "The stored decomposition assigns every element to exactly one domain, cluster and MPI process, with domains nested in clusters and clusters in processes. The files do not depend on the number of ranks and threads, the writer, or the stripe size and count.",
     ["inputs", "configurations"], "meshes with element, face, edge and node regions x output formats x ranks x threads x decomposers x domains x writers x stripes",
     "The existing tests compare monitors only; no output file of the mesh is ever read.",
     ["src/output/visualization", "src/basis/io/outputfile.cpp", "src/mesh/preprocessing", "src/mesh/store"],
     [("collective writing of parts in the order of processes", "src/basis/io/outputfile.cpp"), ("formats", "src/output/visualization/*.cpp"), ("surface of bodies", "src/mesh/preprocessing/meshpreprocessing.faces.cpp"), ("decomposition", "src/mesh/preprocessing/meshpreprocessing.decomposition.cpp")],
     ["VTK, EnSight, STL, Netgen files written by mesio"],
     "Round trip: a generated mesh is read by mesio, stored in a generated format with generated run settings and read back by independent readers. Meshes up to a few thousand elements, 1-5 ranks. XDMF needs HDF5, which is not installed.")
prop("C13", "Transient load steps integrate the described problem in time",
     "For every history of load steps (an optional steady state followed by transient steps) of linear 3D heat transfer or linear elasticity, every stored substep is the one of the time integration scheme the user selected: generalized trapezoidal rule (Crank-Nicolson, Galerkin, backward differences or a user alpha; starting from the given initial temperature and with zero rate in each load step) or "
     "Newmark's method (ALPHA is gamma, DELTA is beta; starting from the given initial velocity), with mass from density and heat capacity, and with materials, loads and prescribed values evaluated at the time of the substep. Substeps of a load step are start + i * TIME_STEP up to the end of the step, and the next load step starts from the last solution at the end time of the previous one. Velocity and acceleration stored for a substep belong to that substep. "
     "The results do not depend on ranks, threads, domains or the linear solver.",
     ["inputs", "configurations", "histories"], "histories of load steps x schemes x time steps x time dependent data x meshes x solvers x ranks",
     "The tests contain a handful of histories on regular grids and compare statistics of the solution only: a lagging quantity, a wrong start of the second load step or a mass matrix that is not updated stays hidden.",
     ["src/analysis/physics/heat.transient.linear.cpp", "src/analysis/physics/structuralmechanics.transient.linear.cpp", "src/analysis/assembler", "src/analysis/analysis.cpp"],
     [("time loops and hand-over between load steps", "src/analysis/physics/*.transient.linear.cpp, src/analysis/analysis.cpp"), ("re-evaluation of time dependent coefficients", "src/analysis/assembler/heattransfer.cpp, src/analysis/assembler/structuralmechanics.cpp"), ("iterative solvers with changing matrices", "src/feti/iterativesolver")],
     ["TEMPERATURE, GRADIENT, FLUX, DISPLACEMENT, VELOCITY, ACCELERATION and times of every substep in the stored EnSight results"],
     "Differential: an independent numpy/scipy implementation of both schemes over the independent finite element matrices of C10 and C11. Up to 3 load steps of up to 4 substeps, meshes of tens of elements, MKL PARDISO and TOTAL FETI. Damping, automatic time stepping and 2D are outside.")
prop("C14", "Steady nonlinear problems are solved to equilibrium",
     "For every mesh, regions, materials (temperature dependent conductivity of every model; St. Venant-Kirchhoff and compressible neo-Hookean elasticity with coefficients given by expressions), loads and prescribed values, initial temperature, number of substeps and decomposition into ranks, threads and domains, a nonlinear steady state simulation with finite strains or temperature dependent coefficients either converges or fails; when it converges, "
     "the result stored in each substep is in equilibrium with the loads of that substep, meets the prescribed values, and the stored stress, strain, gradient and flux are those of the stored solution. With a direct solver, a problem on which an independent Newton (fixed point) iteration converges quickly does not fail.",
     ["inputs", "configurations"], "meshes x materials x loads x substeps x solvers x ranks x threads",
     "The tests compare the extremes of displacement with stored ones on boxes: a wrong term of a material law that was recorded is invisible, and nothing refers to equilibrium.",
     ["src/analysis/physics", "src/analysis/assembler/structuralmechanics", "src/analysis/assembler/heattransfer", "src/analysis/assembler/general"],
     [("material laws and tangents", "src/analysis/assembler/structuralmechanics/op.material.h"), ("residual and convergence criterion", "src/analysis/physics/*.steadystate.nonlinear.cpp"), ("temperature dependent coefficients", "src/analysis/assembler/heattransfer")],
     ["TEMPERATURE, GRADIENT, FLUX, DISPLACEMENT, stress and strain of every substep in the stored EnSight results"],
     "Invariant of the result: residual and tangent matrices of the stored solution computed independently (numpy/scipy), the Newton correction (the fixed point correction for heat) has to vanish. Strains of 1-30%, meshes of tens of elements, 3D. Cases where the independent iteration does not converge are inconclusive, and so is a FETI failure on finite strains (rotations are not in the kernel of a stressed subdomain, so the linearised systems are only approximately regularised). Pressure along the (deformed) normal, angular velocity, BONET_WOOD and plasticity are outside. The neo-Hookean law has a listed finding (C13 and C23 exchanged), which is accepted only in exactly that form.")
prop("C16", "Monitors are the statistics of the stored results",
     "For every simulation, every monitor (region of elements, faces or nodes, property or one of its components, MIN, MAX, AVG, NORM, ABSMIN or ABSMAX) and every store frequency of monitors, each row of the monitor file belongs to a substep that the frequency selects (all substeps, every n-th substep of a load step, the last substep of a load step) and holds the load step, substep, time and exactly the statistics of the results of that substep over the region, each node or element counted once, "
     "whatever the number of ranks, threads and domains, the other monitors, and the mode of storing results.",
     ["inputs", "configurations", "histories"], "simulations x monitors x store frequencies x ranks x threads x output modes",
     "The tests compare monitor files with stored ones for fixed problems: statistics that are wrong in the same way since they were recorded, components, combinations of monitors, and frequencies are not covered.",
     ["src/output/monitors/monitoring.cpp", "src/mesh/store/nodestore.cpp", "src/mesh/store/elementstore.cpp", "src/mesh/store/statisticsstore.h", "src/wrappers/mpi"],
     [("offsets of monitors in the table of statistics", "src/output/monitors/monitoring.cpp"), ("reduction over processes with shared nodes", "src/mesh/store/nodestore.cpp, src/mesh/store/elementstore.cpp"), ("selection of substeps", "src/output/monitors/monitoring.cpp, src/analysis/physics")],
     ["the .emr file", "EnSight results of the same run"],
     "Differential inside one run: statistics recomputed from the EnSight results (verified by C06, C19) against the monitor file. Two deviations that existing tests pin down are listed as known findings and accepted only in exactly that form.")
prop("C18", "Plane and axisymmetric problems are solved as described",
     "For every plane grid of every plane element type and projection, element regions, materials (all conductivity models with their coordinate systems, plane strain, plane stress with and without thickness, axisymmetric elasticity), thickness of regions, sources and loads (heat source, heat flux, heat flow, motion, acceleration, angular velocity, normal pressure, pressure, prescribed temperature and displacement) given by constants or expressions, "
     "and every decomposition into blocks, clusters and domains, a direct or a FETI solver computes the finite element solution of the described two-dimensional problem: temperature, gradient, flux, displacement, reactions, stress and strain.",
     ["inputs", "configurations"], "2D grids x regions x materials x thickness x loads x solvers x ranks x threads",
     "The tests hold a handful of plane problems, all with unit thickness; axisymmetric bodies only on a few elements.",
     ["src/analysis/assembler", "src/analysis/linearsystem/regularization", "src/input/meshgenerator", "src/config/ecf/material"],
     [("thickness in the kernels", "src/analysis/assembler/*/kernel.h"), ("weights of axisymmetric bodies", "src/analysis/assembler/structuralmechanics"), ("kernels of subdomains", "src/analysis/linearsystem/regularization/regularization.elasticity.cpp")],
     ["EnSight output"],
     "Differential against an independent numpy/scipy finite element implementation on the stored mesh (C01 decides the mesh, C06 the storing). Grids up to 600 elements. A FETI failure on a problem whose solution is constant or a rigid body motion is inconclusive: there is nothing to solve for a relative stopping criterion. Thickness is generated only for behaviours that are documented to use it; von Mises values are not compared; stress of axisymmetric bodies is not compared; unsymmetric systems are solved directly.")
prop("C19", "What is stored of a simulation does not depend on how it is stored",
     "For every simulation, the values of every stored variable on every region in every stored substep are the same for every output format, synchronous or asynchronous output, writer, and stripe settings. Exactly the substeps that the store frequency selects (every substep, every n-th of a load step, the last one of a load step, never) are stored, and a selected result is stored while a deselected one (gradient, flux, velocity, acceleration, reactions) is not. "
     "An asynchronously stored result is the one of its substep, not of a later one.",
     ["inputs", "configurations", "histories", "schedules"], "simulations x formats x modes x writers x stripes x frequencies x selections x ranks",
     "The existing tests never read results files.",
     ["src/output/output.cpp", "src/output/visualization", "src/wrappers/pthread/w.pthread.cpp", "src/mesh/store/nameddata.cpp", "src/basis/io/outputfile.cpp"],
     [("buffering for the output thread", "src/output/output.cpp, src/mesh/store/nameddata.cpp"), ("layout of scalar, vector and tensor data", "src/output/visualization/vtklegacy.cpp, src/output/visualization/ensightgold.cpp"), ("selection of substeps and variables", "src/output/visualization/visualization.cpp")],
     ["EnSight and VTK results of two runs"],
     "Metamorphic: the same generated simulation is run twice, once stored as synchronous EnSight with every substep, once with generated output settings; all variables are compared by position. The schedule of the output thread is not controlled, only sampled.")
