#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

T = "The five registered tests run one grid, one material pair and one load path each and only look at the exit code; no number is compared."

p("C01", "Elastic homogenised stress is the cell average of the equilibrium FE solution",
  "For an elastic 2D (plane strain) or 3D cell, the stress returned for a Gauss point is the volume average of the stress of the finite element solution on the requested grid whose boundary displacement is (macro strain)*x and whose inner nodes are in equilibrium, up to the solver's residual-force tolerance. This holds for every grid size (nx, ny, nz may differ), cell lengths, microstructure type and width, isotropic material pair (contrast, Poisson ratio) and macro strain (xx,yy,zz,xy,xz,yz with engineering shears; xx,yy,xy in 2D).",
  ["inputs", "configurations"], "all grids, side lengths, microstructures, material pairs and macro strains", T + " 2D is covered by one square grid; nothing checks non-cubic grids or non-unit lengths.",
  ["src/assembly.cpp", "src/homogenize.cpp", "src/solve.cpp", "src/micro.cpp", "src/ell.cpp"],
  [("element stiffness and internal forces", "src/assembly.cpp get_elem_mat2D/3D, get_elem_rhs2D/3D"), ("boundary displacement", "src/assembly.cpp set_displ"), ("averaging", "src/assembly.cpp calc_ave_stress"), ("linear solve", "src/solve.cpp, src/ell.cpp")],
  ["get_macro_stress after set_macro_strain + homogenize"])

p("C02", "The tangent returned is the derivative of the homogenised stress",
  "The tangent returned for a Gauss point is the matrix d(stress)/d(strain) of the homogenised stress at the evaluated strain and committed history, stored row by row with the stress component as the row. For an elastic cell it is symmetric positive definite, independent of the strain, and gives stress = tangent * strain; while material flows plastically it is the derivative along continued loading and after unloading it is the elastic one again.",
  ["inputs", "histories", "configurations"], "all cells, strains and committed histories at which the response is differentiable", T + " The tangent is only printed.",
  ["src/homogenize.cpp", "src/assembly.cpp"], [("one-sided perturbation of every strain component", "src/homogenize.cpp homogenize, calc_ctan_lin")],
  ["get_macro_ctan"], [("ctan_lin", "elastic tangent computed at construction", "include/micro.hpp")])

p("C03", "Plastic cells follow J2 plasticity with linear isotropic hardening",
  "In 3D, a material of type 1 with E, nu, Sy, Ka responds at every integration point as rate-independent J2 plasticity with linear isotropic hardening (yield at von Mises stress Sy + Ka*alpha, associated flow, alpha growing by sqrt(2/3)*|d eps_p|, backward-Euler step from the last committed state), the cell stays in equilibrium, and materials of type 0 or 2 stay linear elastic. Hence the homogenised stress after every step of every committed strain history is that of this model: elastic below yield, on unloading and on re-loading up to the hardened yield stress, plastic in tension, compression and every shear alike.",
  ["histories", "inputs", "configurations"], "all strain histories (load, unload, reverse, reload, change of direction), material pairs and microstructures", T + " The plastic tests follow one monotonic/proportional path.",
  ["src/assembly.cpp", "src/homogenize.cpp"], [("return mapping", "src/assembly.cpp plastic_step, get_stress3D"), ("history per Gauss point", "src/homogenize.cpp homogenize, update_vars")],
  ["get_macro_stress along a history of set_macro_strain / homogenize / update_vars"], [("int_vars_n", "committed plastic strains and hardening", "include/micro.hpp gp_t")])

p("C04", "Only the commit advances the material history",
  "An evaluation (homogenize) never changes the committed history: evaluating any number of trial strains in any order and then one more gives the same stress, tangent and later behaviour as evaluating that last strain alone. update_vars commits exactly the state of the most recent evaluation of each Gauss point: committing again without a new evaluation changes nothing, a strain set but not evaluated is not committed, and trials discarded before the commit leave no trace.",
  ["histories"], "all interleavings of set_macro_strain, homogenize and update_vars", T + " They always alternate set, homogenize, commit.",
  ["src/homogenize.cpp"], [("trial and committed copies of the internal variables", "src/homogenize.cpp homogenize, update_vars")],
  ["get_macro_stress, get_macro_ctan after every operation sequence"], [("int_vars_k", "variables of the last evaluation", "include/micro.hpp gp_t")])

p("C05", "Gauss points are independent of each other",
  "Stress, tangent, non-linear flag and history of a Gauss point depend only on the strains set for its own id and on the evaluations and commits made since; they do not depend on how many other Gauss points exist, their ids, their strains or histories, or the order in which points were introduced, set or queried. Any int is a valid id, setting a strain for an existing id replaces its strain and keeps its history, and a point introduced later starts from virgin material.",
  ["histories", "inputs"], "all id sets, introduction orders and interleavings of per-point operations", T + " One or a few points with consecutive ids, all loaded alike.",
  ["src/homogenize.cpp", "include/micro.hpp"], [("list of Gauss points searched by id", "src/homogenize.cpp set_macro_strain, get_macro_stress, get_macro_ctan; src/micro.cpp get_nl_flag")],
  ["getters of every point, against the same point alone in its own instance"], [("gauss_list", "all Gauss points of the instance", "include/micro.hpp")])

p("C06", "Results depend only on the inputs, not on memory or other instances",
  "The numbers an instance returns are a function of its constructor arguments and of the calls made on it: they do not depend on the previous contents of the memory or stack it gets, on instances created, used or destroyed earlier, or on other live instances whose calls are interleaved with its own.",
  ["histories", "configurations"], "all previous memory contents and all interleavings of calls on two instances", "A test process starts with zeroed pages and makes one instance, so it cannot see the dependence.",
  ["src/micro.cpp", "src/homogenize.cpp", "src/assembly.cpp", "src/ell.cpp"], [("constructor initialises every buffer", "src/micro.cpp"), ("no static data in the library", "src/")],
  ["all getters and files of an instance, under different memory fills and interleavings"])

p("C07", "Linear shortcut and non-linear flag follow their documented conditions",
  "A Gauss point whose flag is 0 and whose elastic-predicted stress (elastic tangent * strain) has |first invariant| below the constructor's invariant tolerance is answered with exactly that stress and the elastic tangent and keeps flag 0; every other evaluation is the full non-linear solution, so with tolerance 0 or less the shortcut is never taken. The non-linear flag of a point is 0 until one of its full evaluations flows plastically somewhere in the cell, becomes 1 by that evaluation and stays 1; it never becomes 1 in cells without plastic material or in 2D.",
  ["inputs", "histories", "configurations"], "all tolerances, strains on both sides of the threshold and histories", T + " All tests use one tolerance and never read the flag.",
  ["src/homogenize.cpp", "src/micro.cpp", "src/assembly.cpp"], [("is_linear test before the full solve", "src/homogenize.cpp is_linear, homogenize"), ("flag from any integration point that flows", "src/assembly.cpp assembly_rhs, get_elem_rhs3D")],
  ["get_macro_stress, get_macro_ctan, get_nl_flag"], [("inv_tol", "constructor's invariant tolerance", "include/micro.hpp")])

p("C08", "Queries and output have no side effects",
  "Calls to get_macro_stress, get_macro_ctan, get_nl_flag, output and write_info_files, inserted anywhere and any number of times in a call sequence, for known or unknown ids, change no later stress, tangent, flag, committed history or report line. A getter writes exactly the components of the dimension (3 and 9 values in 2D, 6 and 36 in 3D) and leaves caller arrays untouched; for an unknown id stress and tangent buffers are left untouched, the flag is 0 and no file is produced.",
  ["histories"], "all positions and combinations of queries in a call sequence", T + " Queries are always made at the same place of the time loop.",
  ["src/output.cpp", "src/homogenize.cpp", "src/micro.cpp"], [("output re-solves on scratch vectors and leaves the point alone", "src/output.cpp output")],
  ["getters with and without the inserted queries"])

p("C09", "Output files carry the localised fields of the evaluated Gauss point",
  "The file written by output for a Gauss point holds the fields of that point's current strain on its committed history: boundary nodes displaced by (macro strain)*x, inner nodes in equilibrium, element mean strains and stresses that belong to those displacements, averaging over the cell to the macro strain and the macro stress, and for 3D the committed plastic strain norm and hardening of each element (means over its integration points). Numbers carry at least 6 significant digits.",
  ["inputs", "histories", "configurations"], "all cells, strains, histories, time steps and points", "No test reads an output file.",
  ["src/output.cpp", "src/assembly.cpp"], [("localisation", "src/output.cpp output; src/assembly.cpp calc_fields"), ("writer", "src/output.cpp write_vtu")],
  ["micropp_<gp>_<step>.vtu"], [("u", "nodal displacements", "include/micro.hpp")])

p("C10", "The response transforms with the coordinate axes",
  "Permuting the axes of a cell (grid sizes, lengths and microstructure along) or mirroring it permutes and changes signs of stress and tangent exactly as tensors do. This holds for the ball microstructure under all axis permutations and mirrors and for the layered one under those that keep the layer normal y, in 2D and 3D, elastic or along plastic histories.",
  ["inputs", "configurations", "histories"], "all axis permutations and mirrors of all cells, strains and histories", T + " Cubic cells loaded along one axis cannot tell the axes apart.",
  ["src/assembly.cpp", "src/ell.cpp", "src/micro.cpp"], [("structured assembly treats all axes alike", "src/assembly.cpp, src/ell.cpp")], ["getters of the cell and of the transformed cell"])

p("C11", "Units and size scaling, superposition and patch test",
  "Scaling all lengths of a cell leaves stress and tangent unchanged; scaling all moduli and yield stresses scales stress and tangent alike; elastic responses superpose linearly. A cell made of one material answers any uniform strain on any grid with the material's own stress and tangent.",
  ["inputs", "configurations", "histories"], "all scale factors, grids, strains (and histories for the scalings)", T + " One cell, one unit system.",
  ["src/assembly.cpp", "src/solve.cpp", "src/homogenize.cpp"], [("averages divided by the cell volume", "src/assembly.cpp calc_ave_stress"), ("absolute residual tolerances", "src/solve.cpp")], ["getters of scaled cells"])

p("C12", "Structured ELL assembly equals the dense sum of element matrices",
  "On a zeroed structured matrix initialised for a 2D or 3D grid with any number of unknowns per node, adding element matrices (4- or 8-node elements in the library's node order, row-major, unknowns of a node adjacent) gives a matrix whose product with any vector is that of the dense sum of those element matrices, for every grid size, subset and order of elements. Setting the matrix to zero makes every product zero, and all stored column indices are valid.",
  ["inputs", "configurations"], "all grids, element positions, element matrix entries and vectors", "No registered test exercises the matrix directly; the solver test is not even built.",
  ["src/ell.cpp", "include/ell.hpp"], [("slot tables", "src/ell.cpp ell_add_struct2D/3D, ell_init_2D/3D")], ["ell_mvp_2D"])

p("C13", "Dirichlet conditions decouple exactly the boundary unknowns",
  "After the structured boundary condition call on an assembled matrix, every row of a boundary unknown is the identity row, no inner row couples to a boundary unknown any more, and every coupling between inner unknowns is exactly what it was, for every 2D and 3D grid down to the smallest and any number of unknowns per node. The matrix is therefore symmetric positive definite whenever the assembled one was symmetric positive semi-definite.",
  ["inputs", "configurations"], "all grid sizes and numbers of unknowns per node", "Tests use square grids large enough that every special case of the boundary loops is hit at most once, and never look at the matrix.",
  ["src/ell.cpp"], [("boundary rows and neighbours of the boundary", "src/ell.cpp ell_set_bc_2D, ell_set_bc_3D")], ["ell_mvp_2D"])

p("C14", "Linear solvers return solutions and report honestly",
  "For a symmetric positive definite structured matrix, any right-hand side and any starting vector, the conjugate gradient solvers and the 2D Jacobi solver return x with |A x - b| below the requested tolerance whenever they use fewer than the allowed iterations, and given enough iterations they do. They then report that residual norm as error and never more iterations than allowed; the conjugate gradient solvers do 0 iterations and leave x untouched if the start already satisfies the tolerance. None of them modifies the matrix or the right-hand side.",
  ["inputs", "configurations"], "all SPD systems from structured grids, right-hand sides, starts, tolerances and iteration limits", "The solver test is not registered and no residual is checked.",
  ["src/ell.cpp"], [("preconditioned conjugate gradients, Jacobi", "src/ell.cpp ell_solve_cgpd_2D, ell_solve_cgpd_struct, ell_solve_jacobi_2D")], ["x, b, matrix values and ell_solver after the call"])

p("C15", "VTU output is well-formed and describes the mesh",
  "output(step, id) of a known point creates or replaces exactly the file micropp_<id>_<step>.vtu in the working directory: well-formed XML with nx*ny*nz points at the grid coordinates (z = 0 in 2D), all quadrilaterals or hexahedra exactly once with the standard corner order, matching offsets and types, and arrays displ and b on points and strain, stress, elem_type, plasticity, hardening on cells whose sizes equal points or cells times components. Repeating it replaces the file, and files of other points and steps are untouched.",
  ["inputs", "configurations", "histories"], "all grids, lengths, ids, steps and call sequences", "Files are written by some tests but never read.",
  ["src/output.cpp"], [("writer", "src/output.cpp write_vtu")], ["micropp_<gp>_<step>.vtu"])

p("C16", "Report files record exactly what the getters return",
  "Each write_info_files call appends one data line to micropp_eps_sig_ctan.dat, micropp_convergence.dat and micropp_int_vars_n.dat with one block per Gauss point in order of introduction: strain, stress (6 columns each, zero beyond the dimension) and tangent as the getters return them at that moment; the non-linear flag, the |first invariant| of the elastic prediction and per solve (stress, then one per tangent column) iterations and residual error; and all committed internal variables (zero while the flag is 0). A header naming the ids known at the first report is written once, before the first line, to the first two files; earlier lines are never changed, numbers carry at least 6 significant digits, and constructing an instance empties the files and writes the two materials' E, nu, Sy, Ka to micropp_materials.dat.",
  ["histories", "configurations"], "all call sequences, numbers of points and dimensions", "No test reads the report files.",
  ["src/output.cpp", "src/micro.cpp"], [("append-only report writer", "src/output.cpp write_info_files"), ("truncation at construction", "src/micro.cpp constructor")], ["micropp_*.dat"])

p("C17", "The C/Fortran wrapper behaves as the C++ interface",
  "Every sequence of wrapper calls (construct, set strain, homogenize, get stress, get tangent, get flag, update variables, output, write files) has the same results, files and untouched buffers as the same sequence of C++ calls on one instance, with all scalars passed by reference. A second construct call replaces the instance with a fresh one and releases the previous one.",
  ["histories", "inputs"], "all wrapper call sequences and arguments", "The Fortran test makes one fixed sequence and checks nothing.",
  ["src/wrapper.cpp"], [("forwarding functions on one static instance", "src/wrapper.cpp")], ["buffers and files after the wrapper calls"])

p("C18", "No memory errors, undefined behaviour or leaks on valid use",
  "For every valid configuration (dimension 2 or 3, at least 2 nodes per axis, both microstructures, all material types) and every call sequence, the library reads and writes only memory it owns and the documented extent of caller arrays, executes no undefined behaviour, and after destruction has released everything it allocated, however many points, histories and evaluations there were.",
  ["inputs", "histories", "configurations"], "all valid grids, configurations and call sequences", "Tests run without sanitizers on a few comfortable grid sizes.",
  ["src/micro.cpp", "src/homogenize.cpp", "src/ell.cpp", "src/assembly.cpp", "src/output.cpp", "src/wrapper.cpp"], [("allocation in the constructor and on first plastic flow", "src/micro.cpp, src/homogenize.cpp")], ["AddressSanitizer, UndefinedBehaviorSanitizer, allocation counts"])

p("C19", "Elements get the material their position in the cell calls for",
  "With microstructure 0 an element is inclusion (material 2, type value 1) exactly when its centre is closer than the given width to the centre of the cell, and with microstructure 1 exactly when the y coordinate of its centre is below the width; all other elements are material 1 (type value 0). This assignment, as written to the output file, is the one the stresses are computed with, for all grids, lengths and widths including widths that cover none or all of the cell.",
  ["inputs", "configurations"], "all grids, lengths, widths and types", "No test looks at the element types.",
  ["src/micro.cpp", "src/assembly.cpp"], [("element types", "src/micro.cpp get_elem_type2D/3D"), ("material lookup", "src/assembly.cpp get_material")], ["elem_type in the output file; homogenised stress"], [("elem_type", "type of every element", "include/micro.hpp")])

p("C20", "Newton iterations terminate and their reports are true",
  "Every evaluation terminates after at most 40 Newton iterations per solve, and the report gives for each solve the number of iterations made and the norm of the residual forces: a residual below 1e-5 (the cell is in equilibrium to that tolerance) whenever fewer than 40 iterations were made. Elastic cells and physically admissible plastic histories (with hardening) do converge, elastic ones in at most two iterations per solve, and evaluations answered by the linear shortcut report 0 iterations and 0 error.",
  ["inputs", "histories", "configurations"], "all cells, strains and histories", "No test reads iteration counts or residuals; a solve that stops early still exits 0.",
  ["src/solve.cpp", "src/homogenize.cpp", "src/output.cpp"], [("Newton loop", "src/solve.cpp newton_raphson"), ("consistent tangent", "src/assembly.cpp get_ctan_plast_pert")], ["micropp_convergence.dat", "b field of the output file"])

p("C21", "Caller arrays are used only during the call, inputs only read",
  "Every array passed to the library (constructor sizes, parameters and materials, strains, output buffers of the getters, wrapper scalars by reference, element matrices, vectors and solver settings of the linear algebra) is accessed only between entry and return of that call; input arrays are never written; the caller may overwrite, move or release them as soon as the call returns, with no effect on any later result.",
  ["histories", "inputs"], "all call sequences and arguments", "Tests keep their arguments alive and unchanged for the whole run.",
  ["include/micro.hpp", "include/ell.hpp", "src/micro.cpp", "src/homogenize.cpp", "src/ell.cpp", "src/wrapper.cpp"],
  [("copies of parameters, materials and strains", "src/micro.cpp constructor, src/homogenize.cpp set_macro_strain"), ("const operands", "src/ell.cpp"), ("references", "src/wrapper.cpp")], ["memory protection of the argument pages; getters and files of later calls"])

p("C22", "Energetic order of the homogenised response",
  "The homogenised elastic tangent lies, as a quadratic form, between the volume average of the phase compliances (inverted) and the volume average of the phase stiffnesses; it never decreases when a phase gets stiffer (larger E, larger bulk modulus) or when the stiffer phase takes more elements, and never increases when a grid with the same layers is refined. In plastic cells, from the same committed state, (s1 - s2).(e1 - e2) of any two strains lies between 0 and the elastic value, the tangent lies between 0 and the elastic tangent, and the work sum s_(n+1).(e_(n+1) - e_n) spent along any committed history from the virgin state is never negative.",
  ["inputs", "configurations", "histories"], "all cells, phase contrasts, refinements and strain histories", "No test compares two evaluations with each other.",
  ["src/assembly.cpp", "src/solve.cpp", "src/homogenize.cpp", "src/micro.cpp"],
  [("assembly and equilibrium", "src/assembly.cpp, src/solve.cpp"), ("average stress and tangent", "src/homogenize.cpp, src/micro.cpp"), ("return mapping", "src/assembly.cpp plastic_law")], ["get_macro_stress", "get_macro_ctan"])

p("C23", "Trouble with files never reaches the results",
  "Stresses, tangents, flags and histories do not depend on whether the library's files can be written: a file name taken by a directory, a full disk, a missing path, a working directory that is gone, no file descriptors left or a file size limit, at construction or during any later calls, ends no process and changes no number returned then or later. Trouble with one file does not keep the others from being written, and once it is over the next output or report writes its file or line as if it had never been.",
  ["fault_sequences", "histories"], "every kind of file trouble during every interval of calls", "Tests run in a writable directory.",
  ["src/output.cpp", "src/micro.cpp", "src/homogenize.cpp"],
  [("report files", "src/output.cpp write_info_files"), ("output file", "src/output.cpp write_vtu"), ("files opened by the constructor", "src/micro.cpp")], ["getters; files in the working directory"])

p("C24", "A kill at any moment leaves all earlier reports and files intact",
  "When a call returns, what it reports is completely in its files (nothing waits in the process), and while a call runs only its own files change: a report only appends to the three report files, an output only touches the file of its point and step, and setting, evaluating, committing and querying touch no file. A process killed at any point of any call therefore leaves every line of every earlier report and every other output file as they were; only constructing an instance empties report files.",
  ["crash_points", "histories"], "every system call of every call sequence", "No test reads a file, let alone one of an interrupted run.",
  ["src/output.cpp", "src/micro.cpp"],
  [("report files", "src/output.cpp write_info_files"), ("output file", "src/output.cpp write_vtu")], ["files in the working directory after each system call"])

p("C25", "Threads with instances of their own do not disturb each other",
  "Different threads may use different instances at the same time, from construction to destruction: for every interleaving of their execution, each thread gets exactly the stresses, tangents, flags and output files (of its own ids) that the same calls give when made alone. No call waits for, or accesses data that belongs to, an instance of another thread.",
  ["schedules"], "all interleavings of two threads' calls, down to single basic blocks", "Tests are single-threaded.",
  ["src/assembly.cpp", "src/homogenize.cpp", "src/solve.cpp", "src/ell.cpp", "src/output.cpp", "src/micro.cpp"],
  [("no shared mutable data outside the wrapper", "src/"), ("work arrays on the stack or in the instance", "src/assembly.cpp, src/ell.cpp")], ["getters and output files of each thread"])

p("C26", "The host process is left as it was found",
  "No call prints anything on standard output or standard error (printing functions apart), throws, ends or delays the process, starts threads or processes, or leaves any of the host's settings changed: floating-point control, locale, working directory, environment, file mask, signal handling, timers, open descriptors, limits, random number generators, stream formats. The only files it creates or changes are the documented ones, in the working directory.",
  ["histories", "inputs"], "all call sequences through the C++ interface, the wrapper and the linear algebra", "Tests discard the output and never look at the process state.",
  ["src/micro.cpp", "src/homogenize.cpp", "src/solve.cpp", "src/ell.cpp", "src/output.cpp", "src/wrapper.cpp", "include/util.hpp"],
  [("no global effects in the library", "src/"), ("debug output compiled out", "include/util.hpp")], ["process state, standard streams and directory after every call"])

p("C27", "Results and files do not depend on the settings of the host",
  "Stresses, tangents, flags and the contents and names of all files are the same whatever the host's settings are during the calls: global locale, formatting of the standard streams, standard descriptors closed, environment variables, random seeds, file mask, errno, blocked or ignored signals, floating-point status flags, terminals as standard streams, number of processors, user, host name, priority, resource limits. They are the same whichever thread makes each call, in a process forked at any point, before main, and with floating-point traps (invalid, division by zero, overflow) enabled, which no call on valid input triggers.",
  ["configurations", "histories"], "every setting during every interval of calls", "Tests run with the default settings of a fresh process.",
  ["src/output.cpp", "src/micro.cpp", "src/homogenize.cpp", "src/solve.cpp", "src/ell.cpp"],
  [("files written in the classic locale", "src/output.cpp, src/micro.cpp"), ("no division by zero in the constructor or solvers", "src/micro.cpp, src/ell.cpp")], ["getters and files after every call"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
