#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
M="src/fem_domain/domain/mesh.rs"; MD="src/fem_domain/domain/mesh/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

p("C01","Refined mesh stays a valid nested tiling with no duplicated geometry",
"After any sequence of h-refinements of any valid starting mesh, the unrefined elements tile the domain exactly, every refined element is exactly partitioned by its recorded children, and the parent/child/ancestor links form one consistent forest whose ids equal list positions. Every element's four corners and four sides are where its place in the refinement tree says they are, neighbouring elements share the same node and edge objects, and no two nodes have the same location and no two edges the same end points. Edge trees (children, mid node, parent, length, direction) and the boundary markings of nodes and edges always agree with the geometry, and each edge and node lists as adjacent exactly the elements that use it in that position.",
["inputs","histories"],"all starting meshes (any number, shape, numbering and size of rectangles) and all finite sequences of isotropic, anisotropic and extended h-refinements",
"The unit tests refine two small fixture meshes in a few fixed ways and check counts; structural damage that needs a particular neighbour level difference, refinement order or numbering is never looked at.",
[M,MD+"edge.rs",MD+"elem.rs",MD+"node.rs",MD+"h_refinement.rs"],
[("execute_h_refinements / execute_t,u,v_refinement",M),("h_refine_edge_if_needed",M),("connect_elem",MD+"edge.rs"),("HRefLoc::sub_range",MD+"h_refinement.rs")],
[dict(name="elems, nodes, edges",meaning="the refined mesh",where=M)],["public mesh fields and accessors","the JSON form of edges and nodes"])

p("C02","h-refinement requests do exactly what the documented semantics say",
"Every way of asking for h-refinement (explicit list, same refinement on a list, global, filter closure) refines exactly the elements selected and eligible, each with exactly the child layout of the requested type, including the follow-up split of the chosen child for extended types; ineligible elements are skipped by the global and filter forms, which never touch anything else. Several refinements requested for one element in one call combine to the least refinement that covers them all, independent of the order in which they are listed. New elements inherit their parent's material and expansion orders, have refinement levels incremented in exactly the split directions, and nothing about existing elements other than becoming refined changes.",
["inputs","histories"],"all request lists, filters and combinations of refinement types, at any point of any refinement history",
"Tests apply a handful of requests one at a time; combination, extension and selection rules are exercised on one or two examples each and never against an independent model over histories.",
[M,MD+"h_refinement.rs",MD+"elem.rs"],
[("execute_h_refinements",M),("HRef AddAssign",MD+"h_refinement.rs"),("global_h_refinement / h_refine_with_filter / h_refine_elems",M),("HLevels::refined",MD+"h_refinement.rs")],
None,["public mesh state before and after each call"])

p("C03","A rejected refinement or order request leaves the mesh untouched",
"A refinement or expansion-order request that contains anything invalid (an element that does not exist, is already refined or is too small, a duplicate where duplicates are forbidden, an out-of-range order change, or a malformed extended refinement) is answered with an error rather than a panic, whatever valid entries accompany it and wherever the invalid one sits. The mesh is then observably identical to what it was before the call and remains fully usable. A request that contains nothing invalid is never rejected.",
["inputs","histories"],"all request lists mixing valid and invalid entries in any position, for every list-taking refinement and order-setting call, on meshes in any refinement state including elements near the minimum size",
"Tests check that single invalid requests return an error; they never compare the mesh before and after, and never mix invalid entries into large requests or reach the size limit through the error-returning calls.",
[M,MD+"h_refinement.rs",MD+"p_refinement.rs",MD+"edge.rs"],
[("validation pass before mutation",M),("HRefError / PRefError",MD+"h_refinement.rs")],None,["full snapshot of the mesh before and after"])

p("C04","Expansion orders follow exact, saturating-free p-refinement arithmetic",
"Every p-refinement changes each addressed element's two expansion orders by exactly the (summed) requested amounts, and every reachable order stays between 1 and the documented maximum. The constrained forms (global and filter) apply exactly the amount clamped to the element's reported window, the bounded and explicit forms are rejected exactly when the summed amount leaves that window, and setting orders directly stores exactly the given values. Adding, constraining and testing p-refinements behave like integer arithmetic for every sequence of amounts, with no wrap-around.",
["inputs","histories"],"all amounts representable in the request type, all summation lists, all current orders, all sequences of p-refinements",
"Tests use small amounts on one or two elements; sums that leave the 8-bit range, extreme amounts and long mixed histories are not reached.",
[MD+"p_refinement.rs",M],[("PRef arithmetic, constrain, within",MD+"p_refinement.rs"),("elem_p_refinement_window, execute_p_refinements, set_expansion_orders",M)],None,["orders of every element after each call","values of the p-refinement type"])

p("C05","Interior edges are activated at exactly one level; boundary edges never",
"After any refinement history, at every point of every interior (non-boundary) line of the mesh exactly one edge covering that point supports edge-type functions: the finest edge that has elements attached on both sides along its whole family. An active edge names one element on each side, the most refined ones that have that exact edge as a side, in the documented (below/left, above/right) order. Boundary edges are never active.",
["inputs","histories"],"all meshes and refinement histories, including arbitrarily irregular neighbours and refinements that change an edge's state from active to inactive",
"Existing tests look at one or two fixed meshes; the interplay of levels on both sides over several refinement rounds is not examined against an independent rule.",
[M,MD+"edge.rs"],[("set_edge_activation / rec_set_edge_activation_in_tree",M),("Edge::set_activation",MD+"edge.rs")],[dict(name="active_elems",meaning="the pair of elements supporting functions on an edge",where=MD+"edge.rs")],["active pair of every edge after refinement and after domain construction"])

p("C06","Degrees of freedom and basis functions pair up exactly once and completely",
"In every domain built from any mesh, degree-of-freedom ids equal their positions, every stored basis function belongs to exactly one degree of freedom and is found at the address that degree of freedom records, and no degree of freedom or basis function is missing or extra. Interior functions exist exactly on unrefined elements with the full set of orders their element allows; edge functions exist exactly on the active element pair of each active edge, as matched pairs of equal direction and equal order along the edge on opposite sides, one for each order both elements support. The per-element, descendant and ancestor listings return exactly the functions stored on those elements.",
["inputs","histories"],"all meshes, refinement histories and expansion-order assignments (including different orders on the two sides of an edge)",
"Tests only check counts on two doc examples and that construction does not fail.",
["src/fem_domain/domain.rs","src/fem_domain/domain/dof.rs","src/fem_domain/domain/dof/basis_spec.rs",MD+"p_refinement.rs"],
[("Domain::from_mesh",  "src/fem_domain/domain.rs"),("BasisSpec::matches_with_edge","src/fem_domain/domain/dof/basis_spec.rs"),("PolyOrders::permutations",MD+"p_refinement.rs")],None,["public dof and basis function lists"])

p("C07","Every computed field is tangentially continuous and satisfies the wall condition",
"For every domain and every coefficient vector, the tangential component of the computed vector field agrees on the two sides of every shared element side, however different the neighbours' sizes and expansion orders. On the outer boundary the tangential component is zero.",
["inputs","histories"],"all meshes, refinement histories, order assignments and coefficient vectors",
"No test evaluates a field value anywhere.",
["src/fem_domain/domain.rs","src/fem_domain/domain/fields.rs","src/fem_domain/basis.rs","src/fem_domain/basis/hierarchical_basis_fns.rs",M],
[("edge matching","src/fem_domain/domain.rs"),("edge activation",M),("HierPoly tangential functions","src/fem_domain/basis/hierarchical_basis_fns.rs")],None,["field values at coincident sample points of neighbouring elements"])

p("C08","The assembled eigenproblem is always well posed",
"For every domain with positive materials and sufficient quadrature, the mass matrix is symmetric positive definite (the basis functions are linearly independent) and the curl-curl matrix is symmetric positive semi-definite, up to rounding. Both matrices have the size of the degree-of-freedom set, contain only finite values, and the curl-curl matrix is not identically zero when the space supports a non-constant curl.",
["inputs","histories"],"all meshes, refinement histories and moderate order assignments",
"One test factorises one small matrix; irregular superimposed refinements, where dependence could creep in, are only covered by a disabled external-solver test.",
["src/fem_problem/galerkin.rs","src/fem_domain/domain.rs","src/fem_problem/integration/integrals.rs"],
[("Domain::from_mesh drops interior functions of refined elements","src/fem_domain/domain.rs"),("galerkin_sample_gep_hcurl","src/fem_problem/galerkin.rs")],None,["spectrum of the scaled matrices"])

p("C09","Assembled matrix entries equal the exact integrals of the basis functions",
"For every domain, every entry of the two assembled matrices equals the exact integral over the whole domain of the corresponding pair of global basis functions: curl times curl divided by relative permeability, and dot product times relative permittivity, with the material of the element in which the overlap lies. This includes pairs that live on different refinement layers, and pairs that do not overlap have a zero or absent entry. Requesting more quadrature points than needed, or the default number, does not change the result beyond rounding.",
["inputs","histories","configurations"],"all meshes, refinement histories, order assignments, materials and sufficient quadrature settings",
"A single test compares one eigenvalue to seven digits on a once p-refined mesh with no layers; a second one needs an external solver that is not present.",
["src/fem_problem/galerkin.rs","src/fem_problem/integration/integrals.rs","src/fem_domain/basis.rs","src/fem_problem/linalg.rs"],
[("galerkin_sample_gep_hcurl","src/fem_problem/galerkin.rs"),("CurlCurl / L2Inner integrate","src/fem_problem/integration/integrals.rs"),("BasisFnSampler","src/fem_domain/basis.rs")],None,["all matrix entries"])

p("C10","Parallel assembly is schedule independent, exactly-once and race free",
"For every domain, any number of worker threads, any timing of the work items and any number of assemblies running at once, each overlapping pair of basis functions contributes to the result exactly once, and the matrices are the same as those of a single-threaded run (identical for exactly representable contributions, equal up to rounding otherwise). No assembly ever deadlocks, loses or duplicates a contribution, mixes data of concurrent assemblies, or performs a data race.",
["schedules","inputs","configurations"],"all thread counts, interleavings of element tasks and cache accesses, and concurrent callers",
"Tests run one assembly with whatever schedule happens and check one eigenvalue; nothing perturbs timing, varies the pool or looks for races.",
["src/fem_problem/galerkin.rs","src/fem_problem/linalg.rs","src/fem_domain/basis.rs"],
[("par_extend over an mpsc channel","src/fem_problem/linalg.rs"),("shared basis cache behind a mutex","src/fem_domain/basis.rs"),("par_iter over elements","src/fem_problem/galerkin.rs")],None,["user-supplied integral and basis implementations called from worker threads","ThreadSanitizer"])

p("C11","Gauss-Legendre quadrature is exact to its theoretical degree",
"For every number of points n, the generated points are n distinct, ascending, symmetric values strictly inside (-1, 1) with positive weights that integrate every polynomial of degree up to 2n-1 exactly up to rounding; the variant with end points only adds -1 and 1 around the same rule. Scaling maps the points affinely onto the requested range and reports half its length, and the two-dimensional, interior-only and edge sums built on them are exactly the products, interior parts and single-edge parts they are documented to be.",
["inputs","configurations"],"all point counts in use (1 to well above 100), both variants, all ranges, all integrands",
"Doc examples integrate one monomial with ten points; other counts and the exactness degree are not touched.",
["src/fem_problem/integration/glq.rs"],[("gauss_quadrature_points","src/fem_problem/integration/glq.rs"),("real_gauss_quad*","src/fem_problem/integration/glq.rs"),("scale_gauss_quad_points","src/fem_problem/integration/glq.rs")],None,["points, weights and sums"])

p("C12","Sampled basis functions equal their mathematical definition everywhere",
"For every element, order, direction and sample point, the sampled vector basis function equals the product of its documented one-dimensional normal and tangential functions mapped to real space by the inverse of the element's scaling, and its sampled first and second derivatives equal the analytic derivatives of those functions. Only the first two tangential functions are non-zero at an interval end, one at each end. When an element's function is sampled over a descendant, the values are those of the same function at the descendant's location, with the reported scales equal to the relative size of the descendant.",
["inputs","configurations"],"all element shapes and sizes, all orders up to the maximum, all point sets, all ancestor/descendant pairs of any depth, with and without second derivatives",
"One kind of fixed sampling on a few low orders is tested; mapped sampling over anisotropic descendants and high orders are not.",
["src/fem_domain/basis.rs","src/fem_domain/basis/hierarchical_basis_fns.rs",MD+"elem.rs",MD+"element.rs"],
[("HierCurlBasisFn::defined_over and f_u/f_v families","src/fem_domain/basis.rs"),("HierPoly","src/fem_domain/basis/hierarchical_basis_fns.rs")],None,["sampled values"])

p("C13","Integration by parts agrees with direct integration",
"For every pair of basis functions on an element (or on an ancestor and one of its descendants), the by-parts form of each integral, surface part plus edge parts, equals the direct form of the same integral up to rounding. The result accessors return the surface part, the edge parts and their sum consistently for both forms.",
["inputs"],"all element shapes, materials, orders, directions and ancestor/descendant pairs",
"Tests compare a few functions on one square element.",
["src/fem_problem/integration/integrals.rs","src/fem_problem/integration.rs"],[("integrate_by_parts","src/fem_problem/integration/integrals.rs")],None,["integral results"])

p("C14","Symmetric sparse matrix accumulates, merges and converts exactly",
"For every sequence of insertions, in any order and with row and column in either order, the symmetric sparse matrix holds for each unordered index pair exactly the sum of everything inserted there, iterates its upper triangle once per stored pair in order, and reports the number of entries of the full matrix. Merging one matrix into another adds all entries and empties the source, cloning is independent, and the dense conversion is the full symmetric matrix. Out-of-range indices and mismatched sizes are refused; a refused insertion or merge alters neither matrix, and a refused group adds at most the entries listed before the bad one.",
["inputs","histories"],"all operation sequences, dimensions up to the documented 32-bit limit, all index patterns and values",
"Tests use one 10 by 10 example with six insertions and one merge.",
["src/fem_problem/linalg/sparse_matrix.rs","src/fem_problem/linalg.rs"],[("insert / insert_group / consume_matrix","src/fem_problem/linalg/sparse_matrix.rs"),("From<SparseMatrix> for DMatrix","src/fem_problem/linalg/sparse_matrix.rs")],None,["upper triangle iteration, dense form"])

p("C15","Exported PETSc matrix files decode to exactly the same matrix",
"Every matrix file written for the external solver is a well-formed PETSc binary sparse matrix (big-endian identifier, sizes, row counts, column indices ascending within rows, values) of exactly the right length. Decoding it gives bit for bit the full symmetric matrix that was exported, whatever its pattern, including empty rows, empty matrices and large indices.",
["inputs"],"all sparsity patterns, dimensions and values (including zeros, negative zero, huge and tiny values)",
"The only test writes one file and never reads it back.",
["src/fem_problem/linalg/sparse_matrix.rs","src/fem_problem/linalg.rs"],[("AIJMatrixBinary conversion and print","src/fem_problem/linalg/sparse_matrix.rs"),("print_to_petsc_binary_files","src/fem_problem/linalg.rs")],None,["bytes on disk"])

p("C16","Dense eigensolver returns the true eigenpair nearest the target or an error",
"For every eigenproblem within its size limit whose right-hand matrix is positive definite, the dense solver returns a value and a vector that satisfy the generalized eigenvalue equation, and no other eigenvalue is closer to the target. Oversized problems, right-hand matrices that are not positive definite and problems with only zero eigenvalues are reported by the corresponding error, and normalising a pair gives a unit vector in the same direction.",
["inputs"],"all symmetric pencils up to the size limit, all targets",
"One test compares one returned value with a stored number; no residual is ever computed.",
["src/fem_problem/linalg/nalgebra_solve.rs","src/fem_problem/linalg.rs"],[("nalgebra_solve_gep","src/fem_problem/linalg/nalgebra_solve.rs")],None,["returned eigenpair, residual"])

p("C17","External-solver bridge hands over, reports and cleans up under every outcome",
"Every call to the external sparse solver hands it exactly the two matrices, the target (to ten decimals) and a private file prefix, runs it in the configured directory, and on success returns exactly the value and vector it wrote. Every failure (no configuration, not executable, each documented exit status, any other status or signal, missing, truncated or corrupt result files, unusable scratch directory) comes back as the matching error, never as a panic or a bogus solution. Whatever the outcome, no file of the call is left behind and no unrelated file is touched, also when calls run concurrently.",
["fault_sequences","inputs","schedules"],"all solver outcomes and file-system faults at each step, all matrices, several calls in sequence and at once",
"The only test needs the real solver, which is not installed, and covers only success.",
["src/fem_problem/linalg/slepc_solve.rs","src/fem_problem/linalg.rs","src/fem_problem/linalg/sparse_matrix.rs"],
[("slepc_solve_gep","src/fem_problem/linalg/slepc_solve.rs"),("retrieve_solution / clean_directory","src/fem_problem/linalg/slepc_solve.rs")],None,["stand-in solver process: arguments, working directory, files; scratch directory before and after"])

p("C18","Field evaluation reproduces the superposition of all overlapping functions",
"For every domain, coefficient vector and sampling density in each direction, the computed x and y field at each grid point of each unrefined element is the sum, over that element and all its ancestors, of coefficient times basis function at that point. Derived quantities are exactly the given function applied pointwise to the operand fields of the same point, under the requested name, replacing an earlier one. Wrong coefficient counts and unknown names give errors and leave all existing quantities unchanged.",
["inputs","histories"],"all meshes, refinement histories, order assignments, coefficient vectors, densities (equal or not in the two directions) and sequences of derived quantities",
"Tests only run the functions on one square grid and look at names.",
["src/fem_domain/domain/fields.rs","src/fem_domain/basis.rs"],[("xy_fields, map_to_quantity, expression_2arg","src/fem_domain/domain/fields.rs")],None,["values, through exported files and user closures"])

p("C19","VTK export is well formed and shows every field value at its own location",
"Every exported file is a well-formed legacy VTK unstructured grid: declared counts match the data, and for every unrefined element it holds the regular grid of points covering exactly that element and quadrilateral cells that tile that element without overlap, each listing its corners in circular order. Every requested quantity, and only those, appears once with one value per point, equal to the value the quantity has at that point. Requests naming an unknown quantity fail before any file is created.",
["inputs","configurations"],"all meshes, densities of at least two points per direction (equal or not), sets of quantities",
"Tests write a file with equal densities and never read it.",
["src/fem_domain/domain/fields.rs"],[("print_quantities_to_vkt, print_all_to_vtk, write_vtk_quantity","src/fem_domain/domain/fields.rs")],None,["the file"])

p("C20","Mesh files load into exactly the described mesh; malformed ones are refused",
"Loading a valid mesh file gives one base element per listed element, in order, with exactly the listed corner coordinates and materials, every side shared by two elements represented once with both attached on the correct sides, and boundary markings exactly on the sides with one element and on the nodes lying on them. Numbering and listing order do not affect the described geometry. A missing, syntactically invalid or structurally invalid file (missing sections, wrong lengths or types, unknown or repeated node ids, coincident nodes, a side claimed twice from the same side, a node shared by more than four elements) is always refused.",
["inputs"],"all valid files over axis-aligned rectangles in any numbering, and all files with a defect of the listed kinds",
"Tests load three fixtures and check nothing about rejected files.",
[M,MD+"element.rs",MD+"space.rs"],[("Mesh::from_file, parse_element_information, parse_node_information",M),("Point equality",MD+"space.rs")],None,["loaded mesh or refusal"])

p("C21","JSON mesh export is a faithful picture of the refined mesh",
"Exporting a mesh in any refinement state writes a JSON document that describes every element region, element, node and edge exactly once: ids, materials, corners, sides, parents, children, refinement levels, expansion orders, coordinates, boundary marks, directions, adjacency by side and the active pair. What it says is exactly what the mesh reports, and exporting changes nothing observable about the mesh.",
["inputs","histories"],"all meshes and hp-refinement histories",
"A test writes two files and does not read them.",
[M,MD+"elem.rs",MD+"edge.rs",MD+"node.rs",MD+"element.rs"],[("export_to_json and the to_json methods",M)],None,["the file against the public state"])

p("C22","Mesh and domain queries answer correctly or report a missing item",
"For every mesh and domain, the query calls (corner points, diagonal points, edge points, ancestors, descendants of elements and of edges, maximum orders, refineability, order windows, basis function lists and addresses) return exactly what the refinement tree implies, each item once, with the starting item included or left out as asked and ancestors ordered from nearest to root. For any id or address that does not exist, including the first one past the end, they return the corresponding error instead of failing. Assembly refuses domains without degrees of freedom, with another continuity condition, or with too few quadrature points, each with its own error.",
["inputs","histories"],"all ids and addresses, existing or not, on all meshes and refinement states",
"Doc examples query one small mesh and do not probe ids at the boundary.",
[M,"src/fem_domain/domain.rs","src/fem_problem/galerkin.rs"],[("access methods returning MeshAccessError",M),("get_basis_spec and basis listings","src/fem_domain/domain.rs"),("input checks","src/fem_problem/galerkin.rs")],None,["return values"])

p("C23","Refining never loses anything the coarser discretisation could represent",
"With equal expansion orders on all elements, every vector field representable on a mesh is representable on any further h-refinement of it and on the same mesh with raised orders. Consequently refined spaces never have fewer degrees of freedom and approximations never get worse.",
["inputs","histories"],"all meshes, all further refinement histories with uniform orders, all coefficient vectors",
"No test relates two discretisations to each other.",
["src/fem_domain/domain.rs",M],[("superposition: refined elements keep their edge functions while neighbours need them",M),("Domain::from_mesh","src/fem_domain/domain.rs")],None,["fields of both spaces and the projection residual"])

p("C24","Computed spectra are physically right and invariant under change of description",
"For rectangular cavities with uniform material the eigenvalues of the assembled problem approximate the analytic resonances one for one and in order, to an accuracy set by element sizes and orders (from above on plain grids with uniform orders), with no spurious values between the numerical zeros and the first resonance on any h-refined mesh whose orders do not fall from a refined element to its descendants. The spectrum does not depend on translation, mirroring, exchanging the axes, or on how elements and nodes are numbered. It scales inversely with permittivity, permeability and the square of the size.",
["inputs","histories","configurations"],"all rectangular cavities, meshes and refinement histories; all translations, scalings, axis exchanges and renumberings",
"One eigenvalue on one mesh is compared with a stored number.",
["src/fem_problem/galerkin.rs","src/fem_domain/domain.rs","src/fem_problem/integration/integrals.rs",MD+"element.rs"],
[("whole pipeline","src/fem_problem/galerkin.rs")],None,["generalized eigenvalues of the assembled matrices"])

p("C25","The basis sampling cache is invisible",
"Whatever is requested from a basis sampler, in any order, repeatedly, through any number of clones and from any number of threads at once, each answer is exactly what a fresh computation for that element and descendant would give. Requests for different elements, descendants or samplers never share an answer, and a failure in one request does not change the answers of later ones.",
["inputs","schedules","histories"],"all request sequences over all element/descendant pairs, clones and threads",
"No test asks a sampler for more than one or two functions.",
["src/fem_domain/basis.rs"],[("BasisFnSampler::sample_basis_fn and its shared map","src/fem_domain/basis.rs")],None,["returned samples, compared with direct construction","number of constructions seen by a user-supplied space"])

p("C26","Parametric positions and real-space geometry always agree",
"For every element, the parametric range it reports, relative to its base element or to any ancestor, mapped to real space gives exactly the rectangle spanned by its corner nodes, and the reported transformation has exactly that rectangle's half width and half height, zero off-diagonal terms and a positive determinant. The list of recorded split positions back to the base element reproduces those ranges, and composing a child's range with its parent's gives the range of the whole path. The small vector, matrix and point operations used for this satisfy their algebraic definitions.",
["inputs","histories"],"all base element positions and sizes, all refinement histories of any depth, all ancestor/descendant pairs",
"One test follows two fixed four-step paths.",
[MD+"elem.rs",MD+"element.rs",MD+"h_refinement.rs",MD+"space.rs"],[("relative_parametric_range, parametric_range",MD+"elem.rs"),("parametric_mapping",MD+"element.rs"),("V2D, M2D, Point",MD+"space.rs")],None,["ranges, matrices and node coordinates"])

p("C27","Everything computed is right for any function family a user supplies",
"With any function space supplied through the public trait (normal functions, and tangential functions of which only the first two do not vanish at the interval ends), sampled functions and their derivatives, direct and by-parts integrals, assembled matrices and exported fields are built from exactly that space's functions, in their normal and tangential roles, just as they are from the built-in one, and fields stay tangentially continuous. The space is only asked for points within its interval, for orders up to the announced one, and for second derivatives only when they were announced. Families that span the same space yield the same spectrum.",
["inputs","histories"],"all function families of the supported kind, all domains, orders, materials and sampling densities",
"Every test uses the built-in family, whose normal and tangential functions share several derivatives, so mixing them up changes nothing there.",
["src/fem_domain/basis.rs","src/fem_problem/integration/integrals.rs","src/fem_problem/galerkin.rs","src/fem_domain/domain/fields.rs"],
[("HierCurlBasisFnSpace and HierCurlBasisFn","src/fem_domain/basis.rs"),("galerkin_sample_gep_hcurl over a generic space","src/fem_problem/galerkin.rs"),("xy_fields over a generic space","src/fem_domain/domain/fields.rs")],None,["calls received by a supplied space","sampled values, integrals, matrices, fields"])

p("C28","The same requests give the same result; clones are independent",
"Loading the same mesh file and making the same requests gives, every time and on every thread, whatever other meshes and domains the process handled before or handles at the same time, the same answers and errors, the same ids and lists of elements, nodes, edges, basis functions and degrees of freedom and the same exported mesh file, and matrices and fields that are equal up to rounding. Requests made to a clone of a mesh affect neither the original nor any other clone, and a clone answers as the original would have.",
["inputs","histories","schedules"],"all sequences of requests, in one process, repeated, interleaved with others and on several threads; all distributions of requests over clones",
"Every test builds each mesh once and looks at it alone; a hidden dependence on earlier work, on hash order or on other threads never shows.",
[M,"src/fem_domain/domain.rs","src/fem_problem/galerkin.rs","src/fem_domain/domain/fields.rs"],
[("Mesh construction and refinement, Clone",M),("Domain::from_mesh numbering","src/fem_domain/domain.rs"),("galerkin_sample_gep_hcurl","src/fem_problem/galerkin.rs")],None,["complete transcripts of repeated, concurrent and cloned work"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n)
print(len(P))
