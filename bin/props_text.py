NA = []
p('P01', 'A sparse matrix behaves exactly like the dense matrix it stands for',
  'For any declared non-zero pattern and any history of declaring entries, compressing, adding values, resetting to zero, re-initialising and sharing a pattern between matrices, reading every entry gives exactly the sum of the values added to it since the last reset (zero outside the pattern; both triangles of a symmetric matrix agree), and the row/column/entry counts and compressed-row arrays describe that same matrix. Products with vectors (plain, transposed, scaled, accumulated) equal the dense product. Writing a value outside the declared pattern or out of range is refused instead of corrupting another entry.',
  ['histories', 'inputs'], 'all patterns of small matrices, all add/reset/read/share histories up to a depth, all product variants',
  'tests/SparseMatrix cover a few fixed matrices; a wrong index for one pattern, or a state leak after re-initialisation or sharing, needs the whole pattern/history space',
  ['src/lib/math/SparseMatrix.h', 'src/lib/math/SparseMatrix.cpp'],
  [('SparsityInfo::addEntry/compress/getIndex', 'src/lib/math/SparseMatrix.cpp'), ('matBVprod family', 'src/lib/math/SparseMatrix.cpp')])
p('P02', 'A block matrix routes every entry to the right block and coordinate',
  'A matrix cut into blocks of any sizes (including empty ones) behaves as one big matrix: a pattern entry or value addressed by global row and column lands in the block and local coordinate that contain it, for symmetric matrices in the stored triangle, and reading it back globally or through the block gives the same sum. Compressing, zeroing and sharing the pattern with another block matrix act on all blocks at once and never mix blocks.',
  ['histories', 'inputs', 'configurations'], 'all block partitions of small totals, all entry sequences up to a depth',
  'no test drives unequal or empty blocks, or shared patterns', ['src/lib/math/BlockSparseMatrix.h'],
  [('BlockSparseSymMatrix/BlockSparseMatrix addressing', 'src/lib/math/BlockSparseMatrix.h')])
p('P03', 'Text dumps of matrices and vectors read back exactly',
  'A sparse matrix or vector written as text to any output stream, whatever its formatting state, and read back (or compared with the reading routine) gives the same size, pattern and bit-for-bit the same values, and the writing leaves the formatting state of the stream as it found it. A system dumped by the solver compares equal with itself when solved again, and a dump that differs in any entry beyond the threshold, or is cut off, is refused; a NaN is equal to no number.',
  ['inputs', 'configurations', 'histories'], 'all small matrices/vectors over an alphabet of extreme values, all stream states, all single-entry perturbations',
  'tests read files written once with friendly values', ['src/lib/math/SparseMatrix.cpp', 'src/lib/math/Vec.cpp', 'src/lib/FESolver.cpp'],
  [('writeCoordinateTextFormat/readCoordinateTextFormat', 'src/lib/math/SparseMatrix.cpp'), ('dVec write/read/compare', 'src/lib/math/Vec.cpp'), ('dumpMatricesAndVectors/compareMatricesAndVectors', 'src/lib/FESolver.cpp')])
p('P04', 'Vectors and their views alias, copy and compute like plain arrays',
  'A vector owns its values or is a view on a range of another one: for every sequence of creating, resizing, re-initialising, copying, assigning (also from a view on itself), zeroing and arithmetic, each vector has the size and values of the reference array, writing through a view changes exactly the elements it covers, and copies are independent. Operations on vectors of different sizes, views out of range and indices out of range are refused.',
  ['histories', 'inputs'], 'all operation sequences on small vectors and overlapping views up to a depth',
  'tests do not combine views with assignment and resizing', ['src/lib/math/Vec.h', 'src/lib/math/Vec.cpp'], [('dVec', 'src/lib/math/Vec.cpp')])
p('P05', 'Dense vector and matrix operations equal the textbook formulas',
  'Every dense operation of the math layer on fixed-size and dynamic vectors and matrices - products (including the symmetric B-transpose-D-B kernels, with any scale factor and added to what the destination held), transposes, sums, determinants, inverses, eigenvalues of symmetric 3x3 matrices, symmetric storage addressing, conversions and printing - gives the mathematical result up to rounding, for every size the library instantiates and every operand. Copies of dynamic matrices are independent, and assigning one to itself keeps it. Inverting with a zero determinant and reading outside the range are refused.',
  ['inputs', 'histories'], 'all unit operands (which decide every multilinear kernel completely) and full integer operands for each instantiated shape; all small matrices over a value alphabet; all 4-step histories of dynamic matrices',
  'tests check a handful of random operands of a few shapes; a wrong index in one component of one shape, a lost accumulation or a degenerate eigenvalue needs all positions',
  ['src/lib/math/Mat.h', 'src/lib/math/Mat.cpp', 'src/lib/math/Vec.h'], [('matBTDBprod / matBVprod / MatSym / dMat', 'src/lib/math/Mat.h')])
p('P06', 'Equation solvers return the solution of the system they are given',
  'For every non-singular symmetric system (definite or indefinite, any sparsity pattern that contains its non-zeros, any scaling) the built-in Gauss solver (up to 999 equations) and the PARDISO solver return a vector that satisfies the equations, whatever systems of other sizes, patterns or values the same solver object solved before and whether it is asked to factorize and solve separately or at once. The matrix handed in is not changed. Gauss refuses systems that are exactly singular (an empty or duplicated row) and systems above its size limit instead of returning numbers, and a solver object that never solved anything can be destroyed.',
  ['inputs', 'histories'], 'all symmetric matrices up to 3x3/4x4 over a value alphabet, all histories of 4 solves on one object, banded systems of all sizes up to 40 and some up to 300',
  'tests solve one system per solver; reuse of a solver object and indefinite patterns with zero diagonals are never tried', ['src/lib/math/EquationSolver.h', 'src/lib/math/EquationSolver.cpp'],
  [('GaussDenseEquationSolver', 'src/lib/math/EquationSolver.cpp'), ('PARDISO_equationSolver', 'src/lib/math/EquationSolver.cpp')])
p('P07', 'Every DoF gets exactly one equation, constrained ones first, MPCs last',
  'Whatever nodal and element degrees of freedom the elements register, in whatever order and with whatever repetitions, exactly the registered ones exist, and after numbering each has its own equation number: constrained ones take 1..Nc, the free ones the following numbers without gaps, and constraint equations the rest. The reported counts agree with that numbering. Models with no degree of freedom, or with all of them constrained, are refused, and labels and types of degrees of freedom translate into each other both ways.',
  ['histories', 'configurations', 'inputs'], 'all registration/initialisation sequences up to a depth, all one- and two-element models over small connectivities, all subsets of constrained dofs, 0..2 MPCs',
  'tests use meshes in which every node has the same dofs', ['src/lib/Dof.h', 'src/lib/Dof.cpp', 'src/lib/FEStorage.cpp'],
  [('DofCollection', 'src/lib/Dof.h'), ('FEStorage::assignEquationNumbers', 'src/lib/FEStorage.cpp')])
p('P08', 'Global matrices are exactly the sum of the element contributions',
  'After assembling, every entry of the global stiffness, damping and mass matrices and of the force vector equals the sum over elements (each with distinct nodes) of the element entry that belongs to that pair of degrees of freedom - nodal or element ones, constrained or not, any node order, any number of elements sharing a node - plus the coefficients and right-hand sides of the constraint equations. Static models get no damping and mass contributions. Assembling again gives the same matrices and does not accumulate.',
  ['inputs', 'configurations', 'histories'], 'all ordered connectivities of one and two elements over four nodes, all dof layouts, constraint modes, MPC sets; stars of up to 130 elements',
  'tests compare final displacements of a few meshes; a lost contribution for one dof layout or node order would not show', ['src/lib/FEStorage.h', 'src/lib/FEStorage.cpp', 'src/lib/elements/element.h'],
  [('Element::assembleK/C/M', 'src/lib/elements/element.h'), ('FEStorage::addValueK/addValueF', 'src/lib/FEStorage.h')])
p('P09', 'The linear static solution satisfies supports, constraints and equilibrium',
  'For every linear model with enough supports, the solution takes the prescribed values exactly, satisfies all constraint equations, and leaves every free degree of freedom in equilibrium: stiffness times solution equals applied load plus element forces plus constraint forces. The reported reaction of a prescribed degree of freedom is what is needed to balance it, and at a free one it is the applied load. Loads given several times for one place add up, and a model whose equations are exactly singular (an unsupported spring chain) is refused by the built-in solver rather than answered. The system is solved by the equation solver the user attached last, or made the default, and by no other.',
  ['inputs', 'configurations'], 'all sets of prescribed dofs on small meshes and chains, several values, loads and constraint sets',
  'tests check a few meshes with one support pattern each', ['src/lib/FESolver.cpp', 'src/lib/FEStorage.cpp'], [('LinearFESolver::solve', 'src/lib/FESolver.cpp'), ('FESolver::applyBoundaryConditions', 'src/lib/FESolver.cpp')])
p('P10', 'Time stepping covers the requested interval exactly',
  'Whatever step lengths are requested and however many iterations each step takes, the stepping starts at the start time, time strictly increases, every step is recorded once with its number, length and normalised time, no step goes beyond the end time, and the last step ends exactly at the end time (normalised 1). N equal steps give exactly N steps, also for intervals and N whose step length is not exactly representable. Asking for another step after the end gives none and changes nothing.',
  ['histories', 'inputs'], 'all sequences of 6 steps over 4 step sizes and iteration counts on many intervals; every N up to 5000 on 10 intervals',
  'the TimeControl test runs one interval', ['src/lib/FESolver.h', 'src/lib/FESolver.cpp'], [('TimeControl', 'src/lib/FESolver.cpp')])
p('P11', 'Every reported load step of a nonlinear analysis is an equilibrium state',
  'In an incremental-iterative analysis each load step handed to the post-processors has the prescribed values scaled by the normalised time, satisfies the constraint equations in incremental form, and leaves the free degrees of freedom balanced to the convergence criterion, with reactions that balance the element forces; steps are reported once, in order, with the last one at full load. A step that does not converge within the allowed iterations, or diverges, stops the analysis and is not reported. The end state does not depend on the number of load steps (path-independent models).',
  ['histories', 'inputs', 'configurations'], 'all prescribed sets on 5 spring networks, load step numbers, iteration limits, criteria, stiffness scalings',
  'the nonlinear tests compare one curve at a loose tolerance', ['src/lib/FESolver.cpp'], [('NonlinearFESolver::solve', 'src/lib/FESolver.cpp')])
p('P12', 'The transient solution follows the Newmark scheme at every step',
  'For every model with stiffness, damping and mass (each possibly absent), started at rest from a uniform initial value, with constant loads and constant prescribed values, every stored time step satisfies the discrete equations of motion of the Newmark scheme with the chosen parameters: values, velocities and accelerations obey the update formulas, prescribed degrees of freedom keep their value, constraints hold. Exactly the requested number of steps is made and each is handed to the post-processors once with its number.',
  ['inputs', 'configurations', 'histories'], 'all prescribed sets on 4 meshes, 4 parameter sets, presence of C and M, several intervals and step numbers; every number of steps up to 200',
  'one transient test with delta=0.5, zero prescribed values', ['src/lib/FESolver.cpp'], [('LinearTransientFESolver::solve', 'src/lib/FESolver.cpp')])
p('P13', 'Rigid body constraints move their slaves rigidly with the master node',
  'In every equilibrium state reported by the nonlinear solver, each slave node of a rigid body constraint sits, in the tied directions, where the rigid motion of the master (its translation and its rotation vector, also for large rotations and at zero rotation) takes it, for every choice of slaves, tied directions, node numbering and way of driving the master; untied directions stay free. The linear solver gives the small-rotation form of the same motion. The printed form of a constraint equation lists all its terms and its right-hand side.',
  ['inputs', 'configurations', 'histories'], 'all slave sets of 4, all direction sets, 27 rotations, 3 drives, both node orders; tangent at 125 rotations',
  'the rigid body test runs one block with one rotation', ['src/lib/Mpc.h', 'src/lib/Mpc.cpp'], [('RigidBodyMpc::update', 'src/lib/Mpc.cpp')])
p('P14', 'A mesh file is read as exactly the model it describes',
  'Reading an ANSYS CDB file gives exactly its nodes, elements, prescribed values, loads, constraint equations and named components - for any field widths declared in the headers, any mix and order of sections, Unix or DOS line ends, upper-case labels, with ranges in components expanded - and reading a NEU mesh gives its nodes, cells and groups. A file cut off after any line yields nothing that the full file does not have; a missing file is reported and leaves the data alone. The tokenising and line-reading helpers split any text at exactly the given delimiters, widths and line ends.',
  ['inputs', 'fault_sequences', 'histories'], 'all section sequences up to 3, all formats, component patterns, truncations at each line (NEU: at each number), all short strings for the helpers',
  'the reader test reads three files written by one program', ['src/lib/FEReaders.h', 'src/lib/FEReaders.cpp', 'src/lib/sys.cpp'], [('readCdbFile / readNeuFile / Tokenizer', 'src/lib/FEReaders.cpp')])
p('P15', 'Node numbers and record order carry no meaning',
  'Compressing the numbering of a mesh (any injective numbering, with gaps or out of order) renumbers the nodes to 1..N and rewrites every reference - elements, prescribed values, loads, constraint equations, components - so that each still names the same node. The nla3d program reports the same reactions, up to rounding, for a mesh file whatever numbers its nodes carry and in whatever order its nodes, elements and boundary conditions are listed.',
  ['inputs', 'configurations'], 'all injective numberings of up to 4 nodes, all permutations of 6; the program on all 720 numberings and 720 record orders of a two-element mesh',
  'the test meshes are numbered 1..N in order', ['src/lib/FEReaders.cpp', 'src/main.cpp'], [('MeshData::compressNumbers', 'src/lib/FEReaders.cpp')])
p('P16', 'Each VTK file shows the mesh and the solution of its own step',
  'For every mix of element shapes, degrees of freedom and result queries, one VTK file is written for the initial state and one for each step, numbered like the steps; it holds all nodes, all cells with the right VTK type and node order, the nodal and element solution and reactions of that step (zero where a degree of freedom does not exist), and the scalar, vector and tensor results of every registered or discovered query, each under its own label and zero for elements that do not support it.',
  ['configurations', 'histories', 'inputs'], 'all sequences of 1..2 elements over 8 shapes and dof sets, all masks of tensor and vector queries, up to 12 steps',
  'no test reads a VTK file back', ['src/lib/VtkProcessor.h', 'src/lib/VtkProcessor.cpp'], [('VtkProcessor::write_*', 'src/lib/VtkProcessor.cpp')])
p('P17', 'The reaction report is the sum of the node reactions of every step',
  'For every set of nodes and degrees of freedom the reaction report holds, after a zero for the initial state, one value per degree of freedom and step: the sum over the listed nodes of the reactions of that step (nodes without that degree of freedom add nothing), and the optional file shows the same numbers in order. Without an explicit choice the degrees of freedom constrained at the first node in this analysis are reported, and node sets that do not all constrain them are refused. Asking for a degree of freedom that is not reported gives an empty list, a file that cannot be created does not affect the values, and an empty set of nodes has nothing to report.',
  ['configurations', 'histories', 'inputs'], 'all sets of constrained dofs of a chain, 8 node lists, 7 dof lists, linear and 1..20 load steps, with and without file',
  'tests use one node set on one model', ['src/lib/ReactionProcessor.h', 'src/lib/ReactionProcessor.cpp'], [('ReactionProcessor::pre/process', 'src/lib/ReactionProcessor.cpp')])
p('P18', 'Hyperelastic materials are the exact derivatives of their strain energy',
  'For every Neo-Hookean, Biderman and Mooney-Rivlin material, every isotropic material a user derives from the same base class by giving W and its derivatives, and every deformation with a positive determinant, the stress returned for a Cauchy-Green tensor C and pressure p is the second Piola-Kirchhoff stress of the energy W(I1 J^-2/3, I2 J^-4/3) + p J, the tangents returned are the derivatives of that stress with respect to C and to p, and an undeformed body without pressure is free of stress, whatever list of components is asked for and in whatever order (only the listed ones are written). The invariants, the volume ratio, the inverse of C and the strain computed from C are the textbook ones. The factory gives, by exact name, a new independent material of that name whose constants are read and set by index or by name.',
  ['inputs', 'configurations'], 'all materials and constant sets over a small alphabet, all diagonal and sheared deformations of a grid, all ordered component lists used or short ones, all constants by both ways of access',
  'the repository has no test of a material: only load curves of two models at a loose tolerance', ['src/lib/materials/material_hyperelastic.h', 'src/lib/materials/material_hyperelastic.cpp', 'src/lib/materials/MaterialFactory.cpp', 'src/lib/materials/material.cpp'],
  [('Mat_Hyper_Isotrop_General::getDdDp_UP / getS_UP / W_first_derivatives', 'src/lib/materials/material_hyperelastic.cpp'), ('MaterialFactory::createMaterial', 'src/lib/materials/MaterialFactory.cpp')])
p('P19', 'Isoparametric shapes integrate and differentiate exactly',
  'For every quadrilateral and hexahedron with a positive Jacobian, in any position and node start, the form functions and their derivatives are the bilinear and trilinear ones, the Gauss rule of order n (1 to 3, other requests are brought into that range) integrates polynomials up to degree 2n-1 in each natural direction exactly, the weights times the Jacobian give the area or volume, and the derivatives with respect to global coordinates at each integration point are exact for linear fields and follow the chain rule. Preparing again after the nodes moved or the order changed describes the new state.',
  ['inputs', 'configurations', 'histories'], 'a grid of node displacements on the reference cells, all orders, all monomials, all short histories of re-preparation',
  'no test of the isoparametric layer', ['src/lib/elements/isoparametric.h', 'src/lib/elements/isoparametric.cpp'],
  [('ElementIsoParamQUAD/HEXAHEDRON::makeJacob', 'src/lib/elements/isoparametric.cpp')])
p('P20', 'Element matrices are those of the energy each element stands for',
  'For every element type (TRUSS3, TRIANGLE4, TETRA0 with thermal and initial strains, TETRA1, QUADTH and its convection side SurfaceLINETH, INTER0, INTER3, PLANE41, SOLID81), every positively oriented shape, position, node order and material, the element stiffness, damping and load equal the derivatives of the energy (or heat flow) of the continuum they discretise: symmetric, without forces for a rigid motion or a uniform temperature, and for the mixed nonlinear elements the residual and tangent of the same potential at the current state. Element states after an update belong to the current solution and do not depend on updates made before.',
  ['inputs', 'configurations', 'histories'], 'a grid of shapes, orientations, cyclic and permuted node orders, materials, thicknesses, plane states, displacement states per element type; all histories of up to 3 updates',
  'tests check final displacements of a few meshes with friendly shapes', ['src/lib/elements/TRUSS3.cpp', 'src/lib/elements/TRIANGLE4.cpp', 'src/lib/elements/TETRA0.cpp', 'src/lib/elements/TETRA1.cpp', 'src/lib/elements/QUADTH.cpp', 'src/lib/elements/INTER0.cpp', 'src/lib/elements/INTER3.cpp', 'src/lib/elements/PLANE41.cpp', 'src/lib/elements/SOLID81.cpp'],
  [('Element::buildK / buildC / update', 'src/lib/elements')])
p('P21', 'Result queries report the state of the element, scaled and added',
  'For every element type and query it answers, a result query adds the requested factor times the quantity to what the destination already holds, at the given integration point or, for the mean, as the weighted average over the element: stresses, strains, deformation and Cauchy-Green tensors, invariants, volume, pressure, energies, heat flux and temperature gradient as their names say. A query the element does not know answers false and leaves the destination untouched. Asking never changes the element, so the answers do not depend on the order or number of queries.',
  ['inputs', 'configurations', 'histories'], 'every query code of every type (scalar, vector, tensor) on every element over the states of P20, integration points and mean, several factors and start values, repeated',
  'tests read two or three queries at the mean with factor 1', ['src/lib/elements/SOLID81.cpp', 'src/lib/elements/PLANE41.cpp', 'src/lib/elements/TRIANGLE4.cpp', 'src/lib/elements/TETRA0.cpp', 'src/lib/elements/TETRA1.cpp', 'src/lib/elements/INTER0.cpp', 'src/lib/elements/INTER3.cpp', 'src/lib/elements/query.h'],
  [('Element::getScalar / getVector / getTensor', 'src/lib/elements')])
p('P22', 'A model can be built, solved, changed, cleared and solved again in any order',
  'FEStorage and the solvers own what they are given: whatever sequence of building (nodes, elements, constraints, collections of constraints, components, materials, post-processors), solving, deleting and rebuilding a program performs, every object is destroyed exactly once and as its own class, no stale pointer is read, and the counts and lists reported afterwards describe the current model only. Every analysis gives the same answer as a freshly built model with the same supports and loads, also when the same solver or the same storage was used before. The element factory creates exactly the element asked for and refuses unknown names; assigning one element to another copies its connectivity and nothing else; the printed forms of elements, nodes, materials, components and constraints show what they contain.',
  ['histories', 'configurations', 'resources'], 'all sequences of building, solving and deleting operations up to depth 4 from nothing and 5 from a model (one more in the thorough run) on models of one or two elements, under AddressSanitizer; every pair of analyses of one model; all edits of one character of the element names',
  'every test builds one model, solves it once and exits without looking at destruction', ['src/lib/FEStorage.cpp', 'src/lib/FEStorage.h', 'src/lib/FESolver.cpp', 'src/lib/Mpc.h', 'src/lib/PostProcessor.h', 'src/lib/materials/material.h', 'src/lib/elements/ElementFactory.cpp'],
  [('FEStorage life cycle', 'src/lib/FEStorage.cpp'), ('FESolver ownership', 'src/lib/FESolver.cpp')])
p('P23', 'The nla3d program solves the problem its arguments and mesh file describe',
  'The command line program solves exactly the model in the mesh file (elements of type 1, supports, loads, constraint equations, optional rigid body) with the requested element, material constants, number of load steps and iteration limit, whatever the order of options, records and node numbers: the reaction table has one row per load step and one column per requested (or automatically chosen) degree of freedom, and reactions, displacements, rotations and pressures in the table and in the VTK files are those of the equilibrium at each load step. The comparison with a reference curve reports the mean absolute difference and ends with a non-zero status exactly when it exceeds the threshold. Wrong or missing arguments, files or components, and an iteration limit that is too small, end with a non-zero status instead of results.',
  ['inputs', 'configurations'], 'all combinations of options and their orders on plate and block models, mesh contents, numberings, rigid body motions, reference curves and thresholds, a list of wrong arguments; all short argument vectors and strings for the helpers',
  'the program is run by a few tests on large meshes with one option set each, compared with a stored curve under a loose threshold', ['src/main.cpp', 'src/lib/sys.cpp', 'src/lib/sys.h'],
  [('main / parse_args / compareCurves / readRefCurveData', 'src/main.cpp'), ('getCmdOption / getCmdManyOptions / getFileNameFromPath / read_tokens', 'src/lib/sys.cpp')])
p('P24', 'The Python module shows the library as Python objects',
  'Used from Python, the library computes what it computes in C++ and keeps the rules of Python: vectors and matrices hold, print, iterate and combine the values put into them; an index or shape that is not valid raises an error and changes nothing; names of the same object see the same values, assignment to a member copies, updating in place (also of a member such as a node position) keeps every object usable; whatever is handed to a model or a solver stays alive exactly as long as its owner, for every order in which a program lets its objects go; elements are seen through their own type only; mesh files read from Python contain what they describe, and models built from Python have the displacements, temperatures, stresses, reactions and files of the problem they state.',
  ['inputs', 'histories', 'configurations', 'resources'], 'all operation sequences up to depth 4 (5 in the thorough run) on vectors, matrices and members; all 5040 orders of releasing 7 objects; all indices around the bounds; grids of mesh files, trusses, conduction (steady and transient) and tetrahedral models',
  'the Python scripts of the test directory solve one model each and let the interpreter exit', ['python/nla3d.swg', 'src/lib/math/Vec.h', 'src/lib/math/Mat.h', 'src/lib/FEStorage.h', 'src/lib/FESolver.h', 'src/lib/FEReaders.h'],
  [('VEC_EXTEND / MAT_EXTEND / MATSYM_EXTEND', 'python/nla3d.swg'), ('addNode / addElement / addMpc / addMpcCollection / addPostProcessor', 'python/nla3d.swg')])
