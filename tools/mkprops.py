import json
P=[]
def add(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="dune/istl/"
add("C01","Sparse matrix construction yields exactly the requested pattern and values",
"Whatever build mode is used to create a block compressed row matrix (row by row with or without a size hint, random with exact or oversized rows, whole-row index lists, implicit with any average row length and overflow fraction), the finished matrix contains exactly the requested positions in ascending column order with exactly the values assigned to them. Existence queries, element lookup, iteration in both directions, row sizes and the nonzero count all describe that same set. Misuse that the interface documents as an error (indices out of range, wrong build order, exhausted overflow storage) is reported as an exception, never as silent corruption.",
["inputs","configurations","histories"],"for every size, sparsity pattern (empty rows, full rows, rectangular shapes), insertion order with duplicates, build mode, average/overflow parameter and block type",
"The tests build a handful of fixed banded patterns; index compaction, overflow merging and row search depend on the order and number of insertions per row, a combinatorial space no list of examples covers.",
[I+"bcrsmatrix.hh"],[("row-wise creation","BCRSMatrix::CreateIterator"),("random build mode","BCRSMatrix::setrowsize/endrowsizes/addindex/setIndices/endindices"),("implicit build mode and compression","BCRSMatrix::entry/compress")],"matrix contents through exists/find/operator[]/iterators, getrowsize and nonzeroes after construction",
[("ready/build_mode","stage of construction","BCRSMatrix")])
add("C02","Sparse matrix lifecycle histories behave like value types",
"After any history of creation, rebuilding, resizing, copying, assignment from matrices and scalars, and in-place arithmetic, each matrix holds what a simple map from positions to values would hold after the same history. Copies never share values with their source, failed operations leave other matrices untouched, and no history accesses memory out of bounds or loses memory.",
["histories"],"for every sequence of lifecycle and arithmetic operations over several live matrices in every build mode",
"Tests exercise single operations on fresh matrices; sharing of index storage, cached counts and reuse of allocations only go wrong along particular operation sequences.",
[I+"bcrsmatrix.hh"],[("copy/assign","BCRSMatrix copy constructor, operator="),("storage handling","BCRSMatrix::allocate/deallocate/setSize"),("arithmetic","BCRSMatrix::operator*=,/=,+=,-=,axpy")],"contents of all live matrices after each step; AddressSanitizer",
[("shared index array","column indices shared between copies","BCRSMatrix::j_")])
add("C03","All matrix containers realise the same linear maps, algebra and norms",
"For every matrix container (sparse, dense, block diagonal, block tridiagonal, scaled identity, heterogeneous block matrices) every product with a vector - plain, transposed or Hermitian, adding, subtracting or scaled - equals the product with the dense matrix of its entries, and in-place arithmetic and the Frobenius norm equal those of that dense matrix, and the maximum norms are the largest row sum of the (recursively defined) norms of the entries. The result never depends on what the output vector contained when it is documented to be overwritten, and no operation changes its input operands.",
["inputs","configurations"],"for all shapes including rectangular blocks and empty rows, all nesting types, real and complex fields, all vectors and scalars",
"Fixed tests use square symmetric examples whose transposed and plain products agree and whose complex parts vanish, so wrong conjugation, block ordering or rectangular shapes stay invisible.",
[I+"bcrsmatrix.hh",I+"matrix.hh",I+"bdmatrix.hh",I+"btdmatrix.hh",I+"scaledidmatrix.hh",I+"multitypeblockmatrix.hh",I+"operators.hh"],[("matrix-vector products","mv/umv/mmv/usmv/mtv/umtv/mmtv/usmtv/umhv/mmhv/usmhv of each container"),("norms","frobenius_norm(2)/infinity_norm(_real)"),("linear operator wrapper","MatrixAdapter::apply/applyscaleadd")],"output vectors, entries and norms compared with a dense reference in exact integer arithmetic")
add("C04","Vector containers are a vector space with value semantics over every history",
"Block vectors, vectors with variable block sizes and heterogeneous block vectors behave under every history of construction, resizing, copying, assignment, arithmetic and element access like plain arrays of their scalar entries. Dot products (with and without conjugation), all norms, dimension and size queries equal those of the flattened array, and a not-a-number entry is reported by the maximum norms.",
["histories","inputs"],"for every sequence of operations over several live vectors with every block structure including empty vectors, real and complex fields",
"Tests check one arithmetic expression on constant vectors; storage reuse on resize, block offset tables and iterator positions depend on the preceding history.",
[I+"bvector.hh",I+"vbvector.hh",I+"multitypeblockvector.hh",I+"basearray.hh"],[("vector algebra","block_vector_unmanaged operators, axpy, dot, norms"),("resize and reserve","BlockVector::resize/reserve"),("variable block storage","VariableBlockVector::resize/CreateIterator/operator=")],"flattened contents and returned scalars after each step; AddressSanitizer")
add("C05","Sparse products and index sets are exact",
"Sparse matrix products and products with a transposed factor equal the mathematically exact product and contain every structurally possible entry exactly once; transposing a dense matrix of scalars mirrors its entries. An index set accumulates exactly the set of positions added to it, whatever the order and multiplicity, its per-row sizes and iteration agree with that set, and a matrix built from it has precisely this pattern while the values of other matrices are untouched.",
["inputs","histories"],"for all compatible shapes, patterns (empty rows and columns, zero-sized), block shapes and insertion histories including storage switches",
"Index bookkeeping errors need asymmetric patterns, colliding products or rows long enough to switch the storage representation, which the single fixed example in the tests does not have.",
[I+"matrixmatrix.hh",I+"matrixindexset.hh",I+"bcrsmatrix.hh",I+"matrix.hh",I+"matrixutils.hh"],[("sparsity of products","MatMultMat/transposeMatMultMat/matMultTransposeMat"),("index set","MatrixIndexSet::add/import/exportIdx/columnIndices")],"pattern and entries of results against dense reference")
add("C06","Matrix and vector files round-trip and are read as the format defines",
"Writing any matrix or vector in the MatrixMarket format and reading it back yields the same sizes, pattern and values up to the written precision; files with general, symmetric, skew-symmetric or Hermitian storage, in real, integer or complex fields, are read as the matrix the format defines, scalar or blocked. Malformed headers, comments or indices are rejected by an exception and never crash or loop; a missing or unknown banner means the default format; the parallel variant restores the index sets as well, and the export for numerical packages describes exactly the entries of the matrix.",
["inputs"],"for all matrices and vectors including rectangular blocks, empty rows, extreme values and all header variants",
"The parser and the writer are tested with a few files; a round trip over arbitrary structure and every combination of header words, symmetry and block shape is an unbounded input space.",
[I+"matrixmarket.hh",I+"io.hh"],[("writer","storeMatrixMarket/writeMatrixMarket"),("reader","readMatrixMarket/loadMatrixMarket"),("matlab export","writeMatrixToMatlab/writeVectorToMatlab")],"reloaded containers versus originals and versus a reference parser")
add("C07","Direct solvers solve the system they were given, every time",
"For every nonsingular matrix the sparse direct solvers return a solution whose residual is at roundoff level, for scalar and blocked matrices, for repeated right-hand sides, and after the solver object was given a new matrix. A solver set up on a subset of rows, or told to ignore a set of degrees of freedom, solves exactly the restricted system and leaves ignored entries untouched. Applying a solver changes neither the matrix nor the meaning of later applications.",
["inputs","histories"],"for all nonsingular (or symmetric definite where required) matrices, block sizes, right-hand sides, row subsets, ignore sets and sequences of setMatrix/apply",
"The tests solve one Laplace problem; index conversion to column storage, subset renumbering and object reuse are only stressed by irregular unsymmetric patterns and repeated setups.",
[I+"umfpack.hh",I+"superlu.hh",I+"ldl.hh",I+"spqr.hh",I+"cholmod.hh",I+"bccsmatrixinitializer.hh",I+"supermatrix.hh"],[("column storage conversion","BCCSMatrixInitializer/SuperMatrixInitializer"),("setup and solve","UMFPack/SuperLU/LDL/SPQR/Cholmod::setMatrix/apply")],"residual against independent dense arithmetic; ignored entries")
add("C08","Iterative solvers tell the truth about convergence",
"When an iterative solver reports convergence, the residual of the returned iterate satisfies the requested reduction relative to the initial residual (up to roundoff of the recurrences used); when it does not report convergence, the iteration limit was reached or an abort was signalled. The reported iteration count, reduction and flag are consistent with each other and with the work actually done, the returned right-hand side is what is documented, and every call terminates. Convergence is measured in the norm the method monitors (residual norm; preconditioned residual for GMRes; the norm induced by the preconditioner for MINRES), several right-hand sides solved at once are each treated like a system of their own, and for well-conditioned systems the Krylov methods converge within the number of iterations their theory guarantees.",
["inputs","configurations"],"for all solvable systems in each solver's admissible class, start vectors, reductions, iteration limits, restarts and preconditioners",
"Convergence claims are checked by the tests only on one Laplace matrix where every method works; early breakdown, restarts, zero right-hand sides, exact start values and tiny systems need a search.",
[I+"solvers.hh",I+"solver.hh",I+"scalarproducts.hh"],[("iteration control","IterativeSolver::Iteration"),("Krylov methods","LoopSolver..CompleteFCGSolver::apply")],"InverseOperatorResult and true residual b-Ax computed independently")
add("C09","Solver objects are reusable: results do not depend on earlier calls",
"Applying the same solver object to a sequence of systems gives in each call the same result as a fresh solver would give. A reduction passed to one call governs exactly that call - for every solver - and neither a converged, an unconverged nor an aborted call changes the tolerance or state used by later calls.",
["histories"],"for every sequence of calls with and without explicit reduction, including zero right-hand sides, non-converging and aborting calls",
"State leaking between calls only shows when the same object is used several times in a particular order; tests construct a solver, apply it once and discard it.",
[I+"solvers.hh",I+"solver.hh"],[("per-call reduction","IterativeSolver::apply(x,b,reduction,res)"),("persistent work arrays","RestartedGMResSolver, RestartedFCGSolver, GeneralizedPCGSolver")],"iterates and statistics of the reused object versus a fresh object")
add("C10","Stationary preconditioners apply exactly their defining splitting",
"One application of Richardson, Jacobi, Gauss-Seidel, SOR and SSOR with given step number and relaxation equals the corresponding splitting formula evaluated on a zero start vector, at every documented block recursion depth and for heterogeneous block matrices; it is linear in the defect and does not change matrix or defect. Consequently the exact solution of the system is a fixed point of every such iteration at every recursion depth.",
["inputs","configurations"],"for all block matrices with invertible diagonal blocks, defects, relaxation factors, step counts, sweep directions and recursion levels",
"Tests only check that a solver using the preconditioner converges on a Laplacian, which also holds for many wrong sweeps; exact agreement with the defining formula needs generated matrices and a reference.",
[I+"preconditioners.hh",I+"gsetc.hh",I+"multitypeblockmatrix.hh"],[("sweeps","dbgs/bsorf/bsorb/dbjac and algmeta_itsteps"),("preconditioner classes","SeqJac/SeqGS/SeqSOR/SeqSSOR/Richardson")],"applied correction versus dense reference")
add("C11","Incomplete factorisations reproduce the matrix on their pattern",
"The incomplete LU preconditioners of any fill level are the exact triangular factorisation restricted to the documented pattern: the product of the factors agrees with the matrix on that pattern, fill level n large enough gives an exact solve, and resorted storage or applying with relaxation changes nothing but layout and scale. The diagonal variant reproduces the diagonal of the matrix, the symmetric variant the matrix on its pattern, and a missing or singular pivot is reported as an error.",
["inputs","configurations"],"for all block sparse matrices with structurally full diagonal and stable pivots, fill levels, resort settings and relaxation factors",
"Whether factor entries are right is invisible in a convergence test, since an incorrect factorisation still preconditions; the defining identity must be checked entry by entry on irregular patterns.",
[I+"ilu.hh",I+"ildl.hh",I+"dilu.hh",I+"preconditioners.hh"],[("level 0 and n decomposition","ILU::blockILU0Decomposition/blockILUDecomposition"),("back substitution","ILU::blockILUBacksolve/convertToCRS"),("ILDL and DILU","bildl_decompose, DILU::blockDILUDecomposition")],"application to unit vectors, assembled into the inverse factor product")
add("C12","Algebraic multigrid coarsening is a valid partition with Galerkin operators",
"Aggregation assigns every vertex to exactly one aggregate or to the isolated/skipped class, aggregates are numbered consecutively, non-empty and connected, and the reported counts are correct. Every coarse operator of the hierarchy is the sum of the fine entries over the pairs of aggregates (the Galerkin product with piecewise constant transfer), and restriction and prolongation are the corresponding sums and injections, damped by the documented factor.",
["inputs","configurations"],"for all symmetric-pattern matrices, strength and size parameters, dependency criteria, norms and block sizes",
"The tests run aggregation on one structured grid and print; front growing, isolated and one-node handling depend on irregular graphs and anisotropies.",
[I+"paamg/aggregates.hh",I+"paamg/dependency.hh",I+"paamg/galerkin.hh",I+"paamg/matrixhierarchy.hh",I+"paamg/transfer.hh",I+"paamg/graph.hh"],[("aggregation","Aggregator::build"),("Galerkin product","GalerkinProduct/BaseGalerkinProduct"),("transfer","Transfer::prolongateVector/restrictVector")],"aggregate maps and level matrices against a reference")
add("C13","Multigrid cycles are linear, repeatable and convergent preconditioners",
"For every symmetric positive definite M-matrix the multigrid preconditioners accelerate a Krylov method to the requested accuracy; one cycle is a linear map of the defect, equal to the textbook multiplicative or additive cycle defined by the hierarchy's aggregates, the smoother, its number of pre- and postsmoothing steps, the cycle type gamma and the prolongation damping factor (with an exact solve on the coarsest level), independent of how often the object was used before and of intermediate calls, and with a hierarchy that stops at the finest level is an exact solve. Symmetric smoothing yields a symmetric positive preconditioner, and none of the cycles modifies the matrix or depends on stale data after the hierarchy was recomputed for new matrix values. Copies of a preconditioner behave like the original, and the overlapping Schwarz smoothers work on exactly the subdomains that the aggregates and the chosen overlap define.",
["inputs","configurations","histories"],"for all diagonally dominant M-matrices on irregular graphs, cycle types, smoothers, level limits, over-correction and call histories",
"A cycle with a wrong transfer or stale level vector still converges on the Laplace test problem; linearity, symmetry and history independence are relations between many runs.",
[I+"paamg/amg.hh",I+"paamg/fastamg.hh",I+"paamg/kamg.hh",I+"paamg/twolevelmethod.hh",I+"paamg/smoother.hh"],[("cycle","AMG::apply/mgc, FastAMG, KAMG, TwoLevelMethod"),("recompute","AMG::recalculateHierarchy")],"cycle outputs on generated defects and solver residuals")
add("C14","Distributed operations equal their sequential counterparts",
"For every distribution of the unknowns over processes with overlap, owner-to-all copying makes all copies equal to the owner's value, owner-overlap addition adds every contribution exactly once, projections zero exactly the non-owned entries, and scalar products and norms (also of complex vectors) equal the sequential ones. Parallel operators, scalar products and solvers built on them produce the sequential result on every process, and global reductions and lookups agree on all processes.",
["configurations","inputs","schedules"],"for every number of processes, every assignment of owners, overlaps and global numberings and all vectors",
"Tests use one structured decomposition with nearest-neighbour overlap; irregular, empty or multiply-overlapping partitions change message patterns and index mapping.",
[I+"owneroverlapcopy.hh",I+"schwarz.hh",I+"novlpschwarz.hh",I+"scalarproducts.hh"],[("communication","OwnerOverlapCopyCommunication::copyOwnerToAll/addOwnerOverlapToAll/copyCopyToAll/project"),("parallel operators","OverlappingSchwarzOperator, NonoverlappingSchwarzOperator"),("parallel scalar product","ParallelScalarProduct")],"per-process vectors against the gathered sequential result")
add("C15","Repartitioning preserves the distributed matrix and vectors",
"Redistributing a matrix and vectors to any other assignment of unknowns yields on the target processes the same global matrix and the same global vector, with every global row owned exactly once; redistributing backwards restores the original vector. The information returned about the redistribution is consistent on all processes, including processes that end up with no rows.",
["configurations","inputs"],"for every source distribution, target distribution, number of participating processes and matrix pattern",
"Which rows and ghost entries must move depends on both partitions jointly; one structured example on a fixed process count cannot represent them.",
[I+"matrixredistribute.hh",I+"repartition.hh"],[("graph repartitioning","graphRepartition"),("matrix redistribution","redistributeMatrix, RedistributeInformation")],"gathered global matrices/vectors before and after")
add("C16","Subdomain (Schwarz) preconditioners solve exactly their local problems",
"The sequential overlapping Schwarz preconditioner applies the sum (additive) or ordered, freshly updated sequence (multiplicative, symmetric multiplicative) of exact or incomplete local solves on the given subdomains, scaled by the relaxation factor once. The result does not depend on which local solver realises the same local inverse nor on whether local matrices are factorised in advance or on demand.",
["inputs","configurations"],"for every cover by overlapping subdomains (including single-row and repeated ones), matrix, defect, relaxation, mode and local solver",
"The test only prints convergence on one grid; wrong local residuals or relaxation still converge, and set-ups with differing overlap counts need generation.",
[I+"overlappingschwarz.hh",I+"ilusubdomainsolver.hh"],[("application","SeqOverlappingSchwarz::apply"),("local assembly","OverlappingAssigner*, SeqOverlappingSchwarzAssembler*")],"applied correction versus dense reference")
add("C17","Eigenvalue computations return certified eigenpairs",
"Every eigenpair returned by the power-type iterations satisfies the requested residual bound with a normalised eigenvector, and the approximated eigenvalue is the one selected by the method (largest, smallest or nearest to the shift) when the gap is sufficient. The extremal eigen- and singular values and spectral condition numbers computed by the Lanczos/Arnoldi interface agree with a dense reference for symmetric matrices.",
["inputs","configurations"],"for all symmetric matrices with separated extremal eigenvalues, start vectors, shifts and tolerances",
"Tests use one Laplacian and compare loosely; shifts, negative spectra and clustered eigenvalues exercise different branches.",
[I+"eigenvalue/poweriteration.hh",I+"eigenvalue/arpackpp.hh"],[("power iterations","PowerIteration_Algorithms"),("ARPACK interface","ArPackPlusPlus_Algorithms")],"returned pairs against a dense eigen-solver")
add("C18","Configuration-driven construction equals direct construction",
"A solver or preconditioner created from a parameter configuration behaves exactly like the object constructed directly with the same settings, for every registered type, nested preconditioner configuration and default value. Unknown types or unusable combinations are reported as exceptions.",
["configurations"],"for every registered solver and preconditioner type, every combination and value of documented keys, present or defaulted",
"The space of configurations is a product of many optional keys; the test runs a fixed list of files and only checks that nothing throws.",
[I+"solverfactory.hh",I+"solverregistry.hh",I+"preconditioners.hh",I+"solvers.hh",I+"solver.hh",I+"paamg/amg.hh"],[("factory","getSolverFromFactory/getPreconditionerFromFactory, SolverFactory::get"),("configuration constructors","solvers' and preconditioners' ParameterTree constructors")],"iterates and statistics of configured versus direct objects")
add("C19","Flat traversal and size queries describe exactly the scalar entries",
"Flattening any nested vector visits every scalar exactly once under consecutive offsets, and flattening any nested matrix visits exactly the stored scalar entries with their global scalar row and column offsets, returning the total dimensions. Block depth, nonzero counts, row and column dimensions of nested matrices agree with that flat view, as do the diagonal and structure checks.",
["inputs","configurations"],"for all nested dynamic, static, variable and heterogeneous containers and patterns",
"Offset accumulation over nested and variable blocks is only wrong for particular nesting shapes that the type-level tests do not instantiate with differing sizes.",
[I+"foreach.hh",I+"blocklevel.hh",I+"matrixutils.hh",I+"bcrsmatrix.hh"],[("flat traversal","flatVectorForEach/flatMatrixForEach"),("dimension queries","MatrixDimension, countNonZeros, CheckIfDiagonalPresent")],"visited index/value lists against an independent enumeration")
add("C20","Structured and triangular solves invert their matrices",
"Solving with diagonal, block diagonal, tridiagonal, block tridiagonal and scaled identity matrices yields the vector whose product with the matrix is the right-hand side. The lower, upper and diagonal solves invert exactly the lower triangle, upper triangle or diagonal of the block matrix on the given recursion level (with unit diagonal for the unit variants); with a relaxation factor the diagonal part is divided by it, i.e. every diagonal solve is scaled as in SOR. Inverting a block diagonal or scaled identity matrix gives its inverse, singular diagonal blocks that the block type reports are passed on as exceptions, and the matrix and right-hand side are unchanged.",
["inputs"],"for all sizes including one and empty, all invertible blocks, scalar and nested, and all relaxation factors",
"Only a constant tridiagonal system of one size is tested; elimination order and block non-commutativity only matter for general blocks.",
[I+"bdmatrix.hh",I+"btdmatrix.hh",I+"scaledidmatrix.hh",I+"gsetc.hh"],[("tridiagonal solve","BTDMatrix::solve"),("triangular solves","bltsolve/ubltsolve/butsolve/ubutsolve/bdsolve")],"product of result with the matrix part versus right-hand side")
add("C21","Parallel solvers converge to the sequential solution for any partition",
"Krylov methods with parallel preconditioners (block and domain decomposition versions and algebraic multigrid with or without data agglomeration) converge to the solution of the global system on every process for every partition of the unknowns. Convergence flags and iteration counts are the same on all processes, and no partition makes a process wait for ever.",
["configurations","inputs","schedules"],"for every number of processes, partition of a connected graph with overlap, smoother, accumulation mode and right-hand side",
"Tests use one structured partition; processes with few or no unknowns, agglomeration decisions and coarse index sets depend on the partition.",
[I+"schwarz.hh",I+"novlpschwarz.hh",I+"paamg/amg.hh",I+"paamg/matrixhierarchy.hh",I+"paamg/indicescoarsener.hh",I+"paamg/globalaggregates.hh"],[("parallel preconditioners","BlockPreconditioner, ParSSOR, NonoverlappingBlockPreconditioner"),("parallel hierarchy","MatrixHierarchy::build, IndicesCoarsener")],"solutions on all processes against sequential direct solution")
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+"\n")
