TEXT = []
def P(**k): TEXT.append(k)
G = 'src/grid/'
P(id='P01', title='A grid is a lossless map from every index of its box to its own cell',
  statement='For every grid, in either memory order and for every rank and every box of lower and upper bounds (including negative ones), each index of the box addresses its own element inside the allocated storage: a value written at an index is read back through every access form, and writing one index never changes another. The reported bounds, extents, strides and flat traversal agree with that mapping, whichever way the box was specified.',
  over=['inputs','configurations'], quant='all boxes, all pairs of indices in the box, ranks 1-5, both memory orders, all element values',
  why='the tests sample a few random boxes and compare sums; aliasing of two cells or an access one element outside needs a particular box and index pair',
  files=[G+'grid.hpp', G+'grid.t', G+'gridstorage/single-array-storage-base.hpp', G+'gridstorage/single-array-allocation.hpp', G+'array.hpp'],
  mech=[('index to address mapping', G+'gridstorage/single-array-storage-base.hpp get, updateDataFast, stride'), ('allocation', G+'gridstorage/single-array-allocation.hpp newData, updateSizeInfo'), ('access operators', G+'grid.t operator[], operator()')],
  note='Proof for all boxes and indices per rank and memory order; extents bounded by 2^20 per dimension (32-bit index arithmetic proved free of overflow), 64-bit offsets mathematical, double as reals.')
P(id='P02', title='Copies of a grid share one storage consistently through every history',
  statement='Copies and assignments of a grid share storage with their source and with nothing else: a write or a resize through one of them is visible through all of them, and grids outside the group never notice. After any sequence of copying, assigning, resizing and destroying, every live grid reports the bounds of the last resize of its group and can access exactly those cells, and storage is released exactly once, when its last user goes. This holds for the immediate and for the lazy allocation strategies.',
  over=['histories','inputs'], quant='every sharing pattern of three grids, every operation (resize, assign, copy-construct, replace, relocate) with all boxes, followed by a resize of any grid; all box sizes and values',
  why='tests copy a grid once and look at it; stale bounds, dangling users and under-allocation need a particular sequence of copy, assign, resize, destroy',
  files=[G+'gridstorage/single-array-allocation.hpp', G+'gridstorage/single-array-storage-base.hpp', G+'grid.hpp'],
  mech=[('shared data and updaters', G+'gridstorage/single-array-allocation.hpp SingleArrayAllocationData, operator=, resizeImpl'), ('cached origin pointer', G+'gridstorage/single-array-storage-base.hpp updateDataFast'), ('lazy growth and shrinking', G+'gridstorage/single-array-allocation.hpp SingleArrayLazyAllocation')],
  note='Proof for all box sizes of one arbitrary operation (thorough: two) from every sharing pattern of three handles, followed by an arbitrary resize; number of handles and of operations bounded. In the lazy strategy products of reals and sqrt are abstracted (sqrt >= 0 only).')
P(id='P03', title='Whole-grid assignment and += / -= act on every element exactly once',
  statement='Assigning a value to a grid gives every element of its box that value and changes nothing else. Adding or subtracting a grid with the same bounds combines each pair of elements with equal index exactly once and leaves the right-hand side unchanged, whether the two grids have the same or different memory orders and even when they share storage.',
  over=['inputs'], quant='all boxes and an arbitrary element of them, ranks 1-3, all values, immediate and lazy storage, both memory orders; at most 2^31-1 elements (the interface reports the size as int)',
  why='tests use a few fixed small boxes and smooth data; skipping or repeating an element at a box edge, or pairing by memory position across layouts, needs other shapes',
  files=[G+'grid.t', G+'gridstorage/single-array-storage-base.hpp', G+'range.hpp'],
  mech=[('value assignment', G+'grid.t GridBase::operator=(const T&)'), ('compound assignment', G+'grid.t operator+=, operator-= (same and different storage policy)'), ('flat iterators', G+'gridstorage/single-array-storage-base.hpp begin, end')],
  note='Proof with inferred loop invariants for all boxes, ranks 1-3. Across memory orders (rank 2,3) the storages are represented by the access contract of P01; rank 1 is also proved with the real storages.')
P(id='P04', title='Every traversal of a box visits each index once, in its documented order',
  statement='Looping over a box, with the C-order and Fortran-order loops or with the range iterator, visits exactly the indices between the lower and the upper bound, each exactly once, and nothing for an empty box. C order and the range iterator run the last index fastest, Fortran order the first.',
  over=['inputs'], quant='all boxes including empty ones, an arbitrary index, an arbitrary pair of indices for order; ranks 1-3 (thorough: 4)',
  why='tests walk fixed small boxes; an off-by-one at a bound, a wrong carry or an empty dimension needs other boxes',
  files=[G+'range.hpp', G+'iteration/range-iteration.hpp'],
  mech=[('loops', G+'iteration/range-iteration.hpp forEach'), ('range iterator', G+'range.hpp Range::iterator, begin, end')],
  note='Proof with inferred loop invariants, for all boxes with extents up to 2^20, ranks 1-3 (thorough 4). Termination is not proved; runs on the real code with small boxes check it.')
P(id='P05', title='Array arithmetic works element by element, whatever the expression',
  statement='For fixed-size arrays of any length and element type, every sum, difference, product, quotient and mixed array/scalar expression, however nested and whether assigned at once or kept for later, gives at each position the value computed from the operand elements at that position (and scalar operands), leaving the operands unchanged. Compound assignments, reductions (sum, product, sqr), comparisons, constructors, conversions and projections agree with that element-wise meaning for every value.',
  over=['inputs','configurations'], quant='all element values of int and double, lengths 1-5 and 9 (constructors to 10), all operators and operand kinds (array, expression, scalar on either side), mixed element types, aliased operands, nesting depth 2, immediate and stored expressions',
  why='tests try random data for a few expression shapes; a wrong operand order, a dangling operand or a short-circuited comparison shows only for particular shapes, lengths or values',
  files=[G+'array.hpp', G+'array.t', G+'arrayexpression.hpp'],
  mech=[('expression templates', G+'arrayexpression.hpp ArrayBinaryOp, ArrayConstantExp, operators'), ('array operations', G+'array.hpp sum, product, sqr, project, comparison'), ('constructors and assignment', G+'array.t')],
  note='Proof for all element values for lengths 1-5 and 9; int and double (as reals, non-linear products abstracted as an uninterpreted commutative function).')
P(id='P06', title='Boxes, inner domains and ghost layers cover a domain consistently',
  statement='A box reports the corners it was given, contains exactly the points between them, and grows, copies and projects without disturbing other coordinates or other boxes. For every domain and number of ghost cells, each cell is in every dimension in exactly one of the lower ghost layer, the inner domain and the upper ghost layer; the layers have the thickness of the ghost region, span the domain in the other dimensions, and each source layer is exactly the periodic image of the opposite ghost layer.',
  over=['inputs'], quant='all boxes, points, growth amounts, ghost widths and dimensions; ranks 1-3 (boxes and projections to 4, per-dimension growth to 10)',
  why='tests check single boxes; an off-by-one in a layer bound, or a growth applied to the wrong dimension, shows only for some ranks, widths and dimensions',
  files=[G+'range.hpp', G+'boundary.hpp', G+'boundary.t'],
  mech=[('box geometry', G+'range.hpp Range inside, grow, project'), ('ghost and source layers', G+'boundary.t getGhostDomain, getGhostSourceDomain, getInnerDomain, getBoundaryDomain')],
  note='Proof for all values per rank; coordinates within +-2^16 to 2^20.')
P(id='P07', title='A field maps grid points to physical positions and back',
  statement='A field built from a size, a box or a range has a grid with the requested ghost cells around exactly the requested inner box, and keeps its domain and stagger through copies and resizes. Grid points are evenly spaced so that the inner cells fill the physical domain (half a cell further if staggered); converting a position to an index and offset and back gives the same position, the offset is in [0,1), and every grid point maps to its own index, for positions inside and outside the domain.',
  over=['inputs'], quant='all boxes, domains, staggers, ghost widths, positions and indices; ranks 1-3',
  why='tests check one field; rounding towards zero below the domain, ghost offsets or the stagger of another dimension show only for particular positions and domains',
  files=[G+'field.hpp', G+'field.t'],
  mech=[('construction and resizing', G+'field.t constructors, resize'), ('position mapping', G+'field.t positionToIndex, indexToPosition')],
  note='Proof over the reals (rounding of double not modelled) for all inputs per rank.')
P(id='P08', title='Exchanging ghost cells of a periodic domain copies exactly the images',
  statement='With a single process, exchanging a grid along a dimension fills every ghost cell with the value its periodic image in the inner domain had, and leaves inner cells unchanged. Accumulating adds to every ghost cell and its inner image the sum of both and changes nothing else; the forms for a whole grid act once in every dimension. The subdivision reports the domain, its inner part and the bounds of its processes consistently, and reductions over one process return the value.',
  over=['inputs'], quant='all domains at least as wide as the ghost region, all ghost widths, every dimension, an arbitrary cell with its images; ranks 1-3',
  why='tests exchange one or two fixed grids; an off-by-one in a layer or a wrong dimension in corners shows only for other widths, ranks and cells',
  files=[G+'domainsubdivision.hpp', G+'domainsubdivision.t', G+'boundary.t'],
  mech=[('exchange and accumulate', G+'domainsubdivision.t SerialSubdivision::exchange, accumulate'), ('whole-grid forms', G+'domainsubdivision.t DomainSubdivision::exchange, accumulate')],
  note='Proof with inferred loop invariants for all domains; the grid is represented by the access contract of P01 (map from index to cell). Accumulate on inner cells of rank 3 in the thorough tier only.')
V = 'src/variables/'
P(id='P09', title='An expression in an input deck denotes its mathematical value',
  statement='Assigning an expression in an input deck gives the variable the value of that expression for every value of the variables it mentions: usual precedence of sign, power, products and sums, left-to-right evaluation of chains (a chain with a floating-point operand is evaluated in floating point, a purely integer one in integers), parentheses, function calls with arguments in order and converted to the parameter types, literals, comments and layout of any length, and conversion to the declared type on assignment. It is constant exactly if everything it mentions is, otherwise it depends on exactly the variables mentioned; undeclared names, wrong argument counts, redeclarations, assignment to read-only variables, type errors and syntax errors are rejected.',
  over=['inputs'], quant='all values of all variables mentioned, variables and constants; every operator combination in chains of 4 floating-point, 3 integer and 3 mixed operands; a set of nested shapes, all registered functions',
  why='tests evaluate a few expressions of literals and compare with rounding; wrong associativity, promotion or argument order shows only for particular operator and type mixes and values',
  files=['src/parser/parsertoken.cpp', 'src/parser/parser.cpp', V+'expression.hpp', V+'operators.hpp', V+'function_expression.hpp', V+'function_expression.cpp'],
  mech=[('expression nodes', V+'expression.hpp BinaryOp, UnaryOp, TypecastOp, IdentifierExpression'), ('operators', V+'operators.hpp'), ('parser actions', 'src/parser/parsertoken.cpp'), ('functions', V+'function_expression.hpp, function_expression.cpp')],
  note='Proof for all values; the deck texts are a fixed set of shapes (each goes through the real scanner and LALR parser inside the proof). Library functions are uninterpreted (the proof is that the right one is applied to the right arguments); double as reals; integer values in +-512.')
P(id='P10', title='An update brings dependent parameters in line with their definitions',
  statement='After a deck has been read, every variable holds the value of its definition. Afterwards, whenever an updater is asked to update, each of its dependent parameters gets the value of its defining expression at the current values of the registered independent parameters, however the definitions depend on each other (directly, through other variables, through variables of other blocks) and in whatever order they were made; functions declared as ever-changing are called again. Parameters that are not dependents, and the independent ones, keep their values; constants are set when they are registered. This continues to hold when dependents or independents are added, cleared or the map is recreated.',
  over=['histories','inputs','configurations'], quant='all values; every acyclic dependency shape of three parameters over two independents with every order of definition, single and joint dependents, one or both independents registered; fixed histories of an updater',
  why='tests update one or two chains; a wrong update order, a missed transitive dependency or a stale plan shows only for particular graph shapes and orders of definition and registration',
  files=[V+'dependencies.cpp', V+'dependencies.hpp', V+'blockparameters.hpp', V+'expression.hpp'],
  mech=[('dependency map', V+'dependencies.cpp constructMap, makeUpdatePredecessors, makeUpdateFollowers, makeUpdateOrder, updateAll'), ('updater', V+'dependencies.hpp DependencyUpdater'), ('parameters', V+'blockparameters.hpp ConcreteParameter evaluate, update')],
  note='Proof for all values of each shape; number of parameters bounded (3 dependent, 2 independent), all acyclic shapes of that size enumerated inside the proof. Cyclic definitions are excluded. The order of std::set over pointers follows allocation order in the proof.')
P(id='P11', title='A name in a block denotes the innermost visible variable',
  statement='A variable name used in a block denotes the variable of the innermost enclosing block that declares it, and block:name paths denote the variable of the block reached from the innermost enclosing block that contains the first path element; a name exists exactly if it can be looked up, and looking up changes nothing. Assignments change the variable the name denotes and no other; redeclaring a name in the same block, reusing a block name among siblings, names that are not visible and unmatched closing braces are rejected. A variable keeps its type, ill-typed and read-only assignments change nothing, and different variables have different ids.',
  over=['inputs','configurations'], quant='every placement of a variable in a five-block tree with repeated names, every block as starting point, nine name paths; all values; fixed deck texts',
  why='tests look up a few names in one tree; stopping too early or too late in the search, or descending into the wrong block, shows only for particular placements of shadowed names',
  files=[V+'variables.cpp', V+'variables.hpp', 'src/parser/parsertoken.cpp', 'src/util/unique.hpp'],
  mech=[('name lookup', V+'variables.cpp BlockVariables::getVariable, exists'), ('declarations', V+'variables.cpp addVariable, addChild, VariableStorage'), ('variables', V+'variables.cpp Variable'), ('parser actions', 'src/parser/parsertoken.cpp storeVariable, updateVariable, createBlock, endBlock')],
  note='Proof for all values; the block tree (5 blocks, depth 4) and the texts are fixed, the placements of the variable are enumerated inside the proof. A deck that ends inside a block is accepted by design and not covered.')
P(id='P12', title='Blocks of a deck form the block tree and go through their life cycle',
  statement='Reading a deck creates one block object per block of a registered class, nested and ordered as in the deck (classes without a factory are transparent), and rejects children that are not allowed. Initialising from any block runs setup, data registration, pre-initialisation, initialisation and post-initialisation for the whole tree, each phase once per block, parents before children, in deck order. Parameters then hold the deck value or the default; missing ones, read-only ones and unknown names are rejected. Data is found in the nearest enclosing block that registered it, otherwise if it is unique in the tree, also by path; ambiguity and absence are reported. Containers collect exactly their own children in order.',
  over=['inputs','configurations'], quant='every tree of five blocks in depth-first order, every placement of data in a six-block tree and every block asking; every combination of allowed-children settings; all parameter values',
  why='tests build one or two small hierarchies; a wrong parent after closing a nested block, a phase skipped for a subtree or a wrong data source shows only for other nestings',
  files=[V+'block.cpp', V+'block.hpp', V+'blockdata.hpp', V+'blockclasses.cpp', V+'blockparameters.hpp', V+'blockparameters.cpp', V+'blockcontainer.hpp', 'src/parser/parsertoken.cpp', 'src/parser/parser.cpp'],
  mech=[('block tree', V+'block.cpp BlockTree, src/parser/parsertoken.cpp createBlock, endBlock'), ('life cycle', V+'block.cpp initAll and the *Hierarchy functions'), ('data', V+'block.hpp getData, retrieveData'), ('parameters', V+'blockparameters.hpp'), ('containers', V+'blockcontainer.hpp')],
  note='Proof for all parameter and data values; tree shapes of five (six) blocks enumerated inside the proof, texts built from them.')
P(id='P13', title='Diagnostics write exactly when they are due',
  statement='An interval diagnostic writes at every time step that is a multiple of its interval and at the final step, and at no other; a delta-time diagnostic writes whenever the physical time has reached its next output time, which then advances by its period. Each output is opened, written and closed once with the file name for its rank, step or output number; appending diagnostics open once at time zero and are never closed; single-output diagnostics act on the master only. The manager calls every diagnostic once per step with the current times, reports times it needs but does not have, and adjusts a time step so that no output time is skipped and the step is shortened only to meet one.',
  over=['histories','inputs'], quant='all intervals, time steps, physical times, periods and next output times (one step from an arbitrary state, hence every history by induction); three diagnostics; fixed file name patterns',
  why='tests run no diagnostics schedule; an off-by-one in the due test, a skipped or doubled output or a step past an output time needs particular times and combinations of diagnostics',
  files=['src/diagnostic/diagnostic.cpp', 'src/diagnostic/diagnostic.hpp'],
  mech=[('schedule', 'src/diagnostic/diagnostic.cpp IntervalDiagnostic::execute, DeltaTimeDiagnostic::execute'), ('manager', 'src/diagnostic/diagnostic.cpp DiagnosticManager'), ('file names', 'src/diagnostic/diagnostic.cpp parsedFileName')],
  note='Proof over the reals for all times; number of diagnostics (3) and file name patterns (4, with 4 times and 2 ranks) fixed.')
P(id='P14', title='Processes divide the domain without gap or overlap and exchange their images',
  statement='In a parallel run the number of processes is split into positive factors, one per dimension, whose product is that number. For every global domain (any lower bound) with more cells than processes in a dimension, the inner domains of the processes tile the global domain: every process has cells, the first starts at the lower bound, each next one starts right after its neighbour, the last ends at the upper bound, neighbours agree in the other dimensions, and ghost layers of the given width surround each; bound flags and physical extents follow the same tiling. Exchanging fills every ghost cell of every process with the value of its periodic image in the neighbouring process and changes nothing else; accumulating leaves the sum in both. Byte buffers reach the neighbour in the given direction unchanged, objects packed in a buffer come out in order, reductions act over all processes, and process identifiers are unique.',
  over=['inputs','configurations'], quant='all domains and ghost widths, all numbers of processes per dimension and all coordinates (rank 1; up to 3 resp. 2 processes per dimension for ranks 2 and 3); all numbers of processes up to 256 (2 dimensions), 96 (3 dimensions); messages: all cell values on fixed domains of up to 3 processes',
  why='no test runs more than one process; a gap, an overlap or a shifted layer between two processes needs particular sizes, numbers of processes and coordinates',
  files=[G+'mpisubdivision.hpp', G+'mpisubdivision.t', G+'mpisubdivision.cpp', G+'domainsubdivision.hpp', 'src/util/factor.cpp', 'src/util/databuffer.hpp', 'src/util/databuffer.t'],
  mech=[('factors', 'src/util/factor.cpp equalFactors, factorize, makePrimes, distribute'), ('tiling', G+'mpisubdivision.t init'), ('messages', G+'mpisubdivision.t exchange, accumulate, exchangeData'), ('extents', G+'domainsubdivision.hpp getInnerExtent'), ('buffers', 'src/util/databuffer.t makeBuffer')],
  note='MPI is an assumed contract (harness/stub/mpi.h): Cartesian periodic process grid, messages between two processes arrive unchanged and in order. The subdivision is proved against the contract of equalFactors, which is proved separately. Exchange and accumulate are executed by every process on fixed domain shapes with arbitrary cell values. Products of doubles are real products (rounding of width*coordinate is not modelled).')
P(id='P15', title='Checked arrays and grids detect exactly the accesses outside their bounds',
  statement='An array or grid with an asserting checking policy (ArrayAssertArgCheck, GridAssertCheck) fails its assertion for every read or write whose index lies outside the bounds in at least one dimension, before any element is touched, and for no other access; an accepted access reaches exactly the element of that index. A grid with the debugging policy (GridDebugCheck) raises its error flag for exactly the accesses outside the bounds and reports the offending index, moves such an access to the nearest cell of the grid, and leaves accesses inside as they are. This holds for index lists and index arrays, reads and writes, all ranks, and negative lower bounds.',
  over=['inputs'], quant='all boxes, all index positions (arrays: lengths 1, 2, 3 and 6, positions within three of the bounds), ranks 1 to 5, every access form',
  why='tests access a few indices of a few grids; an unchecked dimension, a bound off by one or a wrong clamp needs the one index that differs',
  files=[G+'gridcheck.hpp', G+'arraycheck.hpp', G+'array.hpp', G+'grid.hpp'],
  mech=[('array checks', G+'arraycheck.hpp ArrayAssertArgCheck'), ('grid checks', G+'gridcheck.hpp GridAssertCheck, GridDebugCheck'), ('access', G+'array.hpp operator[], at; '+G+'grid.hpp operator(), operator[]')],
  note='Proof for all indices and all boxes with up to 1000 (rank 3: 300, rank 4 and 5: 50) cells per dimension; assert() is replaced by a throwing one (harness/stubassert). The informational error number of GridDebugCheck is not covered.')
P(id='P16', title='Filling a field gives each point the expression at its position',
  statement='Filling a field from a deck expression of the coordinates gives every point of the field, ghost cells included, the value of that expression at the physical position of that point (with the stagger of the field), also when the expression depends on the coordinates through other parameters; the dependent parameter may already be registered with the updater or be given. Parameters that are not dependents keep their values, and filling again gives the same values. A field filler fills exactly the fields added to it, each from its own coordinates, value and updater, when it is asked to and not before; a cleared filler fills nothing, and different fillers do not influence each other.',
  over=['inputs','histories'], quant='all field extents and expression constants, every stagger; ranks 1, 2, 3; fixed small index boxes; one or two fillers with two sets of coordinates',
  why='tests fill a field once with one filler; a wrong position, a stale coordinate or a shared adder shows only for staggered fields, later fillers or indirect dependence',
  files=['src/tools/fieldtools.hpp', 'src/tools/fieldtools.t', G+'field.hpp', G+'field.t', V+'dependencies.cpp'],
  mech=[('filling', 'src/tools/fieldtools.t fill_field'), ('collecting', 'src/tools/fieldtools.hpp FieldFiller'), ('positions', G+'field.t indexToPosition')],
  note='Proof for all real extents and constants; the index boxes are fixed and small (up to 5 cells per dimension) and expressions are sums. Positions are those of indexToPosition, whose meaning is P07.')
P(id='P17', title='Text output writes each element once, first index fastest',
  statement='Writing an array to a text stream writes its elements in order, separated by single spaces, and nothing else. Writing a grid writes every element of the grid exactly once with the first index varying fastest, whatever the storage order: elements along the first index are separated by a single space, each line of a grid of rank two or more ends with a newline and each plane of a grid of rank three or more is followed by another one; a grid without cells writes nothing. The stream is returned.',
  over=['inputs'], quant='all element values and lower bounds; arrays of length 1, 2, 3, 7; grids of ranks 1 to 5 with up to 4 (2) cells per dimension, empty ones included',
  why='no test writes a grid; a missed last element, a doubled separator or the wrong order shows only for particular shapes',
  files=['src/datastream.hpp', 'src/datastream.t'],
  mech=[('text output', 'src/datastream.t operator<<')],
  note='Proof for all values; grid extents enumerated up to the stated sizes. The stream library is trusted (each << call is recorded).')
P(id='P18', title='HDF5 output and input place each process\'s cells at their global position',
  statement='Writing a grid or field (C memory order) to an HDF5 file in a parallel run creates one data set of the global extent and of the element type, and every process transfers exactly its local cells (for a field its inner cells, without ghost cells), each to the position of its global index; reading transfers exactly the local cells from those positions and leaves all others alone, so that values written with one decomposition come back under any other. Data sets are named by the block name, numbered when it is used again, and a reader making the same calls finds them in the same order; a new file starts numbering again. Attributes have the type, length and value they have at the time of writing and are written by the first process only. Only active processes take part, and the file is always shared by exactly the processes that are active at that time, in rank order. A copy of a stream that has no open file behaves like the original. Every file that was opened is closed once and everything else opened for a transfer is released. Diagnostics and readers defined in a deck do this for the field they name, in the file they name.',
  over=['inputs','configurations','histories'], quant='all global, local and memory boxes (ranks 1 to 3; double, and int and float for one rank); all attribute values; up to 3 processes with every activity pattern in two consecutive rounds; four data sets with every pattern of renaming',
  why='no test writes or reads HDF5; a wrong offset, extent or ghost cell shows only for a process whose box does not start at the origin, a stale communicator only when activity changes',
  files=['src/diagnostic/hdfdiagnostic.hpp', 'src/diagnostic/hdfdiagnostic.t', 'src/diagnostic/hdfdiagnostic.cpp'],
  mech=[('transfers', 'src/diagnostic/hdfdiagnostic.t writeGrid, readGrid'), ('streams', 'src/diagnostic/hdfdiagnostic.cpp HdfStream, HdfIStream, HdfOStream, makeMPIGroup'), ('attributes', 'src/diagnostic/hdfdiagnostic.t HdfAttributes'), ('blocks', 'src/diagnostic/hdfdiagnostic.t HDFGridDiagnostic, HDFGridReader, CopyToContainer')],
  note='HDF5 and MPI are assumed contracts (harness/stubhdf and the library in harness/hdf.cpp: files, data sets, row-major hyperslab selections, attributes, groups). The transfer contracts hold for all boxes up to 2^15 cells per dimension; the round trip is executed on six cells with every cut. The serial (non-parallel) HDF5 build and Fortran-order storage are not covered.')
NOT_APPLICABLE = []
NOTES = 'Contracts are C++ functions in harness/ that include the unmodified /repo sources; dv/ compiles them to LLVM IR on every run, generates the obligations and discharges them. See DESIGN.md.'
