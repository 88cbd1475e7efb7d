def more(P, SES, I):
    return [
 P('C12', 'Every specification state lives exactly once',
   'Whatever algorithm drives a specification (construction, subsetting, instance search, DOT output, path counting; plain, combined, lookahead or unreduction specifications), every state object is constructed or copied before it is read, '
   'is never read, copied, compared, hashed or merged after its destruction, and is destroyed exactly once before the algorithm returns. States may own resources.',
   ['inputs', 'programs', 'configurations'], 'every algorithm x specification combinator x state kind x specification, serial and parallel, including constant specifications',
   'All states in the tests are plain old data, for which leaks, double destruction and use after destruction are invisible.',
   [I + 'dd/DdBuilder.hpp', I + 'DdSpec.hpp', I + 'op/BinaryOperation.hpp', I + 'op/Lookahead.hpp', I + 'op/Unreduction.hpp', I + 'dd/PathCounter.hpp', I + 'dd/DepthFirstSearcher.hpp'],
   ['raw state buffers with placement construction', 'get_copy/destruct protocol'],
   'TLA+ life-cycle specification of state objects (spec/Life.tla); TLC validates the recorded call sequences (construct, copy, use, destroy with storage addresses abstracted to identities) of every algorithm run on the real code',
   'bounded: random specifications of up to 9 levels, all algorithms and state kinds'),
 P('C13', 'State merging decides which paths survive',
   'When a specification merges states, two states of a level that the specification considers equal end up in one node; the merge verdict decides whether the first, the second or both states keep their incoming paths, '
   'and the diagram represents exactly the surviving paths, for construction and for subsetting, also when the merging specification is an operand of a conjunction, an intersection, a lookahead or an unreduction.',
   ['inputs', 'programs', 'configurations'], 'every specification with a merge rule, state kind, serial and parallel algorithm',
   'No test defines a merging specification.',
   [I + 'dd/DdBuilder.hpp', I + 'DdSpec.hpp', I + 'op/BinaryOperation.hpp', I + 'op/Unreduction.hpp', I + 'op/Lookahead.hpp'], ['merge_states verdicts', 'pruned representatives'],
   SES + 'the merge process itself is specified (spec/Merge.tla) and run on the same weighted tables', 'bounded: weighted tables of up to 6 levels'),
 P('C14', 'Text output and input denote the diagram',
   'DOT output of a specification or diagram shows exactly its reachable states, one node each with its state and level labels, and exactly its decisions; Sapporo output of a binary diagram lists exactly its nodes, children first, and its root. '
   'Reading a family from a Graphillion dump yields the family that was dumped, whatever the order and numbering of its lines.',
   ['inputs', 'programs'], 'every specification and diagram (constants included), lookahead wrappers, line orders and node numberings',
   'No test looks at any text output or input.',
   [I + 'dd/DdBuilder.hpp', I + 'DdStructure.hpp', I + 'dd/NodeTable.hpp', I + 'spec/GraphillionZdd.hpp', I + 'op/Lookahead.hpp'], ['DdDumper', 'dumpSapporo', 'GraphillionZdd reader'],
   SES + 'the text is split into nodes and edges and the graph it denotes must be the specified one', 'bounded: random specifications of up to 10 levels, arity 2-4'),
 P('C15', 'Searching and counting paths without building a diagram',
   'Finding one instance of a specification returns an accepted decision path exactly when there is one and reports failure otherwise; counting paths of a specification returns the exact number of accepted paths for results of any magnitude and any arity, agreeing between exact, floating and 64-bit variants as far as these can represent it.',
   ['inputs', 'programs'], 'every specification, state kind and arity',
   'Neither facility has a test.',
   [I + 'dd/DepthFirstSearcher.hpp', I + 'dd/PathCounter.hpp', I + 'DdSpec.hpp', I + 'util/BigNumber.hpp'], ['depth-first search with level-wise visited sets', 'level-by-level forward counting'],
   SES + 'paths enumerated / counted in TLA+ multi-digit arithmetic', 'bounded as C01; counts up to about 10^100'),
 P('C16', 'A graph reports its own structure correctly',
   'After any history of adding edges, setting colours, reading edge, adjacency and vertex-group files, clearing colours and choosing the default path, a graph reports exactly the distinct edges in their order, '
   'its vertices numbered in leaving order, which vertices are finished at which edge, the frontier size, the colour classes and colour pairs, and finds every vertex and edge by name and number (and reports pairs that are not edges); malformed input and graphs with more than 65535 vertices are refused with an error.',
   ['histories', 'inputs'], 'every sequence of edits, colourings, files and updates',
   'No test covers Graph beyond building one fixed grid through its API.',
   [I + 'util/Graph.hpp'], ['Graph::update derived data', 'file readers', 'colour bookkeeping'],
   'TLA+ session specification of graphs (spec/Graphs.tla): the derived data is specified from the edge and colour history; TLC validates recorded histories of the real Graph class',
   'bounded: histories of up to 5 rounds of edits over random graphs, plus a 9x11 grid'),
 P('C17', 'Path and cycle specifications represent exactly the paths and cycles',
   'For every graph, edge order and vertex colouring, the path specification represents exactly the sets of vertex-disjoint paths joining the two vertices of each colour, the cycle specification exactly the simple cycles, '
   'and their Hamiltonian variants exactly those that visit every vertex; with or without lookahead, built or used as a subsetting filter, serial or parallel.',
   ['inputs', 'configurations'], 'every graph, edge order, colouring, lookahead and build mode',
   'Tests only compare the number of s-t paths of a few square grids.',
   [I + 'spec/PathZdd.hpp', I + 'spec/PathZddByStdMap.hpp', I + 'util/Graph.hpp'], ['mate arrays', 'HIT detection', 'lookahead loop'],
   'TLA+ definition of the families (spec/Graphs.tla) enumerated by TLC over all edge subsets and, for larger graphs, counted by a frontier process that TLC cross-checks against the enumeration; recorded builds of the real specifications must match',
   'bounded: all edge subsets of random graphs of up to 9 edges; exact counts on grids of up to 4x5'),
 P('C18', 'Frontier-based search represents exactly the requested component structures',
   'For every graph and colouring, the frontier-based search represents exactly the edge sets in which every colour class is connected, different colours are in different components, '
   'the number of uncoloured components with edges is the requested one (if requested) and there is no cycle (if requested), with or without lookahead, serial or parallel.',
   ['inputs', 'configurations'], 'every graph, edge order, colouring and option',
   'No test covers it beyond a few fixed grid counts.',
   [I + 'spec/FrontierBasedSearch.hpp', I + 'util/Graph.hpp'], ['head/next/colour linked lists packed in offsets', 'component leaving rules'],
   'TLA+ definition of the family (spec/Graphs.tla) enumerated by TLC over all edge subsets, frontier-process counts for larger graphs; recorded builds must match',
   'bounded: all edge subsets of random graphs of up to 9 edges; exact counts on grids of up to 4x4'),
 P('C19', 'Degree, size and linear constraints represent exactly the satisfying subsets',
   'For every graph, item count, integer subset and system of linear inequalities, the degree, size and linear constraint specifications represent exactly the subsets that satisfy them, '
   'including per-vertex and absent constraints, unbounded and stepped ranges, negative weights, and trivially true or false inequalities.',
   ['inputs', 'configurations'], 'every constraint system, value type, lookahead and build mode',
   'Tests use single-valued degree and size ranges on fixed inputs; linear constraints have no test.',
   [I + 'spec/DegreeConstraint.hpp', I + 'spec/SizeConstraint.hpp', I + 'spec/LinearConstraints.hpp', I + 'util/IntSubset.hpp'], ['bounds pruning', 'state compression', 'index reuse'],
   'TLA+ definition of the satisfying subsets (spec/Graphs.tla) enumerated by TLC; recorded builds of the real specifications must match',
   'bounded: all subsets of up to 10 items; exact counts up to 40 items'),
 P('C20', 'Big numbers compute exactly',
   'Arbitrary-precision numbers of both kinds store, copy, add, shift, divide by any 32-bit divisor, compare (with each other and with machine integers), measure their size and print in decimal exactly, for values of any magnitude; '
   'the fixed-size kind reports overflow instead of losing digits.',
   ['inputs', 'histories'], 'every sequence of operations and every operand',
   'Tests use them only through cardinalities of a few diagrams.',
   [I + 'util/BigNumber.hpp'], ['63-bit words with a continuation bit', '32-bit word arrays', 'carry propagation'],
   'TLA+ session specification with digit-sequence arithmetic (spec/Numbers.tla); TLC validates recorded operation histories of the real classes', 'bounded: histories over values of up to 3780 bits; fixed sizes 1 to 9 words'),
 P('C21', 'Containers and memory pools keep their contents',
   'The vector, table, hash map, list, pool-backed list, memory pool, bit set, small set, table-of-variable-rows and integer-range containers hold exactly what their operation history put into them: '
   'no element is lost, duplicated, corrupted or read after it was freed, whatever the order of insertions, removals, copies, moves, self-assignments, resizes and iterations.',
   ['histories', 'inputs'], 'every history of container operations',
   'Containers have no tests of their own.',
   [I + 'util/MyVector.hpp', I + 'util/MyHashTable.hpp', I + 'util/MyList.hpp', I + 'util/MemoryPool.hpp', I + 'util/MySet.hpp', I + 'util/IntSubset.hpp', I + 'dd/DataTable.hpp'],
   ['growth and reallocation', 'open addressing and rehashing', 'block reuse in pools', 'bit packing'],
   'TLA+ session specification of the containers as mathematical sequences, sets and functions (spec/Containers.tla); TLC validates histories recorded from the real containers, also under address sanitizer',
   'bounded: random histories of up to about 60 operations per container'),
 P('C22', 'The N-queens application finds exactly the placements',
   'For every board size, first column, option and build mode the queen, rook and coloured-queen specifications and the ddqueens command represent and count exactly the placements of non-attacking pieces; '
   'n-ary digit specifications represent exactly the words, interleaving exactly the combinations of its components, and colouring exactly the combinations that give each position one colour.',
   ['inputs', 'configurations'], 'every size, first column, option, component diagram and build mode',
   'Tests only look at the number of solutions of one board.',
   ['apps/ddqueens/NQueenZdd.hpp', 'apps/ddqueens/NAryZdd.hpp', 'apps/ddqueens/ColoredZdd.hpp', 'apps/ddqueens/ZddInterleave.hpp', 'apps/ddqueens/ddqueens.cpp'], ['bitmap pruning', 'interleaved levels'],
   'TLA+ definition of the placements and combinations (spec/Queens.tla) enumerated by TLC; recorded builds and runs of the command must match', 'bounded: boards up to 8x8 (coloured 5x5, once 7x7); random components of up to 5 levels'),
 P('C23', 'The ddpaths command reports exactly the subgraphs asked for',
   'For every graph and terminal file and every combination of options (type, Hamiltonian, slow, lookahead, parallel, degree filter, reduction, size bounds, uncoloured components) the ddpaths command reports the graph size, '
   'counts, lists and exports exactly the paths, cycles, connected components or forests asked for, and refuses bad input with an error.',
   ['inputs', 'configurations'], 'every input file and option combination',
   'Tests run one grid with a few options and compare only the count.',
   ['apps/ddpaths/ddpaths.cpp', I + 'util/Graph.hpp', I + 'spec/PathZdd.hpp', I + 'spec/FrontierBasedSearch.hpp', I + 'spec/DegreeConstraint.hpp', I + 'spec/SizeConstraint.hpp'], ['option handling', 'filter order', 'dump of all solutions'],
   'TLA+ definition of the families (spec/Graphs.tla) enumerated by TLC; recorded runs of the real command must match', 'bounded: random graphs of up to 11 edges with every option; counts on grids of up to 4x4'),
 P('C24', 'The number-link solver finds exactly the solutions',
   'For every board the number-link specifications and the ddnumlin command represent, count and draw exactly the sets of links that join equal numbers by disjoint paths with at most the allowed number of blank cells '
   '(all of them, or in the default mode exactly those without detours); boards are read, written, converted from the DA Symposium format, transposed, completed, filled and drawn faithfully, and bad input is refused.',
   ['inputs', 'configurations'], 'every board, blank limit, mode and option',
   'Tests run one example board and compare only the count.',
   ['apps/numberlink/Board.cpp', 'apps/numberlink/NumlinZdd.cpp', 'apps/numberlink/DegreeZdd.cpp', 'apps/numberlink/ConstraintZdd.cpp', 'apps/numberlink/ddnumlin.cpp', 'apps/numberlink/readdas.pl'], ['mate array per row', 'roof and corner rules', 'implied vertical links'],
   'TLA+ definition of boards and solutions (spec/Numlin.tla) enumerated by TLC; recorded sessions of the real classes and runs of the command must match', 'bounded: boards of up to 5x5 cells (6x5 thorough), every option'),
 P('C25', 'The CNF applications answer with exactly the models of the formula',
   'For every DIMACS formula and every combination of options (clause sorting, reachability analysis off, bottom-up only or with any size limit, clause mapping, counting) cnfbdd and cnf2ztdd2bdd report the size of the formula, '
   'count, list and draw exactly the satisfying assignments, the ternary diagram holds exactly the clauses, the states and pictures drawn tell the truth about the clauses, and formulas that do not match their header are refused.',
   ['inputs', 'configurations'], 'every formula and option combination',
   'No test runs these applications.',
   ['apps/cnfbdd/CnfToBdd.cpp', 'apps/cnfbdd/CnfToBdd.hpp', 'apps/cnfbdd/cnfbdd.cpp', 'apps/cnf2ztdd2bdd/CnfToZtdd.cpp', 'apps/cnf2ztdd2bdd/CnfToZtdd.hpp', 'apps/cnf2ztdd2bdd/ZtddToCudd.hpp', 'apps/cnf2ztdd2bdd/cnf2ztdd2bdd.cpp', I + 'util/MySet.hpp'],
   ['clause sets as states in memory pools', 'canonical clause maps', 'reachable-state images used for don\'t-care states', 'tautologies, duplicate literals and clauses'],
   'TLA+ reading machine and meaning of a formula (spec/Cnf.tla) enumerated by TLC; recorded runs of the real commands (built against a stand-in for CUDD) must match',
   'bounded: every formula of up to three clauses over two variables (a third of the three-clause ones in quick runs), random formulas of up to 9 clauses over up to 7 variables'),
 P('C26', 'Conversion to and from SAPPOROBDD keeps the function or family',
   'For every diagram, offset, variable order and number of existing package variables the exporters to BDD and ZBDD give exactly the same function or family moved by the offset, creating missing variables '
   '(functions that would move below level 1 are refused, sets with such items dropped), use the package from one thread only and leak nothing; specifications made from a BDD or ZBDD denote exactly that function or family moved back, '
   'alone and as operands of other operations.',
   ['inputs', 'configurations', 'schedules'], 'every diagram, offset, variable order and build mode',
   'No test uses the package.',
   [I + 'eval/ToBDD.hpp', I + 'eval/ToZBDD.hpp', I + 'spec/SapporoBdd.hpp', I + 'spec/SapporoZdd.hpp', I + 'DdStructure.hpp', I + 'DdEval.hpp', I + 'DdSpec.hpp'],
   ['levels and variables differ', 'package handles as states and values', 'package is not thread-safe'],
   'TLA+ session specification of functions and families moved between the two packages (spec/Sapporo.tla); TLC validates recorded sessions (built against a stand-in for SAPPOROBDD that counts handles and calling threads)',
   'bounded: tables of up to 7 levels, offsets -7 to 4, up to 6 variables created beforehand in any order'),
 P('C27', 'The graphillion_example command reports exactly the subgraphs asked for',
   'For every graph file (edge list or adjacency list), vertex group file, imported family and every combination of options (paths, matchings, spanning, no loops, uncoloured components, size bounds, coloured ends, lookahead, translation) '
   'the graphillion_example command reports the graph size, counts, lists and exports exactly the edge sets asked for, and refuses bad input with an error.',
   ['inputs', 'configurations'], 'every input file and option combination',
   'No test runs this application.',
   ['apps/graphillion/graphillion_example.cpp', I + 'util/Graph.hpp', I + 'op/BinaryOperation.hpp', I + 'spec/FrontierBasedSearch.hpp', I + 'spec/DegreeConstraint.hpp', I + 'spec/SizeConstraint.hpp', I + 'spec/GraphillionZdd.hpp', I + 'eval/ToZBDD.hpp'],
   ['option handling', 'constraints that override each other', 'imported family as base'],
   'TLA+ definition of the families (spec/Graphs.tla) enumerated by TLC; recorded runs of the real command must match', 'bounded: random graphs of up to 10 edges and the built-in one, every option'),
 P('C28', 'Progress messages are complete, in order and properly nested',
   'For every history of message handlers (tasks begun, nested, abandoned or ended with results, text written by several handlers in any interleaving, steps of progress at any speed) nothing is written while messages are off; while they are on every piece of text appears once and in order, '
   'one handler never continues the unfinished line of another, every task that was begun is closed exactly once (as finished or as aborted), its lines are indented by the number of tasks open around it, and progress is shown by exactly ten dots, '
   'or when it is slow by one mark a step with the percentage done after every fifty; the times and memory reported are the differences and maxima of what the system reports, and stopwatches add up exactly the intervals measured.',
   ['histories'], 'every sequence of handler operations and every timing of steps',
   'No test looks at the messages.',
   [I + 'util/MessageHandler.hpp', I + 'util/ResourceUsage.hpp'],
   ['state shared by all handlers', 'line number decides the form of the closing message', 'switch to slow stepping'],
   'TLA+ state machine of handlers sharing one output (spec/Messages.tla); TLC validates recorded histories of the real class under a simulated clock',
   'bounded: histories of up to 25 groups of operations on up to 8 handlers, up to 200 steps'),
    ]
