TRUST = " Trusts clang's parse of the sources and the standard library's documented behaviour; shapes outside the abstract domain are counted as undecided in the evidence and never reported as violations."

prop("C01", "A stage only runs after it was configured successfully",
     "A pipeline stage or preprocessor performs its computation only after its configuration succeeded; asked to run before that, it returns the data it was given unchanged. Configuration succeeds only when every setting the stage's computation needs was supplied, and a configuration that supplies all of them is accepted. Whoever drives stages never runs one that does not exist or whose configuration failed, nor any without a complex.",
     ["configurations", "histories"], "every subset of supplied settings, every stage, every order of configure and run",
     "The tests configure each stage once with a complete map; they never omit a setting, run an unconfigured stage with data to protect, or drive a failing stage.",
     ["Pipes/basePipe.cpp", "Preprocessing/preprocessor.cpp", "Pipes/*.cpp", "Preprocessing/*.cpp", "LHFmain/main.cpp"],
     [("configured flag tested in the run wrapper", "basePipe::runPipeWrapper, preprocessor::runPreprocessorWrapper"), ("configuration returns false for a missing setting", "configPipe / configPreprocessor of every stage"), ("drivers test the factory result and the configuration result", "runPipeline, processDataWrapper, runSubPipeline")],
     "path-sensitive typestate analysis (abstract interpretation of every configuration path) and dominance of run calls by successful configuration",
     "Decides all paths of every configuration function, both run wrappers and every call site that drives a stage." + TRUST)

prop("C02", "Every setting reaches the computation under its own name",
     "After a stage, preprocessor or complex was configured, the value it computes with for each setting is exactly the value supplied under that setting's name: not another setting's, not a constant, not truncated to a coarser type, and not overwritten before the run. Settings a stage's result depends on are actually used by its run, and stages that run other stages hand their settings on unchanged.",
     ["configurations"], "every value of every setting of every stage",
     "The tests use one map in which most settings have interchangeable values and never compare results across settings.",
     ["Pipes/*.cpp", "Preprocessing/*.cpp", "Complex/simplexBase.cpp"],
     [("find + convert + store per setting", "configPipe / configPreprocessor"), ("configured values read", "runPipe / runPreprocessor of every stage"), ("complex configured by its factory", "simplexBase::newSimplex, simplexBase::setConfig")],
     "value-flow analysis from configuration keys to fields and uses over all success paths",
     "Decides which term every field holds on every successful configuration path, who else writes it, whether the run reads it, and what is passed where it is used." + TRUST)

prop("C03", "Command line options mean what the usage text and tables say",
     "Each option is accepted with its long name after -- and its shorthand after -, takes the argument that follows it as its value, and an option that is not given has its documented default while one that is given keeps its value. No two options share a shorthand, and no argument list makes the parser read past its end.",
     ["inputs"], "every argument vector",
     "There is no test of the argument parser.",
     ["Utils/argParser.cpp"],
     [("alias and default tables", "argParser.cpp tables"), ("shorthand resolution", "argParser::defaultArguments"), ("argument loop", "argParser::parse")],
     "constant evaluation of the option tables plus path-sensitive analysis of the parse and resolve loops",
     "Decides the tables entry by entry and every path through one iteration of both loops for an arbitrary argument." + TRUST)

prop("C04", "Stage names and run modes select the documented stages in order",
     "Every documented stage, preprocessor and complex name builds its own implementation and an unknown name builds none; every run mode schedules its documented stages, preprocessor and complex, all of which exist, while an explicitly given pipeline is run as written. A dotted pipeline is executed as exactly its stages in the written order, each on the data the previous one produced.",
     ["configurations", "inputs"], "every name, mode, combination of given and defaulted options, and dotted pipeline string",
     "The tests build stages directly by name for one complex type and never go through modes or the pipeline driver.",
     ["Pipes/basePipe.cpp", "Preprocessing/preprocessor.cpp", "Complex/simplexBase.cpp", "Utils/argParser.cpp", "LHFmain/main.cpp", "Pipes/slidingWindow.cpp", "Pipes/naiveWindow.cpp"],
     [("factories", "basePipe::newPipe, preprocessor::newPreprocessor, simplexBase::newSimplex"), ("mode table", "argParser::setPipeline"), ("split loop", "runPipeline, runSubPipeline")],
     "constant propagation through the factories and the mode selection for every table entry; loop-invariant analysis of the split loops",
     "Decides every entry of the frozen name and mode tables and the one-iteration behaviour of every driver loop for an arbitrary pipeline string." + TRUST)

prop("C05", "Distances and the neighbourhood graph are complete",
     "The distance matrix holds, for every pair of input points, their Euclidean distance over all coordinates at the position from which the complexes read it, and is complete before it is handed over. Every input point is inserted into the complex, in order, and two points are joined exactly when their distance is within the cut-off. The filtration values are the distances within the cut-off together with zero and the cut-off.",
     ["inputs"], "every number of points and coordinates and every cut-off",
     "The tests use one or two fixed point sets and only look at whether a complex exists or is non-empty.",
     ["Pipes/distMatrixPipe.cpp", "Pipes/neighGraphPipe.cpp", "Utils/utils.cpp", "Complex/simplexTree.cpp", "Complex/indSimplexTree.cpp", "Complex/simplexArrayList.cpp"],
     [("pair loops", "distMatrixPipe::runPipe"), ("insertion loop", "neighGraphPipe::runPipe"), ("cut-off test per neighbour", "recurseInsert, simplexArrayList::insert"), ("distance formula", "utils::vectors_distance")],
     "loop-invariant analysis: index ranges of the pair loops, the term stored per pair, the positions read by the complexes, dominance of recording by the cut-off test",
     "Decides loop ranges, stored terms and cut-off tests for arbitrary sizes. Rounding and ragged input rows are out of scope." + TRUST)

prop("C06", "Recorded simplices carry the right vertices, weight and dimension",
     "Each simplex recorded by an insertion step is the simplex so far extended by the node's vertex; its weight is the largest of the distances among its vertices, it is filed under its own dimension, counted once, never exceeds the requested dimension, and larger simplices are sought through every neighbour attached before. Vertices have weight zero. The array list expands a pair of simplices only when all faces are present, and looking up or counting simplices reports exactly what is stored.",
     ["inputs", "histories"], "every point set, cut-off, dimension limit and order of insertions",
     "The tests count simplices of one point set at one dimension and cut-off, so most weight, level and limit mistakes are invisible.",
     ["Complex/simplexTree.cpp", "Complex/indSimplexTree.cpp", "Complex/simplexArrayList.cpp"],
     [("inductive step", "simplexTree::recurseInsert, indSimplexTree::recurseInsert"), ("vertex insertion", "insert"), ("expansion", "simplexArrayList::expandDimensions"), ("lookup and counts", "find, findWeight, simplexCount, vertexCount")],
     "path-sensitive symbolic abstraction of the inductive insertion step, order facts for the weight, linear facts for levels and limits, chain-walk analysis of sibling loops",
     "Decides every path of one insertion or expansion step for arbitrary distances, limits and already recorded simplices; by induction over insertions this covers every history. Completeness of the array-list expansion over the pair choice is decided only through its loop ranges." + TRUST)

prop("C07", "Stored simplices are retrieved complete and in ascending order of weight",
     "Retrieving the simplices of a complex returns, per dimension, every stored simplex with its weight in ascending order of weight, after any history of insertions, retrievals and reductions. Simplices added or removed after an earlier retrieval are reflected by the next one.",
     ["inputs", "histories"], "every sequence of insertions, reductions and retrievals",
     "The tests retrieve once from one filled complex and look at the number of simplices only.",
     ["Complex/simplexTree.cpp", "Complex/indSimplexTree.cpp", "Complex/simplexArrayList.cpp"],
     [("retrieval", "getAllEdges, getIndexEdges"), ("sorted flag", "isSorted writes"), ("storage sites", "recurseInsert, insert, expandDimensions"), ("reduction", "reduceComplex")],
     "flag-protocol typestate over all mutators, comparator order analysis, and row-coverage analysis of the returned lists",
     "Decides for every path of every retrieval that all rows are sorted by weight or the sorted flag justifies it, and that every storage change resets the flag." + TRUST)

prop("C08", "A cleared complex starts over like a newly built one",
     "After clear(), a complex of any type is as a newly built one: it holds no simplices, its counts are zero, indices start from 0 and it can be filled again. The drivers that run the stages several times on one complex clear it between the runs.",
     ["histories"], "every history before the clear and every sequence of partitions",
     "The tests clear once and never refill a cleared complex, nor do they run the partition drivers.",
     ["Complex/simplexTree.cpp", "Complex/indSimplexTree.cpp", "Complex/simplexArrayList.cpp", "LHFmain/main.cpp"],
     [("clear", "simplexTree::clear, indSimplexTree::clear, simplexArrayList::clear"), ("partition drivers", "processReducedWrapper, processDataWrapper")],
     "effect analysis: members written by the insertion side against their value after every path of clear() and of the constructors; must-precede analysis of clear between pipeline runs",
     "Decides every member the insertion side changes, on every path of clear, and every path between two pipeline runs." + TRUST)

prop("C09", "Reported intervals name real births and deaths, and text and table agree",
     "Every line of the interval text of a persistence stage is one interval with three fields: a dimension, the weight of a simplex of that dimension as birth, and as death the weight of a simplex one dimension higher or the cut-off; above dimension 0 nothing is listed that is born and dies at the same weight. Where a stage reports both a text and a table of intervals, they list the same ones. In fastPersistence, the finite intervals of dimension 0 end at exactly the edges that join two separate components, and every column is reduced against every face not closed one dimension lower.",
     ["inputs"], "every complex, cut-off and number of dimensions",
     "The tests only run the stages on one small input and look at whether a text came out; they never compare text with table, nor births and deaths with simplices.",
     ["Pipes/fastPersistence.cpp", "Pipes/persistencePairs.cpp", "Pipes/optPersistencePairs.cpp", "Pipes/boundaryPipe.cpp"],
     [("interval rows", "runPipe of every stage that assigns bettiOutput"), ("interval table", "bettiTable pushes"), ("component merge", "fastPersistence::runPipe, dimension 0"), ("column reduction", "fastPersistence::runPipe, higher dimensions")],
     "value-flow analysis of the appended text and table entries per path, index lockstep analysis, and inductive path analysis of the merge and reduction loops",
     "Decides every path that appends to the text or the table and every path of one merge or reduction step. Does not establish that the intervals are the true barcode." + TRUST)

prop("C10", "Files written and read keep every element; success means a complete file",
     "A table written as CSV or MAT holds every element exactly once, in row and column order, in the documented layout (header line first where there is one, elements separated by commas and rows by line ends; for MAT the two counts and then one element per line), and a writer reports success only if everything it wrote reached the file. Reading keeps every row that is not blank, with all its values at full precision, whatever its length and whether or not the last line is terminated; a file that cannot be opened, or that ends in the middle of a MAT row, adds nothing.",
     ["inputs", "fault_sequences"], "every table, every file content, every failing file",
     "The tests write and read small tables to a working disk; they never compare values, and never meet a full disk, a missing file, an unterminated or very long last line.",
     ["Utils/writeOutput.cpp", "Utils/readInput.cpp"],
     [("writers", "writeOutput::writeStats, writeBarcodes, writeCSV, writeMAT"), ("readers", "readInput::readCSV, parseDoubleVector, readMAT"), ("row stream", "readInput::streamInit, streamRead")],
     "dataflow of the text sent to each stream (as a sequence with loops), loop-range analysis against the table's sizes, must-follow analysis of the success result after the close, and path analysis of the reading loops",
     "Decides every path of every writer and reader function. Does not bound the rounding of printed values." + TRUST)

prop("C11", "Every stage that ran leaves one true statistics row, and results are written",
     "Each pipeline stage that runs adds exactly one row to the statistics, behind those of earlier stages, with the six columns the header names: its name, the time between two clock readings around its work, the size of the data after it in the unit shown, and the number of vertices and of simplices after it. No stage drops earlier rows, a preprocessor adds one row too, and every decision about a window point adds one row with seven columns whose result matches the decision. After the last stage, when an output file is asked for, the statistics and the intervals of that packet are written to it.",
     ["inputs", "histories"], "every stage, data size, unit and order of stages",
     "The tests never look at the statistics text; the unit branches need megabytes of data and the lost-row cases particular stage orders.",
     ["Pipes/basePipe.cpp", "Preprocessing/preprocessor.cpp", "Pipes/pipePacket.cpp", "Complex/simplexBase.cpp", "LHFmain/main.cpp"],
     [("statistics rows", "basePipe::runPipeWrapper, preprocessor::runPreprocessorWrapper"), ("data size", "pipePacket::getSize"), ("window decisions", "simplexBase::streamEvaluator"), ("final outputs", "runPipeline")],
     "value-flow analysis of the text each path appends, event-order analysis around the stage call, and effect analysis of every stage on the statistics",
     "Decides every path of the wrappers, of the packet's size and of the driver's output part, and every stage body for writes to the statistics." + TRUST)

prop("C12", "Set operations on vertex sets and face enumeration are exact",
     "For any two vertex sets the library's helpers return exactly their union, what they share, or what exactly one of them has, whatever the order of the elements unless they are declared sorted; the pair helper yields differences and union only for sets that differ in exactly two vertices. Enumerating subsets returns every subset of the requested size once, the face tests accept exactly the faces with one vertex less (or an empty simplex), and the neighbour list holds one distance per point in the order of the points.",
     ["inputs"], "every pair of vertex sets in any order, every set and size, every list of points",
     "The tests compare one or two hand-written sets per helper, mostly sorted and at most four elements long.",
     ["Utils/utils.cpp", "Pipes/persistencePairs.cpp", "Pipes/optPersistencePairs.cpp", "Pipes/boundaryPipe.cpp"],
     [("set operations", "utils::setXOR, symmetricDiff, setIntersect, setUnion, intersect"), ("subset enumeration", "utils::getSubsets"), ("face tests", "checkFace"), ("neighbour distances", "utils::nearestNeighbors")],
     "interpretation of each path's result as a membership function over (in first, in second), with an inductive form for loops; sortedness of merge operands; inductive list form and loop ranges for the subset enumeration",
     "Decides every path of every helper." + TRUST)
prop("C13", "Boundary tables hold every face and are reduced over every row and position",
     "The boundary table of a dimension has an entry for every simplex of that dimension against every simplex one dimension below, where only simplices recorded as the largest face of a row of the dimension above may be left empty. Its reduction goes through the face positions in ascending order, looks in every row, reports exactly the row it finds and adds that row, as found, to every later row holding the position; when rows are read lazily, each is read once and waits until it is a pivot. The rows reported for a dimension are numbered after all simplices of lower dimensions.",
     ["inputs"], "every complex, dimension, matrix and order of the simplices",
     "The tests run the persistence stages on one small complex and do not look at the table, its reduction or the numbering.",
     ["Pipes/persistencePairs.cpp", "Pipes/optPersistencePairs.cpp", "Pipes/boundaryPipe.cpp", "Complex/simplexBase.hpp"],
     [("tables", "createBoundaryMatrix, createBoundarySets, boundaryPipe::boundaryMatrix"), ("reductions", "getRankNull (matrix, sets, simplices), boundaryPipe::reduceBoundaryMatrix"), ("numbering", "persistencePairs::createBoundaryMatrix, optPersistencePairs::runPipe, getRankNull(simplices)")],
     "loop-range and path analysis over the interpreted loop nests: positions, search, hit condition, row recorded, range, condition and operand of the elimination (taken before it starts), columns, cleared face, offsets as linear forms per dimension",
     "Decides every loop and path of the tables and reductions; that the pairing built on them equals true persistent homology is not claimed (see not_applicable)." + TRUST)
prop("C14", "Partitions hold every point that belongs to them and results map back",
     "Separating data by label puts every point, together with its index, into the bin of its label; separating by radius puts it into the bin of every centroid nearer than the radius; separating by boundary puts it into the bin of every list naming its label; the radius used is the largest distance of any point to the centroid of its label. In the reduced mode every non-empty partition, cut at twice that radius, is run on its own points with an empty table and complex; all its entries are kept with their boundary indices translated to the full data, and the centroids are run last.",
     ["inputs"], "every data set, labelling, radius, set of boundary lists and number of partitions",
     "No test calls the partition helpers with more than trivial input, and none runs the reduced mode.",
     ["Utils/utils.cpp", "LHFmain/main.cpp"],
     [("bins", "utils::separatePartitions (both), utils::separateBoundaryPartitions"), ("radius", "utils::computeMaxRadius"), ("mapping back", "utils::mapPartitionIndexing"), ("reduced mode", "processReducedWrapper")],
     "loop-range, extremum and lockstep analysis of the interpreted loops (both halves of a bin filled by the same pass with the same bin and index), and event-order analysis around the pipeline runs of the reduced mode",
     "Decides every loop and path of the four helpers and the driver loop." + TRUST)
prop("C15", "k-means++ labels every point by its nearest centroid and averages its points",
     "In each round of k-means++ every point is compared with every centroid and gets, in the order of the points, the number of the nearest one; every coordinate of the point is added to that centroid's sum and the point counted once, both from zero in each round. Each centroid with points then becomes their mean and one without stays; rounds use the moved centroids and stop early only when no label changed, and the last centroids and labels are returned. Starting centroids are data points not chosen twice.",
     ["inputs"], "every data set, number of clusters, iterations and random choice",
     "The tests run k-means on one small set without checking labels or centroids; which cluster is empty or nearest depends on random starts.",
     ["Preprocessing/kMeansPlusPlus.cpp"],
     [("assignment, update, result, start", "kMeansPlusPlus::runPreprocessor")],
     "extremum analysis with a companion index, loop-range and accumulator analysis over the interpreted rounds, guard analysis of the starting choices",
     "Decides every loop and path of the rounds; convergence and quality of the clustering are not claimed." + TRUST)

prop("C16", "Neighbour queries are exact and density clustering follows its rule",
     "A neighbourhood query of the kd-tree returns every indexed point within the radius, the boundary included, once and with its own index, and nothing else; the nearest-point query returns a closest point. DBSCAN marks an unvisited point with too few neighbours as noise and otherwise starts a cluster with a fresh label, which reaches exactly the points connected through core points and takes in noise on its border.",
     ["inputs"], "every data set, dimension, radius and required number of neighbours",
     "No test queries the tree or checks cluster labels; errors need points on a splitting plane, at exactly the radius, or with exactly the required number of neighbours.",
     ["Preprocessing/kdTree.cpp", "Preprocessing/dbscan.cpp"],
     [("build", "kdTree::makeTree"), ("query", "kdTree::neighborhood"), ("nearest", "kdTree::findNearest"), ("clusters", "dbscan::cluster"), ("growth", "dbscan::expandCluster")],
     "path-sensitive interpretation of the recursive build and search with a case analysis of every ordering of split offset, radius and distances; range partition and comparator analysis; case analysis of labels and thresholds for DBSCAN",
     "Every path of the build step, both searches and both clustering loops is decided by induction over the tree; the distance function is the one of C05." + TRUST)
prop("C17", "Stream clustering keeps decayed means and gives every point to one micro-cluster",
     "A micro-cluster's weight halves every 1/lambda time units, a new point adds one to it, and its centre and radius are the mean and the standard deviation of its points under those weights. The time advances by one every streamSpeed points, and every point of the stream is given, in order, to the nearest potential micro-cluster if the radius with the point taken in stays within epsilon, otherwise to the nearest outlier micro-cluster under the same condition, otherwise to a new outlier one; an outlier one that exceeds beta*mu moves to the potential ones. Each sweep drops exactly the micro-clusters whose weight is below their limit, and the centres of all potential ones are returned.",
     ["inputs", "histories"], "every stream of points, every decay, radius and history of insertions",
     "No test looks at micro-clusters; errors need particular insertion times, two light micro-clusters side by side, or a radius at the limit.",
     ["Preprocessing/denStream.cpp"],
     [("micro-cluster", "microCluster::insertPoint"), ("radius", "microCluster::mergeRadius"), ("assignment", "denStream::merging"), ("stream", "denStream::runPreprocessor")],
     "path-sensitive interpretation with loop summaries; update terms compared with the recurrence on fixed rational points, decision tables of the assignment and of the sweep enumerated over orderings of radius, weight and limit",
     "Every path of the micro-cluster updates, of the assignment and of the stream loop is decided; the initial labels are those of C16 and distances those of C05." + TRUST)
prop("C18", "Windowed runs replace one point for each they accept, and the right one",
     "A windowed run fills its window with the first points in order and builds the initial complex once, from exactly these. From then on a rejected point changes nothing, and for an accepted one exactly one point leaves and it is appended, with points, keys (increasing by one) and partition labels in step: the naive window drops its oldest; the sliding window drops the oldest point of the smallest partition that got no point for more than the last 25 insertions, else its oldest if the new point opens a partition, else the oldest of another partition than the new point's. A new point joins its nearest neighbour's partition unless it is too far from it, and every inner pipeline run of the sliding window sees the window of that moment.",
     ["inputs", "histories"], "every stream, window size and history of accepted and rejected points",
     "No test runs a windowed pipeline on a stream that exceeds the window; errors need several partitions, outdated partitions, or a stream that ends between two reports.",
     ["Pipes/slidingWindow.cpp", "Pipes/naiveWindow.cpp", "Complex/simplexTree.cpp"],
     [("window", "slidingWindow::runPipe, naiveWindow::runPipe"), ("decision", "slidingWindow::nnBasedEvaluator"), ("removal", "slidingWindow::deleteNNstats"), ("initial window", "slidingWindow::runComplexInitializer"), ("verdict", "simplexTree::insertIterative")],
     "path-sensitive interpretation of the stream loop and of the evaluator, container-step analysis of points, keys and labels, and a decision table of verdict, partition and victim enumerated over orderings of distance, averages and labels",
     "Every path of the loop and of the decision is decided; the averages the decision reads are C21." + TRUST)
prop("C19", "Results depend only on settings and input",
     "No result depends on what memory happened to hold or where objects happened to lie: every scalar variable and member has a value before it is read, on every path and for every object, and no order of simplices or any other data is taken from addresses. The clock is only shown (console, statistics texts), never decided by or kept, and random numbers are drawn only by the randomised clusterings.",
     ["inputs", "schedules"], "every input, configuration, previous content of memory and placement of objects",
     "Tests run once in fresh, mostly zeroed memory, where an unset value usually looks right.",
     ["Utils/utils.cpp", "Complex/simplexTree.cpp", "Complex/simplexArrayList.cpp", "Complex/indSimplexTree.cpp", "Pipes/basePipe.hpp", "Pipes/optPersistencePairs.cpp", "Preprocessing/denStream.cpp", "Preprocessing/kMeansPlusPlus.cpp"],
     [("variables", "every function of the program"), ("members", "every class of the program"), ("addresses", "comparators and ordered containers"), ("clock and random numbers", "every call of a clock or generator")],
     "definite-assignment dataflow over every function (loops by first iteration and by iterations that skip the write, conditions that correlate write and read exempted), constructor coverage of members, type-based search for address orders, taint analysis of clock values",
     "All functions and classes are covered. A read that depends on the same conditions as the write counts as undecided." + TRUST)

prop("C20", "Intermediate files hold what each stage produced, complete and under its name",
     "With debug output on, and only then, a pipeline stage that ran writes what it produced to a fresh file named after it; a preprocessor writes its points and its labels after every run, and a windowed run writes the window of each inner run under a number no other run has, which the interval file of that inner run carries, too. Each file holds every element once and in order: rows of values each followed by a comma, one row per line, for points and distances; the vertices and then the weight of every simplex, one per line, for graphs and complexes (of array lists the graph stage writes the edges and the rips stage all simplices); exactly the interval text for intervals; and one line per persistence pair with the six columns its header names.",
     ["inputs", "configurations", "histories"], "every packet, complex, debug setting and number of inner runs",
     "The tests call the output functions once on tiny packets and never read the files; a lost row, a column out of place or a file replaced by the next run passes unnoticed.",
     ["Pipes/*.cpp", "Preprocessing/preprocessor.cpp"],
     [("stage output", "outputData of every stage"), ("when it is written", "basePipe::runPipeWrapper, preprocessor::runPreprocessorWrapper"), ("numbers of inner runs", "naiveWindow::runSubPipeline, slidingWindow::runSubPipeline")],
     "symbolic reconstruction of the text sent to each file as a nested layout over all paths and loops, matched against the documented layout; path-sensitive analysis of when output is called and with what",
     "Every path of every output function, both run wrappers and both inner-run drivers is decided. How numbers are rounded when printed is not claimed (N04)." + TRUST)

prop("C21", "The sliding window's statistics describe the points it holds",
     "After every point the sliding window accepts, its statistics describe exactly the points it then holds: each partition's count is the number of its points and a partition without points has no average; each point's recorded nearest neighbour and distance are the closest other point of its own partition, or -1 for the only one; each partition's average is the mean of its points' nearest-neighbour distances, or -1 for a single point; and the distance matrix has one row and one column per point, in the order of the window. A rejected point changes none of these, and the first full window starts with the average over all its points.",
     ["inputs", "histories"], "every stream and every history of accepted and rejected points, of partitions opened, shrunk and emptied",
     "No test lets the window hold several partitions; a statistic that drifts shows only as a wrong decision many points later.",
     ["Pipes/slidingWindow.cpp"],
     [("removal", "slidingWindow::deleteNNstats"), ("update", "slidingWindow::updateStats"), ("when", "slidingWindow::nnBasedEvaluator"), ("start", "slidingWindow::runPipe")],
     "inductive step decided by case analysis: one removal and one update from statistics that describe the window must again describe it; the path conditions and effects of the removal, of the loop over the points and of what follows it are compared with the definition in every situation (partition of the point, partition that lost one, partition that grows, its size, whether its nearest neighbour left, order of the distances)",
     "The step is decided for every path; distances are compared exactly, rounding of the running averages is not." + TRUST)

na("N01", "The reported intervals are the true persistence barcode",
   "For every point cloud the intervals reported by a persistence pipeline are exactly those of persistent homology of its Vietoris-Rips filtration up to the cut-off.",
   ["inputs"], "every point cloud, cut-off and dimension",
   "The tests look at whether a text came out, never at which intervals.",
   ["Pipes/fastPersistence.cpp", "Pipes/persistencePairs.cpp", "Pipes/optPersistencePairs.cpp"],
   [("pairing", "runPipe of the persistence stages")],
   "Equality with the algebraic barcode quantifies over whole reduced boundary matrices of unbounded size; the stages pair through geometric face searches, not through the reduced columns, so no local invariant of their code implies it (it is in fact not met on some inputs). The parts a static argument reaches are C05, C06, C07, C09, C12 and C13.")
na("N02", "Clusterings are good and the iterations converge",
   "k-means++ ends in a local optimum of the sum of squared distances within the configured iterations, and its random starts follow the distance-weighted law.",
   ["inputs"], "every data set and random sequence",
   "Random starts, one small data set, nothing checked.",
   ["Preprocessing/kMeansPlusPlus.cpp", "Preprocessing/streamingKmeans.cpp"],
   [("rounds", "kMeansPlusPlus::runPreprocessor")],
   "Convergence and the distribution of starts are statements about run-time number sequences; the per-round rules are decided in C15.")
na("N03", "The streaming summary represents the whole stream",
   "The centroids returned by the streaming k-means summarise every point of the stream with weights that add up to its length.",
   ["inputs", "histories"], "every stream",
   "The tests only look at whether something came out.",
   ["Preprocessing/streamingKmeans.cpp", "Preprocessing/streamingUtils.cpp"],
   [("facility loop", "streamingKmeans::runPreprocessor")],
   "Which points become facilities depends on random draws against run-time distances and on facility costs that grow during the run; the code does not keep the weights in a form a loop invariant could relate to the stream (its known defects are listed in DESIGN.md).")
na("N04", "Numbers survive writing and reading without loss",
   "A table written by the program and read back holds the same numbers.",
   ["inputs"], "every double",
   "The tests never compare values.",
   ["Utils/writeOutput.cpp", "Utils/readInput.cpp"],
   [("number formatting", "stream insertion of doubles")],
   "The default stream precision rounds by documented standard behaviour; whether a given number survives depends on its value at run time. Structure, order and completeness of the tables are decided in C10.")
na("N05", "Time and memory stay within bounds",
   "A pipeline finishes within time and memory polynomial in the number of points for a fixed dimension and releases what it allocates.",
   ["inputs"], "every input size",
   "No test measures either.",
   ["Complex/*.cpp", "Pipes/*.cpp"],
   [("allocation", "new in the complexes")],
   "The sizes of the complexes depend on the distances at run time; no sound static bound in reach is better than exponential, and the program leaves its complexes to the end of the process.")
