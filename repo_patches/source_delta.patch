From 60546128b9062ae817262b0295cc2f7c0c93daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 01/48] fix: refuse to configure the rips stage without a
 dimension

---
 Pipes/ripsPipe.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Pipes/ripsPipe.cpp b/Pipes/ripsPipe.cpp
index 9fb5e87..37974f1 100644
--- a/Pipes/ripsPipe.cpp
+++ b/Pipes/ripsPipe.cpp
@@ -62,6 +62,7 @@ bool ripsPipe::configPipe(std::map<std::string, std::string> configMap){
 	if(pipe != configMap.end()){
 		dim = std::atoi(configMap["dimensions"].c_str());
 	}
+	else return false;
 	
 	pipe = configMap.find("collapse");
 	if(pipe != configMap.end())
-- 
2.43.0


From 905fbb386e98ab818f85d275a04defa61240de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 02/48] fix: do not read past the argument list when the last
 option has no value

---
 Utils/argParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Utils/argParser.cpp b/Utils/argParser.cpp
index 0163ba3..e8fa86b 100644
--- a/Utils/argParser.cpp
+++ b/Utils/argParser.cpp
@@ -81,7 +81,11 @@ std::map<std::string, std::string> argParser::parse(int argc, char** argv){
 	std::map<std::string,std::string> retVal;
 	//Remove and map the initial arguments (may be led with -- or -)
 	for(int i = 1; i < argc; i=i+2){
-		if (std::string(argv[i]).substr(0,2) == "--"){
+		if (i+1 >= argc){
+			//Every option takes a value; a trailing option has none
+			std::cout << "Missing value for argument: " << argv[i] << std::endl << std::endl;
+			printUsage();
+		} else if (std::string(argv[i]).substr(0,2) == "--"){
 			retVal[std::string(argv[i]).substr(2)] = argv[i+1];
 		} else if (std::string(argv[i]).substr(0,1) == "-"){
 			retVal[std::string(argv[i]).substr(1)] = argv[i+1];
-- 
2.43.0


From f68d488c2166d06e1a31e765c0d0bfd28a5d97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 03/48] fix: accept the documented mode name upscale

---
 Utils/argParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/argParser.cpp b/Utils/argParser.cpp
index e8fa86b..e4839f0 100644
--- a/Utils/argParser.cpp
+++ b/Utils/argParser.cpp
@@ -130,7 +130,7 @@ void argParser::setPipeline(std::map<std::string, std::string>& args){
 			args["pipeline"] = "distMatrix.neighGraph.rips.fastPersistence";
 			args["upscale"] = "false";
 			args["complexType"] = "simplexTree";
-		} else if(args["mode"] == "upscaleBound"){
+		} else if(args["mode"] == "upscaleBound" || args["mode"] == "upscale"){
 			if(args["preprocessor"] == "")
 				args["preprocessor"] = "kmeans++";
 			args["upscale"] = "true";
-- 
2.43.0


From e984e1d0d2ce6024ed3b803f99e7df9abfe2cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 04/48] fix: map partition boundary points back to the original
 indices

---
 LHFmain/main.cpp | 7 ++++++-
 Utils/utils.cpp  | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/LHFmain/main.cpp b/LHFmain/main.cpp
index 3989770..2c4dead 100644
--- a/LHFmain/main.cpp
+++ b/LHFmain/main.cpp
@@ -117,6 +117,7 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 		if(partitionedData.second[z].size() > 0){
 			std::cout << "Running Pipeline with : " << partitionedData.second[z].size() << " vectors" << std::endl;
 			wD->originalData = partitionedData.second[z];
+			wD->bettiTable.clear();
 			
 			
 			runPipeline(args, wD);
@@ -137,15 +138,19 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 	if(centroids.size() > 0){
 		std::cout << "Running Pipeline with : " << centroids.size() << " vectors" << std::endl;
 		wD->originalData = centroids;
+		wD->bettiTable.clear();
 		runPipeline(args, wD);
 		
 		wD->complex->clear();
+		
+		for(auto betEntry : wD->bettiTable)
+			mergedBettiTable.push_back(betEntry);
 	} else 
 		std::cout << "skipping" << std::endl;
 	
 	std::cout << std::endl << "_______BETTIS_______" << std::endl;
 	
-	for(auto a : wD->bettiTable){
+	for(auto a : mergedBettiTable){
 		std::cout << a.bettiDim << ",\t" << a.birth << ",\t" << a.death << ",\t";
 		ut.print1DVector(a.boundaryPoints);
 	}
diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 6ad28f2..170992d 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -86,7 +86,7 @@ void utils::mapPartitionIndexing(std::vector<unsigned> partitionedLabels, std::v
 	
 	//std::cout << "Part Labels: " << partitionedLabels.size() << std::endl;
 	
-	for(auto bet : bettiTable){
+	for(auto& bet : bettiTable){
 		std::set<unsigned> convBound;
 		
 		for(auto ind : bet.boundaryPoints){
-- 
2.43.0


From bf988b022100d511e46122ddd3d70f6c69cb316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 05/48] fix: the union of two equal sets is that set, not the
 empty set

---
 Utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 170992d..38227a6 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -379,7 +379,7 @@ std::vector<unsigned> utils::setUnion(std::vector<unsigned> v1, std::vector<unsi
 	std::vector<unsigned> retTemp;
 	
 	if(v1 == v2)
-		return ret;
+		return v1;
 	
 	if(!isSorted){
 		sort(v1.begin(), v1.end());
-- 
2.43.0


From a79580681d7e2e9dd23862c5ca17355f025d9ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 06/48] fix: read rows that consist of a single one-digit value

---
 Utils/readInput.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index fb7285c..9ac17ea 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -62,10 +62,10 @@ bool readInput::parseDoubleVector(std::string line, std::vector<double> &row){
 	std::size_t pos = std::string::npos;
 	
 	// Replace whitespace in the current line
-	line = std::regex_replace(line, std::regex(" "), "");
+	line = std::regex_replace(line, std::regex("\\s"), "");
 		
 	// Check if the line has a length (is not a blank line)
-	if(line.size() > 1){
+	if(line.size() > 0){
 			
 		// Iterate through each comma of the csv
 		while((pos = line.find_first_of(",")) != std::string::npos){
-- 
2.43.0


From 4b04531b2485bb35eb780745929ad689d404ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:30 +0000
Subject: [PATCH 07/48] fix: report failure when an output file could not be
 written

---
 Utils/writeOutput.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Utils/writeOutput.cpp b/Utils/writeOutput.cpp
index 25165ea..6b4f65a 100644
--- a/Utils/writeOutput.cpp
+++ b/Utils/writeOutput.cpp
@@ -26,7 +26,7 @@ bool writeOutput::writeStats(std::string stats, std::string filename){
 	file << "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\n";
 	file << stats;
 	file.close();
-	return true;	
+	return file.good();	
 }
 
 bool writeOutput::writeBarcodes(std::vector<std::vector<double>> data, std::string filename){
@@ -53,7 +53,7 @@ bool writeOutput::writeCSV(std::vector<std::vector<double>> data, std::string fi
 		file << "\n";
 	}
 	file.close();
-	return true;
+	return file.good();
 }
 
 // writeCSV -> write a csv formatted file of data input
@@ -61,7 +61,7 @@ bool writeOutput::writeCSV(std::string data, std::string filename){
 	std::ofstream file(filename + ".csv");
 	file << data;
 	file.close();
-	return true;
+	return file.good();
 }
 
 // writeCSV -> write a csv formatted file of data input
@@ -78,7 +78,7 @@ bool writeOutput::writeCSV(std::vector<std::vector<double>> data, std::string fi
 		file << "\n";
 	}
 	file.close();
-	return true;
+	return file.good();
 	
 }
 
@@ -88,7 +88,7 @@ bool writeOutput::writeCSV(std::string data, std::string filename, std::string h
 	file << header;
 	file << data;
 	file.close();
-	return true;
+	return file.good();
 	
 }
 
@@ -105,7 +105,7 @@ bool writeOutput::writeMAT(std::vector<std::vector<double>> data, std::string fi
 		}
 	}
 	file.close();
-	return true;
+	return file.good();
 }
 
 /*
-- 
2.43.0


From 819cd71cf3cae34a323dec7a632c38fd1f5add70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:30 +0000
Subject: [PATCH 08/48] fix: write an empty matrix without reading its first
 row

---
 Utils/writeOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/writeOutput.cpp b/Utils/writeOutput.cpp
index 6b4f65a..9b06a7a 100644
--- a/Utils/writeOutput.cpp
+++ b/Utils/writeOutput.cpp
@@ -97,7 +97,7 @@ bool writeOutput::writeCSV(std::string data, std::string filename, std::string h
 bool writeOutput::writeMAT(std::vector<std::vector<double>> data, std::string filename){
 	std::ofstream file(filename + ".mat");
 	
-	file << std::to_string(data.size()) << "\n" << std::to_string(data[0].size()) << "\n";
+	file << std::to_string(data.size()) << "\n" << std::to_string(data.size() > 0 ? data[0].size() : 0) << "\n";
 	for(auto row : data){
 		
 		for(auto column : row){
-- 
2.43.0


From d5c763e845252547fcb4bc03842dd86a9aac0ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:30 +0000
Subject: [PATCH 09/48] fix: a reader whose stream was never opened has no file

---
 Utils/readInput.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/readInput.hpp b/Utils/readInput.hpp
index 2cf9326..3f072c3 100644
--- a/Utils/readInput.hpp
+++ b/Utils/readInput.hpp
@@ -4,7 +4,7 @@
 
 class readInput {
   private:
-	FILE *pFile;
+	FILE *pFile = NULL;
 	char streamBuffer[1000];
 	bool parseDoubleVector(std::string, std::vector<double> &);
   
-- 
2.43.0


From 3b33ae03450931e24a611ee9677ec9f59948a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 10/48] fix: start every complex empty instead of with
 indeterminate members

---
 Complex/indSimplexTree.hpp | 6 +++---
 Complex/simplexBase.hpp    | 6 +++---
 Complex/simplexTree.hpp    | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Complex/indSimplexTree.hpp b/Complex/indSimplexTree.hpp
index 633c8a1..64a5b3d 100644
--- a/Complex/indSimplexTree.hpp
+++ b/Complex/indSimplexTree.hpp
@@ -19,12 +19,12 @@ class indSimplexTree : public simplexBase {
 	std::vector<std::vector<indTreeNode*>> dimensions;		
 	
 	unsigned indexCounter;
-	indTreeNode* head;
-	int nodeCount;
+	indTreeNode* head = nullptr;
+	int nodeCount = 0;
   
   public:
 	std::vector<std::vector<graphEntry>> indexedGraph;
-	bool isLeaf;
+	bool isLeaf = false;
 	
 	indSimplexTree(std::vector<std::vector<double>>);
 	indSimplexTree(double, std::vector<std::vector<double>>, int);
diff --git a/Complex/simplexBase.hpp b/Complex/simplexBase.hpp
index 2415465..504bcf5 100644
--- a/Complex/simplexBase.hpp
+++ b/Complex/simplexBase.hpp
@@ -81,8 +81,8 @@ class simplexBase {
 
 	std::vector<unsigned> dimCounts = {6, 15, 20};
 	std::string simplexType = "simplexBase";
-	double maxEpsilon;
-	int maxDimension;
+	double maxEpsilon = 0;
+	int maxDimension = 0;
 	std::vector<std::vector<double>> distMatrix;
 	std::vector<std::vector<std::pair<std::vector<unsigned>, double>>> weightedGraph;
 	int runningVectorCount = 0;
@@ -96,7 +96,7 @@ class simplexBase {
 	void setConfig(std::map<std::string, std::string>);
 	void setDistanceMatrix(std::vector<std::vector<double>> _distMatrix);
 	simplexBase* newSimplex(const std::string &simplexT, std::map<std::string, std::string> configMap);
-	bool (*streamEval) (std::vector<double>&, std::vector<std::vector<double>>&);
+	bool (*streamEval) (std::vector<double>&, std::vector<std::vector<double>>&) = nullptr;
     bool streamEvaluator(std::vector<double>&, std::vector<std::vector<double>>&);
 	void setStreamEvaluator(bool (*f) (std::vector<double>&, std::vector<std::vector<double>>&));
 
diff --git a/Complex/simplexTree.hpp b/Complex/simplexTree.hpp
index f181543..d49f6bf 100644
--- a/Complex/simplexTree.hpp
+++ b/Complex/simplexTree.hpp
@@ -8,7 +8,7 @@ class simplexTree : public simplexBase {
   private:
 	bool isSorted = false;
 	unsigned indexCounter;
-	int nodeCount;
+	int nodeCount = 0;
 	std::vector<std::vector<std::pair<std::set<unsigned>, double>>> weightEdgeGraph;
 
 	void insertInductive();
@@ -23,7 +23,7 @@ class simplexTree : public simplexBase {
 		double weight = 0;
 	};
 
-	treeNode* head;
+	treeNode* head = nullptr;
 	std::vector<treeNode*> dimensions;
 
 	simplexTree(std::vector<std::vector<double>>);
-- 
2.43.0


From 9ceef32d9ec9c5c8d9788e5af172c7dfd9716f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 11/48] fix: hand the complex its debug setting as text, not as
 a control character

---
 Complex/simplexBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/simplexBase.cpp b/Complex/simplexBase.cpp
index 1171ea6..02823e3 100644
--- a/Complex/simplexBase.cpp
+++ b/Complex/simplexBase.cpp
@@ -27,7 +27,7 @@ void simplexBase::setConfig(std::map<std::string, std::string> configMap){
 
 	auto pipe = configMap.find("debug");
 	if(pipe != configMap.end())
-		debug = std::atoi(configMap["debug"].c_str());
+		debug = configMap["debug"];
 	pipe = configMap.find("outputFile");
 	if(pipe != configMap.end())
 		outputFile = configMap["outputFile"].c_str();
-- 
2.43.0


From 0ad1ca79129efee459949f8f587afd9ffa7d6297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 12/48] fix: asking a simplexTree for a dimension it does not
 have

---
 Complex/simplexTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 67650d2..e22b1fb 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -470,7 +470,7 @@ std::pair<std::vector<std::set<unsigned>>, std::vector<std::set<unsigned>>> simp
 std::vector<std::vector<unsigned>> simplexTree::getDimEdges(int d,double){
 	std::vector<std::vector<unsigned>> ret;
 
-	if(weightEdgeGraph.size() >= d){
+	if(d >= 0 && weightEdgeGraph.size() > d){
 		for(auto z : weightEdgeGraph[d]){
 			std::vector<unsigned> temp(z.first.begin(), z.first.end());
 			ret.push_back(temp);
-- 
2.43.0


From f5744e015786862d26b938f3896165a9f39075fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 13/48] fix: remove the column of a deleted vector from the
 stored distance matrix

---
 Complex/simplexTree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index e22b1fb..a64733c 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -215,9 +215,9 @@ void simplexTree::deleteIterative(int keyToBeDeleted, int indexToBeDeleted)
     // Delete the corresponding row and column from the distance matrix.
     distMatrix.erase(distMatrix.begin() + indexToBeDeleted);
 
-    for(auto z : distMatrix)
+    for(auto& z : distMatrix)
     {
-        if(z.size() >= indexToBeDeleted)
+        if(z.size() > indexToBeDeleted)
             z.erase(z.begin() + indexToBeDeleted);
     }
 
-- 
2.43.0


From 003294af935791dd00b7bb93d73aeca101ab1f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 14/48] fix: simplexTree deletion used deleted nodes, an empty
 tree, and took siblings with it

---
 Complex/simplexTree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index a64733c..3d1e96e 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -253,10 +253,12 @@ void simplexTree::deleteIndexRecurse(int vectorIndex, treeNode* curNode){
 			dimensions[0] = head;
 		}
 
+		curNode->sibling = nullptr;
 		deletion(curNode);
 	} else if (curNode->child != nullptr && curNode->child->index == vectorIndex){
 		treeNode* tempNode = curNode->child;
 		curNode->child = curNode->child->sibling;
+		tempNode->sibling = nullptr;
 		deletion(tempNode);
 
 	} else if(curNode->child != nullptr){
@@ -512,6 +514,9 @@ bool simplexTree::deletion(std::set<unsigned> removalEntry) {
 
 // A recursive function to delete a simplex (and sub-branches) from the tree.
 bool simplexTree::deletion(treeNode* removalEntry) {
+	if(removalEntry == nullptr)
+		return false;
+
 	treeNode* curNode = removalEntry;
 	int deletionCount = 0;
 
@@ -543,7 +548,6 @@ bool simplexTree::deletion(treeNode* removalEntry) {
 	deletionCount++;
 	delete curNode;
 	nodeCount--;
-	removalEntry->child = nullptr;
 	return false;
 }
 
-- 
2.43.0


From 3d6d588a98734ecf8040fb24a30c0b2c0883ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 15/48] fix: a cleared simplexTree starts over with no nodes,
 index 0 and nothing sorted

---
 Complex/simplexTree.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 3d1e96e..a679af9 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -579,9 +579,11 @@ void simplexTree::clear(){
 	dimensions.clear();
 
 
-	//runningVectorCount = 0;
+	runningVectorCount = 0;
 	runningVectorIndices.clear();
-	//indexCounter = 0;
+	indexCounter = 0;
+	nodeCount = 0;
+	isSorted = false;
 
 }
 
-- 
2.43.0


From c49d1d6e3e372fbbec70f7e28992854414319b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 16/48] fix: edges inserted after a retrieval are sorted in on
 the next one

---
 Complex/indSimplexTree.cpp | 1 +
 Complex/simplexTree.cpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index 6312fdf..4b5a556 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -356,6 +356,7 @@ void indSimplexTree::insert(std::vector<double>&) {
 	//Create our new node to insert
 	indTreeNode* curNode = new indTreeNode;
 	curNode->index = indexCounter;
+	isSorted = false;
 	
 	std::set<unsigned> tempSet = {curNode->index};
 	
diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index a679af9..6398b90 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -284,6 +284,7 @@ void simplexTree::insert(std::vector<double>&) {
 	curNode->index = indexCounter;
 	std::set<unsigned> tempSet = {curNode->index};
 	runningVectorIndices.push_back(runningVectorCount);
+	isSorted = false;
 
 	//Check if this is the first node (i.e. head)
 	//	If so, initialize the head node
-- 
2.43.0


From 2b492fe3dde911d9ea1d1e786dbf421e5871ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 17/48] fix: clear an indSimplexTree

---
 Complex/indSimplexTree.cpp | 18 ++++++++++++++++++
 Complex/indSimplexTree.hpp |  1 +
 2 files changed, 19 insertions(+)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index 4b5a556..ce3d79e 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -838,6 +838,24 @@ void indSimplexTree::reduceComplex(){
 }
 
 
+void indSimplexTree::clear(){
+	//Release the nodes of every dimension
+	for(auto dim : dimensions){
+		for(auto node : dim)
+			delete node;
+	}
+	
+	dimensions.clear();
+	indexedGraph.clear();
+	head = nullptr;
+	indexCounter = 0;
+	nodeCount = 0;
+	isSorted = false;
+	
+	return;
+}
+
+
 std::vector<std::vector<unsigned>> indSimplexTree::getDimEdges(int,double){
 	std::vector<std::vector<unsigned>> ret;
 	return ret;
diff --git a/Complex/indSimplexTree.hpp b/Complex/indSimplexTree.hpp
index 64a5b3d..06b628b 100644
--- a/Complex/indSimplexTree.hpp
+++ b/Complex/indSimplexTree.hpp
@@ -53,6 +53,7 @@ class indSimplexTree : public simplexBase {
 	bool deletion(std::set<unsigned>);
 	void expandDimensions(int){return;};
 	void reduceComplex();
+	void clear();
 	
 	
 };
-- 
2.43.0


From 895070a182c05cb1e1090c1cc5f7870648b843e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 18/48] fix: count the simplices of dimension 3 and up without
 writing past the counters

---
 Complex/indSimplexTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index ce3d79e..b94d49f 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -192,6 +192,8 @@ void indSimplexTree::recurseInsert(indTreeNode* node, unsigned curIndex, int dep
 		std::set<unsigned> newSimp = simp;
 		newSimp.insert(node->index);
 		insNode->simplexSet = newSimp;
+		if(dimCounts.size() <= depth+1)
+			dimCounts.resize(depth+2);
 		dimCounts[depth+1]++;
 		
 		//Get the largest weight of this simplex
-- 
2.43.0


From 3129501a7a845e0fb66f33aead9838ce222c5a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 19/48] fix: the vertex count of an indSimplexTree is not its
 simplex count

---
 Complex/indSimplexTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index b94d49f..d0239aa 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -568,7 +568,7 @@ bool indSimplexTree::deletion(indTreeNode* removalEntry) {
 
 int indSimplexTree::vertexCount(){
 	//Return the number of vertices in the tree
-	return nodeCount;
+	return dimensions.size() > 0 ? dimensions[0].size() : 0;
 }
 
 int indSimplexTree::simplexCount(){
-- 
2.43.0


From bb8b368d5f46ae3eb58583ae4f17dd56874700d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 20/48] fix: searching an indSimplexTree for a simplex it does
 not hold

---
 Complex/indSimplexTree.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index d0239aa..8d5046c 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -444,10 +444,14 @@ void indSimplexTree::insert(std::vector<double>&) {
 // Iterative function to search for a key in the tree. The function returns true
 // if the key is found, else it returns false.
 bool indSimplexTree::search(std::set<unsigned> simplex){
+	if(dimensions.size() == 0)
+		return false;
+	
 	indTreeNode* curNode = dimensions[0][0];
 	
 	for(auto i :simplex){
-		while(curNode != nullptr && curNode->index != i);
+		while(curNode != nullptr && curNode->index != i)
+			curNode = curNode->sibling;
 		if(curNode != nullptr){ curNode = curNode->child; }
 		else { return false; }
 	}
@@ -487,7 +491,7 @@ double indSimplexTree::getWeight(std::set<unsigned> search){
 
 // The following function returns true if a given node has a child.
 bool indSimplexTree::haveChild(indSimplexTree const* present) {
-
+	return present != nullptr && present->head != nullptr && present->head->child != nullptr;
 }
 
 
@@ -581,6 +585,9 @@ bool indSimplexTree::find(std::set<unsigned> simplex){
 		ut.writeDebug("indSimplexTree","Complex is empty, skipping find");
 		return false;
 	}
+	
+	if(simplex.empty() || *simplex.begin() >= dimensions[0].size())
+		return false;
 		
 	indTreeNode* curNode = dimensions[0][*simplex.begin()];
 	
@@ -597,6 +604,9 @@ bool indSimplexTree::find(std::set<unsigned> simplex){
 					return -1; 
 				}
 			}
+			
+			if(curNode == nullptr)
+				return false;
 		}
 	}
 	return curNode->sortedIndex;	
-- 
2.43.0


From f358666bf312b5668ee30110f74f889680b7da01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 21/48] fix: find the faces of simplices of dimension 3 and up
 whatever their vertex order

---
 Complex/simplexArrayList.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Complex/simplexArrayList.cpp b/Complex/simplexArrayList.cpp
index d941925..43406d4 100644
--- a/Complex/simplexArrayList.cpp
+++ b/Complex/simplexArrayList.cpp
@@ -253,6 +253,7 @@ void simplexArrayList::expandDimensions(int dim){
 							for(unsigned pt : z){
 								searchVector.push_back(pt);
 							}
+							sort(searchVector.begin(), searchVector.end());
 							totalVector = ut.setUnion(totalVector, searchVector, true);
 							
 							double wt = 0;
-- 
2.43.0


From 0ea43a17f5010ae5cb699245fdacc43e88e7efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 22/48] fix: looking up a simplex of a dimension the
 simplexArrayList does not have

---
 Complex/simplexArrayList.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Complex/simplexArrayList.cpp b/Complex/simplexArrayList.cpp
index 43406d4..22a68a3 100644
--- a/Complex/simplexArrayList.cpp
+++ b/Complex/simplexArrayList.cpp
@@ -139,7 +139,7 @@ std::vector<std::vector<std::pair<std::set<unsigned>, double>>> simplexArrayList
 // weightedGraph[d][v][p] dimension d stores vectors v of point elements p of simplexes formed
 bool simplexArrayList::find(std::vector<unsigned> vector){
 	
-	if(weightedGraph.size() >= vector.size()){
+	if(vector.size() > 0 && weightedGraph.size() >= vector.size()){
 		//Search the weighted graph from the size of the vector
 		for(auto v = 0; v < weightedGraph[vector.size() - 1].size(); v++){
 			//ut.print1DVector(weightedGraph[vector.size() - 1][v]);
@@ -155,6 +155,9 @@ bool simplexArrayList::find(std::vector<unsigned> vector){
 // Search function to find a specific vector in the simplexArrayList
 // weightedGraph[d][v][p] dimension d stores vectors v of point elements p of simplexes formed
 double simplexArrayList::findWeight(std::vector<unsigned> vector){
+	if(vector.size() == 0 || weightedGraph.size() < vector.size())
+		return -1;
+	
 	//Search the weighted graph from the size of the vector
 	for(auto v = 0; v < weightedGraph[vector.size() - 1].size(); v++){
 		//ut.print1DVector(weightedGraph[vector.size() - 1][v]);
@@ -375,6 +378,9 @@ std::pair<std::vector<std::vector<unsigned>>, std::vector<std::vector<unsigned>>
 }
 
 bool simplexArrayList::deletion(std::vector<unsigned> vector){
+	if(vector.size() == 0 || weightedGraph.size() < vector.size())
+		return false;
+	
 	//Search the weighted graph from the size of the vector
 	for(auto v = 0; v < weightedGraph[vector.size() - 1].size(); v++){
 		//ut.print1DVector(weightedGraph[vector.size() - 1][v]);
-- 
2.43.0


From e623d29aebd1f396c027e35bf1c5860efb55dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 23/48] fix: clear the stored dimensions, not copies of them

---
 Complex/simplexArrayList.cpp | 2 +-
 Complex/simplexTree.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Complex/simplexArrayList.cpp b/Complex/simplexArrayList.cpp
index 22a68a3..e986401 100644
--- a/Complex/simplexArrayList.cpp
+++ b/Complex/simplexArrayList.cpp
@@ -395,7 +395,7 @@ bool simplexArrayList::deletion(std::vector<unsigned> vector){
 
 void simplexArrayList::clear(){
 	
-	for(auto z : weightedGraph){
+	for(auto& z : weightedGraph){
 		z.clear();
 	}
 	
diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 6398b90..fa81269 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -573,7 +573,7 @@ void simplexTree::clear(){
 	head = nullptr;
 
 	//Clear the weighed edge graph
-	for(auto z : weightEdgeGraph){
+	for(auto& z : weightEdgeGraph){
 		z.clear();
 	}
 	weightEdgeGraph.clear();
-- 
2.43.0


From 8fba54df92de17654f50c8016d32e8f57f3160f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:57 +0000
Subject: [PATCH 24/48] fix: stages and preprocessors start with defined member
 values

---
 Pipes/boundaryPipe.hpp            |  4 ++--
 Pipes/distMatrixPipe.hpp          |  2 +-
 Pipes/fastPersistence.hpp         |  6 +++---
 Pipes/naiveWindow.hpp             |  4 ++--
 Pipes/neighGraphPipe.hpp          |  4 ++--
 Pipes/optPersistencePairs.hpp     |  6 +++---
 Pipes/persistencePairs.hpp        |  6 +++---
 Pipes/ripsPipe.hpp                |  2 +-
 Pipes/slidingWindow.hpp           | 18 +++++++++---------
 Pipes/upscalePipe.hpp             |  2 +-
 Preprocessing/denStream.hpp       | 18 +++++++++---------
 Preprocessing/kMeansPlusPlus.hpp  |  4 ++--
 Preprocessing/preprocessor.hpp    |  2 +-
 Preprocessing/streamingKmeans.hpp |  4 ++--
 Preprocessing/streamingUtils.hpp  |  4 ++--
 15 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/Pipes/boundaryPipe.hpp b/Pipes/boundaryPipe.hpp
index 0be8b46..7cac3d9 100644
--- a/Pipes/boundaryPipe.hpp
+++ b/Pipes/boundaryPipe.hpp
@@ -10,9 +10,9 @@ class boundaryPipe : public basePipe {
 	std::vector<int> ranks;
 	std::vector<int> nRanks;
 	utils ut;
-	float maxEpsilon;
+	float maxEpsilon = 0;
   public:
-	int dim;
+	int dim = 0;
     boundaryPipe();
     pipePacket runPipe(pipePacket);
     bool configPipe(std::map<std::string, std::string>);
diff --git a/Pipes/distMatrixPipe.hpp b/Pipes/distMatrixPipe.hpp
index 77689f1..c8391ad 100644
--- a/Pipes/distMatrixPipe.hpp
+++ b/Pipes/distMatrixPipe.hpp
@@ -6,7 +6,7 @@
 
 class distMatrixPipe : public basePipe {
   private:
-	double maxEpsilon;
+	double maxEpsilon = 0;
   public:
     distMatrixPipe();
     pipePacket runPipe(pipePacket inData);
diff --git a/Pipes/fastPersistence.hpp b/Pipes/fastPersistence.hpp
index 10cdea6..90db69e 100644
--- a/Pipes/fastPersistence.hpp
+++ b/Pipes/fastPersistence.hpp
@@ -12,13 +12,13 @@ class fastPersistence : public basePipe {
   private:
   
 	utils ut;
-	double maxEpsilon;
+	double maxEpsilon = 0;
 	std::string twist;
   public:
 	struct tArrayEntry_t{
 		bool marked = false;
 		int ti = -1;
-		double birth;
+		double birth = 0;
 		double death = -1;
 		std::set<unsigned> simplex;
 	};
@@ -26,7 +26,7 @@ class fastPersistence : public basePipe {
 	
 	std::vector<tArrayEntry_t> tArray;
 	
-	int dim;
+	int dim = 0;
     fastPersistence();
     pipePacket runPipe(pipePacket inData);
     bool configPipe(std::map<std::string, std::string> configMap);
diff --git a/Pipes/naiveWindow.hpp b/Pipes/naiveWindow.hpp
index dc3a415..49f1f1c 100644
--- a/Pipes/naiveWindow.hpp
+++ b/Pipes/naiveWindow.hpp
@@ -7,8 +7,8 @@
 
 class naiveWindow : public basePipe {
   private:
-	double epsilon;
-	int dim;
+	double epsilon = 0;
+	int dim = 0;
 	int repCounter = 0;
 	std::string inputFile;
 	void runSubPipeline();
diff --git a/Pipes/neighGraphPipe.hpp b/Pipes/neighGraphPipe.hpp
index d0a6fd0..047bc04 100644
--- a/Pipes/neighGraphPipe.hpp
+++ b/Pipes/neighGraphPipe.hpp
@@ -6,8 +6,8 @@
 
 class neighGraphPipe : public basePipe {
   private:
-	double epsilon;
-	int dim;
+	double epsilon = 0;
+	int dim = 0;
   public:
     neighGraphPipe();
     pipePacket runPipe(pipePacket);
diff --git a/Pipes/optPersistencePairs.hpp b/Pipes/optPersistencePairs.hpp
index 3eb7c33..d1e7735 100644
--- a/Pipes/optPersistencePairs.hpp
+++ b/Pipes/optPersistencePairs.hpp
@@ -12,13 +12,13 @@ class optPersistencePairs : public basePipe {
   private:
   
 	utils ut;
-	double maxEpsilon;
+	double maxEpsilon = 0;
 	std::string twist;
   public:
 	struct tArrayEntry_t{
 		bool marked = false;
 		int ti = -1;
-		double birth;
+		double birth = 0;
 		double death = -1;
 		std::set<unsigned> simplex;
 	};
@@ -26,7 +26,7 @@ class optPersistencePairs : public basePipe {
 	
 	std::vector<tArrayEntry_t> tArray;
 	
-	int dim;
+	int dim = 0;
     optPersistencePairs();
     pipePacket runPipe(pipePacket inData);
     bool configPipe(std::map<std::string, std::string> configMap);
diff --git a/Pipes/persistencePairs.hpp b/Pipes/persistencePairs.hpp
index 6c39af1..6c41e09 100644
--- a/Pipes/persistencePairs.hpp
+++ b/Pipes/persistencePairs.hpp
@@ -11,13 +11,13 @@ class persistencePairs : public basePipe {
   private:
   
 	utils ut;
-	double maxEpsilon;
+	double maxEpsilon = 0;
 	std::string twist;
   public:
 	struct tArrayEntry_t{
 		bool marked = false;
 		int ti = -1;
-		double birth;
+		double birth = 0;
 		double death = -1;
 		std::set<unsigned> simplex;
 	};
@@ -25,7 +25,7 @@ class persistencePairs : public basePipe {
 	
 	std::vector<tArrayEntry_t> tArray;
 	
-	int dim;
+	int dim = 0;
     persistencePairs();
     pipePacket runPipe(pipePacket inData);
     bool configPipe(std::map<std::string, std::string> configMap);
diff --git a/Pipes/ripsPipe.hpp b/Pipes/ripsPipe.hpp
index ec6be23..d7355dc 100644
--- a/Pipes/ripsPipe.hpp
+++ b/Pipes/ripsPipe.hpp
@@ -8,7 +8,7 @@ class ripsPipe : public basePipe {
   private:
   public:
 	std::string collapse;
-	int dim;
+	int dim = 0;
     ripsPipe();
     pipePacket runPipe(pipePacket);
     bool configPipe(std::map<std::string, std::string>);
diff --git a/Pipes/slidingWindow.hpp b/Pipes/slidingWindow.hpp
index c62ad00..280f3e0 100644
--- a/Pipes/slidingWindow.hpp
+++ b/Pipes/slidingWindow.hpp
@@ -8,8 +8,8 @@
 
 class slidingWindow : public basePipe {
 private:
-    double epsilon;
-    int dim;
+    double epsilon = 0;
+    int dim = 0;
     int repCounter = 0;
     std::string inputFile;
     void runSubPipeline();
@@ -19,9 +19,9 @@ private:
 public:
     struct EvalParams
     {
-        int windowMaxSize;
-        int key;
-        int targetPartition;  // The partition membership of a new vector, if the new vector is to be added to the window.
+        int windowMaxSize = 0;
+        int key = 0;
+        int targetPartition = 0;  // The partition membership of a new vector, if the new vector is to be added to the window.
         std::vector<int> windowKeys;
         std::vector<int> partitionLabels;
         std::vector<int> nnIndices;  // A container to store the index of each point's nearest neighbor within the window.
@@ -30,10 +30,10 @@ public:
         std::unordered_map<int, int> numPointsPartn;  // A dictionary to store the number of points in each partition.
         std::map<int, int> maxKeys;  // A dictionary to store the maxKey of each partition.
         std::vector<double> distsFromCurrVec;
-        int keyToBeDeleted;
-        int labelToBeDeleted;
-        int indexToBeDeleted;
-        double nnDistToBeDeleted;
+        int keyToBeDeleted = 0;
+        int labelToBeDeleted = 0;
+        int indexToBeDeleted = 0;
+        double nnDistToBeDeleted = 0;
         std::vector<double> distMatLastRow;//(windowMaxSize, 0);  // The last row of the upper triangular distance matrix is a vector of 0s.
     };
     
diff --git a/Pipes/upscalePipe.hpp b/Pipes/upscalePipe.hpp
index b23f3f4..df9aed5 100644
--- a/Pipes/upscalePipe.hpp
+++ b/Pipes/upscalePipe.hpp
@@ -7,7 +7,7 @@
 class upscalePipe : public basePipe {
   private:
   public:
-	int dim;
+	int dim = 0;
     upscalePipe();
     pipePacket runPipe(pipePacket inData);
     bool configPipe(std::map<std::string, std::string> configMap);
diff --git a/Preprocessing/denStream.hpp b/Preprocessing/denStream.hpp
index f9f49d5..802825b 100644
--- a/Preprocessing/denStream.hpp
+++ b/Preprocessing/denStream.hpp
@@ -26,15 +26,15 @@ class microCluster{
 
 class denStream : public preprocessor {
  	private:
-		int initPoints;
-		int minPoints;
-		double lambda;
-		double epsilon;
-		int mu;
-		double beta;    
-		int streamSpeed;
-		int Tp;
-		int timestamp;
+		int initPoints = 0;
+		int minPoints = 0;
+		double lambda = 0;
+		double epsilon = 0;
+		int mu = 0;
+		double beta = 0;    
+		int streamSpeed = 0;
+		int Tp = 0;
+		int timestamp = 0;
 
 		std::vector<microCluster> pMicroClusters;
   		std::vector<microCluster> oMicroClusters;
diff --git a/Preprocessing/kMeansPlusPlus.hpp b/Preprocessing/kMeansPlusPlus.hpp
index 3e4b6ec..0a5b1e3 100644
--- a/Preprocessing/kMeansPlusPlus.hpp
+++ b/Preprocessing/kMeansPlusPlus.hpp
@@ -6,8 +6,8 @@
 
 class kMeansPlusPlus : public preprocessor {
   private:
-	int num_clusters;			
-	int num_iterations;			
+	int num_clusters = 0;			
+	int num_iterations = 0;			
   public:
 	kMeansPlusPlus();
     pipePacket runPreprocessor(pipePacket inData);
diff --git a/Preprocessing/preprocessor.hpp b/Preprocessing/preprocessor.hpp
index 9f1a597..743785b 100644
--- a/Preprocessing/preprocessor.hpp
+++ b/Preprocessing/preprocessor.hpp
@@ -9,7 +9,7 @@ class preprocessor {
   public:
 	bool configured = false;
 	std::string procName = "preprocessor";
-	int debug;
+	int debug = 0;
 	std::string outputFile;
 	utils ut;
     preprocessor();
diff --git a/Preprocessing/streamingKmeans.hpp b/Preprocessing/streamingKmeans.hpp
index 33b5384..0271aeb 100644
--- a/Preprocessing/streamingKmeans.hpp
+++ b/Preprocessing/streamingKmeans.hpp
@@ -6,8 +6,8 @@
 
 class streamingKmeans : public preprocessor {
   private:
-	int numClusters;			
-	int num_iterations;		
+	int numClusters = 0;			
+	int num_iterations = 0;		
   	
   public:
 	streamingKmeans();
diff --git a/Preprocessing/streamingUtils.hpp b/Preprocessing/streamingUtils.hpp
index 00f9b28..4f4a1e6 100644
--- a/Preprocessing/streamingUtils.hpp
+++ b/Preprocessing/streamingUtils.hpp
@@ -6,8 +6,8 @@
 
 class streamingUtils  {
   private:
-	int num_clusters;			
-	int num_iterations;			
+	int num_clusters = 0;			
+	int num_iterations = 0;			
   public:
 	streamingUtils();
   std::vector<std::vector<double>> kMeans(std::vector<std::vector<double>>& kHat);
-- 
2.43.0


From 2222a4993c3377b688b1709eb64026c875cc4c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 25/48] fix: fastPersistence read past the last pivot of the
 previous dimension

---
 Pipes/fastPersistence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 3e5b9fd..11c1ca2 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -198,7 +198,7 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 					//		-The row is a pivot of the column, closing an interval
 					//		-The row is not a pivot, needing to be XOR with the stored pivot
 					//		-The row does not intersect (0 or cleared from previous dimension)
-					if(*pivotPointer != pivotIndex){
+					if(pivotPointer == pivots.end() || *pivotPointer != pivotIndex){
 						
 						//Check for intersection
 						bool isCoface = std::includes(column_to_reduce.first.begin(), column_to_reduce.first.end(), row_to_check.first.begin(), row_to_check.first.end());
-- 
2.43.0


From 119489f7af2c4c6064ddfae9540050a4a542b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 26/48] fix: fastPersistence read the edge list of a complex
 that has no edges

---
 Pipes/fastPersistence.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 11c1ca2..c8cbb11 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -42,6 +42,10 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 	
 	if(edges.size() == 0)
 		return inData;
+	
+	//A complex without edges has no edge list of its own
+	if(edges.size() == 1)
+		edges.push_back({});
 		
 	std::vector<std::pair<double,double>> temp;
 	std::vector<std::vector<std::pair<double,double>>> ret;
-- 
2.43.0


From 890cbaaccb750de3eb73d762f19926940e3e19ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 27/48] fix: record the interval of an edge joining two single
 points in the boundary table

---
 Pipes/fastPersistence.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index c8cbb11..4783b18 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -130,6 +130,8 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 			conSetTemp.push_back(edge.first);
 			pivots.push_back(pivotIndex);
 			mst.push_back(edge.second);
+			bettiBoundaryTableEntry des = { 0, 0, edge.second, edge.first };
+			inData.bettiTable.push_back(des);
 			
 		}
 		
-- 
2.43.0


From 44bd63780a2bbd91ba6276ee9c90e354152931e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 28/48] fix: persistence pairing looked before the first and
 behind the last simplex

---
 Pipes/optPersistencePairs.cpp |  4 ++--
 Pipes/persistencePairs.cpp    | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/Pipes/optPersistencePairs.cpp b/Pipes/optPersistencePairs.cpp
index 011328c..e53fb8c 100644
--- a/Pipes/optPersistencePairs.cpp
+++ b/Pipes/optPersistencePairs.cpp
@@ -669,7 +669,7 @@ pipePacket optPersistencePairs::runPipe(pipePacket inData){
 			tArray[curIndex].marked = true;
 			
 		} else {
-			int iter = tArray.size();
+			int iter = tArray.size() - 1;
 			for(; iter >= 0; iter--){
 				if(curDim == 2 && tArray[iter].marked && tArray[iter].death < 0 && tArray[curIndex].simplex.size() != kSimplices[iter].size())
 					break;
@@ -678,7 +678,7 @@ pipePacket optPersistencePairs::runPipe(pipePacket inData){
 					&& ut.setIntersect(kSimplices[iter], tArray[curIndex].simplex, false).size() == tArray[curIndex].simplex.size() - 1)
 						break;
 			}
-			if(iter != 0){
+			if(iter > 0){
 				if(tArray[iter].death < 0 ){
 					tArray[iter].death = kWeights[curIndex];
 					
diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index fe33d53..28a5243 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -73,6 +73,9 @@ std::set<unsigned> persistencePairs::getRankNull(std::vector<std::vector<unsigne
 	
 	std::set<unsigned> ret;
 	
+	if(boundaryMatrix.size() == 0)
+		return ret;
+	
 	//Step through each column and search for a one
 	for(unsigned i = 0; i < boundaryMatrix[0].size(); i++){
 		
@@ -236,12 +239,12 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 			tArray[curIndex].marked = true;
 			
 		} else {
-			int iter = tArray.size();
+			int iter = tArray.size() - 1;
 			for(; iter >= 0; iter--){
 				if(tArray[iter].marked && tArray[iter].death < 0 && tArray[curIndex].simplex.size() != kSimplices[iter].size() && ut.setIntersect(kSimplices[iter], tArray[curIndex].simplex, false).size() == tArray[curIndex].simplex.size() - 1)
 					break;
 			}
-			if(iter != 0){
+			if(iter > 0){
 				if(tArray[iter].death < 0 ){
 					tArray[iter].death = kWeights[curIndex];
 					
@@ -252,7 +255,8 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 			
 			if(!kPivots.empty()){
 				kPivots.erase(kPivots.begin());
-				curPivot = *(kPivots.begin());
+				if(!kPivots.empty())
+					curPivot = *(kPivots.begin());
 			}
 		}
 	}
-- 
2.43.0


From 98fb8bea8d621fc5dfde721b77976c3a603eb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 29/48] fix: optPersistencePairs read dimensions the complex
 does not have

---
 Pipes/optPersistencePairs.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Pipes/optPersistencePairs.cpp b/Pipes/optPersistencePairs.cpp
index e53fb8c..9034659 100644
--- a/Pipes/optPersistencePairs.cpp
+++ b/Pipes/optPersistencePairs.cpp
@@ -124,6 +124,10 @@ std::pair<std::set<unsigned>,std::set<unsigned>> optPersistencePairs::getRankNul
 	std::set<unsigned> retPivots;
 	std::set<unsigned> retFaces;
 	
+	if(boundaryMatrix.size() == 0)
+		return std::make_pair(retPivots, retFaces);
+
+	
 	//Step through each column and search for a one (pivot)
 	for(unsigned i = 0; i < boundaryMatrix[0].size(); i++){
 		
@@ -184,7 +188,7 @@ std::set<unsigned> optPersistencePairs::getRankNull(std::vector<std::vector<indS
 	std::set<unsigned> curPivots;
 	std::set<unsigned> curFaces;
 	
-	for(int d = dim; d > 0; d--){
+	for(int d = std::min(dim, (int)ge.size() - 1); d > 0; d--){
 		
 		//Start a timer for physical time passed during this dimensions computation
 		auto startTime = std::chrono::high_resolution_clock::now();	
@@ -552,7 +556,7 @@ pipePacket optPersistencePairs::runPipe(pipePacket inData){
 			pivotOffset += i.size();
 		}
 		
-		for(int d = dim; d > 0; d--){
+		for(int d = std::min(dim, (int)indGraph.size() - 1); d > 0; d--){
 			
 			auto r = createBoundarySets(indGraph, d, maxFaces, inData);
 			
@@ -603,7 +607,7 @@ pipePacket optPersistencePairs::runPipe(pipePacket inData){
 		
 
 		//Iterate each dimension, only need coefficients (V)
-		for(int d = dim; d > 0; d--){
+		for(int d = std::min(dim, (int)edges.size() - 1); d > 0; d--){
 			
 			//First, construct the current boundary matrix (by dimension); clear pivots (if they exist)
 			ret[d] = createBoundaryMatrix(edges, d, maxFaces);
-- 
2.43.0


From f2ff8e7ff512c893aa35181639fedbdc6d6098fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 30/48] fix: the barcode writer adds the header, the stages
 only the intervals

---
 Pipes/boundaryPipe.cpp        | 2 +-
 Pipes/optPersistencePairs.cpp | 2 +-
 Pipes/persistencePairs.cpp    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Pipes/boundaryPipe.cpp b/Pipes/boundaryPipe.cpp
index c493891..5cdcf03 100644
--- a/Pipes/boundaryPipe.cpp
+++ b/Pipes/boundaryPipe.cpp
@@ -282,7 +282,7 @@ pipePacket boundaryPipe::runPipe(pipePacket inData){
 
 	}
 	
-	std::string output = "Dim,Birth,Death\n";
+	std::string output = "";
 	
 	for(int i = 0; i < dim; i ++){
 		bettiDef_t lastBetti = {0.0,i,0};
diff --git a/Pipes/optPersistencePairs.cpp b/Pipes/optPersistencePairs.cpp
index 9034659..8df7180 100644
--- a/Pipes/optPersistencePairs.cpp
+++ b/Pipes/optPersistencePairs.cpp
@@ -523,7 +523,7 @@ pipePacket optPersistencePairs::runPipe(pipePacket inData){
 	auto startTime = std::chrono::high_resolution_clock::now();
 	unsigned pivotOffset = 0;
 	std::set<unsigned> pivots;
-	std::string bettis = "curIndex,index,dim,birth,death\n";
+	std::string bettis = "";
 	auto edgeEndTime = std::chrono::high_resolution_clock::now();
 	auto edgeStartTime = std::chrono::high_resolution_clock::now();
 	
diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index 28a5243..9f33acf 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -203,7 +203,7 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 	//Generate our boundary matrix and retrieve pivots
 	std::set<unsigned> kPivots = createBoundaryMatrix(edges);
 	
-	std::string bettis = "dim,birth,death\n";
+	std::string bettis = "";
 	
 	//Flatten the edges into a single array
 	std::vector<std::set<unsigned>> kSimplices;
-- 
2.43.0


From 35a5ee9f6beb7aaaa23ce2d00d50d1b17cada3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 31/48] fix: boundary stage read behind the last row, betti
 number and debug table

---
 Pipes/boundaryPipe.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Pipes/boundaryPipe.cpp b/Pipes/boundaryPipe.cpp
index 5cdcf03..fea0adc 100644
--- a/Pipes/boundaryPipe.cpp
+++ b/Pipes/boundaryPipe.cpp
@@ -56,9 +56,11 @@ std::pair<std::vector<std::vector<unsigned>>,std::pair<int,int>> boundaryPipe::r
 	
 	if(boundaryMatrix.size() <= 0)
 		return std::make_pair(ret,std::make_pair(0,0));
+	
+	const unsigned columns = boundaryMatrix[0].size();
 		
 	//Step through each column and search for a 1 in that column
-	for(unsigned i = 0; i < boundaryMatrix[0].size(); i++){
+	for(unsigned i = 0; i < columns; i++){
 		//Step through each vector
 		for(unsigned j = 0; j < boundaryMatrix.size(); j++){
 			
@@ -78,7 +80,7 @@ std::pair<std::vector<std::vector<unsigned>>,std::pair<int,int>> boundaryPipe::r
 				while(j < boundaryMatrix.size()){
 					if(boundaryMatrix[j][i] == 1){
 						//XOR the remaining rows
-						for(unsigned d = 0; d < boundaryMatrix[0].size(); d++)
+						for(unsigned d = 0; d < columns; d++)
 							boundaryMatrix[j][d] = boundaryMatrix[j][d] ^ tempRow[d];
 					}
 					j += 1;
@@ -217,7 +219,7 @@ pipePacket boundaryPipe::runPipe(pipePacket inData){
 		bettiNumbers.push_back(0);
 	}
 	
-	std::string bettiOutput[] = {"Epsilon\t\tDim\tBD\tBetti\trank\tnullity\tlRank\tlNul\n","Epsilon\t\tDim\tBD\tBetti\trank\tnullity\tlRank\tlNul\n","Epsilon\t\tDim\tBD\tBetti\trank\tnullity\tlRank\tlNul\n"};
+	std::vector<std::string> bettiOutput(dim < 2 ? 3 : dim + 1, "Epsilon\t\tDim\tBD\tBetti\trank\tnullity\tlRank\tlNul\n");
 	
 	double epsilon = 0;
 	
@@ -286,7 +288,7 @@ pipePacket boundaryPipe::runPipe(pipePacket inData){
 	
 	for(int i = 0; i < dim; i ++){
 		bettiDef_t lastBetti = {0.0,i,0};
-		for(int j = bettis.size(); j >= 0; j--){
+		for(int j = (int)bettis.size() - 1; j >= 0; j--){
 			int lastBirth;
 			
 			if(bettis[j].dim == i){
-- 
2.43.0


From fe0154c006c9c08c7266ef9910255a0df7b48b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 32/48] fix: keep the epsilon of the boundary stage in full
 precision

---
 Pipes/boundaryPipe.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/boundaryPipe.hpp b/Pipes/boundaryPipe.hpp
index 7cac3d9..5efeea1 100644
--- a/Pipes/boundaryPipe.hpp
+++ b/Pipes/boundaryPipe.hpp
@@ -10,7 +10,7 @@ class boundaryPipe : public basePipe {
 	std::vector<int> ranks;
 	std::vector<int> nRanks;
 	utils ut;
-	float maxEpsilon = 0;
+	double maxEpsilon = 0;
   public:
 	int dim = 0;
     boundaryPipe();
-- 
2.43.0


From 894b48f1e20a4b1484650b3d42037d2c0408712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 33/48] fix: naiveWindow asked for a stage name that does not
 exist

---
 Pipes/naiveWindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/naiveWindow.cpp b/Pipes/naiveWindow.cpp
index fe8b954..7c20ef0 100644
--- a/Pipes/naiveWindow.cpp
+++ b/Pipes/naiveWindow.cpp
@@ -132,7 +132,7 @@ void naiveWindow::runSubPipeline(pipePacket wrData){
 	pipePacket inData = wrData;
 	outputData(inData);
 
-	std::string pipeFuncts = "rips.fastpersistence";
+	std::string pipeFuncts = "rips.fastPersistence";
 	auto lim = count(pipeFuncts.begin(), pipeFuncts.end(), '.') + 1;
 	subConfigMap["fn"] = "_" + std::to_string(repCounter);
 	repCounter++;
-- 
2.43.0


From d84d3781bda50002f7d96064450d2afff98d81a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 34/48] fix: report an unknown complex type instead of running
 stages without a complex

---
 LHFmain/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/LHFmain/main.cpp b/LHFmain/main.cpp
index 2c4dead..722c078 100644
--- a/LHFmain/main.cpp
+++ b/LHFmain/main.cpp
@@ -282,6 +282,12 @@ int main(int argc, char* argv[]){
 	//Create a pipePacket (datatype) to store the complex and pass between engines
     auto *wD = new pipePacket(args, args["complexType"]);	//wD (workingData)
 	
+	if(wD->complex == nullptr){
+		cout << "LHF : Unknown complex type: " << args["complexType"] << endl;
+		ap->printUsage();
+		return 0;
+	}
+	
 	if(args["pipeline"] != "slidingwindow"){
 		//Read data from inputFile CSV
 		wD->originalData = rs->readCSV(args["inputFile"]);
-- 
2.43.0


From 4f8b8a726f62f91b424d0841719e3eb6276cedd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 35/48] fix: k-means++ does not index an empty input or search
 past its end for distinct centroids

---
 Preprocessing/kMeansPlusPlus.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index 1239a0b..97533de 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -31,6 +31,11 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
 		return inData;
 	}
 	
+	if(inData.originalData.size() == 0 || num_clusters < 1){
+		ut.writeLog(procName,"No data or no clusters requested");
+		return inData;
+	}
+	
     //Arguments - num_clusters, num_iterations
     std::vector<std::vector<double>> centroids;     //Storing centroids
     std::vector<int> labels;                        //Storing labels for mapping data to centroids
@@ -81,7 +86,7 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
     }       
     
     int i = 0;
-    while(tempCentroids.size() < num_clusters){
+    while(tempCentroids.size() < num_clusters && i < inData.originalData.size()){
 		if(std::find(tempCentroids.begin(), tempCentroids.end(), inData.originalData[i]) == tempCentroids.end()){
 			tempCentroids.push_back(inData.originalData[i]);
 		}
-- 
2.43.0


From 9eae68f8ff679565ec0b03ee182cc4c7dfebb7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 36/48] fix: k-means++ labels the last point as well

---
 Preprocessing/kMeansPlusPlus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index 97533de..6e64802 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -117,7 +117,7 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
 		std::vector<unsigned> curLabels;
 		
 		//For each point, classify it to a centroid
-		for (unsigned j = 0; j < inData.originalData.size() - 1; j++){
+		for (unsigned j = 0; j < inData.originalData.size(); j++){
 			double minDist = std::numeric_limits<double>::max();
 			unsigned clusterIndex = 0;
 			
-- 
2.43.0


From d40ea759654103e21a2ebd4efbda008316584e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 37/48] fix: a k-means++ centroid without points keeps its
 position instead of becoming NaN

---
 Preprocessing/kMeansPlusPlus.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index 6e64802..471aa3f 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -111,9 +111,9 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
     //Iterate until we reach max iderations or no change in the classification
 	for (int z = 0; z < num_iterations; z++){
 		
-		std::vector<double> summedClusters(num_clusters, 0); 
-		std::vector<std::vector<double>> summedCentroidVectors(num_clusters, std::vector<double>(inData.originalData[0].size(), 0));
-		std::vector<double> counts(num_clusters, 0);
+		std::vector<double> summedClusters(tempCentroids.size(), 0); 
+		std::vector<std::vector<double>> summedCentroidVectors(tempCentroids.size(), std::vector<double>(inData.originalData[0].size(), 0));
+		std::vector<double> counts(tempCentroids.size(), 0);
 		std::vector<unsigned> curLabels;
 		
 		//For each point, classify it to a centroid
@@ -144,6 +144,11 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
 		//Otherwise, 
 		//		Shift the centroid geometric centers to new centroids
 		for(int i = 0; i < summedCentroidVectors.size(); i++){
+			//A centroid without points stays where it is
+			if(counts[i] == 0){
+				summedCentroidVectors[i] = tempCentroids[i];
+				continue;
+			}
 			for(int d =0; d < summedCentroidVectors[0].size(); d++){
 				summedCentroidVectors[i][d] = summedCentroidVectors[i][d] / counts[i];
 			}
-- 
2.43.0


From 8c9679ab8214897eccc8b9c88241447ffc268386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 38/48] fix: kd-tree neighbourhood includes points exactly at
 the radius across a split

---
 Preprocessing/kdTree.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Preprocessing/kdTree.cpp b/Preprocessing/kdTree.cpp
index 46184f8..efae72c 100644
--- a/Preprocessing/kdTree.cpp
+++ b/Preprocessing/kdTree.cpp
@@ -7,6 +7,7 @@
 #include <fstream>
 #include <algorithm>
 #include <cstdlib>
+#include <cmath>
 #include <limits>
 #include <random>
 #include <chrono>
@@ -201,7 +202,7 @@ kdNodePtr kdTree::findNearest(const kdNodePtr &branch, const point &pt, const si
         }
     }
 
-    if(abs(dx) < bestDistL){
+    if(std::fabs(dx) < bestDistL){
         further = findNearest(other, pt, nextLv, bestL, bestDistL);
         if(!further->x.empty()){
             double dl = ut.vectors_distance(further->x, pt);
@@ -268,7 +269,7 @@ pointIndexArr kdTree::neighborhood(const kdNodePtr &branch, const point &pt, con
 
     nbh_s = neighborhood(section, pt, rad, (level +1) % dim);
     nbh.insert(nbh.end(), nbh_s.begin(), nbh_s.end()); //Add points in neighborhood from that branch
-    if(abs(dx) < rad){ //Points in other branch may also be contained in neighborhood
+    if(std::fabs(dx) <= rad){ //Points in other branch may also be contained in neighborhood
         nbh_o = neighborhood(other, pt, rad, (level+1)% dim);
         nbh.insert(nbh.end(), nbh_o.begin(), nbh_o.end());
     }
-- 
2.43.0


From 45d628106459a61d872811b92b23cbb39070fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 39/48] fix: sliding window evicts a point of another partition
 instead of searching for label !target

---
 Pipes/slidingWindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 20b4a45..f54f2a5 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -437,7 +437,7 @@ bool slidingWindow::nnBasedEvaluator(std::vector<double>& currentVector, std::ve
                 // we'll delete the oldest point from a partition label != targetPartition label.
 
                 // Find the first occurrence of a partition label != targetPartition label.
-                defaultVals->indexToBeDeleted = std::find( defaultVals->partitionLabels.begin(), defaultVals->partitionLabels.end(), !defaultVals->targetPartition ) - defaultVals->partitionLabels.begin();
+                defaultVals->indexToBeDeleted = std::find_if( defaultVals->partitionLabels.begin(), defaultVals->partitionLabels.end(), [](int label){ return label != defaultVals->targetPartition; } ) - defaultVals->partitionLabels.begin();
                 defaultVals->labelToBeDeleted = defaultVals->partitionLabels[defaultVals->indexToBeDeleted];
 
                 deleteNNstats();
-- 
2.43.0


From 85cf5144fd1b68d86fe5a8a72957dd7551955b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 40/48] fix: denStream and dbscan do not read past inputs
 shorter than the initial batch

---
 Preprocessing/dbscan.cpp    | 2 +-
 Preprocessing/denStream.cpp | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Preprocessing/dbscan.cpp b/Preprocessing/dbscan.cpp
index c694b9e..a92f95e 100644
--- a/Preprocessing/dbscan.cpp
+++ b/Preprocessing/dbscan.cpp
@@ -20,7 +20,7 @@
 
 std::vector<int> dbscan::cluster(const std::vector<std::vector<double>> &data, int minPoints = 20, double epsilon = 16, int size = 0){
     //Run DBSCAN on the first size points - to initiate DenStream
-    if(size == 0){ //If not specified, cluster whole data set
+    if(size == 0 || size > data.size()){ //If not specified, cluster whole data set
         size = data.size();
     }
 
diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index 05a3bd1..0d97dce 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -91,7 +91,12 @@ denStream::denStream(){
 // runPipe -> Run the configured functions of this pipeline segment
 pipePacket denStream::runPreprocessor(pipePacket inData){
   /////////constants//////////
-  initPoints = 1000; // points to generate p clusters (large data sets, use 1000) 
+  if(inData.originalData.size() == 0){
+    ut.writeLog(procName,"No data to cluster");
+    return inData;
+  }
+
+  initPoints = std::min<size_t>(1000, inData.originalData.size()); // points to generate p clusters (large data sets, use 1000) 
   minPoints = 20; //For DBSCAN 
   mu = 10;   //weight of data points in cluster threshold
   beta = 0.2; // outlier threshold
-- 
2.43.0


From 99b132d7847f40bf28d610dc9d1e7b4b681e002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 41/48] fix: edges retrieved after reducing an indSimplexTree
 are the remaining ones

---
 Complex/indSimplexTree.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index 8d5046c..d332992 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -809,7 +809,8 @@ void indSimplexTree::reduceComplex(){
 		//}
 		//std::cout << std::endl;
 		
-		//Remove the removals...
+		//Remove the removals; the sorted graph is rebuilt on the next retrieval
+		isSorted = false;
 		for(auto r : removalSimplices){
 			for(int i = 0; i < dimensions[d].size(); i++){
 				if(r == dimensions[d][i]->simplexSet){
-- 
2.43.0


From 6198ad42ffc51564e2505da693008b8538609c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 42/48] fix: intervals of persistencePairs that never end carry
 their own dimension

---
 Pipes/persistencePairs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index 9f33acf..a40cd06 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -265,7 +265,7 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 	for(int t = 0; t < kSimplices.size(); t++){
 		if(tArray[t].marked && tArray[t].death == -1 && tArray[t].simplex.size() < dim){
 			ret[tArray[t].simplex.size()].push_back(std::make_pair(kWeights[t], maxEpsilon));
-			bettis += std::to_string(0) + "," + std::to_string(tArray[t].birth) + "," + std::to_string(maxEpsilon) + "\n";
+			bettis += std::to_string(tArray[t].simplex.size() - 1) + "," + std::to_string(tArray[t].birth) + "," + std::to_string(maxEpsilon) + "\n";
 		}
 	}
 	
-- 
2.43.0


From cd1292afff034386d34b2d4ec1dabc6a4e1d0f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:21 +0000
Subject: [PATCH 43/48] fix: stream rows longer than the read buffer and rows
 behind a blank line

---
 Utils/readInput.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index 9ac17ea..d801200 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -161,14 +161,21 @@ bool readInput::streamRead(std::vector<double> &row){
 	if(pFile == NULL)
 		return false;
 	
-	//Check for EOF
-	if(fgets(streamBuffer, 1000, pFile) == NULL)
-		return false;
+	//Read whole lines, whatever their length; a blank line is not the end of the stream
+	std::string line;
+	while(fgets(streamBuffer, sizeof(streamBuffer), pFile) != NULL){
+		line += streamBuffer;
+		
+		if((line.empty() || line.back() != '\n') && !feof(pFile))
+			continue;
+		
+		//Parse our row
+		if(parseDoubleVector(line, row))
+			return true;
+		
+		line.clear();
+	}
 	
-	//Parse our row
-	if(parseDoubleVector(streamBuffer, row))	
-		return true;
-	else
-		return false;
+	return false;
 }
 
-- 
2.43.0


From db1e7d0c94bab9184c22df0e28a4091ab35b9152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:27 +0000
Subject: [PATCH 44/48] fix: do not repeat the last value of a truncated MAT
 file

---
 Utils/readInput.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index d801200..8891958 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -126,7 +126,9 @@ std::vector<std::vector<double>> readInput::readMAT(std::string filename){
 		std::vector<double> tmp;	//Temporary (current) vector
 		
 		for(int dim = 0; dim < dimensions; dim++){
-			getline(file, line);		//Read the next line from file
+			//Read the next line from file; an incomplete vector at its end is left out
+			if(!getline(file, line))
+				return result;
 			
 			// Replace whitespace in the current line
 			line = std::regex_replace(line, std::regex(" "), "");
-- 
2.43.0


From 3aadff0d16f71eff157df1ea2246adb43e2202cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 45/48] fix: reduce boundary sets over every face that appears

---
 Pipes/optPersistencePairs.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Pipes/optPersistencePairs.cpp b/Pipes/optPersistencePairs.cpp
index 8df7180..66a83d9 100644
--- a/Pipes/optPersistencePairs.cpp
+++ b/Pipes/optPersistencePairs.cpp
@@ -72,8 +72,15 @@ std::pair<std::set<unsigned>,std::set<unsigned>> optPersistencePairs::getRankNul
 	std::set<unsigned> retPivots;
 	std::set<unsigned> retFaces;
 	
+	//The faces that appear in the boundary sets are the positions to reduce
+	unsigned faces = 0;
+	for(auto boundary : boundaryMatrix){
+		if(!boundary.empty() && *(boundary.rbegin()) >= faces)
+			faces = *(boundary.rbegin()) + 1;
+	}
+	
 	//Step through each column and search for pivot sequentially
-	for(unsigned i = 0; i < boundaryMatrix.size(); i++){
+	for(unsigned i = 0; i < faces; i++){
 		
 		//Step through each simplex
 		for(unsigned j = 0; j < boundaryMatrix.size(); j++){
-- 
2.43.0


From 11cd7113b16ecf64ffcc5db76729a0470528f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 46/48] fix: look up simplices and face positions in
 indSimplexTree

---
 Complex/indSimplexTree.cpp | 35 +++++++++++++++++++----------------
 Complex/indSimplexTree.hpp |  2 ++
 Complex/simplexBase.cpp    |  5 +++++
 Complex/simplexBase.hpp    |  5 ++++-
 4 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index d332992..9e7a351 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -580,37 +580,40 @@ int indSimplexTree::simplexCount(){
 	return nodeCount;
 } 
 
-bool indSimplexTree::find(std::set<unsigned> simplex){
+// Node that stores the simplex, nullptr if there is none
+indSimplexTree::indTreeNode* indSimplexTree::locate(std::set<unsigned> simplex){
 	if(dimensions.size() == 0){
 		ut.writeDebug("indSimplexTree","Complex is empty, skipping find");
-		return false;
+		return nullptr;
 	}
 	
 	if(simplex.empty() || *simplex.begin() >= dimensions[0].size())
-		return false;
+		return nullptr;
 		
 	indTreeNode* curNode = dimensions[0][*simplex.begin()];
 	
 	for(auto i = simplex.begin() ; i != simplex.end(); i++){
-		if(i != simplex.begin() && curNode->child != nullptr){
+		if(i != simplex.begin()){
 			curNode = curNode->child;
 			
-			while(curNode != nullptr){
-				if(curNode->index != *i){
-					curNode = curNode->sibling; 
-				} else if(curNode->index == *i){
-					break;
-				} else { 
-					return -1; 
-				}
-			}
+			while(curNode != nullptr && curNode->index != *i)
+				curNode = curNode->sibling; 
 			
 			if(curNode == nullptr)
-				return false;
+				return nullptr;
 		}
 	}
-	return curNode->sortedIndex;	
-	
+	return curNode;	
+}
+
+bool indSimplexTree::find(std::set<unsigned> simplex){
+	return locate(simplex) != nullptr;
+}
+
+// Position of a stored simplex among the sorted simplices of its dimension, -1 if it is not stored
+int indSimplexTree::findIndex(std::set<unsigned> simplex){
+	indTreeNode* node = locate(simplex);
+	return node == nullptr ? -1 : (int)node->sortedIndex;
 }
 
 double indSimplexTree::getSize(){
diff --git a/Complex/indSimplexTree.hpp b/Complex/indSimplexTree.hpp
index 06b628b..3c9734a 100644
--- a/Complex/indSimplexTree.hpp
+++ b/Complex/indSimplexTree.hpp
@@ -44,6 +44,8 @@ class indSimplexTree : public simplexBase {
 	double getSize();
 	void insert(std::vector<double>&);
 	bool find(std::set<unsigned>);
+	int findIndex(std::set<unsigned>);
+	indTreeNode* locate(std::set<unsigned>);
 	int simplexCount();
 	int vertexCount();
 	std::vector<std::vector<unsigned>> getDimEdges(int,double);
diff --git a/Complex/simplexBase.cpp b/Complex/simplexBase.cpp
index 02823e3..8149dbe 100644
--- a/Complex/simplexBase.cpp
+++ b/Complex/simplexBase.cpp
@@ -122,6 +122,11 @@ bool simplexBase::find(std::set<unsigned>){
 	return false;
 }
 
+int simplexBase::findIndex(std::set<unsigned>){
+	ut.writeLog(simplexType,"No findIndex function defined");
+	return -1;
+}
+
 int simplexBase::vertexCount(){
 	ut.writeLog(simplexType,"No vertexCount function defined");
 	return -1;
diff --git a/Complex/simplexBase.hpp b/Complex/simplexBase.hpp
index 504bcf5..4decd07 100644
--- a/Complex/simplexBase.hpp
+++ b/Complex/simplexBase.hpp
@@ -72,7 +72,9 @@ class simplexBase {
 			std::vector<std::set<unsigned>> subsets = getAllSubsets(simplexSet);
 
 			for(auto z : subsets){
-				indexes.insert(simpTree->find(z));
+				int index = simpTree->findIndex(z);
+				if(index >= 0)
+					indexes.insert(index);
 			}
 
 			return indexes;
@@ -107,6 +109,7 @@ class simplexBase {
 	virtual void insert(std::vector<double>&);
 	virtual bool find(std::vector<unsigned>);
 	virtual bool find(std::set<unsigned>);
+	virtual int findIndex(std::set<unsigned>);
 	virtual int simplexCount();
 	virtual int vertexCount();
 	virtual std::vector<std::vector<unsigned>> getDimEdges(int,double);
-- 
2.43.0


From 26909638856e56a345add46e8757e9a09bb859e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 47/48] fix: the last run of the sliding window's pipeline sees
 the current window

---
 Pipes/slidingWindow.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index f54f2a5..a2316eb 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -585,6 +585,8 @@ pipePacket slidingWindow::runPipe(pipePacket inData)
         {
             std::cout << "pointCounter: " << pointCounter << "\tSimplex Count: " << inData.complex->simplexCount() << "\tVertex Count: " << inData.complex->vertexCount() << std::endl;
 
+            if(windowValues.size() == defaultVals->windowMaxSize)
+                inData.originalData = windowValues;
             runSubPipeline(inData);
         }
         ut.writeLog("slidingWindow", "\tSuccessfully evaluated " + std::to_string(pointCounter) + " points");
-- 
2.43.0


From b7cd7c0ef479a6fc61280d0cde049106e01581a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 48/48] fix: keep the statistics of the sliding window in step
 with its points once it holds several partitions

---
 Pipes/slidingWindow.cpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index a2316eb..1eee8d3 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -25,6 +25,9 @@ slidingWindow::slidingWindow()
     return;
 }
 
+// Stands for the position of a nearest neighbor that was deleted from the window.
+static const int nnDeleted = -2;
+
 void slidingWindow::deleteNNstats()
 {
     defaultVals->keyToBeDeleted = defaultVals->windowKeys[defaultVals->indexToBeDeleted];
@@ -39,6 +42,21 @@ void slidingWindow::deleteNNstats()
 
     defaultVals->distsFromCurrVec.erase( defaultVals->distsFromCurrVec.begin() + defaultVals->indexToBeDeleted );
 
+    // The points behind the deleted one move up by one position; a point whose nearest neighbor was deleted has none for now.
+    for(auto& nn : defaultVals->nnIndices)
+    {
+        if (nn == defaultVals->indexToBeDeleted)
+            nn = nnDeleted;
+        else if (nn > defaultVals->indexToBeDeleted)
+            nn--;
+    }
+
+    // Delete the corresponding row and column from the distance matrix.
+    auto& distMatrix = pPack->complex->distMatrix;
+    distMatrix.erase( distMatrix.begin() + defaultVals->indexToBeDeleted );
+    for(auto& row : distMatrix)
+        row.erase( row.begin() + defaultVals->indexToBeDeleted );
+
     defaultVals->numPointsPartn[defaultVals->labelToBeDeleted] = defaultVals->numPointsPartn[defaultVals->labelToBeDeleted] - 1;
 
     // If there are no more points left in the partition from which the deletion took place:
@@ -80,7 +98,7 @@ void slidingWindow::updateStats()
         // to be added to. And, the point that was deleted was the nearest neighbor of the i-th point.
         if ( defaultVals->partitionLabels[i] == defaultVals->labelToBeDeleted
                 &&  defaultVals->partitionLabels[i] != defaultVals->targetPartition
-                && defaultVals->nnIndices[i] == defaultVals->indexToBeDeleted )
+                && defaultVals->nnIndices[i] == nnDeleted )
         {
 
             // If only one point remains in the partition from which the last point was deleted:
@@ -199,7 +217,7 @@ void slidingWindow::updateStats()
                 sumNewNNdists = sumNewNNdists + defaultVals->nnDists[i];
             }
 
-            else if ( defaultVals->nnIndices[i] == defaultVals->indexToBeDeleted )
+            else if ( defaultVals->nnIndices[i] == nnDeleted )
             {
                 distsFromCurrVecTP.push_back( defaultVals->distsFromCurrVec[i] );
                 tpIndices.push_back(i);
@@ -209,7 +227,7 @@ void slidingWindow::updateStats()
                 std::vector<double> memberDistsFromVect;
                 std::vector<int> memberIndices;
 
-                for(unsigned int j = 0; j < defaultVals->windowMaxSize; j++)
+                for(unsigned int j = 0; j < pPack->complex->distMatrix.size(); j++)
                 {
                     if ( defaultVals->partitionLabels[j] == defaultVals->labelToBeDeleted )
                     {
@@ -225,6 +243,10 @@ void slidingWindow::updateStats()
                         }
                     }
                 }
+                // The new point is a member of the partition, too.
+                memberDistsFromVect.push_back( defaultVals->distsFromCurrVec[i] );
+                memberIndices.push_back( defaultVals->windowMaxSize - 1 );
+
                 auto tempIdx = std::min_element(memberDistsFromVect.begin(), memberDistsFromVect.end()) - memberDistsFromVect.begin();
                 defaultVals->nnIndices[i] = memberIndices[tempIdx];
 
@@ -241,7 +263,7 @@ void slidingWindow::updateStats()
         }
 
     }
-    pPack->complex->distMatrix.push_back( defaultVals->distMatLastRow );
+    pPack->complex->distMatrix.push_back( std::vector<double>(pPack->complex->distMatrix.size() + 1, 0) );
 
     // Update the average NN distance of the partition from which the last point was deleted and of the one to which the new point
     // is being added.
@@ -445,6 +467,9 @@ bool slidingWindow::nnBasedEvaluator(std::vector<double>& currentVector, std::ve
             }
         }
 
+        // Add to the distance matrix and update the NN statistics.
+        updateStats();
+
         return true;
     }
 
-- 
2.43.0

