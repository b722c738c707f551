From 40584c763ab07140b161f9b4d3ce685212319fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 01/60] fix: reject lower and upper bounds of different sizes

---
 src/Bounds/bounds.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Bounds/bounds.cpp b/src/Bounds/bounds.cpp
index 6a83dcb..2836dc3 100644
--- a/src/Bounds/bounds.cpp
+++ b/src/Bounds/bounds.cpp
@@ -37,6 +37,10 @@ Bounds::Bounds(std::vector<double> lb, std::vector<double> ub) {
 
 Bounds::Bounds(vec lb, vec ub){
 
+	if (lb.getSize() != ub.getSize()) {
+		throw std::invalid_argument("Lower and upper bounds must have the same size.");
+	}
+
 	lowerBounds = lb;
 	upperBounds = ub;
 	dimension = lb.getSize();
@@ -86,6 +90,10 @@ void Bounds::setBounds(double lowerBound, double upperBound) {
 
 void Bounds::setBounds(std::vector<double> lb, std::vector<double> ub){
 
+	if (lb.size() != ub.size()) {
+		throw std::invalid_argument("Lower and upper bounds must have the same size.");
+	}
+
 	unsigned int size = lb.size();
 	lowerBounds.resize(size);
 	upperBounds.resize(size);
-- 
2.43.0


From d55e233c5f4c16420fbae8eba0aae73a6858be5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 02/60] fix: reject negative positions in matrix row and column
 operations

---
 src/LinearAlgebra/matrix.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 72446ac..8da0fa3 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -192,13 +192,14 @@ void mat::addRow(const vec& rowVec, int position) {
 		position = nrows;
 	}
 
-	if(isEmpty()){
-		ncols = rowVec.getSize();
+	if (position < 0 || position > static_cast<int>(nrows)) {
+		throw std::invalid_argument("Position out of range.");
 	}
 
-	if (position > static_cast<int>(nrows)) {
-		throw std::invalid_argument("Position out of range.");
+	if(nrows == 0){
+		ncols = rowVec.getSize();
 	}
+
 	if (rowVec.getSize() != ncols) {
 		throw std::invalid_argument("Row vector size does not match the number of columns.");
 	}
@@ -235,14 +236,14 @@ void mat::addColumn(const vec& colVec, int position) {
 		position = ncols;
 	}
 
-	if(isEmpty()){
-		nrows = colVec.getSize();
+	if (position < 0 || position > static_cast<int>(ncols)) {
+		throw std::invalid_argument("Position out of range.");
 	}
 
-
-	if (position > static_cast<int>(ncols)) {
-		throw std::invalid_argument("Position out of range.");
+	if(ncols == 0){
+		nrows = colVec.getSize();
 	}
+
 	if (colVec.getSize() != nrows) {
 		throw std::invalid_argument("Column vector size does not match the number of rows.");
 	}
@@ -282,7 +283,7 @@ void mat::deleteRow(int rowIndex) {
 		rowIndex = nrows-1;
 	}
 
-	if (rowIndex >= static_cast<int>(nrows)) {
+	if (rowIndex < 0 || rowIndex >= static_cast<int>(nrows)) {
 		throw std::out_of_range("Row index out of range.");
 	}
 
@@ -563,6 +564,9 @@ vec mat::getCol(int colIndex) const {
 	}
 
 	if(colIndex == -1){
+		if (ncols == 0) {
+			throw std::out_of_range("Column index out of range.");
+		}
 		colIndex = ncols-1;
 	}
 
@@ -598,6 +602,9 @@ vec mat::getRow(int rowIndex) const {
 	}
 
 	if(rowIndex == -1){
+		if (nrows == 0) {
+			throw std::out_of_range("mat::getRow: Row index out of range.");
+		}
 		rowIndex = nrows-1;
 	}
 
-- 
2.43.0


From 227b06efd582b62271b3a53bcd6d8627d4934021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 03/60] fix: do not keep validation samples of an earlier file
 when training data are read again

---
 src/SurrogateModels/surrogate_model_data.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 8d727d1..211a8d4 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -120,6 +120,8 @@ void SurrogateModelData::readData(string inputFilename){
 
 	rawData.readFromCSV(inputFilename);
 	rawDataWork = rawData;
+	rawDataValidation.reset();
+	numberOfValidationSamples = 0;
 
 	if(ifDisplay){
 		rawData.print("rawData");
-- 
2.43.0


From a5b1de2bc27a29bd819b8582d5affa2c7d1f26c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 04/60] fix: reject derivative training data with an incomplete
 set of columns

---
 src/SurrogateModels/surrogate_model_data.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 211a8d4..4bc004e 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -258,6 +258,17 @@ void SurrogateModelData::assignDimensionFromData(void) {
 		dimensionOfTrainingData = rawDataWork.getNCols() - 1;
 	}
 
+	// The number of columns must be complete for the type of data
+	unsigned int expectedNumberOfColumns = dimensionOfTrainingData + 1;
+	if (ifDataHasGradients) {
+		expectedNumberOfColumns = 2*dimensionOfTrainingData + 1;
+	} else if (ifDataHasDirectionalDerivatives) {
+		expectedNumberOfColumns = 2*dimensionOfTrainingData + 2;
+	}
+	if (rawDataWork.getNCols() != expectedNumberOfColumns) {
+		throw std::runtime_error("Error: Number of columns of the training data does not fit to the type of the data (assign dimension from data).");
+	}
+
 	// Check if the dimension is already set and if it matches the derived dimension
 	if (dimension > 0 && dimensionOfTrainingData != dimension) {
 		std::cerr << "dimension = " <<dimension<<"\n";
-- 
2.43.0


From 0a4a01ee830986397d61b8249777e9e83cb84912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 05/60] fix: forget the function values of earlier test data
 when test data are read again

---
 src/SurrogateModels/surrogate_model_data.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 4bc004e..35f8041 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -222,6 +222,8 @@ void SurrogateModelData::readDataTest(string inputFilename) {
 	numberOfTestSamples = XrawTest.getNRows();
 	//   output.printMessage("Number of test samples = ", numberOfTestSamples);
 
+	ifTestDataHasFunctionValues = false;
+
 	// Check the number of columns in the test data
 	if (XrawTest.getNCols() == dimension + 1) {
 		// Data contains function values
-- 
2.43.0


From 040cb63fb3ef4a6915f3286ce7b6db3b1d4e6249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 06/60] fix: write the header of the test results only once
 when they are saved again

---
 src/SurrogateModels/surrogate_model.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index a4a3d23..6deba58 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -256,6 +256,7 @@ double SurrogateModel::calculateOutSampleError(void){
 
 void SurrogateModel::writeFileHeaderForTestResults() {
 
+	testResultsFileHeader.clear();
 	unsigned int dim = data.getDimension();
 	for (unsigned int i = 0; i < dim; i++) {
 		string variableName = "x" + std::to_string(i + 1);
-- 
2.43.0


From 15729dc754b943784c3e5c0236a90519de10972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 07/60] fix: compare in-sample predictions with the outputs of
 the training samples when samples are held back for validation

---
 src/SurrogateModels/INCLUDE/surrogate_model_data.hpp | 1 +
 src/SurrogateModels/surrogate_model.cpp              | 3 +--
 src/SurrogateModels/surrogate_model_data.cpp         | 6 ++++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
index 6023ce2..508d9c0 100644
--- a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
+++ b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
@@ -156,6 +156,7 @@ public:
 	vec getRowXRawTest(unsigned int index) const;
 
 	vec getOutputVector(void) const;
+	vec getOutputVectorRaw(void) const;
 	void setOutputVector(vec);
 
 	vec getOutputVectorTest(void) const;
diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index 6deba58..11d9542 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -199,8 +199,7 @@ double SurrogateModel::calculateInSampleError(string mode) const{
 	ModelLogger::getInstance().log(INFO, "Surrogate model: Calculating in sample error using " + std::to_string(data.getNumberOfSamples()) + " samples");
 
 	vec fTildeValues(data.getNumberOfSamples());
-	mat rawData = data.getRawData();
-	vec fExact = rawData.getCol(dimension);
+	vec fExact = data.getOutputVectorRaw();
 
 	mat X = data.getInputMatrix();
 	double squaredError = 0.0;
diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 35f8041..f43f662 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -570,6 +570,12 @@ vec SurrogateModelData::getOutputVector(void) const{
 
 }
 
+vec SurrogateModelData::getOutputVectorRaw(void) const{
+
+	return rawDataWork.getCol(dimension);
+
+}
+
 vec SurrogateModelData::getOutputVectorValidation(void) const{
 
 	return yValidation;
-- 
2.43.0


From a7861360c3de812a192738e1acd3da4a4433639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:02 +0000
Subject: [PATCH 08/60] fix: report the largest validation error for
 hyperparameters whose correlation matrix cannot be factorized

---
 src/SurrogateModels/kriging_training.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 72ee7f1..21dca8e 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -638,7 +638,7 @@ double KrigingModel::calculateValidationErrorForGivenHyperparameters(vec hyperPa
 
 	// Check if the factorization of the correlation matrix was successful
 	if (!linearSystemCorrelationMatrix.isFactorizationDone()) {
-		return std::numeric_limits<double>::lowest(); // Return a large negative value if factorization fails
+		return std::numeric_limits<double>::max(); // Return a large error if factorization fails
 	}
 
 	return calculateValidationError();
-- 
2.43.0


From c978aa49b2ad7410146e13b33091e2d598d24b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 09/60] fix: leave the matrix unchanged when a CSV file has
 rows of different lengths

---
 src/LinearAlgebra/matrix.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 8da0fa3..e2c32fd 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -1032,6 +1032,13 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 		throw std::runtime_error("No data found in file: " + filename);
 	}
 
+	// Reject files with rows of different lengths before the matrix is changed
+	for (size_t i = 0; i < data.size(); ++i) {
+		if (data[i].size() != data[0].size()) {
+			throw std::runtime_error("Inconsistent number of columns in row " + std::to_string(i));
+		}
+	}
+
 	// Determine the number of rows and columns
 	nrows = data.size();
 	ncols = data[0].size();
@@ -1042,9 +1049,6 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 
 	// Fill the matrix with data from the vector
 	for (unsigned int i = 0; i < nrows; ++i) {
-		if (data[i].size() != static_cast<size_t>(ncols)) {
-			throw std::runtime_error("Inconsistent number of columns in row " + std::to_string(i));
-		}
 		for (unsigned int j = 0; j < ncols; ++j) {
 			matrix[j * nrows + i] = data[i][j];  // Column-major order
 		}
-- 
2.43.0


From bcd02507a335b024fa34b4282342717153d504dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 10/60] fix: start a new line when a row is appended to a CSV
 file without a final line break

---
 src/LinearAlgebra/vector.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index b2818f0..f5a7142 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -648,6 +648,7 @@ vec vec::unitVector(NormType type) const {
 
 void vec::appendToCSV(const std::string& filename, int precision) const {
     // Check if the CSV file exists and has the expected number of columns
+    bool ifLastLineIsIncomplete = false;
     std::ifstream inFile(filename);
     if (inFile.is_open()) {
         std::string line;
@@ -665,6 +666,11 @@ void vec::appendToCSV(const std::string& filename, int precision) const {
             if (columnCount != size) {
                 throw std::runtime_error("Size of vector does not match the number of columns in the CSV file.");
             }
+
+            // The last line of the file may end without a line break
+            do {
+                ifLastLineIsIncomplete = inFile.eof();
+            } while (std::getline(inFile, line));
         }
         inFile.close();
     }
@@ -679,6 +685,9 @@ void vec::appendToCSV(const std::string& filename, int precision) const {
     outFile << std::fixed << std::setprecision(precision);
 
     // Append vector data as a new row
+    if (ifLastLineIsIncomplete) {
+        outFile << "\n";
+    }
     for (unsigned int i = 0; i < size; ++i) {
         outFile << data[i];
         if (i < size - 1) {
-- 
2.43.0


From 49c6c5f08cd257b9372b69840f717f2ff617c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 11/60] fix: reject a configuration keyword that is opened
 twice before it is closed

---
 src/Driver/xml_functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Driver/xml_functions.cpp b/src/Driver/xml_functions.cpp
index 2577bc8..1b8c97c 100644
--- a/src/Driver/xml_functions.cpp
+++ b/src/Driver/xml_functions.cpp
@@ -118,7 +118,7 @@ double getDoubleValueFromXML(const std::string& xmlString, const std::string& ke
 		throw std::invalid_argument("Closing tag for keyword not found");
 	}
 
-	size_t nextKeywordStart = xmlString.find("<" + keyword + ">", keywordEnd);
+	size_t nextKeywordStart = xmlString.find("<" + keyword + ">", keywordStart + keyword.length() + 2);
 	if (nextKeywordStart != std::string::npos) {
 		std::string msg = "Multiple occurrences of keyword: " + keyword;
 		throw std::invalid_argument(msg);
@@ -166,7 +166,7 @@ string getStringValueFromXML(const std::string& xmlString, const std::string& ke
 	}
 
 	// Check if there's another occurrence of the keyword
-	size_t nextKeywordStart = xmlString.find("<" + keyword + ">", keywordEnd);
+	size_t nextKeywordStart = xmlString.find("<" + keyword + ">", keywordStart + keyword.length() + 2);
 	if (nextKeywordStart != std::string::npos) {
 		std::string msg = "Multiple occurrences of keyword: " + keyword;
 		throw std::invalid_argument(msg);
@@ -195,7 +195,7 @@ int getIntegerValueFromXML(const std::string& xmlString, const std::string& keyw
 		throw std::invalid_argument("Closing tag for keyword not found");
 	}
 
-	size_t nextKeywordStart = xmlString.find("<" + keyword + ">", keywordEnd);
+	size_t nextKeywordStart = xmlString.find("<" + keyword + ">", keywordStart + keyword.length() + 2);
 	if (nextKeywordStart != std::string::npos) {
 		throw std::invalid_argument("Multiple occurrences of keyword");
 	}
-- 
2.43.0


From 6a3d03b5d59be20d76590c5ec8318e3523272929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 12/60] fix: accept a zero value for a numeric configuration
 keyword

---
 src/Driver/configkey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/configkey.cpp b/src/Driver/configkey.cpp
index 1932373..731d5b9 100644
--- a/src/Driver/configkey.cpp
+++ b/src/Driver/configkey.cpp
@@ -147,7 +147,7 @@ void Keyword::getValueFromXMLString(const std::string& input) {
     }
     else if (type == "double") {
         double value = getDoubleValueFromXML(input, name);
-        if (std::fabs(value) > std::numeric_limits<double>::epsilon()) {
+        if (value < 10E-14 || value > 10E-14) {  // 10E-14 is returned if the keyword is absent
             valueDouble = value;
             isValueSet = true;
         }
-- 
2.43.0


From b6048f0771e237992f5b62ee107e6918d803502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 13/60] fix: reject unclosed, repeated or non-numeric lists in
 the configuration text

---
 src/Driver/xml_functions.cpp | 89 ++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 35 deletions(-)

diff --git a/src/Driver/xml_functions.cpp b/src/Driver/xml_functions.cpp
index 1b8c97c..7b5e67f 100644
--- a/src/Driver/xml_functions.cpp
+++ b/src/Driver/xml_functions.cpp
@@ -235,26 +235,37 @@ std::vector<double> getDoubleVectorValuesFromXML(const std::string& xmlInput, co
 	std::string startTag = "<" + keyword + ">";
 	std::string endTag = "</" + keyword + ">";
 	size_t startPos = xmlInput.find(startTag);
-	size_t endPos = xmlInput.find(endTag);
-
-	if (startPos != std::string::npos && endPos != std::string::npos && startPos < endPos) {
-		std::string content = xmlInput.substr(startPos + startTag.length(), endPos - startPos - startTag.length());
-
-		std::istringstream iss(content);
-		std::string item;
-		while (std::getline(iss, item, '<')) {
-			if (!item.empty()) {
-				size_t startPos = item.find('>');
-				if (startPos != std::string::npos) {
-					std::string number = item.substr(startPos + 1);
-
-					try {
-						double value = std::stod(number);
-						result.push_back(value);
-					} catch (...) {
-
-					}
-				}
+
+	if (startPos == std::string::npos) {
+		return result;
+	}
+
+	size_t endPos = xmlInput.find(endTag, startPos);
+	if (endPos == std::string::npos) {
+		throw std::invalid_argument("Closing tag for keyword not found");
+	}
+	if (xmlInput.find(startTag, startPos + startTag.length()) != std::string::npos) {
+		throw std::invalid_argument("Multiple occurrences of keyword: " + keyword);
+	}
+
+	std::string content = xmlInput.substr(startPos + startTag.length(), endPos - startPos - startTag.length());
+
+	std::istringstream iss(content);
+	std::string item;
+	while (std::getline(iss, item, '<')) {
+		size_t tagEnd = item.find('>');
+		if (tagEnd != std::string::npos) {
+			std::string number = removeSpacesFromString(item.substr(tagEnd + 1));
+
+			// only blanks are expected after a closing tag
+			if (number.empty() && item[0] == '/') {
+				continue;
+			}
+
+			try {
+				result.push_back(std::stod(number));
+			} catch (...) {
+				throw std::invalid_argument("Conversion to double has failed.");
 			}
 		}
 	}
@@ -276,22 +287,30 @@ std::vector<std::string> getStringVectorValuesFromXML(const std::string& input,
 	std::string startTag = "<" + keyword + ">";
 	std::string endTag = "</" + keyword + ">";
 	size_t startPos = input.find(startTag);
-	size_t endPos = input.find(endTag);
-
-	if (startPos != std::string::npos && endPos != std::string::npos && startPos < endPos) {
-		startPos += startTag.length();
-		std::string substr = input.substr(startPos, endPos - startPos);
-		size_t pos = 0;
-		while ((pos = substr.find("<item>", pos)) != std::string::npos) {
-			size_t endItemPos = substr.find("</item>", pos);
-			if (endItemPos != std::string::npos) {
-
-				contents.push_back(removeSpacesFromString(substr.substr(pos + 6, endItemPos - pos - 6)));
-				pos = endItemPos + 7;
-			} else {
-				break;
-			}
+
+	if (startPos == std::string::npos) {
+		return contents;
+	}
+
+	size_t endPos = input.find(endTag, startPos);
+	if (endPos == std::string::npos) {
+		throw std::invalid_argument("Closing tag for keyword not found");
+	}
+	if (input.find(startTag, startPos + startTag.length()) != std::string::npos) {
+		throw std::invalid_argument("Multiple occurrences of keyword: " + keyword);
+	}
+
+	startPos += startTag.length();
+	std::string substr = input.substr(startPos, endPos - startPos);
+	size_t pos = 0;
+	while ((pos = substr.find("<item>", pos)) != std::string::npos) {
+		size_t endItemPos = substr.find("</item>", pos);
+		if (endItemPos == std::string::npos) {
+			throw std::invalid_argument("Closing tag for item not found");
 		}
+
+		contents.push_back(removeSpacesFromString(substr.substr(pos + 6, endItemPos - pos - 6)));
+		pos = endItemPos + 7;
 	}
 	return contents;
 }
-- 
2.43.0


From 19e61e51cf1d8d660a845b76e94ca2fa700c2b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 14/60] fix: keep the top grid value of a discrete parameter
 when the number of increments is rounded down

---
 src/Optimizers/optimization.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index e30092f..c029d14 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1346,11 +1346,13 @@ int Optimizer::findClosestDiscreteValue(double value, const vec& discreteValues)
 }
 
 vec Optimizer::generateDiscreteValues(unsigned int index, double dx) const {
-	unsigned int numDiscreteValues = static_cast<unsigned int>((upperBounds(index) - lowerBounds(index)) / dx) + 1;
+	// the small tolerance keeps the top value when the quotient is rounded down, as in (1.0 - 0.7)/0.1
+	const double tolerance = 1e-9;
+	unsigned int numDiscreteValues = static_cast<unsigned int>((upperBounds(index) - lowerBounds(index)) / dx + tolerance) + 1;
 	vec discreteValues(numDiscreteValues);
 
 	for (unsigned int k = 0; k < numDiscreteValues; ++k) {
-		discreteValues(k) = lowerBounds(index) + k * dx;
+		discreteValues(k) = std::min(lowerBounds(index) + k * dx, upperBounds(index));
 	}
 
 	return discreteValues;
-- 
2.43.0


From 9a3428e5823226d905deba32701743e118dba676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 15/60] fix: measure the largest trust region length relative
 to the normalized box

---
 src/Optimizers/optimization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index c029d14..e69d6b1 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -62,7 +62,8 @@ void Optimizer::initializeOptimizerSettings(void) {
 	iterGradientEILoop = 100;
 	improvementPercentThresholdForGradientStep = 5;
 
-	trLengthMax = 1.0/dimension;
+	/* the trust region length is relative to the normalized box [0,1/dimension] */
+	trLengthMax = 1.0;
 	trLengthMin = pow(0.5,8)*trLengthMax;
 }
 
-- 
2.43.0


From a7277df241e3601f4417bf9edf30f47d07440890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 16/60] fix: keep the exploration factor in its range when the
 samples do not differ

---
 src/Optimizers/optimization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index e69d6b1..ec540fd 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1279,7 +1279,8 @@ void Optimizer::adjustSigmaFactor(void) {
 
 
 
-	if (sigmaFactor < sigmaFactorMin)
+	/* the negated comparison also catches NaN (zero over zero if the samples do not differ) */
+	if (!(sigmaFactor >= sigmaFactorMin))
 		sigmaFactor = sigmaFactorMin;
 
 	if (sigmaFactor > sigmaFactorMax)
-- 
2.43.0


From 40605a8bb6bc7dd0b73fcc9eeced141ddbbbb83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 17/60] fix: record the maximum of a population whose objective
 values are negative

---
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 2 +-
 src/InternalOptimizers/ea_population.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 4a15939..c76926f 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -19,7 +19,7 @@ private:
 	std::vector<EAIndividual> population;
 
 	double populationMinimum = std::numeric_limits<double>::max();
-	double populationMaximum = std::numeric_limits<double>::min();
+	double populationMaximum = std::numeric_limits<double>::lowest();
 	unsigned int idPopulationMinimum = 0;
 	unsigned int idPopulationMaximum = 0;
 	unsigned int dimension = 0;
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 36e8487..b966b4c 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -347,7 +347,7 @@ void EAPopulation::updateMinAndMaxIfNecessary(double J, unsigned int id) {
 
 void EAPopulation::updatePopulationMinAndMax(void){
 
-	populationMaximum =  std::numeric_limits<double>::min();;
+	populationMaximum =  std::numeric_limits<double>::lowest();
 	populationMinimum =  std::numeric_limits<double>::max();;
 	for(auto it = std::begin(population); it != std::end(population); ++it) {
 
-- 
2.43.0


From ce71a93604dfc0641f56898e3d22503564712ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 18/60] fix: forget the minimum and maximum of a population
 when it is emptied

---
 src/InternalOptimizers/ea_population.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index b966b4c..f1b7bb1 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -174,6 +174,7 @@ void EAPopulation::print(void) const {
 void EAPopulation::reset(void){
 
 	population.clear();
+	updatePopulationMinAndMax();
 
 }
 
@@ -249,7 +250,7 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		throw std::runtime_error("Cannot open file: " + filename);
 	}
 
-	population.clear();  // Clear any existing data
+	reset();  // Clear any existing data
 
 	std::string line;
 
@@ -348,7 +349,9 @@ void EAPopulation::updateMinAndMaxIfNecessary(double J, unsigned int id) {
 void EAPopulation::updatePopulationMinAndMax(void){
 
 	populationMaximum =  std::numeric_limits<double>::lowest();
-	populationMinimum =  std::numeric_limits<double>::max();;
+	populationMinimum =  std::numeric_limits<double>::max();
+	idPopulationMinimum = 0;
+	idPopulationMaximum = 0;
 	for(auto it = std::begin(population); it != std::end(population); ++it) {
 
 
-- 
2.43.0


From bb59dd04438f64f183108ee9290a4d50bb233665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 19/60] fix: give the first child of a generation an identifier
 of its own

---
 src/InternalOptimizers/ea_optimizer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/InternalOptimizers/ea_optimizer.cpp b/src/InternalOptimizers/ea_optimizer.cpp
index a0ddf54..0f197f5 100644
--- a/src/InternalOptimizers/ea_optimizer.cpp
+++ b/src/InternalOptimizers/ea_optimizer.cpp
@@ -292,8 +292,7 @@ EAIndividual  EAOptimizer::generateIndividualByReproduction(std::pair<EAIndividu
 	vec newGenes =  crossOver(parents);
 
 	child.setGenes(newGenes);
-	child.setId(totalNumberOfGeneratedIndividuals);
-	++totalNumberOfGeneratedIndividuals;
+	child.setId(++totalNumberOfGeneratedIndividuals);
 	return child;
 
 }
-- 
2.43.0


From d3c1a1c29efecde78d549163a3f4d0a3d4d54890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:05 +0000
Subject: [PATCH 20/60] fix: give children identifiers of their own after a
 warm start

---
 src/InternalOptimizers/INCLUDE/ea_optimizer.hpp  | 1 +
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 1 +
 src/InternalOptimizers/ea_optimizer.cpp          | 4 +++-
 src/InternalOptimizers/ea_population.cpp         | 9 +++++++++
 4 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp b/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
index a793aef..9374b5a 100644
--- a/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
@@ -38,6 +38,7 @@ private:
 	unsigned int sizeOfInitialPopulation = 0;
 
 	unsigned int totalNumberOfGeneratedIndividuals = 0;
+	unsigned int highestIdAtWarmStart = 0;
 	unsigned int totalNumberOfCrossOvers = 0;
 
 
diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index c76926f..77cc6a4 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -80,6 +80,7 @@ public:
 
 	void reset(void);
 	bool hasRepeatedIDs() const;
+	unsigned int getHighestId() const;
 
 };
 
diff --git a/src/InternalOptimizers/ea_optimizer.cpp b/src/InternalOptimizers/ea_optimizer.cpp
index 0f197f5..8b7c666 100644
--- a/src/InternalOptimizers/ea_optimizer.cpp
+++ b/src/InternalOptimizers/ea_optimizer.cpp
@@ -292,7 +292,7 @@ EAIndividual  EAOptimizer::generateIndividualByReproduction(std::pair<EAIndividu
 	vec newGenes =  crossOver(parents);
 
 	child.setGenes(newGenes);
-	child.setId(++totalNumberOfGeneratedIndividuals);
+	child.setId(highestIdAtWarmStart + (++totalNumberOfGeneratedIndividuals));
 	return child;
 
 }
@@ -448,6 +448,7 @@ void EAOptimizer::optimize(void){
 	}
 	else{
 		//		output.printMessage("EA Optimizer: initializing population...");
+		highestIdAtWarmStart = 0;
 		initializePopulation();
 
 		if(ifDisplay){
@@ -549,6 +550,7 @@ void EAOptimizer::readWarmRestartFile() {
 
 	try {
 		population.readFromCSV(filenameWarmStart);
+		highestIdAtWarmStart = population.getHighestId();
 		ifPopulationIsInitialized = true;  // Set the flag after successful read
 	} catch (const std::exception& e) {
 		// Handle exceptions from readFromCSV
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index f1b7bb1..6c284fa 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -657,6 +657,15 @@ double EAPopulation::calculateSumOfDeathProbabilities() const {
 }
 
 
+unsigned int EAPopulation::getHighestId() const {
+	unsigned int highestId = 0;
+	for (const auto& individual : population) {
+		highestId = std::max(highestId, individual.getId());
+	}
+	return highestId;
+}
+
+
 bool EAPopulation::hasRepeatedIDs() const {
         std::set<unsigned int> idSet;  // Set to store unique IDs
 
-- 
2.43.0


From f1d16a06392095d2962f970ffdb2952d18d8cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 21/60] fix: pick an individual for every random draw although
 the probabilities are rounded

---
 src/InternalOptimizers/ea_population.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 6c284fa..3863bbd 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -604,7 +604,13 @@ EAIndividual EAPopulation::pickUpARandomIndividualForReproduction(void) const {
 		}
 	}
 
-	// This point should not be reached if the logic is correct
+	// The probabilities may sum up to slightly less than one because of rounding
+	for (auto it = population.rbegin(); it != population.rend(); ++it) {
+		if (it->getReproductionProbability() > 0.0) {
+			return *it;
+		}
+	}
+
 	throw std::runtime_error("Failed to pick a random individual for reproduction.");
 }
 
@@ -643,6 +649,12 @@ EAIndividual EAPopulation::pickUpAnIndividualThatWillDie(void) const {
 		}
 	}
 
+	// The probabilities may sum up to slightly less than one because of rounding
+	for (auto it = population.rbegin(); it != population.rend(); ++it) {
+		if (it->getDeathProbability() > 0.0) {
+			return *it;
+		}
+	}
 
 	throw std::runtime_error("Failed to pick a valid individual that will die.");
 
-- 
2.43.0


From db8ca74af25ec821948733993e8fffd5aedc66c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 22/60] fix: hand design parameters to external programs
 without losing digits

---
 src/ObjectiveFunctions/objective_function.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 9f585ee..64576c6 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -36,6 +36,8 @@
 #include <unistd.h>
 #include <cassert>
 #include <algorithm>  // Include this for std::find
+#include <iomanip>
+#include <limits>
 #include <stdexcept>  // For std::invalid_argument
 #include <vector>
 #include <boost/process.hpp>
@@ -705,6 +707,9 @@ void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 		abort();
 	}
 
+	/* the values are written such that they are read back exactly */
+	outputFileStream << std::setprecision(std::numeric_limits<double>::max_digits10);
+
 	for(unsigned int i=0; i<dim; i++) {
 
 		outputFileStream << d.designParameters(i) << std::endl;
-- 
2.43.0


From b36270c081d564a2f9d4af7f9c3695381bd9155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 23/60] fix: do not take the output of an earlier evaluation
 for the output of a new one

---
 src/ObjectiveFunctions/objective_function.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 64576c6..0927c90 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -29,6 +29,7 @@
  *
  */
 #include <stdio.h>
+#include <cstdio>
 #include <math.h>
 #include <string>
 #include <stdlib.h>
@@ -836,6 +837,11 @@ void ObjectiveFunction::evaluateObjectiveFunction() const {
 	}
 
 	if (!runCommand.empty()) {
+		/* the output of an earlier evaluation must not be taken for the output of this one */
+		if (!definition.outputFilename.empty()) {
+			std::remove(definition.outputFilename.c_str());
+		}
+
 		try {
 			// Execute the command and wait for completion
 			child c(runCommand);
-- 
2.43.0


From 582f48c86fcaa5542b4e057bd2b09a2e0d5cf582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 24/60] fix: give the optimization study the name declared in
 the configuration

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 3e9eb5b..d68af7e 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -614,7 +614,7 @@ void Driver::setNumberOfThreadsOptimizationStudy(void) {
 
 void Driver::setNameOptimizationStudy() {
 	string name = getConfigKeyValueString(keywordsGeneral, "name");
-	if (name.empty()) {
+	if (!name.empty()) {
 		optimizationStudy.setName(name);
 	} else {
 		optimizationStudy.setName("OptimizationStudy");
-- 
2.43.0


From aa64d4c5c790c2a13b90a8b72e9ac6d144d2e9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 25/60] fix: read the number of training iterations of a
 constraint from its own section

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index d68af7e..7d78559 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -318,7 +318,7 @@ void Driver::setConstraintUDF(ConstraintFunction &constraint) {
 void Driver::setConstraintNumberOfTrainingIterations(ConstraintFunction &constraint) {
 
 	int numberOfTrainingIterations = getConfigKeyValueInt(
-			keywordsObjectiveFunction, "number_of_training_iterations");
+			keywordsConstraintFunction, "number_of_training_iterations");
 
 	if(numberOfTrainingIterations != -10000000){
 
-- 
2.43.0


From 4f27e8c35c0d20cc92311d093e3aa6c2b2984635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 26/60] fix: reject parameters without bounds or increment in
 the configuration

---
 src/Driver/driver_xml.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 7d78559..d8e364f 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -506,6 +506,18 @@ void Driver::readOptimizationParameters() {
 		// Log the parameter being processed
 		DriverLogger::getInstance().log(INFO, "Processing parameter: " + name + " of type: " + type);
 
+		// A missing entry would be read as the not-found value of getDoubleValueFromXML
+		std::vector<std::string> mandatoryEntries = {"lower_bound", "upper_bound"};
+		if (type == "discrete" || type == "int") {
+			mandatoryEntries.push_back("increment");
+		}
+		for (const auto &entry : mandatoryEntries) {
+			if (param.find("<" + entry + ">") == std::string::npos) {
+				DriverLogger::getInstance().log(ERROR, "Entry '" + entry + "' is missing for parameter: " + name);
+				throw std::runtime_error("Driver::readOptimizationParameters: '" + entry + "' is missing for parameter: " + name);
+			}
+		}
+
 		double lb = getDoubleValueFromXML(param, "lower_bound");
 		double ub = getDoubleValueFromXML(param, "upper_bound");
 
-- 
2.43.0


From 2efe7081b53013ec569d8ddca2bfd938d59a4cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 27/60] fix: read constraint sections of the configuration
 wherever their lines break

---
 src/Driver/driver_xml.cpp | 34 ++++------------------------------
 1 file changed, 4 insertions(+), 30 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index d8e364f..2c24de7 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -1049,44 +1049,18 @@ std::string Driver::readASegmentFromXMLFile(string keyword) const {
 
 
 std::vector<std::string> Driver::readConstraintFunctionsFromXML(void) const {
-	std::vector<std::string> constraintFunctions;
 	std::ifstream file(configFilename);
-	std::string line;
-	bool insideConstraintFunction = false;
-	std::string currentConstraintFunction;
 
 	// Check if the file was opened successfully
 	if (!file.is_open()) {
 		std::cerr << "Error opening file: " << configFilename << std::endl;
-		return constraintFunctions;
+		return std::vector<std::string>();
 	}
 
-	// Read the file line by line
-	while (std::getline(file, line)) {
-		// Trim leading and trailing whitespaces from the line (if needed)
-		line.erase(0, line.find_first_not_of(" \t"));  // Left trim
-		line.erase(line.find_last_not_of(" \t") + 1);  // Right trim
-
-		// Start of a constraint function
-		if (line.find("<constraint_function>") != std::string::npos) {
-			insideConstraintFunction = true;
-			currentConstraintFunction.clear();
-		}
-
-		// End of a constraint function
-		if (line.find("</constraint_function>") != std::string::npos) {
-			insideConstraintFunction = false;
-			constraintFunctions.push_back(currentConstraintFunction);
-		}
-
-		// Collect lines inside the constraint function block
-		if (insideConstraintFunction) {
-			currentConstraintFunction += line + "\n";  // Preserve line breaks
-		}
-	}
+	std::stringstream buffer;
+	buffer << file.rdbuf();
 
-	file.close();  // Close the file when done
-	return constraintFunctions;
+	return extractContents(buffer.str(), "constraint_function");
 }
 
 void Driver::runOptimization(void) {
-- 
2.43.0


From 3ec7706c6affc217c48850c1dd3f491457a13d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 28/60] fix: reject configuration numbers that are followed by
 other text

---
 src/Driver/driver_xml.cpp    |  6 +++++-
 src/Driver/xml_functions.cpp | 19 ++++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 2c24de7..5e1bcf5 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -292,7 +292,11 @@ void Driver::setConstraintValue(ConstraintDefinition &constraintDefinition) {
 	}
 	double value = 0.0;
 	try {
-		value = std::stod(constraint_value); // Attempt to convert string to double
+		size_t end = 0;
+		value = std::stod(constraint_value, &end); // Attempt to convert string to double
+		if (end != constraint_value.length()) {
+			throw std::invalid_argument("Text after the number.");
+		}
 
 	} catch (const std::invalid_argument& e) {
 		throw std::invalid_argument("Invalid argument. Unable to convert string to double. Check configuration file");
diff --git a/src/Driver/xml_functions.cpp b/src/Driver/xml_functions.cpp
index 7b5e67f..ee5e3d7 100644
--- a/src/Driver/xml_functions.cpp
+++ b/src/Driver/xml_functions.cpp
@@ -133,7 +133,11 @@ double getDoubleValueFromXML(const std::string& xmlString, const std::string& ke
 	double value;
 	try
 	{
-		value = std::stod(valueString);
+		size_t end = 0;
+		value = std::stod(valueString, &end);
+		if (end != valueString.length()) {
+			throw std::invalid_argument("Text after the number.");
+		}
 	}
 	catch (...)
 	{
@@ -211,7 +215,11 @@ int getIntegerValueFromXML(const std::string& xmlString, const std::string& keyw
 
 	try
 	{
-		value = std::stoi(valueString);
+		size_t end = 0;
+		value = std::stoi(valueString, &end);
+		if (!removeSpacesFromString(valueString.substr(end)).empty()) {
+			throw std::invalid_argument("Text after the number.");
+		}
 	}
 	catch (...)
 	{
@@ -263,7 +271,12 @@ std::vector<double> getDoubleVectorValuesFromXML(const std::string& xmlInput, co
 			}
 
 			try {
-				result.push_back(std::stod(number));
+				size_t end = 0;
+				double value = std::stod(number, &end);
+				if (end != number.length()) {
+					throw std::invalid_argument("Text after the number.");
+				}
+				result.push_back(value);
 			} catch (...) {
 				throw std::invalid_argument("Conversion to double has failed.");
 			}
-- 
2.43.0


From 88832876ef0cbb68134d8db09443d203711ca7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 29/60] fix: reject constraint expressions with text after the
 number

---
 src/API/cppAPI.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 06642be..f8335e9 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -193,6 +193,11 @@ ParsedConstraintExpression parseExpression(const std::string& input) {
 		throw std::invalid_argument("Failed to parse the floating point number from expression: '" + input + "'");
 	}
 
+	// Nothing may follow the number
+	if (!(stream >> std::ws).eof()) {
+		throw std::invalid_argument("Unexpected text after the number in expression: '" + input + "'");
+	}
+
 	return result;
 }
 
-- 
2.43.0


From 49b5886c5da3c4d48dce019876786f97167b5a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 30/60] fix: reject constraint definitions without name or with
 text after the number

---
 .../constraint_functions.cpp                  | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/ObjectiveFunctions/constraint_functions.cpp b/src/ObjectiveFunctions/constraint_functions.cpp
index 52deb44..679a707 100644
--- a/src/ObjectiveFunctions/constraint_functions.cpp
+++ b/src/ObjectiveFunctions/constraint_functions.cpp
@@ -30,18 +30,11 @@ void ConstraintDefinition::setDefinition(const std::string& definition) {
         throw std::invalid_argument("Constraint definition is empty.");
     }
 
-    // Find the positions of '>' or '<' in the definition string
-    size_t found = definition.find(">");
-    size_t found2 = definition.find("<");
-    size_t place;
+    // Find the position of the first '>' or '<' in the definition string
+    size_t place = definition.find_first_of("<>");
     std::string nameBuf, typeBuf, valueBuf;
 
-    // Determine the inequality operator and position
-    if (found != std::string::npos) {
-        place = found;
-    } else if (found2 != std::string::npos) {
-        place = found2;
-    } else {
+    if (place == std::string::npos) {
         throw std::invalid_argument("Invalid constraint definition format. Must contain '>' or '<'.");
     }
 
@@ -51,12 +44,21 @@ void ConstraintDefinition::setDefinition(const std::string& definition) {
 
     typeBuf.assign(definition, place, 1); // The inequality symbol (either '>' or '<')
 
-    valueBuf.assign(definition, place + 1, definition.length() - nameBuf.length() - typeBuf.length());
+    valueBuf.assign(definition, place + 1, std::string::npos);
     valueBuf = removeSpacesFromString(valueBuf); // Remove spaces from the value
 
+    if (nameBuf.empty()) {
+        throw std::invalid_argument("Constraint name is missing in constraint definition.");
+    }
+
     // Check if valueBuf can be converted to a valid double
     try {
-        value = std::stod(valueBuf);
+        size_t end = 0;
+        double target = std::stod(valueBuf, &end);
+        if (end != valueBuf.length()) {
+            throw std::invalid_argument("Text after the number.");
+        }
+        value = target;
     } catch (const std::invalid_argument& e) {
         throw std::invalid_argument("Invalid numerical value in constraint definition.");
     }
-- 
2.43.0


From cab8896d2ac37b353b021b082695a57e3b2e2a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 31/60] fix: replace earlier box constraints when they are set
 again

---
 src/API/cppAPI.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index f8335e9..1db9aad 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -89,15 +89,15 @@ void RobustDesignOptimizer::setBoxConstraints(double *lb, double *ub){
 	}
 
 	for(unsigned int i=0;i<dimension; i++){
-		if(lb[i] >= ub[i]){
+		if(!(lb[i] < ub[i])){
 			throw std::invalid_argument("Box constraints are not set properly");
 
 		}
-
-		lowerBounds.push_back(lb[i]);
-		upperBounds.push_back(ub[i]);
 	}
 
+	lowerBounds.assign(lb, lb + dimension);
+	upperBounds.assign(ub, ub + dimension);
+
 	Bounds boxConstraints;
 	boxConstraints.setDimension(dimension);
 	boxConstraints.setBounds(lowerBounds,upperBounds);
-- 
2.43.0


From 970c0833430abb4547656d70a5ac4edcb5aae92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 32/60] fix: refuse functions without dimension and a dimension
 which no longer fits

---
 src/API/cppAPI.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 1db9aad..550b737 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -118,6 +118,13 @@ void RobustDesignOptimizer::setNameOfTrainingDataFile(std::string filename){
 
 void RobustDesignOptimizer::setDimension(unsigned int dim){
 
+	if(dim == 0){
+		throw std::invalid_argument("Problem dimension must be greater than zero");
+	}
+	if(dim != dimension && (areBoxConstraintsSpecified || isObjectiveFunctionSpecified || numberOfConstraints > 0)){
+		throw std::invalid_argument("Problem dimension cannot be changed after bounds or functions are set");
+	}
+
 	dimension = dim;
 	optimizer.setDimension(dimension);
 	isDimensionSpecified = true;
@@ -140,6 +147,10 @@ void RobustDesignOptimizer::setObjectiveFunction(ObjectiveFunctionPtr function,
 		throw std::invalid_argument("Null function pointer");
 	}
 
+	if(dimension == 0){
+		throw std::invalid_argument("Problem dimension is not specified");
+	}
+
 
 	objectiveFunctionPtr = function;
 
@@ -218,6 +229,11 @@ void RobustDesignOptimizer::addConstraint(ObjectiveFunctionPtr function, std::st
 		throw std::invalid_argument("Null function pointer provided.");
 	}
 
+	// The constraint takes over the dimension of the problem
+	if (dimension == 0) {
+		throw std::invalid_argument("Problem dimension is not specified");
+	}
+
 	// Parse the constraint expression
 	ParsedConstraintExpression exp = parseExpression(expression);
 
-- 
2.43.0


From e2aa650bc69e3d820844d230c5dd4944af9cb3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 33/60] fix: give the bounds of the problem to functions which
 are added after they are set

---
 src/Optimizers/optimization.cpp                      | 5 +++++
 src/Optimizers/optimization_constraint_functions.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index ec540fd..124a3a5 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -112,6 +112,11 @@ void Optimizer::addObjectFunction(ObjectiveFunction &objFunc){
 
 	objFun.setSigmaFactor(sigmaFactor);
 
+	// Bounds which have been set earlier hold for this function, too
+	if(ifBoxConstraintsSet){
+		objFun.setParameterBounds(Bounds(lowerBounds, upperBounds));
+	}
+
 	ifObjectFunctionIsSpecied = true;
 
 }
diff --git a/src/Optimizers/optimization_constraint_functions.cpp b/src/Optimizers/optimization_constraint_functions.cpp
index f6c776c..e992681 100644
--- a/src/Optimizers/optimization_constraint_functions.cpp
+++ b/src/Optimizers/optimization_constraint_functions.cpp
@@ -21,6 +21,12 @@ bool Optimizer::isNotConstrained(void) const{
 void Optimizer::addConstraint(ConstraintFunction &constFunc){
 
 	constraintFunctions.push_back(constFunc);
+
+	// Bounds which have been set earlier hold for this function, too
+	if(ifBoxConstraintsSet){
+		constraintFunctions.back().setParameterBounds(Bounds(lowerBounds, upperBounds));
+	}
+
 	numberOfConstraints++;
 	globalOptimalDesign.setNumberOfConstraints(numberOfConstraints);
 	statistics.numberOfConstraintEvaluations.push_back(0);
-- 
2.43.0


From dbedb23702869d9460d81d6d41ef14b979235c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 34/60] fix: reject discrete parameters with wrong index or
 increment

---
 src/Optimizers/optimization.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 124a3a5..3feafc1 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -74,7 +74,13 @@ void Optimizer::initializeOptimizerSettings(void) {
 
 void Optimizer::setParameterToDiscrete(unsigned int index, double increment){
 
-	assert(index <dimension);
+	if(index >= dimension){
+		throw std::invalid_argument("Index of the discrete parameter is out of range.");
+	}
+	if(!(increment > 0.0)){
+		throw std::invalid_argument("Increment of a discrete parameter must be greater than zero.");
+	}
+
 	incrementsForDiscreteVariables.push_back(increment);
 	indicesForDiscreteVariables.push_back(index);
 	numberOfDiscreteVariables++;
-- 
2.43.0


From 459645a9014a65b826da7f9d69e57c20516cee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 35/60] fix: refuse a second constraint of the same name before
 anything is evaluated

---
 src/API/INCLUDE/rodeo.h | 1 +
 src/API/cppAPI.cpp      | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/src/API/INCLUDE/rodeo.h b/src/API/INCLUDE/rodeo.h
index a323abc..ed1c074 100644
--- a/src/API/INCLUDE/rodeo.h
+++ b/src/API/INCLUDE/rodeo.h
@@ -27,6 +27,7 @@ private:
 
 	string objectiveFunctionTrainingFilename;
 	vector<string> constraintsTrainingDataFilename;
+	vector<string> constraintNames;
 
 	bool isDimensionSpecified = false;
 	bool isObjectiveFunctionSpecified = false;
diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 550b737..105fa86 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -247,7 +247,13 @@ void RobustDesignOptimizer::addConstraint(ObjectiveFunctionPtr function, std::st
 		throw std::invalid_argument("Invalid inequality in constraint expression.");
 	}
 
+	// Names identify the constraints in the optimization history
+	if (std::find(constraintNames.begin(), constraintNames.end(), exp.name) != constraintNames.end()) {
+		throw std::invalid_argument("Constraint name already exists: " + exp.name);
+	}
+
 	// Add the function pointer and filename to the appropriate vectors
+	constraintNames.push_back(exp.name);
 	constraintFunctionPtr.push_back(function);
 	constraintsTrainingDataFilename.push_back(filename);
 
-- 
2.43.0


From c3302b08c4eb2ca5f13b5fd051ba97fa95f9bd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 36/60] fix: use the training data file that has been named

---
 src/API/INCLUDE/rodeo.h | 1 +
 src/API/cppAPI.cpp      | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/API/INCLUDE/rodeo.h b/src/API/INCLUDE/rodeo.h
index ed1c074..efc2bd3 100644
--- a/src/API/INCLUDE/rodeo.h
+++ b/src/API/INCLUDE/rodeo.h
@@ -25,6 +25,7 @@ private:
 	bool startWithDoE = false;
 	unsigned int numberOfSamplesForDoE = 0;
 
+	string objectiveFunctionName;
 	string objectiveFunctionTrainingFilename;
 	vector<string> constraintsTrainingDataFilename;
 	vector<string> constraintNames;
diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 105fa86..1c33ecf 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -113,7 +113,12 @@ void RobustDesignOptimizer::setNameOfTrainingDataFile(std::string filename){
 	if(filename.empty()){
 		throw std::invalid_argument("Empty file name for the training data");
 	}
-	objectiveFunctionTrainingFilename = name;
+	objectiveFunctionTrainingFilename = filename;
+
+	// The objective function has to read the same file
+	if(isObjectiveFunctionSpecified){
+		setObjectiveFunction(objectiveFunctionPtr, objectiveFunctionName, filename);
+	}
 }
 
 void RobustDesignOptimizer::setDimension(unsigned int dim){
@@ -153,6 +158,7 @@ void RobustDesignOptimizer::setObjectiveFunction(ObjectiveFunctionPtr function,
 
 
 	objectiveFunctionPtr = function;
+	objectiveFunctionName = functionName;
 
 	ObjectiveFunction objectiveFunctionToAdd;
 	objectiveFunctionToAdd.setDimension(dimension);
-- 
2.43.0


From 38e50f7aaacc482c1dca81ce86e6407f8dbe2b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 37/60] fix: refuse incomplete settings of a surrogate model
 test

---
 .../INCLUDE/surrogate_model_tester.hpp         |  2 +-
 src/SurrogateModels/surrogate_model_tester.cpp | 18 +++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/SurrogateModels/INCLUDE/surrogate_model_tester.hpp b/src/SurrogateModels/INCLUDE/surrogate_model_tester.hpp
index 8f9c058..5de5483 100644
--- a/src/SurrogateModels/INCLUDE/surrogate_model_tester.hpp
+++ b/src/SurrogateModels/INCLUDE/surrogate_model_tester.hpp
@@ -27,7 +27,7 @@ private:
 	KrigingModel krigingModel;
 
 
-	SurrogateModel *surrogateModel;
+	SurrogateModel *surrogateModel = nullptr;
 
 	SURROGATE_MODEL surrogateModelType;
 
diff --git a/src/SurrogateModels/surrogate_model_tester.cpp b/src/SurrogateModels/surrogate_model_tester.cpp
index 66c3eba..dec0d6d 100644
--- a/src/SurrogateModels/surrogate_model_tester.cpp
+++ b/src/SurrogateModels/surrogate_model_tester.cpp
@@ -38,10 +38,14 @@ void SurrogateModelTester::setSurrogateModel(SURROGATE_MODEL modelType){
 
 void SurrogateModelTester::setRatioValidationSamples(double value){
 
-	if(value<0 && value > 1.0){
+	if(!(value >= 0.0 && value <= 1.0)){
 		ModelLogger::getInstance().log(ERROR, "Model Tester: Validation samples ration is not valid.");
 		throw std::invalid_argument("Model Tester: Validation samples ration is not valid.");
 	}
+	if(!ifbindSurrogateModelisDone){
+		ModelLogger::getInstance().log(ERROR, "Model Tester: Surrogate model must be bound first.");
+		throw std::runtime_error("Model Tester: Surrogate model must be bound first.");
+	}
 	surrogateModel->setRatioValidationSamples(value);
 }
 
@@ -73,7 +77,10 @@ void SurrogateModelTester::bindSurrogateModels(void){
 			krigingModel.setLinearRegressionOn();
 			surrogateModel = &krigingModel;
 		}
-
+		if(surrogateModel == nullptr){
+			ModelLogger::getInstance().log(ERROR, "Model Tester: Surrogate model is not available.");
+			throw std::invalid_argument("Model Tester: Surrogate model is not available.");
+		}
 
 	}
 
@@ -104,9 +111,10 @@ void SurrogateModelTester::performSurrogateModelTest(void){
 
 	checkBoxConstraints();
 
-	assert(ifbindSurrogateModelisDone);
-	assert(!name.empty());
-	assert(dimension>0);
+	if(!ifbindSurrogateModelisDone || name.empty() || dimension == 0){
+		ModelLogger::getInstance().log(ERROR, "Model Tester: Model, name and dimension must be set first.");
+		throw std::runtime_error("Model Tester: Model, name and dimension must be set first.");
+	}
 	checkFilename(fileNameTraingData);
 	checkFilename(fileNameTestData);
 
-- 
2.43.0


From a9933ac588e8417f37fa7258f387f061f5d0be59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 38/60] fix: check the order of the bounds of internal
 optimizers in every variant

---
 src/InternalOptimizers/general_purpose_optimizer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/InternalOptimizers/general_purpose_optimizer.cpp b/src/InternalOptimizers/general_purpose_optimizer.cpp
index a9298c2..4541d3f 100644
--- a/src/InternalOptimizers/general_purpose_optimizer.cpp
+++ b/src/InternalOptimizers/general_purpose_optimizer.cpp
@@ -22,6 +22,9 @@ void GeneralPurposeOptimizer::setBounds(double lb, double ub) {
     if (dimension == 0) {
         throw std::invalid_argument("Dimension must be specified first.");
     }
+    if (!(ub > lb)) {
+        throw std::invalid_argument("Upper bound must be larger than the lower bound.");
+    }
 
     lowerBounds.resize(dimension);
     lowerBounds.fill(lb);
@@ -39,6 +42,12 @@ void GeneralPurposeOptimizer::setBounds(std::vector<double> lb, std::vector<doub
         throw std::invalid_argument("Lower bound and upper bound vectors must match the dimension size.");
     }
 
+    for (size_t i = 0; i < lb.size(); ++i) {
+        if (!(ub[i] > lb[i])) {
+            throw std::invalid_argument("Upper bounds must be larger than the lower bounds.");
+        }
+    }
+
     lowerBounds.fromStdVector(lb);
     upperBounds.fromStdVector(ub);
 
-- 
2.43.0


From fd62e4aa026a4e4c9929c16d1b94662ca83d3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 39/60] fix: refuse settings with which an evolutionary
 optimization cannot be completed

---
 src/InternalOptimizers/ea_optimizer.cpp | 30 ++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/InternalOptimizers/ea_optimizer.cpp b/src/InternalOptimizers/ea_optimizer.cpp
index 8b7c666..f425f42 100644
--- a/src/InternalOptimizers/ea_optimizer.cpp
+++ b/src/InternalOptimizers/ea_optimizer.cpp
@@ -30,7 +30,7 @@ void EAOptimizer::setDimension(unsigned int value){
 
 void EAOptimizer::setMutationProbability(double value){
 
-	if (value <= 0.0 || value >= 1.0) {
+	if (!(value > 0.0 && value < 1.0)) {
 		throw std::invalid_argument("Mutation probability must be between 0 and 1 (exclusive).");
 	}
 	mutationProbability = value;
@@ -417,6 +417,34 @@ void EAOptimizer::checkIfSettingsAreOk(void) const{
 		throw std::invalid_argument("Number of deaths in a generation must be less than the total population size.");
 	}
 
+	if (lowerBounds.getSize() != dimension) {
+		throw std::invalid_argument("Bounds must match the dimension.");
+	}
+
+	if (!(mutationProbability > 0.0 && mutationProbability < 1.0)) {
+		throw std::invalid_argument("Mutation probability must be between 0 and 1 (exclusive).");
+	}
+
+	// Every generation needs two parents and leaves a population of at least two members
+	if (!ifWarmStart) {
+		unsigned int populationSize = sizeOfInitialPopulation;
+		unsigned int numberOfIndividuals = sizeOfInitialPopulation;
+		if (populationSize < 2) {
+			throw std::invalid_argument("Population must have at least 2 members in every generation.");
+		}
+		for (unsigned int i = 0; i < numberOfGenerations; ++i) {
+			populationSize += numberOfNewIndividualsInAGeneration;
+			numberOfIndividuals += numberOfNewIndividualsInAGeneration;
+			if (populationSize < numberOfDeathsInAGeneration + 2) {
+				throw std::invalid_argument("Population must have at least 2 members in every generation.");
+			}
+			populationSize -= numberOfDeathsInAGeneration;
+			if (numberOfIndividuals >= maxNumberOfFunctionEvaluations || numberOfNewIndividualsInAGeneration >= numberOfDeathsInAGeneration) {
+				break;
+			}
+		}
+	}
+
 	if(ifWarmStart ){
 
 		if (!ifFilenameWarmStartIsSet) {
-- 
2.43.0


From a6a10ebd8314592224241c121de5cc844b2c795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 40/60] fix: refuse to train surrogate models every zero
 iterations

---
 src/Optimizers/optimization_setter_getters.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Optimizers/optimization_setter_getters.cpp b/src/Optimizers/optimization_setter_getters.cpp
index a264f3f..1b0b782 100644
--- a/src/Optimizers/optimization_setter_getters.cpp
+++ b/src/Optimizers/optimization_setter_getters.cpp
@@ -109,6 +109,9 @@ void Optimizer::setDimension(unsigned int dim){
 
 
 void Optimizer::setHowOftenTrainModels(unsigned int value){
+	if(value == 0){
+		throw std::invalid_argument("Models must be trained at least once in some number of iterations.");
+	}
 	howOftenTrainModels = value;
 }
 
-- 
2.43.0


From d1d84aee21d399d61f2e8cc49b9cb4eaf1337da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 41/60] fix: evaluate fitness of populations whose objective
 values are nearly equal

---
 src/InternalOptimizers/ea_population.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 3863bbd..06f383b 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -410,12 +410,16 @@ void EAPopulation::updateFitnessValuesQuadratic() {
 
 	checkIfAllObjectiveFunctionValuesAreZero();
 
-	vec coefficients =
-			findPolynomialCoefficientsForQuadraticFitnessDistribution();
+	/* The quadratic polynomial of findPolynomialCoefficientsForQuadraticFitnessDistribution
+	 * in a form which can also be evaluated if the objective function values are (nearly) equal */
+	double aValueCloseButNotEqualToZero = 0.01;
+	double range = populationMaximum - populationMinimum;
 	for (auto it = std::begin(population); it != std::end(population); ++it) {
-		double x = it->getObjectiveFunctionValue();
-		double fitnessValue = coefficients(0) * x * x + coefficients(1) * x
-				+ coefficients(2);
+		double x = 1.0;
+		if (range > 0.0) {
+			x = (populationMaximum - it->getObjectiveFunctionValue()) / range;
+		}
+		double fitnessValue = aValueCloseButNotEqualToZero + (1.0 - aValueCloseButNotEqualToZero) * x * x;
 		if(fitnessValue <= 0.0){
 			print();
 			std::cerr<< "WARNING: fitness value = " << fitnessValue << "\n";
-- 
2.43.0


From 90bddfdceae546595e3148967437516bdc1919c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 42/60] fix: compare vectors with undefined entries like
 numbers

---
 src/LinearAlgebra/vector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index f5a7142..1317d1d 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -160,7 +160,7 @@ bool vec::operator<(const vec& other) const {
 	}
 
 	for (unsigned int i = 0; i < size; ++i) {
-		if (data[i] >= other.data[i]) {
+		if (!(data[i] < other.data[i])) {
 			return false;
 		}
 	}
@@ -174,7 +174,7 @@ bool vec::operator>(const vec& other) const {
 	}
 
 	for (unsigned int i = 0; i < size; ++i) {
-		if (data[i] <= other.data[i]) {
+		if (!(data[i] > other.data[i])) {
 			return false;
 		}
 	}
-- 
2.43.0


From 329514904a8584df2b7480f168825ae19f940734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 43/60] fix: compare candidates of parallel searches under the
 lock that protects the best one

---
 src/Optimizers/optimization.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 3feafc1..d13ccaa 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -699,18 +699,14 @@ void Optimizer::searchAroundGlobalOptima(DesignForBayesianOptimization &designWi
 			designToBeTried.generateRandomDesignVectorAroundASample(dv0, lb,ub);
 			objFun.calculateExpectedImprovement(designToBeTried);
 			addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
-			if (designToBeTried.valueAcquisitionFunction
-					> designWithMaxAcqusition.valueAcquisitionFunction) {
 #ifdef OPENMP_SUPPORT
 #pragma omp critical
 #endif
-				{
+			{
+				if (designToBeTried.valueAcquisitionFunction
+						> designWithMaxAcqusition.valueAcquisitionFunction) {
 					designWithMaxAcqusition = designToBeTried;
 				}
-#if 0
-				printf("A design with a better EI value has been found (second loop) \n");
-				designToBeTried.print();
-#endif
 			}
 		}
 	}
@@ -739,12 +735,12 @@ void Optimizer::searchCompleteDesignSpace(DesignForBayesianOptimization &designW
 		designToBeTried.generateRandomDesignVector(lb, ub);
 		objFun.calculateExpectedImprovement(designToBeTried);
 		addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
-		if (designToBeTried.valueAcquisitionFunction
-				> designWithMaxAcqusition.valueAcquisitionFunction) {
 #ifdef OPENMP_SUPPORT
 #pragma omp critical
 #endif
-			{
+		{
+			if (designToBeTried.valueAcquisitionFunction
+					> designWithMaxAcqusition.valueAcquisitionFunction) {
 				designWithMaxAcqusition = designToBeTried;
 			}
 		}
-- 
2.43.0


From bacbce6b7a34c2f00c3aa8580ece433f2de2f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 44/60] fix: give every training thread its own random number
 generators

---
 src/InternalOptimizers/INCLUDE/ea_individual.hpp | 2 +-
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 2 +-
 src/InternalOptimizers/ea_individual.cpp         | 2 +-
 src/InternalOptimizers/ea_population.cpp         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_individual.hpp b/src/InternalOptimizers/INCLUDE/ea_individual.hpp
index f48f5e7..68cba32 100644
--- a/src/InternalOptimizers/INCLUDE/ea_individual.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_individual.hpp
@@ -22,7 +22,7 @@ private:
 	unsigned int dimension = 0;
 	vec genes;
 
-	static std::mt19937 rng;
+	static thread_local std::mt19937 rng;
 
 public:
 
diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 77cc6a4..8e830d3 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -14,7 +14,7 @@ class EAPopulation{
 
 private:
 
-	static std::mt19937 gen;
+	static thread_local std::mt19937 gen;
 
 	std::vector<EAIndividual> population;
 
diff --git a/src/InternalOptimizers/ea_individual.cpp b/src/InternalOptimizers/ea_individual.cpp
index e5b5949..a613c2b 100644
--- a/src/InternalOptimizers/ea_individual.cpp
+++ b/src/InternalOptimizers/ea_individual.cpp
@@ -9,7 +9,7 @@ using namespace std;
 
 namespace Rodop{
 
-std::mt19937 EAIndividual::rng(std::chrono::system_clock::now().time_since_epoch().count());
+thread_local std::mt19937 EAIndividual::rng(std::random_device{}());
 
 
 EAIndividual::EAIndividual(){}
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 06f383b..62ccc09 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -13,7 +13,7 @@
 using namespace std;
 namespace Rodop{
 
-std::mt19937 EAPopulation::gen(std::chrono::system_clock::now().time_since_epoch().count());
+thread_local std::mt19937 EAPopulation::gen(std::random_device{}());
 
 void EAPopulation::setDimension(unsigned int value){
 
-- 
2.43.0


From 2046087cf6d793a866cb8b6572299d202a15638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 45/60] fix: keep the number of training iterations when a
 model is trained again

---
 src/SurrogateModels/kriging_training.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 21dca8e..ae0fe01 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -734,8 +734,8 @@ void KrigingModel::train() {
 		ModelLogger::getInstance().log(INFO, "Number of generations = " + std::to_string(numberOfGenerations));
 		ModelLogger::getInstance().log(INFO, "Number of threads = " + std::to_string(numberOfThreads));
 
-		numberOfTrainingIterations = numberOfTrainingIterations / numberOfThreads;
-		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfTrainingIterations));
+		unsigned int numberOfTrainingIterationsPerThread = numberOfTrainingIterations / numberOfThreads;
+		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfTrainingIterationsPerThread));
 		vec bestSolution;
 #ifdef OPENMP_SUPPORT
 		omp_set_num_threads(numberOfThreads);
@@ -752,7 +752,7 @@ void KrigingModel::train() {
 
 			parameterOptimizer.setInitialPopulationSize(initialPopulationSize);
 			parameterOptimizer.setMutationProbability(0.1);
-			parameterOptimizer.setMaximumNumberOfGeneratedIndividuals(numberOfTrainingIterations);
+			parameterOptimizer.setMaximumNumberOfGeneratedIndividuals(numberOfTrainingIterationsPerThread);
 
 
 			parameterOptimizer.setNumberOfGenerations(numberOfGenerations);
-- 
2.43.0


From 1e4c2c719107a55c24a3401782b1303d45663e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 46/60] fix: refuse to train surrogate models with zero threads

---
 src/SurrogateModels/surrogate_model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index 11d9542..e7b684f 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -36,6 +36,9 @@ void SurrogateModel::setDimension(unsigned int dim){
 
 void SurrogateModel::setNumberOfThreads(unsigned int n){
 
+	if(n == 0){
+		throw std::invalid_argument("SurrogateModel::setNumberOfThreads: Number of threads must be greater than 0.");
+	}
 	numberOfThreads = n;
 
 }
-- 
2.43.0


From 9bd255a7fc1f6cb65c22b9747c6f4f3db57a847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 47/60] fix: take the differentiation direction of the
 constraint a sample is built for

---
 src/Design/design.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Design/design.cpp b/src/Design/design.cpp
index 2370ef8..7145eb2 100644
--- a/src/Design/design.cpp
+++ b/src/Design/design.cpp
@@ -264,7 +264,7 @@ vec Design::constructSampleConstraintWithTangent(unsigned int constraintID) cons
 	//	copyVectorFirstKElements(sample,designParameters, dimension);
 	sample(dimension) = constraintTrueValues(constraintID);
 	sample(dimension+1) = constraintTangent(constraintID);
-	vec direction = constraintDifferentiationDirectionsMatrix.getRow(ID);
+	vec direction = constraintDifferentiationDirectionsMatrix.getRow(constraintID);
 
 	for(unsigned int i=0; i<dimension; i++){
 		sample(dimension+2+i) = direction(i);
-- 
2.43.0


From 046363391bc5722200238f5e9e9845f86942b525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 48/60] fix: train a model whose samples all have the same
 value

With identical outputs the process variance is zero and every likelihood
evaluation returns the failure value, which the population's minimum and the
best result of the training threads were initialised with: no individual was
ever recorded as the best and the lookup threw inside the parallel region.
---
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 4 ++--
 src/InternalOptimizers/ea_population.cpp         | 4 ++--
 src/SurrogateModels/kriging_training.cpp         | 7 ++++---
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 8e830d3..519f86f 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -18,8 +18,8 @@ private:
 
 	std::vector<EAIndividual> population;
 
-	double populationMinimum = std::numeric_limits<double>::max();
-	double populationMaximum = std::numeric_limits<double>::lowest();
+	double populationMinimum = std::numeric_limits<double>::infinity();
+	double populationMaximum = -std::numeric_limits<double>::infinity();
 	unsigned int idPopulationMinimum = 0;
 	unsigned int idPopulationMaximum = 0;
 	unsigned int dimension = 0;
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 62ccc09..baa6765 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -348,8 +348,8 @@ void EAPopulation::updateMinAndMaxIfNecessary(double J, unsigned int id) {
 
 void EAPopulation::updatePopulationMinAndMax(void){
 
-	populationMaximum =  std::numeric_limits<double>::lowest();
-	populationMinimum =  std::numeric_limits<double>::max();
+	populationMaximum = -std::numeric_limits<double>::infinity();
+	populationMinimum =  std::numeric_limits<double>::infinity();
 	idPopulationMinimum = 0;
 	idPopulationMaximum = 0;
 	for(auto it = std::begin(population); it != std::end(population); ++it) {
diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index ae0fe01..f784ccf 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -3,6 +3,7 @@
 #include<fstream>
 #include<string>
 #include<cassert>
+#include <cmath>
 #include <limits>
 #include <iomanip>
 #include <thread>
@@ -672,8 +673,8 @@ double KrigingModel::calculateLikelihoodFunction(vec hyperParameters) {
 
 	double likelihoodValue = 0.0;
 
-	// Calculate the likelihood value if sigmaSquared is positive
-	if (sigmaSquared > 0) {
+	// Calculate the likelihood value if sigmaSquared is positive and finite
+	if (sigmaSquared > 0 && std::isfinite(sigmaSquared)) {
 		double logSigmaSqr = log(sigmaSquared);
 		likelihoodValue = (-NoverTwo) * logSigmaSqr;
 		likelihoodValue -= 0.5 * logdetR;
@@ -716,7 +717,7 @@ void KrigingModel::train() {
 			lb(i) = 1.0;
 		}
 
-		double globalBestError = std::numeric_limits<double>::max();
+		double globalBestError = std::numeric_limits<double>::infinity();
 
 		unsigned int problemDimForInternalOptimization = 2*dimension;
 		unsigned int numberOfNewIndividualInGeneration = 200*dimension;
-- 
2.43.0


From 332b89897c711cfaa53a1167643313fdff7bef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 49/60] fix: accept populations whose objective values are all
 zero

Training with validation samples of constant data has only zero validation
errors: the exception thrown for them left a parallel region and ended the
program. Equal objective values give equal fitness values, also if they are
zero.
---
 src/InternalOptimizers/ea_population.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index baa6765..ad255b1 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -408,8 +408,6 @@ void EAPopulation::updateFitnessValuesLinear() {
 
 void EAPopulation::updateFitnessValuesQuadratic() {
 
-	checkIfAllObjectiveFunctionValuesAreZero();
-
 	/* The quadratic polynomial of findPolynomialCoefficientsForQuadraticFitnessDistribution
 	 * in a form which can also be evaluated if the objective function values are (nearly) equal */
 	double aValueCloseButNotEqualToZero = 0.01;
-- 
2.43.0


From ce997364f4754b596b681674edb43206adf1dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 50/60] fix: train the surrogate models if they are to be
 trained in every iteration

No number has the remainder one after division by one, so a training period
of one iteration meant that the models were never trained.
---
 src/Optimizers/efficient_global_optimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizers/efficient_global_optimization.cpp b/src/Optimizers/efficient_global_optimization.cpp
index a0ad649..d4bc63f 100644
--- a/src/Optimizers/efficient_global_optimization.cpp
+++ b/src/Optimizers/efficient_global_optimization.cpp
@@ -15,7 +15,7 @@ void Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues(void)
 		printIterationNumber();
 
 
-		if(outerIterationNumber%howOftenTrainModels == 1) {
+		if((outerIterationNumber - 1)%howOftenTrainModels == 0) {
 			initializeSurrogates();
 			trainSurrogates();
 		}
-- 
2.43.0


From 294f976a37a5c59c8c880aeee5e0f6473797491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:29 +0000
Subject: [PATCH 51/60] fix: write training data with all digits of the samples

---
 src/API/cppAPI.cpp                       | 5 +++--
 src/SurrogateModels/kriging_training.cpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 1c33ecf..3e43f3b 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -6,6 +6,7 @@
 #include "../Bounds/INCLUDE/bounds.hpp"
 #include <filesystem>
 #include <algorithm>
+#include <limits>
 
 #if defined(_WIN32) || defined(_WIN64)
 #include <direct.h>
@@ -343,7 +344,7 @@ void RobustDesignOptimizer::performDoEForConstraints(void){
 
         try {
             // Save all training data for this constraint at once, after collecting all rows
-            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint]);
+            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint], std::numeric_limits<double>::max_digits10);
         } catch (const std::exception& e) {
             std::cerr << "Error saving training data for constraint " << iConstraint
                       << " to file: " << e.what() << std::endl;
@@ -399,7 +400,7 @@ void RobustDesignOptimizer::performDoE(void) {
 
 		try {
 			// Save the training data
-			trainingData.saveAsCSV(objectiveFunctionTrainingFilename);
+			trainingData.saveAsCSV(objectiveFunctionTrainingFilename, std::numeric_limits<double>::max_digits10);
 		} catch (const std::exception &e) {
 			throw std::runtime_error("DoE process will be killed.");
 		}
diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index f784ccf..4b991ef 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -429,7 +429,7 @@ void KrigingModel::addNewSampleToData(vec newsample) {
 
 	if (rowIndex == -1) {
 		try {
-			newsample.appendToCSV(filenameDataInput,12);  // Append new sample to the CSV file
+			newsample.appendToCSV(filenameDataInput,std::numeric_limits<double>::max_digits10);  // Append new sample to the CSV file
 			updateModelWithNewData();  // Update the model with the new data
 		} catch (const std::exception& e) {
 			// Log the error if writing to CSV or updating the model fails
-- 
2.43.0


From 0d98bb7616e4092bc0b43573148e67f2efba0708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 52/60] fix: report the best design with all digits

---
 src/Optimizers/globalOptimalDesign.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Optimizers/globalOptimalDesign.cpp b/src/Optimizers/globalOptimalDesign.cpp
index fc12c47..86d5edb 100644
--- a/src/Optimizers/globalOptimalDesign.cpp
+++ b/src/Optimizers/globalOptimalDesign.cpp
@@ -1,6 +1,8 @@
 
 #include <cassert>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 
 #include "./INCLUDE/globalOptimalDesign.hpp"
 #include "./INCLUDE/optimization_logger.hpp"
@@ -187,7 +189,7 @@ string GlobalOptimalDesign::generateXml(const std::string& elementName, const in
 
 string GlobalOptimalDesign::generateXml(const std::string& elementName, const double& value) const{
 	std::ostringstream xml;
-	xml << std::fixed << "<" << elementName << ">" << value << "</" << elementName << ">";
+	xml << std::fixed << std::setprecision(std::numeric_limits<double>::max_digits10) << "<" << elementName << ">" << value << "</" << elementName << ">";
 	return xml.str();
 }
 string GlobalOptimalDesign::generateXml(const std::string& elementName, const string& value) const{
@@ -203,7 +205,7 @@ std::string GlobalOptimalDesign::generateXmlVector(const std::string& name, cons
 
 	xml << "<" << name << ">\n";
 	for (unsigned int i=0; i<data.getSize(); i++) {
-		xml << std::fixed << "\t<item>" << data(i) << "</item>\n";
+		xml << std::fixed << std::setprecision(std::numeric_limits<double>::max_digits10) << "\t<item>" << data(i) << "</item>\n";
 	}
 
 	xml << "</" << name << ">";
-- 
2.43.0


From 3562cbc57d38fbcbe70d41d9b737a00349705439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 53/60] fix: refuse bounds that are not numbers and points with
 undefined coordinates

---
 src/Bounds/bounds.cpp           | 8 ++++----
 src/Optimizers/optimization.cpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Bounds/bounds.cpp b/src/Bounds/bounds.cpp
index 2836dc3..37122a7 100644
--- a/src/Bounds/bounds.cpp
+++ b/src/Bounds/bounds.cpp
@@ -71,7 +71,7 @@ void Bounds::setDimension(unsigned int value){
 
 void Bounds::setBounds(double lowerBound, double upperBound) {
 
-	if (lowerBound >= upperBound) {
+	if (!(lowerBound < upperBound)) {
 		throw std::invalid_argument("Upper bound must be greater than lower bound.");
 	}
 	if (dimension<=0) {
@@ -154,7 +154,7 @@ bool Bounds::checkIfBoundsAreValid(void) const{
 	}
 
 	for(unsigned int i=0; i<dimension; i++){
-		if(lowerBounds(i) >= upperBounds(i) ) {
+		if(!(lowerBounds(i) < upperBounds(i)) ) {
 			lowerBounds.print("lowerBounds");
 			upperBounds.print("upperBounds");
 			return false;
@@ -170,7 +170,7 @@ bool Bounds::checkBounds(void) const{
 	}
 
 	for(unsigned int i=0; i<dimension; i++){
-		if(lowerBounds(i) >= upperBounds(i) ) {
+		if(!(lowerBounds(i) < upperBounds(i)) ) {
 			return false;
 		}
 	}
@@ -183,7 +183,7 @@ bool Bounds::isPointWithinBounds(const vec &inputVector) const {
 	}
 
 	for (unsigned int i = 0; i < dimension; ++i) {
-		if (inputVector(i) < lowerBounds(i) || inputVector(i) > upperBounds(i)) {
+		if (!(inputVector(i) >= lowerBounds(i) && inputVector(i) <= upperBounds(i))) {
 			return false;
 		}
 	}
diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index d13ccaa..d55ac6e 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -134,7 +134,7 @@ bool Optimizer::checkBoxConstraints(void) const{
 
 	for(unsigned int i=0; i<dimension; i++) {
 
-		if(lowerBounds(i) >= upperBounds(i)) return false;
+		if(!(lowerBounds(i) < upperBounds(i))) return false;
 	}
 
 	return true;
@@ -1002,7 +1002,7 @@ bool Optimizer::checkIfBoxConstraintsAreSatisfied(const vec &designVariables) co
 
 	// Check if each design variable satisfies the box constraints
 	for (unsigned int i = 0; i < dimension; ++i) {
-		if (designVariables(i) < lowerBounds(i) || designVariables(i) > upperBounds(i)) {
+		if (!(designVariables(i) >= lowerBounds(i) && designVariables(i) <= upperBounds(i))) {
 			// Log the violation
 			std::ostringstream oss;
 			oss << "Box constraint violation for variable " << i << ": "
-- 
2.43.0


From 57cc3ce5af25dc8df9c9aab58a9b58b5d5723bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 54/60] fix: reject the unknown constraint type TT

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 5e1bcf5..42f65c1 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -270,7 +270,7 @@ void Driver::setConstraintType(ConstraintDefinition &constraintDefinition) {
 	if (isEqual(constraint_type, "lt") || isEqual(constraint_type, "LT")) {
 		constraintDefinition.inequalityType = "<";
 	} else if (isEqual(constraint_type, "gt")
-			|| isEqual(constraint_type, "TT")) {
+			|| isEqual(constraint_type, "GT")) {
 		constraintDefinition.inequalityType = ">";
 	} else {
 
-- 
2.43.0


From c324d8c4ea1c6c05a21feb577c1d1f0ddb57d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 55/60] fix: use all samples in a restarted model with
 validation samples

---
 src/SurrogateModels/kriging_training.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 4b991ef..dcad9be 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -693,6 +693,10 @@ void KrigingModel::train() {
 
 	ModelLogger::getInstance().log(INFO, "Model training for the Kriging model started...");
 
+	if(ifHasValidationSamples){
+		setObjectiveFunctionTypeForModelTraining(VALIDATION_ERROR);
+	}
+
 	// Check if warm start file should be read
 	if (ifReadWarmStartFile) {
 		loadHyperParameters();
@@ -703,11 +707,6 @@ void KrigingModel::train() {
 			throw std::runtime_error("KrigingModel::train: Invalid dimension detected. The dimension must be set.");
 		}
 
-		if(ifHasValidationSamples){
-			setObjectiveFunctionTypeForModelTraining(VALIDATION_ERROR);
-		}
-
-
 		// Setting up bounds for hyperparameter optimization
 		vec lb(2 * dimension);
 		vec ub(2 * dimension);
-- 
2.43.0


From 2ed4c08b71650053b94809ce5688ac5d28932fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 56/60] fix: train on the likelihood when no sample is held
 back for validation

---
 src/SurrogateModels/kriging_training.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index dcad9be..f0479b8 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -694,7 +694,8 @@ void KrigingModel::train() {
 	ModelLogger::getInstance().log(INFO, "Model training for the Kriging model started...");
 
 	if(ifHasValidationSamples){
-		setObjectiveFunctionTypeForModelTraining(VALIDATION_ERROR);
+		bool ifValidationErrorCanBeUsed = data.getNumberOfSamplesValidation() > 0;
+		setObjectiveFunctionTypeForModelTraining(ifValidationErrorCanBeUsed ? VALIDATION_ERROR : MAXIMUM_LIKELIHOOD);
 	}
 
 	// Check if warm start file should be read
-- 
2.43.0


From c3cb981f8539e6a6d0e18c1ea71ae2b28f36976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 57/60] fix: train with fewer iterations than threads

---
 src/SurrogateModels/kriging_training.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index f0479b8..56fcb74 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -735,7 +735,7 @@ void KrigingModel::train() {
 		ModelLogger::getInstance().log(INFO, "Number of generations = " + std::to_string(numberOfGenerations));
 		ModelLogger::getInstance().log(INFO, "Number of threads = " + std::to_string(numberOfThreads));
 
-		unsigned int numberOfTrainingIterationsPerThread = numberOfTrainingIterations / numberOfThreads;
+		unsigned int numberOfTrainingIterationsPerThread = std::max(1u, numberOfTrainingIterations / numberOfThreads);
 		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfTrainingIterationsPerThread));
 		vec bestSolution;
 #ifdef OPENMP_SUPPORT
-- 
2.43.0


From e7141e2fa1dd442bcdca3ccbe2bba66879b319d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 58/60] fix: start every optimization run with its own budget
 and history

---
 src/Optimizers/INCLUDE/optimization_history.hpp  | 1 +
 src/Optimizers/efficient_global_optimization.cpp | 3 +++
 src/Optimizers/optimization.cpp                  | 3 +++
 src/Optimizers/optimization_history.cpp          | 4 ++++
 4 files changed, 11 insertions(+)

diff --git a/src/Optimizers/INCLUDE/optimization_history.hpp b/src/Optimizers/INCLUDE/optimization_history.hpp
index ecdf50b..d98c466 100644
--- a/src/Optimizers/INCLUDE/optimization_history.hpp
+++ b/src/Optimizers/INCLUDE/optimization_history.hpp
@@ -48,6 +48,7 @@ public:
 
 	vector<string> setHeader(void) const;
 	void addConstraintName(const std::string& name) ;
+	void clearConstraintNames(void);
 	void setObjectiveFunctionName(string);
 
 	void saveOptimizationHistoryFile(void);
diff --git a/src/Optimizers/efficient_global_optimization.cpp b/src/Optimizers/efficient_global_optimization.cpp
index d4bc63f..5d3dc8d 100644
--- a/src/Optimizers/efficient_global_optimization.cpp
+++ b/src/Optimizers/efficient_global_optimization.cpp
@@ -147,6 +147,9 @@ void Optimizer::performEfficientGlobalOptimization(void){
 
 	initializeOptimizerSettings();
 
+	// Every run starts with its own budget
+	outerIterationNumber = 0;
+
 	printSettingsToLogFile();
 
 	initializeSurrogates();
diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index d55ac6e..b22554b 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1102,6 +1102,9 @@ void Optimizer::initializeOptimizationHistory() {
 	// Set the dimension for the history
 	history.setDimension(dimension);
 
+	// An earlier run has left its constraint names
+	history.clearConstraintNames();
+
 	// Set the name of the objective function in the history
 	history.setObjectiveFunctionName(objFun.getName());
 
diff --git a/src/Optimizers/optimization_history.cpp b/src/Optimizers/optimization_history.cpp
index 91b2b47..16f4a67 100644
--- a/src/Optimizers/optimization_history.cpp
+++ b/src/Optimizers/optimization_history.cpp
@@ -27,6 +27,10 @@ void OptimizationHistory::addConstraintName(const std::string& name) {
 }
 
 
+void OptimizationHistory::clearConstraintNames(void) {
+	constraintNames.clear();
+}
+
 void OptimizationHistory::reset(void){
 	constraintNames.clear();
 	data.reset();
-- 
2.43.0


From e29371bd5b00ffcae932a8ed7e63c4df7640c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:49 +0000
Subject: [PATCH 59/60] fix: refuse functions whose surrogate model is not
 available

---
 src/ObjectiveFunctions/INCLUDE/objective_function.hpp | 2 +-
 src/ObjectiveFunctions/objective_function.cpp         | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ObjectiveFunctions/INCLUDE/objective_function.hpp b/src/ObjectiveFunctions/INCLUDE/objective_function.hpp
index afd8772..ece5161 100644
--- a/src/ObjectiveFunctions/INCLUDE/objective_function.hpp
+++ b/src/ObjectiveFunctions/INCLUDE/objective_function.hpp
@@ -113,7 +113,7 @@ protected:
 	ObjectiveFunctionDefinition definition;
 	Bounds boxConstraints;
 	KrigingModel surrogateModel;
-	SurrogateModel *surrogate;
+	SurrogateModel *surrogate = nullptr;
 
 	unsigned int numberOfIterationsForSurrogateTraining = 10000;
 	unsigned int dim = 0;
diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 0927c90..a419c43 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -359,6 +359,10 @@ void ObjectiveFunction::initializeSurrogate() {
 	// Bind the surrogate model
 	bindSurrogateModel();
 
+	if (surrogate == nullptr) {
+		throw std::invalid_argument("The surrogate model chosen for '" + definition.name + "' is not available.");
+	}
+
 	// Set surrogate properties
 	surrogate->setName(definition.name);
 	surrogate->setDimension(dim);
-- 
2.43.0


From 2343210db829c2e685b11c504b354ee53ac96894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:33 +0000
Subject: [PATCH 60/60] fix: test the surrogate model that was named last

---
 src/ObjectiveFunctions/objective_function.cpp  | 1 +
 src/SurrogateModels/surrogate_model_tester.cpp | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index a419c43..bc4628e 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -222,6 +222,7 @@ SURROGATE_MODEL ObjectiveFunction::getSurrogateModelType(void) const{
 void ObjectiveFunction::bindWithOrdinaryKrigingModel() {
 
 	ObjectiveFunctionLogger::getInstance().log(INFO,"Binding the surrogate model with the ORDINARY_KRIGING modeĺ...");
+	surrogateModel.setLinearRegressionOff();
 	surrogate = &surrogateModel;
 }
 
diff --git a/src/SurrogateModels/surrogate_model_tester.cpp b/src/SurrogateModels/surrogate_model_tester.cpp
index dec0d6d..f9c5fd2 100644
--- a/src/SurrogateModels/surrogate_model_tester.cpp
+++ b/src/SurrogateModels/surrogate_model_tester.cpp
@@ -62,6 +62,11 @@ void SurrogateModelTester::bindSurrogateModels(void){
 
 	checkIfSurrogateModelIsSpecified();
 
+	// A model that was bound before must not be tested in place of this one
+	surrogateModel = nullptr;
+	ifbindSurrogateModelisDone = false;
+	krigingModel.setLinearRegressionOff();
+
 	if(!ifMultiLevel){
 
 		if(surrogateModelType == LINEAR_REGRESSION ){
-- 
2.43.0

