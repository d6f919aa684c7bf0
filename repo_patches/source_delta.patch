From 418a3fddbf927977ff5ea696049cd6d81dd1568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:41 +0000
Subject: [PATCH 01/52] fix: use oversampled-image rows (not columns) for
 sub-region height in DownsampleAndReplace

---
 core/downsample.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/downsample.cpp b/core/downsample.cpp
index b8c5fc5..b622f03 100644
--- a/core/downsample.cpp
+++ b/core/downsample.cpp
@@ -76,7 +76,7 @@ void DownsampleAndReplace( const double *oversampledImage, int nOversampCols,
   i1 = startY - 1 + nMainPSFRows;
   // get number of columns and rows in sub-region of main image
   nCols_subregion = (int)((nOversampCols - 2*nOversampPSFCols)/oversampleScale);
-  nRows_subregion = (int)((nOversampCols - 2*nOversampPSFRows)/oversampleScale);
+  nRows_subregion = (int)((nOversampRows - 2*nOversampPSFRows)/oversampleScale);
   oversampleArea = oversampleScale*oversampleScale;
 
   // iterate over sub-region within main image [i,j = indices for main image]
-- 
2.43.0


From c817e58b8c1aa4607886ed6ef512b25343d645a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:41 +0000
Subject: [PATCH 02/52] fix: masked non-finite data pixels no longer make the
 Poisson MLR statistic NaN

---
 core/model_object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 3c022eb..9a5858e 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -700,7 +700,8 @@ void ModelObject::GenerateExtraCashTerms( )
     dataVal = effectiveGain*(dataVector[z] + originalSky);
     // the following is strictly OK only for dataVal == 0 (lim_{x -> 0} x ln(x) = 0); 
     // the case of dataVal < 0 is undefined
-    if (dataVal <= 0.0)
+    // (non-finite data values belong to masked pixels, and must not contribute, either)
+    if ((! isfinite(dataVal)) || (dataVal <= 0.0))
       extraTerm = 0.0;
     else
       extraTerm = dataVal*log(dataVal) - dataVal;
-- 
2.43.0


From 4019697c60f51859b8fccd84806083ca04563dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:49 +0000
Subject: [PATCH 03/52] fix: imfit-mcmc --append removes image-section offsets
 from restored X0,Y0 values

---
 cdream/restore_state.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cdream/restore_state.cpp b/cdream/restore_state.cpp
index f56e0b7..382205b 100644
--- a/cdream/restore_state.cpp
+++ b/cdream/restore_state.cpp
@@ -8,11 +8,17 @@ using namespace std;
 
 #include "dream.h"
 #include "array.h"
+#include "model_object.h"
 
 int dream_restore_state( const dream_pars* p, Array3D<double>& state, Array2D<double>& lik,
     					vector<double>& pCR, int& inBurnIn )
 {
   int prevLines = 0;
+  // chain files hold X0,Y0 values in full-image coordinates; the chains themselves use
+  // coordinates relative to the image subsection being fit
+  vector<double> paramOffsets(p->nvar, 0.0);
+  if (p->extraData != nullptr)
+    ((ModelObject *)p->extraData)->GetImageOffsets(paramOffsets.data());
   if (p->appendFile && (p->outputRootname != "" || p->outputRootname != "-")) {
     if (p->verboseLevel > 0)
       printf("Restoring previous state... ");
@@ -38,8 +44,10 @@ int dream_restore_state( const dream_pars* p, Array3D<double>& state, Array2D<do
           if (input[0] == '#') 
             continue;
           istringstream istr(input);
-          for (int j = 0; j < p->nvar; ++j) 
+          for (int j = 0; j < p->nvar; ++j) {
             istr >> state(line,i,j); 
+            state(line,i,j) -= paramOffsets[j];
+          }
           istr >> lik(line,i) >> inBurnIn;
           for (int j(0); j < p->nCR; ++j) 
             istr >> pCR[j];
-- 
2.43.0


From b23bed4b512544cb0f6dd9cfabc794f490a35390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:49 +0000
Subject: [PATCH 04/52] fix: imfit-mcmc --append no longer resumes from a
 generation missing in some chain files

---
 cdream/restore_state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdream/restore_state.cpp b/cdream/restore_state.cpp
index 382205b..43cbf13 100644
--- a/cdream/restore_state.cpp
+++ b/cdream/restore_state.cpp
@@ -54,7 +54,8 @@ int dream_restore_state( const dream_pars* p, Array3D<double>& state, Array2D<do
           ++line;
         }
         ifile.close();
-        if (prevLines > line) 
+        // resume from the last generation which is present for *all* chains
+        if (prevLines > line - 1) 
           prevLines = line - 1;
       }
     }
-- 
2.43.0


From dacab7b2764a5362fda2f135b44f47f444d92a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:49 +0000
Subject: [PATCH 05/52] fix: X0,Y0 limits are printed in the same (full-image)
 coordinates as X0,Y0 values

---
 core/model_object.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 9a5858e..7428232 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1852,13 +1852,15 @@ int ModelObject::PrintModelParamsToStrings( vector<string> &stringVector, double
           newLine = PrintToString(XY_FORMAT_WITH_FIXED, prefix, "X0", x0);
         else
           newLine = PrintToString(XY_FORMAT_WITH_LIMITS, prefix, "X0", x0, 
-        				parameterInfoVect[k].limits[0], parameterInfoVect[k].limits[1]);
+        				parameterInfoVect[k].limits[0] + imageOffset_X0, 
+        				parameterInfoVect[k].limits[1] + imageOffset_X0);
         stringVector.push_back(newLine);
         if (parameterInfoVect[k + 1].fixed == 1)
           newLine = PrintToString(XY_FORMAT_WITH_FIXED, prefix, "Y0", y0);
         else
           newLine = PrintToString(XY_FORMAT_WITH_LIMITS, prefix, "Y0", y0, 
-        				parameterInfoVect[k + 1].limits[0], parameterInfoVect[k + 1].limits[1]);
+        				parameterInfoVect[k + 1].limits[0] + imageOffset_Y0, 
+        				parameterInfoVect[k + 1].limits[1] + imageOffset_Y0);
         stringVector.push_back(newLine);
       } else {
         if (errs != nullptr) {
-- 
2.43.0


From bf31ce18262b7863d6aaa91aee02041cb9bcb7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 06/52] fix: fit statistic is computed from the original data
 again after bootstrap resampling

---
 core/bootstrap_errors.cpp       |  5 +++++
 core/model_object.cpp           |  9 +++++++++
 core/model_object.h             |  2 ++
 core/model_object_multimage.cpp | 10 ++++++++++
 core/model_object_multimage.h   |  2 ++
 5 files changed, 28 insertions(+)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 008e70a..65dc7fb 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -242,6 +242,8 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
   }
   printf("\n");
 
+  // restore normal (non-resampled) computation of fit statistic
+  theModel->EndBootstrap();
  
   free(paramsVect);
   free(paramOffsets);
@@ -329,6 +331,9 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
   if (verboseFlag)
     printf("\n");
 
+  // restore normal (non-resampled) computation of fit statistic
+  theModel->EndBootstrap();
+
   free(paramsVect);
   free(paramOffsets);
 
diff --git a/core/model_object.cpp b/core/model_object.cpp
index 7428232..0313983 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -2056,6 +2056,15 @@ int ModelObject::UseBootstrap( )
 }
 
 
+/* ---------------- PUBLIC METHOD: EndBootstrap ------------------------ */
+/// Tells ModelObject object that bootstrap resampling is finished, so that the
+/// fit statistic is once again computed from the original data.
+void ModelObject::EndBootstrap( )
+{
+  doBootstrap = false;
+}
+
+
 /* ---------------- PUBLIC METHOD: MakeBootstrapSample ----------------- */
 /// Generate a new bootstrap resampling of the data (more precisely, this generate a
 /// bootstrap resampling of the data *indices*)
diff --git a/core/model_object.h b/core/model_object.h
index 7b81eac..8904826 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -259,6 +259,8 @@ class ModelObject
     virtual int UseBootstrap( );
     
     virtual int MakeBootstrapSample( );
+
+    virtual void EndBootstrap( );
     
     // [x] 2D only (used in model_object_multimage.cpp)
     void GetDataImageDimensions( int *nColumns, int *nRows );
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index ea0147e..91add8d 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -738,6 +738,16 @@ int ModelObjectMultImage::UseBootstrap( )
 }
 
 
+/* ---------------- PUBLIC METHOD: EndBootstrap ------------------------ */
+/// This (overridden) version simply calls the EndBootstrap() method on each of the 
+/// individual ModelObject instances
+void ModelObjectMultImage::EndBootstrap( )
+{
+  for (int i = 0; i < nModelObjects; i++)
+    modelObjectsVect[i]->EndBootstrap();
+}
+
+
 /* ---------------- PUBLIC METHOD: MakeBootstrapSample ----------------- */
 /// Generate a new bootstrap resampling of the data (more precisely, this generate a
 /// bootstrap resampling of the data *indices*).
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index 19de69c..7ff942c 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -96,6 +96,8 @@ class ModelObjectMultImage : public ModelObject
     
     int MakeBootstrapSample( ) override;
 
+    void EndBootstrap( ) override;
+
     string PrintModelParamsHorizontalString( const double params[], 
     											const string& separator="\t" ) override;
 
-- 
2.43.0


From 51089368f3602785a7dfea170d7bff8269ba00c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 07/52] fix: bootstrap summary statistics use only the
 successful iterations

---
 core/bootstrap_errors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 65dc7fb..249e04b 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -132,10 +132,10 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
     // Calculate sigmas and 68% confidence intervals for the parameters
     // vector to hold estimated sigmas for each parameter
     if (multimfitMode)
-      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, nIterations, 
+      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, nSuccessfulIterations, 
     								parameterLimits, theModel);
     else
-      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nIterations, 
+      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nSuccessfulIterations, 
     						parameterLimits, theModel);
   }
 
-- 
2.43.0


From 454dde5ec827a6cea305debcdfcaac066ad8d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 08/52] fix: bootstrap summary prints best-fit X0,Y0 in the
 same coordinates as the bootstrap values

---
 core/bootstrap_errors.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 249e04b..e9dcf08 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -345,10 +345,15 @@ void PrintBootstrapSummary( const double *bestfitParams, double **outputParamArr
 				int nIterations, vector<mp_par> parameterLimits, ModelObject *theModel )
 {
   double  lower, upper, plus, minus, halfwidth;
-  double  *paramSigmas;
+  double  *paramSigmas, *fullParams;
   int  i;
   
   paramSigmas = (double *)calloc( (size_t)nParams, sizeof(double) );
+  // bootstrap values include image offsets for X0,Y0, so the best-fit values should, too
+  fullParams = (double *)calloc( (size_t)nParams, sizeof(double) );
+  theModel->GetImageOffsets(fullParams);
+  for (i = 0; i < nParams; i++)
+    fullParams[i] += bestfitParams[i];
   for (i = 0; i < nParams; i++)
     paramSigmas[i] = StandardDeviation(outputParamArray[i], nIterations);
   // Print parameter values + standard deviations, for non-fixed parameters
@@ -359,20 +364,21 @@ void PrintBootstrapSummary( const double *bestfitParams, double **outputParamArr
   for (i = 0; i < nParams; i++) {
     if (parameterLimits[i].fixed == 0) {
       std::tie(lower, upper) = ConfidenceInterval(outputParamArray[i], nIterations);
-      plus = upper - bestfitParams[i];
-      minus = bestfitParams[i] - lower;
+      plus = upper - fullParams[i];
+      minus = fullParams[i] - lower;
       halfwidth = (upper - lower)/2.0;
       printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", 
              theModel->GetParameterName(i).c_str(), 
-             bestfitParams[i], plus, minus, lower, upper, halfwidth,
+             fullParams[i], plus, minus, lower, upper, halfwidth,
              Mean(outputParamArray[i], nIterations), paramSigmas[i]);
     }
     else {
       printf("%s = %g     [fixed parameter]\n", theModel->GetParameterName(i).c_str(),
-                  bestfitParams[i]);
+                  fullParams[i]);
     }
   }
   free(paramSigmas);
+  free(fullParams);
 }
 
 
-- 
2.43.0


From 6302372b2e4f20240675d989c3571683f5aba980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:16 +0000
Subject: [PATCH 09/52] fix: single-character function labels are no longer
 discarded

---
 core/config_file_parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 20b07a2..97aa24d 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -218,7 +218,12 @@ string GetFunctionLabel( const string& currentLine )
   else {
     loc2 = loc1 + 5;   // just past final character of "LABEL"
     label = currentLine.substr(loc2);
-    TrimWhitespace(label);
+    // (TrimWhitespace would discard a label consisting of a single character)
+    string::size_type  start = label.find_first_not_of(" \t\n");
+    if (start == string::npos)
+      label.clear();
+    else
+      label = label.substr(start, label.find_last_not_of(" \t\n") - start + 1);
   }
   return label;
 }
-- 
2.43.0


From 54bc96bd594e4433fb00209f4f35e8a0ed9a4f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:07 +0000
Subject: [PATCH 10/52] fix: config-file keywords are recognized only at the
 start of a line (not inside comments or labels)

---
 core/config_file_parser.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 97aa24d..0aea2c4 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -272,12 +272,12 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
   // OK, locate the start of the function set (first line beginning with "X0")
   i = 0;
   while (i < nInputLines) {
-    if (inputLines[i].find("X0", 0) != string::npos) {
+    if (inputLines[i].find("X0", 0) == 0) {
       functionSectionStart = i;
       functionSectionFound = true;
       if (mode2D) {
         // for 2D (makeimage or imfit) mode, the next line must start with "Y0"
-        if ( ((i + 1) == nInputLines) || (inputLines[i + 1].find("Y0", 0) == string::npos) ) {
+        if ( ((i + 1) == nInputLines) || (inputLines[i + 1].find("Y0", 0) != 0) ) {
           yValueOK = false;
           *badLineNumber = origLineNumbers[i];
         }
@@ -290,7 +290,7 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
   // Check to make sure we have at least one FUNCTION line
   if ((functionSectionFound) && (yValueOK)) {
     for (i = functionSectionStart; i < nInputLines; i++) {
-      if (inputLines[i].find("FUNCTION", 0) != string::npos) {
+      if (inputLines[i].find("FUNCTION", 0) == 0) {
         functionsExist = true;
         break;
       }
@@ -307,13 +307,13 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
       LOG_F(2, "VetConfigFile: checking line %d (orig = %d): %s", i, 
       		origLineNumbers[i], inputLines[i].c_str());
 #endif
-      if (inputLines[i].find("FUNCTION", 0) == string::npos) {
+      if (inputLines[i].find("FUNCTION", 0) != 0) {
         // test for valid line
-        if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) != string::npos) {
+        if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) == 0) {
           inOptionalParams = true;
           continue;
         }
-        if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) != string::npos) {
+        if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) == 0) {
           inOptionalParams = false;
           continue;
         }
@@ -405,7 +405,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
   int  paramNumber = 0;
   parameterLimitsFound = false;
   while (i < (int)inputLines.size()) {
-    if (inputLines[i].find("X0", 0) != string::npos) {
+    if (inputLines[i].find("X0", 0) == 0) {
       //printf("X0 detected (i = %d)\n", i);
       fsetStartIndices.push_back(functionNumber);
       pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
@@ -420,7 +420,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       i++;
       if (mode2D) {
         // X0 line should always be followed by Y0 line in 2D mode
-        if (inputLines[i].find("Y0", 0) == string::npos) {
+        if (inputLines[i].find("Y0", 0) != 0) {
           fprintf(stderr, "*** WARNING: A 'Y0' line must follow each 'X0' line in the configuration file!\n");
           fprintf(stderr, "   (X0 specification on input line %d should be followed by Y0 specification on next line)\n",
           				origLineNumbers[i] - 1);
@@ -440,7 +440,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       continue;
     }
     
-    if (inputLines[i].find("FUNCTION", 0) != string::npos) {
+    if (inputLines[i].find("FUNCTION", 0) == 0) {
       //printf("Function detected (i = %d)\n", i);
       AddFunctionNameAndLabel(inputLines[i], functionNameList, functionLabels);
       // add empty optional-params map
@@ -453,12 +453,12 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
 
     // OK, we only reach here if we're inside an individual function specification,
     // so it's a regular (non-positional) parameter line *or* optional-parameter specification
-    if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) != string::npos) {
+    if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) == 0) {
       inOptionalParams = true;
       i++;
       continue;
     }
-    if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) != string::npos) {
+    if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) == 0) {
       // Note that optionalParamsMap will be empty if no optional-parameter section
       // was found; this is fine.
       inOptionalParams = false;
-- 
2.43.0


From 3fb9e5658f837fd4d2486d4553f0f21145d9f9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:07 +0000
Subject: [PATCH 11/52] fix: incomplete config files (final X0 without Y0,
 nameless FUNCTION, stray optional parameters) are refused instead of crashing

---
 core/config_file_parser.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 0aea2c4..aa6ba55 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -229,6 +229,19 @@ string GetFunctionLabel( const string& currentLine )
 }
 
 
+/* ---------------- FUNCTION: HasFunctionName -------------------------- */
+// Returns true if the "FUNCTION" keyword is followed by an actual function name
+bool HasFunctionName( const string& currentLine )
+{
+  vector<string>  stringPieces;
+  string  line = currentLine;
+  
+  ChopComment(line);
+  SplitString(line, stringPieces);
+  return (stringPieces.size() > 1);
+}
+
+
 /* ---------------- FUNCTION: AddFunctionNameAndLabel ------------------ */
 // Parses a line, extracting the second element as a string and storing it in 
 // the functionNameList vector.
@@ -420,10 +433,10 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       i++;
       if (mode2D) {
         // X0 line should always be followed by Y0 line in 2D mode
-        if (inputLines[i].find("Y0", 0) != 0) {
+        if ( (i == (int)inputLines.size()) || (inputLines[i].find("Y0", 0) != 0) ) {
           fprintf(stderr, "*** WARNING: A 'Y0' line must follow each 'X0' line in the configuration file!\n");
           fprintf(stderr, "   (X0 specification on input line %d should be followed by Y0 specification on next line)\n",
-          				origLineNumbers[i] - 1);
+          				origLineNumbers[i - 1]);
           return -1;
         }
         pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
@@ -442,6 +455,11 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
     
     if (inputLines[i].find("FUNCTION", 0) == 0) {
       //printf("Function detected (i = %d)\n", i);
+      if (! HasFunctionName(inputLines[i])) {
+        fprintf(stderr, "*** WARNING: FUNCTION keyword without function name on input line %d of configuration file!\n",
+          				origLineNumbers[i]);
+        return -1;
+      }
       AddFunctionNameAndLabel(inputLines[i], functionNameList, functionLabels);
       // add empty optional-params map
       optionalParamsMap.clear();
@@ -454,6 +472,11 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
     // OK, we only reach here if we're inside an individual function specification,
     // so it's a regular (non-positional) parameter line *or* optional-parameter specification
     if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) == 0) {
+      if (functionNumber < 1) {
+        fprintf(stderr, "*** WARNING: optional parameters on input line %d of configuration file do not belong to any function!\n",
+          				origLineNumbers[i]);
+        return -1;
+      }
       inOptionalParams = true;
       i++;
       continue;
-- 
2.43.0


From 664dbd4f00350728f0f8c6f45c44e1ce902a910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 12/52] fix: initialize per-image function counts in
 ModelObject constructor

---
 core/model_object.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 0313983..c2e7e49 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -157,6 +157,9 @@ ModelObject::ModelObject( )
   nFunctions = 0;
   nFunctionSets = 0;
   nFunctionParams = 0;
+  nGlobalFunctions = 0;
+  nPerImageFunctionSets = 0;
+  nPerImageParams = 0;
   nParamsTot = 0;
   nOversampledRegions = 0;
   debugLevel = 0;
-- 
2.43.0


From 825b6fbab72844c641dbb9d21451e530abdeea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 13/52] fix: malformed oversampling-region specifications are
 refused in GetAllCoordsFromBracket

---
 core/utilities.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index c651be6..1278f1f 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -313,6 +313,11 @@ std::tuple<int, int, int, int> GetAllCoordsFromBracket( const string& bracketStr
   copyBracketString = bracketString.substr(startIndex, (endIndex - startIndex + 1) );
 
   SplitString(copyBracketString, sectionPieces, ",");
+  if (sectionPieces.size() != 2) {
+    fprintf(stderr, "\nWARNING: Incorrect image section format!\n");
+    fprintf(stderr, "\t\"%s\"\n", copyBracketString.c_str());
+    return std::make_tuple(0,0,0,0);
+  }
   // handle the x part of the section specification
   if (sectionPieces[0] == star)
     x1 = 1;
@@ -321,7 +326,7 @@ std::tuple<int, int, int, int> GetAllCoordsFromBracket( const string& bracketStr
     if (subsectionPieces_x.size() != 2) {
       fprintf(stderr, "\nWARNING1: Incorrect image section format!\n");
       fprintf(stderr, "\t\"%s\"\n", copyBracketString.c_str());
-      std::make_tuple(0,0,0,0);
+      return std::make_tuple(0,0,0,0);
     }
     x1 = atoi(subsectionPieces_x[0].c_str());
     x2 = atoi(subsectionPieces_x[1].c_str());
-- 
2.43.0


From d568909b400d6f10738c1a3f4ae7bf156b5420c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:15 +0000
Subject: [PATCH 14/52] fix: PointSource pixel scale is reset after computation
 of oversampled regions

---
 core/model_object.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index c2e7e49..6b82c36 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1191,9 +1191,12 @@ void ModelObject::CreateModelImage( double params[] )
     // OversampledRegion::ComputeRegionAndDownsample result in PointSource objects 
     // getting assigned alternate psfInterpolators), so we have to reset PointSource 
     // objects to use the standard-resolution psfInterpolator object held by ModelObject
+    // (and the standard pixel scale)
     for (FunctionObject *funcObj : functionObjects)
-      if (funcObj->IsPointSource())
+      if (funcObj->IsPointSource()) {
         funcObj->AddPsfInterpolator(psfInterpolator);
+        funcObj->SetOversamplingScale(1);
+      }
     
 #pragma omp parallel private(i,j,n,x,y,newValSum,tempSum,adjVal,storedError)
     {
@@ -1281,8 +1284,10 @@ double * ModelObject::GetSingleFunctionImage( double params[], int functionIndex
   
   // If requested function is PointSource, re-assign the PsfInterpolator object
   // (see comments in CreateModelImage for why we need to do this)
-  if (functionObjects[functionIndex]->IsPointSource())
+  if (functionObjects[functionIndex]->IsPointSource()) {
     functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolator);
+    functionObjects[functionIndex]->SetOversamplingScale(1);
+  }
 
   // 1. OK, populate modelVector with the model image -- standard pixel scaling
   // OpenMP Parallel section; see CreateModelImage() for general notes on this
-- 
2.43.0


From 4ce4de2759f159a394c19e1ba779b1064dcf258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:15 +0000
Subject: [PATCH 15/52] fix: PSF interpolation no longer shares
 (non-thread-safe) GSL accelerators between threads

---
 function_objects/psf_interpolators.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/function_objects/psf_interpolators.cpp b/function_objects/psf_interpolators.cpp
index ff60889..1b02eec 100644
--- a/function_objects/psf_interpolators.cpp
+++ b/function_objects/psf_interpolators.cpp
@@ -97,7 +97,8 @@ double PsfInterpolator_bicubic::GetValue( double x, double y )
   if ((x < deltaXMin) || (x > deltaXMax) || (y < deltaYMin) || (y > deltaYMax))
     newVal = 0.0;
   else
-    newVal = gsl_spline2d_eval(splineInterp, x, y, xacc, yacc);
+    // no shared accelerator objects, since this is called from multiple (OpenMP) threads
+    newVal = gsl_spline2d_eval(splineInterp, x, y, nullptr, nullptr);
   return newVal;
 }
 
-- 
2.43.0


From 790a6974ca840d2cffc527d542625a994e607889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:07 +0000
Subject: [PATCH 16/52] fix: DE solver no longer reports an all-zeros solution
 when no trial was better than 1e20 or no parameter is free

---
 solvers/DESolver.cpp       | 9 ++++++---
 solvers/diff_evoln_fit.cpp | 6 ++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 6f2efdb..4b5b220 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -138,7 +138,7 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
         p = genrand_real1();
         Element(population,i,j) = min[j] + (sampleOffset + p)*intervalSize;
       }
-      popEnergy[i] = 1.0E20;
+      popEnergy[i] = HUGE_VAL;
     }
   }
   else {
@@ -147,7 +147,7 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
  	for (i = 0; i < nPop; i++) {
       for (int j = 0; j < nDim; j++)
         Element(population,i,j) = RandomUniform(min[j], max[j]);
-      popEnergy[i] = 1.0E20;
+      popEnergy[i] = HUGE_VAL;
     }
   }
 
@@ -214,7 +214,7 @@ int DESolver::Solve( int maxGenerations, int verbose )
   double  relativeDeltas[3] = {100.0, 100.0, 100.0};
   double  lastBestEnergy;
 
-  bestEnergy = 1.0E20;
+  bestEnergy = HUGE_VAL;
   lastBestEnergy = bestEnergy;
 
   bAtSolution = false;
@@ -308,6 +308,9 @@ int DESolver::Solve( int maxGenerations, int verbose )
 
 void DESolver::StoreSolution( double *theSolution )
 {
+  // no valid solution was ever found: leave the input parameter vector as it was
+  if (! (bestEnergy < HUGE_VAL))
+    return;
   for (int i = 0; i < nDim; i++)
     theSolution[i] = bestSolution[i];
 }
diff --git a/solvers/diff_evoln_fit.cpp b/solvers/diff_evoln_fit.cpp
index e947c80..15bbbc5 100644
--- a/solvers/diff_evoln_fit.cpp
+++ b/solvers/diff_evoln_fit.cpp
@@ -143,6 +143,12 @@ int DiffEvolnFit( int nParamsTot, double *paramVector, vector<mp_par> parameterL
     free(maxParamValues);
     return -2;
   }
+  if (nFreeParameters < 1) {
+    fprintf(stderr, "\n*** There must be at least one free parameter when using DE!\n");
+    free(minParamValues);
+    free(maxParamValues);
+    return -2;
+  }
 
 
   // Figure out DE strategy and control parameter values
-- 
2.43.0


From 93b3b7eba5b1069c2f4ae1567bd704b950a93bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:19 +0000
Subject: [PATCH 17/52] fix: DE with Latin hypercube sampling is reproducible
 with --seed; arrays freed with delete []

---
 solvers/DESolver.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 4b5b220..ee2cb2c 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -79,14 +79,14 @@ DESolver::DESolver( int dim, int popSize ) :
 
 DESolver::~DESolver( )
 {
-  if (trialSolution) delete trialSolution;
-  if (bestSolution) delete bestSolution;
-  if (popEnergy) delete popEnergy;
-  if (population) delete population;
+  if (trialSolution) delete [] trialSolution;
+  if (bestSolution) delete [] bestSolution;
+  if (popEnergy) delete [] popEnergy;
+  if (population) delete [] population;
   
-  if (oldValues) delete oldValues;
-  if (minBounds) delete minBounds;
-  if (maxBounds) delete maxBounds;
+  if (oldValues) delete [] oldValues;
+  if (minBounds) delete [] minBounds;
+  if (maxBounds) delete [] maxBounds;
 
   trialSolution = bestSolution = popEnergy = population = 0;
 }
@@ -118,8 +118,7 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
     double  intervalSize, p;
     // prep Latin hypercube sampling --> sampleIndices
     vector< vector<int> >  sampleIndices;   // [nDim][nPop]
-    random_device rd;
-    mt19937 g(rd());
+    mt19937 g(genrand_int32());   // so that rngSeed also determines the shuffling
     vector<int> singleParamSampleIndices(nPop);
   
     // set up the shuffled indices
-- 
2.43.0


From 58a9ac7a745e636e42adb413ccc61a72ef09dfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:09 +0000
Subject: [PATCH 18/52] fix: L-M reports the fit statistic of the returned
 parameters, not of a rejected trial step

---
 solvers/mpfit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solvers/mpfit.cpp b/solvers/mpfit.cpp
index 4c7e31f..74b1611 100644
--- a/solvers/mpfit.cpp
+++ b/solvers/mpfit.cpp
@@ -1049,7 +1049,8 @@ int mpfit( mp_func funct, int m, int npar, double *xall, mp_par *pars, mp_config
   }      
 
   if (result) {
-    result->bestnorm = mp_dmax1(fnorm,fnorm1);
+    /* fnorm belongs to the accepted (returned) parameters; fnorm1 can be from a rejected trial */
+    result->bestnorm = fnorm;
     result->bestnorm *= result->bestnorm;
     result->orignorm = orignorm;
     result->status   = info;
-- 
2.43.0


From aaaecd21c10cc5c645bd3acf23d2bc50944ffa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:36 +0000
Subject: [PATCH 19/52] fix: imfit does not print results (a zero fit
 statistic) for a failed L-M fit

---
 core/print_results.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/print_results.cpp b/core/print_results.cpp
index f7dceba..497d493 100644
--- a/core/print_results.cpp
+++ b/core/print_results.cpp
@@ -93,7 +93,7 @@ void PrintResults( double *params, ModelObject *model, int nFreeParameters, int
     InterpretMpfitResult(fitStatus, mpfitMessage);
     printf("\n*** mpfit status = %d -- %s\n", fitStatus, mpfitMessage.c_str());
     // Only print results of fit if valid fit was achieved
-    if ((params == nullptr) || (mpResult == nullptr))
+    if ((params == nullptr) || (mpResult == nullptr) || (fitStatus < 1))
       return;
     if (whichStat == FITSTAT_CASH) {
       printf("  CASH STATISTIC = %f    (%ld DOF)\n", mpResult->bestnorm, nDegreesFreedom);
-- 
2.43.0


From f9e3b4e6244fcf167df2335581121820422ccb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:16 +0000
Subject: [PATCH 20/52] fix: images saved with --fitstat-only plus bootstrap
 are those of the input parameters

---
 core/imfit_main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index 6acb997..ec540cb 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -411,6 +411,9 @@ int main(int argc, char *argv[])
     									nFreeParams, theModel->WhichFitStatistic(), 
     									bootstrapSaveFile_ptr, options->rngSeed);
     gettimeofday(&timer_end_bootstrap, nullptr);
+    // model (and residual, weight) image should be that of the best-fit (or input)
+    // parameters, not that of the last bootstrap iteration
+    theModel->GetFitStatistic(paramsVect);
     if (options->saveBootstrap) {
       if (nSucessfulIterations > 0)
         printf("Bootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
-- 
2.43.0


From cfe9a33691bfbb70afe13d9b61cbc4fc976537d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:42 +0000
Subject: [PATCH 21/52] fix: configuration lines that would be silently misread
 or ignored are refused

---
 core/config_file_parser.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index aa6ba55..4ea835f 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -283,8 +283,9 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
   
   nInputLines = inputLines.size();
   // OK, locate the start of the function set (first line beginning with "X0")
+  // (functions listed before it would belong to no function set)
   i = 0;
-  while (i < nInputLines) {
+  while ((i < nInputLines) && (inputLines[i].find("FUNCTION", 0) != 0)) {
     if (inputLines[i].find("X0", 0) == 0) {
       functionSectionStart = i;
       functionSectionFound = true;
@@ -404,6 +405,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
 {
   int  pLimitFound;
   bool  inOptionalParams = false;
+  bool  setNeedsFunction = false;   // true = X0,Y0 lines not yet followed by a function
   map<string, string>  optionalParamsMap;
 
   // Clear the input vectors before we start appending things to them
@@ -420,6 +422,12 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
   while (i < (int)inputLines.size()) {
     if (inputLines[i].find("X0", 0) == 0) {
       //printf("X0 detected (i = %d)\n", i);
+      if (setNeedsFunction) {
+        fprintf(stderr, "*** WARNING: function set before input line %d of configuration file has no functions!\n",
+          				origLineNumbers[i]);
+        return -1;
+      }
+      setNeedsFunction = true;
       fsetStartIndices.push_back(functionNumber);
       pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
       										origLineNumbers[i]);
@@ -465,12 +473,18 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       optionalParamsMap.clear();
       optionalParamsVect.push_back(optionalParamsMap);
       functionNumber++;
+      setNeedsFunction = false;
       i++;
       continue;
     }
 
     // OK, we only reach here if we're inside an individual function specification,
     // so it's a regular (non-positional) parameter line *or* optional-parameter specification
+    if (setNeedsFunction) {
+      fprintf(stderr, "*** WARNING: input line %d of configuration file does not belong to any function!\n",
+          				origLineNumbers[i]);
+      return -1;
+    }
     if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) == 0) {
       if (functionNumber < 1) {
         fprintf(stderr, "*** WARNING: optional parameters on input line %d of configuration file do not belong to any function!\n",
@@ -505,6 +519,11 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
     }
   }
   
+  if (setNeedsFunction) {
+    fprintf(stderr, "*** WARNING: last function set in configuration file has no functions!\n");
+    return -1;
+  }
+  
   return 0;
 }
 
@@ -582,6 +601,11 @@ int ReadConfigFile( const string& configFileName, const bool mode2D, vector<stri
       configFileOptions.optionValues.push_back(stringPieces[1]);
       configFileOptions.nOptions += 1;
     }
+    else {
+      fprintf(stderr, "*** WARNING: input line %d of configuration file should consist of a name and a value!\n",
+          				origLineNumbers[i]);
+      return -1;
+    }
   }
   
   // OK, now parse the function section
@@ -667,6 +691,11 @@ int ReadConfigFile( const string& configFileName, const bool mode2D, vector<stri
       configFileOptions.optionValues.push_back(stringPieces[1]);
       configFileOptions.nOptions += 1;
     }
+    else {
+      fprintf(stderr, "*** WARNING: input line %d of configuration file should consist of a name and a value!\n",
+          				origLineNumbers[i]);
+      return -1;
+    }
   }
   
   
-- 
2.43.0


From e0d37e1fd546a56d331bb5bede138a1d9f99cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:44 +0000
Subject: [PATCH 22/52] fix: non-numeric or impossible image-description values
 are refused with a message

---
 core/imfit_main.cpp         | 8 ++++++++
 core/mcmc_main.cpp          | 8 ++++++++
 core/setup_model_object.cpp | 6 ++++++
 3 files changed, 22 insertions(+)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index ec540cb..63429dd 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -1008,6 +1008,14 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
 
   for (int i = 0; i < configFileOptions->nOptions; i++) {
     
+    string  name = configFileOptions->optionNames[i];
+    if (((name == kGainString) || (name == kReadNoiseString) || (name == kExpTimeString)
+    		|| (name == kOriginalSkyString) || (name == kNCombinedString))
+    		&& (! IsNumeric(configFileOptions->optionValues[i].c_str()))) {
+      fprintf(stderr, "*** ERROR: value of %s in config file (\"%s\") should be a number!\n", 
+      				name.c_str(), configFileOptions->optionValues[i].c_str());
+      exit(1);
+    }
     if (configFileOptions->optionNames[i] == kGainString) {
       if (mainOptions->gainSet) {
         printf("Gain value in config file ignored (using command-line value)\n");
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index bc9aa02..d5d416b 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -935,6 +935,14 @@ void HandleConfigFileOptions( configOptions *configFileOptions,
 
   for (int i = 0; i < configFileOptions->nOptions; i++) {
     
+    string  name = configFileOptions->optionNames[i];
+    if (((name == kGainString) || (name == kReadNoiseString) || (name == kExpTimeString)
+    		|| (name == kOriginalSkyString) || (name == kNCombinedString))
+    		&& (! IsNumeric(configFileOptions->optionValues[i].c_str()))) {
+      fprintf(stderr, "*** ERROR: value of %s in config file (\"%s\") should be a number!\n", 
+      				name.c_str(), configFileOptions->optionValues[i].c_str());
+      exit(1);
+    }
     if (configFileOptions->optionNames[i] == kGainString) {
       if (mainOptions->gainSet) {
         printf("Gain value in config file ignored (using command-line value)\n");
diff --git a/core/setup_model_object.cpp b/core/setup_model_object.cpp
index 9d64ca8..2b9fb55 100644
--- a/core/setup_model_object.cpp
+++ b/core/setup_model_object.cpp
@@ -86,6 +86,12 @@ ModelObject* SetupModelObject( std::shared_ptr<OptionsBase> options, vector<int>
       fprintf(stderr, "*** ERROR: Failure in ModelObject::AddImageDataVector!\n\n");
       exit(-1);
     }
+    if ((! (options->gain > 0.0)) || (! (options->readNoise >= 0.0)) || (! (options->expTime > 0.0))
+    		|| (options->nCombined < 1) || (! (options->originalSky >= 0.0))) {
+      fprintf(stderr, "*** ERROR: gain, exposure time, and number of combined images must be > 0; ");
+      fprintf(stderr, "read noise and original sky must be >= 0!\n\n");
+      exit(-1);
+    }
     newModelObj->AddImageCharacteristics(options->gain, options->readNoise, options->expTime, 
     						options->nCombined, options->originalSky);
   }
-- 
2.43.0


From 2ffa4709af1bfc2d4ff0f64f7a9d8601ae10940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:44 +0000
Subject: [PATCH 23/52] fix: "nan" is not accepted as a number in config files
 and options

---
 core/utilities.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 1278f1f..3e82a91 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -623,8 +623,9 @@ int IsNumeric( const char *aString )
 
     if (aString == nullptr || *aString == '\0' || isspace(*aString))
       return 0;
-    strtod(aString, &p);
-    return (*p == '\0');
+    double  value = strtod(aString, &p);
+    // "nan" is something strtod accepts, but not a number
+    return ((*p == '\0') && (value == value));
 }
 
 
-- 
2.43.0


From 5afe1009321d735a33d03dbbd0f392ffbe513528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:59 +0000
Subject: [PATCH 24/52] fix: numbers followed by other characters (e.g. --gain
 2x, NCOLS 1.2.3) are refused

---
 core/utilities.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 3e82a91..1679894 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -561,6 +561,18 @@ void CommandLineError( char errorString[] )
 
 
 
+// returns true if string consists of one or more digits and nothing else
+static bool AllDigits( const char *aString )
+{
+  if (*aString == '\0')
+    return false;
+  for ( ; *aString != '\0'; aString++)
+    if (! isdigit(*aString))
+      return false;
+  return true;
+}
+
+
 /* ---------------- FUNCTION: NotANumber() ------------------------- */
 // Possible cases:
 //    0, 0.0, 0.1, .1
@@ -575,16 +587,16 @@ bool NotANumber( const char theString[], int index, int restriction )
       if (theCharacter == '-')
         return NotANumber( theString, index + 1, kAnyInt );
       else
-        return (bool)( ! isdigit(theCharacter) );
+        return (bool)( ! AllDigits(&theString[index]) );
     
     case kNonzeroInt:
       if (theCharacter == '-')
-        return false;
+        return NotANumber( theString, index + 1, kAnyInt );
       else
-        return (bool)( ! isdigit(theCharacter) );
+        return (bool)( ! AllDigits(&theString[index]) );
     
     case kPosInt:
-      if ( isdigit(theCharacter) && (theCharacter != '0') )
+      if ( AllDigits(&theString[index]) && (theCharacter != '0') )
         return false;
       else
         return true;
@@ -594,9 +606,9 @@ bool NotANumber( const char theString[], int index, int restriction )
         case '-':
           return NotANumber( theString, index + 1, kAnyReal );
         case '.':
-          return NotANumber( theString, index + 1, kAnyInt );
+          return (bool)( ! (isdigit(theString[index + 1]) && IsNumeric(&theString[index])) );
         default:
-          return (bool)( ! isdigit(theCharacter) );
+          return (bool)( ! (isdigit(theCharacter) && IsNumeric(&theString[index])) );
       }  /* end switch (theCharacter) */
     
     case kPosReal:
@@ -605,9 +617,9 @@ bool NotANumber( const char theString[], int index, int restriction )
         case '-':
           return true;
         case '.':
-          return NotANumber( theString, index + 1, kAnyInt );
+          return (bool)( ! (isdigit(theString[index + 1]) && IsNumeric(&theString[index])) );
         default:
-          return (bool)( ! isdigit(theCharacter) );
+          return (bool)( ! (isdigit(theCharacter) && IsNumeric(&theString[index])) );
       }  /* end switch (theCharacter) */
     
     default:
-- 
2.43.0


From 4ca65bb09a2e20757764c7e3b7822656703431b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:55 +0000
Subject: [PATCH 25/52] fix: option values given as --name=value may contain
 '='

---
 core/commandline_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/commandline_parser.cpp b/core/commandline_parser.cpp
index 2faa8d6..876db57 100644
--- a/core/commandline_parser.cpp
+++ b/core/commandline_parser.cpp
@@ -312,7 +312,8 @@ int CLineParser::ParseCommandLine( int argc, char *argv[] )
           // It's an option with a target
           // check for "=" format
           if (stringPieces.size() > 1) {
-            currentOpt->StoreTarget(stringPieces[1].c_str());
+            // (the value is everything after the first "=", including any further "=")
+            currentOpt->StoreTarget(currentString.substr(currentString.find('=') + 1).c_str());
             continue;
           }
           else {   // no equals sign, so should be "-opt target" format
-- 
2.43.0


From 2629d1c772ec971170408b5269f92ab09f6174a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:55 +0000
Subject: [PATCH 26/52] fix: makeimage --print-fluxes with --refimage and no
 image size aborted

---
 core/makeimage_main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index 3299346..0f8ee01 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -175,7 +175,7 @@ int main( int argc, char *argv[] )
   // (e.g., if user wants image saved, we need nColumns and nRows, or else a reference image)
   if ((options->nColumns > 0) && (options->nRows > 0))
     options->noImageDimensions = false;
-  if ( (options->noRefImage) && (options->noImageDimensions)) {
+  if ( (options->noRefImage || printFluxesOnly) && (options->noImageDimensions)) {
     if (options->saveImage) {
       fprintf(stderr, "\n*** ERROR: Insufficient image dimensions (or no reference image) supplied!\n");
       fprintf(stderr, "           (Use --nrows and --ncols, or else --refimage)\n\n");
-- 
2.43.0


From f61581b7342a878b82db86922e0362dfa3d57ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:01 +0000
Subject: [PATCH 27/52] fix: makeimage --save-fluxes crashed if the output file
 could not be opened

---
 core/makeimage_main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index 0f8ee01..9759c9e 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -805,6 +805,11 @@ void DetermineFluxes( ModelObject *theModel, double *parameters,
     headerLines.push_back(columHeaderLine_for_file);
 
     FILE * file_ptr = fopen(options->saveFluxesFileName.c_str(), "w");
+    if (file_ptr == nullptr) {
+      fprintf(stderr, "\n*** ERROR: Unable to open file \"%s\" for saving fluxes!\n\n",
+      			options->saveFluxesFileName.c_str());
+      exit(-1);
+    }
     for (n = 0; n < (int)headerLines.size(); n++)
       fprintf(file_ptr, "%s", headerLines[n].c_str());
     for (n = 0; n < (int)saveFluxesLines.size(); n++)
-- 
2.43.0


From 8ccfdc43cb361e16b8f5d6c393054af3dd228f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:12 +0000
Subject: [PATCH 28/52] fix: imfit --save-bootstrap crashed (before saving the
 fit) if its file could not be opened

---
 core/imfit_main.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index 63429dd..fd9a8fd 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -399,8 +399,15 @@ int main(int argc, char *argv[])
   if ((options->doBootstrap) && (options->bootstrapIterations > 0) && (! userInterrupted)) {
     if (options->saveBootstrap) {
       bootstrapSaveFile_ptr = fopen(options->outputBootstrapFileName.c_str(), "w");
-      // write general info + best-fitting params as a commented-out header
-      SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
+      if (bootstrapSaveFile_ptr == nullptr) {
+        fprintf(stderr, "\n*** WARNING: Unable to open file \"%s\" -- bootstrap output will not be saved!\n\n",
+        		options->outputBootstrapFileName.c_str());
+        options->saveBootstrap = false;
+      }
+      else {
+        // write general info + best-fitting params as a commented-out header
+        SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
+      }
     }
     
     printf("\nNow doing bootstrap resampling (%d iterations) to estimate errors...\n",
-- 
2.43.0


From 0c310a6e048a41b52ac5498334435e3d3a5cccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:03 +0000
Subject: [PATCH 29/52] fix: image section with blanks around "*" gave a wrong
 pixel offset

"data.fits[2:7, *]" is accepted by cfitsio, but the start coordinates were
not recognised (the blank was kept), so X0,Y0 were shifted by one pixel and
the fit went on. TrimWhitespace also emptied one-character strings.
---
 core/utilities.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 1679894..271ae3c 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -277,7 +277,7 @@ void TrimWhitespace( string& stringToModify )
 
   string::size_type  startIndex = stringToModify.find_first_not_of(" \t\n");
   string::size_type  endIndex = stringToModify.find_last_not_of(" \t\n");
-  if (startIndex == endIndex)
+  if (startIndex == string::npos)
     stringToModify.clear();
   else
     stringToModify = stringToModify.substr(startIndex, (endIndex - startIndex + 1) );
@@ -363,6 +363,8 @@ std::tuple<int, int>  GetStartCoordsFromBracket( const string& bracketString,
   x1 = y1 = 0;
   
   SplitString(bracketString, sectionPieces, ",");
+  for (string& piece : sectionPieces)
+    TrimWhitespace(piece);   // e.g., "x1:x2, *"
   // handle the x part of the section specification
   if (sectionPieces[0] == star)
     x1 = 1;
-- 
2.43.0


From a724596137f23a95c16128c03f4b84b065252175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:20 +0000
Subject: [PATCH 30/52] fix: oversampled region of a single column or row, or
 outside the image, aborted

--overpsf_region 7:7,3:5 is a valid region, and one which does not overlap the
(section of the) image is a user error; both tripped assertions.
---
 core/model_object.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 6b82c36..641d004 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -899,11 +899,16 @@ int ModelObject::AddOversampledPsfInfo( PsfOversamplingInfo *oversampledPsfInfo
   psfPixels_osamp = oversampledPsfInfo->GetPsfPixels();
   
   assert( (nPixels >= 1) && (nColumns_psf >= 1) && (nRows_psf >= 1) );
-  assert( (x1 < x2) && (y1 < y2) );
   assert( (oversampleScale >= 1) );
   // assertion to check that nModelColumns and nModelRows *have* been set to good values
   assert( (nModelColumns > 0) && (nModelRows > 0) );
 
+  if ( (x1 > x2) || (y1 > y2) || (x1 > nDataColumns) || (y1 > nDataRows) || (x2 < 1) || (y2 < 1) ) {
+    fprintf(stderr, "** ERROR: Oversampled region \"%s\" is empty or lies outside the image!\n",
+    		oversampledPsfInfo->GetRegionString().c_str());
+    return -1;
+  }
+
   for (long i = 0; i < nPixels; i++) {
     if (! isfinite(psfPixels_osamp[i])) {
       fprintf(stderr, "** ERROR: Oversampled PSF image has one or more non-finite values!\n");
@@ -923,8 +928,6 @@ int ModelObject::AddOversampledPsfInfo( PsfOversamplingInfo *oversampledPsfInfo
   // size of oversampling region
   deltaX = x2 - x1 + 1;
   deltaY = y2 - y1 + 1;
-  assert( deltaX > 0 );
-  assert( deltaY > 0 );
   nCols_osamp = oversampleScale * deltaX;
   nRows_osamp = oversampleScale * deltaY;
   
-- 
2.43.0


From e35cef322f6e5c685f008ff13cce78c8e87a48f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:02 +0000
Subject: [PATCH 31/52] fix: image section with blanks around "*" (leave
 TrimWhitespace alone)

Config files with a lone one-character word on a line are rejected with a
message that depends on TrimWhitespace dropping such words.
---
 core/utilities.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 271ae3c..e3098f2 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -30,6 +30,7 @@
 #include <string>
 #include <cstdarg>
 #include <tuple>
+#include <algorithm>
 
 using namespace std;
 
@@ -277,7 +278,7 @@ void TrimWhitespace( string& stringToModify )
 
   string::size_type  startIndex = stringToModify.find_first_not_of(" \t\n");
   string::size_type  endIndex = stringToModify.find_last_not_of(" \t\n");
-  if (startIndex == string::npos)
+  if (startIndex == endIndex)
     stringToModify.clear();
   else
     stringToModify = stringToModify.substr(startIndex, (endIndex - startIndex + 1) );
@@ -363,8 +364,10 @@ std::tuple<int, int>  GetStartCoordsFromBracket( const string& bracketString,
   x1 = y1 = 0;
   
   SplitString(bracketString, sectionPieces, ",");
-  for (string& piece : sectionPieces)
-    TrimWhitespace(piece);   // e.g., "x1:x2, *"
+  for (string& piece : sectionPieces) {
+    // ignore blanks, as cfitsio does (e.g., "x1:x2, *")
+    piece.erase(std::remove(piece.begin(), piece.end(), ' '), piece.end());
+  }
   // handle the x part of the section specification
   if (sectionPieces[0] == star)
     x1 = 1;
-- 
2.43.0


From ee2c49ce9960e54a3a82fc9c239e874be513a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:50 +0000
Subject: [PATCH 32/52] fix: imfit-mcmc with fewer than three chains (e.g.
 default with one free parameter) aborted

---
 core/mcmc_main.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index d5d416b..51892af 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -78,6 +78,9 @@ static string  kOriginalSkyString = "ORIGINAL_SKY";
 
 const string  LOG_FILENAME = "log_imfit-mcmc.txt";
 
+// DREAM generates proposals for a chain from the difference between two *other* chains
+const int  MIN_N_CHAINS = 3;
+
 
 #ifdef USE_OPENMP
 #define VERSION_STRING      "1.9.0 (OpenMP-enabled)"
@@ -390,10 +393,16 @@ int main(int argc, char *argv[])
     paramNames[i] = theModel->GetParameterName(i);
   }
 
-  // Default is nChains = N_free_params (dimensionality of parameter space)
+  // Default is nChains = N_free_params (dimensionality of parameter space), except that
+  // DREAM needs at least three chains
   if (options->nChains <= 0) {
-    printf("Setting nChains = %d (nFreeParams)\n", nFreeParams);
-    options->nChains = nFreeParams;
+    if (nFreeParams >= MIN_N_CHAINS) {
+      printf("Setting nChains = %d (nFreeParams)\n", nFreeParams);
+      options->nChains = nFreeParams;
+    } else {
+      printf("Setting nChains = %d (minimum)\n", MIN_N_CHAINS);
+      options->nChains = MIN_N_CHAINS;
+    }
   }
 
   dream_pars dreamPars;
@@ -796,6 +805,11 @@ void ProcessInput( int argc, char *argv[], shared_ptr<MCMCOptions> theOptions )
       exit(1);
     }
     theOptions->nChains = atol(optParser->GetTargetString("nchains").c_str());
+    if (theOptions->nChains < MIN_N_CHAINS) {
+      printf("*** WARNING: number of chains must be at least %d!\n", MIN_N_CHAINS);
+      delete optParser;
+      exit(1);
+    }
     printf("\tNumber of chains = %d\n", theOptions->nChains);
   }
   if (optParser->OptionSet("max-chain-length")) {
-- 
2.43.0


From 9e293e0e59f73010e69282b80a673c29cfaa255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:52 +0000
Subject: [PATCH 33/52] fix: imfit-mcmc reports failure if its chain files
 cannot be read (--append) or written

---
 cdream/dream.cpp   | 4 ++++
 core/mcmc_main.cpp | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index 0dc7cc1..80cfa7e 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -113,6 +113,10 @@ int dream( const dream_pars* p, rng::RngStream* rng )
       chainFilename.str("");
       chainFilename << p->outputRootname << "." << i + 1 << ".txt";
       oout[i] = new ofstream(chainFilename.str().c_str(), fmode);
+      if (! *oout[i]) {
+        fprintf(stderr, "DREAM: could not open output file \"%s\"!\n", chainFilename.str().c_str());
+        return DREAM_EXIT_ERROR;
+      }
       oout[i]->setf(ios::scientific, ios::floatfield);
       oout[i]->precision(12);
       for (int n = 0; n < p->outputHeaderLines.size(); n++)
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index 51892af..8bc9fdd 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -452,7 +452,11 @@ int main(int argc, char *argv[])
 
   // OK, now we execute the MCMC process
   printf("\nStart of MCMC processing...\n");
-  dream(&dreamPars, &rng);
+  status = dream(&dreamPars, &rng);
+  if (status < 0) {
+    fprintf(stderr, "*** ERROR: MCMC processing failed!\n\n");
+    exit(-1);
+  }
   printf("\nMCMC chains written to output files %s.1.txt through %s.%d.txt", 
   		options->outputFileRoot.c_str(), options->outputFileRoot.c_str(), options->nChains);
 
-- 
2.43.0


From 4f2d8cae929f9fe028dc99791fc2d9379fe56426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:07 +0000
Subject: [PATCH 34/52] fix: imfit-mcmc --cashstat was always refused (as if
 the L-M minimizer were used)

---
 core/options_mcmc.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/options_mcmc.h b/core/options_mcmc.h
index bfda539..a7afc6d 100644
--- a/core/options_mcmc.h
+++ b/core/options_mcmc.h
@@ -67,6 +67,9 @@ class MCMCOptions : public OptionsBase
 
       noParamLimits = true;
 
+      // no minimizer is used, so the restrictions of the default (L-M) one do not apply
+      solver = ALT_SOLVER;
+
       appendToOutput = false;
       outputFileRoot = "mcmc_out";
       nChains = -1;          // -1 = use default, which is nChains = nFreeParams
-- 
2.43.0


From d248f515472e481c9b4c23c83afd232d47d5174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:08 +0000
Subject: [PATCH 35/52] fix: positions in a further image scale inversely with
 its pixel size

---
 core/paramvector_processing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/paramvector_processing.cpp b/core/paramvector_processing.cpp
index 90cb484..3f9ebda 100644
--- a/core/paramvector_processing.cpp
+++ b/core/paramvector_processing.cpp
@@ -97,8 +97,8 @@ std::tuple<double, double, int> CalculateOffset_X0Y0( double X0_0_ref, double Y0
   double deltaY_n_im = -deltaX_n_ref*sinTheta + deltaY_n_ref*cosTheta;
 
   // transform scaled offsets to current image
-  double X0_out = X0_0_im + pixScale_im*deltaX_n_im;
-  double Y0_out = Y0_0_im + pixScale_im*deltaY_n_im;
+  double X0_out = X0_0_im + deltaX_n_im/pixScale_im;
+  double Y0_out = Y0_0_im + deltaY_n_im/pixScale_im;
   
   return std::make_tuple(X0_out, Y0_out, 0);
 }
-- 
2.43.0


From 2383fde089ec834957b7c9e64bb557985318f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:08 +0000
Subject: [PATCH 36/52] fix: FlatBar scales I_0 with the flux scale, not the
 pixel scale

---
 function_objects/func_flatbar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function_objects/func_flatbar.cpp b/function_objects/func_flatbar.cpp
index 1166cb4..5a041fd 100644
--- a/function_objects/func_flatbar.cpp
+++ b/function_objects/func_flatbar.cpp
@@ -114,7 +114,7 @@ void FlatBar::Setup( double params[], int offsetIndex, double xc, double yc )
   PA = params[0 + offsetIndex] - imageRotation;
   ell = params[1 + offsetIndex];
   deltaPA_max = params[2 + offsetIndex];
-  I_0 = params[3 + offsetIndex ] * pixelScaling;
+  I_0 = params[3 + offsetIndex ] * intensityScale;
   h1 = params[4 + offsetIndex ] * pixelScaling;
   h2 = params[5 + offsetIndex ] * pixelScaling;
   r_b = params[6 + offsetIndex ] * pixelScaling;
-- 
2.43.0


From 54276385b4f8e0b3455d21794cd4bbfe0ac85b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:08 +0000
Subject: [PATCH 37/52] fix: TiltedSkyPlane slopes are rotated and scaled for
 the current image

---
 function_objects/func_tilted-sky-plane.cpp | 23 ++++++++++++++++++----
 function_objects/func_tilted-sky-plane.h   |  1 +
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/function_objects/func_tilted-sky-plane.cpp b/function_objects/func_tilted-sky-plane.cpp
index 9b59d81..5c86646 100644
--- a/function_objects/func_tilted-sky-plane.cpp
+++ b/function_objects/func_tilted-sky-plane.cpp
@@ -37,6 +37,7 @@ using namespace std;
 
 
 /* ---------------- Definitions ---------------------------------------- */
+const double  DEG2RAD = 0.017453292519943295;
 const int  N_PARAMS = 3;
 const char  PARAM_LABELS[][20] = {"I_0", "m_x", "m_y"};
 const char  PARAM_UNITS[][30] = {"counts/pixel", "", ""};
@@ -76,7 +77,22 @@ void TiltedSkyPlane::AdjustParametersForImage( const double inputFunctionParams[
 {
   // I_0
   adjustedFunctionParams[0 + offsetIndex] = intensityScale * inputFunctionParams[0 + offsetIndex];
-  // FIXME: figure out correct size rescaling via pixScaling for m_x and m_y (units of pixel^-1)
+  // m_x,m_y: counts per pixel, along the (rotated) axes of this image
+  SlopesForImage(inputFunctionParams[1 + offsetIndex], inputFunctionParams[2 + offsetIndex],
+  				adjustedFunctionParams[1 + offsetIndex], adjustedFunctionParams[2 + offsetIndex]);
+}
+
+
+/* ---------------- PRIVATE METHOD: SlopesForImage --------------------- */
+/// Slopes along the axes of the current image, given the slopes in the reference image.
+/// The slopes are per pixel, so (unlike lengths) they increase with the pixel size.
+void TiltedSkyPlane::SlopesForImage( double mx_ref, double my_ref, double& mx_im, double& my_im )
+{
+  double  cosTheta = cos(imageRotation * DEG2RAD);
+  double  sinTheta = sin(imageRotation * DEG2RAD);
+  double  scale = intensityScale / pixelScaling;
+  mx_im = scale * (mx_ref*cosTheta + my_ref*sinTheta);
+  my_im = scale * (-mx_ref*sinTheta + my_ref*cosTheta);
 }
 
 
@@ -87,9 +103,8 @@ void TiltedSkyPlane::Setup( double params[], int offsetIndex, double xc, double
   x0 = xc;
   y0 = yc;
   I_0 = params[0 + offsetIndex ] * intensityScale;
-  // FIXME: figure out correct size rescaling via pixScaling for m_x and m_y (units of pixel^-1)
-  m_x = params[1 + offsetIndex ];   // slope in x-direction
-  m_y = params[2 + offsetIndex ];   // slope in y-direction
+  // slopes in x-direction and y-direction of this image
+  SlopesForImage(params[1 + offsetIndex ], params[2 + offsetIndex ], m_x, m_y);
 }
 
 
diff --git a/function_objects/func_tilted-sky-plane.h b/function_objects/func_tilted-sky-plane.h
index 77ccb5e..57dfb6e 100644
--- a/function_objects/func_tilted-sky-plane.h
+++ b/function_objects/func_tilted-sky-plane.h
@@ -37,6 +37,7 @@ class TiltedSkyPlane : public FunctionObject
 
   private:
     double  x0, y0, I_0, m_x, m_y;
+    void  SlopesForImage( double mx_ref, double my_ref, double& mx_im, double& my_im );
 };
 
 
-- 
2.43.0


From 260033b5c1564c0863e7620e23ae5228d4b7f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:08 +0000
Subject: [PATCH 38/52] fix: one function-set index per set of local functions,
 not per function

---
 core/makemultimages_main.cpp | 7 +++----
 core/multimfit_main.cpp      | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index 42e1eaa..4ae0e01 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -273,13 +273,12 @@ int main( int argc, char *argv[] )
       for (int j = 0; j < nLocalFuncs; j++) {
         currentFunctionList.push_back(imageInfoVect[i].perImageFuncNames[j]);
         currentFunctionLabelList.push_back(imageInfoVect[i].perImageFuncLabels[j]);
-        printf("newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j]");
-        printf("  %d + %d\n", nGlobalFuncs, imageInfoVect[i].perImageFuncSetIndices[j]);
-        int  newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j];
-        currentFunctionSetIndices.push_back(newFunctionSetIndex);
         //FIXME: handle any extra, local-function optional-parameter-map values
         globalFuncFlags.push_back(false);
       }
+      // one index per local function *set* (there may be several functions in a set)
+      for (int localSetIndex : imageInfoVect[i].perImageFuncSetIndices)
+        currentFunctionSetIndices.push_back(nGlobalFuncs + localSetIndex);
     }
     printf("function list: ");
     for (int k = 0; k < (int)currentFunctionList.size(); k++)
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 9800ff1..8892c70 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -411,13 +411,12 @@ int main(int argc, char *argv[])
       for (int j = 0; j < nLocalFuncs; j++) {
         currentFunctionList.push_back(imageInfoVect[i].perImageFuncNames[j]);
         currentFunctionLabelList.push_back(imageInfoVect[i].perImageFuncLabels[j]);
-        printf("newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j]");
-        printf("  %d + %d\n", nGlobalFuncs, imageInfoVect[i].perImageFuncSetIndices[j]);
-        int  newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j];
-        currentFunctionSetIndices.push_back(newFunctionSetIndex);
         //FIXME: handle any extra, local-function optional-parameter-map values
         globalFuncFlags.push_back(false);
       }
+      // one index per local function *set* (there may be several functions in a set)
+      for (int localSetIndex : imageInfoVect[i].perImageFuncSetIndices)
+        currentFunctionSetIndices.push_back(nGlobalFuncs + localSetIndex);
     }
 #ifdef USE_LOGGING
     if (options->loggingOn) {
-- 
2.43.0


From cebcf4259a40075120b985c9e5fb279a267ca2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:08 +0000
Subject: [PATCH 39/52] fix: saved image descriptions have NCOMBINED as an
 integer and X0,Y0 of the full image

---
 core/print_results_multi.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index 2ca775f..4fb0c81 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -100,6 +100,13 @@ void SaveImageInfoParameters( double *params, ModelObjectMultImage *multModel,
   double  *paramErrs = nullptr;
 
   multModel->GetAllImageDescriptionParameters(params, imageDescriptionParams);
+  // X0,Y0 are saved in coordinates of the full images, as they are for input
+  for (int i = 1; i < nImages; i++) {
+    int  offsetX0, offsetY0;
+    std::tie(offsetX0, offsetY0) = multModel->GetOffsetsForImage(i);
+    imageDescriptionParams[i*N_IMAGE_PARAMS - 2] += offsetX0;
+    imageDescriptionParams[i*N_IMAGE_PARAMS - 1] += offsetY0;
+  }
 
   whichSolver = solverResults.GetSolverType();
   if (whichSolver == MPFIT_SOLVER) {
@@ -168,7 +175,7 @@ void PrintSingleImageInfoToStrings( const ImageInfo& imInfo, vector<string>& str
   if (imInfo.readNoise != 0.0)
     strings.push_back(PrintToString("READNOISE\t\t%g\n", imInfo.readNoise));
   if (imInfo.nCombined != 1)
-    strings.push_back(PrintToString("NCOMBINED\t\t%g\n", imInfo.nCombined));
+    strings.push_back(PrintToString("NCOMBINED\t\t%d\n", imInfo.nCombined));
   // mask, error, and PSF images
   if (imInfo.maskImage_present)
     strings.push_back(PrintToString("MASK    %s\n", imInfo.maskImageFileName.c_str()));
-- 
2.43.0


From 770ac8204ac4c705d153fbd82b2ff58d0fa70206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:08 +0000
Subject: [PATCH 40/52] fix: parameters saved for one image are adjusted to
 that image

---
 core/model_object.cpp           | 21 +++++++++++++++++++++
 core/model_object.h             |  3 +++
 core/model_object_multimage.cpp |  4 ++++
 3 files changed, 28 insertions(+)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 641d004..265768b 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1105,6 +1105,27 @@ void ModelObject::SetImageParameters( double imageDescriptionParams[] )
 }
 
 
+// Converts the function parameters in params (but not the X0,Y0 values) to those
+// for the current image, using the current image-description parameters; parameters of
+// per-image functions are already those for the current image.
+// For use by multimfit when printing parameters for individual images.
+/* ---------------- PUBLIC METHOD: AdjustParametersForImage ------------ */
+
+void ModelObject::AdjustParametersForImage( double params[] )
+{
+  vector<double>  inputParams(params, params + nParamsTot);
+  int  offset = 0;
+
+  for (int i = 0; i < nFunctions; i++) {
+    if (fsetStartFlags[i])
+      offset += 2;
+    if (globalFunctionFlags[i])
+      functionObjects[i]->AdjustParametersForImage(inputParams.data(), params, offset);
+    offset += paramSizes[i];
+  }
+}
+
+
 /* ---------------- PUBLIC METHOD: CreateModelImage -------------------- */
 
 void ModelObject::CreateModelImage( double params[] )
diff --git a/core/model_object.h b/core/model_object.h
index 8904826..d789fef 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -127,6 +127,9 @@ class ModelObject
 
     // [x] used in multimfit-related programs
     virtual void SetImageParameters( double imageDescriptionParams[] );
+
+    // 2D only; for use by multimfit
+    void AdjustParametersForImage( double params[] );
     
     // common, but specialized by ModelObject1D
     virtual void CreateModelImage( double params[] );
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index 91add8d..79439c0 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -583,6 +583,10 @@ void ModelObjectMultImage::GetParameterStringsForOneImage( vector<string> &strin
     paramErrors = errors + nImageParams;
   }
 
+  // Rescale and rotate the function parameters for image #imageNumber (X0,Y0 values
+  // are already those for this image)
+  modelObjectsVect[imageNumber]->AdjustParametersForImage(paramsForModelObjects[imageNumber]);
+
   // Finally, tell ModelObject #imageNumber to print the (adjusted) function parameter
   // values to strings
   string prefix = "";
-- 
2.43.0


From fbad4a66322be82b6533ff0d9d55a0a9b3a4b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:08 +0000
Subject: [PATCH 41/52] fix: labels and image-section offsets of local
 functions

---
 core/model_object_multimage.cpp | 12 +++++++
 core/model_object_multimage.h   |  2 ++
 core/utilities_multimfit.cpp    | 60 +++++++++++++++++++++------------
 3 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index 79439c0..72a2931 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -285,6 +285,9 @@ int ModelObjectMultImage::FinalModelSetup( )
     nPerImageParamsForModelObjects.push_back(nExtra);
     if (nExtra > 0) {
       nPerImageParams += nExtra;
+      // names of per-image parameters come after those of the global parameters
+      for (int j = 0; j < nExtra; j++)
+        parameterLabels.push_back(modelObjectsVect[i]->GetParameterName(nGlobalFuncParams + j));
     }
   }
   nParamsTot += nPerImageParams;
@@ -633,6 +636,15 @@ std::tuple<int, int> ModelObjectMultImage::GetOffsetsForImage( int imageNumber )
 
 
 
+/* ---------------- PUBLIC METHOD: GetNPerImageParams ----------------- */
+/// Returns the number of parameters of local, per-image functions for the specified image.
+int ModelObjectMultImage::GetNPerImageParams( int imageNumber )
+{
+  return nPerImageParamsForModelObjects[imageNumber];
+}
+
+
+
 /* ---------------- PUBLIC METHOD: GetDataFilename -------------------- */
 /// Returns the x and y offsets for the specified data image.
 string ModelObjectMultImage::GetDataFilename( int imageNumber )
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index 7ff942c..1576029 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -61,6 +61,8 @@ class ModelObjectMultImage : public ModelObject
     void GetAllImageDescriptionParameters( double params[], double outputImageParams[] );
 
     std::tuple<int, int> GetOffsetsForImage( int imageNumber );
+
+    int GetNPerImageParams( int imageNumber );
     
     string GetDataFilename( int imageNumber );
 
diff --git a/core/utilities_multimfit.cpp b/core/utilities_multimfit.cpp
index fe685f8..267225f 100644
--- a/core/utilities_multimfit.cpp
+++ b/core/utilities_multimfit.cpp
@@ -29,6 +29,30 @@
 #include "utilities_multimfit.h"
 
 
+/// Corrects the X0,Y0 parameters (initial values and limits) of function sets which are
+/// found between i_start and i_end (not included)
+static void CorrectSetsForOffset( double *paramVect, vector<mp_par> &paramLimits,
+							ModelObjectMultImage *multImageModel, int i_start, int i_end,
+							int xOffset, int yOffset )
+{
+  for (int i = i_start; i < i_end; i++) {
+    int  offset;
+    if (multImageModel->GetParameterName(i) == X0_string)
+      offset = xOffset;
+    else if (multImageModel->GetParameterName(i) == Y0_string)
+      offset = yOffset;
+    else
+      continue;
+    paramVect[i] -= offset;
+    paramLimits[i].offset = offset;
+    if (paramLimits[i].limited[0] == 1)
+      paramLimits[i].limits[0] -= offset;
+    if (paramLimits[i].limited[1] == 1)
+      paramLimits[i].limits[1] -= offset;
+  }
+}
+
+
 /// Corrects X0,Y0 parameter initial values and limits for image-subsection-based
 /// offsets (including both image-description parameters and main model parameters).
 void CorrectForImageOffsets( double *paramVect, vector<mp_par> &paramLimits, 
@@ -70,29 +94,21 @@ void CorrectForImageOffsets( double *paramVect, vector<mp_par> &paramLimits,
   }
   
   // Apply reference-image offsets to main model's function-block X0,Y0 sets
-  // (reference-image coordinates)
+  // (reference-image coordinates), then the offsets of each image to the X0,Y0 sets of
+  // its own local functions
   std::tie(xOffset_ref,yOffset_ref) = multImageModel->GetOffsetsForImage(0);
-//   printf("Offsets for reference image: %d,%d\n", xOffset_ref,yOffset_ref);
-  for (int i = nImageParams; i < nParamsTot; i++) {
-    if (multImageModel->GetParameterName(i) == X0_string) {
-//       printf("[X0:]     paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramVect[i] -= xOffset_ref;
-//       printf("     updated paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramLimits[i].offset = xOffset_ref;
-      if (paramLimits[i].limited[0] == 1)
-        paramLimits[i].limits[0] -= xOffset_ref;
-      if (paramLimits[i].limited[1] == 1)
-        paramLimits[i].limits[1] -= xOffset_ref;
-    } else if (multImageModel->GetParameterName(i) == Y0_string) {
-//       printf("[Y0:]     paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramVect[i] -= yOffset_ref;
-//       printf("     updated paramVect[%d] = %.1f\n", i, paramVect[i]);
-      paramLimits[i].offset = yOffset_ref;
-      if (paramLimits[i].limited[0] == 1)
-        paramLimits[i].limits[0] -= yOffset_ref;
-      if (paramLimits[i].limited[1] == 1)
-        paramLimits[i].limits[1] -= yOffset_ref;
-    }
+  int  nLocalParams = 0;
+  for (int n = 0; n < nImages; n++)
+    nLocalParams += multImageModel->GetNPerImageParams(n);
+  int  iEnd = nParamsTot - nLocalParams;
+  CorrectSetsForOffset(paramVect, paramLimits, multImageModel, nImageParams, iEnd,
+  						xOffset_ref, yOffset_ref);
+  for (int n = 0; n < nImages; n++) {
+    int  iStart = iEnd;
+    iEnd += multImageModel->GetNPerImageParams(n);
+    std::tie(xOffset_this,yOffset_this) = multImageModel->GetOffsetsForImage(n);
+    CorrectSetsForOffset(paramVect, paramLimits, multImageModel, iStart, iEnd,
+    						xOffset_this, yOffset_this);
   }
 }
 
-- 
2.43.0


From 46f2dd0dd1a9aa45453871261ee7977c40e3a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:08 +0000
Subject: [PATCH 42/52] fix: oversampled regions in image sections, in
 multimfit

---
 core/multimfit_main.cpp         | 3 ++-
 core/store_psf_oversampling.cpp | 4 +++-
 core/store_psf_oversampling.h   | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 8892c70..58002a2 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -376,7 +376,8 @@ int main(int argc, char *argv[])
     // Read in oversampled PSF image, if supplied
     if (imageInfoVect[i].psfOversampledImage_present) {
       options->psfOversampling = true;
-      status = ExtractAndStorePsfOversampling(imageInfoVect[i], i, psfOversamplingInfoVect);
+      status = ExtractAndStorePsfOversampling(imageInfoVect[i], i, psfOversamplingInfoVect,
+      										X0_offset_current, Y0_offset_current);
       if (status < 0)
         exit(status);
     }
diff --git a/core/store_psf_oversampling.cpp b/core/store_psf_oversampling.cpp
index a1c996d..c2f4853 100644
--- a/core/store_psf_oversampling.cpp
+++ b/core/store_psf_oversampling.cpp
@@ -42,7 +42,8 @@ using namespace std;
 
 
 int ExtractAndStorePsfOversampling( const ImageInfo &imageInfo, int i,
-									vector<PsfOversamplingInfo *>  &oversamplingInfoVect )
+									vector<PsfOversamplingInfo *>  &oversamplingInfoVect,
+									int xOffset, int yOffset )
 {
   int  nColumns_psf_oversampled, nRows_psf_oversampled;
   long  nPixels_psf_oversampled;
@@ -78,6 +79,7 @@ int ExtractAndStorePsfOversampling( const ImageInfo &imageInfo, int i,
   // oversampling region), then add them to oversamplingInfoVect
   for (int nn = 0; nn < nOversampledRegions; nn++) {
     newPsfOversamplingInfo = new PsfOversamplingInfo();
+    newPsfOversamplingInfo->AddImageOffset(xOffset, yOffset);
     newPsfOversamplingInfo->AddRegionString(imageInfo.psfOversampleRegions[nn]);
     bool newPsfOversampledPixelsFlag = false;
     if ( (nn == 0) || ((nn > 0) && (nOversampledPsfImages > 1)) ) {
diff --git a/core/store_psf_oversampling.h b/core/store_psf_oversampling.h
index e01ae05..edfab18 100644
--- a/core/store_psf_oversampling.h
+++ b/core/store_psf_oversampling.h
@@ -26,6 +26,7 @@ using namespace std;
 
 
 int ExtractAndStorePsfOversampling( const ImageInfo &imageInfoObj, int i,
-									vector<PsfOversamplingInfo *>  &oversamplingInfoVect );
+									vector<PsfOversamplingInfo *>  &oversamplingInfoVect,
+									int xOffset=0, int yOffset=0 );
 
 #endif /* _STORE_PSF_OVERSAMPLING_H_ */
-- 
2.43.0


From 22aed493c3b68842a85bd9238ca0f4e6a24d6874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:08 +0000
Subject: [PATCH 43/52] fix: multimfit copies only the global parameters from
 the parameter list

---
 core/multimfit_main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 58002a2..2b92b4a 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -659,7 +659,7 @@ int main(int argc, char *argv[])
     paramsVect[i] = imageDescParamsVect[i];
   if (options->loggingOn)
     LOG_F(INFO, "Copying initial model parameter values into paramsVect...");
-  for (int i = nImageDescParams; i < nParamsTot; i++)
+  for (int i = nImageDescParams; i < nInputParams_nonLocal; i++)
     paramsVect[i] = parameterList[i - nImageDescParams];
   for (int i = nInputParams_nonLocal; i < nInputParamsTot; i++)
     paramsVect[i] = localParamsList[i - nInputParams_nonLocal];
-- 
2.43.0


From 5bce735b8161e31752ef1f1c6b5c4825e41f5bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:58 +0000
Subject: [PATCH 44/52] fix: fit-statistic options are initialised (multimfit
 used undefined values)

---
 core/options_base.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/options_base.h b/core/options_base.h
index 259ffd3..93acbcf 100644
--- a/core/options_base.h
+++ b/core/options_base.h
@@ -68,6 +68,9 @@ class OptionsBase
 
       printFitStatisticOnly = false;
       solver = MPFIT_SOLVER;
+      useModelForErrors = false;
+      useCashStatistic = false;
+      usePoissonMLR = false;
 
       subsamplingFlag = true;
 
-- 
2.43.0


From 11f896ac69be850aec3ae81929a7290d2532c903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:14 +0000
Subject: [PATCH 45/52] fix: multimfit honours --mask-zero-is-bad,
 --errors-are-variances and --errors-are-weights

---
 core/definitions_multimage.h     |  4 ++++
 core/imageparams_file_parser.cpp | 20 +++++++++++++++-----
 core/multimfit_main.cpp          |  8 ++++++++
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/core/definitions_multimage.h b/core/definitions_multimage.h
index f541799..c5bbd55 100644
--- a/core/definitions_multimage.h
+++ b/core/definitions_multimage.h
@@ -42,9 +42,11 @@ class ImageInfo
       maskImage_present = false;
       maskImageFileName = "";
       maskFormat = MASK_ZERO_IS_GOOD;
+      maskFormatSet = false;
       errorImage_present = false;
       errorImageFileName = "";
       errorType = WEIGHTS_ARE_SIGMAS;
+      errorTypeSet = false;
       psfImage_present = false;
       psfImageFileName = "";
 
@@ -74,8 +76,10 @@ class ImageInfo
     string  dataImageFileName;
     string  maskImageFileName;
     int  maskFormat;
+    bool  maskFormatSet;   // specified in image-info file
     string  errorImageFileName;
     int  errorType;
+    bool  errorTypeSet;   // specified in image-info file
     string  psfImageFileName;
     double  weight, gain, readNoise, originalSky, expTime;
     int  nCombined;
diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index b180a3b..017e195 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -494,16 +494,26 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
   }
   
   // Miscellaneous flags
-  else if (parameterName == PARAMETER_FLAG_MASK_ZERO_IS_GOOD)   // default
+  else if (parameterName == PARAMETER_FLAG_MASK_ZERO_IS_GOOD) {   // default
     imageInfo.maskFormat = MASK_ZERO_IS_GOOD;
-  else if (parameterName == PARAMETER_FLAG_MASK_ZERO_IS_BAD)
+    imageInfo.maskFormatSet = true;
+  }
+  else if (parameterName == PARAMETER_FLAG_MASK_ZERO_IS_BAD) {
     imageInfo.maskFormat = MASK_ZERO_IS_BAD;
-  else if (parameterName == PARAMETER_FLAG_ERRORS_ARE_SIGMAS)   // default
+    imageInfo.maskFormatSet = true;
+  }
+  else if (parameterName == PARAMETER_FLAG_ERRORS_ARE_SIGMAS) {   // default
     imageInfo.errorType = WEIGHTS_ARE_SIGMAS;
-  else if (parameterName == PARAMETER_FLAG_ERRORS_ARE_VARIANCES)
+    imageInfo.errorTypeSet = true;
+  }
+  else if (parameterName == PARAMETER_FLAG_ERRORS_ARE_VARIANCES) {
     imageInfo.errorType = WEIGHTS_ARE_VARIANCES;
-  else if (parameterName == PARAMETER_FLAG_ERRORS_ARE_WEIGHTS)
+    imageInfo.errorTypeSet = true;
+  }
+  else if (parameterName == PARAMETER_FLAG_ERRORS_ARE_WEIGHTS) {
     imageInfo.errorType = WEIGHTS_ARE_WEIGHTS;
+    imageInfo.errorTypeSet = true;
+  }
 
 
   // FIXME: MISSING: 
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 2b92b4a..7499624 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -296,6 +296,9 @@ int main(int argc, char *argv[])
   // After loop finishes, call AddFunctions using ModelObjectMultImage
   
   ModelObject * newModel;
+  // mask and error conventions specified by command-line flags
+  int  defaultMaskFormat = options->maskFormat;
+  int  defaultErrorType = options->errorType;
   if (options->loggingOn)
     LOG_F(INFO, "Starting loop setting up and adding individual ModelObject instances...");
   for (int i = 0; i < nDataImages; i++) {
@@ -352,11 +355,16 @@ int main(int argc, char *argv[])
       if (maskAllocated) {
         options->maskImagePresent = true;
         maskPixelsUsed.push_back(maskPixels);
+        // command-line flags apply unless the image-info file says otherwise
+        if (! imageInfoVect[i].maskFormatSet)
+          imageInfoVect[i].maskFormat = defaultMaskFormat;
         options->maskFormat = imageInfoVect[i].maskFormat;
       }
       if (errorPixels_allocated) {
         options->noiseImagePresent = true;
         errorPixelsUsed.push_back(errorPixels);
+        if (! imageInfoVect[i].errorTypeSet)
+          imageInfoVect[i].errorType = defaultErrorType;
         options->errorType = imageInfoVect[i].errorType;
       }
     }
-- 
2.43.0


From 25bf9af7a65543d91d7f6eb96746d8211d5fcfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:24 +0000
Subject: [PATCH 46/52] fix: saved image descriptions keep exposure time and
 mask/error conventions

---
 core/print_results_multi.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index 4fb0c81..8f89ce0 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -174,13 +174,21 @@ void PrintSingleImageInfoToStrings( const ImageInfo& imInfo, vector<string>& str
     strings.push_back(PrintToString("GAIN\t\t%g\n", imInfo.gain));
   if (imInfo.readNoise != 0.0)
     strings.push_back(PrintToString("READNOISE\t\t%g\n", imInfo.readNoise));
+  if (imInfo.expTime != 1.0)
+    strings.push_back(PrintToString("EXPTIME\t\t%g\n", imInfo.expTime));
   if (imInfo.nCombined != 1)
     strings.push_back(PrintToString("NCOMBINED\t\t%d\n", imInfo.nCombined));
   // mask, error, and PSF images
   if (imInfo.maskImage_present)
     strings.push_back(PrintToString("MASK    %s\n", imInfo.maskImageFileName.c_str()));
+  if (imInfo.maskFormat == MASK_ZERO_IS_BAD)
+    strings.push_back("MASK_ZERO_IS_BAD\n");
   if (imInfo.errorImage_present)
     strings.push_back(PrintToString("ERROR    %s\n", imInfo.errorImageFileName.c_str()));
+  if (imInfo.errorType == WEIGHTS_ARE_VARIANCES)
+    strings.push_back("ERRORS_ARE_VARIANCES\n");
+  else if (imInfo.errorType == WEIGHTS_ARE_WEIGHTS)
+    strings.push_back("ERRORS_ARE_WEIGHTS\n");
   if (imInfo.psfImage_present)
     strings.push_back(PrintToString("PSF    %s\n", imInfo.psfImageFileName.c_str()));
 
-- 
2.43.0


From bb29846c4a5644bb4bedd636bcf3892aca337629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:29 +0000
Subject: [PATCH 47/52] fix: image descriptions accept mask and error flags on
 lines of their own

---
 core/imageparams_file_parser.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index 017e195..05a20bd 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -110,6 +110,24 @@ void ReportConfigError( const vector<int> &errorCodes,
 
 
 
+/* ---------------- FUNCTION: IsFlagLine ------------------------------- */
+// Checks to see if a line (from which comments have been removed) consists of
+// just one of the flags describing the mask or error image
+bool IsFlagLine( const string& currentLine )
+{
+  vector<string>  stringPieces;
+
+  SplitString(currentLine, stringPieces);
+  if (stringPieces.size() != 1)
+    return false;
+  return ( (stringPieces[0] == PARAMETER_FLAG_MASK_ZERO_IS_GOOD) ||
+  			(stringPieces[0] == PARAMETER_FLAG_MASK_ZERO_IS_BAD) ||
+  			(stringPieces[0] == PARAMETER_FLAG_ERRORS_ARE_SIGMAS) ||
+  			(stringPieces[0] == PARAMETER_FLAG_ERRORS_ARE_VARIANCES) ||
+  			(stringPieces[0] == PARAMETER_FLAG_ERRORS_ARE_WEIGHTS) );
+}
+
+
 bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLineNumbers,
 					vector<int> &errorCodes, vector<int> &badLineNumbers )
 {
@@ -151,7 +169,7 @@ bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLin
     }
     // Currently, we have two possibilities: FUNCTIONS_START or a parameter line
     if (! (currentLine.find("FUNCTIONS_START", 0) != string::npos)) {
-      if (! ValidParameterLine(currentLine, true)) {
+      if ( (! ValidParameterLine(currentLine, true)) && (! IsFlagLine(currentLine)) ) {
         badLineNumbers.push_back(origLineNumbers[i]);
         errorCodes.push_back(IMAGEPARAMS_FILE_ERROR_BADLINE);
         nErrors += 1;
-- 
2.43.0


From cb18ab311612d2c40357c06713719179c51e8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:29 +0000
Subject: [PATCH 48/52] fix: line numbers of invalid image-description lines
 are reported

---
 core/imageparams_file_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index 05a20bd..310ad6c 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -611,7 +611,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
     // store non-empty, non-comment lines in a vector of strings
     if ((inputLine.size() > 0) && (inputLine[0] != '#')) {
       inputLines.push_back(inputLine);
-      origLineNumbers.push_back(k);
+      origLineNumbers.push_back(currentLine);
     }
   }
   inputFileStream.close();
-- 
2.43.0


From c6c04775880649aefaf2706f7b80f7924b64b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:15 +0000
Subject: [PATCH 49/52] fix: images without pixels are refused instead of
 aborting the program

---
 core/image_io.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/image_io.cpp b/core/image_io.cpp
index 711f71d..65333b9 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -120,12 +120,16 @@ bool CheckHDUForImage( fitsfile *imageFile_ptr, int hduNum, int *status_ptr )
 {
   bool validImageFlag = false;
   int  hduType, naxis;
+  long  naxes[2] = {0, 0};
 
   fits_movabs_hdu(imageFile_ptr, hduNum, &hduType, status_ptr);
   if (hduType == IMAGE_HDU) {   /* primary array or image HDU */
     fits_get_img_dim(imageFile_ptr, &naxis, status_ptr);
-    if (naxis == 2)
-      validImageFlag = true;
+    if (naxis == 2) {
+      // an image without any pixels is of no use
+      fits_get_img_size(imageFile_ptr, 2, naxes, status_ptr);
+      validImageFlag = ((naxes[0] > 0) && (naxes[1] > 0));
+    }
   }
   return validImageFlag;
 }
-- 
2.43.0


From 0f616656cb28c930415e67f4dc8a52d30c3663a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:15 +0000
Subject: [PATCH 50/52] fix: multimfit no longer crashes if its bootstrap file
 can't be opened

---
 core/multimfit_main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 7499624..d1a1006 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -760,6 +760,11 @@ int main(int argc, char *argv[])
   if ((options->doBootstrap) && (options->bootstrapIterations > 0) && (! userInterrupted)) {
     if (options->saveBootstrap) {
       bootstrapSaveFile_ptr = fopen(options->outputBootstrapFileName.c_str(), "w");
+      if (bootstrapSaveFile_ptr == nullptr) {
+        fprintf(stderr, "\n*** WARNING: Unable to open file \"%s\" -- bootstrap output will not be saved!\n\n",
+        		options->outputBootstrapFileName.c_str());
+        options->saveBootstrap = false;
+      }
       // write general info + best-fitting params as a commented-out header
       // SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
     }
-- 
2.43.0


From d0df1a83ecb786b778ba4ffe15ac6718000f8fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:15 +0000
Subject: [PATCH 51/52] fix: multimfit's bootstrap with masks wrote past the
 end of the deviates

---
 core/model_object_multimage.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index 72a2931..808c260 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -439,7 +439,11 @@ void ModelObjectMultImage::ComputeDeviates( double yResults[], double params[] )
 
     modelObjectsVect[i]->ComputeDeviates(yResults + startIndex, 
     									paramsForModelObjects[i]);
-    startIndex += modelObjectsVect[i]->GetNDataValues();
+    // bootstrap samples contain as many values as there are valid (unmasked) pixels
+    if (doBootstrap)
+      startIndex += modelObjectsVect[i]->GetNValidPixels();
+    else
+      startIndex += modelObjectsVect[i]->GetNDataValues();
   }
 }
 
@@ -745,6 +749,7 @@ int ModelObjectMultImage::UseBootstrap( )
   int  status = 0;
   int  cumulativeStatus = 0;
   
+  doBootstrap = true;
   for (int i = 0; i < nModelObjects; i++) {
     status = modelObjectsVect[i]->UseBootstrap();
     if (status < 0)
@@ -759,6 +764,7 @@ int ModelObjectMultImage::UseBootstrap( )
 /// individual ModelObject instances
 void ModelObjectMultImage::EndBootstrap( )
 {
+  doBootstrap = false;
   for (int i = 0; i < nModelObjects; i++)
     modelObjectsVect[i]->EndBootstrap();
 }
-- 
2.43.0


From ddbfc86ab62900b2946b73fce34f57e35248d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:15 +0000
Subject: [PATCH 52/52] fix: saved rows and summary of multimfit's bootstrap
 gave wrong or missing parameters

---
 core/bootstrap_errors.cpp       | 30 +++++++------
 core/model_object.h             |  2 +-
 core/model_object_multimage.cpp | 76 ++++++++++++++++++++-------------
 core/model_object_multimage.h   |  3 ++
 4 files changed, 68 insertions(+), 43 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index e9dcf08..c61ab02 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -388,12 +388,17 @@ void PrintBootstrapSummaryMultimfit( const double *bestfitParams, double **outpu
 				ModelObject *theModel )
 {
   double  lower, upper, plus, minus, halfwidth;
-  double  *paramSigmas;
+  double  *paramSigmas, *fullParams;
   int  i, i_last, nImages;
   
   nImages = theModel->GetNImages();
   
   paramSigmas = (double *)calloc( (size_t)nParams, sizeof(double) );
+  // bootstrap values include image offsets for X0,Y0, so the best-fit values should, too
+  fullParams = (double *)calloc( (size_t)nParams, sizeof(double) );
+  theModel->GetImageOffsets(fullParams);
+  for (i = 0; i < nParams; i++)
+    fullParams[i] += bestfitParams[i];
   for (i = 0; i < nParams; i++)
     paramSigmas[i] = StandardDeviation(outputParamArray[i], nIterations);
   // Print parameter values + standard deviations, for non-fixed parameters
@@ -410,38 +415,39 @@ void PrintBootstrapSummaryMultimfit( const double *bestfitParams, double **outpu
       i += 1;
       if (parameterLimits[i].fixed == 0) {
         std::tie(lower, upper) = ConfidenceInterval(outputParamArray[i], nIterations);
-        plus = upper - bestfitParams[i];
-        minus = bestfitParams[i] - lower;
+        plus = upper - fullParams[i];
+        minus = fullParams[i] - lower;
         halfwidth = (upper - lower)/2.0;
-        printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", imageParamLabels[i].c_str(),
-      	       	bestfitParams[i], plus, minus, lower, upper, halfwidth,
+        printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", imageParamLabels[j].c_str(),
+      	       	fullParams[i], plus, minus, lower, upper, halfwidth,
         		Mean(outputParamArray[i], nIterations), paramSigmas[i]);
       }
       else
-        printf("%s = %g     [fixed parameter]\n", imageParamLabels[i].c_str(),
-        		bestfitParams[i]);
+        printf("%s = %g     [fixed parameter]\n", imageParamLabels[j].c_str(),
+        		fullParams[i]);
     }
   }
   
   // now print results for model parameters
   i_last = i;
   printf("# Model parameters:\n");
-  for (i = i_last; i < nParams; i++) {
+  for (i = i_last + 1; i < nParams; i++) {
     if (parameterLimits[i].fixed == 0) {
       std::tie(lower, upper) = ConfidenceInterval(outputParamArray[i], nIterations);
-      plus = upper - bestfitParams[i];
-      minus = bestfitParams[i] - lower;
+      plus = upper - fullParams[i];
+      minus = fullParams[i] - lower;
       halfwidth = (upper - lower)/2.0;
       printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", 
-      	 		theModel->GetParameterName(i).c_str(), bestfitParams[i], plus, minus, 
+      	 		theModel->GetParameterName(i).c_str(), fullParams[i], plus, minus, 
         		lower, upper, halfwidth, Mean(outputParamArray[i], nIterations), paramSigmas[i]);
     }
     else
       printf("%s = %g     [fixed parameter]\n", theModel->GetParameterName(i).c_str(),
-               bestfitParams[i]);
+               fullParams[i]);
   }
 
   free(paramSigmas);
+  free(fullParams);
 }
 
 
diff --git a/core/model_object.h b/core/model_object.h
index d789fef..8347cf2 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -170,7 +170,7 @@ class ModelObject
 
     void GetFunctionLabels( vector<string>& functionLabels );
 
-    void  GetImageOffsets( double params[] );
+    virtual void  GetImageOffsets( double params[] );
     
     virtual string GetParamHeader( );
 
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index 808c260..f4bf08f 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -666,43 +666,50 @@ string ModelObjectMultImage::GetDataFilename( int imageNumber )
 string ModelObjectMultImage::PrintModelParamsHorizontalString( const double params[], 
 																const string& separator )
 {
-  double  x0, y0, paramVal;
-  int  image1Offset_x0, image1Offset_y0;
-  int  nParamsThisFunc, k, indexOffset, nImageParams;
   string  outputString = "";
+  // pixel offsets for all the images' X0,Y0 values
+  vector<double>  imageOffsets(nParamsTot, 0.0);
 
-  // pixel offsets for reference image
-  std::tie(image1Offset_x0, image1Offset_y0) = modelObjectsVect[0]->GetImageOffsets();
-  // number of image-description parameters
-  nImageParams = (nModelObjects - 1)*N_IMAGE_PARAMS;
-  
+  GetImageOffsets(imageOffsets.data());
   // Line should start with parameter value (no initial separator)
-  outputString = PrintToString("%#.10g", params[0]);
+  outputString = PrintToString("%#.10g", params[0] + imageOffsets[0]);
   // now we precede each subsequent parameter value with separator
-  for (int i = 1; i < nImageParams; i++)
-    outputString += PrintToString("%s%#.10g", separator.c_str(), params[i]);
-
-  indexOffset = nImageParams;
-  for (int n = 0; n < nFunctions; n++) {
-    if (fsetStartFlags[n] == true) {
-      // start of new function set: extract x0,y0 and then skip over them
-      k = indexOffset;
-      x0 = params[k] + image1Offset_x0;
-      y0 = params[k + 1] + image1Offset_y0;
-      outputString += PrintToString("%s%#.10g%s%#.10g", separator.c_str(), x0, separator.c_str(), y0);
-      indexOffset += 2;
-    }
+  for (int i = 1; i < nParamsTot; i++)
+    outputString += PrintToString("%s%#.10g", separator.c_str(), params[i] + imageOffsets[i]);
+
+  return outputString;
+}
+
+
+/* ---------------- PUBLIC METHOD: GetImageOffsets --------------------- */
+/// Given an input array (all zeros), this method returns the array with
+/// locations corresponding to X0,Y0 values (of the images, the function sets,
+/// and the function sets of local, per-image functions) set to the offsets of
+/// the corresponding images.
+void ModelObjectMultImage::GetImageOffsets( double params[] )
+{
+  int  offsetX0, offsetY0;
+  int  nImageParams = (nModelObjects - 1)*N_IMAGE_PARAMS;
+  int  nextParam = nImageParams + nGlobalFuncParams;
 
-    // Now print the function and its parameters
-    nParamsThisFunc = paramSizes[n];
-    for (int i = 0; i < nParamsThisFunc; i++) {
-      paramVal = params[indexOffset + i];
-      outputString += PrintToString("%s%#.10g", separator.c_str(), paramVal);
+  for (int n = 1; n < nModelObjects; n++) {
+    std::tie(offsetX0, offsetY0) = modelObjectsVect[n]->GetImageOffsets();
+    params[n*N_IMAGE_PARAMS - 2] = offsetX0;
+    params[n*N_IMAGE_PARAMS - 1] = offsetY0;
+  }
+  for (int n = 0; n < nModelObjects; n++) {
+    // global functions (only for reference image), then per-image functions
+    vector<double>  offsetsThisImage(nParamsForModelObjects[n], 0.0);
+    modelObjectsVect[n]->GetImageOffsets(offsetsThisImage.data());
+    if (n == 0) {
+      for (int i = 0; i < nGlobalFuncParams; i++)
+        params[nImageParams + i] = offsetsThisImage[i];
+    }
+    for (int i = nGlobalFuncParams; i < nParamsForModelObjects[n]; i++) {
+      params[nextParam] = offsetsThisImage[i];
+      nextParam += 1;
     }
-    indexOffset += paramSizes[n];
   }
-
-  return outputString;
 }
 
 
@@ -733,6 +740,15 @@ string ModelObjectMultImage::GetParamHeader( )
   baseModelParamHeader = modelObjectsVect[0]->GetParamHeader();
   headerLine += baseModelParamHeader.substr(2, string::npos);
   
+  // per-image functions of 2nd and subsequent images
+  for (int n = 1; n < nModelObjects; n++) {
+    vector<string>  names;
+    SplitString(modelObjectsVect[n]->GetParamHeader(), names);
+    // skip leading "#" and the (global) model parameters
+    for (int i = 1 + nGlobalFuncParams; i < (int)names.size(); i++)
+      headerLine += PrintToString("%s_IM_%d\t", names[i].c_str(), n + 1);
+  }
+  
   return headerLine;
 }
 
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index 1576029..c67c286 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -105,6 +105,9 @@ class ModelObjectMultImage : public ModelObject
 
     string GetParamHeader( ) override;
 
+    using ModelObject::GetImageOffsets;
+    void  GetImageOffsets( double params[] ) override;
+
 
   private:
   	vector<ModelObject *> modelObjectsVect;
-- 
2.43.0

