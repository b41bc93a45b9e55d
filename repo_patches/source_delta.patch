From 889bdae83833e9263c713aa71e19cfe11b899033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 01/64] fix: matrix multiplication no longer converts its
 operands in place

---
 nimble/core/data/base.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 99cefb1..2bbbabc 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4907,13 +4907,18 @@ class Base(ABC):
             msg += "empty"
             raise ImproperObjectAction(msg)
 
+        # conversion is inplace, the operands must not be modified
         try:
-            self._convertToNumericTypes()
-        except ImproperObjectAction:
+            converted = self.copy()
+            converted._convertToNumericTypes()
+            self = converted
+        except (ImproperObjectAction, ValueError):
             self._numericValidation()
         try:
-            other._convertToNumericTypes()
-        except ImproperObjectAction:
+            converted = other.copy()
+            converted._convertToNumericTypes()
+            other = converted
+        except (ImproperObjectAction, ValueError):
             other._numericValidation(right=True)
 
         if opName.startswith('__r'):
-- 
2.43.0


From 730044281eafc986f4bd69b69fd8ad93580b69f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 02/64] fix: stretched arithmetic no longer converts its
 operands in place

---
 nimble/core/data/stretch.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/nimble/core/data/stretch.py b/nimble/core/data/stretch.py
index 4436d40..637d225 100644
--- a/nimble/core/data/stretch.py
+++ b/nimble/core/data/stretch.py
@@ -188,14 +188,18 @@ class Stretch(object):
         if 'pow' in opName:
             conversionKwargs['allowInt'] = False
             conversionKwargs['allowBool'] = False
+        # conversion is inplace, the operands must not be modified
+        source = self._source.copy()
         try:
-            self._source._convertToNumericTypes(**conversionKwargs)
+            source._convertToNumericTypes(**conversionKwargs)
         except ImproperObjectAction:
-            self._source._numericValidation()
+            source._numericValidation()
         if isinstance(other, Stretch):
-            otherSource = other._source
+            otherSource = other._source.copy()
+            otherConverted = otherSource.stretch
         else:
-            otherSource = other
+            otherSource = other.copy()
+            otherConverted = otherSource
         try:
             otherSource._convertToNumericTypes(**conversionKwargs)
         except ImproperObjectAction:
@@ -205,10 +209,11 @@ class Stretch(object):
 
         try:
             with np.errstate(divide='raise', invalid='raise'):
-                ret = self._stretchArithmetic_implementation(opName, other)
+                ret = source.stretch._stretchArithmetic_implementation(
+                    opName, otherConverted)
         except (TypeError, ValueError, FloatingPointError) as error:
-            self._source._diagnoseFailureAndRaiseException(opName, otherSource,
-                                                           error)
+            source._diagnoseFailureAndRaiseException(opName, otherSource,
+                                                     error)
             raise # bakckup should be diagnosed and raised above
 
         if (opName.startswith('__r')
-- 
2.43.0


From 5cd6e341b858f596caee87f27f8e099ebc8ee3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 03/64] fix: plotting a heat map and saving hdf files no longer
 convert the data in place

---
 nimble/core/data/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 2bbbabc..8a4ae47 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1933,6 +1933,8 @@ class Base(ABC):
             userblockSize = 0
         with h5py.File(outPath, 'w', userblock_size=userblockSize) as hdf:
             for name, point in zip(pnames, self.points):
+                # conversion is inplace, point can share data with this object
+                point = point.copy()
                 point._convertToNumericTypes()
                 asArray = point.copy('numpy array')
                 _ = hdf.create_dataset(name, data=asArray)
@@ -2902,13 +2904,14 @@ class Base(ABC):
     @pyplotRequired
     def _plot(self, includeColorbar, outPath, show, title, xAxisLabel,
               yAxisLabel, **kwargs):
-        self._convertToNumericTypes(allowBool=False)
+        toPlot = self.copy()
+        toPlot._convertToNumericTypes(allowBool=False)
 
         if 'cmap' not in kwargs:
             kwargs['cmap'] = "gray"
 
         # matshow generates a new figure b/c existing axes are an issue.
-        plt.matshow(self.copy('numpyarray'), **kwargs)
+        plt.matshow(toPlot.copy('numpyarray'), **kwargs)
 
         if includeColorbar:
             plt.colorbar()
-- 
2.43.0


From 0f4d2d9c36ab0bfdedf1e9f705249ee87956523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 04/64] fix: creating a Sparse object no longer replaces None
 in the array it is given

---
 nimble/core/data/sparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 45605e8..7ed7469 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -90,6 +90,8 @@ class Sparse(Base):
             if data[data == None].size:
                 if data.dtype not in [float, np.floating, object]:
                     data = data.astype(float)
+                else: # data may belong to the caller
+                    data = data.copy()
                 data[data == None] = np.nan
 
             self._data = scipy.sparse.coo_matrix(data)
-- 
2.43.0


From b2ac550c6da8aa707099f9cff6a38430740a20c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 05/64] fix: numpy copies of data with more than two dimensions
 own their memory

---
 nimble/core/data/dataframe.py | 2 --
 nimble/core/data/matrix.py    | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index e4b15e7..7292fac 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -228,8 +228,6 @@ class DataFrame(Base):
                 arr = arr.reshape(self._dims)
             if to == 'pythonlist':
                 return arr.tolist()
-            if needsReshape:
-                return arr
             return arr.copy()
 
         if needsReshape:
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 0fd5a76..7896d6f 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -189,7 +189,7 @@ class Matrix(Base):
         needsReshape = len(self._dims) > 2
         if to == 'numpyarray':
             if needsReshape:
-                return self._data.reshape(self._dims)
+                return self._data.reshape(self._dims).copy()
             return self._data.copy()
         if needsReshape:
             data = np.empty(self._dims[:2], dtype=np.object_)
-- 
2.43.0


From 0249b5aefa29fd236caf55ae54d36dc82dafc082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 06/64] fix: results of binary operations do not share the
 dimensions of the operand

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 8a4ae47..9a3b5db 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5441,7 +5441,7 @@ class Base(ABC):
             obj._diagnoseFailureAndRaiseException(opName, other, error)
             raise # backup; should be diagnosed and raised above
 
-        ret._dims = self._dims
+        ret._dims = self._dims.copy()
         if opName.startswith('__i'):
             self._referenceFrom(ret, paths=(self._absPath, self._relPath))
             ret = self
-- 
2.43.0


From 7c2aad2778506484a1d1b40cb989421bb1bbab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 07/64] fix: views refuse item assignment like every other
 in-place operation

---
 nimble/core/data/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/views.py b/nimble/core/data/views.py
index 4e36deb..3ff30df 100644
--- a/nimble/core/data/views.py
+++ b/nimble/core/data/views.py
@@ -231,6 +231,10 @@ class BaseView(Base, metaclass=ABCMeta):
     ###############################################################
     ###############################################################
 
+    @baseExceptionDoc
+    def __setitem__(self, key, value):
+        readOnlyException("__setitem__")
+
     @baseExceptionDoc
     def __imatmul__(self, other):
         readOnlyException("__imatmul__")
-- 
2.43.0


From b780fa09b07d952c6f13518bf1857ca957ba052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 08/64] fix: limits of a view of a view are identifiers of that
 view, not of its source

---
 nimble/core/data/views.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/views.py b/nimble/core/data/views.py
index 3ff30df..d5be9e3 100644
--- a/nimble/core/data/views.py
+++ b/nimble/core/data/views.py
@@ -119,25 +119,25 @@ class BaseView(Base, metaclass=ABCMeta):
         if pointStart is None:
             psAdj = None if len(self._source.points) == 0 else self._pStart
         else:
-            psIndex = self._source.points.getIndex(pointStart)
+            psIndex = self.points.getIndex(pointStart)
             psAdj = psIndex + self._pStart
 
         if pointEnd is None:
             peAdj = None if len(self._source.points) == 0 else self._pEnd - 1
         else:
-            peIndex = self._source.points.getIndex(pointEnd)
+            peIndex = self.points.getIndex(pointEnd)
             peAdj = peIndex + self._pStart
 
         if featureStart is None:
             fsAdj = None if len(self._source.features) == 0 else self._fStart
         else:
-            fsIndex = self._source.features.getIndex(featureStart)
+            fsIndex = self.features.getIndex(featureStart)
             fsAdj = fsIndex + self._fStart
 
         if featureEnd is None:
             feAdj = None if len(self._source.features) == 0 else self._fEnd - 1
         else:
-            feIndex = self._source.features.getIndex(featureEnd)
+            feIndex = self.features.getIndex(featureEnd)
             feAdj = feIndex + self._fStart
 
         return self._source._view_backend(psAdj, peAdj, fsAdj, feAdj,
-- 
2.43.0


From 7ca4c850992bf05788a2bdddbfe7907c89656713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 09/64] fix: rows of iterables and squeezed arrays given to
 nimble.data are not regarded as copies

---
 nimble/core/_createHelpers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 34b055b..7dd68ce 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1169,8 +1169,7 @@ def isHighDimensionData(rawData, rowsArePoints, skipDataProcessing, copied):
                 rows = sum(1 for _ in toIter) + 1
                 return np.empty((rows, cols)), False, True
             if _isNumpyArray(rawData):
-                rawData = rawData.squeeze()
-                copied = True
+                rawData = rawData.squeeze() # shares the memory of rawData
             else:
                 if not copied:
                     rawData = copy.deepcopy(rawData)
@@ -1539,8 +1538,8 @@ def initDataObject(
     # anything we do not recognize turn into a list, this allows for source to
     # be range, generator, map, iter, etc., and other list-like data structures
     elif not isinstance(rawData, (list, dict)):
+        # a new list, but the rows in it are still those of the source
         rawData = list(rawData)
-        copied = True
 
     rawData, highDim, copied = isHighDimensionData(rawData, rowsArePoints,
                                                    skipDataProcessing, copied)
-- 
2.43.0


From 2811357a508018ed1716ba8a17f0e46ecbc649af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 10/64] fix: convertToType dictionary of the user is no longer
 emptied

---
 nimble/core/_createHelpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 7dd68ce..06653b7 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1333,6 +1333,7 @@ def convertToTypeDictToList(convertToType, featuresObj, featureNames):
     """
     retFNames = featuresObj._getNamesNoGeneration()
     convertList = [None] * len(featuresObj)
+    convertToType = convertToType.copy() # used keys are removed below
     # if no feature names, we will use the list of None values as the
     # featureNames to allow us to use the same process in either case
     if retFNames is None:
-- 
2.43.0


From ee01b608eb7ab286e6ab494d3c80098514d7bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 11/64] fix: list of feature names given with a csv file is not
 extended or rejected

---
 nimble/core/_createHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 06653b7..e940a51 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2474,7 +2474,7 @@ def _checkCSVForNames(ioStream, pointNames, featureNames, dialect):
         pointNames, featureNames, firstDataRow, secondDataRow)
 
     # possible pointNames if first was missing and rest could be featureNames
-    trackPoints = possiblePtNames and featureNames
+    trackPoints = possiblePtNames and featureNames is True
 
     # reset everything to make the loop easier
     ioStream.seek(startPosition)
-- 
2.43.0


From bd8eda9cd545e3a19704b2048cd6b8310c43b6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 12/64] fix: seeding keras layers does not add objects to the
 Init given by the caller

---
 nimble/core/interfaces/keras_interface.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/keras_interface.py b/nimble/core/interfaces/keras_interface.py
index 9935b2e..a8bcf7f 100644
--- a/nimble/core/interfaces/keras_interface.py
+++ b/nimble/core/interfaces/keras_interface.py
@@ -580,6 +580,9 @@ To install keras
         Precurser to the _argumentInit method to handle keras specific objects
         that require random seeding.
         """
+        # seeded initializers are added here, not to the Init of the caller
+        seeded = toInit.kwargs.copy()
+
         unpack = self._paramQuery('__init__', toInit.name, ['self'])
         params, _, _, defaults = unpack
 
@@ -620,11 +623,11 @@ To install keras
                     raise InvalidArgumentValue(msg)
                 lizerObj = initObject(**lizerArgs)
 
-                toInit.kwargs[name] = lizerObj
+                seeded[name] = lizerObj
 
         # Sub-object seeding handled if needed, can proceed with the standard
         # recursive helper
-        return self._argumentInit(toInit)
+        return self._argumentInit(nimble.Init(toInit.name, **seeded))
 
 
     def _paramQuery(self, name, parent, ignore=None):
-- 
2.43.0


From ab4566edcd041c2871fa612dfb3bed0e43ab0b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 13/64] fix: pseudo inverse of an empty object is a new object

---
 nimble/calculate/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/calculate/linalg.py b/nimble/calculate/linalg.py
index 8d1bb0c..bda34c0 100644
--- a/nimble/calculate/linalg.py
+++ b/nimble/calculate/linalg.py
@@ -170,7 +170,7 @@ def pseudoInverse(aObj):
         raise InvalidArgumentType(
             "Object must be derived class of nimble.core.data.Base.")
     if not aObj.points and not aObj.features:
-        return aObj
+        return aObj.copy()
 
     def _handleNonSupportedTypes(exception):
         if re.match('.*object arrays*', str(exception), re.I):
-- 
2.43.0


From e96954f1b2fa7dd144f5434f6b3b7bf2de1b7384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 14/64] fix: filling returns a new object also when nothing
 matches

---
 nimble/fill/fill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/fill/fill.py b/nimble/fill/fill.py
index b5b8a4a..034543c 100644
--- a/nimble/fill/fill.py
+++ b/nimble/fill/fill.py
@@ -523,7 +523,7 @@ def statsBackend(vector, match, funcString, statisticsFunction):
         unmatched = vector.features.calculate(toStat, useLog=False)
 
     if len(unmatched) == len(vector):
-        return vector
+        return vector.copy()
     if not unmatched:
         msg = statsExceptionNoMatches(funcString, vector)
         raise InvalidArgumentValue(msg)
-- 
2.43.0


From 74f20f2d2dacb4e3d25381b987517f6805c4e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:43 +0000
Subject: [PATCH 15/64] fix: nested calls no longer end the tracking of the
 user's entry point

---
 nimble/core/_learnHelpers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nimble/core/_learnHelpers.py b/nimble/core/_learnHelpers.py
index b6e619b..e1dd2fa 100644
--- a/nimble/core/_learnHelpers.py
+++ b/nimble/core/_learnHelpers.py
@@ -689,14 +689,13 @@ def trackEntry(func):
     """
     @wraps(func)
     def wrapped(*args, **kwargs):
-        if trackEntry.isEntryPoint is None: # entry point
-            trackEntry.isEntryPoint = True
-        elif trackEntry.isEntryPoint: # previous call was entry point
-            trackEntry.isEntryPoint = False
+        previous = trackEntry.isEntryPoint
+        # None signals that no call is in progress so this is the entry point
+        trackEntry.isEntryPoint = previous is None
         try:
             ret = func(*args, **kwargs)
         finally:
-            trackEntry.isEntryPoint = None # reset
+            trackEntry.isEntryPoint = previous # reset
 
         return ret
 
-- 
2.43.0


From fa567bd8ebf4cb12ccdf02cafc37c0ee8366033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 16/64] fix: applying multiclass learners writes one log entry
 and uses keyword arguments

---
 nimble/core/interfaces/universal_interface.py | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index a7b90e6..744a51b 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1800,12 +1800,28 @@ class TrainedLearners(TrainedLearner):
         --------
         TODO
         """
+        startTime = time.process_time()
+        mergedArguments = mergeArguments(arguments, kwarguments)
+
+        ret = self._applyStrategy(testX, mergedArguments, scoreMode)
+
+        totalTime = time.process_time() - startTime
+
+        handleLogging(useLog, 'TLrun', self, "apply", mergedArguments,
+                      testData=testX, time=totalTime, returned=ret)
+
+        return ret
+
+    def _applyStrategy(self, testX, arguments, scoreMode):
+        """
+        Combine the results of each learner based on the strategy used.
+        """
         rawPredictions = None
         #1 VS All
         if self.method == 'OneVsAll':
             for trainedLearner in self._trainedLearnersList:
                 oneLabelResults = trainedLearner.apply(testX, arguments,
-                                                       useLog=useLog)
+                                                       useLog=False)
                 label = trainedLearner.label
                 # put all results into one Base container; same type as trainX
                 if rawPredictions is None:
@@ -1889,7 +1905,7 @@ class TrainedLearners(TrainedLearner):
             for trainedLearner in self._trainedLearnersList:
                 # train classifier on that data; apply it to the test set
                 partialResults = trainedLearner.apply(testX, arguments,
-                                                      useLog=useLog)
+                                                      useLog=False)
                 # put predictions into table of predictions
                 if rawPredictions is None:
                     rawPredictions = partialResults.copy(to="List")
-- 
2.43.0


From 078c5b6750448083a0f2397464edb28f13b7f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 17/64] fix: internal operations write no log entries of their
 own

---
 nimble/core/_createHelpers.py                 | 8 ++++----
 nimble/core/_learnHelpers.py                  | 4 ++--
 nimble/core/data/axis.py                      | 6 ++++--
 nimble/core/data/base.py                      | 9 +++++----
 nimble/core/data/features.py                  | 5 +++--
 nimble/core/interfaces/universal_interface.py | 2 +-
 6 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index e940a51..6064fa1 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1664,9 +1664,9 @@ def initDataObject(
         cleaned = getKeepIndexValues(ret.points, keepPoints)
         if len(cleaned) == numPts:
             pCmp = makeCmp(cleaned, ret, 'point')
-            ret.points.sort(by=pCmp)
+            ret.points.sort(by=pCmp, useLog=False)
         else:
-            ret = ret.points.copy(cleaned)
+            ret = ret.points.copy(cleaned, useLog=False)
         # if we had a subset of pointNames can set now on the cleaned data
         if setPtNamesAfter:
             ret.points.setNames(pointNames, useLog=False)
@@ -1695,9 +1695,9 @@ def initDataObject(
                 raise InvalidArgumentValue(msg)
         if len(cleaned) == numFts:
             fCmp = makeCmp(cleaned, ret, 'feature')
-            ret.features.sort(by=fCmp)
+            ret.features.sort(by=fCmp, useLog=False)
         else:
-            ret = ret.features.copy(cleaned)
+            ret = ret.features.copy(cleaned, useLog=False)
         # if we had a subset of featureNames can set now on the cleaned data
         if setFtNamesAfter:
             ret.features.setNames(featureNames, useLog=False)
diff --git a/nimble/core/_learnHelpers.py b/nimble/core/_learnHelpers.py
index e1dd2fa..ba67f7f 100644
--- a/nimble/core/_learnHelpers.py
+++ b/nimble/core/_learnHelpers.py
@@ -478,7 +478,7 @@ class LearnerInspector:
         try:
             runResults = nimble.trainAndApply(
                 learnerName, trainX=regressorTrainData, trainY=trainLabels,
-                testX=regressorTestData)
+                testX=regressorTestData, useLog=False)
         except Exception: # pylint: disable=broad-except
             return 'other'
 
@@ -523,7 +523,7 @@ class LearnerInspector:
         try:
             runResults = nimble.trainAndApply(learnerName, trainX=trainData,
                                               trainY=trainLabels,
-                                              testX=testData)
+                                              testX=testData, useLog=False)
         except Exception: # pylint: disable=broad-except
             return 'other'
 
diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 636551e..d014b87 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1172,7 +1172,8 @@ class Axis(ABC):
                 raise ImproperObjectAction(msg)
             # construct list from function
             if limitTo is not None:
-                obj = self._base._getAxis(self._offAxis).copy(limitTo)
+                obj = self._base._getAxis(self._offAxis).copy(limitTo,
+                                                              useLog=False)
                 toIter = obj._getAxis(self._axis)
             else:
                 toIter = self
@@ -1473,7 +1474,8 @@ class Axis(ABC):
             if not (objAllDefault or toInsertAllDefault) and reorder:
                 # use copy when reordering so toInsert object is not modified
                 toInsert = toInsert.copy()
-                toInsert._getAxis(self._offAxis).permute(offAxisObj.getNames())
+                toInsert._getAxis(self._offAxis).permute(offAxisObj.getNames(),
+                                                        useLog=False)
 
         return toInsert
 
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 9a3b5db..28f8974 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1392,7 +1392,8 @@ class Base(ABC):
             if isinstance(val, numbers.Number):
                 if val in undefined:
                     # check that the feature axis doesn't have that string.
-                    if "NaN" not in list(self.features.copy(by)):
+                    if "NaN" not in list(self.features.copy(by,
+                                                               useLog=False)):
                         return "NaN"
                     return 'numpy.nan'
                 iVal = int(val)
@@ -3239,7 +3240,7 @@ class Base(ABC):
                 outPath, show, figureID, title, xAxisLabel, yAxisLabel, xMin,
                 xMax, yMin, yMax, **kwargs)
         else:
-            grouped = self.groupByFeature(groupByFeature)
+            grouped = self.groupByFeature(groupByFeature, useLog=False)
             labels = list(grouped.keys())
             lastLabel = labels[-1]
             if 'color' in kwargs:
@@ -3513,8 +3514,8 @@ class Base(ABC):
         if subgroupFeature:
             subgroupFt = self.features[subgroupFeature]
             # remove name in case is same as feature
-            subgroupFt.features.setNames(None, oldIdentifiers=0)
-            toGroup.features.insert(1, subgroupFt)
+            subgroupFt.features.setNames(None, oldIdentifiers=0, useLog=False)
+            toGroup.features.insert(1, subgroupFt, useLog=False)
         grouped = toGroup.groupByFeature(0, useLog=False)
 
         axisRange = range(1, len(grouped) + 1)
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 0fbe027..223abcc 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2450,8 +2450,9 @@ class Features(ABC):
             if 'dataType' not in report.features.getNames():
                 featureDtype = unifyingType(self._base)
                 if featureDtype: 
-                    featureTypes = nimble.data(featureDtype, featureNames=['dataType'])
-                    report.features.append(featureTypes)
+                    featureTypes = nimble.data(featureDtype, featureNames=['dataType'],
+                                               useLog=False)
+                    report.features.append(featureTypes, useLog=False)
 
         handleLogging(useLog, 'report', "feature", str(report))
 
diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 744a51b..a96329f 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -251,7 +251,7 @@ class UniversalInterface(metaclass=abc.ABCMeta):
 
                 # Get set of unique class labels, then generate list of all
                 # 2-combinations of class labels
-                labelVector = trainX.features.copy([trainY])
+                labelVector = trainX.features.copy([trainY], useLog=False)
                 labelVector.transpose(useLog=False)
                 labelVectorToList = labelVector.copy(to="python list")[0]
                 labelSet = list(set(labelVectorToList))
-- 
2.43.0


From 527f51817f0dc2c105961f643b5ea4417e76280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:19 +0000
Subject: [PATCH 18/64] fix: an array argument no longer ends a logged call
 after it was done

Describing the arguments for the log compares each with its default; for
an array the truth of that comparison is a ValueError.
---
 nimble/core/logger/session_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 9bfdfe4..2c0a2e0 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -1210,7 +1210,7 @@ def _buildArgDict(func, logIDs, *args, **kwargs):
             try:
                 if arg == defaultDict[name]:
                     continue
-            except TypeError:
+            except (TypeError, ValueError):
                 pass
         if callable(arg):
             string = _extractFunctionString(arg)
-- 
2.43.0


From f91002a3b483b2e65679742d5bacb26f672f3a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:21 +0000
Subject: [PATCH 19/64] fix: discard the remembered ordering when a Sparse
 change removes entries

replaceRectangle with zeros and transformElements preserving zeros left
the start positions of the previous data in place, so the next element
access failed or answered with the wrong value.
---
 nimble/core/data/sparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 7ed7469..4755bbb 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -199,6 +199,7 @@ class Sparse(Base):
         if all(issubclass(type(d), numbers.Number) for d in self._data.data):
             self._data.data = np.array(list(self._data.data))
         self._data.eliminate_zeros()
+        self._resetSorted()
 
     def _calculate_implementation(self, function, points, features,
                                   preserveZeros):
@@ -610,6 +611,7 @@ class Sparse(Base):
         shape = (len(self.points), len(self.features))
         self._data = scipy.sparse.coo_matrix((newData, (newRow, newCol)),
                                              shape)
+        self._resetSorted()
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
-- 
2.43.0


From d574384e44e6c48b348fe71931395270d6b4a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 20/64] fix: incrementalTrain without a seed draws one from
 Nimble's random state, not the operating system

---
 nimble/core/interfaces/universal_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index a96329f..de08a6e 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1511,6 +1511,7 @@ class TrainedLearner(object):
             global option.
         """
         validateLearningArguments(trainX, trainY)
+        randomSeed = self._interface._getValidSeed(randomSeed)
         if arguments is not None:
             self.arguments.update(arguments)
         transformed = self._interface._inputTransformation(
-- 
2.43.0


From f1d5c7f3c9921765b5449bf8027f5c5b8972fd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 21/64] fix: the classification strategy trial uses its seed
 and leaves the session's random state alone

---
 nimble/core/interfaces/_interface_helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/_interface_helpers.py b/nimble/core/interfaces/_interface_helpers.py
index 91ea0e7..d6e3675 100644
--- a/nimble/core/interfaces/_interface_helpers.py
+++ b/nimble/core/interfaces/_interface_helpers.py
@@ -164,8 +164,10 @@ def checkClassificationStrategy(interface, learnerName, trainArgs, scoreArgs,
     # labels as 0, 1, 2 ,3, 0, 1, 2, 3, ... so testing object is guaranteed to
     # have one of each label
     numPointsPerCluster = max(1, numPts // 4) * 2
-    dataX, _, dataY = generateClusteredPoints(4, numPointsPerCluster,
-                                              numFts, addLabelNoise=False)
+    seed = interface._getValidSeed(seed)
+    with nimble.random.alternateControl(seed, useLog=False):
+        dataX, _, dataY = generateClusteredPoints(4, numPointsPerCluster,
+                                                  numFts, addLabelNoise=False)
     reorder = []
     for i in range(numPointsPerCluster):
         for j in range(4):
-- 
2.43.0


From 6503df47d8b9a087f3b1508b1cd816d5423587d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 22/64] fix: tuning and validation use the random seed they are
 given for folds, holdouts, selection and training

---
 nimble/core/tune.py | 62 ++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index abd34be..a5f209c 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -61,8 +61,11 @@ class FoldIterator(ABC):
         A list of data objects to divide into folds.
     folds : int
         The number of folds to create.
+    randomSeed : int
+        Seed for the random ordering of the points. When None, Nimble's
+        random state is used.
     """
-    def __init__(self, dataList):
+    def __init__(self, dataList, randomSeed=None):
         if dataList is None:
             raise InvalidArgumentType('dataList may not be None')
         if len(dataList) == 0:
@@ -81,6 +84,10 @@ class FoldIterator(ABC):
                     raise InvalidArgumentValueCombination(msg)
                 if data.getTypeString() == 'Sparse':
                     data._sortInternal('point')
+        if randomSeed is None:
+            self._random = numpyRandom
+        else:
+            self._random = np.random.RandomState(randomSeed)
         self.foldList = self.makeFoldList()
         self.index = 0
 
@@ -109,7 +116,7 @@ class FoldIterator(ABC):
             #		pythonRandom.shuffle(indices)
         indices = np.arange(0, (len(copiedList[0].points)
                                    - len(self.foldList[self.index])))
-        numpyRandom.shuffle(indices)
+        self._random.shuffle(indices)
 
         resultsList = []
         for copied in copiedList:
@@ -136,12 +143,13 @@ class KFoldIterator(FoldIterator):
     """
     Separate the data into k number of folds.
     """
-    def __init__(self, dataList, folds):
+    def __init__(self, dataList, folds, randomSeed=None):
         if folds <= 0:
             msg = "Number of folds must be greater than 0"
             raise InvalidArgumentValue(msg)
         self.folds = folds
-        super().__init__(dataList)
+        self._foldSeed = randomSeed
+        super().__init__(dataList, randomSeed)
 
     def makeFoldList(self):
         # When number of points does not divide evenly by number of folds
@@ -154,7 +162,10 @@ class KFoldIterator(FoldIterator):
 
         # randomly select the folded portions
         indices = list(range(self.points))
-        pythonRandom.shuffle(indices)
+        if self._foldSeed is None:
+            pythonRandom.shuffle(indices)
+        else:
+            self._random.shuffle(indices)
         foldList = []
         end = 0
         for fold in range(self.folds):
@@ -173,14 +184,14 @@ class GroupFoldIterator(FoldIterator):
     """
     Separate the data into folds based on a feature of the X data.
     """
-    def __init__(self, dataList, foldFeature):
+    def __init__(self, dataList, foldFeature, randomSeed=None):
         # ignore any points with missing values in foldFeature
         keep = [i for i, v in enumerate(foldFeature) if match.nonMissing(v)]
         self.foldFeature = foldFeature.points.copy(keep, useLog=False)
         for i, data in enumerate(dataList):
             if data is not None:
                 dataList[i] = data.points.copy(keep, useLog=False)
-        super().__init__(dataList)
+        super().__init__(dataList, randomSeed)
 
     def makeFoldList(self):
         foldDict = {}
@@ -218,15 +229,16 @@ class Validator(ABC):
         self.X = X
         self.Y = Y
         self.performanceFunction = performanceFunction
-        # detectBestResult will raise exception for invalid performanceFunction
-        optimal = nimble.calculate.detectBestResult(performanceFunction)
-        self.optimal = optimal
-        self._isBest = operator.gt if optimal == 'max' else operator.lt
         # use same random seed each time
         if randomSeed is None:
             self.randomSeed = nimble.random.generateSubsidiarySeed()
         else:
             self.randomSeed = randomSeed
+        # detectBestResult will raise exception for invalid performanceFunction
+        with nimble.random.alternateControl(self.randomSeed, useLog=False):
+            optimal = nimble.calculate.detectBestResult(performanceFunction)
+        self.optimal = optimal
+        self._isBest = operator.gt if optimal == 'max' else operator.lt
         self.useLog = useLog
 
         self._results = []
@@ -281,7 +293,8 @@ class CrossValidator(Validator):
                          useLog, **kwargs)
         # a result should be added here for every fold
         self._deepResults = []
-        self._foldIterator = foldIterator([self.X, self.Y], **kwargs)
+        self._foldIterator = foldIterator([self.X, self.Y],
+                                          randomSeed=randomSeed, **kwargs)
 
     def _validate(self, arguments):
         """
@@ -603,14 +616,16 @@ class HoldoutData(HoldoutValidator):
     def _validate(self, arguments):
         if self._trainedLearner is None:
             self._trainedLearnerBase = nimble.train(
-                self.learnerName, self.X, self.Y, arguments, useLog=False)
+                self.learnerName, self.X, self.Y, arguments,
+                randomSeed=self.randomSeed, useLog=False)
             self._trainedLearner = self._trainedLearnerBase
             self._lastArguments = arguments
         elif self._updater is None:
             if self._incremental is None:
                 try:
                     self._trainedLearner.incrementalTrain(
-                        self.X, self.Y, arguments, useLog=False)
+                        self.X, self.Y, arguments,
+                        randomSeed=self.randomSeed, useLog=False)
                     self._updater = self._trainedLearner.incrementalTrain
                     self._incremental = True
                 except TypeError:
@@ -620,10 +635,12 @@ class HoldoutData(HoldoutValidator):
                 # only retrain if arguments have changed
                 if arguments != self._lastArguments:
                     self._trainedLearner.retrain(self.X, self.Y, arguments,
+                                                 randomSeed=self.randomSeed,
                                                  useLog=False)
             self._lastArguments = arguments
         elif self._incremental or arguments != self._lastArguments:
-            self._updater(self.X, self.Y, arguments, useLog=False)
+            self._updater(self.X, self.Y, arguments,
+                          randomSeed=self.randomSeed, useLog=False)
             self._lastArguments = arguments
 
         performance = self._trainedLearner.test(
@@ -673,8 +690,11 @@ class HoldoutProportion(HoldoutValidator):
             raise InvalidArgumentValue(msg)
         self.proportion = proportion
         number = int(proportion * len(X.points))
-        selection = numpyRandom.choice(range(len(X.points)), number,
-                                       replace=False)
+        if randomSeed is None:
+            source = numpyRandom
+        else:
+            source = np.random.RandomState(randomSeed)
+        selection = source.choice(range(len(X.points)), number, replace=False)
         X = X.copy()
         validateX = X.points.extract(selection, useLog=False)
         if isinstance(Y, (int, str, list)):
@@ -1739,9 +1759,11 @@ class Tuning:
         self.validator = self._validator(
             learnerName, trainX, trainY, self.performanceFunction,
             randomSeed=randomSeed, useLog=useLog, **self._validatorArgs)
-        selector = self._selector(arguments, self.validator,
-                                  **self._selectorArgs)
-        selector.validateAll()
+        with nimble.random.alternateControl(self.validator.randomSeed,
+                                            useLog=False):
+            selector = self._selector(arguments, self.validator,
+                                      **self._selectorArgs)
+            selector.validateAll()
 
         # reverse based on optimal for performanceFunction
         highestIsBest = self.validator.optimal == 'max'
-- 
2.43.0


From e336ae4963a378f28a45855e40ff2823451be07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 23/64] fix: saving a DataFrame to csv does not relabel its
 stored data

---
 nimble/core/data/dataframe.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 7292fac..e818647 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -157,22 +157,19 @@ class DataFrame(Base):
         Function to write the data in this object to a CSV file at the
         designated path.
         """
+        # separate axis labels so that the labels of this object do not change
+        toWrite = self._data.copy(deep=False)
         with open(outPath, 'w', encoding='utf-8') as outFile:
             if includeFeatureNames:
-                self._data.columns = self.features.getNames()
+                toWrite.columns = self.features.getNames()
                 if includePointNames:
                     outFile.write('pointNames')
 
             if includePointNames:
-                self._data.index = self.points.getNames()
+                toWrite.index = self.points.getNames()
 
-        self._data.to_csv(outPath, mode='a', index=includePointNames,
-                          header=includeFeatureNames)
-
-        if includePointNames:
-            self._data.index = pd.RangeIndex(len(self._data.index))
-        if includeFeatureNames:
-            self._data.columns = pd.RangeIndex(len(self._data.columns))
+        toWrite.to_csv(outPath, mode='a', index=includePointNames,
+                       header=includeFeatureNames)
 
     def _saveMTX_implementation(self, outPath, includePointNames,
                                 includeFeatureNames):
-- 
2.43.0


From c9563e24a3c2d82ca5a3f3d5c19abf2be538a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 24/64] fix: copying a List view restores its storage when the
 copy fails

---
 nimble/core/data/list.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 96fde34..b7524cd 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -684,9 +684,10 @@ class ListView(BaseView, List):
         if to not in ['List', 'pythonlist']:
             origData = self._data
             self._data = listForm
-            res = super()._copy_implementation(to)
-            self._data = origData
-            return res
+            try:
+                return super()._copy_implementation(to)
+            finally:
+                self._data = origData
 
         if to == 'List':
             ptNames = self.points._getNamesNoGeneration()
-- 
2.43.0


From 3df84d1b6971e130c2a76e2a08152dcd48fae822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 25/64] fix: plotting restores matplotlib's interactive mode

---
 nimble/core/data/_dataHelpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index ce95dca..d3d4cf1 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -952,8 +952,13 @@ def pyplotRequired(func):
             msg = 'matplotlib.pyplot is required for plotting'
             raise PackageException(msg)
         # prevent interactive plots from showing until .show() called
+        interactive = plt.isinteractive()
         plt.ioff()
-        return func(*args, **kwargs)
+        try:
+            return func(*args, **kwargs)
+        finally:
+            if interactive:
+                plt.ion()
     return wrapped
 
 def plotFigureHandling(figureID):
-- 
2.43.0


From 4965916a95fd4c71c73bfef841c4463a0ee0dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 26/64] fix: storm tuning no longer disables Path.mkdir and
 restores storm_tuner's random

---
 nimble/core/tune.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index a5f209c..051512a 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -25,12 +25,14 @@ each argument set will be measured.
 
 from abc import ABC, abstractmethod
 import itertools
+import os
 import time
 import operator
 from operator import itemgetter
 import numbers
 import copy
 import sys
+from contextlib import contextmanager
 from timeit import default_timer
 from functools import wraps
 
@@ -1260,13 +1262,6 @@ class StochasticRandomMutator(ArgumentSelector):
             msg += "hyperparameter tuning with the StoRM (Stochastic Random "
             msg += "Mutator) method"
             raise PackageException(msg)
-        # override storm_tuner randomness reproducibility
-        storm_tuner.tuner.random = pythonRandom
-        # storm_tuner saves the best trial result to a project directory and
-        # creates one if not provided. We won't support saving, so need to
-        # prevent Path.mkdir from generating the default directory
-        storm_tuner.tuner.Path.mkdir = lambda *args, **kwargs: None
-
         self.maxIterations = maxIterations
         self.timeout = timeout
         self.threshold = threshold
@@ -1330,9 +1325,15 @@ class StochasticRandomMutator(ArgumentSelector):
                     selector._bestPerf = score
                     selector.validator._best = (score, logArgs)
 
-        self.tuner = Tuner(self.validator, build_fn=_wrappedBuildFunc,
-                           init_random=initRandom, max_iters=maxIterations,
-                           randomize_axis_factor=randomizeAxisFactor)
+        # storm_tuner saves the best trial result to a project directory and
+        # creates one if not provided. We won't support saving, so provide a
+        # directory that exists to prevent generating the default directory
+        with self._controlledRandomness():
+            self.tuner = Tuner(self.validator, project_dir=os.curdir,
+                               build_fn=_wrappedBuildFunc,
+                               init_random=initRandom,
+                               max_iters=maxIterations,
+                               randomize_axis_factor=randomizeAxisFactor)
 
         self._startTime = None
         self._bestPerf = None
@@ -1348,11 +1349,24 @@ class StochasticRandomMutator(ArgumentSelector):
                          or self._bestPerf == self.threshold))):
             raise StopIteration
         # from storm_tuner.Tuner.search
-        trial = self.tuner._create_trial()
-        trial.hyperparameters.initialized = True
-        self.tuner.run_trial(trial, self)
+        with self._controlledRandomness():
+            trial = self.tuner._create_trial()
+            trial.hyperparameters.initialized = True
+            self.tuner.run_trial(trial, self)
         return self.validator._arguments[-1]
 
+    @contextmanager
+    def _controlledRandomness(self):
+        """
+        Have storm_tuner draw from nimble's random state.
+        """
+        stormRandom = storm_tuner.tuner.random
+        storm_tuner.tuner.random = pythonRandom
+        try:
+            yield
+        finally:
+            storm_tuner.tuner.random = stormRandom
+
 
 class Tune:
     """
-- 
2.43.0


From 47eb87d0c723b1ed3ed0f5a30ea0be6723d3a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:00 +0000
Subject: [PATCH 27/64] fix: a rejected merge leaves the object unchanged

---
 nimble/core/data/base.py      |  7 +++++-
 nimble/core/data/dataframe.py | 41 +++++++++++++++++++----------------
 nimble/core/data/list.py      | 28 ++++++++++++------------
 nimble/core/data/matrix.py    | 18 +++++++--------
 4 files changed, 51 insertions(+), 43 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 28f8974..c73bcf7 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4672,7 +4672,12 @@ class Base(ABC):
                 msg += f'that each {axis} is equal between the two objects'
                 raise InvalidArgumentValue(msg)
 
-            self._genericMergeFrontend(tmpOther, point, feature, onFeature)
+            try:
+                self._genericMergeFrontend(tmpOther, point, feature, onFeature)
+            except Exception:
+                # the names may have been altered above
+                lAxis.setNames(lNames, useLog=False)
+                raise
 
             # only reset names if we did not generate them
             if lNames is None and rNames is None:
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index e818647..c83a862 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -324,28 +324,30 @@ class DataFrame(Base):
             point = 'outer'
         elif point == 'intersection':
             point = 'inner'
+        # the merge can fail so the data in this object must not change yet
+        tmpDfL = self._data.copy(deep=False)
         if self.features._namesCreated():
-            self._data.columns = self.features.getNames()
+            tmpDfL.columns = self.features.getNames()
         tmpDfR = other._data.copy()
         if other.features._namesCreated():
             tmpDfR.columns = other.features.getNames()
 
         if feature == 'intersection':
-            self._data = self._data.iloc[:, matchingFtIdx[0]]
+            tmpDfL = tmpDfL.iloc[:, matchingFtIdx[0]]
             tmpDfR = tmpDfR.iloc[:, matchingFtIdx[1]]
-            matchingFtIdx[0] = list(range(self._data.shape[1]))
+            matchingFtIdx[0] = list(range(tmpDfL.shape[1]))
             matchingFtIdx[1] = list(range(tmpDfR.shape[1]))
         elif feature == "left":
             tmpDfR = tmpDfR.iloc[:, matchingFtIdx[1]]
             matchingFtIdx[1] = list(range(tmpDfR.shape[1]))
 
-        numColsL = len(self._data.columns)
+        numColsL = len(tmpDfL.columns)
         if onFeature is None:
             if (self.points._namesCreated()
                     and other.points._namesCreated()):
                 # differentiate default names between objects using integers
-                self._data.index = [i if n is None else n for i, n
-                                    in enumerate(self.points.getNames())]
+                tmpDfL.index = [i if n is None else n for i, n
+                                in enumerate(self.points.getNames())]
                 maxL = len(self.points)
                 tmpDfR.index = [i + maxL if n is None else n for i, n
                                 in enumerate(other.points.getNames())]
@@ -354,16 +356,16 @@ class DataFrame(Base):
                 idxRange = range(self.shape[0], self.shape[0] + other.shape[0])
                 tmpDfR.index = list(idxRange)
 
-            self._data = self._data.merge(tmpDfR, how=point, left_index=True,
-                                          right_index=True)
+            tmpDfL = tmpDfL.merge(tmpDfR, how=point, left_index=True,
+                                  right_index=True)
         else:
-            onIdxL = self._data.columns.get_loc(onFeature)
+            onIdxL = tmpDfL.columns.get_loc(onFeature)
             onIdxR = tmpDfR.columns.get_loc(onFeature) + numColsL
-            self._data = self._data.merge(tmpDfR, how=point, on=onFeature)
+            tmpDfL = tmpDfL.merge(tmpDfR, how=point, on=onFeature)
 
         # return labels to default after we've executed the merge
-        self._data.index = pd.RangeIndex(self._data.shape[0])
-        self._data.columns = pd.RangeIndex(self._data.shape[1])
+        tmpDfL.index = pd.RangeIndex(tmpDfL.shape[0])
+        tmpDfL.columns = pd.RangeIndex(tmpDfL.shape[1])
 
         toDrop = []
         for left, right in zip(matchingFtIdx[0], matchingFtIdx[1]):
@@ -375,23 +377,24 @@ class DataFrame(Base):
                 # one less to account for merged onFeature
                 right -= 1
 
-            matches = self._data.iloc[:, left] == self._data.iloc[:, right]
-            nansL = np.array([x != x for x in self._data.iloc[:, left]])
-            nansR = np.array([x != x for x in self._data.iloc[:, right]])
+            matches = tmpDfL.iloc[:, left] == tmpDfL.iloc[:, right]
+            nansL = np.array([x != x for x in tmpDfL.iloc[:, left]])
+            nansR = np.array([x != x for x in tmpDfL.iloc[:, right]])
             acceptableValues = matches | nansL | nansR
             if not all(acceptableValues):
                 msg = "The objects contain different values for the same "
                 msg += "feature"
                 raise InvalidArgumentValue(msg)
             if nansL.any():
-                leftNansLocInRight = self._data.iloc[:, right][nansL]
-                self._data.iloc[:, left][nansL] = leftNansLocInRight
+                leftNansLocInRight = tmpDfL.iloc[:, right][nansL]
+                tmpDfL.iloc[:, left][nansL] = leftNansLocInRight
             toDrop.append(right)
 
         if toDrop:
-            self._data.drop(toDrop, axis=1, inplace=True)
-            self._data.columns = pd.RangeIndex(self._data.shape[1])
+            tmpDfL.drop(toDrop, axis=1, inplace=True)
+            tmpDfL.columns = pd.RangeIndex(tmpDfL.shape[1])
 
+        self._data = tmpDfL
         numFeatures = (numColsL + len(tmpDfR.columns) - len(matchingFtIdx[1]))
         numPoints = len(self._data.index)
 
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index b7524cd..81efc68 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -374,6 +374,8 @@ class List(Base):
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
+        # the merge can fail so the data in this object must not change yet
+        left = [list(row) for row in self._data]
         if onFeature is not None:
             if feature in ["intersection", "left"]:
                 onFeatureIdx = self.features.getIndex(onFeature)
@@ -388,11 +390,11 @@ class List(Base):
                 else:
                     matchingFtIdx[1] = []
                 if feature == "intersection":
-                    self._data = [[row[i] for i in matchingFtIdx[0]]
-                                  for row in self._data]
+                    left = [[row[i] for i in matchingFtIdx[0]]
+                            for row in left]
                     # matching indices in left were sorted when slicing above
-                    if len(self._data) > 0:
-                        matchingFtIdx[0] = list(range(len(self._data[0])))
+                    if len(left) > 0:
+                        matchingFtIdx[0] = list(range(len(left[0])))
                     else:
                         matchingFtIdx[0] = []
             else:
@@ -403,7 +405,6 @@ class List(Base):
             # using pointNames, prepend pointNames to left and right lists
             onIdxL = 0
             onIdxR = 0
-            left = []
             right = []
 
             def ptNameGetter(obj, idx, add=0):
@@ -414,11 +415,11 @@ class List(Base):
                 return idx + add
 
             if feature == "intersection":
-                for i, pt in enumerate(self._data):
+                for i, pt in enumerate(left):
                     ptL = [ptNameGetter(self, i)]
                     intersect = [val for idx, val in enumerate(pt)
                                  if idx in matchingFtIdx[0]]
-                    self._data[i] = ptL + intersect
+                    left[i] = ptL + intersect
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
@@ -426,15 +427,15 @@ class List(Base):
                     right.append(ptR)
                 # matching indices were sorted above
                 # this also accounts for prepended column
-                if len(self._data) > 0:
-                    matchingFtIdx[0] = list(range(len(self._data[0])))
+                if len(left) > 0:
+                    matchingFtIdx[0] = list(range(len(left[0])))
                 else:
                     matchingFtIdx[0] = []
                 matchingFtIdx[1] = matchingFtIdx[0]
             elif feature == "left":
-                for i, pt in enumerate(self._data):
+                for i, pt in enumerate(left):
                     ptL = [ptNameGetter(self, i)]
-                    self._data[i] = ptL + pt
+                    left[i] = ptL + pt
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
@@ -447,9 +448,9 @@ class List(Base):
                 # this also accounts for prepended column
                 matchingFtIdx[1] = list(range(len(right[0])))
             else:
-                for i, pt in enumerate(self._data):
+                for i, pt in enumerate(left):
                     ptL = [ptNameGetter(self, i)]
-                    self._data[i] = ptL + pt
+                    left[i] = ptL + pt
                 for i, pt in enumerate(other._data):
                     maxL = len(self.points)
                     ptR = [ptNameGetter(other, i, maxL)]
@@ -459,7 +460,6 @@ class List(Base):
                 matchingFtIdx[0].insert(0, 0)
                 matchingFtIdx[1] = list(map(lambda x: x + 1, matchingFtIdx[1]))
                 matchingFtIdx[1].insert(0, 0)
-        left = self._data
 
         matched = []
         merged = []
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 7896d6f..0d2d2ad 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -246,7 +246,8 @@ class Matrix(Base):
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
-        self._data = np.array(self._data, dtype=np.object_)
+        # the merge can fail so the data in this object must not change yet
+        left = np.array(self._data, dtype=np.object_)
         otherArr = np.array(other._data, dtype=np.object_)
         if onFeature is not None:
             if feature in ["intersection", "left"]:
@@ -258,9 +259,9 @@ class Matrix(Base):
                 # matching indices in right were sorted when slicing above
                 matchingFtIdx[1] = list(range(right.shape[1]))
                 if feature == "intersection":
-                    self._data = self._data[:, matchingFtIdx[0]]
+                    left = left[:, matchingFtIdx[0]]
                     # matching indices in left were sorted when slicing above
-                    matchingFtIdx[0] = list(range(self._data.shape[1]))
+                    matchingFtIdx[0] = list(range(left.shape[1]))
             else:
                 onIdxL = self.features.getIndex(onFeature)
                 onIdxR = other.features.getIndex(onFeature)
@@ -295,16 +296,16 @@ class Matrix(Base):
                 ptsR = np.array(range(len(other.points)), dtype=np.object_)
                 ptsR = ptsR.reshape(-1, 1)
             if feature == "intersection":
-                concatL = (ptsL, self._data[:, matchingFtIdx[0]])
-                self._data = np.concatenate(concatL, axis=1)
+                concatL = (ptsL, left[:, matchingFtIdx[0]])
+                left = np.concatenate(concatL, axis=1)
                 concatR = (ptsR, otherArr[:, matchingFtIdx[1]])
                 right = np.concatenate(concatR, axis=1)
                 # matching indices were sorted when slicing above
                 # this also accounts for prepended column
-                matchingFtIdx[0] = list(range(self._data.shape[1]))
+                matchingFtIdx[0] = list(range(left.shape[1]))
                 matchingFtIdx[1] = matchingFtIdx[0]
             elif feature == "left":
-                self._data = np.concatenate((ptsL, self._data), axis=1)
+                left = np.concatenate((ptsL, left), axis=1)
                 concatR = (ptsR, otherArr[:, matchingFtIdx[1]])
                 right = np.concatenate(concatR, axis=1)
                 # account for new column in matchingFtIdx
@@ -314,14 +315,13 @@ class Matrix(Base):
                 # this also accounts for prepended column
                 matchingFtIdx[1] = list(range(right.shape[1]))
             else:
-                self._data = np.concatenate((ptsL, self._data), axis=1)
+                left = np.concatenate((ptsL, left), axis=1)
                 right = np.concatenate((ptsR, otherArr), axis=1)
                 # account for new column in matchingFtIdx
                 matchingFtIdx[0] = list(map(lambda x: x + 1, matchingFtIdx[0]))
                 matchingFtIdx[0].insert(0, 0)
                 matchingFtIdx[1] = list(map(lambda x: x + 1, matchingFtIdx[1]))
                 matchingFtIdx[1].insert(0, 0)
-        left = self._data
 
         matched = []
         merged = []
-- 
2.43.0


From 02b4f796031e2c4bdc31213d7ec08bfbeb2d1308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 28/64] fix: tar archives with links to other locations are not
 extracted

---
 nimble/core/_createHelpers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 6064fa1..86e87cb 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1815,6 +1815,11 @@ def _processArchiveFile(filename, extract):
         if any(os.path.isabs(name) or '..' in name for name in names):
             # potential security risk will not perform extraction
             return [filename]
+        # the target of a link in a tar file can also be a location elsewhere
+        if archiveObj is tarfile.TarFile and any(
+                os.path.isabs(member.linkname) or '..' in member.linkname
+                for member in fileObj.getmembers()):
+            return [filename]
 
         location = os.path.dirname(filename)
         paths = [os.path.join(location, name) for name in names]
-- 
2.43.0


From 570c5752e1681126cd5eb3b9727b2a16e28dbf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 29/64] fix: querying all settings no longer changes or exposes
 the session's changes

---
 nimble/core/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 3ff8888..7ac3f3c 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -154,7 +154,7 @@ class SessionConfiguration(object):
             # section not in changes or config file
             raise configparser.NoSectionError(section)
 
-        ret = self.changes.copy()
+        ret = {sec: opts.copy() for sec, opts in self.changes.items()}
         for cpSection in self.parser.sections():
             if cpSection not in ret:
                 ret[cpSection] = {}
-- 
2.43.0


From 262671929c98910469426845beef472df323a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 30/64] fix: setting an option back to its saved value calls
 the option's hook

---
 nimble/core/configuration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 7ac3f3c..090f7b4 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -222,6 +222,8 @@ class SessionConfiguration(object):
                 del self.changes[section][option]
                 if len(self.changes[section]) == 0:
                     del self.changes[section]
+                if self.hooks.get((section, option)) is not None:
+                    self.hooks[(section, option)](value)
                 return
         except configparser.NoSectionError:
             pass
-- 
2.43.0


From a5aa6f07afe820ae955e33ac2177e9721e97c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 31/64] fix: a failing save of the settings does not lose the
 saved settings

---
 nimble/core/configuration.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 090f7b4..7c9fdc4 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -36,6 +36,7 @@ configuration file reflects all available options.
 # Note: .ini format's option names are not case sensitive?
 
 import os
+import shutil
 import inspect
 import configparser
 import pathlib
@@ -319,8 +320,20 @@ class SessionConfiguration(object):
             if len(self.changes[section]) == 0:
                 del self.changes[section]
 
-        with open(self.path, 'w', encoding='utf-8') as configFile:
-            self.parser.write(configFile)
+        # write to a new file first so that the saved settings are not lost if
+        # writing fails
+        path = os.path.realpath(self.path)
+        newPath = f'{path}.{os.getpid()}.new'
+        try:
+            with open(newPath, 'w', encoding='utf-8') as configFile:
+                self.parser.write(configFile)
+            if os.path.exists(path):
+                shutil.copymode(path, newPath)
+            os.replace(newPath, path)
+        except BaseException:
+            if os.path.exists(newPath):
+                os.remove(newPath)
+            raise
 
 
 def loadSettings():
-- 
2.43.0


From 8db00b024fdd336d18624eac11e5ef6ed9a3ae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 32/64] fix: iterative selection takes the better of two
 improvements

---
 nimble/core/tune.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 051512a..10707e4 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1129,10 +1129,10 @@ class Iterative(ArgumentSelector):
                 highBest = False
             if lowBest and highBest: # select better of the two
                 if self.validator._isBest(perfHigh, perfLow):
-                    best[name] = argLow
+                    best[name] = argHigh
                     self._tuneIdx[name] += 1
                 else:
-                    best[name] = argHigh
+                    best[name] = argLow
                     self._tuneIdx[name] -= 1
             elif lowBest:
                 best[name] = argLow
-- 
2.43.0


From c7cebdb6aa15a94d6279fadd113a877a5b32e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 33/64] fix: an iterative Tuning with validation data can be
 copied

---
 nimble/core/tune.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 10707e4..2514978 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1843,9 +1843,12 @@ class Tuning:
         """
         A new Tuner with attributes based on the latest tuning.
         """
+        # allowIncremental is determined by the selection and validation
+        validatorArgs = {name: arg for name, arg in self._validatorArgs.items()
+                         if name != 'allowIncremental'}
         ret = Tuning(selection=self.selection, validation=self.validation,
                      performanceFunction=self.performanceFunction,
-                     **self._selectorArgs, **self._validatorArgs)
+                     **self._selectorArgs, **validatorArgs)
         ret.validator = self.validator
         ret.arguments = self.arguments
         ret._sortedResults = self._sortedResults
-- 
2.43.0


From e7e47317c27f47c59f5f296979f935822d2439df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:29 +0000
Subject: [PATCH 34/64] fix: points.append and insert refuse data of other
 dimensions

With more than two dimensions only the flattened number of features was
compared, so that a 1x4x3 or a flat 1x12 object could be appended to a
2x3x4 one and was silently reshaped.
---
 nimble/core/data/axis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index d014b87..4df9ba9 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1314,8 +1314,10 @@ class Axis(ABC):
         insertHasOffAxisNames = toInsertOffAxis._namesCreated()
         funcName = self._axis + 's.' + func
 
-        if objOffAxisLen != insertOffAxisLen:
-            if len(self._base._dims) > 2:
+        highDims = len(self._base._dims) > 2 or len(toInsert._dims) > 2
+        if objOffAxisLen != insertOffAxisLen or (
+                highDims and self._base._dims[1:] != toInsert._dims[1:]):
+            if highDims:
                 msg = f"Cannot perform {funcName} operation when data has "
                 msg += "different dimensions"
                 raise ImproperObjectAction(msg)
-- 
2.43.0


From 0e207f0cb5e5defb1d260324bcb185e12499f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:40 +0000
Subject: [PATCH 35/64] fix: Sparse refuses stretch for data of more than two
 dimensions

The override in Sparse lost the guard that Base.stretch has.
---
 nimble/core/data/sparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 4755bbb..75ab3a7 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -45,6 +45,7 @@ from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
 from ._dataHelpers import isValid2DObject
+from ._dataHelpers import limitedTo2D
 from ._dataHelpers import validateAxis
 
 @inheritDocstringsFactory(Base)
@@ -134,6 +135,7 @@ class Sparse(Base):
         return SparseFeatures(self, names)
 
     @property
+    @limitedTo2D
     def stretch(self):
         return StretchSparse(self)
 
-- 
2.43.0


From d5ca71848710b853fbfd88334321727183c32c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:35 +0000
Subject: [PATCH 36/64] fix: modulo with a Sparse dividend that contains zeros

The non-zero values of both objects were paired by position in their data
arrays; with zeros in the dividend the arrays differ in length and every
such operation failed with a ValueError.
---
 nimble/core/data/sparse.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 75ab3a7..f3fbaed 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -1188,22 +1188,20 @@ class Sparse(Base):
         """
         Uses np.mod on the nonzero values in the coo matrix.
 
-        Since 0 % any value is 0, the zero values can be ignored for
-        this operation.
+        Since 0 % any value is 0, the zero values of the dividend can be
+        ignored for this operation. The divisor is validated to contain
+        no zeros, so its values are looked up at the positions of the
+        nonzero values of the dividend.
         """
-        sortedAxis = self._sorted['axis']
-        sort = sortedAxis if sortedAxis is not None else 'point'
-        self._sortInternal(sort)
-        selfData = self._getSparseData()
         if not isinstance(other, Sparse):
             other = other.copy('Sparse')
-        other._sortInternal(sort)
-        otherData = other._getSparseData()
+        dividend = self._getSparseData()
+        divisor = other._getSparseData()
         if opName == '__rmod__':
-            ret = np.mod(otherData.data, selfData.data)
-        else:
-            ret = np.mod(selfData.data, otherData.data)
-        coo = scipy.sparse.coo_matrix((ret, (selfData.row, selfData.col)),
+            dividend, divisor = divisor, dividend
+        divisorVals = divisor.tocsr()[dividend.row, dividend.col]
+        ret = np.mod(dividend.data, np.asarray(divisorVals).ravel())
+        coo = scipy.sparse.coo_matrix((ret, (dividend.row, dividend.col)),
                                       shape=self.shape)
         coo.eliminate_zeros() # remove any zeros introduced into data
 
-- 
2.43.0


From 9e7f436e8a59030d92a1d1fdda89d572c43d95b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:13 +0000
Subject: [PATCH 37/64] fix: refuse a list of objects of which some lack the
 feature names

---
 nimble/core/_createHelpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 86e87cb..4ed7e0f 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -600,15 +600,15 @@ def _extractNamesFromListOfBase(rawData, pointNames, featureNames, copied):
             if featureNames is True and ftNames != fNames:
                 msg = 'All objects must have identical feature names. '
                 if ftNames is None:
-                    msg += 'No feature names were detected in the first  '
-                    msg += 'object but the object at index {} has names'
+                    msg += 'No feature names were detected in the first '
+                    msg += f'object but the object at index {i} has names'
                 elif fNames is None:
                     msg += 'No feature names were detected in the object at '
-                    msg += 'index {}'
+                    msg += f'index {i}'
                 else:
                     msg += f'The feature names at index {i} are different '
                     msg += 'than those in the first feature'
-                    raise InvalidArgumentValue(msg)
+                raise InvalidArgumentValue(msg)
 
         if pointNames is True and ptNames and len(ptNames) == numNoPtName:
             msg = 'pointNames cannot be True when none of the objects '
-- 
2.43.0


From b13959d62d7921c7e1b789e8a130cf68e591fad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:13 +0000
Subject: [PATCH 38/64] fix: raise the prepared error when tuning is missing
 for Tune arguments

---
 nimble/core/learn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index 949f571..c69a2d8 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -811,6 +811,7 @@ def train(learnerName, trainX, trainY=None, arguments=None,
                 msg += 'tuning. It must be set to a nimble.Tuning instance or '
                 msg += 'can be a performanceFunction if the other Tuning '
                 msg += 'defaults are satisfactory'
+                raise InvalidArgumentValue(msg)
             tuning = Tuning(performanceFunction=tuning)
         tuning.tune(
             learnerName, trainX, trainY, arguments, None, randomSeed, tuneLog)
-- 
2.43.0


From 3345e38df00bc86e2f2a1e363687117eccc6cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:13 +0000
Subject: [PATCH 39/64] fix: Tune refuses values and end together

---
 nimble/core/tune.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index 2514978..fab5860 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1419,7 +1419,8 @@ class Tune:
             msg = 'Either values or end must not be None'
             raise InvalidArgumentValueCombination(msg)
         if values is not None and end is not None:
-            msg = "If values is provided, "
+            msg = "If values is provided, end must be None"
+            raise InvalidArgumentValueCombination(msg)
         self._values = values
         self._start = start
         self._end = end
-- 
2.43.0


From ad1e448565a07046f12775131f89bbb1cf7ca65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:13 +0000
Subject: [PATCH 40/64] fix: validate range limits for printing

---
 nimble/core/data/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index c73bcf7..7bfe52e 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2687,8 +2687,9 @@ class Base(ABC):
         if target.step != 1:
             msg = "range inputs for printing must have a step of 1, not "
             msg += f"{target.step}"
+            raise InvalidArgumentValue(msg)
 
-        desired = (target.start, target.stop)
+        desired = [target.start, target.stop]
         if desired[0] < 0:
             desired[0] = 0
         if desired[1] > axisLength:
-- 
2.43.0


From 6cdc1fbaf3cac7775de8663eea85f3a8b2d49cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:13 +0000
Subject: [PATCH 41/64] fix: keep the first part of two error messages

---
 nimble/core/data/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 7bfe52e..f76dbc7 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -455,7 +455,7 @@ class Base(ABC):
             return ElementIterator1D(self)
 
         msg = "Cannot iterate over two-dimensional objects because the "
-        msg = "iteration order is arbitrary. Try the iterateElements() method."
+        msg += "iteration order is arbitrary. Try the iterateElements() method."
         raise ImproperObjectAction(msg)
 
     def __bool__(self):
@@ -5678,7 +5678,7 @@ class Base(ABC):
             raise InvalidArgumentValue(msg)
         if 'shape' in kwargs:
             msg = 'Cannot provide "shape" keyword, the shape is determined by '
-            msg = 'other._dims'
+            msg += 'other._dims'
             raise InvalidArgumentValue(msg)
         if hasattr(other, '_source'): # view
             other = other.copy()
-- 
2.43.0


From 5e89cc69df3bb45b4d905727fea71991c08e722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:37 +0000
Subject: [PATCH 42/64] fix: report the refused arguments for pickled data

---
 nimble/core/_createHelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 4ed7e0f..7395cf5 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2229,13 +2229,14 @@ def createDataFromFile(
 
     try:
         ret = pickle.loads(content)
+    except Exception: # pylint: disable=broad-except
+        ret = None # not a pickled object
+    if isAllowedRaw(ret):
         return initDataObject(
             ret, pointNames, featureNames, returnType, name, convertToType,
             keepPoints, keepFeatures, treatAsMissing=treatAsMissing,
             replaceMissingWith=replaceMissingWith, rowsArePoints=rowsArePoints,
             copyData=None)
-    except Exception: # pylint: disable=broad-except
-        pass
 
     # check if need to decompress or extract file
     with BytesIO(content) as toCheck:
-- 
2.43.0


From 66b2a1c03fc67b82e1df0a99e4e55b4479befc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:19 +0000
Subject: [PATCH 43/64] fix: showLog refuses levelOfDetail None with its own
 error

---
 nimble/core/logger/session_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 2c0a2e0..c446cd1 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -159,7 +159,7 @@ def showLog(levelOfDetail=2, leastSessionsAgo=0, mostSessionsAgo=1,
     --------
     sessions, entry, entries, database, query, record, history, display
     """
-    if levelOfDetail < 1 or levelOfDetail > 3 or levelOfDetail is None:
+    if levelOfDetail is None or levelOfDetail < 1 or levelOfDetail > 3:
         msg = "levelOfDetail must be 1, 2, or 3"
         raise InvalidArgumentValue(msg)
     if (startDate is not None
-- 
2.43.0


From 1704a8e47f05eba3b952e39ef8319edfbe9dfbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 44/64] fix: importing nimble does not require scipy (isNumeric
 used it unguarded)

---
 nimble/core/data/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index f76dbc7..79d8ecf 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -34,8 +34,6 @@ import shutil
 import re
 
 import numpy as np
-from scipy.sparse import coo_matrix
-
 
 import nimble
 from nimble import match
@@ -44,7 +42,7 @@ from nimble.exceptions import ImproperObjectAction, PackageException
 from nimble.exceptions import InvalidArgumentValueCombination
 from nimble.core.logger import handleLogging, LogID
 from nimble.match import QueryString
-from nimble._utility import cloudpickle, h5py, plt, IPython, pd
+from nimble._utility import cloudpickle, h5py, plt, IPython, pd, scipy
 from nimble._utility import isDatetime
 from nimble._utility import tableString, prettyListString, quoteStrings
 from nimble._utility import _getStatsFunction, acceptedStats
@@ -117,7 +115,8 @@ def isNumeric(base):
         return all(is_numeric_column(column) for column in base._data.dtypes)
     elif isinstance(base._data, np.ndarray):
         return np.issubdtype(base._data.dtype, np.number)
-    elif isinstance(base._data, coo_matrix):
+    elif (scipy.nimbleAccessible()
+          and isinstance(base._data, scipy.sparse.coo_matrix)):
         return base._data.dtype.kind in 'ifc'
     elif isinstance(base._data, list):
         return checkNumericListType(base._data)
-- 
2.43.0


From 8243f0dd7200316f6a250a199229fe9bd224091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 45/64] fix: structured numpy arrays report that pandas is
 required

---
 nimble/core/_createHelpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 7395cf5..f95fe4c 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -298,6 +298,10 @@ def extractNamesFromNumpy(data, pnamesID, fnamesID, copied):
  
     # Special consideration for Structured Numpy arrays
     def _convertStructuredNumpyToDataFrame(data):
+        if not pd.nimbleAccessible():
+            msg = 'pandas must be installed to use a structured numpy array '
+            msg += 'with values that are not all numeric'
+            raise PackageException(msg)
         data = pd.DataFrame(data, columns=retFNames)
         fnamesID = True
         return extractNamesFromPdDataFrame(data, pnamesID, fnamesID, copied)
-- 
2.43.0


From e3eb9d73db54b9b4d74ba451984be9ec56428afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:14 +0000
Subject: [PATCH 46/64] fix: OneVsOne training with labels identified by index

The labels of each pair were put back as the last feature, so when the
labels were any other feature the points were appended with misaligned
features and every later pair was trained on wrong data.
---
 nimble/core/interfaces/universal_interface.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index de08a6e..3fdc64a 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -245,9 +245,12 @@ class UniversalInterface(metaclass=abc.ABCMeta):
                 # and trialResult != 'OneVsOne': ?
                 # want data and labels together in one object for this method
                 trainX = trainX.copy()
-                if isinstance(trainY, nimble.core.data.Base):
-                    trainX.features.append(trainY, useLog=False)
-                    trainY = len(trainX.features) - 1
+                # the labels must be the last feature since the labels of
+                # each pair are put back after the other features
+                if not isinstance(trainY, nimble.core.data.Base):
+                    trainY = trainX.features.extract(trainY, useLog=False)
+                trainX.features.append(trainY, useLog=False)
+                trainY = len(trainX.features) - 1
 
                 # Get set of unique class labels, then generate list of all
                 # 2-combinations of class labels
-- 
2.43.0


From ebb66b8e842f55bde606ba9526810fbbe67f44db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:14 +0000
Subject: [PATCH 47/64] fix: numpy integers identify labels in validators as in
 train

---
 nimble/core/tune.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index fab5860..960168e 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -221,7 +221,7 @@ class Validator(ABC):
 
         self.learnerName = learnerName
 
-        if isinstance(Y, (int, str, list)):
+        if isinstance(Y, (int, str, list, np.integer)):
             X = X.copy()
             Y = X.features.extract(Y, useLog=False)
 
@@ -474,12 +474,12 @@ class LeaveOneGroupOut(CrossValidator):
             msg += "group out validation"
             raise InvalidArgumentValue(msg)
         self.foldFeature = foldFeature
-        if isinstance(foldFeature, (str, int, list)):
+        if isinstance(foldFeature, (str, int, list, np.integer)):
             if foldFeature == Y:
                 msg = "foldFeature and Y cannot be the same feature"
                 raise InvalidArgumentValueCombination(msg)
             foldFeature = X.features[foldFeature]
-            if isinstance(Y, (str, int, list)):
+            if isinstance(Y, (str, int, list, np.integer)):
                 X = X.copy()
                 Y = X.features.extract(Y, useLog=False)
         elif len(foldFeature.points) != len(X.points):
@@ -505,11 +505,11 @@ class HoldoutValidator(Validator):
             msg = "validateX cannot be None"
             raise InvalidArgumentValue(msg)
         if validateY is None: # use Y value if an identifier
-            if not isinstance(Y, (int, str, list)):
+            if not isinstance(Y, (int, str, list, np.integer)):
                 msg = "No data provided for validateY"
                 raise InvalidArgumentValue(msg)
             validateY = Y
-        if isinstance(validateY, (int, str, list)):
+        if isinstance(validateY, (int, str, list, np.integer)):
             validateX = validateX.copy()
             validateY = validateX.features.extract(validateY, useLog=False)
 
@@ -699,7 +699,7 @@ class HoldoutProportion(HoldoutValidator):
         selection = source.choice(range(len(X.points)), number, replace=False)
         X = X.copy()
         validateX = X.points.extract(selection, useLog=False)
-        if isinstance(Y, (int, str, list)):
+        if isinstance(Y, (int, str, list, np.integer)):
             validateY = Y
         else:
             Y = Y.copy()
-- 
2.43.0


From 871439040f4904c0da978eaf2c7ee3d802e922b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:15 +0000
Subject: [PATCH 48/64] fix: normalizeData accepts the documented trainY
 identifiers

The label feature was separated for training but not for applying, so
the call always failed.
---
 nimble/core/learn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index c69a2d8..adfd966 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -492,6 +492,10 @@ def normalizeData(learnerName, trainX, trainY=None, testX=None, arguments=None,
     if trackEntry.isEntryPoint:
         validateLearningArguments(trainX, trainY, testX)
     merged = mergeArguments(arguments, kwarguments)
+    # labels are not part of the data that is normalized
+    if isinstance(trainY, (str, int, np.integer)):
+        trainX = trainX.copy()
+        trainY = trainX.features.extract(trainY, useLog=False)
 
     tl = train(learnerName, trainX, trainY, arguments=merged,
                randomSeed=randomSeed, useLog=False)
-- 
2.43.0


From 3b0e9c2ae3acb42e2d713f2e7fc04d1f109805e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:59 +0000
Subject: [PATCH 49/64] fix: trainAndTest refuses testX without testY when
 trainY is an object (it compared predictions of testX with the labels of
 trainX)

---
 nimble/core/learn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index adfd966..9e41fbe 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -31,6 +31,7 @@ import nimble
 from nimble import match
 from nimble.exceptions import InvalidArgumentValue, ImproperObjectAction
 from nimble.exceptions import InvalidArgumentType
+from nimble.exceptions import InvalidArgumentValueCombination
 from nimble._utility import mergeArguments, tableString
 from nimble.core.logger import handleLogging
 from nimble.core._learnHelpers import findBestInterface
@@ -1023,6 +1024,11 @@ def trainAndApply(learnerName, trainX, trainY=None, testX=None, arguments=None,
 def _trainAndTestBackend(performanceFunction, learnerName, trainX, trainY,
                          testX, testY, arguments, multiClassStrategy,
                          randomSeed, tuning, useLog, **kwarguments):
+    if (testX is not None and testY is None
+            and isinstance(trainY, nimble.core.data.Base)):
+        msg = "testY is required when testX is provided and the labels in "
+        msg += "trainY are a separate object"
+        raise InvalidArgumentValueCombination(msg)
     merged = mergeArguments(arguments, kwarguments)
     if any(isinstance(arg, Tune) for arg in merged.values()):
         if tuning is None:
-- 
2.43.0


From 6b04ccdd1e78c560c16437fd88243ff8f80457f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:22 +0000
Subject: [PATCH 50/64] fix: incrementalTrain separates identified labels and
 validates its arguments as train does

---
 nimble/core/interfaces/universal_interface.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 3fdc64a..23e9841 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1513,13 +1513,22 @@ class TrainedLearner(object):
             False, do **NOT** send to the logger, regardless of the
             global option.
         """
-        validateLearningArguments(trainX, trainY)
+        validateLearningArguments(trainX, trainY, arguments=arguments)
         randomSeed = self._interface._getValidSeed(randomSeed)
+        merged = dict(self.arguments or {})
         if arguments is not None:
-            self.arguments.update(arguments)
+            merged.update(arguments)
+        self._interface._validateLearnerArgumentValues(self.learnerName,
+                                                       merged)
+
+        # separate training data / labels if needed
+        if isinstance(trainY, (str, int, np.integer)):
+            trainX = trainX.copy()
+            trainY = trainX.features.extract(toExtract=trainY, useLog=False)
+
         transformed = self._interface._inputTransformation(
             self.learnerName, trainX, trainY, None, self._randomSeed,
-            self.arguments, self._customDict)
+            merged, self._customDict)
         transformedTrainX = transformed[0]
         transformedTrainY = transformed[1]
         transformedArguments = transformed[3]
@@ -1527,6 +1536,7 @@ class TrainedLearner(object):
             self.learnerName, self._backend, transformedTrainX,
             transformedTrainY, transformedArguments, randomSeed,
             self._customDict)
+        self._arguments = merged
 
         handleLogging(useLog, 'TLrun', self, 'incrementalTrain',
                       self.arguments, trainX, trainY,
-- 
2.43.0


From d63eb8221e2398f8b2ce7879c5ddd50b5aefad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:22 +0000
Subject: [PATCH 51/64] fix: normalizeData checks the type of arguments as the
 other learning functions do

---
 nimble/core/learn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index 9e41fbe..27ee5f9 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -491,7 +491,7 @@ def normalizeData(learnerName, trainX, trainY=None, testX=None, arguments=None,
     """
     startTime = time.process_time()
     if trackEntry.isEntryPoint:
-        validateLearningArguments(trainX, trainY, testX)
+        validateLearningArguments(trainX, trainY, testX, arguments=arguments)
     merged = mergeArguments(arguments, kwarguments)
     # labels are not part of the data that is normalized
     if isinstance(trainY, (str, int, np.integer)):
-- 
2.43.0


From 85112b7327c92baad24db83c796445ebb1033885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:58 +0000
Subject: [PATCH 52/64] fix: learning options of the wrong type are refused by
 their checks (AttributeError)

---
 nimble/core/_learnHelpers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nimble/core/_learnHelpers.py b/nimble/core/_learnHelpers.py
index ba67f7f..1be0d76 100644
--- a/nimble/core/_learnHelpers.py
+++ b/nimble/core/_learnHelpers.py
@@ -606,6 +606,9 @@ def _validTestData(testX, testY):
             msg += "of the feature containing labels in testX"
             raise InvalidArgumentType(msg)
         if isinstance(testY, Base):
+            if testX is None:
+                msg = "testX is required when testY is a Data object"
+                raise InvalidArgumentValueCombination(msg)
             if len(testY.points) != len(testX.points):
                 msg = "If testY is a Data object, then it must have the same "
                 msg += "number of points as testX"
@@ -628,7 +631,8 @@ def _validScoreMode(scoreMode):
     accepted value.
     """
     if scoreMode is not None:
-        if scoreMode.lower() not in ['bestscore', 'allscores']:
+        if (not isinstance(scoreMode, str)
+                or scoreMode.lower() not in ['bestscore', 'allscores']):
             msg = "scoreMode may only be None, 'bestScore', or 'allScores'"
             raise InvalidArgumentValue(msg)
 
@@ -639,8 +643,9 @@ def _validMultiClassStrategy(multiClassStrategy):
     etc. is an accepted value.
     """
     if multiClassStrategy is not None:
-        multiClassStrategy = multiClassStrategy.lower()
-        if multiClassStrategy not in ['default', 'onevsall', 'onevsone']:
+        accepted = ['default', 'onevsall', 'onevsone']
+        if (not isinstance(multiClassStrategy, str)
+                or multiClassStrategy.lower() not in accepted):
             msg = "multiClassStrategy may be 'default', 'OneVsAll', or "
             msg += "'OneVsOne'"
             raise InvalidArgumentValue(msg)
-- 
2.43.0


From 9bb65dec90bd18e23ddb58e062d720d6d6b471e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:14 +0000
Subject: [PATCH 53/64] fix: multiClassStrategy and scoreMode take effect in
 every accepted letter case

---
 nimble/core/interfaces/universal_interface.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 23e9841..9fc88f9 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -196,6 +196,10 @@ class UniversalInterface(metaclass=abc.ABCMeta):
         self._confirmValidLearner(learnerName)
         randomSeed = self._getValidSeed(randomSeed)
 
+        # accepted in any letter case
+        if multiClassStrategy is not None:
+            multiClassStrategy = multiClassStrategy.lower()
+
         if multiClassStrategy != 'default':
             # TODO reevaluate use of checkClassificationStrategy, the if
             # statements below expect a string output but it looks to output
@@ -206,7 +210,7 @@ class UniversalInterface(metaclass=abc.ABCMeta):
             # trialResult = checkClassificationStrategy(self, learnerName,
             #                                           arguments)
             #1 VS All
-            if multiClassStrategy == 'OneVsAll':
+            if multiClassStrategy == 'onevsall':
                 # and trialResult != 'OneVsAll':?
                 #Remove true labels from from training set, if not separated
                 if isinstance(trainY, (str, numbers.Integral)):
@@ -241,7 +245,7 @@ class UniversalInterface(metaclass=abc.ABCMeta):
                 return TrainedLearners(trainedLearners, 'OneVsAll', labelSet)
 
             #1 VS 1
-            if multiClassStrategy == 'OneVsOne':
+            if multiClassStrategy == 'onevsone':
                 # and trialResult != 'OneVsOne': ?
                 # want data and labels together in one object for this method
                 trainX = trainX.copy()
@@ -1246,6 +1250,10 @@ class TrainedLearner(object):
                                      has2dOutput=self._has2dOutput)
         self._validTestData(testX)
 
+        # accepted in any letter case
+        if scoreMode is not None:
+            scoreMode = {'bestscore': 'bestScore', 'allscores': 'allScores'
+                         }.get(scoreMode.lower(), scoreMode)
         mergedArguments = mergeArguments(arguments, kwarguments)
 
         # input transformation
-- 
2.43.0


From e7850856fe31c2a1cc5457750fc8bef2b4997b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:14 +0000
Subject: [PATCH 54/64] fix: learners trained with a multiclass strategy
 validate the arguments of apply before applying

---
 nimble/core/interfaces/universal_interface.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 9fc88f9..a906113 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1753,6 +1753,7 @@ class TrainedLearners(TrainedLearner):
                          tuningResults, trainXShape, trainYNames, randomSeed)
 
     @captureOutput
+    @trackEntry
     def apply(self, testX, arguments=None, scoreMode=None, *, useLog=None,
               **kwarguments):
         """
@@ -1823,6 +1824,10 @@ class TrainedLearners(TrainedLearner):
         TODO
         """
         startTime = time.process_time()
+        if trackEntry.isEntryPoint:
+            validateTestingArguments(testX, arguments=arguments,
+                                     scoreMode=scoreMode,
+                                     has2dOutput=self._has2dOutput)
         mergedArguments = mergeArguments(arguments, kwarguments)
 
         ret = self._applyStrategy(testX, mergedArguments, scoreMode)
-- 
2.43.0


From d67c468bfa6f2fb0cba6fa8b0be6bd237adfd01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:24 +0000
Subject: [PATCH 55/64] fix: getScores of custom learners uses the arguments it
 is given

---
 nimble/core/interfaces/custom_learner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index f4147a1..8ca587d 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -126,7 +126,11 @@ class CustomLearnerInterface(UniversalInterface):
 
     def _getScores(self, learnerName, learner, testX, newArguments,
                    storedArguments, customDict):
-        return learner.getScores(testX)
+        # ignore self and testX params
+        backendArgs = inspectArguments(type(learner).getScores)[0][2:]
+        scoreArgs = self._getMethodArguments(backendArgs, newArguments,
+                                             storedArguments)
+        return learner.getScores(testX, **scoreArgs)
 
     def _getScoresOrder(self, learner):
         if learner.learnerType == 'classification':
-- 
2.43.0


From 029e7b9e204da59d05ae695ab1eb0432db46da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:24 +0000
Subject: [PATCH 56/64] fix: custom learners accept arguments for apply when
 training

---
 nimble/core/interfaces/custom_learner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index 8ca587d..6c704c3 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -162,8 +162,12 @@ class CustomLearnerInterface(UniversalInterface):
             labels = dtypeConvert(trainY.copy(to='numpyarray'))
             ret.labelList = np.unique(labels)
 
+        # the other arguments are for apply
+        trainNames = ret.getTrainParameters()
+        trainArgs = {name: value for name, value in arguments.items()
+                     if name in trainNames}
         with nimble.random.alternateControl(randomSeed, useLog=False):
-            ret.train(trainX, trainY, **arguments)
+            ret.train(trainX, trainY, **trainArgs)
 
         return ret
 
-- 
2.43.0


From 62b3ac7d072a81621042dda02c91cf6b22302208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:50 +0000
Subject: [PATCH 57/64] fix: absolute value keeps the point names when features
 have none

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 79d8ecf..f65cc25 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5216,7 +5216,7 @@ class Base(ABC):
         if self.features._namesCreated():
             ret.features.setNames(self.features.getNames(), useLog=False)
         else:
-            ret.points.setNames(None, useLog=False)
+            ret.features.setNames(None, useLog=False)
 
         ret._name = None
         ret._absPath = self.absolutePath
-- 
2.43.0


From 589fd8ec6ff44fd0d6779e0408e8280853e1003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:50 +0000
Subject: [PATCH 58/64] fix: replaceRectangle takes the last feature from the
 features of replaceWith

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index f65cc25..d44fe78 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3968,7 +3968,7 @@ class Base(ABC):
                         start=pointStart, end=pointEnd, rangeLen=prange)
                     raise InvalidArgumentValueCombination(msg)
             if featureEnd is None:
-                feIndex = fsIndex + len(replaceWith.points) - 1
+                feIndex = fsIndex + len(replaceWith.features) - 1
             else:
                 feIndex = self.features.getIndex(featureEnd)
                 frange = (feIndex - fsIndex) + 1
-- 
2.43.0


From bd0a4ff4d6035e1bd39362c0702ed9564a46e674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:29 +0000
Subject: [PATCH 59/64] fix: features.mode accepts groupByFeature under its
 documented name

---
 nimble/core/data/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 223abcc..33ccf54 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2971,7 +2971,7 @@ class Features(ABC):
    
     
     @limitedTo2D
-    def mode(self,grouByFeature=None):
+    def mode(self, groupByFeature=None):
         """
         Returns a nimble object representing the mode along 
         the features axis.
@@ -2994,7 +2994,7 @@ class Features(ABC):
          mode │ 0  2  2
         >
         """
-        return self._mode(grouByFeature)
+        return self._mode(groupByFeature)
     
     @limitedTo2D
     def sum(self, groupByFeature=None):
-- 
2.43.0


From 4c8765962ec3f7e7e1d6d6971559de9d1b43d79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:59 +0000
Subject: [PATCH 60/64] fix: a refused inplace binary operation leaves the
 object unchanged

---
 nimble/core/data/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index d44fe78..c5ac5c5 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -24,6 +24,7 @@ common functions.
 # TODO who sorts inputs to derived implementations?
 
 import sys
+import copy
 import math
 import numbers
 import itertools
@@ -5409,7 +5410,15 @@ class Base(ABC):
             conversionKwargs['allowBool'] = False
 
         if opName.startswith('__i'):
-            obj = self
+            # the conversion below replaces the data of obj, it must not
+            # remain in this object if the operation is refused
+            obj = self.__class__(
+                data=copy.copy(self._data), shape=self._dims.copy(),
+                pointNames=self.points._getNamesNoGeneration(),
+                featureNames=self.features._getNamesNoGeneration(),
+                reuseData=True)
+            if other is self:
+                other = obj
         else:
             obj = self.copy()
 
@@ -5456,7 +5465,8 @@ class Base(ABC):
 
         nameSource = 'self' if opName.startswith('__i') else None
         pathSource = 'merge' if otherBase else 'self'
-        binaryOpNamePathMerge(obj, other, ret, nameSource, pathSource)
+        caller = self if opName.startswith('__i') else obj
+        binaryOpNamePathMerge(caller, other, ret, nameSource, pathSource)
         return ret
 
 
-- 
2.43.0


From 942f168308e9d0956ee9570f43df12781f72f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:57 +0000
Subject: [PATCH 61/64] fix: transform modifies the data only after every
 returned value was validated

---
 nimble/core/data/dataframeAxis.py | 12 ++++++++++++
 nimble/core/data/listAxis.py      | 12 ++++++++++--
 nimble/core/data/matrixAxis.py    |  8 ++++++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/dataframeAxis.py b/nimble/core/data/dataframeAxis.py
index 5074e0c..1b9bb28 100644
--- a/nimble/core/data/dataframeAxis.py
+++ b/nimble/core/data/dataframeAxis.py
@@ -21,6 +21,7 @@ operations on a nimble DataFrame object.
 """
 
 from abc import ABCMeta, abstractmethod
+import copy
 import numbers
 
 import numpy as np
@@ -185,6 +186,8 @@ class DataFramePoints(DataFrameAxis, Points):
                                      axis=0, ignore_index=True)
 
     def _transform_implementation(self, function, limitTo):
+        # all returns are validated before the data is modified
+        currRets = []
         for i, pt in enumerate(self):
             if limitTo is not None and i not in limitTo:
                 continue
@@ -194,7 +197,9 @@ class DataFramePoints(DataFrameAxis, Points):
             # given nimble objects or 2d arrays
             if isinstance(currRet, Base):
                 currRet = currRet.copy("numpyarray", outputAs1D=True)
+            currRets.append((i, copy.copy(currRet)))
 
+        for i, currRet in currRets:
             datetimeCols = [i for i, dt in enumerate(self._base._data.dtypes)
                             if dt.type == np.datetime64]
             for col in datetimeCols:
@@ -285,11 +290,18 @@ class DataFrameFeatures(DataFrameAxis, Features):
                                      axis=1, ignore_index=True)
 
     def _transform_implementation(self, function, limitTo):
+        # all returns are validated before the data is modified
+        currRets = []
         for j, f in enumerate(self):
             if limitTo is not None and j not in limitTo:
                 continue
             currRet = function(f)
+            if not isinstance(currRet, Base):
+                # the function could reuse the same container
+                currRet = copy.copy(currRet)
+            currRets.append((j, currRet))
 
+        for j, currRet in currRets:
             self._base._data[j] = currRet
 
 
diff --git a/nimble/core/data/listAxis.py b/nimble/core/data/listAxis.py
index c27894f..452dd6a 100644
--- a/nimble/core/data/listAxis.py
+++ b/nimble/core/data/listAxis.py
@@ -197,12 +197,15 @@ class ListPoints(ListAxis, Points):
         self._base._data = allData
 
     def _transform_implementation(self, function, limitTo):
+        # all returns are validated before the data is modified
+        currRets = []
         for i, pt in enumerate(self):
             if limitTo is not None and i not in limitTo:
                 continue
-            currRet = function(pt)
+            currRets.append((i, list(function(pt))))
 
-            self._base._data[i] = list(currRet)
+        for i, currRet in currRets:
+            self._base._data[i] = currRet
 
     ################################
     # Higher Order implementations #
@@ -290,11 +293,16 @@ class ListFeatures(ListAxis, Features):
         self._base._numFeatures += len(toInsert.features)
 
     def _transform_implementation(self, function, limitTo):
+        # all returns are validated before the data is modified
+        currRets = []
         for j, f in enumerate(self):
             if limitTo is not None and j not in limitTo:
                 continue
             currRet = function(f)
+            numPts = len(self._base.points)
+            currRets.append((j, [currRet[i] for i in range(numPts)]))
 
+        for j, currRet in currRets:
             for i in range(len(self._base.points)):
                 self._base._data[i][j] = currRet[i]
 
diff --git a/nimble/core/data/matrixAxis.py b/nimble/core/data/matrixAxis.py
index 4b3c33a..898206b 100644
--- a/nimble/core/data/matrixAxis.py
+++ b/nimble/core/data/matrixAxis.py
@@ -178,11 +178,15 @@ class MatrixPoints(MatrixAxis, Points):
             (startData, toInsert._data, endData), 0)
 
     def _transform_implementation(self, function, limitTo):
+        # all returns are validated before the data is modified
+        retArrays = []
         for i, pt in enumerate(self):
             if limitTo is not None and i not in limitTo:
                 continue
             currRet = function(pt)
             retArray = np.array(currRet, dtype=function.convertType)
+            retArrays.append((i, retArray))
+        for i, retArray in retArrays:
             self._convertBaseDtype(retArray.dtype)
             self._base._data[i, :] = retArray
         # if transformations applied to all data and function.convertType is
@@ -253,11 +257,15 @@ class MatrixFeatures(MatrixAxis, Features):
             (startData, toInsert._data, endData), 1)
 
     def _transform_implementation(self, function, limitTo):
+        # all returns are validated before the data is modified
+        retArrays = []
         for j, f in enumerate(self):
             if limitTo is not None and j not in limitTo:
                 continue
             currRet = function(f)
             retArray = np.array(currRet, dtype=function.convertType)
+            retArrays.append((j, retArray))
+        for j, retArray in retArrays:
             self._convertBaseDtype(retArray.dtype)
             self._base._data[:, j] = retArray
         # if transformations applied to all data and function.convertType is
-- 
2.43.0


From e0e099bcd63bd8a142d63de9b485bf4a13573a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:31 +0000
Subject: [PATCH 62/64] fix: sort identifies every given identifier before
 reordering anything

---
 nimble/core/data/axis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 4df9ba9..4cb8463 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1263,6 +1263,10 @@ class Axis(ABC):
 
     def _sortByIdentifier(self, index, reverse):
         if isinstance(index, list):
+            # identify all before any sorting, so that nothing has been
+            # reordered when one of them is not valid
+            offAxis = self._base._getAxis(self._offAxis)
+            index = [offAxis._getIndex(i, allowFloats=True) for i in index]
             for idx in index[::-1]:
                 self._sortByIdentifier(idx, reverse)
         else:
-- 
2.43.0


From 0cbd10d740463f94a0cf92a9017a9467919ba186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:05 +0000
Subject: [PATCH 63/64] fix: refused new feature names leave the object
 unchanged when splitting or combining features

---
 nimble/core/data/axis.py     | 86 ++++++++++++++++++++----------------
 nimble/core/data/features.py | 11 +++--
 nimble/core/data/points.py   | 36 ++++++++-------
 3 files changed, 74 insertions(+), 59 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 4cb8463..d4c8a56 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -218,45 +218,7 @@ class Axis(ABC):
         count = len(self)
         # Case: oldIdentifiers not specified, so assignments must be changing ALL names
         if oldIdentifiers is None:
-            if len(assignments) != count:
-                msg = "assignments may only be an ordered container type, with as "
-                msg += "many entries (" + str(len(assignments)) + ") as this axis "
-                msg += "is long (" + str(count) + ")"
-                raise InvalidArgumentValue(msg)
-            if count == 0:
-                self.names = {}
-                self.namesInverse = []
-                return
-            if not isinstance(assignments, dict):
-                # convert to dict so we only write the checking code once
-                # validation will occur when generating the inverse list
-                names = {}
-                for i, name in enumerate(assignments):
-                    if name in names:
-                        msg = "Cannot input duplicate names: " + str(name)
-                        raise InvalidArgumentValue(msg)
-                    if name is not None:
-                        names[name] = i
-            else:
-                # have to copy the input, could be from another object
-                names = copy.deepcopy(assignments)
-                if None in names:
-                    del names[None]
-            # at this point, the input must be a dict
-            # check input before assigning to attributes
-            reverseMap = [None] * len(self)
-            for name, value in names.items():
-                if not isinstance(name, str):
-                    raise InvalidArgumentValue("Names must be strings")
-                if not isinstance(value, int):
-                    raise InvalidArgumentValue("Indices must be integers")
-                if value < 0 or value >= count:
-                    msg = "Indices must be within 0 to "
-                    msg += "len(self." + self._axis + "s) - 1"
-                    raise InvalidArgumentValue(msg)
-
-                reverseMap[value] = name
-
+            names, reverseMap = self._validateAllNames(assignments, count)
             self.names = names
             self.namesInverse = reverseMap # needs to accomodate all inverses, including incomplete dicts
         # Case: A single name, or subset of names to replace have been specified
@@ -318,6 +280,52 @@ class Axis(ABC):
 
                 
 
+    def _validateAllNames(self, assignments, count):
+        """
+        Validate names for every member of this axis, when it has count
+        members. Returns the names as a dict mapping each name to its
+        index and as a list of the name at each index. An operation that
+        also changes the axis calls this before the first modification.
+        """
+        if len(assignments) != count:
+            msg = "assignments may only be an ordered container type, with as "
+            msg += "many entries (" + str(len(assignments)) + ") as this axis "
+            msg += "is long (" + str(count) + ")"
+            raise InvalidArgumentValue(msg)
+        if count == 0:
+            return {}, []
+        if not isinstance(assignments, dict):
+            # convert to dict so we only write the checking code once
+            # validation will occur when generating the inverse list
+            names = {}
+            for i, name in enumerate(assignments):
+                if name in names:
+                    msg = "Cannot input duplicate names: " + str(name)
+                    raise InvalidArgumentValue(msg)
+                if name is not None:
+                    names[name] = i
+        else:
+            # have to copy the input, could be from another object
+            names = copy.deepcopy(assignments)
+            if None in names:
+                del names[None]
+        # at this point, the input must be a dict
+        # check input before assigning to attributes
+        reverseMap = [None] * count
+        for name, value in names.items():
+            if not isinstance(name, str):
+                raise InvalidArgumentValue("Names must be strings")
+            if not isinstance(value, int):
+                raise InvalidArgumentValue("Indices must be integers")
+            if value < 0 or value >= count:
+                msg = "Indices must be within 0 to "
+                msg += "len(self." + self._axis + "s) - 1"
+                raise InvalidArgumentValue(msg)
+
+            reverseMap[value] = name
+
+        return names, reverseMap
+
     def _getIndex(self, identifier, allowFloats=False):
         num = len(self)
         if num == 0:
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 33ccf54..f60cefa 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -2186,14 +2186,17 @@ class Features(ABC):
         featureIndex = self.getIndex(feature)
         numRetFeatures = len(self) - 1 + numResultingFts
 
-        self._splitByParsing_implementation(featureIndex, splitList,
-                                            numRetFeatures, numResultingFts)
-
         fNames = self.getNames()[:featureIndex]
         fNames.extend(resultingNames)
         fNames.extend(self.getNames()[featureIndex + 1:])
+        # the new names must be accepted before the data is modified
+        names, namesInverse = self._validateAllNames(fNames, numRetFeatures)
+
+        self._splitByParsing_implementation(featureIndex, splitList,
+                                            numRetFeatures, numResultingFts)
+
         self._base._dims[1] = numRetFeatures
-        self.setNames(fNames, useLog=False)
+        self.names, self.namesInverse = names, namesInverse
 
 
     @limitedTo2D
diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index 64b8f6c..c4cc712 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -1989,14 +1989,18 @@ class Points(ABC):
         numRetPoints = len(self) * numCollapsed
         numRetFeatures = len(features) - numCollapsed + 2
 
+        ftNames = [features.getName(idx) for idx in retainIndices]
+        ftNames.extend([featureForNames, featureForValues])
+        # the new names must be accepted before the data is modified
+        names, namesInverse = features._validateAllNames(ftNames,
+                                                         numRetFeatures)
+
         self._splitByCollapsingFeatures_implementation(
             featuresToCollapse, collapseIndices, retainIndices,
             currNumPoints, currFtNames, numRetPoints, numRetFeatures)
 
         self._base._dims = [numRetPoints, numRetFeatures]
-        ftNames = [features.getName(idx) for idx in retainIndices]
-        ftNames.extend([featureForNames, featureForValues])
-        features.setNames(ftNames, useLog=False)
+        features.names, features.namesInverse = names, namesInverse
         if self._base.points._namesCreated():
             appendedPts = []
             for name in self.getNames():
@@ -2176,11 +2180,6 @@ class Points(ABC):
             for i in adjust:
                 prefixes[i] += '(' + type(uniqueNames[i]).__name__ + ')'
 
-        self._combineByExpandingFeatures_implementation(
-            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures)
-
-        self._base._dims = [len(unique), numRetFeatures]
-
         newFtNames = []
         for prefix in prefixes:
             # if only one feature is expanded we will use the unique values
@@ -2198,14 +2197,19 @@ class Points(ABC):
             else:
                 newFtNames.append(prefix)
 
-        if self._base.features._namesCreated():
-            origFts = self._base.features.getNames()
-            keptFts = [origFts[i] for i in uncombinedIdx]
-            fNames = keptFts[:namesIdx] + newFtNames + keptFts[namesIdx:]
-            self._base.features.setNames(fNames, useLog=False)
-        else:
-            for i, name in enumerate(newFtNames):
-                self._base.features.setNames( name, oldIdentifiers=namesIdx + i, useLog=False)
+        origFts = self._base.features.getNames()
+        keptFts = [origFts[i] for i in uncombinedIdx]
+        fNames = keptFts[:namesIdx] + newFtNames + keptFts[namesIdx:]
+        # the new names must be accepted before the data is modified
+        names, namesInverse = self._base.features._validateAllNames(
+            fNames, numRetFeatures)
+
+        self._combineByExpandingFeatures_implementation(
+            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures)
+
+        self._base._dims = [len(unique), numRetFeatures]
+        self._base.features.names = names
+        self._base.features.namesInverse = namesInverse
         if self._base.points._namesCreated():
             self.setNames(pNames, useLog=False)
 
-- 
2.43.0


From 895f7d8ac6f9a345adda97483c9dc73059708e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:05 +0000
Subject: [PATCH 64/64] fix: features.normalize modifies the objects only after
 every result was accepted

---
 nimble/core/data/features.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index f60cefa..2c8fbac 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -38,6 +38,7 @@ from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
 from nimble.exceptions import InvalidArgumentValueCombination
 from nimble._utility import prettyListString, quoteStrings
 from ._dataHelpers import limitedTo2D, prepLog
+from ._dataHelpers import validateAxisFunction
 
 class Features(ABC):
     """
@@ -2004,14 +2005,22 @@ class Features(ABC):
                 raise InvalidArgumentValue(msg)
             if features is not None:
                 features = list(map(self._getIndex, features))
+            # every result must be accepted before the data is modified
+            accept1 = validateAxisFunction(lambda ft: ft, self._axis,
+                                           len(self._base.points))
+            accept2 = validateAxisFunction(lambda ft: ft, self._axis,
+                                           len(applyResultTo.points))
+            results = []
             zipFeatures = zip(self, applyResultTo.features)
             for i, (ft1, ft2) in enumerate(zipFeatures):
                 if features is None or i in features:
-                    # pylint: disable=cell-var-from-loop
                     norm1, norm2 = function(ft1, ft2)
-                    self.transform(lambda _: norm1, features=i, useLog=False)
-                    applyResultTo.features.transform(
-                        lambda _: norm2, features=i, useLog=False)
+                    results.append((i, accept1(norm1), accept2(norm2)))
+            for i, norm1, norm2 in results:
+                # pylint: disable=cell-var-from-loop
+                self.transform(lambda _: norm1, features=i, useLog=False)
+                applyResultTo.features.transform(
+                    lambda _: norm2, features=i, useLog=False)
         else:
             msg = 'applyResultTo must be None or an instance of Base'
             raise InvalidArgumentType(msg)
-- 
2.43.0

