From dfa7e25a70cd8389b61aa4d40dcfb01161fef9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:23 +0000
Subject: [PATCH 01/38] fix: store tree thresholds and data with enough digits
 to load them exactly

---
 src/models/impl/DecisionTreeImpl.cpp | 3 +++
 src/models/impl/RandomForestImpl.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index f93c514..1604b47 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -12,6 +12,7 @@
 #include <chrono>
 #include <cstdio>
 #include <iostream>
+#include <limits>
 #include <set>
 #include <sstream>
 #include <string>
@@ -182,6 +183,8 @@ DecisionTreeImpl::~DecisionTreeImpl()
 void DecisionTreeImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  // Output enough digits to restore the exact float values on load.
+  ofs.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# DecisionTreeImpl\n";
   output_tree(outfmt, "tree");
diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index f5fd20f..901385e 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include <chrono>
 #include <iostream>
+#include <limits>
 #include <random>
 #include <string>
 #include <vector>
@@ -103,6 +104,8 @@ void RandomForestImpl::output_rfc(OutputFormatter &outfmt)
 void RandomForestImpl::save(const std::string &filename)
 {
   std::ofstream ofs(filename, std::ofstream::out);
+  // Output enough digits to restore the exact float values on load.
+  ofs.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter outfmt(ofs);
   outfmt << "# RandomForestImpl\n";
   output_rfc(outfmt);
-- 
2.43.0


From e3d88a212ed22925fbacf1a1526e46080b0c15e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:44 +0000
Subject: [PATCH 02/38] fix: decision tree leaves predicted the first class,
 counts were read after being moved

---
 src/models/impl/DecisionTreeImpl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 1604b47..7245060 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -241,10 +241,10 @@ DecisionTreeImpl::Node::Node(DecisionTreeImpl &DT,
       right(nullptr)
 {
   // Find predicted class as the maximum element in the
-  // count_per_class.
-  int idx = std::distance(count_per_class.begin(),
-                          std::max_element(count_per_class.begin(),
-                                           count_per_class.end()));
+  // count_per_class. Use the member, the argument has been moved from.
+  const std::vector<size_t> &counts = this->count_per_class;
+  int idx = std::distance(counts.begin(),
+                          std::max_element(counts.begin(), counts.end()));
   predicted_class = *std::next(DT.classes.begin(), idx);
 }
 
-- 
2.43.0


From 1e1f21a5013d8f4e08f13982b190df1dbc80e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:47 +0000
Subject: [PATCH 03/38] fix: split threshold of a decision tree did not
 separate adjacent or huge feature values

---
 src/models/impl/DecisionTreeImpl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 7245060..15ef26c 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -358,7 +358,13 @@ std::tuple<float, Iterator, size_t, float> DecisionTreeImpl::split(
       min_gini = g;
       split_it = It;
       split_feature_idx = feature_idx;
-      split_threshold = (feature_val_left + feature_val_right) / 2.0;
+      // Average in double precision to avoid overflow. The threshold must
+      // separate left from right values also when they are adjacent floats and
+      // the average rounds to the left one.
+      split_threshold =
+          ((double)feature_val_left + (double)feature_val_right) / 2.0;
+      if (split_threshold <= feature_val_left)
+        split_threshold = feature_val_right;
     }
   }
 
-- 
2.43.0


From 4a37c1eac01dd09b6cade8b83edf4d04af0c083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:08 +0000
Subject: [PATCH 04/38] fix: re-training or loading a random forest kept the
 previous trees

---
 src/models/impl/RandomForestImpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index 901385e..98e0464 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -31,6 +31,9 @@ RandomForestImpl::RandomForestImpl(int num_classes,
 void RandomForestImpl::train(std::vector<std::vector<float>> &features,
                              std::vector<int> &responses)
 {
+  // Drop any previously trained or loaded trees.
+  rfc.clear();
+
   // Uniform random generator using Mersenne-Twister for randomness.
   std::mt19937 generator;
   std::uniform_int_distribution<size_t> uniform_dist(0, features.size() - 1);
@@ -155,6 +158,8 @@ void RandomForestImpl::parse_rfc(std::ifstream &ifs)
   parser.getNextToken();
   parser.parseExpected("[");
 
+  // Drop any previously trained or loaded trees.
+  rfc.clear();
   for (int i = 0; i < num_trees; ++i) {
     rfc.push_back(std::make_unique<DecisionTreeImpl>(num_classes, ifs));
     parser.getNextToken();
-- 
2.43.0


From 5912c9a5e94f22bdb0a09a446988adb1f1288871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:13 +0000
Subject: [PATCH 05/38] fix: a stored dataset with several features could not
 be loaded, features were not separated by spaces

---
 src/Dataset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 045f92a..5588c46 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -101,8 +101,8 @@ void Apollo::Dataset::store(std::ostream &os)
     const auto &metric = d.second;
     os << "  " << idx << ": { features: [ ";
     for (auto &f : features)
-      os << float(f) << ",";
-    os << " ], ";
+      os << float(f) << ", ";
+    os << "], ";
     os << "policy: " << policy << ", ";
     os << "xtime: " << metric;
     os << " },\n";
-- 
2.43.0


From 3f288af2f97fe2a1054dbb53785671b0746502d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:42 +0000
Subject: [PATCH 06/38] fix: stored subnormal numbers could not be parsed back

---
 src/helpers/Parser.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/helpers/Parser.cpp b/src/helpers/Parser.cpp
index a6f48f7..04e42ab 100644
--- a/src/helpers/Parser.cpp
+++ b/src/helpers/Parser.cpp
@@ -1,5 +1,6 @@
 #include "helpers/Parser.h"
 
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <iterator>
@@ -97,17 +98,21 @@ void Parser::parse(int &val)
 template <>
 void Parser::parse(double &val)
 {
-  std::size_t pos;
-  val = std::stod(token, &pos);
-  token = &buffer[pos];
+  // strtod, unlike stod, does not reject subnormal values.
+  char *end;
+  val = std::strtod(token, &end);
+  if (end == token) error("Expected a number");
+  token = end;
 }
 
 template <>
 void Parser::parse(float &val)
 {
-  std::size_t pos;
-  val = std::stof(token, &pos);
-  token = &buffer[pos];
+  // strtof, unlike stof, does not reject subnormal values.
+  char *end;
+  val = std::strtof(token, &end);
+  if (end == token) error("Expected a number");
+  token = end;
 }
 
 
-- 
2.43.0


From 1f6d7999945df5fb05e0928478a1643957771321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:42 +0000
Subject: [PATCH 07/38] fix: persisted datasets lost the digits of features and
 metrics beyond six

---
 src/Dataset.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Dataset.cpp b/src/Dataset.cpp
index 5588c46..9911015 100644
--- a/src/Dataset.cpp
+++ b/src/Dataset.cpp
@@ -5,6 +5,8 @@
 
 #include "apollo/Dataset.h"
 
+#include <limits>
+
 #include "helpers/Parser.h"
 
 size_t Apollo::Dataset::size() { return data.size(); }
@@ -93,6 +95,8 @@ void Apollo::Dataset::findMinMetricPolicyByFeatures(
 
 void Apollo::Dataset::store(std::ostream &os)
 {
+  // Store enough digits to load back the exact values.
+  const auto precision = os.precision();
   os << "data: {\n";
   int idx = 0;
   for (auto &d : data) {
@@ -100,15 +104,18 @@ void Apollo::Dataset::store(std::ostream &os)
     const auto &policy = d.first.second;
     const auto &metric = d.second;
     os << "  " << idx << ": { features: [ ";
+    os.precision(std::numeric_limits<float>::max_digits10);
     for (auto &f : features)
       os << float(f) << ", ";
     os << "], ";
     os << "policy: " << policy << ", ";
+    os.precision(std::numeric_limits<double>::max_digits10);
     os << "xtime: " << metric;
     os << " },\n";
     ++idx;
   }
   os << "}\n";
+  os.precision(precision);
 }
 
 void Apollo::Dataset::load(std::istream &is)
-- 
2.43.0


From 7d033dfa4323395b4253929a658d529a070459d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:31 +0000
Subject: [PATCH 08/38] fix: a loaded PolicyNet kept using action probabilities
 cached before the load

---
 src/models/PolicyNet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/PolicyNet.cpp b/src/models/PolicyNet.cpp
index 6c2d2e3..bcb8e01 100644
--- a/src/models/PolicyNet.cpp
+++ b/src/models/PolicyNet.cpp
@@ -682,6 +682,9 @@ void PolicyNet::load(const std::string &filename)
   f.read((char *)&trainCount, sizeof(int));
 
   f.close();
+
+  // Drop probabilities evaluated with the replaced network.
+  actionProbabilityMap.clear();
 }
 
 }  // end namespace apollo.
\ No newline at end of file
-- 
2.43.0


From 9f8f21aa6bb92287a5b6a70c6548c17c2b4f44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:44 +0000
Subject: [PATCH 09/38] fix: loading a decision tree kept the classes and data
 of the previous tree

---
 src/models/impl/DecisionTreeImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 15ef26c..732dcc9 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -608,6 +608,10 @@ void DecisionTreeImpl::parse_tree(std::istream &is)
 {
   Parser parser(is);
 
+  // Drop any previously trained or loaded classes and data.
+  classes.clear();
+  data.clear();
+
   parser.getNextToken();
   parser.parseExpected("tree:");
 
-- 
2.43.0


From 9ce2aa91c327f69efde4fad4b6a403eb67fcae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:16 +0000
Subject: [PATCH 10/38] fix: a truncated dataset or model file crashed the
 parser, it read past the end of the file

---
 src/helpers/Parser.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/helpers/Parser.cpp b/src/helpers/Parser.cpp
index 04e42ab..cf46bb1 100644
--- a/src/helpers/Parser.cpp
+++ b/src/helpers/Parser.cpp
@@ -21,22 +21,21 @@ const char *Parser::getNextToken()
   std::istreambuf_iterator<char> end;
 
   int idx = 0;
-  if (it != end) {
-    while (std::isspace(*it))
-      ++it;
-
-    while (*it == '#') {
-      is.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
-      while (std::isspace(*it))
-        ++it;
-    }
+  // The end of the file terminates spaces, comments, and tokens.
+  while (it != end && std::isspace(*it))
+    ++it;
 
-    while (!std::isspace(*it)) {
-      buffer[idx] = *it;
-      ++idx;
+  while (it != end && *it == '#') {
+    is.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+    while (it != end && std::isspace(*it))
       ++it;
-      if (idx >= BUFSIZE) fatal_error("Token exceeds buffer size");
-    }
+  }
+
+  while (it != end && !std::isspace(*it)) {
+    buffer[idx] = *it;
+    ++idx;
+    ++it;
+    if (idx >= BUFSIZE) fatal_error("Token exceeds buffer size");
   }
   buffer[idx] = '\0';
 
-- 
2.43.0


From d9bc405678980d99aaf0247ba254f7243a93ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:57 +0000
Subject: [PATCH 11/38] fix: PolicyNet silently accepted a missing or truncated
 model file

---
 src/models/PolicyNet.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/models/PolicyNet.cpp b/src/models/PolicyNet.cpp
index bcb8e01..473128d 100644
--- a/src/models/PolicyNet.cpp
+++ b/src/models/PolicyNet.cpp
@@ -10,6 +10,7 @@
 #include <fstream>
 #include <iostream>
 #include <numeric>
+#include <stdexcept>
 
 #include "helpers/OutputFormatter.h"
 #include "helpers/TimeTrace.h"
@@ -660,10 +661,7 @@ void PolicyNet::load(const std::string &filename)
   std::ifstream f(filename, std::ios::binary);
 
   // Check if the file was opened successfully.
-  if (!f) {
-    std::cerr << "Could not load model from " << filename << std::endl;
-    return;
-  }
+  if (!f) throw std::runtime_error("Error loading file: " + filename);
 
   // Load the weights and biases of each layer from the save file.
   f.read((char *)net->layer1.weights,
@@ -681,6 +679,9 @@ void PolicyNet::load(const std::string &filename)
   f.read((char *)&rewardMovingAvg, sizeof(double));
   f.read((char *)&trainCount, sizeof(int));
 
+  // A short read means the file is truncated or of another network.
+  if (!f) throw std::runtime_error("Error loading file: " + filename);
+
   f.close();
 
   // Drop probabilities evaluated with the replaced network.
-- 
2.43.0


From d76aee61d2ab8926c03642d6e0f13a98d70cc749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:31 +0000
Subject: [PATCH 12/38] fix: training a single model without any measurements
 crashed

---
 src/Apollo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index 106ab2b..14d89a2 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -492,6 +492,9 @@ void Apollo::train(int step, bool doCollectPendingContexts)
       merged_dataset.insert(reg->dataset);
     }
 
+    // There is nothing to train on without any measurements.
+    if (merged_dataset.size() <= 0) return;
+
     // TODO: Each region trains its own identical, single model. Consider
     // training the single model once and share to regions using a
     // shared_ptr.
-- 
2.43.0


From 4a87d9621c0c058f32568481161982b3fae911a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:18 +0000
Subject: [PATCH 13/38] fix: creating a region with persistent datasets
 triggered period-based training

---
 src/Region.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index f264251..f9f30ed 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -322,8 +322,10 @@ Apollo::Region::Region(const int num_features,
     ifs.close();
 
     // Check if auto-training applies: min_training_data is set and dataset
-    // size is large enough.
-    autoTrain();
+    // size is large enough. Training periods count executions, creating a
+    // region is not one.
+    if (0 < min_training_data && min_training_data <= dataset.size())
+      train(idx, /* doCollectPendingContexts */ false);
   }
 
   if (model_params.count("load-dataset")) {
-- 
2.43.0


From 7f06eb0014d5b6427e58a190a69e968477cc19a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:21 +0000
Subject: [PATCH 14/38] fix: JIT tree evaluation used a stale library after
 re-training and collided with other processes

---
 src/models/impl/DecisionTreeImpl.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 732dcc9..792f9e7 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -6,6 +6,7 @@
 #include "DecisionTreeImpl.h"
 
 #include <dlfcn.h>
+#include <unistd.h>
 
 #include <algorithm>
 #include <cassert>
@@ -124,10 +125,16 @@ void DecisionTreeImpl::generate_source(Node &node, OutputFormatter &source_fmt)
 void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 {
 #ifdef ENABLE_JIT_DTREE
-  std::string function_name =
-      std::string("_jit_eval_") + std::to_string(unique_id);
+  // Use a new name for each compilation, dlopen does not load again a library
+  // of a known name, and the process id, other processes use /tmp too.
+  unique_id = ++unique_counter;
+  std::string function_name = std::string("_jit_eval_") +
+                              std::to_string(getpid()) + "_" +
+                              std::to_string(unique_id);
   std::string shared_library_name =
       std::string("/tmp/") + function_name + std::string(".so");
+  std::string source_name =
+      std::string("/tmp/") + function_name + std::string(".cpp");
   std::stringstream sstream;
   OutputFormatter source_fmt(sstream);
   // source_fmt << "#include <cstdio>\n";
@@ -142,7 +149,7 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
   source_fmt << "}\n";
   --source_fmt;
   source_fmt << "}\n";
-  std::ofstream ofs(std::string("/tmp/" + function_name + std::string(".cpp")));
+  std::ofstream ofs(source_name);
   ofs << sstream.str() << std::endl;
   ofs.close();
   std::string command = std::string("c++ -x c++ -O0 -shared -fPIC -o ") +
@@ -162,6 +169,9 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
     std::cerr << "dlsym: " << dlerror() << std::endl;
     abort();
   }
+  // The loaded library does not need the files anymore.
+  std::remove(shared_library_name.c_str());
+  std::remove(source_name.c_str());
 #else
   throw std::runtime_error(
       "DTree JIT requires compilation with ENABLE_JIT_DTREE on");
@@ -170,12 +180,6 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
 
 DecisionTreeImpl::~DecisionTreeImpl()
 {
-  std::string function_name =
-      std::string("_jit_eval_") + std::to_string(unique_id);
-  std::string shared_library_name =
-      std::string("/tmp/") + function_name + std::string(".so");
-  std::remove(shared_library_name.c_str());
-
   for (Node *node : tree_nodes)
     delete node;
 }
-- 
2.43.0


From 09ec8bc0281a7f7c3bdd434a4b487d481312f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:22 +0000
Subject: [PATCH 15/38] fix: JIT tree evaluation compared with thresholds
 rounded to six digits

---
 src/models/impl/DecisionTreeImpl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index 792f9e7..d9b0911 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -105,8 +105,8 @@ void DecisionTreeImpl::generate_source(Node &node, OutputFormatter &source_fmt)
     return;
   }
 
-  source_fmt << "if (features[" & node.feature_idx & "] < " & node.threshold &
-      ") {\n";
+  source_fmt << "if (features[" & node.feature_idx & "] < (float)" &
+      node.threshold & ") {\n";
   if (node.left) {
     ++source_fmt;
     generate_source(*node.left, source_fmt);
@@ -136,6 +136,8 @@ void DecisionTreeImpl::compile_and_link_jit_evaluate_function()
   std::string source_name =
       std::string("/tmp/") + function_name + std::string(".cpp");
   std::stringstream sstream;
+  // Output enough digits to compare with the exact float thresholds.
+  sstream.precision(std::numeric_limits<float>::max_digits10);
   OutputFormatter source_fmt(sstream);
   // source_fmt << "#include <cstdio>\n";
   source_fmt << "#include <vector>\n";
-- 
2.43.0


From 8596ed671caa7dde43a5ed40f6cfa906430f0425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:38 +0000
Subject: [PATCH 16/38] fix: loading a tree into a JIT build did not compile
 it, decisions used the previous or no function

---
 src/models/impl/DecisionTreeImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index d9b0911..c3ac870 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -42,9 +42,6 @@ DecisionTreeImpl::DecisionTreeImpl(int num_classes, std::string filename)
   ++unique_counter;
   unique_id = unique_counter;
   load(filename);
-#ifdef ENABLE_JIT_DTREE
-  compile_and_link_jit_evaluate_function();
-#endif
 }
 
 DecisionTreeImpl::DecisionTreeImpl(int num_classes, unsigned max_depth)
@@ -260,6 +257,9 @@ void DecisionTreeImpl::load(const std::string &filename)
   if (!ifs) throw std::runtime_error("Error loading file: " + filename);
   parse_tree(ifs);
   ifs.close();
+#ifdef ENABLE_JIT_DTREE
+  compile_and_link_jit_evaluate_function();
+#endif
 }
 
 template <typename Iterator>
-- 
2.43.0


From 02174b5859fd655456d8a9206114e81c70c0c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:03 +0000
Subject: [PATCH 17/38] fix: Kokkos connector divided by zero when a tuning
 variable has no candidates

---
 src/connectors/kokkos/kokkos-connector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index d244366..dd9a09e 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -518,6 +518,8 @@ extern "C" void kokkosp_request_values(
     auto *metadata = reinterpret_cast<VariableDatabaseData *>(
         tuningValues[x].metadata->toolProvidedInfo);
     auto set_size = metadata->candidate_set_size;
+    // A variable without candidates is not tuned.
+    if (set_size <= 0) continue;
     if (choiceSpaceSize > max_choices / set_size) {
       printf("Apollo Tuner: too many choices\n");
     }
@@ -574,6 +576,7 @@ extern "C" void kokkosp_request_values(
     auto *metadata = reinterpret_cast<VariableDatabaseData *>(
         tuningValues[x].metadata->toolProvidedInfo);
     int set_size = metadata->candidate_set_size;
+    if (set_size <= 0) continue;
     int local_policy_choice = policyChoice % set_size;
     tuningValues[x] = mvv(tuningValues[x].type_id,
                           metadata->candidate_values[local_policy_choice].value,
-- 
2.43.0


From f668c98cf8400263aea3555548700714810ddf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:03 +0000
Subject: [PATCH 18/38] fix: Kokkos connector candidates of integer ranges
 missed the lower bound and exceeded the upper

---
 src/connectors/kokkos/kokkos-connector.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index dd9a09e..ee245eb 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -81,11 +81,14 @@ int64_t count_range_slices(Kokkos::Tools::Experimental::ValueRange &in,
 {
   switch (type) {
     case ValueType::kokkos_value_int64:
-      return 1 + ((((!in.openUpper) ? in.upper.int_value
-                                    : (in.upper.int_value - 1)) -
-                   ((!in.openLower) ? in.lower.int_value
-                                    : (in.lower.int_value + 1))) /
-                  in.step.int_value);
+      if (in.upper.int_value - (in.openUpper ? 1 : 0) < in.lower.int_value)
+        return 0;
+      // An open lower bound drops the first of the values lower + k * step.
+      return (in.openLower ? 0 : 1) +
+             ((((!in.openUpper) ? in.upper.int_value
+                                : (in.upper.int_value - 1)) -
+               in.lower.int_value) /
+              in.step.int_value);
     case ValueType::kokkos_value_double:
       return (in.step.double_value ==
               0.0)  // intentional comparison to double value 0.0, this
@@ -165,7 +168,7 @@ void form_set_from_range(Kokkos::Tools::Experimental::VariableValue *fill_this,
   if (info->type == ValueType::kokkos_value_int64) {
     for (int x = 0; x < num_slices; ++x) {
       auto lower =
-          (with_this.openLower
+          (!with_this.openLower
                ? with_this.lower.int_value
                : (with_this.lower.int_value + with_this.step.int_value));
       Kokkos_Tools_VariableValue_ValueUnion value;
-- 
2.43.0


From 11b1647d62e6e871f62e7105cbe43017b3696ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:03 +0000
Subject: [PATCH 19/38] fix: Kokkos connector candidates of double ranges
 missed the closed upper bound, violated open bounds, and were all equal for
 continuous ranges

---
 src/connectors/kokkos/kokkos-connector.cpp | 37 ++++++++++++++--------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index ee245eb..57b7dce 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -38,6 +38,7 @@
 #include <cassert>
 #include <chrono>
 #include <cinttypes>
+#include <cmath>
 #include <cstdio>
 #include <cstring>
 #include <functional>
@@ -54,7 +55,6 @@
 using namespace Kokkos::Tools::Experimental;
 
 constexpr const int64_t slice_continuous = 100;
-constexpr const double epsilon = 1E-24;
 int flush_interval = 500;
 using valunion =
     decltype(std::declval<Kokkos::Tools::Experimental::VariableValue>().value);
@@ -70,9 +70,13 @@ struct VariableDatabaseData {
   valunion maximum;
   Kokkos::Tools::Experimental::VariableValue *candidate_values;
 };
-int64_t slice_helper(double upper, double lower, double step)
+// Number of values lower + k * step, k >= 0, up to the upper bound.
+int64_t slice_helper(double upper, double lower, double step, bool openUpper)
 {
-  return ((upper - lower) / step);
+  constexpr const double tolerance = 1E-9;
+  int64_t last = std::floor((upper - lower) / step + tolerance);
+  if (openUpper && lower + last * step >= upper) --last;
+  return last + 1;
 }
 static size_t num_unconverged_regions;
 
@@ -95,13 +99,11 @@ int64_t count_range_slices(Kokkos::Tools::Experimental::ValueRange &in,
                     // shouldn't be a calculated value, but a value that has
                     // been set to the literal 0.0
                  ? slice_continuous
-                 : slice_helper(in.openUpper
-                                    ? in.upper.double_value
-                                    : (in.upper.double_value - epsilon),
-                                in.openLower
-                                    ? in.lower.double_value
-                                    : (in.lower.double_value + epsilon),
-                                in.step.double_value);
+                 : slice_helper(in.upper.double_value,
+                                in.lower.double_value,
+                                in.step.double_value,
+                                in.openUpper) -
+                       (in.openLower ? 1 : 0);
     case ValueType::kokkos_value_string:
       // TODO: error mechanism?
       return -1;
@@ -177,11 +179,18 @@ void form_set_from_range(Kokkos::Tools::Experimental::VariableValue *fill_this,
     }
   } else if (info->type == ValueType::kokkos_value_double) {
     for (int x = 0; x < num_slices; ++x) {
-      auto lower =
-          (with_this.openLower ? with_this.lower.double_value
-                               : (with_this.lower.double_value + epsilon));
+      double lower = with_this.lower.double_value;
+      double upper = with_this.upper.double_value;
       Kokkos_Tools_VariableValue_ValueUnion value;
-      value.double_value = lower + (x * with_this.step.double_value);
+      if (with_this.step.double_value == 0.0) {
+        // Continuous range, take the middle of each slice.
+        value.double_value = lower + (x + 0.5) * ((upper - lower) / num_slices);
+      } else {
+        value.double_value = std::min(
+            lower +
+                (x + (with_this.openLower ? 1 : 0)) * with_this.step.double_value,
+            upper);
+      }
       fill_this[x] = mvv(id, value, info);
     }
   }
-- 
2.43.0


From f6114f972af7539023aebe6d8431fe9c1cc78b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:03 +0000
Subject: [PATCH 20/38] fix: Kokkos connector aborted when a stored model
 existed, its file name was passed as the model

---
 src/connectors/kokkos/kokkos-connector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 57b7dce..cfc5d97 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -564,6 +564,7 @@ extern "C" void kokkosp_request_values(
                                   name.c_str(),
                                   choiceSpaceSize,
                                   /* min_training_data */ 0,
+                                  "RandomForest",
                                   final_name);
     } else {
       region = new Apollo::Region(numContextVariables,
-- 
2.43.0


From a248d122f073ad70d10f585264cc0f061687f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:03 +0000
Subject: [PATCH 21/38] fix: Kokkos connector read past variable names of 64 or
 more characters

---
 src/connectors/kokkos/kokkos-connector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index cfc5d97..7e6ecc9 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -439,6 +439,7 @@ extern "C" void kokkosp_declare_output_type(
   auto *metadata = new VariableDatabaseData();
   metadata->name = (char *)malloc(sizeof(char) * 65);
   strncpy(metadata->name, name, 64);
+  metadata->name[64] = '\0';
   info->toolProvidedInfo = metadata;
   associate_candidates(id, info);
 }
@@ -451,6 +452,7 @@ extern "C" void kokkosp_declare_input_type(
   auto *metadata = new VariableDatabaseData();
   metadata->name = (char *)malloc(sizeof(char) * 65);
   strncpy(metadata->name, name, 64);
+  metadata->name[64] = '\0';
   info->toolProvidedInfo = metadata;
 }
 
-- 
2.43.0


From 1d28b24dc935808a285b31436d73512d4c600738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:13 +0000
Subject: [PATCH 22/38] fix: re-training or loading a decision tree leaked the
 nodes of the previous tree

---
 src/models/impl/DecisionTreeImpl.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/models/impl/DecisionTreeImpl.cpp b/src/models/impl/DecisionTreeImpl.cpp
index c3ac870..ff3f2ed 100644
--- a/src/models/impl/DecisionTreeImpl.cpp
+++ b/src/models/impl/DecisionTreeImpl.cpp
@@ -60,6 +60,11 @@ void DecisionTreeImpl::train(std::vector<std::vector<float>> &features,
   for (size_t i = 0, end = features.size(); i < end; ++i)
     data.emplace_back(std::move(features[i]), responses[i]);
 
+  // Free the nodes of any previously trained or loaded tree.
+  for (Node *node : tree_nodes)
+    delete node;
+  tree_nodes.clear();
+
   root = build_tree(data.begin(),
                     data.end(),
                     /* max_depth */ max_depth,
@@ -641,9 +646,15 @@ void DecisionTreeImpl::parse_tree(std::istream &is)
 
   parser.getNextToken();
   parser.parseExpected("root:");
+  auto previous_nodes = std::move(tree_nodes);
+  tree_nodes.clear();
   root = parse_node(parser);
   parse_data(parser);
 
   parser.getNextToken();
   parser.parseExpected("}");
+
+  // Free the nodes of any previously trained or loaded tree.
+  for (Node *node : previous_nodes)
+    delete node;
 }
-- 
2.43.0


From a8d6e798648d1006bf0a53e7fbb61b8c5e1806e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:06 +0000
Subject: [PATCH 23/38] fix: Kokkos connector read uninitialised options when
 parsing arguments

---
 src/connectors/kokkos/kokkos-connector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 7e6ecc9..76c0a6d 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -278,7 +278,7 @@ struct options {
 
 extern "C" void kokkosp_parse_args(int argc, char **argv)
 {
-  options parsed_options;
+  options parsed_options = {};
   for (int x = 0; x < argc; ++x) {
     std::string arg(argv[x]);
     if (arg == "--disable_retrain") {
-- 
2.43.0


From 8b50149b68d22b03e07cc0ecdbda837f765174bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 24/38] fix: Region.cpp did not compile with the OpenCV backend

---
 src/Region.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index f9f30ed..479b2e2 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -80,7 +80,7 @@ void Apollo::Region::train(int step, bool doCollectPendingContexts, bool force)
 
   if (Config::APOLLO_RETRAIN_ENABLE)
 #ifdef ENABLE_OPENCV
-    time_model = ModelFactory::createRegressionTree(dataset);
+    time_model = apollo::ModelFactory::createRegressionTree(dataset);
 #else
     throw std::runtime_error("Retraining requires OpenCV");
 #endif
-- 
2.43.0


From e6c8a6982921fda96a4ff609fd6e35fbc8283de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 25/38] fix: loading a stored model with the OpenCV backend had
 no effect

---
 src/models/DecisionTree.cpp | 9 ++++++++-
 src/models/RandomForest.cpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/models/DecisionTree.cpp b/src/models/DecisionTree.cpp
index 06d72d9..f5d94b7 100644
--- a/src/models/DecisionTree.cpp
+++ b/src/models/DecisionTree.cpp
@@ -13,6 +13,7 @@
 #include <map>
 #include <numeric>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <tuple>
 #include <vector>
@@ -45,7 +46,7 @@ DecisionTree::DecisionTree(int num_policies, std::string path)
   std::cout << "== APOLLO: Loading the requested DecisionTree:\n"
             << "== APOLLO:     " << path << "\n";
 #ifdef ENABLE_OPENCV
-  dtree = DTrees::load(path.c_str());
+  load(path);
 #else
   dtree = std::make_unique<DecisionTreeImpl>(num_policies, path);
 #endif
@@ -122,7 +123,13 @@ int DecisionTree::getIndex(std::vector<float> &features)
 void DecisionTree::load(const std::string &filename)
 {
   trainable = false;
+#ifdef ENABLE_OPENCV
+  // The OpenCV load is a static function that returns a new model.
+  dtree = DTrees::load(filename);
+  if (!dtree) throw std::runtime_error("Error loading file: " + filename);
+#else
   dtree->load(filename);
+#endif
 }
 void DecisionTree::store(const std::string &filename) { dtree->save(filename); }
 
diff --git a/src/models/RandomForest.cpp b/src/models/RandomForest.cpp
index 4267c3c..8e2e63a 100644
--- a/src/models/RandomForest.cpp
+++ b/src/models/RandomForest.cpp
@@ -13,6 +13,7 @@
 #include <map>
 #include <numeric>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -46,7 +47,7 @@ RandomForest::RandomForest(int num_policies, std::string path)
   std::cout << "== APOLLO: Loading the requested RandomForest:\n"
             << "== APOLLO:     " << path << "\n";
 #ifdef ENABLE_OPENCV
-  rfc = RTrees::load(path.c_str());
+  load(path);
 #else
   rfc = std::make_unique<RandomForestImpl>(num_policies, path);
 #endif
@@ -126,7 +127,13 @@ int RandomForest::getIndex(std::vector<float> &features)
 void RandomForest::load(const std::string &filename)
 {
   trainable = false;
+#ifdef ENABLE_OPENCV
+  // The OpenCV load is a static function that returns a new model.
+  rfc = RTrees::load(filename);
+  if (!rfc) throw std::runtime_error("Error loading file: " + filename);
+#else
   rfc->load(filename);
+#endif
 }
 void RandomForest::store(const std::string &filename) { rfc->save(filename); }
 
-- 
2.43.0


From 9661ae78386739ed945a3659972e53157220b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 26/38] fix: the timing model was trained on policies read as
 floats, not on times

---
 src/models/RegressionTree.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/RegressionTree.cpp b/src/models/RegressionTree.cpp
index b82d874..0f133c7 100644
--- a/src/models/RegressionTree.cpp
+++ b/src/models/RegressionTree.cpp
@@ -57,7 +57,9 @@ RegressionTree::RegressionTree(Apollo::Dataset &dataset)
   //     int j = responses[i];
   //     rmat.at<float>(i, j) = 1.f;
   // }
-  Mat(fmat.rows, 1, CV_32F, &responses[0]).copyTo(rmat);
+  // The timing model predicts the execution time of the fastest policy.
+  for (auto &b : min_metric_policies)
+    rmat.push_back(static_cast<float>(b.second.second));
 
   // std::cout << "fmat: " << fmat << std::endl;
   // std::cout << "features.size: " << features.size() << std::endl;
-- 
2.43.0


From 32b87a8062899fed23c9ec8ef51f7a1a4155ce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:55 +0000
Subject: [PATCH 27/38] fix: regions with one policy aborted with the OpenCV
 backend

OpenCV requires at least two categories, setMaxCategories(1) throws.
---
 src/models/DecisionTree.cpp | 3 ++-
 src/models/RandomForest.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/models/DecisionTree.cpp b/src/models/DecisionTree.cpp
index f5d94b7..c804d63 100644
--- a/src/models/DecisionTree.cpp
+++ b/src/models/DecisionTree.cpp
@@ -69,7 +69,8 @@ DecisionTree::DecisionTree(int num_policies,
   dtree->setMinSampleCount(1);
   dtree->setRegressionAccuracy(0);
   dtree->setUseSurrogates(false);
-  dtree->setMaxCategories(policy_count);
+  // OpenCV requires at least two categories.
+  dtree->setMaxCategories(std::max(policy_count, 2));
   dtree->setCVFolds(0);
   dtree->setUse1SERule(false);
   dtree->setTruncatePrunedTree(false);
diff --git a/src/models/RandomForest.cpp b/src/models/RandomForest.cpp
index 8e2e63a..c350823 100644
--- a/src/models/RandomForest.cpp
+++ b/src/models/RandomForest.cpp
@@ -73,7 +73,8 @@ RandomForest::RandomForest(int num_policies,
   rfc->setMinSampleCount(1);
   rfc->setRegressionAccuracy(0);
   rfc->setUseSurrogates(false);
-  rfc->setMaxCategories(policy_count);
+  // OpenCV requires at least two categories.
+  rfc->setMaxCategories(std::max(policy_count, 2));
   rfc->setCVFolds(0);
   rfc->setUse1SERule(false);
   rfc->setTruncatePrunedTree(false);
-- 
2.43.0


From d9fd0b2b3a8232dbee49d666ad369cfc291d802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:30 +0000
Subject: [PATCH 28/38] fix: take the call-site address after the last blank of
 the symbol line

A module path with a blank followed by '[' put part of the path into the
region identifier.
---
 src/Apollo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index 14d89a2..7195b87 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -108,7 +108,7 @@ std::string Apollo::getCallpathOffset(int walk_distance)
   std::string module_name = stack_info.substr(0, stack_info.find_last_of(' '));
   module_name = module_name.substr(module_name.find_last_of("/\\") + 1);
   module_name = module_name.substr(0, module_name.find_last_of('('));
-  std::string addr = stack_info.substr(stack_info.find(' '));
+  std::string addr = stack_info.substr(stack_info.find_last_of(' '));
   unsigned start = addr.find_first_of('[') + 1;
   unsigned end = addr.find_last_of(']');
   addr = addr.substr(start, end - start);
-- 
2.43.0


From f4aefdb08f220f598ac9eddda4f9115b741aa84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:26 +0000
Subject: [PATCH 29/38] fix: rfc2dot_opencv.py failed on trees whose last leaf
 is deeper than one level

---
 src/python/analysis/rfc2dot_opencv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/analysis/rfc2dot_opencv.py b/src/python/analysis/rfc2dot_opencv.py
index a0fe149..aae9f08 100755
--- a/src/python/analysis/rfc2dot_opencv.py
+++ b/src/python/analysis/rfc2dot_opencv.py
@@ -64,8 +64,8 @@ def parse_tree(tid, tree):
         if i < treenodes.size() - 1:
             stack.append((i,depth))
 
-    (j,d) = stack.pop()
-    assert((j,d) == (0,0))
+    # The last leaf may be at any depth, the root stays at the bottom.
+    assert(stack[0] == (0,0))
 
     return dot
 
-- 
2.43.0


From f1a798c4d370a64caa28b195a1926f414090da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:13 +0000
Subject: [PATCH 30/38] fix: collecting a pending execution crashed an open
 execution of the context-free interface

---
 src/Region.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index 479b2e2..484fc63 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -533,8 +533,10 @@ void Apollo::Region::collectContext(Apollo::RegionContext *context,
 
   autoTrain();
 
+  // The collected context may not be the current one, e.g., when pending
+  // contexts are collected during another execution of the region.
+  if (current_context == context) current_context = nullptr;
   destroyRegionContext(context);
-  current_context = nullptr;
 }
 
 void Apollo::Region::end(Apollo::RegionContext *context, double metric)
-- 
2.43.0


From 6094b1cbde1258a7aebd3e5762ce2d7da124668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:13 +0000
Subject: [PATCH 31/38] fix: explicit training of a single model did not
 collect completed asynchronous executions

---
 src/Apollo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index 7195b87..3bd4228 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -488,6 +488,8 @@ void Apollo::train(int step, bool doCollectPendingContexts)
     Apollo::Dataset merged_dataset;
     for (auto &it : regions) {
       Region *reg = it.second;
+      // Conditionally collect pending contexts, as in per-region training.
+      if (doCollectPendingContexts) reg->collectPendingContexts();
       // append per-region dataset to merged.
       merged_dataset.insert(reg->dataset);
     }
-- 
2.43.0


From b3199e582533c23ec0d73960ed937f0b84faeb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:13 +0000
Subject: [PATCH 32/38] fix: load-dataset and DatasetMap read a persistent
 dataset twice, averaging it with itself

---
 src/Region.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Region.cpp b/src/Region.cpp
index 484fc63..8b8757f 100644
--- a/src/Region.cpp
+++ b/src/Region.cpp
@@ -339,7 +339,8 @@ Apollo::Region::Region(const int num_features,
       abort();
     }
 
-    dataset.load(ifs);
+    // A persistent dataset has been loaded already.
+    if (!Config::APOLLO_PERSISTENT_DATASETS) dataset.load(ifs);
 
     if (dataset.size() <= 0) fatal_error("dataset size is 0");
 
@@ -372,7 +373,8 @@ Apollo::Region::Region(const int num_features,
       abort();
     }
 
-    dataset.load(ifs);
+    // A persistent dataset has been loaded already.
+    if (!Config::APOLLO_PERSISTENT_DATASETS) dataset.load(ifs);
 
     ifs.close();
 
-- 
2.43.0


From 6107def7834daad3fda45b30e8cb3cf782370286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:27 +0000
Subject: [PATCH 33/38] fix: create-dataset.py --tracedirs read the global
 trace of a rank as a region trace

Every directory Apollo traces into also holds trace-rank-<n>.csv, whose columns
differ: its rows became a region without a name and the script failed.
---
 src/python/modeling/create-dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/modeling/create-dataset.py b/src/python/modeling/create-dataset.py
index 04e7dda..8e17b34 100755
--- a/src/python/modeling/create-dataset.py
+++ b/src/python/modeling/create-dataset.py
@@ -135,7 +135,7 @@ def read_tracedirs(tracedirs):
     data = pd.DataFrame()
 
     for dir in tracedirs:
-        globlist = glob.glob('%s/trace*.csv' % (dir))
+        globlist = glob.glob('%s/trace-*-region-*.csv' % (dir))
         data_dir = read_tracefiles(globlist)
         data = pd.concat([data, data_dir], ignore_index=True, sort=False)
 
-- 
2.43.0


From f1c4822a58c043e2ffdd1352edfe785754dabfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:27 +0000
Subject: [PATCH 34/38] fix: create-dataset.py mixed up columns of regions with
 different numbers of features

The columns of the concatenated traces are in order of their first appearance,
so features beyond those of the first trace come after policy and xtime; taking
columns by position made the policy a feature and dropped the last features.
---
 src/python/modeling/create-dataset.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/python/modeling/create-dataset.py b/src/python/modeling/create-dataset.py
index 8e17b34..788c7d7 100755
--- a/src/python/modeling/create-dataset.py
+++ b/src/python/modeling/create-dataset.py
@@ -3,12 +3,19 @@
 import argparse
 import pandas as pd
 import glob
+import re
 
 '''
 Reads data from CSV traces and creates a loadable dataset for training models.
 '''
 
 
+def get_feature_cols(data_per_region):
+    # Select by name: when traces differ in their number of features, the
+    # columns f<i> of the concatenated data are not contiguous.
+    return [c for c in data_per_region.columns if re.fullmatch('f[0-9]+', c)]
+
+
 def print_to_str(index, features, policy, xtime):
     features = [str(n) for n in features]
     output = '  ' + str(index) + ': { features: [ '
@@ -25,7 +32,7 @@ def agg_by_none(data_per_region):
     output = '# agg by none\n'
 
     output += 'data: {\n'
-    feature_cols = list(data_per_region.columns[5:-2])
+    feature_cols = get_feature_cols(data_per_region)
 
     # Output all the data points.
     for i, row in data_per_region.iterrows():
@@ -40,7 +47,7 @@ def agg_by_mean(data_per_region):
     output = '# agg by mean\n'
 
     output += 'data: {\n'
-    feature_cols = list(data_per_region.columns[5:-2])
+    feature_cols = get_feature_cols(data_per_region)
 
     # Group by features and policy to extract policies per feature with
     # their mean xtime.
@@ -61,7 +68,7 @@ def agg_by_min(data_per_region):
     output = '# agg by min\n'
 
     output += 'data: {\n'
-    feature_cols = list(data_per_region.columns[5:-2])
+    feature_cols = get_feature_cols(data_per_region)
 
     groups = data_per_region.groupby(by=feature_cols)
     index = 0
@@ -84,7 +91,7 @@ def agg_by_mean_min(data_per_region):
     output = '# agg by mean_min\n'
 
     output += 'data: {\n'
-    feature_cols = list(data_per_region.columns[5:-2])
+    feature_cols = get_feature_cols(data_per_region)
 
     groups = data_per_region.groupby(by=feature_cols)
     index = 0
-- 
2.43.0


From 46a4d56d021f68b11c9ba760d7f900dd2184f517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:27 +0000
Subject: [PATCH 35/38] fix: create-dataset.py --agg mean-min wrote unreadable
 single features with pandas 2

---
 src/python/modeling/create-dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/modeling/create-dataset.py b/src/python/modeling/create-dataset.py
index 788c7d7..84564e3 100755
--- a/src/python/modeling/create-dataset.py
+++ b/src/python/modeling/create-dataset.py
@@ -103,8 +103,9 @@ def agg_by_mean_min(data_per_region):
         # Find the index (equals the policy) with the minimum mean xtime.
         idxmin = mean_g.idxmin()
 
-        # Create a list of feature values if there is a single feature.
-        if len(feature_cols) > 1:
+        # Create a list of feature values if there is a single feature. The
+        # name of its group is the bare value before pandas 2, a tuple since.
+        if isinstance(name, tuple):
             features = name
         else:
             features = [name]
-- 
2.43.0


From b858a604d336cb3b8ea7d9da2f2bcecfb346d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:21 +0000
Subject: [PATCH 36/38] fix: collective training did not share completed
 asynchronous executions

They were collected after the measurements of all ranks had been gathered, so
only their own rank trained on them.
---
 src/Apollo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Apollo.cpp b/src/Apollo.cpp
index 3bd4228..45c27bf 100644
--- a/src/Apollo.cpp
+++ b/src/Apollo.cpp
@@ -478,6 +478,10 @@ void Apollo::train(int step, bool doCollectPendingContexts)
 
   if (Config::APOLLO_COLLECTIVE_TRAINING) {
     // std::cout << "DO COLLECTIVE TRAINING" << std::endl; //ggout
+    // Collect pending contexts before gathering, to share their measurements.
+    if (doCollectPendingContexts)
+      for (auto &it : regions)
+        it.second->collectPendingContexts();
     gatherCollectiveTrainingData(step);
   } else {
     // std::cout << "DO LOCAL TRAINING" << std::endl; //ggout
-- 
2.43.0


From 03fa99b8cf67a544662d78b84e2283d3aab5ecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:26 +0000
Subject: [PATCH 37/38] fix: a random forest of many policies overflowed the
 stack when predicting

---
 src/models/impl/RandomForestImpl.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/models/impl/RandomForestImpl.cpp b/src/models/impl/RandomForestImpl.cpp
index 98e0464..f0828fa 100644
--- a/src/models/impl/RandomForestImpl.cpp
+++ b/src/models/impl/RandomForestImpl.cpp
@@ -183,9 +183,8 @@ void RandomForestImpl::load(const std::string &filename)
 int RandomForestImpl::predict(const std::vector<float> &features)
 {
   // Predict by majority vote over all decision trees.
-  int count_per_class[num_classes];
-  for (size_t i = 0; i < num_classes; ++i)
-    count_per_class[i] = 0;
+  // On the heap: the number of classes has no small bound.
+  std::vector<int> count_per_class(num_classes, 0);
 
   for (auto &dtree : rfc) {
     int dtree_prediction = dtree->predict(features);
-- 
2.43.0


From 488a810a8e7037cd6a85ff437762022ba3a57d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:26 +0000
Subject: [PATCH 38/38] fix: the Kokkos connector looked for stored models in a
 hard-coded directory and rank

---
 src/connectors/kokkos/kokkos-connector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/connectors/kokkos/kokkos-connector.cpp b/src/connectors/kokkos/kokkos-connector.cpp
index 76c0a6d..ad4d06a 100644
--- a/src/connectors/kokkos/kokkos-connector.cpp
+++ b/src/connectors/kokkos/kokkos-connector.cpp
@@ -553,8 +553,10 @@ extern "C" void kokkosp_request_values(
   auto iter =
       tuning_regions.emplace(tuningProblem, std::make_pair("", nullptr));
   if (iter.second) {
-    std::string path = ".apollo/models/";
-    std::string prefix = "RandomForest-step-0-rank-0-";
+    std::string path =
+        Config::APOLLO_OUTPUT_DIR + "/" + Config::APOLLO_MODELS_DIR + "/";
+    std::string prefix = "RandomForest-step-0-rank-" +
+                         std::to_string(apolloRuntime->mpiRank) + "-";
     std::string suffix = ".yaml";
     std::string name = get_region_name(tuningProblem);
     constexpr const int apollo_user_file_length = 63;
-- 
2.43.0

