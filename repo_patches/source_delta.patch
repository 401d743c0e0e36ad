From 08cd0bb546b31f8dbf1304b9c910cdf8504e30a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 01/18] fix: repeat CSP iterations until no node is removed

csp_solution_iteration dropped the result of csp_process_pixel, so solve_csp
stopped after one sweep and could leave nodes without a supporting edge
(and report an unsolvable problem as solvable).
---
 lib/constraint_graph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/constraint_graph.cpp b/lib/constraint_graph.cpp
index bf868bf..5e03d5c 100644
--- a/lib/constraint_graph.cpp
+++ b/lib/constraint_graph.cpp
@@ -315,7 +315,10 @@ __device__ BOOL csp_solution_iteration(
             ++node.pixel.x
         )
         {
-            csp_process_pixel(graph, node.pixel);
+            if (csp_process_pixel(graph, node.pixel))
+            {
+                changed = TRUE;
+            }
             pixel_available = FALSE;
             for (
                 node.disparity = 0;
-- 
2.43.0


From a6c1161f51af096491cf41df4ece4f6359092504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 02/18] fix: choose the best node among negative penalties

choose_best_node used a negative value as the 'no penalty yet' marker, so
with reparametrized (negative) penalties the minimum was overwritten by the
last one and a worse node could be chosen.
---
 lib/labeling_finder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index eb25e4f..7803ccb 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -265,7 +265,8 @@ __device__ struct ConstraintGraph* choose_best_node(
     struct Node node;
     node.pixel = pixel;
     node.disparity = 0;
-    FLOAT minimal_penalty = -1;
+    FLOAT minimal_penalty = 0;
+    bool penalty_found = false;
     for (
         node.disparity = 0;
         node.pixel.x + node.disparity < graph->disparity_graph->left.width
@@ -278,9 +279,10 @@ __device__ struct ConstraintGraph* choose_best_node(
             continue;
         }
 
-        if (minimal_penalty < 0)
+        if (!penalty_found)
         {
             minimal_penalty = node_penalty(graph->disparity_graph, node);
+            penalty_found = true;
         }
         else {
             minimal_penalty = MIN(
-- 
2.43.0


From 6667075efbe2ee4f38c28b86bfcbddc7c99e9613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 03/18] fix: take only existing edges into account for left
 neighbors

The lower bound on the neighbor's disparity holds for the right neighbor only.
For the left one, nonexistent edges were counted and existing ones skipped, so
the lowest penalty of a neighborhood depended on its direction.
---
 lib/labeling_finder.cpp  | 19 ++++++-------------
 lib/lowest_penalties.cpp | 19 ++++++-------------
 2 files changed, 12 insertions(+), 26 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 7803ccb..55063c3 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -46,6 +46,7 @@ namespace finder
 {
 
 using sp::graph::disparity::NEIGHBORS_COUNT;
+using sp::indexing::checks::edge_exists;
 using sp::indexing::checks::neighborhood_exists_fast;
 using sp::indexing::neighbor_by_index;
 using sp::indexing::pixel_index;
@@ -106,7 +107,6 @@ __device__ FLOAT_ARRAY fetch_edge_available_penalties(
 {
     FLOAT_ARRAY result;
 
-    ULONG initial_disparity = 0;
     for (
         edge.node.disparity = 0;
         edge.node.pixel.x + edge.node.disparity < graph->left.width
@@ -114,24 +114,17 @@ __device__ FLOAT_ARRAY fetch_edge_available_penalties(
         ++edge.node.disparity
     )
     {
-        if (
-            edge.node.disparity <= 1
-            || edge.neighbor.pixel.x == edge.node.pixel.x
-        )
-        {
-            initial_disparity = 0;
-        }
-        else
-        {
-            initial_disparity = edge.node.disparity - 1;
-        }
         for (
-            edge.neighbor.disparity = initial_disparity;
+            edge.neighbor.disparity = 0;
             edge.neighbor.pixel.x + edge.neighbor.disparity < graph->left.width
                 && edge.neighbor.disparity < graph->disparity_levels;
             ++edge.neighbor.disparity
         )
         {
+            if (!edge_exists(graph, edge))
+            {
+                continue;
+            }
             result.push_back(edge_penalty(graph, edge) - minimal_penalty);
         }
     }
diff --git a/lib/lowest_penalties.cpp b/lib/lowest_penalties.cpp
index 8b3649b..694a0c9 100644
--- a/lib/lowest_penalties.cpp
+++ b/lib/lowest_penalties.cpp
@@ -33,6 +33,7 @@ namespace lowest_penalties
 {
 
 using sp::graph::disparity::NEIGHBORS_COUNT;
+using sp::indexing::checks::edge_exists;
 using sp::indexing::checks::neighborhood_exists_fast;
 using sp::indexing::neighbor_by_index;
 using sp::indexing::neighborhood_index;
@@ -144,7 +145,6 @@ __device__ FLOAT calculate_lowest_neighborhood_penalty_fast(
 )
 {
     FLOAT minimal_penalty = edge_penalty(graph, edge);
-    ULONG initial_disparity = 0;
     for (
         edge.node.disparity = 0;
         edge.node.pixel.x + edge.node.disparity < graph->left.width
@@ -152,24 +152,17 @@ __device__ FLOAT calculate_lowest_neighborhood_penalty_fast(
         ++edge.node.disparity
     )
     {
-        if (
-            edge.node.disparity <= 1
-            || edge.neighbor.pixel.x == edge.node.pixel.x
-        )
-        {
-            initial_disparity = 0;
-        }
-        else
-        {
-            initial_disparity = edge.node.disparity - 1;
-        }
         for (
-            edge.neighbor.disparity = initial_disparity;
+            edge.neighbor.disparity = 0;
             edge.neighbor.pixel.x + edge.neighbor.disparity < graph->left.width
                 && edge.neighbor.disparity < graph->disparity_levels;
             ++edge.neighbor.disparity
         )
         {
+            if (!edge_exists(graph, edge))
+            {
+                continue;
+            }
             minimal_penalty = MIN(
                 edge_penalty(graph, edge),
                 minimal_penalty
-- 
2.43.0


From be6845302f80450618808cd014c2046cb5394d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 04/18] fix: report a pixel with two labels when building a
 disparity map

The loop stopped at the first available node, so the check for the second one
never fired and an ambiguous graph was silently turned into a map.
---
 lib/labeling_finder.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 55063c3..573a0bb 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -415,7 +415,6 @@ __device__ struct Image build_disparity_map(
                     result.data[pixel_index(&result, node.pixel)]
                         = node.disparity;
                     found = true;
-                    break;
                 }
             }
             if (!found)
-- 
2.43.0


From 1b4007bab9d9792d199c7fa96fd5726ec0c2bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 05/18] fix: skip a best node which belongs to no labeling

---
 include/labeling_finder.hpp |  4 +++-
 lib/labeling_finder.cpp     | 31 +++++++++++++++++++++++++------
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/labeling_finder.hpp b/include/labeling_finder.hpp
index 8d35b74..e07a7eb 100644
--- a/include/labeling_finder.hpp
+++ b/include/labeling_finder.hpp
@@ -166,7 +166,9 @@ struct ConstraintGraph* find_labeling_cuda(
  *
  *   - execute sp::labeling::finder::choose_best_node to use the best node;
  *   - run sp::graph::constraint::solve_csp for the graph
- *   to remove inconsistent nodes and edges.
+ *   to remove inconsistent nodes and edges;
+ *   - if nothing is left, the chosen node doesn't belong to any labeling:
+ *   return to the previous state, remove this node and repeat.
  *
  * As the result,
  * we will have a graph,
diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 573a0bb..59327f8 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -51,6 +51,7 @@ using sp::indexing::checks::neighborhood_exists_fast;
 using sp::indexing::neighbor_by_index;
 using sp::indexing::pixel_index;
 using sp::types::BOOL;
+using sp::types::BOOL_ARRAY;
 using sp::types::Node;
 using sp::types::ULONG;
 using sp::types::ULONG_ARRAY;
@@ -349,13 +350,31 @@ __device__ struct ConstraintGraph* find_labeling(
     {
         for (ULONG y = 0; y < graph->disparity_graph->left.height; ++y)
         {
-            if (choose_best_node(graph, {x, y}) == nullptr)
+            while (true)
             {
-                return nullptr;
-            }
-            if (!solve_csp(graph))
-            {
-                return nullptr;
+                const BOOL_ARRAY nodes_availability
+                    = graph->nodes_availability;
+                if (choose_best_node(graph, {x, y}) == nullptr)
+                {
+                    return nullptr;
+                }
+                struct Node node{{x, y}, 0};
+                while (!is_node_available(graph, node))
+                {
+                    ++node.disparity;
+                }
+                if (solve_csp(graph))
+                {
+                    break;
+                }
+                // The best node doesn't belong to any labeling:
+                // continue without it.
+                graph->nodes_availability = nodes_availability;
+                make_node_unavailable(graph, node);
+                if (!solve_csp(graph))
+                {
+                    return nullptr;
+                }
             }
         }
     }
-- 
2.43.0


From 94005abe2e401ebb54c790395169dc72ee399400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 06/18] fix: set failbit for a PGM number which doesn't fit the
 type

---
 lib/pgm_io.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index a833bd5..3d82033 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -44,6 +44,7 @@ using std::isspace;
 using std::make_shared;
 using std::move;
 using std::numeric_limits;
+using std::out_of_range;
 using std::stoul;
 using std::streamsize;
 using std::string;
@@ -166,6 +167,11 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         in.setstate(ios_base::failbit);
         return in;
     }
+    catch (out_of_range&)
+    {
+        in.setstate(ios_base::failbit);
+        return in;
+    }
 
     if (image->max_value > PGM_IO::MAX_VALUE_LIMIT)
     {
@@ -188,6 +194,11 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
                 in.setstate(ios_base::failbit);
                 return in;
             }
+            catch (out_of_range&)
+            {
+                in.setstate(ios_base::failbit);
+                return in;
+            }
         }
     }
 
-- 
2.43.0


From f8f5b1472f74ef4c1a90828502412f9d18fff7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 07/18] fix: refuse PGM numbers which aren't decimal integers

---
 include/pgm_io.hpp |  8 ++++++++
 lib/pgm_io.cpp     | 22 ++++++++++++++++++----
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/pgm_io.hpp b/include/pgm_io.hpp
index 137c980..2b089a0 100644
--- a/include/pgm_io.hpp
+++ b/include/pgm_io.hpp
@@ -75,6 +75,14 @@ private:
      * or blank string if input stream is finished.
      */
     static std::string read_pgm_instruction(std::istream& in);
+    /**
+     * \brief Read the next chunk as a non-negative decimal integer.
+     *
+     * Throws `std::invalid_argument` if the chunk contains anything
+     * except decimal digits or is blank,
+     * and `std::out_of_range` if the number is too big.
+     */
+    static sp::types::ULONG read_pgm_number(std::istream& in);
     /**
      * \brief Check whether PGM file ends correctly.
      *
diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 3d82033..1119ca0 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -87,6 +87,20 @@ string PGM_IO::read_pgm_instruction(istream& in)
     return current_input;
 }
 
+ULONG PGM_IO::read_pgm_number(istream& in)
+{
+    string current_input = PGM_IO::read_pgm_instruction(in);
+    if (
+        current_input.find_first_not_of("0123456789") != string::npos
+    )
+    {
+        throw invalid_argument(
+            "`" + current_input + "` is not a decimal number."
+        );
+    }
+    return stoul(current_input);
+}
+
 bool PGM_IO::check_file_end(istream& in)
 {
     char current_input;
@@ -158,9 +172,9 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
 
     try
     {
-        image->width = stoul(PGM_IO::read_pgm_instruction(in));
-        image->height = stoul(PGM_IO::read_pgm_instruction(in));
-        image->max_value = stoul(PGM_IO::read_pgm_instruction(in));
+        image->width = PGM_IO::read_pgm_number(in);
+        image->height = PGM_IO::read_pgm_number(in);
+        image->max_value = PGM_IO::read_pgm_number(in);
     }
     catch (invalid_argument&)
     {
@@ -187,7 +201,7 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
             try
             {
                 image->data[pixel_index(image.get(), {x, y})] =
-                    stoul(PGM_IO::read_pgm_instruction(in));
+                    PGM_IO::read_pgm_number(in);
             }
             catch (invalid_argument&)
             {
-- 
2.43.0


From 66f122b483349e07c1c8746b178b0e13dfdce426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 08/18] fix: don't trust the PGM header to allocate an image

---
 lib/pgm_io.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 1119ca0..cda9241 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -192,7 +192,11 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         in.setstate(ios_base::failbit);
         return in;
     }
-    image->data.resize(image->width * image->height);
+    if (image->width == 0 || image->height == 0)
+    {
+        in.setstate(ios_base::failbit);
+        return in;
+    }
 
     for (ULONG y = 0; y < image->height; ++y)
     {
@@ -200,8 +204,7 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         {
             try
             {
-                image->data[pixel_index(image.get(), {x, y})] =
-                    PGM_IO::read_pgm_number(in);
+                image->data.push_back(PGM_IO::read_pgm_number(in));
             }
             catch (invalid_argument&)
             {
-- 
2.43.0


From b0fbc32cd93a0c363d4f240d343c1a220eabf40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:06 +0000
Subject: [PATCH 09/18] fix: don't provide an image from a PGM file with
 redundant data

---
 lib/pgm_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index cda9241..1fb59aa 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -220,6 +220,10 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
     }
 
     PGM_IO::check_file_end(in);
+    if (in.fail())
+    {
+        return in;
+    }
 
     ppm_io.set_image(image);
 
-- 
2.43.0


From 1a1129f262237cca8e88beab648132b96bc76526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 10/18] fix: treat an image with the wrong amount of data as
 invalid

---
 lib/image.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/image.cpp b/lib/image.cpp
index 9f4100b..9fb5619 100644
--- a/lib/image.cpp
+++ b/lib/image.cpp
@@ -36,6 +36,15 @@ BOOL image_valid(const struct Image* image)
     {
         return false;
     }
+#if !defined(__OPENCL_C_VERSION__) && !defined(__CUDA_ARCH__)
+    if (
+        image->data.size() % image->width != 0
+        || image->data.size() / image->width != image->height
+    )
+    {
+        return false;
+    }
+#endif
     for (unsigned i = 0; i < image->width * image->height; ++i)
     {
         if (image->data[i] > image->max_value)
-- 
2.43.0


From 3b3d5d9800723eca0c63c36c78492464cfc3eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:07 +0000
Subject: [PATCH 11/18] fix: refuse weights which aren't finite numbers

---
 lib/disparity_graph.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/disparity_graph.cpp b/lib/disparity_graph.cpp
index 8cf2086..75ad8f9 100644
--- a/lib/disparity_graph.cpp
+++ b/lib/disparity_graph.cpp
@@ -25,6 +25,7 @@
 #include <indexing.hpp>
 
 #if !defined(__OPENCL_C_VERSION__) && !defined(__CUDA_ARCH__)
+#include <cmath>
 #include <limits>
 #include <stdexcept>
 #include <string>
@@ -133,19 +134,21 @@ DisparityGraph::DisparityGraph(
             + "respectively."
         );
     }
-    if (this->cleanness < 0)
+    if (!std::isfinite(this->cleanness) || this->cleanness < 0)
     {
         throw std::invalid_argument(
-            "Cleanness weight should not be negative. "
+            "Cleanness weight should be finite "
+            "and should not be negative. "
             "Actual value is "
             + std::to_string(this->cleanness)
             + "."
         );
     }
-    if (this->smoothness < 0)
+    if (!std::isfinite(this->smoothness) || this->smoothness < 0)
     {
         throw std::invalid_argument(
-            "Smoothness weight should not be negative. "
+            "Smoothness weight should be finite "
+            "and should not be negative. "
             "Actual value is "
             + std::to_string(this->smoothness)
             + "."
-- 
2.43.0


From 74c8a8be4fb4978c8918858b98002405f20d95b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:17 +0000
Subject: [PATCH 12/18] fix: return nonzero exit code when the command fails

---
 lib/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/main.cpp b/lib/main.cpp
index 583277d..958dc72 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -244,10 +244,12 @@ int main(int argc, char* argv[]) try
         catch (std::invalid_argument& e)
         {
             std::cerr << "Invalid argument: " << e.what() << std::endl;
+            return 1;
         }
         catch (std::logic_error& e)
         {
             std::cerr << "Logic error: " << e.what() << std::endl;
+            return 1;
         }
     }
     else if (vm.count("left-image") == 0 || vm.count("right-image") == 0)
@@ -255,12 +257,14 @@ int main(int argc, char* argv[]) try
         std::cerr
             << "You should specify both left and right image."
             << std::endl;
+        return 1;
     }
     else if (vm.count("output-image") == 0)
     {
         std::cerr
             << "You should specify the output image path."
             << std::endl;
+        return 1;
     }
     else
     {
-- 
2.43.0


From 322c77069fdb1aa0628b21a23f5ea6da36886ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 13/18] fix: show help when it is requested or there are no
 parameters

---
 lib/main.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/main.cpp b/lib/main.cpp
index 958dc72..3f94c3d 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -76,6 +76,17 @@ int main(int argc, char* argv[]) try
 
     boost::program_options::notify(vm);
 
+    if (vm.count("help") != 0)
+    {
+        std::cout << desc;
+        return 0;
+    }
+    if (argc <= 1)
+    {
+        std::cout << desc;
+        return 1;
+    }
+
     if (
         vm.count("output-image") == 1
         && vm.count("left-image") == 1
@@ -266,11 +277,6 @@ int main(int argc, char* argv[]) try
             << std::endl;
         return 1;
     }
-    else
-    {
-        std::cout << desc;
-        return 1;
-    }
     return 0;
 }
 catch(std::exception& e) {
-- 
2.43.0


From 1f1393b4e3aa6849ee80df5dee4a40a3343e613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:35 +0000
Subject: [PATCH 14/18] fix: don't truncate or wrap numeric command line
 parameters

---
 lib/main.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/lib/main.cpp b/lib/main.cpp
index 3f94c3d..a5a7d4d 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -18,6 +18,8 @@
 #include <string>
 
 struct sp::image::Image read_image(const std::string& image_path);
+sp::types::FLOAT parse_weight(const std::string& input);
+sp::types::ULONG parse_disparity_levels(const std::string& input);
 
 enum Parallelism
 {
@@ -154,21 +156,21 @@ int main(int argc, char* argv[]) try
             }
             else
             {
-                disparity_levels = std::stoul(
+                disparity_levels = parse_disparity_levels(
                     vm["disparity-levels"].as<std::string>()
                 );
             }
             sp::types::FLOAT cleanness = 1;
             if (vm.count("cleanness") == 1)
             {
-                cleanness = std::stoul(
+                cleanness = parse_weight(
                     vm["cleanness"].as<std::string>()
                 );
             }
             sp::types::FLOAT smoothness = 1;
             if (vm.count("smoothness") == 1)
             {
-                smoothness = std::stoul(
+                smoothness = parse_weight(
                     vm["smoothness"].as<std::string>()
                 );
             }
@@ -317,3 +319,25 @@ struct sp::image::Image read_image(const std::string& image_path)
     }
     return *pgm_io.get_image();
 }
+
+sp::types::FLOAT parse_weight(const std::string& input)
+{
+    std::size_t parsed = 0;
+    sp::types::FLOAT weight = std::stod(input, &parsed);
+    if (parsed != input.size())
+    {
+        throw std::invalid_argument("`" + input + "` is not a number.");
+    }
+    return weight;
+}
+
+sp::types::ULONG parse_disparity_levels(const std::string& input)
+{
+    if (input.find_first_not_of("0123456789") != std::string::npos)
+    {
+        throw std::invalid_argument(
+            "`" + input + "` is not a number of disparity levels."
+        );
+    }
+    return std::stoul(input);
+}
-- 
2.43.0


From b26d37d98a32bab1f3232741d7c5fff6bc6e8d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 15/18] fix: report an error when the output image can't be
 written

---
 lib/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/main.cpp b/lib/main.cpp
index a5a7d4d..597359c 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -253,6 +253,14 @@ int main(int argc, char* argv[]) try
             std::ofstream image_file(vm["output-image"].as<std::string>());
             sp::image::PGM_IO pgm_io{result};
             image_file << pgm_io;
+            image_file.close();
+            if (!image_file)
+            {
+                throw std::invalid_argument(
+                    "Unable to write file `"
+                    + vm["output-image"].as<std::string>() + "`."
+                );
+            }
         }
         catch (std::invalid_argument& e)
         {
-- 
2.43.0


From b02feb938ee1d24fdd238b2b4a055f275abc7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 16/18] fix: don't write an image the PGM format cannot
 represent

An image with maximum above MAX_VALUE_LIMIT was written as a text
which the reader refuses, with lines longer than MAX_COLUMNS.
---
 lib/pgm_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 1fb59aa..61c8a3c 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -130,6 +130,10 @@ ostream& operator<<(ostream& out, const PGM_IO& ppm_io)
         return out;
     }
     shared_ptr<struct Image> image = ppm_io.get_image();
+    if (image->max_value > PGM_IO::MAX_VALUE_LIMIT)
+    {
+        return out;
+    }
     out << PGM_IO::FORMAT_CODE << endl;
     out << image->width << " " << image->height << endl;
     out << image->max_value << endl;
-- 
2.43.0


From e5d80f2496ae0da1221458a9bb53605947ecd3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:18 +0000
Subject: [PATCH 17/18] fix: don't bring back removed nodes when making all of
 them unavailable

---
 lib/constraint_graph.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/constraint_graph.cpp b/lib/constraint_graph.cpp
index 5e03d5c..694d3eb 100644
--- a/lib/constraint_graph.cpp
+++ b/lib/constraint_graph.cpp
@@ -141,7 +141,13 @@ __device__ void make_all_nodes_unavailable(struct ConstraintGraph* graph)
         ++index
     )
     {
-        graph->nodes_availability[index] = FALSE;
+        // Don't write what is already there: the write affects nodes stored
+        // in the same word, and may bring back all those removed by other
+        // threads meanwhile, so that no node is removed in the end.
+        if (graph->nodes_availability[index])
+        {
+            graph->nodes_availability[index] = FALSE;
+        }
     }
 }
 
-- 
2.43.0


From 4aef7c4d53fe36eac0d5bfbf042ecf3d771f1a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:07 +0000
Subject: [PATCH 18/18] fix: find the same labeling on an OpenCL device as on
 the CPU

Work items of different groups can't wait for each other by a barrier,
and those of the same group may leave the loop at different moments.
Run one pass per launch instead, and let the host repeat it.
Also continue with the next best node when the best one of a pixel
doesn't belong to any labeling, and report a failure, as on the CPU.
---
 include/gpu_csp.hpp     |  5 ++-
 lib/gpu_csp.cpp         | 85 +++++++++++++++++++++++++++++++++++------
 lib/labeling_finder.cpp |  3 +-
 lib/solve_csp.cl        | 35 +++--------------
 4 files changed, 84 insertions(+), 44 deletions(-)

diff --git a/include/gpu_csp.hpp b/include/gpu_csp.hpp
index 1427e61..50e87e6 100644
--- a/include/gpu_csp.hpp
+++ b/include/gpu_csp.hpp
@@ -58,12 +58,15 @@ void build_csp_program(struct Problem* problem);
 void prepare_problem(struct ConstraintGraph* graph, struct Problem* problem);
 
 /**
- * \brief Remove all nodes that have no any edges at least to one neighbor
+ * \brief Choose the best node of each pixel, and
+ * remove all nodes that have no any edges at least to one neighbor
  * until there is nothing to remove
  * (anything is removed or all nodes have neighbors),
  * and save the nodes availability data
  * (sp::graph::constraint::ConstraintGraph::nodes_availability)
  * into the input sp::graph::constraint::ConstraintGraph.
+ *
+ * If there is no labeling, sp::types::FALSE is returned.
  */
 BOOL csp_solution_cl(
     struct ConstraintGraph* graph,
diff --git a/lib/gpu_csp.cpp b/lib/gpu_csp.cpp
index 162b818..f0f5d4c 100644
--- a/lib/gpu_csp.cpp
+++ b/lib/gpu_csp.cpp
@@ -1,5 +1,6 @@
 #include <compile_cl.hpp>
 #include <gpu_csp.hpp>
+#include <indexing.hpp>
 
 #include <iostream>
 #include <string>
@@ -13,6 +14,9 @@ namespace compute = boost::compute;
 using boost::compute::command_queue;
 using boost::compute::kernel;
 using boost::compute::system;
+using sp::indexing::node_index;
+using sp::types::FALSE;
+using sp::types::TRUE;
 using std::cout;
 using std::endl;
 using std::string;
@@ -69,7 +73,8 @@ BOOL csp_solution_cl(
 
     vector<int> tmp(graph->nodes_availability.begin(), graph->nodes_availability.end());
     compute::vector<int> nodes_availability(tmp, problem->queue);
-    compute::vector<int> changed({0, 0}, problem->queue);
+    compute::vector<int> nodes_availability_backup(tmp, problem->queue);
+    compute::vector<int> changed({0}, problem->queue);
 
     kernel csp_iteration = problem->program.create_kernel("csp_iteration");
     csp_iteration.set_args(
@@ -113,26 +118,82 @@ BOOL csp_solution_cl(
     auto x_index = static_cast<cl_ulong>(choose_best_node_gpu.arity() - 2);
     auto y_index = static_cast<cl_ulong>(choose_best_node_gpu.arity() - 1);
 
+    const ULONG disparity_levels = graph->disparity_graph->disparity_levels;
+    const auto solve_csp = [&]()
+    {
+        do
+        {
+            changed[0] = 0;
+            queue.enqueue_1d_range_kernel(
+                csp_iteration,
+                0,
+                graph->disparity_graph->right.data.size(),
+                0
+            );
+            queue.finish();
+        } while (changed[0] != 0);
+    };
+    // The first available disparity of the pixel,
+    // or the number of disparity levels if there is no such one.
+    const auto available_disparity = [&](ULONG pixel_start)
+    {
+        vector<int> pixel_nodes(disparity_levels);
+        compute::copy(
+            nodes_availability.begin() + pixel_start,
+            nodes_availability.begin() + pixel_start + disparity_levels,
+            pixel_nodes.begin(),
+            queue
+        );
+        ULONG disparity = 0;
+        while (disparity < disparity_levels && !pixel_nodes[disparity])
+        {
+            ++disparity;
+        }
+        return disparity;
+    };
+
     for (ULONG x = 0; x < graph->disparity_graph->right.width; ++x)
     {
         for (ULONG y = 0; y < graph->disparity_graph->right.height; ++y)
         {
+            const ULONG pixel_start = node_index(
+                graph->disparity_graph, {{x, y}, 0}
+            );
             choose_best_node_gpu.set_arg(x_index, x);
             choose_best_node_gpu.set_arg(y_index, y);
-            queue.enqueue_task(choose_best_node_gpu);
-            queue.finish();
 
-            do
+            while (true)
             {
-                queue.enqueue_1d_range_kernel(
-                    csp_iteration,
-                    0,
-                    graph->disparity_graph->right.data.size(),
-                    0
+                compute::copy(
+                    nodes_availability.begin(),
+                    nodes_availability.end(),
+                    nodes_availability_backup.begin(),
+                    queue
                 );
-
+                queue.enqueue_task(choose_best_node_gpu);
                 queue.finish();
-            } while (changed[1] != 0);
+
+                const ULONG best = available_disparity(pixel_start);
+                if (best == disparity_levels)
+                {
+                    return FALSE;
+                }
+                solve_csp();
+                if (available_disparity(pixel_start) != disparity_levels)
+                {
+                    break;
+                }
+                // The best node doesn't belong to any labeling:
+                // continue without it.
+                compute::copy(
+                    nodes_availability_backup.begin(),
+                    nodes_availability_backup.end(),
+                    nodes_availability.begin(),
+                    queue
+                );
+                nodes_availability[pixel_start + best] = 0;
+                solve_csp();
+            }
         }
     }
 
@@ -140,7 +201,7 @@ BOOL csp_solution_cl(
         nodes_availability.begin(),
         nodes_availability.end()
     );
-    return changed[1] != 0;
+    return TRUE;
 }
 
 }
diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 59327f8..8bbdc7c 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -324,8 +324,7 @@ struct ConstraintGraph* find_labeling_cl(
     struct gpu::Problem problem;
     build_csp_program(&problem);
     prepare_problem(graph, &problem);
-    gpu::csp_solution_cl(graph, &problem);
-    return graph;
+    return gpu::csp_solution_cl(graph, &problem)? graph : nullptr;
 }
 #endif
 
diff --git a/lib/solve_csp.cl b/lib/solve_csp.cl
index 3b8b3c6..9322f62 100644
--- a/lib/solve_csp.cl
+++ b/lib/solve_csp.cl
@@ -51,26 +51,6 @@ void populate_structures_gpu(
     constraint_graph->disparity_graph = disparity_graph;
 }
 
-void csp_solution_iteration_gpu(
-    struct ConstraintGraph* constraint_graph,
-    struct Pixel pixel,
-    __global int* changed_step,
-    __global int* changed_any
-)
-{
-    do
-    {
-        *changed_step = 0;
-        barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);
-        if (csp_process_pixel(constraint_graph, pixel))
-        {
-            *changed_step = 1;
-            *changed_any = 1;
-        }
-        barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);
-    } while (*changed_step);
-}
-
 __kernel void csp_iteration(
     __global int* nodes_availability,
     __global int* changed,
@@ -113,19 +93,16 @@ __kernel void csp_iteration(
         smoothness
     );
 
-    atomic_and(&changed[0], 0);
-    atomic_and(&changed[1], 0);
-
     struct Pixel pixel;
     pixel.x = thread_id % constraint_graph.disparity_graph->right.width;
     pixel.y = thread_id / constraint_graph.disparity_graph->right.width;
 
-    csp_solution_iteration_gpu(
-        &constraint_graph,
-        pixel,
-        &changed[0],
-        &changed[1]
-    );
+    // Work items of different groups cannot wait for each other:
+    // the host launches the kernel until nothing is changed.
+    if (csp_process_pixel(&constraint_graph, pixel))
+    {
+        atomic_or(changed, 1);
+    }
 }
 
 __kernel void choose_best_node_gpu(
-- 
2.43.0

