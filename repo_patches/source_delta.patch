From 30df06e9bb5f97322bf2e1208cd8c03b03459061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:00 +0000
Subject: [PATCH 01/12] fix: iterating over a CellArray skips the empty levels
 between two non-empty ones

---
 include/samurai/cell_array.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/samurai/cell_array.hpp b/include/samurai/cell_array.hpp
index ce7d625..a5d38d8 100644
--- a/include/samurai/cell_array.hpp
+++ b/include/samurai/cell_array.hpp
@@ -607,7 +607,12 @@ namespace samurai
         ++m_lca_it;
         if (m_lca_it.level() < p_ca->max_level() && m_lca_it == (*p_ca)[m_lca_it.level()].end())
         {
-            m_lca_it = (*p_ca)[m_lca_it.level() + 1].begin();
+            auto level = m_lca_it.level() + 1;
+            while ((*p_ca)[level].empty())
+            {
+                ++level;
+            }
+            m_lca_it = (*p_ca)[level].begin();
         }
         return *this;
     }
@@ -622,7 +627,12 @@ namespace samurai
 
         if (m_lca_it.level() > p_ca->min_level() && m_lca_it == (*p_ca)[m_lca_it.level()].begin())
         {
-            m_lca_it = (*p_ca)[m_lca_it.level() - 1].end();
+            auto level = m_lca_it.level() - 1;
+            while ((*p_ca)[level].empty())
+            {
+                --level;
+            }
+            m_lca_it = (*p_ca)[level].end();
         }
         --m_lca_it;
         return *this;
-- 
2.43.0


From 9f531475452c13bd349f9de1c720d06e2602477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:29 +0000
Subject: [PATCH 02/12] fix: discretising a box truncates the number of cells
 and can lose a layer

The length of the approximated box is a multiple of the cell length, but their
floating-point quotient can be just below the integer (0.37 x 1.11 at level 3 had
23 rows instead of 24). Round to the nearest integer instead of truncating.
---
 include/samurai/level_cell_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/samurai/level_cell_array.hpp b/include/samurai/level_cell_array.hpp
index efdb732..f69156a 100644
--- a/include/samurai/level_cell_array.hpp
+++ b/include/samurai/level_cell_array.hpp
@@ -363,7 +363,8 @@ namespace samurai
 
         point_t start_pt;
         start_pt.fill(0);
-        point_t end_pt = approx_box.length() / cell_length();
+        // the length is a multiple of the cell length: round, a truncation could lose a layer of cells
+        point_t end_pt = xt::rint(approx_box.length() / cell_length());
         init_from_box(box_t{start_pt, end_pt});
     }
 
-- 
2.43.0


From 7e5117a8365edee27b330be715d220e1cf6bc7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:48 +0000
Subject: [PATCH 03/12] fix: prediction on fine intervals of multi-component
 SOA fields (1-D and 3-D) cut the components, not the cells

---
 include/samurai/numeric/prediction.hpp | 143 +++++++++++++++----------
 1 file changed, 85 insertions(+), 58 deletions(-)

diff --git a/include/samurai/numeric/prediction.hpp b/include/samurai/numeric/prediction.hpp
index b205eae..678707d 100644
--- a/include/samurai/numeric/prediction.hpp
+++ b/include/samurai/numeric/prediction.hpp
@@ -308,6 +308,33 @@ namespace samurai
         return qs(std::integral_constant<std::size_t, 1>{}, level, i, j, k);
     }
 
+    // Q-terms of a row without its first (last) cells: the cells are on the second axis for a multi-component SOA field
+    template <class Field, class Q>
+    inline auto skip_first_cells(const Q& qs, int n)
+    {
+        if constexpr (Field::is_soa && Field::size > 1)
+        {
+            return xt::view(qs, xt::all(), xt::range(n, qs.shape()[1]));
+        }
+        else
+        {
+            return xt::view(qs, xt::range(n, qs.shape()[0]));
+        }
+    }
+
+    template <class Field, class Q>
+    inline auto skip_last_cells(const Q& qs, int n)
+    {
+        if constexpr (Field::is_soa && Field::size > 1)
+        {
+            return xt::view(qs, xt::all(), xt::range(0, safe_subs<int>(qs.shape()[1], n)));
+        }
+        else
+        {
+            return xt::view(qs, xt::range(0, safe_subs<int>(qs.shape()[0], n)));
+        }
+    }
+
     /////////////////////////
     // prediction operator //
     /////////////////////////
@@ -432,7 +459,7 @@ namespace samurai
         {
             auto coarse_even_i  = even_i >> 1;
             auto dec_even       = (i.start & 1) ? 1 : 0;
-            dest(level, even_i) = src(level - 1, coarse_even_i) + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]));
+            dest(level, even_i) = src(level - 1, coarse_even_i) + skip_first_cells<T2>(qs_i, dec_even);
         }
 
         auto odd_i = i.odd_elements();
@@ -440,7 +467,7 @@ namespace samurai
         {
             auto coarse_odd_i  = odd_i >> 1;
             auto dec_odd       = (i.end & 1) ? 1 : 0;
-            dest(level, odd_i) = src(level - 1, coarse_odd_i) - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)));
+            dest(level, odd_i) = src(level - 1, coarse_odd_i) - skip_last_cells<T2>(qs_i, dec_odd);
         }
     }
 
@@ -733,13 +760,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]))
-                                              - xt::view(qs_j, xt::range(dec_even, qs_j.shape()[0]))
-                                              - xt::view(qs_k, xt::range(dec_even, qs_k.shape()[0]))
-                                              + xt::view(qs_ij, xt::range(dec_even, qs_ij.shape()[0]))
-                                              + xt::view(qs_ik, xt::range(dec_even, qs_ik.shape()[0]))
-                                              - xt::view(qs_jk, xt::range(dec_even, qs_jk.shape()[0]))
-                                              + xt::view(qs_ijk, xt::range(dec_even, qs_ijk.shape()[0]));
+                                              + skip_first_cells<T2>(qs_i, dec_even)
+                                              - skip_first_cells<T2>(qs_j, dec_even)
+                                              - skip_first_cells<T2>(qs_k, dec_even)
+                                              + skip_first_cells<T2>(qs_ij, dec_even)
+                                              + skip_first_cells<T2>(qs_ik, dec_even)
+                                              - skip_first_cells<T2>(qs_jk, dec_even)
+                                              + skip_first_cells<T2>(qs_ijk, dec_even);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -748,13 +775,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)))
-                                             - xt::view(qs_j, xt::range(0, safe_subs<int>(qs_j.shape()[0], dec_odd)))
-                                             - xt::view(qs_k, xt::range(0, safe_subs<int>(qs_k.shape()[0], dec_odd)))
-                                             - xt::view(qs_ij, xt::range(0, safe_subs<int>(qs_ij.shape()[0], dec_odd)))
-                                             - xt::view(qs_ik, xt::range(0, safe_subs<int>(qs_ik.shape()[0], dec_odd)))
-                                             - xt::view(qs_jk, xt::range(0, safe_subs<int>(qs_jk.shape()[0], dec_odd)))
-                                             - xt::view(qs_ijk, xt::range(0, safe_subs<int>(qs_ijk.shape()[0], dec_odd)));
+                                             - skip_last_cells<T2>(qs_i, dec_odd)
+                                             - skip_last_cells<T2>(qs_j, dec_odd)
+                                             - skip_last_cells<T2>(qs_k, dec_odd)
+                                             - skip_last_cells<T2>(qs_ij, dec_odd)
+                                             - skip_last_cells<T2>(qs_ik, dec_odd)
+                                             - skip_last_cells<T2>(qs_jk, dec_odd)
+                                             - skip_last_cells<T2>(qs_ijk, dec_odd);
                 }
             }
             else
@@ -765,13 +792,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]))
-                                              + xt::view(qs_j, xt::range(dec_even, qs_j.shape()[0]))
-                                              - xt::view(qs_k, xt::range(dec_even, qs_k.shape()[0]))
-                                              - xt::view(qs_ij, xt::range(dec_even, qs_ij.shape()[0]))
-                                              + xt::view(qs_ik, xt::range(dec_even, qs_ik.shape()[0]))
-                                              + xt::view(qs_jk, xt::range(dec_even, qs_jk.shape()[0]))
-                                              - xt::view(qs_ijk, xt::range(dec_even, qs_ijk.shape()[0]));
+                                              + skip_first_cells<T2>(qs_i, dec_even)
+                                              + skip_first_cells<T2>(qs_j, dec_even)
+                                              - skip_first_cells<T2>(qs_k, dec_even)
+                                              - skip_first_cells<T2>(qs_ij, dec_even)
+                                              + skip_first_cells<T2>(qs_ik, dec_even)
+                                              + skip_first_cells<T2>(qs_jk, dec_even)
+                                              - skip_first_cells<T2>(qs_ijk, dec_even);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -780,13 +807,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)))
-                                             + xt::view(qs_j, xt::range(0, safe_subs<int>(qs_j.shape()[0], dec_odd)))
-                                             - xt::view(qs_k, xt::range(0, safe_subs<int>(qs_k.shape()[0], dec_odd)))
-                                             + xt::view(qs_ij, xt::range(0, safe_subs<int>(qs_ij.shape()[0], dec_odd)))
-                                             - xt::view(qs_ik, xt::range(0, safe_subs<int>(qs_ik.shape()[0], dec_odd)))
-                                             + xt::view(qs_jk, xt::range(0, safe_subs<int>(qs_jk.shape()[0], dec_odd)))
-                                             + xt::view(qs_ijk, xt::range(0, safe_subs<int>(qs_ijk.shape()[0], dec_odd)));
+                                             - skip_last_cells<T2>(qs_i, dec_odd)
+                                             + skip_last_cells<T2>(qs_j, dec_odd)
+                                             - skip_last_cells<T2>(qs_k, dec_odd)
+                                             + skip_last_cells<T2>(qs_ij, dec_odd)
+                                             - skip_last_cells<T2>(qs_ik, dec_odd)
+                                             + skip_last_cells<T2>(qs_jk, dec_odd)
+                                             + skip_last_cells<T2>(qs_ijk, dec_odd);
                 }
             }
         }
@@ -800,13 +827,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]))
-                                              - xt::view(qs_j, xt::range(dec_even, qs_j.shape()[0]))
-                                              + xt::view(qs_k, xt::range(dec_even, qs_k.shape()[0]))
-                                              + xt::view(qs_ij, xt::range(dec_even, qs_ij.shape()[0]))
-                                              - xt::view(qs_ik, xt::range(dec_even, qs_ik.shape()[0]))
-                                              + xt::view(qs_jk, xt::range(dec_even, qs_jk.shape()[0]))
-                                              - xt::view(qs_ijk, xt::range(dec_even, qs_ijk.shape()[0]));
+                                              + skip_first_cells<T2>(qs_i, dec_even)
+                                              - skip_first_cells<T2>(qs_j, dec_even)
+                                              + skip_first_cells<T2>(qs_k, dec_even)
+                                              + skip_first_cells<T2>(qs_ij, dec_even)
+                                              - skip_first_cells<T2>(qs_ik, dec_even)
+                                              + skip_first_cells<T2>(qs_jk, dec_even)
+                                              - skip_first_cells<T2>(qs_ijk, dec_even);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -815,13 +842,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)))
-                                             - xt::view(qs_j, xt::range(0, safe_subs<int>(qs_j.shape()[0], dec_odd)))
-                                             + xt::view(qs_k, xt::range(0, safe_subs<int>(qs_k.shape()[0], dec_odd)))
-                                             - xt::view(qs_ij, xt::range(0, safe_subs<int>(qs_ij.shape()[0], dec_odd)))
-                                             + xt::view(qs_ik, xt::range(0, safe_subs<int>(qs_ik.shape()[0], dec_odd)))
-                                             + xt::view(qs_jk, xt::range(0, safe_subs<int>(qs_jk.shape()[0], dec_odd)))
-                                             + xt::view(qs_ijk, xt::range(0, safe_subs<int>(qs_ijk.shape()[0], dec_odd)));
+                                             - skip_last_cells<T2>(qs_i, dec_odd)
+                                             - skip_last_cells<T2>(qs_j, dec_odd)
+                                             + skip_last_cells<T2>(qs_k, dec_odd)
+                                             - skip_last_cells<T2>(qs_ij, dec_odd)
+                                             + skip_last_cells<T2>(qs_ik, dec_odd)
+                                             + skip_last_cells<T2>(qs_jk, dec_odd)
+                                             + skip_last_cells<T2>(qs_ijk, dec_odd);
                 }
             }
             else
@@ -832,13 +859,13 @@ namespace samurai
                     auto coarse_even_i        = even_i >> 1;
                     auto dec_even             = (i.start & 1) ? 1 : 0;
                     dest(level, even_i, j, k) = src(level - 1, coarse_even_i, j >> 1, k >> 1)
-                                              + xt::view(qs_i, xt::range(dec_even, qs_i.shape()[0]))
-                                              + xt::view(qs_j, xt::range(dec_even, qs_j.shape()[0]))
-                                              + xt::view(qs_k, xt::range(dec_even, qs_k.shape()[0]))
-                                              - xt::view(qs_ij, xt::range(dec_even, qs_ij.shape()[0]))
-                                              - xt::view(qs_ik, xt::range(dec_even, qs_ik.shape()[0]))
-                                              - xt::view(qs_jk, xt::range(dec_even, qs_jk.shape()[0]))
-                                              + xt::view(qs_ijk, xt::range(dec_even, qs_ijk.shape()[0]));
+                                              + skip_first_cells<T2>(qs_i, dec_even)
+                                              + skip_first_cells<T2>(qs_j, dec_even)
+                                              + skip_first_cells<T2>(qs_k, dec_even)
+                                              - skip_first_cells<T2>(qs_ij, dec_even)
+                                              - skip_first_cells<T2>(qs_ik, dec_even)
+                                              - skip_first_cells<T2>(qs_jk, dec_even)
+                                              + skip_first_cells<T2>(qs_ijk, dec_even);
                 }
 
                 auto odd_i = i.odd_elements();
@@ -847,13 +874,13 @@ namespace samurai
                     auto coarse_odd_i        = odd_i >> 1;
                     auto dec_odd             = (i.end & 1) ? 1 : 0;
                     dest(level, odd_i, j, k) = src(level - 1, coarse_odd_i, j >> 1, k >> 1)
-                                             - xt::view(qs_i, xt::range(0, safe_subs<int>(qs_i.shape()[0], dec_odd)))
-                                             + xt::view(qs_j, xt::range(0, safe_subs<int>(qs_j.shape()[0], dec_odd)))
-                                             + xt::view(qs_k, xt::range(0, safe_subs<int>(qs_k.shape()[0], dec_odd)))
-                                             + xt::view(qs_ij, xt::range(0, safe_subs<int>(qs_ij.shape()[0], dec_odd)))
-                                             + xt::view(qs_ik, xt::range(0, safe_subs<int>(qs_ik.shape()[0], dec_odd)))
-                                             - xt::view(qs_jk, xt::range(0, safe_subs<int>(qs_jk.shape()[0], dec_odd)))
-                                             - xt::view(qs_ijk, xt::range(0, safe_subs<int>(qs_ijk.shape()[0], dec_odd)));
+                                             - skip_last_cells<T2>(qs_i, dec_odd)
+                                             + skip_last_cells<T2>(qs_j, dec_odd)
+                                             + skip_last_cells<T2>(qs_k, dec_odd)
+                                             + skip_last_cells<T2>(qs_ij, dec_odd)
+                                             + skip_last_cells<T2>(qs_ik, dec_odd)
+                                             - skip_last_cells<T2>(qs_jk, dec_odd)
+                                             - skip_last_cells<T2>(qs_ijk, dec_odd);
                 }
             }
         }
-- 
2.43.0


From f6f9a1a6f60a2e777cedf0c1b7db44e2167d8928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:36 +0000
Subject: [PATCH 04/12] fix: swapping two meshes also swaps their periodicity

---
 include/samurai/mesh.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/samurai/mesh.hpp b/include/samurai/mesh.hpp
index 4f83875..f8993ab 100644
--- a/include/samurai/mesh.hpp
+++ b/include/samurai/mesh.hpp
@@ -523,6 +523,7 @@ namespace samurai
         swap(m_union, mesh.m_union);
         swap(m_max_level, mesh.m_max_level);
         swap(m_min_level, mesh.m_min_level);
+        swap(m_periodic, mesh.m_periodic);
     }
 
     template <class D, class Config>
-- 
2.43.0


From 1b0bd1033318a0aaa8f375665f4df9e5dc716210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:36 +0000
Subject: [PATCH 05/12] fix: a uniform mesh can be built from a list of cells

---
 include/samurai/uniform_mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/uniform_mesh.hpp b/include/samurai/uniform_mesh.hpp
index b600283..4338d12 100644
--- a/include/samurai/uniform_mesh.hpp
+++ b/include/samurai/uniform_mesh.hpp
@@ -101,7 +101,7 @@ namespace samurai
     template <class Config>
     inline UniformMesh<Config>::UniformMesh(const cl_type& cl)
     {
-        m_cells[mesh_id_t::cells] = {cl, false};
+        m_cells[mesh_id_t::cells] = {cl};
 
         update_sub_mesh();
         renumbering();
-- 
2.43.0


From f2c035ba69a64c6e1852718122624ce35ea03ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:39 +0000
Subject: [PATCH 06/12] fix: refine the coarse neighbours across a periodic
 boundary when grading

---
 include/samurai/mr/adapt.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/samurai/mr/adapt.hpp b/include/samurai/mr/adapt.hpp
index 1d87de0..9150fb4 100644
--- a/include/samurai/mr/adapt.hpp
+++ b/include/samurai/mr/adapt.hpp
@@ -299,13 +299,12 @@ namespace samurai
             for (std::size_t is = 0; is < stencil.shape(0); ++is)
             {
                 auto s = xt::view(stencil, is);
-                auto subset = intersection(translate(mesh[mesh_id_t::cells][level], s), mesh[mesh_id_t::all_cells][level - 1], mesh.domain())
-                                  .on(level);
+                auto subset = intersection(translate(mesh[mesh_id_t::cells][level], s), mesh[mesh_id_t::all_cells][level - 1]).on(level);
 
                 subset.apply_op(make_graduation(m_tag));
             }
 
-            update_tag_periodic(level, m_tag);
+            update_tag_periodic(level - 1, m_tag);
             update_tag_subdomains<false>(level, m_tag);
         }
         update_tag_subdomains<false>(min_level, m_tag);
-- 
2.43.0


From 025a90d819b925f31bbc075ab36045213a3421c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:53 +0000
Subject: [PATCH 07/12] fix: fill the ghosts beyond the edges and corners of a
 3D domain

---
 include/samurai/bc.hpp      | 16 ++++++++++++----
 include/samurai/stencil.hpp | 12 ++++++++++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/samurai/bc.hpp b/include/samurai/bc.hpp
index 7e42efc..bcfa174 100644
--- a/include/samurai/bc.hpp
+++ b/include/samurai/bc.hpp
@@ -1024,10 +1024,18 @@ namespace samurai
                                 }
                                 else if constexpr (dim == 3)
                                 {
-                                    auto subset = difference(domain,
-                                                             union_(translate(domain, one_interval * direction_t{-dir[0], 0, 0}),
-                                                                    translate(domain, one_interval * direction_t{0, -dir[1], 0}),
-                                                                    translate(domain, one_interval * direction_t{0, 0, -dir[2]})));
+                                    // On an edge, one component of the direction is zero: it must not be translated along
+                                    // (the domain minus itself is empty), so we use a non-zero component instead.
+                                    std::array<direction_t, dim> inwards;
+                                    for (std::size_t i = 0; i < dim; ++i)
+                                    {
+                                        std::size_t k = dir[i] != 0 ? i : find_direction_index(direction_t(dir));
+                                        inwards[i].fill(0);
+                                        inwards[i][k] = -one_interval * dir[k];
+                                    }
+                                    auto subset = difference(
+                                        domain,
+                                        union_(translate(domain, inwards[0]), translate(domain, inwards[1]), translate(domain, inwards[2])));
                                     __apply_extrapolation_bc_on_subset<stencil_size>(bc, level, field, dir, subset, only_fill_ghost_neighbours);
                                 }
                             }
diff --git a/include/samurai/stencil.hpp b/include/samurai/stencil.hpp
index 2bc132a..865e76c 100644
--- a/include/samurai/stencil.hpp
+++ b/include/samurai/stencil.hpp
@@ -414,6 +414,18 @@ namespace samurai
         {
             stencil_in_d = direction[0] * stencil_in_x;
         }
+        else if (dim == 3 && !is_cartesian(direction))
+        {
+            // The rotation below acts in one plane only, so a diagonal of the cube is handled apart:
+            // the line stencil is laid along the diagonal (as the rotation does in 2D).
+            for (std::size_t i = 0; i < stencil_size; ++i)
+            {
+                for (std::size_t k = 0; k < dim; ++k)
+                {
+                    stencil_in_d(i, k) = stencil_in_x(i, 0) * direction(k);
+                }
+            }
+        }
         else
         {
             // We apply to each vector in the stencil the rotation matrix
-- 
2.43.0


From 966fa9d7c2018022cfa04af96f69b23ac28b9543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:53 +0000
Subject: [PATCH 08/12] fix: for_each_cell over a subset looked up the index
 before setting y and z

---
 include/samurai/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/algorithm.hpp b/include/samurai/algorithm.hpp
index 2998e42..9282759 100644
--- a/include/samurai/algorithm.hpp
+++ b/include/samurai/algorithm.hpp
@@ -276,8 +276,8 @@ namespace samurai
             [&](const auto& interval, const auto& index_yz)
             {
                 index[0]                         = interval.start;
-                auto cell_index                  = lca.get_index(index);
                 xt::view(index, xt::range(1, _)) = index_yz;
+                auto cell_index                  = lca.get_index(index);
                 for (index_value_t i = interval.start; i < interval.end; ++i)
                 {
                     index[0] = i;
-- 
2.43.0


From 011503d61d93cba857472a029555c0fac9ad4bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:53 +0000
Subject: [PATCH 09/12] fix: make GaussLegendre::quadrature const so that
 make_field can use it

---
 include/samurai/numeric/gauss_legendre.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/samurai/numeric/gauss_legendre.hpp b/include/samurai/numeric/gauss_legendre.hpp
index 427223b..0658b06 100644
--- a/include/samurai/numeric/gauss_legendre.hpp
+++ b/include/samurai/numeric/gauss_legendre.hpp
@@ -28,7 +28,7 @@ namespace samurai
         }
 
         template <std::size_t func_result_size, std::size_t dim, class TInterval, class Func>
-        auto quadrature(const Cell<dim, TInterval>& cell, Func&& f)
+        auto quadrature(const Cell<dim, TInterval>& cell, Func&& f) const
         {
             const double half_h = cell.length / 2;
             if constexpr (func_result_size == 1)
@@ -49,7 +49,7 @@ namespace samurai
       private:
 
         template <std::size_t dim, class TInterval, class FuncResultType, class Func>
-        void compute_quadrature_sum(const Cell<dim, TInterval>& cell, FuncResultType& sum, Func&& f)
+        void compute_quadrature_sum(const Cell<dim, TInterval>& cell, FuncResultType& sum, Func&& f) const
         {
             static_assert(dim >= 1 && dim <= 3,
                           "The Gauss-Legendre quadrature is not implemented "
-- 
2.43.0


From 678eaf3b124b637ec1f8c7323bffc46ce961f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:02 +0000
Subject: [PATCH 10/12] fix: for_each_meshinterval dereferenced the iterators
 of an empty level

---
 include/samurai/algorithm.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/samurai/algorithm.hpp b/include/samurai/algorithm.hpp
index 9282759..53dd2c1 100644
--- a/include/samurai/algorithm.hpp
+++ b/include/samurai/algorithm.hpp
@@ -136,9 +136,12 @@ namespace samurai
     {
         using MeshInterval = typename LevelCellArray<dim, TInterval>::mesh_interval_t;
 
-        for (auto it = lca.cbegin(); it != lca.cend(); ++it)
+        if (!lca.empty())
         {
-            f(MeshInterval(lca.level(), *it, it.index()));
+            for (auto it = lca.cbegin(); it != lca.cend(); ++it)
+            {
+                f(MeshInterval(lca.level(), *it, it.index()));
+            }
         }
     }
 
-- 
2.43.0


From 1581e61443703be297958edb8c1c95d0f5825023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:34 +0000
Subject: [PATCH 11/12] fix: apply the boundary conditions before the periodic
 copies when updating the ghosts

---
 include/samurai/algorithm/update.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/samurai/algorithm/update.hpp b/include/samurai/algorithm/update.hpp
index a73d5eb..97e4099 100644
--- a/include/samurai/algorithm/update.hpp
+++ b/include/samurai/algorithm/update.hpp
@@ -134,9 +134,9 @@ namespace samurai
                             .on(level);
 
             expr.apply_op(variadic_prediction<pred_order, false>(field, other_fields...));
+            update_bc(level, field, other_fields...);
             update_ghost_periodic(level, field, other_fields...);
             update_ghost_subdomains(level, field, other_fields...);
-            update_bc(level, field, other_fields...);
         }
 
         times::timers.stop("ghost update");
-- 
2.43.0


From 320c73e30814abb1df341ca57b7c1b520fad78e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:45 +0000
Subject: [PATCH 12/12] fix: linear upwind convection of a vector field mixed
 its components

---
 .../schemes/fv/operators/convection_lin.hpp   | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/samurai/schemes/fv/operators/convection_lin.hpp b/include/samurai/schemes/fv/operators/convection_lin.hpp
index 21a2544..acf5395 100644
--- a/include/samurai/schemes/fv/operators/convection_lin.hpp
+++ b/include/samurai/schemes/fv/operators/convection_lin.hpp
@@ -48,8 +48,10 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = velocity(d);
-                            xt::col(coeffs[right], d) = 0;
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[left](i, i) = velocity(d);
+                            }
                         }
                         return coeffs;
                     };
@@ -68,8 +70,10 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = 0;
-                            xt::col(coeffs[right], d) = velocity(d);
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[right](i, i) = velocity(d);
+                            }
                         }
                         return coeffs;
                     };
@@ -178,8 +182,10 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = velocity(d);
-                            xt::col(coeffs[right], d) = 0;
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[left](i, i) = velocity(d);
+                            }
                         }
                     }
                     else // use the right values
@@ -193,8 +199,10 @@ namespace samurai
                         {
                             coeffs[left].fill(0);
                             coeffs[right].fill(0);
-                            xt::col(coeffs[left], d)  = 0;
-                            xt::col(coeffs[right], d) = velocity(d);
+                            for (std::size_t i = 0; i < field_size; ++i)
+                            {
+                                coeffs[right](i, i) = velocity(d);
+                            }
                         }
                     }
                     return coeffs;
-- 
2.43.0

