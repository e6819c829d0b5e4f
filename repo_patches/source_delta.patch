From a3489c476532ab04106785f8beda4bcf0a37f8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:52 +0000
Subject: [PATCH 01/45] fix: move items out of the work queue instead of
 copying them

A copy of a job which holds Python objects changes their reference counts
in a worker thread which does not hold the GIL.
---
 cppcore/include/detail/thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/include/detail/thread.hpp b/cppcore/include/detail/thread.hpp
index a7cc7d2..b70f949 100644
--- a/cppcore/include/detail/thread.hpp
+++ b/cppcore/include/detail/thread.hpp
@@ -49,7 +49,7 @@ public:
         if (q.empty())
             return {};
 
-        auto val = q.front();
+        auto val = std::move(q.front());
         q.pop();
         lk.unlock();
         production_cv.notify_one();
-- 
2.43.0


From f574d44a3b1be1280a2e337d3ad55c020c06f3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:52 +0000
Subject: [PATCH 02/45] fix: keep at most queue_size + num_threads jobs of
 parallel_for in memory

Finished jobs which wait to be retired and the job being produced were not
counted: a slow retire function made any number of jobs pile up.
---
 cppcore/include/detail/thread.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cppcore/include/detail/thread.hpp b/cppcore/include/detail/thread.hpp
index b70f949..d2d963d 100644
--- a/cppcore/include/detail/thread.hpp
+++ b/cppcore/include/detail/thread.hpp
@@ -124,13 +124,17 @@ void parallel_for(size_t size, size_t num_threads, size_t queue_size,
         Value value;
     };
 
-    detail::Queue<Job> work_queue{queue_size > 0 ? queue_size : num_threads};
+    auto const max_waiting = queue_size > 0 ? queue_size : num_threads;
+    detail::Queue<Job> work_queue{max_waiting};
     detail::Queue<Job> retirement_queue{};
+    // Holds an entry for each job in memory: from before it is produced until it has been retired
+    detail::Queue<size_t> jobs_in_memory{max_waiting + num_threads};
 
     // This thread produces new jobs and adds them to the work queue
     std::thread production_thread([&] {
         detail::QueueGuard<Job> guard{work_queue};
         for (auto id = size_t{0}; id < size; ++id) {
+            jobs_in_memory.push(id);
             work_queue.push({id, produce(id)});
         }
     });
@@ -154,6 +158,7 @@ void parallel_for(size_t size, size_t num_threads, size_t queue_size,
         while (auto maybe_job = retirement_queue.pop()) {
             auto job = maybe_job.get();
             retire(std::move(job.value), job.id);
+            jobs_in_memory.pop();
         }
     });
 
-- 
2.43.0


From 0bed4ad4c6447fac2ccfcabb107050d0027b7d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 03/45] fix: report exceptions of parallel jobs to the caller

An exception in produce, compute, retire or a thread pool job terminated
the whole process. Keep the first one, drop the remaining jobs and rethrow
it after all threads are done.
---
 cppcore/include/detail/thread.hpp | 60 +++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 6 deletions(-)

diff --git a/cppcore/include/detail/thread.hpp b/cppcore/include/detail/thread.hpp
index d2d963d..902aec8 100644
--- a/cppcore/include/detail/thread.hpp
+++ b/cppcore/include/detail/thread.hpp
@@ -1,6 +1,9 @@
 #pragma once
 #include <thread>
+#include <atomic>
 #include <queue>
+#include <mutex>
+#include <exception>
 #include <condition_variable>
 
 namespace cpb { namespace detail {
@@ -93,6 +96,36 @@ public:
     ~QueueGuard() { wq.remove_producer(); }
 };
 
+/**
+ Keeps the first exception thrown by any of the threads which share this object
+ */
+class SharedError {
+public:
+    /// Call `f` and keep its exception, but do nothing if there has already been an error
+    template<class F>
+    void guard(F&& f) {
+        if (has_error) { return; }
+
+        try {
+            f();
+        } catch (...) {
+            std::lock_guard<std::mutex> lk(m);
+            if (!error) { error = std::current_exception(); }
+            has_error = true;
+        }
+    }
+
+    /// To be called when the other threads are done
+    void rethrow() {
+        if (error) { std::rethrow_exception(std::move(error)); }
+    }
+
+private:
+    std::mutex m;
+    std::exception_ptr error;
+    std::atomic<bool> has_error{false};
+};
+
 #ifdef CPB_USE_MKL
 # include <mkl.h>
 
@@ -130,12 +163,17 @@ void parallel_for(size_t size, size_t num_threads, size_t queue_size,
     // Holds an entry for each job in memory: from before it is produced until it has been retired
     detail::Queue<size_t> jobs_in_memory{max_waiting + num_threads};
 
+    // After an error in any of the threads, the remaining jobs are dropped
+    detail::SharedError error;
+
     // This thread produces new jobs and adds them to the work queue
     std::thread production_thread([&] {
         detail::QueueGuard<Job> guard{work_queue};
         for (auto id = size_t{0}; id < size; ++id) {
-            jobs_in_memory.push(id);
-            work_queue.push({id, produce(id)});
+            error.guard([&] {
+                jobs_in_memory.push(id);
+                work_queue.push({id, produce(id)});
+            });
         }
     });
 
@@ -147,7 +185,7 @@ void parallel_for(size_t size, size_t num_threads, size_t queue_size,
             detail::QueueGuard<Job> guard{retirement_queue};
             while (auto maybe_job = work_queue.pop()) {
                 auto job = maybe_job.get();
-                compute(job.value);
+                error.guard([&] { compute(job.value); });
                 retirement_queue.push(std::move(job));
             }
         });
@@ -157,7 +195,7 @@ void parallel_for(size_t size, size_t num_threads, size_t queue_size,
     std::thread report_thread([&] {
         while (auto maybe_job = retirement_queue.pop()) {
             auto job = maybe_job.get();
-            retire(std::move(job.value), job.id);
+            error.guard([&] { retire(std::move(job.value), job.id); });
             jobs_in_memory.pop();
         }
     });
@@ -167,6 +205,7 @@ void parallel_for(size_t size, size_t num_threads, size_t queue_size,
         thread.join();
     }
     report_thread.join();
+    error.rethrow();
 }
 
 class ThreadPool {
@@ -176,20 +215,28 @@ public:
         for (auto& thread : workers) {
             thread = std::thread([&] {
                 while (auto maybe_job = queue.pop()) {
-                    maybe_job.get()();
+                    error.guard(maybe_job.get());
                 }
             });
         }
     }
 
-    ~ThreadPool() { join(); }
+    ~ThreadPool() { join_workers(); }
 
     template<class F>
     void add(F&& f) {
         queue.push(std::forward<F>(f));
     }
 
+    /// Wait for all the jobs. If any of them failed, the remaining ones are dropped
+    /// and the first exception is rethrown here.
     void join() {
+        join_workers();
+        error.rethrow();
+    }
+
+private:
+    void join_workers() {
         if (is_joined) { return; }
 
         queue.remove_producer();
@@ -202,6 +249,7 @@ public:
 private:
     std::vector<std::thread> workers;
     detail::Queue<std::function<void()>> queue;
+    detail::SharedError error;
     bool is_joined = false;
 };
 
-- 
2.43.0


From 46602d2dd6bf545a9226853801d1495a6de3404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 04/45] fix: hold the GIL when dropping the Python objects of
 failed parallel jobs

---
 cppmodule/src/parallel.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cppmodule/src/parallel.cpp b/cppmodule/src/parallel.cpp
index 9c3918e..06676bf 100644
--- a/cppmodule/src/parallel.cpp
+++ b/cppmodule/src/parallel.cpp
@@ -20,6 +20,21 @@ void wrap_parallel(py::module& m) {
         struct Job {
             py::object py;
             std::shared_ptr<DeferredBase> cpp;
+
+            Job() = default;
+            Job(py::object py, std::shared_ptr<DeferredBase> cpp)
+                : py(std::move(py)), cpp(std::move(cpp)) {}
+            Job(Job&&) = default;
+            Job& operator=(Job&&) = default;
+
+            ~Job() {
+                // a job which was not retired (because of an error) is dropped without the GIL
+                if (py || cpp) {
+                    py::gil_scoped_acquire gil_acquire;
+                    cpp.reset();
+                    py.release().dec_ref();
+                }
+            }
         };
 
         parallel_for(
-- 
2.43.0


From a70b87e14f7a88c73be4aae827d39690407bb11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 05/45] fix: leave the model unchanged when an added parameter
 is rejected

Also replace the lattice offset of the previous shape instead of adding to it.
---
 cppcore/include/Model.hpp |  1 +
 cppcore/src/Model.cpp     | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/cppcore/include/Model.hpp b/cppcore/include/Model.hpp
index a59337d..350b595 100644
--- a/cppcore/include/Model.hpp
+++ b/cppcore/include/Model.hpp
@@ -93,6 +93,7 @@ private:
 
 private:
     Lattice lattice;
+    Cartesian original_offset; ///< lattice offset without the contribution of the shape
     SiteRegistry site_registry;
     HoppingRegistry hopping_registry;
 
diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 28f5016..c12ccfe 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -7,16 +7,17 @@ namespace cpb {
 
 Model::Model(Lattice const& lattice)
     : lattice(lattice),
+      original_offset(lattice.get_offset()),
       site_registry(lattice.site_registry()),
       hopping_registry(lattice.hopping_registry()) {}
 
 void Model::add(Primitive new_primitive) {
-    primitive = new_primitive;
     for (auto i = lattice.ndim(); i < 3; ++i) {
-        if (primitive.size[i] != 1) {
+        if (new_primitive.size[i] != 1) {
             throw std::logic_error("Primitive shape has more dimensions than the lattice");
         }
     }
+    primitive = new_primitive;
     clear_structure();
 }
 
@@ -28,8 +29,9 @@ void Model::set_wave_vector(Cartesian const& new_wave_vector) {
 }
 
 void Model::add(Shape const& new_shape) {
-    shape = new_shape;
-    lattice.set_offset(lattice.get_offset() + shape.lattice_offset);
+    auto copy = new_shape;
+    lattice.set_offset(original_offset + copy.lattice_offset);
+    shape = std::move(copy);
     clear_structure();
 }
 
@@ -73,14 +75,18 @@ void Model::add(HoppingModifier const& m) {
 }
 
 void Model::add(SiteGenerator const& g) {
+    auto registry = site_registry;
+    registry.register_family(g.name, g.energy);
     structure_modifiers.emplace_back(g);
-    site_registry.register_family(g.name, g.energy);
+    site_registry = std::move(registry);
     clear_structure();
 }
 
 void Model::add(HoppingGenerator const& g) {
+    auto registry = hopping_registry;
+    registry.register_family(g.name, g.energy);
     structure_modifiers.emplace_back(g);
-    hopping_registry.register_family(g.name, g.energy);
+    hopping_registry = std::move(registry);
     clear_structure();
 }
 
-- 
2.43.0


From ad82f0502b84967d77a4a4795a6027e56d241545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 06/45] fix: discard the built system and Hamiltonian when
 modifiers are cleared

---
 cppcore/include/Model.hpp |  4 ++--
 cppcore/src/Model.cpp     | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/Model.hpp b/cppcore/include/Model.hpp
index 350b595..6b0743b 100644
--- a/cppcore/include/Model.hpp
+++ b/cppcore/include/Model.hpp
@@ -78,8 +78,8 @@ public: // get information
     double hamiltonian_build_seconds() const { return hamiltonian_build_time.elapsed_seconds(); }
 
 public:
-    void clear_structure_modifiers() { structure_modifiers.clear(); }
-    void clear_hamiltonian_modifiers() { hamiltonian_modifiers.clear(); }
+    void clear_structure_modifiers();
+    void clear_hamiltonian_modifiers();
     void clear_all_modifiers() { clear_structure_modifiers(); clear_hamiltonian_modifiers(); }
 
 private:
diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index c12ccfe..effe5c4 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -209,6 +209,21 @@ Hamiltonian Model::make_hamiltonian() const {
     }
 }
 
+void Model::clear_structure_modifiers() {
+    // The families which were registered by the generators go away with them
+    auto original_sites = lattice.site_registry();
+    auto original_hoppings = lattice.hopping_registry();
+    structure_modifiers.clear();
+    site_registry = std::move(original_sites);
+    hopping_registry = std::move(original_hoppings);
+    clear_structure();
+}
+
+void Model::clear_hamiltonian_modifiers() {
+    hamiltonian_modifiers.clear();
+    clear_hamiltonian();
+}
+
 void Model::clear_structure() {
     _system.reset();
     _leads.clear_structure();
@@ -218,6 +233,7 @@ void Model::clear_structure() {
 void Model::clear_hamiltonian() {
     _hamiltonian.reset();
     _leads.clear_hamiltonian();
+    complex_override = false;
 }
 
 } // namespace cpb
-- 
2.43.0


From 31f5ce7703b9dff14a5bc2e678726117717d2dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 07/45] fix: renumber the hoppings when sites are removed after
 a generator

---
 cppcore/src/system/HoppingBlocks.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index c2041a7..255009d 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -86,6 +86,20 @@ void HoppingBlocks::filter(VectorX<bool> const& keep) {
             return !keep[coo.row] || !keep[coo.col];
         }), block.end());
     }
+
+    // The remaining sites are renumbered
+    auto new_index = ArrayXi(keep.size());
+    auto count = storage_idx_t{0};
+    for (auto i = idx_t{0}; i < keep.size(); ++i) {
+        new_index[i] = count;
+        if (keep[i]) { ++count; }
+    }
+    for (auto& block : blocks) {
+        for (auto& coo : block) {
+            coo.row = new_index[coo.row];
+            coo.col = new_index[coo.col];
+        }
+    }
 }
 
 void HoppingBlocks::add_sites(idx_t num_new_sites) {
-- 
2.43.0


From 24b8a36cc6b37324125a48c5fc5e4ab917a4485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 08/45] fix: don't look for boundary sites outside of the
 foundation

---
 cppcore/src/system/Symmetry.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cppcore/src/system/Symmetry.cpp b/cppcore/src/system/Symmetry.cpp
index 5d3993c..465a069 100644
--- a/cppcore/src/system/Symmetry.cpp
+++ b/cppcore/src/system/Symmetry.cpp
@@ -64,6 +64,12 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
                 boundary_slice[n] = symmetry_area.left[n];
             else if (direction[n] < 0)
                 boundary_slice[n] = symmetry_area.right[n];
+
+            // The symmetry area may be larger than the foundation: nothing to translate there
+            auto const edge = direction[n] > 0 ? symmetry_area.left[n] : symmetry_area.right[n];
+            if (direction[n] != 0 && (edge < 0 || edge >= foundation.get_spatial_size()[n])) {
+                return;
+            }
         }
 
         auto const shift_index = direction.cwiseProduct(symmetry_area.middle);
-- 
2.43.0


From eb92fc76da6eeccd266b703dbce2c03cc8b42c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 09/45] fix: build all leads or none, so that a failure can be
 retried

---
 cppcore/src/leads/Leads.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 6628452..a878e82 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -13,9 +13,12 @@ void Leads::make_structure(Foundation const& foundation) {
         return;
     }
 
+    // Keep nothing if one of the leads fails
+    auto new_structures = std::vector<leads::Structure>();
     for (auto const& spec : specs) {
-        structures.emplace_back(foundation, spec);
+        new_structures.emplace_back(foundation, spec);
     }
+    structures = std::move(new_structures);
 }
 
 void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const& modifiers,
@@ -24,9 +27,11 @@ void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const&
         return;
     }
 
+    auto new_hamiltonians = std::vector<leads::HamiltonianPair>();
     for (auto const& structure : structures) {
-        hamiltonians.emplace_back(structure.system, lattice, modifiers, is_double, is_complex);
+        new_hamiltonians.emplace_back(structure.system, lattice, modifiers, is_double, is_complex);
     }
+    hamiltonians = std::move(new_hamiltonians);
 }
 
 void Leads::clear_structure() {
-- 
2.43.0


From 7a16feb453e307dd2c397f5329b4e765d3f7705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:39 +0000
Subject: [PATCH 10/45] fix: keep at least one element per row in ELLPACK
 matrices

---
 cppcore/include/numeric/ellmatrix.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/numeric/ellmatrix.hpp b/cppcore/include/numeric/ellmatrix.hpp
index 482bb37..5a88f8c 100644
--- a/cppcore/include/numeric/ellmatrix.hpp
+++ b/cppcore/include/numeric/ellmatrix.hpp
@@ -2,6 +2,8 @@
 #include "numeric/dense.hpp"
 #include "numeric/sparseref.hpp"
 
+#include <algorithm>
+
 namespace cpb { namespace num {
 
 /**
@@ -63,8 +65,9 @@ inline EllConstRef<scalar_t> ellref(EllMatrix<scalar_t> const& m) {
 /// Convert an Eigen CSR matrix to ELLPACK
 template<class scalar_t>
 num::EllMatrix<scalar_t> csr_to_ell(SparseMatrixX<scalar_t> const& csr) {
-    auto ell = num::EllMatrix<scalar_t>(csr.rows(), csr.cols(),
-                                        sparse::max_nnz_per_row(csr));
+    // At least one (zero) element per row because the KPM functions process the last one separately
+    auto const nnz_per_row = std::max<idx_t>(sparse::max_nnz_per_row(csr), 1);
+    auto ell = num::EllMatrix<scalar_t>(csr.rows(), csr.cols(), nnz_per_row);
     auto const loop = sparse::make_loop(csr);
     for (auto row = 0; row < csr.rows(); ++row) {
         auto n = 0;
-- 
2.43.0


From 36fddd7d80e66349136d94d3159fcb0b2f549796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:03 +0000
Subject: [PATCH 11/45] fix: reorder the KPM Hamiltonian of systems which
 consist of disconnected parts

---
 cppcore/src/kpm/OptimizedHamiltonian.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cppcore/src/kpm/OptimizedHamiltonian.cpp b/cppcore/src/kpm/OptimizedHamiltonian.cpp
index 6aa083a..51cfb09 100644
--- a/cppcore/src/kpm/OptimizedHamiltonian.cpp
+++ b/cppcore/src/kpm/OptimizedHamiltonian.cpp
@@ -98,6 +98,9 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
     // The point of the reordering is to have the target become index number 0
     reorder_map[idx.src[0]] = 0;
 
+    // Everything below this original index is already mapped
+    auto first_unmapped = idx_t{0};
+
     // As the reordered matrix is filled, the slice border indices are recorded
     auto slice_border_indices = std::vector<storage_idx_t>();
     slice_border_indices.push_back(1);
@@ -136,6 +139,14 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
             h2.insert(h2_row, h2_row) = -scale.b * inverted_a;
         }
 
+        // Everything that's connected to the starting index is done, but the system may
+        // consist of several disconnected parts: continue with any index of the next one
+        if (h2_row + 1 < system_size && h2_row + 1 == static_cast<idx_t>(index_queue.size())) {
+            while (reorder_map[first_unmapped] >= 0) { ++first_unmapped; }
+            reorder_map[first_unmapped] = static_cast<storage_idx_t>(index_queue.size());
+            index_queue.push_back(static_cast<storage_idx_t>(first_unmapped));
+        }
+
         // Reached the end of a slice
         if (h2_row == slice_border_indices.back() - 1) {
             slice_border_indices.push_back(static_cast<storage_idx_t>(index_queue.size()));
-- 
2.43.0


From cf1439437e8addb203b870005ca97eed9599ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:55 +0000
Subject: [PATCH 12/45] fix: return empty results of KPM calculations for no
 sites or indices

---
 cppcore/src/kpm/Core.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/kpm/Core.cpp b/cppcore/src/kpm/Core.cpp
index c7b5ae4..3fd16a7 100644
--- a/cppcore/src/kpm/Core.cpp
+++ b/cppcore/src/kpm/Core.cpp
@@ -56,6 +56,8 @@ ArrayXcd Core::moments(idx_t num_moments, VectorXcd const& alpha, VectorXcd cons
 }
 
 ArrayXXdCM Core::ldos(std::vector<idx_t> const& idx, ArrayXd const& energy, double broadening) {
+    if (idx.empty()) { return ArrayXXdCM(energy.size(), 0); }
+
     auto const scale = bounds.scaling_factors();
     auto const num_moments = config.kernel.required_num_moments(broadening / scale.a);
     auto const num_indices = static_cast<idx_t>(idx.size());
@@ -95,7 +97,8 @@ ArrayXcd Core::greens(idx_t row, idx_t col, ArrayXd const& energy, double broade
 
 std::vector<ArrayXcd> Core::greens_vector(idx_t row, std::vector<idx_t> const& cols,
                                           ArrayXd const& energy, double broadening) {
-    assert(!cols.empty());
+    if (cols.empty()) { return {}; }
+
     auto const scale = bounds.scaling_factors();
     auto const num_moments = config.kernel.required_num_moments(broadening / scale.a);
 
-- 
2.43.0


From 4a4969938c8a523876bb13e15586bc9ddd83e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 13/45] fix: don't use a partly optimized KPM Hamiltonian after
 a failure

---
 cppcore/src/kpm/OptimizedHamiltonian.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/kpm/OptimizedHamiltonian.cpp b/cppcore/src/kpm/OptimizedHamiltonian.cpp
index 51cfb09..a26edb9 100644
--- a/cppcore/src/kpm/OptimizedHamiltonian.cpp
+++ b/cppcore/src/kpm/OptimizedHamiltonian.cpp
@@ -44,6 +44,7 @@ void OptimizedHamiltonian::optimize_for(Indices const& idx, Scale<> scale) {
         return; // already optimized for this idx
     }
 
+    original_idx = {}; // if this fails part way, nothing is optimized
     timer.tic();
     original_h.get_variant().match(Optimize{*this, idx, scale});
     timer.toc();
@@ -68,7 +69,7 @@ void OptimizedHamiltonian::create_scaled(Indices const& idx, Scale<> s) {
     h2.makeCompressed();
 
     optimized_matrix = h2.markAsRValue();
-    optimized_idx = idx;
+    optimized_idx = Indices(idx); // move: Eigen's copy assignment isn't safe if memory runs out
 }
 
 template<class scalar_t>
-- 
2.43.0


From 74141d577ca080b4df7cd6c9f4395ccd39b207fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 14/45] fix: keep the previous model of a KPM object if a new
 one can't be evaluated

---
 cppcore/include/kpm/OptimizedHamiltonian.hpp | 3 +++
 cppcore/src/KPM.cpp                          | 6 ++++--
 cppcore/src/kpm/Core.cpp                     | 2 +-
 cppcore/src/kpm/OptimizedHamiltonian.cpp     | 8 ++++++++
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/cppcore/include/kpm/OptimizedHamiltonian.hpp b/cppcore/include/kpm/OptimizedHamiltonian.hpp
index 478c577..d61fb0a 100644
--- a/cppcore/include/kpm/OptimizedHamiltonian.hpp
+++ b/cppcore/include/kpm/OptimizedHamiltonian.hpp
@@ -119,6 +119,9 @@ public:
     OptimizedHamiltonian(Hamiltonian const& h, MatrixFormat const& mf, bool reorder)
         : original_h(h), slice_map(h.rows()), matrix_format(mf), is_reordered(reorder) {}
 
+    /// Replace the original Hamiltonian. If this fails, nothing has changed.
+    void set_hamiltonian(Hamiltonian const& h);
+
     /// Create the optimized Hamiltonian targeting specific indices and scale factors
     void optimize_for(Indices const& idx, Scale<> scale);
 
diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index fb4f730..da20e2b 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -8,8 +8,10 @@ KPM::KPM(Model const& model, kpm::Compute const& compute, kpm::Config const& con
     : model(model.eval()), core(kpm::Core(model.hamiltonian(), compute, config)) {}
 
 void KPM::set_model(Model const& new_model) {
-    model = new_model;
-    core.set_hamiltonian(model.hamiltonian());
+    // If this fails, the previous model is kept, together with its Hamiltonian
+    auto evaluated_model = Model(new_model);
+    core.set_hamiltonian(evaluated_model.eval().hamiltonian());
+    model = std::move(evaluated_model);
 }
 
 std::string KPM::report(bool shortform) const {
diff --git a/cppcore/src/kpm/Core.cpp b/cppcore/src/kpm/Core.cpp
index 3fd16a7..bac1f5c 100644
--- a/cppcore/src/kpm/Core.cpp
+++ b/cppcore/src/kpm/Core.cpp
@@ -23,8 +23,8 @@ Core::Core(Hamiltonian const& h, Compute const& compute, Config const& config)
 }
 
 void Core::set_hamiltonian(Hamiltonian const& h) {
+    optimized_hamiltonian.set_hamiltonian(h); // the only one which may fail
     hamiltonian = h;
-    optimized_hamiltonian = {h, config.matrix_format, config.algorithm.reorder()};
     bounds = reset_bounds(h, config);
 }
 
diff --git a/cppcore/src/kpm/OptimizedHamiltonian.cpp b/cppcore/src/kpm/OptimizedHamiltonian.cpp
index a26edb9..792b40a 100644
--- a/cppcore/src/kpm/OptimizedHamiltonian.cpp
+++ b/cppcore/src/kpm/OptimizedHamiltonian.cpp
@@ -39,6 +39,14 @@ struct Optimize {
     }
 };
 
+void OptimizedHamiltonian::set_hamiltonian(Hamiltonian const& h) {
+    auto new_slice_map = SliceMap(h.rows());
+
+    original_idx = {}; // everything else is created again by the next optimization
+    original_h = h;
+    slice_map = std::move(new_slice_map);
+}
+
 void OptimizedHamiltonian::optimize_for(Indices const& idx, Scale<> scale) {
     if (original_idx == idx) {
         return; // already optimized for this idx
-- 
2.43.0


From 5d41170dc00c3d7456eba205a0e5c2b563b79b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 15/45] fix: reject Green's function indices equal to the size
 of the Hamiltonian

---
 cppcore/src/KPM.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index da20e2b..c9648f6 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -104,7 +104,7 @@ ArrayXd KPM::calc_dos(ArrayXd const& energy, double broadening, idx_t num_random
 
 ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    if (row < 0 || row > size || col < 0 || col > size) {
+    if (row < 0 || row >= size || col < 0 || col >= size) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
 
@@ -117,9 +117,9 @@ ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double br
 std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> const& cols,
                                               ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    auto const row_error = row < 0 || row > size;
+    auto const row_error = row < 0 || row >= size;
     auto const col_error = std::any_of(cols.begin(), cols.end(),
-                                       [&](idx_t col) { return col < 0 || col > size; });
+                                       [&](idx_t col) { return col < 0 || col >= size; });
     if (row_error || col_error) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
-- 
2.43.0


From ccdb3fa529e7f416299a98d80022804eac11291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 16/45] fix: reject conductivity directions with only one valid
 axis

---
 cppcore/src/KPM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index c9648f6..3d599be 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -133,8 +133,8 @@ std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> cons
 ArrayXd KPM::calc_conductivity(ArrayXd const& chemical_potential, double broadening,
                                double temperature, string_view direction, idx_t num_random,
                                idx_t num_points) const {
-    auto const xyz = std::string("xyz");
-    if (direction.size() != 2 || xyz.find_first_of(direction) == std::string::npos) {
+    auto const is_axis = [](char c) { return c == 'x' || c == 'y' || c == 'z'; };
+    if (direction.size() != 2 || !std::all_of(direction.begin(), direction.end(), is_axis)) {
         throw std::logic_error("Invalid direction: must be 'xx', 'xy', 'zz', or similar.");
     }
 
-- 
2.43.0


From 7ad008b03d72cfc9d2f018ba4ac886275c62748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 17/45] fix: release the KPM starter lock if making the starter
 vector fails

---
 cppcore/src/kpm/default/Compute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/kpm/default/Compute.cpp b/cppcore/src/kpm/default/Compute.cpp
index 2529bdb..dc96c9f 100644
--- a/cppcore/src/kpm/default/Compute.cpp
+++ b/cppcore/src/kpm/default/Compute.cpp
@@ -24,10 +24,10 @@ struct SelectAlgorithm {
     idx_t with(C<scalar_t>& collect) const {
         simd::scope_disable_denormals guard;
 
-        starter.lock();
+        std::unique_lock<Starter const> lock(starter);
         auto const idx = starter.count;
         auto r0 = make_r0(starter, var::tag<Vector>{}, simd::traits<scalar_t>::size);
-        starter.unlock();
+        lock.unlock();
 
         auto r1 = make_r1(h2, r0);
         collect.initial(r0, r1);
-- 
2.43.0


From 3101be2362c7326785cf79261120945e25275f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:30 +0000
Subject: [PATCH 18/45] fix: stop the threads of a pool which can't start all
 of them

---
 cppcore/include/detail/thread.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cppcore/include/detail/thread.hpp b/cppcore/include/detail/thread.hpp
index 902aec8..aed3843 100644
--- a/cppcore/include/detail/thread.hpp
+++ b/cppcore/include/detail/thread.hpp
@@ -212,12 +212,17 @@ class ThreadPool {
 public:
     ThreadPool(idx_t num_threads) : workers(static_cast<size_t>(num_threads)) {
         queue.add_producer();
-        for (auto& thread : workers) {
-            thread = std::thread([&] {
-                while (auto maybe_job = queue.pop()) {
-                    error.guard(maybe_job.get());
-                }
-            });
+        try {
+            for (auto& thread : workers) {
+                thread = std::thread([&] {
+                    while (auto maybe_job = queue.pop()) {
+                        error.guard(maybe_job.get());
+                    }
+                });
+            }
+        } catch (...) { // not enough resources: stop the threads which did start
+            join_workers();
+            throw;
         }
     }
 
@@ -241,7 +246,7 @@ private:
 
         queue.remove_producer();
         for (auto& thread : workers) {
-            thread.join();
+            if (thread.joinable()) { thread.join(); }
         }
         is_joined = true;
     }
-- 
2.43.0


From 25a1b7d52c39e93c5534dd43bf424c6b061bed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:42 +0000
Subject: [PATCH 19/45] fix: solve the current Hamiltonian of the model, also
 after a failed replacement

---
 cppcore/include/solver/Solver.hpp |  4 ++++
 cppcore/src/solver/Solver.cpp     | 22 +++++++++++++---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/cppcore/include/solver/Solver.hpp b/cppcore/include/solver/Solver.hpp
index c76c5ba..c5c08ab 100644
--- a/cppcore/include/solver/Solver.hpp
+++ b/cppcore/include/solver/Solver.hpp
@@ -51,6 +51,10 @@ protected:
     using MakeStrategy = std::function<std::unique_ptr<SolverStrategy>(Hamiltonian const&)>;
     BaseSolver(Model const& model, MakeStrategy const& make_strategy);
 
+private:
+    /// Give the current Hamiltonian to the SolverStrategy
+    void update_strategy();
+
 private:
     Model model;
     MakeStrategy make_strategy;
diff --git a/cppcore/src/solver/Solver.cpp b/cppcore/src/solver/Solver.cpp
index beda24f..b93a823 100644
--- a/cppcore/src/solver/Solver.cpp
+++ b/cppcore/src/solver/Solver.cpp
@@ -49,18 +49,21 @@ BaseSolver::BaseSolver(Model const& model, MakeStrategy const& make_strategy)
       strategy(make_strategy(model.hamiltonian())) {}
 
 void BaseSolver::set_model(Model const& new_model) {
+    // If this fails, the previous model and its results are kept
+    auto evaluated_model = Model(new_model);
+    evaluated_model.eval();
+
     is_solved = false;
-    model = new_model;
+    model = std::move(evaluated_model);
+}
 
-    if (strategy) {// try to assign a new Hamiltonian to the existing Solver strategy
-        bool success = strategy->change_hamiltonian(model.hamiltonian());
-        if (!success) { // fails if the they have incompatible scalar types
-            strategy.reset();
-        }
-    }
+void BaseSolver::update_strategy() {
+    auto const& hamiltonian = model.hamiltonian();
 
-    if (!strategy) { // creates a SolverStrategy with a scalar type suited to the Hamiltonian
-        strategy = make_strategy(model.hamiltonian());
+    // Try to assign the Hamiltonian to the existing Solver strategy. If they have
+    // incompatible scalar types, create a SolverStrategy suited to the Hamiltonian.
+    if (!strategy->change_hamiltonian(hamiltonian)) {
+        strategy = make_strategy(hamiltonian);
     }
 }
 
@@ -69,6 +72,7 @@ void BaseSolver::solve() {
         return;
 
     calculation_timer.tic();
+    update_strategy(); // the model may have been replaced or changed since the last time
     strategy->solve();
     calculation_timer.toc();
 
-- 
2.43.0


From ee59aba47b0ba86dd430f02b9995fc305a5c2288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:55 +0000
Subject: [PATCH 20/45] fix: measure durations with a clock which can't be set

---
 cppcore/include/utils/Chrono.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cppcore/include/utils/Chrono.hpp b/cppcore/include/utils/Chrono.hpp
index ff6463b..735019a 100644
--- a/cppcore/include/utils/Chrono.hpp
+++ b/cppcore/include/utils/Chrono.hpp
@@ -13,16 +13,16 @@ public:
     Chrono() { tic(); };
 
     void tic() {
-        tic_time = std::chrono::high_resolution_clock::now();
+        tic_time = std::chrono::steady_clock::now();
     }
 
     Chrono& toc() {
-        elapsed = std::chrono::high_resolution_clock::now() - tic_time;
+        elapsed = std::chrono::steady_clock::now() - tic_time;
         return *this;
     }
 
     Chrono& toc_accumulate() {
-        elapsed += std::chrono::high_resolution_clock::now() - tic_time;
+        elapsed += std::chrono::steady_clock::now() - tic_time;
         return *this;
     }
 
@@ -45,7 +45,7 @@ public:
     }
 
 private:
-    std::chrono::time_point<std::chrono::high_resolution_clock> tic_time;
+    std::chrono::time_point<std::chrono::steady_clock> tic_time;
     std::chrono::nanoseconds elapsed{0};
 };
 
-- 
2.43.0


From 2c931e4c79bf1332cdd3d3f30c5d318e601f4185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:14 +0000
Subject: [PATCH 21/45] fix: restore the properties of pickled objects

---
 pybinding/support/pickle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybinding/support/pickle.py b/pybinding/support/pickle.py
index ff1fd2e..27d19c5 100644
--- a/pybinding/support/pickle.py
+++ b/pybinding/support/pickle.py
@@ -96,9 +96,9 @@ def pickleable(props="", version: int=0):
             ))
 
         self.__dict__.update(state["dict"])
-        props_state = {name: value for name, value in state.get("props", {})
+        props_state = {name: value for name, value in state.get("props", {}).items()
                        if name in props}
-        for name, value in props_state:
+        for name, value in props_state.items():
             setattr(self, name, value)
 
     def decorator(cls):
-- 
2.43.0


From 44cec4c252d829c666e2875ee1f32f372b793a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:14 +0000
Subject: [PATCH 22/45] fix: verify the checksum of a file which is loaded

---
 pybinding/support/pickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/support/pickle.py b/pybinding/support/pickle.py
index 27d19c5..da836d5 100644
--- a/pybinding/support/pickle.py
+++ b/pybinding/support/pickle.py
@@ -72,7 +72,7 @@ def load(file):
         file = file_ext
 
     with gzip.open(file, 'rb') as f:
-        return pickle.load(f)
+        return pickle.loads(f.read())  # read everything: the checksum is at the end of the file
 
 
 @decorator_decorator
-- 
2.43.0


From bd78e250076bc25e69ed104a0a77b1abdc5195b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:14 +0000
Subject: [PATCH 23/45] fix: keep the previous version of a file if saving the
 new one is interrupted or fails

---
 pybinding/support/pickle.py | 49 ++++++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 3 deletions(-)

diff --git a/pybinding/support/pickle.py b/pybinding/support/pickle.py
index da836d5..dca52a1 100644
--- a/pybinding/support/pickle.py
+++ b/pybinding/support/pickle.py
@@ -3,6 +3,8 @@ import gzip
 import os
 import pathlib
 import pickle
+import shutil
+from contextlib import contextmanager, suppress
 
 from ..utils import decorator_decorator
 
@@ -37,12 +39,46 @@ def _add_extension(file):
         return file
 
 
+def _sync_dir(path):
+    """Make sure that a new file name in this directory is durable (where that's supported)"""
+    if not hasattr(os, "O_DIRECTORY"):
+        return
+
+    fd = os.open(path, os.O_RDONLY | os.O_DIRECTORY)
+    try:
+        os.fsync(fd)
+    finally:
+        os.close(fd)
+
+
+@contextmanager
+def _replace_file(file):
+    """Write to a temporary file which takes the place of `file` only when it's complete"""
+    file = os.path.realpath(file)
+    temp_file = "{}.{}.tmp".format(file, os.getpid())
+    try:
+        with open(temp_file, 'wb') as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.exists(file):
+            shutil.copymode(file, temp_file)
+        os.replace(temp_file, file)
+    except BaseException:
+        with suppress(OSError):
+            os.remove(temp_file)
+        raise
+
+    _sync_dir(os.path.dirname(file))
+
+
 def save(obj, file):
     """Save an object to a compressed file
 
     Essentially, this is just a wrapper for :func:`pickle.dump()` with a few conveniences,
     like default pickle protocol 4 and gzip compression. The '.pbz' extension will be added
-    if file has none.
+    if file has none. An existing file is replaced only when the new one is complete: it's
+    left as it was if saving fails.
 
     Parameters
     ----------
@@ -51,9 +87,16 @@ def save(obj, file):
     file : Union[str, pathlib.Path]
         May be a `str`, a `pathlib` object or a file object created with `open()`.
     """
+    def write(target):
+        with gzip.open(target, 'wb') as f:
+            pickle.dump(obj, f, protocol=4)
+
     file = _add_extension(_normalize(file))
-    with gzip.open(file, 'wb') as f:
-        pickle.dump(obj, f, protocol=4)
+    if isinstance(file, str) and (os.path.isfile(file) or not os.path.exists(file)):
+        with _replace_file(file) as f:
+            write(f)
+    else:
+        write(file)  # an open file object or something special, e.g. a pipe
 
 
 def load(file):
-- 
2.43.0


From b594526f355683faa4655b299cf439d681b02a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:48 +0000
Subject: [PATCH 24/45] fix: progress bars show impossible times when the clock
 is set, and fail or overflow at unusual sizes

---
 pybinding/utils/progressbar.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pybinding/utils/progressbar.py b/pybinding/utils/progressbar.py
index 4369d10..a414555 100644
--- a/pybinding/utils/progressbar.py
+++ b/pybinding/utils/progressbar.py
@@ -2,6 +2,7 @@ import datetime
 import io
 import os
 import sys
+import time
 
 
 def percentage(template="{:3.0%}"):
@@ -120,7 +121,7 @@ class ProgressBar:
 
         self.value = 0
         self.running = False
-        self.start_time = datetime.datetime.now()
+        self.start_time = time.monotonic()
         self.last_update_time = self.start_time
 
     @staticmethod
@@ -129,11 +130,11 @@ class ProgressBar:
 
     @property
     def percent(self):
-        return self.value / self.size
+        return self.value / self.size if self.size else 1.0
 
     @property
     def elapsed_seconds(self):
-        return (self.last_update_time - self.start_time).total_seconds()
+        return self.last_update_time - self.start_time
 
     def __enter__(self):
         return self.start()
@@ -164,7 +165,7 @@ class ProgressBar:
                 return widget
 
         formatted_widgets = (format_variable_size(w) for w in semi_formatted_widgets)
-        return "".join(formatted_widgets).ljust(self.width)
+        return "".join(formatted_widgets).ljust(self.width)[:self.width]
 
     def start(self):
         self.running = True
@@ -175,7 +176,7 @@ class ProgressBar:
         for output in self.outputs:
             output.start(self.width)
 
-        self.start_time = datetime.datetime.now()
+        self.start_time = time.monotonic()
         self.last_update_time = self.start_time
         self.refresh()
 
@@ -183,11 +184,12 @@ class ProgressBar:
         if not self.running:
             self.start()
 
+        value = min(value, self.size)
         if self.value == value:
             return
 
         self.value = value
-        self.last_update_time = datetime.datetime.now()
+        self.last_update_time = time.monotonic()
         self.refresh()
 
     def refresh(self):
-- 
2.43.0


From 6efbdd7c9e937a4196e7656a088b9a5ce69afa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:48 +0000
Subject: [PATCH 25/45] fix: progress bars lose program output, fail with their
 streams or leave sys.stdout replaced

---
 pybinding/utils/progressbar.py | 187 +++++++++++++++++++++++----------
 1 file changed, 132 insertions(+), 55 deletions(-)

diff --git a/pybinding/utils/progressbar.py b/pybinding/utils/progressbar.py
index a414555..475749e 100644
--- a/pybinding/utils/progressbar.py
+++ b/pybinding/utils/progressbar.py
@@ -1,7 +1,9 @@
+import collections
 import datetime
 import io
 import os
 import sys
+import threading
 import time
 
 
@@ -35,22 +37,69 @@ def eta(template="ETA: {}"):
     return widget
 
 
+_lock = threading.RLock()  # progress bars may be used from any thread
+
+
+class _CaptureStream(io.StringIO):
+    """Keeps output until it's taken -- after the capture has stopped, output is passed on
+
+    Any thread may still be writing to this stream after it has been replaced in `sys`. For the
+    same reason it's kept alive for a while: `print()` doesn't own the stream which it's using.
+    """
+    recent = collections.deque(maxlen=64)
+
+    def __init__(self, old_stream):
+        super().__init__()
+        self.old_stream = old_stream
+        self.stopped = False
+        self.recent.append(self)
+
+    def write(self, text):
+        with _lock:
+            if not self.stopped:
+                return super().write(text)
+        return self.old_stream.write(text)
+
+    def flush(self):
+        if self.stopped:
+            self.old_stream.flush()
+
+    def take(self, partial_line=False):
+        """Remove and return the output -- up to the last complete line or everything"""
+        text = self.getvalue()
+        end = len(text) if partial_line else text.rfind("\n") + 1
+        self.seek(0)
+        self.truncate()
+        super().write(text[end:])
+        return text[:end]
+
+
 class StdCapture:
     def __init__(self, stream_name='stdout'):
         self.stream_name = stream_name
-        self._old_stream = getattr(sys, stream_name)
+        self._stream = None
 
     def start(self):
-        self._old_stream = getattr(sys, self.stream_name)
-        setattr(sys, self.stream_name, io.StringIO())
+        self._stream = _CaptureStream(getattr(sys, self.stream_name))
+        setattr(sys, self.stream_name, self._stream)
 
-    def get(self):
-        output = getattr(sys, self.stream_name).getvalue()
-        setattr(sys, self.stream_name, io.StringIO())
-        return output
+    def get(self, partial_line=False):
+        return self._stream.take(partial_line) if self._stream else ""
 
     def stop(self):
-        setattr(sys, self.stream_name, self._old_stream)
+        if not self._stream:
+            return
+
+        self._stream.stopped = True
+        old_stream = self._stream.old_stream
+        while isinstance(old_stream, _CaptureStream) and old_stream.stopped:
+            old_stream = old_stream.old_stream
+
+        current = getattr(sys, self.stream_name)
+        if (current is self._stream or not isinstance(current, _CaptureStream)
+                or current.stopped):  # otherwise it's the capture of another progress bar
+            setattr(sys, self.stream_name, old_stream)
+        self._stream = None
 
 
 class StreamOutput:
@@ -72,13 +121,14 @@ class StreamOutput:
         self.stream.write('\r' + line)
         self.stream.flush()
 
-    def stop(self):
-        self.stream.write("\n")
+    def stop(self, partial_line=""):
+        self.stream.write("\n" + partial_line)
+        self.stream.flush()
 
 
 class FileOutput:
     def __init__(self, filename):
-        self.file = open(filename, 'w')
+        self.file = open(filename, 'w', encoding='utf-8')
 
     def start(self, width):
         self.file.seek(0, 0)
@@ -90,6 +140,7 @@ class FileOutput:
         pass
 
     def write(self, line):
+        self.file.seek(0, os.SEEK_END)
         self.file.write(line)
 
     def write_pbar(self, line):
@@ -98,8 +149,11 @@ class FileOutput:
         self.file.flush()
         self.file.seek(0, os.SEEK_END)
 
-    def stop(self):
-        self.file.close()
+    def stop(self, partial_line=""):
+        try:
+            self.write(partial_line)
+        finally:
+            self.file.close()
 
 
 class ProgressBar:
@@ -117,7 +171,7 @@ class ProgressBar:
         if filename:
             self.outputs.append(FileOutput(filename))
 
-        self.captures = [StdCapture('stdout'), StdCapture('stderr')]
+        self.captures = [StdCapture('stdout'), StdCapture('stderr')] if self.outputs else []
 
         self.value = 0
         self.running = False
@@ -143,7 +197,8 @@ class ProgressBar:
         self.stop()
 
     def __iadd__(self, value):
-        self.update(self.value + value)
+        with _lock:
+            self.update(self.value + value)
         return self
 
     def _make_line(self):
@@ -167,59 +222,81 @@ class ProgressBar:
         formatted_widgets = (format_variable_size(w) for w in semi_formatted_widgets)
         return "".join(formatted_widgets).ljust(self.width)[:self.width]
 
-    def start(self):
-        self.running = True
-        self.value = 0
-
-        for capture in self.captures:
-            capture.start()
+    def _each_output(self, function):
+        """Failing to show the progress must not stop the computation"""
         for output in self.outputs:
-            output.start(self.width)
+            try:
+                function(output)
+            except Exception:
+                pass
 
-        self.start_time = time.monotonic()
-        self.last_update_time = self.start_time
-        self.refresh()
+    def start(self):
+        with _lock:
+            was_running, self.running = self.running, True
+            self.value = 0
+            try:
+                if not was_running:
+                    for capture in self.captures:
+                        capture.start()
+                    self._each_output(lambda output: output.start(self.width))
+
+                self.start_time = time.monotonic()
+                self.last_update_time = self.start_time
+                self.refresh()
+            except BaseException:
+                self.stop()
+                raise
+        return self
 
     def update(self, value):
-        if not self.running:
-            self.start()
+        with _lock:
+            if not self.running:
+                self.start()
 
-        value = min(value, self.size)
-        if self.value == value:
-            return
+            value = min(value, self.size)
+            if self.value == value:
+                return
 
-        self.value = value
-        self.last_update_time = time.monotonic()
-        self.refresh()
+            self.value = value
+            self.last_update_time = time.monotonic()
+            self.refresh()
 
     def refresh(self):
-        for output in self.outputs:
-            output.clear_pbar()
+        with _lock:
+            if not self.running:
+                return
 
-        lines = [c.get() for c in self.captures]
-        for output in self.outputs:
-            for line in lines:
-                output.write(line)
+            pbar_line = self._make_line()
+            lines = [c.get() for c in self.captures]
 
-        for output in self.outputs:
-            output.write_pbar(self._make_line())
+            def write(output):
+                output.clear_pbar()
+                for line in lines:
+                    output.write(line)
+                output.write_pbar(pbar_line)
 
-    def stop(self):
-        if not self.running:
-            return
-
-        self.refresh()
+            self._each_output(write)
 
-        for capture in self.captures:
-            capture.stop()
-        for output in self.outputs:
-            output.stop()
+    def stop(self):
+        with _lock:
+            if not self.running:
+                return
 
-        self.running = False
+            try:
+                self.refresh()
+            finally:
+                lines = "".join(c.get(partial_line=True) for c in self.captures)
+                self._each_output(lambda output: output.stop(lines))
+                self.running = False
+                for capture in self.captures:
+                    capture.stop()
 
     def finish(self):
-        if not self.running:
-            return
+        with _lock:
+            if not self.running:
+                return
 
-        self.update(self.size)
-        self.stop()
+            try:
+                self.update(self.size)
+            finally:
+                self.stop()
-- 
2.43.0


From 322d83c71ad744352dad7ef9566a32bd3f4c9ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:48 +0000
Subject: [PATCH 26/45] fix: the progress bar of a failed KPM calculation keeps
 sys.stdout forever

---
 cppcore/include/kpm/default/Compute.hpp |  1 +
 cppcore/src/kpm/default/Compute.cpp     | 19 +++++++++++++++++--
 pybinding/chebyshev.py                  |  2 ++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/kpm/default/Compute.hpp b/cppcore/include/kpm/default/Compute.hpp
index 53d17d4..8195b8c 100644
--- a/cppcore/include/kpm/default/Compute.hpp
+++ b/cppcore/include/kpm/default/Compute.hpp
@@ -20,6 +20,7 @@ public:
     void progress_start(idx_t total) const;
     void progress_update(idx_t delta, idx_t total) const;
     void progress_finish(idx_t total) const;
+    void progress_cancel(idx_t total) const;
 
 private:
     idx_t num_threads;
diff --git a/cppcore/src/kpm/default/Compute.cpp b/cppcore/src/kpm/default/Compute.cpp
index dc96c9f..8feeec8 100644
--- a/cppcore/src/kpm/default/Compute.cpp
+++ b/cppcore/src/kpm/default/Compute.cpp
@@ -50,6 +50,17 @@ struct SelectAlgorithm {
     }
 
     void operator()(BatchDiagonalMoments* m) {
+        try {
+            compute.progress_start(m->num_vectors);
+            batches(m);
+            compute.progress_finish(m->num_vectors);
+        } catch (...) {
+            compute.progress_cancel(m->num_vectors);
+            throw;
+        }
+    }
+
+    void batches(BatchDiagonalMoments* m) {
         constexpr auto batch_size = static_cast<idx_t>(simd::traits<scalar_t>::size);
         auto const num_threads = compute.get_num_threads();
 
@@ -63,7 +74,6 @@ struct SelectAlgorithm {
         }
 
         ThreadPool pool(num_threads);
-        compute.progress_start(m->num_vectors);
 
         for (auto i = 0; i < num_batches; ++i) {
             pool.add([&]() {
@@ -84,7 +94,6 @@ struct SelectAlgorithm {
         }
 
         pool.join();
-        compute.progress_finish(m->num_vectors);
     }
 
     void operator()(GenericMoments* m) {
@@ -143,4 +152,10 @@ void DefaultCompute::progress_finish(idx_t total) const {
     progress_update(total, total);
 }
 
+void DefaultCompute::progress_cancel(idx_t total) const {
+    try {
+        progress_update(0, total);
+    } catch (...) {} // the computation already failed: this is not the error to report
+}
+
 }} // namespace cpb::kpm
diff --git a/pybinding/chebyshev.py b/pybinding/chebyshev.py
index 054103b..d2a4acd 100644
--- a/pybinding/chebyshev.py
+++ b/pybinding/chebyshev.py
@@ -332,6 +332,8 @@ class _ComputeProgressReporter:
             self.pbar.start()
         elif delta == total:
             self.pbar.finish()
+        elif delta == 0:
+            self.pbar.stop()  # the computation failed
         else:
             self.pbar += delta
 
-- 
2.43.0


From 827ae757069509385789af2ce8897f088b4a2ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:17 +0000
Subject: [PATCH 27/45] fix: Solver.calc_eigenvalues: map the probability of
 all orbitals at the site

The system index of the site was used as if it were a Hamiltonian index, which
gives another site's probability for multi-orbital models. Also accept a numpy
array as the position (its truth value is ambiguous).
---
 pybinding/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybinding/solver.py b/pybinding/solver.py
index 37e9c97..00a55a7 100644
--- a/pybinding/solver.py
+++ b/pybinding/solver.py
@@ -117,11 +117,12 @@ class Solver:
         -------
         :class:`~pybinding.Eigenvalues`
         """
-        if not map_probability_at:
+        if map_probability_at is None:
             return results.Eigenvalues(self.eigenvalues)
         else:
             site_idx = self.system.find_nearest(position=map_probability_at)
-            probability = abs(self.eigenvectors[site_idx, :])**2
+            ham_idx = np.atleast_1d(self.system.to_hamiltonian_indices(site_idx))
+            probability = np.sum(abs(self.eigenvectors[ham_idx, :])**2, axis=0)
 
             # sum probabilities of degenerate states
             for idx in self.find_degenerate_states(self.eigenvalues):
-- 
2.43.0


From ad97b4cc0d5adf7323955cad9be7b5f156496a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:32 +0000
Subject: [PATCH 28/45] fix: a solve which fails while sorting left half of the
 result behind

The eigenvalues were set before the eigenvectors were sorted (a copy as large as
the result itself), and any eigenvalues counted as a finished solve: after running
out of memory or an interrupt, the next access returned unsorted eigenvectors or
the ones of another Hamiltonian. An empty result was computed again at every access.
---
 pybinding/solver.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pybinding/solver.py b/pybinding/solver.py
index 00a55a7..4d9238d 100644
--- a/pybinding/solver.py
+++ b/pybinding/solver.py
@@ -344,11 +344,13 @@ class _SolverPythonImpl:
         self._model = model
 
         self.kwargs = kwargs
+        self.is_solved = False
         self.vals = np.empty(0)
         self.vecs = np.empty(0)
         self.compute_time = .0
 
     def clear(self):
+        self.is_solved = False
         self.vals = np.empty(0)
         self.vecs = np.empty(0)
         self.compute_time = .0
@@ -377,17 +379,18 @@ class _SolverPythonImpl:
         return self.vecs
 
     def solve(self):
-        if len(self.vals):
+        if self.is_solved:
             return
 
         start_time = time.time()
 
-        self.vals, self.vecs = self.solve_func(self.model.hamiltonian, **self.kwargs)
-        idx = self.vals.argsort()
-        self.vals = self.vals[idx]
-        self.vecs = self.vecs[:, idx]
+        vals, vecs = self.solve_func(self.model.hamiltonian, **self.kwargs)
+        idx = vals.argsort()
+        self.vals = vals[idx]
+        self.vecs = vecs[:, idx]
 
         self.compute_time = time.time() - start_time
+        self.is_solved = True
 
     def report(self, _=False):
         from .utils.time import pretty_duration
-- 
2.43.0


From 0d8878262d5b7eb0fd3765207f1d45345ff09a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:53 +0000
Subject: [PATCH 29/45] fix: Solver.calc_bands kept references to eigenvalues
 which the next solve overwrites

The arrays of the solvers of the C++ module are views of the solver's own memory
(arrayref_caster does not copy), which is freed or used again by the next solve.
---
 pybinding/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/solver.py b/pybinding/solver.py
index 4d9238d..134eb92 100644
--- a/pybinding/solver.py
+++ b/pybinding/solver.py
@@ -300,7 +300,7 @@ class Solver:
         bands = []
         for k in k_path:
             self.set_wave_vector(k)
-            bands.append(self.eigenvalues)
+            bands.append(np.array(self.eigenvalues))  # the solver may reuse its memory
 
         return results.Bands(k_path, np.vstack(bands))
 
-- 
2.43.0


From 9b1a75a63c8694c12f2e207069ad7fa1bd9a5ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:13 +0000
Subject: [PATCH 30/45] fix: Python durations were measured with a clock which
 can be set

Solver reports, tic/toc and timed blocks used time.time(): a duration could be
negative or far too long when the system clock was set meanwhile.
---
 pybinding/solver.py     | 4 ++--
 pybinding/utils/time.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybinding/solver.py b/pybinding/solver.py
index 134eb92..4e53cf5 100644
--- a/pybinding/solver.py
+++ b/pybinding/solver.py
@@ -382,14 +382,14 @@ class _SolverPythonImpl:
         if self.is_solved:
             return
 
-        start_time = time.time()
+        start_time = time.perf_counter()
 
         vals, vecs = self.solve_func(self.model.hamiltonian, **self.kwargs)
         idx = vals.argsort()
         self.vals = vals[idx]
         self.vecs = vecs[:, idx]
 
-        self.compute_time = time.time() - start_time
+        self.compute_time = time.perf_counter() - start_time
         self.is_solved = True
 
     def report(self, _=False):
diff --git a/pybinding/utils/time.py b/pybinding/utils/time.py
index 63055f6..ec408c8 100644
--- a/pybinding/utils/time.py
+++ b/pybinding/utils/time.py
@@ -8,7 +8,7 @@ _tic_times = []
 def tic():
     """Set a start time"""
     global _tic_times
-    _tic_times.append(time.time())
+    _tic_times.append(time.perf_counter())
 
 
 def toc(message=""):
@@ -24,7 +24,7 @@ def toc(message=""):
 
     if message:
         print(message, end=" ")
-    print(pretty_duration(time.time() - _tic_times.pop()))
+    print(pretty_duration(time.perf_counter() - _tic_times.pop()))
 
 
 class _Timed:
@@ -32,11 +32,11 @@ class _Timed:
         self.message = message
 
     def __enter__(self):
-        self._enter_time = time.time()
+        self._enter_time = time.perf_counter()
         return self
 
     def __exit__(self, *_):
-        self.elapsed = time.time() - self._enter_time
+        self.elapsed = time.perf_counter() - self._enter_time
         if self.message:
             print(self.message, self)
 
-- 
2.43.0


From ff065c7adc25edc45e2712be00270dec3d80be25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:49 +0000
Subject: [PATCH 31/45] fix: a deferred result read in Python deadlocked with
 its progress reports, and could be computed twice

Deferred.compute() and Deferred.result held the interpreter lock while
they waited for threads which need it to report progress. Two threads which
read the same result could compute it at the same time.
---
 cppmodule/include/thread.hpp | 14 +++++++++++++-
 cppmodule/src/parallel.cpp   |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cppmodule/include/thread.hpp b/cppmodule/include/thread.hpp
index 7bd2db2..ec4ae77 100644
--- a/cppmodule/include/thread.hpp
+++ b/cppmodule/include/thread.hpp
@@ -2,6 +2,9 @@
 #include <pybind11/pybind11.h>
 #include "detail/thread.hpp"
 
+#include <memory>
+#include <mutex>
+
 namespace py = pybind11;
 
 namespace cpb {
@@ -11,6 +14,7 @@ public:
     virtual ~DeferredBase() = default;
 
     virtual py::object solver() const = 0;
+    /// Must be called without the GIL: it may start threads which report to Python code
     virtual void compute() = 0;
     virtual py::object result() = 0;
 };
@@ -24,19 +28,27 @@ public:
     py::object solver() const final { return _solver; }
 
     void compute() final {
+        std::lock_guard<std::mutex> lock(*_mutex);
         if (is_computed) { return; }
 
         _result = _compute();
         is_computed = true;
     }
 
-    py::object result() final { compute(); return py::cast(_result); }
+    py::object result() final {
+        {
+            py::gil_scoped_release gil_release;
+            compute();
+        }
+        return py::cast(_result);
+    }
 
 private:
     py::object _solver;
     std::function<Result()> _compute;
     Result _result;
 
+    std::unique_ptr<std::mutex> _mutex{new std::mutex};
     bool is_computed = false;
 };
 
diff --git a/cppmodule/src/parallel.cpp b/cppmodule/src/parallel.cpp
index 06676bf..f299285 100644
--- a/cppmodule/src/parallel.cpp
+++ b/cppmodule/src/parallel.cpp
@@ -5,7 +5,7 @@ using namespace cpb;
 
 void wrap_parallel(py::module& m) {
     py::class_<DeferredBase, std::shared_ptr<DeferredBase>>(m, "DeferredBase")
-        .def("compute", &DeferredBase::compute)
+        .def("compute", &DeferredBase::compute, release_gil())
         .def_property_readonly("solver", &DeferredBase::solver)
         .def_property_readonly("result", &DeferredBase::result);
 
-- 
2.43.0


From c6bcc9b0df490657509ec2f5c58b935d96883915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:05 +0000
Subject: [PATCH 32/45] fix: the Hamiltonian matrix of a model referred to
 freed memory after the model changed

Model.hamiltonian returned arrays which were kept alive only by the model. The
model releases the matrix when it is changed (e.g. set_wave_vector).
---
 cppmodule/src/model.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cppmodule/src/model.cpp b/cppmodule/src/model.cpp
index 1af9ce1..021355b 100644
--- a/cppmodule/src/model.cpp
+++ b/cppmodule/src/model.cpp
@@ -25,9 +25,13 @@ void wrap_model(py::module& m) {
         )")
         .def_property_readonly("lattice", &Model::get_lattice)
         .def_property_readonly("system", &Model::system)
-        .def_property_readonly("raw_hamiltonian", &Model::hamiltonian)
-        .def_property_readonly("hamiltonian", [](Model const& self) {
-            return self.hamiltonian().csrref();
+        .def_property_readonly("raw_hamiltonian", [](Model const& self) {
+            return Hamiltonian(self.hamiltonian());
+        })
+        .def_property_readonly("hamiltonian", [](Model const& self) -> py::object {
+            // The arrays refer to the memory of a matrix which the model releases when it changes:
+            // keep them alive together with a `Hamiltonian` object which shares that matrix.
+            return py::cast(Hamiltonian(self.hamiltonian())).attr("csrref");
         })
         .def_property_readonly("leads", &Model::leads)
         .def("eval", &Model::eval)
-- 
2.43.0


From b8e2102f1547b91eab2a64161dc6e9790eeab499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:49 +0000
Subject: [PATCH 33/45] fix: looking for the nearest site on a sublattice
 without sites read past the end

A sublattice can lose all of its sites to a modifier which is applied after a generator.
System::find_nearest() then returned a site of another sublattice or read outside of the
positions (and so did KPM::calc_ldos()).
---
 cppcore/src/system/System.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cppcore/src/system/System.cpp b/cppcore/src/system/System.cpp
index cfd3490..705d191 100644
--- a/cppcore/src/system/System.cpp
+++ b/cppcore/src/system/System.cpp
@@ -67,6 +67,10 @@ Range System::sublattice_range(string_view sublattice) const {
 
 idx_t System::find_nearest(Cartesian target_position, string_view sublattice_name) const {
     auto const range = sublattice_range(sublattice_name);
+    if (range.start == range.end) {
+        throw std::runtime_error("System::find_nearest(): there are no sites on the sublattice");
+    }
+
     auto nearest_index = range.start;
     auto min_distance = (positions[range.start] - target_position).norm();
 
-- 
2.43.0


From 85ca5d75a98d416328f855fa9ce55f003c40550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:49 +0000
Subject: [PATCH 34/45] fix: load the file which save() wrote also when there
 is a directory of the same name

save(obj, "out") writes out.pbz, but load("out") tried to open the directory "out".
---
 pybinding/support/pickle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybinding/support/pickle.py b/pybinding/support/pickle.py
index dca52a1..daa2b52 100644
--- a/pybinding/support/pickle.py
+++ b/pybinding/support/pickle.py
@@ -111,8 +111,9 @@ def load(file):
     """
     file = _normalize(file)
     file_ext = _add_extension(file)
-    if isinstance(file, str) and not os.path.exists(file) and os.path.exists(file_ext):
-        file = file_ext
+    if isinstance(file, str) and os.path.exists(file_ext):
+        if not os.path.exists(file) or os.path.isdir(file):
+            file = file_ext
 
     with gzip.open(file, 'rb') as f:
         return pickle.loads(f.read())  # read everything: the checksum is at the end of the file
-- 
2.43.0


From fa547f993bcda7352460e5dc2ef4cfbabe931b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:18 +0000
Subject: [PATCH 35/45] fix: parallel_for terminated the process when a thread
 could not be started

---
 cppcore/include/detail/thread.hpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/cppcore/include/detail/thread.hpp b/cppcore/include/detail/thread.hpp
index aed3843..5c01bcf 100644
--- a/cppcore/include/detail/thread.hpp
+++ b/cppcore/include/detail/thread.hpp
@@ -115,6 +115,14 @@ public:
         }
     }
 
+    /// Start a thread. Without the resources to do so, the exception is kept and no thread returned
+    template<class F>
+    std::thread start(F&& f) {
+        auto thread = std::thread{};
+        guard([&] { thread = std::thread(std::forward<F>(f)); });
+        return thread;
+    }
+
     /// To be called when the other threads are done
     void rethrow() {
         if (error) { std::rethrow_exception(std::move(error)); }
@@ -166,6 +174,8 @@ void parallel_for(size_t size, size_t num_threads, size_t queue_size,
     // After an error in any of the threads, the remaining jobs are dropped
     detail::SharedError error;
 
+    auto work_threads = std::vector<std::thread>{num_threads};
+
     // This thread produces new jobs and adds them to the work queue
     std::thread production_thread([&] {
         detail::QueueGuard<Job> guard{work_queue};
@@ -179,9 +189,8 @@ void parallel_for(size_t size, size_t num_threads, size_t queue_size,
 
     // Multiple compute threads consume the work queue
     // and send the completed jobs to the retirement queue
-    auto work_threads = std::vector<std::thread>{num_threads};
     for (auto& thread : work_threads) {
-        thread = std::thread([&] {
+        thread = error.start([&] {
             detail::QueueGuard<Job> guard{retirement_queue};
             while (auto maybe_job = work_queue.pop()) {
                 auto job = maybe_job.get();
@@ -192,7 +201,7 @@ void parallel_for(size_t size, size_t num_threads, size_t queue_size,
     }
 
     // This thread consumes the retirement queue
-    std::thread report_thread([&] {
+    auto report_thread = error.start([&] {
         while (auto maybe_job = retirement_queue.pop()) {
             auto job = maybe_job.get();
             error.guard([&] { retire(std::move(job.value), job.id); });
@@ -200,11 +209,20 @@ void parallel_for(size_t size, size_t num_threads, size_t queue_size,
         }
     });
 
+    // After an error, there may be no threads to take the jobs which were still produced
+    if (num_threads > 0 && !work_threads.front().joinable()) {
+        detail::QueueGuard<Job> guard{retirement_queue};
+        while (work_queue.pop()) {}
+    }
+    if (!report_thread.joinable()) {
+        while (retirement_queue.pop()) { jobs_in_memory.pop(); }
+    }
+
     production_thread.join();
     for (auto& thread : work_threads) {
-        thread.join();
+        if (thread.joinable()) { thread.join(); }
     }
-    report_thread.join();
+    if (report_thread.joinable()) { report_thread.join(); }
     error.rethrow();
 }
 
-- 
2.43.0


From 9f66b3a9943c970147ac28170d31f21cc9ebb89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:18 +0000
Subject: [PATCH 36/45] fix: parallel_for terminated the process when memory
 ran out while a job was handed over

---
 cppcore/include/detail/thread.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/detail/thread.hpp b/cppcore/include/detail/thread.hpp
index 5c01bcf..7ae8c4a 100644
--- a/cppcore/include/detail/thread.hpp
+++ b/cppcore/include/detail/thread.hpp
@@ -104,14 +104,20 @@ public:
     /// Call `f` and keep its exception, but do nothing if there has already been an error
     template<class F>
     void guard(F&& f) {
-        if (has_error) { return; }
+        if (!has_error) { keep(std::forward<F>(f)); }
+    }
 
+    /// Call `f` and keep its exception. Return false if there is one
+    template<class F>
+    bool keep(F&& f) {
         try {
             f();
+            return true;
         } catch (...) {
             std::lock_guard<std::mutex> lk(m);
             if (!error) { error = std::current_exception(); }
             has_error = true;
+            return false;
         }
     }
 
@@ -195,7 +201,10 @@ void parallel_for(size_t size, size_t num_threads, size_t queue_size,
             while (auto maybe_job = work_queue.pop()) {
                 auto job = maybe_job.get();
                 error.guard([&] { compute(job.value); });
-                retirement_queue.push(std::move(job));
+                // A job which can't be handed over (out of memory) is dropped
+                if (!error.keep([&] { retirement_queue.push(std::move(job)); })) {
+                    jobs_in_memory.pop();
+                }
             }
         });
     }
-- 
2.43.0


From e1cb35ec46d4dda256155e296d12a8fefc106a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:20 +0000
Subject: [PATCH 37/45] fix: Sweep.save_txt and plots failed with the installed
 numpy, which has no row_stack

---
 pybinding/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/results.py b/pybinding/results.py
index dddffe3..58c3322 100644
--- a/pybinding/results.py
+++ b/pybinding/results.py
@@ -814,7 +814,7 @@ class Sweep:
     def _xy_grids(self):
         """Expand x and y into 2D arrays matching data."""
         xgrid = np.column_stack([self.x] * self.y.size)
-        ygrid = np.row_stack([self.y] * self.x.size)
+        ygrid = np.vstack([self.y] * self.x.size)
         return xgrid, ygrid
 
     def save_txt(self, filename):
-- 
2.43.0


From 2c61029004e2fba0df9afff861f181d05b5b6942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:45 +0000
Subject: [PATCH 38/45] fix: pltutils.axes left the other axes active when its
 block raised an error

---
 pybinding/pltutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybinding/pltutils.py b/pybinding/pltutils.py
index da12058..ca2d90e 100644
--- a/pybinding/pltutils.py
+++ b/pybinding/pltutils.py
@@ -48,8 +48,10 @@ def axes(ax):
     """
     previous_ax = plt.gca()
     plt.sca(ax)
-    yield
-    plt.sca(previous_ax)
+    try:
+        yield
+    finally:
+        plt.sca(previous_ax)
 
 
 @contextmanager
-- 
2.43.0


From 8e71b1c49023b065db1d0962a5b83b2d86a1fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:07 +0000
Subject: [PATCH 39/45] fix: an alias of an alias had the ID of the alias
 instead of the original's

---
 cppcore/src/Lattice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 1fdc1d2..050e352 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -47,7 +47,7 @@ void Lattice::add_sublattice(string_view name, Cartesian position,
 
 void Lattice::add_alias(string_view alias_name, string_view original_name, Cartesian position) {
     auto const& original = sublattice(original_name);
-    auto const alias_id = SubAliasID(original.unique_id);
+    auto const alias_id = original.alias_id; // the original may itself be an alias
     auto const unique_id = make_unique_sublattice_id(alias_name);
     sublattices[alias_name] = {position, original.energy, unique_id, alias_id};
 }
-- 
2.43.0


From 812cc8fa52171a2b28693e7ce210cb77fa71e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:30 +0000
Subject: [PATCH 40/45] fix: a rejected hopping left its energy in the lattice,
 which could make models complex or multi-orbital

---
 cppcore/src/Lattice.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 050e352..b0e41f7 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -105,23 +105,25 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
 
 void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_view to_sub,
                           MatrixXcd const& energy) {
-    auto const hopping_name = [&] {
-        // Look for an existing hopping ID with the same energy
-        auto const it = std::find_if(hoppings.begin(), hoppings.end(), [&](Hoppings::reference r) {
-            auto const& e = r.second.energy;
-            return e.rows() == energy.rows() && e.cols() == energy.cols() && e == energy;
-        });
+    // Look for an existing hopping ID with the same energy
+    auto const it = std::find_if(hoppings.begin(), hoppings.end(), [&](Hoppings::reference r) {
+        auto const& e = r.second.energy;
+        return e.rows() == energy.rows() && e.cols() == energy.cols() && e == energy;
+    });
 
-        if (it != hoppings.end()) {
-            return it->first;
-        } else {
-            auto const name = "__anonymous__{}"_format(hoppings.size());
-            register_hopping_energy(name, energy);
-            return name;
-        }
-    }();
+    if (it != hoppings.end()) {
+        add_hopping(relative_index, from_sub, to_sub, it->first);
+        return;
+    }
 
-    add_hopping(relative_index, from_sub, to_sub, hopping_name);
+    auto const name = "__anonymous__{}"_format(hoppings.size());
+    register_hopping_energy(name, energy);
+    try {
+        add_hopping(relative_index, from_sub, to_sub, name);
+    } catch (...) {
+        hoppings.erase(name); // don't keep the energy of a hopping which was rejected
+        throw;
+    }
 }
 
 void Lattice::set_offset(Cartesian position) {
-- 
2.43.0


From d82f2ffc254cf18a109dcd0fa10713706ec4e6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:22 +0000
Subject: [PATCH 41/45] fix: a lattice with a sublattice added after an alias
 couldn't be used in a model

---
 cppcore/src/Lattice.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index b0e41f7..5317734 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -247,21 +247,21 @@ OptimizedUnitCell Lattice::optimized_unit_cell() const {
 }
 
 SiteRegistry Lattice::site_registry() const {
-    auto const num_unique_subs = std::count_if(
-        sublattices.begin(), sublattices.end(),
-        [](Sublattices::const_reference r) {
-            return SubID(r.second.alias_id) == r.second.unique_id;
-        }
-    );
+    // The registry is indexed by the IDs of the original sublattices. Aliases which were added
+    // before one of them also have an entry, but it isn't used by any site of the system.
+    auto size = size_t{0};
+    for (auto const& pair : sublattices) {
+        size = std::max(size, pair.second.alias_id.as<size_t>() + 1);
+    }
 
-    auto energies = std::vector<MatrixXcd>(num_unique_subs);
-    auto names = std::vector<std::string>(num_unique_subs);
+    auto energies = std::vector<MatrixXcd>(size);
+    auto names = std::vector<std::string>(size);
     for (auto const& pair : sublattices) {
-        auto const& sub = pair.second;
-        if (SubID(sub.alias_id) != sub.unique_id) { continue; }
+        auto const index = pair.second.unique_id.as<size_t>();
+        if (index >= size) { continue; }
 
-        energies.at(sub.unique_id.value()) = sub.energy;
-        names.at(sub.unique_id.value()) = pair.first;
+        energies[index] = pair.second.energy;
+        names[index] = pair.first;
     }
     return {energies, names};
 }
-- 
2.43.0


From 41baf2679ef74a89abbd548ead0c798f389672b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:59 +0000
Subject: [PATCH 42/45] fix: the pickled state of site positions referred to
 the memory of the original

The arrays were views without an owner: with pickle protocol 5 and separate
buffers they were read after the temporary copy of the positions was deleted.
---
 cppmodule/src/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppmodule/src/system.cpp b/cppmodule/src/system.cpp
index 02ea311..453efd4 100644
--- a/cppmodule/src/system.cpp
+++ b/cppmodule/src/system.cpp
@@ -23,7 +23,7 @@ void wrap_system(py::module& m) {
         .def_property_readonly("y", [](CartesianArray const& a) { return arrayref(a.y); })
         .def_property_readonly("z", [](CartesianArray const& a) { return arrayref(a.z); })
         .def(py::pickle([](CartesianArray const& a) {
-            return py::make_tuple(arrayref(a.x), arrayref(a.y), arrayref(a.z));
+            return py::make_tuple(a.x, a.y, a.z);
         }, [](py::tuple t) {
             using T = ArrayXf;
             return new CartesianArray(t[0].cast<T>(), t[1].cast<T>(), t[2].cast<T>());
-- 
2.43.0


From 75ca8762f95b47852cfe3fc0cf90dfc2d4128a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:59 +0000
Subject: [PATCH 43/45] fix: eigenvalues and eigenvectors in Python referred to
 memory which the next solution frees

The arrays were views of the memory of the solver strategy, which is resized or
overwritten when the solver is used again, e.g. with another wave vector.
---
 cppmodule/src/solver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cppmodule/src/solver.cpp b/cppmodule/src/solver.cpp
index e0afb05..b1316e0 100644
--- a/cppmodule/src/solver.cpp
+++ b/cppmodule/src/solver.cpp
@@ -12,8 +12,13 @@ void wrap_solver(py::module& m) {
         .def("calc_spatial_ldos", &BaseSolver::calc_spatial_ldos, "energy"_a, "broadening"_a)
         .def_property("model", &BaseSolver::get_model, &BaseSolver::set_model)
         .def_property_readonly("system", &BaseSolver::system)
-        .def_property_readonly("eigenvalues", &BaseSolver::eigenvalues)
-        .def_property_readonly("eigenvectors", &BaseSolver::eigenvectors);
+        // The solver reuses its memory for the next solution: the results need to be copied
+        .def_property_readonly("eigenvalues", [](BaseSolver& s) {
+            return py::cast(s.eigenvalues()).attr("copy")("K");
+        })
+        .def_property_readonly("eigenvectors", [](BaseSolver& s) {
+            return py::cast(s.eigenvectors()).attr("copy")("K");
+        });
 
 #ifdef CPB_USE_FEAST
     auto const feast_defaults = FEASTConfig();
-- 
2.43.0


From e8b354ec118cca92d42405a8e6e73002478abebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:53 +0000
Subject: [PATCH 44/45] fix: position modifiers in Python which exchange
 coordinates gave wrong positions

---
 cppmodule/src/modifiers.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cppmodule/src/modifiers.cpp b/cppmodule/src/modifiers.cpp
index 7008681..c573736 100644
--- a/cppmodule/src/modifiers.cpp
+++ b/cppmodule/src/modifiers.cpp
@@ -88,9 +88,15 @@ void wrap_modifiers(py::module& m) {
             return new PositionModifier([apply](CartesianArrayRef p, string_view sub) {
                 py::gil_scoped_acquire guard{};
                 auto t = py::tuple(apply(arrayref(p.x()), arrayref(p.y()), arrayref(p.z()), sub));
-                extract_modifier_result<ArrayXf>(p.x(), t[0]);
-                extract_modifier_result<ArrayXf>(p.y(), t[1]);
-                extract_modifier_result<ArrayXf>(p.z(), t[2]);
+                // The results may be views of the arguments (e.g. with `x` and `y` swapped),
+                // so all of them must be read before any of the positions is changed
+                auto x = ArrayXf(p.size()), y = ArrayXf(p.size()), z = ArrayXf(p.size());
+                extract_modifier_result<ArrayXf>(x, t[0]);
+                extract_modifier_result<ArrayXf>(y, t[1]);
+                extract_modifier_result<ArrayXf>(z, t[2]);
+                p.x() = x;
+                p.y() = y;
+                p.z() = z;
             });
         }));
 
-- 
2.43.0


From be075a182e02f0b61624757b76d7201d8b597928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:53 +0000
Subject: [PATCH 45/45] fix: results of modifiers in Python were misread if
 their elements are not contiguous

---
 cppmodule/src/modifiers.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cppmodule/src/modifiers.cpp b/cppmodule/src/modifiers.cpp
index c573736..b62f33c 100644
--- a/cppmodule/src/modifiers.cpp
+++ b/cppmodule/src/modifiers.cpp
@@ -26,7 +26,15 @@ struct ExtractModifierResult {
             throw std::runtime_error("Unexpected modifier result size");
         }
 
-        if (eigen_map.data() != a.data()) {
+        if (a.ndim() == 1 && a.size() > 1 && a.strides(0) != static_cast<idx_t>(sizeof(scalar_t))) {
+            // The elements are not next to each other (e.g. `result[::-1]` or `result.real`).
+            // The array may also be a view of the destination, hence the temporary.
+            EigenType tmp(eigen_map.size());
+            for (auto i = idx_t{0}; i < tmp.size(); ++i) {
+                tmp[i] = *a.data(i);
+            }
+            eigen_map = tmp;
+        } else if (eigen_map.data() != a.data()) {
             eigen_map = Eigen::Map<EigenType const>(a.data(), static_cast<idx_t>(a.size()));
         }
     }
-- 
2.43.0

