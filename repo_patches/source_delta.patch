From af682b81879247a78c7ed4dc86f5dfb3852bd4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:38 +0000
Subject: [PATCH 01/16] fix: thread pool termination can neither race with
 workers nor be missed by them

should_terminate was a plain bool written by the destructor (and by the
constructor's error path) without main_queue_mutex: a data race with the
workers, and a worker between checking the predicate and waiting on the
condition variable missed the notification, so that the join never returned.
---
 src/include/DedicatedThreadPool.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index fb6e9df..c6c2bd5 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -1,6 +1,7 @@
 #ifndef INTP_THREAD_POOL
 #define INTP_THREAD_POOL
 
+#include <atomic>   // atomic
 #include <future>   //unique_lock, packaged_task
 #include <mutex>    // mutex
 #include <queue>    // deque
@@ -105,8 +106,7 @@ class DedicatedThreadPool {
 #endif
         } catch (...) {  // in this case dtor is not called, so threads
                          // termination should be proper handled here
-            should_terminate = true;
-            cv.notify_all();
+            terminate_workers();
             throw;
         }
     }
@@ -115,8 +115,7 @@ class DedicatedThreadPool {
     using return_type = T;
 
     ~DedicatedThreadPool() {
-        should_terminate = true;
-        cv.notify_all();
+        terminate_workers();
 
 #ifdef INTP_DEBUG
         std::cout << "\n[DEBUG] The thread pool has " << thread_num()
@@ -204,6 +203,20 @@ class DedicatedThreadPool {
         }
     };
 
+    /**
+     * @brief Ask all the worker threads to quit. The flag is set with the lock
+     * held, otherwise a worker that has just found it unset but does not wait
+     * on the condition variable yet would miss the notification.
+     *
+     */
+    void terminate_workers() {
+        {
+            lock_type lk(main_queue_mutex);
+            should_terminate = true;
+        }
+        cv.notify_all();
+    }
+
     bool try_pop_from_main(task_type& task) {
         {
             lock_type lk(main_queue_mutex);
@@ -259,7 +272,8 @@ class DedicatedThreadPool {
 #ifdef INTP_DEBUG
     size_t submitted{};
 #endif
-    bool should_terminate = false;  // Tells threads to stop looking for tasks
+    // Tells threads to stop looking for tasks
+    std::atomic<bool> should_terminate{false};
     std::mutex main_queue_mutex;    // Protects main task queue
     std::condition_variable cv;     // Signals for thread sleep/awake
     std::vector<std::thread> threads;  // Thread container
-- 
2.43.0


From 8b6f7484849c7f15565a0d76fb4b70aec6c583d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:38 +0000
Subject: [PATCH 02/16] fix: do not leak a worker queue when the thread pool
 runs out of memory

emplace_back(new T) drops the raw pointer if growing the vector throws.
---
 src/include/DedicatedThreadPool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index c6c2bd5..79e227e 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -94,7 +94,8 @@ class DedicatedThreadPool {
         auto t_num = num == 0 ? DEFAULT_THREAD_NUM : num;
         try {
             for (size_t i = 0; i < t_num; i++) {
-                worker_queues.emplace_back(new shared_working_queue{});
+                worker_queues.push_back(std::unique_ptr<shared_working_queue>(
+                    new shared_working_queue{}));
             }
             for (size_t i = 0; i < t_num; i++) {
                 threads.emplace_back(&DedicatedThreadPool::thread_loop, this,
-- 
2.43.0


From 1c39633a19d56d481f34c81066a0c9c285182207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:02 +0000
Subject: [PATCH 03/16] fix: a worker of the thread pool survives running out
 of memory

Moving tasks from the main queue to a worker's local queue may allocate; the
bad_alloc escaped the thread function and terminated the process.
---
 src/include/DedicatedThreadPool.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index 79e227e..9c17a82 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -4,6 +4,7 @@
 #include <atomic>   // atomic
 #include <future>   //unique_lock, packaged_task
 #include <mutex>    // mutex
+#include <new>      // bad_alloc
 #include <queue>    // deque
 #include <thread>   // hardware_concurrency
 #include <utility>  // move
@@ -222,10 +223,21 @@ class DedicatedThreadPool {
         {
             lock_type lk(main_queue_mutex);
             if (main_queue.empty()) { return false; }
-            size_t c{};
-            while (c++ < BATCH_SIZE && !main_queue.empty()) {
-                worker_queue_ptr->push(std::move(main_queue.front()));
-                main_queue.pop();
+            try {
+                size_t c{};
+                while (c++ < BATCH_SIZE && !main_queue.empty()) {
+                    worker_queue_ptr->push(std::move(main_queue.front()));
+                    main_queue.pop();
+                }
+            } catch (const std::bad_alloc&) {
+                // Not enough memory to move another task to local queue, which
+                // leaves the task in main queue intact. Just take that one if
+                // there are no others.
+                if (worker_queue_ptr->empty()) {
+                    task = std::move(main_queue.front());
+                    main_queue.pop();
+                    return true;
+                }
             }
         }
         return worker_queue_ptr->try_pop(task);
-- 
2.43.0


From feeadfb6c9fd8a90f850b397e59ae4150b24eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:56 +0000
Subject: [PATCH 04/16] fix: upper end of the range of an aperiodic dimension
 of even order

The offset into the knot vector that suits periodic splines was used for
aperiodic ones, too, so range().second was the last internal knot and at() and
derivative_at() rejected valid coordinates beyond it.
---
 src/include/BSpline.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 3b9831b..7ad91d8 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -222,8 +222,10 @@ class BSpline {
     load_knots(size_type dim_ind, C&& _knots) {
         knots_[dim_ind] = std::forward<C>(_knots);
         range_[dim_ind].first = knots_[dim_ind][order];
+        // periodic spline of even order has one more knot at the right end
         range_[dim_ind].second =
-            knots_[dim_ind][knots_[dim_ind].size() - order - (2 - order % 2)];
+            knots_[dim_ind][knots_[dim_ind].size() - order -
+                            (periodicity_[dim_ind] ? 2 - order % 2 : 1)];
     }
 
 #ifdef INTP_CELL_LAYOUT
-- 
2.43.0


From 4b85217766c3b0ed20a5521bcb93e419ff55697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:56 +0000
Subject: [PATCH 05/16] fix: evaluation proxy of splines of even order in
 periodic dimensions

The shape of the control point cells was derived from the number of knots,
assuming the same relation for odd and even order. A periodic spline of even
order has one more knot, thus the proxy read the wrong cells. Use the actual
shape of the cells.
---
 src/include/BSpline.hpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 7ad91d8..6b1a15d 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -269,15 +269,15 @@ class BSpline {
                          order;
         }
 
-        auto total_offset = calculate_cell_dim_from_knots().indexing(ind_arr);
-
         return
-            [base_spline_values_1d, total_offset](const spline_type& spline) {
+            [base_spline_values_1d, ind_arr](const spline_type& spline) {
                 val_type v{};
 
                 const auto& control_points = spline.control_points();
-                auto cell_iter = control_points.begin() +
-                                 static_cast<std::ptrdiff_t>(total_offset);
+                auto cell_iter =
+                    control_points.begin() +
+                    static_cast<std::ptrdiff_t>(
+                        control_points.dimension().indexing(ind_arr));
                 for (size_type i = 0;
                      i < control_points.dim_size(dim) * (order + 1); ++i) {
                     knot_type coef = 1;
@@ -666,16 +666,6 @@ class BSpline {
     }
 
 #ifdef INTP_CELL_LAYOUT
-    MeshDimension<dim + 1> calculate_cell_dim_from_knots() const {
-        MeshDimension<dim + 1> cell_dim(util::pow(order + 1, dim - 1));
-        for (size_type d = 0; d < dim; ++d) {
-            cell_dim.dim_size(d) = knots_[d].size() -
-                                   (periodicity(d) ? order + 1 : order + 1) -
-                                   (d == dim - 1 ? 0 : order);
-        }
-        return cell_dim;
-    }
-
     ControlPointCellContainer generate_cell_layout(
         const ControlPointContainer& ctrl_pts) const {
         MeshDimension<dim + 1> cell_container_dim(
-- 
2.43.0


From ed065307b27efeb4d0ef92ea0759c045a49a891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:50 +0000
Subject: [PATCH 06/16] fix: periodic spline evaluated exactly one or more
 periods below its range

Folding such a coordinate back gave the upper end of the range, which for even
order is located in a knot segment without control points of its own: memory
behind the control points was read.
---
 src/include/BSpline.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index 6b1a15d..d455f6a 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -133,6 +133,8 @@ class BSpline {
             x = range(dim_ind).first +
                 std::fmod(x - range(dim_ind).first, period) +
                 (x < range(dim_ind).first ? period : knot_type{});
+            // the upper end itself belongs to the next period
+            if (x >= range(dim_ind).second) { x = range(dim_ind).first; }
         }
 #ifdef INTP_TRACE
         if ((*iter > x || *(iter + 1) < x) && x >= range(dim_ind).first &&
-- 
2.43.0


From 21d6561c2eacab91bb31e00a1d72cd114c802acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:05 +0000
Subject: [PATCH 07/16] fix: running out of memory while creating a band solver
 terminated the program

The default constructor was noexcept, but its matrix allocates memory.
---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 726faae..d1f4e9c 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -17,7 +17,7 @@ class BandLUBase : public util::CRTP<Solver<Matrix>> {
    public:
     using matrix_type = Matrix;
 
-    BandLUBase() noexcept : is_computed_(false) {}
+    BandLUBase() : is_computed_(false) {}
 
     template <typename Mat_>
     BandLUBase(Mat_&& mat) : lu_store_(std::forward<Mat_>(mat)) {
-- 
2.43.0


From a4796668974eef20bf842eb12df6f3d9868bb93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:18 +0000
Subject: [PATCH 08/16] fix: tasks of a failed interpolation used memory that
 was gone

When queueing a task, the calling thread's own share of the work or one of the
tasks threw, the function was left with other tasks still queued or running,
which refer to its local variables.
---
 src/include/BSpline.hpp               |  2 ++
 src/include/DedicatedThreadPool.hpp   | 20 ++++++++++++++++++++
 src/include/InterpolationTemplate.hpp |  2 ++
 3 files changed, 24 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index d455f6a..e952d49 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -734,6 +734,8 @@ class BSpline {
 
         auto& thread_pool = DedicatedThreadPool<void>::get_instance(8);
         std::vector<std::future<void>> res;
+        res.reserve(block_num);  // adding a result can not fail
+        const WaitForTasks wait_for_tasks(res);
 
         for (size_type i = 0; i < block_num; ++i) {
             res.push_back(thread_pool.queue_task([=]() {
diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index 9c17a82..7474119 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -8,6 +8,7 @@
 #include <queue>    // deque
 #include <thread>   // hardware_concurrency
 #include <utility>  // move
+#include <vector>   // vector
 
 #ifdef INTP_DEBUG
 #include <iostream>
@@ -15,6 +16,25 @@
 
 namespace intp {
 
+/**
+ * @brief Wait for a bunch of tasks in destruction. It keeps tasks from
+ * outliving local variables they refer to when the function that queued them is
+ * left by an exception.
+ *
+ */
+struct WaitForTasks {
+    std::vector<std::future<void>>& fs_;
+
+    WaitForTasks(std::vector<std::future<void>>& fs) : fs_(fs) {}
+    WaitForTasks(const WaitForTasks&) = delete;
+    WaitForTasks& operator=(const WaitForTasks&) = delete;
+    ~WaitForTasks() {
+        for (auto& f : fs_) {
+            if (f.valid()) { f.wait(); }
+        }
+    }
+};
+
 /**
  * @brief A thread pool managing a bunch of threads and a queue of tasks. It can
  * spawn a specified number of threads during construction and joins all the
diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 843bc0b..776de4f 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -553,6 +553,8 @@ class InterpolationFunctionTemplate {
 
             auto& thread_pool = DedicatedThreadPool<void>::get_instance(8);
             std::vector<std::future<void>> res;
+            res.reserve(block_num);  // adding a result can not fail
+            const WaitForTasks wait_for_tasks(res);
 
             for (size_type i = 0; i < block_num; ++i) {
                 // use thread pool here may seem to be a bit overhead
-- 
2.43.0


From ae624cf463dd7f69678216d739b23d262ff7b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:43 +0000
Subject: [PATCH 09/16] fix: mesh had the wrong shape after failing to resize

---
 src/include/Mesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/Mesh.hpp b/src/include/Mesh.hpp
index b2b8ffb..aa0bb04 100644
--- a/src/include/Mesh.hpp
+++ b/src/include/Mesh.hpp
@@ -298,8 +298,9 @@ class Mesh {
     // modifiers
 
     void resize(index_type sizes) {
+        // the dimension stays consistent with storage if resizing fails
+        storage_.resize(MeshDimension<dim>(sizes).size());
         dimension_.resize(sizes);
-        storage_.resize(dimension_.size());
     }
 
     // element access
-- 
2.43.0


From 90ca12365a607f9662f759da9622559dce254060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:51 +0000
Subject: [PATCH 10/16] fix: copying an interpolation template with C++11 or
 C++14

The copy of the solver was left empty, yet used. Besides, a solver that failed
to be created for want of memory was destroyed all the same.
---
 src/include/InterpolationTemplate.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/include/InterpolationTemplate.hpp b/src/include/InterpolationTemplate.hpp
index 776de4f..413ed5a 100644
--- a/src/include/InterpolationTemplate.hpp
+++ b/src/include/InterpolationTemplate.hpp
@@ -197,34 +197,44 @@ class InterpolationFunctionTemplate {
         // err
         EitherSolver() {}
         // Active union member and tag it.
-        EitherSolver(bool is_periodic)
-            : is_active_(true), is_periodic_(is_periodic) {
+        EitherSolver(bool is_periodic) : is_periodic_(is_periodic) {
             if (is_periodic_) {
                 new (&solver_periodic) extended_solver_type;
             } else {
                 new (&solver_aperiodic) base_solver_type;
             }
+            is_active_ = true;
         }
         EitherSolver& operator=(bool is_periodic) {
             if (is_active_) {
                 throw std::runtime_error("Can not switch solver type.");
             }
 
-            is_active_ = true;
             is_periodic_ = is_periodic;
             if (is_periodic_) {
                 new (&solver_periodic) extended_solver_type;
             } else {
                 new (&solver_aperiodic) base_solver_type;
             }
+            is_active_ = true;
 
             return *this;
         }
 
-        // Copy constructor is required by aggregate initialization, but never
-        // invoked in this code since the content of this union is never
-        // switched.
-        EitherSolver(const EitherSolver&) {}
+        // Copy constructor is required by aggregate initialization, and invoked
+        // when an interpolation function template is copied.
+        EitherSolver(const EitherSolver& other)
+            : is_periodic_(other.is_periodic_) {
+            if (!other.is_active_) { return; }
+            if (is_periodic_) {
+                new (&solver_periodic)
+                    extended_solver_type(other.solver_periodic);
+            } else {
+                new (&solver_aperiodic)
+                    base_solver_type(other.solver_aperiodic);
+            }
+            is_active_ = true;
+        }
         // Destructor needed and it invokes either member's destructor according
         // to the tag "is_periodic";
         ~EitherSolver() {
-- 
2.43.0


From 09bfbab54a77c797e9266d59fb6467b80bad8b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:04 +0000
Subject: [PATCH 11/16] fix: decomposing a matrix given as lvalue emptied it

---
 src/include/BandLU.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index d1f4e9c..0a64f42 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -34,7 +34,7 @@ class BandLUBase : public util::CRTP<Solver<Matrix>> {
             std::is_same<util::remove_cvref_t<Mat_>, matrix_type>::value,
             "Matrix type mismatch");
         if (!is_computed_) {
-            lu_store_ = std::forward<matrix_type>(mat);
+            lu_store_ = std::forward<Mat_>(mat);
             this->cast().compute_impl();
             is_computed_ = true;
         }
-- 
2.43.0


From a8789c3f7c40d02e3d0348f8add98c0b56995ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:31 +0000
Subject: [PATCH 12/16] fix: product of a band matrix and a vector used the
 transposed matrix

Bands are stored by column, but the product read them by row.
---
 src/include/BandMatrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/BandMatrix.hpp b/src/include/BandMatrix.hpp
index 2a4d9ec..db65499 100644
--- a/src/include/BandMatrix.hpp
+++ b/src/include/BandMatrix.hpp
@@ -68,9 +68,9 @@ class BandMatrix {
     util::remove_cvref_t<Vec> operator*(const Vec& x) const {
         util::remove_cvref_t<Vec> xx(x.size());
         for (size_type i = 0; i < x.size(); ++i) {
-            for (size_type j = p_ > i ? p_ - i : 0, k = i > p_ ? i - p_ : 0;
-                 j < std::min(p_ + q_ + 1, n_ + p_ - i); ++j, ++k) {
-                xx[i] += bands_(i, j) * x[k];
+            for (size_type j = i > p_ ? i - p_ : 0;
+                 j < std::min(i + q_ + 1, n_); ++j) {
+                xx[i] += operator()(i, j) * x[j];
             }
         }
         return xx;
-- 
2.43.0


From 4620e108a3171b8b25111a03531f6f6bd50a2635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:18 +0000
Subject: [PATCH 13/16] fix: iterating over lines of a const mesh and comparing
 line iterators did not compile

---
 src/include/Mesh.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/include/Mesh.hpp b/src/include/Mesh.hpp
index aa0bb04..f39d9fd 100644
--- a/src/include/Mesh.hpp
+++ b/src/include/Mesh.hpp
@@ -161,7 +161,7 @@ class Mesh {
         // forward iterator requirement
 
         reference operator*() { return *ptr_; }
-        reference operator->() { return ptr_; }
+        pointer operator->() { return ptr_; }
 
         bool operator==(const skip_iterator& other) const {
             return this->ptr_ == other.ptr_ &&
@@ -216,7 +216,7 @@ class Mesh {
             return tmp -= n;
         }
 
-        difference_type operator-(skip_iterator other) {
+        difference_type operator-(skip_iterator other) const {
             return (ptr_ - other.ptr_) / step_length_;
         }
 
@@ -366,8 +366,9 @@ class Mesh {
                                       index_type indices) const {
         indices[dim_ind] = dimension_.dim_size(dim_ind);
         return skip_iterator<const val_type>(
-            storage_.data() + indexing(indices),
-            dimension_.dim_acc_size(dim - dim_ind - 1));
+            storage_.data() + dimension_.indexing(indices),
+            static_cast<typename skip_iterator<val_type>::difference_type>(
+                dimension_.dim_acc_size(dim - dim_ind - 1)));
     }
 
     index_type iter_indices(const_iterator iter) const {
-- 
2.43.0


From 871e59a0abbbee9ad74b91be604f0b7bfa1aa3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:35 +0000
Subject: [PATCH 14/16] fix: evaluation at NaN (or infinity in a periodic
 dimension) read out of bounds for even orders

---
 src/include/BSpline.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/BSpline.hpp b/src/include/BSpline.hpp
index e952d49..180113f 100644
--- a/src/include/BSpline.hpp
+++ b/src/include/BSpline.hpp
@@ -136,6 +136,10 @@ class BSpline {
             // the upper end itself belongs to the next period
             if (x >= range(dim_ind).second) { x = range(dim_ind).first; }
         }
+        // not a number (or infinite in periodic dimension), any segment will do
+        if (std::isnan(x)) {
+            return knots_begin(dim_ind) + static_cast<diff_type>(order);
+        }
 #ifdef INTP_TRACE
         if ((*iter > x || *(iter + 1) < x) && x >= range(dim_ind).first &&
             x <= range(dim_ind).second) {
-- 
2.43.0


From ac64f3c249c58966c825761073f3f5679db2e48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:07 +0000
Subject: [PATCH 15/16] fix: band matrices and solvers were inconsistent after
 failing to be assigned

---
 src/include/BandLU.hpp     |  4 +++-
 src/include/BandMatrix.hpp | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/include/BandLU.hpp b/src/include/BandLU.hpp
index 0a64f42..a40fcb9 100644
--- a/src/include/BandLU.hpp
+++ b/src/include/BandLU.hpp
@@ -54,8 +54,10 @@ class BandLUBase : public util::CRTP<Solver<Matrix>> {
     }
 
    protected:
-    bool is_computed_;
+    // Defined before the flag, so that failing to copy it in assignment leaves
+    // the flag as it was.
     matrix_type lu_store_;
+    bool is_computed_;
 
     // Get the type of parameter in array subscript operator of given type U. It
     // is assumed that type U is either a container or an iterator, or a raw
diff --git a/src/include/BandMatrix.hpp b/src/include/BandMatrix.hpp
index db65499..b5aab6f 100644
--- a/src/include/BandMatrix.hpp
+++ b/src/include/BandMatrix.hpp
@@ -27,7 +27,7 @@ class BandMatrix {
     // Create a zero band matrix with given dimension, lower and upper
     // bandwidth.
     BandMatrix(size_type n, size_type p, size_type q)
-        : n_(n), p_(p), q_(q), bands_{n_, 1 + p_ + q_} {}
+        : bands_{n, 1 + p + q}, n_(n), p_(p), q_(q) {}
 
     BandMatrix() : BandMatrix(0, 0, 0) {}
 
@@ -91,9 +91,11 @@ class BandMatrix {
     }
 
    protected:
+    // Defined first, so that failing to copy it in assignment leaves the shape
+    // as it was.
+    Mesh<val_type, 2, allocator_type> bands_;
     size_type n_;
     size_type p_, q_;
-    Mesh<val_type, 2, allocator_type> bands_;
 };
 
 template <typename T, typename Alloc = std::allocator<T>>
@@ -111,6 +113,15 @@ class ExtendedBandMatrix : public BandMatrix<T, Alloc> {
 
     ExtendedBandMatrix() : ExtendedBandMatrix(1, 0, 0) {}
 
+    ExtendedBandMatrix(const ExtendedBandMatrix&) = default;
+    ExtendedBandMatrix(ExtendedBandMatrix&&) = default;
+    ExtendedBandMatrix& operator=(ExtendedBandMatrix&&) = default;
+    // Bands are copied before any of them is replaced, so that failing to copy
+    // one of them does not leave bands of different matrices.
+    ExtendedBandMatrix& operator=(const ExtendedBandMatrix& other) {
+        return *this = ExtendedBandMatrix(other);
+    }
+
     val_type& main_bands_val(size_type i, size_type j) {
         return base_type::operator()(i, j);
     }
-- 
2.43.0


From 7f82f67d87dbba9dab898b852bad1f11460800de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:55 +0000
Subject: [PATCH 16/16] fix: statistics of the thread pool (INTP_DEBUG) raced
 with its workers

---
 src/include/DedicatedThreadPool.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/DedicatedThreadPool.hpp b/src/include/DedicatedThreadPool.hpp
index 7474119..0f878b4 100644
--- a/src/include/DedicatedThreadPool.hpp
+++ b/src/include/DedicatedThreadPool.hpp
@@ -140,6 +140,9 @@ class DedicatedThreadPool {
         terminate_workers();
 
 #ifdef INTP_DEBUG
+        // workers update their counters until they quit
+        for (auto& t : threads) { t.join(); }
+
         std::cout << "\n[DEBUG] The thread pool has " << thread_num()
                   << " threads.\n"
                   << "[DEBUG]    Main queue has " << submitted
-- 
2.43.0

