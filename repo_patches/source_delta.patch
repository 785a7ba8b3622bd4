From d54fd198bb660df9c2dd0c769e6beaa74a2d83e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:52 +0000
Subject: [PATCH 01/73] fix: clear and re-arm the concurrent queue under its
 mutex

ResetInterrupt and Clear touched the flag and the underlying queue without
the lock, racing with Push/Pop/TryPop from other threads.
---
 dal/concurrency/concurrentqueue.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dal/concurrency/concurrentqueue.hpp b/dal/concurrency/concurrentqueue.hpp
index 6d4351e..7422e39 100644
--- a/dal/concurrency/concurrentqueue.hpp
+++ b/dal/concurrency/concurrentqueue.hpp
@@ -69,11 +69,18 @@ namespace Dal {
             cv_.notify_all();
         }
 
-        void ResetInterrupt() { interrupt_ = false; }
+        void ResetInterrupt() {
+            std::lock_guard<std::mutex> lk(mutex_);
+            interrupt_ = false;
+        }
 
         void Clear() {
             std::queue<T_> empty;
-            std::swap(queue_, empty);
+            {
+                std::lock_guard<std::mutex> lk(mutex_);
+                std::swap(queue_, empty);
+            }
+            // dropped elements are destroyed outside the lock
         }
     };
 } // namespace Dal
-- 
2.43.0


From ac446367d4ef1f1eb9d811404d9431a4b7f0326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:52 +0000
Subject: [PATCH 02/73] fix: make the pool's stop flag atomic

Workers read it in their main loop while Stop() writes it.
---
 dal/concurrency/threadpool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/concurrency/threadpool.hpp b/dal/concurrency/threadpool.hpp
index d783682..bb13aab 100644
--- a/dal/concurrency/threadpool.hpp
+++ b/dal/concurrency/threadpool.hpp
@@ -12,6 +12,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <dal/concurrency/concurrentqueue.hpp>
 #include <future>
 #include <thread>
@@ -25,7 +26,7 @@ namespace Dal {
         ConcurrentQueue_<Task_> queue_;
         std::vector<std::thread> threads_;
         bool active_;
-        bool interrupt_;
+        std::atomic<bool> interrupt_;
         static thread_local size_t tlsNum_;
 
         void ThreadFunc(const size_t& num);
-- 
2.43.0


From 4b1606b8205a0ac720fc6a8f45c10692771d03e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:52 +0000
Subject: [PATCH 03/73] fix: keep the pool stoppable when creating a worker
 fails

Start() set active_ only after the last worker; when std::thread threw, the
workers already running were never joined (Stop() was a no-op, the
destructor terminated the process and the next Start() duplicated their
indices).
---
 dal/concurrency/threadpool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/concurrency/threadpool.cpp b/dal/concurrency/threadpool.cpp
index 96af898..b8c5048 100644
--- a/dal/concurrency/threadpool.cpp
+++ b/dal/concurrency/threadpool.cpp
@@ -30,9 +30,10 @@ namespace Dal {
 
         if (!active_) {
             threads_.reserve(n_threads - 1);
+            // from here on Stop() has workers to join, even if creating one of them fails
+            active_ = true;
             for (size_t i = 0; i < n_threads - 1; ++i)
                 threads_.emplace_back(&ThreadPool_::ThreadFunc, this, i + 1);
-            active_ = true;
         }
     }
 
-- 
2.43.0


From de9de9dd02f547428ed73566f344fd9aed6eafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:52 +0000
Subject: [PATCH 04/73] fix: start the pool when the hardware concurrency is
 unknown

hardware_concurrency() may return 0, in which case n_threads - 1 wrapped
around and Start() tried to reserve 2^64-1 workers.
---
 dal/concurrency/threadpool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dal/concurrency/threadpool.cpp b/dal/concurrency/threadpool.cpp
index b8c5048..1e5837c 100644
--- a/dal/concurrency/threadpool.cpp
+++ b/dal/concurrency/threadpool.cpp
@@ -24,6 +24,9 @@ namespace Dal {
     void ThreadPool_::Start(size_t n_threads, bool restart) {
         if (n_threads <= 0 || n_threads > std::thread::hardware_concurrency())
             n_threads = std::thread::hardware_concurrency();
+        // the hardware concurrency may be unknown (zero): the calling thread alone is always available
+        if (n_threads == 0)
+            n_threads = 1;
 
         if (active_ && restart)
             Stop();
-- 
2.43.0


From 9f8784702b81a7061d3378b5a22b6d2d75cbbb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:04 +0000
Subject: [PATCH 05/73] fix: make SkipTo of the pseudo-random generators land
 on the requested point

MRG32 skipped half of the draws although normal points are not antithetic, so
parallel simulations replayed the same normals in several tasks; an odd
position or a pending antithetic point was mishandled; the shuffled IRN
generator ignored SkipTo altogether, so results depended on which thread ran
which task.
---
 dal/math/random/pseudorandom.cpp | 47 +++++++++++++++++++++++++-------
 dal/math/random/pseudorandom.hpp |  6 ++++
 2 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/dal/math/random/pseudorandom.cpp b/dal/math/random/pseudorandom.cpp
index ee95b03..8dab9e2 100644
--- a/dal/math/random/pseudorandom.cpp
+++ b/dal/math/random/pseudorandom.cpp
@@ -13,6 +13,16 @@
 namespace Dal {
     // derived classes can call this explicitly
     void PseudoRandom_::FillUniform(Vector_<>* devs) {
+        if (skipPending_) {
+            // uniform points come in antithetic pairs, each pair taking NDim() draws
+            skipPending_ = false;
+            SkipDraws(skipTo_ / 2 * NDim());
+            anti_ = (skipTo_ & 1) != 0;
+            if (anti_) {
+                for (auto& c : cache_)
+                    c = NextUniform();
+            }
+        }
         if (anti_) {
             for (size_t i = 0; i < devs->size(); ++i)
                 (*devs)[i] = (1.0 - cache_[i]);
@@ -36,7 +46,21 @@ namespace Dal {
         } // namespace RWT
     }     // namespace
 
-    void PseudoRandom_::FillNormal(Vector_<>* deviates) { RWT::Fill(this, deviates->begin(), deviates->end()); }
+    void PseudoRandom_::FillNormal(Vector_<>* deviates) {
+        if (skipPending_) {
+            // normal points are not antithetic, each takes NDim() draws
+            skipPending_ = false;
+            SkipDraws(skipTo_ * NDim());
+            anti_ = false;
+        }
+        RWT::Fill(this, deviates->begin(), deviates->end());
+    }
+
+    void PseudoRandom_::SkipTo(size_t n_points) {
+        // the number of draws per point depends on the distribution, so wait until we know which one is wanted
+        skipTo_ = n_points;
+        skipPending_ = true;
+    }
 
     namespace {
         // Generators similar to Knuth's IRN55, with shuffling
@@ -66,10 +90,15 @@ namespace Dal {
 
             explicit ShuffledIRN_(int seed, size_t n_dim = 1, bool precise = false)
                 : PseudoRandom_(n_dim, precise), seed_(seed), irn_(M_), shuffle_(S_), irl_(0) {
+                Reset();
+            }
+
+            void Reset() {
                 const unsigned MASK = 0x1F2E3D4C;
                 const unsigned MUL = 17;
+                irl_ = 0;
                 // initialize IRN_
-                irn_[0] = seed;
+                irn_[0] = seed_;
                 for (int ii = 1; ii < M_; ++ii)
                     irn_[ii] = ((MUL * irn_[ii - 1]) % DE_NOM) ^ MASK;
                 // initialize shuffle_
@@ -83,7 +112,11 @@ namespace Dal {
 
             [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size()); }
 
-            void SkipTo(size_t n_paths) override {}
+            void SkipDraws(size_t n_draws) override {
+                Reset();
+                for (size_t ii = 0; ii < n_draws; ++ii)
+                    NextUniform();
+            }
         };
 
         constexpr const double m1_ = 4294967087;
@@ -140,15 +173,9 @@ namespace Dal {
                 return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size());
             }
 
-            void SkipTo(size_t n_paths) override {
-                size_t n_points = n_paths * NDim();
+            void SkipDraws(size_t n_points) override {
                 Reset();
 
-                if (n_points & 1)
-                    n_points = (n_points - 1) / 2;
-                else
-                    n_points /= 2;
-
                 static constexpr size_t m1l = static_cast<size_t>(m1_);
                 static constexpr size_t m2l = static_cast<size_t>(m2_);
 
diff --git a/dal/math/random/pseudorandom.hpp b/dal/math/random/pseudorandom.hpp
index 7909959..0ae4a70 100644
--- a/dal/math/random/pseudorandom.hpp
+++ b/dal/math/random/pseudorandom.hpp
@@ -31,9 +31,13 @@ precise is boolean
 namespace Dal {
     class PseudoRandom_ : public Random_ {
         bool anti_ = false;
+        bool skipPending_ = false;
+        size_t skipTo_ = 0;
 
     protected:
         Vector_<> cache_;
+        // back to the seed, then forward by a number of single draws
+        virtual void SkipDraws(size_t n_draws) = 0;
 
     public:
         explicit PseudoRandom_(size_t n_dim, bool precise = false) : cache_(n_dim), precise_(precise) {}
@@ -41,6 +45,8 @@ namespace Dal {
         virtual double NextUniform() = 0;
         void FillUniform(Vector_<>* deviates) override;
         void FillNormal(Vector_<>* deviates) override;
+        // the next point filled is number n_points of the stream being filled (uniform or normal)
+        void SkipTo(size_t n_points) override;
         [[nodiscard]] PseudoRandom_* Clone() const override = 0;
         [[nodiscard]] size_t NDim() const override { return cache_.size(); }
         [[nodiscard]] virtual PseudoRandom_* Branch(int i_child) const = 0;
-- 
2.43.0


From 34dd007d195585482cb24fda5a6605eb3a45fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:04 +0000
Subject: [PATCH 06/73] fix: clones of a pseudo-random generator keep its
 precision setting

---
 dal/math/random/pseudorandom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/random/pseudorandom.cpp b/dal/math/random/pseudorandom.cpp
index 8dab9e2..0969026 100644
--- a/dal/math/random/pseudorandom.cpp
+++ b/dal/math/random/pseudorandom.cpp
@@ -110,7 +110,7 @@ namespace Dal {
                 return new ShuffledIRN_<M_, L_, S_>(irn_[0] ^ irn_[1]);
             }
 
-            [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size()); }
+            [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size(), precise_); }
 
             void SkipDraws(size_t n_draws) override {
                 Reset();
@@ -170,7 +170,7 @@ namespace Dal {
             [[nodiscard]] PseudoRandom_* Branch(int i_child) const override { return new MRG32k32a_(); }
 
             [[nodiscard]] PseudoRandom_* Clone() const override {
-                return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size());
+                return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size(), precise_);
             }
 
             void SkipDraws(size_t n_points) override {
-- 
2.43.0


From cdf84b6b086fd86315f4b8a612fbe913e2e66f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:48 +0000
Subject: [PATCH 07/73] fix: a Monte-Carlo simulation reports the failures of
 its tasks and waits for all of them

The futures were waited for but never read, so an exception thrown while
evaluating paths was dropped and a wrong value returned. When submitting a
task failed, the simulation unwound while tasks already running still
referred to its local variables.
---
 dal/script/simulation.hpp | 44 +++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index ac4e5dd..78087b6 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -54,6 +54,31 @@ namespace Dal::Script {
 
     std::unique_ptr<Random_> CreateRNG(const String_& method, size_t n_dim, bool use_bb);
 
+    // the tasks of one simulation: they refer to its local variables, so none may outlive it however it is left
+    class SimTasks_ : noncopyable {
+        ThreadPool_* pool_;
+        Vector_<TaskHandle_> futures_;
+
+    public:
+        SimTasks_(ThreadPool_* pool, size_t n_tasks) : pool_(pool) { futures_.reserve(n_tasks); }
+
+        ~SimTasks_() {
+            for (auto& future : futures_)
+                if (future.valid())
+                    pool_->ActiveWait(future);
+        }
+
+        template <class C_> void Spawn(C_&& c) { futures_.push_back(pool_->SpawnTask(std::forward<C_>(c))); }
+
+        // wait for all of them, then raise the first failure if there is one
+        void Join() {
+            for (auto& future : futures_)
+                pool_->ActiveWait(future);
+            for (auto& future : futures_)
+                future.get();
+        }
+    };
+
     template <class T_>
     SimResults_ MCSimulation(const ScriptProduct_& product,
                              const Handle_<ModelData_>& model_data,
@@ -103,9 +128,7 @@ namespace Dal::Script {
 
         SimResults_ results(Vector::Join(mdl->ParameterLabels(), product.ConstVarNames()));
 
-        Vector_<TaskHandle_> futures;
         const int batch_size = std::max(BATCH_SIZE, static_cast<int>(n_paths / nThreads) + 1);
-        futures.reserve(n_paths / batch_size + 1);
         Vector_<> simResults;
         simResults.reserve(n_paths / batch_size + 1);
 
@@ -113,13 +136,14 @@ namespace Dal::Script {
         int pathsLeft = static_cast<int>(n_paths);
         size_t loopIndex = 0;
         auto payoffIndex = product.PayOffIdx();
+        SimTasks_ tasks(pool, n_paths / batch_size + 1);
 
         while (pathsLeft > 0) {
             auto pathsInTask = std::min(pathsLeft, batch_size);
             simResults.emplace_back(0.0);
             auto& simResult = simResults[loopIndex];
             loopIndex += 1;
-            futures.push_back(pool->SpawnTask([&, firstPath, pathsInTask]() {
+            tasks.Spawn([&, firstPath, pathsInTask]() {
                 const size_t threadNum = ThreadPool_::ThreadNum();
                 Vector_<>& gaussVec = gaussVectors[threadNum];
                 Scenario_<>& path = paths[threadNum];
@@ -143,13 +167,12 @@ namespace Dal::Script {
                     }
                 }
                 return true;
-            }));
+            });
             pathsLeft -= pathsInTask;
             firstPath += pathsInTask;
         }
 
-        for (auto& future : futures)
-            pool->ActiveWait(future);
+        tasks.Join();
 
         // aggregate all the results
         results.aggregated_ = Accumulate(simResults);
@@ -172,7 +195,6 @@ namespace Dal::Script {
         ThreadPool_* pool = ThreadPool_::GetInstance();
         const size_t nThreads = pool->NumThreads();
 
-        Vector_<TaskHandle_> futures;
         const int batchSize = std::max(BATCH_SIZE, static_cast<int>(n_paths / nThreads) + 1);
 
         int firstPath = 0;
@@ -183,10 +205,11 @@ namespace Dal::Script {
 
         SimResults_ values(Vector::Join(mdl->ParameterLabels(), product.ConstVarNames()));
         Vector_<SimResults_> simResults(nThreads, values);
+        SimTasks_ tasks(pool, n_paths / batchSize + 1);
 
         while (pathsLeft > 0) {
             auto pathsInTask = std::min(pathsLeft, batchSize);
-            futures.push_back(pool->SpawnTask([&, firstPath, pathsInTask]() {
+            tasks.Spawn([&, firstPath, pathsInTask]() {
                 const size_t threadNum = ThreadPool_::ThreadNum();
                 Number_::SetTape(tapes[threadNum]);
                 Number_::Tape()->Rewind();
@@ -248,13 +271,12 @@ namespace Dal::Script {
                 }
                 results.aggregated_ += sumValue;
                 return true;
-            }));
+            });
             pathsLeft -= pathsInTask;
             firstPath += pathsInTask;
         }
 
-        for (auto& future : futures)
-            pool->ActiveWait(future);
+        tasks.Join();
 
         Number_::SetTape(*mainThreadPtr);
         SimResults_ rtn(Dal::Vector::Join(mdl->ParameterLabels(), product.ConstVarNames()));
-- 
2.43.0


From d29b75284a42d106427797cb2387ac4d85a6a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:57 +0000
Subject: [PATCH 08/73] fix: an AAD simulation leaves every thread's tape as it
 found it

Pool threads kept pointing at the tapes of a finished simulation, the
caller's tape was only restored on success, and a calling thread without a
tape of its own dereferenced a null pointer.
---
 dal/math/aad/aad.hpp      | 11 +++++++++++
 dal/math/aad/expr.hpp     |  5 +++++
 dal/script/simulation.hpp |  7 ++++---
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/dal/math/aad/aad.hpp b/dal/math/aad/aad.hpp
index ab2363f..9b5d739 100644
--- a/dal/math/aad/aad.hpp
+++ b/dal/math/aad/aad.hpp
@@ -28,6 +28,17 @@ namespace Dal::AAD {
         return std::make_unique<NumResultsResetterForAAD_>();
     }
 
+    // records on the given tape in this thread, until the end of the scope
+    class TapeScope_ {
+        Tape_* saved_;
+
+    public:
+        explicit TapeScope_(Tape_& tape) : saved_(Number_::Tape()) { Number_::SetTape(tape); }
+        ~TapeScope_() { Number_::SetTape(saved_); }
+        TapeScope_(const TapeScope_&) = delete;
+        TapeScope_& operator=(const TapeScope_&) = delete;
+    };
+
     template <class IT_> FORCE_INLINE void PutOnTape(IT_ begin, IT_ end) {
         std::for_each(begin, end, [](Number_& n) { n.PutOnTape(); });
     }
diff --git a/dal/math/aad/expr.hpp b/dal/math/aad/expr.hpp
index 1e43b56..880b459 100644
--- a/dal/math/aad/expr.hpp
+++ b/dal/math/aad/expr.hpp
@@ -478,6 +478,11 @@ namespace Dal::AAD {
             tape_ = &tape;
         }
 
+        // for restoring what Tape() returned, which may be no tape at all
+        static void SetTape(Tape_* tape) {
+            tape_ = tape;
+        }
+
         FORCE_INLINE static Tape_* Tape() {
             return tape_;
         }
diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index 78087b6..1820f91 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -188,6 +188,9 @@ namespace Dal::Script {
                              bool compiled,
                              int max_nested_ifs,
                              double eps) {
+        // nothing is recorded on the caller's tape (there may be none)
+        AAD::Tape_ modelTape;
+        AAD::TapeScope_ modelScope(modelTape);
         std::unique_ptr<AAD::Model_<Number_>> mdl = CreateModel<Number_>(model_data);
         const auto nParams = mdl->Parameters().size();
         const auto nConstVars = product.ConstVarNames().size();
@@ -201,7 +204,6 @@ namespace Dal::Script {
         int pathsLeft = static_cast<int>(n_paths);
         auto payoffIndex = product.PayOffIdx();
         Vector_<AAD::Tape_> tapes(nThreads);
-        AAD::Tape_* mainThreadPtr = Number_::Tape();
 
         SimResults_ values(Vector::Join(mdl->ParameterLabels(), product.ConstVarNames()));
         Vector_<SimResults_> simResults(nThreads, values);
@@ -211,7 +213,7 @@ namespace Dal::Script {
             auto pathsInTask = std::min(pathsLeft, batchSize);
             tasks.Spawn([&, firstPath, pathsInTask]() {
                 const size_t threadNum = ThreadPool_::ThreadNum();
-                Number_::SetTape(tapes[threadNum]);
+                AAD::TapeScope_ tapeScope(tapes[threadNum]);
                 Number_::Tape()->Rewind();
                 std::unique_ptr<AAD::Model_<AAD::Number_>> model = mdl->Clone();
                 model->Allocate(product.TimeLine(), product.DefLine());
@@ -278,7 +280,6 @@ namespace Dal::Script {
 
         tasks.Join();
 
-        Number_::SetTape(*mainThreadPtr);
         SimResults_ rtn(Dal::Vector::Join(mdl->ParameterLabels(), product.ConstVarNames()));
         for (auto& res: simResults) {
             rtn.aggregated_ += res.aggregated_;
-- 
2.43.0


From 61ebda560ce32e346e45f4690d5464b433115ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:27 +0000
Subject: [PATCH 09/73] fix: give each Monte-Carlo task its own working state

Generators, paths, evaluators and tapes were indexed by pool thread number,
which is 0 for every thread outside the pool: two simulations running at the
same time (each helping with the other's tasks while waiting) overwrote each
other's state.
---
 dal/script/simulation.hpp | 56 +++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index 1820f91..188cfd3 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -108,12 +108,16 @@ namespace Dal::Script {
         ThreadPool_* pool = ThreadPool_::GetInstance();
         const size_t nThreads = pool->NumThreads();
 
-        Vector_<std::unique_ptr<Random_>> rngVector(nThreads);
+        const int batch_size = std::max(BATCH_SIZE, static_cast<int>(n_paths / nThreads) + 1);
+        // working state belongs to a task, not to a thread: all callers from outside the pool have the same thread number
+        const size_t nTasks = n_paths / batch_size + 1;
+
+        Vector_<std::unique_ptr<Random_>> rngVector(nTasks);
         for (auto& random : rngVector)
             random = CreateRNG(rsg, mdl->SimDim(), use_bb);
 
-        Vector_<Vector_<>> gaussVectors(nThreads);
-        Vector_<Scenario_<>> paths(nThreads);
+        Vector_<Vector_<>> gaussVectors(nTasks);
+        Vector_<Scenario_<>> paths(nTasks);
 
         for (auto& vec : gaussVectors)
             vec.Resize(mdl->SimDim());
@@ -123,34 +127,29 @@ namespace Dal::Script {
             InitializePath(path);
         }
 
-        Vector_<Evaluator_<double>> evalVector(nThreads, product.BuildEvaluator<double>());
-        Vector_<EvalState_<double>> evalStateVector(nThreads, product.BuildEvalState<double>());
+        Vector_<Evaluator_<double>> evalVector(nTasks, product.BuildEvaluator<double>());
+        Vector_<EvalState_<double>> evalStateVector(nTasks, product.BuildEvalState<double>());
 
         SimResults_ results(Vector::Join(mdl->ParameterLabels(), product.ConstVarNames()));
 
-        const int batch_size = std::max(BATCH_SIZE, static_cast<int>(n_paths / nThreads) + 1);
-        Vector_<> simResults;
-        simResults.reserve(n_paths / batch_size + 1);
+        Vector_<> simResults(nTasks, 0.0);
 
         int firstPath = 0;
         int pathsLeft = static_cast<int>(n_paths);
         size_t loopIndex = 0;
         auto payoffIndex = product.PayOffIdx();
-        SimTasks_ tasks(pool, n_paths / batch_size + 1);
+        SimTasks_ tasks(pool, nTasks);
 
         while (pathsLeft > 0) {
             auto pathsInTask = std::min(pathsLeft, batch_size);
-            simResults.emplace_back(0.0);
-            auto& simResult = simResults[loopIndex];
-            loopIndex += 1;
-            tasks.Spawn([&, firstPath, pathsInTask]() {
-                const size_t threadNum = ThreadPool_::ThreadNum();
-                Vector_<>& gaussVec = gaussVectors[threadNum];
-                Scenario_<>& path = paths[threadNum];
-                auto& random = rngVector[threadNum];
+            tasks.Spawn([&, firstPath, pathsInTask, loopIndex]() {
+                auto& simResult = simResults[loopIndex];
+                Vector_<>& gaussVec = gaussVectors[loopIndex];
+                Scenario_<>& path = paths[loopIndex];
+                auto& random = rngVector[loopIndex];
                 random->SkipTo(firstPath);
                 if (compiled) {
-                    EvalState_<double>& evalState = evalStateVector[threadNum];
+                    EvalState_<double>& evalState = evalStateVector[loopIndex];
                     for (size_t i = 0; i < pathsInTask; ++i) {
                         random->FillNormal(&gaussVec);
                         mdl->GeneratePath(gaussVec, &path);
@@ -158,7 +157,7 @@ namespace Dal::Script {
                         simResult += evalState.VarVals()[payoffIndex];
                     }
                 } else {
-                    Evaluator_<double>& eval = evalVector[threadNum];
+                    Evaluator_<double>& eval = evalVector[loopIndex];
                     for (size_t i = 0; i < pathsInTask; ++i) {
                         random->FillNormal(&gaussVec);
                         mdl->GeneratePath(gaussVec, &path);
@@ -170,6 +169,7 @@ namespace Dal::Script {
             });
             pathsLeft -= pathsInTask;
             firstPath += pathsInTask;
+            loopIndex += 1;
         }
 
         tasks.Join();
@@ -200,20 +200,23 @@ namespace Dal::Script {
 
         const int batchSize = std::max(BATCH_SIZE, static_cast<int>(n_paths / nThreads) + 1);
 
+        // working state belongs to a task, not to a thread: all callers from outside the pool have the same thread number
+        const size_t nTasks = n_paths / batchSize + 1;
+
         int firstPath = 0;
         int pathsLeft = static_cast<int>(n_paths);
+        size_t loopIndex = 0;
         auto payoffIndex = product.PayOffIdx();
-        Vector_<AAD::Tape_> tapes(nThreads);
+        Vector_<AAD::Tape_> tapes(nTasks);
 
         SimResults_ values(Vector::Join(mdl->ParameterLabels(), product.ConstVarNames()));
-        Vector_<SimResults_> simResults(nThreads, values);
-        SimTasks_ tasks(pool, n_paths / batchSize + 1);
+        Vector_<SimResults_> simResults(nTasks, values);
+        SimTasks_ tasks(pool, nTasks);
 
         while (pathsLeft > 0) {
             auto pathsInTask = std::min(pathsLeft, batchSize);
-            tasks.Spawn([&, firstPath, pathsInTask]() {
-                const size_t threadNum = ThreadPool_::ThreadNum();
-                AAD::TapeScope_ tapeScope(tapes[threadNum]);
+            tasks.Spawn([&, firstPath, pathsInTask, loopIndex]() {
+                AAD::TapeScope_ tapeScope(tapes[loopIndex]);
                 Number_::Tape()->Rewind();
                 std::unique_ptr<AAD::Model_<AAD::Number_>> model = mdl->Clone();
                 model->Allocate(product.TimeLine(), product.DefLine());
@@ -227,7 +230,7 @@ namespace Dal::Script {
                 random->SkipTo(firstPath);
 
                 double sumValue = 0.0;
-                auto& results = simResults(threadNum);
+                auto& results = simResults[loopIndex];
                 if (compiled) {
                     EvalState_<AAD::Number_> evalState = product.BuildEvalState<AAD::Number_>();
                     InitModel4ParallelAAD(product, *model, path, evalState);
@@ -276,6 +279,7 @@ namespace Dal::Script {
             });
             pathsLeft -= pathsInTask;
             firstPath += pathsInTask;
+            loopIndex += 1;
         }
 
         tasks.Join();
-- 
2.43.0


From 7fd6eea2684fc1f1564c2fe733be7100954ce821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:27 +0000
Subject: [PATCH 10/73] hook: small batches and tape blocks under
 DAL_SIMULATION

Off by default; only the deterministic simulator in /verif defines it.
---
 dal/math/aad/tape.hpp     | 7 +++++++
 dal/script/simulation.hpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/dal/math/aad/tape.hpp b/dal/math/aad/tape.hpp
index 3dc2318..61ee1fb 100644
--- a/dal/math/aad/tape.hpp
+++ b/dal/math/aad/tape.hpp
@@ -18,9 +18,16 @@
 
 namespace Dal::AAD {
     class Number_;
+#ifdef DAL_SIMULATION
+    // small blocks, so that short histories cross block boundaries
+    constexpr size_t BLOCK_SIZE = 16;
+    constexpr size_t ADJ_SIZE = 32;
+    constexpr size_t DATA_SIZE = 64;
+#else
     constexpr size_t BLOCK_SIZE = 16384;
     constexpr size_t ADJ_SIZE = 32768;
     constexpr size_t DATA_SIZE = 65536;
+#endif
 
     class Tape_ {
         static bool multi_;
diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index 188cfd3..72213f4 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -15,6 +15,9 @@
 #include <dal/model/factory.hpp>
 #include <dal/utilities/numerics.hpp>
 
+#ifdef DAL_SIMULATION
+extern "C" const int dal_sim_batch_size; // chosen by the simulator
+#endif
 
 namespace Dal::Script {
 
@@ -33,7 +36,11 @@ namespace Dal::Script {
         }
     };
 
+#ifdef DAL_SIMULATION
+    static const int& BATCH_SIZE = dal_sim_batch_size;
+#else
     constexpr int BATCH_SIZE = 1024;
+#endif
 
     template<class E_>
     void InitModel4ParallelAAD(const ScriptProduct_& prd,
-- 
2.43.0


From 2b4c651f19231569186419bddd9c91464889d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:59 +0000
Subject: [PATCH 11/73] fix: give the global fixings history a name of its own

Dal::FixHistory_ was defined twice, with different members, in globals.hpp and
indice/fixings.hpp; the linker merges their implicit members.
---
 dal/storage/globals.cpp |  6 +++---
 dal/storage/globals.hpp | 11 ++++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/dal/storage/globals.cpp b/dal/storage/globals.cpp
index 2d7401a..1219bcb 100644
--- a/dal/storage/globals.cpp
+++ b/dal/storage/globals.cpp
@@ -88,7 +88,7 @@ namespace Dal {
         const String_ FIX_PREFIX("FixingsFor:");
     } // namespace
 
-    FixHistory_ Global::Fixings_::History(const String_& index) {
+    Global::FixHistory_ Global::Fixings_::History(const String_& index) {
         LOCK_STORES;
         const Matrix_<Cell_>& stored = Global::TheFixingsStore().Get(FIX_PREFIX + index);
         FixHistory_ retval;
@@ -104,10 +104,10 @@ namespace Dal {
         return retval;
     }
 
-    int XGLOBAL::StoreFixings(const String_& index, const FixHistory_& fixings, bool append) {
+    int XGLOBAL::StoreFixings(const String_& index, const Global::FixHistory_& fixings, bool append) {
         std::map<DateTime_, double> all;
         if (append) {
-            const FixHistory_& old = Global::Fixings_().History(index);
+            const Global::FixHistory_& old = Global::Fixings_().History(index);
             for (const auto& d_f : old.vals_)
                 all[d_f.first] = d_f.second;
         }
diff --git a/dal/storage/globals.hpp b/dal/storage/globals.hpp
index ec73d27..d094a63 100644
--- a/dal/storage/globals.hpp
+++ b/dal/storage/globals.hpp
@@ -14,11 +14,12 @@ namespace Dal {
     class Date_;
     class DateTime_;
 
-    struct FixHistory_ {
-        Vector_<pair<DateTime_, double>> vals_;
-    };
-
     namespace Global {
+        // not to be confused with the Dal::FixHistory_ of the indices
+        struct FixHistory_ {
+            Vector_<pair<DateTime_, double>> vals_;
+        };
+
         class Store_ : noncopyable {
         public:
             virtual ~Store_() = default;
@@ -84,7 +85,7 @@ namespace Dal {
 
         int StoreFixings // returns # stored
             (const String_& index_canonical_name,
-             const FixHistory_& fixings,
+             const Global::FixHistory_& fixings,
              bool append = true); // if false, old fixings will be removed
     }                             // namespace XGLOBAL
 } // namespace Dal
\ No newline at end of file
-- 
2.43.0


From e8702173872b4f9f7a57f3d84b7ea81f7fdb398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:19 +0000
Subject: [PATCH 12/73] fix: replace repository objects in one step

Adding under an erase rule removed the old objects in one critical section and
inserted the new one in another: other threads could see neither, and a failed
insertion lost the old objects.
---
 dal/storage/_repository.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/dal/storage/_repository.cpp b/dal/storage/_repository.cpp
index 68f7598..077b3bc 100644
--- a/dal/storage/_repository.cpp
+++ b/dal/storage/_repository.cpp
@@ -28,38 +28,42 @@ namespace Dal {
         String_ BaseTag(const Storable_& s) { return TypeTag(s) + s.name_ + "~"; }
         String_ Uniquifier(const Storable_& s) { return String::Uniquifier(&s); }
 
-        void EraseByStart(const String_& start) {
-            LOCK_OBJECTS;
-            auto pLow = TheObjects().lower_bound(start);
-            auto pHigh = pLow;
-            while (pHigh != TheObjects().end() && pHigh->first.substr(0, start.size()) == start)
-                ++pHigh;
-            TheObjects().erase(pLow, pHigh);
+        // caller must hold the lock, and keeps the object it gives as 'keep'
+        void EraseByStart(const String_& start, std::map<String_, Handle_<Storable_>>::iterator keep) {
+            auto po = TheObjects().lower_bound(start);
+            while (po != TheObjects().end() && po->first.compare(0, start.size(), start) == 0) {
+                if (po == keep)
+                    ++po;
+                else
+                    TheObjects().erase(po++);
+            }
         }
     } // namespace
 
     String_ ObjectAccess_::AddBase(const Handle_<Storable_>& s, const RepositoryErase_& erase) const {
         const String_ untickered = BaseTag(*s);
+        const String_ typeTag = TypeTag(*s);
+        const String_ retval = untickered + Uniquifier(*s);
+        // one critical section, so that nobody sees the old objects gone and the new one not there yet;
+        // and insert before erasing, so that nothing is lost if the insertion fails
+        LOCK_OBJECTS;
+        auto added = TheObjects().insert(make_pair(retval, s)).first;
         switch (erase.Switch()) {
         case RepositoryErase_::Value_::NAME_NONEMPTY:
             if (s->name_.empty())
                 break;
             // else fall through
         case RepositoryErase_::Value_::NAME:
-            EraseByStart(untickered); // squash anything with this name
+            EraseByStart(untickered, added); // squash anything with this name
             break;
         case RepositoryErase_::Value_::TYPE:
-            EraseByStart(TypeTag(*s)); // squash anything with this type
+            EraseByStart(typeTag, added); // squash anything with this type
             break;
         case RepositoryErase_::Value_::_NOT_SET:
         case RepositoryErase_::Value_::NONE:
         case RepositoryErase_::Value_::_N_VALUES:
             break;
         }
-        // call to LOCK_OBJECTS must be after EraseByStart, because that will also acquire the lock
-        LOCK_OBJECTS;
-        const String_ retval = untickered + Uniquifier(*s);
-        TheObjects().insert(make_pair(retval, s));
         return retval;
     }
 
-- 
2.43.0


From ab48e4bab5e15b523066b7121cff91c107289210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:55 +0000
Subject: [PATCH 13/73] fix: global stores return their entries by value

The repository store handed out a reference to an object that another thread
may replace, and thereby destroy, as soon as the lock is released.
---
 dal/storage/_repository.cpp | 5 ++---
 dal/storage/globals.cpp     | 4 ++--
 dal/storage/globals.hpp     | 2 +-
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/dal/storage/_repository.cpp b/dal/storage/_repository.cpp
index 077b3bc..d4dd521 100644
--- a/dal/storage/_repository.cpp
+++ b/dal/storage/_repository.cpp
@@ -125,8 +125,7 @@ namespace Dal {
                 Handle_<Box_> storable(new Box_(GLOBAL_TAG + name, value));
                 (void)ObjectAccess_().Add(storable, RepositoryErase_("NAME"));
             }
-            const Matrix_<Cell_>& Get(const String_& name) override {
-                static const Matrix_<Cell_> EMPTY;
+            Matrix_<Cell_> Get(const String_& name) override {
                 Box_ dummy(GLOBAL_TAG + name, Matrix_<Cell_>());
                 String_ tagStart = BaseTag(dummy);
                 LOCK_OBJECTS;
@@ -136,7 +135,7 @@ namespace Dal {
                     REQUIRE(box && !box->contents_.Empty(), "Internal error, or global tag meddling");
                     return box->contents_;
                 }
-                return EMPTY;
+                return {};
             }
         };
 
diff --git a/dal/storage/globals.cpp b/dal/storage/globals.cpp
index 1219bcb..ad9e9de 100644
--- a/dal/storage/globals.cpp
+++ b/dal/storage/globals.cpp
@@ -27,7 +27,7 @@ namespace Dal {
         // utility functions to store a date by name
         Date_ GetGlobalDate(const String_& which) {
             LOCK_STORES;
-            const Matrix_<Cell_>& stored = Global::TheDateStore().Get(which);
+            const Matrix_<Cell_> stored = Global::TheDateStore().Get(which);
             if (stored.Empty() || Cell::IsEmpty(stored(0, 0))) {
                 // no global date set; initialize to system date
                 Date_ retval = Date::Today();
@@ -90,7 +90,7 @@ namespace Dal {
 
     Global::FixHistory_ Global::Fixings_::History(const String_& index) {
         LOCK_STORES;
-        const Matrix_<Cell_>& stored = Global::TheFixingsStore().Get(FIX_PREFIX + index);
+        const Matrix_<Cell_> stored = Global::TheFixingsStore().Get(FIX_PREFIX + index);
         FixHistory_ retval;
         if (stored.Empty())
             return retval;
diff --git a/dal/storage/globals.hpp b/dal/storage/globals.hpp
index d094a63..115d067 100644
--- a/dal/storage/globals.hpp
+++ b/dal/storage/globals.hpp
@@ -24,7 +24,7 @@ namespace Dal {
         public:
             virtual ~Store_() = default;
             virtual void Set(const String_& name, const Matrix_<Cell_>& value) = 0;
-            virtual const Matrix_<Cell_>& Get(const String_& name) = 0;
+            virtual Matrix_<Cell_> Get(const String_& name) = 0; // by value: the entry may be replaced at any time
         };
 
         Store_& TheDateStore();
-- 
2.43.0


From 0d43a88b1fe8536358bd477017eec4afd4bd2af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:41 +0000
Subject: [PATCH 14/73] fix: change the global dates and fixings under the
 stores' lock

Setting a date could be overwritten by the default that a concurrent first read
was about to store, and concurrent appends to a fixings history lost each
other's fixings.
---
 dal/storage/globals.cpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/dal/storage/globals.cpp b/dal/storage/globals.cpp
index ad9e9de..08de22d 100644
--- a/dal/storage/globals.cpp
+++ b/dal/storage/globals.cpp
@@ -58,10 +58,12 @@ namespace Dal {
     void Global::Dates_::SetEvaluationDate(const Date_& date) { XGLOBAL::SetEvaluationDate(date); }
 
     void XGLOBAL::SetAccountingDate(const Date_& when) {
+        LOCK_STORES;
         Global::TheDateStore().Set(ACCOUNTING(), Matrix::M1x1(Cell_(when)));
     }
 
     void XGLOBAL::SetEvaluationDate(const Date_& when) {
+        LOCK_STORES;
         Global::TheDateStore().Set(EVALUATION(), Matrix::M1x1(Cell_(when)));
     }
 
@@ -86,28 +88,34 @@ namespace Dal {
         // static
         std::unique_ptr<Global::Store_>& XTheFixingsStore() { RETURN_STATIC(std::unique_ptr<Global::Store_>); }
         const String_ FIX_PREFIX("FixingsFor:");
+
+        // caller must hold the lock
+        Global::FixHistory_ StoredFixings(const String_& index) {
+            const Matrix_<Cell_> stored = Global::TheFixingsStore().Get(FIX_PREFIX + index);
+            Global::FixHistory_ retval;
+            if (stored.Empty())
+                return retval;
+            assert(stored.Cols() == 2);
+            assert(AllOf(stored.Col(0), Cell::TypeCheck_<DateTime_>()));
+            assert(AllOf(stored.Col(0), Cell::TypeCheck_<double>()));
+            const int n = stored.Rows();
+            retval.vals_.Resize(n);
+            for (int ii = 0; ii < n; ++ii)
+                retval.vals_[ii] = make_pair(Cell::ToDateTime(stored(ii, 0)), Cell::ToDouble(stored(ii, 1)));
+            return retval;
+        }
     } // namespace
 
     Global::FixHistory_ Global::Fixings_::History(const String_& index) {
         LOCK_STORES;
-        const Matrix_<Cell_> stored = Global::TheFixingsStore().Get(FIX_PREFIX + index);
-        FixHistory_ retval;
-        if (stored.Empty())
-            return retval;
-        assert(stored.Cols() == 2);
-        assert(AllOf(stored.Col(0), Cell::TypeCheck_<DateTime_>()));
-        assert(AllOf(stored.Col(0), Cell::TypeCheck_<double>()));
-        const int n = stored.Rows();
-        retval.vals_.Resize(n);
-        for (int ii = 0; ii < n; ++ii)
-            retval.vals_[ii] = make_pair(Cell::ToDateTime(stored(ii, 0)), Cell::ToDouble(stored(ii, 1)));
-        return retval;
+        return StoredFixings(index);
     }
 
     int XGLOBAL::StoreFixings(const String_& index, const Global::FixHistory_& fixings, bool append) {
+        LOCK_STORES; // from reading the old fixings until the new ones are stored
         std::map<DateTime_, double> all;
         if (append) {
-            const Global::FixHistory_& old = Global::Fixings_().History(index);
+            const Global::FixHistory_& old = StoredFixings(index);
             for (const auto& d_f : old.vals_)
                 all[d_f.first] = d_f.second;
         }
-- 
2.43.0


From 7018440e36897f04ed88c683bee564eed1fcff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:15 +0000
Subject: [PATCH 15/73] fix: keep fixings in the repository by default, like
 the dates

No store was installed, so storing or reading a history dereferenced null.
---
 dal/storage/_repository.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/storage/_repository.cpp b/dal/storage/_repository.cpp
index d4dd521..3abc7a7 100644
--- a/dal/storage/_repository.cpp
+++ b/dal/storage/_repository.cpp
@@ -132,7 +132,7 @@ namespace Dal {
                 auto po = TheObjects().lower_bound(tagStart);
                 if (po != TheObjects().end() && po->first.substr(0, tagStart.size()) == tagStart) {
                     const Box_* box = dynamic_cast<const Box_*>(po->second.get());
-                    REQUIRE(box && !box->contents_.Empty(), "Internal error, or global tag meddling");
+                    REQUIRE(box, "Internal error, or global tag meddling");
                     return box->contents_;
                 }
                 return {};
@@ -140,6 +140,7 @@ namespace Dal {
         };
 
         RUN_AT_LOAD(Global::SetTheDateStore(new RepoStore_))
+        RUN_AT_LOAD(Global::SetTheFixingsStore(new RepoStore_))
     } // namespace
 
     Handle_<Storable_> ObjectAccess_::Fetch(const String_& tag, bool quiet) const {
-- 
2.43.0


From 0be4604f95961922200d2c44d3c5159ea4b20796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:57 +0000
Subject: [PATCH 16/73] fix: copy-assigning a matrix may throw

It allocates, but was declared noexcept: running out of memory ended the process.
---
 dal/math/matrix/matrixs.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dal/math/matrix/matrixs.hpp b/dal/math/matrix/matrixs.hpp
index 0158b9b..20256ca 100644
--- a/dal/math/matrix/matrixs.hpp
+++ b/dal/math/matrix/matrixs.hpp
@@ -64,12 +64,10 @@ namespace Dal {
             return *this;
         }
 
-        Matrix_& operator=(const Matrix_& rhs) noexcept {
+        Matrix_& operator=(const Matrix_& rhs) {
             if (this != &rhs) {
-                vals_ = rhs.vals_;
-                cols_ = rhs.cols_;
-                hooks_ = Vector_<I_>(rhs.hooks_.size());
-                SetHook();
+                Matrix_<E_> temp(rhs); // may throw, leaving this untouched
+                swap(temp);
             }
             return *this;
         }
-- 
2.43.0


From 105c8dfc2e7f391d9c5458393df5d36e11199ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:59 +0000
Subject: [PATCH 17/73] fix: read and extend the holiday data under one lock

---
 dal/time/holidaydata.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dal/time/holidaydata.cpp b/dal/time/holidaydata.cpp
index 61e697d..4ad44c5 100644
--- a/dal/time/holidaydata.cpp
+++ b/dal/time/holidaydata.cpp
@@ -32,7 +32,8 @@ namespace Dal {
     namespace {
         HolidayData_& TheHolidayData() { RETURN_STATIC(HolidayData_); }
 
-        HolidayData_ CopyHolidayData() { return TheHolidayData(); }
+        std::mutex TheHolidayDataMutex;
+#define LOCK_HOLIDAY_DATA std::lock_guard<std::mutex> l(TheHolidayDataMutex)
 
         bool ContainsNoWeekends(const Vector_<Date_>& dates) {
             for (const auto& d : dates)
@@ -50,32 +51,32 @@ namespace Dal {
     } // namespace
 
     void Holidays::AddCenter(const String_& city, const Vector_<Date_>& holidays, const Vector_<Date_>& workWeekends) {
-        REQUIRE(TheHolidayData().IsValid(), "Holiday data is not valid");
         REQUIRE(ContainsNoWeekends(holidays), "Holidays should not contain weekends");
         REQUIRE(ContainsOnlyWeekends(workWeekends), "Can only weekends in special working days");
         REQUIRE(IsMonotonic(holidays), "Holidays should be in ascending order");
         REQUIRE(IsMonotonic(workWeekends), "Working weekends should be in ascending order");
         NOTICE(city);
 
-        HolidayData_ temp(CopyHolidayData());
+        LOCK_HOLIDAY_DATA;
+        REQUIRE(TheHolidayData().IsValid(), "Holiday data is not valid");
+        HolidayData_ temp(TheHolidayData());
         REQUIRE(!temp.centerIndex_.count(city), "Duplicate holiday center");
         temp.centerIndex_[city] = static_cast<int>(temp.holidays_.size());
         temp.holidays_.push_back(Handle_(std::make_shared<const HolidayCenterData_>(city, holidays, workWeekends)));
-
-        static std::mutex mutex;
-        std::lock_guard<std::mutex> l(mutex);
+        REQUIRE(temp.IsValid(), "Holiday data is not valid");
         TheHolidayData().Swap(&temp);
-        REQUIRE(TheHolidayData().IsValid(), "Holiday data is not valid");
     }
 
     int Holidays::CenterIndex(const String_& center) {
         NOTICE(center);
+        LOCK_HOLIDAY_DATA;
         auto p = TheHolidayData().centerIndex_.find(center);
         REQUIRE(p != TheHolidayData().centerIndex_.end(), "Invalid holiday center");
         return p->second;
     }
 
     Handle_<HolidayCenterData_> Holidays::OfCenter(int center_index) {
+        LOCK_HOLIDAY_DATA;
         REQUIRE(center_index >= 0 && center_index < TheHolidayData().holidays_.size(), "Invalid holiday center index");
         return TheHolidayData().holidays_[center_index];
     }
-- 
2.43.0


From 40033934f56b6b8df851d207d42fdf0eaadc3874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:59 +0000
Subject: [PATCH 18/73] fix: look index parsers up under the registry's lock

---
 dal/indice/indexparse.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dal/indice/indexparse.cpp b/dal/indice/indexparse.cpp
index 2b35294..be4ca62 100644
--- a/dal/indice/indexparse.cpp
+++ b/dal/indice/indexparse.cpp
@@ -12,20 +12,29 @@
 #include <dal/utilities/exceptions.hpp>
 
 namespace Dal {
+    std::mutex TheParserMutex;
+#define LOCK_PARSERS std::lock_guard<std::mutex> l(TheParserMutex);
+
     namespace {
         // stubbed out, sorry
         Index_* ParseSuperShot(const String_&) { return nullptr; }
 
         std::map<String_, Index::parser_t>& TheIndexParsers() { RETURN_STATIC(std::map<String_, Index::parser_t>); }
 
+        Index::parser_t FindParser(const String_& ac) {
+            LOCK_PARSERS;
+            auto pp = TheIndexParsers().find(ac);
+            return pp == TheIndexParsers().end() ? nullptr : pp->second;
+        }
+
         Index_* ParseSingle(const String_& name) {
             auto stop = name.find_first_of(":[");
             if (stop == String_::npos)
                 return ParseSuperShot(name);
             const String_ ac = name.substr(0, stop);
-            auto pp = TheIndexParsers().find(ac);
-            REQUIRE(pp != TheIndexParsers().end(), "no parser for '" + name + "'");
-            return (*pp->second)(name);
+            const Index::parser_t parser = FindParser(ac);
+            REQUIRE(parser, "no parser for '" + name + "'");
+            return (*parser)(name);
         }
 
         // stubbed out, sorry
@@ -38,9 +47,6 @@ namespace Dal {
         return ParseSingle(name);
     }
 
-    std::mutex TheParserMutex;
-#define LOCK_PARSERS std::lock_guard<std::mutex> l(TheParserMutex);
-
     void Index::RegisterParser(const String_& name, Index::parser_t func) {
         LOCK_PARSERS;
         TheIndexParsers().insert(std::make_pair(name, func));
-- 
2.43.0


From 3cfedef5f241eba681244970e3c3309b82fd5700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:59 +0000
Subject: [PATCH 19/73] fix: initialise the index parsers under a lock

---
 dal/indice/parser/init.cpp | 2 ++
 dal/indice/parser/init.hpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/dal/indice/parser/init.cpp b/dal/indice/parser/init.cpp
index 14647fb..e2b5f40 100644
--- a/dal/indice/parser/init.cpp
+++ b/dal/indice/parser/init.cpp
@@ -12,8 +12,10 @@
 namespace Dal {
 
     bool IndexParsers_::init_ = false;
+    std::mutex IndexParsers_::mutex_;
 
     void IndexParsers_::Init() {
+        std::lock_guard<std::mutex> l(mutex_);
         if (!init_) {
             Index::RegisterParser("EQ", Index::EquityParser);
             init_ = true;
diff --git a/dal/indice/parser/init.hpp b/dal/indice/parser/init.hpp
index 71c116b..6290420 100644
--- a/dal/indice/parser/init.hpp
+++ b/dal/indice/parser/init.hpp
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <mutex>
+
 namespace Dal {
     class IndexParsers_ {
     public:
@@ -11,5 +13,6 @@ namespace Dal {
 
     private:
         static bool init_;
+        static std::mutex mutex_;
     };
 }
-- 
2.43.0


From 9925e99f8a1cd2bed5c713b25d5e11b523c3aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:11 +0000
Subject: [PATCH 20/73] fix: initialising the calendars can be retried after a
 failure

---
 dal/time/calendars/init.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dal/time/calendars/init.cpp b/dal/time/calendars/init.cpp
index 904afa9..17c1db4 100644
--- a/dal/time/calendars/init.cpp
+++ b/dal/time/calendars/init.cpp
@@ -17,7 +17,12 @@ namespace Dal {
     void Calendars_::Init() {
         std::lock_guard<std::mutex> l(mutex_);
         if (!init_) {
-            Holidays::AddCenter("CN.SSE", China::SSE::HOLIDAYS);
+            // if the second center fails, a retry must not add the first one again
+            static bool hasSSE = false;
+            if (!hasSSE) {
+                Holidays::AddCenter("CN.SSE", China::SSE::HOLIDAYS);
+                hasSSE = true;
+            }
             std::set<Date_> tmp(China::SSE::HOLIDAYS.begin(), China::SSE::HOLIDAYS.end());
             tmp.erase(Date_(2024, 2, 9));  // remove a special date for the year 2024
             Vector_<Date_> ib_holidays(tmp.size());
-- 
2.43.0


From 86253ddafa55975b3edbb2c998fdc63b51f0a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:12 +0000
Subject: [PATCH 21/73] fix: publish a combined calendar only once it is
 complete

---
 dal/time/holidays.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dal/time/holidays.cpp b/dal/time/holidays.cpp
index 3c308c6..6cef0d8 100644
--- a/dal/time/holidays.cpp
+++ b/dal/time/holidays.cpp
@@ -62,17 +62,19 @@ namespace Dal {
 
     CountBusDays_::CountBusDays_(const Holidays_& src) : hols_(src) {
         LOCK_COMBOS;
-        Handle_<HolidayCenterData_>& combo = TheCombinations()[src.String()];
-        if (combo.IsEmpty()) {
+        auto existing = TheCombinations().find(src.String());
+        if (existing == TheCombinations().end()) {
             Vector_<Date_> mergedHolidays;
             Vector_<Date_> mergedWorkWeekends;
             for (const auto& p : src.parts_) {
                 mergedHolidays.Append(p->holidays_);
                 mergedWorkWeekends.Append(p->workWeekends_);
             }
-            combo.reset(new HolidayCenterData_(src.String(), Unique(mergedHolidays), Unique(mergedWorkWeekends)));
+            Handle_<HolidayCenterData_> combo(
+                new HolidayCenterData_(src.String(), Unique(mergedHolidays), Unique(mergedWorkWeekends)));
+            existing = TheCombinations().insert(std::make_pair(src.String(), combo)).first;
         }
-        hols_.parts_ = Vector::V1(combo);
+        hols_.parts_ = Vector::V1(existing->second);
     }
 
     int CountBusDays_::operator()(const Date_& begin, const Date_& end) const {
-- 
2.43.0


From 012f7a97b99365dbe939dc85b7453aae2ab35cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:38 +0000
Subject: [PATCH 22/73] fix: reading and writing lines of a file report I/O
 errors and keep long lines

---
 dal/utilities/file.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dal/utilities/file.cpp b/dal/utilities/file.cpp
index 30b48ba..9fca279 100644
--- a/dal/utilities/file.cpp
+++ b/dal/utilities/file.cpp
@@ -4,6 +4,7 @@
 
 #include <cstdio>
 #include <fstream>
+#include <string>
 #include <dal/platform/platform.hpp>
 #include <dal/platform/strict.hpp>
 #include <dal/utilities/file.hpp>
@@ -13,17 +14,20 @@
 namespace Dal::File {
     void Read(const String_& file_name, Vector_<String_>* dst) {
         std::ifstream src(file_name.c_str());
-        char buf[2048];
-        while (src.getline(buf, 2048))
-            dst->emplace_back(buf);
-        src.close();
+        REQUIRE(src.is_open(), "can't open file '" + file_name + "' for reading");
+        std::string line;
+        while (std::getline(src, line))
+            dst->emplace_back(line.c_str());
+        REQUIRE(src.eof() && !src.bad(), "can't read file '" + file_name + "' to the end");
     }
 
     void Write(const String_& file_name, const Vector_<String_>& src) {
         std::ofstream dst(file_name.c_str());
+        REQUIRE(dst.is_open(), "can't open file '" + file_name + "' for writing");
         for (const auto& line : src)
             dst << line << std::endl;
         dst.close();
+        REQUIRE(dst.good(), "can't write file '" + file_name + "'");
     }
 
     void Remove(const String_& file_name) {
-- 
2.43.0


From 4cd8c4320274b989f9e18f2734e02207415ddab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:38 +0000
Subject: [PATCH 23/73] fix: JSON files report I/O errors and damaged documents

---
 dal/storage/json.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 1d2379f..831c433 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -19,6 +19,7 @@
 #include <dal/time/dateutils.hpp>
 #include <dal/time/datetimeutils.hpp>
 #include <dal/storage/archive.hpp>
+#include <memory>
 #include <utility>
 
 namespace Dal {
@@ -251,7 +252,7 @@ namespace Dal {
                 return String_();
             }
             String_ Tag() const {
-                if (doc_.HasMember(TAG_LABEL))
+                if (doc_.IsObject() && doc_.HasMember(TAG_LABEL))
                     return EString(doc_[TAG_LABEL]);
                 return String_();
             }
@@ -280,23 +281,28 @@ namespace Dal {
             //		the matrix has a child "cols" that gives the number of columns
             //		and a child "vals" that gives all the values, scanning each row in turn
             Matrix_<> AsDoubleMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], EDouble));
+                return AsMatrix(EInt(XChild(COLS_LABEL)), AsVector(XChild(VALS_LABEL), EDouble));
             }
             Matrix_<String_> AsStringMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], EString));
+                return AsMatrix(EInt(XChild(COLS_LABEL)), AsVector(XChild(VALS_LABEL), EString));
             }
             Matrix_<Cell_> AsCellMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], ECell));
+                return AsMatrix(EInt(XChild(COLS_LABEL)), AsVector(XChild(VALS_LABEL), ECell));
             }
 
             // object query interface
             String_ Type() const override {
-                if (doc_.HasMember(TYPE_LABEL))
+                if (doc_.IsObject() && doc_.HasMember(TYPE_LABEL))
                     return EString(doc_[TYPE_LABEL]);
                 return String_();
             }
-            element_t& XChild(const String_& name) const { return doc_[name.c_str()]; }
-            bool HasChild(const String_& name) const override { return doc_.HasMember(name.c_str()); }
+            element_t& XChild(const String_& name) const {
+                REQUIRE(HasChild(name), "Child '" + name + "' not found");
+                return doc_[name.c_str()];
+            }
+            bool HasChild(const String_& name) const override {
+                return doc_.IsObject() && doc_.HasMember(name.c_str());
+            }
             const View_& Child(const String_& name) const override {
                 Handle_<XDocView_>& ret_val = children_[name];
                 if (ret_val.IsEmpty())
@@ -312,19 +318,22 @@ namespace Dal {
         NOTE("Extracting object from JSON string");
         rapidjson::Document doc;
         doc.Parse<rapidjson::kParseDefaultFlags>(src.c_str());
+        REQUIRE(!doc.HasParseError(), "Invalid JSON");
         XDocView_ task(doc);
         Archive::Built_ built;
         return Archive::Extract(task, built);
     }
 
     Handle_<Storable_> JSON::ReadFile(const String_& filename, bool quiet) {
-        FILE* fp = fopen(filename.c_str(), "rb"); // POSTPONED -- use "r" on non-Windows platforms
+        // POSTPONED -- use "r" on non-Windows platforms
+        const std::unique_ptr<FILE, int (*)(FILE*)> fp(fopen(filename.c_str(), "rb"), fclose);
         REQUIRE(fp, "File not found:'" + filename + "'");
         char buffer[8192];
-        rapidjson::FileReadStream is(fp, buffer, sizeof(buffer));
+        rapidjson::FileReadStream is(fp.get(), buffer, sizeof(buffer));
         rapidjson::Document doc;
         doc.ParseStream<rapidjson::kParseDefaultFlags>(is);
-        fclose(fp);
+        REQUIRE(!ferror(fp.get()), "Can't read file '" + filename + "' to the end");
+        REQUIRE(!doc.HasParseError(), "Invalid JSON");
         XDocView_ task(doc);
         Archive::Built_ built;
         return Archive::Extract(task, built);
@@ -332,9 +341,12 @@ namespace Dal {
 
     void JSON::WriteFile(const Storable_& object, const String_& filename) {
         std::ofstream dst(filename.c_str());
+        REQUIRE(dst.is_open(), "Can't open file '" + filename + "' for writing");
         std::map<const Storable_*, String_> tags;
         XDocStore_ task(dst, tags, nullptr, String_());
         object.Write(task);
+        dst.close();
+        REQUIRE(dst.good(), "Can't write file '" + filename + "'");
     }
 
     String_ JSON::WriteString(const Storable_& object) {
@@ -342,6 +354,7 @@ namespace Dal {
         std::map<const Storable_*, String_> tags;
         XDocStore_ task(ret_val, tags, nullptr, String_());
         object.Write(task);
+        REQUIRE(ret_val.good(), "Can't write JSON");
         return String_(ret_val.str());
     }
 }
-- 
2.43.0


From e32b7be101e244138c0707f971bf730602f6db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:38 +0000
Subject: [PATCH 24/73] fix: a piecewise constant curve checks that it has a
 value per knot

---
 dal/curve/piecewiseconstant.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/curve/piecewiseconstant.cpp b/dal/curve/piecewiseconstant.cpp
index f9b064c..bd08402 100644
--- a/dal/curve/piecewiseconstant.cpp
+++ b/dal/curve/piecewiseconstant.cpp
@@ -33,6 +33,7 @@ namespace Dal {
     }
 
     Vector_<> PiecewiseConstant_::Sofar() const {
+        REQUIRE(knotDates_.size() == fRight_.size(), "knots and values must have the same size");
         Vector_<> retval(1, 0.0);
         for (int ii = 1; ii < knotDates_.size(); ++ii) {
             const double dt = knotDates_[ii] - knotDates_[ii - 1];
-- 
2.43.0


From 8e480ec2f441a8643f33391b39c68f10edaa8182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:38 +0000
Subject: [PATCH 25/73] fix: loading a damaged table raises an error instead of
 reading outside it; a table is as wide as its widest child

---
 dal/storage/splat.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index e6eedfc..5dbf406 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -53,7 +53,7 @@ namespace Dal {
                     return val_.Cols();
                 int ret_val = 0;
                 for (const auto& c : children_)
-                    ret_val += max(ret_val, c.second->Cols());
+                    ret_val = max(ret_val, c.second->Cols());
                 return 2 + ret_val;
             }
 
@@ -243,7 +243,7 @@ namespace Dal {
             const View_& Child(const String_& name) const override {
                 REQUIRE(!Type().empty(), "Can't be a empty view");
                 const auto nameCol = colStart_ + 1;
-                REQUIRE(nameCol < data_.Cols(), "Can't have a child");
+                REQUIRE(nameCol + 1 < data_.Cols(), "Can't have a child");
                 for (auto ir = rowStart_; ir < rowStop_; ++ir) {
                     if (data_(ir, nameCol) == name) {
                         auto jr = ir + 1;
@@ -310,15 +310,15 @@ namespace Dal {
             Vector_<Cell_> AsCellVector() const override { return TranslateRange(VectorRange(), Identity_<Cell_>()); }
 
             int MatrixStop() const {
-                for (int ret_val = colStart_ + 1;;) {
+                for (int ret_val = colStart_ + 1;; ++ret_val) {
+                    if (ret_val == data_.Cols())
+                        return ret_val;
                     for (int ir = rowStart_;; ++ir) {
                         if (ir == rowStop_)
                             return ret_val; // found an empty column
                         else if (!Cell::IsEmpty(data_(ir, ret_val)))
                             break; // column is not empty
                     }
-                    if (++ret_val == data_.Cols())
-                        return ret_val;
                 }
             }
             template <class F_> auto TranslateMatrix(int col_stop, F_ translate) const {
@@ -415,8 +415,9 @@ namespace Dal {
     }
 
     Handle_<Storable_> UnSplat(const Matrix_<Cell_>& src, bool quiet) {
-        XUnSplat_ task(src, 0, src.Rows(), 0, quiet);
         NOTE("Extracting object from splatted data");
+        REQUIRE(src.Rows() > 0 && src.Cols() > 0, "No splatted data");
+        XUnSplat_ task(src, 0, src.Rows(), 0, quiet);
         Archive::Built_ built;
         return Archive::Extract(task, built);
     }
-- 
2.43.0


From 8e2797cb17fe85356290991b2385a3063712d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:29 +0000
Subject: [PATCH 26/73] fix: a failure to switch several adjoint results on
 leaves the mode unchanged

---
 dal/math/aad/aad.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/math/aad/aad.hpp b/dal/math/aad/aad.hpp
index 9b5d739..0327451 100644
--- a/dal/math/aad/aad.hpp
+++ b/dal/math/aad/aad.hpp
@@ -23,9 +23,10 @@ namespace Dal::AAD {
     };
 
     FORCE_INLINE auto SetNumResultsForAAD(bool multi = false, size_t num_results = 1) {
+        auto ret_val = std::make_unique<NumResultsResetterForAAD_>();
         Tape_::multi_ = multi;
         TapNode_::numAdj_ = num_results;
-        return std::make_unique<NumResultsResetterForAAD_>();
+        return ret_val;
     }
 
     // records on the given tape in this thread, until the end of the scope
-- 
2.43.0


From d4c2c494699f85cb1829c23ce87aea8b6a3c5608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:29 +0000
Subject: [PATCH 27/73] fix: a tape can be iterated when its last block is
 full, and clearing it can't fail half way

---
 dal/math/aad/blocklist.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dal/math/aad/blocklist.hpp b/dal/math/aad/blocklist.hpp
index 81cfb88..32e701a 100644
--- a/dal/math/aad/blocklist.hpp
+++ b/dal/math/aad/blocklist.hpp
@@ -65,8 +65,10 @@ namespace Dal::AAD {
         BlockList_() { NewBlock(); }
 
         void Clear() {
-            data_.clear();
-            NewBlock();
+            // keep the first block, so that this can't fail half way
+            data_.erase(std::next(data_.begin()), data_.end());
+            lastBlock_ = data_.begin();
+            Rewind();
         }
 
         void Rewind() {
@@ -76,10 +78,9 @@ namespace Dal::AAD {
         }
 
         [[nodiscard]] int Size() const {
-            int count = 0;
-            for(ConstIterator_ it = this->Begin(); it != this->End(); ++it)
-                count += 1;
-            return count;
+            const auto full_blocks = std::distance(data_.begin(), const_iterator(currBlock_));
+            const block_iter first = currBlock_->begin();
+            return static_cast<int>(full_blocks * BLOCK_SIZE_ + std::distance(first, nextSpace_));
         }
 
         void Memset(unsigned char val) {
@@ -277,7 +278,12 @@ namespace Dal::AAD {
             return Begin();
         }
 
-        Iterator_ End() { return Iterator_(currBlock_, nextSpace_, currBlock_->begin(), currBlock_->end()); }
+        Iterator_ End() {
+            // past a full block is the start of the next one, which is where an iterator gets to
+            if (nextSpace_ == lastSpace_)
+                NextBlock();
+            return Iterator_(currBlock_, nextSpace_, currBlock_->begin(), currBlock_->end());
+        }
 
         inline Iterator_ end() {
             return End();
-- 
2.43.0


From 92c0ec898f50363778aff139dc62b65465ff8a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:53 +0000
Subject: [PATCH 28/73] fix: looking a fixing up quietly without fixings at
 hand finds nothing instead of crashing

---
 dal/indice/index.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/indice/index.cpp b/dal/indice/index.cpp
index 196eb40..6fca1d0 100644
--- a/dal/indice/index.cpp
+++ b/dal/indice/index.cpp
@@ -12,7 +12,7 @@ namespace Dal {
         static const std::map<DateTime_, double> EMPTY;
         auto hist = Environment::Find<FixingsAccess_>(_env);
         REQUIRE(hist || quiet, "no fixing access");
-        auto fixings = hist->Fetch(index_name);
+        auto fixings = hist ? hist->Fetch(index_name) : Handle_<Fixings_>();
         REQUIRE(fixings || quiet, "no fixings exist");
 
         auto vals = fixings ? fixings->vals_ : EMPTY;
-- 
2.43.0


From 97f40b020f9fce386f64c437936a3a3255dddf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:53 +0000
Subject: [PATCH 29/73] fix: an auditor keeps its last record if the next one
 can't be stored

---
 dal/storage/audit.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dal/storage/audit.cpp b/dal/storage/audit.cpp
index ae72ec9..4f36e91 100644
--- a/dal/storage/audit.cpp
+++ b/dal/storage/audit.cpp
@@ -21,8 +21,12 @@ namespace Dal {
 
     void AuditorImp_::Notice(const String_& key, const Handle_<Storable_>& value) const {
         switch (mode_) {
-        case READING_EXCLUSIVE:
-            mine_->contents_.erase(key); // and fall through
+        case READING_EXCLUSIVE: {
+            // the old entries go only once the new one is there
+            const auto kept = mine_->contents_.insert(make_pair(key, value));
+            mine_->contents_.erase(mine_->contents_.lower_bound(key), kept);
+            break;
+        }
         case READING:
             mine_->contents_.insert(make_pair(key, value));
             break;
-- 
2.43.0


From 55f6c244b07ec21e75b576aca7029d11fbd8455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:53 +0000
Subject: [PATCH 30/73] fix: an error message is complete or reports the lack
 of memory

---
 dal/utilities/exceptions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/utilities/exceptions.cpp b/dal/utilities/exceptions.cpp
index 9d227a7..3e56043 100644
--- a/dal/utilities/exceptions.cpp
+++ b/dal/utilities/exceptions.cpp
@@ -96,6 +96,7 @@ namespace Dal {
         // allow Visual Studio integration
         std::string format(const std::string& file, long line, const std::string& function, const char* message) {
             std::ostringstream msg;
+            msg.exceptions(std::ios::badbit); // a message is complete, or running out of memory is reported instead
             if (function != "(unknown)")
                 msg << function << ": ";
             msg << "\n  " << file << "(" << line << "): \n";
@@ -107,6 +108,7 @@ namespace Dal {
         std::string
         format(const std::string& file, long line, const std::string& function, const std::string& message) {
             std::ostringstream msg;
+            msg.exceptions(std::ios::badbit); // a message is complete, or running out of memory is reported instead
             msg << "\n" << file << ":" << line << ": ";
             if (function != "(unknown)")
                 msg << "In function `" << function << "': \n";
-- 
2.43.0


From 57b2c7fafa1dc61556490f3a613ba744d4e83e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:32 +0000
Subject: [PATCH 31/73] fix: list enumerations and look day counts up safely
 from several threads

---
 dal/auto/MG_BizDayConvention_enum.inc | 20 +++---
 dal/auto/MG_Ccy_enum.inc              | 30 ++++-----
 dal/auto/MG_Clearer_enum.inc          | 18 ++----
 dal/auto/MG_CollateralType_enum.inc   | 20 +++---
 dal/auto/MG_DateGeneration_enum.inc   | 18 ++----
 dal/auto/MG_DateStepSize_enum.inc     | 24 +++----
 dal/auto/MG_DayBasis_enum.inc         | 30 +++++++--
 dal/auto/MG_DomainCondProp_enum.inc   | 20 +++---
 dal/auto/MG_NodeType_enum.inc         | 92 +++++++++++++--------------
 dal/auto/MG_OptionType_enum.inc       | 20 +++---
 dal/auto/MG_PeriodLength_enum.inc     | 22 +++----
 dal/auto/MG_RNGType_enum.inc          | 18 ++----
 dal/auto/MG_RepositoryErase_enum.inc  | 22 +++----
 dal/auto/MG_SpecialDay_enum.inc       | 22 +++----
 dal/auto/MG_TradedRate_enum.inc       | 24 +++----
 dal/time/daybasis.cpp                 |  1 +
 16 files changed, 182 insertions(+), 219 deletions(-)

diff --git a/dal/auto/MG_BizDayConvention_enum.inc b/dal/auto/MG_BizDayConvention_enum.inc
index 1a32561..bf57766 100644
--- a/dal/auto/MG_BizDayConvention_enum.inc
+++ b/dal/auto/MG_BizDayConvention_enum.inc
@@ -1,18 +1,14 @@
 
 bool operator==(const BizDayConvention_& lhs, const BizDayConvention_& rhs) {return lhs.val_ == rhs.val_;}
-namespace {
-    Vector_<BizDayConvention_>& TheBizDayConventionList() {
-        RETURN_STATIC(Vector_<BizDayConvention_>);
-    }
-}    // leave local
-
 Vector_<BizDayConvention_> BizDayConventionListAll() {
-   if (TheBizDayConventionList().empty()) {
-        TheBizDayConventionList().emplace_back(BizDayConvention_::Value_::Unadjusted);
-        TheBizDayConventionList().emplace_back(BizDayConvention_::Value_::Following);
-        TheBizDayConventionList().emplace_back(BizDayConvention_::Value_::ModifiedFollowing);
-   }
-   return TheBizDayConventionList();
+    static const Vector_<BizDayConvention_> ALL = [] {
+        Vector_<BizDayConvention_> ret_val;
+        ret_val.emplace_back(BizDayConvention_::Value_::Unadjusted);
+        ret_val.emplace_back(BizDayConvention_::Value_::Following);
+        ret_val.emplace_back(BizDayConvention_::Value_::ModifiedFollowing);
+        return ret_val;
+    }();
+    return ALL;
 }
 
 
diff --git a/dal/auto/MG_Ccy_enum.inc b/dal/auto/MG_Ccy_enum.inc
index 34199fd..eee71b5 100644
--- a/dal/auto/MG_Ccy_enum.inc
+++ b/dal/auto/MG_Ccy_enum.inc
@@ -1,23 +1,19 @@
 
 bool operator==(const Ccy_& lhs, const Ccy_& rhs) {return lhs.val_ == rhs.val_;}
-namespace {
-    Vector_<Ccy_>& TheCcyList() {
-        RETURN_STATIC(Vector_<Ccy_>);
-    }
-}    // leave local
-
 Vector_<Ccy_> CcyListAll() {
-   if (TheCcyList().empty()) {
-        TheCcyList().emplace_back(Ccy_::Value_::USD);
-        TheCcyList().emplace_back(Ccy_::Value_::EUR);
-        TheCcyList().emplace_back(Ccy_::Value_::GBP);
-        TheCcyList().emplace_back(Ccy_::Value_::JPY);
-        TheCcyList().emplace_back(Ccy_::Value_::AUD);
-        TheCcyList().emplace_back(Ccy_::Value_::CHF);
-        TheCcyList().emplace_back(Ccy_::Value_::CAD);
-        TheCcyList().emplace_back(Ccy_::Value_::CNY);
-   }
-   return TheCcyList();
+    static const Vector_<Ccy_> ALL = [] {
+        Vector_<Ccy_> ret_val;
+        ret_val.emplace_back(Ccy_::Value_::USD);
+        ret_val.emplace_back(Ccy_::Value_::EUR);
+        ret_val.emplace_back(Ccy_::Value_::GBP);
+        ret_val.emplace_back(Ccy_::Value_::JPY);
+        ret_val.emplace_back(Ccy_::Value_::AUD);
+        ret_val.emplace_back(Ccy_::Value_::CHF);
+        ret_val.emplace_back(Ccy_::Value_::CAD);
+        ret_val.emplace_back(Ccy_::Value_::CNY);
+        return ret_val;
+    }();
+    return ALL;
 }
 
 
diff --git a/dal/auto/MG_Clearer_enum.inc b/dal/auto/MG_Clearer_enum.inc
index 45c7b7a..60b31a5 100644
--- a/dal/auto/MG_Clearer_enum.inc
+++ b/dal/auto/MG_Clearer_enum.inc
@@ -1,17 +1,13 @@
 
 bool operator==(const Clearer_& lhs, const Clearer_& rhs) {return lhs.val_ == rhs.val_;}
-namespace {
-    Vector_<Clearer_>& TheClearerList() {
-        RETURN_STATIC(Vector_<Clearer_>);
-    }
-}    // leave local
-
 Vector_<Clearer_> ClearerListAll() {
-   if (TheClearerList().empty()) {
-        TheClearerList().emplace_back(Clearer_::Value_::CME);
-        TheClearerList().emplace_back(Clearer_::Value_::LCH);
-   }
-   return TheClearerList();
+    static const Vector_<Clearer_> ALL = [] {
+        Vector_<Clearer_> ret_val;
+        ret_val.emplace_back(Clearer_::Value_::CME);
+        ret_val.emplace_back(Clearer_::Value_::LCH);
+        return ret_val;
+    }();
+    return ALL;
 }
 
 
diff --git a/dal/auto/MG_CollateralType_enum.inc b/dal/auto/MG_CollateralType_enum.inc
index e6c12f9..63490a9 100644
--- a/dal/auto/MG_CollateralType_enum.inc
+++ b/dal/auto/MG_CollateralType_enum.inc
@@ -1,18 +1,14 @@
 
 bool operator==(const CollateralType_& lhs, const CollateralType_& rhs) {return lhs.val_ == rhs.val_;}
-namespace {
-    Vector_<CollateralType_>& TheCollateralTypeList() {
-        RETURN_STATIC(Vector_<CollateralType_>);
-    }
-}    // leave local
-
 Vector_<CollateralType_> CollateralTypeListAll() {
-   if (TheCollateralTypeList().empty()) {
-        TheCollateralTypeList().emplace_back(CollateralType_::Value_::OIS);
-        TheCollateralTypeList().emplace_back(CollateralType_::Value_::GC);
-        TheCollateralTypeList().emplace_back(CollateralType_::Value_::NONE);
-   }
-   return TheCollateralTypeList();
+    static const Vector_<CollateralType_> ALL = [] {
+        Vector_<CollateralType_> ret_val;
+        ret_val.emplace_back(CollateralType_::Value_::OIS);
+        ret_val.emplace_back(CollateralType_::Value_::GC);
+        ret_val.emplace_back(CollateralType_::Value_::NONE);
+        return ret_val;
+    }();
+    return ALL;
 }
 
 
diff --git a/dal/auto/MG_DateGeneration_enum.inc b/dal/auto/MG_DateGeneration_enum.inc
index 5b6300c..a262c5c 100644
--- a/dal/auto/MG_DateGeneration_enum.inc
+++ b/dal/auto/MG_DateGeneration_enum.inc
@@ -1,17 +1,13 @@
 
 bool operator==(const DateGeneration_& lhs, const DateGeneration_& rhs) {return lhs.val_ == rhs.val_;}
-namespace {
-    Vector_<DateGeneration_>& TheDateGenerationList() {
-        RETURN_STATIC(Vector_<DateGeneration_>);
-    }
-}    // leave local
-
 Vector_<DateGeneration_> DateGenerationListAll() {
-   if (TheDateGenerationList().empty()) {
-        TheDateGenerationList().emplace_back(DateGeneration_::Value_::Backward);
-        TheDateGenerationList().emplace_back(DateGeneration_::Value_::Forward);
-   }
-   return TheDateGenerationList();
+    static const Vector_<DateGeneration_> ALL = [] {
+        Vector_<DateGeneration_> ret_val;
+        ret_val.emplace_back(DateGeneration_::Value_::Backward);
+        ret_val.emplace_back(DateGeneration_::Value_::Forward);
+        return ret_val;
+    }();
+    return ALL;
 }
 
 
diff --git a/dal/auto/MG_DateStepSize_enum.inc b/dal/auto/MG_DateStepSize_enum.inc
index 13644dc..016933f 100644
--- a/dal/auto/MG_DateStepSize_enum.inc
+++ b/dal/auto/MG_DateStepSize_enum.inc
@@ -1,20 +1,16 @@
 
 bool operator==(const DateStepSize_& lhs, const DateStepSize_& rhs) {return lhs.val_ == rhs.val_;}
-namespace {
-    Vector_<DateStepSize_>& TheDateStepSizeList() {
-        RETURN_STATIC(Vector_<DateStepSize_>);
-    }
-}    // leave local
-
 Vector_<DateStepSize_> DateStepSizeListAll() {
-   if (TheDateStepSizeList().empty()) {
-        TheDateStepSizeList().emplace_back("Y");
-        TheDateStepSizeList().emplace_back("M");
-        TheDateStepSizeList().emplace_back("W");
-        TheDateStepSizeList().emplace_back("BD");
-        TheDateStepSizeList().emplace_back("CD");
-   }
-   return TheDateStepSizeList();
+    static const Vector_<DateStepSize_> ALL = [] {
+        Vector_<DateStepSize_> ret_val;
+        ret_val.emplace_back("Y");
+        ret_val.emplace_back("M");
+        ret_val.emplace_back("W");
+        ret_val.emplace_back("BD");
+        ret_val.emplace_back("CD");
+        return ret_val;
+    }();
+    return ALL;
 }
 
 
diff --git a/dal/auto/MG_DayBasis_enum.inc b/dal/auto/MG_DayBasis_enum.inc
index 23e2541..2285a7a 100644
--- a/dal/auto/MG_DayBasis_enum.inc
+++ b/dal/auto/MG_DayBasis_enum.inc
@@ -11,6 +11,12 @@ namespace {
         RETURN_STATIC(std::map<String_, Handle_<DayBasis_::Extension_>>);
     }
 
+    // guards the list and the extensions; held while an extension is checked, which looks names up again
+    std::recursive_mutex& TheDayBasisMutex()
+    {
+        RETURN_STATIC(std::recursive_mutex);
+    }
+
 }    // leave local
 
 void DayBasis_RejectDuplicate(const String_&);
@@ -18,21 +24,32 @@ void DayBasis::RegisterExtension
     (const Vector_<String_>& names,
      const Handle_<DayBasis_::Extension_>& imp) 
 {
+    std::lock_guard<std::recursive_mutex> l(TheDayBasisMutex());
     REQUIRE(TheDayBasisList().empty(), "Can't register a new DayBasis after enumerating all values");
     assert(!imp.IsEmpty());
     DayBasis_RejectDuplicate(imp->String());
-    for (auto pn = names.begin(); pn != names.end(); ++pn)
+    auto before = TheDayBasisExtensions();
+    try
+    {
+        for (auto pn = names.begin(); pn != names.end(); ++pn)
+        {
+            DayBasis_RejectDuplicate(*pn);    // check this name does not already have a meaning
+            TheDayBasisExtensions()[String::Condensed(*pn)] = imp;
+        }
+        // check that two-way string conversion works
+        DayBasis_ check(imp->String());
+        REQUIRE(check.String() == imp->String(), "String representation reconstructs the wrong DayBasis -- presumably a name clash");
+    }
+    catch (...)
     {
-        DayBasis_RejectDuplicate(*pn);    // check this name does not already have a meaning
-        TheDayBasisExtensions()[String::Condensed(*pn)] = imp;
+        TheDayBasisExtensions().swap(before);    // register all the names or none
+        throw;
     }
-    // check that two-way string conversion works
-    DayBasis_ check(imp->String());
-    REQUIRE(check.String() == imp->String(), "String representation reconstructs the wrong DayBasis -- presumably a name clash"); 
 }
 
 Vector_<DayBasis_> DayBasisListAll()
 {
+    std::lock_guard<std::recursive_mutex> l(TheDayBasisMutex());
     if (TheDayBasisList().empty())
     {
         Vector_<DayBasis_> retval;
@@ -145,6 +162,7 @@ DayBasis_::DayBasis_(const String_& src) {
     else
     {
         // check for extensions
+        std::lock_guard<std::recursive_mutex> l(TheDayBasisMutex());
         auto pe = TheDayBasisExtensions().find(String::Condensed(src));
         if (pe != TheDayBasisExtensions().end())
         {
diff --git a/dal/auto/MG_DomainCondProp_enum.inc b/dal/auto/MG_DomainCondProp_enum.inc
index c4cbb68..56c84c1 100644
--- a/dal/auto/MG_DomainCondProp_enum.inc
+++ b/dal/auto/MG_DomainCondProp_enum.inc
@@ -1,18 +1,14 @@
 
 bool operator==(const DomainCondProp_& lhs, const DomainCondProp_& rhs) {return lhs.val_ == rhs.val_;}
-namespace {
-    Vector_<DomainCondProp_>& TheDomainCondPropList() {
-        RETURN_STATIC(Vector_<DomainCondProp_>);
-    }
-}    // leave local
-
 Vector_<DomainCondProp_> DomainCondPropListAll() {
-   if (TheDomainCondPropList().empty()) {
-        TheDomainCondPropList().emplace_back(DomainCondProp_::Value_::AlwaysTrue);
-        TheDomainCondPropList().emplace_back(DomainCondProp_::Value_::AlwaysFalse);
-        TheDomainCondPropList().emplace_back(DomainCondProp_::Value_::TrueOrFalse);
-   }
-   return TheDomainCondPropList();
+    static const Vector_<DomainCondProp_> ALL = [] {
+        Vector_<DomainCondProp_> ret_val;
+        ret_val.emplace_back(DomainCondProp_::Value_::AlwaysTrue);
+        ret_val.emplace_back(DomainCondProp_::Value_::AlwaysFalse);
+        ret_val.emplace_back(DomainCondProp_::Value_::TrueOrFalse);
+        return ret_val;
+    }();
+    return ALL;
 }
 
 
diff --git a/dal/auto/MG_NodeType_enum.inc b/dal/auto/MG_NodeType_enum.inc
index 085a3ed..f64649f 100644
--- a/dal/auto/MG_NodeType_enum.inc
+++ b/dal/auto/MG_NodeType_enum.inc
@@ -1,54 +1,50 @@
 
 bool operator==(const NodeType_& lhs, const NodeType_& rhs) {return lhs.val_ == rhs.val_;}
-namespace {
-    Vector_<NodeType_>& TheNodeTypeList() {
-        RETURN_STATIC(Vector_<NodeType_>);
-    }
-}    // leave local
-
 Vector_<NodeType_> NodeTypeListAll() {
-   if (TheNodeTypeList().empty()) {
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Add);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::AddConst);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Sub);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::SubConst);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::ConstSub);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Mult);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::MultConst);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Div);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::DivConst);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::ConstDiv);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Pow);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::PowConst);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::ConstPow);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Max2);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Max2Const);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Min2);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Min2Const);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Spot);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Var);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Const);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Assign);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::AssignConst);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Pays);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::PaysConst);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::If);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::IfElse);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Equal);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Sup);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::SupEqual);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::And);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Or);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Smooth);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Sqrt);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Log);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Not);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::Uminus);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::True);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::False);
-        TheNodeTypeList().emplace_back(NodeType_::Value_::ConstVar);
-   }
-   return TheNodeTypeList();
+    static const Vector_<NodeType_> ALL = [] {
+        Vector_<NodeType_> ret_val;
+        ret_val.emplace_back(NodeType_::Value_::Add);
+        ret_val.emplace_back(NodeType_::Value_::AddConst);
+        ret_val.emplace_back(NodeType_::Value_::Sub);
+        ret_val.emplace_back(NodeType_::Value_::SubConst);
+        ret_val.emplace_back(NodeType_::Value_::ConstSub);
+        ret_val.emplace_back(NodeType_::Value_::Mult);
+        ret_val.emplace_back(NodeType_::Value_::MultConst);
+        ret_val.emplace_back(NodeType_::Value_::Div);
+        ret_val.emplace_back(NodeType_::Value_::DivConst);
+        ret_val.emplace_back(NodeType_::Value_::ConstDiv);
+        ret_val.emplace_back(NodeType_::Value_::Pow);
+        ret_val.emplace_back(NodeType_::Value_::PowConst);
+        ret_val.emplace_back(NodeType_::Value_::ConstPow);
+        ret_val.emplace_back(NodeType_::Value_::Max2);
+        ret_val.emplace_back(NodeType_::Value_::Max2Const);
+        ret_val.emplace_back(NodeType_::Value_::Min2);
+        ret_val.emplace_back(NodeType_::Value_::Min2Const);
+        ret_val.emplace_back(NodeType_::Value_::Spot);
+        ret_val.emplace_back(NodeType_::Value_::Var);
+        ret_val.emplace_back(NodeType_::Value_::Const);
+        ret_val.emplace_back(NodeType_::Value_::Assign);
+        ret_val.emplace_back(NodeType_::Value_::AssignConst);
+        ret_val.emplace_back(NodeType_::Value_::Pays);
+        ret_val.emplace_back(NodeType_::Value_::PaysConst);
+        ret_val.emplace_back(NodeType_::Value_::If);
+        ret_val.emplace_back(NodeType_::Value_::IfElse);
+        ret_val.emplace_back(NodeType_::Value_::Equal);
+        ret_val.emplace_back(NodeType_::Value_::Sup);
+        ret_val.emplace_back(NodeType_::Value_::SupEqual);
+        ret_val.emplace_back(NodeType_::Value_::And);
+        ret_val.emplace_back(NodeType_::Value_::Or);
+        ret_val.emplace_back(NodeType_::Value_::Smooth);
+        ret_val.emplace_back(NodeType_::Value_::Sqrt);
+        ret_val.emplace_back(NodeType_::Value_::Log);
+        ret_val.emplace_back(NodeType_::Value_::Not);
+        ret_val.emplace_back(NodeType_::Value_::Uminus);
+        ret_val.emplace_back(NodeType_::Value_::True);
+        ret_val.emplace_back(NodeType_::Value_::False);
+        ret_val.emplace_back(NodeType_::Value_::ConstVar);
+        return ret_val;
+    }();
+    return ALL;
 }
 
 
diff --git a/dal/auto/MG_OptionType_enum.inc b/dal/auto/MG_OptionType_enum.inc
index 32c91e4..1cdd83b 100644
--- a/dal/auto/MG_OptionType_enum.inc
+++ b/dal/auto/MG_OptionType_enum.inc
@@ -1,18 +1,14 @@
 
 bool operator==(const OptionType_& lhs, const OptionType_& rhs) {return lhs.val_ == rhs.val_;}
-namespace {
-    Vector_<OptionType_>& TheOptionTypeList() {
-        RETURN_STATIC(Vector_<OptionType_>);
-    }
-}    // leave local
-
 Vector_<OptionType_> OptionTypeListAll() {
-   if (TheOptionTypeList().empty()) {
-        TheOptionTypeList().emplace_back(OptionType_::Value_::CALL);
-        TheOptionTypeList().emplace_back(OptionType_::Value_::PUT);
-        TheOptionTypeList().emplace_back(OptionType_::Value_::STRADDLE);
-   }
-   return TheOptionTypeList();
+    static const Vector_<OptionType_> ALL = [] {
+        Vector_<OptionType_> ret_val;
+        ret_val.emplace_back(OptionType_::Value_::CALL);
+        ret_val.emplace_back(OptionType_::Value_::PUT);
+        ret_val.emplace_back(OptionType_::Value_::STRADDLE);
+        return ret_val;
+    }();
+    return ALL;
 }
 
 
diff --git a/dal/auto/MG_PeriodLength_enum.inc b/dal/auto/MG_PeriodLength_enum.inc
index bf26fac..58ac564 100644
--- a/dal/auto/MG_PeriodLength_enum.inc
+++ b/dal/auto/MG_PeriodLength_enum.inc
@@ -1,19 +1,15 @@
 
 bool operator==(const PeriodLength_& lhs, const PeriodLength_& rhs) {return lhs.val_ == rhs.val_;}
-namespace {
-    Vector_<PeriodLength_>& ThePeriodLengthList() {
-        RETURN_STATIC(Vector_<PeriodLength_>);
-    }
-}    // leave local
-
 Vector_<PeriodLength_> PeriodLengthListAll() {
-   if (ThePeriodLengthList().empty()) {
-        ThePeriodLengthList().emplace_back("ANNUAL");
-        ThePeriodLengthList().emplace_back("SEMIANNUAL");
-        ThePeriodLengthList().emplace_back("QUARTERLY");
-        ThePeriodLengthList().emplace_back("MONTHLY");
-   }
-   return ThePeriodLengthList();
+    static const Vector_<PeriodLength_> ALL = [] {
+        Vector_<PeriodLength_> ret_val;
+        ret_val.emplace_back("ANNUAL");
+        ret_val.emplace_back("SEMIANNUAL");
+        ret_val.emplace_back("QUARTERLY");
+        ret_val.emplace_back("MONTHLY");
+        return ret_val;
+    }();
+    return ALL;
 }
 
 
diff --git a/dal/auto/MG_RNGType_enum.inc b/dal/auto/MG_RNGType_enum.inc
index 37d814e..51666ee 100644
--- a/dal/auto/MG_RNGType_enum.inc
+++ b/dal/auto/MG_RNGType_enum.inc
@@ -1,17 +1,13 @@
 
 bool operator==(const RNGType_& lhs, const RNGType_& rhs) {return lhs.val_ == rhs.val_;}
-namespace {
-    Vector_<RNGType_>& TheRNGTypeList() {
-        RETURN_STATIC(Vector_<RNGType_>);
-    }
-}    // leave local
-
 Vector_<RNGType_> RNGTypeListAll() {
-   if (TheRNGTypeList().empty()) {
-        TheRNGTypeList().emplace_back("IRN");
-        TheRNGTypeList().emplace_back("MRG32");
-   }
-   return TheRNGTypeList();
+    static const Vector_<RNGType_> ALL = [] {
+        Vector_<RNGType_> ret_val;
+        ret_val.emplace_back("IRN");
+        ret_val.emplace_back("MRG32");
+        return ret_val;
+    }();
+    return ALL;
 }
 
 
diff --git a/dal/auto/MG_RepositoryErase_enum.inc b/dal/auto/MG_RepositoryErase_enum.inc
index 6a3128f..3fa0637 100644
--- a/dal/auto/MG_RepositoryErase_enum.inc
+++ b/dal/auto/MG_RepositoryErase_enum.inc
@@ -1,19 +1,15 @@
 
 bool operator==(const RepositoryErase_& lhs, const RepositoryErase_& rhs) {return lhs.val_ == rhs.val_;}
-namespace {
-    Vector_<RepositoryErase_>& TheRepositoryEraseList() {
-        RETURN_STATIC(Vector_<RepositoryErase_>);
-    }
-}    // leave local
-
 Vector_<RepositoryErase_> RepositoryEraseListAll() {
-   if (TheRepositoryEraseList().empty()) {
-        TheRepositoryEraseList().emplace_back(RepositoryErase_::Value_::NONE);
-        TheRepositoryEraseList().emplace_back(RepositoryErase_::Value_::NAME_NONEMPTY);
-        TheRepositoryEraseList().emplace_back(RepositoryErase_::Value_::NAME);
-        TheRepositoryEraseList().emplace_back(RepositoryErase_::Value_::TYPE);
-   }
-   return TheRepositoryEraseList();
+    static const Vector_<RepositoryErase_> ALL = [] {
+        Vector_<RepositoryErase_> ret_val;
+        ret_val.emplace_back(RepositoryErase_::Value_::NONE);
+        ret_val.emplace_back(RepositoryErase_::Value_::NAME_NONEMPTY);
+        ret_val.emplace_back(RepositoryErase_::Value_::NAME);
+        ret_val.emplace_back(RepositoryErase_::Value_::TYPE);
+        return ret_val;
+    }();
+    return ALL;
 }
 
 
diff --git a/dal/auto/MG_SpecialDay_enum.inc b/dal/auto/MG_SpecialDay_enum.inc
index 6816b0a..18f449e 100644
--- a/dal/auto/MG_SpecialDay_enum.inc
+++ b/dal/auto/MG_SpecialDay_enum.inc
@@ -1,19 +1,15 @@
 
 bool operator==(const SpecialDay_& lhs, const SpecialDay_& rhs) {return lhs.val_ == rhs.val_;}
-namespace {
-    Vector_<SpecialDay_>& TheSpecialDayList() {
-        RETURN_STATIC(Vector_<SpecialDay_>);
-    }
-}    // leave local
-
 Vector_<SpecialDay_> SpecialDayListAll() {
-   if (TheSpecialDayList().empty()) {
-        TheSpecialDayList().emplace_back("IMM");
-        TheSpecialDayList().emplace_back("IMM1");
-        TheSpecialDayList().emplace_back("CDS");
-        TheSpecialDayList().emplace_back("EOM");
-   }
-   return TheSpecialDayList();
+    static const Vector_<SpecialDay_> ALL = [] {
+        Vector_<SpecialDay_> ret_val;
+        ret_val.emplace_back("IMM");
+        ret_val.emplace_back("IMM1");
+        ret_val.emplace_back("CDS");
+        ret_val.emplace_back("EOM");
+        return ret_val;
+    }();
+    return ALL;
 }
 
 
diff --git a/dal/auto/MG_TradedRate_enum.inc b/dal/auto/MG_TradedRate_enum.inc
index 561c723..d13c730 100644
--- a/dal/auto/MG_TradedRate_enum.inc
+++ b/dal/auto/MG_TradedRate_enum.inc
@@ -1,20 +1,16 @@
 
 bool operator==(const TradedRate_& lhs, const TradedRate_& rhs) {return lhs.val_ == rhs.val_;}
-namespace {
-    Vector_<TradedRate_>& TheTradedRateList() {
-        RETURN_STATIC(Vector_<TradedRate_>);
-    }
-}    // leave local
-
 Vector_<TradedRate_> TradedRateListAll() {
-   if (TheTradedRateList().empty()) {
-        TheTradedRateList().emplace_back(TradedRate_::Value_::LIBOR_3M_CME);
-        TheTradedRateList().emplace_back(TradedRate_::Value_::LIBOR_3M_LCH);
-        TheTradedRateList().emplace_back(TradedRate_::Value_::LIBOR_3M_FUT);
-        TheTradedRateList().emplace_back(TradedRate_::Value_::LIBOR_6M_CME);
-        TheTradedRateList().emplace_back(TradedRate_::Value_::LIBOR_6M_LCH);
-   }
-   return TheTradedRateList();
+    static const Vector_<TradedRate_> ALL = [] {
+        Vector_<TradedRate_> ret_val;
+        ret_val.emplace_back(TradedRate_::Value_::LIBOR_3M_CME);
+        ret_val.emplace_back(TradedRate_::Value_::LIBOR_3M_LCH);
+        ret_val.emplace_back(TradedRate_::Value_::LIBOR_3M_FUT);
+        ret_val.emplace_back(TradedRate_::Value_::LIBOR_6M_CME);
+        ret_val.emplace_back(TradedRate_::Value_::LIBOR_6M_LCH);
+        return ret_val;
+    }();
+    return ALL;
 }
 
 
diff --git a/dal/time/daybasis.cpp b/dal/time/daybasis.cpp
index 10b4a27..09c2093 100644
--- a/dal/time/daybasis.cpp
+++ b/dal/time/daybasis.cpp
@@ -6,6 +6,7 @@
 #include <dal/platform/strict.hpp>
 #include <dal/time/daybasis.hpp>
 #include <dal/utilities/exceptions.hpp>
+#include <mutex>
 
 namespace Dal {
 
-- 
2.43.0


From 628e63866f6f4fda8712aece29b359630b93e815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:32 +0000
Subject: [PATCH 32/73] fix: a registered day count is the one that is used

---
 dal/time/daybasis.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/time/daybasis.cpp b/dal/time/daybasis.cpp
index 09c2093..21227bb 100644
--- a/dal/time/daybasis.cpp
+++ b/dal/time/daybasis.cpp
@@ -77,6 +77,8 @@ namespace Dal {
             return Act365L(from, to, info->couponMonths_ == 12, info->nominalEnd_);
         case Value_::BOND:
             return Bond(from, to);
+        case Value_::_EXTENSION:
+            return (*other_)(from, to, info);
         default:
             assert(!"Unrecognized day basis");
             return 0.0;
-- 
2.43.0


From abebd6f1706af0a45727b3cc101c2b5c7e4ae1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:08 +0000
Subject: [PATCH 33/73] fix: a stack survives failed growth and copies, can be
 refilled after Clear, and TopAndPop gives the top

---
 dal/math/stacks.hpp | 47 ++++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/dal/math/stacks.hpp b/dal/math/stacks.hpp
index 1dbc3d6..5a53170 100644
--- a/dal/math/stacks.hpp
+++ b/dal/math/stacks.hpp
@@ -4,7 +4,10 @@
 
 #pragma once
 
+#include <algorithm>
 #include <iterator>
+#include <memory>
+#include <utility>
 
 namespace Dal {
     template <class E_, size_t DefaultSize> class Stack_ {
@@ -34,31 +37,21 @@ namespace Dal {
         //	Copier, mover
 
         Stack_(const Stack_& rhs) {
+            std::unique_ptr<E_[]> newData(rhs.size_ ? new E_[rhs.size_] : nullptr);
+            if (rhs.sp_ > 0)
+                std::copy(rhs.data_, rhs.data_ + rhs.sp_, newData.get());
             size_ = rhs.size_;
             sp_ = rhs.sp_;
-            if (size_)
-                data_ = new E_[size_];
-            else
-                data_ = nullptr;
-            if (sp_ > 0)
-                copy(rhs.data_, rhs.data_ + sp_, data_);
+            data_ = newData.release();
         }
 
         Stack_& operator=(const Stack_& rhs) {
             if (this == &rhs)
                 return *this;
-            if (size_ < rhs.size_) {
-                if (data_)
-                    delete[] data_;
-                if (rhs.size_)
-                    data_ = new E_[rhs.size_];
-                else
-                    data_ = nullptr;
-            }
-            size_ = rhs.size_;
-            sp_ = rhs.sp_;
-            if (sp_ > 0)
-                std::copy(rhs.data_, rhs.data_ + sp_, data_);
+            Stack_ temp(rhs); // may throw, leaving this untouched
+            std::swap(data_, temp.data_);
+            std::swap(size_, temp.size_);
+            std::swap(sp_, temp.sp_);
             return *this;
         }
 
@@ -93,16 +86,18 @@ namespace Dal {
         FORCE_INLINE const_iterator end() const { return std::reverse_iterator<const E_*>(data_); }
 
         template <typename T_> void Push(T_&& value) {
-            data_[sp_] = std::forward<T_>(value);
-            ++sp_;
             if (sp_ >= size_) {
-                E_* newData = new E_[size_ << 1];
-                std::move(data_, data_ + size_, newData);
+                const int newSize = size_ ? size_ << 1 : (DefaultSize ? static_cast<int>(DefaultSize) : 1);
+                std::unique_ptr<E_[]> newData(new E_[newSize]);
+                newData[sp_] = std::forward<T_>(value); // value may be in the old data
+                std::move(data_, data_ + sp_, newData.get());
 
                 delete[] data_;
-                data_ = newData;
-                size_ <<= 1;
-            }
+                data_ = newData.release();
+                size_ = newSize;
+            } else
+                data_[sp_] = std::forward<T_>(value);
+            ++sp_;
         }
 
         FORCE_INLINE E_& Top() { return data_[sp_ - 1]; }
@@ -110,7 +105,7 @@ namespace Dal {
         FORCE_INLINE E_& operator[](const size_t i) { return data_[sp_ - 1 - i]; }
         FORCE_INLINE const E_& operator[](const size_t i) const { return data_[sp_ - 1 - i]; }
 
-        FORCE_INLINE E_ TopAndPop() { return std::move(data_[sp_--]); }
+        FORCE_INLINE E_ TopAndPop() { return std::move(data_[--sp_]); }
 
         FORCE_INLINE void Pop() { --sp_; }
         FORCE_INLINE void Pop(const size_t n) { sp_ -= n; }
-- 
2.43.0


From 8fb662da12161c8dd3c9d1a423ee5477acb7b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:40 +0000
Subject: [PATCH 34/73] fix: resizing an array keeps all common elements and
 survives a failed allocation

---
 dal/math/ndarray.cpp | 6 ++++--
 dal/math/ndarray.hpp | 8 +++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dal/math/ndarray.cpp b/dal/math/ndarray.cpp
index 3f96a34..910b075 100644
--- a/dal/math/ndarray.cpp
+++ b/dal/math/ndarray.cpp
@@ -23,7 +23,11 @@ namespace Dal::ArrayN {
         Vector_<int> mins = Apply(func, old_sizes, new_sizes);
         Vector_<int> loc(nd, 0);
         Vector_<pair<int, int>> ret_val;
+        for (int m : mins)
+            if (m <= 0)
+                return ret_val; // nothing in common
         for (;;) {
+            ret_val.emplace_back(InnerProduct(loc, oldStrides), InnerProduct(loc, newStrides));
             int depth;
             for (depth = 0; depth < nd; ++depth) {
                 if (++loc[depth] < mins[depth])
@@ -32,8 +36,6 @@ namespace Dal::ArrayN {
             }
             if (depth == nd)
                 return ret_val;
-            ret_val.emplace_back(InnerProduct(loc, oldStrides), InnerProduct(loc, newStrides));
         }
-        return ret_val;
     }
 } // namespace Dal::ArrayN
\ No newline at end of file
diff --git a/dal/math/ndarray.hpp b/dal/math/ndarray.hpp
index a6049c7..8b7c0ff 100644
--- a/dal/math/ndarray.hpp
+++ b/dal/math/ndarray.hpp
@@ -52,12 +52,10 @@ namespace Dal {
         // Resize() requires computation of element mapping; take it out-of-line
         void Resize(const Vector_<int>& new_sizes) {
             const Vector_<pair<int, int>>& moves = ArrayN::Moves(sizes_, new_sizes);
-            Vector_<E_> new_values(sizes_[0] * strides_[0], E_());
-            sizes_ = new_sizes;
-            strides_ = ArrayN::Strides(sizes_);
+            ArrayN_<E_> resized(new_sizes, E_()); // may throw, leaving this untouched
             for (const auto& move : moves)
-                new_values[move.second] = vals_[move.first];
-            vals_.Swap(&new_values);
+                resized.vals_[move.second] = vals_[move.first];
+            Swap(&resized);
         }
         // allow enough access for Cube_
     protected:
-- 
2.43.0


From c1b65b2b109e85ff9a243c255daf0b341d6183e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:42 +0000
Subject: [PATCH 35/73] fix: a matrix survives a failed resize, can be swapped
 with an empty one and is empty after a move

---
 dal/math/matrix/matrixs.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dal/math/matrix/matrixs.hpp b/dal/math/matrix/matrixs.hpp
index 20256ca..d765db1 100644
--- a/dal/math/matrix/matrixs.hpp
+++ b/dal/math/matrix/matrixs.hpp
@@ -54,7 +54,7 @@ namespace Dal {
             std::swap(hooks_, rhs.hooks_);
         }
 
-        Matrix_(Matrix_&& rhs) noexcept { swap(rhs); }
+        Matrix_(Matrix_&& rhs) noexcept : cols_(0) { swap(rhs); }
 
         Matrix_& operator=(Matrix_&& rhs) noexcept {
             if (this != &rhs) {
@@ -212,7 +212,7 @@ namespace Dal {
             vals_.Swap(&other->vals_);
             hooks_.Swap(&other->hooks_);
             std::swap(cols_, other->cols_);
-            REQUIRE(hooks_.front() == vals_.begin(), "hooks front should be same with vals begin");
+            REQUIRE(hooks_.empty() || hooks_.front() == vals_.begin(), "hooks front should be same with vals begin");
         }
 
         void Fill(const E_& val) { vals_.Fill(val); }
@@ -221,17 +221,18 @@ namespace Dal {
 
         void Resize(int rows, int cols) {
             const auto old_rows = hooks_.size();
+            hooks_.reserve(rows); // fail here rather than half way
             if (cols == cols_ && rows * old_rows > 0) {
                 vals_.Resize((rows + 1) * cols);
                 hooks_.Resize(rows);
                 SetHook(hooks_[0] == vals_.begin() ? old_rows : 0);
             } else {
                 const auto n_copy = std::min(cols, cols_);
-                cols_ = cols;
                 Vector_<E_> new_vals((rows + 1) * cols);
                 for (int ir = 0; ir < rows && ir < old_rows; ++ir) {
                     copy(hooks_[ir], hooks_[ir] + n_copy, new_vals.begin() + ir * cols);
                 }
+                cols_ = cols;
                 vals_.Swap(&new_vals);
                 hooks_.Resize(rows);
                 SetHook();
-- 
2.43.0


From 91197972954571c445c18d50bbde00ced585ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:59 +0000
Subject: [PATCH 36/73] fix: value a product as of one evaluation date

---
 dal/script/event.cpp | 7 +++----
 dal/script/event.hpp | 1 +
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dal/script/event.cpp b/dal/script/event.cpp
index b1ef00c..580a845 100644
--- a/dal/script/event.cpp
+++ b/dal/script/event.cpp
@@ -72,9 +72,9 @@ namespace Dal::Script {
         }
 
         Parser_ parser(constVariables);
-        const auto eval_data = Global::Dates_::EvaluationDate();
+        evaluationDate_ = Global::Dates_::EvaluationDate();
         for (const auto &processedEvent: processedEvents) {
-            if (processedEvent.first >= eval_data) {
+            if (processedEvent.first >= evaluationDate_) {
                 eventDates_.push_back(processedEvent.first);
                 events_.push_back(parser.Parse(processedEvent.second));
             } else {
@@ -145,9 +145,8 @@ namespace Dal::Script {
 
         // generate time line and definition
         // TODO: more specific data settings
-        const auto evaluationDate = Global::Dates_::EvaluationDate();
         for (auto& date : eventDates_) {
-            const double ttm = (date - evaluationDate) / 365.0;
+            const double ttm = (date - evaluationDate_) / 365.0;
             timeLine_.emplace_back(ttm);
             Dal::AAD::SampleDef_ sampleDef;
             sampleDef.numeraire_ = true;
diff --git a/dal/script/event.hpp b/dal/script/event.hpp
index 590c9dd..cc04c3e 100644
--- a/dal/script/event.hpp
+++ b/dal/script/event.hpp
@@ -33,6 +33,7 @@ namespace Dal::Script {
         String_ payoff_;
         size_t payoffIdx_;
 
+        Date_ evaluationDate_; // the date the events were split at, read once
         Vector_<Date_> pastEventDates_;
         Vector_<Event_> pastEvents_;
         Vector_<Date_> eventDates_;
-- 
2.43.0


From e3b3f7aae31b33aa39dd08728aef65cb46d46de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:21 +0000
Subject: [PATCH 37/73] fix: a script product can be prepared again, also after
 a failure

---
 dal/script/event.cpp                      |  3 ++
 dal/script/visitor/constcondprocessor.hpp | 38 ++++++++++-------------
 dal/script/visitor/domainproc.hpp         |  4 +++
 3 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/dal/script/event.cpp b/dal/script/event.cpp
index 580a845..6422b70 100644
--- a/dal/script/event.cpp
+++ b/dal/script/event.cpp
@@ -91,6 +91,7 @@ namespace Dal::Script {
         consVariables_ = indexer.ConstVarNames();
         consVariablesValues_ = indexer.ConstVarValues();
 
+        payoffIdx_ = -1;
         for (auto i = 0; i < variables_.size(); ++i)
             if (variables_[i] == payoff_) {
                 payoffIdx_ = i;
@@ -145,6 +146,8 @@ namespace Dal::Script {
 
         // generate time line and definition
         // TODO: more specific data settings
+        timeLine_.clear();
+        defLine_.clear();
         for (auto& date : eventDates_) {
             const double ttm = (date - evaluationDate_) / 365.0;
             timeLine_.emplace_back(ttm);
diff --git a/dal/script/visitor/constcondprocessor.hpp b/dal/script/visitor/constcondprocessor.hpp
index 6045fc0..74995d6 100644
--- a/dal/script/visitor/constcondprocessor.hpp
+++ b/dal/script/visitor/constcondprocessor.hpp
@@ -71,34 +71,28 @@ namespace Dal::Script {
         void Visit(NodeAnd_& node) { VisitBool(node); }
         void Visit(NodeOr_& node) { VisitBool(node); }
 
+        // Replace an if node by some of its statements; nothing has changed if this fails
+        void ReplaceByStatements(NodeIf_& node, size_t begin, size_t end) {
+            auto collect = std::make_unique<NodeCollect_>();
+            collect->arguments_.reserve(end - begin);
+            for (size_t i = begin; i < end; ++i)
+                collect->arguments_.push_back(std::move(node.arguments_[i]));
+
+            // Destroys node
+            *current_ = std::move(collect);
+            VisitArgsSetCurrent(**current_);
+        }
+
         // If
         void Visit(NodeIf_& node) {
             // Always true ==> replace the tree by the collection of "if true" statements
-            if (node.alwaysTrue_) {
-                size_t lastTrueStat = node.firstElse_ == -1 ? node.arguments_.size() - 1 : node.firstElse_ - 1;
-
-                // Move arguments_, destroy node
-                Vector_<ExprTree_> args = std::move(node.arguments_);
-                *current_ = std::unique_ptr<Node_>(new NodeCollect_);
-
-                for (size_t i = 1; i <= lastTrueStat; ++i)
-                    (*current_)->arguments_.push_back(std::move(args[i]));
-                VisitArgsSetCurrent(**current_);
-            }
+            if (node.alwaysTrue_)
+                ReplaceByStatements(node, 1, node.firstElse_ == -1 ? node.arguments_.size() : node.firstElse_);
 
             // Always false ==> replace the tree by the collection of "else" statements
-            else if (node.alwaysFalse_) {
-                int firstElseStatement = node.firstElse_;
-
-                // Move arguments_, destroy node
-                Vector_<ExprTree_> args = std::move(node.arguments_);
-                *current_ = std::unique_ptr<Node_>(new NodeCollect_);
+            else if (node.alwaysFalse_)
+                ReplaceByStatements(node, node.firstElse_ == -1 ? node.arguments_.size() : node.firstElse_, node.arguments_.size());
 
-                if (firstElseStatement != -1)
-                    for (size_t i = firstElseStatement; i < args.size(); ++i)
-                        (*current_)->arguments_.push_back(std::move(args[i]));
-                VisitArgsSetCurrent(**current_);
-            }
             // Nothing to do here ==> Visit the arguments_
             else
                 VisitArgsSetCurrent(node);
diff --git a/dal/script/visitor/domainproc.hpp b/dal/script/visitor/domainproc.hpp
index 70e2ceb..4bf5977 100644
--- a/dal/script/visitor/domainproc.hpp
+++ b/dal/script/visitor/domainproc.hpp
@@ -316,6 +316,10 @@ namespace Dal::Script {
             }
         }
 
+        // Conditions that were found constant before
+        void Visit(NodeTrue_&) { condStack_.Push(Value_::AlwaysTrue); }
+        void Visit(NodeFalse_&) { condStack_.Push(Value_::AlwaysFalse); }
+
         // Instructions
         void Visit(NodeIf_& node) {
             // Last "if true" statement index
-- 
2.43.0


From 36045f980be26a8d9365753b9d8bbc23e1421f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:18 +0000
Subject: [PATCH 38/73] fix: a logarithm can be negative when conditions are
 simplified

---
 dal/script/visitor/domainproc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/domainproc.hpp b/dal/script/visitor/domainproc.hpp
index 4bf5977..7246548 100644
--- a/dal/script/visitor/domainproc.hpp
+++ b/dal/script/visitor/domainproc.hpp
@@ -119,7 +119,7 @@ namespace Dal::Script {
         void Visit(NodeLog_& node) {
             VisitArguments(node);
             Domain_ res = domStack_.Top().ApplyFunc<double (*)(double)>(
-                log, Interval_(Bound_(0.0), Bound_(Bound_::plusInfinity_)));
+                log, Interval_(Bound_(Bound_::minusInfinity_), Bound_(Bound_::plusInfinity_)));
             domStack_.Pop();
             domStack_.Push(std::move(res));
         }
-- 
2.43.0


From f7644ba73ccb74dd58fa36745c5dde6a83d9a788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:40 +0000
Subject: [PATCH 39/73] fix: the time of day of a date-time lost a second in
 text

---
 dal/time/datetime.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dal/time/datetime.cpp b/dal/time/datetime.cpp
index b9b096e..0924116 100644
--- a/dal/time/datetime.cpp
+++ b/dal/time/datetime.cpp
@@ -10,9 +10,11 @@ namespace Dal {
 
     namespace {
         void FracToHMS(double frac, int* h, int* m, int* s) {
-            ASSIGN(h, static_cast<int>(24 * frac));
-            ASSIGN(m, static_cast<int>(1440 * frac) % 60);
-            ASSIGN(s, static_cast<int>(86400 * frac) % 60);
+            // a whole number of seconds is not exact as a fraction of a day: don't cut it to the second before
+            const int secs = std::min(86399, static_cast<int>(86400 * frac + 1e-4));
+            ASSIGN(h, secs / 3600);
+            ASSIGN(m, secs / 60 % 60);
+            ASSIGN(s, secs % 60);
         }
     } // namespace
 
-- 
2.43.0


From 1488a5e80a173ebd598fe2f92ca33f86c4b2fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:35 +0000
Subject: [PATCH 40/73] fix: numbers keep their value in text and JSON

---
 dal/storage/json.cpp   |  4 ++--
 dal/string/strings.cpp | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 831c433..e8e3e8e 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -317,7 +317,7 @@ namespace Dal {
     Handle_<Storable_> JSON::ReadString(const String_& src, bool quiet) {
         NOTE("Extracting object from JSON string");
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseDefaultFlags>(src.c_str());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(src.c_str());
         REQUIRE(!doc.HasParseError(), "Invalid JSON");
         XDocView_ task(doc);
         Archive::Built_ built;
@@ -331,7 +331,7 @@ namespace Dal {
         char buffer[8192];
         rapidjson::FileReadStream is(fp.get(), buffer, sizeof(buffer));
         rapidjson::Document doc;
-        doc.ParseStream<rapidjson::kParseDefaultFlags>(is);
+        doc.ParseStream<rapidjson::kParseFullPrecisionFlag>(is);
         REQUIRE(!ferror(fp.get()), "Can't read file '" + filename + "' to the end");
         REQUIRE(!doc.HasParseError(), "Invalid JSON");
         XDocView_ task(doc);
diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index ea2fcb8..facf29b 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -3,6 +3,8 @@
 //
 
 #include <bitset>
+#include <cstdio>
+#include <cstdlib>
 #include <sstream>
 #include <dal/platform/strict.hpp>
 #include <dal/string/strings.hpp>
@@ -46,7 +48,16 @@ namespace Dal::String {
         return val;
     }
 
-    String_ FromDouble(double src) { return String_(std::to_string(src)); }
+    String_ FromDouble(double src) {
+        std::string ret_val = std::to_string(src);
+        // six decimals are not enough for every number: add digits until the text reads back as the same value
+        for (int precision = 15; precision <= 17 && std::strtod(ret_val.c_str(), nullptr) != src; ++precision) {
+            char buffer[32];
+            std::snprintf(buffer, sizeof(buffer), "%.*g", precision, src);
+            ret_val = buffer;
+        }
+        return String_(ret_val);
+    }
 
     String_ FromInt(int src) { return String_(std::to_string(src)); }
     String_ FromBool(bool src) {
-- 
2.43.0


From 0a85c150dedad599c1fb1385f31d65dce01ce390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:09 +0000
Subject: [PATCH 41/73] fix: strings, integers, flags and empty matrices
 written as JSON can be read back

---
 dal/storage/json.cpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index e8e3e8e..e662330 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -36,9 +36,19 @@ namespace Dal {
         }
         // WRITE interface
         // given up on rapidjson, think it is simple enough to just stream out
-        // POSTPONED -- add a template parameter determining the checking strategy for funny characters inside strings
-        // this simple implementation just assumes there are none (fastest)
-        // could have one that wraps, one that errors
+        void WriteQuoted(std::ostream& dst, const String_& src) {
+            dst << '"';
+            for (const char c : src) {
+                if (c == '"' || c == '\\')
+                    dst << '\\' << c;
+                else if (static_cast<unsigned char>(c) < 0x20) {
+                    static const char* HEX = "0123456789ABCDEF";
+                    dst << "\\u00" << HEX[c >> 4] << HEX[c & 0xF];
+                } else
+                    dst << c;
+            }
+            dst << '"';
+        }
 
         struct XDocStore_ : Archive::Store_ {
             std::ostream& dst_;
@@ -95,14 +105,17 @@ namespace Dal {
             }
 
             XDocStore_& operator=(int val) {
-                dst_ << String::FromDouble(val);
+                dst_ << String::FromInt(val);
                 return *this;
             }
             XDocStore_& operator=(bool val) {
                 dst_ << String::FromBool(val);
                 return *this;
             }
-            XDocStore_& operator=(const String_& val) override { dst_ << "\"" << val << "\""; return *this; }
+            XDocStore_& operator=(const String_& val) override {
+                WriteQuoted(dst_, val);
+                return *this;
+            }
             XDocStore_& operator=(const Date_& val) override { return operator=(Date::ToString(val)); }
             XDocStore_& operator=(const DateTime_& val) override { return operator=(DateTime::ToString(val)); }
             XDocStore_& operator=(const Cell_& c) {
@@ -173,6 +186,8 @@ namespace Dal {
         }
         // create matrix from vector of values
         template <class E_> Matrix_<E_> AsMatrix(int cols, const Vector_<E_>& vals) {
+            if (cols == 0 && vals.empty())
+                return Matrix_<E_>();
             REQUIRE(cols > 0 && !(vals.size() % cols), "Invalid number of matrix columns");
             const int rows = vals.size() / cols;
             Matrix_<E_> ret_val(rows, cols);
@@ -191,12 +206,14 @@ namespace Dal {
             return doc.GetInt();
         }
         bool EBool(const element_t& doc) {
+            if (doc.IsNumber()) // an object's flag may have been stored through the numeric interface
+                return doc.GetDouble() != 0.0;
             REQUIRE(doc.IsBool(), "Can't get a boolean value");
             return doc.GetBool();
         }
         String_ EString(const element_t& doc) {
             REQUIRE(doc.IsString(), "Can't get a string value");
-            return String_(doc.GetString());
+            return String_(std::string(doc.GetString(), doc.GetStringLength()));
         }
         Date_ EDate(const element_t& doc) { // worrying about efficiency, so storing dates as Excel-compatible integers
             if (doc.IsInt())
@@ -224,7 +241,7 @@ namespace Dal {
             if (doc.IsBool())
                 return Cell_(doc.GetBool());
             if (doc.IsString()) {
-                const std::string src = doc.GetString();
+                const std::string src(doc.GetString(), doc.GetStringLength());
                 if (std::regex_match(src, DATE_PATTERN))
                     return Cell_(Date::FromString(String_(src)));
                 else if (std::regex_match(src, DATE_TIME_PATTERN))
-- 
2.43.0


From b5c9d34118df8967c1aa2f2d1edc6b84e9bcb5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:24 +0000
Subject: [PATCH 42/73] fix: empty values, blank cells and flags survive a
 table

---
 dal/storage/splat.cpp | 62 ++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index 5dbf406..50e29a4 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -26,6 +26,8 @@ namespace Dal {
         const String_ OBJECT_PREFACE("~");
         const String_ TAG_PREFACE("$");
 
+        bool IsBlank(const Cell_& c) { return std::holds_alternative<std::monostate>(c.val_); }
+
         struct XSplat_ : Archive::Store_ {
             String_ tag_;
             String_ type_;
@@ -33,24 +35,23 @@ namespace Dal {
             map<String_, shared_ptr<XSplat_>> children_;
             map<const Storable_*, String_>& sharedTags_;
             Matrix_<Cell_> val_;
+            bool hasVal_ = false; // an empty vector or matrix is still a value
 
             explicit XSplat_(map<const Storable_*, String_>& shared_tags) : sharedTags_(shared_tags) {}
 
             int Rows() const {
-                REQUIRE(type_.empty() == children_.empty(), "children type status should be same");
-                if (!val_.Empty()) {
-                    REQUIRE(type_.empty(), "");
-                    return val_.Rows();
-                }
+                REQUIRE(type_.empty() || !hasVal_, "children type status should be same");
+                if (hasVal_)
+                    return max(1, val_.Rows());
                 int ret_val = 0;
                 for (const auto& c : children_)
                     ret_val += c.second->Rows();
-                return ret_val;
+                return max(1, ret_val);
             }
 
             int Cols() const {
-                if (!val_.Empty())
-                    return val_.Cols();
+                if (hasVal_)
+                    return max(1, val_.Cols());
                 int ret_val = 0;
                 for (const auto& c : children_)
                     ret_val = max(ret_val, c.second->Cols());
@@ -58,7 +59,7 @@ namespace Dal {
             }
 
             void Write(Matrix_<Cell_>& dst, int row_offset, int col_offset) const {
-                if (!val_.Empty()) {
+                if (hasVal_) {
                     for (int ir = 0; ir < val_.Rows(); ++ir)
                         copy(val_.Row(ir).begin(), val_.Row(ir).end(), dst.Row(ir + row_offset).begin() + col_offset);
                 } else {
@@ -92,23 +93,40 @@ namespace Dal {
                 return *ret_val;
             }
 
+            void ResizeVal(int rows, int cols) {
+                val_.Resize(cols > 0 ? rows : 0, cols);
+                hasVal_ = true;
+            }
+
             template <class E_> void SetScalar(const E_& e) {
-                val_.Resize(1, 1);
+                ResizeVal(1, 1);
                 val_(0, 0) = e;
             }
 
             template <class E_> void SetVector(const Vector_<E_>& v) {
-                val_.Resize(1, static_cast<int>(v.size()));
+                ResizeVal(1, static_cast<int>(v.size()));
+                if (v.empty())
+                    return;
                 auto dst = val_.Row(0);
                 Copy(v, &dst);
+                FillBlanks();
             }
 
             template <class E_> void SetMatrix(const Matrix_<E_>& m) {
-                val_.Resize(m.Rows(), m.Cols());
-                for (auto ir = 0; ir < m.Rows(); ++ir) {
+                ResizeVal(m.Rows(), m.Cols());
+                for (auto ir = 0; ir < val_.Rows(); ++ir) {
                     auto dst = val_.Row(ir);
                     Copy(m.Row(ir), &dst);
                 }
+                FillBlanks();
+            }
+
+            // a blank marks the end of a value, so there can be none inside
+            void FillBlanks() {
+                for (int ir = 0; ir < val_.Rows(); ++ir)
+                    for (auto& c : val_.Row(ir))
+                        if (IsBlank(c))
+                            c = String_();
             }
 
             XSplat_& operator=(double d) override { SetScalar(d); return *this; }
@@ -126,13 +144,14 @@ namespace Dal {
             XSplat_& operator=(const Matrix_<String_>& m) override { SetMatrix(m); return *this; }
             XSplat_& operator=(const Matrix_<Cell_>& m) override { SetMatrix(m); return *this; }
             XSplat_& operator=(const Dictionary_& d) override {
-                val_.Resize(d.Size(), 2);
+                ResizeVal(d.Size(), 2);
                 int ir = 0;
                 for (const auto& k_v : d) {
                     val_(ir, 0) = k_v.first;
                     val_(ir, 1) = k_v.second;
                     ++ir;
                 }
+                FillBlanks();
                 return *this;
             }
         };
@@ -164,6 +183,7 @@ namespace Dal {
 
         struct ExtractBool_ {
             bool operator()(bool b) const { return b; }
+            bool operator()(double d) const { return d != 0.0; } // may be stored through the numeric interface
             bool operator()(const String_& s) const { return String::ToBool(s); }
             template<class T_> bool operator()(T_) const { THROW("Can't create a boolean from cell"); }
         };
@@ -293,8 +313,8 @@ namespace Dal {
 
             pair<Matrix_<Cell_>::Row_::const_iterator, Matrix_<Cell_>::Row_::const_iterator> VectorRange() const {
                 REQUIRE(rowStop_ == rowStart_ + 1, "Can't get a vector value from a multi-line entry");
-                int colStop = colStart_ + 1;
-                while (colStop < data_.Cols() && !Cell::IsEmpty(data_(rowStart_, colStop)))
+                int colStop = colStart_;
+                while (colStop < data_.Cols() && !IsBlank(data_(rowStart_, colStop)))
                     ++colStop;
                 return make_pair(data_.Row(rowStart_).begin() + colStart_, data_.Row(rowStart_).begin() + colStop);
             }
@@ -310,19 +330,21 @@ namespace Dal {
             Vector_<Cell_> AsCellVector() const override { return TranslateRange(VectorRange(), Identity_<Cell_>()); }
 
             int MatrixStop() const {
-                for (int ret_val = colStart_ + 1;; ++ret_val) {
+                for (int ret_val = colStart_;; ++ret_val) {
                     if (ret_val == data_.Cols())
                         return ret_val;
                     for (int ir = rowStart_;; ++ir) {
                         if (ir == rowStop_)
                             return ret_val; // found an empty column
-                        else if (!Cell::IsEmpty(data_(ir, ret_val)))
+                        else if (!IsBlank(data_(ir, ret_val)))
                             break; // column is not empty
                     }
                 }
             }
             template <class F_> auto TranslateMatrix(int col_stop, F_ translate) const {
                 Matrix_<VALUE_TYPE_OF(translate(data_(0, 0)))> ret_val;
+                if (col_stop == colStart_)
+                    return ret_val;
                 ret_val.Resize(rowStop_ - rowStart_, col_stop - colStart_);
                 for (int ir = rowStart_; ir < rowStop_; ++ir)
                     transform(data_.Row(ir).begin() + colStart_, data_.Row(ir).begin() + col_stop,
@@ -337,9 +359,11 @@ namespace Dal {
             Matrix_<Cell_> AsCellMatrix() const override { return TranslateMatrix(MatrixStop(), Identity_<Cell_>()); }
 
             Dictionary_ AsDictionary() const override {
+                Dictionary_ ret_val;
+                if (MatrixStop() == colStart_)
+                    return ret_val;
                 REQUIRE(MatrixStop() == colStart_ + 2,
                         "Can't extract dictionary because entry does not have two columns");
-                Dictionary_ ret_val;
                 for (int ir = rowStart_; ir < rowStop_; ++ir)
                     ret_val.Insert(ExtractString(data_(ir, colStart_)), data_(ir, colStart_ + 1));
                 return ret_val;
-- 
2.43.0


From d41915d63cd1bbea56ee88bee30bb01cf443f859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:52 +0000
Subject: [PATCH 43/73] fix: any string, date and date-time survives a table
 file

---
 dal/storage/splat.cpp  | 54 ++++++++++++++++++++++++++++++++++++++++--
 dal/utilities/file.cpp |  2 +-
 2 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index 50e29a4..3f546fb 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -4,6 +4,7 @@
 
 #include <algorithm>
 #include <map>
+#include <regex>
 #include <dal/platform/platform.hpp>
 #include <dal/platform/strict.hpp>
 #include <dal/storage/splat.hpp>
@@ -372,9 +373,34 @@ namespace Dal {
             Handle_<Storable_>& Known(Archive::Built_& built) const override { return built.known_[Tag()]; }
         };
 
+        String_ Quoted(const String_& src) {
+            String_ ret_val("\"");
+            for (const char c : src) {
+                if (c == '"')
+                    ret_val.push_back(c);
+                ret_val.push_back(c);
+            }
+            ret_val.push_back('"');
+            return ret_val;
+        }
+
+        String_ Unquoted(const String_& src) {
+            String_ ret_val;
+            for (size_t i = 1; i + 1 < src.size(); ++i) {
+                ret_val.push_back(src[i]);
+                if (src[i] == '"')
+                    ++i;
+            }
+            return ret_val;
+        }
+
         Cell_ AsCell(const String_& content) {
+            static const std::regex DATE_PATTERN("\\d{4}-\\d{2}-\\d{2}");
+            static const std::regex DATE_TIME_PATTERN("\\d{4}-\\d{2}-\\d{2} \\d{2}:\\d{2}:\\d{2}");
             if (content.empty())
                 return Cell_();
+            else if (content.size() > 1 && content.front() == '"' && content.back() == '"')
+                return Cell_(Unquoted(content));
             else if (content.front() == '=' && content.back() == '=')
                 return Cell_(content.substr(1, content.size() - 2));
             else if (content == "TRUE")
@@ -387,9 +413,22 @@ namespace Dal {
                 if (!*e)
                     return Cell_(ret_val);
             }
+            if (std::regex_match(content, DATE_PATTERN))
+                return Cell_(Date::FromString(content));
+            if (std::regex_match(content, DATE_TIME_PATTERN))
+                return Cell_(DateTime::FromString(content));
             return Cell_(content);
         }
 
+        // the inverse of AsCell
+        String_ FileText(const Cell_& src) {
+            if (!std::holds_alternative<String_>(src.val_))
+                return Cell::CoerceToString(src);
+            const auto content = Cell::ToString(src);
+            const bool plain = content.find_first_of(",\"\r\n") == String_::npos && AsCell(content) == content;
+            return plain ? content : Quoted(content);
+        }
+
         Vector_<Cell_> SplitLine(const String_& line) {
             Vector_<Cell_> ret_val;
             auto start = line.begin();
@@ -409,8 +448,17 @@ namespace Dal {
         }
 
         Matrix_<Cell_> FileTable(const String_& file_name) {
+            Vector_<String_> src;
+            File::Read(file_name, &src);
             Vector_<String_> lines;
-            File::Read(file_name, &lines);
+            bool open = false; // a quoted string may contain newlines
+            for (const auto& s : src) {
+                if (open)
+                    lines.back() += '\n' + s;
+                else
+                    lines.push_back(s);
+                open = open != (std::count(s.begin(), s.end(), '"') % 2 != 0);
+            }
             Vector_<Vector_<Cell_>> data = Apply(AsFunctor(SplitLine), lines);
             int cols = 0;
             for (const auto& d : data)
@@ -434,7 +482,9 @@ namespace Dal {
     void SplatFile(const String_& file_name, const Storable_& src) {
         Matrix_<Cell_> mat = Splat(src);
         NOTE("Save object to local file");
-        Vector_<String_> ret = Cell::ToStringLines(mat);
+        Vector_<String_> ret;
+        for (int ir = 0; ir < mat.Rows(); ++ir)
+            ret.push_back(String::Accumulate(Apply(FileText, mat.Row(ir)), ",", false));
         File::Write(file_name, ret);
     }
 
diff --git a/dal/utilities/file.cpp b/dal/utilities/file.cpp
index 9fca279..491691d 100644
--- a/dal/utilities/file.cpp
+++ b/dal/utilities/file.cpp
@@ -17,7 +17,7 @@ namespace Dal::File {
         REQUIRE(src.is_open(), "can't open file '" + file_name + "' for reading");
         std::string line;
         while (std::getline(src, line))
-            dst->emplace_back(line.c_str());
+            dst->emplace_back(line);
         REQUIRE(src.eof() && !src.bad(), "can't read file '" + file_name + "' to the end");
     }
 
-- 
2.43.0


From ec1c0199857518b778286d59a41eb84375d054cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:19 +0000
Subject: [PATCH 44/73] fix: results of a simulation are found by name in
 copies too

---
 dal/script/simulation.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index 72213f4..0c8066b 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -24,15 +24,17 @@ namespace Dal::Script {
     struct SimResults_ {
         explicit SimResults_(const Vector_<String_>& names) : aggregated_(0.0), risks_(names.size(), 0.0), names_(names) {
             for(auto i = 0; i < names.size(); ++i)
-                results_[names[i]] = &risks_[i];
+                results_[names[i]] = i;
         }
         double aggregated_;
         Vector_<> risks_;
         Vector_<String_> names_;
-        std::map<String_, const double*> results_;
+        std::map<String_, size_t> results_; // position in risks_, so that it stays right in a copy
 
-        FORCE_INLINE double operator[](const String_& name) {
-            return *results_[name];
+        FORCE_INLINE double operator[](const String_& name) const {
+            const auto result = results_.find(name);
+            REQUIRE(result != results_.end(), "No result for '" + name + "'");
+            return risks_[result->second];
         }
     };
 
-- 
2.43.0


From 835b4722ccf0b4ed63681901c2918c61cc6461f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:54 +0000
Subject: [PATCH 45/73] fix: dates from March 2034 on were one day early

---
 dal/time/date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/time/date.cpp b/dal/time/date.cpp
index 2e944e0..ce39d71 100644
--- a/dal/time/date.cpp
+++ b/dal/time/date.cpp
@@ -30,7 +30,7 @@ namespace Dal {
             // based on Vogelpoel's port of now-lost pseudocode
             // ignore Excel bug around 29 Feb 1900 -- dates before then will be wrong
             return (1461 * (yy + (mm - 14) / 12)) / 4 + (367 * (mm - 2 - 12 * ((mm - 14) / 12))) / 12 -
-                   (3 * ((yy + 4900 + (mm - 14) / 12)) / 100) / 4 + dd - 693894;
+                   (3 * ((yy + 4900 + (mm - 14) / 12) / 100)) / 4 + dd - 693894;
         }
 
         uint16_t SerialFromYMD(int yy, int mm, int dd) {
-- 
2.43.0


From 6005347ab795ac271bb52d842b08aedd64a53762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:10 +0000
Subject: [PATCH 46/73] fix: a text that looks like a wrong time can be saved
 in a table file

---
 dal/storage/splat.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index 3f546fb..ca29887 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -394,9 +394,17 @@ namespace Dal {
             return ret_val;
         }
 
+        bool LooksLikeDate(const String_& content) {
+            static const std::regex PATTERN("\\d{4}-\\d{2}-\\d{2}");
+            return std::regex_match(content, PATTERN);
+        }
+
+        bool LooksLikeDateTime(const String_& content) {
+            static const std::regex PATTERN("\\d{4}-\\d{2}-\\d{2} \\d{2}:\\d{2}:\\d{2}");
+            return std::regex_match(content, PATTERN);
+        }
+
         Cell_ AsCell(const String_& content) {
-            static const std::regex DATE_PATTERN("\\d{4}-\\d{2}-\\d{2}");
-            static const std::regex DATE_TIME_PATTERN("\\d{4}-\\d{2}-\\d{2} \\d{2}:\\d{2}:\\d{2}");
             if (content.empty())
                 return Cell_();
             else if (content.size() > 1 && content.front() == '"' && content.back() == '"')
@@ -413,9 +421,9 @@ namespace Dal {
                 if (!*e)
                     return Cell_(ret_val);
             }
-            if (std::regex_match(content, DATE_PATTERN))
+            if (LooksLikeDate(content))
                 return Cell_(Date::FromString(content));
-            if (std::regex_match(content, DATE_TIME_PATTERN))
+            if (LooksLikeDateTime(content))
                 return Cell_(DateTime::FromString(content));
             return Cell_(content);
         }
@@ -425,7 +433,8 @@ namespace Dal {
             if (!std::holds_alternative<String_>(src.val_))
                 return Cell::CoerceToString(src);
             const auto content = Cell::ToString(src);
-            const bool plain = content.find_first_of(",\"\r\n") == String_::npos && AsCell(content) == content;
+            const bool plain = content.find_first_of(",\"\r\n") == String_::npos && !LooksLikeDate(content) &&
+                               !LooksLikeDateTime(content) && AsCell(content) == content;
             return plain ? content : Quoted(content);
         }
 
-- 
2.43.0


From 2a574734c97485551ba2f1318306177f08257ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:37 +0000
Subject: [PATCH 47/73] fix: a report with missing or inconsistent parts is
 refused, not read out of bounds

---
 dal/risk/report.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index a169500..7aa5074 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -30,6 +30,14 @@ namespace Dal {
 
         Storable_* Report_v1::Reader_::Build() const {
             const auto n = sizes_.size();
+            REQUIRE(axis_names_.size() == n, "Each axis must have a size");
+            REQUIRE(header_labels_.size() == n && header_values_.size() == n, "Each axis must have a header");
+            double n_vals = 1.0;
+            for (auto ii = 0; ii < n; ++ii) {
+                REQUIRE(header_labels_[ii].empty() || header_values_[ii].Rows() >= sizes_[ii], "Header has too few rows");
+                n_vals *= sizes_[ii];
+            }
+            REQUIRE(n_vals <= vals_.size(), "Report has too few values");
             Vector_<Report::Axis_> axes(n);
             for (auto ii = 0; ii < n; ++ii) {
                 axes[ii].size_ = sizes_[ii];
@@ -41,6 +49,7 @@ namespace Dal {
             // write in header values through the public interface
             for (auto jj = 0; jj < n; ++jj) {
                 const auto& vals = header_values_[jj];
+                REQUIRE(vals.Empty() || vals.Cols() == header_labels_[jj].size(), "Header must have a column for each label");
                 Vector_<Cell_> temp(header_labels_[jj].size());
                 for (int kr = 0; kr < vals.Rows(); ++kr) {
                     Copy(vals.Row(kr), &temp);
@@ -59,7 +68,8 @@ namespace Dal {
         for (const auto& a : axes) {
             NOTICE(a.name_);
             const int which = static_cast<int>(axes_.size()); // number which preceded it
-            REQUIRE(a.size_ > 0 || which == 0, "Zero size is not allowed");
+            REQUIRE(a.size_ > 0 || (a.size_ == 0 && which == 0), "Zero size is not allowed");
+            REQUIRE(!axes_.count(a.name_), "Duplicate axis");
             axes_[a.name_] = which;
             strides_ *= a.size_;
             strides_.push_back(1);
-- 
2.43.0


From 22dbc7fadd7e32c4a0af596eec373ab36faecaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:55 +0000
Subject: [PATCH 48/73] fix: text is written whole, also after a null character

---
 dal/string/strings.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/string/strings.hpp b/dal/string/strings.hpp
index ba1e663..471f52e 100644
--- a/dal/string/strings.hpp
+++ b/dal/string/strings.hpp
@@ -7,6 +7,7 @@
 #include <iostream>
 #include <numeric>
 #include <string>
+#include <string_view>
 #include <utility>
 #include <dal/platform/host.hpp>
 
@@ -87,7 +88,7 @@ namespace Dal {
     }
 
     inline std::ostream& operator<<(std::ostream& os, const String_& src) {
-        os << src.c_str();
+        os << std::string_view(src.data(), src.size()); // all of it, also after a null character
         return os;
     }
 
-- 
2.43.0


From 45b0f87483ff79fbb54c2ca9061a809cef2820e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:04 +0000
Subject: [PATCH 49/73] fix: an empty value at the edge of a table can be read

---
 dal/storage/splat.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index ca29887..f6786bb 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -246,8 +246,13 @@ namespace Dal {
             XUnSplat_(const Matrix_<Cell_>& data, int row_start, int row_stop, int col_start, bool quiet)
                 : data_(data), rowStart_(row_start), rowStop_(row_stop), colStart_(col_start), quiet_(quiet) {}
 
+            const Cell_& FirstCell() const {
+                static const Cell_ BLANK; // there may be nothing to the right of a child's name
+                return colStart_ < data_.Cols() ? data_(rowStart_, colStart_) : BLANK;
+            }
+
             String_ Type() const override {
-                const Cell_& c = data_(rowStart_, colStart_);
+                const Cell_& c = FirstCell();
                 if (auto p = std::get_if<String_>(&c.val_))
                     if (auto pt = p->find(OBJECT_PREFACE); pt != String_::npos)
                         return p->substr(pt + OBJECT_PREFACE.size());
@@ -255,7 +260,7 @@ namespace Dal {
             }
 
             String_ Tag() const {
-                const Cell_& c = data_(rowStart_, colStart_);
+                const Cell_& c = FirstCell();
                 if (auto p = std::get_if<String_>(&c.val_); p && p->substr(0, TAG_PREFACE.size()) == TAG_PREFACE)
                     return p->substr(0, p->find(OBJECT_PREFACE));
                 return {};
@@ -264,7 +269,7 @@ namespace Dal {
             const View_& Child(const String_& name) const override {
                 REQUIRE(!Type().empty(), "Can't be a empty view");
                 const auto nameCol = colStart_ + 1;
-                REQUIRE(nameCol + 1 < data_.Cols(), "Can't have a child");
+                REQUIRE(nameCol < data_.Cols(), "Can't have a child");
                 for (auto ir = rowStart_; ir < rowStop_; ++ir) {
                     if (data_(ir, nameCol) == name) {
                         auto jr = ir + 1;
@@ -295,9 +300,9 @@ namespace Dal {
 
             const Cell_& GetScalar() const {
                 REQUIRE(rowStop_ == rowStart_ + 1, "Can't get a scalar value from a multi-line entry");
-                REQUIRE(colStart_ == data_.Cols() - 1 || Cell::IsEmpty(data_(rowStart_, colStart_ + 1)),
+                REQUIRE(colStart_ >= data_.Cols() - 1 || Cell::IsEmpty(data_(rowStart_, colStart_ + 1)),
                         "Can't get a scalar value from a multi-row entry");
-                return data_(rowStart_, colStart_);
+                return FirstCell();
             }
 
             int AsInt() const override {
-- 
2.43.0


From 0b58cc2358bb7fed76aa5911d21d4fa912a04448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:12 +0000
Subject: [PATCH 50/73] fix: a piecewise linear function needs values for every
 knot

---
 dal/curve/piecewiselinear.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dal/curve/piecewiselinear.cpp b/dal/curve/piecewiselinear.cpp
index 869c32a..9dbd318 100644
--- a/dal/curve/piecewiselinear.cpp
+++ b/dal/curve/piecewiselinear.cpp
@@ -8,9 +8,12 @@
 #include <dal/curve/piecewiselinear.hpp>
 #include <dal/time/date.hpp>
 #include <dal/utilities/algorithms.hpp>
+#include <dal/utilities/exceptions.hpp>
 
 namespace Dal {
     Vector_<> PiecewiseLinear_::Sofar() const {
+        REQUIRE(knotDates_.size() == fLeft_.size() && knotDates_.size() == fRight_.size(),
+                "knots and values must have the same size");
         Vector_<> retval(1, 0.0);
         for (int ii = 1; ii < knotDates_.size(); ++ii) {
             const double dt = knotDates_[ii] - knotDates_[ii - 1];
-- 
2.43.0


From 421c4b312e19bab9eecf30296a7c8b10327ad0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:42 +0000
Subject: [PATCH 51/73] fix: an object without any content can be read from a
 table file

---
 dal/storage/splat.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index f6786bb..c5854ad 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -285,7 +285,8 @@ namespace Dal {
             bool HasChild(const String_& name) const override {
                 REQUIRE(!Type().empty(), "Can't be a empty view");
                 const auto nameCol = colStart_ + 1;
-                REQUIRE(nameCol < data_.Cols(), "Can't have a child");
+                if (nameCol >= data_.Cols())
+                    return false;
                 for (auto ir = rowStart_; ir < rowStop_; ++ir) {
                     if (data_(ir, nameCol) == name) {
                         return true;
-- 
2.43.0


From 5495b3fc73ecd945da621fe942f7e84256016941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:53 +0000
Subject: [PATCH 52/73] fix: text written while memory runs out is not handed
 out cut short

---
 dal/model/dupire.hpp  | 1 +
 public/src/script.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dal/model/dupire.hpp b/dal/model/dupire.hpp
index df31e24..aaf6c89 100644
--- a/dal/model/dupire.hpp
+++ b/dal/model/dupire.hpp
@@ -72,6 +72,7 @@ namespace Dal {
                 for (size_t i = 0; i < vols_.Rows(); ++i)
                     for (size_t j = 0; j < vols_.Cols(); ++j) {
                         std::ostringstream ost;
+                        ost.exceptions(std::ios::badbit); // a label is complete, or running out of memory is reported
                         ost << std::setprecision(2) << std::fixed;
                         ost << "lvol " << spots_[i] << " " << times_[j];
                         parameterLabels_[++p] = String_(ost.str());
diff --git a/public/src/script.hpp b/public/src/script.hpp
index 90480f0..a762ce3 100644
--- a/public/src/script.hpp
+++ b/public/src/script.hpp
@@ -18,6 +18,7 @@ namespace Dal {
 
     FORCE_INLINE String_ DebugScriptProduct(const Handle_<ScriptProductData_>& product) {
         std::ostringstream out;
+        out.exceptions(std::ios::badbit); // the description is complete, or running out of memory is reported
         product->Product().Debug(out);
         String_ rtn(out.str());
         REQUIRE2(rtn.size() != 0, "emtpy script product description", ScriptError_);
-- 
2.43.0


From 17b60e6ac56e0bb38a347fc55f1aef17869c6533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:19 +0000
Subject: [PATCH 53/73] fix: sensitivities to named constants are not lost when
 a product is compiled

The compiler folded named constants into plain ones, so that an adjoint
valuation of a compiled product reported zero for all of them.
---
 dal/script/node.hpp             | 2 +-
 dal/script/visitor/compiler.hpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/dal/script/node.hpp b/dal/script/node.hpp
index 75fd1b2..af833bb 100644
--- a/dal/script/node.hpp
+++ b/dal/script/node.hpp
@@ -107,8 +107,8 @@ namespace Dal::Script {
     };
 
     struct NodeConstVar_: public Visitable_<ExprNode_, NodeConstVar_, VISITORS> {
+        // not to be folded into other constants: it has a sensitivity
         explicit NodeConstVar_(String_ name, double val) : name_(std::move(name)), index_(-1) {
-            ExprNode_::isConst_ = true;
             ExprNode_::constVal_ = val;
         }
 
diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index e48d02a..778fb4d 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -300,8 +300,7 @@ namespace Dal::Script {
 
         void Visit(const NodeConstVar_& node) {
             nodeStream_.emplace_back(ConstVar);
-            nodeStream_.emplace_back(static_cast<int>(constStream_.size()));
-            constStream_.emplace_back(node.constVal_);
+            nodeStream_.emplace_back(node.index_);
         }
 
         void Visit(const NodeConst_& node) {
@@ -476,6 +475,9 @@ namespace Dal::Script {
                 ++i;
                 break;
             case ConstVar:
+                dStack.Push(state.constVariables_[nodeStream[++i]]);
+                ++i;
+                break;
             case Const:
                 dStack.Push(constStream[nodeStream[++i]]);
                 ++i;
-- 
2.43.0


From feec920347beb3eb519f9167ea0500c20567d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:25 +0000
Subject: [PATCH 54/73] fix: a Cholesky solve sizes its result, as QForm and
 the underdetermined search need

---
 dal/math/matrix/cholesky.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/math/matrix/cholesky.cpp b/dal/math/matrix/cholesky.cpp
index 75ab505..9e0e2cf 100644
--- a/dal/math/matrix/cholesky.cpp
+++ b/dal/math/matrix/cholesky.cpp
@@ -83,6 +83,7 @@ namespace Dal {
 
             void XSolve_af(const Vector_<>& b, Vector_<>* x) const override {
                 const int n = Size();
+                x->Resize(n);
                 for (int ii = 0; ii < n; ++ii) {
                     (*x)[ii] = b[ii] - std::inner_product(x->begin(), x->begin() + ii, lower_->Row(ii).begin(), 0.0);
                     (*x)[ii] *= (*lower_)(ii, ii);
-- 
2.43.0


From a2bc7971149f9229795289aac34a1f15a4be4446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:26 +0000
Subject: [PATCH 55/73] fix: the ACT/365L day count of an annual coupon ends
 its search for a leap day

---
 dal/time/daybasis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/time/daybasis.cpp b/dal/time/daybasis.cpp
index 21227bb..9c0606d 100644
--- a/dal/time/daybasis.cpp
+++ b/dal/time/daybasis.cpp
@@ -33,6 +33,7 @@ namespace Dal {
                     return 365.0;
                 if (Date::DaysInMonth(yy, 2) == 29)
                     return 366.0;
+                mm = 3; // go on to next February
             }
         }
 
-- 
2.43.0


From cfbdf803ac3a76b8081951dfb1a82de76ce4f6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:18 +0000
Subject: [PATCH 56/73] fix: replacing an object by name leaves other names
 that begin like its tag alone

The tag of an object named a is also the start of the tag of one named a~b, so
adding a replaced a~b, and asking for the global fixings of a gave those of a~b.
---
 dal/storage/_repository.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dal/storage/_repository.cpp b/dal/storage/_repository.cpp
index 3abc7a7..0fefcd9 100644
--- a/dal/storage/_repository.cpp
+++ b/dal/storage/_repository.cpp
@@ -29,10 +29,11 @@ namespace Dal {
         String_ Uniquifier(const Storable_& s) { return String::Uniquifier(&s); }
 
         // caller must hold the lock, and keeps the object it gives as 'keep'
-        void EraseByStart(const String_& start, std::map<String_, Handle_<Storable_>>::iterator keep) {
+        // another name may begin like this one's tag, so the start does not tell the name
+        void EraseByStart(const String_& start, std::map<String_, Handle_<Storable_>>::iterator keep, bool any_name) {
             auto po = TheObjects().lower_bound(start);
             while (po != TheObjects().end() && po->first.compare(0, start.size(), start) == 0) {
-                if (po == keep)
+                if (po == keep || !(any_name || po->second->name_ == keep->second->name_))
                     ++po;
                 else
                     TheObjects().erase(po++);
@@ -54,10 +55,10 @@ namespace Dal {
                 break;
             // else fall through
         case RepositoryErase_::Value_::NAME:
-            EraseByStart(untickered, added); // squash anything with this name
+            EraseByStart(untickered, added, false); // squash anything with this name
             break;
         case RepositoryErase_::Value_::TYPE:
-            EraseByStart(typeTag, added); // squash anything with this type
+            EraseByStart(typeTag, added, true); // squash anything with this type
             break;
         case RepositoryErase_::Value_::_NOT_SET:
         case RepositoryErase_::Value_::NONE:
@@ -129,8 +130,10 @@ namespace Dal {
                 Box_ dummy(GLOBAL_TAG + name, Matrix_<Cell_>());
                 String_ tagStart = BaseTag(dummy);
                 LOCK_OBJECTS;
-                auto po = TheObjects().lower_bound(tagStart);
-                if (po != TheObjects().end() && po->first.substr(0, tagStart.size()) == tagStart) {
+                for (auto po = TheObjects().lower_bound(tagStart);
+                     po != TheObjects().end() && po->first.compare(0, tagStart.size(), tagStart) == 0; ++po) {
+                    if (po->second->name_ != dummy.name_)
+                        continue; // another name, which begins like our tag
                     const Box_* box = dynamic_cast<const Box_*>(po->second.get());
                     REQUIRE(box, "Internal error, or global tag meddling");
                     return box->contents_;
-- 
2.43.0


From 0e8d9c4a071b49af6e9991cad9d1a310c9a92ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:06 +0000
Subject: [PATCH 57/73] fix: MIN and MAX of more than two arguments use all of
 them

The domain processor took every argument into account, the evaluators, the
constant folding and the compiled form only the first two, so that a product
was worth something else after it was simplified.
---
 dal/script/visitor/compiler.hpp       | 6 ++++++
 dal/script/visitor/constprocessor.hpp | 3 +++
 dal/script/visitor/evaluator.hpp      | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index 778fb4d..472d81c 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -184,6 +184,12 @@ namespace Dal::Script {
                     node.arguments_[1]->Accept(*this);
                     nodeStream_.emplace_back(IfBin);
                 }
+
+                // MIN and MAX may have more than two arguments
+                for (size_t i = 2; i < node.arguments_.size(); ++i) {
+                    node.arguments_[i]->Accept(*this);
+                    nodeStream_.emplace_back(IfBin);
+                }
             }
         }
 
diff --git a/dal/script/visitor/constprocessor.hpp b/dal/script/visitor/constprocessor.hpp
index c4f70b1..adbf859 100644
--- a/dal/script/visitor/constprocessor.hpp
+++ b/dal/script/visitor/constprocessor.hpp
@@ -64,6 +64,9 @@ namespace Dal::Script {
                 const double lhs = Downcast<ExprNode_>(node.arguments_[0])->constVal_;
                 const double rhs = Downcast<ExprNode_>(node.arguments_[1])->constVal_;
                 node.constVal_ = op(lhs, rhs);
+                // MIN and MAX may have more than two arguments
+                for (size_t i = 2; i < node.arguments_.size(); ++i)
+                    node.constVal_ = op(node.constVal_, Downcast<ExprNode_>(node.arguments_[i])->constVal_);
             }
         }
 
diff --git a/dal/script/visitor/evaluator.hpp b/dal/script/visitor/evaluator.hpp
index 5ba70b1..4e29b58 100644
--- a/dal/script/visitor/evaluator.hpp
+++ b/dal/script/visitor/evaluator.hpp
@@ -109,6 +109,12 @@ namespace Dal::Script {
             VisitNode(*node.arguments_[1]);
             op(dStack_[1], dStack_.Top());
             dStack_.Pop();
+            // MIN and MAX may have more than two arguments
+            for (size_t i = 2; i < node.arguments_.size(); ++i) {
+                VisitNode(*node.arguments_[i]);
+                op(dStack_[1], dStack_.Top());
+                dStack_.Pop();
+            }
         }
 
         FORCE_INLINE void Visit(const NodeAdd_& node) {
-- 
2.43.0


From d320a40b7fa7ac6ca4cf3339942fad3572841a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:15 +0000
Subject: [PATCH 58/73] fix: smoothed evaluation negates conditions

The fuzzy evaluator's visitor of NOT had another name and was never called:
a condition with != was evaluated as if it were =, and the sharp visitor
changed memory in front of an empty stack.
---
 dal/script/visitor/fuzzy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/fuzzy.hpp b/dal/script/visitor/fuzzy.hpp
index a5ed36d..eff808c 100644
--- a/dal/script/visitor/fuzzy.hpp
+++ b/dal/script/visitor/fuzzy.hpp
@@ -239,7 +239,7 @@ namespace Dal::Script {
         FORCE_INLINE void Visit(const NodeSupEqual_& node) { VisitComp(node); }
 
         // Negation
-        FORCE_INLINE void visitNot(const NodeNot_& node) {
+        FORCE_INLINE void Visit(const NodeNot_& node) {
             VisitNode(*node.arguments_[0]);
             fuzzyStack_.Top() = 1.0 - fuzzyStack_.Top();
         }
-- 
2.43.0


From ce4aeab134e1b25c24bdf2d61f6da726dc00708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:16 +0000
Subject: [PATCH 59/73] fix: payments of the past leave nothing on the
 evaluator's stack

A product with more than 128 payments behind it overran the stack.
---
 dal/script/visitor/pastevaluator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dal/script/visitor/pastevaluator.hpp b/dal/script/visitor/pastevaluator.hpp
index 52664cf..8c1aece 100644
--- a/dal/script/visitor/pastevaluator.hpp
+++ b/dal/script/visitor/pastevaluator.hpp
@@ -24,6 +24,9 @@ namespace Dal::Script {
         FORCE_INLINE void Visit(const NodePays_& node) {
             //	Visit the RHS expression
             VisitNode(*node.arguments_[1]);
+
+            //	What was paid is gone
+            dStack_.Pop();
         }
 
         FORCE_INLINE void Visit(const NodeSpot_&) {
-- 
2.43.0


From e2f3d113f6879c8fc9b6446ae946990ee5d5d7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:16 +0000
Subject: [PATCH 60/73] fix: scripts and schedules that are cut short or
 damaged are refused

The parsers read past the end of incomplete texts, dropped tokens in
parentheses, let scripts assign to constants (which overwrote a variable),
took no FIXING clause but the last, and a frequency of nought never ended.
---
 dal/script/event/schedule.cpp | 10 +++++++++-
 dal/script/parser.cpp         |  9 ++++-----
 dal/script/parser.hpp         |  2 ++
 dal/time/schedules.cpp        |  2 ++
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/dal/script/event/schedule.cpp b/dal/script/event/schedule.cpp
index 1317f63..4d0ee54 100644
--- a/dal/script/event/schedule.cpp
+++ b/dal/script/event/schedule.cpp
@@ -24,16 +24,22 @@ namespace Dal {
             BizDayConvention_ bizRule("Unadjusted");
             bool fixAtEnd = true;
 
-            for (; i < tokens.size() - 2; ++i) {
+            // a parameter is a name, a `:` and as many tokens as its value takes
+            auto has = [&](int n) { return static_cast<size_t>(i) + 1 + n < tokens.size(); };
+
+            for (; i < tokens.size(); ++i) {
+                REQUIRE2(has(1), "schedule is incomplete", ScriptError_);
                 REQUIRE2(tokens[i + 1] == ":", "schedule parameter name not followed by `:`", ScriptError_);
 
                 if (tokens[i] == "START") {
+                    REQUIRE2(has(5), "schedule is incomplete", ScriptError_);
                     String_ dt_str = std::accumulate(tokens.begin() + i + 2, tokens.begin() + i + 7,
                                                      String_(""),
                                                      [](const String_ &x, const String_ &y) { return x + y; });
                     startDate = Date::FromString(dt_str);
                     i += 6;
                 } else if (tokens[i] == "END") {
+                    REQUIRE2(has(5), "schedule is incomplete", ScriptError_);
                     String_ dt_str = std::accumulate(tokens.begin() + i + 2, tokens.begin() + i + 7,
                                                      String_(""),
                                                      [](const String_ &x, const String_ &y) { return x + y; });
@@ -55,10 +61,12 @@ namespace Dal {
                         fixAtEnd = true;
                     else
                         THROW("unknown token for fixing");
+                    i += 2;
                 } else
                     THROW2("unknown token", ScriptError_);
             }
 
+            REQUIRE2(startDate.IsValid() && endDate.IsValid() && tenor, "schedule needs its start, end and frequency", ScriptError_);
             Vector_<Date_> schedule = MakeSchedule(startDate,
                                                    Cell_(endDate),
                                                    holidays,
diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 4f34e63..ff7744c 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -243,7 +243,7 @@ namespace Dal::Script {
 
     void Parser_::ParseCondOptionals(TokIt_& cur, const TokIt_& end, double& eps) {
         eps = -1.0;
-        while (*cur == ";" || *cur == ":") {
+        while (cur != end && (*cur == ";" || *cur == ":")) {
             const char c = (*cur)[0];
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
@@ -254,7 +254,7 @@ namespace Dal::Script {
 
     double Parser_::ParseDCF(TokIt_& cur, const TokIt_& end) {
         // TODO: we assume `DCF` function won't contain another nested function
-        REQUIRE2((*cur)[0] == '(', "No opening ( following `DCF`", ScriptError_);
+        REQUIRE2(cur != end && (*cur)[0] == '(', "No opening ( following `DCF`", ScriptError_);
         auto closeIt = FindMatch<'(', ')'>(cur, end);
         ++cur;
 
@@ -265,7 +265,6 @@ namespace Dal::Script {
             day_basis += *cur;
             ++cur;
         }
-        ++cur;
         while (cur != closeIt && (*cur)[0] == ',')
             ++cur;
         REQUIRE2(cur != closeIt, "doesn't find `start` for `DCF", ScriptError_);
@@ -275,7 +274,6 @@ namespace Dal::Script {
             start_date += *cur;
             ++cur;
         }
-        ++cur;
         while (cur != closeIt && (*cur)[0] == ',')
             ++cur;
         REQUIRE2(cur != closeIt, "doesn't find `end` for `DCF", ScriptError_);
@@ -292,7 +290,7 @@ namespace Dal::Script {
     }
 
     Vector_<Expression_> Parser_::ParseFuncArg(TokIt_& cur, const TokIt_& end) {
-        REQUIRE2((*cur)[0] == '(', "No opening ( following function name", ScriptError_);
+        REQUIRE2(cur != end && (*cur)[0] == '(', "No opening ( following function name", ScriptError_);
         auto closeIt = FindMatch<'(', ')'>(cur, end);
 
         //	Parse expressions between parentheses
@@ -347,6 +345,7 @@ namespace Dal::Script {
     Statement_ Parser_::ParseStatement(TokIt_& cur, const TokIt_& end) {
         if (*cur == "IF")
             return ParseIf(cur, end);
+        REQUIRE2(constVariables_.find(*cur) == constVariables_.end(), String_("Constant ") + *cur + " can't be changed", ScriptError_);
         auto lhs = ParseVar(cur);
         REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
         if (*cur == "=")
diff --git a/dal/script/parser.hpp b/dal/script/parser.hpp
index 18b1a7f..56cb0f7 100644
--- a/dal/script/parser.hpp
+++ b/dal/script/parser.hpp
@@ -40,6 +40,7 @@ namespace Dal::Script {
         template <ParseFunc FuncOnMatch_, ParseFunc FuncOnNoMatch_>
         Expression_ ParseParentheses(TokIt_& cur, const TokIt_& end) {
             Expression_ tree;
+            REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
 
             // Do we have an opening "("?
             if( *cur == "(") {
@@ -49,6 +50,7 @@ namespace Dal::Script {
                 // Parse the parentheses condition/expression, including nested parentheses,
                 // by recursively calling the parent parseCond/parseExpr
                 tree = (this->*FuncOnMatch_)(++cur, closeIt);
+                REQUIRE2(cur == closeIt, "unexpected token before the closing )", ScriptError_);
 
                 // Advance cur after matching ")"
                 cur = ++closeIt;
diff --git a/dal/time/schedules.cpp b/dal/time/schedules.cpp
index 1f5040c..8797583 100644
--- a/dal/time/schedules.cpp
+++ b/dal/time/schedules.cpp
@@ -24,6 +24,7 @@ namespace Dal {
             ret_val.push_back(start);
             for (int ip = 1;; ++ip) {
                 const Date_ pin_date = tenor->FwdFrom(ret_val[ip - 1]);
+                REQUIRE(pin_date > ret_val[ip - 1], "schedule does not advance");
                 if (pin_date > maturity)
                     break;
                 ret_val.push_back(pin_date);
@@ -34,6 +35,7 @@ namespace Dal {
             ret_val.push_back(maturity);
             for (int ip = 1;; ++ip) {
                 const Date_ pin_date = tenor->BackFrom(ret_val[ip - 1]);
+                REQUIRE(pin_date < ret_val[ip - 1], "schedule does not advance");
                 if (pin_date < start)
                     break;
                 ret_val.push_back(pin_date);
-- 
2.43.0


From ce8e08d3547269a119fb773065374cf2cb2841d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:16 +0000
Subject: [PATCH 61/73] fix: enumerations refuse text that is not ASCII instead
 of reading outside a table

---
 dal/string/strings.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index facf29b..542ed13 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -34,6 +34,8 @@ namespace Dal::String {
         try {
             (void)ToDouble(src);
             return true;
+        } catch (const std::bad_alloc&) {
+            throw; // this says nothing about the text
         } catch (...) {
             return false;
         }
@@ -80,7 +82,7 @@ namespace Dal::String {
         String_ ret_val;
         for (const auto& c : src) {
             if (!IsFluff(c))
-                ret_val.push_back(static_cast<char>(toupper(static_cast<int>(c))));
+                ret_val.push_back(static_cast<char>(toupper(static_cast<unsigned char>(c))));
         }
         return ret_val;
     }
@@ -99,7 +101,7 @@ namespace Dal::String {
         auto p = lhs.begin();
         auto q = rhs;
         while (true) {
-            while (p != lhs.end() && SKIP[*p])
+            while (p != lhs.end() && SKIP[static_cast<unsigned char>(*p)])
                 ++p;
             if (!*q || p == lhs.end())
                 return !*q && p == lhs.end();
-- 
2.43.0


From c0f1eef23cf32e004d7a6cf10e5f3fcc4cb87c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:16 +0000
Subject: [PATCH 62/73] fix: an equity index name without its brackets is
 refused

---
 dal/indice/parser/equity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/indice/parser/equity.cpp b/dal/indice/parser/equity.cpp
index a085673..d10e799 100644
--- a/dal/indice/parser/equity.cpp
+++ b/dal/indice/parser/equity.cpp
@@ -12,6 +12,7 @@ namespace Dal::Index {
     Index_* EquityParser(const String_& name) {
         auto eq_start = name.find_first_of("[");
         auto eq_stop = name.find_first_of("]");
+        REQUIRE(eq_start != String_::npos && eq_stop != String_::npos && eq_start < eq_stop, "equity index pattern is not good");
 
         String_ eq_name = name.substr(eq_start + 1, eq_stop - eq_start - 1);
         auto tenor_start = name.find_first_of("@>", eq_stop + 1);
-- 
2.43.0


From 861d5b94a289e3581f534c950250ba128fb9a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:06 +0000
Subject: [PATCH 63/73] fix: texts that name no day are not read as another
 day, nor numbers with trailing letters

2024-02-30 was read as 1 March, 2024-13-01 as January 2025, a day outside the
range as the null date, and 10:2x as 10:02.
---
 dal/storage/json.cpp   |  2 +-
 dal/string/strings.cpp |  7 ++++++-
 dal/time/dateutils.cpp | 41 ++++++++++++++++++++++++++---------------
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index e662330..acfd534 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -242,7 +242,7 @@ namespace Dal {
                 return Cell_(doc.GetBool());
             if (doc.IsString()) {
                 const std::string src(doc.GetString(), doc.GetStringLength());
-                if (std::regex_match(src, DATE_PATTERN))
+                if (std::regex_match(src, DATE_PATTERN) && Date::IsDateString(String_(src)))
                     return Cell_(Date::FromString(String_(src)));
                 else if (std::regex_match(src, DATE_TIME_PATTERN))
                     return Cell_(DateTime::FromString(String_(src)));
diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index 542ed13..7e68704 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -41,7 +41,12 @@ namespace Dal::String {
         }
     }
 
-    int ToInt(const String_& src) { return std::stoi(src.c_str()); }
+    int ToInt(const String_& src) {
+        size_t idx;
+        const auto val = std::stoi(src.c_str(), &idx);
+        REQUIRE(idx == src.size(), "Not a valid integer string");
+        return val;
+    }
 
     double ToDouble(const String_& src) {
         size_t idx;
diff --git a/dal/time/dateutils.cpp b/dal/time/dateutils.cpp
index 3fc408f..1db175b 100644
--- a/dal/time/dateutils.cpp
+++ b/dal/time/dateutils.cpp
@@ -12,30 +12,41 @@
 namespace {
     const std::regex US_FORMAT("([0-9]+)/([0-9]+)/([0-9]+)");
     const std::regex YMD_FORMAT("([0-9]+)-([0-9]+)-([0-9]+)");
+
+    // false if the source is not in a date format, or names a day that is not in the calendar or not in our range
+    bool ReadDate(const Dal::String_& src, Dal::Date_* dst) {
+        std::match_results<Dal::String_::const_iterator> match;
+        const auto part = [&match](int i) { return std::strtol(match.str(i).c_str(), nullptr, 10); };
+        long yy, mm, dd;
+        if (std::regex_match(src, match, US_FORMAT)) {
+            mm = part(1);
+            dd = part(2);
+            yy = part(3) + (match.length(3) == 2 ? 2000 : 0);
+        } else if (std::regex_match(src, match, YMD_FORMAT)) {
+            yy = part(1);
+            mm = part(2);
+            dd = part(3);
+        } else
+            return false;
+        if (yy > 9999 || mm > 12 || dd > 31)
+            return false;
+        *dst = Dal::Date_(static_cast<int>(yy), static_cast<int>(mm), static_cast<int>(dd));
+        return Dal::Date::Year(*dst) == yy && Dal::Date::Month(*dst) == mm && Dal::Date::Day(*dst) == dd;
+    }
 } // namespace
 
 namespace Dal {
     bool Date::IsDateString(const String_& src) {
-        return std::regex_match(src, US_FORMAT) || std::regex_match(src, YMD_FORMAT);
+        Date_ ignored;
+        return ReadDate(src, &ignored);
     }
 
     Date_ Date::FromString(const String_& src) {
         NOTE("Reading date from string");
         NOTICE(src);
-        std::match_results<String_::const_iterator> match;
-        if (std::regex_match(src, match, US_FORMAT)) {
-            const int mm = String::ToInt(String_(match.str(1)));
-            const int dd = String::ToInt(String_(match.str(2)));
-            const int yy = String::ToInt(String_(match.str(3))) + (match.str(3).size() == 2 ? 2000 : 0);
-            return Date_(yy, mm, dd);
-        }
-        if (std::regex_match(src, match, YMD_FORMAT)) {
-            const int yyyy = String::ToInt(String_(match.str(1)));
-            const int mm = String::ToInt(String_(match.str(2)));
-            const int dd = String::ToInt(String_(match.str(3)));
-            return Date_(yyyy, mm, dd);
-        }
-        THROW("Unrecognizable date source");
+        Date_ ret_val;
+        REQUIRE(ReadDate(src, &ret_val), "Unrecognizable date source");
+        return ret_val;
     }
 
     int Date::MonthFromFutureCode(char code) {
-- 
2.43.0


From 9ea500f868d9f9683a4e2b5f0de6635c0f01d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:00 +0000
Subject: [PATCH 64/73] fix: index names with anything after the closing
 bracket that is no delivery are refused

---
 dal/indice/parser/equity.cpp | 4 ++--
 dal/indice/parser/fx.cpp     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dal/indice/parser/equity.cpp b/dal/indice/parser/equity.cpp
index d10e799..25be868 100644
--- a/dal/indice/parser/equity.cpp
+++ b/dal/indice/parser/equity.cpp
@@ -15,8 +15,8 @@ namespace Dal::Index {
         REQUIRE(eq_start != String_::npos && eq_stop != String_::npos && eq_start < eq_stop, "equity index pattern is not good");
 
         String_ eq_name = name.substr(eq_start + 1, eq_stop - eq_start - 1);
-        auto tenor_start = name.find_first_of("@>", eq_stop + 1);
-        if (tenor_start == String_::npos)
+        auto tenor_start = eq_stop + 1;
+        if (tenor_start == name.length())
             return new Equity_(eq_name, nullptr, nullptr);
         else if (name[tenor_start] == '@') {
             auto delivery_date = Date::FromString(name.substr(tenor_start + 1, name.length() - tenor_start - 1));
diff --git a/dal/indice/parser/fx.cpp b/dal/indice/parser/fx.cpp
index 3dbd85a..b75e0fb 100644
--- a/dal/indice/parser/fx.cpp
+++ b/dal/indice/parser/fx.cpp
@@ -12,7 +12,7 @@ namespace Dal::Index {
         auto fx_start = name.find_first_of("[");
         auto fx_stop = name.find_first_of("]");
         auto fx_sep = name.find_first_of("/");
-        REQUIRE(fx_start != String_::npos && fx_stop != String_::npos && fx_sep != String_::npos, "fx index pattern is not good");
+        REQUIRE(fx_start < fx_sep && fx_sep < fx_stop && fx_stop != String_::npos && fx_stop + 1 == name.length(), "fx index pattern is not good");
 
         String_ fgn = name.substr(fx_start + 1, fx_sep - fx_start - 1);
         String_ dom = name.substr(fx_sep + 1, fx_stop - fx_sep - 1);
-- 
2.43.0


From 8eddc77336683ff218bf4fd99fb2a03f6a24c81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 65/73] fix: a dictionary text may have entries without a
 value, as it is written

---
 dal/utilities/dictionary.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dal/utilities/dictionary.cpp b/dal/utilities/dictionary.cpp
index 2408eef..bef8838 100644
--- a/dal/utilities/dictionary.cpp
+++ b/dal/utilities/dictionary.cpp
@@ -55,10 +55,10 @@ namespace Dal {
         Vector_<String_> entries = String::Split(s, ';', false);
         Dictionary_ ret_val;
         for (const auto& kev : entries) {
-            Vector_<String_> kv = String::Split(kev, '=', true);
-            REQUIRE(kv.size() == 2, "Dictionary entry must have the form 'key=value'");
-            REQUIRE(!kv.front().empty(), "Empty dictionary key");
-            const String_& vs = kv.back();
+            const auto eq = kev.find('=');
+            REQUIRE(eq != String_::npos && kev.find('=', eq + 1) == String_::npos, "Dictionary entry must have the form 'key=value'");
+            REQUIRE(eq > 0, "Empty dictionary key");
+            const String_ vs = kev.substr(eq + 1);
             Cell_ value;
             if (String::IsNumber(vs))
                 value = String::ToDouble(vs);
@@ -68,7 +68,7 @@ namespace Dal {
                 value = DateTime::FromString(vs);
             else if (!vs.empty())
                 value = vs;
-            ret_val.Insert(kv.front(), value);
+            ret_val.Insert(kev.substr(0, eq), value);
         }
         return ret_val;
     }
-- 
2.43.0


From 0e054a9ce0af11bbb38d573c777590b6679e8f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:46 +0000
Subject: [PATCH 66/73] fix: a report refuses addresses outside its inner axes
 instead of mixing up its values

---
 dal/risk/report.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index 7aa5074..99f79e4 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -101,19 +101,25 @@ namespace Dal {
         return static_cast<int>(which > 0 ? strides_[which - 1] : vals_.size()) / strides_[which];
     }
 
+    namespace {
+        // only the first axis can be exceeded: an index past the end of another would be that of a different value
+        int Position(const Vector_<int>& locs, const Vector_<int>& strides) {
+            REQUIRE(locs.size() == strides.size(), "Address is not one of this report");
+            for (int ii = 0; ii < locs.size(); ++ii)
+                REQUIRE(locs[ii] >= 0 && (ii == 0 || locs[ii] < strides[ii - 1] / strides[ii]), "Invalid index into report");
+            return InnerProduct(locs, strides);
+        }
+    } // namespace
+
     double& Report_::operator[](const Report::Address_& loc) {
-        assert(*MinElement(loc.locs_) >= 0);
-        const int which = InnerProduct(loc.locs_, strides_);
-        if (which >= vals_.size()) {
+        const int which = Position(loc.locs_, strides_);
+        if (which >= vals_.size())
             vals_.resize((loc.locs_[0] + 1) * strides_[0]); // make it big enough by extending the first axis only
-            REQUIRE(which < vals_.size(), "Invalid index into report");
-        }
         return vals_[which];
     }
 
     const double& Report_::operator[](const Report::Address_& loc) const {
-        assert(*MinElement(loc.locs_) >= 0);
-        const int which = InnerProduct(loc.locs_, strides_);
+        const int which = Position(loc.locs_, strides_);
         REQUIRE(which < vals_.size(), "Invalid index into const report");
         return vals_[which];
     }
-- 
2.43.0


From b5b76d15ee56af7caaf4864f26f845737fe2d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:46 +0000
Subject: [PATCH 67/73] fix: banded symmetric matrices are recognised, factored
 and solved inside their bounds

---
 dal/math/matrix/banded.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dal/math/matrix/banded.cpp b/dal/math/matrix/banded.cpp
index 61f0307..31027ad 100644
--- a/dal/math/matrix/banded.cpp
+++ b/dal/math/matrix/banded.cpp
@@ -185,7 +185,7 @@ namespace Dal {
             x->Resize(n);
             for (int ii = n - 1; ii >= 0; --ii) {
                 double residual = b[ii];
-                for (int jj = max(n - 1, ii + val.nBelow_); jj > ii; --jj)
+                for (int jj = min(n - 1, ii + val.nBelow_); jj > ii; --jj)
                     residual -= (*x)[jj] * val(jj, ii);
                 REQUIRE(!IsZero(val(ii, ii)), "Overflow in banded L-solve");
                 (*x)[ii] = residual / val(ii, ii);
@@ -197,7 +197,7 @@ namespace Dal {
             BandElements_ val_;
 
         public:
-            explicit BandedCholesky_(const BandElements_& llt) : val_(llt.view_.Rows(), llt.nBelow_, 0) {
+            explicit BandedCholesky_(const BandElements_& llt) : val_(llt.view_.Rows(), 0, llt.nBelow_) {
                 static const double SMALL = 1.0e-11;
                 REQUIRE(llt.view_.Cols() == 2 * llt.nBelow_ + 1, "Cols should be 2 * n_below + 1");
                 const int n = llt.view_.Rows();
@@ -283,7 +283,7 @@ namespace Dal {
                 const int n = Size();
                 const int width = max(val_.nBelow_, val_.view_.Cols() - val_.nBelow_ - 1);
                 for (int ii = 0; ii < n; ++ii) {
-                    for (int jj = max(0, ii - width); jj <= max(n - 1, ii + width); ++jj)
+                    for (int jj = max(0, ii - width); jj <= min(n - 1, ii + width); ++jj)
                         if (!IsZero(val_(ii, jj) - val_(jj, ii)))
                             return false;
                 }
-- 
2.43.0


From 78e5ec221b03921a55f6833604324cbe54028b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:46 +0000
Subject: [PATCH 68/73] fix: a sparse matrix can be deleted through its base
 class

---
 dal/math/matrix/sparse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/math/matrix/sparse.hpp b/dal/math/matrix/sparse.hpp
index fb3d90a..d46f18d 100644
--- a/dal/math/matrix/sparse.hpp
+++ b/dal/math/matrix/sparse.hpp
@@ -16,6 +16,7 @@ namespace Dal::Sparse {
 
     class Square_ : noncopyable {
     public:
+        virtual ~Square_() = default;
         [[nodiscard]] virtual int Size() const = 0;
         virtual void MultiplyLeft(const Vector_<>& x, Vector_<>* b) const = 0;
         virtual void MultiplyRight(const Vector_<>& x, Vector_<>* b) const = 0;
-- 
2.43.0


From 1f2d6c53c1f57c4a8e9dfeef79a7d0f2bc0a278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:46 +0000
Subject: [PATCH 69/73] fix: a concentrating mesh no longer leaks an unused
 interpolator

---
 dal/math/pde/meshers/concentrating1dmesher.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dal/math/pde/meshers/concentrating1dmesher.cpp b/dal/math/pde/meshers/concentrating1dmesher.cpp
index feb5994..72efa55 100644
--- a/dal/math/pde/meshers/concentrating1dmesher.cpp
+++ b/dal/math/pde/meshers/concentrating1dmesher.cpp
@@ -37,7 +37,6 @@ namespace Dal {
             u.push_back(1.0);
             z.push_back(1.0);
 
-            Interp::NewLinear("intep", u, z);
             transform = std::shared_ptr<Interp1_>(Interp::NewLinear("intep", u, z));
         }
 
-- 
2.43.0


From 250f05738e239fd6680099117e88921dd1612dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:46 +0000
Subject: [PATCH 70/73] fix: a table view's child is not lost when the list of
 children cannot grow

---
 dal/storage/splat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index c5854ad..2ff4e34 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -275,7 +275,7 @@ namespace Dal {
                         auto jr = ir + 1;
                         while (jr < rowStop_ && Cell::IsEmpty(data_(jr, nameCol)))
                             ++jr;
-                        children_.emplace_back(new XUnSplat_(data_, ir, jr, nameCol + 1, quiet_));
+                        children_.push_back(std::make_shared<XUnSplat_>(data_, ir, jr, nameCol + 1, quiet_));
                         return *children_.back();
                     }
                 }
-- 
2.43.0


From 79a8ffafc290f69b71dcd53aeb24ec859c0966ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:46 +0000
Subject: [PATCH 71/73] fix: cloning a Brownian bridge does not lose the
 generator when memory runs out

---
 dal/math/random/brownianbridge.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/random/brownianbridge.hpp b/dal/math/random/brownianbridge.hpp
index fbd494a..d96601c 100644
--- a/dal/math/random/brownianbridge.hpp
+++ b/dal/math/random/brownianbridge.hpp
@@ -35,8 +35,8 @@ namespace Dal {
         }
 
         [[nodiscard]] Random_* Clone() const override {
-            Random_* rsg = rsg_->Clone();
-            return new BrownianBridge_(std::move(std::unique_ptr<Random_>(rsg)));
+            std::unique_ptr<Random_> rsg(rsg_->Clone());
+            return new BrownianBridge_(std::move(rsg));
         }
 
         [[nodiscard]] size_t NDim() const override {
-- 
2.43.0


From 1792b03fc382fe6a17d0eedde527df9ac99edc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:46 +0000
Subject: [PATCH 72/73] fix: a table format's part is not lost when the list of
 parts cannot grow

---
 dal/math/matrix/matrixutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/matrix/matrixutils.cpp b/dal/math/matrix/matrixutils.cpp
index c7029c4..4eb9374 100644
--- a/dal/math/matrix/matrixutils.cpp
+++ b/dal/math/matrix/matrixutils.cpp
@@ -223,7 +223,7 @@ namespace Dal {
                 return nullptr;
             std::unique_ptr<multiple_t> ret_val(make_multiple());
             for (const auto& s : subs)
-                ret_val->elements_.emplace_back(NewWriter(s));
+                ret_val->elements_.push_back(Handle_<Writer_>(NewWriter(s)));
             return ret_val.release();
         }
 
-- 
2.43.0


From e5e7fe00f31654c9cf9a2fe274faa3864a04badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:46 +0000
Subject: [PATCH 73/73] fix: the notes of a thread that raised an error go with
 the thread

---
 dal/utilities/exceptions.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dal/utilities/exceptions.cpp b/dal/utilities/exceptions.cpp
index 3e56043..64b028d 100644
--- a/dal/utilities/exceptions.cpp
+++ b/dal/utilities/exceptions.cpp
@@ -62,14 +62,12 @@ namespace Dal {
 
             /* less-efficient implementation, used here to avoid boost link dependency */
             Vector_<XStackInfo_>* XTheStack(bool free_if_empty = false) {
-                thread_local static Vector_<XStackInfo_>* INSTANCE = nullptr;
+                thread_local static std::unique_ptr<Vector_<XStackInfo_>> INSTANCE; // goes with its thread, whatever is left
                 if (!INSTANCE)
-                    INSTANCE = new Vector_<XStackInfo_>;
-                else if (free_if_empty && INSTANCE->empty()) {
-                    delete INSTANCE;
-                    return INSTANCE = nullptr;
-                }
-                return INSTANCE;
+                    INSTANCE.reset(new Vector_<XStackInfo_>);
+                else if (free_if_empty && INSTANCE->empty())
+                    INSTANCE.reset();
+                return INSTANCE.get();
             }
 
             Vector_<XStackInfo_>& TheStack() { return *XTheStack(); }
-- 
2.43.0

