From 735121713c101fe3bf5337ca6229f3ab7e489387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 01/23] fix: atomic_partitioner hands out the whole range when
 it does not start at 0

---
 include/oqpi/parallel_algorithms/atomic_partitioner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/parallel_algorithms/atomic_partitioner.hpp b/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
index 1263cc9..417312f 100644
--- a/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
+++ b/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
@@ -46,7 +46,7 @@ namespace oqpi {
                 // Get a copy of where we're at in the array
                 auto expectedIndex = sharedIndex_.load();
                 // Compute how many indices we could grab
-                const auto count = std::min<int32_t>(elementCount_ - expectedIndex, indicesToGrab_);
+                const auto count = std::min<int32_t>(lastIndex_ - expectedIndex, indicesToGrab_);
                 if (count > 0)
                 {
                     // There's still something to grab, try to do it, by being the one to increment the shared index.
-- 
2.43.0


From ee197cac9a8aa036f86fd6aef01b1d743fba0350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 02/23] fix: posix_semaphore::waitFor returns its result

---
 include/oqpi/synchronization/posix/posix_semaphore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore.hpp b/include/oqpi/synchronization/posix/posix_semaphore.hpp
index 4d840dc..891c866 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore.hpp
@@ -91,7 +91,7 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         bool waitFor(const std::chrono::duration<_Rep, _Period> &relTime)
         {
-            sem_.waitFor(relTime);
+            return sem_.waitFor(relTime);
         }
 
     private:
-- 
2.43.0


From ce7fe85bf684c69d1057bc2e0991e7a983b2c9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 03/23] fix: timed waits keep the nanoseconds of their deadline
 in range

---
 .../posix/posix_semaphore_wrapper.hpp               | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 7008dad..5043b1e 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -131,6 +131,19 @@ namespace oqpi {
             t.tv_sec            += secs.count();
             t.tv_nsec           += nanoseconds.count();
 
+            // tv_nsec has to stay in [0, 1s[
+            constexpr auto nsPerSec = 1000000000l;
+            if (t.tv_nsec >= nsPerSec)
+            {
+                t.tv_sec    += 1;
+                t.tv_nsec   -= nsPerSec;
+            }
+            else if (t.tv_nsec < 0)
+            {
+                t.tv_sec    -= 1;
+                t.tv_nsec   += nsPerSec;
+            }
+
             const auto error    = sem_timedwait(handle_, &t);
             if(error == -1 && errno != ETIMEDOUT)
             {
-- 
2.43.0


From 5441fee6a414681aad64a19017c5742e43f80269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 04/23] fix: waits interrupted by a signal handler are resumed

---
 .../posix/posix_semaphore_wrapper.hpp             | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 5043b1e..fbafed0 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -106,7 +106,12 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool wait()
         {
-            const auto error = sem_wait(handle_);
+            auto error = 0;
+            do
+            {
+                error = sem_wait(handle_);
+            } while (error == -1 && errno == EINTR);
+
             if (error == -1)
             {
                 oqpi_error("sem_wait failed with error code %d", errno);
@@ -144,7 +149,13 @@ namespace oqpi {
                 t.tv_nsec   += nsPerSec;
             }
 
-            const auto error    = sem_timedwait(handle_, &t);
+            auto error = 0;
+            do
+            {
+                // The deadline is absolute
+                error = sem_timedwait(handle_, &t);
+            } while (error == -1 && errno == EINTR);
+
             if(error == -1 && errno != ETIMEDOUT)
             {
                 oqpi_error("sem_timedwait failed with error code %d", errno);
-- 
2.43.0


From 50c28dac95f7fbc0d8e5e21334473692cb0244e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 05/23] fix: move assigning over a valid semaphore takes over
 the source

---
 .../oqpi/synchronization/posix/posix_semaphore_wrapper.hpp    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index fbafed0..2fdc714 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -57,8 +57,10 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         posix_semaphore_wrapper &operator =(posix_semaphore_wrapper &&rhs)
         {
-            if (this != &rhs && !isValid())
+            if (this != &rhs)
             {
+                release();
+
                 handle_     = rhs.handle_;
                 name_       = rhs.name_;
                 rhs.handle_ = nullptr;
-- 
2.43.0


From ba6c4131f69dae02259fdecf6d9e2a4b2a3fcfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 06/23] fix: notifying a signalled event has no further effect

---
 include/oqpi/synchronization/posix/posix_event.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_event.hpp b/include/oqpi/synchronization/posix/posix_event.hpp
index 3485d70..4194d85 100644
--- a/include/oqpi/synchronization/posix/posix_event.hpp
+++ b/include/oqpi/synchronization/posix/posix_event.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <atomic>
 #include <limits.h>
 
 #include "oqpi/platform.hpp"
@@ -70,7 +71,13 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         void notify()
         {
-            sem_.post();
+            // What the caller did so far must be visible to whoever consumes the current signal
+            std::atomic_thread_fence(std::memory_order_seq_cst);
+            // An event is either signaled or not, notifying a signaled event has no effect
+            if (sem_.getValue() < 1)
+            {
+                sem_.post();
+            }
         }
 
         //------------------------------------------------------------------------------------------
-- 
2.43.0


From eb500cba765e9bc0950931cb1d60b606ef8cae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 07/23] fix: resetting an event never blocks

---
 include/oqpi/synchronization/posix/posix_event.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_event.hpp b/include/oqpi/synchronization/posix/posix_event.hpp
index 4194d85..df32145 100644
--- a/include/oqpi/synchronization/posix/posix_event.hpp
+++ b/include/oqpi/synchronization/posix/posix_event.hpp
@@ -147,19 +147,9 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         void reset(posix_semaphore_wrapper &sem)
         {
-            auto semValue = sem.getValue();
-
             // Decrement internal counter to 0. Event is unsignaled.
-            while (semValue != 0)
-            {
-                if (!sem.wait())
-                {
-                    oqpi_error("Was not able to reset event.");
-                    break;
-                }
-
-                semValue = sem.getValue();
-            }
+            // Somebody else can decrement it in the meantime, so don't block.
+            while (sem.tryWait());
         }
     };
 
-- 
2.43.0


From 0c1c22ea2dd3d946ac484a6574214187dc1eeaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 08/23] fix: parallel groups limited to one simultaneous task
 run one task at a time

---
 include/oqpi/scheduling/parallel_group.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/oqpi/scheduling/parallel_group.hpp b/include/oqpi/scheduling/parallel_group.hpp
index 8ae89c8..33d8e24 100644
--- a/include/oqpi/scheduling/parallel_group.hpp
+++ b/include/oqpi/scheduling/parallel_group.hpp
@@ -92,15 +92,13 @@ namespace oqpi {
                 size_t i = 0;
                 int32_t scheduledTasks = 0;
 
-                while ((i = currentTaskIndex_.fetch_add(1)) < taskCount)
+                while ((maxSimultaneousTasks_ <= 0 || scheduledTasks < maxSimultaneousTasks_-1)
+                    && (i = currentTaskIndex_.fetch_add(1)) < taskCount)
                 {
                     if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
                     {
                         this->scheduler_.add(tasks_[i]);
-                        if (maxSimultaneousTasks_ > 0 && ++scheduledTasks >= maxSimultaneousTasks_-1)
-                        {
-                            break;
-                        }
+                        ++scheduledTasks;
                     }
                 }
 
-- 
2.43.0


From c07db3f8dce4ac060064e7893f4e147f3ff62c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 09/23] fix: stopping the scheduler neither crashes nor drops a
 task a worker took

---
 include/oqpi/scheduling/scheduler.hpp | 10 ++++++----
 include/oqpi/scheduling/worker.hpp    | 21 +++++++++------------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index e2839df..90b95b8 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -113,13 +113,15 @@ namespace oqpi {
         // Stops the workers and waits on them
         void stop()
         {
-            running_.store(false);
-
+            // Workers have to be flagged first: a worker that comes back without a task because the
+            // scheduler isn't running anymore expects to be stopped
             for (auto &upWorker : workers_)
             {
                 upWorker->stop();
             }
 
+            running_.store(false);
+
             wakeUpAllWorkers();
 
             for (auto &upWorker : workers_)
@@ -287,8 +289,8 @@ namespace oqpi {
                 // Grab the next task
                 task_handle hTask = waitForNextTask(w);
 
-                // We could have been waken up to stop
-                if (!running_.load())
+                // We could have been waken up to stop, but a task that has been grabbed has to be executed
+                if (!hTask.isValid())
                 {
                     return;
                 }
diff --git a/include/oqpi/scheduling/worker.hpp b/include/oqpi/scheduling/worker.hpp
index cee6369..c89c314 100644
--- a/include/oqpi/scheduling/worker.hpp
+++ b/include/oqpi/scheduling/worker.hpp
@@ -107,19 +107,16 @@ namespace oqpi {
                 _WorkerContext::worker_onActive();
 
                 // Check if we've waken up to work on a new task
-                if (isRunning())
+                if (worker_base::hTask_.isValid())
                 {
-                    if (oqpi_ensure(worker_base::hTask_.isValid()))
-                    {
-                        // Inform the context that we're about to start the execution of a new task
-                        _WorkerContext::worker_onPreExecute(worker_base::hTask_);
-                        // Actually execute the task
-                        worker_base::hTask_.execute();
-                        // Inform the context that we just finished the execution of a task
-                        _WorkerContext::worker_onPostExecute(worker_base::hTask_);
-                        // Reset the task, can potentially free the memory if there's no more reference to that task
-                        worker_base::hTask_.reset();
-                    }
+                    // Inform the context that we're about to start the execution of a new task
+                    _WorkerContext::worker_onPreExecute(worker_base::hTask_);
+                    // Actually execute the task
+                    worker_base::hTask_.execute();
+                    // Inform the context that we just finished the execution of a task
+                    _WorkerContext::worker_onPostExecute(worker_base::hTask_);
+                    // Reset the task, can potentially free the memory if there's no more reference to that task
+                    worker_base::hTask_.reset();
                 }
             }
 
-- 
2.43.0


From 10535d687b2a798d7de88528068bda836d6786c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 10/23] fix: this_thread::sleep_for sleeps for the whole
 duration

---
 include/oqpi/threading/posix_thread.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index ebf615a..e31ba0c 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cerrno>
 #include <chrono>
+#include <ctime>
 #include <pthread.h>
 #include <unistd.h>
 #include <math.h>
@@ -403,7 +405,15 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         inline void sleep_for(const std::chrono::duration<_Rep, _Period>& relTime)
         {
-            pthread_sleep(std::chrono::duration_cast<std::chrono::milliseconds>(relTime).count());
+            const auto nanoseconds = std::chrono::duration_cast<std::chrono::nanoseconds>(relTime).count();
+            if (nanoseconds > 0)
+            {
+                auto t      = timespec{};
+                t.tv_sec    = nanoseconds / 1000000000;
+                t.tv_nsec   = nanoseconds % 1000000000;
+                // Sleep for the remaining time if interrupted by a signal handler
+                while (nanosleep(&t, &t) == -1 && errno == EINTR);
+            }
         }
         //------------------------------------------------------------------------------------------
         inline uint32_t get_current_core()
-- 
2.43.0


From c45160cfdfc96a1807bb4df1c340b6f58057a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 11/23] fix: concurrent_queue::empty is synchronized

---
 include/oqpi/concurrent_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/concurrent_queue.hpp b/include/oqpi/concurrent_queue.hpp
index f4071bd..6575175 100644
--- a/include/oqpi/concurrent_queue.hpp
+++ b/include/oqpi/concurrent_queue.hpp
@@ -35,10 +35,11 @@ public:
 
     bool empty() const
     {
+        lock_t __l(mutex_);
         return queue_.empty();
     }
 
 private:
-    std::mutex      mutex_;
+    mutable std::mutex mutex_;
     std::queue<T>   queue_;
 };
-- 
2.43.0


From 16c053b37825af8992d9775175893f768de19b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 12/23] fix: a thread that could not be created is not joinable

---
 include/oqpi/threading/posix_thread.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index e31ba0c..5fce554 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -149,15 +149,17 @@ namespace oqpi {
 
             error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);
 
-            if(error != 0)
+            if(pThreadAttr != nullptr)
             {
-                oqpi_error("pthread_create failed with error number: %d", error);
-                return false;
+                pthread_attr_destroy(pThreadAttr);
             }
 
-            if(pThreadAttr != nullptr)
+            if(error != 0)
             {
-                pthread_attr_destroy(pThreadAttr);
+                // The content of the handle is undefined
+                handle_ = 0;
+                oqpi_error("pthread_create failed with error number: %d", error);
+                return false;
             }
 
             setCoreAffinityMask(attributes.coreAffinityMask_);
-- 
2.43.0


From 9ac36a23a9529fe54e1de25ccbf211d003453b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 13/23] fix: named semaphores are removed by their creator only
 and opening never creates them

---
 .../posix/posix_semaphore_wrapper.hpp         | 60 ++++++++++++-------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 2fdc714..70f0049 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -15,12 +15,14 @@ namespace oqpi {
         posix_semaphore_wrapper()
             : handle_(nullptr)
             , name_()
+            , isCreator_(false)
         {}
 
         //------------------------------------------------------------------------------------------
         posix_semaphore_wrapper(const std::string &name, sync_object_creation_options creationOption, int32_t initCount)
             : handle_(nullptr)
             , name_(name.empty() ? "" : "/" + name)
+            , isCreator_(false)
         {
             const auto isLocalSyncObject = name_.empty();
             if (isLocalSyncObject && creationOption != sync_object_creation_options::open_existing)
@@ -50,8 +52,10 @@ namespace oqpi {
         posix_semaphore_wrapper(posix_semaphore_wrapper &&other)
             : handle_(other.handle_)
             , name_(other.name_)
+            , isCreator_(other.isCreator_)
         {
-            other.handle_ = nullptr;
+            other.handle_       = nullptr;
+            other.isCreator_    = false;
         }
 
         //------------------------------------------------------------------------------------------
@@ -61,9 +65,11 @@ namespace oqpi {
             {
                 release();
 
-                handle_     = rhs.handle_;
-                name_       = rhs.name_;
-                rhs.handle_ = nullptr;
+                handle_         = rhs.handle_;
+                name_           = rhs.name_;
+                isCreator_      = rhs.isCreator_;
+                rhs.handle_     = nullptr;
+                rhs.isCreator_  = false;
             }
             return (*this);
         }
@@ -202,27 +208,31 @@ namespace oqpi {
                 return false;
             }
 
-            // If both O_CREAT and O_EXCL are specified, then an error is returned if a semaphore with the given
-            // name already exists. Otherwise it creates it.
-            handle_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
-
-            if (handle_ != SEM_FAILED && creationOption == sync_object_creation_options::open_existing)
+            do
             {
-                // We've created a semaphore even though given the open_existing creation option.
-                oqpi_error("Trying to open an existing semaphore that doesn't exist.");
-                return false;
-            }
+                // Create a semaphore
+                if (creationOption != sync_object_creation_options::open_existing)
+                {
+                    // If both O_CREAT and O_EXCL are specified, then an error is returned if a semaphore with the
+                    // given name already exists. Otherwise it creates it.
+                    handle_     = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
+                    isCreator_  = (handle_ != SEM_FAILED);
+                }
 
-            // Open a semaphore
-            if (handle_ == SEM_FAILED &&
-                (creationOption == sync_object_creation_options::open_existing
-                    || creationOption == sync_object_creation_options::open_or_create))
-            {
-                handle_ = sem_open(name_.c_str(), O_CREAT, S_IRUSR | S_IWUSR, 0);
-            }
+                // Open a semaphore
+                if (!isCreator_ && (creationOption == sync_object_creation_options::open_existing
+                    || (creationOption == sync_object_creation_options::open_or_create && errno == EEXIST)))
+                {
+                    handle_ = sem_open(name_.c_str(), 0);
+                }
+
+                // The semaphore can be removed between the attempts to create it and to open it, so try again.
+            } while (handle_ == SEM_FAILED && errno == ENOENT
+                && creationOption == sync_object_creation_options::open_or_create);
 
             if (handle_ == SEM_FAILED)
             {
+                handle_ = nullptr;
                 oqpi_error("sem_open failed with error %d", errno);
                 return false;
             }
@@ -269,7 +279,12 @@ namespace oqpi {
         void releaseGlobalSemaphore()
         {
             sem_close(handle_);
-            sem_unlink(name_.c_str());
+            // The name belongs to the object that created the semaphore
+            if (isCreator_)
+            {
+                sem_unlink(name_.c_str());
+                isCreator_ = false;
+            }
         }
 
 
@@ -285,6 +300,9 @@ namespace oqpi {
         sem_t       *handle_;
         //------------------------------------------------------------------------------------------
         std::string name_;
+        //------------------------------------------------------------------------------------------
+        // Whether this object created the named semaphore
+        bool        isCreator_;
     };
 
 } /*oqpi*/
-- 
2.43.0


From 9c65c18fed4b625cab378fa174440ea33530fa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 14/23] fix: the parent group of a task can be read while the
 task completes

---
 include/oqpi/scheduling/scheduler.hpp       | 12 +++++++-----
 include/oqpi/scheduling/task_base.hpp       |  7 ++++---
 include/oqpi/scheduling/task_group_base.hpp |  2 +-
 include/oqpi/scheduling/task_handle.hpp     |  2 +-
 4 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index 90b95b8..a9a48e2 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -210,17 +210,19 @@ namespace oqpi {
 
             if (priority == task_priority::inherit)
             {
-                auto pParentGroup = hTask.getParentGroup().get();
+                auto spParentGroup = hTask.getParentGroup();
                 do 
                 {
-                    if (oqpi_failedf(pParentGroup != nullptr, "One parent group is invalid for this task: %d", hTask.getUID()))
+                    if (spParentGroup == nullptr)
                     {
-                         priority = task_priority::normal;
+                        // Parent groups are released when somebody else completes the task in the meantime
+                        oqpi_checkf(hTask.isGrabbed() || hTask.isDone(), "One parent group is invalid for this task: %d", int(hTask.getUID()));
+                        priority = task_priority::normal;
                         break;
                     }
 
-                    priority     = pParentGroup->getPriority();
-                    pParentGroup = pParentGroup->getParentGroup().get();
+                    priority      = spParentGroup->getPriority();
+                    spParentGroup = spParentGroup->getParentGroup();
 
                 } while (priority == task_priority::inherit);
             }
diff --git a/include/oqpi/scheduling/task_base.hpp b/include/oqpi/scheduling/task_base.hpp
index 69f16f8..8a84594 100644
--- a/include/oqpi/scheduling/task_base.hpp
+++ b/include/oqpi/scheduling/task_base.hpp
@@ -92,13 +92,14 @@ namespace oqpi {
 
         inline void setParentGroup(const task_group_sptr &spParentGroup)
         {
-            spParentGroup_ = spParentGroup;
+            std::atomic_store(&spParentGroup_, spParentGroup);
             onParentGroupSet();
         }
 
-        inline const task_group_sptr& getParentGroup() const
+        // The parent group is released once the task is done, possibly by another thread
+        inline task_group_sptr getParentGroup() const
         {
-            return spParentGroup_;
+            return std::atomic_load(&spParentGroup_);
         }
 
         inline task_priority getPriority() const
diff --git a/include/oqpi/scheduling/task_group_base.hpp b/include/oqpi/scheduling/task_group_base.hpp
index 800ad37..e5436fb 100644
--- a/include/oqpi/scheduling/task_group_base.hpp
+++ b/include/oqpi/scheduling/task_group_base.hpp
@@ -44,7 +44,7 @@ namespace oqpi {
         if (spParentGroup_)
         {
             spParentGroup_->oneTaskDone();
-            spParentGroup_.reset();
+            std::atomic_store(&spParentGroup_, task_group_sptr());
         }
     }
     //----------------------------------------------------------------------------------------------
diff --git a/include/oqpi/scheduling/task_handle.hpp b/include/oqpi/scheduling/task_handle.hpp
index cc0c20e..6f229e6 100644
--- a/include/oqpi/scheduling/task_handle.hpp
+++ b/include/oqpi/scheduling/task_handle.hpp
@@ -139,7 +139,7 @@ namespace oqpi {
         }
 
         //------------------------------------------------------------------------------------------
-        const task_group_sptr& getParentGroup() const
+        task_group_sptr getParentGroup() const
         {
             validate();
             return spTask_->getParentGroup();
-- 
2.43.0


From 606ce4dc63a3675bceef4fa599b3977ab573b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 15/23] fix: the scheduler is idle only when everything that
 was submitted has been executed

---
 include/oqpi/scheduling/scheduler.hpp | 34 +++++++++++++--------------
 include/oqpi/scheduling/worker.hpp    |  2 ++
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index a9a48e2..d19cb89 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -30,6 +30,7 @@ namespace oqpi {
     public:
         scheduler()
             : running_(false)
+            , unfinishedTasks_(0)
         {
             std::memset(&workersPerPrio_[0], 0, sizeof(workersPerPrio_));
         }
@@ -149,23 +150,7 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool isIdle() const
         {
-            for (const auto &taskQueue : pendingTasks_)
-            {
-                if (!taskQueue.empty())
-                {
-                    return false;
-                }
-            }
-
-            for (const auto &upWorker : workers_)
-            {
-                if (!upWorker->isAvailable())
-                {
-                    return false;
-                }
-            }
-
-            return true;
+            return unfinishedTasks_.load() == 0;
         }
 
         //------------------------------------------------------------------------------------------
@@ -194,6 +179,7 @@ namespace oqpi {
             if (hTask.isValid() && !hTask.isGrabbed() && !hTask.isDone())
             {
                 const auto priority = resolveTaskPriority(hTask);
+                unfinishedTasks_.fetch_add(1);
                 pendingTasks_[int(priority)].push(hTask);
                 wakeUpWorkersWithPriority(priority);
             }
@@ -258,6 +244,7 @@ namespace oqpi {
                             {
                                 // The task has already been grabbed by someone else
                                 hTask.reset();
+                                unfinishedTasks_.fetch_sub(1);
                             }
                         }
                     }
@@ -309,10 +296,21 @@ namespace oqpi {
                         // We got a task! See ya!
                         break;
                     }
+
+                    // Somebody else completed it in the meantime
+                    hTask.reset();
+                    unfinishedTasks_.fetch_sub(1);
                 }
             }
         }
 
+        //------------------------------------------------------------------------------------------
+        // Called by worker threads when they are done with a task they got from the scheduler.
+        void signalTaskExecuted()
+        {
+            unfinishedTasks_.fetch_sub(1);
+        }
+
     private:
         //------------------------------------------------------------------------------------------
         // Signal all workers
@@ -343,6 +341,8 @@ namespace oqpi {
         int32_t                     workersPerPrio_[PRIO_COUNT];
         _TaskQueueType<task_handle> pendingTasks_[PRIO_COUNT];
         std::atomic<bool>           running_;
+        // Number of tasks in the queues or being executed by a worker
+        std::atomic<int32_t>        unfinishedTasks_;
     };
     //----------------------------------------------------------------------------------------------
 
diff --git a/include/oqpi/scheduling/worker.hpp b/include/oqpi/scheduling/worker.hpp
index c89c314..97f5c98 100644
--- a/include/oqpi/scheduling/worker.hpp
+++ b/include/oqpi/scheduling/worker.hpp
@@ -117,6 +117,8 @@ namespace oqpi {
                     _WorkerContext::worker_onPostExecute(worker_base::hTask_);
                     // Reset the task, can potentially free the memory if there's no more reference to that task
                     worker_base::hTask_.reset();
+                    // Let the scheduler know that it's one task closer to being idle
+                    scheduler_.signalTaskExecuted();
                 }
             }
 
-- 
2.43.0


From 774432539eb4399c133e4d5b054e2dee9d3d6283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 16/23] fix: a thread whose scheduling attributes are refused
 runs with the remaining ones

---
 include/oqpi/threading/posix_thread.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 5fce554..09f0fbe 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -149,6 +149,15 @@ namespace oqpi {
 
             error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);
 
+            // The scheduling attributes may be refused (e.g. a priority above the RLIMIT_RTPRIO),
+            // the thread has to run nonetheless.
+            if((error == EPERM || error == EINVAL) && pThreadAttr != nullptr)
+            {
+                oqpi_warning("pthread_create refused the scheduling attributes with error number: %d", error);
+                pthread_attr_setinheritsched(pThreadAttr, PTHREAD_INHERIT_SCHED);
+                error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);
+            }
+
             if(pThreadAttr != nullptr)
             {
                 pthread_attr_destroy(pThreadAttr);
-- 
2.43.0


From 7ecc392f547e33f744e723f2b33c5a55adfdb4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 17/23] fix: threads allowed on all cores are not restricted to
 the first 32

---
 include/oqpi/threading/posix_thread.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 09f0fbe..00312b0 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -304,10 +304,18 @@ namespace oqpi {
             auto set = cpu_set_t{};
             // Clears set, so that it contains no CPUs.
             CPU_ZERO(&set);
-            memcpy(&set.__bits, &affinityMask, sizeof(affinityMask));
+            if (affinityMask == core_affinity::all_cores)
+            {
+                // There might be more cores than the mask has bits
+                memset(&set.__bits, 0xff, sizeof(set.__bits));
+            }
+            else
+            {
+                memcpy(&set.__bits, &affinityMask, sizeof(affinityMask));
+            }
 
             // Make sure the selected mask is valid
-            oqpi_check(static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
+            oqpi_check(hardware_concurrency() >= 32 || static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
 
             const auto error = pthread_setaffinity_np(handle, sizeof(cpu_set_t), &set);
             if(error != 0)
-- 
2.43.0


From 2a39a4e432055f2571386bc680bab5a4cbe73039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 18/23] fix: oqpi_ensuref and oqpi_failedf report the arguments
 of their message

---
 include/oqpi/error_handling.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/oqpi/error_handling.hpp b/include/oqpi/error_handling.hpp
index afbe669..0dd21f1 100644
--- a/include/oqpi/error_handling.hpp
+++ b/include/oqpi/error_handling.hpp
@@ -147,9 +147,10 @@ namespace oqpi {
 #endif
     }
     //----------------------------------------------------------------------------------------------
-    inline bool assert_and_return_false(const char *file, int line, const char *expression, const char *description = "", ...)
+    template<typename... _Args>
+    inline bool assert_and_return_false(const char *file, int line, const char *expression, _Args ...descriptionAndArgs)
     {
-        const eAssertResult assertResult = assert_function(file, line, expression, description);
+        const eAssertResult assertResult = assert_function(file, line, expression, descriptionAndArgs...);
         if (assertResult == eAR_Retry)
         {
             debugger_break();
@@ -157,9 +158,10 @@ namespace oqpi {
         return false;
     }
     //----------------------------------------------------------------------------------------------
-    inline bool assert_and_return_true(const char *file, int line, const char *expression, const char *description = "", ...)
+    template<typename... _Args>
+    inline bool assert_and_return_true(const char *file, int line, const char *expression, _Args ...descriptionAndArgs)
     {
-        const eAssertResult assertResult = assert_function(file, line, expression, description);
+        const eAssertResult assertResult = assert_function(file, line, expression, descriptionAndArgs...);
         if (assertResult == eAR_Retry)
         {
             debugger_break();
-- 
2.43.0


From 0b53a119823ea5a560e6dc9a1f75aa342e17e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:45 +0000
Subject: [PATCH 19/23] fix: move assignment of a thread moves its layers as
 well

---
 include/oqpi/threading/interface_thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/threading/interface_thread.hpp b/include/oqpi/threading/interface_thread.hpp
index 5d1ceda..3d3786a 100644
--- a/include/oqpi/threading/interface_thread.hpp
+++ b/include/oqpi/threading/interface_thread.hpp
@@ -86,7 +86,7 @@ namespace oqpi { namespace itfc {
                 {
                     std::terminate();
                 }
-                thread_impl::operator =(std::move(rhs));
+                base_type::operator =(std::move(rhs));
             }
             return (*this);
         }
-- 
2.43.0


From 3f69711301c80a335caa75a5c57db7cf1bc85f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:59 +0000
Subject: [PATCH 20/23] fix: a semaphore that could not be initialised is not
 destroyed

---
 include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 70f0049..96fc799 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -192,6 +192,9 @@ namespace oqpi {
             if (error == -1)
             {
                 oqpi_error("sem_init failed with error %d", errno);
+                // There is no semaphore to destroy
+                delete handle_;
+                handle_ = nullptr;
                 return false;
             }
 
-- 
2.43.0


From 3328ec9ff46736455d7c196ad92aec24d3ec5ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:20 +0000
Subject: [PATCH 21/23] fix: a terminated thread never gave back its resources

---
 include/oqpi/threading/posix_thread.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 00312b0..ec88151 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -246,6 +246,8 @@ namespace oqpi {
             const auto error = pthread_cancel(handle_);
             if (error == 0)
             {
+                // Nobody will join this thread any more, it has to release its resources by itself
+                pthread_detach(handle_);
                 handle_ = 0;
             }
             else
-- 
2.43.0


From 81699e1fe6029e6e994a94b368dcb3b3d2f277be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:28 +0000
Subject: [PATCH 22/23] fix: moving a task lost its result

---
 include/oqpi/scheduling/task.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/oqpi/scheduling/task.hpp b/include/oqpi/scheduling/task.hpp
index 0508f71..6f2cc80 100644
--- a/include/oqpi/scheduling/task.hpp
+++ b/include/oqpi/scheduling/task.hpp
@@ -36,6 +36,7 @@ namespace oqpi {
         // Movable
         task(self_type &&other)
             : task_base(std::move(other))
+            , task_result_type(std::move(other))
             , _TaskContext(std::move(other))
             , notifier_type(std::move(other))
             , func_(std::move(other.func_))
@@ -47,6 +48,7 @@ namespace oqpi {
             if (this != &rhs)
             {
                 task_base::operator =(std::move(rhs));
+                task_result_type::operator =(std::move(rhs));
                 _TaskContext::operator =(std::move(rhs));
                 notifier_type::operator =(std::move(rhs));
                 func_ = std::move(rhs.func_);
-- 
2.43.0


From a1d5c487a219ae213b91f6e555c37f89bd052e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:07 +0000
Subject: [PATCH 23/23] fix: don't retry forever to create a named object where
 none can be created

open_or_create only has to try again when an object that existed is removed
before it can be opened.
---
 .../synchronization/posix/posix_semaphore_wrapper.hpp  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 96fc799..5393f5f 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -211,6 +211,7 @@ namespace oqpi {
                 return false;
             }
 
+            auto alreadyExists = false;
             do
             {
                 // Create a semaphore
@@ -222,16 +223,17 @@ namespace oqpi {
                     isCreator_  = (handle_ != SEM_FAILED);
                 }
 
+                alreadyExists = !isCreator_ && errno == EEXIST
+                    && creationOption == sync_object_creation_options::open_or_create;
+
                 // Open a semaphore
-                if (!isCreator_ && (creationOption == sync_object_creation_options::open_existing
-                    || (creationOption == sync_object_creation_options::open_or_create && errno == EEXIST)))
+                if (alreadyExists || creationOption == sync_object_creation_options::open_existing)
                 {
                     handle_ = sem_open(name_.c_str(), 0);
                 }
 
                 // The semaphore can be removed between the attempts to create it and to open it, so try again.
-            } while (handle_ == SEM_FAILED && errno == ENOENT
-                && creationOption == sync_object_creation_options::open_or_create);
+            } while (alreadyExists && handle_ == SEM_FAILED && errno == ENOENT);
 
             if (handle_ == SEM_FAILED)
             {
-- 
2.43.0

