"""Edits of the library that keep its behaviour: the checks have to stay quiet on them.
usage: refactors.py SET... [PROPERTY...] [only=N,N]   (works on a clone of /repo at /tmp/rf/repo)"""
import os, subprocess, sys, time
S='include/oqpi/scheduling/'
SETS={}
A=SETS['A']=[]   # extraction, loops rewritten
A+=[
(S+'scheduler.hpp','''            for (int prio = 0; prio < PRIO_COUNT; ++prio)
            {
                if (can_work_on_priority(config.workerPrio, task_priority(prio)))
                {
                    workersPerPrio_[prio] += config.count;
                }
            }

            using worker_type = worker<_Thread, _Notifier, self_type, _WorkerContext>;
            for (int i = 0; i < config.count; ++i)
            {
                workers_.emplace_back(std::make_unique<worker_type>(*this, i, config));
            }''','''            using worker_type = worker<_Thread, _Notifier, self_type, _WorkerContext>;
            workers_.reserve(workers_.size() + (config.count > 0 ? config.count : 0));
            int i = 0;
            while (i < config.count)
            {
                workers_.push_back(worker_uptr(new worker_type(*this, i++, config)));
            }
            countWorkers(config);'''),
(S+'scheduler.hpp','''    private:
        //------------------------------------------------------------------------------------------
        // Get the actual priority''','''    private:
        void countWorkers(const worker_config &config)
        {
            for (int prio = PRIO_COUNT - 1; prio >= 0; --prio)
            {
                const bool able = can_work_on_priority(config.workerPrio, task_priority(prio));
                workersPerPrio_[prio] += able ? config.count : 0;
            }
        }
        //------------------------------------------------------------------------------------------
        // Get the actual priority'''),
(S+'scheduler.hpp','''            const auto pumpTask = [this, &w](task_handle &hTask)
            {
                if (!running_.load())
                {
                    return true;
                }

                for (auto prio = 0; prio < PRIO_COUNT; ++prio)
                {
                    if (w.canWorkOnPriority(task_priority(prio)))
                    {
                        while (pendingTasks_[prio].tryPop(hTask))
                        {
                            // We got a task, try to grab it to ensure that we can work on it
                            // Note that a task_group can be done without being grabbed when calling activeWait
                            if (hTask.tryGrab() && !hTask.isDone())
                            {
                                // We got the go to start working on the current task
                                return true;
                            }
                            else
                            {
                                // The task has already been grabbed by someone else
                                hTask.reset();
                                unfinishedTasks_.fetch_sub(1);
                            }
                        }
                    }
                }

                return false;
            };

            // Before checking if we have a task decrement the semaphore count until it reaches 0
            while (w.tryWait());

            task_handle hTask;
            while (!pumpTask(hTask))
            {
                w.wait();
                while (w.tryWait());
            }

            return hTask;
        }
''','''            for (;;)
            {
                drain(w);
                task_handle hTask;
                if (!running_.load() || findTask(w, hTask))
                {
                    return hTask;
                }
                w.wait();
            }
        }

        static void drain(worker_base &w)
        {
            bool again;
            do
            {
                again = w.tryWait();
            } while (again);
        }

        // Grabs the first available task this worker can work on
        bool findTask(worker_base &w, task_handle &hTask)
        {
            int prio = 0;
            while (prio < PRIO_COUNT)
            {
                if (!w.canWorkOnPriority(task_priority(prio)) || !pendingTasks_[prio].tryPop(hTask))
                {
                    ++prio;
                    continue;
                }
                if (hTask.tryGrab() && !hTask.isDone())
                {
                    return true;
                }
                taskDropped(hTask);
            }
            return false;
        }

        void taskDropped(task_handle &hTask)
        {
            hTask.reset();
            --unfinishedTasks_;
        }
'''),
(S+'scheduler.hpp','''            if (hTask.isValid() && !hTask.isGrabbed() && !hTask.isDone())
            {
                const auto priority = resolveTaskPriority(hTask);
                unfinishedTasks_.fetch_add(1);
                pendingTasks_[int(priority)].push(hTask);
                wakeUpWorkersWithPriority(priority);
            }
            return hTask;''','''            if (!hTask.isValid())
            {
                return hTask;
            }
            const bool done    = hTask.isDone();
            const bool grabbed = hTask.isGrabbed();
            if (done || grabbed)
            {
                return hTask;
            }
            ++unfinishedTasks_;
            const auto priority = resolveTaskPriority(hTask);
            task_handle copy(hTask);
            pendingTasks_[size_t(priority)].push(std::move(copy));
            wakeUpWorkersWithPriority(priority);
            return hTask;'''),
(S+'scheduler.hpp','''            while (true)
            {
                // Grab the next task
                task_handle hTask = waitForNextTask(w);

                // We could have been waken up to stop, but a task that has been grabbed has to be executed
                if (!hTask.isValid())
                {
                    return;
                }

                // Make sure it's runnable
                if (oqpi_ensure(hTask.isValid() && hTask.isGrabbed()))
                {
                    // Make sure it's not done (activeWait on groups can leave a task done without being grabbed)
                    if (!hTask.isDone())
                    {
                        // Assign it to the available worker
                        w.assign(std::move(hTask));

                        // We got a task! See ya!
                        break;
                    }

                    // Somebody else completed it in the meantime
                    hTask.reset();
                    unfinishedTasks_.fetch_sub(1);
                }
            }''','''            for (task_handle hTask = waitForNextTask(w); hTask.isValid(); hTask = waitForNextTask(w))
            {
                oqpi_check(hTask.isGrabbed());
                if (!hTask.isDone())
                {
                    w.assign(std::move(hTask));
                    return;
                }
                taskDropped(hTask);
            }'''),
(S+'scheduler.hpp','''            for (auto &upWorker : workers_)
            {
                if (upWorker->canWorkOnPriority(prio))
                {
                    upWorker->notify();
                }
            }''','''            const auto count = workers_.size();
            for (size_t i = 0; i < count; ++i)
            {
                auto &w = *workers_[i];
                if (!w.canWorkOnPriority(prio)) continue;
                w.notify();
            }'''),
(S+'scheduler.hpp','''                auto spParentGroup = hTask.getParentGroup();
                do 
                {
                    if (spParentGroup == nullptr)
                    {
                        // Parent groups are released when somebody else completes the task in the meantime
                        oqpi_checkf(hTask.isGrabbed() || hTask.isDone(), "One parent group is invalid for this task: %d", int(hTask.getUID()));
                        priority = task_priority::normal;
                        break;
                    }

                    priority      = spParentGroup->getPriority();
                    spParentGroup = spParentGroup->getParentGroup();

                } while (priority == task_priority::inherit);''','''                for (auto spGroup = hTask.getParentGroup(); priority == task_priority::inherit; spGroup = spGroup->getParentGroup())
                {
                    if (!spGroup)
                    {
                        oqpi_checkf(hTask.isGrabbed() || hTask.isDone(), "One parent group is invalid for this task: %d", int(hTask.getUID()));
                        return task_priority::normal;
                    }
                    priority = spGroup->getPriority();
                }'''),
(S+'worker.hpp','''                if (worker_base::hTask_.isValid())
                {
                    // Inform the context that we're about to start the execution of a new task
                    _WorkerContext::worker_onPreExecute(worker_base::hTask_);
                    // Actually execute the task
                    worker_base::hTask_.execute();
                    // Inform the context that we just finished the execution of a task
                    _WorkerContext::worker_onPostExecute(worker_base::hTask_);
                    // Reset the task, can potentially free the memory if there's no more reference to that task
                    worker_base::hTask_.reset();
                    // Let the scheduler know that it's one task closer to being idle
                    scheduler_.signalTaskExecuted();
                }''','''                if (!worker_base::isAvailable())
                {
                    executeCurrentTask();
                }'''),
(S+'worker.hpp','''    private:
        //------------------------------------------------------------------------------------------
        // Reference to the parent scheduler''','''    private:
        void executeCurrentTask()
        {
            auto &hTask = worker_base::hTask_;
            _WorkerContext::worker_onPreExecute(hTask);
            hTask.execute();
            _WorkerContext::worker_onPostExecute(hTask);
            {
                task_handle released(std::move(hTask));
            }
            scheduler_.signalTaskExecuted();
        }
        //------------------------------------------------------------------------------------------
        // Reference to the parent scheduler'''),
(S+'worker.hpp','''            auto threadAttributes = worker_base::config_.threadAttributes;
            if (id_ >= 0)
            {
                threadAttributes.name_ += std::to_string(id_);
            }

            // Start the thread, running_ must be set to true beforehand
            thread_ = _Thread(threadAttributes, [this]() { run(); });''','''            auto threadAttributes  = worker_base::config_.threadAttributes;
            threadAttributes.name_ = worker_base::getName();
            _Thread thread(threadAttributes, &worker::run, this);
            thread_ = std::move(thread);'''),
(S+'task_base.hpp','''            bool expected = false;
            return grabbed_.compare_exchange_strong(expected, true);''','''            return !grabbed_.exchange(true);'''),
(S+'task.hpp','''            if (oqpi_ensuref(task_base::isGrabbed(), "Trying to execute an ungrabbed task: %d", task_base::getUID()))
            {
                invoke();
                task_base::notifyParent();
            }''','''            if (oqpi_failedf(task_base::isGrabbed(), "Trying to execute an ungrabbed task: %d", task_base::getUID()))
            {
                return;
            }
            invoke();
            task_base::notifyParent();'''),
(S+'task.hpp','''            if (task_base::tryGrab())
            {
                execute();
            }
            else
            {
                wait();
            }''','''            if (!task_base::tryGrab())
            {
                return wait();
            }
            execute();'''),
(S+'parallel_group.hpp','''            for (auto &hTask : tasks_)
            {
                if (hTask.tryGrab())
                {
                    hTask.execute();
                }
            }
''','''            for (size_t i = 0, n = tasks_.size(); i < n; ++i)
            {
                auto hTask = tasks_[i];
                if (!hTask.tryGrab())
                    continue;
                hTask.execute();
            }
'''),
(S+'parallel_group.hpp','''                size_t i = 0;
                int32_t scheduledTasks = 0;

                while ((maxSimultaneousTasks_ <= 0 || scheduledTasks < maxSimultaneousTasks_-1)
                    && (i = currentTaskIndex_.fetch_add(1)) < taskCount)
                {
                    if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
                    {
                        this->scheduler_.add(tasks_[i]);
                        ++scheduledTasks;
                    }
                }
''','''                auto left = maxSimultaneousTasks_ <= 0 ? std::numeric_limits<int32_t>::max() : maxSimultaneousTasks_ - 1;
                while (left > 0 && scheduleNextTask())
                {
                    --left;
                }
'''),
(S+'parallel_group.hpp','''                const auto taskCount = tasks_.size();
                size_t i = 0;
                while ((i = currentTaskIndex_.fetch_add(1)) < taskCount)
                {
                    if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
                    {
                        this->scheduler_.add(tasks_[i]);
                        break;
                    }
                }
            }
        }
''','''                scheduleNextTask();
            }
        }

        bool scheduleNextTask()
        {
            const auto taskCount = tasks_.size();
            for (auto i = currentTaskIndex_++; i < taskCount; i = currentTaskIndex_++)
            {
                const auto &hTask = tasks_[i];
                if (hTask.isDone() || hTask.isGrabbed())
                    continue;
                this->scheduler_.add(hTask);
                return true;
            }
            return false;
        }
'''),
(S+'sequence_group.hpp','''            if (!empty())
            {
                this->scheduler_.add(popTask());
            }
            else
            {
                this->notifyGroupDone();
            }''','''            if (empty())
            {
                return this->notifyGroupDone();
            }
            const auto next = popTask();
            this->scheduler_.add(next);'''),
(S+'sequence_group.hpp','''#include <queue>''','''#include <deque>'''),
(S+'sequence_group.hpp','''            tasks_.push(hTask);''','''            tasks_.push_back(hTask);'''),
(S+'sequence_group.hpp','''                hTask = tasks_.front();
                tasks_.pop();''','''                hTask = std::move(tasks_.front());
                tasks_.pop_front();'''),
(S+'sequence_group.hpp','''std::queue<task_handle> tasks_''','''std::deque<task_handle> tasks_'''),
(S+'task_group.hpp','''            task_base::setDone();
            _GroupContext::group_onPostExecute();
            notifier_type::notify();
            task_base::notifyParent();
        }
''','''            this->setDone();
            this->group_onPostExecute();
            this->notify();
            this->notifyParent();
        }
'''),
(S+'task_group_base.hpp','''        if (spParentGroup_)
        {
            spParentGroup_->oneTaskDone();
            std::atomic_store(&spParentGroup_, task_group_sptr());
        }''','''        const auto spParentGroup = getParentGroup();
        if (spParentGroup != nullptr)
        {
            spParentGroup->oneTaskDone();
            std::atomic_exchange(&spParentGroup_, task_group_sptr(nullptr));
        }'''),
(S+'task_handle.hpp','''        task_handle(task_handle &&rhs)
            : spTask_(std::move(rhs.spTask_))
        {}

        task_handle& operator =(task_handle &&rhs)
        {
            if (this != &rhs)
            {
                spTask_ = std::move(rhs.spTask_);
            }
            return (*this);
        }''','''        task_handle(task_handle &&rhs) = default;
        task_handle& operator =(task_handle &&rhs) = default;'''),
(S+'task_handle.hpp','''        task_handle(const task_handle &rhs)
            : spTask_(rhs.spTask_)
        {}

        task_handle& operator =(const task_handle &rhs)
        {
            if (this != &rhs)
            {
                spTask_ = rhs.spTask_;
            }
            return (*this);
        }''','''        task_handle(const task_handle &rhs) = default;
        task_handle& operator =(const task_handle &rhs) = default;'''),
('include/oqpi/concurrent_queue.hpp','''        if (!queue_.empty())
        {
            v = std::move(queue_.front());
            queue_.pop();
            return true;
        }
        return false;''','''        const bool any = queue_.size() > 0;
        if (any)
        {
            v = std::move(queue_.front());
            queue_.pop();
        }
        return any;'''),
('include/oqpi/parallel_algorithms/atomic_partitioner.hpp','''            while (true)
            {
                // Get a copy of where we're at in the array
                auto expectedIndex = sharedIndex_.load();
                // Compute how many indices we could grab
                const auto count = std::min<int32_t>(lastIndex_ - expectedIndex, indicesToGrab_);
                if (count > 0)
                {
                    // There's still something to grab, try to do it, by being the one to increment the shared index.
                    if (sharedIndex_.compare_exchange_strong(expectedIndex, expectedIndex + count))
                    {
                        // We managed to grab the indices, still some work to do
                        firstIndex = expectedIndex;
                        lastIndex  = firstIndex + count;
                        return true;
                    }
                }
                else
                {
                    return false;
                }
            }''','''            auto expectedIndex = sharedIndex_.load();
            int32_t count;
            do
            {
                count = lastIndex_ - expectedIndex;
                if (count > indicesToGrab_)
                    count = indicesToGrab_;
                if (count <= 0)
                    return false;
            } while (!sharedIndex_.compare_exchange_weak(expectedIndex, expectedIndex + count));
            lastIndex  = expectedIndex + count;
            firstIndex = expectedIndex;
            return true;'''),
('include/oqpi/parallel_algorithms/simple_partitioner.hpp','''            const auto batchIndex = batchIndex_++;
            if (batchIndex >= batchCount_)
            {
                // All batches have been processed
                return false;
            }
            
            // Return the range [fromIndex; toIndex[
            fromIndex = firstIndexOfBatch(batchIndex);
            toIndex   = lastIndexOfBatch(batchIndex);

            return true;''','''            const auto batchIndex = batchIndex_.fetch_add(1);
            const bool valid = batchIndex < batchCount_;
            if (valid)
            {
                toIndex   = lastIndexOfBatch(batchIndex);
                fromIndex = firstIndexOfBatch(batchIndex);
            }
            return valid;'''),
('include/oqpi/parallel_algorithms/parallel_for.hpp','''                    for (auto elementIndex = first; elementIndex != last; ++elementIndex)
                    {
                        details::parallel_for_call(func, batchIndex, elementIndex);
                    }''','''                    auto elementIndex = first;
                    while (elementIndex < last)
                    {
                        details::parallel_for_call(func, batchIndex, elementIndex);
                        ++elementIndex;
                    }'''),
]
P='include/oqpi/synchronization/posix/'
A+=[
(P+'posix_event.hpp','''            if (!sem_.wait())
            {
                return false;
            }

            // Only if its a manual reset event, then we also want to signal other potential waiters.
            // To signal other potential waiters, increment lock. Snowball effect.
            if (_ResetPolicy::is_manual_reset_enabled())
            {
                sem_.post();
            }

            return true;
        }''','''            return afterWait(sem_.wait());
        }

        bool afterWait(bool signaled)
        {
            if (signaled && _ResetPolicy::is_manual_reset_enabled())
            {
                sem_.post();
            }
            return signaled;
        }'''),
(P+'posix_event.hpp','''            if (!sem_.waitFor(relTime))
            {
                return false;
            }

            // Only if its a manual reset event, then we also want to signal other potential waiters.
            // increment lock. Snowball effect.
            if (_ResetPolicy::is_manual_reset_enabled())
            {
                sem_.post();
            }

            return true;''','''            return afterWait(sem_.waitFor(relTime));'''),
(P+'posix_semaphore_wrapper.hpp','''            timespec t;
            if (clock_gettime(CLOCK_REALTIME, &t) == -1)
            {
                oqpi_error("clock_gettime failed with error code %d", errno);
                return false;
            }

            auto nanoseconds    = std::chrono::duration_cast<std::chrono::nanoseconds>(relTime);
            const auto secs     = std::chrono::duration_cast<std::chrono::seconds>(nanoseconds);
            nanoseconds         -= secs;
            t.tv_sec            += secs.count();
            t.tv_nsec           += nanoseconds.count();

            // tv_nsec has to stay in [0, 1s[
            constexpr auto nsPerSec = 1000000000l;
            if (t.tv_nsec >= nsPerSec)
            {
                t.tv_sec    += 1;
                t.tv_nsec   -= nsPerSec;
            }
            else if (t.tv_nsec < 0)
            {
                t.tv_sec    -= 1;
                t.tv_nsec   += nsPerSec;
            }

            auto error = 0;
            do
            {
                // The deadline is absolute
                error = sem_timedwait(handle_, &t);
            } while (error == -1 && errno == EINTR);
''','''            timespec t;
            if (!deadline(std::chrono::duration_cast<std::chrono::nanoseconds>(relTime).count(), t))
            {
                return false;
            }

            auto error = sem_timedwait(handle_, &t);
            while (error == -1 && errno == EINTR)
            {
                error = sem_timedwait(handle_, &t);
            }
'''),
(P+'posix_semaphore_wrapper.hpp','''    private:
        //------------------------------------------------------------------------------------------
        bool initLocalSemaphore(''','''    private:
        static bool deadline(int64_t nanoseconds, timespec &t)
        {
            if (clock_gettime(CLOCK_REALTIME, &t) != 0)
            {
                oqpi_error("clock_gettime failed with error code %d", errno);
                return false;
            }
            constexpr int64_t nsPerSec = 1000000000ll;
            auto secs = nanoseconds / nsPerSec;
            auto ns   = nanoseconds % nsPerSec + t.tv_nsec;
            if (ns < 0)
            {
                ns += nsPerSec;
                --secs;
            }
            t.tv_sec += secs + ns / nsPerSec;
            t.tv_nsec = ns % nsPerSec;
            return true;
        }
        //------------------------------------------------------------------------------------------
        bool initLocalSemaphore('''),
(P+'posix_semaphore_wrapper.hpp','''            auto error = 0;
            do
            {
                error = sem_wait(handle_);
            } while (error == -1 && errno == EINTR);

            if (error == -1)''','''            int error;
            while ((error = sem_wait(handle_)) == -1 && errno == EINTR)
            {
            }

            if (error != 0)'''),
(P+'posix_semaphore_wrapper.hpp','''            if (isLocalSyncObject && creationOption != sync_object_creation_options::open_existing)
            {
                if (!initLocalSemaphore(creationOption, initCount))
                {
                    release();
                }
            }
            else
            {
                if (!initGlobalSemaphore(creationOption, initCount))
                {
                    release();
                }
            }''','''            const bool local = isLocalSyncObject && creationOption != sync_object_creation_options::open_existing;
            const bool ok = local ? initLocalSemaphore(creationOption, initCount) : initGlobalSemaphore(creationOption, initCount);
            if (!ok)
            {
                release();
            }'''),
(P+'posix_semaphore.hpp','''            for(auto i = 0; i < count; ++i)
            {
                sem_.post();
            }''','''            while (count-- > 0)
            {
                sem_.post();
            }'''),
(P+'posix_mutex.hpp','''            : sem_()
        {
            // A mutex is simply a binary semaphore!
            const auto initCount    = lockOnCreation ? 0u : 1u;
            sem_                    = posix_semaphore_wrapper(name, creationOption, initCount);
        }''','''            : sem_(name, creationOption, lockOnCreation ? 0 : 1)
        {
        }'''),
(P+'posix_mutex.hpp','''            const auto semValue = sem_.getValue();
            if (semValue >= 1)
            {
                oqpi_error("You cannot unlock a mutex more than once.");
                return;
            }

            sem_.post();''','''            if (sem_.getValue() < 1)
            {
                sem_.post();
            }
            else
            {
                oqpi_error("You cannot unlock a mutex more than once.");
            }'''),
('include/oqpi/threading/posix_thread.hpp','''            if (handle_ == 0)
            {
                oqpi_warning("Trying to join a non joinable thread.");
                return;
            }

            if (handle_ == pthread_self())
            {
                oqpi_warning("The current thread is the same as the thread attempted to join.");
                return;
            }

            const auto error = pthread_join(handle_, nullptr);
            if (error == 0)
            {
                handle_ = 0;
            }
            else
            {
                oqpi_error("pthread_join failed with error code: %i", error);
            }''','''            if (!joinable())
            {
                oqpi_warning("Trying to join a non joinable thread.");
            }
            else if (pthread_equal(handle_, pthread_self()))
            {
                oqpi_warning("The current thread is the same as the thread attempted to join.");
            }
            else if (const int error = pthread_join(handle_, nullptr))
            {
                oqpi_error("pthread_join failed with error code: %i", error);
            }
            else
            {
                handle_ = native_handle_type{};
            }'''),
('include/oqpi/threading/posix_thread.hpp','''                auto t      = timespec{};
                t.tv_sec    = nanoseconds / 1000000000;
                t.tv_nsec   = nanoseconds % 1000000000;
                // Sleep for the remaining time if interrupted by a signal handler
                while (nanosleep(&t, &t) == -1 && errno == EINTR);''','''                auto t      = timespec{};
                clock_gettime(CLOCK_MONOTONIC, &t);
                t.tv_sec   += nanoseconds / 1000000000;
                t.tv_nsec  += nanoseconds % 1000000000;
                if (t.tv_nsec >= 1000000000)
                {
                    t.tv_nsec -= 1000000000;
                    ++t.tv_sec;
                }
                while (clock_nanosleep(CLOCK_MONOTONIC, TIMER_ABSTIME, &t, nullptr) == EINTR);'''),
('include/oqpi/threading/posix_thread.hpp','''            memcpy(&affinity, &set.__bits, sizeof(core_affinity));

            return affinity;''','''            auto mask = 0u;
            for (int i = 0; i < 32; ++i)
            {
                mask |= CPU_ISSET(i, &set) ? 1u << i : 0u;
            }
            affinity = core_affinity(mask);

            return affinity;'''),
('include/oqpi/threading/posix_thread.hpp','''                memcpy(&set.__bits, &affinityMask, sizeof(affinityMask));''','''                for (int i = 0; i < 32; ++i)
                {
                    if (uint32_t(affinityMask) >> i & 1)
                        CPU_SET(i, &set);
                }'''),
('include/oqpi/threading/interface_thread.hpp','''            if (thread_impl::template create<launcher_t>(attributes, upLauncher.get()))
            {
                // If the thread creation succeeded, we transfer the ownership of the launcher to it.
                upLauncher.release();
            }''','''            launcher_t *pLauncher = upLauncher.release();
            if (!thread_impl::template create<launcher_t>(attributes, pLauncher))
            {
                upLauncher.reset(pLauncher);
            }'''),
]
# ---------------------------------------------------------------------------------------------- B
B=SETS['B']=[]   # other facilities of the standard library, other memory orders
B+=[
(S+'scheduler.hpp','''            const auto then = std::chrono::high_resolution_clock::now();

            while (!isIdle())
            {
                this_thread::sleep_for(sleepPeriod);
                if (std::chrono::high_resolution_clock::now() - then > maxWaitTime)
                {
                    break;
                }
            }''','''            const auto then = std::chrono::steady_clock::now();
            bool expired    = false;
            while (!expired && !isIdle())
            {
                this_thread::sleep_for(sleepPeriod);
                expired = std::chrono::steady_clock::now() - then > maxWaitTime;
            }'''),
(S+'scheduler.hpp','''        int32_t                     workersPerPrio_[PRIO_COUNT];''','''        std::atomic<int32_t>        workersPerPrio_[PRIO_COUNT];'''),
(S+'scheduler.hpp','''            std::memset(&workersPerPrio_[0], 0, sizeof(workersPerPrio_));''','''            for (auto &count : workersPerPrio_) { count = 0; }'''),
(S+'scheduler.hpp','''        std::atomic<int32_t>        unfinishedTasks_;''','''        std::atomic<int64_t>        unfinishedTasks_;'''),
(S+'scheduler.hpp','''            return unfinishedTasks_.load() == 0;''','''            return unfinishedTasks_.load(std::memory_order_acquire) == 0;'''),
(S+'scheduler.hpp','''        void signalTaskExecuted()
        {
            unfinishedTasks_.fetch_sub(1);''','''        void signalTaskExecuted()
        {
            unfinishedTasks_.fetch_sub(1, std::memory_order_acq_rel);'''),
(S+'scheduler.hpp','''            // Workers have to be flagged first: a worker that comes back without a task because the
            // scheduler isn't running anymore expects to be stopped
            for (auto &upWorker : workers_)
            {
                upWorker->stop();
            }

            running_.store(false);

            wakeUpAllWorkers();

            for (auto &upWorker : workers_)
            {
                upWorker->join();
            }''','''            forEachWorker([](worker_base &w) { w.stop(); });
            running_ = false;
            wakeUpAllWorkers();
            forEachWorker([](worker_base &w) { w.join(); });
        }

        template<typename _F>
        void forEachWorker(_F f)
        {
            std::for_each(workers_.begin(), workers_.end(), [&f](auto &upWorker) { f(*upWorker); });'''),
(S+'scheduler.hpp','''#include <vector>
#include <atomic>
''','''#include <vector>
#include <atomic>
#include <algorithm>
'''),
(S+'task_base.hpp','''            bool expected = false;
            return grabbed_.compare_exchange_strong(expected, true);''','''            bool expected = false;
            return grabbed_.compare_exchange_strong(expected, true, std::memory_order_acq_rel, std::memory_order_acquire);'''),
(S+'task_base.hpp','''            return grabbed_.load();
        }''','''            return grabbed_.load(std::memory_order_acquire);
        }'''),
(S+'task_base.hpp','''            return done_.load();
        }''','''            return done_.load(std::memory_order_acquire);
        }'''),
(S+'task_base.hpp','''            done_.store(true);''','''            done_.store(true, std::memory_order_release);'''),
(S+'parallel_group.hpp','''activeTasksCount_.fetch_sub(1);''','''activeTasksCount_.fetch_sub(1, std::memory_order_acq_rel);'''),
(S+'parallel_group.hpp','''            activeTasksCount_.fetch_add(1);''','''            activeTasksCount_.fetch_add(1, std::memory_order_relaxed);'''),
(S+'parallel_group.hpp','''                if (tasks_[0].tryGrab())
                {
                    tasks_[0].execute();
                }''','''                if (auto &hFirst = tasks_.front(); hFirst.tryGrab())
                {
                    hFirst.execute();
                }'''),
('include/oqpi/concurrent_queue.hpp','''#include <mutex>
#include <queue>
''','''#include <mutex>
#include <queue>
#include <list>
#include <shared_mutex>
'''),
('include/oqpi/concurrent_queue.hpp','''std::lock_guard<std::mutex>''','''std::unique_lock<std::shared_mutex>'''),
('include/oqpi/concurrent_queue.hpp','''        lock_t __l(mutex_);
        return queue_.empty();''','''        std::shared_lock<std::shared_mutex> __l(mutex_);
        return queue_.empty();'''),
('include/oqpi/concurrent_queue.hpp','''    mutable std::mutex mutex_;
    std::queue<T>   queue_;''','''    mutable std::shared_mutex mutex_;
    std::queue<T, std::list<T>>   queue_;'''),
(P+'posix_semaphore_wrapper.hpp','''            handle_ = new sem_t;
        ''','''            auto upSem = std::make_unique<sem_t>();
        '''),
(P+'posix_semaphore_wrapper.hpp','''            const auto error        = sem_init(handle_, pshared, initCount);
            if (error == -1)
            {
                oqpi_error("sem_init failed with error %d", errno);
                // There is no semaphore to destroy
                delete handle_;
                handle_ = nullptr;
                return false;
            }
''','''            const auto error        = sem_init(upSem.get(), pshared, initCount);
            if (error == -1)
            {
                oqpi_error("sem_init failed with error %d", errno);
                return false;
            }
            handle_ = upSem.release();
'''),
(P+'posix_semaphore_wrapper.hpp','''                error = sem_timedwait(handle_, &t);''','''                error = sem_clockwait(handle_, CLOCK_REALTIME, &t);'''),
(P+'posix_semaphore_wrapper.hpp','''            : handle_(other.handle_)
            , name_(other.name_)
            , isCreator_(other.isCreator_)
        {
            other.handle_       = nullptr;
            other.isCreator_    = false;
        }''','''            : handle_(std::exchange(other.handle_, nullptr))
            , name_(std::move(other.name_))
            , isCreator_(std::exchange(other.isCreator_, false))
        {
        }'''),
(P+'posix_semaphore_wrapper.hpp','''                release();

                handle_         = rhs.handle_;
                name_           = rhs.name_;
                isCreator_      = rhs.isCreator_;
                rhs.handle_     = nullptr;
                rhs.isCreator_  = false;''','''                posix_semaphore_wrapper tmp(std::move(rhs));
                std::swap(handle_, tmp.handle_);
                std::swap(name_, tmp.name_);
                std::swap(isCreator_, tmp.isCreator_);'''),
(P+'posix_semaphore_wrapper.hpp','''#include <semaphore.h>''','''#include <memory>
#include <utility>
#include <semaphore.h>'''),
(P+'posix_event.hpp','''            std::atomic_thread_fence(std::memory_order_seq_cst);
            // An event is either signaled or not, notifying a signaled event has no effect
            if (sem_.getValue() < 1)
            {
                sem_.post();
            }''','''            std::atomic_thread_fence(std::memory_order_seq_cst);
            const auto signaled = sem_.getValue() > 0;
            if (signaled)
            {
                return;
            }
            sem_.post();'''),
(S+'task.hpp','''            // Run the preExecute code of the context
            _TaskContext::task_onPreExecute();
            // Run the task itself
            task_result_type::run(func_);
            // Flag the task as done
            task_base::setDone();
            // Run the postExecute code of the context
            _TaskContext::task_onPostExecute();
            // Signal that the task is done
            notifier_type::notify();''','''            runFunc();
            _TaskContext::task_onPostExecute();
            notifier_type::notify();
        }
        void runFunc()
        {
            _TaskContext::task_onPreExecute();
            task_result_type::run(func_);
            task_base::setDone();'''),
(S+'task.hpp','''        auto f = [func = std::forward<_Func>(func), args = std::make_tuple(std::forward<_Args>(args)...)] () mutable
        {
            return std::apply(func, std::move(args));
        };
''','''        auto args_ = std::make_tuple(std::forward<_Args>(args)...);
        auto f = [func = std::forward<_Func>(func), args = std::move(args_)] () mutable
        {
            return std::apply(func, std::move(args));
        };
'''),
(S+'task_handle.hpp','''            spTask_.reset();''','''            spTask_ = nullptr;'''),
(S+'task_handle.hpp','''            return spTask_ != nullptr;''','''            return static_cast<bool>(spTask_);'''),
(S+'worker.hpp','''            while (isRunning())
            {
                // Inform''','''            for (; isRunning(); )
            {
                // Inform'''),
(S+'worker.hpp','''            if (thread_.joinable())
            {
                thread_.join();
            }''','''            if (!thread_.joinable())
            {
                return;
            }
            _Thread thread(std::move(thread_));
            thread.join();'''),
('include/oqpi/threading/posix_thread.hpp','''            static const auto logicalProcessorCount = uint32_t(sysconf(_SC_NPROCESSORS_ONLN));
            return logicalProcessorCount;''','''            return uint32_t(sysconf(_SC_NPROCESSORS_ONLN));'''),
('include/oqpi/threading/posix_thread.hpp','''            pthread_setschedprio(handle, posixPriority);''','''            const auto error = pthread_setschedprio(handle, posixPriority);
            if (error != 0)
            {
                oqpi_warning("pthread_setschedprio failed with error code %d", error);
            }'''),
('include/oqpi/threading/interface_thread.hpp','''                run(std::make_integer_sequence<size_t, std::tuple_size<_Tuple>::value>());
            }

            template<size_t... _Indices>
            void run(std::integer_sequence<size_t, _Indices...>)
            {
                std::invoke(std::move(std::get<_Indices>(tuple_))...);
            }''','''                std::apply([](auto &&...a) { std::invoke(std::forward<decltype(a)>(a)...); }, std::move(tuple_));
            }'''),
('include/oqpi/threading/this_thread.hpp','''        sleep_for(absTime - _Clock::now());''','''        const auto now = _Clock::now();
        if (now < absTime)
        {
            sleep_for(absTime - now);
        }'''),
('include/oqpi/parallel_algorithms/parallel_for.hpp','''        if (auto spTaskGroup = make_parallel_for_task_group<task_type::waitable, _EventType, _GroupContext, _TaskContext>(sc, name, partitioner, prio, std::forward<_Function>(func)))
        {
            sc.add(task_handle(spTaskGroup)).activeWait();
        }''','''        auto spTaskGroup = make_parallel_for_task_group<task_type::waitable, _EventType, _GroupContext, _TaskContext>(sc, name, partitioner, prio, std::forward<_Function>(func));
        if (spTaskGroup == nullptr)
        {
            return;
        }
        auto hGroup = sc.add(task_handle(std::move(spTaskGroup)));
        hGroup.activeWait();'''),
('include/oqpi/parallel_algorithms/parallel_for.hpp','''        return std::move(spTaskGroup);''','''        return spTaskGroup;'''),
('include/oqpi/scheduling_helpers.hpp','''            add_to_group(spGroup, std::forward<task_handle>(taskHandle));
            add_to_group(spGroup, std::forward<_TaskHandles>(taskHandles)...);''','''            spGroup->addTask(std::move(taskHandle));
            add_to_group(spGroup, std::forward<_TaskHandles>(taskHandles)...);'''),
(S+'context_container.hpp','''            contextContainer._Context::onStart();
            worker_on_start<_ContextContainer, _TContextList...>(contextContainer);''','''            static_cast<_Context &>(contextContainer).onStart();
            worker_on_start<_ContextContainer, _TContextList...>(contextContainer);'''),
(S+'context_container.hpp','''            task_on_pre_execute<self_type, _ContextList...>(*this);''','''            (static_cast<_ContextList &>(*this).onPreExecute(), ...);'''),
(S+'context_container.hpp','''            group_on_post_execute<self_type, _ContextList...>(*this);''','''            (this->_ContextList::onPostExecute(), ...);'''),
]
# ---------------------------------------------------------------------------------------------- C
C=SETS['C']=[]   # larger rewrites of single parts
C+=[
# the queue: a ring / two stacks with a spin lock
('include/oqpi/concurrent_queue.hpp',None,'''#pragma once

#include <atomic>
#include <deque>
#include <queue>
#include <mutex>
#include <condition_variable>

template <typename T>
class concurrent_queue
{
    // Locks without blocking in the kernel
    struct lock_t
    {
        explicit lock_t(std::atomic_flag &f) : f_(f) { while (f_.test_and_set(std::memory_order_acquire)) { sched_yield(); } }
        ~lock_t() { f_.clear(std::memory_order_release); }
        std::atomic_flag &f_;
    };

public:
    void push(T &&t)        { lock_t l(flag_); queue_.push_back(std::move(t)); }
    void push(const T &t)   { lock_t l(flag_); queue_.push_back(t); }

    bool tryPop(typename std::queue<T>::reference v)
    {
        lock_t l(flag_);
        if (queue_.empty())
        {
            return false;
        }
        v = std::move(queue_.front());
        queue_.pop_front();
        return true;
    }

    bool empty() const { lock_t l(flag_); return queue_.empty(); }

private:
    mutable std::atomic_flag flag_ = ATOMIC_FLAG_INIT;
    std::deque<T> queue_;
};
'''),
# workers wake up through a condition variable kept by the scheduler? no: through their notifier, batched
(S+'scheduler.hpp','''                pendingTasks_[int(priority)].push(hTask);
                wakeUpWorkersWithPriority(priority);''','''                pendingTasks_[int(priority)].push(hTask);
                // Signal the workers, last registered first
                for (auto it = workers_.rbegin(); it != workers_.rend(); ++it)
                {
                    if ((*it)->canWorkOnPriority(priority))
                    {
                        (*it)->notify();
                    }
                }'''),
(S+'scheduler.hpp','''            while (w.tryWait());

            task_handle hTask;
            while (!pumpTask(hTask))
            {
                w.wait();
                while (w.tryWait());
            }
''','''            task_handle hTask;
            while (!pumpTask(hTask))
            {
                w.wait();
            }
'''),
(S+'parallel_group.hpp','''            for (auto &hTask : tasks_)
            {
                if (hTask.tryGrab())
                {
                    hTask.execute();
                }
            }
''','''            // From the last one to the first one, the workers come the other way
            for (auto it = tasks_.rbegin(); it != tasks_.rend(); ++it)
            {
                if (it->tryGrab())
                {
                    it->execute();
                }
            }
'''),
(S+'parallel_group.hpp','''                if (tasks_[0].tryGrab())
                {
                    tasks_[0].execute();
                }''','''                auto hFirst = tasks_[0];
                if (!hFirst.isGrabbed() && hFirst.tryGrab())
                {
                    hFirst.execute();
                }'''),
(S+'task_notifier.hpp','''        void wait()     { event_.wait();    }
        void notify()   { event_.notify();  }''','''        void wait()     { while (!event_.wait()); }
        void notify()   { event_.notify();  }'''),
('include/oqpi/parallel_algorithms/atomic_partitioner.hpp','''                auto expectedIndex = sharedIndex_.load();''','''                auto expectedIndex = sharedIndex_.load(std::memory_order_relaxed);'''),
(S+'task_base.hpp','''            : uid_(uid_provider())
            , spParentGroup_(nullptr)
            , priority_(priority)
            , grabbed_(false)
            , done_(false)
        {}''','''            : spParentGroup_()
            , priority_(priority)
        {
            grabbed_.store(false, std::memory_order_relaxed);
            done_.store(false, std::memory_order_relaxed);
            uid_ = uid_provider();
        }'''),
(S+'task_base.hpp','''            static std::atomic<task_uid> uid_generator(1);
            return uid_generator.fetch_add(1);''','''            static std::atomic<task_uid> lastUid(0);
            return lastUid.fetch_add(1, std::memory_order_relaxed) + 1;'''),
(S+'worker.hpp','''            , notifier_()
            , running_(false)
        {}''','''            , thread_()
            , notifier_()
            , running_{false}
        {}'''),
(P+'posix_semaphore.hpp','''            notify(maxCount_);''','''            for (auto left = maxCount_; left > 0; --left)
            {
                sem_.post();
            }'''),
('include/oqpi/threading/posix_thread.hpp','''            setCoreAffinityMask(attributes.coreAffinityMask_);

            return true;''','''            set_core_affinity_mask(handle_, attributes.coreAffinityMask_);
            return joinable();'''),
]
# ---------------------------------------------------------------------------------------------- D
D=SETS['D']=[]   # locks instead of atomics, standard facilities
D+=[
(S+'parallel_group.hpp','''            const auto previousTaskCount = activeTasksCount_.fetch_sub(1);
            if (previousTaskCount == 1)
            {
                this->notifyGroupDone();
            }
            else if (maxSimultaneousTasks_ > 0)
            {
                const auto taskCount = tasks_.size();
                size_t i = 0;
                while ((i = currentTaskIndex_.fetch_add(1)) < taskCount)
                {
                    if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
                    {
                        this->scheduler_.add(tasks_[i]);
                        break;
                    }
                }
            }''','''            size_t left = 0;
            task_handle hNext;
            {
                std::lock_guard<std::mutex> l(mutex_);
                left = --activeTasksCount_;
                while (left > 0 && maxSimultaneousTasks_ > 0 && !hNext.isValid() && currentTaskIndex_ < tasks_.size())
                {
                    const auto &hTask = tasks_[currentTaskIndex_++];
                    if (!hTask.isGrabbed() && !hTask.isDone())
                    {
                        hNext = hTask;
                    }
                }
            }
            if (left == 0)
            {
                this->notifyGroupDone();
            }
            else if (hNext.isValid())
            {
                this->scheduler_.add(std::move(hNext));
            }'''),
(S+'parallel_group.hpp','''        std::atomic<size_t>         activeTasksCount_;''','''        size_t                      activeTasksCount_;
        std::mutex                  mutex_;'''),
(S+'parallel_group.hpp','''            activeTasksCount_.fetch_add(1);''','''            ++activeTasksCount_;'''),
(S+'parallel_group.hpp','''        std::atomic<size_t>         currentTaskIndex_;''','''        size_t                      currentTaskIndex_;'''),
(S+'parallel_group.hpp','''                size_t i = 0;
                int32_t scheduledTasks = 0;

                while ((maxSimultaneousTasks_ <= 0 || scheduledTasks < maxSimultaneousTasks_-1)
                    && (i = currentTaskIndex_.fetch_add(1)) < taskCount)
                {
                    if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
                    {
                        this->scheduler_.add(tasks_[i]);
                        ++scheduledTasks;
                    }
                }
''','''                int32_t scheduledTasks = 0;
                while (maxSimultaneousTasks_ <= 0 || scheduledTasks < maxSimultaneousTasks_-1)
                {
                    std::unique_lock<std::mutex> l(mutex_);
                    const auto i = currentTaskIndex_++;
                    l.unlock();
                    if (i >= taskCount)
                    {
                        break;
                    }
                    if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
                    {
                        this->scheduler_.add(tasks_[i]);
                        ++scheduledTasks;
                    }
                }
'''),
(S+'parallel_group.hpp','''#include <atomic>
''','''#include <atomic>
#include <mutex>
'''),
(S+'task_base.hpp','''            std::atomic_store(&spParentGroup_, spParentGroup);
            onParentGroupSet();''','''            {
                std::lock_guard<std::mutex> l(parentMutex_);
                spParentGroup_ = spParentGroup;
            }
            onParentGroupSet();'''),
(S+'task_base.hpp','''            return std::atomic_load(&spParentGroup_);''','''            std::lock_guard<std::mutex> l(parentMutex_);
            return spParentGroup_;'''),
(S+'task_base.hpp','''        task_group_sptr     spParentGroup_;''','''        task_group_sptr     spParentGroup_;
        mutable std::mutex  parentMutex_;'''),
(S+'task_base.hpp','''#include <string>
''','''#include <string>
#include <mutex>
'''),
(S+'task_group_base.hpp','''        if (spParentGroup_)
        {
            spParentGroup_->oneTaskDone();
            std::atomic_store(&spParentGroup_, task_group_sptr());
        }''','''        if (auto spParentGroup = getParentGroup())
        {
            spParentGroup->oneTaskDone();
            std::lock_guard<std::mutex> l(parentMutex_);
            spParentGroup_.reset();
        }'''),
(S+'scheduler.hpp','''            while (!isIdle())
            {
                this_thread::sleep_for(sleepPeriod);''','''            while (!isIdle())
            {
                std::this_thread::sleep_for(sleepPeriod);'''),
(S+'scheduler.hpp','''#include <vector>
#include <atomic>
''','''#include <vector>
#include <atomic>
#include <thread>
#include <mutex>
#include <condition_variable>
'''),
(S+'scheduler.hpp','''            return unfinishedTasks_.load() == 0;''','''            std::lock_guard<std::mutex> l(countMutex_);
            return unfinishedTasks_ == 0;'''),
(S+'scheduler.hpp','''        std::atomic<int32_t>        unfinishedTasks_;''','''        int32_t                     unfinishedTasks_;
        mutable std::mutex          countMutex_;
        void count(int32_t n) { std::lock_guard<std::mutex> l(countMutex_); unfinishedTasks_ += n; }'''),
(S+'scheduler.hpp','''                unfinishedTasks_.fetch_add(1);
''','''                count(1);
'''),
(S+'scheduler.hpp','''                                hTask.reset();
                                unfinishedTasks_.fetch_sub(1);''','''                                hTask.reset();
                                count(-1);'''),
(S+'scheduler.hpp','''                    // Somebody else completed it in the meantime
                    hTask.reset();
                    unfinishedTasks_.fetch_sub(1);''','''                    // Somebody else completed it in the meantime
                    hTask.reset();
                    count(-1);'''),
(S+'scheduler.hpp','''        void signalTaskExecuted()
        {
            unfinishedTasks_.fetch_sub(1);''','''        void signalTaskExecuted()
        {
            count(-1);'''),
('include/oqpi/concurrent_queue.hpp',None,'''#pragma once

#include <queue>
#include <mutex>
#include <vector>
#include <memory>
#include <condition_variable>

// Linked list with a dummy node, one lock for each end
template <typename T>
class concurrent_queue
{
    struct node
    {
        std::unique_ptr<T> value;
        node *next = nullptr;
    };

public:
    concurrent_queue() : head_(new node), tail_(head_) {}
    ~concurrent_queue()
    {
        while (head_)
        {
            auto next = head_->next;
            delete head_;
            head_ = next;
        }
    }
    concurrent_queue(const concurrent_queue &) = delete;
    concurrent_queue& operator =(const concurrent_queue &) = delete;

    void push(T &&t)        { append(std::make_unique<T>(std::move(t))); }
    void push(const T &t)   { append(std::make_unique<T>(t)); }

    bool tryPop(typename std::queue<T>::reference v)
    {
        node *old = nullptr;
        {
            std::lock_guard<std::mutex> l(headMutex_);
            if (head_ == tail())
            {
                return false;
            }
            old   = head_;
            head_ = head_->next;
            v     = std::move(*old->value);
        }
        delete old;
        return true;
    }

    bool empty() const
    {
        std::lock_guard<std::mutex> l(headMutex_);
        return head_ == tail();
    }

private:
    node *tail() const { std::lock_guard<std::mutex> l(tailMutex_); return tail_; }
    void append(std::unique_ptr<T> up)
    {
        auto dummy = new node;
        std::lock_guard<std::mutex> l(tailMutex_);
        tail_->value = std::move(up);
        tail_->next  = dummy;
        tail_        = dummy;
    }

    mutable std::mutex headMutex_, tailMutex_;
    node *head_, *tail_;
};
'''),
(P+'posix_event.hpp','''            std::atomic_thread_fence(std::memory_order_seq_cst);
            // An event is either signaled or not, notifying a signaled event has no effect
            if (sem_.getValue() < 1)
            {
                sem_.post();
            }''','''            static std::mutex mutex;
            std::lock_guard<std::mutex> l(mutex);
            std::atomic_thread_fence(std::memory_order_seq_cst);
            if (sem_.getValue() < 1)
            {
                sem_.post();
            }'''),
(P+'posix_event.hpp','''#include <atomic>
''','''#include <atomic>
#include <mutex>
'''),
('include/oqpi/threading/posix_thread.hpp','''            auto pThreadAttr    = (pthread_attr_t*)(nullptr);''','''            static std::once_flag once;
            std::call_once(once, [] { hardware_concurrency(); });
            auto pThreadAttr    = (pthread_attr_t*)(nullptr);'''),
('include/oqpi/threading/posix_thread.hpp','''#include <chrono>
''','''#include <chrono>
#include <mutex>
#include <thread>
'''),
('include/oqpi/threading/posix_thread.hpp','''            sched_yield();''','''            std::this_thread::yield();'''),
(S+'worker.hpp','''            thread_ = _Thread(threadAttributes, [this]() { run(); });''','''            std::function<void()> f = std::bind(&worker::run, this);
            thread_ = _Thread(threadAttributes, std::move(f));'''),
(S+'worker.hpp','''namespace oqpi {
''','''#include <functional>
namespace oqpi {
''')]
E=SETS['E']=[]  # local semaphores without the kernel's; cached state; lazily created things
E+=[
(P+'posix_semaphore_wrapper.hpp','''            if (handle_)
            {
                const auto isLocalSyncObject = name_.empty();
                if (isLocalSyncObject)
                {
                    releaseLocalSemaphore();
                }
                else
                {
                    releaseGlobalSemaphore();
                }
                handle_ = nullptr;
            }''','''            if (!isValid())
            {
                return;
            }
            name_.empty() ? releaseLocalSemaphore() : releaseGlobalSemaphore();
            handle_ = nullptr;'''),
(P+'posix_semaphore_wrapper.hpp','''            const auto error = sem_trywait(handle_);
            // errno is set to EAGAIN if the decrement cannot be immediately performed (i.e. semaphore has value 0).
            if (error == -1 && errno != EAGAIN)
            {
                oqpi_error("sem_trywait failed with error code %d", errno);
            }
            return error == 0;''','''            int error;
            do
            {
                error = sem_trywait(handle_);
            } while (error == -1 && errno == EINTR);
            if (error == 0)
            {
                return true;
            }
            if (errno != EAGAIN)
            {
                oqpi_error("sem_trywait failed with error code %d", errno);
            }
            return false;'''),
(P+'posix_semaphore_wrapper.hpp','''            auto error = 0;
            do
            {
                error = sem_wait(handle_);
            } while (error == -1 && errno == EINTR);
''','''            auto error = sem_trywait(handle_);
            while (error == -1 && (errno == EINTR || errno == EAGAIN))
            {
                error = sem_wait(handle_);
            }
'''),
(P+'posix_semaphore_wrapper.hpp','''            auto error = 0;
            do
            {
                // The deadline is absolute
                error = sem_timedwait(handle_, &t);
            } while (error == -1 && errno == EINTR);

            if(error == -1 && errno != ETIMEDOUT)
            {
                oqpi_error("sem_timedwait failed with error code %d", errno);
            }
            return error == 0;''','''            for (;;)
            {
                if (sem_timedwait(handle_, &t) == 0)
                {
                    return true;
                }
                switch (errno)
                {
                case EINTR:
                    continue;
                case ETIMEDOUT:
                    return false;
                default:
                    oqpi_error("sem_timedwait failed with error code %d", errno);
                    return false;
                }
            }'''),
(P+'posix_semaphore_wrapper.hpp','''            auto alreadyExists = false;
            do
            {
                // Create a semaphore
                if (creationOption != sync_object_creation_options::open_existing)
                {
                    // If both O_CREAT and O_EXCL are specified, then an error is returned if a semaphore with the
                    // given name already exists. Otherwise it creates it.
                    handle_     = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
                    isCreator_  = (handle_ != SEM_FAILED);
                }

                alreadyExists = !isCreator_ && errno == EEXIST
                    && creationOption == sync_object_creation_options::open_or_create;

                // Open a semaphore
                if (alreadyExists || creationOption == sync_object_creation_options::open_existing)
                {
                    handle_ = sem_open(name_.c_str(), 0);
                }

                // The semaphore can be removed between the attempts to create it and to open it, so try again.
            } while (alreadyExists && handle_ == SEM_FAILED && errno == ENOENT);
''','''            const auto create = [&]
            {
                handle_    = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
                isCreator_ = handle_ != SEM_FAILED;
                return isCreator_;
            };
            const auto open = [&]
            {
                handle_ = sem_open(name_.c_str(), 0);
                return handle_ != SEM_FAILED;
            };
            switch (creationOption)
            {
            case sync_object_creation_options::create_if_nonexistent:
                create();
                break;
            case sync_object_creation_options::open_existing:
                open();
                break;
            case sync_object_creation_options::open_or_create:
                while (!create() && errno == EEXIST && !open() && errno == ENOENT)
                {
                }
                break;
            }
'''),
('include/oqpi/synchronization/interface/interface_event.hpp','''            return waitFor(absTime - _Clock::now());''','''            const auto relTime = absTime - _Clock::now();
            return base_type::waitFor(relTime);'''),
('include/oqpi/synchronization/interface/interface_semaphore.hpp','''            : base_type(std::move(*(base_type *)&rhs))''','''            : base_type(static_cast<base_type &&>(rhs))'''),
('include/oqpi/threading/posix_thread.hpp','''            error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);

            // The scheduling''','''            pthread_t handle{};
            error = pthread_create(&handle, pThreadAttr, lpStartAddress, pData);

            // The scheduling'''),
('include/oqpi/threading/posix_thread.hpp','''                error = pthread_create(&handle_, pThreadAttr, lpStartAddress, pData);
            }
''','''                error = pthread_create(&handle, pThreadAttr, lpStartAddress, pData);
            }
            handle_ = handle;
'''),
('include/oqpi/threading/posix_thread.hpp','''                if(rlim.rlim_cur != 0)
                {''','''                const bool realTime = rlim.rlim_cur > 0;
                if(realTime)
                {'''),
('include/oqpi/threading/posix_thread.hpp','''            const auto prioFrac     = static_cast<float>(prio) / (int32_t(thread_priority::count)- 1);
            const auto posixPrio    = get_min_priority() + prioFrac * (get_max_priority() - get_min_priority());
            return ceil(posixPrio);''','''            const int steps = int(thread_priority::count) - 1;
            const int range = get_max_priority() - get_min_priority();
            return get_min_priority() + (int(prio) * range + steps - 1) / steps;'''),
(S+'task.hpp','''        return_type waitForResult()
        {
            wait();
            return getResult();''','''        return_type waitForResult()
        {
            if (!task_base::isDone())
            {
                wait();
            }
            return getResult();'''),
(S+'task_group.hpp','''            if(hTask.isValid())
            {
                if (oqpi_ensuref(hTask.getParentGroup() == nullptr,
                    "This task (%d) is already bound to a group: %d", hTask.getUID(), hTask.getParentGroup()->getUID()))
                {
                    hTask.setParentGroup(shared_from_this());
                    addTaskImpl(hTask);
                    _GroupContext::group_onTaskAdded(hTask);
                }
            }''','''            if (!hTask.isValid())
            {
                return;
            }
            if (oqpi_failedf(hTask.getParentGroup() == nullptr, "This task (%d) is already bound to a group", int(hTask.getUID())))
            {
                return;
            }
            const task_group_sptr spThis = shared_from_this();
            hTask.setParentGroup(spThis);
            addTaskImpl(hTask);
            _GroupContext::group_onTaskAdded(hTask);'''),
(S+'task_handle.hpp','''        void execute()
        {
            validate();''','''        void execute()
        {
            const auto spTask = spTask_;
            validate();'''),
(S+'worker_base.hpp','''            return ((1 << int(taskPriority)) & int(workerPriority)) != 0;''','''            return (int(workerPriority) >> int(taskPriority)) & 1;''') if 0 else
(S+'worker_base.hpp','''        return ((1 << int(taskPriority)) & int(workerPriority)) != 0;''','''        return (int(workerPriority) >> int(taskPriority)) & 1;'''),
(S+'sequence_group.hpp','''                while (!empty())
                {
                    auto hTask = popTask();
                    hTask.executeSingleThreaded();
                }''','''                for (; !tasks_.empty(); tasks_.pop())
                {
                    auto hTask = tasks_.front();
                    hTask.executeSingleThreaded();
                }'''),
('include/oqpi/parallel_algorithms/simple_partitioner.hpp','''            return (batchIndex > 0) ? lastIndexOfBatch(batchIndex - 1) : firstIndex_;''','''            return firstIndex_ + batchIndex * nbElementsPerBatch_ + ((batchIndex < remainder_) ? batchIndex : remainder_);'''),
('include/oqpi/parallel_algorithms/parallel_for.hpp','''        auto spPartitioner    = std::make_shared<_Partitioner>(partitioner);
''','''        const std::shared_ptr<_Partitioner> spPartitioner(new _Partitioner(partitioner));
'''),
('include/oqpi/error_handling.hpp','''        va_list argPtr;
        static const unsigned int bufferSize = 1 << 10;
        thread_local static char formattedMessage[bufferSize];
        va_start(argPtr, description);
        vsnprintf(formattedMessage, bufferSize, description, argPtr);
        va_end(argPtr);
''','''        va_list argPtr;
        static const unsigned int bufferSize = 1 << 10;
        char formattedMessage[bufferSize];
        va_start(argPtr, description);
        vsnprintf(formattedMessage, bufferSize, description, argPtr);
        va_end(argPtr);
'''),
]


R = '/tmp/rf/repo'
def apply(name, only=None):
    if not os.path.isdir(R):
        os.makedirs('/tmp/rf', exist_ok=True)
        subprocess.run(['git', 'clone', '-q', '/repo', R], check=True)
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
    for k, (f, o, n) in enumerate(SETS[name]):
        if only is not None and k not in only:
            continue
        p = os.path.join(R, f)
        t = open(p).read()
        if o is None:
            t = n
        else:
            if t.count(o) != 1:
                print(name, k, 'does not apply', f, t.count(o), flush=True)
                continue
            t = t.replace(o, n)
        open(p, 'w').write(t)
def main(args):
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, os.path.join(verif, 'tools'))
    from table import PROPS
    props = [a for a in args if a in PROPS] or sorted(PROPS)
    only = None
    for a in args:
        if a.startswith('only='):
            only = set(map(int, a[5:].split(',')))
    for name in [a for a in args if a in SETS]:
        apply(name, only)
        t = time.time()
        for p in props:
            r = subprocess.run(['python3', os.path.join(verif, 'check.py'), p, 'quick'], env=dict(os.environ, VERIF_REPO=R), cwd=verif, capture_output=True, text=True)
            if r.returncode:
                print(name, p, 'EXIT', r.returncode, r.stdout[-600:], r.stderr[-1500:], flush=True)
        print(name, 'done', round(time.time() - t), flush=True)
if __name__ == '__main__':
    main(sys.argv[1:])
