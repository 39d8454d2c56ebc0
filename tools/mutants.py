#!/usr/bin/env python3
"""Planted changes of the library, as (name, properties expected to notice, [(file below include/oqpi, old, new)...]).
mutants.py [name|property ...] applies each to a scratch clone of /repo and runs the checks named. Not used by any check."""
import os, re, subprocess, sys, tempfile, shutil

M = []
def m(name, props, *edits):
    M.append((name, props.split(), edits))
S = "scheduling/"; Y = "synchronization/"; T = "threading/"; A = "parallel_algorithms/"
SCH, TB, TG, PG, SQ, TK, TH, WK, WB, TR, TN, CC, HP = [S + x for x in ("scheduler.hpp", "task_base.hpp", "task_group.hpp", "parallel_group.hpp", "sequence_group.hpp", "task.hpp", "task_handle.hpp", "worker.hpp", "worker_base.hpp", "task_result.hpp", "task_notifier.hpp", "context_container.hpp", "x")]
HP = "scheduling_helpers.hpp"; Q = "concurrent_queue.hpp"
EV, SW, SE, MX = [Y + "posix/" + x for x in ("posix_event.hpp", "posix_semaphore_wrapper.hpp", "posix_semaphore.hpp", "posix_mutex.hpp")]
PT = T + "posix_thread.hpp"; IT = T + "interface_thread.hpp"; TT = T + "this_thread.hpp"

# ---- exactly once, waiting, waking
m("grab-not-atomic", "C01 C33", (TB, "bool expected = false;\n            return grabbed_.compare_exchange_strong(expected, true);", "if (grabbed_.load()) return false;\n            grabbed_.store(true);\n            return true;"))
m("grab-ignored-by-worker", "C01", (SCH, "if (hTask.tryGrab() && !hTask.isDone())", "hTask.tryGrab(); if (!hTask.isDone())"))
m("activewait-no-grab", "C01 C12", (TK, "if (task_base::tryGrab())\n            {\n                execute();\n            }\n            else\n            {\n                wait();\n            }", "if (!task_base::isGrabbed())\n            {\n                task_base::tryGrab(); execute();\n            }\n            else\n            {\n                wait();\n            }"))
m("activewait-skip-wait", "C02", (TK, "            else\n            {\n                wait();\n            }", ""))
m("group-activewait-no-wait-if-done", "C02 C05", (PG, "            this->wait();\n        }", "            if (activeTasksCount_.load() > 1) this->wait();\n        }"))
m("notify-before-run", "C02", (TK, "            // Run the task itself\n            task_result_type::run(func_);\n", "            // Run the task itself\n            if (!task_base::spParentGroup_) notifier_type::notify();\n            task_result_type::run(func_);\n"))
m("done-before-run", "C02 C33", (TK, "            task_result_type::run(func_);\n            // Flag the task as done\n            task_base::setDone();", "            task_base::setDone();\n            task_result_type::run(func_);"))
m("group-done-one-early", "C02 C05", (PG, "if (previousTaskCount == 1)", "if (previousTaskCount == (tasks_.size() > 3 ? 2 : 1))"))
m("wake-one-only", "C03", (SCH, "                    upWorker->notify();\n                }\n            }\n        }\n\n    private:", "                    upWorker->notify();\n                    if (prio == task_priority::low) break;\n                }\n            }\n        }\n\n    private:"))
m("wake-before-push", "C03", (SCH, "                pendingTasks_[int(priority)].push(hTask);\n                wakeUpWorkersWithPriority(priority);", "                wakeUpWorkersWithPriority(priority);\n                pendingTasks_[int(priority)].push(hTask);"))
m("drain-after-pump", "C03", (SCH, "                w.wait();\n                while (w.tryWait());", "                while (w.tryWait());\n                w.wait();"))
m("no-wakeup-if-idle-flag", "C03", (SCH, "unfinishedTasks_.fetch_add(1);\n                pendingTasks_[int(priority)].push(hTask);\n                wakeUpWorkersWithPriority(priority);", "const auto n = unfinishedTasks_.fetch_add(1);\n                pendingTasks_[int(priority)].push(hTask);\n                if (n < workersTotalCount()) wakeUpWorkersWithPriority(priority);"))
m("inherit-normal", "C08", (SCH, "if (priority == task_priority::inherit)", "if (priority == task_priority::inherit && hTask.getParentGroup() && hTask.getParentGroup()->getPriority() == task_priority::inherit) priority = task_priority::normal; else if (priority == task_priority::inherit)"))
m("prio-order-swap", "C07", (SCH, "for (auto prio = 0; prio < PRIO_COUNT; ++prio)\n                {\n                    if (w.can", "for (auto k = 0; k < PRIO_COUNT; ++k)\n                {\n                    const auto prio = k == 3 ? 4 : k == 4 ? 3 : k;\n                    if (w.can"))
m("prio-any-worker", "C08", (SCH, "if (w.canWorkOnPriority(task_priority(prio)))\n                    {", "if (w.canWorkOnPriority(task_priority(prio)) || (prio == 0 && w.canWorkOnPriority(task_priority(1))))\n                    {"))
m("lifo-queue", "C07 C17", (Q, "v = std::move(queue_.front());\n            queue_.pop();", "v = std::move(queue_.front());\n            queue_.pop();\n            if (queue_.size() > 3) { queue_.emplace(std::move(queue_.front())); queue_.pop(); }"))
# ---- sequences and parallel groups
m("seq-next-before-notify", "C04", (SQ, "            auto hTask = popTask();\n            if (hTask.tryGrab())\n            {\n                hTask.execute();\n            }", "            auto hTask = popTask();\n            if (hTask.tryGrab())\n            {\n                if (tasks_.size() > 2) { this->scheduler_.add(popTask()); }\n                hTask.execute();\n            }"))
m("seq-stops-early", "C04 C05", (SQ, "            if (!empty())\n            {\n                this->scheduler_.add(popTask());", "            if (tasks_.size() == 1 && this->priority_ == task_priority::inherit) { tasks_.pop(); this->notifyGroupDone(); return; }\n            if (!empty())\n            {\n                this->scheduler_.add(popTask());"))
m("par-counter-nonatomic", "C05 C01", (PG, "const auto previousTaskCount = activeTasksCount_.fetch_sub(1);", "const auto previousTaskCount = activeTasksCount_.load(); activeTasksCount_.store(previousTaskCount - 1);"))
m("par-two-notifies", "C05", (PG, "            if (previousTaskCount == 1)\n            {\n                this->notifyGroupDone();", "            if (activeTasksCount_.load() == 0)\n            {\n                this->notifyGroupDone();"))
m("limit-plus-one", "C06", (PG, "scheduledTasks < maxSimultaneousTasks_-1)", "scheduledTasks < maxSimultaneousTasks_)"))
m("limit-two-per-done", "C06", (PG, "                        this->scheduler_.add(tasks_[i]);\n                        break;", "                        this->scheduler_.add(tasks_[i]);\n                        if (i % 4 != 3) break;"))
m("limit-stall", "C03 C06", (PG, "            else if (maxSimultaneousTasks_ > 0)", "            else if (maxSimultaneousTasks_ > 1)"))
m("group-notify-parent-first", "C13", (TG, "            _GroupContext::group_onPostExecute();\n            notifier_type::notify();\n            task_base::notifyParent();", "            task_base::notifyParent();\n            _GroupContext::group_onPostExecute();\n            notifier_type::notify();"))
m("group-done-after-notify", "C02 C05", (TG, "            task_base::setDone();\n            _GroupContext::group_onPostExecute();\n            notifier_type::notify();\n            task_base::notifyParent();", "            _GroupContext::group_onPostExecute();\n            notifier_type::notify();\n            task_base::setDone();\n            task_base::notifyParent();"))
m("group-context-post-after-notify", "C13", (TG, "            _GroupContext::group_onPostExecute();\n            notifier_type::notify();\n            task_base::notifyParent();", "            notifier_type::notify();\n            _GroupContext::group_onPostExecute();\n            task_base::notifyParent();"))
m("task-post-after-notify", "C13", (TK, "            _TaskContext::task_onPostExecute();\n            // Signal that the task is done\n            notifier_type::notify();", "            notifier_type::notify();\n            _TaskContext::task_onPostExecute();"))
m("ctx-order", "C13", (CC, "contextContainer._Context::onPostExecute();\n            task_on_post_execute<_ContextContainer, _TContextList...>(contextContainer);", "task_on_post_execute<_ContextContainer, _TContextList...>(contextContainer);\n            contextContainer._Context::onPostExecute();"))
m("ctx-group-onadded-missing", "C13", (CC, "contextContainer._Context::onAddedToGroup(spParentGroup);\n            group_on_added_to_group<_ContextContainer, _TContextList...>(contextContainer, spParentGroup);", "contextContainer._Context::onAddedToGroup(spParentGroup);\n            if (spParentGroup && sizeof...(_TContextList) == 0) group_on_added_to_group<_ContextContainer, _TContextList...>(contextContainer, spParentGroup);"))
m("worker-idle-skipped", "C13", (WK, "_WorkerContext::worker_onActive();", "if (isRunning()) _WorkerContext::worker_onActive();"))
m("worker-post-wrong-handle", "C13", (WK, "worker_base::hTask_.execute();\n                    // Inform the context that we just finished the execution of a task\n                    _WorkerContext::worker_onPostExecute(worker_base::hTask_);", "_WorkerContext::worker_onPostExecute(worker_base::hTask_);\n                    worker_base::hTask_.execute();"))
# ---- stop, idle, registration
m("stop-no-join", "C09", (SCH, "                upWorker->join();", "                if (upWorker->getId() <= 0) upWorker->join();"))
m("stop-drops-queue", "C09", (SCH, "            running_.store(false);\n\n            wakeUpAllWorkers();", "            running_.store(false);\n            { task_handle h; pendingTasks_[int(task_priority::low)].tryPop(h); }\n            wakeUpAllWorkers();"))
m("stop-wakes-normal", "C09", (SCH, "            running_.store(false);\n\n            wakeUpAllWorkers();", "            running_.store(false);\n\n            wakeUpWorkersWithPriority(task_priority::normal);"))
m("stop-order", "C09", (SCH, "            running_.store(false);\n\n            wakeUpAllWorkers();", "            wakeUpAllWorkers();\n\n            running_.store(false);"))
m("idle-queue-only", "C16", (SCH, "            return unfinishedTasks_.load() == 0;", "            for (auto &q : pendingTasks_) if (!q.empty()) return false;\n            return true;"))
m("idle-leak-count", "C16", (SCH, "                                hTask.reset();\n                                unfinishedTasks_.fetch_sub(1);", "                                if (!hTask.isDone()) unfinishedTasks_.fetch_sub(1);\n                                hTask.reset();"))
m("workers-per-prio", "C32", (SCH, "workersPerPrio_[prio] += config.count;", "workersPerPrio_[prio] = std::max(workersPerPrio_[prio], config.count);"))
m("worker-name", "C32", (WK, "if (id_ >= 0)", "if (id_ > 0)"))
# ---- parallel algorithms
m("simple-remainder", "C11", (A + "simple_partitioner.hpp", "(elementCount_ >= maxBatches) ? (elementCount_ % batchCount_) : 0", "(elementCount_ > maxBatches) ? (elementCount_ % maxBatches) : 0"), (A + "simple_partitioner.hpp", "const auto offset = (batchIndex < remainder_) ? batchIndex + 1 : remainder_;", "const auto offset = (batchIndex + 1 == batchCount_) ? remainder_ : 0;"))
m("atomic-copy", "C11", (A + "atomic_partitioner.hpp", ", sharedIndex_(other.sharedIndex_.load())", ", sharedIndex_(other.firstIndex_)"))
m("simple-copy", "C11", (A + "simple_partitioner.hpp", ", batchIndex_           (other.batchIndex_.load())", ", batchIndex_           (0)"))
m("atomic-store", "C11 C10", (A + "atomic_partitioner.hpp", "if (sharedIndex_.compare_exchange_strong(expectedIndex, expectedIndex + count))", "sharedIndex_.store(expectedIndex + count); if (true)"))
m("atomic-fetch-add-overflow", "C11", (A + "atomic_partitioner.hpp", "auto expectedIndex = sharedIndex_.load();", "auto expectedIndex = sharedIndex_.fetch_add(0);"), (A + "atomic_partitioner.hpp", "const auto count = std::min<int32_t>(lastIndex_ - expectedIndex, indicesToGrab_);", "const auto count = expectedIndex + indicesToGrab_ > lastIndex_ ? lastIndex_ - expectedIndex : indicesToGrab_;"))
m("pf-batch-from-one", "C10", (A + "parallel_for.hpp", "details::parallel_for_call(func, batchIndex, elementIndex);", "details::parallel_for_call(func, batchIndex + (nbBatches > 3 ? 1 : 0), elementIndex);"), (A + "parallel_for.hpp", "[batchIndex, func, spPartitioner]", "[batchIndex, func, spPartitioner, nbBatches]"))
m("pf-one-range", "C10", (A + "parallel_for.hpp", "while (spPartitioner->getNextValidRange(first, last))", "if (spPartitioner->getNextValidRange(first, last))"))
m("pf-shared-func", "C10", (A + "parallel_for.hpp", "[batchIndex, func, spPartitioner]", "[batchIndex, &func, spPartitioner]"))
# ---- tasks, results, memory
m("args-by-ref", "C12", (TK, "args = std::make_tuple(std::forward<_Args>(args)...)", "args = std::forward_as_tuple(std::forward<_Args>(args)...)"))
m("result-moved", "C12", (TR, "        _ReturnType getResult() const\n        {\n            return result_;", "        _ReturnType getResult() const\n        {\n            return std::move(const_cast<_ReturnType &>(result_));"))
m("uid-nonatomic", "C33", (TB, "static std::atomic<task_uid> uid_generator(1);\n            return uid_generator.fetch_add(1);", "static std::atomic<task_uid> uid_generator(1);\n            const auto uid = uid_generator.load(); uid_generator.store(uid + 1); return uid;"))
m("uid-zero", "C33", (TB, "uid_generator(1);\n            return uid_generator.fetch_add(1);", "uid_generator(0);\n            return uid_generator.fetch_add(1);"))
m("handle-move-copy", "C33", (TH, "                spTask_ = std::move(rhs.spTask_);", "                spTask_ = rhs.spTask_;"))
m("worker-keeps-handle", "C14", (WK, "                    worker_base::hTask_.reset();\n                    // Let", "                    // Let"), (SCH, "w.assign(std::move(hTask));", "w.hTaskReset(); w.assign(std::move(hTask));"), (WB, "        bool isAvailable() const\n        {\n            return !hTask_.isValid();", "        void hTaskReset() { hTask_.reset(); }\n        bool isAvailable() const\n        {\n            return true;"), (WK, "if (worker_base::hTask_.isValid())", "if (worker_base::hTask_.isValid() && !worker_base::hTask_.isDone())"))
# ---- single threaded
m("st-group-no-notify", "C30", (TG, "            task_base::setDone();\n            notifier_type::notify();\n        }\n\n        //------------------------------------------------------------------------------------------\n        virtual void wait()", "            task_base::setDone();\n        }\n\n        //------------------------------------------------------------------------------------------\n        virtual void wait()"))
m("st-reverse", "C30", (PG, "tasks_[i].executeSingleThreaded();", "tasks_[taskCount > 3 ? taskCount - 1 - i : i].executeSingleThreaded();"))
m("st-task-no-done", "C30", (TK, "        virtual void executeSingleThreaded() override final\n        {\n            if (task_base::tryGrab())\n            {\n                invoke();", "        virtual void executeSingleThreaded() override final\n        {\n            if (task_base::tryGrab())\n            {\n                task_result_type::run(func_); task_base::setDone(); notifier_type::notify();"))
# ---- synchronization
m("sem-notify-capped", "C18", (SE, "for(auto i = 0; i < count; ++i)", "for(auto i = 0; i < count && sem_.getValue() < maxCount_ - 1; ++i)"))
m("sem-notifyall-one", "C18", (SE, "notify(maxCount_);", "notify(maxCount_ > 8 ? 8 : maxCount_);"))
m("sem-move-max", "C24", (SE, "                maxCount_   = rhs.maxCount_;\n", ""))
m("mutex-unlock-racy", "C19", (MX, "            if (semValue >= 1)\n", "            if (semValue >= 2)\n"))
m("mutex-open-resets", "C19 C23", (MX, "sem_                    = posix_semaphore_wrapper(name, creationOption, initCount);", "sem_                    = posix_semaphore_wrapper(name, creationOption, initCount); if (creationOption == sync_object_creation_options::open_existing && !lockOnCreation && sem_.isValid() && sem_.getValue() == 0) sem_.post();"))
m("event-notify-accumulates", "C20", (EV, "if (sem_.getValue() < 1)", "if (sem_.getValue() < 2)"))
m("event-manual-waitfor-consumes", "C21", (EV, "            if (!sem_.waitFor(relTime))\n            {\n                return false;\n            }\n\n            // Only if its a manual reset event, then we also want to signal other potential waiters.\n            // increment lock. Snowball effect.\n            if (_ResetPolicy::is_manual_reset_enabled())", "            if (!sem_.waitFor(relTime))\n            {\n                return false;\n            }\n\n            if (_ResetPolicy::is_manual_reset_enabled() && relTime.count() > 0)"))
m("event-reset-once", "C21", (EV, "while (sem.tryWait());", "sem.tryWait();"), (EV, "if (sem_.getValue() < 1)", "if (sem_.getValue() < 2)"))
m("timed-carry", "C22", (SW, "if (t.tv_nsec >= nsPerSec)", "if (t.tv_nsec > nsPerSec)"))
m("timed-truncated", "C22", (SW, "std::chrono::duration_cast<std::chrono::nanoseconds>(relTime)", "std::chrono::nanoseconds(std::chrono::duration_cast<std::chrono::microseconds>(relTime))"))
m("until-wrong-clock", "C22", (Y + "interface/interface_event.hpp", "return waitFor(absTime - _Clock::now());", "return waitFor(std::chrono::duration_cast<std::chrono::milliseconds>(absTime - _Clock::now()));"))
m("eintr-timed", "C25", (SW, "error = sem_timedwait(handle_, &t);\n            } while (error == -1 && errno == EINTR);", "error = sem_timedwait(handle_, &t);\n            } while (false);"))
m("eintr-retry-once", "C25", (SW, "                error = sem_wait(handle_);\n            } while (error == -1 && errno == EINTR);", "                error = sem_wait(handle_);\n                if (error == -1 && errno == EINTR) error = sem_wait(handle_);\n            } while (false);"))
m("name-unlink-nobody", "C23", (SW, "            if (isCreator_)\n            {\n                sem_unlink", "            if (isCreator_ && getValue() >= 0 && name_.size() < 9)\n            {\n                sem_unlink"))
m("name-create-opens", "C23", (SW, "handle_     = sem_open(name_.c_str(), O_CREAT | O_EXCL,", "handle_     = sem_open(name_.c_str(), creationOption == sync_object_creation_options::open_or_create ? O_CREAT : O_CREAT | O_EXCL,"))
m("move-keeps-creator", "C23 C24", (SW, "                rhs.isCreator_  = false;\n", ""), (SW, "            if (handle_)\n            {\n                const auto isLocal", "            if (!handle_ && isCreator_ && !name_.empty()) { sem_unlink(name_.c_str()); }\n            if (handle_)\n            {\n                const auto isLocal"))
m("move-assign-leak", "C24", (SW, "                release();\n\n                handle_         = rhs.handle_;", "                if (name_.empty()) release();\n\n                handle_         = rhs.handle_;"))
m("move-assign-name", "C24", (SW, "                name_           = rhs.name_;\n", "                if (name_.empty()) name_ = rhs.name_;\n"))
# ---- queue
m("queue-empty-check-outside", "C17 C15", (Q, "    bool tryPop(typename std::queue<T>::reference v)\n    {\n        lock_t __l(mutex_);\n        if (!queue_.empty())", "    bool tryPop(typename std::queue<T>::reference v)\n    {\n        if (queue_.empty()) return false;\n        lock_t __l(mutex_);\n        if (!queue_.empty())"))
m("queue-pop-no-lock2", "C17 C15", (Q, "    bool tryPop(typename std::queue<T>::reference v)\n    {\n        lock_t __l(mutex_);\n        if (!queue_.empty())\n        {\n            v = std::move(queue_.front());\n            queue_.pop();\n            return true;\n        }\n        return false;", "    bool tryPop(typename std::queue<T>::reference v)\n    {\n        {\n            lock_t __l(mutex_);\n            if (queue_.empty()) return false;\n            v = std::move(queue_.front());\n        }\n        lock_t __l(mutex_);\n        if (!queue_.empty()) queue_.pop();\n        return true;"))
# ---- threads
m("thread-move-keeps", "C26", (PT, "                handle_     = rhs.handle_;\n                rhs.handle_ = 0;", "                std::swap(handle_, rhs.handle_); if (handle_) rhs.handle_ = handle_;"))
m("thread-prio-floor", "C27", (PT, "return ceil(posixPrio);", "return (int)posixPrio;"))
m("thread-affinity-int", "C27", (PT, "memcpy(&set.__bits, &affinityMask, sizeof(affinityMask));", "memcpy(&set.__bits, &affinityMask, 1);"))
m("thread-stack", "C27", (PT, "if(attributes.stackSize_ > 0)", "if(attributes.stackSize_ > 65536 * 2)"))
m("thread-fail-joinable", "C28", (PT, "                handle_ = 0;\n                oqpi_error(\"pthread_create failed", "                oqpi_error(\"pthread_create failed"))
m("thread-fail-leak", "C28", (IT, "if (thread_impl::template create<launcher_t>(attributes, upLauncher.get()))\n            {\n                // If the thread creation succeeded, we transfer the ownership of the launcher to it.\n                upLauncher.release();\n            }", "auto p = upLauncher.release(); thread_impl::template create<launcher_t>(attributes, p);"))
m("sleep-interrupted", "C29", (PT, "while (nanosleep(&t, &t) == -1 && errno == EINTR);", "nanosleep(&t, &t);"))
m("sleep-restart-full", "C29", (PT, "while (nanosleep(&t, &t) == -1 && errno == EINTR);", "timespec r{}; if (nanosleep(&t, &r) == -1 && errno == EINTR) nanosleep(&r, nullptr);"))
m("sleep-micros", "C29", (PT, "const auto nanoseconds = std::chrono::duration_cast<std::chrono::nanoseconds>(relTime).count();", "const auto nanoseconds = std::chrono::duration_cast<std::chrono::microseconds>(relTime).count() * 1000;"))
m("sleep-until-trunc", "C29", (TT, "sleep_for(absTime - _Clock::now());", "sleep_for(std::chrono::duration_cast<std::chrono::microseconds>(absTime - _Clock::now()));"))
# ---- helpers
m("h-ff-default-prio", "C31", (HP, "self_type::fire_and_forget_task(name, default_priority, std::forward<_Func>(f)", "self_type::fire_and_forget_task(name, task_priority::low, std::forward<_Func>(f)"))
m("h-group-args-swapped", "C31", (HP, "return self_type::make_parallel_group<_TaskType, _DefaultGroupContext>(name, prio, taskCount, maxSimultaneousTasks);", "return self_type::make_parallel_group<_TaskType, _DefaultGroupContext>(name, prio, maxSimultaneousTasks, taskCount);"))
m("h-fork-prio", "C31", (HP, "self_type::make_parallel_group<_TaskType, _GroupContext>(name, prio, sizeof...(taskHandles));", "self_type::make_parallel_group<_TaskType, _GroupContext>(name, default_priority, sizeof...(taskHandles));"))
m("h-fork-limit", "C31", (HP, "self_type::make_parallel_group<_TaskType, _GroupContext>(name, prio, sizeof...(taskHandles));", "self_type::make_parallel_group<_TaskType, _GroupContext>(name, prio, sizeof...(taskHandles), 2);"))
m("h-add-order", "C31", (HP, "            add_to_group(spGroup, std::forward<task_handle>(taskHandle));\n            add_to_group(spGroup, std::forward<_TaskHandles>(taskHandles)...);", "            add_to_group(spGroup, std::forward<_TaskHandles>(taskHandles)...);\n            add_to_group(spGroup, std::forward<task_handle>(taskHandle));"))
m("h-pfe-ctx", "C31", (HP, "self_type::parallel_for_each<_DefaultGroupContext, _DefaultTaskContext>(name, container, partitioner, prio,", "self_type::parallel_for_each<_DefaultGroupContext, empty_task_context>(name, container, partitioner, prio,"))
m("h-pf-count", "C31", (HP, "oqpi::simple_partitioner(firstIndex, lastIndex, scheduler_.workersCount(priority))", "oqpi::simple_partitioner(firstIndex, lastIndex, scheduler_.workersTotalCount() * 2)"))
m("h-item-waitable", "C31", (HP, "return self_type::make_task<task_type::fire_and_forget, _TaskContext, _Func>", "return self_type::make_task<task_type::waitable, _TaskContext, _Func>"))
M = [x for x in M if all(e[1] for e in x[2])]


def main():
    want = sys.argv[1:]
    d = tempfile.mkdtemp(prefix="mutants-")
    r = d + "/repo"
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    try:
        missed = []
        for name, props, edits in M:
            if want and name not in want and not set(props) & set(want):
                continue
            subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
            for f, o, n in edits:
                p = f"{r}/include/oqpi/{f}"
                s = open(p).read()
                if o not in s:
                    print(f"{name}: text not found in {f}: {o[:60]!r}")
                    break
                open(p, "w").write(s.replace(o, n, 1))
            else:
                res = []
                for p in props:
                    if want and name not in want and p not in want:
                        continue
                    x = subprocess.run(["python3", "/verif/check.py", p], env=dict(os.environ, VERIF_REPO=r, VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                    k = re.search(rf"{p}: (.*)", x.stderr)
                    res.append(f"{p}:{ {0: 'MISSED', 1: 'caught'}.get(x.returncode, 'ERROR')}" + (f" ({k.group(1)[:90]})" if k and x.returncode == 1 else f" {x.stderr[-600:]}" if x.returncode > 1 else ""))
                    if x.returncode != 1:
                        missed.append((name, p))
                print(f"{name}: " + "; ".join(res), flush=True)
        print("missed:", missed)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    main()
