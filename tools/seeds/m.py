M = "timeout_manager_impl.cc"
SEEDS = [
dict(id="m01-clear-after-callbacks", property="M01",
 needs="a callback that is told its timeout was cleared and adds another timeout",
 breaks="the timeouts are removed after the callbacks have run, so one that a callback adds meanwhile is dropped and its callback never runs",
 edits=[(M, """            cleared.insert(cleared.end(), by_id.begin(), by_id.end());
            _timeouts.clear();
        }
""", """            cleared.insert(cleared.end(), by_id.begin(), by_id.end());
        }
"""), (M, """        it->callback->Run(it->id, TimeoutManager::CLEARED);
    }
""", """        it->callback->Run(it->id, TimeoutManager::CLEARED);
    }
    ScopedLocker<MutexLock> _(_timeouts_lock);
    _timeouts.clear();
""")],
 demo=r'''
#include <sofa/pbrpc/timeout_manager.h>
using sofa::pbrpc::TimeoutManager;
static std::atomic<int> second(0), first(0);
static void on_second(TimeoutManager::Id, TimeoutManager::Type) { ++second; }
static void on_first(TimeoutManager* m, TimeoutManager::Id, TimeoutManager::Type t) {
    ++first;
    m->add(50, sofa::pbrpc::NewExtClosure(&on_second));
}
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    TimeoutManager m;
    m.add(100000, sofa::pbrpc::NewExtClosure(&on_first, &m));
    m.clear();
    EXPECT(first == 1, "the cleared timeout was told %d times", first.load());
    for (int i = 0; i < 100 && second == 0; ++i) msleep(20);
    EXPECT(second == 1, "a timeout added by a callback never ran");
    pass();
}
'''),
dict(id="m01-cleared-before-the-thread-ends", property="M01",
 needs="a manager destroyed while one of its callbacks runs, which then adds a timeout",
 breaks="what is left is cleared while the thread of the callbacks still runs, so a timeout added by a callback in progress is never told that it was cleared",
 edits=[(M, "    _thread_group->stop();\n\n    clear();\n", "    clear();\n\n    _thread_group->stop();\n")],
 demo=r'''
#include <sofa/pbrpc/timeout_manager.h>
using sofa::pbrpc::TimeoutManager;
static std::atomic<int> second(0), first(0);
static void on_second(TimeoutManager::Id, TimeoutManager::Type) { ++second; }
static void on_first(TimeoutManager* m, TimeoutManager::Id, TimeoutManager::Type t) {
    first = 1;
    msleep(400);
    m->add(100000, sofa::pbrpc::NewExtClosure(&on_second));
}
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    TimeoutManager* m = new TimeoutManager;
    m->add(10, sofa::pbrpc::NewExtClosure(&on_first, m));
    for (int i = 0; i < 500 && first == 0; ++i) msleep(5);
    EXPECT(first == 1, "the timeout did not expire");
    delete m;
    EXPECT(second == 1, "a timeout added by a callback was told %d times that it was cleared", second.load());
    pass();
}
'''),
dict(id="m01-runs-after-erase", property="M01",
 needs="two repeating timeouts of interval 0, one of which erases the other",
 breaks="a repeating timeout of interval 0 runs as expired after it was told that it was erased",
 edits=[(M, "        if (it->repeat_interval >= 0) {\n            // Maybe", "        if (it->repeat_interval > 0) {\n            // Maybe")],
 demo=r'''
#include <sofa/pbrpc/timeout_manager.h>
using sofa::pbrpc::TimeoutManager;
static TimeoutManager* m;
static TimeoutManager::Id ids[2];
static std::atomic<int> ready(0), late(0);
static std::atomic<int> erased[2];
static void on(int me, TimeoutManager::Id, TimeoutManager::Type t) {
    if (!ready) return;
    if (t == TimeoutManager::ERASED) { erased[me] = 1; return; }
    if (t == TimeoutManager::CLEARED) return;
    if (erased[me]) ++late;
    if (!erased[0] && !erased[1]) m->erase(ids[1 - me]);
}
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    m = new TimeoutManager;
    for (int i = 0; i < 2; ++i) ids[i] = m->add_repeating(0, sofa::pbrpc::NewPermanentExtClosure(&on, i));
    ready = 1;
    for (int i = 0; i < 500 && !erased[0] && !erased[1]; ++i) msleep(5);
    EXPECT(erased[0] + erased[1] == 1, "neither timeout erased the other");
    msleep(200);
    delete m;
    EXPECT(late == 0, "a timeout expired after it was erased");
    pass();
}
'''),
dict(id="m01-id-before-lock", property="M01",
 needs="several threads adding timeouts at once",
 breaks="the identifier is drawn before the lock is taken, so two timeouts may get the same one and the second is dropped without its callback ever running",
 edits=[(M, """    SCHECK(callback->IsSelfDelete());
    ScopedLocker<MutexLock> _(_timeouts_lock);
    Id id = _next_id++;
""", """    SCHECK(callback->IsSelfDelete());
    Id id = _next_id++;
    ScopedLocker<MutexLock> _(_timeouts_lock);
""")],
 demo=r'''
#include <sofa/pbrpc/timeout_manager.h>
using sofa::pbrpc::TimeoutManager;
static std::atomic<int> runs(0);
static void on(TimeoutManager::Id, TimeoutManager::Type) { ++runs; }
static const int N = 40000, T = 8;
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    TimeoutManager m;
    std::vector<std::thread> ts;
    for (int t = 0; t < T; ++t) ts.push_back(std::thread([&m] {
        for (int i = 0; i < N; ++i) m.add(100000000, sofa::pbrpc::NewExtClosure(&on));
    }));
    for (auto& t : ts) t.join();
    m.clear();
    EXPECT(runs == N * T, "%d of %d timeouts were told that they were cleared", runs.load(), N * T);
    pass();
}
'''),
]
