// Single-threaded model: mutexes are no-ops (concurrency is out of scope).
#ifndef VF_MUTEX_H_
#define VF_MUTEX_H_
namespace absl {
class Mutex { public: void Lock() {} void Unlock() {} void lock() {} void unlock() {} };
class MutexLock { public: explicit MutexLock(Mutex*) {} explicit MutexLock(Mutex&) {} };
}
#endif
