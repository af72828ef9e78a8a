// Native replay of a schedule found by the solver: only the thread that holds the token runs; it is handed over at the
// positions recorded in SYM_SCHEDULE (pairs: visible operations so far, thread; 1000+k: thread k is notified).
// Mirrors the scheduling rules of engine/interp.inc.
#include "sym.h"
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <mutex>
#include <thread>
#include <pthread.h>
#include <unistd.h>
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
}
enum { RUN, MUTEX, COND, JOIN, DONE };
static const int MAXN = 64;
struct Th
{
	int status;
	void* waitOn;
	pthread_mutex_t* waitMutex;
	int joinOn;
	bool yielded;
	pthread_cond_t token;
	pthread_t id;
};
static Th th[MAXN];
static int nth = 1, cur;
static __thread int self;
static bool sched, schedDone;
static long vis;
static long* tr;
static size_t trN, trPos;
static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER;
struct Owner { void* m; int o; };
static Owner owners[4096];
static int& owner(void* m)
{
	for (Owner& o : owners)
		if (o.m == m || !o.m) {
			o.m = m;
			return o.o;
		}
	abort();
}
static void loadTrace()
{
	static bool done;
	if (done) return;
	done = true;
	static long buf[100000];
	const char* p = getenv("SYM_SCHEDULE");
	FILE* f = p ? fopen(p, "r") : nullptr;
	if (!f) return;
	while (trN < 99999 && fscanf(f, "%ld", &buf[trN]) == 1) ++trN;
	fclose(f);
	tr = buf;
}
static bool next(long& who, bool notified)
{
	if (!sched || trPos + 1 >= trN || tr[trPos] != vis || (tr[trPos + 1] >= 1000) != notified)
		return false;
	who = tr[trPos + 1] % 1000;
	trPos += 2;
	return true;
}
static void end(int rc, const char* msg)
{
	fprintf(stderr, "%s\n", msg);
	_exit(rc);
}
static bool runnable(int i)
{
	switch (th[i].status) {
		case RUN: return true;
		case MUTEX: return owner(th[i].waitOn) == 0;
		case JOIN: return th[th[i].joinOn].status == DONE;
		default: return false;
	}
}
static void take(int i) // the token goes to thread i
{
	cur = i;
	th[i].yielded = false;
	if (th[i].status == MUTEX) { owner(th[i].waitOn) = i + 1; th[i].status = RUN; }
	else if (th[i].status == JOIN) th[i].status = RUN;
	__real_pthread_mutex_lock(&G);
	pthread_cond_signal(&th[i].token);
	__real_pthread_mutex_unlock(&G);
}
static void waitToken()
{
	__real_pthread_mutex_lock(&G);
	while (cur != self)
		pthread_cond_wait(&th[self].token, &G);
	__real_pthread_mutex_unlock(&G);
}
static void give(int i, bool wait = true)
{
	int me = self;
	take(i);
	if (i != me && wait) waitToken();
}
static void mustSwitch(bool wait = true)
{
	long to;
	int sel = -1;
	if (next(to, false)) {
		if (to >= nth || !runnable((int)to)) end(78, "the recorded schedule does not fit");
		sel = (int)to;
	}
	else
		for (int pass = 0; pass < 2 && sel < 0; ++pass)
			for (int k = 1; k <= nth && sel < 0; ++k) {
				int i = (self + k) % nth;
				if (pass == 0 && (i == self || th[i].yielded)) continue;
				if (runnable(i)) sel = i;
			}
	if (sel < 0) end(86, "DEADLOCK: no thread can run");
	schedDone = true;
	give(sel, wait);
}
static void point()
{
	if (!sched || nth < 2) return;
	if (schedDone) {
		schedDone = false;
		++vis;
		return;
	}
	long to;
	if (next(to, false)) {
		if (to >= nth || !runnable((int)to)) end(78, "the recorded schedule does not fit");
		schedDone = true;
		give((int)to);
		schedDone = false;
	}
	++vis;
}
extern "C" void native_sched_start(int n)
{
	loadTrace();
	sched = n != 0;
}
static void acquire(pthread_mutex_t* m)
{
	int& o = owner(m);
	if (o == self + 1) end(86, "DEADLOCK: mutex locked twice by the same thread");
	if (!o) { o = self + 1; return; }
	th[self].status = MUTEX;
	th[self].waitOn = m;
	mustSwitch();
}
struct State { virtual ~State(); virtual void _M_run() = 0; }; // layout of std::thread::_State
struct Start { State* st; int id; };
static void* run(void* p)
{
	Start* s = (Start*)p;
	self = s->id;
	waitToken();
	s->st->_M_run();
	delete s->st;
	free(s);
	th[self].status = DONE;
	mustSwitch(false);
	return nullptr;
}
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { point(); acquire(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	int& o = owner(m);
	if (o != self + 1) end(86, "mutex unlocked by a thread that does not hold it");
	o = 0;
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
	point();
	int& o = owner(m);
	if (o) return 16;
	o = self + 1;
	return 0;
}
int __wrap_sched_yield()
{
	if (nth > 1) { th[self].yielded = true; mustSwitch(); }
	return 0;
}
void __wrap__ZNSt18condition_variable10notify_oneEv(void* c)
{
	point();
	int w[MAXN], n = 0;
	for (int i = 0; i < nth; ++i)
		if (th[i].status == COND && th[i].waitOn == c) w[n++] = i;
	if (!n) return;
	long k = w[0];
	if (n > 1) { long x; if (next(x, true)) k = x; }
	th[k].status = MUTEX;
	th[k].waitOn = th[k].waitMutex;
}
void __wrap__ZNSt18condition_variable10notify_allEv(void* c)
{
	point();
	for (int i = 0; i < nth; ++i)
		if (th[i].status == COND && th[i].waitOn == c) { th[i].status = MUTEX; th[i].waitOn = th[i].waitMutex; }
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, std::unique_lock<std::mutex>* l)
{
	pthread_mutex_t* m = l->mutex()->native_handle();
	__wrap_pthread_mutex_unlock(m);
	th[self].status = COND;
	th[self].waitOn = c;
	th[self].waitMutex = m;
	mustSwitch();
}
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* t, State** st, void (*)())
{
	if (nth >= MAXN) abort();
	if (nth == 1) pthread_cond_init(&th[0].token, nullptr);
	Start* s = (Start*)malloc(sizeof(Start));
	s->st = *st;
	*st = nullptr;
	s->id = nth;
	th[nth].status = RUN;
	pthread_cond_init(&th[nth].token, nullptr);
	++nth;
	pthread_create(&th[s->id].id, nullptr, run, s);
	*(pthread_t*)t = th[s->id].id;
}
void __wrap__ZNSt6thread4joinEv(std::thread* t)
{
	int k = -1;
	for (int i = 1; i < nth; ++i)
		if (th[i].id == *(pthread_t*)t) k = i;
	if (k < 0) end(86, "join of a thread that is not joinable");
	point();
	if (th[k].status != DONE) {
		th[self].status = JOIN;
		th[self].joinOn = k;
		mustSwitch();
	}
	*(pthread_t*)t = 0;
}
// instrumented atomics
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_read_range(void*, unsigned long) {}
void __tsan_write_range(void*, unsigned long) {}
#define RW(n)                                   \
	void __tsan_read##n(void*) {}            \
	void __tsan_write##n(void*) {}           \
	void __tsan_unaligned_read##n(void*) {}  \
	void __tsan_unaligned_write##n(void*) {} \
	void __tsan_read_write##n(void*) {}      \
	void __tsan_unaligned_read_write##n(void*) {} \
	void __tsan_volatile_read##n(void*) { point(); }           \
	void __tsan_volatile_write##n(void*) { point(); }          \
	void __tsan_unaligned_volatile_read##n(void*) { point(); } \
	void __tsan_unaligned_volatile_write##n(void*) { point(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(b, T)                                                                                                   \
	T __tsan_atomic##b##_load(const volatile T* a, int) { point(); return *a; }                                \
	void __tsan_atomic##b##_store(volatile T* a, T v, int) { point(); *a = v; }                                \
	T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { point(); T o = *a; *a = v; return o; }            \
	T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { point(); T o = *a; *a = (T)(o + v); return o; }  \
	T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { point(); T o = *a; *a = (T)(o - v); return o; }  \
	T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { point(); T o = *a; *a = (T)(o & v); return o; }  \
	T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { point(); T o = *a; *a = (T)(o | v); return o; }   \
	T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { point(); T o = *a; *a = (T)(o ^ v); return o; }  \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }   \
	T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { point(); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
