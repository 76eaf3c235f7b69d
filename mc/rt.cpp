#include "rt.h"
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#define _FORTIFY_SOURCE 0
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <linux/futex.h>
#include <dirent.h>
#include <malloc.h>
#include <sched.h>
#include <time.h>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_map>
#include <deque>
#include <memory>
#include <atomic>

#define REAL(name) (real_##name ? real_##name : (real_##name = (decltype(real_##name))dlsym(RTLD_NEXT, #name)))

static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_pthread_join)(pthread_t, void**);
static int (*real_pthread_detach)(pthread_t);
static int (*real_pthread_mutex_lock)(pthread_mutex_t*);
static int (*real_pthread_mutex_trylock)(pthread_mutex_t*);
static int (*real_pthread_mutex_unlock)(pthread_mutex_t*);
static int (*real_pthread_cond_wait)(pthread_cond_t*, pthread_mutex_t*);
static int (*real_pthread_cond_signal)(pthread_cond_t*);
static int (*real_pthread_cond_broadcast)(pthread_cond_t*);
static int (*real_pthread_rwlock_rdlock)(pthread_rwlock_t*);
static int (*real_pthread_rwlock_wrlock)(pthread_rwlock_t*);
static int (*real_pthread_rwlock_tryrdlock)(pthread_rwlock_t*);
static int (*real_pthread_rwlock_trywrlock)(pthread_rwlock_t*);
static int (*real_pthread_rwlock_unlock)(pthread_rwlock_t*);
static int (*real_pthread_once)(pthread_once_t*, void (*)());
static ssize_t (*real_read)(int, void*, size_t);
static ssize_t (*real_write)(int, const void*, size_t);
static int (*real_close)(int);
static int (*real_dup2)(int, int);
static int (*real_dup)(int);
static int (*real_pipe)(int*);
static int (*real_pipe2)(int*, int);
static int (*real_fcntl)(int, int, ...);
static pid_t (*real_fork)();
static pid_t (*real_waitpid)(pid_t, int*, int);
static int (*real_execve)(const char*, char* const*, char* const*);
static int (*real_sched_yield)();
static int (*real_nanosleep)(const struct timespec*, struct timespec*);
static struct dirent* (*real_readdir)(DIR*);
static int (*real_closedir)(DIR*);

extern "C" void json_object_seed(size_t) __attribute__((weak));
namespace mc
{
namespace
{
	uint64_t mix(uint64_t a, uint64_t b)
	{
		uint64_t x = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C159E3779B9ull;
		x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31;
		return x;
	}

	using VC = std::vector<uint32_t>;
	void joinVC(VC& a, VC const& b)
	{
		if(b.size() > a.size()) a.resize(b.size());
		for(size_t i = 0; i < b.size(); ++i) if(b[i] > a[i]) a[i] = b[i];
	}

	struct Proc;
	struct Th
	{
		int id{};
		pthread_t real{};
		int go{0};
		bool started{false}, finished{false}, joined{false}, detached{false};
		void* ret{nullptr};
		std::function<void()> fn;
		void* (*start)(void*){nullptr};
		void* arg{nullptr};
		bool blocked_pred{false};
		std::function<bool()> enabled;  // valid when blocked_pred
		char const* what{"start"};
		void const* what_obj{nullptr};
		bool cond_waiting{false};   // inside a cond wait, not yet signalled (for spurious wakeups)
		bool signaled{false};
		bool spurious_ok{false};
		pthread_mutex_t* cond_mtx{nullptr};
		void const* cond{nullptr};
		bool timed{false};
		uint64_t hash{1};
		VC vc;
		Proc* child{nullptr};       // simulated child between fork and exec
		char* stack_lo{nullptr};
		char* stack_hi{nullptr};
		bool in_guard{false};
		uint32_t consecutive{0};
		bool vproc{false};
	};

	struct Mtx { Th* owner{nullptr}; int count{0}; uint64_t hash{2}; VC vc; };
	struct Rw { Th* writer{nullptr}; int readers{0}; uint64_t hash{3}; VC vc; VC rvc; };
	struct Cv { std::deque<Th*> waiters; uint64_t hash{4}; VC vc; };
	struct Obj { uint64_t hash{5}; VC vc; int first{-1}; bool shared{false}; };

	struct Pipe { std::deque<char> buf; size_t cap; int readers{0}; int writers{0}; Obj obj; };
	struct Fd { int kind; /*1 r,2 w,3 real*/ std::shared_ptr<Pipe> p; bool cloexec; int real; };
	struct Proc
	{
		int pid; int ppid;
		std::map<int, Fd> fds;
		bool exec_done{false};
		bool exited{false}, reaped{false};
		int status{0};
		Th* th{nullptr};
		Obj obj;
	};

	struct State
	{
		bool active{false};
		Options opt;
		Result* res{nullptr};
		std::vector<Dev> devs;
		size_t next_dev{0};
		std::vector<std::unique_ptr<Th>> ths;
		Th* cur{nullptr};
		std::unordered_map<void const*, Mtx> mtx;
		std::unordered_map<void const*, Rw> rw;
		std::unordered_map<void const*, Cv> cv;
		std::unordered_map<void const*, Obj> atom;
		std::unordered_map<void const*, Obj> evt;
		uint32_t steps{0};
		uint32_t np{0};
		bool explore{true};
		std::string trace;
		Obj pthread_once_obj;
		std::map<int, std::unique_ptr<Proc>> procs;
		Proc* main_proc{nullptr};
		int next_pid{1 << 28};   // never a real pid
		ProcEnv env;
		int n_pipe{0}, n_fork{0}, n_thr{0};
		int rdperm{0};
		uint64_t stamp{0};
		uint64_t rd_epoch{0};
		Obj fs;
		std::string trigger;
	};
	State* S = nullptr;
	thread_local Th* tl = nullptr;
	std::atomic<bool> g_active{false};
	thread_local int tl_rt = 0;    // >0: inside runtime; hooks pass through

	struct RtScope { RtScope() { ++tl_rt; } ~RtScope() { --tl_rt; } };

	bool on() { return g_active.load(std::memory_order_relaxed) && tl != nullptr && tl_rt == 0; }

	void fwait(int* a) { while(__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
	void fwake(int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

	[[noreturn]] void done(int verdict, char const* tag, std::string const& msg, uint64_t outcome)
	{
		auto r = S->res;
		r->npoints = S->np;
		r->nsteps = S->steps;
		r->nthreads = S->ths.size();
		r->outcome = outcome;
		snprintf(r->tag, sizeof r->tag, "%s", tag);
		snprintf(r->msg, sizeof r->msg, "%s", msg.c_str());
		if(S->opt.trace)
		{
			size_t n = std::min(S->trace.size(), sizeof(r->trace) - 1);
			memcpy(r->trace, S->trace.data() + (S->trace.size() - n), n);
			r->trace[n] = 0;
		}
		__atomic_store_n(&r->verdict, verdict, __ATOMIC_RELEASE);
		syscall(SYS_exit_group, 0);
		__builtin_unreachable();
	}

	void tr(std::string const& s)
	{
		if(S->opt.trace && S->trace.size() < 8u << 20) { S->trace += s; S->trace += '\n'; }
	}

	bool isEnabled(Th* t)
	{
		if(t->finished || !t->started) return false;
		if(t->blocked_pred) return t->enabled();
		return true;
	}

	uint64_t stateSig()
	{
		uint64_t s = 0;
		for(auto& t: S->ths)
			s += mix(mix(t->id + 1, t->hash), mix(t->finished ? 77 : t->blocked_pred, (uintptr_t)t->what));
		return s;
	}

	std::string describe()
	{
		std::string m;
		for(auto& t: S->ths)
		{
			if(t->finished) continue;
			char b[200];
			snprintf(b, sizeof b, "T%d%s: %s obj=%p%s%s\n", t->id, t->vproc ? "(proc)" : "", t->what, t->what_obj,
			         t->blocked_pred ? " BLOCKED" : "", t->cond_waiting ? " (cond wait)" : "");
			m += b;
		}
		return m;
	}

	uint32_t takeChoice(uint32_t n, uint8_t flags, uint64_t sig)
	{
		uint32_t c = 0;
		if(!S->explore && !(S->next_dev < S->devs.size())) { return 0; }
		if(!S->explore) { return 0; }
		uint32_t idx = S->np;
		if(idx >= MaxPoints) done(V_OVERFLOW, "overflow", "too many scheduling points", 0);
		if(S->next_dev < S->devs.size() && S->devs[S->next_dev].idx == idx)
		{
			c = S->devs[S->next_dev].choice;
			++S->next_dev;
			if(c >= n) done(V_DIVERGED, "diverged", "replay divergence: choice out of range", 0);
			if(S->devs[S->next_dev - 1].sig && S->devs[S->next_dev - 1].sig != sig) done(V_DIVERGED, "diverged", "replay divergence: different state at scheduling point " + std::to_string(idx), 0);
		}
		if(S->opt.trace && getenv("MC_SIGS"))
		{
			std::string l = std::to_string(idx) + " sig " + std::to_string(sig) + " :";
			for(auto& t: S->ths) l += " T" + std::to_string(t->id) + "=" + std::to_string(t->hash) + (t->finished ? "F" : t->blocked_pred ? "B" : "");
			l += "\n";
			syscall(SYS_write, 199, l.data(), l.size());
		}
		auto& p = S->res->points[idx];
		p.sig = sig;
		p.cur = S->cur ? S->cur->id : 0xffff;
		p.n = (uint8_t)std::min<uint32_t>(n, 255);
		p.flags = flags;
		S->np = idx + 1;
		return c;
	}

	// coarse mode: operations that touch only objects private to one child process run (its pipes, its process entry) or
	// to one thread commute with every operation of the other threads; they are performed first, without branching
	bool invisible(Th* t)
	{
		static std::set<std::string> const one{"start", "pipe", "close", "fork", "read", "write", "proc-close", "proc-exit", "waitpid", "join", "once", "guard", "fs-write"};
		if(one.count(t->what)) return true;
		return S->opt.coarse >= 2 && !strcmp(t->what, "stdio");
	}

	// choose the next thread to run. cur may be null (thread exiting)
	Th* choose(bool cur_counts)
	{
		Th* cur = S->cur;
		std::vector<Th*> en;
		if(S->opt.coarse)
		{
			if(cur_counts && cur && isEnabled(cur) && invisible(cur)) return cur;
			for(auto& t: S->ths) if(t.get() != cur && isEnabled(t.get()) && invisible(t.get())) return t.get();
		}
		bool cur_en = cur_counts && cur && isEnabled(cur);
		// fairness: a thread that has run very long while others are enabled is deprioritised
		bool starved = cur_en && cur->consecutive > 4000;
		if(cur_en && !starved) en.push_back(cur);
		size_t N = S->ths.size();
		size_t base = cur ? cur->id + 1 : 0;
		for(size_t k = 0; k < N; ++k)
		{
			Th* t = S->ths[(base + k) % N].get();
			if(t == cur) continue;
			if(isEnabled(t)) en.push_back(t);
		}
		if(cur_en && starved) { en.push_back(cur); cur->consecutive = 0; }
		if(en.empty())
		{
			for(auto& t: S->ths)
				if(!t->finished && t->started && t->timed && t->cond_waiting) { t->signaled = true; t->timed = false; t->cond_waiting = false; }
			for(size_t k = 0; k < N; ++k)
			{
				Th* t = S->ths[(base + k) % N].get();
				if(isEnabled(t)) { en.push_back(t); break; }
			}
		}
		if(en.empty())
		{
			bool all_fin = true;
			for(auto& t: S->ths) if(!t->finished) all_fin = false;
			if(all_fin) done(V_HARNESS, "harness", "all threads finished without finish()", 0);
			done(V_DEADLOCK, "deadlock", "no thread can make progress:\n" + describe(), 0);
		}
		size_t n_real = en.size();
		if(S->opt.spurious)
		{
			for(auto& t: S->ths)
				if(!t->finished && t->started && t->cond_waiting && !t->signaled && t->spurious_ok)
				{
					auto i = S->mtx.find(t->cond_mtx);
					if(i == S->mtx.end() || i->second.owner == nullptr) en.push_back(t.get());
				}
		}
		Th* pick = en[0];
		if(en.size() > 1 && !starved)
		{
			uint8_t flags = cur_en ? 1 : 0;
			if(n_real < 2) flags |= 1;
			auto c = takeChoice(en.size(), flags, mix(stateSig(), en.size()));
			pick = en[c];
			if(c >= n_real)
			{
				pick->signaled = true;
				pick->cond_waiting = false;
				pick->hash = mix(pick->hash, 991);
				auto& w = S->cv[pick->cond].waiters;
				w.erase(std::remove(w.begin(), w.end(), pick), w.end());
			}
		}
		if(pick == cur) { ++pick->consecutive; } else { pick->consecutive = 0; }
		return pick;
	}

	void switchTo(Th* next, Th* self)
	{
		S->cur = next;
		if(next == self) return;
		fwake(&next->go);
		if(self) fwait(&self->go);
	}

	// publish the next operation, let the scheduler decide, return when we may perform it
	void sched(char const* what, void const* obj)
	{
		Th* t = tl;
		t->what = what;
		t->what_obj = obj;
		t->blocked_pred = false;
		if(++S->steps > S->opt.max_steps) done(V_LIVELOCK, "livelock", "step limit exceeded:\n" + describe(), 0);
		Th* n = choose(true);
		switchTo(n, t);
		if(S->opt.trace) { char b[128]; snprintf(b, sizeof b, "T%d %s %p", t->id, what, obj); tr(b); }
	}

	void schedBlock(char const* what, void const* obj, std::function<bool()> en)
	{
		Th* t = tl;
		t->what = what;
		t->what_obj = obj;
		t->enabled = std::move(en);
		t->blocked_pred = true;
		if(++S->steps > S->opt.max_steps) done(V_LIVELOCK, "livelock", "step limit exceeded:\n" + describe(), 0);
		Th* n = choose(true);
		switchTo(n, t);
		t->blocked_pred = false;
		if(S->opt.trace) { char b[128]; snprintf(b, sizeof b, "T%d %s %p", t->id, what, obj); tr(b); }
	}

	void touch(uint64_t& oh, uint64_t kind, uint64_t val = 0)
	{
		Th* t = tl;
		uint64_t h = mix(mix(t->hash, oh), mix(kind, val));
		t->hash = h;
		oh = h;
	}
	void tick(Th* t) { if((int)t->vc.size() <= t->id) t->vc.resize(t->id + 1); ++t->vc[t->id]; }
	void acq(VC const& v) { joinVC(tl->vc, v); }
	void rel(VC& v) { joinVC(v, tl->vc); tick(tl); }
	void relSet(VC& v) { v = tl->vc; tick(tl); }

	void clearShadow(void* p, size_t n);
	pthread_t (*real_self)() = nullptr;
	pthread_t realSelf()
	{
		if(!real_self) real_self = (pthread_t(*)())dlsym(RTLD_NEXT, "pthread_self");
		return real_self();
	}

	void* trampoline(void* p)
	{
		Th* t = (Th*)p;
		tl = t;
		{
			RtScope rs;
			pthread_attr_t a;
			pthread_getattr_np(realSelf(), &a);
			void* lo; size_t sz;
			pthread_attr_getstack(&a, &lo, &sz);
			pthread_attr_destroy(&a);
			t->stack_lo = (char*)lo;
			t->stack_hi = (char*)lo + sz;
			fwait(&t->go);
			clearShadow(t->stack_lo, 0);
			if(S->opt.trace) { char b[64]; snprintf(b, sizeof b, "T%d begins", t->id); tr(b); }
		}
		void* r = nullptr;
		if(t->start) r = t->start(t->arg); else t->fn();
		{
			RtScope rs;
			t->ret = r;
			t->finished = true;
			tick(t);
			if(S->opt.trace) { char b[64]; snprintf(b, sizeof b, "T%d ends", t->id); tr(b); }
			S->cur = t;
			Th* n = choose(false);
			S->cur = n;
			fwake(&n->go);
		}
		tl = nullptr;
		return r;
	}

	Th* newThread()
	{
		auto t = std::make_unique<Th>();
		t->id = S->ths.size();
		if(t->id > 4000) done(V_OVERFLOW, "overflow", "too many threads", 0);
		if(tl) { t->vc = tl->vc; tick(tl); t->hash = mix(tl->hash, 0xabc); tl->hash = mix(tl->hash, 0xabd); }
		tick(t.get());
		Th* p = t.get();
		S->ths.push_back(std::move(t));
		return p;
	}

	void startThread(Th* t)
	{
		t->started = true;
		pthread_attr_t a;
		pthread_attr_init(&a);
		pthread_attr_setstacksize(&a, 2048 * 1024);
		pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
		int e = REAL(pthread_create)(&t->real, &a, trampoline, t);
		pthread_attr_destroy(&a);
		if(e) done(V_HARNESS, "harness", "real pthread_create failed", 0);
	}

	// ------------------------------------------------------------------ race detection
	struct Slot { uint32_t clk; uint16_t tid; uint8_t mask; uint8_t fl; /*1 write 2 atomic 4 valid*/ uintptr_t pc; };
	struct Cell { Slot s[4]; };
	std::unordered_map<uintptr_t, Cell>* shadow = nullptr;

	void clearRange(uintptr_t lo, uintptr_t hi)
	{
		if(!shadow) return;
		uintptr_t a = lo & ~7ull, b = (hi + 7) & ~7ull;
		if((b - a) / 8 > shadow->size())
		{
			for(auto i = shadow->begin(); i != shadow->end();)
				if(i->first >= a && i->first < b) i = shadow->erase(i); else ++i;
			return;
		}
		for(; a < b; a += 8) shadow->erase(a);
	}

	void clearShadow(void*, size_t)
	{
		if(shadow && tl) clearRange((uintptr_t)tl->stack_lo, (uintptr_t)tl->stack_hi);
	}

	void access(uintptr_t addr, size_t size, bool write, bool atomic, void* pc)
	{
		Th* t = tl;
		if(t->child) return;
		while(size)
		{
			uintptr_t base = addr & ~7ull;
			unsigned off = addr & 7;
			size_t n = std::min<size_t>(8 - off, size);
			uint8_t mask = (uint8_t)(((1u << n) - 1) << off);
			auto& c = (*shadow)[base];
			int put = -1;
			for(int i = 0; i < 4; ++i)
			{
				auto& s = c.s[i];
				if(!(s.fl & 4)) { if(put < 0) put = i; continue; }
				if(!(s.mask & mask)) continue;
				if(s.tid == t->id)
				{
					if(s.mask == mask && (write || !(s.fl & 1)) && (!atomic || (s.fl & 2)) ) put = i;
					continue;
				}
				bool hb = s.tid < t->vc.size() && s.clk <= t->vc[s.tid];
				if(!hb && (write || (s.fl & 1)) && !(atomic && (s.fl & 2)))
				{
					char b[256];
					Dl_info ia{}, ib{};
					dladdr((void*)s.pc, &ia);
					dladdr(pc, &ib);
					uintptr_t exe_a = s.pc - (uintptr_t)ia.dli_fbase, exe_b = (uintptr_t)pc - (uintptr_t)ib.dli_fbase;
					snprintf(b, sizeof b, "data race on %p: T%d %s%s at +0x%lx vs T%d %s%s at +0x%lx", (void*)addr, s.tid,
					         s.fl & 2 ? "atomic " : "", s.fl & 1 ? "write" : "read", exe_a, t->id, atomic ? "atomic " : "", write ? "write" : "read",
					         exe_b);
					done(V_RACE, "race", b, 0);
				}
				if(hb && put < 0 && s.mask == mask && write) put = i;
			}
			if(put < 0)
			{
				for(int i = 0; i < 4 && put < 0; ++i)
				{
					auto& s = c.s[i];
					if(s.tid < t->vc.size() && s.clk <= t->vc[s.tid] && !(s.fl & 1)) put = i;
				}
				if(put < 0) put = (base >> 3) & 3;
			}
			uint32_t clk = t->vc[t->id];
			c.s[put] = Slot{clk, (uint16_t)t->id, mask, (uint8_t)(4 | (write ? 1 : 0) | (atomic ? 2 : 0)), (uintptr_t)pc};
			addr += n;
			size -= n;
		}
	}

	void closeFd(Proc* p, int fd)
	{
		auto i = p->fds.find(fd);
		if(i == p->fds.end()) return;
		if(i->second.kind == 1) --i->second.p->readers;
		if(i->second.kind == 2) --i->second.p->writers;
		p->fds.erase(i);
	}

	Proc* curProc() { return tl->child ? tl->child : S->main_proc; }
	constexpr int VBase = 700;

	int allocFd(Proc* p)
	{
		int fd = VBase;
		while(p->fds.count(fd)) ++fd;
		return fd;
	}

	void procExit(Proc* p, int status)
	{
		std::vector<int> f;
		for(auto& i: p->fds) f.push_back(i.first);
		for(int fd: f) closeFd(p, fd);
		p->exited = true;
		p->status = status;
		touch(p->obj.hash, 40, status);
	}

	int child_log_fd = -1;
	struct ChildOp { char kind; int a, b; std::string data; };   // c close, d dup2, f cloexec, w write, e exec, x exit
	void childSend(char kind, int a, int b, std::string const& d)
	{
		int32_t h[4] = {kind, a, b, (int32_t)d.size()};
		std::string m((char*)h, sizeof h);
		m += d;
		char const* p = m.data();
		size_t n = m.size();
		while(n) { ssize_t k = syscall(SYS_write, child_log_fd, p, n); if(k <= 0) { if(k < 0 && errno == EINTR) continue; syscall(SYS_exit_group, 99); } p += k; n -= k; }
	}

	// --- reads / writes on virtual fds, executed by `p`
	ssize_t vread(Proc* p, int fd, void* buf, size_t n)
	{
		if(tl->child) { childSend('H', 0, 0, "read between fork and exec is not modelled"); syscall(SYS_exit_group, 0); }
		auto i = p->fds.find(fd);
		if(i == p->fds.end()) { errno = EBADF; return -1; }
		if(i->second.kind == 3) return 0;
		if(i->second.kind != 1) { errno = EBADF; return -1; }
		auto pp = i->second.p;
		Pipe* q = pp.get();
		schedBlock("read", q, [q]() { return !q->buf.empty() || q->writers == 0; });
		size_t k = std::min(n, q->buf.size());
		std::copy(q->buf.begin(), q->buf.begin() + k, (char*)buf);
		q->buf.erase(q->buf.begin(), q->buf.begin() + k);
		touch(q->obj.hash, 41, k);
		acq(q->obj.vc);
		return k;
	}

	ssize_t vwrite(Proc* p, int fd, void const* buf, size_t n)
	{
		auto i = p->fds.find(fd);
		if(i == p->fds.end()) { errno = EBADF; return -1; }
		if(i->second.kind == 3) return n;
		if(i->second.kind != 2) { errno = EBADF; return -1; }
		auto pp = i->second.p;
		Pipe* q = pp.get();
		size_t written = 0;
		if(n == 0) return 0;
		while(written != n)
		{
			size_t left = n - written;
			bool atomic = n <= 4096 && n <= q->cap;
			if(tl->child)
			{
				if(q->readers == 0) { errno = EPIPE; return -1; }
			}
			else
			{
				schedBlock("write", q, [q, left, atomic]() {
					return q->readers == 0 || q->buf.size() + (atomic ? left : 1) <= q->cap;
				});
			}
			if(q->readers == 0) { touch(q->obj.hash, 42, 0); errno = EPIPE; return -1; }
			size_t k = std::min(left, q->cap - std::min(q->cap, q->buf.size()));
			if(tl->child) { k = left; childSend('w', fd, 0, std::string((char const*)buf, n)); }
			q->buf.insert(q->buf.end(), (char const*)buf + written, (char const*)buf + written + k);
			written += k;
			touch(q->obj.hash, 42, k);
			rel(q->obj.vc);
		}
		return written;
	}
}

bool active() { return g_active; }
int self() { return tl ? tl->id : -1; }
uint64_t stepCount() { return S->steps; }
uint64_t now() { return ++S->stamp; }
void setExplore(bool o) { S->explore = o; }
std::string stateDump() { return describe(); }

void fail(char const* tag, std::string const& msg) { RtScope r; done(V_VIOLATION, tag, msg, 0); }
void finish(uint64_t outcome) { RtScope r; done(V_OK, "", "", outcome); }

void event(void const* obj, uint64_t val)
{
	if(!on()) return;
	RtScope r;
	sched("event", obj);
	touch(S->evt[obj].hash, 50, val);
}
void eventNoPoint(void const* obj, uint64_t val)
{
	if(!on()) return;
	RtScope r;
	touch(S->evt[obj].hash, 50, val);
}

uint32_t envChoice(uint32_t n)
{
	RtScope r;
	if(n < 2) return 0;
	auto c = takeChoice(n, 3, mix(stateSig(), 0x777));
	tl->hash = mix(tl->hash, 1000 + c);
	return c;
}

void block(std::function<bool()> const& enabled, void const* obj)
{
	RtScope r;
	schedBlock("wait", obj, enabled);
	touch(S->evt[obj].hash, 51, 0);
}

void spawn(std::function<void()> f)
{
	RtScope r;
	Th* t = newThread();
	t->fn = std::move(f);
	t->detached = true;
	startThread(t);
}

void setProcEnv(ProcEnv&& e) { S->env = std::move(e); }
int liveProcesses() { int n = 0; for(auto& p: S->procs) if(p.second.get() != S->main_proc && !p.second->exited) ++n; return n; }
int zombies() { int n = 0; for(auto& p: S->procs) if(p.second.get() != S->main_proc && p.second->exited && !p.second->reaped) ++n; return n; }
int openVirtualFds() { return S->main_proc->fds.size(); }
void setReaddirPermutation(int p) { S->rdperm = p; }

long VProc::write(int fd, void const* d, size_t n) { RtScope r; return vwrite((Proc*)impl, fd, d, n); }
bool VProc::writeAll(int fd, std::string const& s) { return s.empty() || write(fd, s.data(), s.size()) == (long)s.size(); }
long VProc::read(int fd, void* d, size_t n) { RtScope r; return vread((Proc*)impl, fd, d, n); }
void VProc::close(int fd) { RtScope r; sched("proc-close", impl); closeFd((Proc*)impl, fd); touch(((Proc*)impl)->obj.hash, 43, fd); }
std::vector<int> VProc::openFds() const { std::vector<int> v; for(auto& f: ((Proc*)impl)->fds) if(f.first > 2) v.push_back(f.first); return v; }

static void crashHandler(int sig, siginfo_t* si, void* uc)
{
	static std::atomic<int> once{0};
	if(once++) syscall(SYS_exit_group, 0);
	if(S && S->res && S->res->verdict == V_NONE)
	{
		snprintf(S->res->tag, sizeof S->res->tag, "crash");
		snprintf(S->res->msg, sizeof S->res->msg, "process died with signal %d (addr %p) in T%d", sig, si->si_addr, tl ? tl->id : -1);
		{
			size_t n = strlen(S->res->msg);
			auto add = [&n](char const* f, void* p) {
				Dl_info di{};
				dladdr(p, &di);
				if(n < sizeof S->res->msg - 400) n += snprintf(S->res->msg + n, 300, f, p, di.dli_sname ? di.dli_sname : "?");
			};
			add("\n pc %p %.200s", (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP]);
			void** fp = (void**)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RBP];
			for(int k = 0; k < 12 && fp && (char*)fp > (char*)&n && (char*)fp < (char*)&n + (64 << 20); ++k) { add("\n  %p %.200s", fp[1]); fp = (void**)fp[0]; }
		}
		S->res->npoints = S->np;
		S->res->nsteps = S->steps;
		if(S->opt.trace)
		{
			size_t n = std::min(S->trace.size(), sizeof(S->res->trace) - 1);
			memcpy(S->res->trace, S->trace.data() + (S->trace.size() - n), n);
		}
		S->res->verdict = V_CRASH;
	}
	syscall(SYS_exit_group, 0);
}

void runControlled(Options const& opt, std::vector<Dev> const& devs, Result* res, std::function<void()> body)
{
	mallopt(M_ARENA_MAX, 1);
	S = new State;
	S->opt = opt;
	if(json_object_seed) json_object_seed(12345);   // hash order of JSON objects must not differ between replays
	S->explore = opt.record;
	S->devs = devs;
	S->res = res;
	if(opt.race_detect) { shadow = new std::unordered_map<uintptr_t, Cell>(); shadow->reserve(1 << 16); }
	auto mp = std::make_unique<Proc>();
	mp->pid = getpid();
	mp->ppid = 0;
	S->main_proc = mp.get();
	S->procs[mp->pid] = std::move(mp);
	struct sigaction sa{};
	sa.sa_sigaction = crashHandler;
	sa.sa_flags = SA_SIGINFO;
	for(int s: {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGTERM}) sigaction(s, &sa, nullptr);
	++tl_rt;
	Th* t = newThread();
	t->fn = std::move(body);
	g_active = true;
	S->cur = t;
	startThread(t);
	fwake(&t->go);
	while(true) pause();
}
}

using namespace mc;

// ============================================================================ pthread hooks
extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*start)(void*), void* arg)
{
	if(!on()) return REAL(pthread_create)(out, attr, start, arg);
	RtScope r;
	if(S->env.thread_fault) { if(int e = S->env.thread_fault(S->n_thr++)) return e; }
	Th* t = newThread();
	t->start = start;
	t->arg = arg;
	*out = (pthread_t)(uintptr_t)(0x1000 + t->id);
	startThread(t);
	return 0;
}

static Th* findTh(pthread_t h)
{
	uintptr_t v = (uintptr_t)h;
	if(v < 0x1000 || v - 0x1000 >= S->ths.size()) return nullptr;
	return S->ths[v - 0x1000].get();
}

int pthread_join(pthread_t h, void** ret)
{
	if(!on()) return REAL(pthread_join)(h, ret);
	RtScope r;
	Th* t = findTh(h);
	if(!t || t->joined || t->detached) done(V_VIOLATION, "misuse", "pthread_join on a thread that is not joinable", 0);
	schedBlock("join", t, [t]() { return t->finished; });
	t->joined = true;
	if(ret) *ret = t->ret;
	tl->hash = mix(tl->hash, t->hash);
	acq(t->vc);
	return 0;
}

int pthread_detach(pthread_t h)
{
	if(!on()) return REAL(pthread_detach)(h);
	Th* t = findTh(h);
	if(t) t->detached = true;
	return 0;
}

pthread_t pthread_self(void)
{
	if(g_active && tl && tl_rt == 0) return (pthread_t)(uintptr_t)(0x1000 + tl->id);
	return realSelf();
}

static int lockIt(pthread_mutex_t* m, bool recursive)
{
	auto& x = S->mtx[m];
	if(x.owner == tl)
	{
		if(recursive) { ++x.count; return 0; }
		// self deadlock: blocks forever
	}
	auto xp = &x;
	schedBlock("lock", m, [m]() { auto i = S->mtx.find(m); return i == S->mtx.end() || i->second.owner == nullptr; });
	xp = &S->mtx[m];
	xp->owner = tl;
	xp->count = 1;
	touch(xp->hash, 10);
	acq(xp->vc);
	return 0;
}

static bool isRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP; }

int pthread_mutex_lock(pthread_mutex_t* m)
{
	if(!on()) return REAL(pthread_mutex_lock)(m);
	if(tl->child) return 0;
	RtScope r;
	return lockIt(m, isRecursive(m));
}

int pthread_mutex_trylock(pthread_mutex_t* m)
{
	if(!on()) return REAL(pthread_mutex_trylock)(m);
	if(tl->child) return 0;
	RtScope r;
	sched("trylock", m);
	auto& x = S->mtx[m];
	touch(x.hash, 11);
	if(x.owner) return EBUSY;
	x.owner = tl;
	x.count = 1;
	acq(x.vc);
	return 0;
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
	if(!on()) return REAL(pthread_mutex_unlock)(m);
	if(tl->child) return 0;
	RtScope r;
	auto& x = S->mtx[m];
	if(x.owner != tl) done(V_VIOLATION, "misuse", "unlock of a mutex that is not owned by the calling thread", 0);
	if(--x.count) return 0;
	x.owner = nullptr;
	touch(x.hash, 12);
	relSet(x.vc);
	if(S->opt.trace) { char b[64]; snprintf(b, sizeof b, "T%d unlock %p", tl->id, (void*)m); tr(b); }
	return 0;
}

int pthread_mutex_destroy(pthread_mutex_t* m)
{
	if(!g_active || !tl || tl_rt) return 0;
	RtScope r;
	S->mtx.erase(m);
	return 0;
}

static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
	Th* t = tl;
	sched("cond-enter", c);
	auto& x = S->mtx[m];
	if(x.owner != t) done(V_VIOLATION, "misuse", "condition wait without owning the mutex", 0);
	x.owner = nullptr;
	x.count = 0;
	touch(x.hash, 13);
	relSet(x.vc);
	auto& v = S->cv[c];
	v.waiters.push_back(t);
	touch(v.hash, 14);
	t->cond = c;
	t->cond_mtx = m;
	t->signaled = false;
	t->cond_waiting = true;
	t->timed = timed;
	t->spurious_ok = true;
	schedBlock("cond-wait", c, [t, m]() {
		if(!t->signaled) return false;
		auto i = S->mtx.find(m);
		return i == S->mtx.end() || i->second.owner == nullptr;
	});
	bool timeout = timed && !t->timed;
	t->timed = false;
	t->cond_waiting = false;
	auto& y = S->mtx[m];
	y.owner = t;
	y.count = 1;
	auto& w = S->cv[c].waiters;
	w.erase(std::remove(w.begin(), w.end(), t), w.end());
	touch(y.hash, 15);
	acq(y.vc);
	acq(S->cv[c].vc);
	return timeout ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if(!on()) return REAL(pthread_cond_wait)(c, m);
	RtScope r;
	return condWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*)
{
	if(!on()) abort();
	RtScope r;
	return condWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*)
{
	if(!on()) abort();
	RtScope r;
	return condWait(c, m, true);
}

int pthread_cond_signal(pthread_cond_t* c)
{
	if(!on()) return REAL(pthread_cond_signal)(c);
	if(tl->child) return 0;
	RtScope r;
	sched("signal", c);
	auto& v = S->cv[c];
	touch(v.hash, 16, v.waiters.size());
	joinVC(v.vc, tl->vc);
	tick(tl);
	if(!v.waiters.empty())
	{
		size_t k = 0;
		if(S->opt.signal_choice && v.waiters.size() > 1) k = takeChoice(v.waiters.size(), 3, mix(stateSig(), 0x51));
		Th* w = v.waiters[k];
		v.waiters.erase(v.waiters.begin() + k);
		w->signaled = true;
		w->cond_waiting = false;
		w->hash = mix(w->hash, mix(v.hash, 17));
	}
	return 0;
}

int pthread_cond_broadcast(pthread_cond_t* c)
{
	if(!on()) return REAL(pthread_cond_broadcast)(c);
	if(tl->child) return 0;
	RtScope r;
	sched("broadcast", c);
	auto& v = S->cv[c];
	touch(v.hash, 18, v.waiters.size());
	joinVC(v.vc, tl->vc);
	tick(tl);
	for(auto w: v.waiters) { w->signaled = true; w->cond_waiting = false; w->hash = mix(w->hash, mix(v.hash, 17)); }
	v.waiters.clear();
	return 0;
}

int pthread_cond_destroy(pthread_cond_t* c)
{
	if(!on()) return 0;
	RtScope r;
	auto i = S->cv.find(c);
	if(i != S->cv.end())
	{
		for(auto w: i->second.waiters)
			if(!w->finished) done(V_VIOLATION, "misuse", "condition variable destroyed while a thread waits on it", 0);
		S->cv.erase(i);
	}
	return 0;
}

static int rwRd(pthread_rwlock_t* l)
{
	schedBlock("rdlock", l, [l]() { auto i = S->rw.find(l); return i == S->rw.end() || i->second.writer == nullptr; });
	auto& x = S->rw[l];
	++x.readers;
	touch(x.hash, 20);
	acq(x.vc);
	return 0;
}
static int rwWr(pthread_rwlock_t* l)
{
	schedBlock("wrlock", l, [l]() { auto i = S->rw.find(l); return i == S->rw.end() || (i->second.writer == nullptr && i->second.readers == 0); });
	auto& x = S->rw[l];
	x.writer = tl;
	touch(x.hash, 21);
	acq(x.vc);
	acq(x.rvc);
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if(!on()) return REAL(pthread_rwlock_rdlock)(l); if(tl->child) return 0; RtScope r; return rwRd(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if(!on()) return REAL(pthread_rwlock_wrlock)(l); if(tl->child) return 0; RtScope r; return rwWr(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
	if(!on()) return REAL(pthread_rwlock_tryrdlock)(l);
	RtScope r;
	sched("tryrd", l);
	auto& x = S->rw[l];
	touch(x.hash, 22);
	if(x.writer) return EBUSY;
	++x.readers;
	acq(x.vc);
	return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
	if(!on()) return REAL(pthread_rwlock_trywrlock)(l);
	RtScope r;
	sched("trywr", l);
	auto& x = S->rw[l];
	touch(x.hash, 23);
	if(x.writer || x.readers) return EBUSY;
	x.writer = tl;
	acq(x.vc);
	acq(x.rvc);
	return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
	if(!on()) return REAL(pthread_rwlock_unlock)(l);
	if(tl->child) return 0;
	RtScope r;
	auto& x = S->rw[l];
	bool const wr = x.writer == tl;
	if(wr) x.writer = nullptr;
	else if(x.readers > 0) --x.readers;
	else done(V_VIOLATION, "misuse", "unlock of a reader-writer lock that is not held", 0);
	touch(x.hash, 24);
	rel(wr ? x.vc : x.rvc);   // readers are not ordered among themselves
	return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) { if(on()) { RtScope r; S->rw.erase(l); } return 0; }

int pthread_once(pthread_once_t* o, void (*f)())
{
	if(!on()) return REAL(pthread_once)(o, f);
	auto v = (int volatile*)o;
	{
		RtScope r;
		if(*v == 2) { acq(S->atom[o].vc); return 0; }
		if(*v == 1) { schedBlock("once", o, [v]() { return *v == 2; }); acq(S->atom[o].vc); return 0; }
		*v = 1;
	}
	f();
	{
		RtScope r;
		*v = 2;
		rel(S->atom[o].vc);
	}
	return 0;
}

// function local statics
int __cxa_guard_acquire(long long* g)
{
	auto b = (uint8_t volatile*)g;
	if(!on())
	{
		if(b[0]) return 0;
		b[1] = 1;
		return 1;
	}
	RtScope r;
	if(b[0]) { acq(S->atom[g].vc); return 0; }
	if(b[1])
	{
		schedBlock("guard", g, [b]() { return b[0] || !b[1]; });
		if(b[0]) { acq(S->atom[g].vc); return 0; }
	}
	b[1] = 1;
	return 1;
}
void __cxa_guard_release(long long* g)
{
	auto b = (uint8_t volatile*)g;
	b[1] = 0;
	b[0] = 1;
	if(on()) { RtScope r; rel(S->atom[g].vc); }
}
void __cxa_guard_abort(long long* g) { ((uint8_t volatile*)g)[1] = 0; }

int sched_yield(void)
{
	if(!on()) return REAL(sched_yield)();
	RtScope r;
	Th* t = tl;
	// let everybody else go first
	t->what = "yield";
	t->what_obj = nullptr;
	t->blocked_pred = false;
	if(++S->steps > S->opt.max_steps) done(V_LIVELOCK, "livelock", "step limit exceeded:\n" + describe(), 0);
	size_t N = S->ths.size();
	for(size_t k = 1; k < N; ++k)
	{
		Th* o = S->ths[(t->id + k) % N].get();
		if(isEnabled(o)) { o->consecutive = 0; switchTo(o, t); break; }
	}
	return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) { if(!on()) return REAL(nanosleep)(a, b); return sched_yield(); }
int clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* b) { if(!on()) return REAL(nanosleep)(a, b); return sched_yield(); }
int usleep(useconds_t u) { if(!on()) { timespec t{u / 1000000, (long)(u % 1000000) * 1000}; return REAL(nanosleep)(&t, nullptr); } return sched_yield(); }
int get_nprocs(void) { if(g_active && S) return S->opt.nprocs; return 2; }

// ============================================================================ process hooks
int pipe2(int* fds, int flags)
{
	if(!on()) return REAL(pipe2)(fds, flags);
	RtScope r;
	if(S->env.pipe_fault) { if(int e = S->env.pipe_fault(S->n_pipe++)) { errno = e; return -1; } }
	sched("pipe", nullptr);
	Proc* p = curProc();
	auto q = std::make_shared<Pipe>();
	q->cap = S->opt.pipe_capacity;
	q->readers = q->writers = 1;
	fds[0] = allocFd(p);
	p->fds[fds[0]] = Fd{1, q, (flags & O_CLOEXEC) != 0, -1};
	fds[1] = allocFd(p);
	p->fds[fds[1]] = Fd{2, q, (flags & O_CLOEXEC) != 0, -1};
	touch(p->obj.hash, 30, fds[0]);
	return 0;
}
int pipe(int* fds) { if(!on()) return REAL(pipe)(fds); return pipe2(fds, 0); }

static bool isV(int fd)
{
	if(tl->child) return true;
	return fd >= VBase && fd < VBase + 100000;
}

ssize_t read(int fd, void* buf, size_t n)
{
	if(!on() || !isV(fd)) return REAL(read)(fd, buf, n);
	RtScope r;
	return vread(curProc(), fd, buf, n);
}
ssize_t write(int fd, const void* buf, size_t n)
{
	if(on() && (fd == 1 || fd == 2) && !tl->child) { RtScope r; sched("stdio", (void*)(uintptr_t)fd); touch(S->evt[(void*)(uintptr_t)fd].hash, 71); }
	if(!on() || !isV(fd)) return REAL(write)(fd, buf, n);
	RtScope r;
	return vwrite(curProc(), fd, buf, n);
}
int close(int fd)
{
	if(!on() || !isV(fd)) return REAL(close)(fd);
	RtScope r;
	Proc* p = curProc();
	if(!tl->child) sched("close", nullptr);
	if(!p->fds.count(fd)) { errno = EBADF; return -1; }
	auto q = p->fds[fd].p;
	if(tl->child) childSend('c', fd, 0, "");
	closeFd(p, fd);
	touch(p->obj.hash, 31, fd);
	if(q) touch(q->obj.hash, 32, fd);
	return 0;
}
int dup2(int a, int b)
{
	if(!on() || !(isV(a) || isV(b))) return REAL(dup2)(a, b);
	RtScope r;
	Proc* p = curProc();
	if(!p->fds.count(a)) { errno = EBADF; return -1; }
	if(a == b) return b;
	if(tl->child) childSend('d', a, b, "");
	closeFd(p, b);
	Fd f = p->fds[a];
	f.cloexec = false;
	if(f.kind == 1) ++f.p->readers;
	if(f.kind == 2) ++f.p->writers;
	p->fds[b] = f;
	touch(p->obj.hash, 33, b);
	return b;
}
int dup3(int a, int b, int fl) { int x = dup2(a, b); if(x >= 0 && on() && isV(b)) { RtScope r; curProc()->fds[b].cloexec = fl & O_CLOEXEC; if(tl->child) childSend('f', b, (fl & O_CLOEXEC) != 0, ""); } return x; }
int dup(int a)
{
	if(!on() || !isV(a)) return REAL(dup)(a);
	RtScope r;
	int b;
	{ Proc* p = curProc(); b = allocFd(p); }
	--tl_rt;
	int x = dup2(a, b);
	++tl_rt;
	return x;
}
int fcntl(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	void* arg = va_arg(ap, void*);
	va_end(ap);
	if(!on() || !isV(fd)) return REAL(fcntl)(fd, cmd, arg);
	RtScope r;
	Proc* p = curProc();
	auto i = p->fds.find(fd);
	if(i == p->fds.end()) { errno = EBADF; return -1; }
	if(cmd == F_SETFD && tl->child) childSend('f', fd, ((long)arg & FD_CLOEXEC) != 0, "");
	if(cmd == F_SETFD) { i->second.cloexec = ((long)arg & FD_CLOEXEC) != 0; return 0; }
	if(cmd == F_GETFD) return i->second.cloexec ? FD_CLOEXEC : 0;
	if(cmd == F_GETFL) return i->second.kind == 2 ? O_WRONLY : O_RDONLY;
	if(cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)
	{
		int b = allocFd(p);
		--tl_rt;
		int x = dup2(fd, b);
		++tl_rt;
		if(cmd == F_DUPFD_CLOEXEC) p->fds[b].cloexec = true;
		return x;
	}
	return 0;
}
int fcntl64(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	void* arg = va_arg(ap, void*);
	va_end(ap);
	return fcntl(fd, cmd, arg);
}


// The child of fork() is a real forked process that only records what it does to its descriptors until
// it calls execve/_exit; the parent replays that record on the virtual process table.
static void launch(Proc* c, std::string const& pth, std::vector<std::string> const& av, std::vector<std::string> const& ev)
{
	std::vector<int> cl;
	for(auto& f: c->fds) if(f.second.cloexec) cl.push_back(f.first);
	for(int fd: cl) closeFd(c, fd);
	c->exec_done = true;
	touch(c->obj.hash, 35, 0);
	Th* v = newThread();
	v->vproc = true;
	c->th = v;
	v->fn = [c, pth, av, ev]() {
		VProc p;
		p.pid = c->pid;
		p.path = pth;
		p.argv = av;
		p.args.assign(av.begin() + (av.empty() ? 0 : 1), av.end());
		p.env = ev;
		p.impl = c;
		ExitBy x = S->env.program ? S->env.program(p) : ExitBy{0, 0};
		RtScope r;
		sched("proc-exit", c);
		procExit(c, x.signo ? x.signo : (x.code & 0xff) << 8);
		rel(c->obj.vc);
	};
	v->detached = true;
	startThread(v);
}

static std::vector<std::string> splitNul(std::string const& s)
{
	std::vector<std::string> v;
	size_t i = 0;
	while(i < s.size()) { auto e = s.find('\0', i); v.push_back(s.substr(i, e - i)); i = e + 1; }
	return v;
}

pid_t fork(void)
{
	if(!on()) return REAL(fork)();
	Th* t = tl;
	++tl_rt;
	sched("fork", nullptr);
	if(S->env.fork_fault) { if(int e = S->env.fork_fault(S->n_fork++)) { --tl_rt; errno = e; return -1; } }
	auto cu = std::make_unique<Proc>();
	Proc* c = cu.get();
	c->pid = S->next_pid++;
	c->ppid = S->main_proc->pid;
	c->fds = S->main_proc->fds;
	for(auto& f: c->fds)
	{
		if(f.second.kind == 1) ++f.second.p->readers;
		if(f.second.kind == 2) ++f.second.p->writers;
	}
	for(int k = 0; k < 3; ++k) c->fds[k] = Fd{3, nullptr, false, k};
	touch(S->main_proc->obj.hash, 34, c->pid);
	S->procs[c->pid] = std::move(cu);
	int lp[2];
	if(REAL(pipe2)(lp, O_CLOEXEC)) done(V_HARNESS, "harness", "pipe2 failed", 0);
	pid_t rp = REAL(fork)();
	if(rp == -1) done(V_HARNESS, "harness", "fork failed", 0);
	if(rp == 0)
	{
		for(int s: {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGTERM}) signal(s, SIG_DFL);
		child_log_fd = lp[1];
		shadow = nullptr;
		t->child = c;
		--tl_rt;
		return 0;
	}
	REAL(close)(lp[1]);
	std::string log;
	char buf[65536];
	while(true)
	{
		ssize_t k = syscall(SYS_read, lp[0], buf, sizeof buf);
		if(k < 0 && errno == EINTR) continue;
		if(k <= 0) break;
		log.append(buf, k);
	}
	REAL(close)(lp[0]);
	int wst = 0;
	while(REAL(waitpid)(rp, &wst, 0) == -1 && errno == EINTR) {}
	size_t i = 0;
	bool ended = false;
	std::string path;
	std::vector<std::string> av, ev;
	while(i + 16 <= log.size() && !ended)
	{
		int32_t h[4];
		memcpy(h, log.data() + i, 16);
		std::string d = log.substr(i + 16, h[3]);
		i += 16 + h[3];
		switch(h[0])
		{
			case 'c': { auto q = c->fds.count(h[1]) ? c->fds[h[1]].p : nullptr; closeFd(c, h[1]); if(q) touch(q->obj.hash, 32, h[1]); break; }
			case 'd': { if(!c->fds.count(h[1])) break; closeFd(c, h[2]); Fd f = c->fds[h[1]]; f.cloexec = false; if(f.kind == 1) ++f.p->readers; if(f.kind == 2) ++f.p->writers; c->fds[h[2]] = f; break; }
			case 'f': if(c->fds.count(h[1])) c->fds[h[1]].cloexec = h[2]; break;
			case 'w': if(c->fds.count(h[1]) && c->fds[h[1]].kind == 2) { auto q = c->fds[h[1]].p; q->buf.insert(q->buf.end(), d.begin(), d.end()); touch(q->obj.hash, 42, d.size()); rel(q->obj.vc); } break;
			case 'p': path = d; break;
			case 'a': av = splitNul(d); break;
			case 'E': ev = splitNul(d); break;
			case 'e': launch(c, path, av, ev); ended = true; break;
			case 'x': procExit(c, (h[1] & 0xff) << 8); ended = true; break;
			case 'H': done(V_HARNESS, "harness", d, 0);
		}
	}
	if(!ended) procExit(c, WIFSIGNALED(wst) ? WTERMSIG(wst) : (WEXITSTATUS(wst) & 0xff) << 8);
	--tl_rt;
	return c->pid;
}
pid_t vfork(void) { return fork(); }

int execve(const char* path, char* const* argv, char* const* envp)
{
	if(!on()) return REAL(execve)(path, argv, envp);
	Th* t = tl;
	if(!t->child) { RtScope r; done(V_VIOLATION, "misuse", "execve called outside a child process", 0); }
	RtScope r;
	std::vector<std::string> av;
	std::string as, es;
	for(auto p = argv; p && *p; ++p) { av.push_back(*p); as += *p; as += '\0'; }
	for(auto p = envp; p && *p; ++p) { es += *p; es += '\0'; }
	int e = 0;
	if(S->env.exec_check) e = S->env.exec_check(path, av);
	else
	{
		struct stat st;
		if(stat(path, &st) != 0) e = errno;
		else if(!S_ISREG(st.st_mode) || !(st.st_mode & 0111)) e = EACCES;
	}
	if(e) { errno = e; return -1; }
	childSend('p', 0, 0, path);
	childSend('a', 0, 0, as);
	childSend('E', 0, 0, es);
	childSend('e', 0, 0, "");
	syscall(SYS_exit_group, 0);
	__builtin_unreachable();
}
int execv(const char* path, char* const* argv) { return execve(path, argv, environ); }
int execvp(const char* path, char* const* argv) { return execve(path, argv, environ); }
int execvpe(const char* path, char* const* argv, char* const* envp) { return execve(path, argv, envp); }

void _exit(int code)
{
	if(on() && tl->child)
	{
		RtScope r;
		childSend('x', code, 0, "");
	}
	syscall(SYS_exit_group, code);
	__builtin_unreachable();
}
void _Exit(int code) { _exit(code); }

pid_t waitpid(pid_t pid, int* st, int opts)
{
	if(!on()) return REAL(waitpid)(pid, st, opts);
	RtScope r;
	auto find = [pid]() -> Proc* {
		for(auto& p: S->procs)
			if(p.second.get() != S->main_proc && !p.second->reaped && p.second->exited && (pid == -1 || p.first == pid)) return p.second.get();
		return nullptr;
	};
	bool any = false;
	for(auto& p: S->procs) if(p.second.get() != S->main_proc && !p.second->reaped && (pid == -1 || p.first == pid)) any = true;
	if(!any) { sched("waitpid", nullptr); errno = ECHILD; return -1; }
	if(opts & WNOHANG)
	{
		sched("waitpid", nullptr);
		Proc* p = find();
		if(!p) return 0;
		if(st) *st = p->status;
		p->reaped = true;
		touch(p->obj.hash, 36);
		return p->pid;
	}
	schedBlock("waitpid", nullptr, [find]() { return find() != nullptr; });
	Proc* p = find();
	if(st) *st = p->status;
	p->reaped = true;
	touch(p->obj.hash, 36);
	acq(p->obj.vc);
	return p->pid;
}
pid_t wait(int* st) { return waitpid(-1, st, 0); }
pid_t wait4(pid_t p, int* st, int o, struct rusage*) { return waitpid(p, st, o); }

// ============================================================================ readdir order
namespace
{
	struct DirState { std::vector<struct dirent*> ents; size_t pos{0}; };
	std::map<DIR*, DirState>* dirs = nullptr;
}
struct dirent* readdir(DIR* d)
{
	if(!g_active || !tl) return REAL(readdir)(d);
	RtScope r;
	if(!dirs) dirs = new std::map<DIR*, DirState>;
	auto i = dirs->find(d);
	if(i == dirs->end())
	{
		DirState s;
		while(auto e = REAL(readdir)(d))
		{
			auto c = (struct dirent*)malloc(sizeof(struct dirent));
			memcpy(c, e, std::min<size_t>(e->d_reclen, sizeof(struct dirent)));
			s.ents.push_back(c);
		}
		std::sort(s.ents.begin(), s.ents.end(), [](auto a, auto b) { return strcmp(a->d_name, b->d_name) < 0; });
		// factorial-number permutation
		int p = S->rdperm;
		for(size_t k = 0; k + 1 < s.ents.size() && p; ++k)
		{
			size_t m = s.ents.size() - k;
			size_t j = p % m;
			p /= m;
			std::rotate(s.ents.begin() + k, s.ents.begin() + k + j, s.ents.begin() + k + j + 1);
		}
		i = dirs->emplace(d, std::move(s)).first;
	}
	if(i->second.pos == i->second.ents.size()) return nullptr;
	return i->second.ents[i->second.pos++];
}
struct dirent64* readdir64(DIR* d) { return (struct dirent64*)readdir(d); }
int closedir(DIR* d)
{
	if(dirs) { RtScope r; auto i = dirs->find(d); if(i != dirs->end()) { for(auto e: i->second.ents) free(e); dirs->erase(i); } }
	return REAL(closedir)(d);
}

// ============================================================================ stdio, clock, self path
static void stdioPoint(FILE* f, char const* text)
{
	if(on() && text && !S->explore && !S->trigger.empty() && S->opt.record && strstr(text, S->trigger.c_str())) S->explore = true;
	if(!on() || tl->child || (f != stdout && f != stderr)) return;
	RtScope r;
	sched("stdio", f == stdout ? (void*)1 : (void*)2);
	auto& o = S->evt[f];
	touch(o.hash, 70);
	acq(o.vc);
	rel(o.vc);
}
static int (*real_fputs)(const char*, FILE*);
static int (*real_puts)(const char*);
static int (*real_fputc)(int, FILE*);
static size_t (*real_fwrite)(const void*, size_t, size_t, FILE*);
static int (*real_vfprintf)(FILE*, const char*, va_list);
int fputs(const char* s, FILE* f) { stdioPoint(f, s); return REAL(fputs)(s, f); }
int puts(const char* s) { stdioPoint(stdout, s); return REAL(puts)(s); }
int fputc(int c, FILE* f) { stdioPoint(f, nullptr); return REAL(fputc)(c, f); }
#undef putc
#undef putchar
int putc(int c, FILE* f) { stdioPoint(f, nullptr); return REAL(fputc)(c, f); }
int putchar(int c) { stdioPoint(stdout, nullptr); return REAL(fputc)(c, stdout); }
size_t fwrite(const void* p, size_t a, size_t b, FILE* f) { stdioPoint(f, nullptr); return REAL(fwrite)(p, a, b, f); }
int printf(const char* fmt, ...)
{
	stdioPoint(stdout, fmt);
	va_list ap;
	va_start(ap, fmt);
	int k = REAL(vfprintf)(stdout, fmt, ap);
	va_end(ap);
	return k;
}
int fprintf(FILE* f, const char* fmt, ...)
{
	stdioPoint(f, fmt);
	va_list ap;
	va_start(ap, fmt);
	int k = REAL(vfprintf)(f, fmt, ap);
	va_end(ap);
	return k;
}
int __printf_chk(int, const char* fmt, ...)
{
	stdioPoint(stdout, fmt);
	va_list ap;
	va_start(ap, fmt);
	int k = REAL(vfprintf)(stdout, fmt, ap);
	va_end(ap);
	return k;
}
int __fprintf_chk(FILE* f, int, const char* fmt, ...)
{
	stdioPoint(f, fmt);
	va_list ap;
	va_start(ap, fmt);
	int k = REAL(vfprintf)(f, fmt, ap);
	va_end(ap);
	return k;
}
int clock_gettime(clockid_t c, struct timespec* ts)
{
	if(!g_active || !tl) return syscall(SYS_clock_gettime, c, ts);
	uint64_t us = 10000000 + S->steps;          // logical time: one microsecond per step
	ts->tv_sec = 1000000000 + us / 1000000;
	ts->tv_nsec = (us % 1000000) * 1000;
	return 0;
}
// reading file metadata observes the file system state
static void fsRead() { if(on() && !tl->child) { RtScope r; tl->hash = mix(tl->hash, S->fs.hash); } }
int stat(const char* p, struct stat* st) { fsRead(); return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int lstat(const char* p, struct stat* st) { fsRead(); return syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int fd, const char* p, struct stat* st, int fl) { fsRead(); return syscall(SYS_newfstatat, fd, p, st, fl); }
static std::string* self_exe = nullptr;
static ssize_t (*real_readlink)(const char*, char*, size_t);
ssize_t readlink(const char* p, char* buf, size_t n)
{
	if(g_active && self_exe && !strcmp(p, "/proc/self/exe"))
	{
		size_t k = std::min(n, self_exe->size());
		memcpy(buf, self_exe->data(), k);
		return k;
	}
	return REAL(readlink)(p, buf, n);
}
}
namespace mc { 
int worker_index = 0;
void plainInit(Result* r) { S = new State; S->res = r; }
Result* currentResult() { return S ? S->res : nullptr; }
void fsWriteEvent(void const* obj)
{
	if(!on()) return;
	RtScope r;
	sched("fs-write", obj);
	touch(S->fs.hash, 80);
}
void setExploreTrigger(std::string const& t) { RtScope r; S->trigger = t; S->explore = false; }
void fireExploreTrigger() { if(S && !S->explore && !S->trigger.empty() && S->opt.record) S->explore = true; }
bool exploreTriggered() { return S->explore; }
void setSelfExe(std::string const& s) { RtScope r; self_exe = new std::string(s); } }
extern "C" {
// ============================================================================ malloc (only to reset race shadow)
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
// Allocations of controlled threads come from an arena of their own, whose state depends only on the schedule:
// addresses are the same in every replay (real thread start-up and tear-down use libc's heap).
static char* const arena_base = (char*)0x610000000000;
static size_t const arena_size = size_t{4} << 30;
static char* arena_top = nullptr;
static void* arena_free[64 + 48];
struct ArenaHdr { uint64_t cls, size; };
static inline bool inArena(void* p) { return (char*)p >= arena_base && (char*)p < arena_base + arena_size; }
static void* arenaAlloc(size_t n)
{
	if(!arena_top)
	{
		void* p = mmap(arena_base, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if(p != arena_base) return nullptr;
		arena_top = arena_base;
	}
	size_t cls, sz;
	if(n <= 1024) { cls = n ? (n - 1) / 16 : 0; sz = (cls + 1) * 16; }
	else { int b = 64 - __builtin_clzl(n - 1); cls = 64 + b; sz = size_t{1} << b; }
	if(arena_free[cls]) { void* p = arena_free[cls]; arena_free[cls] = *(void**)p; ((ArenaHdr*)p)[-1].size = n; return p; }
	if(arena_top + sz + sizeof(ArenaHdr) > arena_base + arena_size) return nullptr;
	auto h = (ArenaHdr*)arena_top;
	arena_top += sz + sizeof(ArenaHdr);
	h->cls = cls;
	h->size = n;
	return h + 1;
}
static inline bool useArena() { return g_active.load(std::memory_order_relaxed) && tl && tl_rt == 0 && !tl->finished; }
void* malloc(size_t n)
{
	void* p = useArena() ? arenaAlloc(n) : __libc_malloc(n);
	if(shadow && tl && tl_rt == 0 && p) { RtScope r; clearRange((uintptr_t)p, (uintptr_t)p + n); }
	return p;
}
void free(void* p)
{
	if(!p) return;
	if(!inArena(p)) { __libc_free(p); return; }
	if(!tl || tl->finished) return;
	auto c = ((ArenaHdr*)p)[-1].cls;
	*(void**)p = arena_free[c];
	arena_free[c] = p;
}
void* calloc(size_t a, size_t b)
{
	if(!useArena()) return __libc_calloc(a, b);
	void* p = malloc(a * b);
	if(p) memset(p, 0, a * b);
	return p;
}
void* realloc(void* q, size_t n)
{
	if(!q) return malloc(n);
	if(!inArena(q) && !useArena()) return __libc_realloc(q, n);
	if(n == 0) { free(q); return nullptr; }
	size_t old = inArena(q) ? ((ArenaHdr*)q)[-1].size : malloc_usable_size(q);
	void* p = malloc(n);
	if(p) { memcpy(p, q, std::min(old, n)); free(q); }
	return p;
}

// ============================================================================ instrumentation runtime
#define PC __builtin_return_address(0)
static inline void acc(void* a, size_t n, bool w, void* pc)
{
	if(shadow == nullptr || !on()) return;
	RtScope r;
	access((uintptr_t)a, n, w, false, pc);
}
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_read1(void* a) { acc(a, 1, false, PC); }
void __tsan_read2(void* a) { acc(a, 2, false, PC); }
void __tsan_read4(void* a) { acc(a, 4, false, PC); }
void __tsan_read8(void* a) { acc(a, 8, false, PC); }
void __tsan_read16(void* a) { acc(a, 16, false, PC); }
void __tsan_write1(void* a) { acc(a, 1, true, PC); }
void __tsan_write2(void* a) { acc(a, 2, true, PC); }
void __tsan_write4(void* a) { acc(a, 4, true, PC); }
void __tsan_write8(void* a) { acc(a, 8, true, PC); }
void __tsan_write16(void* a) { acc(a, 16, true, PC); }
void __tsan_unaligned_read2(void* a) { acc(a, 2, false, PC); }
void __tsan_unaligned_read4(void* a) { acc(a, 4, false, PC); }
void __tsan_unaligned_read8(void* a) { acc(a, 8, false, PC); }
void __tsan_unaligned_read16(void* a) { acc(a, 16, false, PC); }
void __tsan_unaligned_write2(void* a) { acc(a, 2, true, PC); }
void __tsan_unaligned_write4(void* a) { acc(a, 4, true, PC); }
void __tsan_unaligned_write8(void* a) { acc(a, 8, true, PC); }
void __tsan_unaligned_write16(void* a) { acc(a, 16, true, PC); }
void __tsan_read_range(void* a, unsigned long n) { acc(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { acc(a, n, true, PC); }
// the balancing of std::map and std::set lies in libstdc++, which is not instrumented
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, void* x, void* p, void* h)
{
	static void (*real)(bool, void*, void*, void*);
	if(!real) real = (decltype(real))dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
	acc(x, 32, true, PC);
	acc(p, 32, true, PC);
	acc(h, 32, true, PC);
	real(left, x, p, h);
}
void* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* z, void* h)
{
	static void* (*real)(void*, void*);
	if(!real) real = (decltype(real))dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
	acc(z, 32, true, PC);
	acc(h, 32, true, PC);
	return real(z, h);
}
void __tsan_vptr_update(void** a, void*) { acc(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { acc(a, 8, false, PC); }

// kind: 0 load, 1 store, 2 rmw
static void atomicPre(void volatile* a, size_t n, int kind, void* pc)
{
	if(!on() || tl->child) return;
	RtScope r;
	auto& o = S->atom[(void const*)a];
	if(o.first == -1) o.first = tl->id;
	if(o.first != tl->id) o.shared = true;
	if(S->opt.all_atomics || o.shared) sched(kind == 0 ? "aload" : "awrite", (void const*)a);
	if(shadow) access((uintptr_t)a, n, kind != 0, true, pc);
}
static void atomicPost(void volatile* a, int kind, uint64_t val, int mo)
{
	if(!on() || tl->child) return;
	RtScope r;
	auto& o = S->atom[(void const*)a];
	if(o.shared || S->opt.all_atomics) touch(o.hash, 60 + kind, val);
	bool ac = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
	bool re = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
	if(kind != 1 && ac) acq(o.vc);
	if(kind == 1) { if(re) relSet(o.vc); else o.vc.clear(); }
	if(kind == 2 && re) rel(o.vc);
}

#define ATOMICS(B, T) \
	T __tsan_atomic##B##_load(const volatile T* a, int mo) { atomicPre((void volatile*)a, sizeof(T), 0, PC); T v = *a; atomicPost((void volatile*)a, 0, (uint64_t)v, mo); return v; } \
	void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), 1, PC); *a = v; atomicPost(a, 1, (uint64_t)v, mo); } \
	T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), 2, PC); T o = *a; *a = v; atomicPost(a, 2, (uint64_t)o, mo); return o; } \
	T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), 2, PC); T o = *a; *a = o + v; atomicPost(a, 2, (uint64_t)o, mo); return o; } \
	T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), 2, PC); T o = *a; *a = o - v; atomicPost(a, 2, (uint64_t)o, mo); return o; } \
	T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), 2, PC); T o = *a; *a = o & v; atomicPost(a, 2, (uint64_t)o, mo); return o; } \
	T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), 2, PC); T o = *a; *a = o | v; atomicPost(a, 2, (uint64_t)o, mo); return o; } \
	T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), 2, PC); T o = *a; *a = o ^ v; atomicPost(a, 2, (uint64_t)o, mo); return o; } \
	T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { atomicPre(a, sizeof(T), 2, PC); T o = *a; *a = ~(o & v); atomicPost(a, 2, (uint64_t)o, mo); return o; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { atomicPre(a, sizeof(T), 2, PC); T o = *a; bool ok = o == *e; if(ok) *a = v; else *e = o; atomicPost(a, 2, (uint64_t)o, mo); return ok; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int f) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, mo, f); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int f) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, f); return e; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
ATOMICS(128, __uint128_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
