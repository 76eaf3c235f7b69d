// Controlled-scheduler runtime: real pthreads run one at a time; every synchronisation operation,
// shared atomic access and virtual system call is a scheduling point.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace mc
{
	struct Dev { uint32_t idx; uint32_t choice; uint64_t sig; };

	struct PointRec
	{
		uint64_t sig;
		uint16_t cur;
		uint8_t n;         // number of alternatives
		uint8_t flags;     // bit0: alternatives cost 1 (preemption / environment deviation)
		                   // bit1: environment choice
	};

	enum Verdict : int
	{
		V_NONE = 0, V_OK = 1, V_VIOLATION = 2, V_DEADLOCK = 3, V_LIVELOCK = 4, V_RACE = 5, V_CRASH = 6,
		V_DIVERGED = 7, V_TIMEOUT = 8, V_OVERFLOW = 9, V_HARNESS = 10
	};

	constexpr uint32_t MaxPoints = 1u << 18;
	struct Result
	{
		int verdict;
		uint32_t npoints;
		uint32_t nsteps;
		uint32_t nthreads;
		uint64_t outcome;       // hash of observed outcome
		uint64_t inner;         // controlled executions performed inside a plain scenario
		uint64_t inner_states;  // cases (projects, histories, inputs) checked inside a plain scenario
		uint64_t inner_steps;
		char tag[64];           // which property kind failed
		char msg[16384];
		char trace[65536];      // human readable schedule (only when tracing)
		PointRec points[MaxPoints];
	};

	struct Options
	{
		bool race_detect{false};
		bool all_atomics{false};   // every atomic is a scheduling point
		bool spurious{false};      // explore spurious wakeups (cost 1)
		bool signal_choice{false}; // explore which waiter a signal wakes (cost 1)
		bool free_np{true};        // non preemptive choices are free
		bool record{true};         // record scheduling points (off: default schedule only)
		int coarse{0};             // 1: no branching at operations private to one child process run, 2: nor at stdio
		uint32_t max_steps{400000};
		int nprocs{2};
		bool trace{false};
		size_t pipe_capacity{65536};
	};

	// Run body as controlled thread 0 in this process; never returns (process exits).
	[[noreturn]] void runControlled(Options const& opt, std::vector<Dev> const& devs, Result* res,
	                                std::function<void()> body);

	// --- API for harness code running under control ---
	[[noreturn]] void fail(char const* tag, std::string const& msg);   // record violation and exit
	[[noreturn]] void finish(uint64_t outcome);
	void event(void const* obj, uint64_t val);      // visible event on object (scheduling point)
	void eventNoPoint(void const* obj, uint64_t val);
	uint32_t envChoice(uint32_t n);                 // environment nondeterminism, 0 is default
	void block(std::function<bool()> const& enabled, void const* obj);
	int self();
	bool active();
	void setExplore(bool on);                       // branch only while on
	void spawn(std::function<void()> f);            // controlled thread (virtual process)
	uint64_t stepCount();
	uint64_t now();                                 // total order stamp
	std::string stateDump();

	// --- virtual processes ---
	struct VProc
	{
		int pid;
		std::string path;
		std::vector<std::string> args;   // argv[1..]
		std::vector<std::string> argv;   // argv[0..]
		std::vector<std::string> env;
		// syscalls for the program body
		long write(int fd, void const* data, size_t n);   // one write call; -1 on EPIPE/EBADF
		bool writeAll(int fd, std::string const& s);
		long read(int fd, void* data, size_t n);
		void close(int fd);
		std::vector<int> openFds() const;                  // fds > 2 that leaked into the process
		void* impl;
	};
	struct ExitBy { int code; int signo; };
	// program body: return exit status
	using Program = std::function<ExitBy(VProc&)>;
	// called at exec time. Return errno (>0) to make execve fail or 0.
	struct ProcEnv
	{
		std::function<int(std::string const& path, std::vector<std::string> const& argv)> exec_check;
		Program program;
		std::function<int(int nth)> pipe_fault;   // returns errno or 0
		std::function<int(int nth)> fork_fault;
		std::function<int(int nth)> thread_fault;
	};
	void setProcEnv(ProcEnv&& env);
	int liveProcesses();         // started and not exited
	int zombies();               // exited and not reaped
	int openVirtualFds();        // in the main process
	// order in which readdir returns: permutation index (0 = sorted)
	void setReaddirPermutation(int perm);
	// file system accesses of the program are part of the observed history
	void fsWriteEvent(void const* obj);         // scheduling point + modification of the file system object
	void setExploreTrigger(std::string const& text);   // exploration starts when this text is printed to a std stream
	bool exploreTriggered();
	void fireExploreTrigger();                  // exploration starts now if a trigger was set and has not fired
	extern int worker_index;                    // index of the exploring worker process
	// plain scenarios: body runs without control; it may run controlled executions in forked children
	void plainInit(Result* r);
	Result* currentResult();
	void setSelfExe(std::string const& path);   // what /proc/self/exe points to
}
