// Deviation-bounded exhaustive explorer over controlled executions.
#pragma once
#include "rt.h"
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>

namespace mc
{
	struct Scenario
	{
		std::string name;
		Options opt;
		int bound{0};                 // deviations (preemptions) explored exhaustively
		uint64_t max_execs{0};        // 0: unlimited (otherwise the cap is reported)
		std::function<void()> setup;  // runs in the fresh child process before control starts
		std::function<void()> body;   // runs as controlled thread 0; must call mc::finish / mc::fail
		bool race_is_violation{true};
		int timeout_s{30};
		bool plain{false};            // body runs uncontrolled and calls mc::fail / mc::finish itself
	};

	struct Violation
	{
		std::string scenario;
		std::string tag;
		std::string msg;
		std::string trace;
		std::vector<Dev> devs;
	};

	struct Stats
	{
		uint64_t executions{0}, points{0}, steps{0}, pruned{0}, scenarios{0};
		uint64_t distinct_outcomes{0};
		uint64_t inner{0}, inner_states{0}, inner_steps{0};
		uint64_t capped{0};
		int max_bound{0};
		int min_bound{1000};
		uint32_t max_points{0};
		std::map<std::string, uint64_t> per_scenario;
		std::vector<std::string> notes;
	};

	struct ExploreConfig
	{
		int jobs{8};
		double deadline_s{0};         // 0 none: stop starting new work after this (reported as cap)
		int max_violations{3};
		std::function<bool(Violation const&)> known;   // known finding -> do not count
	};

	// explore all scenarios; returns violations (at most max_violations)
	std::vector<Violation> explore(std::vector<Scenario> const& scen, ExploreConfig const& cfg, Stats& st);

	// run one execution and return its result (trace enabled)
	Result* runOnce(Scenario const& s, std::vector<Dev> const& devs, bool trace);

	// standard command line driver for a harness:  --list, --replay FILE, --out FILE, --tier T, --jobs N, --deadline S
	int harnessMain(int argc, char** argv,
	                std::function<std::vector<Scenario>(std::string const& group, std::string const& tier)> make);
}
