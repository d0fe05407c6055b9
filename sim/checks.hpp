// Interface between the driver (dst.cpp) and the individual checks.
#pragma once
#include "harness.hpp"
namespace hz {
struct CheckInfo {
    string rule;                 // what a case is and what makes it non-trivial
    vector<string> realParts;    // components that ran real code
    vector<string> stubParts;    // components replaced by a stub
    vector<string> assumptions;
    string stateMeasure;         // meaning of Stats::states, if used
};
// Each returns statistics of the exploration; a violation document is left in Stats::violation.
Stats checkProgram(const string& id, double deadline, CheckInfo& ci);
bool isProgramCheck(const string& id);
int replayProgram(const Doc& d, bool verbose);
bool hasRuntimeCheck(const string& id);
void runtimeWorker(const string& id, const string& target, int w, int jobs, Stats& st, double deadline);
int replayRuntime(const Doc& d, bool verbose);
Stats checkCompiler(const string& id, double deadline, CheckInfo& ci);
int replayCompiler(const Doc& d, bool verbose);
// debugging aid: compile a source file and run it once sequentially and n times under faults
int runFile(const string& src, const string& in, int level, int aggressive, int n);
// debugging aid: fault-free differential runs over all profiles
int shrinkSeed(u64 seed, int prof, int level, int aggressive);
int makeReplay(const string& id, const string& src, const string& in, const string& expected, int level, int tries, const string& out);
int hunt(int level, int aggressive, int count);
// exit status of a replay: 0 property holds on it, 1 violation reproduced exactly, 2 cannot run, 4 differs
inline int replayDoc(const Doc& d, bool verbose) {
    string k = d.get("kind");
    if(k == "program") return replayProgram(d, verbose);
    if(k == "runtime") return replayRuntime(d, verbose);
    if(k == "compiler") return replayCompiler(d, verbose);
    std::cout << "unknown replay kind " << k << "\n";
    return 2;
}
}  // namespace hz
