#!/bin/bash
# Writes <dir>/rvrun.cpp and libsim.c: the simulator as one self-contained file, for demonstrations of planted bugs.
d=$1
{ sed '/#pragma once/d' sim/core.hpp; sed '/#pragma once/d;/#include "core.hpp"/d' sim/hostcalls.hpp; sed '/#pragma once/d;/#include "core.hpp"/d' sim/rv64.hpp
cat <<'M'
#include <fstream>
#include <iostream>
#include <sstream>
// rvrun <elf> <input> <expected> <runs> [letters: q stall, s spurious, w weak stores, c SC failures, t thread creation fails, a affinity fails, m mmap fails, k clock, e EINTR, d late start]
int main(int argc, char** argv) {
    auto slurp = [](const char* p) { std::ifstream f(p, std::ios::binary); std::stringstream b; b << f.rdbuf(); return b.str(); };
    Sim<Rv64> sim;
    sim.hostcall = [](Sim<Rv64>& s, Sim<Rv64>::H& h, u32 nr) { return sysyHostcall(s, h, nr); };
    sim.loadElf(argv[1]);
    sim.input = slurp(argv[2]);
    std::string want = slurp(argv[3]), L = argc > 5 ? argv[5] : "";
    auto has = [&](char c) { return L.find(c) != std::string::npos; };
    int n = atoi(argv[4]);
    SimConfig base; base.maxSteps = 2'000'000'000;
    u64 len = 0;
    for(int k = 0; k <= n; ++k) {
        SimConfig c = base;
        if(k) {
            c.seed = 1000 + (u64)k; c.policy = 1 + k % 5; c.quantumBits = 2 + (u32)k % 12; c.pctDepth = 1 + (u32)k % 7; c.pctHorizonBits = 10;
            while(c.pctHorizonBits < 26 && (1ull << c.pctHorizonBits) < len) ++c.pctHorizonBits;
            if(has('q')) c.pStall = 0.02;
            if(has('s')) c.pSpurious = 0.3;
            if(has('e')) c.pEintr = 0.3;
            if(has('w')) { c.pStDelay = 0.1; c.stDelayBits = 8; }
            if(has('c')) c.pScFail = 0.2;
            if(has('t')) c.pCloneFail = k % 3 ? 0.5 : 1.0;
            if(has('m')) c.pMmapFail = k % 3 ? 0.5 : 1.0;
            if(has('a')) c.pAffFail = 0.7;
            if(has('k')) { c.clockMode = (u32)k % 4; c.pClock = 0.5; }
            if(has('d')) c.pStartDelay = 0.5;
            c.maxSteps = len * 60 + 20'000'000;
        }
        RunResult r = sim.run(c);
        if(!k) len = r.steps;
        std::string got = r.output + "\n" + std::to_string(r.exitCode) + "\n";
        if(r.outcome != Outcome::Exit || got != want) {
            std::cout << "run " << k << ": " << outcomeNames[(int)r.outcome] << " " << r.detail << "\ngot:\n" << got << "wanted:\n" << want;
            return 1;
        }
    }
    std::cout << n + 1 << " runs as expected\n";
    return 0;
}
M
} > $d/rvrun.cpp
cp guest/libsim.c $d/
