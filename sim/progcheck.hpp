// Checks that run compiled SysY programs (generated code + embedded runtime, both real) inside the
// multi-hart simulator and compare output and exit status with the reference evaluator.
#pragma once
#include "harness.hpp"
#include <dirent.h>
#include "hostcalls.hpp"
#include "sygen.hpp"

namespace hz {

struct CompileOpts { int level = 2; bool aggressive = true; string target = "riscv"; };

// Compile SysY source to an ELF image for the simulator. Returns empty string on success, otherwise
// the reason.
inline string asmToElf(const string& target, const string& s, const string& dir, const string& elf, const vector<string>& extra = {}) {
    bool rv = target == "riscv";
    string o = dir + "/x.o";
    Run a;
    a.argv = rv ? vector<string>{ "riscv64-linux-gnu-as", s, "-o", o }
                : vector<string>{ "arm-linux-gnueabihf-as", "-march=armv7ve", "-mfpu=vfpv4", s, "-o", o };
    Proc p = exec(a);
    if(p.code) return "assembler: " + p.err.substr(0, 600);
    Run l;
    l.argv = { rv ? "riscv64-linux-gnu-ld" : "arm-linux-gnueabihf-ld", "-static", "-e", "_start", o, env().guest + (rv ? "/libsim.riscv.o" : "/libsim.arm.o") };
    if(!rv) l.argv.push_back(env().guest + "/libgcc.arm.a");
    for(auto& x : extra) l.argv.push_back(x);
    l.argv.push_back("-o"); l.argv.push_back(elf);
    p = exec(l);
    if(p.code) return "linker: " + p.err.substr(0, 600);
    return "";
}
inline string runCmmc(const string& src, const CompileOpts& o, const string& dir, const string& out) {
    writeFile(dir + "/x.sy", src);
    unlink(out.c_str());
    Run c;
    c.argv = { env().cmmc, "-t", o.target, "-O", std::to_string(o.level), "-H" };
    if(o.aggressive) c.argv.push_back("--enable-aggressive");
    c.argv.insert(c.argv.end(), { "-o", out, dir + "/x.sy" });
    // virtual clock, 10 ms per reading: optimisation budgets expire after a fixed number of steps, not of seconds
    writeFile(dir + "/plan", "clock 1700000000000000000 1000000000000 10000000\n");
    c.env = { "LD_PRELOAD=" + env().shim, "DST_SHIM_PLAN=" + dir + "/plan", "DST_SHIM_LOG=" + dir + "/log" };
    c.noAslr = true;
    c.timeout = 12;
    Proc p = exec(c);
    if(p.timeout) return "compiler timed out";
    if(p.code) return "compiler exit status " + std::to_string(p.code) + ": " + p.err.substr(0, 400);
    return "";
}
inline string buildElf(const string& src, const CompileOpts& o, const string& dir, const string& elf, bool* hasPar = nullptr) {
    string s = dir + "/x.s";
    string e = runCmmc(src, o, dir, s);
    if(!e.empty()) return e;
    if(hasPar) {
        string t = readFile(s);
        *hasPar = t.find("cmmc_parallel_body") != string::npos;
    }
    return asmToElf(o.target, s, dir, elf);
}

enum FaultMask : u32 {
    F_SCHED = 1, F_STALL = 2, F_SPUR = 4, F_EINTR = 8, F_WAKE = 16, F_CLONE = 32, F_MMAP = 64, F_AFF = 128, F_CLOCK = 256, F_SC = 512,
    F_WEAK = 1024, F_START = 2048
};
inline SimConfig mkConfig(Rng& r, u32 mask, u64 seqSteps) {
    SimConfig c;
    c.seed = r.next();
    static const int pol[] = { 1, 1, 2, 2, 3, 4, 5, 5 };
    c.policy = (mask & F_SCHED) ? pol[r.below(8)] : 0;
    c.quantumBits = 2 + (u32)r.below(13);
    c.pctDepth = 1 + (u32)r.below(8);
    u32 bits = 10;
    while(bits < 26 && (1ull << bits) < seqSteps) ++bits;
    c.pctHorizonBits = bits;
    auto on = [&](u32 f, double p = 0.5) { return (mask & f) && r.chance(p); };
    auto rate = [&](double lo, double hi) { return lo * std::pow(hi / lo, (double)(r.next() >> 11) * 0x1p-53); };
    if(on(F_STALL)) c.pStall = rate(0.001, 0.1);
    if(on(F_STALL, 0.4)) c.pSync = rate(0.01, 0.5);
    if(on(F_SPUR)) c.pSpurious = rate(0.02, 0.6);
    if(on(F_EINTR)) c.pEintr = rate(0.02, 0.6);
    if(on(F_WAKE)) c.pWakeDelay = rate(0.02, 0.6);
    if(on(F_CLONE, 0.75)) c.pCloneFail = r.chance(0.25) ? 1.0 : rate(0.1, 0.9);
    if(on(F_MMAP)) c.pMmapFail = r.chance(0.25) ? 1.0 : rate(0.1, 0.9);
    if(on(F_AFF)) c.pAffFail = r.chance(0.25) ? 1.0 : rate(0.1, 0.9);
    if(mask & F_CLOCK) { c.clockMode = (u32)r.below(4); c.pClock = rate(0.05, 0.9); }
    if(on(F_SC)) c.pScFail = rate(0.01, 0.5);
    if(on(F_WEAK, 0.5)) { c.pStDelay = rate(0.002, 0.3); c.stDelayBits = 4 + (u32)r.below(10); }
    if(on(F_WEAK, 0.4)) c.pLdOld = rate(0.02, 0.8);
    if(on(F_START)) c.pStartDelay = rate(0.1, 0.9);
    return c;
}

inline string cfgSer(const SimConfig& c) {
    char b[700];
    snprintf(b, sizeof b, "%" PRIu64 " %d %u %u %u %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %u %u %" PRIu64 " %.17g %.17g", c.seed, c.policy, c.quantumBits,
             c.pctDepth, c.pctHorizonBits, c.pStall, c.pSpurious, c.pEintr, c.pWakeDelay, c.pCloneFail, c.pMmapFail, c.pAffFail, c.pClock,
             c.pScFail, c.pStDelay, c.pStartDelay, c.stDelayBits, c.clockMode, c.maxSteps, c.pSync, c.pLdOld);
    return b;
}
inline SimConfig cfgParse(const string& s) {
    SimConfig c;
    std::istringstream i(s);
    i >> c.seed >> c.policy >> c.quantumBits >> c.pctDepth >> c.pctHorizonBits >> c.pStall >> c.pSpurious >> c.pEintr >> c.pWakeDelay >>
        c.pCloneFail >> c.pMmapFail >> c.pAffFail >> c.pClock >> c.pScFail >> c.pStDelay >> c.pStartDelay >> c.stDelayBits >> c.clockMode >> c.maxSteps >> c.pSync >> c.pLdOld;
    return c;
}

struct ProgSpec {
    string id;
    vector<sy::Profile> profiles;
    u32 mask = 0;
    vector<int> levels{ 2, 2, 3 };
    int runsPerProgram = 40;
    bool requireParallel = true;   // program only counts if the compiler parallelised something
    bool memo = false;             // property about memoisation: baseline is level 2
    vector<string> targets{ "riscv" };
};

template <class Isa>
struct ProgRunner {
    Sim<Isa> sim;
    // returns empty string when the run is as expected, else a description of the violation
    string judge(const RunResult& r, const string& out, int ec) {
        if(r.outcome == Outcome::Unsupported) return "";  // no verdict
        if(r.outcome != Outcome::Exit) return string(outcomeNames[(int)r.outcome]) + ": " + r.detail;
        if(r.output != out) return "wrong output";
        if(r.exitCode != ec) return "wrong exit status " + std::to_string(r.exitCode) + ", expected " + std::to_string(ec);
        return "";
    }
    ProgRunner() {
        sim.hostcall = [](Sim<Isa>& s, typename Sim<Isa>::H& h, u32 nr) { return sysyHostcall(s, h, nr); };
    }
    RunResult rec(const SimConfig& c, vector<Event>* tr) {
        sim.clearPlan();
        RunResult r = sim.run(c);
        if(tr) *tr = sim.trace;
        return r;
    }
    RunResult play(const SimConfig& c, const vector<Event>& ev) {
        sim.setPlan(ev);
        RunResult r = sim.run(c);
        sim.clearPlan();
        return r;
    }
};

inline void account(Stats& st, const RunResult& r, u64 salt) {
    st.add("runs");
    if(r.outcome == Outcome::Unsupported) { st.add("no_verdict"); st.add("no_verdict: " + r.detail.substr(0, 60)); }
    st.add("sim_steps", r.steps);
    st.add("sim_ns", r.simNs);
    st.add("parallel_steps", r.parallelSteps);
    st.add("context_switches", r.switches);
    st.add("futex_waits_blocked", r.futexBlocked);
    st.add("futex_wakes", r.futexWakes);
    st.add("threads_created", r.clones);
    st.add("clock_reads", r.clockReads);
    st.mx("steps", r.steps);
    if(r.outcome == Outcome::Exit && r.clones) st.mx("permille_of_step_limit", r.steps * 1000 / r.limit);
    for(u32 k = 0; k < EV_KINDS; ++k) if(r.evCount[k]) st.add(string("fault:") + evNames[k], r.evCount[k]);
    if(r.traceLen) st.distinct.insert(hashMix(salt, r.syncHash));
}

inline const char* profName(sy::Profile p) {
    static const char* const n[] = { "parallel", "memo", "general", "repeat", "reduce", "io", "memodeep" };
    return n[(int)p];
}

// The same program without the transformation in question: no parallelisation, or no memoisation (where the call tree is
// too large for that, functions that keep their results in tables of their own).
inline string buildBaseline(const sy::Program& p, const CompileOpts& co, bool memo, const string& dir) {
    CompileOpts b = co;
    if(!memo || co.level != 3) b.aggressive = false;
    if(memo && !p.memoEval) b.level = 2;
    return buildElf(sy::print(p, memo && p.memoEval), b, dir, dir + "/b.elf");
}

// Changes some of the numbers in a program's input (the evaluator rejects inputs that make it undefined).
inline string mutateInput(Rng& r, const string& in) {
    std::istringstream is(in);
    string t, o;
    while(is >> t) {
        i64 v = strtoll(t.c_str(), nullptr, 10);
        switch(r.below(6)) {
            case 0: v += (i64)r.below(9) - 4; break;
            case 1: v = -v; break;
            case 2: v = (i64)r.below(200) - 100; break;
            default: break;
        }
        o += std::to_string(v) + "\n";
    }
    return o;
}

// Minimises the schedule and fault trace of a violation and writes the replay document.
template <class Isa>
void progReport(ProgRunner<Isa>& pr, const ProgSpec& sp, const string& target, const sy::Generated& g, const CompileOpts& co, bool usesMemo, u64 gseed,
                const string& profile, const SimConfig& cfg, vector<Event>& tr, RunResult& rr, string& what, Stats& st) {
    // minimise the schedule and fault trace
    auto full = tr;
    RunResult rp = pr.play(cfg, tr);
    if(rp.hash != rr.hash) { st.error = "trace replay diverged, program seed " + std::to_string(gseed); return; }
    double lim = nowS() + 60;
    auto cls = [&](const RunResult& x) { return (int)x.outcome; };
    int want = cls(rr);
    tr = ddmin(tr, [&](const vector<Event>& c) {
        if(nowS() > lim) return false;
        RunResult x = pr.play(cfg, c);
        return cls(x) == want && !pr.judge(x, g.output, g.exitCode).empty();
    }, 3000);
    rr = pr.play(cfg, tr);
    what = pr.judge(rr, g.output, g.exitCode);
    Doc d;
    d.set("property", sp.id); d.set("kind", "program"); d.set("target", target); d.set("level", co.level); d.set("aggressive", co.aggressive);
    d.set("memo", usesMemo);
    d.set("what", what); d.set("seed", (i64)env().seed); d.set("program_seed", (i64)gseed); d.set("profile", profile); d.set("shapes", g.tags);
    d.set("config", cfgSer(cfg)); d.set("config_text", cfg.str()); d.set("trace_full_length", (i64)full.size()); d.set("trace_length", (i64)tr.size());
    d.set("events", eventsStr(tr)); d.set("source", g.source); d.set("input", g.input); d.set("expected_output", g.output); d.set("expected_status", g.exitCode);
    d.set("observed_output", rr.output); d.set("observed_status", rr.exitCode); d.set("outcome", outcomeNames[(int)rr.outcome]);
    d.set("hash", std::to_string(rr.hash));
    st.violation = d.str();
}

// Programs of corpus/programs whose name lists this property, under many schedules.
struct Directed { string name; sy::Generated g; };
inline vector<Directed> directedPrograms(const string& id) {
    vector<Directed> v;
    string dir = env().verif + "/corpus/programs";
    vector<string> names;
    if(DIR* d = opendir(dir.c_str())) {
        while(auto e = readdir(d)) {
            string n = e->d_name;
            if(n.size() > 3 && n.substr(n.size() - 3) == ".sy" && n.find(id) != string::npos) names.push_back(n.substr(0, n.size() - 3));
        }
        closedir(d);
    }
    std::sort(names.begin(), names.end());
    for(auto& n : names) {
        Directed x;
        x.name = n;
        x.g.source = readFile(dir + "/" + n + ".sy");
        x.g.input = readFile(dir + "/" + n + ".in");
        string want = readFile(dir + "/" + n + ".out");
        if(size_t p = want.rfind('\n', want.size() - 2); p != string::npos) { x.g.exitCode = atoi(want.c_str() + p + 1); want.resize(p); }
        x.g.output = want;
        v.push_back(x);
    }
    return v;
}
template <class Isa>
void directedWorker(const ProgSpec& sp, const string& target, int w, int jobs, Stats& st, double deadline) {
    ProgRunner<Isa> pr;
    string dir = workerDir(target == "arm" ? w + 100 : w);
    auto all = directedPrograms(sp.id);
    for(size_t i = (size_t)w; i < all.size() * 2; i += (size_t)jobs) {
        if(nowS() > deadline || stopped()) return;
        const Directed& x = all[i / 2];
        CompileOpts co;
        co.target = target;
        co.level = 2 + (int)(i % 2);
        string err = buildElf(x.g.source, co, dir, dir + "/x.elf");
        if(!err.empty()) {
            st.add("directed_compile_failed");
            st.sample("COMPILE FAILED: " + x.name + " " + err);
            // all of them compile on a correct tree; running out of time on a loaded machine proves nothing
            if(err.find("timed out") != string::npos || exists(stopFile())) continue;
            writeFile(stopFile(), "x");
            Doc d;
            d.set("property", sp.id); d.set("kind", "program"); d.set("target", target); d.set("level", co.level); d.set("aggressive", co.aggressive);
            d.set("what", "the compiler fails: " + err); d.set("profile", "directed " + x.name); d.set("source", x.g.source); d.set("input", x.g.input);
            d.set("outcome", "compile-failed");
            st.violation = d.str();
            return;
        }
        st.add("directed_programs");
        pr.sim.loadElf(dir + "/x.elf");
        pr.sim.input = x.g.input;
        Rng r(hashMix(hashMix(env().seed, strHash(sp.id + x.name)), i));
        SimConfig base;
        base.maxSteps = 400'000'000;
        u64 len = 0;
        for(int k = 0; k < (env().thorough ? 400 : 40); ++k) {
            SimConfig cfg = base;
            vector<Event> tr;
            if(k) { cfg = mkConfig(r, sp.mask, len); cfg.maxSteps = len * 60 + 20'000'000; }
            RunResult rr = pr.rec(cfg, &tr);
            if(!k) len = rr.steps;
            account(st, rr, hashMix(strHash(x.name), i));
            string what = pr.judge(rr, x.g.output, x.g.exitCode);
            if(!what.empty()) {
                if(exists(stopFile())) return;
                writeFile(stopFile(), "x");
                progReport(pr, sp, target, x.g, co, sp.memo, 0, "directed " + x.name, cfg, tr, rr, what, st);
                return;
            }
            if(k && nowS() > deadline) return;
        }
    }
}

template <class Isa>
void progShrink(ProgRunner<Isa>& pr, const string& target, sy::Generated& g, const CompileOpts& co, const string& dir, SimConfig& cfg, vector<Event>& tr,
                string& what, RunResult& rr, u32 mask, double deadline, bool memo);

template <class Isa>
void progWorker(const ProgSpec& sp, const string& target, int w, int jobs, Stats& st, u64 caseCount, double deadline) {
    ProgRunner<Isa> pr;
    string dir = workerDir(target == "arm" ? w + 100 : w);
    string elf = dir + "/x.elf";
    for(u64 idx = (u64)w; idx < caseCount; idx += (u64)jobs) {
        if(nowS() > deadline || stopped()) { if(!stopped()) st.add("stopped_by_time_cap"); break; }
        Rng r(hashMix(hashMix(env().seed, strHash(sp.id + target)), idx));
        sy::Profile prof = sp.profiles[r.below(sp.profiles.size())];
        u64 gseed = r.next() >> 20;
        sy::Generated g = sy::generate(gseed, prof);
        if(!g.ok) { st.add("generator_gave_up"); continue; }
        CompileOpts co;
        co.target = target;
        co.level = sp.levels[r.below(sp.levels.size())];
        bool par = false;
        string err = buildElf(g.source, co, dir, elf, &par);
        st.add("programs");
        if(!err.empty()) { st.add("compile_failed"); st.sample("COMPILE FAILED: " + err + "\n" + g.source); continue; }
        if(par) st.add("programs_parallelised");
        bool usesMemo = sp.memo;
        if(sp.requireParallel && !par) { st.add("programs_not_parallelised"); if(r.chance(0.9)) continue; }
        pr.sim.loadElf(elf);
        pr.sim.input = g.input;
        SimConfig base;
        base.maxSteps = sp.memo ? 25'000'000 : 400'000'000;
        RunResult r0 = pr.rec(base, nullptr);
        if(sp.memo && r0.outcome == Outcome::StepLimit) { st.add("too_long"); continue; }
        // many programs under a few schedules, some under many
        u64 runs = r.chance(0.75) ? (u64)std::min(6, sp.runsPerProgram) : (u64)sp.runsPerProgram;
        SimConfig cfg = base;
        vector<Event> tr;
        RunResult rr = r0;
        string what = pr.judge(r0, g.output, g.exitCode);
        account(st, r0, idx);
        u64 cap = 40'000'000;
        if(r0.steps > 2'000'000) runs = std::max<u64>(2, runs * 2'000'000 / r0.steps);
        if(r0.steps > cap) { st.add("too_long"); runs = 0; }
        if(sp.memo && !par) runs = 0;
        // further call histories: the same program on other inputs
        for(int v = 0; sp.memo && what.empty() && v < 8 && nowS() < deadline; ++v) {
            sy::Generated g2 = g;
            g2.prog->input = mutateInput(r, g.input);
            sy::Eval ev(*g2.prog, 1'000'000);
            try { g2.exitCode = ev.main(); } catch(sy::UB&) { st.add("input_variant_undefined"); continue; }
            g2.input = g2.prog->input; g2.output = ev.out;
            pr.sim.input = g2.input;
            rr = pr.rec(base, nullptr);
            account(st, rr, idx);
            if(rr.outcome == Outcome::StepLimit) { st.add("too_long"); pr.sim.input = g.input; continue; }
            st.add("input_variants");
            st.distinct.insert(hashMix(strHash(g.source), strHash(g2.input)));
            what = pr.judge(rr, g2.output, g2.exitCode);
            if(!what.empty()) { cfg = base; tr.clear(); g = g2; }
            else pr.sim.input = g.input;
        }
        if(what.empty()) g.prog->input = g.input;
        for(u64 k = 0; what.empty() && k < runs && (k < 2 || nowS() < deadline); ++k) {
            cfg = mkConfig(r, sp.mask, r0.steps);
            cfg.maxSteps = r0.steps * 60 + 20'000'000;
            rr = pr.rec(cfg, &tr);
            account(st, rr, idx);
            what = pr.judge(rr, g.output, g.exitCode);
            if(k < 1 && idx < 3)
                st.sample(string("program seed ") + std::to_string(gseed) + " profile " + profName(prof) + " [" + g.tags + "] -O" + std::to_string(co.level) + " " + target +
                          "; config " + cfg.str() + "; steps " + std::to_string(rr.steps) + ", switches " + std::to_string(rr.switches) + ", events " +
                          std::to_string(rr.traceLen));
        }
        for(size_t p = 0, q; p < g.tags.size(); p = q + 1) {
            q = g.tags.find(' ', p);
            if(q == string::npos) q = g.tags.size();
            if(q > p) st.add("shape:" + g.tags.substr(p, q - p));
        }
        if(what.empty()) continue;
        // Is the sequential compilation itself wrong on this program? Then this is not about the property.
        {
            string e = buildBaseline(*g.prog, co, usesMemo, dir);
            bool bad = true;
            if(e.empty()) {
                ProgRunner<Isa> q;
                q.sim.loadElf(dir + "/b.elf");
                q.sim.input = g.input;
                RunResult rb = q.rec(base, nullptr);
                bad = !q.judge(rb, g.output, g.exitCode).empty();
            }
            if(bad) { st.add("inconclusive_sequential_miscompile"); st.sample("SEQUENTIAL MISCOMPILE (not judged here): seed " + std::to_string(gseed) + " " + profName(prof) + " -O" + std::to_string(co.level) + " " + what); continue; }
        }
        if(exists(stopFile())) break;
        writeFile(stopFile(), "x");
        // determinism: the same seed must give the same run
        RunResult again = pr.rec(cfg, &tr);
        if(again.hash != rr.hash) { st.error = "nondeterministic run, program seed " + std::to_string(gseed); return; }
        progShrink<Isa>(pr, target, g, co, dir, cfg, tr, what, rr, sp.mask, nowS() + 90, usesMemo);
        progReport(pr, sp, target, g, co, usesMemo, gseed, profName(prof), cfg, tr, rr, what, st);
        return;
    }
}

// Delete statements while the program stays defined and the violation persists on some schedule.
template <class Isa>
void progShrink(ProgRunner<Isa>& pr, const string& target, sy::Generated& g, const CompileOpts& co, const string& dir, SimConfig& cfg, vector<Event>& tr,
                string& what, RunResult& rr, u32 mask, double deadline, bool memo) {
    (void)target;
    string elf = dir + "/s.elf", good = dir + "/good.elf";
    { Run c; c.argv = { "cp", dir + "/x.elf", good }; exec(c); }
    bool rebuilt = false;
    if(!g.prog) return;
    // collect statement lists
    bool changed = true;
    auto tryIt = [&]() -> bool {
        sy::Eval ev(*g.prog, 3'000'000);
        int ec;
        try { ec = ev.main(); } catch(sy::UB&) { return false; }
        string src = sy::print(*g.prog);
        if(!buildElf(src, co, dir, elf).empty()) return false;
        // baseline still right?
        if(!buildBaseline(*g.prog, co, memo, dir).empty()) return false;
        pr.sim.input = g.input;
        pr.sim.loadElf(dir + "/b.elf");
        SimConfig base; base.maxSteps = 400'000'000;
        RunResult rb = pr.rec(base, nullptr);
        if(!pr.judge(rb, ev.out, ec).empty()) { pr.sim.loadElf(good); return false; }
        pr.sim.loadElf(elf);
        SimConfig c2 = cfg;
        Rng r(cfg.seed);
        for(int k = 0; k < 40; ++k) {
            vector<Event> t2;
            if(k == 0) c2 = base; else if(k == 1) c2 = cfg; else { c2 = mkConfig(r, mask, rb.steps); c2.maxSteps = rb.steps * 60 + 20'000'000; }
            RunResult x = pr.rec(c2, &t2);
            string j = pr.judge(x, ev.out, ec);
            if(!j.empty()) {
                what = j; cfg = c2; tr = t2; rr = x;
                g.source = src; g.output = ev.out; g.exitCode = ec;
                rename(elf.c_str(), good.c_str());
                pr.sim.loadElf(good);
                rebuilt = true;
                return true;
            }
        }
        pr.sim.loadElf(good);
        return false;
    };
    std::function<void(vector<sy::St>&)> visit = [&](vector<sy::St>& b) {
        for(size_t len = std::max<size_t>(b.size() / 2, 1); len >= 1; len /= 2) {
            for(size_t i = 0; i + len <= b.size() && nowS() < deadline;) {
                vector<sy::St> keep = b;
                b.erase(b.begin() + (long)i, b.begin() + (long)(i + len));
                if(tryIt()) changed = true;
                else { b = keep; ++i; }
            }
        }
        for(auto& s : b) {
            if(nowS() > deadline) return;
            if(!s->body.empty()) visit(s->body);
            if(!s->els.empty()) visit(s->els);
        }
    };
    for(int round = 0; changed && round < 3; ++round) {
        changed = false;
        for(size_t f = g.prog->funcs.size(); f-- > 0 && nowS() < deadline;) visit(g.prog->funcs[f]->body);
    }
    pr.sim.loadElf(good);
    // re-establish the trace on the final program
    rr = pr.rec(cfg, &tr);
    what = pr.judge(rr, g.output, g.exitCode);
    (void)rebuilt;
}

// Replay of a program violation in this process: returns 1 when reproduced exactly.
template <class Isa>
int progReplay(const Doc& d, bool verbose) {
    string dir = env().work;
    CompileOpts co;
    co.target = d.get("target"); co.level = (int)d.num("level"); co.aggressive = d.num("aggressive") != 0;
    string e = buildElf(d.get("source"), co, dir, dir + "/r.elf");
    if(d.get("outcome") == "compile-failed") {
        if(verbose) std::cout << "property " << d.get("property") << ": " << (e.empty() ? "the program compiles" : "the compiler fails: " + e) << "\n";
        return e.empty() ? 0 : 1;
    }
    if(!e.empty()) { std::cout << "replay: cannot build: " << e << "\n"; return 2; }
    ProgRunner<Isa> pr;
    pr.sim.loadElf(dir + "/r.elf");
    pr.sim.input = d.get("input");
    SimConfig cfg = cfgParse(d.get("config"));
    RunResult r = pr.play(cfg, eventsParse(d.get("events")));
    string what = pr.judge(r, d.get("expected_output"), (int)d.num("expected_status"));
    // hand-written findings: the recorded schedule may belong to slightly different code, so look for another one
    if(what.empty() && d.num("search")) {
        Rng rg(env().seed);
        u64 len = r.steps;
        for(int k = 0; k < (int)d.num("search") && what.empty(); ++k) {
            cfg = mkConfig(rg, F_SCHED | F_STALL | F_SPUR | F_WAKE | F_WEAK | F_SC, len);
            cfg.maxSteps = len * 60 + 20'000'000;
            r = pr.rec(cfg, nullptr);
            what = pr.judge(r, d.get("expected_output"), (int)d.num("expected_status"));
        }
    }
    if(verbose) {
        std::cout << "property " << d.get("property") << ": " << (what.empty() ? "holds on this execution" : what) << "\n"
                  << "outcome " << outcomeNames[(int)r.outcome] << " status " << r.exitCode << " steps " << r.steps << " hash " << r.hash << "\n";
        if(r.outcome == Outcome::Exit && r.output != d.get("expected_output")) {
            size_t i = 0;
            auto x = d.get("expected_output");
            while(i < x.size() && i < r.output.size() && x[i] == r.output[i]) ++i;
            std::cout << "first difference at byte " << i << ": expected ..." << jstr(x.substr(i > 10 ? i - 10 : 0, 60)) << " observed ..." << jstr(r.output.substr(i > 10 ? i - 10 : 0, 60)) << "\n";
        }
    }
    if(what.empty()) return 0;
    return std::to_string(r.hash) == d.get("hash") ? 1 : 4;
}
}  // namespace hz
