// Program-level checks C01, C03-C07.
#include "checks.hpp"
#include "progcheck.hpp"
#include "arm32.hpp"
#include "rv64.hpp"
namespace hz {
using sy::Profile;
static const std::map<string, ProgSpec>& specs() {
    static const std::map<string, ProgSpec> m = [] {
        std::map<string, ProgSpec> s;
        auto add = [&](ProgSpec p) { s[p.id] = p; };
        add({ "C01", { sy::PROF_PARALLEL, sy::PROF_PARALLEL, sy::PROF_REDUCE, sy::PROF_GENERAL, sy::PROF_IO }, F_SCHED | F_STALL | F_SPUR | F_WAKE | F_WEAK | F_SC });
        add({ "C02", { sy::PROF_PARALLEL, sy::PROF_PARALLEL, sy::PROF_REPEAT }, F_SCHED | F_STALL | F_SPUR | F_WAKE | F_WEAK | F_START });
        add({ "C03", { sy::PROF_PARALLEL, sy::PROF_REPEAT, sy::PROF_REDUCE }, F_SCHED | F_STALL | F_SPUR | F_EINTR | F_WAKE | F_START | F_WEAK });
        add({ "C04", { sy::PROF_REPEAT }, F_SCHED | F_STALL | F_CLOCK | F_WAKE });
        ProgSpec memo{ "C05", { sy::PROF_MEMO, sy::PROF_MEMODEEP, sy::PROF_MEMODEEP }, F_SCHED | F_STALL | F_WEAK };
        memo.levels = { 3 }; memo.memo = true; memo.requireParallel = false; memo.runsPerProgram = 3;
        add(memo);
        add({ "C06", { sy::PROF_REDUCE }, F_SCHED | F_STALL | F_SC | F_WEAK });
        add({ "C07", { sy::PROF_PARALLEL, sy::PROF_REPEAT, sy::PROF_REDUCE }, F_SCHED | F_CLONE | F_MMAP | F_AFF | F_START });
        return s;
    }();
    return m;
}
template <class Isa>
static void isaWorker(const ProgSpec& sp, const char* target, int w, int jobs, Stats& st, double t0, double deadline, const std::map<string, double>& share, u64 cases) {
    auto go = [&] { return st.violation.empty() && st.error.empty(); };
    u64 before = st.n["runs"];
    directedWorker<Isa>(sp, target, w, jobs, st, t0 + (deadline - t0) * 0.2);
    if(go() && hasRuntimeCheck(sp.id)) runtimeWorker(sp.id, target, w, jobs, st, t0 + (deadline - t0) * share.at(sp.id));
    if(go()) progWorker<Isa>(sp, target, w, jobs, st, cases, deadline);
    st.add(string("runs_") + target, st.n["runs"] - before);
}
bool isProgramCheck(const string& id) { return specs().count(id); }
Stats checkProgram(const string& id, double deadline, CheckInfo& ci) {
    const ProgSpec& sp = specs().at(id);
    ci.rule = "A case is one simulated run of one generated SysY program (seeded generator, defined behaviour by construction, expected output from an "
              "independent evaluator) compiled by the real compiler, under one seeded schedule-and-fault configuration. Non-trivial: at least one "
              "scheduling decision or fault was injected; distinct: different program or different order of synchronisation operations and thread switches at them.";
    if(id == "C05") ci.rule = "A case is one simulated run: a seeded history of look-ups and stores in the real memo table (driver), checked against a reference map, or one "
              "generated program with memoised recursive functions on one seeded input, compared with an independent evaluator. Distinct: different history, different "
              "(program, input) pair, or different order of synchronisation operations under an injected schedule.";
    ci.realParts = { "SysY front end", "optimiser passes incl. auto-parallelisation and memoisation", "RISC-V and ARM code generation", "embedded runtime cmmc_sysy_rt (workers, futexes, reductions, memo table)" };
    ci.stubParts = { "CPU and memory (RV64GC and ARMv7 interpreters with per-hart store buffers)", "Linux kernel (clone, futex, mmap, affinity, wait4, clock)", "sylib/libc (host calls)" };
    ci.assumptions = { "The simulator implements RV64GC, the ARMv7 instructions used, the Linux calls used and store-buffer behaviour of RVWMO and ARM (delayed stores; loads are not speculated) correctly",
                       "Generated programs have no undefined behaviour by the evaluator's checks" };
    u64 cases = env().thorough ? 1'000'000 : 100'000;
    static const std::map<string, double> share{ { "C02", 0.6 }, { "C03", 0.5 }, { "C04", 0.6 }, { "C05", 0.25 }, { "C06", 0.35 }, { "C07", 0.5 } };
    double t0 = nowS();
    // one worker in four runs the ARM output of the compiler, the others the RISC-V output
    int jobs = env().jobs, armJobs = jobs / 4;
    return pool(jobs, [&](int w, Stats& st) {
        bool arm = w < armJobs;
        if(arm) isaWorker<Arm32>(sp, "arm", w, armJobs, st, t0, deadline, share, cases);
        else isaWorker<Rv64>(sp, "riscv", w - armJobs, jobs - armJobs, st, t0, deadline, share, cases);
    });
}
static string devTarget() { return getenv("DST_TARGET") ? getenv("DST_TARGET") : "riscv"; }
template <class Isa> static int runFileOn(const string& src, const string& in, int level, int aggressive, int n) {
    string d = env().verif + "/build/run." + std::to_string(getpid());
    mkdir(d.c_str(), 0755);
    bool par = false;
    CompileOpts o; o.level = level; o.aggressive = aggressive; o.target = devTarget();
    string e = buildElf(readFile(src), o, d, d + "/r.elf", &par);
    if(!e.empty()) { std::cout << e << "\n"; return 2; }
    ProgRunner<Isa> pr;
    pr.sim.loadElf(d + "/r.elf");
    Run rm; rm.argv = { "/bin/rm", "-rf", d }; exec(rm);
    pr.sim.input = readFile(in);
    SimConfig b; b.maxSteps = 400'000'000;
    RunResult r0 = pr.rec(b, nullptr);
    std::cout << r0.output << r0.exitCode << "\n";
    if(r0.outcome != Outcome::Exit) std::cout << outcomeNames[(int)r0.outcome] << " " << r0.detail << "\n";
    std::cerr << "parallel " << par << " steps " << r0.steps << "\n";
    Rng rg(env().seed);
    for(int k = 0; k < n; ++k) {
        SimConfig c = mkConfig(rg, 0xffff & ~(F_CLONE | F_MMAP), r0.steps);
        c.maxSteps = r0.steps * 60 + 20'000'000;
        RunResult r = pr.rec(c, nullptr);
        if(r.output != r0.output || r.exitCode != r0.exitCode || r.outcome != r0.outcome) std::cout << "DIFFERS: " << outcomeNames[(int)r.outcome] << " " << r.detail << " " << c.str() << "\n";
    }
    return 0;
}
int runFile(const string& src, const string& in, int level, int aggressive, int n) {
    return devTarget() == "arm" ? runFileOn<Arm32>(src, in, level, aggressive, n) : runFileOn<Rv64>(src, in, level, aggressive, n);
}
// Deletes statements while the predicate (on a still defined program) holds.
static void shrinkAst(sy::Program& p, const std::function<bool()>& bad) {
    bool changed = true;
    std::function<void(vector<sy::St>&)> visit = [&](vector<sy::St>& b) {
        for(size_t len = std::max<size_t>(b.size() / 2, 1); len >= 1; len /= 2)
            for(size_t i = 0; i + len <= b.size();) {
                vector<sy::St> keep = b;
                b.erase(b.begin() + (long)i, b.begin() + (long)(i + len));
                if(bad()) changed = true; else { b = keep; ++i; }
            }
        for(auto& s : b) { if(!s->body.empty()) visit(s->body); if(!s->els.empty()) visit(s->els); }
    };
    while(changed) { changed = false; for(auto& f : p.funcs) visit(f->body); }
}
template <class Isa> static int shrinkSeedOn(u64 seed, int prof, int level, int aggressive) {
    env().work = env().verif + "/build/hunt." + std::to_string(getpid());
    mkdir(env().work.c_str(), 0755);
    auto g = sy::generate(seed, (sy::Profile)prof);
    ProgRunner<Isa> pr;
    string last;
    auto test = [&] {
        sy::Eval ev(*g.prog, 3'000'000);
        int ec;
        try { ec = ev.main(); } catch(sy::UB&) { return string(); }
        CompileOpts o; o.level = level; o.aggressive = aggressive; o.target = devTarget();
        string e = buildElf(sy::print(*g.prog), o, env().work, env().work + "/h.elf");
        if(!e.empty()) return string("C") + e.substr(0, 30);
        pr.sim.loadElf(env().work + "/h.elf");
        pr.sim.input = g.input;
        SimConfig b; b.maxSteps = 400'000'000;
        RunResult r = pr.rec(b, nullptr);
        string j = pr.judge(r, ev.out, ec);
        if(!j.empty()) last = "expected " + ev.out + "\nobserved " + r.output;
        return j.empty() ? j : j.substr(0, 12);
    };
    string first = test();
    shrinkAst(*g.prog, [&] { return test() == first; });
    test();
    std::cout << sy::print(*g.prog) << "// " << first << "\n" << last << "\n";
    Run rm; rm.argv = { "/bin/rm", "-rf", env().work }; exec(rm);
    return 0;
}
template <class Isa> static int huntOn(int level, int aggressive, int count) {
    env().work = env().verif + "/build/hunt." + std::to_string(getpid());
    mkdir(env().work.c_str(), 0755);
    pool(env().jobs, [&](int w, Stats& st) {
        ProgRunner<Isa> pr;
        string d = workerDir(w);
        for(int i = w; i < count; i += env().jobs) {
            Rng r(hashMix(env().seed, (u64)i));
            int prof = (int)r.below(6);
            u64 seed = r.next() >> 30;
            auto g = sy::generate(seed, (sy::Profile)prof);
            if(!g.ok) continue;
            CompileOpts o; o.level = level; o.aggressive = aggressive; o.target = devTarget();
            string e = buildElf(g.source, o, d, d + "/h.elf");
            if(e.empty()) {
                pr.sim.loadElf(d + "/h.elf");
                pr.sim.input = g.input;
                SimConfig b; b.maxSteps = 400'000'000;
                e = pr.judge(pr.rec(b, nullptr), g.output, g.exitCode);
            }
            if(!e.empty()) { printf("seed %" PRIu64 " profile %d O%d aggressive %d: %s [%s]\n", seed, prof, level, aggressive, e.c_str(), g.tags.c_str()); fflush(stdout); }
        }
    });
    Run rm; rm.argv = { "/bin/rm", "-rf", env().work }; exec(rm);
    return 0;
}
int shrinkSeed(u64 seed, int prof, int level, int aggressive) { return devTarget() == "arm" ? shrinkSeedOn<Arm32>(seed, prof, level, aggressive) : shrinkSeedOn<Rv64>(seed, prof, level, aggressive); }
int hunt(int level, int aggressive, int count) { return devTarget() == "arm" ? huntOn<Arm32>(level, aggressive, count) : huntOn<Rv64>(level, aggressive, count); }
// Makes a replay file for a hand-written program: searches schedules until the expected output is missed.
int makeReplay(const string& id, const string& src, const string& in, const string& expected, int level, int tries, const string& out) {
    env().work = env().verif + "/build/run." + std::to_string(getpid());
    mkdir(env().work.c_str(), 0755);
    CompileOpts o; o.level = level; o.aggressive = true;
    string e = buildElf(readFile(src), o, env().work, env().work + "/r.elf");
    ProgRunner<Rv64> pr;
    if(e.empty()) pr.sim.loadElf(env().work + "/r.elf");
    Run rm; rm.argv = { "/bin/rm", "-rf", env().work }; exec(rm);
    if(!e.empty()) { std::cout << e << "\n"; return 2; }
    pr.sim.input = readFile(in);
    string want = readFile(expected);
    int ec = 0;
    if(size_t p = want.rfind('\n', want.size() - 2); p != string::npos) { ec = atoi(want.c_str() + p + 1); want.resize(p); }
    SimConfig cfg; cfg.maxSteps = 400'000'000;
    RunResult r = pr.rec(cfg, nullptr);
    string what = pr.judge(r, want, ec);
    vector<Event> tr;
    Rng rg(env().seed);
    u64 len = r.steps;
    for(int k = 0; k < tries && what.empty(); ++k) {
        cfg = mkConfig(rg, specs().at(id).mask, len);
        cfg.maxSteps = len * 60 + 20'000'000;
        r = pr.rec(cfg, &tr);
        what = pr.judge(r, want, ec);
    }
    if(what.empty()) { std::cout << "no violation found\n"; return 1; }
    tr = ddmin(tr, [&](const vector<Event>& c) { RunResult x = pr.play(cfg, c); return x.outcome == r.outcome && !pr.judge(x, want, ec).empty(); }, 3000);
    r = pr.play(cfg, tr);
    Doc d;
    d.set("property", id); d.set("kind", "program"); d.set("target", "riscv"); d.set("level", level); d.set("aggressive", true); d.set("what", pr.judge(r, want, ec));
    d.set("search", tries); d.set("config", cfgSer(cfg)); d.set("config_text", cfg.str()); d.set("events", eventsStr(tr)); d.set("source", readFile(src)); d.set("input", readFile(in));
    d.set("expected_output", want); d.set("expected_status", ec); d.set("observed_output", r.output); d.set("observed_status", r.exitCode);
    d.set("outcome", outcomeNames[(int)r.outcome]); d.set("hash", std::to_string(r.hash));
    writeFile(out, d.str());
    std::cout << d.str();
    return 0;
}
int replayProgram(const Doc& d, bool verbose) { return d.get("target") == "arm" ? progReplay<Arm32>(d, verbose) : progReplay<Rv64>(d, verbose); }
}  // namespace hz
