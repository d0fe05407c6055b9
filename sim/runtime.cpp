// Checks that drive the real embedded runtime (worker threads, futexes, partition, adaptive thread
// selection, reductions, memo table) with seeded operation histories; used by C02-C07.
#include "checks.hpp"
#include "progcheck.hpp"
#include "arm32.hpp"
#include "rv64.hpp"
namespace hz {
struct Op { int kind; i32 a, b, c, d; };
struct History { int status = 0; i32 mp[2][7] = {}; vector<Op> ops; };
static string histStr(const History& h) {
    string s = std::to_string(h.ops.size()) + " " + std::to_string(h.status) + "\n";
    for(auto& t : h.mp) { for(i32 v : t) s += std::to_string(v) + " "; s += "\n"; }
    for(auto& o : h.ops) s += std::to_string(o.kind) + " " + std::to_string(o.a) + " " + std::to_string(o.b) + " " + std::to_string(o.c) + " " + std::to_string(o.d) + "\n";
    return s;
}
static History histParse(const string& s) {
    History h;
    std::istringstream i(s);
    size_t n = 0;
    i >> n >> h.status;
    for(auto& t : h.mp) for(i32& v : t) i >> v;
    h.ops.resize(n);
    for(auto& o : h.ops) i >> o.kind >> o.a >> o.b >> o.c >> o.d;
    return h;
}
static string opStr(const Op& o) {
    static const char* const n[] = { "?", "parallel_for", "reduce_i32", "reduce_f32", "accumulate_array", "memo" };
    char b[160];
    if(o.kind == 5) snprintf(b, sizeof b, "memo#%d(%d, %d)", o.c, o.a, o.b);
    else snprintf(b, sizeof b, "%s[%d, %d) body%d spin%d", n[o.kind], o.a, o.b, o.c, o.d);
    return b;
}

// The reference: what each operation must do, checked event by event.
struct Model {
    const History* h = nullptr;
    size_t op = 0;
    bool inCall = false, sawRet = false;
    std::map<i64, i64> done;   // executed sub-ranges of the current call
    u64 covered = 0;
    std::multiset<std::pair<i64, i64>> running;
    size_t completed = 0;
    std::map<std::pair<i32, i32>, u32> memo[2];
    void start(const History* hh) { *this = Model{}; h = hh; }
    u32 memoVal(int t, i32 a, i32 b) {
        auto key = std::make_pair(a, b);
        auto it = memo[t].find(key);
        if(it != memo[t].end()) return it->second;
        const i32* q = h->mp[t];
        u32 r;
        if(a < q[0]) r = (u32)a * (u32)q[1] + (u32)b * 3u + 1u;
        else {
            u32 x = memoVal(t, a - q[2], (i32)((u32)b + (u32)q[3]));
            u32 y = memoVal(t, a - q[4], (i32)((u32)b + (u32)q[5]));
            r = x * 5u + y * 3u + (u32)b + (u32)q[6];
        }
        return memo[t][key] = r;
    }
    static u64 size(const Op& o) { return o.b > o.a ? (u64)((i64)o.b - (i64)o.a) : 0; }
    string event(i32 kind, i32 a, i32 b, i32 c) {
        auto nm = [&] { return op < h->ops.size() ? "operation " + std::to_string(op) + " " + opStr(h->ops[op]) + ": " : string("?"); };
        switch(kind) {
            case 1:
                op = (size_t)a; inCall = true; done.clear(); covered = 0;
                if(!running.empty()) return nm() + "work of an earlier call is still running";
                return "";
            case 2: {
                if(!inCall || op >= h->ops.size()) return "loop body started outside any call";
                const Op& o = h->ops[op];
                if(o.c != a) return nm() + "wrong body " + std::to_string(a);
                if(c <= b) return nm() + "body run on empty range [" + std::to_string(b) + ", " + std::to_string(c) + ")";
                if(b < o.a || c > o.b) return nm() + "iterations outside the range: [" + std::to_string(b) + ", " + std::to_string(c) + ")";
                auto it = done.lower_bound(b);
                if(it != done.end() && it->first < c) return nm() + "iteration " + std::to_string(it->first) + " executed twice";
                if(it != done.begin() && std::prev(it)->second > b) return nm() + "iteration " + std::to_string(b) + " executed twice";
                done[b] = c;
                covered += (u64)((i64)c - (i64)b);
                running.insert({ b, c });
                return "";
            }
            case 3: {
                auto it = running.find({ b, c });
                if(it == running.end()) return nm() + "unmatched end of body";
                running.erase(it);
                return "";
            }
            case 5: return nm() + "loop body read a stale value (" + std::to_string(b) + " instead of " + std::to_string(c) + ") of memory the caller wrote before the call";
            case 6: return nm() + "caller read " + std::to_string(c) + " for element " + std::to_string(b) + " written by the loop body";
            case 7: {
                op = (size_t)a;
                if(op >= h->ops.size()) return "bad event";
                const Op& o = h->ops[op];
                u32 tok = (u32)op * 40503u + 77u, want = 0;
                u64 n = size(o);
                if(o.kind == 5) { want = memoVal(o.c, o.a, o.b); ++completed; }
                else if(o.kind == 2) { want = tok; for(u64 i = 0; i < n; ++i) want += (u32)((u32)o.a + (u32)i) * 2654435761u + tok; }
                else if(o.kind == 3) { float f = 1; for(u64 i = 0; i < n; ++i) f += (float)((i & 15)) - 3.0f; memcpy(&want, &f, 4); }
                else { want = (u32)b; for(u64 i = (u64)b; i < n; i += 8) want += ((u32)o.a + (u32)i) ^ tok; }
                if(want != (u32)c) return nm() + "result " + std::to_string(c) + ", expected " + std::to_string((i32)want);
                return "";
            }
            case 4: {
                if(!running.empty()) return nm() + "returned while [" + std::to_string(running.begin()->first) + ", " + std::to_string(running.begin()->second) + ") was still running";
                if(covered != size(h->ops[op])) {
                    i64 p = h->ops[op].a;
                    for(auto& [b2, e2] : done) { if(b2 != p) break; p = e2; }
                    return nm() + "iteration " + std::to_string(p) + " not executed when the call returned";
                }
                inCall = false;
                ++completed;
                return "";
            }
        }
        return "bad event";
    }
};

struct RtSpec { string id; vector<int> kinds; u32 mask; int style; };  // style 0 ranges, 1 repeats
static const std::map<string, RtSpec>& rtSpecs() {
    static const std::map<string, RtSpec> m = [] {
        std::map<string, RtSpec> s;
        auto add = [&](RtSpec p) { s[p.id] = p; };
        add({ "C02", { 1, 1, 1, 1, 2 }, F_SCHED | F_STALL | F_SPUR | F_WAKE | F_WEAK | F_START, 0 });
        add({ "C03", { 1, 1, 2, 3 }, F_SCHED | F_STALL | F_SPUR | F_EINTR | F_WAKE | F_START | F_WEAK, 0 });
        add({ "C04", { 1, 1, 1, 2 }, F_SCHED | F_STALL | F_CLOCK | F_WAKE, 1 });
        add({ "C05", { 5 }, F_SCHED, 0 });
        add({ "C06", { 2, 2, 3, 3, 4 }, F_SCHED | F_STALL | F_SC | F_WEAK, 0 });
        add({ "C07", { 1, 1, 2 }, F_SCHED | F_CLONE | F_MMAP | F_AFF | F_START, 0 });
        return s;
    }();
    return m;
}

static Op mkRange(Rng& r, int kind, bool tiny) {
    Op o{ kind, 0, 0, (i32)r.below(24), (i32)(r.chance(0.5) ? 0 : r.below(60)) };
    u64 n;
    switch(r.below(kind == 1 && !tiny ? 8 : 5)) {
        case 0: n = r.below(3); break;
        case 1: n = 10 + r.below(16); break;
        case 2: case 3: n = 16 + r.below(60); break;
        case 4: n = r.below(kind == 1 ? 300 : 120); break;
        case 5: n = (1ull << r.below(33)) - 4 + r.below(9); break;
        case 6: n = 0xffffffffull - r.logu(6) + 1; break;
        default: n = r.logu(32);
    }
    n = std::min<u64>(n, 0xffffffffull);
    if((i64)n < 0) n = 0;
    i64 lo = -0x80000000ll, hi = 0x7fffffffll - (i64)n, a;
    switch(r.below(6)) {
        case 0: case 1: a = 0; break;
        case 2: a = lo + (i64)r.below(5); break;
        case 3: a = hi - (i64)r.below(5); break;
        case 4: a = (i64)r.below(200) - 100; break;
        default: a = lo + (i64)(r.next() & 0xffffffff);
    }
    a = std::max(lo, std::min(a, hi));
    o.a = (i32)a; o.b = (i32)(a + (i64)n);
    if(n == 0 && r.chance(0.5)) { o.b = (i32)std::max(lo, a - (i64)r.logu(31)); }
    return o;
}
static History mkHistory(Rng& r, const RtSpec& sp, const std::set<int>& usable) {
    History h;
    h.status = r.chance(0.3) ? 0 : (i32)r.below(256);
    vector<int> ks;
    for(int k : sp.kinds) if(usable.count(k)) ks.push_back(k);
    if(ks.empty()) return h;
    if(sp.id == "C05") {
        for(auto& q : h.mp) {
            bool neg = r.chance(0.4);
            auto delta = [&]() -> i32 {
                switch(r.below(7)) {
                    case 0: case 1: return 0;
                    case 2: return (i32)r.below(5) - 2;
                    case 3: return (i32)(1021 * ((i64)r.below(9) - 4));
                    case 4: return (i32)(1019 * ((i64)r.below(9) - 4));
                    case 5: return (i32)(1021 * 1019 * ((i64)r.below(3) - 1));
                    default: return (i32)r.next();
                }
            };
            q[0] = neg ? -3 - (i32)r.below(12) : (i32)r.below(3);
            q[1] = (i32)r.below(100) - 50; q[2] = 1 + (i32)r.below(2); q[3] = delta(); q[4] = 1 + (i32)r.below(3); q[5] = delta(); q[6] = (i32)r.below(1000);
            if(r.chance(0.25)) { q[2] = 1; q[3] = 0; q[4] = 2; q[5] = 0; }
        }
        u64 n = 1 + r.logu(7);
        i32 keyMul = r.chance(0.5) ? 1 : r.chance(0.5) ? 1021 : 1019;
        for(u64 i = 0; i < n; ++i) {
            Op o{ 5, 0, 0, (i32)r.below(r.chance(0.5) ? 1 : 2), 0 };
            o.a = h.mp[o.c][0] - 2 + (i32)r.below(11);
            switch(r.below(5)) {
                case 0: o.b = 0; break;
                case 1: o.b = (i32)((u32)keyMul * (u32)((i32)r.below(9) - 4)); break;
                case 2: o.b = (i32)r.below(40) - 20; break;
                case 3: o.b = (i32)r.next(); break;
                default: o.b = h.ops.empty() ? 0 : h.ops[r.below(h.ops.size())].b;
            }
            h.ops.push_back(o);
        }
        return h;
    }
    if(sp.style == 1) {
        // few or many distinct (loop, trip count) pairs, called often enough to pass the measuring phases
        u64 m = r.chance(0.5) ? 1 + r.below(3) : r.chance(0.7) ? 12 + r.below(10) : 24;
        vector<Op> pool;
        for(u64 i = 0; i < m; ++i) {
            Op o = mkRange(r, ks[r.below(ks.size())], true);
            if(r.chance(0.7)) { i32 n = 16 + (i32)r.below(40); o.b = o.a > 0x7fffff00 ? o.a : o.a + n; }
            if(i && r.chance(0.3)) { o = pool[r.below(pool.size())]; if(r.chance(0.5)) o.c = (i32)r.below(24); else if(o.b < 0x7fffff00) o.b += 1; }
            pool.push_back(o);
        }
        u64 total = m <= 3 ? 60 + r.below(700) : 200 + r.below(1500);
        int pat = (int)r.below(3);
        size_t cur = 0;
        for(u64 i = 0; i < total; ++i) {
            if(pat == 0) cur = r.below(pool.size());
            else if(pat == 1) cur = (cur + 1) % pool.size();
            else if(r.chance(0.02)) cur = r.below(pool.size());
            h.ops.push_back(pool[cur]);
        }
        return h;
    }
    u64 n = sp.id == "C03" ? r.below(40) : 1 + r.below(40);
    for(u64 i = 0; i < n; ++i) {
        if(!h.ops.empty() && r.chance(0.2)) { h.ops.push_back(h.ops[r.below(h.ops.size())]); continue; }
        h.ops.push_back(mkRange(r, ks[r.below(ks.size())], sp.id == "C03" && r.chance(0.8)));
    }
    return h;
}

template <class Isa>
struct RtRunner {
    Sim<Isa> sim;
    Model model;
    History hist;
    RtRunner() {
        sim.hostcall = [this](Sim<Isa>& s, typename Sim<Isa>::H& h, u32 nr) {
            if(nr != 5020) return sysyHostcall(s, h, nr);
            i32 a[4];
            for(int i = 0; i < 4; ++i) a[i] = (i32)Sim<Isa>::argOf(h, i);
            string e = model.event(a[0], a[1], a[2], a[3]);
            s.syncNote(h, 9, (u64)(u32)a[0] << 40 ^ (u64)(u32)a[2]);
            s.sysRet(h, 0);
            if(!e.empty()) s.finish(Outcome::HistoryViolation, e);
            return true;
        };
        sim.onStart = [this](Sim<Isa>&) { model.start(&hist); };
    }
    void set(const History& h) { hist = h; sim.input = histStr(h); }
    RunResult rec(const SimConfig& c, vector<Event>* tr) {
        sim.clearPlan();
        RunResult r = sim.run(c);
        if(tr) *tr = sim.trace;
        return r;
    }
    RunResult play(const SimConfig& c, const vector<Event>& ev) {
        sim.setPlan(ev);
        RunResult r = sim.run(c);
        sim.clearPlan();
        return r;
    }
    string judge(const RunResult& r) {
        if(r.outcome == Outcome::Unsupported) return "";
        if(r.outcome != Outcome::Exit) return string(outcomeNames[(int)r.outcome]) + ": " + r.detail;
        if(model.completed != hist.ops.size()) return "only " + std::to_string(model.completed) + " of " + std::to_string(hist.ops.size()) + " operations completed";
        if(r.exitCode != hist.status) return "wrong exit status " + std::to_string(r.exitCode) + ", expected " + std::to_string(hist.status);
        return "";
    }
};

static const char* const kParSource = R"(int a[1000]; int s;
int main() { int i = 0; int n = getint(); while (i < n) { a[i] = i * 3 + n; i = i + 1; } putarray(n, a); return 0; }
)";
// links the runtime of a really compiled program with the driver
static string buildDriver(const string& target, const string& dir, const string& elf) {
    CompileOpts o; o.target = target;
    bool rv = target == "riscv";
    string s = dir + "/d.s", e = runCmmc(kParSource, o, dir, s);
    if(!e.empty()) return e;
    string pre = rv ? "riscv64-linux-gnu-" : "arm-linux-gnueabihf-";
    Run a;
    a.argv = rv ? vector<string>{ pre + "as", s, "-o", dir + "/d.o" } : vector<string>{ pre + "as", "-march=armv7ve", "-mfpu=vfpv4", s, "-o", dir + "/d.o" };
    Proc p = exec(a);
    if(p.code) return p.err.substr(0, 300);
    Run c;
    c.argv = { pre + "objcopy", "--redefine-sym", "main=prog_main" };
    for(auto x : { "cmmcParallelFor", "cmmcReduceAddI32", "cmmcReduceAddF32", "cmmcCacheLookup" }) c.argv.push_back(string("--globalize-symbol=") + x);
    c.argv.push_back(dir + "/d.o");
    p = exec(c);
    if(p.code) return p.err.substr(0, 300);
    Run l;
    l.argv = { pre + "ld", "-static", "-e", "_start", dir + "/d.o", env().guest + "/driver." + target + ".o", env().guest + "/libsim." + target + ".o" };
    if(!rv) l.argv.push_back(env().guest + "/libgcc.arm.a");
    l.argv.insert(l.argv.end(), { "-o", elf });
    p = exec(l);
    return p.code ? p.err.substr(0, 300) : "";
}
bool hasRuntimeCheck(const string& id) { return rtSpecs().count(id); }

template <class Isa>
static void rtWorker(const RtSpec& sp, const string& target, int w, int jobs, Stats& st, double deadline) {
    string dir = workerDir(target == "arm" ? w + 100 : w), elf = dir + "/drv.elf";
    string e = buildDriver(target, dir, elf);
    if(!e.empty()) { st.add("driver_not_applicable"); st.sample("driver could not be built: " + e); return; }
    RtRunner<Isa> rt;
    rt.sim.loadElf(elf);
    SimConfig base;
    base.maxSteps = 400'000'000;
    // The driver speaks the runtime's internal calling convention. Operations that do not even work once,
    // undisturbed, are left to the whole-program part.
    std::set<int> usable;
    for(int k = 1; k <= 5; ++k) {
        History h;
        h.status = 7;
        for(auto& q : h.mp) { i32 v[7] = { 2, 1, 1, 0, 2, 0, 1 }; std::copy(v, v + 7, q); }
        h.ops.push_back(k == 5 ? Op{ 5, 6, 0, 0, 0 } : Op{ k, 0, 12, 0, 0 });
        rt.set(h);
        RunResult r = rt.rec(base, nullptr);
        if(r.outcome == Outcome::Exit && rt.judge(r).empty()) usable.insert(k); else st.add("driver_operation_not_applicable");
    }
    bool any = false;
    for(int k : sp.kinds) any |= usable.count(k) > 0;
    if(!any) { st.add("driver_not_applicable"); return; }
    for(u64 idx = (u64)w;; idx += (u64)jobs) {
        if(nowS() > deadline || stopped()) break;
        Rng r(hashMix(hashMix(env().seed, strHash("rt" + sp.id + target)), idx));
        rt.set(mkHistory(r, sp, usable));
        SimConfig cfg = base;
        vector<Event> tr;
        RunResult r0 = rt.rec(base, nullptr), rr = r0;
        string what = rt.judge(r0);
        account(st, r0, idx ^ 0x5555000000000000ull);
        if(sp.id == "C05") st.distinct.insert(strHash(histStr(rt.hist)));
        st.add("driver_histories"); st.add("driver_operations", rt.hist.ops.size());
        int runs = r0.steps > 3'000'000 ? 3 : 12;
        if(sp.id == "C05") runs = 0;
        for(int k = 0; what.empty() && k < runs && (k < 1 || nowS() < deadline); ++k) {
            cfg = mkConfig(r, sp.mask, r0.steps);
            cfg.maxSteps = r0.steps * 60 + 20'000'000;
            rr = rt.rec(cfg, &tr);
            account(st, rr, idx ^ 0x5555000000000000ull);
            st.add("driver_runs");
            what = rt.judge(rr);
            if(k == 0 && idx < 2) st.sample("driver history of " + std::to_string(rt.hist.ops.size()) + " operations, first " + (rt.hist.ops.empty() ? "-" : opStr(rt.hist.ops[0])) + "; config " + cfg.str());
        }
        if(what.empty()) continue;
        if(exists(stopFile())) break;
        writeFile(stopFile(), "x");
        RunResult again = rt.rec(cfg, &tr);
        if(again.hash != rr.hash) { st.error = "nondeterministic driver run " + std::to_string(idx); return; }
        // minimise the operations, then the schedule and fault trace
        size_t fullOps = rt.hist.ops.size();
        double lim = nowS() + 60;
        auto want = rr.outcome;
        auto tryOps = [&](const vector<Op>& ops) {
            if(nowS() > lim) return false;
            History h = rt.hist, keep = rt.hist;
            h.ops = ops;
            rt.set(h);
            Rng q(cfg.seed);
            for(int k = 0; k < 25; ++k) {
                SimConfig c2 = k == 0 ? base : k == 1 ? cfg : mkConfig(q, sp.mask, r0.steps);
                if(k > 1) c2.maxSteps = cfg.maxSteps;
                vector<Event> t2;
                RunResult x = rt.rec(c2, &t2);
                if(x.outcome == want && !rt.judge(x).empty()) { cfg = c2; tr = t2; rr = x; return true; }
            }
            rt.set(keep);
            return false;
        };
        ddmin(rt.hist.ops, tryOps, 400);
        rr = rt.rec(cfg, &tr);
        size_t full = tr.size();
        lim = nowS() + 60;
        tr = ddmin(tr, [&](const vector<Event>& c) {
            if(nowS() > lim) return false;
            RunResult x = rt.play(cfg, c);
            return x.outcome == want && !rt.judge(x).empty();
        }, 3000);
        rr = rt.play(cfg, tr);
        what = rt.judge(rr);
        string opsText;
        for(auto& o : rt.hist.ops) opsText += opStr(o) + "\n";
        Doc d;
        d.set("property", sp.id); d.set("kind", "runtime"); d.set("target", target); d.set("what", what); d.set("seed", (i64)env().seed);
        d.set("case", (i64)idx); d.set("config", cfgSer(cfg)); d.set("config_text", cfg.str()); d.set("history", histStr(rt.hist)); d.set("operations", opsText);
        d.set("history_full_length", (i64)fullOps); d.set("trace_full_length", (i64)full); d.set("trace_length", (i64)tr.size()); d.set("events", eventsStr(tr));
        d.set("outcome", outcomeNames[(int)rr.outcome]); d.set("hash", std::to_string(rr.hash));
        st.violation = d.str();
        return;
    }
}
void runtimeWorker(const string& id, const string& target, int w, int jobs, Stats& st, double deadline) {
    if(target == "arm") rtWorker<Arm32>(rtSpecs().at(id), target, w, jobs, st, deadline);
    else rtWorker<Rv64>(rtSpecs().at(id), target, w, jobs, st, deadline);
}
template <class Isa>
static int rtReplay(const Doc& d, bool verbose) {
    string elf = env().work + "/drv.elf", e = buildDriver(d.get("target"), env().work, elf);
    if(!e.empty()) { std::cout << "replay: cannot build: " << e << "\n"; return 2; }
    RtRunner<Isa> rt;
    rt.sim.loadElf(elf);
    rt.set(histParse(d.get("history")));
    RunResult r = rt.play(cfgParse(d.get("config")), eventsParse(d.get("events")));
    string what = rt.judge(r);
    if(verbose) std::cout << "property " << d.get("property") << ": " << (what.empty() ? "holds on this execution" : what) << "\noutcome " << outcomeNames[(int)r.outcome] << " steps " << r.steps << " hash " << r.hash << "\n";
    if(what.empty()) return 0;
    return std::to_string(r.hash) == d.get("hash") ? 1 : 4;
}
int replayRuntime(const Doc& d, bool verbose) { return d.get("target") == "arm" ? rtReplay<Arm32>(d, verbose) : rtReplay<Rv64>(d, verbose); }
}  // namespace hz
