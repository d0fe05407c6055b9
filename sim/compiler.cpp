// Checks C08-C14: the real compiler process (front end, optimiser, code generators, interpreter,
// libc and allocator) runs under the system-call shim, which decides every file, memory, clock and
// randomness result from a seeded plan. A plan is a list of lines; it replays exactly and is minimised
// by ddmin over its lines.
#include "checks.hpp"
#include "progcheck.hpp"
#include "arm32.hpp"
#include "rv64.hpp"
#include <cstdarg>
#include <dirent.h>
#include <sys/personality.h>

namespace hz {
namespace {

enum { C_OPEN, C_READ, C_WRITE, C_CLOSE, C_MMAP, C_CLOCK, C_RANDOM, C_SYNC, C_RENAME, NCLASS };
enum { R_IN, R_OUT, R_STD, R_OTHER, R_EXEC, NROLE };
enum { A_NONE, A_ERR, A_SHORT, A_JUMP, A_STEP, A_PERSIST };
const char* const faultNames[18] = { "open_error", "read_error", "short_read", "read_eintr", "write_error", "short_write", "write_eintr", "disk_full",
                                     "close_error_data_lost", "memory_mapping_refused", "clock_jump_or_rate_change", "sync_error", "allocation_failure", "arena_shrunk", "rename_error", "environment_or_identity", "uninitialised_memory_filled", "" };
struct Ent { uint8_t cls, role; uint16_t act; int32_t fd; i64 size, ret; };
struct Log {
    u32 magic, n;
    u64 count[NCLASS][NROLE];
    u64 faults[18];
    u64 clockReads, elapsed, allocs, activeFault, rBytes[NROLE], rErrAt, rErrPersist, wBytes, spare;
    Ent e[8192];
};

struct Job {
    string src, ext = "sy", mode = "asm", target = "riscv", input, name;
    string opts;              // further command-line options, separated by blanks
    bool defOut = false;      // no -o: the compiler derives the output file's name
    int level = 1;
    bool aggr = false;
    bool generated = false;
    u64 pad = 0;              // allocations are spaced out by this pattern, in the reference run too (the heap's layout is fixed by design)
    string expectOut;
    int expectCode = -1;
    void put(Doc& d) const {
        d.set("source", src); d.set("ext", ext); d.set("mode", mode); d.set("target", target); d.set("input", input); d.set("name", name);
        d.set("level", level); d.set("aggressive", aggr); d.set("generated", generated); d.set("expect_output", expectOut); d.set("expect_code", expectCode);
        d.set("opts", opts); d.set("default_output_name", defOut); d.set("pad", (i64)pad);
    }
    static Job from(const Doc& d) {
        Job j;
        j.src = d.get("source"); j.ext = d.get("ext"); j.mode = d.get("mode"); j.target = d.get("target"); j.input = d.get("input"); j.name = d.get("name");
        j.level = (int)d.num("level"); j.aggr = d.num("aggressive"); j.generated = d.num("generated"); j.expectOut = d.get("expect_output");
        j.expectCode = (int)d.num("expect_code");
        j.opts = d.get("opts"); j.defOut = d.num("default_output_name"); j.pad = (u64)d.num("pad");
        return j;
    }
    u64 hash() const { return strHash(src + "|" + mode + target + std::to_string(level) + (aggr ? "a" : "") + input + opts + (defOut ? "d" : "")); }
    string outName() const {
        if(!defOut) return "c.out";
        return mode == "ir" ? "c.ir2" : mode == "ast" ? "c.ast" : mode == "exec" ? "c.out" : target == "tac" ? "c.ir" : "c.s";
    }
};
struct Res {
    bool ran = false, timeout = false, haveOut = false;
    int code = -1, sig = 0;
    string out, err, so;
    std::shared_ptr<Log> log = std::make_shared<Log>();
    double wall = 0;
    string brief() const {
        return (sig ? "signal " + std::to_string(sig) : "exit status " + std::to_string(code)) + (haveOut ? ", output file of " + std::to_string(out.size()) + " bytes" : ", no output file");
    }
};
using Lines = vector<string>;

// Lines starting with "w " configure the process environment, the rest is the shim's plan.
Res runC(const Job& j, const Lines& lines, const string& dir, double timeout = 20) {
    Res r;
    Run c;
    // the process runs in `dir` and sees relative names only, so that it behaves alike wherever the check runs
    string src = "c." + j.ext, in = "c.in", on = j.outName(), out = dir + "/" + on, plan = dir + "/plan", log = dir + "/log";
    c.cwd = dir;
    unlink(out.c_str()); unlink(log.c_str());
    writeFile(dir + "/" + src, j.src);
    string p = "in " + src + "\nout " + on + "\n";
    if(j.mode == "exec") { writeFile(dir + "/" + in, j.input); p += "exec " + in + "\n"; }
    if(j.pad) p += "pad " + std::to_string(j.pad) + "\n";
    bool loader = false;
    for(auto& l : lines) {
        if(l.compare(0, 2, "w ")) { p += l + "\n"; continue; }
        std::istringstream is(l);
        string w, k; is >> w >> k;
        if(k == "loader") loader = true;
        else if(k == "stack") { u64 kb; is >> kb; c.stackLimit = kb << 10; }
        else if(k == "env") { u64 n; is >> n; c.env.push_back("DST_PAD=" + string(n, 'x')); }
        else if(k == "var") { string v; std::getline(is, v); c.env.push_back(v.substr(1)); }
        else if(k == "prior") { u64 n, s; is >> n >> s; Rng q(s); string t; for(u64 i = 0; i < n; ++i) t += (char)q.next(); writeFile(out, t); }
        else if(k == "cpus") is >> c.cpus;
        else if(k == "mtime") { i64 t; is >> t; timespec ts[2] = { { t, 0 }, { t, 0 } }; utimensat(AT_FDCWD, (dir + "/" + src).c_str(), ts, 0); }
        else if(k == "fds") { int n; is >> n; c.extraFds = n; }
    }
    writeFile(plan, p);
    if(loader) c.argv = { "/lib64/ld-linux-x86-64.so.2" };
    c.argv.insert(c.argv.end(), { env().cmmc, "-t", j.target, "-O", std::to_string(j.level), "-H" });
    if(!j.defOut) { c.argv.push_back("-o"); c.argv.push_back(on); }
    { std::istringstream is(j.opts); string o; while(is >> o) c.argv.push_back(o); }
    if(j.aggr) c.argv.push_back("--enable-aggressive");
    if(j.mode == "ir") c.argv.push_back("-i");
    else if(j.mode == "ast") c.argv.push_back("-a");
    else if(j.mode == "check") c.argv.push_back("-g");
    else if(j.mode == "exec") { c.argv.push_back("-e"); c.argv.push_back(in); }
    c.argv.push_back(src);
    c.cleanEnv = true;
    c.noAslr = true;
    c.env.insert(c.env.end(), { "PATH=/usr/bin:/bin", "LC_ALL=C", "LD_PRELOAD=" + env().shim, "DST_SHIM_PLAN=plan", "DST_SHIM_LOG=log" });
    c.timeout = timeout;
    Proc q = exec(c);
    r.ran = true; r.timeout = q.timeout; r.code = q.code; r.sig = q.sig; r.err = q.err; r.so = q.out; r.wall = q.wall;
    r.out = readFile(out, &r.haveOut);
    // what a failed compile leaves in the output file is not promised
    if(r.code && j.mode != "exec") { r.haveOut = false; r.out.clear(); }
    string lb = readFile(log);
    memcpy(r.log.get(), lb.data(), std::min(lb.size(), sizeof(Log)));
    if(r.log->magic != 0xd57109) {
        if(!q.timeout) throw std::runtime_error("shim did not start: " + q.err.substr(0, 300));
        r.ran = false;
    }
    return r;
}
string errBrief(const string& e) { return e.size() > 300 ? e.substr(0, 300) : e; }

// ---------------------------------------------------------------- what a property demands
struct Oracle {
    std::unique_ptr<ProgRunner<Rv64>> rv;
    std::unique_ptr<ProgRunner<Arm32>> arm;
    template <class Isa> static ProgRunner<Isa>& get(std::unique_ptr<ProgRunner<Isa>>& p) { if(!p) p = std::make_unique<ProgRunner<Isa>>(); return *p; }
    // runs emitted RISC-V or ARM text once, sequentially; result as text, or "" if it cannot be assembled
    struct Obs { bool ok = false; string what; string output; int code = 0; u64 steps = 0; };
    Obs observe(const string& target, const string& text, const string& input, const string& dir, u64 maxSteps) {
        if(target == "arm") return observe(get(arm), target, text, input, dir, maxSteps);
        return observe(get(rv), target, text, input, dir, maxSteps);
    }
    template <class Isa> Obs observe(ProgRunner<Isa>& p, const string& target, const string& text, const string& input, const string& dir, u64 maxSteps) {
        Obs o;
        writeFile(dir + "/o.s", text);
        string e = asmToElf(target, dir + "/o.s", dir, dir + "/o.elf");
        if(!e.empty()) { o.what = e; return o; }
        p.sim.loadElf(dir + "/o.elf");
        p.sim.input = input;
        SimConfig c; c.maxSteps = maxSteps;
        RunResult r = p.rec(c, nullptr);
        o.steps = r.steps;
        if(r.outcome != Outcome::Exit) { o.what = string(outcomeNames[(int)r.outcome]) + ": " + r.detail; return o; }
        o.ok = true; o.output = r.output; o.code = r.exitCode;
        return o;
    }
};

// base: undisturbed run. Returns a description of the violation or "".
struct Judge {
    string id;
    Oracle orc;
    // for C08: observation of the undisturbed program
    Oracle::Obs b0;
    bool hard(const Log& l) const { return l.faults[0] || l.faults[1] || l.faults[4] || l.faults[7] || l.faults[8] || l.faults[14]; }
    // is the undisturbed run usable as a reference?
    bool usable(const Job& j, const Res& b, const string& dir) {
        if(!b.ran || b.timeout) return false;
        if(id == "C08") {
            if((b.code && j.mode != "exec") || b.log->elapsed >= 19'000'000'000ull) return false;
            if(j.mode == "asm" && (j.target == "riscv" || j.target == "arm")) {
                b0 = orc.observe(j.target, b.out, j.input, dir, 60'000'000);
                if(!b0.ok) return false;
                if(j.expectCode >= 0 && (b0.output != j.expectOut || b0.code != j.expectCode)) return false;
            }
        }
        if(id == "C09" && b.log->elapsed >= 19'000'000'000ull) return false;
        if(j.mode == "exec") {
            if(b.sig || b.code == 1 || b.code == 2 || (b.code >= 128 && j.expectCode < 0)) return false;
            if(j.expectCode >= 0 && (b.out != j.expectOut || b.code != (j.expectCode & 255))) return false;
        } else if((id == "C10" || id == "C12") && b.code) return false;
        return true;
    }
    string judge(const Job& j, const Lines&, const Res& b, const Res& r, const string& dir) {
        const Log& l = *r.log;
        if(!r.ran || r.timeout) return "";
        string same = r.code == b.code && r.haveOut == b.haveOut && r.out == b.out ? "" : "got " + r.brief() + ", undisturbed run: " + b.brief() + "; stderr: " + errBrief(r.err);
        if(id == "C08") {
            if(j.mode == "exec" && l.elapsed >= 1'150'000'000'000ull) return "";  // beyond what the interpreter grants the program
            if(j.mode == "exec") return same.empty() ? "" : "optimised program run by the interpreter after the time budget expired: " + same;
            if(r.code) return "compilation does not complete when the time budget expires: " + r.brief() + "; stderr: " + errBrief(r.err);
            if(r.out == b.out) return "";
            if(j.target == "riscv" || j.target == "arm") {
                Oracle::Obs o = orc.observe(j.target, r.out, j.input, dir, b0.steps * 100 + 50'000'000);
                if(!o.ok && o.what.compare(0, 11, "unsupported") == 0) return "";
                if(!o.ok) return "emitted program fails: " + o.what;
                if(o.output != b0.output) return "emitted program prints something else than the one compiled without expiry";
                if(o.code != b0.code) return "emitted program exits with " + std::to_string(o.code) + " instead of " + std::to_string(b0.code);
            }
            return "";
        }
        if(id == "C09") {
            if(l.elapsed >= 19'000'000'000ull) return "";
            if(!same.empty()) return "two compilations of the same source differ: " + same;
            if(j.mode != "exec" && (r.err != b.err || r.so != b.so)) return "two compilations of the same source print different diagnostics: " + errBrief(r.err) + " / " + errBrief(b.err);
            return "";
        }
        if(id == "C10") {
            if(r.code == 0 && !same.empty()) return "compiler reports success but its output is not complete: " + same;
            if(!hard(l) && l.faults[6] == 0 && !same.empty()) return "short writes changed the result: " + same;
            if(hard(l) && r.code != 0 && r.err.empty() && r.so.empty() && !r.sig) return "compiler failed without saying so";
            return "";
        }
        if(id == "C11") {
            bool h = l.faults[0] || l.faults[1];
            if(!h && !l.faults[3]) {
                if(!same.empty()) return "delivery of the input changed the result: " + same;
                if(r.err != b.err || r.so != b.so) return "delivery of the input changed the diagnostics: " + errBrief(r.err) + " / " + errBrief(b.err);
                return "";
            }
            if(r.code == 0 && !same.empty()) return "part of the input was taken for the whole program: " + same;
            if(l.faults[1] && l.rErrPersist && l.rErrAt < j.src.size() && r.code == 0) return "input could not be read to its end but the compiler reports success";
            if(l.faults[0] && r.code == 0 && l.rBytes[R_IN] == 0) return "input could not be opened but the compiler reports success";
            return "";
        }
        if(id == "C12") {
            if(r.code == 0 && !same.empty()) return "memory ran out and the compiler reports success with a different result: " + same;
            return "";
        }
        if(id == "C14") {
            bool h = hard(l) || l.faults[3] || l.faults[6];
            if(!h && !same.empty()) return "splitting of reads and writes changed the run: " + same;
            if(r.code == b.code && !r.sig && (!r.haveOut || r.out != b.out)) return "run ends with the program's own status but its output is not what it wrote: " + r.brief() + ", expected " + std::to_string(b.out.size()) + " bytes";
            if(h && r.code != b.code && r.code != 1 && r.code != 2 && r.code < 128) return "run ends with status " + std::to_string(r.code) + " which is neither the program's own nor a failure";
            if(l.faults[1] && l.rErrPersist && l.rErrAt < j.input.size() && r.code == b.code && r.out != b.out) return "input could not be read";
            if(h && r.code == 1 && r.err.empty()) return "run failed without saying so";
            return "";
        }
        return "";
    }
};

// ---------------------------------------------------------------- workload
struct CorpusFile { string name, ext, src, expect; bool exec; };
vector<CorpusFile> corpus() {
    vector<CorpusFile> v;
    string d = env().verif + "/corpus/src";
    vector<string> names;
    if(DIR* h = opendir(d.c_str())) { while(auto e = readdir(h)) names.push_back(e->d_name); closedir(h); }
    std::sort(names.begin(), names.end());
    for(auto& n : names) {
        size_t p = n.rfind('.');
        if(p == string::npos) continue;
        string ext = n.substr(p + 1);
        if(ext != "sy" && ext != "spl" && ext != "ir") continue;
        CorpusFile f;
        f.name = n; f.ext = ext; f.src = readFile(d + "/" + n);
        f.exec = n.compare(0, 7, "noexec_") != 0;
        v.push_back(f);
    }
    return v;
}
Job genJob(Rng& r, std::initializer_list<sy::Profile> profs) {
    for(;;) {
        auto it = profs.begin() + r.below(profs.size());
        u64 s = r.next() >> 20;
        sy::Generated g = sy::generate(s, *it);
        if(!g.ok) continue;
        Job j;
        j.src = g.source; j.input = g.input; j.expectOut = g.output; j.expectCode = g.exitCode; j.generated = true;
        j.name = string("generated ") + profName(*it) + " " + std::to_string(s);
        return j;
    }
}
Job corpusJob(Rng& r, const vector<CorpusFile>& c, const char* exts = "sy spl ir") {
    for(;;) {
        auto& f = c[r.below(c.size())];
        if(!strstr(exts, f.ext.c_str())) continue;
        Job j;
        j.src = f.src; j.ext = f.ext; j.name = f.name;
        return j;
    }
}
// A program that reads and writes more than the streams' buffers hold.
Job bigIoJob(Rng& r) {
    Job j;
    u64 n = 300 + r.below(1u << (1 + r.below(12)));
    bool chars = r.chance(0.3);
    string b;
    auto S = [](u64 v) { return std::to_string(v); };
    b += "int a[" + S(n + 8) + "];\nfloat f[16];\nint main(){\n  int n=getint();\n  int i=0;\n  int s=0;\n  while(i<n){\n";
    b += chars ? "    a[i]=getch();\n" : r.chance(0.2) ? "    a[i]=getfloat();\n" : "    a[i]=getint();\n";
    b += "    s=(s*31+a[i])%10007;\n";
    if(r.chance(0.8)) b += "    putint(s*" + S(1 + r.below(100000)) + ");\n    putch(" + S(r.chance(0.5) ? 10 : 32) + ");\n";
    if(r.chance(0.4)) b += "    if(i%" + S(2 + r.below(60)) + "==1){ putarray(" + S(r.below(40)) + ",a); }\n";
    if(r.chance(0.2)) b += "    if(i%" + S(2 + r.below(60)) + "==1){ f[i%16]=s*0.5; putfarray(" + S(r.below(16)) + ",f); }\n";
    if(r.chance(0.2)) b += "    putfloat(s*0.25);\n";
    if(r.chance(0.4)) b += "    putch(65+i%26);\n";
    b += "    i=i+1;\n  }\n";
    if(r.chance(0.7)) b += "  putarray(n,a);\n";
    if(r.chance(0.5)) b += "  putch(10);\n";
    b += "  return " + S(r.below(200)) + ";\n}\n";
    j.src = b;
    j.input = S(n) + "\n";
    for(u64 i = 0; i < n; ++i) j.input += chars ? string(1, (char)(33 + r.below(90))) : S(r.below(1u << (1 + r.below(20)))) + (r.chance(0.1) ? "\n" : " ");
    j.name = "big input and output";
    return j;
}
// further command-line options, which select other code generators and printers
void randomOptions(Rng& r, Job& j, bool runtimeOptional) {
    auto add = [&](const char* o) { j.opts += (j.opts.empty() ? "" : " ") + string(o); };
    if(!r.chance(0.35)) return;
    bool code = j.mode == "asm" && j.target != "tac";
    if(code && r.chance(0.5)) add("--placement-algo=GA");
    if(code && r.chance(0.1)) add("-I");
    if(r.chance(0.2)) add("-u");
    if(r.chance(0.15)) add("-V");
    if(r.chance(0.1)) add("-U");
    if(r.chance(0.1)) add("--warning=false");
    if(runtimeOptional && r.chance(0.15)) add("--with-runtime=false");
}
string L(const char* f, ...) {
    char b[300];
    va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    return b;
}
int pickErr(Rng& r, std::initializer_list<int> e) { return *(e.begin() + r.below(e.size())); }

// -------- plans
Lines planC08(Rng& r, const Job& j, const Res& b) {
    Lines v;
    u64 n = std::max<u64>(1, b.log->clockReads);
    if(j.mode == "exec") n = std::min<u64>(n, 400);
    switch(r.below(j.mode == "exec" ? 2 : 5)) {
        case 0: {
            u64 at = r.below(n);
            long long sec = j.mode == "exec" || r.chance(0.7) ? 21 + (long long)r.below(200) : 21ll << r.below(16);  // the interpreter has 1200 s
            v.push_back(L("f 5 0 %llu 3 0 %lld", (unsigned long long)at, sec * 1'000'000'000ll));
            break;
        }
        case 1: {
            u64 k = 2 + r.below(5);
            for(u64 i = 0; i < k; ++i) v.push_back(L("f 5 0 %llu 3 0 %lld", (unsigned long long)r.below(n), 20'500'000'000ll + (long long)r.below(30) * 1'000'000'000ll));
            break;
        }
        case 2: v.push_back(L("clock 1700000000000000000 1000000000000 %lld", r.chance(0.15) ? 0ll : (long long)(1'000'000ll << r.below(16)))); break;
        case 3: v.push_back(L("f 5 0 %llu 4 %lld 0", (unsigned long long)r.below(n), (long long)(100'000'000ll << r.below(9)))); break;
        default: {
            // fast for a while, then slow again
            u64 a = r.below(n), c2 = a + 1 + r.below(20);
            v.push_back(L("f 5 0 %llu 4 %lld 0", (unsigned long long)a, (long long)(5'000'000'000ll << r.below(4))));
            v.push_back(L("f 5 0 %llu 4 1000 0", (unsigned long long)c2));
        }
    }
    if(r.chance(0.4)) v.push_back(L("f 5 0 %llu 3 %lld 0", (unsigned long long)r.below(n), (long long)(r.next() % 2'000'000'000'000'000ull) - 1'000'000'000'000'000ll));
    if(r.chance(0.1)) v.push_back(L("f 5 0 %llu 3 0 -%lld", (unsigned long long)r.below(n), (long long)r.below(900'000'000'000ull)));
    return v;
}
Lines planC09(Rng& r, const Res& b) {
    Lines v;
    if(r.chance(0.6)) v.push_back("w loader");
    if(r.chance(0.8)) v.push_back(L("w stack %llu", (unsigned long long)(131072 + 4 * r.below(1u << 20))));
    if(r.chance(0.7)) v.push_back(L("w env %llu", (unsigned long long)r.below(60000)));
    if(r.chance(0.3)) v.push_back(r.chance(0.5) ? "w var TZ=Asia/Tokyo" : "w var LANG=de_DE.UTF-8");
    if(r.chance(0.2)) v.push_back(r.chance(0.5) ? "w var HOME=/nonexistent" : "w var TMPDIR=/tmp");
    if(r.chance(0.7)) v.push_back(L("shift %llu", (unsigned long long)r.below(1u << (4 + r.below(16)))));
    if(r.chance(0.8)) v.push_back(L("rand %llu", (unsigned long long)r.next()));
    if(r.chance(0.5)) v.push_back(L("w prior %llu %llu", (unsigned long long)r.below(1u << (1 + r.below(18))), (unsigned long long)r.next()));
    if(r.chance(0.5)) v.push_back(L("fill %llu", (unsigned long long)(r.next() >> 1)));
    if(r.chance(0.3)) v.push_back(L("w fds %d", 1 + (int)r.below(200)));
    if(r.chance(0.4)) v.push_back(L("w cpus %d", 1 + (int)r.below(8)));
    if(r.chance(0.3)) v.push_back(L("w mtime %lld", (long long)r.below(4'000'000'000ull)));
    if(r.chance(0.5)) v.push_back(L("getenv %llu", (unsigned long long)(r.next() | 1)));
    if(r.chance(0.5)) v.push_back(L("ids %llu", (unsigned long long)(r.next() | 1)));
    if(r.chance(0.7)) {
        u64 n = std::max<u64>(1, b.log->clockReads);
        v.push_back(L("clock %lld %lld %lld", (long long)(r.next() % 4'000'000'000'000'000'000ull), (long long)r.below(1ull << 50), (long long)r.below(15'000'000'000ull / n)));
    }
    if(r.chance(0.2)) v.push_back(L("f 5 0 %llu 3 %lld 0", (unsigned long long)r.below(std::max<u64>(1, b.log->clockReads)), (long long)(r.next() % 2'000'000'000'000'000ull) - 1'000'000'000'000'000ll));
    if(r.chance(0.4)) v.push_back(L("rchunk %llu %llu %d", (unsigned long long)(r.next() >> 1), (unsigned long long)(1 + r.below(5000)), 200 + (int)r.below(801)));
    return v;
}
Lines planC10(Rng& r, const Res& b) {
    Lines v;
    u64 nw = std::max<u64>(1, b.log->count[C_WRITE][R_OUT]);
    u64 total = b.out.size();
    int e = pickErr(r, { ENOSPC, EIO, EDQUOT, EFBIG });
    switch(r.below(9)) {
        case 0: v.push_back(L("f 0 1 0 1 %d 0", pickErr(r, { EACCES, ENOSPC, EROFS, EMFILE, ENOENT, EISDIR, EIO }))); break;
        case 1: case 2: v.push_back(L("wcap %llu %d", (unsigned long long)r.below(total + 1), e)); break;
        case 3: v.push_back(L("wcap %llu %d", (unsigned long long)(total - std::min<u64>(total, 1 + r.below(8))), e)); break;
        case 4: v.push_back(L("f 2 1 %llu 1 %d 0", (unsigned long long)r.below(nw), e)); break;
        case 5: v.push_back(L("f 2 1 %llu 5 %d 0", (unsigned long long)r.below(nw), e)); break;
        case 6: v.push_back(L("f 3 1 0 1 %d %lld", pickErr(r, { EIO, ENOSPC, EDQUOT }), (long long)r.below(std::max<u64>(1, total)))); break;
        case 7: break;
        default:
            for(u64 i = 0, k = 1 + r.below(3); i < k; ++i) v.push_back(L("f 2 1 %llu 1 %d 0", (unsigned long long)r.below(nw + 4), e));
    }
    if(r.chance(0.15)) v.push_back(L("f 8 1 0 1 %d 0", pickErr(r, { EIO, ENOSPC, EXDEV, EROFS })));
    if(r.chance(0.15)) v.push_back(L("f 7 1 0 1 %d 0", pickErr(r, { EIO, ENOSPC })));
    if(v.empty() || r.chance(0.35)) v.push_back(L("wchunk %llu %llu %d", (unsigned long long)(r.next() >> 1), (unsigned long long)(1 + r.below(1u << (1 + r.below(13)))), 100 + (int)r.below(901)));
    if(r.chance(0.25)) v.push_back(L("eintr %llu 0 %d", (unsigned long long)(r.next() >> 1), 50 + (int)r.below(500)));
    return v;
}
Lines planC11(Rng& r, const Job& j, const Res& b) {
    Lines v;
    u64 nr = std::max<u64>(1, b.log->count[C_READ][R_IN]);
    int e = pickErr(r, { EIO, EIO, ESTALE, EBADF, EISDIR });
    bool chunk = r.chance(0.6);
    if(chunk) {
        v.push_back(L("rchunk %llu %llu %d", (unsigned long long)(r.next() >> 1), (unsigned long long)(1 + r.below(1u << (1 + r.below(13)))), 100 + (int)r.below(901)));
        nr = nr * 4;
    }
    switch(r.below(6)) {
        case 0: v.push_back(L("f 0 0 0 1 %d 0", pickErr(r, { EACCES, EMFILE, ENOENT, EIO, ELOOP }))); break;
        case 1: v.push_back(L("rcap %llu %d", (unsigned long long)r.below(j.src.size() + 1), e)); break;
        case 2: v.push_back(L("f 1 0 %llu 5 %d 0", (unsigned long long)r.below(nr), e)); break;
        case 3: v.push_back(L("f 1 0 %llu 1 %d 0", (unsigned long long)r.below(nr), e)); break;
        default:
            if(!chunk) v.push_back(L("rchunk %llu %llu %d", (unsigned long long)(r.next() >> 1), (unsigned long long)(1 + r.below(64)), 1000));
    }
    if(r.chance(0.2)) v.push_back(L("eintr %llu %d 0", (unsigned long long)(r.next() >> 1), 50 + (int)r.below(500)));
    return v;
}
Lines planC12(Rng& r, const Res& b) {
    Lines v;
    u64 n = std::max<u64>(1, b.log->allocs);
    u64 m = std::max<u64>(1, b.log->count[C_MMAP][R_OTHER]);
    switch(r.below(8)) {
        case 0: v.push_back(L("f 4 3 %llu %d 12 0", (unsigned long long)r.below(m), r.chance(0.5) ? A_ERR : A_PERSIST)); break;
        case 1: v.push_back(L("arena %llu", (unsigned long long)((32ull << 20) * (1 + r.below(6))))); break;
        case 2: case 3: { u64 o = r.below(n); v.push_back(L("a %llu %llu", (unsigned long long)o, (unsigned long long)(o + 1))); break; }
        case 4: { u64 o = n - 1 - std::min<u64>(n - 1, r.below(1u << (1 + r.below(14)))); v.push_back(L("a %llu %llu", (unsigned long long)o, (unsigned long long)(o + 1))); break; }
        case 5: { u64 o = r.below(n); v.push_back(L("a %llu %llu", (unsigned long long)o, (unsigned long long)(o + 1 + r.below(1u << (1 + r.below(10)))))); break; }
        case 6: { u64 o = n - 1 - std::min<u64>(n - 1, r.below(1u << (1 + r.below(14)))); v.push_back(L("a %llu 99999999999", (unsigned long long)o)); break; }
        default: { u64 o = r.below(n); v.push_back(L("a %llu 99999999999", (unsigned long long)o)); }
    }
    return v;
}
Lines planC14(Rng& r, const Job& j, const Res& b) {
    Lines v;
    u64 nw = std::max<u64>(1, b.log->count[C_WRITE][R_OUT]), nr = std::max<u64>(1, b.log->count[C_READ][R_EXEC]);
    u64 total = b.out.size();
    int e = pickErr(r, { ENOSPC, EIO, EDQUOT });
    switch(r.below(11)) {
        case 0: v.push_back(L("f 0 1 0 1 %d 0", pickErr(r, { EACCES, ENOSPC, EROFS, EMFILE }))); break;
        case 1: v.push_back(L("f 0 4 0 1 %d 0", pickErr(r, { EACCES, EMFILE, ENOENT }))); break;
        case 2: case 3: v.push_back(L("wcap %llu %d", (unsigned long long)r.below(total + 1), e)); break;
        case 4: v.push_back(L("f 2 1 %llu %d %d 0", (unsigned long long)r.below(nw), r.chance(0.5) ? A_ERR : A_PERSIST, e)); break;
        case 5: v.push_back(L("f 3 1 0 1 %d %lld", pickErr(r, { EIO, ENOSPC, EDQUOT }), (long long)r.below(std::max<u64>(1, total)))); break;
        case 6: v.push_back(L("f 1 4 %llu %d %d 0", (unsigned long long)r.below(nr), r.chance(0.5) ? A_ERR : A_PERSIST, EIO)); break;
        case 7: {
            // chunked so that the failure hits the middle of the input
            v.push_back(L("rchunk %llu %llu 1000", (unsigned long long)(r.next() >> 1), (unsigned long long)(1 + r.below(1 + j.input.size() / 2))));
            v.push_back(L("f 1 4 %llu 5 %d 0", (unsigned long long)r.below(6), EIO));
            break;
        }
        default:
            v.push_back(L("rchunk %llu %llu %d", (unsigned long long)(r.next() >> 1), (unsigned long long)(1 + r.below(40)), 200 + (int)r.below(801)));
            v.push_back(L("wchunk %llu %llu %d", (unsigned long long)(r.next() >> 1), (unsigned long long)(1 + r.below(200)), 200 + (int)r.below(801)));
    }
    if(r.chance(0.15)) v.push_back(L("eintr %llu %d %d", (unsigned long long)(r.next() >> 1), 50 + (int)r.below(300), 50 + (int)r.below(300)));
    return v;
}

void account(Stats& st, const Job& j, const Res& r) {
    st.add("runs");
    st.add("mode_" + j.mode + "_" + j.ext);
    const Log& l = *r.log;
    for(int i = 0; i < 18; ++i) if(l.faults[i]) st.add(string("fault:") + faultNames[i], l.faults[i]);
    st.add("sim_ns", l.elapsed);
    st.add("clock_reads", l.clockReads);
    u64 h = hashMix(j.hash(), (u64)r.code);
    for(u32 i = 0; i < std::min<u32>(l.n, 8192); ++i) h = hashMix(h, (u64)l.e[i].cls * 8 + l.e[i].role + ((u64)l.e[i].act << 8) + ((u64)(u32)l.e[i].ret << 16));
    h = hashMix(hashMix(h, l.elapsed), l.faults[10] * 131 + l.faults[12] * 7 + l.faults[9]);
    if(l.faults[12] || l.faults[10]) h = hashMix(h, l.allocs);
    if(l.activeFault) st.distinct.insert(h);
    st.states.insert(hashMix(strHash(r.out), (u64)r.code));
    if(r.timeout) st.add("timeouts");
    if(l.activeFault) st.add(r.code == 0 ? "disturbed_runs_exit_0" : r.sig ? "disturbed_runs_killed_by_signal" : "disturbed_runs_exit_nonzero");
}

void report(Stats& st, const string& id, const Job& j, Lines lines, const string& what0, const std::function<string(const Job&, const Lines&)>& test) {
    string what = what0;
    double until = nowS() + 30;
    Lines m = ddmin(lines, [&](const Lines& s) { if(nowS() > until) return false; string w = test(j, s); if(!w.empty()) what = w; return !w.empty(); }, 60);
    // smaller source: drop line chunks, keeping the violation. The expectation is the undisturbed run, recomputed each time.
    what = test(j, m);
    Doc d;
    d.set("kind", "compiler"); d.set("property", id); d.set("what", what.empty() ? what0 : what);
    string p;
    for(auto& l : what.empty() ? lines : m) p += l + "\n";
    d.set("plan", p);
    d.set("verif_seed", (i64)env().seed);
    j.put(d);
    st.violation = d.str();
    writeFile(stopFile(), "x");
}

// ---------------------------------------------------------------- C13
// kind: "well" (must end with its own result), "time"/"memory"/"depth" (must be stopped, naming the limit)
string judge13(const string& kind, const Job& j, const Res& b, const Res& r) {
    if(!r.ran || r.timeout) return "";
    static const std::map<string, string> names{ { "time", "ExceedTimeLimit" }, { "memory", "ExceedMemoryLimit" }, { "depth", "ExceedMaxRecursiveDepth" } };
    if(kind == "well") {
        if(r.code == (j.expectCode & 255) && r.out == j.expectOut && !r.sig) return "";
        return "a program within all limits does not yield its own result: " + r.brief() + ", expected status " + std::to_string(j.expectCode & 255) + "; stderr: " + errBrief(r.err);
    }
    if(r.code == 0) return "a program exceeding the " + kind + " limit ends with success";
    if(r.err.find(names.at(kind)) == string::npos) return "a program exceeding the " + kind + " limit is not stopped naming that limit: " + r.brief() + "; stderr: " + errBrief(r.err);
    if(kind == "time" && r.log->elapsed > 1'260'000'000'000ull) return "the time limit stopped the program only after " + std::to_string(r.log->elapsed / 1000000000) + " s";
    return "";
}
}  // namespace

// ---------------------------------------------------------------- C13 worker
namespace {
string loopProgram(Rng& r, int kind, i64& expectOut, i64 iters) {
    // programs that run for `iters` iterations (or for ever if iters<0) of a loop that the optimiser cannot remove at -O0
    std::ostringstream o;
    string cond = iters < 0 ? (r.chance(0.5) ? "1" : "i >= 0 || i < 0") : "i < " + std::to_string(iters);
    switch(kind) {
        case 0: o << "int main(){int i=0;int s=0;while(" << cond << "){s=(s*31+i)%10007;i=i+1;if(i==1000000000)i=1;}putint(s);return 7;}\n"; break;
        case 1: o << "int g[8];int f(int x){g[x%8]=g[(x+1)%8]+x;return g[x%8]%101;}int main(){int i=0;int s=0;while(" << cond << "){s=(s+f(i))%10007;i=i+1;if(i==1000000000)i=1;}putint(s);return 7;}\n"; break;
        case 2: o << "int main(){int i=0;int s=0;int j;while(" << cond << "){j=0;while(j<5){if(j==3){j=j+1;continue;}s=(s+j*i)%10007;j=j+1;}i=i+1;if(i==1000000000)i=1;}putint(s);return 7;}\n"; break;
        default: o << "float a;int main(){int i=0;int s=0;a=0.5;while(" << cond << "){a=a*0.5+1.0;if(a>1.5)s=(s+1)%10007;i=i+1;if(i==1000000000)i=1;}putint(s);return 7;}\n"; break;
    }
    (void)expectOut;
    return o.str();
}
string depthProgram(Rng& r, i64 depth) {
    string d = depth < 0 ? "" : std::to_string(depth);
    std::ostringstream o;
    if(depth <= 2500 && r.chance(0.25)) {  // many functions, none of them recursive
        i64 n = depth < 0 ? 1200 : depth;
        o << "int f0(int n){return n;}\n";
        for(i64 i = 1; i <= n; ++i) o << "int f" << i << "(int n){return f" << i - 1 << "(n)+1;}\n";
        o << "int main(){putint(f" << n << "(3));return 9;}\n";
        return o.str();
    }
    switch(r.below(3)) {
        case 0: o << "int f(int n){" << (depth < 0 ? "" : "if(n==0)return 3;") << "return f(n-1)+1;}int main(){putint(f(" << (depth < 0 ? "5" : d) << "));return 9;}\n"; break;
        case 1: o << "int g(int n);int f(int n){" << (depth < 0 ? "" : "if(n==0)return 3;") << "return f(n-1)*1+1;}int h(int n){return f(n);}int main(){putint(f(" << (depth < 0 ? "5" : d) << "));return 9;}\n"; o.str(""); 
            o << "int c;int f(int n){c=c+1;" << (depth < 0 ? "" : "if(n==0)return 3;") << "int r=f(n-1);c=c-1;return r+1;}int main(){putint(f(" << (depth < 0 ? "5" : d) << "));return 9;}\n"; break;
        default: o << "int f(int n,int a[]){" << (depth < 0 ? "" : "if(n==0)return 3;") << "a[(n%4+4)%4]=n;return f(n-1,a)+1;}int main(){int b[4]={};putint(f(" << (depth < 0 ? "5" : d) << ",b));return 9;}\n";
    }
    return o.str();
}
}  // namespace

static void worker13(int w, Stats& st, double deadline) {
    string dir = workerDir(w);
    auto testOf = [&](const string& kind) {
        return [&, kind](const Job& j, const Lines& l) {
            // the clock rate is what makes the program exceed its time
            if(kind == "time" && (l.empty() || l[0].compare(0, 6, "clock "))) return string();
            return judge13(kind, j, Res{}, runC(j, l, dir, 60));
        };
    };
    auto fail = [&](const string& kind, const Job& j, const Lines& l, const string& what) {
        report(st, "C13", j, l, what, testOf(kind));
        Doc d = Doc::parse(st.violation);
        d.set("kind13", kind);
        st.violation = d.str();
    };
    auto one = [&](const string& kind, const Job& j, const Lines& l, double timeout = 30) {
        Res r = runC(j, l, dir, timeout);
        account(st, j, r);
        st.add("programs_" + kind);
        string e = judge13(kind, j, Res{}, r);
        if(!e.empty()) { fail(kind, j, l, e); return false; }
        if(l.size()) st.sample(j.name + ": " + kind + " / " + l[0] + " -> " + r.brief());
        return true;
    };
    for(u64 idx = (u64)w; nowS() < deadline && !stopped(); idx += (u64)env().jobs) {
        Rng r(hashMix(hashMix(env().seed, strHash("C13")), idx));
        Job j;
        j.mode = "exec";
        j.target = "riscv";
        j.level = r.chance(0.6) ? 0 : (int)r.below(3);
        auto wallJumps = [&](Lines& v, u64 reads) {
            int n = (int)r.below(5);
            for(int i = 0; i < n; ++i) v.push_back(L("f 5 0 %llu 3 %lld 0", (unsigned long long)r.below(std::max<u64>(1, reads)), (long long)(r.next() % 8'000'000'000'000'000ull) - 4'000'000'000'000'000ll));
        };
        u64 pick = r.below(12);
        if(idx == 3 || idx == 7) pick = 9;
        if(idx == 1 || idx == 4 || idx == 6) pick = 10;
        if(pick <= 3) {  // generated well-behaved programs, wall-clock disturbances, and a machine so slow that they nearly exhaust the budget
            Job g = genJob(r, { sy::PROF_GENERAL, sy::PROF_IO, sy::PROF_MEMO });
            g.mode = j.mode; g.target = j.target; g.level = j.level;
            if(g.expectCode == 1 || g.expectCode < 0) continue;
            Res b = runC(g, {}, dir, 10);
            if(!b.ran || b.timeout || !judge13("well", g, b, b).empty()) { st.add("unusable_reference"); if(b.ran && !b.timeout) st.sample("unusable: " + b.brief() + errBrief(b.err)); continue; }
            account(st, g, b);
            for(int k = 0; k < 4 && nowS() < deadline; ++k) {
                Lines v;
                u64 reads = b.log->clockReads;
                if(r.chance(0.6)) v.push_back(L("clock %lld 1000000000000 %lld", (long long)(r.next() % 4'000'000'000'000'000'000ull), (long long)(r.below(1'150'000'000'000ull) / std::max<u64>(reads, 1))));
                wallJumps(v, reads);
                if(v.empty()) wallJumps(v, reads);
                if(!one("well", g, v)) return;
            }
        } else if(pick <= 5) {  // loops with a known number of steps, on both sides of the limit
            i64 dummy = 0;
            int kind = (int)r.below(4);
            Rng keep = r;
            j.src = loopProgram(r, kind, dummy, 200 + (i64)r.below(20000));
            j.name = "bounded loop";
            Res b = runC(j, {}, dir, 20);
            account(st, j, b);
            if(!b.ran || b.timeout) continue;
            if(b.code != 7) { j.expectCode = 7; j.expectOut = b.out; st.add("unusable_reference"); continue; }
            j.expectCode = 7; j.expectOut = b.out;
            u64 reads = std::max<u64>(1, b.log->clockReads);
            bool over = r.chance(0.5) && j.level == 0 && reads > 2000;
            i64 total = over ? 1'320'000'000'000ll + (i64)r.below(3'000'000'000'000ull) : (i64)r.below(1'120'000'000'000ull);
            Lines v{ L("clock %lld 1000000000000 %lld", (long long)(r.next() % 4'000'000'000'000'000'000ull), (long long)(total / (i64)reads)) };
            if(over && total / (i64)reads > 20'000'000'000ll) continue;
            wallJumps(v, reads);
            if(!one(over ? "time" : "well", j, v)) return;
        } else if(pick <= 6) {  // endless
            i64 dummy = 0;
            j.level = r.chance(0.7) ? 0 : 1;
            j.src = loopProgram(r, (int)r.below(4), dummy, -1);
            j.name = "endless loop";
            j.level = 0;
            Lines v{ L("clock %lld 1000000000000 %lld", (long long)(r.next() % 4'000'000'000'000'000'000ull), (long long)(2'000'000 + r.below(500'000'000))) };
            wallJumps(v, 100000);
            if(!one("time", j, v, 60)) return;
        } else if(pick <= 8) {  // recursion
            j.level = 0;
            u64 k = r.below(3);
            i64 depth = k == 0 ? -1 : k == 1 ? 1100 + (i64)r.below(5000) : 1 + (i64)r.below(1000);
            j.src = depthProgram(r, depth);
            j.name = "recursion";
            j.expectCode = 9; j.expectOut = std::to_string(depth + 3);
            Lines v;
            wallJumps(v, 5000);
            if(!one(k == 2 ? "well" : "depth", j, v, 60)) return;
        } else if(pick >= 10) {  // what one call releases must not count against later ones
            j.level = r.chance(0.8) ? 0 : 1;
            u64 form = idx == 1 ? 0 : idx == 4 ? 1 : idx == 6 ? 4 : r.below(5);
            std::ostringstream o;
            if(form <= 1) {
                // arrays of finished calls, more than the limit in total
                int na = 1 + (int)r.below(4);
                i64 words = (1 << 17) + (i64)r.below(1 << 19), calls = (1300ll << 20) / (words * 4 * na) + 1;
                o << "int f(int n){";
                for(int i = 0; i < na; ++i) o << "int a" << i << "[" << words / (1 + (i64)(i ? r.below(2) : 0)) + (i64)r.below(9) << "];";
                for(int i = 0; i < na; ++i) o << "a" << i << "[n]=n+" << i << ";";
                if(r.chance(0.5)) o << "if(n%2==0){int b[" << calls + 1 + (i64)r.below(9000) << "];b[n]=a0[n];return b[n];}";
                o << "return a0[n]";
                o << ";}int main(){int i=0;int s=0;while(i<" << calls << "){s=(s+f(i))%10007;i=i+1;}putint(s);return 9;}\n";
                i64 v = 0;
                for(i64 i = 0; i < calls; ++i) v = (v + i) % 10007;
                j.expectOut = std::to_string(v);
            } else if(form == 2) {
                // depth counts calls in progress, not calls made
                i64 depth = 1 + (i64)r.below(900), times = 2 + (i64)r.below(20000 / (u64)depth + 3);
                o << "int f(int n){" << (r.chance(0.5) ? "int a[3];a[n%3]=n;" : "") << "if(n==0)return 3;int x=f(n-1);if(x>100000)return 1;return x+1;}";
                o << "int main(){int i=0;int s=0;while(i<" << times << "){s=(s+f(" << depth << "))%10007;i=i+1;}putint(s);return 9;}\n";
                i64 v = 0;
                for(i64 i = 0; i < times; ++i) v = (v + depth + 3) % 10007;
                j.expectOut = std::to_string(v);
            } else if(form == 4) {
                // deep recursion whose frames hold many variables, again and again: each return frees all of them
                i64 depth = 300 + (i64)r.below(650), vars = 3 + (i64)r.below(12), words = 4 + (i64)r.below(40);
                i64 frame = depth * (vars * (words + 1)) * 4, times = std::min<i64>(40, (1200ll << 20) / frame + 2);
                if(r.chance(0.5)) { vars = std::max<i64>(1, vars / 4); words = (40ll << 20) / depth / vars / 4; times = 32; }
                o << "int f(int n){";
                for(i64 i = 0; i < vars; ++i) o << "int a" << i << "[" << words << "];int v" << i << "=n+" << i << ";a" << i << "[n%" << words << "]=v" << i << ";";
                o << "if(n==0)return a0[0]+3;";
                if(r.chance(0.4)) o << "if(n%2==1){int q=n;int z[5];z[n%5]=q;return f(n-z[n%5]+q-1)+1;}";
                o << "int x=f(n-1);return x+1+a" << vars - 1 << "[n%" << words << "]-v" << vars - 1 << ";}";
                o << "int main(){int i=0;int s=0;while(i<" << times << "){s=(s+f(" << depth << "))%10007;i=i+1;}putint(s);return 9;}\n";
                i64 v = 0;
                for(i64 i = 0; i < times; ++i) v = (v + depth + 3) % 10007;
                j.expectOut = std::to_string(v);
            } else {
                i64 times = 1100 + (i64)r.below(20000);
                o << "int c;void g(int n){int a[20];a[n%20]=n;if(n%3==0){c=(c+a[n%20])%10007;return;}c=c+1;}int main(){int i=0;while(i<" << times << "){g(i);i=i+1;}putint(c);return 9;}\n";
                i64 v = 0;
                for(i64 i = 0; i < times; ++i) { if(i % 3 == 0) v = (v + i) % 10007; else v = v + 1; }
                j.expectOut = std::to_string(v);
            }
            j.src = o.str();
            j.name = "repeated calls";
            j.expectCode = 9;
            Lines v;
            wallJumps(v, 5000);
            if(!one("well", j, v, 100)) return;
        } else {  // memory: every recursion level allocates
            bool over = idx == 3 ? true : idx == 7 ? false : r.chance(0.5);
            if(w % 4 != 3) continue;             // bounds the memory all workers use together
            j.level = 0;
            // the limit is 2 GiB for 2 bytes of bookkeeping per program byte
            u64 form = r.below(3);
            i64 total = over ? (1100ll << 20) + (i64)r.below(800ll << 20) : 1 + (i64)r.below(idx != 7 && r.chance(0.3) ? 980ll << 20 : 100ll << 20);
            if(idx == 7) total += 60ll << 20;
            i64 n = 20 + (i64)r.below(400);
            i64 words = std::max<i64>(total / 4 / n, 500);
            string N = std::to_string(n);
            if(form == 0) {
                j.src = "int f(int n){int a[" + std::to_string(words) + "];a[n]=n;if(n==0)return 3;return f(n-1)+a[n]-n+1;}int main(){putint(f(" + std::to_string(n - 1) + "));return 9;}\n";
                j.expectOut = std::to_string(n + 2);
            } else if(form == 1) {
                j.src = "int main(){int a[" + std::to_string(total / 4 + 30) + "];int i=0;while(i<10){a[i]=i;i=i+1;}putint(a[7]);return 9;}\n";
                j.expectOut = "7";
            } else {
                j.src = "int a[" + std::to_string(total / 8 + 30) + "];int b[" + std::to_string(total / 8 + 30) + "];int main(){a[3]=4;b[1]=3;putint(a[3]+b[1]);return 9;}\n";
                j.expectOut = "7";
            }
            j.name = "memory";
            j.expectCode = 9;
            Lines v;
            wallJumps(v, 5000);
            if(!one(over ? "memory" : "well", j, v, 100)) return;
        }
    }
}

static void workerC(const string& id, int w, Stats& st, double deadline) {
    string dir = workerDir(w);
    vector<CorpusFile> cs = corpus();
    Judge jg;
    jg.id = id;
    static const char* const targets[] = { "riscv", "riscv", "arm", "mips", "tac" };
    for(u64 idx = (u64)w; nowS() < deadline && !stopped(); idx += (u64)env().jobs) {
        Rng r(hashMix(hashMix(env().seed, strHash(id)), idx));
        Job j;
        int plans = 8;
        if(id == "C08") {
            bool gen = r.chance(0.8);
            j = gen ? genJob(r, { sy::PROF_PARALLEL, sy::PROF_GENERAL, sy::PROF_REDUCE, sy::PROF_MEMO, sy::PROF_IO }) : corpusJob(r, cs, "sy");
            if(j.name.compare(0, 7, "noexec_") == 0) continue;
            j.level = 1 + (int)r.below(3);
            j.aggr = r.chance(0.3);
            u64 k = r.below(10);
            if(k < 2) j.mode = "exec"; else if(k == 2) j.target = "arm"; else if(k == 3) j.target = "mips";
            if(j.mode == "exec") j.aggr = false;  // the interpreter does not know the parallel runtime
            randomOptions(r, j, false);
            plans = 6;
        } else if(id == "C14") {
            j = genJob(r, { sy::PROF_IO, sy::PROF_GENERAL, sy::PROF_MEMO });
            if(r.chance(0.15)) {
                j = corpusJob(r, cs, "sy spl");
                if(j.name.compare(0, 7, "noexec_") == 0) continue;
            }
            if(r.chance(0.35)) j = bigIoJob(r);
            j.mode = "exec";
            j.level = (int)r.below(3);
            plans = 16;
        } else {
            j = r.chance(id == "C09" ? 0.6 : 0.4) ? genJob(r, { sy::PROF_PARALLEL, sy::PROF_GENERAL, sy::PROF_MEMO, sy::PROF_REDUCE, sy::PROF_IO }) : corpusJob(r, cs);
            j.target = targets[r.below(5)];
            u64 k = r.below(10);
            if(k < 2) j.mode = "ir"; else if(k == 2 && j.ext != "ir") j.mode = "ast";
            if(id == "C09" && k == 3 && j.generated) j.mode = "exec", j.target = "riscv";
            j.level = (int)r.below(id == "C09" ? 4 : 3);
            // with the embedded runtime in the output
            if(id != "C09" && r.chance(0.25)) {
                j = genJob(r, { sy::PROF_PARALLEL, sy::PROF_PARALLEL, sy::PROF_REDUCE, sy::PROF_MEMO });
                j.target = r.chance(0.8) ? "riscv" : "arm";
                j.level = r.chance(0.7) ? 2 : 3;
                j.aggr = true;
            }
            if(id == "C09") { j.aggr = j.mode != "exec" && r.chance(0.3); plans = 5; if(r.chance(0.5)) j.pad = 1 + r.below(1u << 30); }
            if(j.mode == "asm" || j.mode == "ir") randomOptions(r, j, true);
            if(id != "C09" && j.mode != "exec" && !(j.ext == "ir" && j.target == "tac") && r.chance(0.2)) j.defOut = true;
            if(id == "C11" && j.ext != "ir" && r.chance(0.08)) { j.mode = "check"; j.opts.clear(); j.defOut = false; }
            if(id == "C12") plans = 12;
            if(id == "C10") plans = 16;
            if(id == "C11") plans = 16;
        }
        Res b = runC(j, {}, dir, 6);
        account(st, j, b);
        if(!jg.usable(j, b, dir)) {
            st.add("unusable_reference");
            if(b.timeout) st.add("reference_too_slow");
            if(getenv("DST_DEBUG")) fprintf(stderr, "unusable: %s -O%d %s %s opts=%s aggr=%d: %s; %s; %s\n", j.name.c_str(), j.level, j.target.c_str(), j.mode.c_str(), j.opts.c_str(), j.aggr, b.brief().c_str(), errBrief(b.err).c_str(), errBrief(jg.b0.what).c_str());
            continue;
        }
        st.add("programs");
        auto test = [&](const Job& q, const Lines& l) { return jg.judge(q, l, b, runC(q, l, dir, 60), dir); };
        double limit = b.wall * 20 + 10;
        for(int k = 0; k < plans && nowS() < deadline && !stopped(); ++k) {
            Lines v = id == "C08" ? planC08(r, j, b) : id == "C09" ? planC09(r, b) : id == "C10" ? planC10(r, b) : id == "C11" ? planC11(r, j, b) :
                      id == "C12" ? planC12(r, b) : planC14(r, j, b);
            Res x = runC(j, v, dir, limit);
            account(st, j, x);
            string e = jg.judge(j, v, b, x, dir);
            if(!e.empty()) { report(st, id, j, v, e, test); return; }
            if(x.log->activeFault) { string s; for(auto& l : v) s += (s.empty() ? "" : "; ") + l; st.sample(j.name + " -O" + std::to_string(j.level) + " " + j.target + " " + j.mode + ": " + s + " -> " + x.brief()); }
        }
    }
}

Stats checkCompiler(const string& id, double deadline, CheckInfo& ci) {
    static const std::map<string, string> rules{
        { "C08", "one evaluation = one compilation under a virtual clock with seeded jumps, rate changes and set-backs, its result executed (RISC-V simulator or the interpreter) and compared with the undisturbed one; non-trivial = the clock was disturbed while the optimiser ran" },
        { "C09", "one evaluation = one compilation in a seeded environment (address-space layout, environment, clock, random numbers, prior output, descriptors, read chunking) compared byte for byte with the reference; non-trivial = an injected disturbance was met" },
        { "C10", "one evaluation = one compilation with a seeded plan of open/write/close failures, full disk, short and interrupted writes on its output; non-trivial = at least one fault fired" },
        { "C11", "one evaluation = one compilation whose source is delivered by a seeded plan of short, interrupted and failing reads or a failing open; non-trivial = at least one fault fired" },
        { "C12", "one evaluation = one compilation in which a seeded set of allocations, mappings or the arena size fails; non-trivial = at least one fault fired" },
        { "C13", "one evaluation = one run of the built-in interpreter under a virtual clock (seeded speed, wall-clock steps) on a program inside or outside a limit; non-trivial = clock disturbed" },
        { "C14", "one evaluation = one run of the built-in interpreter with a seeded plan of faults on the program's input and output; non-trivial = at least one fault fired" } };
    ci.rule = rules.count(id) ? rules.at(id) : "";
    ci.realParts = { "cmmc compiler process (front ends, optimiser, code generators, interpreter, driver) built from /repo", "libc stdio, libstdc++ streams, mimalloc" };
    ci.stubParts = { "clock (virtual)", "results of open/read/write/close/mmap/brk/getrandom (seeded, through a seccomp trap handler)" };
    if(id == "C12") ci.stubParts.push_back("allocator entry points (link-time wrapper in the checked build only)");
    if(id == "C08") { ci.realParts.push_back("emitted RISC-V code"); ci.stubParts.push_back("RISC-V machine and libc stand-in"); }
    ci.stateMeasure = "distinct (output bytes, exit status) pairs";
    ci.assumptions = { "system calls not listed above are passed through unchanged" };
    return pool(env().jobs, [&](int w, Stats& st) {
        if(id == "C13") worker13(w, st, deadline); else workerC(id, w, st, deadline);
    });
}
int replayCompiler(const Doc& d, bool verbose) {
    Job j = Job::from(d);
    Lines v;
    std::istringstream is(d.get("plan"));
    string l;
    while(std::getline(is, l)) v.push_back(l);
    string id = d.get("property"), e;
    string dir = env().work;
    if(id == "C13") e = judge13(d.get("kind13"), j, Res{}, runC(j, v, dir, 120));
    else {
        Judge jg;
        jg.id = id;
        Res b = runC(j, {}, dir, 60);
        if(!jg.usable(j, b, dir)) { if(verbose) std::cout << "undisturbed run is not usable as a reference: " << b.brief() << "\n" << b.err; return 2; }
        e = jg.judge(j, v, b, runC(j, v, dir, 120), dir);
    }
    if(verbose) {
        std::cout << "program " << j.name << ", -O" << j.level << " target " << j.target << " mode " << j.mode << ", plan:\n" << d.get("plan");
        std::cout << (e.empty() ? "property holds" : "violated: " + e) << "\n";
    }
    if(e.empty()) return 0;
    return e == d.get("what") ? 1 : 4;
}
}  // namespace hz
