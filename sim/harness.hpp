// Shared plumbing of all checks: configuration, child processes, files, replay files, worker pool,
// statistics, minimisation and evidence output.
#pragma once
#include "core.hpp"
#include <chrono>
#include <cmath>
#include <fcntl.h>
#include <iostream>
#include <set>
#include <signal.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sched.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace hz {
using std::string;
using std::vector;

struct Env {
    string cmmc, work, self, guest, verif, shim;
    u64 seed = 1;
    bool thorough = false;
    int jobs = 8;
    double budget = 45;  // seconds of exploration
};
inline Env& env() { static Env e; return e; }

inline double nowS() {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
inline string readFile(const string& p, bool* okp = nullptr) {
    std::ifstream f(p, std::ios::binary);
    if(okp) *okp = (bool)f;
    return string(std::istreambuf_iterator<char>(f), {});
}
inline void writeFile(const string& p, const string& s) {
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f.write(s.data(), (std::streamsize)s.size());
    f.close();
    if(!f) throw std::runtime_error("cannot write " + p);
}
inline bool exists(const string& p) { struct stat st; return !stat(p.c_str(), &st); }
inline u64 strHash(const string& s) {
    u64 h = 1469598103934665603ull;
    for(unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

struct Proc { int code = -1; int sig = 0; bool timeout = false; string out, err; double wall = 0; };
struct Run {
    vector<string> argv;
    vector<string> env;      // NAME=VALUE additions
    bool cleanEnv = false;
    string cwd;
    double timeout = 60;
    bool capture = true;
    u64 asLimit = 0;
    u64 stackLimit = 0;
    int extraFds = 0;
    int cpus = 0;            // restrict the process to this many processors
    bool noAslr = false;
};
inline Proc exec(const Run& r) {
    Proc p;
    int po[2], pe[2];
    if(pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) throw std::runtime_error("pipe");
    double t0 = nowS();
    vector<char*> av;
    for(auto& a : r.argv) av.push_back(const_cast<char*>(a.c_str()));
    av.push_back(nullptr);
    vector<string> es;
    if(!r.cleanEnv) for(char** e = environ; *e; ++e) es.push_back(*e);
    for(auto& e : r.env) es.push_back(e);
    vector<char*> ev;
    for(auto& e : es) ev.push_back(const_cast<char*>(e.c_str()));
    ev.push_back(nullptr);
    pid_t pid = fork();
    if(pid < 0) throw std::runtime_error("fork");
    if(!pid) {
        setpgid(0, 0);
        int n = open("/dev/null", O_RDWR);
        dup2(n, 0);
        dup2(r.capture ? po[1] : n, 1);
        dup2(r.capture ? pe[1] : n, 2);
        if(!r.cwd.empty() && chdir(r.cwd.c_str())) _exit(127);
        if(r.asLimit) { rlimit l{ r.asLimit, r.asLimit }; setrlimit(RLIMIT_AS, &l); }
        rlimit c{ 0, 0 }; setrlimit(RLIMIT_CORE, &c);
        if(r.stackLimit) { rlimit l; getrlimit(RLIMIT_STACK, &l); l.rlim_cur = l.rlim_max == RLIM_INFINITY ? r.stackLimit : std::min<u64>(r.stackLimit, l.rlim_max); setrlimit(RLIMIT_STACK, &l); }
        if(r.noAslr) personality(0x0040000);
        if(r.cpus) {
            cpu_set_t have, want; CPU_ZERO(&want);
            if(!sched_getaffinity(0, sizeof have, &have)) {
                int k = 0, base = (int)getpid() % 8;
                for(int i = 0; i < CPU_SETSIZE && k < r.cpus; ++i) if(CPU_ISSET((i + base) % CPU_SETSIZE, &have)) { CPU_SET((i + base) % CPU_SETSIZE, &want); ++k; }
                if(k) sched_setaffinity(0, sizeof want, &want);
            }
        }
        for(int i = 0; i < r.extraFds; ++i) dup(0);
        execve(av[0], av.data(), ev.data());
        execvpe(av[0], av.data(), ev.data());
        _exit(127);
    }
    close(po[1]); close(pe[1]);
    fcntl(po[0], F_SETFL, O_NONBLOCK); fcntl(pe[0], F_SETFL, O_NONBLOCK);
    bool oo = true, oe = true;
    char buf[65536];
    int st = 0;
    bool reaped = false;
    while(oo || oe) {
        fd_set fs; FD_ZERO(&fs);
        if(oo) FD_SET(po[0], &fs);
        if(oe) FD_SET(pe[0], &fs);
        double left = r.timeout - (nowS() - t0);
        if(left <= 0) { kill(-pid, SIGKILL); kill(pid, SIGKILL); p.timeout = true; break; }
        timeval tv{ (long)std::min(left, 1.0), (long)(std::fmod(std::min(left, 1.0), 1.0) * 1e6) };
        int n = select(std::max(po[0], pe[0]) + 1, &fs, nullptr, nullptr, &tv);
        if(n < 0 && errno != EINTR) break;
        for(int k = 0; k < 2; ++k) {
            bool& o = k ? oe : oo;
            int fd = k ? pe[0] : po[0];
            if(!o) continue;
            ssize_t m;
            while((m = read(fd, buf, sizeof buf)) > 0) {
                string& d = k ? p.err : p.out;
                if(d.size() < (32u << 20)) d.append(buf, (size_t)m);
            }
            if(m == 0) o = false;
        }
        if(!reaped && waitpid(pid, &st, WNOHANG) == pid) reaped = true;
        if(reaped && n == 0) break;
    }
    close(po[0]); close(pe[0]);
    if(!reaped) {
        // output closed: wait for the process itself, still bounded
        for(;;) {
            pid_t w = waitpid(pid, &st, p.timeout ? 0 : WNOHANG);
            if(w == pid) break;
            if(nowS() - t0 > r.timeout) { kill(pid, SIGKILL); p.timeout = true; continue; }
            usleep(1000);
        }
    }
    p.wall = nowS() - t0;
    if(WIFEXITED(st)) p.code = WEXITSTATUS(st);
    else { p.sig = WTERMSIG(st); p.code = 128 + p.sig; }
    return p;
}

// ---------------------------------------------------------------- replay files
// "@name length\n" + bytes + "\n", repeated.
struct Doc {
    std::map<string, string> m;
    string get(const string& k, const string& d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
    i64 num(const string& k, i64 d = 0) const { auto i = m.find(k); return i == m.end() ? d : strtoll(i->second.c_str(), nullptr, 0); }
    void set(const string& k, const string& v) { m[k] = v; }
    void set(const string& k, i64 v) { m[k] = std::to_string(v); }
    string str() const {
        // human-relevant fields first, long sections last
        vector<std::pair<string, string>> v(m.begin(), m.end());
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return (a.second.size() > 200) < (b.second.size() > 200); });
        string s = "DST-REPLAY 1\n";
        for(auto& [k, x] : v) s += "@" + k + " " + std::to_string(x.size()) + "\n" + x + "\n";
        return s;
    }
    static Doc parse(const string& s) {
        Doc d;
        size_t p = s.find('\n');
        if(s.compare(0, 10, "DST-REPLAY") || p == string::npos) throw std::runtime_error("not a replay file");
        ++p;
        while(p < s.size()) {
            if(s[p] != '@') throw std::runtime_error("bad replay file");
            size_t sp = s.find(' ', p), nl = s.find('\n', p);
            string k = s.substr(p + 1, sp - p - 1);
            size_t n = strtoull(s.c_str() + sp + 1, nullptr, 10);
            d.m[k] = s.substr(nl + 1, n);
            p = nl + 1 + n + 1;
        }
        return d;
    }
};
inline string eventsStr(const vector<Event>& ev) {
    string s;
    char b[128];
    for(auto& e : ev) {
        snprintf(b, sizeof b, "%s %" PRIu64 " %" PRId64 " %" PRId64 "\n", evNames[e.kind], e.key, e.a, e.b);
        s += b;
    }
    return s;
}
inline vector<Event> eventsParse(const string& s) {
    vector<Event> v;
    std::istringstream in(s);
    string name; Event e;
    while(in >> name >> e.key >> e.a >> e.b) {
        e.kind = EV_KINDS;
        for(u32 k = 0; k < EV_KINDS; ++k) if(name == evNames[k]) e.kind = k;
        if(e.kind == EV_KINDS) throw std::runtime_error("unknown event " + name);
        v.push_back(e);
    }
    return v;
}

// ddmin over a list; test(subset) returns true if the failure persists. Bounded by maxTests.
template <class T, class F>
vector<T> ddmin(vector<T> v, F test, int maxTests) {
    int tests = 0;
    if(v.empty()) return v;
    if(test(vector<T>{})) return {};
    size_t n = 2;
    while(v.size() >= 2 && tests < maxTests) {
        size_t chunk = (v.size() + n - 1) / n;
        bool reduced = false;
        for(size_t i = 0; i < v.size() && tests < maxTests; i += chunk) {
            vector<T> c;
            c.reserve(v.size());
            for(size_t j = 0; j < v.size(); ++j) if(j < i || j >= i + chunk) c.push_back(v[j]);
            ++tests;
            if(test(c)) { v = std::move(c); n = std::max<size_t>(n - 1, 2); reduced = true; break; }
        }
        if(!reduced) {
            if(n >= v.size()) break;
            n = std::min(v.size(), n * 2);
        }
    }
    return v;
}

// ---------------------------------------------------------------- statistics
struct Stats {
    std::map<string, u64> n;
    std::set<u64> distinct;   // distinct non-trivial executions
    std::set<u64> states;     // further distinctness measure (check specific)
    vector<string> samples;
    string violation;         // serialized Doc of the first violation
    string error;             // harness error
    void add(const string& k, u64 v = 1) { n[k] += v; }
    void mx(const string& k, u64 v) { auto& x = n["max:" + k]; x = std::max(x, v); }
    void sample(const string& s) { if(samples.size() < 3) samples.push_back(s); }
    string ser() const {
        Doc d;
        string a, b, c;
        for(auto& [k, v] : n) a += k + "\t" + std::to_string(v) + "\n";
        for(auto v : distinct) b += std::to_string(v) + "\n";
        for(auto v : states) c += std::to_string(v) + "\n";
        d.set("n", a); d.set("distinct", b); d.set("states", c);
        for(size_t i = 0; i < samples.size(); ++i) d.set("sample" + std::to_string(i), samples[i]);
        d.set("violation", violation); d.set("error", error);
        return d.str();
    }
    void merge(const string& s) {
        Doc d = Doc::parse(s);
        std::istringstream a(d.get("n")), b(d.get("distinct")), c(d.get("states"));
        string line;
        while(std::getline(a, line)) {
            size_t t = line.find('\t');
            string k = line.substr(0, t); u64 v = strtoull(line.c_str() + t + 1, nullptr, 10);
            if(!k.compare(0, 4, "max:")) n[k] = std::max(n[k], v); else n[k] += v;
        }
        u64 x;
        while(b >> x) distinct.insert(x);
        while(c >> x) states.insert(x);
        for(int i = 0; i < 3; ++i) if(d.m.count("sample" + std::to_string(i))) sample(d.get("sample" + std::to_string(i)));
        if(violation.empty()) violation = d.get("violation");
        if(error.empty()) error = d.get("error");
    }
};

// Runs body(worker, stats) in `jobs` forked processes and merges their statistics.
inline Stats pool(int jobs, const std::function<void(int, Stats&)>& body) {
    vector<pid_t> pids;
    std::cout.flush(); std::cerr.flush(); fflush(nullptr);
    for(int w = 0; w < jobs; ++w) {
        pid_t p = fork();
        if(p < 0) throw std::runtime_error("fork");
        if(!p) {
            Stats st;
            string dir = env().work + "/w" + std::to_string(w);
            mkdir(dir.c_str(), 0755);
            try { body(w, st); }
            catch(const std::exception& e) { st.error = e.what(); }
            catch(const Trap& t) { st.error = "stray trap: " + t.what; }
            try { writeFile(env().work + "/stats." + std::to_string(w), st.ser()); } catch(...) { _exit(3); }
            _exit(0);
        }
        pids.push_back(p);
    }
    Stats all;
    for(int w = 0; w < jobs; ++w) {
        int st = 0;
        while(waitpid(pids[(size_t)w], &st, 0) < 0 && errno == EINTR) {}
        string f = env().work + "/stats." + std::to_string(w);
        bool okf;
        string s = readFile(f, &okf);
        if(!WIFEXITED(st) || WEXITSTATUS(st) || !okf) {
            if(all.error.empty()) all.error = "worker " + std::to_string(w) + " died, status " + std::to_string(st);
            continue;
        }
        all.merge(s);
        unlink(f.c_str());
    }
    return all;
}
inline string workerDir(int w) { string d = env().work + "/w" + std::to_string(w); mkdir(d.c_str(), 0755); return d; }
// another worker already reported a violation
inline string stopFile() { return env().work + "/stop"; }
inline bool stopped() { return exists(stopFile()); }

// ---------------------------------------------------------------- JSON output
inline string jstr(const string& s) {
    string o = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if(c == '\n') o += "\\n";
        else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
}  // namespace hz
