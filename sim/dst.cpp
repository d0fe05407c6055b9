// dst check <id> | dst replay <file>
#include "checks.hpp"
#include "sygen.hpp"
using namespace hz;

static string evidenceJson(const string& id, const Stats& s, const CheckInfo& ci, double wall, int violations) {
    auto get = [&](const string& k) { auto i = s.n.find(k); return i == s.n.end() ? 0ull : (unsigned long long)i->second; };
    std::ostringstream o;
    o << "{\n \"property\": " << jstr(id) << ",\n \"tier\": \"" << (env().thorough ? "thorough" : "quick") << "\",\n \"seed\": " << env().seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    o << "  \"evaluations\": " << get("runs") << ",\n  \"distinct_nontrivial\": " << s.distinct.size() << ",\n  \"rule\": " << jstr(ci.rule) << ",\n  \"samples\": [";
    for(size_t i = 0; i < s.samples.size(); ++i) o << (i ? ", " : "") << jstr(s.samples[i]);
    if(s.samples.empty()) o << jstr("none");
    o << "],\n";
    double h = std::max(wall, 1e-9) / 3600;
    o << "  \"simulated_runs_per_hour\": " << (unsigned long long)(get("runs") / h) << ",\n  \"seeds_per_hour\": " << (unsigned long long)(get("runs") / h) << ",\n";
    if(get("sim_ns")) o << "  \"simulated_time_s\": " << (double)get("sim_ns") * 1e-9 << ",\n";
    if(!ci.stateMeasure.empty()) o << "  \"distinct_states\": " << s.states.size() << ",\n  \"distinct_states_measure\": " << jstr(ci.stateMeasure) << ",\n";
    o << "  \"faults_injected\": {";
    bool f = true;
    for(auto& [k, v] : s.n) if(!k.compare(0, 6, "fault:")) { o << (f ? "" : ", ") << jstr(k.substr(6)) << ": " << v; f = false; }
    o << "},\n  \"counters\": {";
    f = true;
    for(auto& [k, v] : s.n) if(k.compare(0, 6, "fault:")) { o << (f ? "" : ", ") << jstr(k) << ": " << v; f = false; }
    auto list = [&](const vector<string>& v) { string r = "["; for(size_t i = 0; i < v.size(); ++i) r += (i ? ", " : "") + jstr(v[i]); return r + "]"; };
    o << "},\n  \"components\": {\"real\": " << list(ci.realParts) << ", \"stub\": " << list(ci.stubParts) << "}\n },\n";
    o << " \"assumptions\": " << list(ci.assumptions) << ",\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    return o.str();
}

static int confirm(const string& path) {
    Run r;
    r.argv = { env().self, "replay", path };
    r.timeout = 300;
    Proc p = exec(r);
    if(p.code != 1) std::cerr << p.out << p.err;
    return p.code;
}

static int check(const string& id) {
    double t0 = nowS();
    env().work = env().verif + "/build/work." + std::to_string(getpid());
    mkdir(env().work.c_str(), 0755);
    mkdir((env().verif + "/evidence").c_str(), 0755);
    mkdir((env().verif + "/replays").c_str(), 0755);
    struct Clean { ~Clean() { Run r; r.argv = { "/bin/rm", "-rf", env().work }; exec(r); } } clean;
    // known findings: executed, never suppressed silently
    {
        std::ifstream kf(env().verif + "/known_findings.txt");
        string line;
        while(std::getline(kf, line)) {
            if(line.compare(0, 17, "finding: property")) continue;
            std::istringstream is(line);
            string tag, prop, file, rest;
            is >> tag >> prop >> file;
            std::getline(is, rest);
            if(prop != "property=" + id) continue;
            Doc d = Doc::parse(readFile(env().verif + "/" + file.substr(file.find('=') + 1)));
            int c = replayDoc(d, false);
            if(c == 1 || c == 4) std::cout << "KNOWN-FINDING: property=" << id << rest << std::endl;
            else std::cout << "note: listed finding no longer fails (" << c << "):" << rest << std::endl;
        }
    }
    CheckInfo ci;
    double deadline = t0 + env().budget;
    Stats s;
    try {
        if(isProgramCheck(id)) s = checkProgram(id, deadline, ci);
        else s = checkCompiler(id, deadline, ci);
    } catch(const std::exception& e) { s.error = e.what(); }
    int rc = 0;
    if(!s.violation.empty()) {
        Doc d = Doc::parse(s.violation);
        string path = env().verif + "/replays/" + id + "-" + std::to_string(strHash(s.violation) % 1000000007) + ".replay";
        writeFile(path, s.violation);
        int c = confirm(path);
        if(c == 1 || c == 4) {  // 4: violated again, with a different detail (the tree itself is not deterministic there)
            std::cout << "property " << id << " violated: " << d.get("what") << "\n";
            std::cout << "VIOLATION property=" << id << " replay=" << path << std::endl;
            rc = 1;
        } else {
            std::cout << "internal error: violation did not replay in a fresh process (status " << c << "), file " << path << std::endl;
            rc = 3;
        }
    } else if(!s.error.empty()) {
        std::cout << "internal error: " << s.error << std::endl;
        rc = 3;
    }
    double wall = nowS() - t0;
    writeFile(env().verif + "/evidence/" + id + ".json", evidenceJson(id, s, ci, wall, rc == 1));
    if(getenv("DST_VERBOSE")) { for(auto& [k, v] : s.n) std::cout << k << " = " << v << "\n"; for(auto& x : s.samples) std::cout << "-- " << x << "\n"; }
    std::cout << id << (rc == 0 ? " held" : "") << ": " << s.n["runs"] << " runs, " << s.distinct.size() << " distinct, " << wall << " s" << std::endl;
    return rc;
}

int main(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    signal(SIGPIPE, SIG_IGN);
    Env& e = env();
    char self[4096];
    ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    e.self = string(self, (size_t)std::max<ssize_t>(n, 0));
    e.verif = getenv("DST_VERIF") ? getenv("DST_VERIF") : "/verif";
    e.cmmc = getenv("DST_CMMC") ? getenv("DST_CMMC") : e.verif + "/build/cmmc/bin/cmmc";
    e.guest = e.verif + "/build/guest";
    e.shim = e.verif + "/build/bin/shim.so";
    if(auto s = getenv("VERIF_SEED")) e.seed = strtoull(s, nullptr, 0);
    if(auto s = getenv("VERIF_TIER")) e.thorough = string(s) == "thorough";
    if(auto s = getenv("DST_JOBS")) e.jobs = atoi(s); else e.jobs = std::max(2, (int)std::min(8l, sysconf(_SC_NPROCESSORS_ONLN)));
    e.budget = e.thorough ? 1500 : 45;
    // one evaluation costs a compilation here
    if(!e.thorough && argc >= 3)
        for(auto [id, sec] : { std::pair<const char*, int>{ "C01", 80 }, { "C08", 80 }, { "C04", 60 }, { "C09", 60 }, { "C12", 60 } })
            if(string(argv[2]) == id) e.budget = sec;
    if(auto s = getenv("DST_BUDGET")) e.budget = atof(s);
    if(argc >= 3 && string(argv[1]) == "check") return check(argv[2]);
    if(argc >= 3 && string(argv[1]) == "replay") {
        e.work = e.verif + "/build/replay." + std::to_string(getpid());
        mkdir(e.work.c_str(), 0755);
        int rc = 2;
        try { rc = replayDoc(Doc::parse(readFile(argv[2])), true); } catch(const std::exception& x) { std::cout << "replay: " << x.what() << "\n"; }
        Run r; r.argv = { "/bin/rm", "-rf", e.work }; exec(r);
        return rc;
    }
    if(argc >= 4 && string(argv[1]) == "gen") {  // print a generated program: seed, profile number, file prefix
        auto g = sy::generate(strtoull(argv[2], nullptr, 0), (sy::Profile)atoi(argv[3]));
        string p = argc > 4 ? argv[4] : "/dev/stdout";
        if(argc > 4) { writeFile(p + ".sy", g.source); writeFile(p + ".in", g.input); writeFile(p + ".out", g.output + std::to_string(g.exitCode) + "\n"); }
        else std::cout << g.source;
        return 0;
    }
    if(argc >= 6 && string(argv[1]) == "run") return runFile(argv[2], argv[3], atoi(argv[4]), atoi(argv[5]), argc > 6 ? atoi(argv[6]) : 0);
    if(argc >= 9 && string(argv[1]) == "mkreplay") return makeReplay(argv[2], argv[3], argv[4], argv[5], atoi(argv[6]), atoi(argv[7]), argv[8]);
    if(argc >= 5 && string(argv[1]) == "hunt") return hunt(atoi(argv[2]), atoi(argv[3]), atoi(argv[4]));
    if(argc >= 6 && string(argv[1]) == "shrink") return shrinkSeed(strtoull(argv[2], nullptr, 0), atoi(argv[3]), atoi(argv[4]), atoi(argv[5]));
    std::cerr << "usage: dst check <property> | dst replay <file>\n";
    return 2;
}
