// Deterministic multi-hart simulator core: guest memory, ELF loading, kernel (threads, futex, clock,
// mmap), seeded scheduler, fault injection, weak-memory store buffers and event traces.
// ISA specific execution is supplied by a template parameter (rv64.hpp, arm32.hpp).
#pragma once
#include <algorithm>
#include <array>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <elf.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using i8 = int8_t; using i16 = int16_t; using i32 = int32_t; using i64 = int64_t;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(seed) {}
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
    bool chance(double p) { return p > 0 && (double)(next() >> 11) * 0x1p-53 < p; }
    // log-uniform in [1, 2^bits]
    u64 logu(unsigned bits) { return 1 + below(1ull << below(bits + 1)); }
};
inline u64 hashMix(u64 h, u64 v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xBF58476D1CE4E5B9ull;
    return h ^ (h >> 29);
}

// ---------------------------------------------------------------- fault and schedule plan
enum EvKind : u32 {
    EV_SWITCH = 0,   // key: global step; a: hart
    EV_STALL,        // key: global step; a: hart, b: duration
    EV_SPURIOUS,     // key: futex-wait ordinal; a: delay, b: 0 (returns 0) or errno
    EV_WAKEDELAY,    // key: futex-wake ordinal; a: delay
    EV_WAKEORDER,    // key: futex-wake ordinal; a: which waiter
    EV_CLONEFAIL,    // key: clone ordinal; a: errno; b: 1 = all later ones fail as well
    EV_MMAPFAIL,     // key: mmap ordinal; a: errno; b as above
    EV_AFFFAIL,      // key: sched_setaffinity ordinal; a: errno; b as above
    EV_CLOCK,        // key: clock read ordinal; a: signed offset added to the simulated clock from here on
    EV_SCFAIL,       // key: store-conditional ordinal (spurious failure)
    EV_STDELAY,      // key: (hart<<48)|store ordinal; a: delay (store becomes visible late)
    EV_STARTDELAY,   // key: clone ordinal; a: delay before the new thread first runs
    EV_LDOLD,        // key: (hart<<48)|ordinal of loads that may be satisfied early; reads the value before the latest store of another hart
    EV_KINDS
};
static const char* const evNames[EV_KINDS] = { "switch",   "stall",     "spurious_wakeup_or_eintr", "delayed_wakeup", "wake_order",
                                               "clone_fail", "mmap_fail", "affinity_fail",            "clock_jump",     "sc_spurious_fail",
                                               "store_visibility_delay", "thread_start_delay", "load_satisfied_early" };
struct Event { u32 kind; u64 key; i64 a, b; };

struct SimConfig {
    u64 seed = 1;
    int policy = 0;          // 0 sequential default, 1 random quanta, 2 PCT-like priorities, 3 starve one, 4 fine-grained at sync, 5 bursts
    u32 quantumBits = 8;
    u32 pctDepth = 3;
    u32 pctHorizonBits = 20;
    double pStall = 0, pSpurious = 0, pEintr = 0, pWakeDelay = 0, pCloneFail = 0, pMmapFail = 0, pAffFail = 0, pClock = 0, pScFail = 0,
           pStDelay = 0, pStartDelay = 0, pLdOld = 0,
           pSync = 0;       // stall the hart right after an atomic operation or fence
    u32 stDelayBits = 10;
    u32 clockMode = 0;       // 0 normal steps, 1 frozen, 2 random forward jumps, 3 arbitrary (also backwards)
    u64 maxSteps = 50'000'000;
    std::string str() const {
        char buf[512];
        snprintf(buf, sizeof buf,
                 "policy=%d qbits=%u pct=%u/%u stall=%.4g spur=%.3g eintr=%.3g wdelay=%.3g clonefail=%.3g mmapfail=%.3g afffail=%.3g "
                 "clock=%.3g/%u scfail=%.3g stdelay=%.3g/%u startdelay=%.3g sync=%.3g ldold=%.3g",
                 policy, quantumBits, pctDepth, pctHorizonBits, pStall, pSpurious, pEintr, pWakeDelay, pCloneFail, pMmapFail, pAffFail, pClock,
                 clockMode, pScFail, pStDelay, stDelayBits, pStartDelay, pSync, pLdOld);
        return buf;
    }
};

constexpr u64 MEM_SIZE = 0x20000000;  // 512 MB of guest address space
constexpr u64 PAGE = 4096;
enum : u8 { P_R = 1, P_W = 2, P_X = 4 };

enum class Stop { Quantum, Syscall, Trap, Sync };
enum class Outcome { Exit, Trap, Deadlock, StepLimit, HistoryViolation, Unsupported };
static const char* const outcomeNames[] = { "exit", "trap", "deadlock", "step-limit", "history-violation", "unsupported" };

struct RunResult {
    Outcome outcome = Outcome::Exit;
    int exitCode = 0;
    std::string detail;
    std::string output;
    u64 steps = 0, simNs = 0, hash = 0, syncHash = 0;
    u64 evCount[EV_KINDS] = {};
    u64 limit = 1, futexWaits = 0, futexBlocked = 0, futexWakes = 0, clones = 0, clockReads = 0, parallelSteps = 0, switches = 0, maxRunnable = 0;
    u64 traceLen = 0;
    u64 probes[64] = {};
};

// A store by one hart that others may not have observed yet (bit i of `seen`: hart i has).
struct Recent { u64 addr, old, time; u8 size, hart, seen; };

struct StoreEntry { u64 addr; u64 val; u64 release; u64 ord; u8 size; };

template <class Cpu>
struct Hart {
    Cpu cpu;
    enum State { Free, Runnable, FutexWait, WaitPid, Exited } state = Free;
    int tid = 0;
    u64 readyAt = 0;     // not schedulable before this step (delayed start / wake-up / stall)
    u64 futexAddr = 0;
    u64 spurAt = ~0ull;  // spurious wake-up time
    i64 spurRet = 0;
    i64 prio = 0;
    u64 cloneFlags = 0;
    u64 waitTid = 0;
    u64 stores = 0;
    u64 insn = 0;
    std::vector<StoreEntry> sb;
    u64 floor = 0;       // loads issued from now on are not satisfied before this step (fences, acquires, system calls)
    u64 oldLoads = 0;
    u64 resAddr = ~0ull; u32 resSize = 0;
};

struct Trap { std::string what; };
struct Unsupported { std::string what; };  // the simulator lacks something: no verdict

template <class Isa>
struct Sim {
    using Cpu = typename Isa::Cpu;
    using H = Hart<Cpu>;
    static constexpr int MAXH = 8;
    static u64 argOf(H& h, int i) { return Isa::arg(h.cpu, i); }

    u8* mem = nullptr;
    std::vector<u8> perm;
    std::vector<u8> image;  // pristine ELF bytes
    u64 entry = 0, brkEnd = 0;
    u64 codeLo = ~0ull, codeHi = 0;
    typename Isa::Code code;
    std::unordered_map<std::string, u64> symbols;

    // run state
    SimConfig cfg;
    Rng rng{ 0 };
    bool replay = false;
    std::vector<Event> trace;                       // recorded (record mode) or planned (replay mode)
    std::unordered_map<u64, Event> plan[EV_KINDS];  // replay lookup
    std::vector<Event> planSwitch, planStall;
    size_t switchIdx = 0, stallIdx = 0;
    std::array<H, MAXH> harts;
    int cur = 0;
    u64 now = 0;  // global step counter
    u64 nextDrain = ~0ull;
    i64 clockOff = 0;
    u64 frozen = 0;
    u64 nFutexWait = 0, nFutexWake = 0, nClone = 0, nMmap = 0, nAff = 0, nClock = 0, nSc = 0;
    u64 mmapPtr = 0;
    RunResult res;
    bool finished = false;
    bool killAfter = false;
    std::string input;
    size_t inPos = 0;
    u64 quantumEnd = 0;
    std::vector<u64> pctPoints;
    int starved = -1;
    bool syncStall = false;
    u32 syncStalls = 0;
    i64 cloneDead = 0, mmapDead = 0, affDead = 0;
    u64 starveUntil = 0;
    int aliveThreads = 0;
    bool syncStop = false;
    bool weak = false;
    // loads satisfied early: the latest stores while several threads live, and a filter by address
    static constexpr u32 RECENT = 256, FILT = 8192;
    bool ldWeak = false;
    std::array<Recent, RECENT> recent;
    std::vector<u64> recentAt;
    u64 nRecent = 0;
    // guest host-call extension; returns true if handled
    std::function<bool(Sim&, H&, u32 nr)> hostcall;
    std::function<void(Sim&)> onStart;

    Sim() {
        mem = (u8*)mmap(nullptr, MEM_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(mem == MAP_FAILED) throw std::runtime_error("mmap guest memory");
        perm.assign(MEM_SIZE / PAGE, 0);
    }
    ~Sim() { munmap(mem, MEM_SIZE); }
    Sim(const Sim&) = delete;

    struct Seg { u64 addr, fsz, msz, off; u8 p; };
    std::vector<Seg> segs;

    void loadElf(const std::string& path) {
        std::ifstream f(path, std::ios::binary);
        if(!f) throw std::runtime_error("cannot open " + path);
        image.assign(std::istreambuf_iterator<char>(f), {});
        segs.clear();
        code.reset();
        codeLo = ~0ull; codeHi = 0; brkEnd = 0;
        if(image.size() < 64 || memcmp(image.data(), "\x7f" "ELF", 4)) throw std::runtime_error("not ELF: " + path);
        auto doit = [&](auto eh, auto phT, auto shT, auto symT) {
            using Ph = decltype(phT); using Sh = decltype(shT); using Sym = decltype(symT);
            memcpy(&eh, image.data(), sizeof eh);
            entry = eh.e_entry;
            for(int i = 0; i < eh.e_phnum; ++i) {
                Ph ph; memcpy(&ph, image.data() + eh.e_phoff + i * eh.e_phentsize, sizeof ph);
                if(ph.p_type != PT_LOAD) continue;
                if(ph.p_vaddr + ph.p_memsz > 0x18000000) throw std::runtime_error("segment beyond guest memory");
                u8 p = ((ph.p_flags & PF_R) ? P_R : 0) | ((ph.p_flags & PF_W) ? P_W : 0) | ((ph.p_flags & PF_X) ? P_X : 0);
                segs.push_back({ (u64)ph.p_vaddr, (u64)ph.p_filesz, (u64)ph.p_memsz, (u64)ph.p_offset, p });
                if(p & P_X) { codeLo = std::min<u64>(codeLo, ph.p_vaddr); codeHi = std::max<u64>(codeHi, ph.p_vaddr + ph.p_memsz); }
                brkEnd = std::max<u64>(brkEnd, ph.p_vaddr + ph.p_memsz);
            }
            symbols.clear();
            for(int i = 0; i < eh.e_shnum; ++i) {
                Sh sh; memcpy(&sh, image.data() + eh.e_shoff + i * eh.e_shentsize, sizeof sh);
                if(sh.sh_type != SHT_SYMTAB) continue;
                Sh str; memcpy(&str, image.data() + eh.e_shoff + sh.sh_link * eh.e_shentsize, sizeof str);
                for(u64 o = 0; o < sh.sh_size; o += sizeof(Sym)) {
                    Sym sy; memcpy(&sy, image.data() + sh.sh_offset + o, sizeof sy);
                    if(sy.st_name) symbols[(const char*)image.data() + str.sh_offset + sy.st_name] = sy.st_value;
                }
            }
        };
        if(image[4] == ELFCLASS64) doit(Elf64_Ehdr{}, Elf64_Phdr{}, Elf64_Shdr{}, Elf64_Sym{});
        else doit(Elf32_Ehdr{}, Elf32_Phdr{}, Elf32_Shdr{}, Elf32_Sym{});
        code.init(codeLo, codeHi, path);
    }
    void setPerm(u64 lo, u64 hi, u8 p) {
        for(u64 a = lo & ~(PAGE - 1); a < hi; a += PAGE) perm[a / PAGE] |= p;
    }
    void clearPerm(u64 lo, u64 hi) {
        for(u64 a = lo & ~(PAGE - 1); a < hi; a += PAGE) perm[a / PAGE] = 0;
    }

    // ---------------------------------------------------------------- memory
    [[noreturn]] void fault(const char* kind, u64 addr, H& h) {
        char buf[160];
        snprintf(buf, sizeof buf, "%s at address 0x%" PRIx64 " (thread %d, pc 0x%" PRIx64 ")", kind, addr, h.tid, (u64)h.cpu.pc);
        throw Trap{ buf };
    }
    inline bool ok(u64 a, u32 n, u8 p) const {
        if(__builtin_expect(a >= MEM_SIZE - 16, 0)) return false;
        return (perm[a / PAGE] & p) == p && (perm[(a + n - 1) / PAGE] & p) == p;
    }
    void drainEntry(H& h, size_t i) {
        StoreEntry e = h.sb[i];
        h.sb.erase(h.sb.begin() + (long)i);
        commit(h, e.addr, e.size, e.val);
    }
    void drainAll(H& h) {
        for(auto& e : h.sb) commit(h, e.addr, e.size, e.val);
        h.sb.clear();
    }
    void drainOverlap(H& h, u64 a, u32 n) {
        for(size_t i = 0; i < h.sb.size();) {
            if(h.sb[i].addr < a + n && a < h.sb[i].addr + h.sb[i].size) drainEntry(h, i);
            else ++i;
        }
    }
    void drainDue() {
        u64 nxt = ~0ull;
        for(auto& h : harts) {
            for(size_t i = 0; i < h.sb.size();) {
                if(h.sb[i].release <= now) drainEntry(h, i);
                else { nxt = std::min(nxt, h.sb[i].release); ++i; }
            }
        }
        nextDrain = nxt;
    }
    inline void commit(H& h, u64 a, u32 n, u64 v) {
        if(__builtin_expect(ldWeak && aliveThreads > 1, 0)) {
            Recent& e = recent[nRecent % RECENT];
            e.addr = a; e.size = (u8)n; e.time = now; e.hart = (u8)(&h - harts.data()); e.seen = (u8)(1u << e.hart);
            e.old = 0;
            memcpy(&e.old, mem + a, n);
            ++nRecent;
            recentAt[(a >> 3) % FILT] = nRecent;
            recentAt[((a + n - 1) >> 3) % FILT] = nRecent;
        }
        memcpy(mem + a, &v, n);
        if(aliveThreads > 1)
            for(auto& o : harts)
                if(&o != &h && o.resAddr != ~0ull && o.resAddr < a + n && a < o.resAddr + o.resSize) o.resAddr = ~0ull;
    }
    inline u64 load(H& h, u64 a, u32 n) {
        if(__builtin_expect(!ok(a, n, P_R), 0)) fault("invalid read", a, h);
        if(__builtin_expect(!h.sb.empty(), 0)) {
            for(size_t i = h.sb.size(); i-- > 0;) {
                auto& e = h.sb[i];
                if(e.addr < a + n && a < e.addr + e.size) {
                    if(e.addr <= a && a + n <= e.addr + e.size) {
                        u64 v = e.val >> (8 * (a - e.addr));
                        return n == 8 ? v : v & ((1ull << (8 * n)) - 1);
                    }
                    drainOverlap(h, a, n);
                    break;
                }
            }
        }
        u64 v = 0;
        memcpy(&v, mem + a, n);
        return v;
    }
    // A plain load. Nothing orders it after earlier loads of the hart except fences, acquires, address dependencies and having
    // seen a newer value of the same place: a machine may have satisfied it before another hart's latest store to the place,
    // if it could have been in flight then (Isa::early: the instructions since are few, and its address needs none of their loads).
    inline u64 loadPlain(H& h, u64 a, u32 n) {
        u64 v = load(h, a, n);
        if(__builtin_expect(ldWeak && aliveThreads > 1, 0)) {
            u64 f = std::max(recentAt[(a >> 3) % FILT], recentAt[((a + n - 1) >> 3) % FILT]);
            if(f && f + RECENT > nRecent) v = loadOld(h, a, n, v);
        }
        return v;
    }
    // an atomic operation has read the latest value
    void sawAll(H& h, u64 a, u32 n) {
        if(!ldWeak) return;
        for(u64 k = nRecent > RECENT ? nRecent - RECENT : 0; k < nRecent; ++k) {
            Recent& o = recent[k % RECENT];
            if(o.addr < a + n && a < o.addr + o.size) o.seen |= (u8)(1u << (&h - harts.data()));
        }
    }
    u64 loadOld(H& h, u64 a, u32 n, u64 v) {
        u8 me = (u8)(1u << (&h - harts.data()));
        for(auto& e : h.sb) if(e.addr < a + n && a < e.addr + e.size) return v;
        u64 lo = nRecent > RECENT ? nRecent - RECENT : 0;
        for(u64 i = nRecent; i-- > lo;) {
            Recent& e = recent[i % RECENT];
            if(e.time <= h.floor) return v;
            if(e.addr >= a + n || a >= e.addr + e.size) continue;
            bool may = !(e.seen & me) && e.addr <= a && a + n <= e.addr + e.size && Isa::early(*this, h, e.time);
            if(may) {
                u64 key = ((u64)(&h - harts.data()) << 48) | h.oldLoads++;
                bool take = replay ? plan[EV_LDOLD].count(key) : rng.chance(cfg.pLdOld * disturb());
                if(take) {
                    if(replay) ++res.evCount[EV_LDOLD]; else record(EV_LDOLD, key, 0);
                    u64 w = e.old >> (8 * (a - e.addr));
                    return n == 8 ? w : w & ((1ull << (8 * n)) - 1);
                }
            }
            // seen: this one and every earlier store to the place
            for(u64 k = lo; k <= i; ++k) {
                Recent& o = recent[k % RECENT];
                if(o.addr < a + n && a < o.addr + o.size) o.seen |= me;
            }
            return v;
        }
        return v;
    }
    inline void store(H& h, u64 a, u32 n, u64 v) {
        if(__builtin_expect(!ok(a, n, P_W), 0)) fault("invalid write", a, h);
        if(__builtin_expect(weak && aliveThreads > 1, 0)) {
            u64 ord = h.stores++;
            u64 key = ((u64)(&h - harts.data()) << 48) | ord;
            u64 delay = 0;
            if(replay) {
                auto it = plan[EV_STDELAY].find(key);
                if(it != plan[EV_STDELAY].end()) delay = (u64)it->second.a, ++res.evCount[EV_STDELAY];
            } else if(rng.chance(cfg.pStDelay * disturb())) {
                delay = rng.logu(cfg.stDelayBits);
                record(EV_STDELAY, key, (i64)delay);
            }
            u64 rel = now + delay;
            bool overlap = false;
            for(auto& e : h.sb)
                if(e.addr < a + n && a < e.addr + e.size) { rel = std::max(rel, e.release); overlap = true; }
            if((delay || overlap) && h.sb.size() < 48) {
                h.sb.push_back({ a, v, rel, ord, (u8)n });
                nextDrain = std::min(nextDrain, rel);
                return;
            }
            if(overlap) drainOverlap(h, a, n);
        }
        commit(h, a, n, v);
    }
    void fenceW(H& h) { if(!h.sb.empty()) drainAll(h); }
    bool scSpurious() {
        u64 k = nSc++;
        if(replay) {
            if(plan[EV_SCFAIL].count(k)) { ++res.evCount[EV_SCFAIL]; return true; }
            return false;
        }
        if(rng.chance(cfg.pScFail * disturb())) { record(EV_SCFAIL, k, 0); return true; }
        return false;
    }
    std::string readStr(H& h, u64 a) {
        std::string s;
        for(;;) {
            char c = (char)load(h, a++, 1);
            if(!c || s.size() > 4096) break;
            s += c;
        }
        return s;
    }

    // ---------------------------------------------------------------- events
    void record(EvKind k, u64 key, i64 a, i64 b = 0) {
        ++res.evCount[k];
        trace.push_back({ (u32)k, key, a, b });
    }
    const Event* planned(EvKind k, u64 key) {
        auto it = plan[k].find(key);
        if(it == plan[k].end()) return nullptr;
        ++res.evCount[k];
        return &it->second;
    }
    void syncNote(H& h, u64 kind, u64 v) { res.syncHash = hashMix(res.syncHash, ((u64)(&h - harts.data()) << 56) ^ (kind << 48) ^ v); }

    // ---------------------------------------------------------------- scheduling
    // Delays and spurious events stop half-way to the step limit: from there on the program must finish on its own.
    double disturb() const { return now < cfg.maxSteps / 2; }
    // a failure that lasts: this call and all later ones of its kind
    bool forGood(double p) { return p >= 1 || rng.chance(0.2); }
    // After an atomic operation or fence: true when the hart is to be stalled there.
    bool syncPoint() {
        if(replay || cfg.pSync == 0 || aliveThreads < 2 || syncStalls >= 300 || !rng.chance(cfg.pSync * disturb())) return false;
        ++syncStalls;
        return syncStall = true;
    }
    bool runnable(H& h) const { return h.state == H::Runnable && h.readyAt <= now; }
    void choose(bool forced) {
        // forced: current hart cannot continue
        int cand[MAXH], n = 0;
        for(;;) {
            n = 0;
            for(int i = 0; i < MAXH; ++i)
                if(runnable(harts[(size_t)i])) cand[n++] = i;
            if(n) break;
            // advance simulated time to the next timed event
            u64 nxt = ~0ull;
            for(auto& h : harts) {
                if(h.state == H::Runnable) nxt = std::min(nxt, h.readyAt);
                if(h.state == H::FutexWait) nxt = std::min(nxt, h.spurAt);
            }
            if(nxt == ~0ull) {
                std::string w;
                for(auto& h : harts)
                    if(h.state == H::FutexWait) w += " thread" + std::to_string(h.tid) + "@futex";
                    else if(h.state == H::WaitPid) w += " thread" + std::to_string(h.tid) + "@waitpid";
                drainForce();
                finish(Outcome::Deadlock, "no thread can run:" + w);
                return;
            }
            now = std::max(now, nxt);
            timedWakeups();
            if(nextDrain <= now) drainDue();
            forced = true;
        }
        res.maxRunnable = std::max<u64>(res.maxRunnable, (u64)n);
        int pick = cand[0];
        bool curOk = false;
        for(int i = 0; i < n; ++i) curOk |= cand[i] == cur;
        if(replay) {
            pick = cur;
            if(switchIdx < planSwitch.size() && planSwitch[switchIdx].key <= now) {
                while(switchIdx < planSwitch.size() && planSwitch[switchIdx].key <= now) {
                    pick = (int)planSwitch[switchIdx].a;
                    ++switchIdx;
                }
                ++res.evCount[EV_SWITCH];
            }
            bool okp = false;
            for(int i = 0; i < n; ++i) okp |= cand[i] == pick;
            if(!okp) {
                pick = cand[0];
                for(int i = 0; i < n; ++i)
                    if(cand[i] > cur) { pick = cand[i]; break; }
            }
            quantumEnd = switchIdx < planSwitch.size() ? planSwitch[switchIdx].key : ~0ull;
        } else {
            u64 q = ~0ull;
            switch(cfg.policy) {
                case 0:
                    pick = curOk ? cur : cand[0];
                    if(!curOk)
                        for(int i = 0; i < n; ++i)
                            if(cand[i] > cur) { pick = cand[i]; break; }
                    break;
                case 1: pick = cand[rng.below((u64)n)]; q = rng.logu(cfg.quantumBits); break;
                case 2: {
                    for(int i = 0; i < n; ++i)
                        if(harts[(size_t)cand[i]].prio > harts[(size_t)pick].prio) pick = cand[i];
                    while(!pctPoints.empty() && pctPoints.back() <= now) {
                        pctPoints.pop_back();
                        harts[(size_t)pick].prio = -(i64)(100 + pctPoints.size() * 0) - (i64)rng.below(1000);
                        pick = cand[0];
                        for(int i = 0; i < n; ++i)
                            if(harts[(size_t)cand[i]].prio > harts[(size_t)pick].prio) pick = cand[i];
                    }
                    q = pctPoints.empty() ? ~0ull : pctPoints.back() - now;
                    // fairness: a busy loop on the highest priority cannot run forever
                    q = std::min<u64>(q, 20000);
                    if(n > 1 && rng.chance(0.02)) pick = cand[rng.below((u64)n)];
                    break;
                }
                case 3: {
                    if(now >= starveUntil) { starved = (int)rng.below(5); starveUntil = now + rng.logu(16); }
                    int m = 0, c2[MAXH];
                    for(int i = 0; i < n; ++i)
                        if(cand[i] != starved) c2[m++] = cand[i];
                    pick = m ? c2[rng.below((u64)m)] : cand[0];
                    q = rng.logu(cfg.quantumBits);
                    break;
                }
                case 4: pick = cand[rng.below((u64)n)]; q = 1 + rng.below(12); break;
                default:
                    pick = curOk && rng.chance(0.5) ? cur : cand[rng.below((u64)n)];
                    q = rng.chance(0.3) ? rng.logu(4) : rng.logu(cfg.quantumBits);
            }
            quantumEnd = q == ~0ull ? ~0ull : now + q;
            // what replay would pick by default
            int dflt = curOk ? cur : cand[0];
            if(!curOk)
                for(int i = 0; i < n; ++i)
                    if(cand[i] > cur) { dflt = cand[i]; break; }
            if(pick != dflt) record(EV_SWITCH, now, pick);
        }
        if(pick != cur) { ++res.switches; }
        cur = pick;
    }
    void timedWakeups() {
        for(auto& h : harts)
            if(h.state == H::FutexWait && h.spurAt <= now) {
                h.state = H::Runnable;
                h.readyAt = now;
                h.spurAt = ~0ull;
                Isa::setRet(h.cpu, h.spurRet);
                syncNote(h, 7, (u64)h.spurRet);
            }
    }
    u64 nextTimed() const {
        u64 n = ~0ull;
        for(auto& h : harts) {
            if(h.state == H::FutexWait) n = std::min(n, h.spurAt);
            if(h.state == H::Runnable && h.readyAt > now) n = std::min(n, h.readyAt);
        }
        return n;
    }
    void drainForce() { for(auto& h : harts) drainAll(h); nextDrain = ~0ull; }
    void maybeStall() {
        // called at scheduling points
        if(replay) {
            while(stallIdx < planStall.size() && planStall[stallIdx].key <= now) {
                auto& e = planStall[stallIdx++];
                auto& h = harts[(size_t)e.a];
                if(h.state == H::Runnable) { h.readyAt = std::max(h.readyAt, now + (u64)e.b); ++res.evCount[EV_STALL]; }
            }
        } else if(aliveThreads > 1 && rng.chance(cfg.pStall * disturb())) {
            int t = (int)rng.below(MAXH);
            if(harts[(size_t)t].state == H::Runnable) {
                u64 d = rng.logu(17);
                record(EV_STALL, now, t, (i64)d);
                harts[(size_t)t].readyAt = std::max(harts[(size_t)t].readyAt, now + d);
            }
        }
    }

    void finish(Outcome o, const std::string& detail, int ec = 0) {
        finished = true;
        res.outcome = o;
        res.detail = detail;
        res.exitCode = ec;
    }

    // ---------------------------------------------------------------- kernel
    void sysRet(H& h, i64 v) { Isa::setRet(h.cpu, v); }
    i64 clockNow() {
        u64 k = nClock++;
        ++res.clockReads;
        if(replay) {
            if(auto e = planned(EV_CLOCK, k)) clockOff += e->a;
        } else if(cfg.clockMode >= 2 && rng.chance(cfg.pClock)) {
            i64 d = (i64)rng.logu(cfg.clockMode == 3 ? 52 : 40);
            if(cfg.clockMode == 3 && rng.chance(0.5)) d = -d;
            record(EV_CLOCK, k, d);
            clockOff += d;
        }
        i64 base = 1000000000ll;
        i64 t = base + (cfg.clockMode == 1 ? 0 : (i64)now) + clockOff;
        if(t < 0) { clockOff -= t; t = 0; }
        if(t > (1ll << 60)) { clockOff -= t - (1ll << 60); t = 1ll << 60; }
        return t;
    }
    void syscall(H& h) {
        u64 nr = Isa::sysNr(h.cpu);
        h.floor = now;
        if(nr < 5000) drainAll(h);  // entering the kernel makes earlier stores visible; host calls do not
        auto A = [&](int i) { return Isa::arg(h.cpu, i); };
        if(nr >= 5000) {
            if(hostcall && hostcall(*this, h, (u32)nr)) return;
            throw Unsupported{ "unknown host call " + std::to_string(nr) };
        }
        int kind = Isa::sysKind(nr);
        syncNote(h, 1, nr);
        switch(kind) {
            case 98: futex(h, A(0), (u32)A(1), (u32)A(2), A(3)); break;
            case 220: clone(h, A(0), A(1)); break;
            case 222: sysMmap(h, A(0), A(1), A(3)); break;
            case 215: {  // munmap
                u64 a = A(0), n = (A(1) + PAGE - 1) & ~(PAGE - 1);
                if(a % PAGE || a + n > MEM_SIZE || a < 0x18000000) { sysRet(h, -22); break; }
                clearPerm(a, a + n);
                sysRet(h, 0);
                break;
            }
            case 101: h.readyAt = now + std::min<u64>(Isa::readTimespec(*this, h, A(0)), 1000000); sysRet(h, 0); quantumEnd = now; break;  // nanosleep
            case 134: case 135: case 226: sysRet(h, 0); break;  // signal set-up, mprotect: no effect here
            case 122: {
                u64 k = nAff++;
                i64 f = 0;
                if(affDead) f = affDead;
                else if(replay) {
                    if(auto e = planned(EV_AFFFAIL, k)) { f = e->a; if(e->b) affDead = f; }
                } else if(rng.chance(cfg.pAffFail)) {
                    static const i64 errs[] = { 22, 22, 1, 38 };
                    f = errs[rng.below(4)];
                    bool ever = forGood(cfg.pAffFail);
                    record(EV_AFFFAIL, k, f, ever);
                    if(ever) affDead = f;
                }
                sysRet(h, -f);
                break;
            }
            case 178: sysRet(h, h.tid); break;
            case 172: sysRet(h, 1000); break;
            case 124: sysRet(h, 0); quantumEnd = now; break;  // sched_yield
            case 260: waitPid(h, (i64)(i32)A(0)); break;
            case 113: {
                i64 t = clockNow();
                Isa::writeTimespec(*this, h, A(1), t);
                sysRet(h, 0);
                break;
            }
            case 64: {
                u64 p = A(1), n = A(2);
                for(u64 i = 0; i < n; ++i) res.output += (char)load(h, p + i, 1);
                sysRet(h, (i64)n);
                break;
            }
            case 93: exitThread(h); break;
            case 94: finish(Outcome::Exit, "", (int)(A(0) & 0xff)); break;
            default: throw Unsupported{ "unsupported system call " + std::to_string(nr) };
        }
    }
    void exitThread(H& h) {
        h.state = H::Exited;
        --aliveThreads;
        if(&h == &harts[0]) { finish(Outcome::Trap, "main thread exited without exit_group"); return; }
        for(auto& o : harts)
            if(o.state == H::WaitPid && (int)o.waitTid == h.tid) { o.state = H::Runnable; o.readyAt = now; sysRet(o, h.tid); }
    }
    void waitPid(H& h, i64 tid) {
        for(auto& o : harts)
            if(o.tid == tid && o.state != H::Free && &o != &h) {
                if((o.cloneFlags & 0x10000) || (o.cloneFlags & 0xff) != 17) break;  // CLONE_THREAD or no SIGCHLD
                if(o.state == H::Exited) { sysRet(h, tid); return; }
                h.state = H::WaitPid;
                h.waitTid = (u64)tid;
                return;
            }
        sysRet(h, -10);  // ECHILD
    }
    void sysMmap(H& h, u64, u64 len, u64) {
        u64 k = nMmap++;
        i64 f = mmapDead;
        if(!f && replay) {
            if(auto e = planned(EV_MMAPFAIL, k)) { f = e->a; if(e->b) mmapDead = f; }
        } else if(!f && rng.chance(cfg.pMmapFail)) {
            f = rng.chance(0.75) ? 12 : 11;
            bool ever = forGood(cfg.pMmapFail);
            record(EV_MMAPFAIL, k, f, ever);
            if(ever) mmapDead = f;
        }
        len = (len + PAGE - 1) & ~(PAGE - 1);
        if(f) { sysRet(h, -f); return; }
        if(!len || mmapPtr + len + 2 * PAGE > MEM_SIZE - (16u << 20)) { sysRet(h, -12); return; }
        mmapPtr += PAGE;  // guard page
        u64 a = mmapPtr;
        setPerm(a, a + len, P_R | P_W);
        mmapPtr += len;
        sysRet(h, (i64)a);
    }
    void clone(H& h, u64 flags, u64 stack) {
        u64 k = nClone++;
        i64 err = 0;
        if(cloneDead) err = cloneDead;
        else if(replay) {
            if(auto e = planned(EV_CLONEFAIL, k)) { err = e->a; if(e->b) cloneDead = err; }
        } else if(rng.chance(cfg.pCloneFail)) {
            err = rng.chance(0.5) ? 11 : 12;
            bool ever = forGood(cfg.pCloneFail);
            record(EV_CLONEFAIL, k, err, ever);
            if(ever) cloneDead = err;
        }
        if(err) { sysRet(h, -err); return; }
        if(flags & 0x1380000) throw Unsupported{ "clone flags" };  // SETTLS, PARENT_SETTID, CHILD_CLEARTID, CHILD_SETTID
        if(!(flags & 0x100)) throw Trap{ "clone without CLONE_VM (workers would not share memory)" };
        for(size_t i = 1; i < MAXH; ++i) {
            auto& c = harts[i];
            if(c.state != H::Free) continue;
            c.cpu = h.cpu;
            c.floor = now;
            c.state = H::Runnable;
            c.tid = 1000 + (int)i;
            c.cloneFlags = flags;
            c.readyAt = now;
            c.prio = replay ? 0 : (i64)rng.below(1000);
            u64 d = 0;
            if(replay) {
                if(auto e = planned(EV_STARTDELAY, k)) d = (u64)e->a;
            } else if(rng.chance(cfg.pStartDelay * disturb())) {
                d = rng.logu(18);
                record(EV_STARTDELAY, k, (i64)d);
            }
            c.readyAt += d;
            Isa::setSP(c.cpu, stack);
            Isa::setRet(c.cpu, 0);
            Isa::afterSyscall(c.cpu);
            ++aliveThreads;
            ++res.clones;
            sysRet(h, c.tid);
            return;
        }
        sysRet(h, -11);
    }
    void futex(H& h, u64 addr, u32 op, u32 val, u64 timeout) {
        op &= 0x7f;
        if(op == 9 && !timeout) op = 0;  // FUTEX_WAIT_BITSET, FUTEX_WAKE_BITSET
        if(op == 10) op = 1;
        if(op == 0) {
            u64 k = nFutexWait++;
            ++res.futexWaits;
            u32 v = (u32)load(h, addr, 4);
            if(v != val) { sysRet(h, -11); return; }
            ++res.futexBlocked;
            h.state = H::FutexWait;
            h.futexAddr = addr;
            h.spurAt = ~0ull;
            if(replay) {
                if(auto e = planned(EV_SPURIOUS, k)) { h.spurAt = now + (u64)e->a; h.spurRet = e->b; }
            } else {
                if(rng.chance(cfg.pSpurious * disturb())) { h.spurAt = now + rng.logu(12); h.spurRet = 0; record(EV_SPURIOUS, k, (i64)(h.spurAt - now), 0); }
                else if(rng.chance(cfg.pEintr * disturb())) { h.spurAt = now + rng.logu(12); h.spurRet = -4; record(EV_SPURIOUS, k, (i64)(h.spurAt - now), -4); }
            }
            if(timeout) {  // relative timeout in simulated nanoseconds (one step is one)
                u64 t = now + std::max<u64>(1, Isa::readTimespec(*this, h, timeout));
                if(t < h.spurAt) { h.spurAt = t; h.spurRet = -110; }
            }
            sysRet(h, 0);
        } else if(op == 1) {
            if(!ok(addr, 4, P_R)) { sysRet(h, -14); return; }
            u32 woken = 0;
            ++res.futexWakes;
            while(woken < val) {
                int w[MAXH], n = 0;
                for(int i = 0; i < MAXH; ++i)
                    if(harts[(size_t)i].state == H::FutexWait && harts[(size_t)i].futexAddr == addr) w[n++] = i;
                if(!n) break;
                u64 k = nFutexWake++;
                int sel = 0;
                u64 d = 0;
                if(replay) {
                    if(auto e = planned(EV_WAKEORDER, k)) sel = (int)(e->a % n);
                    if(auto e = planned(EV_WAKEDELAY, k)) d = (u64)e->a;
                } else {
                    if(n > 1 && cfg.policy) { sel = (int)rng.below((u64)n); record(EV_WAKEORDER, k, sel); }
                    if(rng.chance(cfg.pWakeDelay * disturb())) { d = rng.logu(16); record(EV_WAKEDELAY, k, (i64)d); }
                }
                auto& o = harts[(size_t)w[sel]];
                o.state = H::Runnable;
                o.spurAt = ~0ull;
                o.readyAt = now + d;
                Isa::setRet(o.cpu, 0);
                ++woken;
            }
            sysRet(h, woken);
        } else
            throw Unsupported{ "unsupported futex operation " + std::to_string(op) };
    }

    // ---------------------------------------------------------------- run
    void reset() {
        madvise(mem, MEM_SIZE, MADV_DONTNEED);
        std::fill(perm.begin(), perm.end(), 0);
        for(auto& s : segs) {
            setPerm(s.addr, s.addr + s.msz, s.p);
            memcpy(mem + s.addr, image.data() + s.off, s.fsz);
        }
        for(auto& h : harts) h = H{};
        now = 0; nextDrain = ~0ull; clockOff = 0; cur = 0;
        nFutexWait = nFutexWake = nClone = nMmap = nAff = nClock = nSc = 0;
        switchIdx = stallIdx = 0;
        mmapPtr = 0x1A000000;
        u64 sp = MEM_SIZE - PAGE;
        setPerm(sp - (8u << 20), sp, P_R | P_W);
        res = RunResult{};
        finished = false;
        inPos = 0;
        starved = -1; starveUntil = 0;
        syncStall = false; syncStalls = 0;
        cloneDead = mmapDead = affDead = 0;
        aliveThreads = 1;
        auto& m = harts[0];
        m.state = H::Runnable;
        m.tid = 1000;
        m.cpu = Cpu{};
        m.cpu.pc = entry;
        Isa::initCpu(m.cpu, entry);
        Isa::setSP(m.cpu, sp - 256);
        pctPoints.clear();
    }
    RunResult run(const SimConfig& c) {
        cfg = c;
        rng = Rng(c.seed * 0x2545F4914F6CDD1Dull + 0x1234567);
        reset();
        weak = replay ? !plan[EV_STDELAY].empty() : cfg.pStDelay > 0;
        ldWeak = Isa::earlyLoads && (replay ? !plan[EV_LDOLD].empty() : cfg.pLdOld > 0);
        nRecent = 0;
        if(ldWeak) recentAt.assign(FILT, 0);
        if(!replay) {
            trace.clear();
            if(cfg.policy == 2) {
                for(u32 i = 0; i < cfg.pctDepth; ++i) pctPoints.push_back(rng.below(1ull << cfg.pctHorizonBits));
                std::sort(pctPoints.rbegin(), pctPoints.rend());
            }
            harts[0].prio = (i64)rng.below(1000);
        }
        if(onStart) onStart(*this);
        try {
            choose(true);
            while(!finished) {
                if(now >= cfg.maxSteps) { finish(Outcome::StepLimit, "step limit " + std::to_string(cfg.maxSteps) + " reached"); break; }
                H& h = harts[(size_t)cur];
                u64 lim = std::min(cfg.maxSteps, quantumEnd);
                u64 nt = nextTimed();
                lim = std::min(lim, std::min(nextDrain, nt));
                if(replay && stallIdx < planStall.size()) lim = std::min(lim, std::max(now + 1, planStall[stallIdx].key));
                u64 budget = lim > now ? lim - now : 1;
                u64 before = now;
                Stop st = Isa::exec(*this, h, budget);
                h.insn += now - before;
                if(aliveThreads > 1) res.parallelSteps += now - before;
                if(st == Stop::Syscall) {
                    syscall(h);
                    Isa::afterSyscall(h.cpu);
                    ++now;
                    if(finished) break;
                }
                if(nextDrain <= now) drainDue();
                timedWakeups();
                if(syncStall) {
                    syncStall = false;
                    u64 d = rng.logu(rng.chance(0.2) ? 17 : 13);
                    record(EV_STALL, now, cur, (i64)d);
                    h.readyAt = std::max(h.readyAt, now + d);
                }
                bool blocked = !runnable(h);
                if(blocked || now >= quantumEnd || st == Stop::Syscall) {
                    maybeStall();
                    blocked = !runnable(h);
                    bool sw = blocked || now >= quantumEnd || (replay ? false : (cfg.policy != 0));
                    if(sw) choose(blocked);
                } else if(replay && stallIdx < planStall.size() && planStall[stallIdx].key <= now) {
                    maybeStall();
                    if(!runnable(h)) choose(true);
                }
            }
        } catch(const Trap& t) { finish(Outcome::Trap, t.what); }
        catch(const Unsupported& t) { finish(Outcome::Unsupported, t.what); }
        res.steps = now; res.limit = cfg.maxSteps;
        res.simNs = now + (clockOff > 0 ? (u64)clockOff : 0);
        u64 hh = hashMix(res.syncHash, (u64)res.outcome);
        hh = hashMix(hh, (u64)res.exitCode);
        hh = hashMix(hh, now);
        for(char ch : res.output) hh = hashMix(hh, (u8)ch);
        for(auto k : res.evCount) hh = hashMix(hh, k);
        for(auto& h : harts) hh = hashMix(hh, h.insn);
        res.hash = hh;
        res.traceLen = trace.size();
        return res;
    }
    void setPlan(const std::vector<Event>& evs) {
        replay = true;
        for(auto& p : plan) p.clear();
        planSwitch.clear();
        planStall.clear();
        for(auto& e : evs) {
            if(e.kind == EV_SWITCH) planSwitch.push_back(e);
            else if(e.kind == EV_STALL) planStall.push_back(e);
            else plan[e.kind][e.key] = e;
        }
        std::stable_sort(planSwitch.begin(), planSwitch.end(), [](auto& x, auto& y) { return x.key < y.key; });
        std::stable_sort(planStall.begin(), planStall.end(), [](auto& x, auto& y) { return x.key < y.key; });
    }
    void clearPlan() { replay = false; }
};
