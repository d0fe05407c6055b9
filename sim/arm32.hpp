// ARMv7 (A32 + T32, VFPv4) user-mode interpreter for Sim<>. Instructions are decoded once per program from the text
// that objdump prints for it, which covers both instruction sets alike; executing an instruction outside
// the implemented subset gives no verdict (Unsupported).
#pragma once
#include "core.hpp"
#include <cmath>

struct ArmCpu {
    u64 pc = 0;
    u32 r[16] = {};
    u32 s[64] = {};  // s0-s31 = d0-d15, then d16-d31
    bool n = false, z = false, c = false, v = false, fn = false, fz = false, fc = false, fv = false, thumb = false;
};
enum ArmOp : u8 {
    A_NONE, A_ILL, A_NOP,
    A_AND, A_EOR, A_SUB, A_RSB, A_ADD, A_ADC, A_SBC, A_RSC, A_TST, A_TEQ, A_CMP, A_CMN, A_ORR, A_ORN, A_MOV, A_BIC, A_MVN,
    A_MOVW, A_MOVT, A_MUL, A_MLA, A_MLS, A_UMULL, A_SMULL, A_UMLAL, A_SMLAL, A_SMMUL, A_SMMLA, A_SMMLS, A_SMULBB, A_SMLABB, A_SDIV, A_UDIV,
    A_CLZ, A_RBIT, A_REV, A_UBFX, A_SBFX, A_BFI, A_BFC, A_SXTB, A_SXTH, A_UXTB, A_UXTH, A_SSAT, A_USAT,
    A_LDR, A_STR, A_LDM, A_STM, A_LDREX, A_STREX, A_LDREXD, A_STREXD, A_CLREX, A_DMB, A_TBB, A_TBH,
    A_B, A_BL, A_BLX, A_BX, A_CBZ, A_CBNZ, A_SVC, A_UDF,
    A_VLD, A_VST, A_VLDM, A_VSTM, A_VMOVSR, A_VMOVRS, A_VMOVF, A_VMOVI, A_VMOVDR, A_VMOVRD, A_VMOVD,
    A_VADD, A_VSUB, A_VMUL, A_VNMUL, A_VDIV, A_VNEG, A_VABS, A_VSQRT, A_VMLA, A_VMLS, A_VNMLA, A_VNMLS, A_VFMA, A_VFMS, A_VFNMA, A_VFNMS, A_VCMP, A_VMRS,
    A_VCVTSF, A_VCVTUF, A_VCVTFS, A_VCVTFU,
};
struct ArmInsn {
    u8 op = A_NONE, cond = 14, len = 4;
    bool thumb = false, S = false, hasImm = false, regShift = false, sub = false, sign = false;
    u8 rd = 0, rn = 0, rm = 0, ra = 0, sh = 0, size = 4;  // sh: 0 none 1 lsl 2 lsr 3 asr 4 ror 5 rrx
    u8 mode = 0;                                          // addressing: 0 offset, 1 pre-indexed, 2 post-indexed
    u32 imm = 0, amt = 0;
    u32 list = 0;
};

struct Arm32 {
    using Cpu = ArmCpu;
    struct Code {
        u64 lo = 0, hi = 0;
        std::vector<ArmInsn> v;
        void reset() { v.clear(); }
        void init(u64 l, u64 h, const std::string& path) {
            lo = l; hi = h;
            v.assign((h - l) / 2 + 2, {});
            FILE* f = popen(("LC_ALL=C exec arm-linux-gnueabihf-objdump -d " + path + " 2>/dev/null").c_str(), "r");
            if(!f) throw std::runtime_error("objdump");
            char line[512];
            while(fgets(line, sizeof line, f)) {
                char* tab = strchr(line, '\t');
                if(!tab || line[0] != ' ') continue;
                char* end;
                u64 a = strtoull(line, &end, 16);
                if(*end != ':' || a < lo || a >= hi) continue;
                std::string t = tab + 1;
                while(!t.empty() && (t.back() == '\n' || t.back() == ' ')) t.pop_back();
                size_t p = t.find('\t');
                if(p == std::string::npos) continue;
                std::string raw = t.substr(0, p), ins = t.substr(p + 1);
                while(!raw.empty() && raw.back() == ' ') raw.pop_back();
                ArmInsn I;
                I.thumb = raw.size() == 4 || raw.size() == 9;
                I.len = raw.size() == 4 ? 2 : 4;
                if(!parse(ins, a, I)) I.op = A_ILL;
                if(ins[0] != '.') v[(a - lo) >> 1] = I;
            }
            pclose(f);
        }
    };
    static constexpr bool earlyLoads = false;
    template <class S> static bool early(S&, typename S::H&, u64) { return false; }
    static void initCpu(Cpu& c, u64 e) { c.thumb = e & 1; c.pc = e & ~1ull; }
    static void setSP(Cpu& c, u64 v) { c.r[13] = (u32)v & ~7u; }
    static void setRet(Cpu& c, i64 v) { c.r[0] = (u32)v; }
    static u64 arg(Cpu& c, int i) { return c.r[i]; }
    static u64 sysNr(Cpu& c) { return c.r[7]; }
    static int sysKind(u64 nr) {
        switch(nr) {
            case 240: case 422: return 98;
            case 120: return 220;
            case 192: return 222;
            case 91: return 215;
            case 162: return 101;
            case 174: return 134;
            case 175: return 135;
            case 125: return 226;
            case 241: return 122;
            case 224: return 178;
            case 20: return 172;
            case 158: return 124;
            case 114: return 260;
            case 263: case 403: return 113;
            case 4: return 64;
            case 1: return 93;
            case 248: return 94;
            default: return 1000000 + (int)nr;
        }
    }
    static void afterSyscall(Cpu&) {}
    template <class S> static void writeTimespec(S& s, typename S::H& h, u64 p, i64 ns) {
        u32 n = h.cpu.r[7] == 403 ? 8 : 4;
        s.store(h, p, n, (u64)(ns / 1000000000)); s.store(h, p + n, n, (u64)(ns % 1000000000));
        s.drainAll(h);
    }
    template <class S> static u64 readTimespec(S& s, typename S::H& h, u64 p) {
        u32 n = h.cpu.r[7] == 422 ? 8 : 4;
        return s.load(h, p, n) * 1000000000ull + s.load(h, p + n, n);
    }

    // ---------------------------------------------------------------- decoding
    static int reg(const std::string& s) {
        static const std::map<std::string, int> m = [] {
            std::map<std::string, int> x{ { "sl", 10 }, { "fp", 11 }, { "ip", 12 }, { "sp", 13 }, { "lr", 14 }, { "pc", 15 }, { "sb", 9 } };
            for(int i = 0; i < 16; ++i) x["r" + std::to_string(i)] = i;
            return x;
        }();
        auto it = m.find(s);
        return it == m.end() ? -1 : it->second;
    }
    // s-register index of a VFP register, with its size in words in n
    static int vreg(const std::string& s, u32& n) {
        if(s.size() < 2 || s.size() > 3 || !isdigit((u8)s[1]) || (s.size() == 3 && !isdigit((u8)s[2]))) return -1;
        int k = atoi(s.c_str() + 1);
        if(s[0] == 's' && k < 32) { n = 1; return k; }
        if(s[0] == 'd' && k < 32) { n = 2; return 2 * k; }
        return -1;
    }
    static std::vector<std::string> split(const std::string& s) {
        std::vector<std::string> v;
        std::string cur;
        int depth = 0;
        for(char ch : s) {
            if(ch == '[' || ch == '{') ++depth;
            if(ch == ']' || ch == '}') --depth;
            if(ch == ',' && !depth) { v.push_back(cur); cur.clear(); continue; }
            if(ch == ' ' && cur.empty()) continue;
            cur += ch;
        }
        while(!cur.empty() && (cur.back() == ' ' || cur.back() == '\t')) cur.pop_back();
        if(!cur.empty()) v.push_back(cur);
        return v;
    }
    static bool immOf(const std::string& s, u32& v) {
        if(s.size() < 2 || s[0] != '#') return false;
        v = (u32)strtoll(s.c_str() + 1, nullptr, 0);
        return s.find('.') == std::string::npos;
    }
    static bool shiftOf(const std::string& s, ArmInsn& I) {
        if(s == "rrx") { I.sh = 5; return true; }
        static const char* n[] = { "", "lsl ", "lsr ", "asr ", "ror " };
        for(int k = 1; k < 5; ++k)
            if(s.rfind(n[k], 0) == 0) {
                std::string a = s.substr(4);
                I.sh = (u8)k;
                if(immOf(a, I.amt)) return true;
                int r = reg(a);
                if(r < 0) return false;
                I.regShift = true;
                I.amt = (u32)r;
                return true;
            }
        return false;
    }
    // the flexible second operand starting at o[i]
    static bool op2(const std::vector<std::string>& o, size_t i, ArmInsn& I) {
        if(i >= o.size()) return false;
        if(immOf(o[i], I.imm)) { I.hasImm = true; return i + 1 == o.size(); }
        int r = reg(o[i]);
        if(r < 0) return false;
        I.rm = (u8)r;
        if(i + 1 == o.size()) return true;
        return i + 2 == o.size() && shiftOf(o[i + 1], I);
    }
    static bool mem(const std::vector<std::string>& o, size_t i, ArmInsn& I) {
        if(i >= o.size() || o[i].empty() || o[i][0] != '[') return false;
        size_t e = o[i].find(']');
        if(e == std::string::npos) return false;
        auto in = split(o[i].substr(1, e - 1));
        if(in.empty() || reg(in[0]) < 0) return false;
        I.rn = (u8)reg(in[0]);
        std::vector<std::string> off(in.begin() + 1, in.end());
        if(o[i].substr(e + 1) == "!") I.mode = 1;
        else if(e + 1 != o[i].size()) return false;
        if(i + 1 < o.size()) {
            if(!off.empty() || I.mode) return false;
            I.mode = 2;
            off.assign(o.begin() + (long)i + 1, o.end());
        }
        if(off.empty()) { I.hasImm = true; I.imm = 0; return true; }
        if(off[0][0] == '#') {
            if(off.size() > 1 || !immOf(off[0], I.imm)) return false;
            I.hasImm = true;
            return true;
        }
        std::string r = off[0];
        if(r[0] == '-') { I.sub = true; r.erase(0, 1); }
        if(reg(r) < 0) return false;
        I.rm = (u8)reg(r);
        if(off.size() == 2) return shiftOf(off[1], I) && !I.regShift;
        return off.size() == 1;
    }
    static bool regList(const std::string& s, u32& list) {
        if(s.size() < 2 || s[0] != '{') return false;
        list = 0;
        for(auto& x : split(s.substr(1, s.size() - 2))) {
            size_t d = x.find('-');
            int a = reg(x.substr(0, d)), b = d == std::string::npos ? a : reg(x.substr(d + 1));
            if(a < 0 || b < a) return false;
            for(int k = a; k <= b; ++k) list |= 1u << k;
        }
        return true;
    }
    static bool vregList(const std::string& s, ArmInsn& I) {  // rd: first word, size: number of words, ra: 2 for d registers
        if(s.size() < 2 || s[0] != '{') return false;
        u32 words = 0, n = 0;
        int next = -1;
        for(auto& x : split(s.substr(1, s.size() - 2))) {
            size_t d = x.find('-');
            int a = vreg(x.substr(0, d), n), b = d == std::string::npos ? a : vreg(x.substr(d + 1), n);
            if(a < 0 || b < a || (next >= 0 && a != next)) return false;
            if(next < 0) I.rd = (u8)a;
            words += (u32)(b - a) + n;
            next = b + (int)n;
        }
        I.size = (u8)words; I.ra = (u8)n;
        return words > 0;
    }
    static bool parse(std::string t, u64 pc, ArmInsn& I) {
        std::string comment;
        if(size_t p = t.find('@'); p != std::string::npos) { comment = t.substr(p + 1); t.resize(p); }
        if(size_t p = t.find(" ;"); p != std::string::npos) t.resize(p);
        while(!t.empty() && (t.back() == ' ' || t.back() == '\t')) t.pop_back();
        std::string m = t, rest;
        if(size_t p = t.find_first_of("\t "); p != std::string::npos) { m = t.substr(0, p); rest = t.substr(p + 1); }
        std::string dt;
        if(size_t p = m.find('.'); p != std::string::npos) { dt = m.substr(p + 1); m.resize(p); }
        if(dt == "n" || dt == "w") dt.clear();
        enum Form { F3, F2, FCMP, FNOP, F16, FMUL3, FMUL4, FLONG, FUN, FBF, FBFC, FEXT, FSAT, FLD, FLDM, FPUSH, FEX, FB, FBX, FCB, FIT, FV, FTB, FDIV };
        struct Def { const char* n; u8 op; u8 form; bool s; u8 size; bool sign; };
        static const std::vector<Def> defs = [] {
            std::vector<Def> d{
                { "and", A_AND, F3, true, 0, false }, { "eor", A_EOR, F3, true, 0, false }, { "sub", A_SUB, F3, true, 0, false }, { "subw", A_SUB, F3, false, 0, false },
                { "rsb", A_RSB, F3, true, 0, false }, { "add", A_ADD, F3, true, 0, false }, { "addw", A_ADD, F3, false, 0, false }, { "adc", A_ADC, F3, true, 0, false },
                { "sbc", A_SBC, F3, true, 0, false }, { "rsc", A_RSC, F3, true, 0, false }, { "orr", A_ORR, F3, true, 0, false }, { "orn", A_ORN, F3, true, 0, false },
                { "bic", A_BIC, F3, true, 0, false }, { "neg", A_RSB, FUN, true, 0, false },
                { "lsl", A_MOV, F3, true, 1, false }, { "lsr", A_MOV, F3, true, 2, false }, { "asr", A_MOV, F3, true, 3, false }, { "ror", A_MOV, F3, true, 4, false }, { "rrx", A_MOV, F2, true, 5, false },
                { "tst", A_TST, FCMP, false, 0, false }, { "teq", A_TEQ, FCMP, false, 0, false }, { "cmp", A_CMP, FCMP, false, 0, false }, { "cmn", A_CMN, FCMP, false, 0, false },
                { "mov", A_MOV, F2, true, 0, false }, { "mvn", A_MVN, F2, true, 0, false }, { "movw", A_MOVW, F16, false, 0, false }, { "movt", A_MOVT, F16, false, 0, false },
                { "mul", A_MUL, FMUL3, true, 0, false }, { "smmul", A_SMMUL, FMUL3, false, 0, false }, { "smmulr", A_ILL, FNOP, false, 0, false }, { "sdiv", A_SDIV, FMUL3, false, 0, false }, { "udiv", A_UDIV, FMUL3, false, 0, false },
                { "smulbb", A_SMULBB, FMUL3, false, 0, false }, { "smlabb", A_SMLABB, FMUL4, false, 0, false },
                { "mla", A_MLA, FMUL4, true, 0, false }, { "mls", A_MLS, FMUL4, false, 0, false }, { "smmla", A_SMMLA, FMUL4, false, 0, false }, { "smmls", A_SMMLS, FMUL4, false, 0, false },
                { "umull", A_UMULL, FLONG, true, 0, false }, { "smull", A_SMULL, FLONG, true, 0, false }, { "umlal", A_UMLAL, FLONG, true, 0, false }, { "smlal", A_SMLAL, FLONG, true, 0, false },
                { "clz", A_CLZ, FUN, false, 0, false }, { "rbit", A_RBIT, FUN, false, 0, false }, { "rev", A_REV, FUN, false, 0, false },
                { "ubfx", A_UBFX, FBF, false, 0, false }, { "sbfx", A_SBFX, FBF, false, 0, false }, { "bfi", A_BFI, FBF, false, 0, false }, { "bfc", A_BFC, FBFC, false, 0, false },
                { "sxtb", A_SXTB, FEXT, false, 0, false }, { "sxth", A_SXTH, FEXT, false, 0, false }, { "uxtb", A_UXTB, FEXT, false, 0, false }, { "uxth", A_UXTH, FEXT, false, 0, false },
                { "ssat", A_SSAT, FSAT, false, 0, false }, { "usat", A_USAT, FSAT, false, 0, false },
                { "ldr", A_LDR, FLD, false, 4, false }, { "ldrb", A_LDR, FLD, false, 1, false }, { "ldrh", A_LDR, FLD, false, 2, false }, { "ldrsb", A_LDR, FLD, false, 1, true }, { "ldrsh", A_LDR, FLD, false, 2, true }, { "ldrd", A_LDR, FLD, false, 8, false },
                { "str", A_STR, FLD, false, 4, false }, { "strb", A_STR, FLD, false, 1, false }, { "strh", A_STR, FLD, false, 2, false }, { "strd", A_STR, FLD, false, 8, false },
                { "ldm", A_LDM, FLDM, false, 0, false }, { "ldmia", A_LDM, FLDM, false, 0, false }, { "ldmfd", A_LDM, FLDM, false, 0, false }, { "ldmdb", A_LDM, FLDM, false, 1, false }, { "ldmib", A_LDM, FLDM, false, 2, false },
                { "stm", A_STM, FLDM, false, 0, false }, { "stmia", A_STM, FLDM, false, 0, false }, { "stmdb", A_STM, FLDM, false, 1, false }, { "stmfd", A_STM, FLDM, false, 1, false }, { "stmib", A_STM, FLDM, false, 2, false },
                { "push", A_STM, FPUSH, false, 0, false }, { "pop", A_LDM, FPUSH, false, 0, false },
                { "ldrex", A_LDREX, FEX, false, 4, false }, { "strex", A_STREX, FEX, false, 4, false }, { "ldrexb", A_LDREX, FEX, false, 1, false }, { "strexb", A_STREX, FEX, false, 1, false },
                { "ldrexh", A_LDREX, FEX, false, 2, false }, { "strexh", A_STREX, FEX, false, 2, false }, { "ldrexd", A_LDREXD, FEX, false, 8, false }, { "strexd", A_STREXD, FEX, false, 8, false },
                { "clrex", A_CLREX, FNOP, false, 0, false }, { "dmb", A_DMB, FNOP, false, 0, false }, { "dsb", A_DMB, FNOP, false, 0, false }, { "isb", A_NOP, FNOP, false, 0, false },
                { "nop", A_NOP, FNOP, false, 0, false }, { "pld", A_NOP, FNOP, false, 0, false }, { "pldw", A_NOP, FNOP, false, 0, false }, { "yield", A_NOP, FNOP, false, 0, false }, { "udf", A_UDF, FNOP, false, 0, false },
                { "tbb", A_TBB, FTB, false, 0, false }, { "tbh", A_TBH, FTB, false, 0, false },
                { "b", A_B, FB, false, 0, false }, { "bl", A_BL, FB, false, 0, false }, { "blx", A_BLX, FB, false, 0, false }, { "bx", A_BX, FBX, false, 0, false },
                { "cbz", A_CBZ, FCB, false, 0, false }, { "cbnz", A_CBNZ, FCB, false, 0, false }, { "svc", A_SVC, FNOP, false, 0, false },
            };
            for(auto n : { "vldr", "vstr", "vldmia", "vstmia", "vldmdb", "vstmdb", "vpush", "vpop", "vmov", "vadd", "vsub", "vmul", "vnmul", "vdiv", "vneg", "vabs", "vsqrt", "vmla", "vmls",
                           "vnmla", "vnmls", "vfma", "vfms", "vfnma", "vfnms", "vcmp", "vcmpe", "vmrs", "vcvt" })
                d.push_back({ n, A_NONE, FV, false, 0, false });
            std::stable_sort(d.begin(), d.end(), [](const Def& a, const Def& b) { return strlen(a.n) > strlen(b.n); });
            return d;
        }();
        static const char* conds[] = { "eq", "ne", "cs", "cc", "mi", "pl", "vs", "vc", "hi", "ls", "ge", "lt", "gt", "le", "al", "hs", "lo" };
        auto condOf = [&](const std::string& s) {
            for(int k = 0; k < 17; ++k)
                if(s == conds[k]) return k == 15 ? 2 : k == 16 ? 3 : k;
            return -1;
        };
        if(m[0] == 'i' && m[1] == 't' && m.find_first_not_of("ite") == std::string::npos) { I.op = A_NOP; return true; }
        const Def* D = nullptr;
        for(auto& d : defs) {
            size_t n = strlen(d.n);
            if(m.compare(0, n, d.n)) continue;
            std::string suf = m.substr(n);
            bool S = false;
            int cc = 14;
            if(suf.empty()) {}
            else if(condOf(suf) >= 0) cc = condOf(suf);
            else if(d.s && suf[0] == 's' && (suf.size() == 1 || condOf(suf.substr(1)) >= 0)) { S = true; if(suf.size() > 1) cc = condOf(suf.substr(1)); }
            else continue;
            D = &d; I.S = S; I.cond = (u8)cc;
            break;
        }
        if(!D) return false;
        auto o = split(rest);
        I.op = D->op;
        auto R = [&](size_t i, u8& dst) { if(i >= o.size()) return false; int r = reg(o[i]); if(r < 0) return false; dst = (u8)r; return true; };
        auto U = [&](size_t i, u32& dst) { return i < o.size() && immOf(o[i], dst); };
        switch(D->form) {
            case F3: {
                if(!R(0, I.rd)) return false;
                if(D->size) {  // shift written as an instruction
                    size_t k = o.size() == 3 ? 1 : 0;
                    if(o.size() < 2 || !R(k, I.rm)) return false;
                    return shiftOf(std::string(D->n) + " " + o[k + 1], I);
                }
                size_t k = 1;
                bool three = o.size() >= 3 && reg(o[1]) >= 0 && (reg(o[2]) >= 0 || o[2][0] == '#');
                if(three) { if(!R(1, I.rn)) return false; k = 2; } else I.rn = I.rd;
                // adr: address relative to the aligned pc
                I.mode = I.rn == 15 && three && o[2][0] == '#';
                return op2(o, k, I);
            }
            case F2:
                if(!R(0, I.rd)) return false;
                if(D->size == 5) { I.sh = 5; return o.size() == 2 && R(1, I.rm); }
                return op2(o, 1, I);
            case FCMP: return R(0, I.rn) && op2(o, 1, I);
            case FNOP: return true;
            case F16: return R(0, I.rd) && U(1, I.imm);
            case FMUL3:
                if(o.size() == 2) return R(0, I.rd) && R(0, I.rn) && R(1, I.rm);
                return R(0, I.rd) && R(1, I.rn) && R(2, I.rm);
            case FMUL4: return R(0, I.rd) && R(1, I.rn) && R(2, I.rm) && R(3, I.ra);
            case FLONG: return R(0, I.rd) && R(1, I.ra) && R(2, I.rn) && R(3, I.rm);
            case FUN:
                if(I.op == A_RSB) { I.hasImm = true; return R(0, I.rd) && R(1, I.rn); }
                return R(0, I.rd) && R(1, I.rm);
            case FBF: return R(0, I.rd) && R(1, I.rn) && U(2, I.amt) && U(3, I.imm);
            case FBFC: return R(0, I.rd) && U(1, I.amt) && U(2, I.imm);
            case FEXT:
                if(!R(0, I.rd) || !R(1, I.rm)) return false;
                return o.size() == 2 || (o.size() == 3 && shiftOf(o[2], I));
            case FSAT: return R(0, I.rd) && U(1, I.imm) && R(2, I.rm) && (o.size() == 3 || shiftOf(o[3], I));
            case FLD: {
                I.size = D->size; I.sign = D->sign;
                if(!R(0, I.rd)) return false;
                size_t k = 1;
                if(D->size == 8) { if(!R(1, I.ra)) return false; k = 2; }
                return mem(o, k, I);
            }
            case FLDM: {
                if(o.size() != 2) return false;
                std::string b = o[0];
                if(!b.empty() && b.back() == '!') { I.mode = 1; b.pop_back(); }
                int r = reg(b);
                if(r < 0) return false;
                I.rn = (u8)r; I.ra = D->size;
                return regList(o[1], I.list);
            }
            case FPUSH: I.rn = 13; I.mode = 1; I.ra = I.op == A_STM ? 1 : 0; return o.size() == 1 && regList(o[0], I.list);
            case FEX:
                I.size = D->size;
                if(I.op == A_LDREX) return R(0, I.rd) && mem(o, 1, I);
                if(I.op == A_LDREXD) return R(0, I.rd) && R(1, I.ra) && mem(o, 2, I);
                if(I.op == A_STREX) return R(0, I.rd) && R(1, I.rm) && mem(o, 2, I) && I.hasImm;
                return false;
            case FB: {
                if(o.size() != 1) return false;
                if(reg(o[0]) >= 0) { I.rm = (u8)reg(o[0]); I.hasImm = false; return I.op == A_BLX; }
                I.hasImm = true;
                I.imm = (u32)strtoul(o[0].c_str(), nullptr, 16);
                return true;
            }
            case FBX: return R(0, I.rm);
            case FCB: if(o.size() != 2) return false; I.imm = (u32)strtoul(o[1].c_str(), nullptr, 16); return R(0, I.rn);
            case FTB: return mem(o, 0, I) && !I.hasImm;
            case FV: return parseV(D->n, dt, o, comment, I);
        }
        (void)pc;
        return false;
    }
    static bool parseV(const std::string& n, const std::string& dt, const std::vector<std::string>& o, const std::string& comment, ArmInsn& I) {
        u32 k = 0;
        auto V = [&](size_t i, u8& dst, u32 want) { if(i >= o.size()) return false; u32 w = 0; int r = vreg(o[i], w); if(r < 0 || w != want) return false; dst = (u8)r; return true; };
        if(n == "vldr" || n == "vstr") {
            int r = o.empty() ? -1 : vreg(o[0], k);
            if(r < 0) return false;
            I.rd = (u8)r; I.size = (u8)k; I.op = n == "vldr" ? A_VLD : A_VST;
            return mem(o, 1, I) && I.hasImm && !I.mode;
        }
        if(n == "vpush" || n == "vpop") {
            I.rn = 13; I.mode = 1; I.sub = n == "vpush"; I.op = n == "vpush" ? A_VSTM : A_VLDM;
            return o.size() == 1 && vregList(o[0], I);
        }
        if(n.rfind("vldm", 0) == 0 || n.rfind("vstm", 0) == 0) {
            if(o.size() != 2) return false;
            std::string b = o[0];
            if(!b.empty() && b.back() == '!') { I.mode = 1; b.pop_back(); }
            int r = reg(b);
            if(r < 0) return false;
            I.rn = (u8)r; I.sub = n.substr(4) == "db"; I.op = n[1] == 'l' ? A_VLDM : A_VSTM;
            return vregList(o[1], I);
        }
        if(n == "vmrs") { I.op = A_VMRS; return o.size() == 2 && o[0] == "APSR_nzcv"; }
        if(n == "vmov") {
            if(dt == "f32" && o.size() == 2 && o[1][0] == '#') {
                size_t p = comment.find("0x");
                if(p == std::string::npos) return false;
                I.imm = (u32)strtoul(comment.c_str() + p, nullptr, 16);
                I.op = A_VMOVI;
                return V(0, I.rd, 1);
            }
            if(dt == "f32") { I.op = A_VMOVF; return o.size() == 2 && V(0, I.rd, 1) && V(1, I.rm, 1); }
            if(dt == "f64") { I.op = A_VMOVD; return o.size() == 2 && V(0, I.rd, 2) && V(1, I.rm, 2); }
            if(!dt.empty()) return false;
            if(o.size() == 2 && reg(o[0]) >= 0) { I.op = A_VMOVRS; I.rd = (u8)reg(o[0]); return V(1, I.rm, 1); }
            if(o.size() == 2 && reg(o[1]) >= 0) { I.op = A_VMOVSR; I.rm = (u8)reg(o[1]); return V(0, I.rd, 1); }
            if(o.size() == 3 && reg(o[0]) >= 0 && reg(o[1]) >= 0) { I.op = A_VMOVRD; I.rd = (u8)reg(o[0]); I.ra = (u8)reg(o[1]); return V(2, I.rm, 2); }
            if(o.size() == 3 && reg(o[1]) >= 0 && reg(o[2]) >= 0) { I.op = A_VMOVDR; I.rn = (u8)reg(o[1]); I.rm = (u8)reg(o[2]); return V(0, I.rd, 2); }
            return false;
        }
        if(n == "vcvt") {
            static const std::map<std::string, int> m{ { "s32.f32", A_VCVTSF }, { "u32.f32", A_VCVTUF }, { "f32.s32", A_VCVTFS }, { "f32.u32", A_VCVTFU } };
            auto it = m.find(dt);
            if(it == m.end() || o.size() != 2) return false;
            I.op = (u8)it->second;
            return V(0, I.rd, 1) && V(1, I.rm, 1);
        }
        if(dt != "f32") return false;
        if(n == "vcmp" || n == "vcmpe") {
            I.op = A_VCMP;
            if(o.size() != 2 || !V(0, I.rn, 1)) return false;
            if(o[1] == "#0.0") { I.hasImm = true; return true; }
            return V(1, I.rm, 1);
        }
        static const std::map<std::string, int> un{ { "vneg", A_VNEG }, { "vabs", A_VABS }, { "vsqrt", A_VSQRT } };
        if(auto it = un.find(n); it != un.end()) { I.op = (u8)it->second; return o.size() == 2 && V(0, I.rd, 1) && V(1, I.rm, 1); }
        static const std::map<std::string, int> bin{ { "vadd", A_VADD }, { "vsub", A_VSUB }, { "vmul", A_VMUL }, { "vnmul", A_VNMUL }, { "vdiv", A_VDIV }, { "vmla", A_VMLA }, { "vmls", A_VMLS }, { "vnmla", A_VNMLA },
                                                     { "vnmls", A_VNMLS }, { "vfma", A_VFMA }, { "vfms", A_VFMS }, { "vfnma", A_VFNMA }, { "vfnms", A_VFNMS } };
        if(auto it = bin.find(n); it != bin.end()) {
            I.op = (u8)it->second;
            if(o.size() == 2) return V(0, I.rd, 1) && V(0, I.rn, 1) && V(1, I.rm, 1);
            return o.size() == 3 && V(0, I.rd, 1) && V(1, I.rn, 1) && V(2, I.rm, 1);
        }
        return false;
    }

    // ---------------------------------------------------------------- execution
    static bool holds(const Cpu& c, int cc) {
        switch(cc) {
            case 0: return c.z;
            case 1: return !c.z;
            case 2: return c.c;
            case 3: return !c.c;
            case 4: return c.n;
            case 5: return !c.n;
            case 6: return c.v;
            case 7: return !c.v;
            case 8: return c.c && !c.z;
            case 9: return !c.c || c.z;
            case 10: return c.n == c.v;
            case 11: return c.n != c.v;
            case 12: return !c.z && c.n == c.v;
            case 13: return c.z || c.n != c.v;
            default: return true;
        }
    }
    static u32 shift(u32 v, int kind, u32 n, bool byReg, bool cin, bool& co) {
        co = cin;
        switch(kind) {
            case 1: if(!n) return v; if(n > 32) { co = false; return 0; } co = (v >> (32 - n)) & 1; return n == 32 ? 0 : v << n;
            case 2: if(!n && byReg) return v; if(!n) return v; if(n > 32) { co = false; return 0; } co = (v >> (n - 1)) & 1; return n == 32 ? 0 : v >> n;
            case 3: if(!n) return v; if(n >= 32) { co = v >> 31; return (u32)((i32)v >> 31); } co = (v >> (n - 1)) & 1; return (u32)((i32)v >> n);
            case 4: { if(!n) return v; u32 k = n & 31; u32 r = k ? (v >> k) | (v << (32 - k)) : v; co = r >> 31; return r; }
            case 5: co = v & 1; return (v >> 1) | ((u32)cin << 31);
            default: return v;
        }
    }
    static float F(const Cpu& c, int r) { float f; memcpy(&f, &c.s[r], 4); return f; }
    static void setF(Cpu& c, int r, float f) { memcpy(&c.s[r], &f, 4); }

    template <class S>
    static Stop exec(S& s, typename S::H& h, u64 budget) {
        Cpu& c = h.cpu;
        u32* r = c.r;
        u64 left = budget;
        while(left) {
            u64 pc = c.pc;
            if(__builtin_expect(pc < s.code.lo || pc >= s.code.hi || (pc & 1), 0)) s.fault("jump to non-code", pc, h);
            const ArmInsn& I = s.code.v[(pc - s.code.lo) >> 1];
            if(__builtin_expect(I.op == A_NONE || I.thumb != c.thumb, 0)) s.fault("jump to non-code", pc, h);
            u64 npc = pc + I.len;
            const u32 pcv = (u32)pc + (c.thumb ? 4 : 8);
            if(I.cond != 14 && !holds(c, I.cond)) {
                c.pc = npc; ++s.now; --left;
                if(__builtin_expect(s.nextDrain <= s.now, 0)) return Stop::Quantum;
                continue;
            }
            auto R = [&](int n) { return n == 15 ? pcv : r[n]; };
            auto jump = [&](u32 t) { c.thumb = t & 1; npc = t & ~1u; if(!c.thumb && (npc & 3)) s.fault("jump to misaligned address", npc, h); };
            auto wr = [&](int n, u32 v) { if(n == 15) jump(v); else r[n] = v; };
            bool co = c.c;
            auto operand2 = [&]() -> u32 {
                if(I.hasImm) { if(I.imm > 255 && I.S) co = I.imm >> 31; return I.imm; }
                u32 v = R(I.rm);
                if(!I.sh) return v;
                return shift(v, I.sh, I.regShift ? r[I.amt] & 255 : I.amt, I.regShift, c.c, co);
            };
            auto nz = [&](u32 v) { c.n = v >> 31; c.z = v == 0; };
            auto addc = [&](u32 a, u32 b, u32 cin, bool set) {
                u64 t = (u64)a + b + cin;
                u32 v = (u32)t;
                if(set) { nz(v); c.c = t >> 32; c.v = (~(a ^ b) & (a ^ v)) >> 31; }
                return v;
            };
            auto logic = [&](u32 v) { if(I.S) { nz(v); c.c = co; } wr(I.rd, v); };
            auto address = [&](u32& wb) -> u32 {
                u32 base = I.rn == 15 ? pcv & ~3u : r[I.rn];
                u32 off;
                if(I.hasImm) off = I.imm;
                else { bool x; off = shift(r[I.rm], I.sh, I.amt, false, c.c, x); if(I.sub) off = 0 - off; }
                wb = base + off;
                return I.mode == 2 ? base : wb;
            };
            switch(I.op) {
                case A_NOP: break;
                case A_AND: { u32 b = operand2(); logic(R(I.rn) & b); break; }
                case A_EOR: { u32 b = operand2(); logic(R(I.rn) ^ b); break; }
                case A_ORR: { u32 b = operand2(); logic(R(I.rn) | b); break; }
                case A_ORN: { u32 b = operand2(); logic(R(I.rn) | ~b); break; }
                case A_BIC: { u32 b = operand2(); logic(R(I.rn) & ~b); break; }
                case A_MOV: { u32 b = operand2(); logic(b); break; }
                case A_MVN: { u32 b = operand2(); logic(~b); break; }
                case A_TST: { u32 b = operand2(); nz(r[I.rn] & b); if(!I.hasImm) c.c = co; break; }
                case A_TEQ: { u32 b = operand2(); nz(r[I.rn] ^ b); if(!I.hasImm) c.c = co; break; }
                case A_SUB: { u32 b = operand2(), a = I.mode ? pcv & ~3u : R(I.rn); wr(I.rd, addc(a, ~b, 1, I.S)); break; }
                case A_RSB: { u32 b = operand2(); wr(I.rd, addc(~R(I.rn), b, 1, I.S)); break; }
                case A_ADD: { u32 b = operand2(), a = I.mode ? pcv & ~3u : R(I.rn); wr(I.rd, addc(a, b, 0, I.S)); break; }
                case A_ADC: { u32 b = operand2(); wr(I.rd, addc(R(I.rn), b, c.c, I.S)); break; }
                case A_SBC: { u32 b = operand2(); wr(I.rd, addc(R(I.rn), ~b, c.c, I.S)); break; }
                case A_RSC: { u32 b = operand2(); wr(I.rd, addc(~R(I.rn), b, c.c, I.S)); break; }
                case A_CMP: { u32 b = operand2(); addc(R(I.rn), ~b, 1, true); break; }
                case A_CMN: { u32 b = operand2(); addc(R(I.rn), b, 0, true); break; }
                case A_MOVW: r[I.rd] = I.imm; break;
                case A_MOVT: r[I.rd] = (r[I.rd] & 0xffff) | (I.imm << 16); break;
                case A_MUL: { u32 v = r[I.rn] * r[I.rm]; r[I.rd] = v; if(I.S) nz(v); break; }
                case A_MLA: { u32 v = r[I.rn] * r[I.rm] + r[I.ra]; r[I.rd] = v; if(I.S) nz(v); break; }
                case A_MLS: r[I.rd] = r[I.ra] - r[I.rn] * r[I.rm]; break;
                case A_UMULL: case A_SMULL: case A_UMLAL: case A_SMLAL: {
                    u64 v = I.op == A_UMULL || I.op == A_UMLAL ? (u64)r[I.rn] * r[I.rm] : (u64)((i64)(i32)r[I.rn] * (i32)r[I.rm]);
                    if(I.op == A_UMLAL || I.op == A_SMLAL) v += ((u64)r[I.ra] << 32) | r[I.rd];
                    r[I.rd] = (u32)v; r[I.ra] = (u32)(v >> 32);
                    if(I.S) { c.n = v >> 63; c.z = v == 0; }
                    break;
                }
                case A_SMMUL: r[I.rd] = (u32)(((i64)(i32)r[I.rn] * (i32)r[I.rm]) >> 32); break;
                case A_SMMLA: r[I.rd] = (u32)((((u64)r[I.ra] << 32) + (u64)((i64)(i32)r[I.rn] * (i32)r[I.rm])) >> 32); break;
                case A_SMMLS: r[I.rd] = (u32)((((u64)r[I.ra] << 32) - (u64)((i64)(i32)r[I.rn] * (i32)r[I.rm])) >> 32); break;
                case A_SMULBB: r[I.rd] = (u32)((i32)(i16)r[I.rn] * (i32)(i16)r[I.rm]); break;
                case A_SMLABB: r[I.rd] = (u32)((i32)(i16)r[I.rn] * (i32)(i16)r[I.rm]) + r[I.ra]; break;
                case A_SDIV: { i32 a = (i32)r[I.rn], b = (i32)r[I.rm]; r[I.rd] = b == 0 ? 0 : (a == INT32_MIN && b == -1) ? (u32)a : (u32)(a / b); break; }
                case A_UDIV: { u32 a = r[I.rn], b = r[I.rm]; r[I.rd] = b == 0 ? 0 : a / b; break; }
                case A_CLZ: r[I.rd] = r[I.rm] ? (u32)__builtin_clz(r[I.rm]) : 32; break;
                case A_RBIT: { u32 v = r[I.rm], q = 0; for(int k = 0; k < 32; ++k) q |= ((v >> k) & 1) << (31 - k); r[I.rd] = q; break; }
                case A_REV: r[I.rd] = __builtin_bswap32(r[I.rm]); break;
                case A_UBFX: r[I.rd] = (r[I.rn] >> I.amt) & (I.imm >= 32 ? ~0u : (1u << I.imm) - 1); break;
                case A_SBFX: r[I.rd] = (u32)((i32)(r[I.rn] << (32 - I.amt - I.imm)) >> (32 - I.imm)); break;
                case A_BFI: case A_BFC: {
                    u32 msk = (I.imm >= 32 ? ~0u : (1u << I.imm) - 1) << I.amt;
                    u32 v = I.op == A_BFI ? (r[I.rn] << I.amt) & msk : 0;
                    r[I.rd] = (r[I.rd] & ~msk) | v;
                    break;
                }
                case A_SXTB: case A_SXTH: case A_UXTB: case A_UXTH: {
                    bool x; u32 v = shift(r[I.rm], I.sh, I.amt, false, c.c, x);
                    r[I.rd] = I.op == A_SXTB ? (u32)(i32)(i8)v : I.op == A_SXTH ? (u32)(i32)(i16)v : I.op == A_UXTB ? (v & 0xff) : (v & 0xffff);
                    break;
                }
                case A_SSAT: case A_USAT: {
                    bool x; i64 v = (i32)shift(r[I.rm], I.sh, I.amt, false, c.c, x);
                    i64 lo = I.op == A_SSAT ? -(1ll << (I.imm - 1)) : 0, hi = I.op == A_SSAT ? (1ll << (I.imm - 1)) - 1 : (1ll << I.imm) - 1;
                    r[I.rd] = (u32)std::min(std::max(v, lo), hi);
                    break;
                }
                case A_LDR: {
                    u32 wb, a = address(wb);
                    if(I.size == 8) {
                        if(a & 3) s.fault("misaligned access", a, h);
                        u32 x = (u32)s.load(h, a, 4), y = (u32)s.load(h, (u64)a + 4, 4);
                        if(I.mode) r[I.rn] = wb;
                        r[I.rd] = x; r[I.ra] = y;
                        break;
                    }
                    u32 v = (u32)s.load(h, a, I.size);
                    if(I.sign) v = I.size == 1 ? (u32)(i32)(i8)v : (u32)(i32)(i16)v;
                    if(I.mode) r[I.rn] = wb;
                    wr(I.rd, v);
                    break;
                }
                case A_STR: {
                    u32 wb, a = address(wb);
                    if(I.size == 8) {
                        if(a & 3) s.fault("misaligned access", a, h);
                        s.store(h, a, 4, r[I.rd]); s.store(h, (u64)a + 4, 4, r[I.ra]);
                    } else
                        s.store(h, a, I.size, I.size == 1 ? R(I.rd) & 0xff : I.size == 2 ? R(I.rd) & 0xffff : R(I.rd));
                    if(I.mode) r[I.rn] = wb;
                    break;
                }
                case A_LDM: case A_STM: {
                    u32 n = (u32)__builtin_popcount(I.list), base = r[I.rn];
                    u32 a = I.ra == 0 ? base : I.ra == 1 ? base - 4 * n : base + 4;
                    u32 wb = I.ra == 1 ? base - 4 * n : base + 4 * n;
                    if(a & 3) s.fault("misaligned access", a, h);
                    u32 vals[16];
                    if(I.op == A_LDM) {
                        u32 q = a;
                        for(int k = 0; k < 16; ++k) if(I.list >> k & 1) { vals[k] = (u32)s.load(h, q, 4); q += 4; }
                        if(I.mode) r[I.rn] = wb;
                        for(int k = 0; k < 15; ++k) if(I.list >> k & 1) r[k] = vals[k];
                        if(I.list >> 15 & 1) jump(vals[15]);
                    } else {
                        for(int k = 0; k < 16; ++k) if(I.list >> k & 1) { s.store(h, a, 4, R(k)); a += 4; }
                        if(I.mode) r[I.rn] = wb;
                    }
                    break;
                }
                case A_LDREX: {
                    u32 wb, a = address(wb);
                    if(a % I.size) s.fault("misaligned LDREX", a, h);
                    if(!h.sb.empty()) s.drainOverlap(h, a, I.size);
                    r[I.rd] = (u32)s.load(h, a, I.size);
                    h.resAddr = a; h.resSize = I.size;
                    if(s.syncPoint()) left = 1;
                    break;
                }
                case A_STREX: {
                    u32 wb, a = address(wb);
                    if(a % I.size) s.fault("misaligned STREX", a, h);
                    if(!h.sb.empty()) s.drainOverlap(h, a, I.size);
                    bool okk = h.resAddr == a && h.resSize == I.size;
                    if(okk && s.scSpurious()) okk = false;
                    if(!s.ok(a, I.size, P_R | P_W)) s.fault("invalid write", a, h);
                    u32 v = r[I.rm];
                    if(okk) s.commit(h, a, I.size, v);
                    h.resAddr = ~0ull;
                    s.syncNote(h, 2, ((u64)a << 8) ^ (okk ? v : 0xee));
                    r[I.rd] = okk ? 0 : 1;
                    if(s.syncPoint()) left = 1;
                    break;
                }
                case A_CLREX: h.resAddr = ~0ull; break;
                case A_DMB: s.fenceW(h); if(s.syncPoint()) left = 1; break;
                case A_TBB: case A_TBH: {
                    u32 k = I.op == A_TBB ? 1 : 2;
                    u32 a = (I.rn == 15 ? pcv : r[I.rn]) + (k == 2 ? 2 * r[I.rm] : r[I.rm]);
                    npc = pcv + 2 * (u32)s.load(h, a, k);
                    break;
                }
                case A_B: npc = I.imm; break;
                case A_BL: r[14] = (u32)npc | c.thumb; npc = I.imm; break;
                case A_BLX: { u32 ret = (u32)npc | c.thumb; u32 t = I.hasImm ? I.imm | !c.thumb : r[I.rm]; r[14] = ret; jump(t); break; }
                case A_BX: jump(R(I.rm)); break;
                case A_CBZ: if(!r[I.rn]) npc = I.imm; break;
                case A_CBNZ: if(r[I.rn]) npc = I.imm; break;
                case A_SVC: c.pc = npc; return Stop::Syscall;
                case A_UDF: throw Trap{ "undefined instruction" };
                case A_VLD: case A_VST: {
                    u32 wb, a = address(wb);
                    if(a & 3) s.fault("misaligned access", a, h);
                    for(u32 k = 0; k < I.size; ++k)
                        if(I.op == A_VLD) c.s[I.rd + k] = (u32)s.load(h, (u64)a + 4 * k, 4); else s.store(h, (u64)a + 4 * k, 4, c.s[I.rd + k]);
                    break;
                }
                case A_VLDM: case A_VSTM: {
                    u32 a = I.sub ? r[I.rn] - 4u * I.size : r[I.rn], wb = I.sub ? a : a + 4u * I.size;
                    if(a & 3) s.fault("misaligned access", a, h);
                    for(u32 k = 0; k < I.size; ++k)
                        if(I.op == A_VLDM) c.s[I.rd + k] = (u32)s.load(h, (u64)a + 4 * k, 4); else s.store(h, (u64)a + 4 * k, 4, c.s[I.rd + k]);
                    if(I.mode) r[I.rn] = wb;
                    break;
                }
                case A_VMOVSR: c.s[I.rd] = r[I.rm]; break;
                case A_VMOVRS: r[I.rd] = c.s[I.rm]; break;
                case A_VMOVF: c.s[I.rd] = c.s[I.rm]; break;
                case A_VMOVI: c.s[I.rd] = I.imm; break;
                case A_VMOVD: c.s[I.rd] = c.s[I.rm]; c.s[I.rd + 1] = c.s[I.rm + 1]; break;
                case A_VMOVDR: c.s[I.rd] = r[I.rn]; c.s[I.rd + 1] = r[I.rm]; break;
                case A_VMOVRD: r[I.rd] = c.s[I.rm]; r[I.ra] = c.s[I.rm + 1]; break;
                case A_VADD: setF(c, I.rd, F(c, I.rn) + F(c, I.rm)); break;
                case A_VSUB: setF(c, I.rd, F(c, I.rn) - F(c, I.rm)); break;
                case A_VMUL: setF(c, I.rd, F(c, I.rn) * F(c, I.rm)); break;
                case A_VNMUL: setF(c, I.rd, -(F(c, I.rn) * F(c, I.rm))); break;
                case A_VDIV: setF(c, I.rd, F(c, I.rn) / F(c, I.rm)); break;
                case A_VNEG: c.s[I.rd] = c.s[I.rm] ^ 0x80000000u; break;
                case A_VABS: c.s[I.rd] = c.s[I.rm] & 0x7fffffffu; break;
                case A_VSQRT: setF(c, I.rd, std::sqrt(F(c, I.rm))); break;
                case A_VMLA: case A_VMLS: case A_VNMLA: case A_VNMLS: {
                    volatile float p = F(c, I.rn) * F(c, I.rm);
                    float d = F(c, I.rd);
                    setF(c, I.rd, I.op == A_VMLA ? d + p : I.op == A_VMLS ? d - p : I.op == A_VNMLA ? -d - p : -d + p);
                    break;
                }
                case A_VFMA: setF(c, I.rd, std::fma(F(c, I.rn), F(c, I.rm), F(c, I.rd))); break;
                case A_VFMS: setF(c, I.rd, std::fma(-F(c, I.rn), F(c, I.rm), F(c, I.rd))); break;
                case A_VFNMA: setF(c, I.rd, std::fma(-F(c, I.rn), F(c, I.rm), -F(c, I.rd))); break;
                case A_VFNMS: setF(c, I.rd, std::fma(F(c, I.rn), F(c, I.rm), -F(c, I.rd))); break;
                case A_VCMP: {
                    float a = F(c, I.rn), b = I.hasImm ? 0.0f : F(c, I.rm);
                    if(std::isnan(a) || std::isnan(b)) { c.fn = c.fz = false; c.fc = c.fv = true; }
                    else { c.fn = a < b; c.fz = a == b; c.fc = a >= b; c.fv = false; }
                    break;
                }
                case A_VMRS: c.n = c.fn; c.z = c.fz; c.c = c.fc; c.v = c.fv; break;
                case A_VCVTSF: { float f = F(c, I.rm); c.s[I.rd] = std::isnan(f) ? 0 : f >= 2147483648.0f ? 0x7fffffffu : f <= -2147483648.0f ? 0x80000000u : (u32)(i32)f; break; }
                case A_VCVTUF: { float f = F(c, I.rm); c.s[I.rd] = std::isnan(f) || f <= 0 ? 0 : f >= 4294967296.0f ? ~0u : (u32)f; break; }
                case A_VCVTFS: setF(c, I.rd, (float)(i32)c.s[I.rm]); break;
                case A_VCVTFU: setF(c, I.rd, (float)c.s[I.rm]); break;
                default: {
                    char b[80];
                    snprintf(b, sizeof b, "instruction at 0x%" PRIx64 " is not implemented", pc);
                    throw Unsupported{ b };
                }
            }
            c.pc = npc;
            ++s.now;
            --left;
            if(__builtin_expect(s.nextDrain <= s.now, 0)) return Stop::Quantum;
        }
        return Stop::Quantum;
    }
};
