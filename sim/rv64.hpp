// RV64GC + Zba/Zbb user-mode interpreter for Sim<>.
#pragma once
#include "core.hpp"
#include <cmath>

struct RvInsn;
struct RvCpu {
    static constexpr u32 HIST = 64;
    std::array<std::pair<const RvInsn*, u64>, HIST> hist{};  // latest instructions and their steps (only kept where loads may be early)
    u64 nHist = 0;
    u64 pc = 0;
    u64 x[32] = {};
    u64 f[32] = {};
    u32 fcsr = 0;
};
enum RvOp : u16 {
    R_ILL, R_LUI, R_AUIPC, R_JAL, R_JALR, R_BEQ, R_BNE, R_BLT, R_BGE, R_BLTU, R_BGEU,
    R_LB, R_LH, R_LW, R_LD, R_LBU, R_LHU, R_LWU, R_SB, R_SH, R_SW, R_SD,
    R_ADDI, R_SLTI, R_SLTIU, R_XORI, R_ORI, R_ANDI, R_SLLI, R_SRLI, R_SRAI,
    R_ADD, R_SUB, R_SLL, R_SLT, R_SLTU, R_XOR, R_SRL, R_SRA, R_OR, R_AND,
    R_ADDIW, R_SLLIW, R_SRLIW, R_SRAIW, R_ADDW, R_SUBW, R_SLLW, R_SRLW, R_SRAW,
    R_MUL, R_MULH, R_MULHSU, R_MULHU, R_DIV, R_DIVU, R_REM, R_REMU, R_MULW, R_DIVW, R_DIVUW, R_REMW, R_REMUW,
    R_FENCE, R_ECALL, R_EBREAK, R_CSR,
    R_LR, R_SC, R_AMO,
    R_SH1ADD, R_SH2ADD, R_SH3ADD, R_ADDUW, R_SH1ADDUW, R_SH2ADDUW, R_SH3ADDUW, R_SLLIUW,
    R_ANDN, R_ORN, R_XNOR, R_CLZ, R_CTZ, R_CPOP, R_CLZW, R_CTZW, R_CPOPW, R_MAX, R_MAXU, R_MIN, R_MINU, R_SEXTB, R_SEXTH, R_ZEXTH,
    R_ROL, R_ROR, R_RORI, R_ROLW, R_RORW, R_RORIW, R_ORCB, R_REV8,
    R_FLW, R_FLD, R_FSW, R_FSD,
    R_FADD, R_FSUB, R_FMUL, R_FDIV, R_FSQRT, R_FSGNJ, R_FSGNJN, R_FSGNJX, R_FMIN, R_FMAX, R_FEQ, R_FLT, R_FLE, R_FCLASS,
    R_FCVT_I, R_FCVT_F, R_FCVT_SD, R_FCVT_DS, R_FMVX, R_FMVF, R_FMADD, R_FMSUB, R_FNMSUB, R_FNMADD,
};
struct RvInsn { u16 op = 0xffff; u8 rd = 0, rs1 = 0, rs2 = 0, rs3 = 0, len = 4, aux = 0; i64 imm = 0; };

struct Rv64 {
    using Cpu = RvCpu;
    struct Code {
        u64 lo = 0, hi = 0;
        std::vector<RvInsn> v;
        void reset() { v.clear(); }
        void init(u64 l, u64 h, const std::string&) { lo = l; hi = h; v.assign((h - l) / 2 + 2, {}); }
    };
    static constexpr bool earlyLoads = true;
    // Could the load now executed have been in flight at step `t`? `t` is within the latest instructions, and no load or atomic
    // operation since then contributed to its address.
    template <class S> static bool early(S&, typename S::H& h, u64 t) {
        Cpu& c = h.cpu;
        u64 n = c.nHist, lo = n > Cpu::HIST ? n - Cpu::HIST : 0;
        if(n == lo || c.hist[lo % Cpu::HIST].second >= t) return false;
        u32 need = 1u << c.hist[(n - 1) % Cpu::HIST].first->rs1;
        for(u64 i = n - 1; i-- > lo;) {
            if(c.hist[i % Cpu::HIST].second < t) return true;
            const RvInsn& I = *c.hist[i % Cpu::HIST].first;
            need &= ~1u;
            if(!need) return true;
            u16 o = I.op;
            if((o >= R_BEQ && o <= R_BGEU) || (o >= R_SB && o <= R_SD) || o == R_FENCE || o == R_FLW || o == R_FLD || o == R_FSW || o == R_FSD) continue;
            if((o >= R_FADD && o <= R_FMAX) || (o >= R_FCVT_F && o <= R_FCVT_DS) || o == R_FMVF || o >= R_FMADD) continue;
            if(!(need >> I.rd & 1)) continue;
            need &= ~(1u << I.rd);
            if(o == R_LUI || o == R_AUIPC || o == R_JAL || o == R_JALR) continue;
            bool imm = (o >= R_ADDI && o <= R_SRAI) || (o >= R_ADDIW && o <= R_SRAIW) || o == R_SLLIUW || (o >= R_CLZ && o <= R_CPOPW) || (o >= R_SEXTB && o <= R_ZEXTH);
            bool reg = (o >= R_ADD && o <= R_AND) || (o >= R_ADDW && o <= R_SRAW) || (o >= R_MUL && o <= R_REMUW) || (o >= R_SH1ADD && o <= R_SH3ADDUW) ||
                       (o >= R_ANDN && o <= R_XNOR) || (o >= R_MAX && o <= R_MINU) || o == R_ROL || o == R_ROR;
            if(!imm && !reg) return false;
            need |= 1u << I.rs1;
            if(reg) need |= 1u << I.rs2;
        }
        return false;
    }
    static void initCpu(Cpu&, u64) {}
    static void setSP(Cpu& c, u64 v) { c.x[2] = v & ~15ull; }
    static void setRet(Cpu& c, i64 v) { c.x[10] = (u64)v; }
    static u64 arg(Cpu& c, int i) { return c.x[10 + i]; }
    static u64 sysNr(Cpu& c) { return c.x[17]; }
    static int sysKind(u64 nr) { return (int)nr; }
    static void afterSyscall(Cpu&) {}
    template <class S> static void writeTimespec(S& s, typename S::H& h, u64 p, i64 ns) {
        s.store(h, p, 8, (u64)(ns / 1000000000)); s.store(h, p + 8, 8, (u64)(ns % 1000000000));
        s.drainAll(h);
    }

    template <class S> static u64 readTimespec(S& s, typename S::H& h, u64 p) { return s.load(h, p, 8) * 1000000000ull + s.load(h, p + 8, 8); }

    static i64 sx(u64 v, int b) { return (i64)(v << (64 - b)) >> (64 - b); }
    static RvInsn mk(u16 op, u32 rd, u32 rs1, u32 rs2, i64 imm, u8 len = 2) {
        RvInsn i; i.op = op; i.rd = (u8)rd; i.rs1 = (u8)rs1; i.rs2 = (u8)rs2; i.imm = imm; i.len = len; return i;
    }
    static RvInsn decodeC(u32 w) {
        u32 q = w & 3, f3 = (w >> 13) & 7;
        auto r = [](u32 v) { return (v & 7) + 8; };
        auto b = [&](int i) { return (u64)((w >> i) & 1); };
        u32 rd = (w >> 7) & 31, rs2 = (w >> 2) & 31;
        u32 rdp = r(w >> 2), rs1p = r(w >> 7);
        i64 imm6 = sx((b(12) << 5) | ((w >> 2) & 31), 6);
        u64 lwo = (b(5) << 6) | (((w >> 10) & 7) << 3) | (b(6) << 2);
        u64 ldo = (((w >> 5) & 3) << 6) | (((w >> 10) & 7) << 3);
        if(q == 0) {
            switch(f3) {
                case 0: {
                    u64 im = (((w >> 7) & 15) << 6) | (((w >> 11) & 3) << 4) | (b(5) << 3) | (b(6) << 2);
                    if(!im) return mk(R_ILL, 0, 0, 0, 0);
                    return mk(R_ADDI, rdp, 2, 0, (i64)im);
                }
                case 1: return mk(R_FLD, rdp, rs1p, 0, (i64)ldo);
                case 2: return mk(R_LW, rdp, rs1p, 0, (i64)lwo);
                case 3: return mk(R_LD, rdp, rs1p, 0, (i64)ldo);
                case 5: return mk(R_FSD, 0, rs1p, rdp, (i64)ldo);
                case 6: return mk(R_SW, 0, rs1p, rdp, (i64)lwo);
                case 7: return mk(R_SD, 0, rs1p, rdp, (i64)ldo);
                default: return mk(R_ILL, 0, 0, 0, 0);
            }
        }
        if(q == 1) {
            switch(f3) {
                case 0: return mk(R_ADDI, rd, rd, 0, imm6);
                case 1: return mk(R_ADDIW, rd, rd, 0, imm6);
                case 2: return mk(R_ADDI, rd, 0, 0, imm6);
                case 3:
                    if(rd == 2)
                        return mk(R_ADDI, 2, 2, 0, sx((b(12) << 9) | (((w >> 3) & 3) << 7) | (b(5) << 6) | (b(2) << 5) | (b(6) << 4), 10));
                    return mk(R_LUI, rd, 0, 0, imm6 << 12);
                case 4: {
                    u32 sub = (w >> 10) & 3;
                    u64 sh = (b(12) << 5) | ((w >> 2) & 31);
                    if(sub == 0) return mk(R_SRLI, rs1p, rs1p, 0, (i64)sh);
                    if(sub == 1) return mk(R_SRAI, rs1p, rs1p, 0, (i64)sh);
                    if(sub == 2) return mk(R_ANDI, rs1p, rs1p, 0, imm6);
                    static const u16 o[8] = { R_SUB, R_XOR, R_OR, R_AND, R_SUBW, R_ADDW, R_ILL, R_ILL };
                    return mk(o[(b(12) << 2) | ((w >> 5) & 3)], rs1p, rs1p, rdp, 0);
                }
                case 5: {
                    u64 im = (b(12) << 11) | (b(11) << 4) | (((w >> 9) & 3) << 8) | (b(8) << 10) | (b(7) << 6) | (b(6) << 7) | (((w >> 3) & 7) << 1) | (b(2) << 5);
                    return mk(R_JAL, 0, 0, 0, sx(im, 12));
                }
                default: {
                    u64 im = (b(12) << 8) | (((w >> 10) & 3) << 3) | (((w >> 5) & 3) << 6) | (((w >> 3) & 3) << 1) | (b(2) << 5);
                    return mk(f3 == 6 ? R_BEQ : R_BNE, 0, rs1p, 0, sx(im, 9));
                }
            }
        }
        switch(f3) {
            case 0: return mk(R_SLLI, rd, rd, 0, (i64)((b(12) << 5) | ((w >> 2) & 31)));
            case 1: return mk(R_FLD, rd, 2, 0, (i64)((((w >> 2) & 7) << 6) | (b(12) << 5) | (((w >> 5) & 3) << 3)));
            case 2: return mk(R_LW, rd, 2, 0, (i64)((((w >> 2) & 3) << 6) | (b(12) << 5) | (((w >> 4) & 7) << 2)));
            case 3: return mk(R_LD, rd, 2, 0, (i64)((((w >> 2) & 7) << 6) | (b(12) << 5) | (((w >> 5) & 3) << 3)));
            case 4:
                if(!b(12)) return rs2 ? mk(R_ADD, rd, 0, rs2, 0) : mk(R_JALR, 0, rd, 0, 0);
                if(!rs2) return rd ? mk(R_JALR, 1, rd, 0, 0) : mk(R_EBREAK, 0, 0, 0, 0);
                return mk(R_ADD, rd, rd, rs2, 0);
            case 5: return mk(R_FSD, 0, 2, rs2, (i64)((((w >> 7) & 7) << 6) | (((w >> 10) & 7) << 3)));
            case 6: return mk(R_SW, 0, 2, rs2, (i64)((((w >> 7) & 3) << 6) | (((w >> 9) & 15) << 2)));
            default: return mk(R_SD, 0, 2, rs2, (i64)((((w >> 7) & 7) << 6) | (((w >> 10) & 7) << 3)));
        }
    }
    static RvInsn decode(u32 w) {
        if((w & 3) != 3) return decodeC(w & 0xffff);
        u32 opc = w & 0x7f, rd = (w >> 7) & 31, f3 = (w >> 12) & 7, rs1 = (w >> 15) & 31, rs2 = (w >> 20) & 31, f7 = w >> 25;
        i64 immI = (i64)(i32)w >> 20;
        i64 immS = ((i64)(i32)(w & 0xfe000000) >> 20) | rd;
        auto M = [&](u16 op, i64 imm = 0) { return mk(op, rd, rs1, rs2, imm, 4); };
        switch(opc) {
            case 0x37: return M(R_LUI, (i64)(i32)(w & 0xfffff000));
            case 0x17: return M(R_AUIPC, (i64)(i32)(w & 0xfffff000));
            case 0x6f: {
                u64 im = ((u64)(w >> 31) << 20) | (((w >> 12) & 0xff) << 12) | (((w >> 20) & 1) << 11) | (((w >> 21) & 0x3ff) << 1);
                return M(R_JAL, sx(im, 21));
            }
            case 0x67: return M(R_JALR, immI);
            case 0x63: {
                u64 im = ((u64)(w >> 31) << 12) | (((w >> 7) & 1) << 11) | (((w >> 25) & 0x3f) << 5) | (((w >> 8) & 15) << 1);
                static const u16 o[8] = { R_BEQ, R_BNE, R_ILL, R_ILL, R_BLT, R_BGE, R_BLTU, R_BGEU };
                return M(o[f3], sx(im, 13));
            }
            case 0x03: { static const u16 o[8] = { R_LB, R_LH, R_LW, R_LD, R_LBU, R_LHU, R_LWU, R_ILL }; return M(o[f3], immI); }
            case 0x23: { static const u16 o[8] = { R_SB, R_SH, R_SW, R_SD, R_ILL, R_ILL, R_ILL, R_ILL }; return M(o[f3], immS); }
            case 0x13: {
                u32 sh = (w >> 20) & 63, f6 = w >> 26;
                switch(f3) {
                    case 0: return M(R_ADDI, immI);
                    case 2: return M(R_SLTI, immI);
                    case 3: return M(R_SLTIU, immI);
                    case 4: return M(R_XORI, immI);
                    case 6: return M(R_ORI, immI);
                    case 7: return M(R_ANDI, immI);
                    case 1:
                        if(f6 == 0) return M(R_SLLI, sh);
                        if((w >> 20) == 0x600) return M(R_CLZ);
                        if((w >> 20) == 0x601) return M(R_CTZ);
                        if((w >> 20) == 0x602) return M(R_CPOP);
                        if((w >> 20) == 0x604) return M(R_SEXTB);
                        if((w >> 20) == 0x605) return M(R_SEXTH);
                        return M(R_ILL);
                    case 5:
                        if(f6 == 0) return M(R_SRLI, sh);
                        if(f6 == 0x10) return M(R_SRAI, sh);
                        if(f6 == 0x18) return M(R_RORI, sh);
                        if((w >> 20) == 0x287) return M(R_ORCB);
                        if((w >> 20) == 0x6b8) return M(R_REV8);
                        return M(R_ILL);
                }
                return M(R_ILL);
            }
            case 0x1b: {
                u32 sh = (w >> 20) & 31;
                if(f3 == 0) return M(R_ADDIW, immI);
                if(f3 == 1) {
                    if((w >> 26) == 2) return M(R_SLLIUW, (w >> 20) & 63);
                    if(f7 == 0) return M(R_SLLIW, sh);
                    if((w >> 20) == 0x600) return M(R_CLZW);
                    if((w >> 20) == 0x601) return M(R_CTZW);
                    if((w >> 20) == 0x602) return M(R_CPOPW);
                }
                if(f3 == 5) {
                    if(f7 == 0) return M(R_SRLIW, sh);
                    if(f7 == 0x20) return M(R_SRAIW, sh);
                    if(f7 == 0x30) return M(R_RORIW, sh);
                }
                return M(R_ILL);
            }
            case 0x33: {
                switch(f7) {
                    case 0: { static const u16 o[8] = { R_ADD, R_SLL, R_SLT, R_SLTU, R_XOR, R_SRL, R_OR, R_AND }; return M(o[f3]); }
                    case 1: { static const u16 o[8] = { R_MUL, R_MULH, R_MULHSU, R_MULHU, R_DIV, R_DIVU, R_REM, R_REMU }; return M(o[f3]); }
                    case 0x20: { static const u16 o[8] = { R_SUB, R_ILL, R_ILL, R_ILL, R_XNOR, R_SRA, R_ORN, R_ANDN }; return M(o[f3]); }
                    case 0x10: { static const u16 o[8] = { R_ILL, R_ILL, R_SH1ADD, R_ILL, R_SH2ADD, R_ILL, R_SH3ADD, R_ILL }; return M(o[f3]); }
                    case 0x05: { static const u16 o[8] = { R_ILL, R_ILL, R_ILL, R_ILL, R_MIN, R_MINU, R_MAX, R_MAXU }; return M(o[f3]); }
                    case 0x30: { static const u16 o[8] = { R_ILL, R_ROL, R_ILL, R_ILL, R_ILL, R_ROR, R_ILL, R_ILL }; return M(o[f3]); }
                }
                return M(R_ILL);
            }
            case 0x3b: {
                switch(f7) {
                    case 0: { static const u16 o[8] = { R_ADDW, R_SLLW, R_ILL, R_ILL, R_ILL, R_SRLW, R_ILL, R_ILL }; return M(o[f3]); }
                    case 1: { static const u16 o[8] = { R_MULW, R_ILL, R_ILL, R_ILL, R_DIVW, R_DIVUW, R_REMW, R_REMUW }; return M(o[f3]); }
                    case 0x20: { static const u16 o[8] = { R_SUBW, R_ILL, R_ILL, R_ILL, R_ILL, R_SRAW, R_ILL, R_ILL }; return M(o[f3]); }
                    case 0x04: { static const u16 o[8] = { R_ADDUW, R_ILL, R_ILL, R_ILL, R_ZEXTH, R_ILL, R_ILL, R_ILL }; return M(o[f3]); }
                    case 0x10: { static const u16 o[8] = { R_ILL, R_ILL, R_SH1ADDUW, R_ILL, R_SH2ADDUW, R_ILL, R_SH3ADDUW, R_ILL }; return M(o[f3]); }
                    case 0x30: { static const u16 o[8] = { R_ILL, R_ROLW, R_ILL, R_ILL, R_ILL, R_RORW, R_ILL, R_ILL }; return M(o[f3]); }
                }
                return M(R_ILL);
            }
            case 0x0f: { auto i = M(R_FENCE); i.aux = f3 == 1 ? 0 : (u8)((w >> 24) & 15); return i; }
            case 0x73:
                if(f3 == 0) return M((w >> 20) == 0 ? R_ECALL : R_EBREAK);
                { auto i = M(R_CSR, (i64)(w >> 20)); i.aux = (u8)f3; return i; }
            case 0x2f: {
                u32 f5 = f7 >> 2;
                RvInsn i = M(f5 == 2 ? R_LR : f5 == 3 ? R_SC : R_AMO);
                i.aux = (u8)f5; i.imm = (f7 & 3);  // bit0 rl, bit1 aq
                i.rs3 = f3 == 3 ? 8 : f3 == 2 ? 4 : 0;
                if(!i.rs3) i.op = R_ILL;
                return i;
            }
            case 0x07: return M(f3 == 2 ? R_FLW : f3 == 3 ? R_FLD : R_ILL, immI);
            case 0x27: return M(f3 == 2 ? R_FSW : f3 == 3 ? R_FSD : R_ILL, immS);
            case 0x43: case 0x47: case 0x4b: case 0x4f: {
                static const u16 o[4] = { R_FMADD, R_FMSUB, R_FNMSUB, R_FNMADD };
                RvInsn i = M(o[(opc >> 2) & 3]);
                i.rs3 = (u8)(w >> 27); i.aux = (w >> 25) & 3;
                if(i.aux > 1) i.op = R_ILL;
                return i;
            }
            case 0x53: {
                u32 fmt = f7 & 3, fn = f7 >> 2;
                RvInsn i = M(R_ILL); i.aux = (u8)fmt; i.imm = f3;
                if(fmt > 1) return i;
                switch(fn) {
                    case 0: i.op = R_FADD; break;
                    case 1: i.op = R_FSUB; break;
                    case 2: i.op = R_FMUL; break;
                    case 3: i.op = R_FDIV; break;
                    case 0x0b: i.op = R_FSQRT; break;
                    case 4: i.op = f3 == 0 ? R_FSGNJ : f3 == 1 ? R_FSGNJN : R_FSGNJX; break;
                    case 5: i.op = f3 == 0 ? R_FMIN : R_FMAX; break;
                    case 0x14: i.op = f3 == 0 ? R_FLE : f3 == 1 ? R_FLT : R_FEQ; break;
                    case 0x1c: i.op = f3 == 0 ? R_FMVX : R_FCLASS; break;
                    case 0x1e: i.op = R_FMVF; break;
                    case 0x18: i.op = R_FCVT_I; break;
                    case 0x1a: i.op = R_FCVT_F; break;
                    case 0x08: i.op = fmt == 0 ? R_FCVT_SD : R_FCVT_DS; break;
                }
                return i;
            }
        }
        return M(R_ILL);
    }
    static float getF(const Cpu& c, int r) {
        u32 v = (c.f[r] >> 32) == 0xffffffffu ? (u32)c.f[r] : 0x7fc00000u;
        float f; memcpy(&f, &v, 4); return f;
    }
    static double getD(const Cpu& c, int r) { double d; memcpy(&d, &c.f[r], 8); return d; }
    static void setF(Cpu& c, int r, float f) {
        u32 v; memcpy(&v, &f, 4);
        if(std::isnan(f)) v = 0x7fc00000u;
        c.f[r] = 0xffffffff00000000ull | v;
    }
    static void setFraw(Cpu& c, int r, u32 v) { c.f[r] = 0xffffffff00000000ull | v; }
    static void setD(Cpu& c, int r, double d) {
        if(std::isnan(d)) { c.f[r] = 0x7ff8000000000000ull; return; }
        memcpy(&c.f[r], &d, 8);
    }
    static double roundRm(double v, int rm) {
        switch(rm) { case 1: return std::trunc(v); case 2: return std::floor(v); case 3: return std::ceil(v); case 4: return std::round(v); default: return std::nearbyint(v); }
    }
    template <class T> static u64 cvt(double v, bool isNan) {
        if(isNan) return (u64)(i64)std::numeric_limits<T>::max();
        long double x = v;
        if(x <= (long double)std::numeric_limits<T>::min()) return (u64)(i64)std::numeric_limits<T>::min();
        if(x >= (long double)std::numeric_limits<T>::max()) return sizeof(T) == 4 ? (u64)(i64)(i32)std::numeric_limits<T>::max() : (u64)std::numeric_limits<T>::max();
        return sizeof(T) == 4 ? (u64)(i64)(i32)(T)x : (u64)(T)x;
    }

    template <class S>
    static Stop exec(S& s, typename S::H& h, u64 budget) {
        Cpu& c = h.cpu;
        u64* x = c.x;
        u64 left = budget;
        auto wb = [&](u32 rd, u64 v) { x[rd] = v; x[0] = 0; };
        while(left) {
            u64 pc = c.pc;
            if(__builtin_expect(pc < s.code.lo || pc >= s.code.hi || (pc & 1), 0)) s.fault("jump to non-code", pc, h);
            RvInsn& I = s.code.v[(pc - s.code.lo) >> 1];
            if(__builtin_expect(I.op == 0xffff, 0)) {
                if(!s.ok(pc, 2, P_X)) s.fault("jump to non-code", pc, h);
                u32 w; memcpy(&w, s.mem + pc, 4);
                I = decode(w);
            }
            if(__builtin_expect(s.ldWeak, 0)) c.hist[c.nHist++ % Cpu::HIST] = { &I, s.now };
            u64 npc = pc + I.len;
            u64 a = x[I.rs1], b = x[I.rs2];
            switch(I.op) {
                case R_LUI: wb(I.rd, (u64)I.imm); break;
                case R_AUIPC: wb(I.rd, pc + (u64)I.imm); break;
                case R_JAL: wb(I.rd, npc); npc = pc + (u64)I.imm; break;
                case R_JALR: { u64 t = (a + (u64)I.imm) & ~1ull; wb(I.rd, npc); npc = t; break; }
                case R_BEQ: if(a == b) npc = pc + (u64)I.imm; break;
                case R_BNE: if(a != b) npc = pc + (u64)I.imm; break;
                case R_BLT: if((i64)a < (i64)b) npc = pc + (u64)I.imm; break;
                case R_BGE: if((i64)a >= (i64)b) npc = pc + (u64)I.imm; break;
                case R_BLTU: if(a < b) npc = pc + (u64)I.imm; break;
                case R_BGEU: if(a >= b) npc = pc + (u64)I.imm; break;
                case R_LB: wb(I.rd, (u64)sx(s.loadPlain(h, a + (u64)I.imm, 1), 8)); break;
                case R_LH: wb(I.rd, (u64)sx(s.loadPlain(h, a + (u64)I.imm, 2), 16)); break;
                case R_LW: wb(I.rd, (u64)sx(s.loadPlain(h, a + (u64)I.imm, 4), 32)); break;
                case R_LD: wb(I.rd, s.loadPlain(h, a + (u64)I.imm, 8)); break;
                case R_LBU: wb(I.rd, s.loadPlain(h, a + (u64)I.imm, 1)); break;
                case R_LHU: wb(I.rd, s.loadPlain(h, a + (u64)I.imm, 2)); break;
                case R_LWU: wb(I.rd, s.loadPlain(h, a + (u64)I.imm, 4)); break;
                case R_SB: s.store(h, a + (u64)I.imm, 1, b & 0xff); break;
                case R_SH: s.store(h, a + (u64)I.imm, 2, b & 0xffff); break;
                case R_SW: s.store(h, a + (u64)I.imm, 4, b & 0xffffffff); break;
                case R_SD: s.store(h, a + (u64)I.imm, 8, b); break;
                case R_ADDI: wb(I.rd, a + (u64)I.imm); break;
                case R_SLTI: wb(I.rd, (i64)a < I.imm); break;
                case R_SLTIU: wb(I.rd, a < (u64)I.imm); break;
                case R_XORI: wb(I.rd, a ^ (u64)I.imm); break;
                case R_ORI: wb(I.rd, a | (u64)I.imm); break;
                case R_ANDI: wb(I.rd, a & (u64)I.imm); break;
                case R_SLLI: wb(I.rd, a << I.imm); break;
                case R_SRLI: wb(I.rd, a >> I.imm); break;
                case R_SRAI: wb(I.rd, (u64)((i64)a >> I.imm)); break;
                case R_ADD: wb(I.rd, a + b); break;
                case R_SUB: wb(I.rd, a - b); break;
                case R_SLL: wb(I.rd, a << (b & 63)); break;
                case R_SLT: wb(I.rd, (i64)a < (i64)b); break;
                case R_SLTU: wb(I.rd, a < b); break;
                case R_XOR: wb(I.rd, a ^ b); break;
                case R_SRL: wb(I.rd, a >> (b & 63)); break;
                case R_SRA: wb(I.rd, (u64)((i64)a >> (b & 63))); break;
                case R_OR: wb(I.rd, a | b); break;
                case R_AND: wb(I.rd, a & b); break;
                case R_ADDIW: wb(I.rd, (u64)sx(a + (u64)I.imm, 32)); break;
                case R_SLLIW: wb(I.rd, (u64)sx((u64)((u32)a << I.imm), 32)); break;
                case R_SRLIW: wb(I.rd, (u64)(i64)(i32)((u32)a >> I.imm)); break;
                case R_SRAIW: wb(I.rd, (u64)(i64)((i32)a >> I.imm)); break;
                case R_ADDW: wb(I.rd, (u64)sx(a + b, 32)); break;
                case R_SUBW: wb(I.rd, (u64)sx(a - b, 32)); break;
                case R_SLLW: wb(I.rd, (u64)(i64)(i32)((u32)a << (b & 31))); break;
                case R_SRLW: wb(I.rd, (u64)(i64)(i32)((u32)a >> (b & 31))); break;
                case R_SRAW: wb(I.rd, (u64)(i64)((i32)a >> (b & 31))); break;
                case R_MUL: wb(I.rd, a * b); break;
                case R_MULH: wb(I.rd, (u64)(((__int128)(i64)a * (i64)b) >> 64)); break;
                case R_MULHSU: wb(I.rd, (u64)(((__int128)(i64)a * (unsigned __int128)b) >> 64)); break;
                case R_MULHU: wb(I.rd, (u64)(((unsigned __int128)a * b) >> 64)); break;
                case R_DIV: wb(I.rd, b == 0 ? ~0ull : ((i64)a == INT64_MIN && (i64)b == -1) ? a : (u64)((i64)a / (i64)b)); break;
                case R_DIVU: wb(I.rd, b == 0 ? ~0ull : a / b); break;
                case R_REM: wb(I.rd, b == 0 ? a : ((i64)a == INT64_MIN && (i64)b == -1) ? 0 : (u64)((i64)a % (i64)b)); break;
                case R_REMU: wb(I.rd, b == 0 ? a : a % b); break;
                case R_MULW: wb(I.rd, (u64)sx(a * b, 32)); break;
                case R_DIVW: { i32 p = (i32)a, q = (i32)b; wb(I.rd, q == 0 ? ~0ull : (p == INT32_MIN && q == -1) ? (u64)(i64)p : (u64)(i64)(p / q)); break; }
                case R_DIVUW: { u32 p = (u32)a, q = (u32)b; wb(I.rd, q == 0 ? ~0ull : (u64)(i64)(i32)(p / q)); break; }
                case R_REMW: { i32 p = (i32)a, q = (i32)b; wb(I.rd, q == 0 ? (u64)(i64)p : (p == INT32_MIN && q == -1) ? 0 : (u64)(i64)(p % q)); break; }
                case R_REMUW: { u32 p = (u32)a, q = (u32)b; wb(I.rd, q == 0 ? (u64)(i64)(i32)p : (u64)(i64)(i32)(p % q)); break; }
                case R_FENCE: if(I.aux & 1) s.fenceW(h); if(!I.aux || ((I.aux & 3) && (I.rs2 & 2))) h.floor = s.now; if(s.syncPoint()) left = 1; break;
                case R_ECALL: c.pc = npc; return Stop::Syscall;
                case R_EBREAK: throw Trap{ "ebreak" };
                case R_CSR: {
                    u64 old = I.imm == 1 ? 0 : I.imm == 2 ? (c.fcsr >> 5) : I.imm == 3 ? c.fcsr : 0;
                    if(I.imm > 3) { char bb[64]; snprintf(bb, sizeof bb, "unsupported CSR 0x%x", (u32)I.imm); throw Trap{ bb }; }
                    wb(I.rd, old);
                    break;
                }
                case R_LR: {
                    if(a % I.rs3) s.fault("misaligned LR", a, h);
                    if(I.imm & 1) s.fenceW(h); else if(!h.sb.empty()) s.drainOverlap(h, a, I.rs3);
                    u64 v = s.load(h, a, I.rs3);
                    if(I.rs3 == 4) v = (u64)sx(v, 32);
                    h.resAddr = a; h.resSize = I.rs3;
                    s.sawAll(h, a, I.rs3);
                    if(I.imm & 2) h.floor = s.now;
                    wb(I.rd, v);
                    if(s.syncPoint()) left = 1;
                    break;
                }
                case R_SC: {
                    if(a % I.rs3) s.fault("misaligned SC", a, h);
                    if(I.imm & 1) s.fenceW(h); else if(!h.sb.empty()) s.drainOverlap(h, a, I.rs3);
                    bool okk = h.resAddr == a && h.resSize == I.rs3;
                    if(okk && s.scSpurious()) okk = false;
                    if(!s.ok(a, I.rs3, P_R | P_W)) s.fault("invalid write", a, h);
                    if(okk) s.commit(h, a, I.rs3, b);
                    h.resAddr = ~0ull;
                    if(I.imm & 2) h.floor = s.now;
                    s.syncNote(h, 2, (a << 8) ^ (okk ? b : 0xee));
                    wb(I.rd, okk ? 0 : 1);
                    if(s.syncPoint()) left = 1;
                    break;
                }
                case R_AMO: {
                    u32 n = I.rs3;
                    if(a % n) s.fault("misaligned AMO", a, h);
                    if(I.imm & 1) s.fenceW(h); else if(!h.sb.empty()) s.drainOverlap(h, a, n);
                    if(!s.ok(a, n, P_R | P_W)) s.fault("invalid write", a, h);
                    u64 v = s.load(h, a, n), r, q = b;
                    if(n == 4) { v = (u64)sx(v, 32); q = (u64)sx(q, 32); }
                    switch(I.aux) {
                        case 0: r = v + q; break;
                        case 1: r = q; break;
                        case 4: r = v ^ q; break;
                        case 8: r = v | q; break;
                        case 12: r = v & q; break;
                        case 16: r = (i64)v < (i64)q ? v : q; break;
                        case 20: r = (i64)v > (i64)q ? v : q; break;
                        case 24: r = (n == 4 ? (u32)v < (u32)q : v < q) ? v : q; break;
                        case 28: r = (n == 4 ? (u32)v > (u32)q : v > q) ? v : q; break;
                        default: s.fault("illegal AMO", pc, h);
                    }
                    s.commit(h, a, n, r);
                    if(I.imm & 2) h.floor = s.now;
                    s.syncNote(h, 3, a << 8);
                    wb(I.rd, v);
                    if(s.syncPoint()) left = 1;
                    break;
                }
                case R_SH1ADD: wb(I.rd, (a << 1) + b); break;
                case R_SH2ADD: wb(I.rd, (a << 2) + b); break;
                case R_SH3ADD: wb(I.rd, (a << 3) + b); break;
                case R_ADDUW: wb(I.rd, (u64)(u32)a + b); break;
                case R_SH1ADDUW: wb(I.rd, ((u64)(u32)a << 1) + b); break;
                case R_SH2ADDUW: wb(I.rd, ((u64)(u32)a << 2) + b); break;
                case R_SH3ADDUW: wb(I.rd, ((u64)(u32)a << 3) + b); break;
                case R_SLLIUW: wb(I.rd, (u64)(u32)a << I.imm); break;
                case R_ANDN: wb(I.rd, a & ~b); break;
                case R_ORN: wb(I.rd, a | ~b); break;
                case R_XNOR: wb(I.rd, ~(a ^ b)); break;
                case R_CLZ: wb(I.rd, a ? (u64)__builtin_clzll(a) : 64); break;
                case R_CTZ: wb(I.rd, a ? (u64)__builtin_ctzll(a) : 64); break;
                case R_CPOP: wb(I.rd, (u64)__builtin_popcountll(a)); break;
                case R_CLZW: wb(I.rd, (u32)a ? (u64)__builtin_clz((u32)a) : 32); break;
                case R_CTZW: wb(I.rd, (u32)a ? (u64)__builtin_ctz((u32)a) : 32); break;
                case R_CPOPW: wb(I.rd, (u64)__builtin_popcount((u32)a)); break;
                case R_MAX: wb(I.rd, (i64)a > (i64)b ? a : b); break;
                case R_MAXU: wb(I.rd, a > b ? a : b); break;
                case R_MIN: wb(I.rd, (i64)a < (i64)b ? a : b); break;
                case R_MINU: wb(I.rd, a < b ? a : b); break;
                case R_SEXTB: wb(I.rd, (u64)sx(a, 8)); break;
                case R_SEXTH: wb(I.rd, (u64)sx(a, 16)); break;
                case R_ZEXTH: wb(I.rd, a & 0xffff); break;
                case R_ROL: { u32 n = b & 63; wb(I.rd, n ? (a << n) | (a >> (64 - n)) : a); break; }
                case R_ROR: { u32 n = b & 63; wb(I.rd, n ? (a >> n) | (a << (64 - n)) : a); break; }
                case R_RORI: { u32 n = (u32)I.imm; wb(I.rd, n ? (a >> n) | (a << (64 - n)) : a); break; }
                case R_ROLW: { u32 n = b & 31, v = (u32)a; wb(I.rd, (u64)(i64)(i32)(n ? (v << n) | (v >> (32 - n)) : v)); break; }
                case R_RORW: { u32 n = b & 31, v = (u32)a; wb(I.rd, (u64)(i64)(i32)(n ? (v >> n) | (v << (32 - n)) : v)); break; }
                case R_RORIW: { u32 n = (u32)I.imm, v = (u32)a; wb(I.rd, (u64)(i64)(i32)(n ? (v >> n) | (v << (32 - n)) : v)); break; }
                case R_ORCB: { u64 r = 0; for(int i = 0; i < 8; ++i) if((a >> (8 * i)) & 0xff) r |= 0xffull << (8 * i); wb(I.rd, r); break; }
                case R_REV8: wb(I.rd, __builtin_bswap64(a)); break;
                case R_FLW: setFraw(c, I.rd, (u32)s.loadPlain(h, a + (u64)I.imm, 4)); break;
                case R_FLD: c.f[I.rd] = s.loadPlain(h, a + (u64)I.imm, 8); break;
                case R_FSW: s.store(h, a + (u64)I.imm, 4, c.f[I.rs2] & 0xffffffff); break;
                case R_FSD: s.store(h, a + (u64)I.imm, 8, c.f[I.rs2]); break;
#define FP2(NAME, EXPR) \
    case NAME: if(I.aux == 0) { float p = getF(c, I.rs1), q = getF(c, I.rs2); (void)p; (void)q; setF(c, I.rd, (float)(EXPR)); } \
               else { double p = getD(c, I.rs1), q = getD(c, I.rs2); (void)p; (void)q; setD(c, I.rd, (EXPR)); } break;
                FP2(R_FADD, p + q)
                FP2(R_FSUB, p - q)
                FP2(R_FMUL, p * q)
                FP2(R_FDIV, p / q)
                FP2(R_FSQRT, std::sqrt(p))
                case R_FMIN: case R_FMAX: {
                    bool mx = I.op == R_FMAX;
                    double p = I.aux ? getD(c, I.rs1) : getF(c, I.rs1), q = I.aux ? getD(c, I.rs2) : getF(c, I.rs2), r;
                    if(std::isnan(p)) r = q;
                    else if(std::isnan(q)) r = p;
                    else if(p == q) r = mx ? (std::signbit(p) ? q : p) : (std::signbit(p) ? p : q);
                    else r = mx ? std::max(p, q) : std::min(p, q);
                    if(I.aux) setD(c, I.rd, r); else setF(c, I.rd, (float)r);
                    break;
                }
                case R_FSGNJ: case R_FSGNJN: case R_FSGNJX: {
                    u64 p = c.f[I.rs1], q = c.f[I.rs2], m = I.aux ? 1ull << 63 : 1ull << 31;
                    u64 sg = I.op == R_FSGNJ ? q & m : I.op == R_FSGNJN ? ~q & m : (p ^ q) & m;
                    u64 r = (p & ~m) | sg;
                    c.f[I.rd] = I.aux ? r : 0xffffffff00000000ull | (u32)r;
                    break;
                }
                case R_FEQ: wb(I.rd, I.aux ? getD(c, I.rs1) == getD(c, I.rs2) : getF(c, I.rs1) == getF(c, I.rs2)); break;
                case R_FLT: wb(I.rd, I.aux ? getD(c, I.rs1) < getD(c, I.rs2) : getF(c, I.rs1) < getF(c, I.rs2)); break;
                case R_FLE: wb(I.rd, I.aux ? getD(c, I.rs1) <= getD(c, I.rs2) : getF(c, I.rs1) <= getF(c, I.rs2)); break;
                case R_FCLASS: {
                    double v = I.aux ? getD(c, I.rs1) : getF(c, I.rs1);
                    int k = std::isnan(v) ? 9 : std::isinf(v) ? (v < 0 ? 0 : 7) : v == 0 ? (std::signbit(v) ? 3 : 4) : (v < 0 ? 1 : 6);
                    wb(I.rd, 1ull << k);
                    break;
                }
                case R_FCVT_I: {
                    double v = I.aux ? getD(c, I.rs1) : (double)getF(c, I.rs1);
                    bool n = std::isnan(v);
                    if(!n && !std::isinf(v)) v = roundRm(v, (int)I.imm == 7 ? 0 : (int)I.imm);
                    switch(I.rs2) {
                        case 0: wb(I.rd, cvt<i32>(v, n)); break;
                        case 1: wb(I.rd, cvt<u32>(v, n)); break;
                        case 2: wb(I.rd, cvt<i64>(v, n)); break;
                        default: wb(I.rd, n ? ~0ull : cvt<u64>(v, false)); break;
                    }
                    break;
                }
                case R_FCVT_F: {
                    if(I.aux == 0) {
                        float f = I.rs2 == 0 ? (float)(i32)a : I.rs2 == 1 ? (float)(u32)a : I.rs2 == 2 ? (float)(i64)a : (float)a;
                        setF(c, I.rd, f);
                    } else {
                        double f = I.rs2 == 0 ? (double)(i32)a : I.rs2 == 1 ? (double)(u32)a : I.rs2 == 2 ? (double)(i64)a : (double)a;
                        setD(c, I.rd, f);
                    }
                    break;
                }
                case R_FCVT_SD: setF(c, I.rd, (float)getD(c, I.rs1)); break;
                case R_FCVT_DS: setD(c, I.rd, (double)getF(c, I.rs1)); break;
                case R_FMVX: wb(I.rd, I.aux ? c.f[I.rs1] : (u64)(i64)(i32)(u32)c.f[I.rs1]); break;
                case R_FMVF: if(I.aux) c.f[I.rd] = a; else setFraw(c, I.rd, (u32)a); break;
                case R_FMADD: case R_FMSUB: case R_FNMSUB: case R_FNMADD: {
                    bool negP = I.op == R_FNMSUB || I.op == R_FNMADD, negA = I.op == R_FMSUB || I.op == R_FNMADD;
                    if(I.aux == 0) {
                        float p = getF(c, I.rs1), q = getF(c, I.rs2), r = getF(c, I.rs3);
                        setF(c, I.rd, std::fma(negP ? -p : p, q, negA ? -r : r));
                    } else {
                        double p = getD(c, I.rs1), q = getD(c, I.rs2), r = getD(c, I.rs3);
                        setD(c, I.rd, std::fma(negP ? -p : p, q, negA ? -r : r));
                    }
                    break;
                }
                default: s.fault("illegal instruction", pc, h);
            }
            c.pc = npc;
            ++s.now;
            --left;
            if(__builtin_expect(s.nextDrain <= s.now, 0)) return Stop::Quantum;
        }
        return Stop::Quantum;
    }
};
