// SysY I/O host calls (text semantics of sylib's scanf/printf) for Sim<>.
#pragma once
#include "core.hpp"
template <class S>
bool sysyHostcall(S& s, typename S::H& h, u32 nr) {
    using Isa = std::remove_reference_t<decltype(s)>;
    (void)sizeof(Isa);
    auto arg = [&](int i) { return (i32)S::argOf(h, i); };
    auto ret = [&](i64 v) { s.sysRet(h, v); };
    auto skip = [&] { while(s.inPos < s.input.size() && isspace((unsigned char)s.input[s.inPos])) ++s.inPos; };
    switch(nr) {
        case 5000: {
            skip();
            char* e = nullptr;
            const char* b = s.input.c_str() + s.inPos;
            long v = strtol(b, &e, 10);
            s.inPos += (size_t)(e - b);
            ret((i32)v);
            return true;
        }
        case 5001: ret(s.inPos < s.input.size() ? (unsigned char)s.input[s.inPos++] : -1); return true;
        case 5002: {
            skip();
            char* e = nullptr;
            const char* b = s.input.c_str() + s.inPos;
            float v = strtof(b, &e);
            s.inPos += (size_t)(e - b);
            i32 bits; memcpy(&bits, &v, 4);
            ret(bits);
            return true;
        }
        case 5010: s.res.output += std::to_string(arg(0)); ret(0); break;
        case 5011: s.res.output += (char)arg(0); ret(0); break;
        case 5012: {
            i32 b = arg(0); float f; memcpy(&f, &b, 4);
            char buf[64]; snprintf(buf, sizeof buf, "%a", (double)f);
            s.res.output += buf; ret(0); break;
        }
        default: return false;
    }
    if(s.res.output.size() > (16u << 20)) throw Trap{ "output flood" };
    return true;
}
