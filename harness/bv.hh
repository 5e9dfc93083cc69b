// 512-bit two-state bit vectors with IEEE-1800 arithmetic (reference arithmetic of the oracle)
#pragma once
#include <array>
#include <cstdint>
#include <stdexcept>
#include <string>
namespace sv {
struct Unsupported : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct BV {
    static constexpr uint32_t NW = 8;
    uint32_t w = 1;
    std::array<uint64_t, NW> d{};
    BV() = default;
    explicit BV(uint32_t w_, uint64_t v = 0) : w(w_) {
        if (w == 0 || w > NW * 64) throw Unsupported("vector width " + std::to_string(w_));
        d[0] = v;
        trim();
    }
    void trim() {
        for (uint32_t i = 0; i < NW; i++) {
            if (i * 64 >= w)
                d[i] = 0;
            else if (w - i * 64 < 64)
                d[i] &= (uint64_t(1) << (w - i * 64)) - 1;
        }
    }
    bool bit(uint32_t i) const { return i < w && ((d[i / 64] >> (i % 64)) & 1); }
    void set(uint32_t i, bool b) {
        if (i >= w) return;
        if (b)
            d[i / 64] |= uint64_t(1) << (i % 64);
        else
            d[i / 64] &= ~(uint64_t(1) << (i % 64));
    }
    bool zero() const {
        for (auto x : d)
            if (x) return false;
        return true;
    }
    uint64_t u64() const { return d[0]; }
    bool fits64() const {
        for (uint32_t i = 1; i < NW; i++)
            if (d[i]) return false;
        return true;
    }
    BV resize(uint32_t nw, bool sgn) const {
        BV r(nw);
        r.d = d;
        if (nw > w && sgn && bit(w - 1))
            for (uint32_t i = w; i < nw; i++) r.set(i, true);
        r.trim();
        return r;
    }
    BV slice(uint32_t hi, uint32_t lo) const {
        BV r(hi - lo + 1);
        for (uint32_t i = lo; i <= hi; i++) r.set(i - lo, bit(i));
        return r;
    }
    void insert(uint32_t lo, const BV& v) {
        for (uint32_t i = 0; i < v.w; i++) set(lo + i, v.bit(i));
    }
    bool operator==(const BV& o) const { return w == o.w && d == o.d; }
    bool operator!=(const BV& o) const { return !(*this == o); }
    std::string hex() const {
        std::string s;
        static const char* H = "0123456789abcdef";
        for (int i = (int)((w + 3) / 4) - 1; i >= 0; i--) s += H[(d[i / 16] >> ((i % 16) * 4)) & 15];
        return std::to_string(w) + "'h" + s;
    }
};
inline BV bnot(BV a) {
    for (auto& x : a.d) x = ~x;
    a.trim();
    return a;
}
inline BV band(BV a, const BV& b) {
    for (uint32_t i = 0; i < BV::NW; i++) a.d[i] &= b.d[i];
    return a;
}
inline BV bor(BV a, const BV& b) {
    for (uint32_t i = 0; i < BV::NW; i++) a.d[i] |= b.d[i];
    return a;
}
inline BV bxor(BV a, const BV& b) {
    for (uint32_t i = 0; i < BV::NW; i++) a.d[i] ^= b.d[i];
    return a;
}
inline BV add(BV a, const BV& b, bool cin = false) {
    unsigned __int128 c = cin;
    for (uint32_t i = 0; i < BV::NW; i++) {
        c += (unsigned __int128)a.d[i] + b.d[i];
        a.d[i] = (uint64_t)c;
        c >>= 64;
    }
    a.trim();
    return a;
}
inline BV sub(const BV& a, const BV& b) {
    BV nb = b;
    for (auto& x : nb.d) x = ~x;
    BV r = a;
    unsigned __int128 c = 1;
    for (uint32_t i = 0; i < BV::NW; i++) {
        c += (unsigned __int128)a.d[i] + nb.d[i];
        r.d[i] = (uint64_t)c;
        c >>= 64;
    }
    r.trim();
    return r;
}
inline BV neg(const BV& a) { return sub(BV(a.w), a); }
inline BV mul(const BV& a, const BV& b) {
    BV r(a.w);
    for (uint32_t i = 0; i < BV::NW; i++) {
        unsigned __int128 c = 0;
        for (uint32_t j = 0; i + j < BV::NW; j++) {
            c += (unsigned __int128)a.d[i] * b.d[j] + r.d[i + j];
            r.d[i + j] = (uint64_t)c;
            c >>= 64;
        }
    }
    r.trim();
    return r;
}
inline BV shl(const BV& a, uint64_t n) {
    BV r(a.w);
    if (n >= a.w) return r;
    for (uint32_t i = (uint32_t)n; i < a.w; i++) r.set(i, a.bit(i - (uint32_t)n));
    return r;
}
inline BV shr(const BV& a, uint64_t n, bool fill) {
    BV r(a.w);
    for (uint32_t i = 0; i < a.w; i++) {
        uint64_t s = i + n;
        r.set(i, (n >= a.w || s >= a.w) ? fill : a.bit((uint32_t)s));
    }
    return r;
}
inline bool ult(const BV& a, const BV& b) {
    for (int i = BV::NW - 1; i >= 0; i--)
        if (a.d[i] != b.d[i]) return a.d[i] < b.d[i];
    return false;
}
inline bool slt(const BV& a, const BV& b) {
    bool sa = a.bit(a.w - 1), sb = b.bit(b.w - 1);
    if (sa != sb) return sa;
    return ult(a, b);
}
inline void udivmod(const BV& a, const BV& b, BV& q, BV& r) {
    q = BV(a.w);
    r = BV(a.w);
    if (a.fits64() && b.fits64()) {
        q.d[0] = a.d[0] / b.d[0];
        r.d[0] = a.d[0] % b.d[0];
        return;
    }
    for (int i = (int)a.w - 1; i >= 0; i--) {
        BV wide(std::min<uint32_t>(a.w + 1, 512));
        wide.d = r.d;
        wide = shl(wide, 1);
        wide.set(0, a.bit(i));
        BV bb = wide;
        bb.d = b.d;
        if (!ult(wide, bb)) {
            wide = sub(wide, bb);
            q.set(i, true);
        }
        r.d = wide.d;
        r.trim();
    }
}
}  // namespace sv
