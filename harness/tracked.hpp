#pragma once
// Element type that checks that every object is constructed once, destroyed once, and only used while it exists.
#include "sym.hpp"
struct Tracked {
    static inline long live = 0;
    static inline int throw_in = -1; // copy/value construction number `throw_in` from now throws (-1: never)
    struct Refused {};
    const Tracked* self; unsigned char val;
    static void tick() { if (throw_in >= 0 && throw_in-- == 0) throw Refused(); }
    Tracked() : val(0) { tick(); self = this; ++live; }
    Tracked(unsigned char v) noexcept : self(this), val(v) { ++live; }
    Tracked(const Tracked& o) : val(o.get()) { tick(); self = this; ++live; }
    Tracked(Tracked&& o) noexcept : self(this), val(o.get()) { o.val = 0xEE; ++live; }
    Tracked& operator=(const Tracked& o) { CHECKM(self == this, "assignment to an object that exists"); val = o.get(); return *this; }
    Tracked& operator=(Tracked&& o) noexcept { CHECKM(self == this, "assignment to an object that exists"); val = o.get(); if (&o != this) o.val = 0xEE; return *this; }
    ~Tracked() { CHECKM(self == this, "destruction of an object that exists"); self = nullptr; --live; }
    unsigned char get() const { CHECKM(self == this, "use of an object that exists"); return val; }
    bool operator==(const Tracked& o) const { return get() == o.get(); }
    bool operator!=(const Tracked& o) const { return get() != o.get(); }
    bool operator<(const Tracked& o) const { return get() < o.get(); }
};
inline unsigned char value_of(const Tracked& t) { return t.get(); }
inline unsigned char value_of(unsigned char t) { return t; }
// Reference sequence
struct Seq {
    unsigned char v[24]; int n = 0;
    void add(unsigned char x) { v[n++] = x; }
    void insert(int i, unsigned char x) { for (int k = n; k > i; --k) v[k] = v[k - 1]; v[i] = x; ++n; }
    void erase(int i, int j) { for (int k = j; k < n; ++k) v[i + k - j] = v[k]; n -= j - i; }
};
// Single-pass input iterator over bytes
struct InIter {
    using iterator_category = std::input_iterator_tag; using value_type = unsigned char; using difference_type = std::ptrdiff_t; using pointer = const unsigned char*; using reference = unsigned char;
    const unsigned char* p;
    unsigned char operator*() const { return *p; } InIter& operator++() { ++p; return *this; } InIter operator++(int) { InIter i = *this; ++p; return i; }
    bool operator==(InIter o) const { return p == o.p; } bool operator!=(InIter o) const { return p != o.p; }
};
