//@ entry suggest covers=enough,grow,limit
//@ entry ops N=4|6 K=0..13
//@ entry seeded N=3|5
//@ entry contents N=4|6 K=0..4
//@ entry refuse covers=refused,granted
//@ entry at covers=in,out
//@ bound suggest: every current size, minimum size and maximum size (64-bit) meeting the documented preconditions
//@ bound ops: buffers with seed memory of 0 to N elements (4 quick, 6 thorough) after 0 or 1 reallocations, every used size, every element value, one operation of each kind with every count up to N + 1, then an append
//@ bound seeded: every combination of seed memory size, buffer size and data size up to N
//@ bound contents: element and string contents over a buffer, every size up to N, every count up to N + 1
//@ bound refuse: every pair of 64-bit minimum extra size and 64-bit maximum size, used sizes up to 3; requests within the maximum only up to 8 elements
//@ bound at: element access by checked index, every 64-bit index, sizes up to 3
#include "tracked.hpp"
#include <archon/core/buffer.hpp>
#include <archon/core/array_seeded_buffer.hpp>
#include <archon/core/buffer_contents.hpp>
#include <archon/core/string_buffer_contents.hpp>
using namespace archon;
typedef unsigned char uc; typedef std::size_t sz;

HARNESS(suggest)
{
    sz cur = sym<sz>("cur"), min = sym<sz>("min"), max = sym<sz>("max"); irsym_assume((max >= cur) & (max >= min));
    sz r = core::suggest_new_buffer_size(cur, min, max); observe("r", r);
    CHECKM(r >= min, "not below the minimum"); CHECKM(r <= max, "not above the maximum"); CHECKM(r >= cur, "not below the current size");
    if (cur >= min) { CHECKM(r == cur, "unchanged when sufficient"); COVER("enough"); }
    else { sz half = cur / 2; bool room = max - cur >= half; sz g = room ? cur + half : max; CHECKM(r == (g > min ? g : min), "growth by half"); if (room) COVER("grow"); else COVER("limit"); }
    sz r2 = core::suggest_new_buffer_size(cur, min); CHECKM(r2 >= min && r2 >= cur, "default maximum");
}

HARNESS(ops)
{
  {
    int N = param("N", 4), s = sym_choice("seed size", N + 1), used = sym_choice("used", N + 1);
    uc* seed = new uc[s ? s : 1];
    core::Buffer<uc> b(core::Span<uc>(seed, sz(s)));
    if (used > s || sym_choice("realloc", 2)) b.reserve(sz(used > s ? used : s + 1));
    CHECKM(int(b.size()) >= used, "size reserved");
    uc ref[24]; irsym_bytes(ref, sz(used), "ref"); for (int i = 0; i < used; ++i) b[sz(i)] = ref[i];
    sz before = b.size(), off = sz(used); int k = sym_choice("count", N + 2), n = used; uc v = sym<uc>("v"), src[16]; irsym_bytes(src, sz(k), "src");
    bool front = false;
    switch (param("K", 0)) {
        case 0: b.reserve_extra(sz(k), sz(used)); CHECKM(b.size() - sz(used) >= sz(k), "extra space"); break;
        case 1: b.reserve(sz(k), sz(used)); CHECKM(b.size() >= sz(k), "space"); break;
        case 2: b.expand(sz(used)); CHECKM(b.size() > before, "expanded"); break;
        case 3: b.expand_a(sz(k), sz(used)); CHECKM(b.size() >= before + sz(k), "expanded"); break;
        case 4: { int calls = 0; b.reserve_f(sz(k), sz(used), [&](core::Span<uc> m) noexcept { ++calls; CHECKM(m.size() >= sz(k), "size of new memory"); for (sz i = 0; i < m.size(); ++i) m[i] = v; }); CHECKM(b.size() >= sz(k) && calls == (sz(k) > before), "initialization of new memory"); if (calls) for (sz i = sz(used); i < b.size(); ++i) CHECKM(b[i] == v, "initialized"); break; }
        case 5: b.append(core::Span<const uc>(src, sz(k)), off); for (int i = 0; i < k; ++i) ref[n++] = src[i]; break;
        case 6: b.append_a(v, off, sz(k)); for (int i = 0; i < k; ++i) ref[n++] = v; break;
        case 7: b.assign(core::Span<const uc>(src, sz(k))); off = sz(k); n = k; for (int i = 0; i < k; ++i) ref[i] = src[i]; break;
        case 8: b.assign_a(v, sz(k)); off = sz(k); n = k; for (int i = 0; i < k; ++i) ref[i] = v; break;
        case 9: case 10: { // contents at the end of the buffer
            front = true; off = b.size() - sz(used); for (int i = 0; i < used; ++i) b[off + sz(i)] = ref[i];
            if (param("K", 0) == 9) b.prepend(core::Span<const uc>(src, sz(k)), off); else b.prepend_a(v, off, sz(k));
            CHECKM(b.size() - off == sz(used + k), "offset of prepended contents");
            for (int i = 0; i < k; ++i) CHECKM(b[off + sz(i)] == (param("K", 0) == 9 ? src[i] : v), "prepended contents");
            for (int i = 0; i < used; ++i) CHECKM(b[off + sz(k + i)] == ref[i], "kept contents");
            break; }
        case 11: { core::Buffer<uc> c(std::move(b)); CHECKM(b.size() == 0 && c.size() == before, "moved-from buffer"); for (int i = 0; i < used; ++i) CHECKM(c[sz(i)] == ref[i], "moved contents"); b = std::move(c); CHECKM(c.size() == 0, "moved-from buffer"); break; }
        case 12: b.reserve_extra(sz(k), sz(used), before + 20); CHECKM(b.size() - sz(used) >= sz(k) && b.size() <= before + 20, "space within maximum"); break;
        case 13: { sz max = sym_choice("max", N + 3) + before; bool refused = false; try { b.reserve_extra(sz(k), sz(used), max); } catch (const std::length_error&) { refused = true; } CHECKM(refused == (sz(used + k) > max && sz(used + k) > before), "refused exactly when above the maximum"); CHECKM(b.size() <= max, "size within maximum"); if (refused) CHECKM(b.size() == before, "size kept"); break; }
    }
    if (!front) {
        CHECKM(off == sz(n), "offset after operation"); CHECKM(sz(n) <= b.size(), "size");
        const core::Buffer<uc>& c = b; int i = 0;
        bool ok = true; for (i = 0; i < n; ++i) ok = ok & (c[sz(i)] == ref[i]) & (c.data()[i] == ref[i]) & (c.span()[sz(i)] == ref[i]) & (c.begin()[i] == ref[i]) & (c.at(sz(i)) == ref[i]) & (b.at(sz(i)) == ref[i]);
        CHECKM(ok, "contents"); CHECKM(sz(c.end() - c.begin()) == c.size() && c.span().size() == c.size(), "range");
        b.append_a(v, off); CHECKM(off == sz(n + 1) && b[sz(n)] == v, "contents after append"); for (i = 0; i < n; ++i) CHECKM(b[sz(i)] == ref[i], "contents after append");
    }
    b = core::Buffer<uc>(); delete[] seed;
  }
  CHECKM(irsym_live_heap() == 0, "memory released");
}

HARNESS(seeded)
{
    int N = param("N", 3), n = sym_choice("n", N + 2); uc src[8]; irsym_bytes(src, sz(n), "src");
    core::ArraySeededBuffer<uc, 3> a; CHECKM(a.size() == 3, "seed size");
    core::ArraySeededBuffer<uc, 3> b((sz(n))); CHECKM(b.size() == sz(n), "requested size");
    core::ArraySeededBuffer<uc, 3> c(core::BufferDataTag(), core::Span<const uc>(src, sz(n))); CHECKM(c.size() == sz(n), "size of data");
    for (int i = 0; i < n; ++i) { CHECKM(c[sz(i)] == src[i], "data"); b[sz(i)] = src[i]; }
    sz off = sz(n); b.append_a(7, off, 2); for (int i = 0; i < n; ++i) CHECKM(b[sz(i)] == src[i], "contents kept");
    core::Buffer<uc> d((sz(n))); CHECKM(d.size() == sz(n), "requested size"); core::Buffer<uc> e(core::BufferDataTag(), core::Span<const uc>(src, sz(n))); for (int i = 0; i < n; ++i) CHECKM(e[sz(i)] == src[i], "data");
}

HARNESS(contents)
{
    int N = param("N", 4), s = sym_choice("seed size", N + 1), used = sym_choice("used", N + 1), k = sym_choice("count", N + 2), n = used;
    char ref[24], src[16], v = sym<char>("v"), seed[8]; irsym_bytes(ref, sz(used), "ref"); irsym_bytes(src, sz(k), "src");
    core::Buffer<char> b(core::Span<char>(seed, sz(s))); core::BufferContents<char> c(b);
    for (int i = 0; i < used; ++i) c.push_back(char(ref[i]));
    switch (param("K", 0)) {
        case 0: c.append(core::Span<const char>(src, sz(k))); for (int i = 0; i < k; ++i) ref[n++] = src[i]; break;
        case 1: c.append(sz(k), v); for (int i = 0; i < k; ++i) ref[n++] = v; break;
        case 2: c.clear(); n = 0; break;
        case 3: { core::Buffer<char> b2(core::Span<char>(seed, sz(s))); core::StringBufferContents q(b2); q.append(core::StringSpan<char>(ref, sz(used))); q.append(core::StringSpan<char>(src, sz(k))); q.append(2, v); CHECKM(q.size() == sz(used + k + 2), "size"); for (int i = 0; i < used; ++i) CHECKM(q[sz(i)] == ref[i], "text"); for (int i = 0; i < k; ++i) CHECKM(q[sz(used + i)] == src[i], "text"); CHECKM(q[sz(used + k)] == v && q.data()[used + k + 1] == v, "text"); if (k) { q.set_size(1); CHECKM(q.size() == 1 && q.end() - q.begin() == 1, "size"); } q.clear(); CHECKM(q.empty(), "empty"); return; }
        case 4: c.push_back(static_cast<const char&>(v)); ref[n++] = v; break;
    }
    CHECKM(c.size() == sz(n) && c.empty() == (n == 0) && c.end() - c.begin() == n, "size");
    bool ok = true; for (int i = 0; i < n; ++i) ok = ok & (c[sz(i)] == ref[i]) & (c.data()[i] == ref[i]); CHECKM(ok, "contents");
}

HARNESS(refuse)
{
    char seed[3]; core::Buffer<char> b(core::Span<char>(seed, sz(3))); int used = sym_choice("used", 4); for (int i = 0; i < used; ++i) b[sz(i)] = char(i);
    sz extra = sym<sz>("extra"), max = sym<sz>("max"); bool over = extra > max || sz(used) > max - extra, need = extra > 3 - sz(used);
    irsym_assume((max >= 3) & (over | (extra <= 8) | !need)); if (!over) extra = irsym_concretize(extra);
    bool refused = false; sz off = sz(used);
    try { b.reserve_extra(extra, off, max); } catch (const std::length_error&) { refused = true; }
    CHECKM(refused == (over && need), "refused exactly when above the maximum"); CHECKM(b.size() <= max, "size within the maximum");
    if (refused) { COVER("refused"); CHECKM(b.size() == 3, "size kept"); } else { COVER("granted"); CHECKM(b.size() - off >= extra, "space"); }
    for (int i = 0; i < used; ++i) CHECKM(b[sz(i)] == char(i), "contents kept");
}

HARNESS(at)
{
    int n = sym_choice("n", 4); uc* mem = new uc[n ? n : 1]; for (int i = 0; i < n; ++i) mem[i] = uc(i);
    core::Buffer<uc> b(core::Span<uc>(mem, sz(n))); const core::Buffer<uc>& c = b;
    sz i = sym<sz>("index"); if (i < 8) i = irsym_concretize(i);
    bool thrown = false, thrown2 = false; uc v = 0;
    try { v = b.at(i); CHECKM(v == i, "element"); } catch (const std::out_of_range&) { thrown = true; }
    try { v = c.at(i); CHECKM(v == i, "element"); } catch (const std::out_of_range&) { thrown2 = true; }
    CHECKM(thrown == (i >= sz(n)) && thrown2 == thrown, "refused exactly when out of range"); if (thrown) COVER("out"); else COVER("in");
    delete[] mem;
}
