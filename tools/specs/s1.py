C = "src/archon/core/"
SEEDS = [
dict(id="deque-append-leak", property="C17", edits=[(C+"deque.hpp", """            core::uninit_safe_copy(begin + top, end, base); // Throws
        }
        catch (...) {
            core::uninit_destroy(base + offset, top);
            throw;""", """            core::uninit_safe_copy(begin + top, end, base); // Throws
        }
        catch (...) {
            // Already copied elements are discarded as the size is not updated
            throw;""")],
 needs="an element copy that throws in the second half of a range append whose destination wraps around the end of the ring buffer",
 breaks="elements copied before the exception are never destroyed",
 demo=r'''
#include <archon/core/deque.hpp>
#include <vector>
struct E { static inline int live = 0; int v; E(int x) : v(x) { ++live; } E(const E& o) : v(o.v) { if (v < 0) throw 1; ++live; } E(E&& o) noexcept : v(o.v) { ++live; } ~E() { --live; } };
int main()
{
    {
        archon::core::Deque<E> d; d.reserve(7);
        for (int i = 0; i < 5; ++i) { d.push_back(E(1)); d.pop_front(); }
        std::vector<E> v; v.reserve(5); for (int i = 0; i < 4; ++i) v.push_back(E(i)); v.push_back(E(-1));
        try { d.append(v.begin(), v.end()); return 3; } catch (int) {}
        if (d.size() != 0) return 4;
    }
    return E::live == 0 ? 0 : 1;
}
'''),
dict(id="multimap-insert-order", property="C16", edits=[(C+"impl/flat_map_impl.hpp", """    std::size_t i = upper_bound(key); // Throws
""", """    std::size_t i = size();
    if (ARCHON_UNLIKELY(i > 0 && less(key, get_key(m_entries[i - 1])))) // Throws
        i = lower_bound(key); // Throws
""")],
 needs="insertion of a key that exists already while a greater key is present",
 breaks="equal keys are no longer in insertion order",
 demo=r'''
#include <archon/core/flat_multimap.hpp>
int main()
{
    archon::core::FlatMultimap<int, int> m; m.emplace(5, 0); m.emplace(3, 1); m.emplace(3, 2);
    int want[] = { 1, 2, 0 }, i = 0; for (const auto& e : m) if (e.second != want[i++]) return 1;
    return 0;
}
'''),
dict(id="newline-clear-offset", property="C13", edits=[(C+"newline_codec.cpp", "                k = clear_offset + j;\n", "                k = clear_offset + std::size_t(j - buffer_offset);\n")],
 needs="decoding of a newline pair into a buffer that is already partly filled",
 breaks="the reported position after the last decoded newline is wrong",
 demo=r'''
#include <archon/core/newline_codec.hpp>
using namespace archon;
int main()
{
    const char in[] = { 'a', '\r', '\n', 'b' }; char buf[8]; std::size_t i = 0, j = 2, clear = 0;
    core::newline_codec::decode(core::Span<const char>(in, 4), i, true, core::Span<char>(buf, 8), j, 100, clear);
    return i == 4 && j == 5 && clear == 104 ? 0 : 1;
}
'''),
dict(id="vector-insert-throw", property="C18", edits=[(C+"impl/vector_impl.hpp", """        core::uninit_move_downwards(base + offset + move_dist, move_size, move_dist);
        throw;""", """        if (offset > 0)
            core::uninit_move_downwards(base + offset + move_dist, move_size, move_dist);
        throw;""")],
 needs="construction of an element that throws during insertion at the very beginning of a non-empty vector",
 breaks="the other elements are left displaced by one, so that the first is not an object and the last is lost",
 demo=r'''
#include <archon/core/vector.hpp>
struct E { static inline bool bad = false; const E* self; int v; E(int x) : self(this), v(x) { if (bad) throw 1; } E(E&& o) noexcept : self(this), v(o.v) { o.self = nullptr; } ~E() { if (self != this) bad = true; self = nullptr; } };
int main()
{
    bool ok = true;
    {
        archon::core::Vector<E, 4> v; v.emplace_back(1); v.emplace_back(2); E::bad = true;
        try { v.emplace(v.begin(), 3); return 3; } catch (int) {}
        E::bad = false;
        ok = v.size() == 2 && v[0].self == &v[0] && v[0].v == 1 && v[1].v == 2;
    }
    return ok && !E::bad ? 0 : 1;
}
'''),
]
