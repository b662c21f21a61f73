//@ link archon/render/impl/key_bindings.cpp
//@ entry seq C=0..7 L=5|6 time=100|900 covers=press,release,again
//@ entry order C=0..3 L=3|4 covers=press,release
//@ entry blur C=0..3 L=3|4 covers=interrupted,released
//@ entry reject covers=rejected
//@ bound seq: eight sets of up to 5 bindings for 2 keys, 2 modifier modes and multiplicities 1 to 3; every sequence of 5 (6 thorough) events among press and release of both keys, any modifier mode at each press, and loss of focus; all times between events from 0 to 511 milliseconds
//@ bound order: the same binding sets entered in reverse order and once more with the previous handler replaced, 3 (4) events
//@ bound blur: loss of focus with both keys possibly pressed, interrupted by the handlers and resumed, after 3 (4) events
//@ bound reject: every handler identifier other than those registered
//@ assume no key is rebound while it is pressed (rebinding forgets the state of the key)
#include "sym.hpp"
#include <archon/render/impl/key_bindings.hpp>
using namespace archon;
using KB = render::impl::KeyBindings; using Ident = KB::KeyIdent;
struct Call { int h; bool down; };
static Call calls[64]; static int num_calls; static bool proceed[64]; static int force = -1;
struct B { int key; unsigned mode; int mult; int h; };
static const B configs[8][6] = {
    { { 0, 0, 1, 0 }, { -1 } },
    { { 0, 0, 1, 0 }, { 0, 0, 2, 1 }, { -1 } },
    { { 0, 0, 2, 0 }, { 1, 0, 1, 0 }, { -1 } },
    { { 0, 0, 1, 0 }, { 0, 1, 1, 1 }, { 1, 0, 1, 2 }, { -1 } },
    { { 0, 0, 1, 0 }, { 0, 0, 3, 1 }, { -1 } },
    { { 0, 1, 2, 0 }, { 0, 0, 1, 1 }, { -1 } },
    { { 0, 0, 1, 0 }, { 0, 0, 2, 1 }, { 0, 1, 1, 2 }, { 1, 1, 1, 2 }, { -1 } },
    { { 1, 0, 1, 0 }, { 0, 0, 1, 1 }, { 0, 0, 2, 2 }, { 0, 0, 3, 0 }, { 1, 0, 2, 1 }, { -1 } } };
// What each key has done so far
struct Key { bool down = false; int handler = -1; int count = 0; unsigned mode = 0; long time = 0; };
struct Model { const B* b; Key k[2]; };
static Ident ident(int k) { return k == 0 ? Ident(display::KeyCode { 97 }) : Ident(display::MouseButton {}); }
static void setup(KB& kb, const B* b, bool reverse)
{
    for (int h = 0; h < 3; ++h) kb.register_handler("x", [h](bool down) { calls[num_calls] = { h, down }; return proceed[num_calls++]; });
    int n = 0; while (b[n].key >= 0) ++n;
    for (int i = 0; i < n; ++i) { const B& x = b[reverse ? n - 1 - i : i]; if (reverse) kb.bind_key(ident(x.key), { x.mode }, { x.mult }, { (x.h + 1) % 3 }); kb.bind_key(ident(x.key), { x.mode }, { x.mult }, { x.h }); }
}
static void event(KB& kb, Model& m, long& now, bool focus)
{
    int e = sym_choice("event", focus ? 5 : 4); now += long(irsym_bits("dt", 9)); int before = num_calls; bool p = sym_choice("proceed", 2); for (bool& x : proceed) x = p;
    if (e == 4) {
        for (bool& x : proceed) x = true; CHECKM(kb.on_blur(), "loss of focus completes");
        bool want[3] = {}; int n = 0; for (Key& k : m.k) { if (k.down && k.handler >= 0) { ++n; want[k.handler] = true; } k = Key(); }
        CHECKM(num_calls == before + n, "one release per pressed binding"); for (int i = before; i < num_calls; ++i) CHECKM(!calls[i].down && want[calls[i].h], "release of a pressed binding"); return;
    }
    int ki = e & 1; Key& k = m.k[ki]; std::chrono::milliseconds ts(now); bool r;
    if (e < 2) {
        unsigned mode = unsigned(sym_choice("mode", 2)); kb.set_modifier_mode({ mode }); r = kb.on_keydown(ident(ki), ts); if (k.down) { CHECKM(r && num_calls == before, "no press of a pressed key"); return; }
        int max = 0; for (const B* b = m.b; b->key >= 0; ++b) if (b->key == ki && b->mult > max) max = b->mult;
        if (max == 0) { CHECKM(r && num_calls == before, "unbound key"); return; }
        // a press belongs to a multi-press when it follows soon enough in the same mode and more presses have a meaning
        bool again = k.count > 0 && k.mode == mode && k.count < max; if (again && now - k.time > 250) again = false;
        if (again) COVER("again"); k.count = again ? k.count + 1 : 1; k.mode = mode; k.time = now; k.down = true; k.handler = -1;
        for (const B* b = m.b; b->key >= 0; ++b) if (b->key == ki && b->mode == mode && b->mult == k.count) k.handler = b->h;
        if (k.handler >= 0) { COVER("press"); CHECKM(num_calls == before + 1 && calls[before].h == k.handler && calls[before].down && r == p, "press of the bound handler"); } else CHECKM(r && num_calls == before, "no binding for this combination");
    }
    else {
        r = kb.on_keyup(ident(ki), ts); bool was = k.down; k.down = false;
        if (was && k.handler >= 0) { COVER("release"); CHECKM(num_calls == before + 1 && calls[before].h == k.handler && !calls[before].down && r == p, "release of the pressed handler"); } else CHECKM(r && num_calls == before, "nothing to release");
    }
}
HARNESS(seq) { const B* b = configs[param("C", 0)]; KB kb; setup(kb, b, false); Model m { b }; long now = 1000; int n = param("L", 5); for (int i = 0; i < n; ++i) event(kb, m, now, true); }
HARNESS(order) { const B* b = configs[4 + param("C", 0)]; KB kb; setup(kb, b, true); Model m { b }; long now = 0; int n = param("L", 3); for (int i = 0; i < n; ++i) event(kb, m, now, false); }
HARNESS(blur)
{
    const B* b = configs[param("C", 0) == 0 ? 2 : param("C", 0) == 1 ? 3 : 4 + param("C", 0)]; KB kb; setup(kb, b, false); Model m { b }; long now = 0; int n = param("L", 3); for (int i = 0; i < n; ++i) event(kb, m, now, false);
    int before = num_calls; for (int i = 0; i < 64; ++i) proceed[i] = true; bool i1 = sym_choice("int1", 2), i2 = sym_choice("int2", 2); proceed[before] = !i1; proceed[before + 1] = !i2;
    int want = 0; int hs[2]; for (int i = 0; i < 2; ++i) if (m.k[i].down && m.k[i].handler >= 0) hs[want++] = m.k[i].handler;
    bool done = kb.on_blur(); int seen = num_calls - before;
    if (!done) COVER("interrupted"); CHECKM(done == !((want > 0 && i1) || (want > 1 && i2)), "interrupted exactly when a handler asks for it"); int expect = want > 0 && i1 ? 1 : want; CHECKM(seen == expect, "calls until the interruption");
    if (!done) { bool again = kb.resume_incomplete_on_blur_if_any(); if (!again) { CHECKM(want == 2 && i1 && i2, "interrupted again"); again = kb.resume_incomplete_on_blur_if_any(); } CHECKM(again, "completed"); }
    CHECKM(kb.resume_incomplete_on_blur_if_any() && num_calls == before + want, "every pressed binding released exactly once"); if (want > 0) COVER("released");
    if (want == 2) CHECKM((calls[before].h == hs[0] && calls[before + 1].h == hs[1]) || (calls[before].h == hs[1] && calls[before + 1].h == hs[0]), "each of them"); else if (want == 1) CHECKM(calls[before].h == hs[0], "that one"); for (int i = before; i < num_calls; ++i) CHECKM(!calls[i].down, "releases only");
    for (Key& k : m.k) k = Key(); event(kb, m, now, false);
}
HARNESS(reject)
{
    KB kb; int n = sym_choice("n", 3); for (int i = 0; i < n; ++i) CHECK(kb.register_handler("x", [](bool) { return true; }).value == i); int h = sym<int>("h"); bool thrown = false; try { kb.bind_key(ident(0), { 0 }, { 1 }, { h }); } catch (std::invalid_argument&) { thrown = true; COVER("rejected"); }
    CHECKM(thrown == (h < 0 || h >= n), "unknown handlers are refused");
}
