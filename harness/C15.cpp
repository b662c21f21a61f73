//@ entry map_tracked N=3|5 K=0..9
//@ entry map_bytes N=3|5 K=0..9
//@ entry set_tracked N=3|5 K=0..7
//@ entry set_bytes N=4|5 K=0..7
//@ bound *: containers built by up to N insertions of arbitrary keys (N up to 4 quick, 5 thorough), with and without reserved capacity, then one operation of each kind with arbitrary key; key and value types: unsigned char and a type with object identity; in-object capacity 0 (bytes) or 2 (type with identity)
#include "flat.hpp"
HARNESS(map_tracked) { Ops<core::FlatMap<uc, Tracked, 2>, false, false, uc, Tracked>::run(param("N", 3)); }
HARNESS(map_bytes) { Ops<core::FlatMap<uc, uc>, false, false, uc>::run(param("N", 3)); }
HARNESS(set_tracked) { Ops<core::FlatSet<Tracked, 2>, true, false, Tracked>::run(param("N", 3)); }
HARNESS(set_bytes) { Ops<core::FlatSet<uc>, true, false, uc>::run(param("N", 3)); }
