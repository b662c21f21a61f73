//@ entry multimap_tracked N=3|5 K=0..7
//@ entry multimap_bytes N=3|5 K=0..7
//@ entry multiset_tracked N=3|5 K=0..7
//@ entry multiset_bytes N=4|5 K=0..7
//@ bound *: containers built by up to N insertions of arbitrary keys (N up to 4 quick, 5 thorough), with and without reserved capacity, then one operation of each kind with arbitrary key; key and value types: unsigned char and a type with object identity; in-object capacity 0 (bytes) or 2 (type with identity)
#include "flat.hpp"
HARNESS(multimap_tracked) { Ops<core::FlatMultimap<uc, Tracked, 2>, false, true, uc, Tracked>::run(param("N", 3)); }
HARNESS(multimap_bytes) { Ops<core::FlatMultimap<uc, uc>, false, true, uc>::run(param("N", 3)); }
HARNESS(multiset_tracked) { Ops<core::FlatMultiset<Tracked, 2>, true, true, Tracked>::run(param("N", 3)); }
HARNESS(multiset_bytes) { Ops<core::FlatMultiset<uc>, true, true, uc>::run(param("N", 3)); }
