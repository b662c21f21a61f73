// Dispatch over the built-in integer types
#pragma once
#include "sym.hpp"
#include <tuple>
#include <utility>
using i8 = signed char; using u8 = unsigned char; using i16 = short; using u16 = unsigned short;
using i32 = int; using u32 = unsigned; using i64 = long; using u64 = unsigned long;
using i128 = __int128; using u128 = unsigned __int128;
using AllInts = std::tuple<i8, u8, i16, u16, i32, u32, i64, u64>;
using SmallInts = std::tuple<i8, u8, i16, u16>;
template<class Tuple, class F> void with_type(int k, F f)
{
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        ((k == int(I) ? (f.template operator()<std::tuple_element_t<I, Tuple>>(), void()) : void()), ...);
    }(std::make_index_sequence<std::tuple_size_v<Tuple>>());
}
template<class Tuple, class F> void with_pair(int k, F f)
{
    constexpr int n = int(std::tuple_size_v<Tuple>);
    with_type<Tuple>(k / n, [&]<class A>() { with_type<Tuple>(k % n, [&]<class B>() { f.template operator()<A, B>(); }); });
}
template<class T> constexpr bool fits(i128 v) { return v >= i128(std::numeric_limits<T>::min()) && v <= i128(std::numeric_limits<T>::max()); }
