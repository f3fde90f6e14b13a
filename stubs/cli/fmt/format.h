// Stand-in for {fmt}: messages are counted, not formatted.
#pragma once
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <iterator>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
namespace fmt {
inline int messages = 0;
template<typename... A>
void println(A const&...)
{
    ++messages;
}
template<typename... A>
void print(A const&...)
{
    ++messages;
}
template<typename... A>
auto format(std::string_view f, A const&...) -> std::string
{
    return std::string{f};
}
}  // namespace fmt
