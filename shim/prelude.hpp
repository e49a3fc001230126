#if defined(VP_SCHED)
// block copies are memory accesses like any other: let the race detector see them
extern "C" {
void* memcpy(void*, const void*, __SIZE_TYPE__) noexcept __asm__("vp_memcpy");
void* memmove(void*, const void*, __SIZE_TYPE__) noexcept __asm__("vp_memmove");
void* memset(void*, int, __SIZE_TYPE__) noexcept __asm__("vp_memset");
int memcmp(const void*, const void*, __SIZE_TYPE__) noexcept __asm__("vp_memcmp");
}
#endif
// Forced include (as the pinned build does): dottorrent relies on its dependencies
// pulling these in transitively.
#include <algorithm>
#include <array>
#include <atomic>
#include <charconv>
#include <chrono>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <stack>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <fmt/format.h>
