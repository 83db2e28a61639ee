// Stand-in for the clock of libqi: a signed 64-bit count of nanoseconds.
#pragma once
#include <chrono>
#include <cstdint>
namespace qi {
using Duration = std::chrono::duration<std::int64_t, std::nano>;
using NanoSeconds = Duration;
using Seconds = std::chrono::duration<std::int64_t>;
}
