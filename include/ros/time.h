// Stand-in for ros::Time, as documented: two unsigned 32-bit counts, where
// (0, 0) is not a time, and conversions out of their range are refused.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <limits>
#include <stdexcept>
namespace ros {
struct Time {
  uint32_t sec = 0, nsec = 0;
  Time() {}
  explicit Time(uint32_t s, uint32_t n = 0) : sec(s), nsec(n) {}
  Time &fromNSec(uint64_t t) {
    uint64_t s = t / 1000000000ull;
    if (s > std::numeric_limits<uint32_t>::max()) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = (uint32_t)s;
    nsec = (uint32_t)(t % 1000000000ull);
    return *this;
  }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ull + nsec; }
  bool operator==(const Time &o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time &o) const { return !(*this == o); }
  bool operator<(const Time &o) const { return toNSec() < o.toNSec(); }
  bool operator<=(const Time &o) const { return toNSec() <= o.toNSec(); }
};
const Time TIME_MIN(0, 1);
const Time TIME_MAX(std::numeric_limits<uint32_t>::max(), 999999999);
}
