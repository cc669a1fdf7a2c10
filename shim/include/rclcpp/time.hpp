// Stand-in for rclcpp's Time and Duration (ROS is not installed here): same representation (int64
// nanoseconds) and the same conversions.
#pragma once
#include <chrono>
#include <cstdint>
#include <limits>
#include <stdexcept>

namespace rclcpp {

class Duration
{
  int64_t ns_;

public:
  explicit Duration(int64_t ns) : ns_(ns) {}
  explicit Duration(std::chrono::nanoseconds ns) : ns_(ns.count()) {}
  static Duration from_nanoseconds(int64_t ns) { return Duration(ns); }
  static Duration from_seconds(double s) { return Duration(static_cast<int64_t>(s * 1e9)); }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  template<class D>
  D to_chrono() const
  {
    return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_));
  }
};

class Time
{
  int64_t ns_;

public:
  explicit Time(int64_t ns = 0) : ns_(ns) {}
  Time(int32_t s, uint32_t ns) : ns_(int64_t(s) * 1000000000 + ns)
  {
    if (s < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time");
  }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  Time operator+(const Duration & d) const
  {
    int64_t r;
    if (__builtin_add_overflow(ns_, d.nanoseconds(), &r)) throw std::overflow_error("addition leads to int64_t overflow");
    return Time(r);
  }
  Time operator-(const Duration & d) const
  {
    int64_t r;
    if (__builtin_sub_overflow(ns_, d.nanoseconds(), &r)) throw std::overflow_error("subtraction leads to int64_t overflow");
    return Time(r);
  }
  Duration operator-(const Time & t) const
  {
    int64_t r;
    if (__builtin_sub_overflow(ns_, t.ns_, &r)) throw std::overflow_error("time subtraction leads to int64_t overflow");
    return Duration(r);
  }
  bool operator==(const Time & o) const { return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return ns_ != o.ns_; }
  bool operator<(const Time & o) const { return ns_ < o.ns_; }
  bool operator<=(const Time & o) const { return ns_ <= o.ns_; }
  bool operator>(const Time & o) const { return ns_ > o.ns_; }
};

}  // namespace rclcpp
