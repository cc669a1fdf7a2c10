// R01: time_trait of rclcpp::Time (stand-in with the same representation), same monitor as T01.
#include <smooth/feedback/compat/ros.hpp>

#include "timemon.hpp"

template<>
struct Info<rclcpp::Time>
{
  using T                     = rclcpp::Time;
  static constexpr double eps = 0;
  static T make(Rng & r) { return T(static_cast<int64_t>(r.pick({1e9, 60e9, 1e13, 1.7e18}) * r.uni(0.01, 1))); }
  static long double sec(T t) { return t.nanoseconds() * 1e-9L; }
  static long double diff(T a, T b) { return static_cast<long double>(a.nanoseconds() - b.nanoseconds()) * 1e-9L; }
  static long double res(T, double) { return 1e-9L; }
};
static_assert(sf::Time<rclcpp::Time>);

int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("ros-time", 20000, 400000, 1, [](Rng & r, long) { one<rclcpp::Time>(r, "rclcpp::Time"); });
  return vh::finish();
}
