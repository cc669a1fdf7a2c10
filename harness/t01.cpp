// T01: time_trait for every supported clock type, over the full usable range of each.
#include "timemon.hpp"

// constant evaluation must work as well
static_assert(sf::time_trait<ch::milliseconds>::plus(ch::milliseconds(5), 0.25) == ch::milliseconds(255));
static_assert(sf::time_trait<double>::minus(3., 1.) == 2.);

int main(int c, char ** v)
{
  vh::init(c, v);
  vh::group("all-types", 2000, 60000, 1, [](Rng & r, long) {
    one<double>(r, "double");
    one<float>(r, "float");
    one<long double>(r, "long double");
    one<ch::nanoseconds>(r, "nanoseconds");
    one<ch::microseconds>(r, "microseconds");
    one<ch::milliseconds>(r, "milliseconds");
    one<ch::seconds>(r, "seconds");
    one<ch::minutes>(r, "minutes");
    one<ch::hours>(r, "hours");
    one<ch::duration<double>>(r, "duration<double>");
    one<ch::duration<float>>(r, "duration<float>");
    one<ch::duration<double, std::milli>>(r, "duration<double,milli>");
    one<ch::duration<int64_t, std::ratio<1, 60>>>(r, "duration<1/60>");
    one<ch::duration<int64_t, std::ratio<7, 3>>>(r, "duration<7/3>");
    one<ch::system_clock::time_point>(r, "system_clock");
    one<ch::steady_clock::time_point>(r, "steady_clock");
    one<ch::time_point<ch::steady_clock, ch::duration<double>>>(r, "steady_clock<double>");
    one<ch::time_point<ch::system_clock, ch::milliseconds>>(r, "system_clock<ms>");
    one<ch::time_point<ch::system_clock, ch::seconds>>(r, "system_clock<s>");
    one<sim_clock::time_point>(r, "custom clock");
  });
  return vh::finish();
}
