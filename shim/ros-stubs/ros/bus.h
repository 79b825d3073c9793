// what a node subscribes to, publishes and offers, so that a harness can play the rest of the system
#pragma once
#include <boost/shared_ptr.hpp>
#include <functional>
#include <cstdint>
#include <map>
#include <ostream>
#include <string>
#include <vector>
namespace ros
{
/** a number of seconds with the operations of a clock's readings and spans */
template <class T>
struct Seconds
{
  double s;
  explicit Seconds(double v = 0) : s(v) {}
  Seconds(int32_t sec_, int32_t nsec_) : s(sec_ + 1e-9 * nsec_) {}
  double toSec() const { return s; }
  int64_t toNSec() const { return static_cast<int64_t>(s * 1e9); }
  bool isZero() const { return s == 0; }
  T& fromSec(double v)
  {
    s = v;
    return static_cast<T&>(*this);
  }
  friend bool operator==(const T& a, const T& b) { return a.s == b.s; }
  friend bool operator!=(const T& a, const T& b) { return a.s != b.s; }
  friend bool operator<(const T& a, const T& b) { return a.s < b.s; }
  friend bool operator>(const T& a, const T& b) { return a.s > b.s; }
  friend bool operator<=(const T& a, const T& b) { return a.s <= b.s; }
  friend bool operator>=(const T& a, const T& b) { return a.s >= b.s; }
  friend std::ostream& operator<<(std::ostream& o, const T& a) { return o << a.s; }
};
struct Duration : Seconds<Duration>
{
  using Seconds::Seconds;
  bool sleep() const { return true; }
};
struct Time : Seconds<Time>
{
  using Seconds::Seconds;
  static inline double clock = 0;  // driven by the harness
  static Time now() { return Time(clock); }
  static bool waitForValid() { return true; }
};
typedef Time WallTime;
typedef Duration WallDuration;
inline Duration operator-(const Time& a, const Time& b) { return Duration(a.s - b.s); }
inline Time operator-(const Time& a, const Duration& b) { return Time(a.s - b.s); }
inline Time operator+(const Time& a, const Duration& b) { return Time(a.s + b.s); }
inline Duration operator+(const Duration& a, const Duration& b) { return Duration(a.s + b.s); }
inline Duration operator-(const Duration& a, const Duration& b) { return Duration(a.s - b.s); }
inline Duration operator*(const Duration& a, double f) { return Duration(a.s * f); }
struct Rate
{
  Rate(double) {}
  bool sleep() { return true; }
};
}  // namespace ros
namespace sensor_msgs
{
struct Image;
}
namespace ros_stub
{
struct Bus
{
  std::map<std::string, std::function<void(const boost::shared_ptr<const sensor_msgs::Image>&)>> images;  // subscriptions
  std::map<std::string, std::vector<boost::shared_ptr<const sensor_msgs::Image>>> published;
  std::map<std::string, std::function<bool()>> services;  // without arguments
  std::function<void()> spin;
  double transform_stamp = 0;  // when the robot last moved
  // frame of reference, frame, place
  std::function<bool(const std::string&, const std::string&, double (&xyz)[3], double (&xyzw)[4])> transform;
};
inline Bus bus;
}  // namespace ros_stub
