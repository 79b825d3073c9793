// log macros evaluate their arguments and print nothing; every message is counted so that a harness can see that something was reported
#pragma once
#include <cstdarg>
#include <cstdio>
#include <sstream>
#include <string>
namespace ros_stub
{
struct Log
{
  long info = 0, warn = 0, error = 0;
  std::string last;
};
inline Log& log()
{
  static thread_local Log l;  // concurrent callers are none of the log's business
  return l;
}
// where a program (as opposed to a harness) shows its messages
inline void (*sink)(const char* kind, const std::string& text) = nullptr;
inline std::string text(const char* fmt, ...)
{
  char b[1000];
  va_list a;
  va_start(a, fmt);
  vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  return b;
}
inline std::string text(const std::string& s) { return s; }
}  // namespace ros_stub
#define ROS_STUB_STREAM(kind, x) do { std::stringstream ros_stub_ss; ros_stub_ss << x; ros_stub::log().kind++; ros_stub::log().last = ros_stub_ss.str(); if (ros_stub::sink) ros_stub::sink(#kind, ros_stub::log().last); } while (0)
#define ROS_INFO_STREAM(x) ROS_STUB_STREAM(info, x)
#define ROS_WARN_STREAM(x) ROS_STUB_STREAM(warn, x)
#define ROS_ERROR_STREAM(x) ROS_STUB_STREAM(error, x)
#define ROS_DEBUG_STREAM(x) do {} while (0)
#define ROS_FATAL_STREAM(x) ROS_ERROR_STREAM(x)
#define ROS_STUB_TEXT(kind, ...) do { ros_stub::log().kind++; ros_stub::log().last = ros_stub::text(__VA_ARGS__); if (ros_stub::sink) ros_stub::sink(#kind, ros_stub::log().last); } while (0)
#define ROS_ERROR(...) ROS_STUB_TEXT(error, __VA_ARGS__)
#define ROS_FATAL(...) ROS_STUB_TEXT(error, __VA_ARGS__)
#define ROS_WARN(...) ROS_STUB_TEXT(warn, __VA_ARGS__)
#define ROS_INFO(...) ROS_STUB_TEXT(info, __VA_ARGS__)
#define ROS_DEBUG(...) do {} while (0)
#define ROS_INFO_NAMED(name, ...) ROS_INFO(__VA_ARGS__)
#define ROS_WARN_NAMED(name, ...) ROS_WARN(__VA_ARGS__)
#define ROS_ERROR_NAMED(name, ...) ROS_ERROR(__VA_ARGS__)
#define ROS_DEBUG_NAMED(name, ...) ROS_DEBUG(__VA_ARGS__)
#define ROS_INFO_STREAM_NAMED(name, x) ROS_INFO_STREAM(x)
#define ROS_WARN_STREAM_NAMED(name, x) ROS_WARN_STREAM(x)
#define ROS_ERROR_STREAM_NAMED(name, x) ROS_ERROR_STREAM(x)
#define ROS_DEBUG_STREAM_NAMED(name, x) ROS_DEBUG_STREAM(x)
#define ROS_INFO_COND(c, ...) do { if (c) ROS_INFO(__VA_ARGS__); } while (0)
#define ROS_WARN_COND(c, ...) do { if (c) ROS_WARN(__VA_ARGS__); } while (0)
#define ROS_ERROR_COND(c, ...) do { if (c) ROS_ERROR(__VA_ARGS__); } while (0)
#define ROS_INFO_STREAM_COND(c, x) do { if (c) ROS_INFO_STREAM(x); } while (0)
#define ROS_WARN_STREAM_COND(c, x) do { if (c) ROS_WARN_STREAM(x); } while (0)
#define ROS_ERROR_STREAM_COND(c, x) do { if (c) ROS_ERROR_STREAM(x); } while (0)
#define ROS_INFO_ONCE(...) ROS_INFO(__VA_ARGS__)
#define ROS_WARN_ONCE(...) ROS_WARN(__VA_ARGS__)
#define ROS_ERROR_ONCE(...) ROS_ERROR(__VA_ARGS__)
#define ROS_INFO_STREAM_ONCE(x) ROS_INFO_STREAM(x)
#define ROS_WARN_STREAM_ONCE(x) ROS_WARN_STREAM(x)
#define ROS_ERROR_STREAM_ONCE(x) ROS_ERROR_STREAM(x)
#define ROS_INFO_THROTTLE(t, ...) ROS_INFO(__VA_ARGS__)
#define ROS_WARN_THROTTLE(t, ...) ROS_WARN(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(t, ...) ROS_ERROR(__VA_ARGS__)
#define ROS_INFO_STREAM_THROTTLE(t, x) ROS_INFO_STREAM(x)
#define ROS_WARN_STREAM_THROTTLE(t, x) ROS_WARN_STREAM(x)
#define ROS_ERROR_STREAM_THROTTLE(t, x) ROS_ERROR_STREAM(x)
