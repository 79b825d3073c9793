#pragma once
#include <cstdlib>
#include <string>
namespace ros
{
namespace package
{
inline std::string getPath(const std::string& name)
{
  const char* p = getenv("RCT_PACKAGES");
  return std::string(p ? p : "/nonexistent") + "/" + name;
}
}  // namespace package
}  // namespace ros
