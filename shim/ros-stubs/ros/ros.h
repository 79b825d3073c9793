#pragma once
#include "node_handle.h"
namespace ros
{
namespace init_options
{
enum InitOption { NoSigintHandler = 1, AnonymousName = 2, NoRosout = 4 };
}
inline void init(int&, char**, const std::string&, unsigned = 0) {}
inline bool ok() { return true; }
inline void shutdown() {}
inline void spin()
{
  if (ros_stub::bus.spin)
    ros_stub::bus.spin();
}
inline void spinOnce() {}
inline bool isShuttingDown() { return false; }
inline void waitForShutdown() { spin(); }
struct AsyncSpinner
{
  explicit AsyncSpinner(unsigned) {}
  void start() {}
  void stop() {}
};
namespace this_node
{
inline std::string getName() { return "/node"; }
inline std::string getNamespace() { return "/"; }
}  // namespace this_node
}  // namespace ros
