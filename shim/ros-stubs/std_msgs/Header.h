#pragma once
#include <ros/bus.h>
namespace std_msgs
{
struct Header
{
  unsigned seq = 0;
  ros::Time stamp;
  std::string frame_id;
};
}  // namespace std_msgs
