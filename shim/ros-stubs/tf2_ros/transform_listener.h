#pragma once
#include <geometry_msgs/TransformStamped.h>
#include <ros/node_handle.h>
#include <stdexcept>
namespace tf2
{
class TransformException : public std::runtime_error { using std::runtime_error::runtime_error; };
class ConnectivityException : public TransformException { using TransformException::TransformException; };
class ExtrapolationException : public TransformException { using TransformException::TransformException; };
class InvalidArgumentException : public TransformException { using TransformException::TransformException; };
class TimeoutException : public TransformException { using TransformException::TransformException; };
class LookupException : public TransformException { using TransformException::TransformException; };
}  // namespace tf2
namespace tf2_ros
{
class Buffer
{
public:
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& t = ros::Time(), const ros::Duration& = ros::Duration(0)) const
  {
    geometry_msgs::TransformStamped r;
    r.header.frame_id = target;
    r.child_frame_id = source;
    r.header.stamp = ros::Time(ros_stub::bus.transform_stamp);
    double x[3], q[4];
    if (!ros_stub::bus.transform || !ros_stub::bus.transform(target, source, x, q))
      throw tf2::LookupException("\"" + source + "\" passed to lookupTransform argument source_frame does not exist.");
    r.transform.translation.x = x[0], r.transform.translation.y = x[1], r.transform.translation.z = x[2];
    r.transform.rotation.x = q[0], r.transform.rotation.y = q[1], r.transform.rotation.z = q[2], r.transform.rotation.w = q[3];
    return r;
  }
  void clear() {}
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& = ros::Time(), const ros::Duration& = ros::Duration(0), std::string* = nullptr) const
  {
    double x[3], q[4];
    return ros_stub::bus.transform && ros_stub::bus.transform(target, source, x, q);
  }
};
class TransformListener
{
public:
  explicit TransformListener(Buffer&) {}
};
}  // namespace tf2_ros
