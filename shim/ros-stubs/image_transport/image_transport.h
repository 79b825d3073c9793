#pragma once
#include <ros/node_handle.h>
#include <sensor_msgs/Image.h>
namespace image_transport
{
class Subscriber
{
public:
  std::string getTopic() const { return topic; }
  std::string topic;
};
class Publisher
{
public:
  void publish(const sensor_msgs::ImageConstPtr& m) const { ros_stub::bus.published[topic].push_back(m); }
  void publish(const sensor_msgs::Image& m) const { publish(sensor_msgs::ImageConstPtr(new sensor_msgs::Image(m))); }
  std::string getTopic() const { return topic; }
  unsigned getNumSubscribers() const { return 1; }
  std::string topic;
};
class ImageTransport
{
public:
  explicit ImageTransport(const ros::NodeHandle&) {}
  template <class T>
  Subscriber subscribe(const std::string& topic, uint32_t, void (T::*f)(const sensor_msgs::ImageConstPtr&), T* o)
  {
    ros_stub::bus.images[topic] = [o, f](const sensor_msgs::ImageConstPtr& m) { (o->*f)(m); };
    return { topic };
  }
  Subscriber subscribe(const std::string& topic, uint32_t, const std::function<void(const sensor_msgs::ImageConstPtr&)>& f)
  {
    ros_stub::bus.images[topic] = f;
    return { topic };
  }
  Publisher advertise(const std::string& topic, uint32_t, bool = false)
  {
    ros_stub::bus.published[topic];
    return { topic };
  }
};
}  // namespace image_transport
