#pragma once
#include <Eigen/Geometry>
#include <geometry_msgs/TransformStamped.h>
namespace tf2
{
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::Transform& t)
{
  return Eigen::Isometry3d(Eigen::Translation3d(t.translation.x, t.translation.y, t.translation.z) * Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z));
}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::TransformStamped& t) { return transformToEigen(t.transform); }
inline geometry_msgs::TransformStamped eigenToTransform(const Eigen::Isometry3d& p)
{
  geometry_msgs::TransformStamped t;
  const Eigen::Quaterniond q(p.linear());
  t.transform.translation.x = p.translation().x(), t.transform.translation.y = p.translation().y(), t.transform.translation.z = p.translation().z();
  t.transform.rotation.x = q.x(), t.transform.rotation.y = q.y(), t.transform.rotation.z = q.z(), t.transform.rotation.w = q.w();
  return t;
}
}  // namespace tf2
