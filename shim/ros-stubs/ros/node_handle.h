// parameter store stand-in
#pragma once
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <xmlrpcpp/XmlRpcException.h>
#include <xmlrpcpp/XmlRpcValue.h>
#include "bus.h"
#include "console.h"
namespace ros_stub
{
// parameters that every handle of a program sees
inline std::shared_ptr<std::map<std::string, XmlRpc::XmlRpcValue>> parameters;
}
namespace ros
{
class Exception : public std::runtime_error { using std::runtime_error::runtime_error; };
class InvalidParameterException : public Exception { using Exception::Exception; };
class ServiceServer
{
public:
  std::string getService() const { return "/" + name; }
  void shutdown() { ros_stub::bus.services.erase(name); }
  operator void*() const { return const_cast<ServiceServer*>(this); }
  std::string name;
};
class NodeHandle
{
public:
  NodeHandle(const std::string& = "") : p_(ros_stub::parameters ? ros_stub::parameters : std::make_shared<std::map<std::string, XmlRpc::XmlRpcValue>>()) {}
  bool getParam(const std::string& key, XmlRpc::XmlRpcValue& v) const
  {
    auto it = p_->find(key);
    if (it != p_->end())
    {
      v = it->second;
      return true;
    }
    // "a/b": member b of the structure a
    size_t at = key.find('/');
    if (at == std::string::npos || (it = p_->find(key.substr(0, at))) == p_->end())
      return false;
    XmlRpc::XmlRpcValue x = it->second;
    while (at != std::string::npos)
    {
      size_t next = key.find('/', at + 1);
      std::string name = key.substr(at + 1, next == std::string::npos ? next : next - at - 1);
      at = next;
      if (name.empty())
        continue;
      if (!x.hasMember(name))
        return false;
      XmlRpc::XmlRpcValue y = x[name];
      x = y;
    }
    v = x;
    return true;
  }
  bool getParam(const std::string& key, std::string& v) const { return get(key, XmlRpc::XmlRpcValue::TypeString, v); }
  bool getParam(const std::string& key, bool& v) const { return get(key, XmlRpc::XmlRpcValue::TypeBoolean, v); }
  bool getParam(const std::string& key, int& v) const
  {
    double d;
    if (get(key, XmlRpc::XmlRpcValue::TypeInt, v))
      return true;
    if (!get(key, XmlRpc::XmlRpcValue::TypeDouble, d))
      return false;
    v = static_cast<int>(d < 0 ? d - 0.5 : d + 0.5);
    return true;
  }
  bool getParam(const std::string& key, double& v) const
  {
    int i;
    if (get(key, XmlRpc::XmlRpcValue::TypeDouble, v))
      return true;
    if (!get(key, XmlRpc::XmlRpcValue::TypeInt, i))
      return false;
    v = i;
    return true;
  }
  bool getParam(const std::string& key, float& v) const
  {
    double d;
    if (!getParam(key, d))
      return false;
    v = static_cast<float>(d);
    return true;
  }
  template <class T>
  bool getParam(const std::string& key, std::vector<T>& v) const
  {
    XmlRpc::XmlRpcValue x;
    if (!getParam(key, x) || x.getType() != XmlRpc::XmlRpcValue::TypeArray)
      return false;
    std::vector<T> r;
    try
    {
      for (int i = 0; i < x.size(); ++i)
        r.push_back(static_cast<T&>(x[i]));
    }
    catch (const XmlRpc::XmlRpcException&)
    {
      return false;
    }
    v = r;
    return true;
  }
  bool getParamCached(const std::string& key, XmlRpc::XmlRpcValue& v) const { return getParam(key, v); }
  bool searchParam(const std::string& key, std::string& result) const
  {
    result = key;
    return hasParam(key);
  }
  bool ok() const { return true; }
  std::string getNamespace() const { return "/"; }
  std::string resolveName(const std::string& name) const { return name.empty() || name[0] == '/' ? name : "/" + name; }
  bool hasParam(const std::string& key) const
  {
    XmlRpc::XmlRpcValue x;
    return getParam(key, x);
  }
  template <class T>
  bool param(const std::string& key, T& v, const T& otherwise) const
  {
    if (getParam(key, v))
      return true;
    v = otherwise;
    return false;
  }
  template <class T>
  T param(const std::string& key, const T& otherwise) const
  {
    T v;
    param(key, v, otherwise);
    return v;
  }
  void setParam(const std::string& key, const XmlRpc::XmlRpcValue& v) const { (*p_)[key] = v; }

  template <class T, class Q, class A>
  ServiceServer advertiseService(const std::string& name, bool (T::*f)(Q&, A&), T* o) const
  {
    ros_stub::bus.services[name] = [o, f] {
      Q q;
      A a;
      try
      {
        return (o->*f)(q, a);
      }
      catch (const std::exception& ex)  // as the middleware does
      {
        ROS_ERROR("Exception thrown while processing service call: %s", ex.what());
        return false;
      }
    };
    return { name };
  }

private:
  template <class T>
  bool get(const std::string& key, XmlRpc::XmlRpcValue::Type type, T& v) const
  {
    XmlRpc::XmlRpcValue x;
    if (!getParam(key, x) || x.getType() != type)
      return false;
    v = static_cast<T&>(x);
    return true;
  }
  std::shared_ptr<std::map<std::string, XmlRpc::XmlRpcValue>> p_;
};
}  // namespace ros
