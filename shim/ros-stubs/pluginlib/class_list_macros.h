// plugin registry stand-in: exported classes can be created by name
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
namespace pluginlib
{
template <class Base>
std::map<std::string, std::function<std::shared_ptr<Base>()>>& registry()
{
  static std::map<std::string, std::function<std::shared_ptr<Base>()>> r;
  return r;
}
template <class C, class Base>
bool add(const char* name)
{
  registry<Base>()[name] = [] { return std::static_pointer_cast<Base>(std::make_shared<C>()); };
  return true;
}
}  // namespace pluginlib
#define PLUGINLIB_STUB_CAT2(a, b) a##b
#define PLUGINLIB_STUB_CAT(a, b) PLUGINLIB_STUB_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(C, Base) static bool PLUGINLIB_STUB_CAT(plugin_stub_, __LINE__) = pluginlib::add<C, Base>(#C);
#define PLUGINLIB_DECLARE_CLASS(a, b, C, Base) PLUGINLIB_EXPORT_CLASS(C, Base)
