// creates what the registry of class_list_macros.h holds
#pragma once
#include "class_list_macros.h"
#include <boost/shared_ptr.hpp>
#include <stdexcept>
namespace pluginlib
{
class PluginlibException : public std::runtime_error { using std::runtime_error::runtime_error; };
class CreateClassException : public PluginlibException { using PluginlibException::PluginlibException; };
class LibraryLoadException : public PluginlibException { using PluginlibException::PluginlibException; };
template <class Base>
class ClassLoader
{
public:
  ClassLoader(const std::string&, const std::string&) {}
  boost::shared_ptr<Base> createInstance(const std::string& name)
  {
    auto it = registry<Base>().find(name);
    if (it == registry<Base>().end())
      throw LibraryLoadException("no class " + name);
    std::shared_ptr<Base> p = it->second();
    return boost::shared_ptr<Base>(p.get(), [p](Base*) {});
  }
};
}  // namespace pluginlib
