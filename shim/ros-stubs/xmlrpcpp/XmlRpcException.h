#pragma once
#include <string>
namespace XmlRpc
{
class XmlRpcException
{
public:
  XmlRpcException(const std::string& message, int code = -1) : message_(message), code_(code) {}
  const std::string& getMessage() const { return message_; }
  int getCode() const { return code_; }

private:
  std::string message_;
  int code_;
};
}  // namespace XmlRpc
