// Stand-in for ROS' XmlRpcValue with its documented semantics (strict types, growing arrays); no network, no parsing.
#pragma once
#include <map>
#include <string>
#include <vector>
#include "XmlRpcException.h"
namespace XmlRpc
{
class XmlRpcValue
{
public:
  enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
  typedef std::vector<XmlRpcValue> ValueArray;
  typedef std::map<std::string, XmlRpcValue> ValueStruct;
  typedef ValueStruct::iterator iterator;
  typedef ValueStruct::const_iterator const_iterator;
  XmlRpcValue() {}
  XmlRpcValue(bool v) : type_(TypeBoolean), b_(v) {}
  XmlRpcValue(int v) : type_(TypeInt), i_(v) {}
  XmlRpcValue(double v) : type_(TypeDouble), d_(v) {}
  XmlRpcValue(const std::string& v) : type_(TypeString), s_(v) {}
  XmlRpcValue(const char* v) : type_(TypeString), s_(v) {}
  Type getType() const { return type_; }
  const Type& valid() const { return type_; }
  operator bool&() { need(TypeBoolean); return b_; }
  operator int&() { need(TypeInt); return i_; }
  operator double&() { need(TypeDouble); return d_; }
  operator std::string&() { need(TypeString); return s_; }
  XmlRpcValue& operator[](int i)
  {
    need(TypeArray);
    if (static_cast<int>(a_.size()) < i + 1)
      a_.resize(i + 1);
    return a_[i];
  }
  const XmlRpcValue& operator[](int i) const
  {
    need(TypeArray);
    if (i < 0 || static_cast<int>(a_.size()) < i + 1)
      throw XmlRpcException("range error: array index too large");
    return a_[i];
  }
  const XmlRpcValue& operator[](const std::string& k) const
  {
    need(TypeStruct);
    auto it = m_.find(k);
    if (it == m_.end())
      throw XmlRpcException("type error: no such member");
    return it->second;
  }
  const XmlRpcValue& operator[](const char* k) const { return (*this)[std::string(k)]; }
  operator const bool&() const { need(TypeBoolean); return b_; }
  operator const int&() const { need(TypeInt); return i_; }
  operator const double&() const { need(TypeDouble); return d_; }
  operator const std::string&() const { need(TypeString); return s_; }
  XmlRpcValue& operator[](const std::string& k) { need(TypeStruct); return m_[k]; }
  XmlRpcValue& operator[](const char* k) { return (*this)[std::string(k)]; }
  bool hasMember(const std::string& k) const { return type_ == TypeStruct && m_.find(k) != m_.end(); }
  int size() const
  {
    switch (type_)
    {
      case TypeString: return s_.size();
      case TypeArray: return a_.size();
      case TypeStruct: return m_.size();
      default: throw XmlRpcException("type error");
    }
  }
  void setSize(int n) { need(TypeArray); a_.resize(n); }
  iterator begin() { if (type_ != TypeStruct) throw XmlRpcException("type error"); return m_.begin(); }
  iterator end() { if (type_ != TypeStruct) throw XmlRpcException("type error"); return m_.end(); }
  const_iterator begin() const { need(TypeStruct); return m_.begin(); }
  const_iterator end() const { need(TypeStruct); return m_.end(); }

private:
  void need(Type t) const
  {
    if (type_ != t)
      throw XmlRpcException("type error");
  }
  void need(Type t)
  {
    if (type_ == TypeInvalid)
      type_ = t;
    else if (type_ != t)
      throw XmlRpcException("type error");
  }
  Type type_ = TypeInvalid;
  bool b_ = false;
  int i_ = 0;
  double d_ = 0;
  std::string s_;
  ValueArray a_;
  ValueStruct m_;
};
template <class S>
S& operator<<(S& s, const XmlRpcValue& v)
{
  s << "<value of type " << (int)v.getType() << ">";
  return s;
}
}  // namespace XmlRpc
