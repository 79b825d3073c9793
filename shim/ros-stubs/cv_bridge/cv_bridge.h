// conversion of messages as documented: same encoding: copy; between the 8 bit encodings: colour conversion; 16 bit to
// 8 bit: scaled; anything else, or a size that does not fit the data: exception
#pragma once
#include <boost/make_shared.hpp>
#include <opencv2/imgproc.hpp>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/image_encodings.h>
#include <stdexcept>
namespace cv_bridge
{
class Exception : public std::runtime_error { using std::runtime_error::runtime_error; };
inline int channels(const std::string& e)
{
  if (e == "bgr8" || e == "rgb8")
    return 3;
  if (e == "mono8" || e == "mono16")
    return 1;
  throw Exception("Unrecognized image encoding [" + e + "]");
}
inline int typeOf(const std::string& e) { return CV_MAKETYPE(e == "mono16" ? CV_16U : CV_8U, channels(e)); }
struct CvImage
{
  std_msgs::Header header;
  std::string encoding;
  cv::Mat image;
  CvImage() {}
  CvImage(const std_msgs::Header& h, const std::string& e, const cv::Mat& m = cv::Mat()) : header(h), encoding(e), image(m) {}
  sensor_msgs::ImagePtr toImageMsg() const
  {
    auto m = boost::make_shared<sensor_msgs::Image>();
    m->header = header;
    m->encoding = encoding;
    m->height = image.rows, m->width = image.cols;
    m->step = image.cols * image.elemSize();
    cv::Mat c = image.isContinuous() ? image : image.clone();
    m->data.assign(c.data, c.data + c.total() * c.elemSize());
    return m;
  }
};
typedef boost::shared_ptr<CvImage> CvImagePtr;
typedef boost::shared_ptr<const CvImage> CvImageConstPtr;
inline CvImagePtr toCvCopy(const sensor_msgs::Image& s, const std::string& to = "")
{
  const std::string e = to.empty() ? s.encoding : to;
  int type = typeOf(s.encoding);
  if (s.step < s.width * CV_ELEM_SIZE(type))
    throw Exception("Image is wrongly formed: step < width * byte_depth * num_channels");
  if (size_t(s.height) * s.step != s.data.size())
    throw Exception("Image is wrongly formed: height * step != size");
  cv::Mat m(s.height, s.width, type, const_cast<uint8_t*>(s.data.data()), s.step ? s.step : cv::Mat::AUTO_STEP), out;
  auto r = boost::make_shared<CvImage>(s.header, e);
  if (e == s.encoding)
    m.copyTo(r->image);
  else
  {
    int code = -1;
    const int from = channels(s.encoding), into = channels(e);
    if (from == 1 && into == 3)
      code = e == "rgb8" ? cv::COLOR_GRAY2RGB : cv::COLOR_GRAY2BGR;
    else if (from == 3 && into == 1)
      code = s.encoding == "rgb8" ? cv::COLOR_RGB2GRAY : cv::COLOR_BGR2GRAY;
    else if (from == 3)
      code = cv::COLOR_RGB2BGR;
    if (code >= 0)
      cv::cvtColor(m, out, code);
    else
      out = m.clone();
    int depth = CV_MAT_DEPTH(typeOf(e));
    if (depth != out.depth())
      out.convertTo(r->image, depth, depth == CV_8U ? 255. / 65535. : 65535. / 255.);
    else
      r->image = out;
  }
  return r;
}
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& s, const std::string& to = "") { return toCvCopy(*s, to); }
inline CvImageConstPtr toCvShare(const sensor_msgs::ImageConstPtr& s, const std::string& to = "")
{
  const std::string e = to.empty() ? s->encoding : to;
  if (e != s->encoding)
    return toCvCopy(*s, to);
  toCvCopy(*s, to);  // the checks
  return CvImageConstPtr(new CvImage(s->header, e, cv::Mat(s->height, s->width, typeOf(e), const_cast<uint8_t*>(s->data.data()), s->step ? s->step : cv::Mat::AUTO_STEP)));
}
inline CvImagePtr cvtColor(const CvImageConstPtr& s, const std::string& to) { return toCvCopy(*s->toImageMsg(), to); }
}  // namespace cv_bridge
