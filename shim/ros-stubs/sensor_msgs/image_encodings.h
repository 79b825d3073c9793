#pragma once
#include <string>
namespace sensor_msgs
{
namespace image_encodings
{
const std::string RGB8 = "rgb8", BGR8 = "bgr8", MONO8 = "mono8", MONO16 = "mono16", BGRA8 = "bgra8", RGBA8 = "rgba8", RGB16 = "rgb16", BGR16 = "bgr16", TYPE_8UC1 = "8UC1",
                  TYPE_8UC3 = "8UC3", TYPE_16UC1 = "16UC1", TYPE_32FC1 = "32FC1", BAYER_RGGB8 = "bayer_rggb8", BAYER_BGGR8 = "bayer_bggr8", YUV422 = "yuv422";
inline bool isMono(const std::string& e) { return e == MONO8 || e == MONO16; }
inline bool isColor(const std::string& e) { return e == RGB8 || e == BGR8 || e == RGBA8 || e == BGRA8 || e == RGB16 || e == BGR16; }
inline bool isBayer(const std::string& e) { return e.find("bayer") == 0; }
inline bool hasAlpha(const std::string& e) { return e == RGBA8 || e == BGRA8; }
inline int numChannels(const std::string& e) { return hasAlpha(e) ? 4 : isColor(e) || e == TYPE_8UC3 ? 3 : 1; }
inline int bitDepth(const std::string& e) { return e.find("32") != std::string::npos ? 32 : e.find("16") != std::string::npos ? 16 : 8; }
}
}  // namespace sensor_msgs
