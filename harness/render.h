// Renders planar scenes (dark/light discs on a uniform background) by supersampling; independent of OpenCV's drawing.
#pragma once
#include <Eigen/Dense>
#include <functional>
#include <opencv2/core.hpp>
#include <vector>

namespace render
{
struct Disc
{
  double x, y, r;
  int value = 0;  // intensity
};
/** image-to-plane homography -> image; S x S samples per pixel */
inline cv::Mat scene(int w, int h, const std::vector<Disc>& discs, const Eigen::Matrix3d& planeToImage, int background = 255, int S = 4)
{
  Eigen::Matrix3d Hi = planeToImage.inverse();
  cv::Mat m(h, w, CV_8UC1, cv::Scalar(background));
  for (auto& d : discs)
  {
    // bounding box of the disc in the image
    double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
    for (int i = 0; i < 64; ++i)
    {
      Eigen::Vector3d p = planeToImage * Eigen::Vector3d(d.x + 1.02 * d.r * std::cos(i * 0.0981747704), d.y + 1.02 * d.r * std::sin(i * 0.0981747704), 1);
      x0 = std::min(x0, p[0] / p[2]), x1 = std::max(x1, p[0] / p[2]);
      y0 = std::min(y0, p[1] / p[2]), y1 = std::max(y1, p[1] / p[2]);
    }
    int ix0 = std::max(0, (int)std::floor(x0) - 1), ix1 = std::min(w - 1, (int)std::ceil(x1) + 1);
    int iy0 = std::max(0, (int)std::floor(y0) - 1), iy1 = std::min(h - 1, (int)std::ceil(y1) + 1);
    for (int y = iy0; y <= iy1; ++y)
      for (int x = ix0; x <= ix1; ++x)
      {
        int in = 0;
        for (int a = 0; a < S; ++a)
          for (int b = 0; b < S; ++b)
          {
            // the centre of pixel (x, y) is the point (x, y)
            Eigen::Vector3d q = Hi * Eigen::Vector3d(x + (a + 0.5) / S - 0.5, y + (b + 0.5) / S - 0.5, 1);
            double dx = q[0] / q[2] - d.x, dy = q[1] / q[2] - d.y;
            in += dx * dx + dy * dy <= d.r * d.r;
          }
        if (in)
        {
          double f = double(in) / (S * S);
          m.at<uchar>(y, x) = cv::saturate_cast<uchar>(std::lround((1 - f) * m.at<uchar>(y, x) + f * d.value));
        }
      }
  }
  return m;
}
inline Eigen::Vector2d map(const Eigen::Matrix3d& H, double x, double y)
{
  Eigen::Vector3d p = H * Eigen::Vector3d(x, y, 1);
  return Eigen::Vector2d(p[0] / p[2], p[1] / p[2]);
}
}  // namespace render
