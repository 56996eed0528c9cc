// Renders charuco boards seen by a camera, with area supersampling; independent of the library under test.
// Only the marker bit patterns come from OpenCV's predefined dictionary.
#include "proto.h"

#include <opencv2/aruco.hpp>
#include <opencv2/aruco/charuco.hpp>
#include <unistd.h>

using vp::In;
using vp::Out;

namespace {
struct Cam {
  int model, w, h;
  double fx, fy, cx, cy;
  std::vector<double> d;
};
// ray (x, y, 1) direction for a pixel; start from (x, y)
bool unproject(const Cam &c, double u, double v, double &x, double &y) {
  double mx = (u - c.cx) / c.fx, my = (v - c.cy) / c.fy;
  if (c.model == 0) {
    double X = mx, Y = my;
    for (int k = 0; k < 12; k++) {
      double r2 = X * X + Y * Y, a = 1 + r2 * (c.d[0] + r2 * (c.d[1] + r2 * c.d[4]));
      double dx = 2 * c.d[2] * X * Y + c.d[3] * (r2 + 2 * X * X), dy = c.d[2] * (r2 + 2 * Y * Y) + 2 * c.d[3] * X * Y;
      double nx = (mx - dx) / a, ny = (my - dy) / a;
      double e = std::abs(nx - X) + std::abs(ny - Y);
      X = nx;
      Y = ny;
      if (e < 1e-10)
        break;
    }
    x = X;
    y = Y;
    return std::isfinite(x) && std::isfinite(y);
  }
  double rd = std::hypot(mx, my);
  if (rd < 1e-12) {
    x = mx;
    y = my;
    return true;
  }
  double t = rd;
  for (int k = 0; k < 12; k++) {
    double t2 = t * t;
    double f = t * (1 + t2 * (c.d[0] + t2 * (c.d[1] + t2 * (c.d[2] + t2 * c.d[3])))) - rd;
    double g = 1 + t2 * (3 * c.d[0] + t2 * (5 * c.d[1] + t2 * (7 * c.d[2] + t2 * 9 * c.d[3])));
    double s = f / g;
    t -= s;
    if (std::abs(s) < 1e-12)
      break;
  }
  if (!(t > 0 && t < 1.5))
    return false;
  double k = std::tan(t) / rd;
  x = mx * k;
  y = my * k;
  return true;
}

cv::Mat bitsOf(int id) {
  static auto dict = cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000);
  return cv::aruco::Dictionary::getBitsFromByteList(dict->bytesList.rowRange(id, id + 1), 6);
}

struct Pattern {
  int nx, ny, first;
  double sq, ratio, margin; // margin in squares
  double dark, light;
  cv::Matx33d R;
  cv::Vec3d t;
  std::vector<cv::Mat> marker; // by square, row major; empty for dark squares
  void prepare() {
    int id = first;
    marker.assign(nx * ny, cv::Mat());
    for (int y = 0; y < ny; y++)
      for (int x = 0; x < nx; x++)
        if ((x + y) % 2 == 1)
          marker[y * nx + x] = bitsOf(id++);
  }
  // brightness at board coordinates (origin at the first inner corner); false outside the board
  bool at(double X, double Y, double &out) const {
    double sx = X / sq + 1, sy = Y / sq + 1;
    if (sx < -margin || sy < -margin || sx > nx + margin || sy > ny + margin)
      return false;
    out = light;
    if (sx < 0 || sy < 0 || sx >= nx || sy >= ny)
      return true;
    int ix = (int)sx, iy = (int)sy;
    const cv::Mat &m = marker[iy * nx + ix];
    if (m.empty()) {
      out = dark;
      return true;
    }
    double a = (sx - ix - 0.5) / ratio + 0.5, b = (sy - iy - 0.5) / ratio + 0.5;
    if (a < 0 || b < 0 || a >= 1 || b >= 1)
      return true;
    int ja = (int)(a * 8) - 1, jb = (int)(b * 8) - 1;
    bool one = ja >= 0 && jb >= 0 && ja < 6 && jb < 6 && m.at<uchar>(jb, ja);
    out = one ? light : dark;
    return true;
  }
};
} // namespace

int main() {
  std::map<std::string, std::function<void(In &, Out &)>> C;
  // path, model w h fx fy cx cy dist, supersampling, background (seed, level, amplitude), blur, noise, gain of colour (0 grey), jpeg quality,
  // boards: n x (nx ny first sq ratio margin dark light R(9) t(3)), occluders: n x (grey, polygon)
  C["render"] = [](In &i, Out &o) {
    std::string path = i.word();
    Cam c;
    c.model = i.i();
    c.w = i.i();
    c.h = i.i();
    c.fx = i.d();
    c.fy = i.d();
    c.cx = i.d();
    c.cy = i.d();
    c.d = i.vd();
    c.d.resize(5, 0.0);
    int ss = i.i();
    int seed = i.i();
    double level = i.d(), amp = i.d(), blur = i.d(), noise = i.d();
    int colour = i.i(), quality = i.i();
    cv::RNG rng((uint64_t)seed * 7919 + 17);
    cv::Mat im(c.h, c.w, CV_32F);
    { // smooth background
      cv::Mat small(5, 6, CV_32F);
      rng.fill(small, cv::RNG::UNIFORM, level - amp, level + amp);
      cv::resize(small, im, im.size(), 0, 0, cv::INTER_CUBIC);
    }
    int n = i.i();
    for (int k = 0; k < n; k++) {
      Pattern p;
      p.nx = i.i();
      p.ny = i.i();
      p.first = i.i();
      p.sq = i.d();
      p.ratio = i.d();
      p.margin = i.d();
      p.dark = i.d();
      p.light = i.d();
      for (int q = 0; q < 9; q++)
        p.R.val[q] = i.d();
      for (int q = 0; q < 3; q++)
        p.t[q] = i.d();
      p.prepare();
      int x0 = i.i(), y0 = i.i(), x1 = i.i(), y1 = i.i();
      x0 = std::max(0, x0);
      y0 = std::max(0, y0);
      x1 = std::min(c.w - 1, x1);
      y1 = std::min(c.h - 1, y1);
      // homography from the normalised image plane to the board
      cv::Matx33d H(p.R(0, 0), p.R(0, 1), p.t[0], p.R(1, 0), p.R(1, 1), p.t[1], p.R(2, 0), p.R(2, 1), p.t[2]);
      cv::Matx33d Hi = H.inv();
      cv::parallel_for_(cv::Range(y0, y1 + 1), [&](const cv::Range &rg) {
        for (int y = rg.start; y < rg.end; y++)
          for (int x = x0; x <= x1; x++) {
            double sum = 0;
            int cnt = 0;
            // derivative of the ray over the pixel, exact enough inside one pixel
            double ax, ay, bx, by, cx2, cy2;
            if (!unproject(c, x, y, ax, ay) || !unproject(c, x + 0.5, y, bx, by) || !unproject(c, x, y + 0.5, cx2, cy2))
              continue;
            for (int a = 0; a < ss; a++)
              for (int b = 0; b < ss; b++) {
                double du = (a + 0.5) / ss - 0.5, dv = (b + 0.5) / ss - 0.5;
                double rx = ax + 2 * du * (bx - ax) + 2 * dv * (cx2 - ax), ry = ay + 2 * du * (by - ay) + 2 * dv * (cy2 - ay);
                cv::Vec3d q = Hi * cv::Vec3d(rx, ry, 1);
                // the board point must lie in front of the camera
                double z = 1 / q[2];
                double v;
                if (q[2] > 0 && z > 0 && p.at(q[0] / q[2], q[1] / q[2], v)) {
                  sum += v;
                  cnt++;
                }
              }
            if (cnt)
              im.at<float>(y, x) = (float)((sum + (ss * ss - cnt) * im.at<float>(y, x)) / (ss * ss));
          }
      });
    }
    n = i.i();
    for (int k = 0; k < n; k++) {
      double grey = i.d();
      auto poly = i.p2();
      std::vector<cv::Point> q;
      for (auto &x : poly)
        q.emplace_back((int)std::lround(x.x), (int)std::lround(x.y));
      cv::fillPoly(im, std::vector<std::vector<cv::Point>>{q}, cv::Scalar(grey));
    }
    if (blur > 0)
      cv::GaussianBlur(im, im, cv::Size(0, 0), blur);
    if (noise > 0) {
      cv::Mat z(im.size(), CV_32F);
      rng.fill(z, cv::RNG::NORMAL, 0, noise);
      im += z;
    }
    cv::Mat g, out;
    im.convertTo(g, CV_8U);
    if (colour)
      cv::cvtColor(g, out, cv::COLOR_GRAY2BGR);
    else
      out = g;
    std::vector<int> par;
    if (quality > 0)
      par = {cv::IMWRITE_JPEG_QUALITY, quality};
    if (!cv::imwrite(path, out, par))
      throw std::runtime_error("protocol: cannot write the image");
    o.i(1);
  };
  // raw grey or colour picture to a file
  C["imwrite"] = [](In &i, Out &o) {
    std::string path = i.word();
    int h = i.i(), w = i.i(), ch = i.i();
    std::string hex = i.word();
    cv::Mat m(h, w, ch == 1 ? CV_8UC1 : CV_8UC3);
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t k = 0; k < hex.size() / 2; k++)
      m.data[k] = (uchar)(v(hex[2 * k]) * 16 + v(hex[2 * k + 1]));
    if (!cv::imwrite(path, m))
      throw std::runtime_error("protocol: cannot write the image");
    o.i(1);
  };
  // height width bytes (BGR) of a picture; 0 0 when unreadable
  C["imread"] = [](In &i, Out &o) {
    std::string path = i.word();
    cv::Mat m = cv::imread(path);
    o.i(m.rows);
    o.i(m.cols);
    if (m.empty())
      return;
    std::string s;
    s.reserve(m.total() * 6);
    const char *t = "0123456789abcdef";
    for (int y = 0; y < m.rows; y++)
      for (int x = 0; x < m.cols * 3; x++) {
        uchar b = m.ptr(y)[x];
        s += t[b >> 4];
        s += t[b & 15];
      }
    o.w(s);
  };
  cv::setNumThreads(1);
  return vp::serve(C);
}
