// Line protocol between the Python harness and the drivers: one command per line, whitespace separated tokens.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

#include <opencv2/opencv.hpp>

namespace vp {
void seedRandomDevice(std::uint64_t s);

struct In {
  char *p;
  std::string word() {
    while (*p == ' ')
      ++p;
    char *q = p;
    while (*q && *q != ' ' && *q != '\n')
      ++q;
    std::string s(p, q);
    p = q;
    if (s.empty())
      throw std::runtime_error("protocol: missing token");
    return s;
  }
  double d() {
    while (*p == ' ')
      ++p;
    char *e;
    double v = strtod(p, &e);
    if (e == p)
      throw std::runtime_error("protocol: number expected");
    p = e;
    return v;
  }
  int i() { return (int)d(); }
  std::vector<double> vd() {
    int n = i();
    std::vector<double> v(n);
    for (auto &x : v)
      x = d();
    return v;
  }
  std::vector<float> vf() {
    int n = i();
    std::vector<float> v(n);
    for (auto &x : v)
      x = (float)d();
    return v;
  }
  std::vector<int> vi() {
    int n = i();
    std::vector<int> v(n);
    for (auto &x : v)
      x = i();
    return v;
  }
  cv::Mat mat(int r, int c) {
    cv::Mat m(r, c, CV_64F);
    for (int a = 0; a < r; a++)
      for (int b = 0; b < c; b++)
        m.at<double>(a, b) = d();
    return m;
  }
  cv::Mat mat() {
    int r = i(), c = i();
    return mat(r, c);
  }
  std::vector<cv::Mat> mats(int r, int c) {
    int n = i();
    std::vector<cv::Mat> v(n);
    for (auto &m : v)
      m = mat(r, c);
    return v;
  }
  std::vector<cv::Point2f> p2() {
    int n = i();
    std::vector<cv::Point2f> v(n);
    for (auto &x : v) {
      x.x = (float)d();
      x.y = (float)d();
    }
    return v;
  }
  std::vector<cv::Point3f> p3() {
    int n = i();
    std::vector<cv::Point3f> v(n);
    for (auto &x : v) {
      x.x = (float)d();
      x.y = (float)d();
      x.z = (float)d();
    }
    return v;
  }
};

struct Out {
  std::string s;
  void d(double v) {
    char b[40];
    snprintf(b, sizeof b, " %.17g", v);
    s += b;
  }
  void i(long long v) {
    s += ' ';
    s += std::to_string(v);
  }
  void w(const std::string &x) {
    s += ' ';
    s += x;
  }
  void mat(const cv::Mat &m) {
    i(m.rows);
    i(m.cols);
    cv::Mat q;
    m.convertTo(q, CV_64F);
    for (int a = 0; a < q.rows; a++)
      for (int b = 0; b < q.cols; b++)
        d(q.at<double>(a, b));
  }
  template <class V> void vec(const V &v) {
    i((long long)v.size());
    for (auto x : v)
      d((double)x);
  }
  void p2(const std::vector<cv::Point2f> &v) {
    i((long long)v.size());
    for (auto &x : v) {
      d(x.x);
      d(x.y);
    }
  }
  void p3(const std::vector<cv::Point3f> &v) {
    i((long long)v.size());
    for (auto &x : v) {
      d(x.x);
      d(x.y);
      d(x.z);
    }
  }
};

using Cmd = std::function<void(In &, Out &)>;

inline int serve(const std::map<std::string, Cmd> &cmds) {
  cv::setNumThreads(1);
  const char *rfd = getenv("VP_REPLY_FD");
  FILE *reply = rfd ? fdopen(atoi(rfd), "w") : nullptr; // stdout belongs to the code under test
  if (!reply)
    reply = stdout;
  char *line = nullptr;
  size_t cap = 0;
  while (true) {
    ssize_t n = getline(&line, &cap, stdin);
    if (n <= 0)
      break;
    if (line[n - 1] == '\n')
      line[n - 1] = 0;
    In in{line};
    Out out;
    try {
      unsigned long long seed = strtoull(in.word().c_str(), nullptr, 10);
      vp::seedRandomDevice(seed);
      std::srand((unsigned)seed);
      cv::theRNG().state = seed * 2654435761ull + 12345;
      std::string c = in.word();
      auto it = cmds.find(c);
      if (it == cmds.end())
        throw std::runtime_error("protocol: unknown command " + c);
      it->second(in, out);
      fprintf(reply, "ok%s\n", out.s.c_str());
    } catch (const std::exception &e) {
      std::string m = e.what();
      for (auto &ch : m)
        if (ch == '\n')
          ch = ' ';
      fprintf(reply, "ex %s\n", m.c_str());
    }
    fflush(reply);
  }
  free(line);
  return 0;
}
} // namespace vp
