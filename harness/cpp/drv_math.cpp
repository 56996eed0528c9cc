// Driver for the pure functions: geometry tools, graph, residual functors, corner refinement.
#include "Graph.hpp"
#include "OptimizationCeres.h"
#include "geometrytools.hpp"
#include "point_refinement.h"
#include "proto.h"

#include <memory>
#include <boost/log/core.hpp>

using namespace McCalib;
using vp::In;
using vp::Out;

// argument with exactly the given bounds, so that a read outside is seen by the sanitizer
static void putSaddle(Out &o, const std::vector<SaddlePoint> &r) {
  o.i((long long)r.size());
  for (auto &p : r) {
    o.d(p.x);
    o.d(p.y);
  }
}

int main() {
  boost::log::core::get()->set_logging_enabled(false);
  std::map<std::string, vp::Cmd> C;

  C["rt2proj"] = [](In &i, Out &o) {
    cv::Mat R = i.mat(3, 3), T = i.mat(3, 1);
    o.mat(RT2Proj(R, T));
  };
  C["rvect2proj"] = [](In &i, Out &o) {
    int row = i.i();
    cv::Mat r = row ? i.mat(1, 3) : i.mat(3, 1), T = i.mat(3, 1);
    o.mat(RVecT2Proj(r, T));
  };
  C["rvect2projint"] = [](In &i, Out &o) {
    cv::Mat r = i.mat(3, 1), T = i.mat(3, 1), K = i.mat(3, 3);
    o.mat(RVecT2ProjInt(r, T, K));
  };
  C["proj2rt"] = [](In &i, Out &o) {
    cv::Mat P = i.mat(4, 4), r, t;
    Proj2RT(P, r, t);
    o.mat(r);
    o.mat(t);
  };
  C["vectorproj"] = [](In &i, Out &o) { o.mat(vectorProj(i.vf())); };
  C["projtovec"] = [](In &i, Out &o) {
    cv::Mat P = i.mat(4, 4);
    o.vec(ProjToVec(P));
  };
  C["invert"] = [](In &i, Out &o) {
    int inplace = i.i();
    cv::Mat r = i.mat(3, 1), T = i.mat(3, 1);
    if (inplace) {
      invertRvecT(r, T);
      o.mat(r);
      o.mat(T);
    } else {
      cv::Mat ir, it, r0 = r.clone(), T0 = T.clone();
      invertRvecT(const_cast<const cv::Mat &>(r), const_cast<const cv::Mat &>(T), ir, it);
      o.mat(ir);
      o.mat(it);
      o.i(cv::countNonZero(r != r0) == 0 && cv::countNonZero(T != T0) == 0);
    }
  };
  C["transform"] = [](In &i, Out &o) {
    cv::Mat r = i.mat(3, 1), T = i.mat(3, 1);
    o.p3(transform3DPts(i.p3(), r, T));
  };
  C["tri"] = [](In &i, Out &o) {
    auto p = i.p2();
    auto r = i.mats(3, 1), t = i.mats(3, 1);
    cv::Mat K = i.mat(3, 3);
    cv::Point3f q = triangulateNViewLinearEigen(p, r, t, K);
    o.d(q.x);
    o.d(q.y);
    o.d(q.z);
  };
  C["rtri"] = [](In &i, Out &o) {
    auto p = i.p2();
    auto r = i.mats(3, 1), t = i.mats(3, 1);
    cv::Mat K = i.mat(3, 3);
    cv::Mat D = i.mat(1, 5);
    double th = i.d(), pr = i.d();
    int it = i.i();
    cv::Point3f q(-12345.f, -12345.f, -12345.f);
    ransacTriangulation(p, r, t, K, D, th, pr, it, q);
    o.d(q.x);
    o.d(q.y);
    o.d(q.z);
  };
  C["line"] = [](In &i, Out &o) {
    auto p = i.p2();
    double a, b, c, res;
    calcLinePara(p, a, b, c, res);
    o.d(a);
    o.d(b);
    o.d(c);
    o.d(res);
  };
  C["p3p"] = [](In &i, Out &o) {
    auto X = i.p3();
    auto x = i.p2();
    cv::Mat K = i.mat(3, 3), D = i.mat();
    double th = i.d();
    int it = i.i(), model = i.i();
    double p = i.d();
    int refine = i.i();
    cv::Mat r, t;
    cv::Mat in = ransacP3PDistortion(X, x, K, D, r, t, (float)th, it, model, p, refine != 0);
    std::vector<int> idx;
    for (int k = 0; k < (int)in.total(); k++)
      idx.push_back(in.at<int>(k));
    o.vec(idx);
    o.mat(r);
    o.mat(t);
  };
  C["project"] = [](In &i, Out &o) {
    auto X = i.p3();
    cv::Mat r = i.mat(), t = i.mat(), K = i.mat(3, 3), D = i.mat();
    int model = i.i();
    std::vector<cv::Point2f> uv;
    projectPointsWithDistortion(X, r, t, K, D, model, uv);
    o.p2(uv);
  };
  C["handeye"] = [](In &i, Out &o) {
    int boot = i.i();
    unsigned ncl = 0, nit = 0;
    if (boot) {
      ncl = i.i();
      nit = i.i();
    }
    auto a = i.mats(4, 4), b = i.mats(4, 4);
    o.mat(boot ? handeyeBootstraptTranslationCalibration(ncl, nit, a, b) : handeyeCalibration(a, b));
  };
  C["median"] = [](In &i, Out &o) {
    auto v = i.vd();
    o.d(median(v));
  };
  C["avgrot"] = [](In &i, Out &o) {
    int q = i.i();
    auto a = i.vd(), b = i.vd(), c = i.vd();
    o.mat(q == 2 ? getAverageRotation(a, b, c) : getAverageRotation(a, b, c, q != 0));
  };
  C["mat2quat"] = [](In &i, Out &o) { o.mat(convertRotationMatrixToQuaternion(i.mat(3, 3))); };
  C["quat2mat"] = [](In &i, Out &o) {
    std::array<double, 4> q = {i.d(), 0, 0, 0};
    q[1] = i.d();
    q[2] = i.d();
    q[3] = i.d();
    o.mat(convertQuaternionToRotationMatrix(q));
  };
  // history: nops { v id | e a b w | c | C | p a b | g }
  C["graph"] = [](In &i, Out &o) {
    Graph g;
    int n = i.i();
    for (int k = 0; k < n; k++) {
      std::string op = i.word();
      if (op == "v")
        g.addVertex(i.i());
      else if (op == "e") {
        int a = i.i(), b = i.i();
        g.addEdge(a, b, i.d());
      } else if (op == "c")
        g.clearGraph();
      else if (op == "C") {
        auto cc = g.connectedComponents();
        o.i((long long)cc.size());
        for (auto &x : cc)
          o.vec(x);
      } else if (op == "p") {
        int a = i.i(), b = i.i();
        o.vec(g.shortestPathBetween(a, b));
      } else if (op == "n") {
        auto gr = g.getGraph();
        o.i((long long)boost::num_vertices(gr));
        o.i((long long)boost::num_edges(gr));
      }
    }
  };
  // kind 0..4, then u v x y z model [intr9] refine_cam refine_board, parameter blocks, reply residuals + jacobians
  C["resid"] = [](In &i, Out &o) {
    int kind = i.i();
    double u = i.d(), v = i.d(), x = i.d(), y = i.d(), z = i.d();
    int model = i.i();
    auto q = i.vd(); // fx fy u0 v0 d4 d5 d6 d7 d8
    bool rc = i.i() != 0, rb = i.i() != 0;
    std::vector<std::vector<double>> blocks(i.i());
    for (auto &b : blocks)
      b = i.vd();
    std::unique_ptr<ceres::CostFunction> f;
    // argument order of the fixed-intrinsics functors is (.., k1, k2, k3, p1, p2) for Brown, as called by the library
    double k1 = q[4], k2 = q[5], k3 = q[8], p1 = q[6], p2 = q[7];
    if (kind == 0)
      f.reset(ReprojectionError::Create(u, v, x, y, z, model));
    if (kind == 1)
      f.reset(ReprojectionError_3DObjRef::Create(u, v, x, y, z, q[0], q[1], q[2], q[3], k1, k2, k3, p1, p2, rb, model));
    if (kind == 2)
      f.reset(ReprojectionError_CameraGroupRef::Create(u, v, x, y, z, q[0], q[1], q[2], q[3], k1, k2, k3, p1, p2, rc, model));
    if (kind == 3)
      f.reset(ReprojectionError_CameraGroupAndObjectRef::Create(u, v, x, y, z, q[0], q[1], q[2], q[3], k1, k2, k3, p1, p2, rc, rb, model));
    if (kind == 4)
      f.reset(ReprojectionError_CameraGroupAndObjectRefAndIntrinsics::Create(u, v, x, y, z, rc, rb, model));
    std::vector<const double *> pp;
    for (auto &b : blocks)
      pp.push_back(b.data());
    std::vector<std::vector<double>> J;
    std::vector<double *> jp;
    if (f->parameter_block_sizes().size() != blocks.size())
      throw std::runtime_error("functor takes another number of parameter blocks");
    for (auto s : f->parameter_block_sizes())
      J.emplace_back(2 * s);
    for (auto &j : J)
      jp.push_back(j.data());
    double r[2], r0[2];
    bool ok = f->Evaluate(pp.data(), r, jp.data());
    bool ok0 = f->Evaluate(pp.data(), r0, nullptr);
    o.i(ok && ok0);
    o.d(r[0]);
    o.d(r[1]);
    o.d(r0[0]);
    o.d(r0[1]);
    for (auto &j : J)
      o.vec(j);
  };
  C["saddle"] = [](In &i, Out &o) {
    int h = i.i(), w = i.i();
    cv::Mat im(h, w, CV_8U);
    std::string hex = i.word();
    auto nib = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (int k = 0; k < h * w; k++)
      im.data[k] = (uchar)(nib(hex[2 * k]) * 16 + nib(hex[2 * k + 1]));
    auto pts = i.p2();
    int half = i.i(), it = i.i();
    std::vector<SaddlePoint> out;
    int pre = i.i();
    if (pre)
      out.resize(pre, SaddlePoint(-1, -1));
    saddleSubpixelRefinement(im, pts, out, half, it);
    putSaddle(o, out);
  };
  return vp::serve(C);
}
