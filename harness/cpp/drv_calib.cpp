// Driver for the stateful library: builds a Calibration from a configuration, feeds board views, runs stages,
// reads and writes poses through the public interface and dumps the whole state as JSON.
#include "McCalib.hpp"
#include "proto.h"
#include "utilities.hpp"

#include <boost/log/core.hpp>
#include <memory>
#include <sstream>
#include <unistd.h>

using namespace McCalib;
using vp::In;
using vp::Out;

namespace {
std::unique_ptr<Calibration> calib;
std::vector<std::function<void()>> keep;

struct J {
  std::string s;
  bool first = true;
  void sep() {
    if (!first)
      s += ',';
    first = false;
  }
  static std::string num(double v) {
    if (std::isnan(v))
      return "NaN";
    if (std::isinf(v))
      return v > 0 ? "Infinity" : "-Infinity";
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
  }
  static std::string str(const std::string &v) {
    std::string r = "\"";
    for (char c : v) {
      if (c == '"' || c == '\\')
        r += '\\';
      if (c == ' ')
        r += "\\u0020";
      else
        r += c;
    }
    return r + "\"";
  }
};

template <class V> std::string arr(const V &v) {
  std::string r = "[";
  bool f = true;
  for (auto x : v) {
    if (!f)
      r += ',';
    f = false;
    r += J::num((double)x);
  }
  return r + "]";
}
std::string list(const std::vector<std::string> &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); i++)
    r += (i ? "," : "") + v[i];
  return r + "]";
}
std::string obj(const std::vector<std::pair<std::string, std::string>> &v) {
  std::string r = "{";
  for (size_t i = 0; i < v.size(); i++)
    r += (i ? "," : "") + J::str(v[i].first) + ":" + v[i].second;
  return r + "}";
}
std::string matj(const cv::Mat &m) {
  cv::Mat q;
  m.convertTo(q, CV_64F);
  std::vector<std::string> rows;
  for (int a = 0; a < q.rows; a++) {
    std::vector<double> v;
    for (int b = 0; b < q.cols; b++)
      v.push_back(q.at<double>(a, b));
    rows.push_back(arr(v));
  }
  return list(rows);
}
std::string p2j(const std::vector<cv::Point2f> &p) {
  std::vector<std::string> v;
  for (auto &x : p)
    v.push_back("[" + J::num(x.x) + "," + J::num(x.y) + "]");
  return list(v);
}
std::string p3j(const std::vector<cv::Point3f> &p) {
  std::vector<std::string> v;
  for (auto &x : p)
    v.push_back("[" + J::num(x.x) + "," + J::num(x.y) + "," + J::num(x.z) + "]");
  return list(v);
}
template <class W> std::string bref(const W &w) { // reference to a board observation: identity and content
  auto b = w.lock();
  if (!b)
    return "null";
  return "[" + std::to_string(b->camera_id_) + "," + std::to_string(b->frame_id_) + "," + std::to_string(b->board_id_) +
         "," + std::to_string(b->pts_2d_.size()) + "," + std::to_string((unsigned long long)(size_t)b.get()) + "]";
}
template <class W> std::string oref(const W &w) {
  auto b = w.lock();
  if (!b)
    return "null";
  return "[" + std::to_string(b->camera_id_) + "," + std::to_string(b->frame_id_) + "," +
         std::to_string(b->object_3d_id_) + "," + std::to_string(b->pts_2d_.size()) + "," +
         std::to_string((unsigned long long)(size_t)b.get()) + "]";
}
template <class M> std::string brefs(const M &m) {
  std::vector<std::string> v;
  for (auto &x : m)
    v.push_back(bref(x.second));
  return list(v);
}
template <class M> std::string orefs(const M &m) {
  std::vector<std::string> v;
  for (auto &x : m)
    v.push_back(oref(x.second));
  return list(v);
}
template <class M> std::string keys(const M &m) {
  std::vector<double> v;
  for (auto &x : m)
    v.push_back(x.first);
  return arr(v);
}
// frames_ style maps: key and whether it still points to the frame with that number
template <class M> std::string frames(const M &m) {
  std::vector<double> v;
  for (auto &x : m) {
    auto f = x.second.lock();
    v.push_back(f && f->frame_idx_ == x.first ? x.first : -1);
  }
  return arr(v);
}
std::string pairmap(const std::map<std::pair<int, int>, cv::Mat> &m) {
  std::vector<std::string> v;
  for (auto &x : m)
    v.push_back("[" + std::to_string(x.first.first) + "," + std::to_string(x.first.second) + "," + matj(x.second) + "]");
  return list(v);
}
std::string pairvec(const std::map<std::pair<int, int>, std::vector<cv::Mat>> &m) {
  std::vector<std::string> v;
  for (auto &x : m) {
    std::vector<std::string> q;
    for (auto &y : x.second)
      q.push_back(matj(y));
    v.push_back("[" + std::to_string(x.first.first) + "," + std::to_string(x.first.second) + "," + list(q) + "]");
  }
  return list(v);
}

std::string dump(Calibration &c) {
  std::vector<std::pair<std::string, std::string>> R;
  std::vector<std::string> v;
  for (auto &x : c.board_observations_) {
    auto &b = *x.second;
    v.push_back(obj({{"key", std::to_string(x.first)},
                     {"cam", std::to_string(b.camera_id_)},
                     {"frame", std::to_string(b.frame_id_)},
                     {"board", std::to_string(b.board_id_)},
                     {"ids", arr(b.charuco_id_)},
                     {"pts", p2j(b.pts_2d_)},
                     {"pose", arr(b.pose_)},
                     {"valid", b.valid_ ? "true" : "false"},
                     {"camok", b.cam_.lock() && b.cam_.lock()->cam_idx_ == b.camera_id_ ? "true" : "false"},
                     {"boardok", b.board_3d_.lock() && b.board_3d_.lock()->board_id_ == b.board_id_ ? "true" : "false"},
                     {"ptr", std::to_string((unsigned long long)(size_t)&b)}}));
  }
  R.push_back({"obs", list(v)});
  v.clear();
  for (auto &x : c.cams_) {
    auto &k = *x.second;
    v.push_back(obj({{"id", std::to_string(x.first)},
                     {"idx", std::to_string(k.cam_idx_)},
                     {"model", std::to_string(k.distortion_model_)},
                     {"intr", arr(k.intrinsics_)},
                     {"cols", std::to_string(k.im_cols_)},
                     {"rows", std::to_string(k.im_rows_)},
                     {"frames", frames(k.frames_)},
                     {"vis", arr(k.vis_board_idx_)},
                     {"visobj", arr(k.vis_object_idx_)},
                     {"boards", brefs(k.board_observations_)},
                     {"objects", orefs(k.object_observations_)}}));
  }
  R.push_back({"cams", list(v)});
  v.clear();
  for (auto &x : c.boards_3d_) {
    auto &k = *x.second;
    v.push_back(obj({{"id", std::to_string(x.first)},
                     {"idx", std::to_string(k.board_id_)},
                     {"nx", std::to_string(k.nb_x_square_)},
                     {"ny", std::to_string(k.nb_y_square_)},
                     {"square", J::num(k.square_size_)},
                     {"nb", std::to_string(k.nb_pts_)},
                     {"pts", p3j(k.pts_3d_)},
                     {"ptsidx", arr(k.pts_idx_)},
                     {"frames", frames(k.frames_)},
                     {"markers", k.charuco_board_ ? arr(k.charuco_board_->ids) : std::string("[]")},
                     {"boards", brefs(k.board_observations_)}}));
  }
  R.push_back({"boards", list(v)});
  v.clear();
  for (auto &x : c.frames_) {
    auto &k = *x.second;
    std::vector<std::pair<std::string, std::string>> paths;
    for (auto &p : k.frame_path_)
      paths.push_back({std::to_string(p.first), J::str(p.second.string())});
    std::vector<std::string> co;
    for (auto &p : k.cam_obs_) {
      auto q = p.second.lock();
      co.push_back(std::to_string(q ? q->cam_idx_ : -1));
    }
    std::vector<std::string> go;
    for (auto &p : k.cam_group_observations_) {
      auto q = p.second.lock();
      go.push_back(std::to_string(q ? q->cam_group_idx_ : -1));
    }
    v.push_back(obj({{"id", std::to_string(x.first)},
                     {"idx", std::to_string(k.frame_idx_)},
                     {"cams", arr(k.cam_idx_)},
                     {"camobs", list(co)},
                     {"visboards", arr(k.boards_idx_)},
                     {"boards", brefs(k.board_observations_)},
                     {"visobj", arr(k.objects_idx_)},
                     {"objects", orefs(k.object_observations_)},
                     {"groups", arr(k.cam_group_idx_)},
                     {"groupobs", list(go)},
                     {"paths", obj(paths)}}));
  }
  R.push_back({"frames", list(v)});
  v.clear();
  for (auto &x : c.cams_obs_) {
    auto &k = *x.second;
    v.push_back(obj({{"cam", std::to_string(x.first.first)},
                     {"frame", std::to_string(x.first.second)},
                     {"idx", std::to_string(k.cam_idx_)},
                     {"vis", arr(k.board_idx_)},
                     {"boards", brefs(k.board_observations_)},
                     {"visobj", arr(k.object_idx_)},
                     {"objects", orefs(k.object_observations_)}}));
  }
  R.push_back({"camobs", list(v)});
  v.clear();
  for (auto &x : c.object_3d_) {
    auto &k = *x.second;
    std::vector<std::string> o2b, b2o, bp;
    for (auto &q : k.pts_obj_2_board_)
      o2b.push_back("[" + std::to_string(q.first) + "," + std::to_string(q.second) + "]");
    for (auto &q : k.pts_board_2_obj_)
      b2o.push_back("[" + std::to_string(q.first.first) + "," + std::to_string(q.first.second) + "," +
                    std::to_string(q.second) + "]");
    for (auto &q : k.relative_board_pose_)
      bp.push_back("[" + std::to_string(q.first) + "," + arr(q.second) + "]");
    v.push_back(obj({{"id", std::to_string(x.first)},
                     {"idx", std::to_string(k.obj_id_)},
                     {"ref", std::to_string(k.ref_board_id_)},
                     {"nb", std::to_string(k.nb_pts_)},
                     {"color", arr(k.color_)},
                     {"pts", p3j(k.pts_3d_)},
                     {"o2b", list(o2b)},
                     {"b2o", list(b2o)},
                     {"boards", keys(k.boards_)},
                     {"poses", list(bp)},
                     {"objects", orefs(k.object_observations_)}}));
  }
  R.push_back({"objects", list(v)});
  v.clear();
  for (auto &x : c.object_observations_) {
    auto &k = *x.second;
    v.push_back(obj({{"key", std::to_string(x.first)},
                     {"cam", std::to_string(k.camera_id_)},
                     {"frame", std::to_string(k.frame_id_)},
                     {"obj", std::to_string(k.object_3d_id_)},
                     {"boardids", arr(k.board_id_)},
                     {"ids", arr(k.pts_id_)},
                     {"pts", p2j(k.pts_2d_)},
                     {"pose", arr(k.pose_)},
                     {"gpose", arr(k.group_pose_)},
                     {"valid", k.valid_ ? "true" : "false"},
                     {"boards", brefs(k.board_observations_)},
                     {"ptr", std::to_string((unsigned long long)(size_t)&k)}}));
  }
  R.push_back({"objobs", list(v)});
  v.clear();
  for (auto &x : c.cam_group_) {
    auto &k = *x.second;
    std::vector<std::string> bp;
    for (auto &q : k.relative_camera_pose_)
      bp.push_back("[" + std::to_string(q.first) + "," + arr(q.second) + "]");
    v.push_back(obj({{"id", std::to_string(x.first)},
                     {"idx", std::to_string(k.cam_group_idx_)},
                     {"ref", std::to_string(k.id_ref_cam_)},
                     {"cams", arr(k.cam_idx)},
                     {"cameras", keys(k.cameras_)},
                     {"nb", std::to_string(k.nb_cams_)},
                     {"poses", list(bp)},
                     {"frames", frames(k.frames_)},
                     {"objects", orefs(k.object_observations_)}}));
  }
  R.push_back({"groups", list(v)});
  v.clear();
  for (auto &x : c.cams_group_obs_) {
    auto &k = *x.second;
    std::vector<std::string> bp;
    for (auto &q : k.object_pose_)
      bp.push_back("[" + std::to_string(q.first) + "," + arr(q.second) + "]");
    v.push_back(obj({{"group", std::to_string(x.first.first)},
                     {"frame", std::to_string(x.first.second)},
                     {"idx", std::to_string(k.cam_group_idx_)},
                     {"visobj", arr(k.object_idx_)},
                     {"poses", list(bp)},
                     {"objects", orefs(k.object_observations_)}}));
  }
  R.push_back({"groupobs", list(v)});
  R.push_back({"board_pairs", pairvec(c.board_pose_pairs_)});
  R.push_back({"cam_pairs", pairvec(c.camera_pose_pairs_)});
  R.push_back({"obj_pairs", pairvec(c.object_pose_pairs_)});
  R.push_back({"inter_board", pairmap(c.inter_board_transform_)});
  R.push_back({"inter_cam", pairmap(c.inter_camera_transform_)});
  R.push_back({"inter_obj", pairmap(c.inter_object_transform_)});
  R.push_back({"no_overlap", pairmap(c.no_overlap_camgroup_pair_pose_)});
  R.push_back({"params",
               obj({{"nb_camera", std::to_string(c.nb_camera_)},
                    {"nb_board", std::to_string(c.nb_board_)},
                    {"min_perc_pts", J::num(c.min_perc_pts_)},
                    {"root_path", J::str(c.root_path_.string())},
                    {"cam_prefix", J::str(c.cam_prefix_)},
                    {"cam_params_path", J::str(c.cam_params_path_.string())},
                    {"keypoints_path", J::str(c.keypoints_path_.string())},
                    {"save_path", J::str(c.save_path_.string())},
                    {"camera_params_file_name", J::str(c.camera_params_file_name_.string())},
                    {"save_repro", std::to_string(c.save_repro_)},
                    {"save_detect", std::to_string(c.save_detect_)},
                    {"nx", arr(c.number_x_square_per_board_)},
                    {"ny", arr(c.number_y_square_per_board_)},
                    {"sq", arr(c.square_size_per_board_)},
                    {"resx", arr(c.resolution_x_per_board_)},
                    {"resy", arr(c.resolution_y_per_board_)},
                    {"refine_corner", std::to_string((int)c.refine_corner_)},
                    {"quaternion_averaging", std::to_string((int)c.quaternion_averaging_)},
                    {"ransac_thresh", J::num(c.ransac_thresh_)},
                    {"nb_iterations", std::to_string(c.nb_iterations_)},
                    {"he_approach", std::to_string(c.he_approach_)},
                    {"fix_intrinsic", std::to_string(c.fix_intrinsic_)}})});
  return obj(R);
}

Calibration &cal() {
  if (!calib)
    throw std::runtime_error("protocol: no calibration open");
  return *calib;
}

using MF = void (Calibration::*)();
const std::map<std::string, MF> stages = {
    {"boardExtraction", &Calibration::boardExtraction},
    {"loadDetectedKeypoints", &Calibration::loadDetectedKeypoints},
    {"detectBoards", &Calibration::detectBoards},
    {"initIntrinsic", &Calibration::initIntrinsic},
    {"calibrate3DObjects", &Calibration::calibrate3DObjects},
    {"calibrateCameraGroup", &Calibration::calibrateCameraGroup},
    {"merge3DObjects", &Calibration::merge3DObjects},
    {"saveCamerasParams", &Calibration::saveCamerasParams},
    {"save3DObj", &Calibration::save3DObj},
    {"save3DObjPose", &Calibration::save3DObjPose},
    {"initializeCalibrationAllCam", &Calibration::initializeCalibrationAllCam},
    {"estimatePoseAllBoards", &Calibration::estimatePoseAllBoards},
    {"refineIntrinsicAndPoseAllCam", &Calibration::refineIntrinsicAndPoseAllCam},
    {"computeReproErrAllBoard", &Calibration::computeReproErrAllBoard},
    {"computeBoardsPairPose", &Calibration::computeBoardsPairPose},
    {"initInterBoardsGraph", &Calibration::initInterBoardsGraph},
    {"init3DObjects", &Calibration::init3DObjects},
    {"initAll3DObjectObs", &Calibration::initAll3DObjectObs},
    {"estimatePoseAllObjects", &Calibration::estimatePoseAllObjects},
    {"computeReproErrAllObject", &Calibration::computeReproErrAllObject},
    {"refineAllObject3D", &Calibration::refineAllObject3D},
    {"computeCamerasPairPose", &Calibration::computeCamerasPairPose},
    {"initInterCamerasGraph", &Calibration::initInterCamerasGraph},
    {"initCameraGroup", &Calibration::initCameraGroup},
    {"initAllCameraGroupObs", &Calibration::initAllCameraGroupObs},
    {"refineAllCameraGroup", &Calibration::refineAllCameraGroup},
    {"findPairObjectForNonOverlap", &Calibration::findPairObjectForNonOverlap},
    {"findPoseNoOverlapAllCamGroup", &Calibration::findPoseNoOverlapAllCamGroup},
    {"initInterCamGroupGraph", &Calibration::initInterCamGroupGraph},
    {"mergeCameraGroup", &Calibration::mergeCameraGroup},
    {"mergeAllCameraGroupObs", &Calibration::mergeAllCameraGroupObs},
    {"computeAllObjPoseInCameraGroup", &Calibration::computeAllObjPoseInCameraGroup},
    {"computeObjectsPairPose", &Calibration::computeObjectsPairPose},
    {"initInterObjectsGraph", &Calibration::initInterObjectsGraph},
    {"mergeObjects", &Calibration::mergeObjects},
    {"mergeAllObjectObs", &Calibration::mergeAllObjectObs},
    {"reproErrorAllCamGroup", &Calibration::reproErrorAllCamGroup},
    {"refineAllCameraGroupAndObjects", &Calibration::refineAllCameraGroupAndObjects},
    {"refineAllCameraGroupAndObjectsAndIntrinsic", &Calibration::refineAllCameraGroupAndObjectsAndIntrinsic},
    {"saveReprojectionImagesAllCam", &Calibration::saveReprojectionImagesAllCam},
    {"saveDetectionImagesAllCam", &Calibration::saveDetectionImagesAllCam},
    {"saveReprojectionErrorToFile", &Calibration::saveReprojectionErrorToFile},
};

std::array<double, 6> six(In &i) {
  std::array<double, 6> a;
  for (auto &x : a)
    x = i.d();
  return a;
}

// pose accessors: which, how it is stored (0 = matrix, 1 = vectors), pose; reply: everything readable
template <class SetM, class SetV, class GetV, class GetM, class GetR, class GetT>
void access(In &i, Out &o, SetM sm, SetV sv, GetV gv, GetM gm, GetR gr, GetT gt) {
  int how = i.i();
  if (how == 0)
    sm(i.mat(4, 4));
  else {
    int row = i.i();
    cv::Mat r = row ? i.mat(1, 3) : i.mat(3, 1), t = i.mat(3, 1);
    sv(r, t);
  }
  cv::Mat r, t;
  gv(r, t);
  o.mat(r);
  o.mat(t);
  o.mat(gm());
  o.mat(gr());
  o.mat(gt());
}
} // namespace

int main() {
  boost::log::core::get()->set_logging_enabled(false);
  std::map<std::string, vp::Cmd> C;
  C["open"] = [](In &i, Out &) {
    calib.reset();
    calib.reset(new Calibration(std::filesystem::path(i.word())));
  };
  C["close"] = [](In &, Out &) { calib.reset(); };
  C["chdir"] = [](In &i, Out &) {
    if (chdir(i.word().c_str()) != 0)
      throw std::runtime_error("protocol: chdir");
  };
  C["insert"] = [](In &i, Out &) {
    int n = i.i();
    for (int k = 0; k < n; k++) {
      int cam = i.i(), frame = i.i(), board = i.i();
      auto ids = i.vi();
      auto pts = i.p2();
      std::string path = i.word();
      cal().insertNewBoard(cam, frame, board, pts, ids, std::filesystem::path(path));
    }
  };
  C["size"] = [](In &i, Out &) {
    int cam = i.i();
    cal().cams_.at(cam)->im_cols_ = i.i();
    cal().cams_.at(cam)->im_rows_ = i.i();
  };
  C["stage"] = [](In &i, Out &) {
    int n = i.i();
    for (int k = 0; k < n; k++) {
      std::string s = i.word();
      if (s == "interBoards") {
        cal().initInterTransform(cal().board_pose_pairs_, cal().inter_board_transform_);
        continue;
      }
      if (s == "interCams") {
        cal().initInterTransform(cal().camera_pose_pairs_, cal().inter_camera_transform_);
        continue;
      }
      if (s == "interObjs") {
        cal().initInterTransform(cal().object_pose_pairs_, cal().inter_object_transform_);
        continue;
      }
      auto it = stages.find(s);
      if (it == stages.end())
        throw std::runtime_error("protocol: unknown stage " + s);
      (cal().*(it->second))();
    }
  };
  C["avgerr"] = [](In &, Out &o) { o.d(cal().computeAvgReprojectionError()); };
  C["savekp"] = [](In &, Out &) { cal().saveDetectedKeypoints(); };
  C["dump"] = [](In &, Out &o) { o.w(dump(cal())); };
  C["setcam"] = [](In &i, Out &) {
    int cam = i.i();
    cv::Mat K = i.mat(3, 3), D = i.mat();
    cal().cams_.at(cam)->setIntrinsics(K, D);
  };
  C["setquat"] = [](In &i, Out &) { cal().quaternion_averaging_ = i.i() != 0; };
  C["setobspose"] = [](In &i, Out &) {
    int key = i.i();
    auto p = six(i);
    cal().board_observations_.at(key)->pose_ = p;
  };
  C["setobsvalid"] = [](In &i, Out &) {
    int key = i.i();
    cal().board_observations_.at(key)->valid_ = i.i() != 0;
  };
  C["setobjobspose"] = [](In &i, Out &) {
    int key = i.i();
    auto p = six(i);
    cal().object_observations_.at(key)->pose_ = p;
  };
  C["setobjboard"] = [](In &i, Out &) { // object board pose
    int ob = i.i(), b = i.i();
    auto p = six(i);
    auto &x = *cal().object_3d_.at(ob);
    x.relative_board_pose_[b] = p;
    x.updateObjectPts();
  };
  C["setgroupcam"] = [](In &i, Out &) {
    int g = i.i(), c = i.i();
    cal().cam_group_.at(g)->relative_camera_pose_[c] = six(i);
  };
  C["setgroupobj"] = [](In &i, Out &) { // group, frame, object, pose
    int g = i.i(), f = i.i(), ob = i.i();
    cal().cams_group_obs_.at({g, f})->object_pose_[ob] = six(i);
  };
  C["updateobjobs"] = [](In &, Out &) {
    for (auto &x : cal().cams_group_obs_)
      x.second->updateObjObsPose();
  };
  C["refinecam"] = [](In &i, Out &) {
    int c = i.i();
    cal().cams_.at(c)->refineIntrinsicCalibration(i.i());
  };
  C["initcam"] = [](In &i, Out &) { cal().cams_.at(i.i())->initializeCalibration(); };
  C["refineobj"] = [](In &i, Out &) {
    int c = i.i();
    cal().object_3d_.at(c)->refineObject(i.i());
  };
  C["refinegroup"] = [](In &i, Out &) {
    int g = i.i(), kind = i.i(), it = i.i();
    auto &G = *cal().cam_group_.at(g);
    if (kind == 0)
      G.refineCameraGroup(it);
    if (kind == 1)
      G.refineCameraGroupAndObjects(it);
    if (kind == 2)
      G.refineCameraGroupAndObjectsAndIntrinsics(it);
  };
  C["obserr"] = [](In &, Out &o) { // mean errors as reported by the board and object observations
    o.i((long long)cal().board_observations_.size());
    for (auto &x : cal().board_observations_)
      o.d(x.second->computeReprojectionError());
    o.i((long long)cal().object_observations_.size());
    for (auto &x : cal().object_observations_)
      o.d(x.second->computeReprojectionError());
  };
  C["dist"] = [](In &i, Out &o) {
    auto a = i.p2(), b = i.p2();
    cv::Mat d = cal().computeDistanceBetweenPoints(a, b);
    o.i((long long)d.total());
    cv::Mat q;
    d.convertTo(q, CV_64F);
    for (int k = 0; k < (int)q.total(); k++)
      o.d(q.at<double>(k));
  };
  C["pairs"] = [](In &i, Out &o) { // initInterTransform on given lists
    int n = i.i();
    std::map<std::pair<int, int>, std::vector<cv::Mat>> m;
    for (int k = 0; k < n; k++) {
      int a = i.i(), b = i.i();
      m[{a, b}] = i.mats(4, 4);
    }
    std::map<std::pair<int, int>, cv::Mat> r;
    int pre = i.i();
    for (int k = 0; k < pre; k++) {
      int a = i.i(), b = i.i();
      r[{a, b}] = i.mat(4, 4);
    }
    cal().initInterTransform(m, r);
    o.i((long long)r.size());
    for (auto &x : r) {
      o.i(x.first.first);
      o.i(x.first.second);
      o.mat(x.second);
    }
  };
  // quat, ref cam, cameras (id, pose), observations (cam, object, pose) -> poses in the group before and after averaging
  C["groupavg"] = [](In &i, Out &o) {
    bool quat = i.i() != 0;
    int ref = i.i();
    auto g = std::make_shared<CameraGroup>(ref, 5);
    std::vector<std::shared_ptr<Camera>> cams;
    int n = i.i();
    for (int k = 0; k < n; k++) {
      int id = i.i();
      cams.push_back(std::make_shared<Camera>(id, 0));
      g->insertCamera(cams.back());
      auto p = six(i);
      g->setCameraPoseVec((cv::Mat_<double>(3, 1) << p[0], p[1], p[2]), (cv::Mat_<double>(3, 1) << p[3], p[4], p[5]), id);
    }
    auto frame = std::make_shared<Frame>(7, 0, std::filesystem::path("x"));
    auto go = std::make_shared<CameraGroupObs>(g, quat);
    std::vector<std::shared_ptr<Object3DObs>> obs;
    std::map<int, std::shared_ptr<Object3D>> objs;
    n = i.i();
    for (int k = 0; k < n; k++) {
      int cam = i.i(), ob = i.i();
      auto p = six(i);
      if (!objs.count(ob))
        objs[ob] = std::make_shared<Object3D>(1, 0, ob, std::array<int, 3>{1, 2, 3});
      auto x = std::make_shared<Object3DObs>(objs[ob], ob);
      x->camera_id_ = cam;
      x->frame_id_ = 7;
      x->pose_ = p;
      go->insertObjectObservation(x);
      obs.push_back(x);
    }
    frame->insertNewCameraGroupObs(go, 5);
    g->insertNewFrame(frame);
    g->computeObjPoseInCameraGroup();
    for (auto &x : obs)
      o.mat(x->getPoseInGroupMat());
    go->computeObjectsPose();
    o.i((long long)go->object_pose_.size());
    for (auto &x : go->object_pose_) {
      o.i(x.first);
      o.mat(go->getObjectPoseMat(x.first));
    }
    for (auto &x : obs)
      o.mat(x->getPoseInGroupMat());
    for (auto &x : obs)
      x->group_pose_ = {9, 9, 9, 9, 9, 9};
    go->updateObjObsPose();
    for (auto &x : obs)
      o.mat(x->getPoseInGroupMat());
  };
  // one observation filtered on its own: model, intr matrix, dist, im size, 3d points, ids, 2d points, thresh, iterations
  C["estimate"] = [](In &i, Out &o) {
    int cam = i.i(), board = i.i();
    auto ids = i.vi();
    auto pts = i.p2();
    double th = i.d();
    int it = i.i();
    BoardObs b(cam, 0, board, pts, ids, cal().cams_.at(cam), cal().boards_3d_.at(board));
    b.estimatePose((float)th, it);
    o.i(b.valid_);
    o.vec(b.charuco_id_);
    o.p2(b.pts_2d_);
    o.vec(b.pose_);
    o.d(b.computeReprojectionError());
  };
  C["border"] = [](In &i, Out &o) {
    int cam = i.i();
    auto pts = i.p2();
    std::vector<int> ids(pts.size());
    auto b = std::make_shared<BoardObs>(cam, 0, 0, pts, ids, cal().cams_.at(cam), cal().boards_3d_.begin()->second);
    o.i(cal().cams_.at(cam)->checkBorderToleranceFisheye(b));
  };
  C["camio"] = [](In &i, Out &o) { // model, K, D -> read back
    int model = i.i();
    cv::Mat K = i.mat(3, 3), D = i.mat();
    int sep = i.i();
    Camera c(3, model);
    if (sep) {
      c.setDistortionVector(D);
      c.setCameraMat(K);
    } else
      c.setIntrinsics(K, D);
    cv::Mat K2, D2;
    c.getIntrinsics(K2, D2);
    o.mat(K2);
    o.mat(D2);
    o.mat(c.getCameraMat());
    o.mat(c.getDistortionVectorVector());
    o.vec(std::vector<double>(c.intrinsics_.begin(), c.intrinsics_.begin() + (model == 0 ? 9 : 8)));
    o.i(c.cam_idx_);
    o.i(c.distortion_model_);
  };
  C["pose"] = [](In &i, Out &o) {
    std::string what = i.word();
    auto cam = std::make_shared<Camera>(0, 0);
    if (what == "boardobs") {
      BoardObs b(0, 0, 0, {}, {}, cam, nullptr);
      access(
          i, o, [&](cv::Mat m) { b.setPoseMat(m); }, [&](cv::Mat r, cv::Mat t) { b.setPoseVec(r, t); },
          [&](cv::Mat &r, cv::Mat &t) { b.getPoseVec(r, t); }, [&] { return b.getPoseMat(); },
          [&] { return b.getRotVec(); }, [&] { return b.getTransVec(); });
    } else if (what == "object") {
      Object3D b(2, 0, 0, {1, 2, 3});
      int id = i.i(), other = i.i();
      b.setBoardPoseVec(other, (cv::Mat_<double>(3, 1) << .1, .2, .3), (cv::Mat_<double>(3, 1) << 4, 5, 6));
      access(
          i, o, [&](cv::Mat m) { b.setBoardPoseMat(id, m); },
          [&](cv::Mat r, cv::Mat t) { b.setBoardPoseVec(id, r, t); },
          [&](cv::Mat &r, cv::Mat &t) { b.getBoardPoseVec(id, r, t); }, [&] { return b.getBoardPoseMat(id); },
          [&] { return b.getBoardRotVec(id); }, [&] { return b.getBoardTransVec(id); });
      cv::Mat r, t;
      b.getBoardPoseVec(other, r, t);
      o.mat(r);
      o.mat(t);
    } else if (what == "objobs" || what == "objobsgroup") {
      auto ob = std::make_shared<Object3D>(2, 0, 0, std::array<int, 3>{1, 2, 3});
      Object3DObs b(ob, 0);
      cv::Mat r0 = (cv::Mat_<double>(3, 1) << .1, .2, .3), t0 = (cv::Mat_<double>(3, 1) << 4, 5, 6);
      if (what == "objobs") {
        b.setPoseInGroupVec(r0, t0);
        access(
            i, o, [&](cv::Mat m) { b.setPoseMat(m); }, [&](cv::Mat r, cv::Mat t) { b.setPoseVec(r, t); },
            [&](cv::Mat &r, cv::Mat &t) { b.getPoseVec(r, t); }, [&] { return b.getPoseMat(); },
            [&] { return b.getRotVec(); }, [&] { return b.getTransVec(); });
        cv::Mat r, t;
        b.getPoseInGroupVec(r, t);
        o.mat(r);
        o.mat(t);
      } else {
        b.setPoseVec(r0, t0);
        access(
            i, o, [&](cv::Mat m) { b.setPoseInGroupMat(m); }, [&](cv::Mat r, cv::Mat t) { b.setPoseInGroupVec(r, t); },
            [&](cv::Mat &r, cv::Mat &t) { b.getPoseInGroupVec(r, t); }, [&] { return b.getPoseInGroupMat(); },
            [&] { return b.getRotInGroupVec(); }, [&] { return b.getTransInGroupVec(); });
        cv::Mat r, t;
        b.getPoseVec(r, t);
        o.mat(r);
        o.mat(t);
      }
    } else if (what == "group") {
      CameraGroup b(0, 0);
      int id = i.i(), other = i.i();
      b.setCameraPoseVec((cv::Mat_<double>(3, 1) << .1, .2, .3), (cv::Mat_<double>(3, 1) << 4, 5, 6), other);
      access(
          i, o, [&](cv::Mat m) { b.setCameraPoseMat(m, id); },
          [&](cv::Mat r, cv::Mat t) { b.setCameraPoseVec(r, t, id); },
          [&](cv::Mat &r, cv::Mat &t) { b.getCameraPoseVec(id, r, t); }, [&] { return b.getCameraPoseMat(id); },
          [&] { return b.getCameraRotVec(id); }, [&] { return b.getCameraTransVec(id); });
      cv::Mat r, t;
      b.getCameraPoseVec(other, r, t);
      o.mat(r);
      o.mat(t);
    } else if (what == "groupobs") {
      auto g = std::make_shared<CameraGroup>(0, 0);
      CameraGroupObs b(g, true);
      int id = i.i(), other = i.i();
      b.setObjectPoseVec((cv::Mat_<double>(3, 1) << .1, .2, .3), (cv::Mat_<double>(3, 1) << 4, 5, 6), other);
      access(
          i, o, [&](cv::Mat m) { b.setObjectPoseMat(m, id); },
          [&](cv::Mat r, cv::Mat t) { b.setObjectPoseVec(r, t, id); },
          [&](cv::Mat &r, cv::Mat &t) { b.getObjectPoseVec(id, r, t); }, [&] { return b.getObjectPoseMat(id); },
          [&] { return b.getObjectRotVec(id); }, [&] { return b.getObjectTransVec(id); });
      cv::Mat r, t;
      b.getObjectPoseVec(other, r, t);
      o.mat(r);
      o.mat(t);
    } else
      throw std::runtime_error("protocol: pose");
  };
  return vp::serve(C);
}
