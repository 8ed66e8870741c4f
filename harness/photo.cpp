// From pictures to poses: whole calibrations of rendered pictures, and the same
// ones again from the detections they saved (R01, R03, D01, F01).
#include "album.hpp"
#include "vh.hpp"
#include "vh_main.inc"
#include <opencv2/core/persistence.hpp>
int calibrate_app_main(int argc, char **argv);
using namespace ref;
using vh::cat;
namespace fs = std::filesystem;

namespace {
struct Result {
  std::map<int, M4> pose; // reference -> camera
  std::map<int, Cam> cams;
  std::map<int, int> group;
  std::map<std::pair<int, int>, V3> pts; // board, point
  std::map<std::pair<int, int>, int> object;
  std::map<std::array<int, 4>, V2> corners; // camera, frame, board, corner
  std::map<std::pair<int, int>, std::string> image;
};
M4 m4(const cv::Mat &m) {
  M4 o = M4::Identity();
  for (int r = 0; r < 4; r++)
    for (int k = 0; k < 4; k++)
      o(r, k) = m.at<double>(r, k);
  return o;
}
Result read(const std::string &save, int ncam) {
  Result out;
  cv::FileStorage f(save + "/calibrated_cameras_data.yml", cv::FileStorage::READ);
  for (int c = 0; c < ncam; c++) {
    auto n = f[cat("camera_", c)];
    if (n.empty())
      continue;
    cv::Mat K, T, D;
    n["camera_matrix"] >> K;
    n["distortion_vector"] >> D;
    n["camera_pose_matrix"] >> T;
    out.pose[c] = inv(m4(T));
    out.group[c] = int(n["camera_group"]);
    Cam k;
    k.model = int(n["distortion_type"]);
    k.fx = K.at<double>(0, 0), k.fy = K.at<double>(1, 1), k.cx = K.at<double>(0, 2), k.cy = K.at<double>(1, 2);
    for (int j = 0; j < int(D.total()) && j < 5; j++)
      k.d[j] = D.at<double>(j);
    out.cams[c] = k;
  }
  cv::FileStorage o(save + "/calibrated_objects_data.yml", cv::FileStorage::READ);
  for (auto it : o.root()) {
    cv::Mat P;
    it["points"] >> P;
    P.convertTo(P, CV_64F);
    for (int k = 0; k < P.cols; k++) {
      std::pair<int, int> id(int(P.at<double>(3, k)), int(P.at<double>(4, k)));
      out.pts[id] = V3(P.at<double>(0, k), P.at<double>(1, k), P.at<double>(2, k));
      out.object[id] = atoi(it.name().c_str() + 7);
    }
  }
  cv::FileStorage q(save + "/detected_keypoints_data.yml", cv::FileStorage::READ);
  for (int c = 0; c < ncam; c++) {
    auto n = q[cat("camera_", c)];
    std::vector<int> fr, bd;
    std::vector<std::string> path;
    std::vector<std::vector<cv::Point2f>> p;
    std::vector<std::vector<int>> id;
    n["frame_idxs"] >> fr;
    n["board_idxs"] >> bd;
    n["frame_paths"] >> path;
    n["pts_2d"] >> p;
    n["charuco_idxs"] >> id;
    for (size_t k = 0; k < fr.size(); k++) {
      out.image[{c, fr[k]}] = path[k];
      for (size_t j = 0; j < p[k].size(); j++)
        out.corners[{c, fr[k], bd[k], id[k][j]}] = V2(p[k][j].x, p[k][j].y);
    }
  }
  return out;
}
double far(const M4 &a, const M4 &b, double scale, double &pos) {
  pos = (tr(a) - tr(b)).norm() / scale;
  return angleBetween(rot(a), rot(b));
}
} // namespace

SUITE(album) {
  std::string dir = cat(fs::current_path().string(), "/a", getpid(), "_", c.idx);
  struct Rm {
    std::string d;
    ~Rm() {
      std::error_code e;
      fs::remove_all(d, e);
    }
  } rm{dir};
  int cams = 1 + c.idx % 3, boards = 1 + (c.idx / 3) % 3, frames = c.rng.i(9, 12);
  al::Album a = al::make(c.rng, dir, cams, boards, frames);
  sc::Scene &s = a.s;
  s.precal = boards == 3 || c.rng.p(0.5);
  s.fix = s.precal && (boards == 3 || c.rng.p(0.6)); // small boards say little about the lens
  c.desc = cat("album cams ", cams, " boards ", boards, " frames ", frames, " scale ", s.S, " precal ", s.precal, " fix ", s.fix);
  a.extra["refine_corner"] = boards > 1 || c.rng.p(0.7) ? "1" : "0";
  a.extra["min_perc_pts"] = "0.5";
  sc::writeCamParams(s, dir + "/cams.yml", s.precal && !s.fix ? &c.rng : nullptr);
  auto calibrate = [&](const std::string &name, const std::string &kp) {
    std::string cfg = dir + "/" + name + ".yml", app = "calibrate";
    sc::writeConfig(s, cfg, dir + "/" + name, kp, dir + "/cams.yml", a.extra);
    char *av[] = {&app[0], &cfg[0], nullptr};
    return calibrate_app_main(2, av);
  };
  if (calibrate("images", "") != 0)
    c.fail("R01", "exit", "the calibration of the pictures reports failure");
  Result got = read(dir + "/images", cams);
  // ---- what was detected
  long n = 0;
  double worst = 0, sum = 0;
  for (auto &x : got.corners) {
    auto &k = x.first;
    V2 uv;
    s.cams[k[0]].cam.project(app(s.boardInCam(k[0], k[1], k[2]), s.boards[k[2]].pt(k[3])), uv);
    double e = (uv - x.second).norm();
    worst = std::max(worst, e);
    sum += e;
    n++;
  }
  c.cov("corners_seen", n);
  c.covmax("max_corner_error_mpx", long(1e3 * worst));
  c.covmax("max_mean_corner_error_mpx", long(1e3 * sum / std::max(1l, n)));
  for (int k = 0; k < cams; k++)
    for (int f = 0; f < frames; f++) {
      bool any = false;
      for (int b = 0; b < boards; b++)
        for (int j = 0; j < s.boards[b].npts() && !any; j++)
          any = got.corners.count({k, f, b, j});
      c.cov(any ? "pictures_with_boards" : "pictures_without_boards");
    }
  // ---- against the truth
  double mr = 0, mp = 0, br = 0, fr = 0;
  for (int k = 0; k < cams; k++) {
    if (!got.pose.count(k)) {
      c.fail("R01", "lost_camera", cat("camera ", k, " is not in the results"));
      continue;
    }
    if (got.group[k] != got.group[0])
      c.fail("R01", "split", cat("camera ", k, " is not in the group of the others"));
    double p, q = far(got.pose[k], s.camRel(k, 0), 1.2 * s.S, p);
    mr = std::max(mr, q), mp = std::max(mp, p);
    fr = std::max(fr, std::fabs(got.cams[k].fx / s.cams[k].cam.fx - 1));
  }
  double span = 0;
  for (int b = 0; b < boards; b++)
    for (int k = 0; k < s.boards[b].npts(); k++) {
      V3 w = app(s.boardRel(b, 0), s.boards[b].pt(k));
      if (!got.pts.count({b, k})) {
        c.fail("R03", "lost_point", cat("point ", k, " of board ", b, " is in no object"));
        continue;
      }
      if (got.object[{b, k}] != got.object[{0, 0}])
        c.fail("R03", "split", cat("board ", b, " is not in the object of the others"));
      br = std::max(br, (got.pts[{b, k}] - w).norm() / (1.2 * s.S));
      span = std::max(span, w.norm());
    }
  if (getenv("VH_ALBUM"))
    fprintf(stderr, "ALBUM %d rot %g pos %g obj %g f %g corner %g mean %g n %ld %s\n", c.idx, mr, mp, br, fr, worst, sum / std::max(1l, n), n, c.desc.c_str());
  double lr = s.fix ? 0.01 : 0.04, lp = s.fix ? 0.01 : 0.03;
  if (!(mr <= lr && mp <= lp))
    c.fail("R01", "camera_pose", cat("camera poses off by ", mr, " rad and ", mp, " of the distance"));
  if (!(fr <= (s.fix ? 1e-9 : 0.06)))
    c.fail(s.fix ? "O02" : "R01", "focal", cat("focal lengths off by ", fr));
  if (!(br <= 0.015))
    c.fail("R03", "board_pose", cat("points of the objects off by ", br, " of the distance"));
  c.covmax("max_camera_urad", long(1e6 * mr));
  c.covmax("max_camera_ppm", long(1e6 * mp));
  c.covmax("max_object_ppm", long(1e6 * br));
  c.covmax("max_focal_ppm", long(1e6 * fr));
  // ---- the same again from the saved detections, without the pictures
  fs::remove_all(s.root);
  if (calibrate("again", dir + "/images/detected_keypoints_data.yml") != 0)
    c.fail("F01", "exit", "the calibration of the saved detections reports failure");
  Result re = read(dir + "/again", cams);
  if (re.corners != got.corners || re.image != got.image)
    c.cov("albums_with_dropped_corners"); // the file holds what was left of the detections, more may go
  for (auto &x : re.corners)
    if (!got.corners.count(x.first) || got.corners[x.first] != x.second) {
      c.fail("F01", "detections", "the calibration from saved detections used other detections");
      break;
    }
  for (auto &x : re.image)
    if (got.image[x.first] != x.second) {
      c.fail("F01", "detections", "the calibration from saved detections used other image paths");
      break;
    }
  if (re.corners.size() + 2 + 0.05 * got.corners.size() < got.corners.size())
    c.fail("F01", "detections", cat("the calibration from saved detections used ", re.corners.size(), " corners of ", got.corners.size()));
  double r2 = 0, p2 = 0, o2 = 0, f2 = 0;
  for (auto &k : got.pose) {
    if (!re.pose.count(k.first)) {
      c.fail("F01", "lost_camera", cat("camera ", k.first, " is only in the results of the pictures"));
      continue;
    }
    double p, q = far(k.second, re.pose[k.first], 1.2 * s.S, p);
    r2 = std::max(r2, q), p2 = std::max(p2, p);
    f2 = std::max(f2, std::fabs(got.cams[k.first].fx / re.cams[k.first].fx - 1));
  }
  for (auto &x : got.pts) {
    if (!re.pts.count(x.first))
      c.fail("F01", "lost_point", "a point is only in the results of the pictures");
    else
      o2 = std::max(o2, (x.second - re.pts[x.first]).norm() / (1.2 * s.S));
  }
  if (getenv("VH_ALBUM"))
    fprintf(stderr, "AGAIN %d rot %g pos %g obj %g f %g\n", c.idx, r2, p2, o2, f2);
  if (!(r2 <= 0.01 && p2 <= 0.01 && o2 <= 0.01 && f2 <= 0.01))
    c.fail("F01", "result", cat("the calibration from saved detections differs by ", r2, " rad, ", p2, " and ", o2, " of the distance, focal lengths by ", f2));
  c.covmax("max_again_urad", long(1e6 * r2));
  c.covmax("max_again_ppm", long(1e6 * std::max(p2, o2)));
  c.covmax("max_again_focal_ppm", long(1e6 * f2));
  c.cov("albums");
  c.sig(cat("album ", cams, boards, frames, s.precal, s.fix, s.perBoard));
}
