// Reference mathematics, written from the definitions and independent of the
// code under test (Eigen, double precision).
#pragma once
#include "vh.hpp"
#include <eigen3/Eigen/Dense>
#include <opencv2/core.hpp>

namespace ref {
using M3 = Eigen::Matrix3d;
using M4 = Eigen::Matrix4d;
using V3 = Eigen::Vector3d;
using V2 = Eigen::Vector2d;
using V6 = Eigen::Matrix<double, 6, 1>;

inline M3 skew(const V3 &w) {
  M3 s;
  s << 0, -w.z(), w.y(), w.z(), 0, -w.x(), -w.y(), w.x(), 0;
  return s;
}
inline M3 expm(const V3 &w) {
  double t = w.norm();
  M3 K = skew(w);
  double a, b;
  if (t < 1e-6) {
    a = 1 - t * t / 6;
    b = 0.5 - t * t / 24;
  } else {
    a = std::sin(t) / t;
    b = (1 - std::cos(t)) / (t * t);
  }
  return M3::Identity() + a * K + b * K * K;
}
// angle of a rotation, accurate near 0 and near pi
inline double angleOf(const M3 &R) {
  V3 v(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1));
  return std::atan2(0.5 * v.norm(), 0.5 * (R.trace() - 1));
}
inline double angleBetween(const M3 &A, const M3 &B) { return angleOf(A.transpose() * B); }
inline V3 logm(const M3 &R) {
  Eigen::AngleAxisd aa(R);
  return aa.angle() * aa.axis();
}
inline M4 T(const M3 &R, const V3 &t) {
  M4 m = M4::Identity();
  m.block<3, 3>(0, 0) = R;
  m.block<3, 1>(0, 3) = t;
  return m;
}
inline M4 T(const V3 &w, const V3 &t) { return T(expm(w), t); }
inline M4 inv(const M4 &m) {
  M3 R = m.block<3, 3>(0, 0);
  return T(M3(R.transpose()), V3(-R.transpose() * m.block<3, 1>(0, 3)));
}
inline M3 rot(const M4 &m) { return m.block<3, 3>(0, 0); }
inline V3 tr(const M4 &m) { return m.block<3, 1>(0, 3); }
inline V3 app(const M4 &m, const V3 &p) { return rot(m) * p + tr(m); }

inline V3 randUnit(vh::Rng &r) {
  V3 v;
  do
    v = V3(r.n(), r.n(), r.n());
  while (v.norm() < 1e-6);
  return v.normalized();
}
inline M3 randRot(vh::Rng &r, double maxAngle = M_PI) {
  return expm(randUnit(r) * r.u(0, maxAngle));
}

// ---- conversions with OpenCV containers
inline cv::Mat toCv(const M4 &m) {
  cv::Mat c(4, 4, CV_64F);
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++)
      c.at<double>(i, j) = m(i, j);
  return c;
}
inline cv::Mat toCv3(const M3 &m) {
  cv::Mat c(3, 3, CV_64F);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      c.at<double>(i, j) = m(i, j);
  return c;
}
inline cv::Mat colv(const V3 &v) { return (cv::Mat_<double>(3, 1) << v.x(), v.y(), v.z()); }
inline cv::Mat rowv(const V3 &v) { return (cv::Mat_<double>(1, 3) << v.x(), v.y(), v.z()); }
inline double cvAt(const cv::Mat &m, int i, int j) {
  return m.depth() == CV_32F ? m.at<float>(i, j) : m.at<double>(i, j);
}
inline M4 fromCv(const cv::Mat &c) {
  M4 m;
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++)
      m(i, j) = cvAt(c, i, j);
  return m;
}
inline M3 fromCv3(const cv::Mat &c) {
  M3 m;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      m(i, j) = cvAt(c, i, j);
  return m;
}
inline V3 vecCv(const cv::Mat &c) {
  cv::Mat d;
  c.convertTo(d, CV_64F);
  d = d.clone().reshape(1, 3);
  return V3(d.at<double>(0), d.at<double>(1), d.at<double>(2));
}
template <class A> inline M4 fromVec6(const A &a) {
  return T(V3(a[0], a[1], a[2]), V3(a[3], a[4], a[5]));
}
inline V6 vec6(const M4 &m) {
  V6 v;
  v << logm(rot(m)), tr(m);
  return v;
}

// ---- camera models
struct Cam {
  int model = 0; // 0 Brown (k1 k2 p1 p2 k3), 1 Kannala (k1..k4)
  double fx = 600, fy = 600, cx = 320, cy = 240;
  double d[5] = {0, 0, 0, 0, 0};
  int w = 640, h = 480;
  // returns false if behind the camera
  bool project(const V3 &P, V2 &uv) const {
    double x = P.x() / P.z(), y = P.y() / P.z();
    if (model == 0) {
      double r2 = x * x + y * y;
      double rad = 1 + d[0] * r2 + d[1] * r2 * r2 + d[4] * r2 * r2 * r2;
      double xd = x * rad + 2 * d[2] * x * y + d[3] * (r2 + 2 * x * x);
      double yd = y * rad + d[2] * (r2 + 2 * y * y) + 2 * d[3] * x * y;
      uv = V2(fx * xd + cx, fy * yd + cy);
    } else {
      double r = std::hypot(x, y);
      double th = std::atan(r), t2 = th * th;
      double td = th * (1 + t2 * (d[0] + t2 * (d[1] + t2 * (d[2] + t2 * d[3]))));
      double s = r > 1e-12 ? td / r : 1.0;
      uv = V2(fx * s * x + cx, fy * s * y + cy);
    }
    return P.z() > 0;
  }
  cv::Mat K() const { return (cv::Mat_<double>(3, 3) << fx, 0, cx, 0, fy, cy, 0, 0, 1); }
  cv::Mat D() const {
    return model == 0 ? (cv::Mat)(cv::Mat_<double>(1, 5) << d[0], d[1], d[2], d[3], d[4])
                      : (cv::Mat)(cv::Mat_<double>(1, 4) << d[0], d[1], d[2], d[3]);
  }
};
inline Cam randCam(vh::Rng &r, int model, bool distort = true) {
  Cam c;
  c.model = model;
  c.w = r.p(0.5) ? 640 : 800;
  c.h = r.p(0.5) ? 480 : 600;
  double f = model == 0 ? r.u(0.8, 1.3) * c.w : r.u(0.34, 0.46) * c.w;
  c.fx = f;
  c.fy = f * r.u(0.97, 1.03);
  c.cx = c.w / 2. + r.u(-15, 15);
  c.cy = c.h / 2. + r.u(-15, 15);
  if (distort) {
    if (model == 0) {
      c.d[0] = r.u(-0.2, 0.1);
      c.d[1] = r.u(-0.05, 0.08);
      c.d[2] = r.u(-0.002, 0.002);
      c.d[3] = r.u(-0.002, 0.002);
      c.d[4] = r.u(-0.02, 0.02);
    } else {
      c.d[0] = r.u(-0.03, 0.05);
      c.d[1] = r.u(-0.01, 0.01);
      c.d[2] = r.u(-0.005, 0.005);
      c.d[3] = r.u(-0.001, 0.001);
    }
  }
  return c;
}
// chordal L2 mean (Markley): eigenvector of the largest eigenvalue of sum q q^T
inline M3 chordalMean(const std::vector<M3> &Rs, double *gap = nullptr) {
  Eigen::Matrix4d A = Eigen::Matrix4d::Zero();
  for (auto &R : Rs) {
    Eigen::Quaterniond q(R);
    Eigen::Vector4d v(q.x(), q.y(), q.z(), q.w());
    v.normalize();
    A += v * v.transpose();
  }
  A /= double(Rs.size());
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> es(A);
  if (gap)
    *gap = es.eigenvalues()(3) - es.eigenvalues()(2);
  Eigen::Vector4d v = es.eigenvectors().col(3);
  return Eigen::Quaterniond(v(3), v(0), v(1), v(2)).toRotationMatrix();
}
} // namespace ref
