// Changes of frame by the real code; results multiplied by the scale given with each case and rounded.
#include "hcam.hpp"
#include "coordinates/plane_coordinates.hpp"
#include "hscale.hpp"

using namespace rgbd_slam;
using hscale::Out;

namespace {
vector3 v3() { const double a = hio::rd(), b = hio::rd(), c = hio::rd(); return vector3(a, b, c); }

void point()
{
    const double qw = hio::rd(), qx = hio::rd(), qy = hio::rd(), qz = hio::rd();
    const quaternion q = quaternion(qw, qx, qy, qz).normalized();
    const double N = qw * qw + qx * qx + qy * qy + qz * qz;
    const vector3 t = v3(), c = v3(), w = v3();
    const double zs = hio::rd(), u = hio::rd(), v = hio::rd(), z = hio::rd();
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
    const WorldToCameraMatrix inv = utils::compute_world_to_camera_transform(c2w);
    const CameraToWorldMatrix c2w2 = utils::compute_camera_to_world_transform(w2c);
    Out o;
    const CameraCoordinate cc(c.x(), c.y(), c.z());
    const WorldCoordinate ww(w.x(), w.y(), w.z());
    o.vec("world", cc.to_world_coordinates(c2w), N);
    o.vec("back", cc.to_world_coordinates(c2w2).to_camera_coordinates(w2c), 1);
    o.vec("cam", ww.to_camera_coordinates(w2c), N);
    o.vec("cam2", ww.to_camera_coordinates(inv), N);
    ScreenCoordinate s;
    ScreenCoordinate2D s2;
    const bool ok = cc.to_screen_coordinates(s), ok2 = cc.to_screen_coordinates(s2);
    o.flag("ok", ok), o.flag("ok2", ok2);
    if (c.z() == 0)
        s.setZero(), s2.setZero(); // nothing is said of the plane of the camera
    o.vec("px", vector2(s.x(), s.y()), c.z()), o.num("pz", s.z(), 1);
    o.vec("px2", vector2(s2.x(), s2.y()), c.z());
    o.flag("seen", s.is_in_screen_boundaries());
    ScreenCoordinate ws;
    const ScreenCoordinate2D target(u, v);
    const bool wok = ww.to_screen_coordinates(w2c, ws);
    o.flag("wok", wok);
    if (zs == 0)
        ws.setZero();
    o.vec("wpx", vector2(ws.x(), ws.y()), zs);
    if (zs == 0)
        o.vec("sd", vector2::Zero(), 1), o.num("dpx", 0, 1);
    else
        o.vec("sd", ww.get_signed_distance_2D_px(target, w2c), zs), o.num("dpx", ww.get_distance_px(target, w2c), std::abs(zs));
    const ScreenCoordinate sp(u, v, z);
    bool sok = true;
    CameraCoordinate sc;
    try
    {
        sc = sp.to_camera_coordinates();
    }
    catch (const std::exception&)
    {
        sok = false;
    }
    o.flag("sok", sok);
    o.vec("scam", vector3(sc.x() * 480, sc.y() * 360, sc.z()), 1);
    const CameraCoordinate2D dir = target.to_camera_coordinates();
    o.vec("dir", vector2(dir.x() * 480, dir.y() * 360), 1);
    ScreenCoordinate2D again;
    if (not dir.to_screen_coordinates(again))
        again = ScreenCoordinate2D(-1e9, -1e9);
    o.vec("dirback", vector2(again), 1);
    if (sok and static_cast<long>(z) % 1440 == 0)
        o.vec("mm", ww.get_signed_distance_mm(sp, c2w), N), o.num("dmm", ww.get_distance_mm(sp, c2w), N);
    else
        o.vec("mm", vector3::Zero(), 1), o.num("dmm", 0, 1);
    o.flag("on2", target.is_in_screen_boundaries()), o.flag("on3", sp.is_in_screen_boundaries()), o.flag("dv", is_depth_valid(z));
    o.done();
}

void plane()
{
    const double qw = hio::rd(), qx = hio::rd(), qy = hio::rd(), qz = hio::rd();
    const quaternion q = quaternion(qw, qx, qy, qz).normalized();
    const double N = qw * qw + qx * qx + qy * qy + qz * qz;
    const vector3 t = v3(), m1 = v3();
    const double K1 = hio::rd(), d1 = hio::rd();
    const vector3 m2 = v3();
    const double K2 = hio::rd(), d2 = hio::rd();
    const vector3 p = v3();
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
    const PlaneCameraToWorldMatrix pc2w = utils::compute_plane_camera_to_world_matrix(c2w);
    const PlaneWorldToCameraMatrix pw2c = utils::compute_plane_world_to_camera_matrix(w2c);
    const PlaneCameraCoordinates a(m1, d1);
    const PlaneWorldCoordinates b(m2, d2);
    Out o;
    const PlaneWorldCoordinates aw = a.to_world_coordinates(pc2w);
    o.vec("wn", aw.get_normal(), N * K1), o.num("wd", aw.get_d(), N * K1);
    const PlaneCameraCoordinates back = aw.to_camera_coordinates(pw2c);
    o.vec("bn", back.get_normal(), K1), o.num("bd", back.get_d(), K1);
    const PlaneCameraCoordinates bc = b.to_camera_coordinates(pw2c);
    o.vec("cn", bc.get_normal(), N * K2), o.num("cd", bc.get_d(), N * K2);
    const vector4 sd = b.get_signed_distance(a, pw2c);
    o.vec("sn", vector3(sd.head<3>()), N * K1 * K2), o.num("sd", sd(3), N * K2);
    o.vec("red", b.get_reduced_signed_distance(a, pw2c), N * K2 * N * K2 * K1);
    o.num("pd", a.get_point_distance(p), K1);
    o.vec("ctr", vector3(PlaneWorldCoordinates(a.get_parametrization()).get_center()), K1);
    o.num("cos", a.get_cos_angle(b), K1 * K2);
    o.done();
}
} // namespace

int main()
{
    hcam::setup(480, 360, 310, 250, 640, 480);
    long cases = hio::rd();
    while (cases-- > 0)
        hio::rds() == "point" ? point() : plane();
}
