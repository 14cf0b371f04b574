// Sight lines and segments of the real code; results multiplied by the scale of each case and rounded.
#include "hcam.hpp"
#include "coordinates/inverse_depth_coordinates.hpp"
#include "hscale.hpp"
#include "line.hpp"

using namespace rgbd_slam;
using hscale::Out;

namespace {
vector3 v3() { const double a = hio::rd(), b = hio::rd(), c = hio::rd(); return vector3(a, b, c); }
double N;
quaternion rdq()
{
    const double w = hio::rd(), x = hio::rd(), y = hio::rd(), z = hio::rd();
    N = w * w + x * x + y * y + z * z;
    return quaternion(w, x, y, z).normalized();
}

void ray()
{
    const quaternion q = rdq();
    const vector3 t = v3();
    const double u = hio::rd(), v = hio::rd();
    const vector3 m = v3();
    const double K = hio::rd(), depth = hio::rd();
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
    const InverseDepthWorldPoint p(ScreenCoordinate2D(u, v), c2w);
    Out o;
    o.vec("first", vector3(p.get_first_observation()), 1);
    o.vec("bearing", p.get_bearing_vector(), N * K);
    const vector3 w = p.to_world_coordinates();
    o.flag("front", p.get_inverse_depth() > 0 and (w2c * w.homogeneous())(2) > 0);
    const CameraCoordinate at(m.x() * depth, m.y() * depth, m.z() * depth);
    o.vec("where", vector3(InverseDepthWorldPoint(at, c2w).to_world_coordinates()), N);
    o.done();
}

void cart()
{
    const quaternion q = rdq();
    const vector3 t = v3(), first = v3(), m = v3();
    const double K = hio::rd(), s = hio::rd(), j = hio::rd(), zf = hio::rd(), zn = hio::rd();
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, t);
    const vector3 at = first + s * m;
    const InverseDepthWorldPoint p = InverseDepthWorldPoint::from_cartesian(WorldCoordinate(at.x(), at.y(), at.z()), WorldCoordinate(first.x(), first.y(), first.z()));
    Out o;
    o.num("inv", p.get_inverse_depth(), K * s * 1e6);
    o.vec("bearing", p.get_bearing_vector(), K);
    o.vec("first", vector3(p.get_first_observation()), 1);
    o.flag("range", p.get_theta() >= 0 and p.get_theta() <= M_PI and p.get_phi() >= -M_PI and p.get_phi() <= M_PI);
    o.vec("where", vector3(p.to_world_coordinates()), 1);
    const double dev = j / 10.0 * p.get_inverse_depth();
    const vector3 far = p.get_furthest_estimation(dev), near = p.get_closest_estimation(dev);
    o.vec("near", near, 10 + 3 * j);
    if (10 - 3 * j > 0)
        o.vec("far", far, 10 - 3 * j);
    else
        o.vec("far", vector3::Zero(), 1);
    o.flag("beyond", (far - first).dot(m) / K > 1e6);
    utils::Segment<3> seg;
    utils::Segment<2> flat;
    const bool ok = p.to_screen_coordinates(w2c, dev * dev, seg), ok2 = p.to_screen_coordinates(w2c, dev * dev, flat);
    o.flag("pok", ok and ok2 and (seg.get_start_point().head<2>() - flat.get_start_point()).norm() < 1e-6 and
                          (seg.get_end_point().head<2>() - flat.get_end_point()).norm() < 1e-6);
    if (10 - 3 * j > 0 and zf != 0 and zn != 0)
    {
        o.vec("pf", vector2(seg.get_start_point().head<2>()), zf), o.vec("pn", vector2(seg.get_end_point().head<2>()), zn);
        o.num("zfar", seg.get_start_point().z(), N * (10 - 3 * j)), o.num("znear", seg.get_end_point().z(), N * (10 + 3 * j));
    }
    o.done();
}

void pair()
{
    const vector3 o1 = v3(), m1 = v3();
    const double K1 = hio::rd();
    const vector3 o2 = v3(), m2 = v3();
    hio::rd();
    const auto make = [](const vector3& a, const vector3& m) {
        const vector3 b = a + 3 * m;
        return InverseDepthWorldPoint::from_cartesian(WorldCoordinate(b.x(), b.y(), b.z()), WorldCoordinate(a.x(), a.y(), a.z()));
    };
    const vector3 x = m1.cross(m2);
    Out o;
    // parallel lines: the scale makes both the perpendicular and the cross product integers
    o.vec("v", make(o1, m1).compute_signed_distance(make(o2, m2)), x.norm() == 0 ? K1 * K1 : x.dot(x));
    o.done();
}

template<int D> void close()
{
    Eigen::Vector<double, D> a, b, p;
    for (auto* x: {&a, &b, &p})
        for (int i = 0; i < D; ++i)
            (*x)(i) = hio::rd();
    Out o;
    const utils::Segment<D> s(a, b);
    const double l = (b - a).dot(b - a);
    if (l == 0)
        return o.done();
    const utils::Line<D> line(a, b - a);
    const Eigen::Vector<double, D> c = s.get_closest_point_on_line(p), d = s.distance(p);
    const bool same = c.isApprox(line.get_closest_point_on_line(p), 1e-9) or (c - line.get_closest_point_on_line(p)).norm() < 1e-6;
    o.vec("c", c, same ? l : 0), o.vec("d", d, l);
    o.done();
}

void clamp()
{
    const double ax = hio::rd(), ay = hio::rd(), bx = hio::rd(), by = hio::rd(), s = hio::rd();
    utils::Segment<2> out;
    Out o;
    const bool ok = (ax != bx or ay != by) and utils::clamp_to_screen(utils::Segment<2>(vector2(ax, ay), vector2(bx, by)), out);
    o.flag("ok", ok);
    o.vec("s1", vector2(out.get_start_point()), ok ? s : 1), o.vec("s2", vector2(out.get_end_point()), ok ? s : 1);
    o.done();
}
} // namespace

int main()
{
    hcam::setup(480, 360, 310, 250, 640, 480);
    long cases = hio::rd();
    while (cases-- > 0)
    {
        const std::string k = hio::rds();
        if (k == "ray") ray();
        else if (k == "cart") cart();
        else if (k == "pair") pair();
        else if (k == "close2") close<2>();
        else if (k == "close3") close<3>();
        else clamp();
    }
}
