// Executes polygon operations with the real code.
#include "coordinates/polygon_coordinates.hpp"
#include "hcam.hpp"
#include "hscale.hpp"
#include "utils/polygon.hpp"

using namespace rgbd_slam;
using utils::Polygon;
using hscale::Out;

struct Frame
{
    double n;
    matrix33 M;
    vector3 c;
    vector3 x() const { return M.col(0); }
    vector3 y() const { return M.col(1); }
    vector3 z() const { return M.col(2); }
};
static Frame rdframe(quaternion* keep = nullptr)
{
    Frame f;
    const double w = hio::rd(), x = hio::rd(), y = hio::rd(), z = hio::rd();
    f.n = w * w + x * x + y * y + z * z;
    const quaternion q = quaternion(w, x, y, z).normalized();
    if (keep)
        *keep = q;
    f.M = q.toRotationMatrix();
    for (int i = 0; i < 3; ++i)
        f.c(i) = hio::rd();
    return f;
}
static std::vector<Polygon::point_2d> rdring()
{
    std::vector<Polygon::point_2d> r;
    for (long n = hio::rd(); n > 0; --n)
    {
        const double x = hio::rd(), y = hio::rd();
        r.emplace_back(x, y);
    }
    return r;
}
static void points(Out& o, const std::string& k, const std::vector<vector3>& v, const double scale)
{
    Eigen::MatrixXd m(v.size(), 3);
    for (size_t i = 0; i < v.size(); ++i)
        m.row(i) = v[i].transpose();
    o.mat(k, m, scale);
}
static void window(Out& o, const std::string& k, const Polygon& p, const double s)
{
    Eigen::MatrixXd m(33, 33);
    for (int i = 0; i < 33; ++i)
        for (int j = 0; j < 33; ++j)
            m(i, j) = p.contains(vector2((i - 16 + 0.5) * s, (j - 16 + 0.5) * s));
    o.mat(k, m, 1);
}
static void pair(Out& o)
{
    const double s = hio::rd();
    const Frame f = rdframe();
    const auto ra = rdring(), rb = rdring();
    const long k = hio::rd(), flip = hio::rd();
    const double ox = hio::rd(), oy = hio::rd(), h = hio::rd();
    // frame of b, in the plane of a
    auto seen = [&](double x, double y) {
        y = flip ? -y : y;
        return k == 0 ? vector2(x, y) : k == 1 ? vector2(-y, x) : k == 2 ? vector2(-x, -y) : vector2(y, -x);
    };
    const vector2 bx = seen(1, 0), by = seen(0, 1);
    const vector3 X = bx.x() * f.x() + bx.y() * f.y(), Y = by.x() * f.x() + by.y() * f.y();
    const vector3 C = f.c + s * (ox * f.x() + oy * f.y()) + h * f.z();
    const Polygon A(ra, f.x(), f.y(), f.c), B(rb, X, Y, C);
    const double u = 1 / (s * s);
    o.num("areaA", A.area(), u), o.num("areaB", B.area(), u), o.num("keptA", A.get_area(), u);
    o.num("inter", A.inter_area(B), u), o.num("inter2", B.inter_area(A), u);
    o.num("union", A.union_area(B), u), o.num("union2", B.union_area(A), u);
    const double off = o.off;
    o.num("iou", A.inter_over_union(B), 1e6);
    o.off = off;
    window(o, "win", A, s);
    Polygon U(A);
    U.merge_union(B);
    // big shapes may be simplified: their area is not a number of cells
    o.num("merged", U.area(), u), o.flag("mergedKept", std::abs(U.get_area() - U.area()) <= 1e-9 * U.area());
    o.off = off;
    window(o, "win2", U, s);
}
static void move(Out& o)
{
    const double s = hio::rd();
    const Frame f = rdframe();
    const auto ra = rdring();
    quaternion q;
    const Frame F = rdframe(&q);
    const double u = 1000 / (s * s);
    const CameraPolygon A(ra, f.x(), f.y(), f.c);
    points(o, "here", A.get_unprojected_boundary(), f.n);
    o.vec("x", A.get_x_axis(), f.n), o.vec("y", A.get_y_axis(), f.n), o.vec("z", A.get_normal(), f.n);
    const Polygon p = A.Polygon::project(F.x(), F.y(), F.c), pn = A.Polygon::project(F.z(), F.c);
    points(o, "proj", p.get_unprojected_boundary(), f.n * F.n * F.n);
    const double off = o.off;
    o.num("projArea", p.area(), u);
    o.off = off;
    points(o, "projN", pn.get_unprojected_boundary(), f.n * F.n * F.n);
    o.vec("normN", pn.get_normal(), F.n);
    o.flag("orthoN", std::abs(pn.get_x_axis().dot(pn.get_y_axis())) < 1e-9 and std::abs(pn.get_x_axis().norm() - 1) < 1e-9 and std::abs(pn.get_y_axis().norm() - 1) < 1e-9);
    o.vec("projC", p.get_center(), 1), o.vec("projX", p.get_x_axis(), F.n), o.vec("projY", p.get_y_axis(), F.n);
    const Polygon t = A.transform(F.x(), F.y(), F.c), tn = A.transform(F.z(), F.c);
    points(o, "trans", t.get_unprojected_boundary(), F.n);
    o.num("transArea", t.area(), u);
    o.vec("transC", t.get_center(), 1), o.vec("transX", t.get_x_axis(), F.n), o.vec("transY", t.get_y_axis(), F.n), o.vec("transNorm", tn.get_normal(), F.n);
    // the second frame as the pose of the camera
    const auto c2w = utils::compute_camera_to_world_transform(q, F.c);
    const auto w2c = utils::compute_world_to_camera_transform(q, F.c);
    const WorldPolygon w = A.to_world_space(c2w);
    points(o, "world", w.get_unprojected_boundary(), f.n * F.n);
    o.num("worldArea", w.area(), u), o.vec("worldC", w.get_center(), F.n), o.vec("worldN", w.get_normal(), f.n * F.n);
    const CameraPolygon back = w.to_camera_space(w2c);
    points(o, "back", back.get_unprojected_boundary(), f.n);
    o.num("backArea", back.area(), u), o.vec("backC", back.get_center(), 1), o.vec("backN", back.get_normal(), f.n);
}
static void bump(Out& o)
{
    const Frame f = rdframe();
    const double w = hio::rd(), h = hio::rd(), e = hio::rd();
    using P = Polygon::point_2d;
    const std::vector<P> ring({P(0, 0), P(w, 0), P(w, h), P(w / 2, h + e), P(0, h), P(0, 0)});
    Polygon p(ring, f.x(), f.y(), f.c), inner({P(10, 10), P(w - 10, 10), P(w - 10, h - 90), P(10, h - 90), P(10, 10)}, f.x(), f.y(), f.c);
    Polygon u(p);
    p.simplify();
    o.num("left", p.area(), 1), o.num("kept", p.get_area(), 1), o.num("sides", p.boundary_length(), 1);
    u.merge_union(inner);
    o.num("uleft", u.area(), 1), o.num("ukept", u.get_area(), 1);
}
static void hull(Out& o)
{
    const double s = hio::rd();
    const Frame f = rdframe();
    const auto pts = rdring();
    std::vector<vector2> flat;
    std::vector<vector3> space;
    for (const auto& p: pts)
    {
        flat.emplace_back(p.x(), p.y());
        space.push_back(f.c + s * (p.x() * f.x() + p.y() * f.y()));
    }
    const auto ring = Polygon::compute_convex_hull(flat);
    Eigen::MatrixXd h(ring.outer().size(), 2);
    for (size_t i = 0; i < ring.outer().size(); ++i)
        h.row(i) << ring.outer()[i].x(), ring.outer()[i].y();
    o.mat("hull", h, 1);
    const Polygon fit(space, f.z(), f.c);
    const double off = o.off;
    points(o, "fit", fit.get_unprojected_boundary(), f.n);
    o.num("area", fit.area(), 1);
    o.off = off;
    o.flag("valid", fit.is_valid());
    // every point is inside, up to the simplification of the boundary
    const double slack = std::max(10.0, fit.area() / 1e5) * 2 + 1e-6;
    bool in = true;
    std::vector<vector2> b;
    for (const auto& p: fit.get_unprojected_boundary())
        b.emplace_back((p - f.c).dot(fit.get_x_axis()), (p - f.c).dot(fit.get_y_axis()));
    for (const auto& p: space)
    {
        const vector2 v((p - f.c).dot(fit.get_x_axis()), (p - f.c).dot(fit.get_y_axis()));
        bool near = fit.contains(v);
        for (size_t i = 0; i + 1 < b.size(); ++i)
        {
            const vector2 e = b[i + 1] - b[i];
            const double t = e.squaredNorm() > 0 ? std::clamp((v - b[i]).dot(e) / e.squaredNorm(), 0.0, 1.0) : 0.0;
            near = near or (v - b[i] - t * e).norm() <= slack;
        }
        in = in and near;
    }
    o.flag("in", in);
}

int main()
{
    hcam::setup();
    for (long n = hio::rd(); n > 0; --n)
    {
        const std::string t = hio::rds();
        Out o;
        t == "pair" ? pair(o) : t == "move" ? move(o) : t == "bump" ? bump(o) : hull(o);
        o.done();
    }
}
