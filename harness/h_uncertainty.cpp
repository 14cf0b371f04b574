// Propagation of uncertainties by the real code; results multiplied by the scale of each case and rounded.
#include "hcam.hpp"
#include "coordinates/plane_coordinates.hpp"
#include "covariances.hpp"
#include "hscale.hpp"

using namespace rgbd_slam;
using hscale::Out;

namespace {
double N;
quaternion rdq()
{
    const double w = hio::rd(), x = hio::rd(), y = hio::rd(), z = hio::rd();
    N = w * w + x * x + y * y + z * z;
    return quaternion(w, x, y, z).normalized();
}
vector3 v3() { const double a = hio::rd(), b = hio::rd(), c = hio::rd(); return vector3(a, b, c); }
matrix33 m3() { matrix33 m; for (int i = 0; i < 9; ++i) m(i / 3, i % 3) = hio::rd(); return m; }
template<class T> T as(const matrix33& m) { T r; r << m; return r; }

void move()
{
    const quaternion q = rdq();
    const matrix33 C = m3(), P = m3();
    m3();
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, vector3(100, -20, 7));
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(q, vector3(100, -20, 7));
    Out o;
    o.mat("w", utils::get_world_point_covariance(as<CameraCoordinateCovariance>(C), c2w, P), N * N);
    o.mat("c", utils::get_camera_point_covariance(as<WorldCoordinateCovariance>(C), w2c, P), N * N);
    o.done();
}
void pixel()
{
    const double a = hio::rd(), b = hio::rd(), k = hio::rd();
    const matrix33 C = m3();
    const double i = hio::rd(), j = hio::rd(), z = hio::rd();
    const vector3 e = v3();
    const quaternion q = rdq();
    const matrix33 P = m3();
    Out o;
    o.mat("px", utils::get_screen_point_covariance(CameraCoordinate(1440 * k * a, 1440 * k * b, 1440 * k), as<CameraCoordinateCovariance>(C)), 144 * k * k);
    const ScreenCoordinate s(310 + 40 * i, 250 + 30 * j, 120 * z);
    o.mat("pt", utils::get_camera_point_covariance(s, as<ScreenCoordinateCovariance>(e.asDiagonal().toDenseMatrix())), 144);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, vector3(1, 2, 3));
    const auto own = utils::get_camera_point_covariance(s, s.get_covariance());
    const bool same = own.isApprox(utils::get_camera_point_covariance(s), 1e-9) and
                      utils::get_world_point_covariance(own, c2w, P).isApprox(utils::get_world_point_covariance(s, c2w, P), 1e-9);
    o.flag("same", same);
    o.done();
}
void valid()
{
    const matrix33 A = m3(), B = m3();
    const long x = hio::rd() - 1, y = hio::rd() - 1, by = hio::rd();
    Out o;
    o.flag("a", utils::is_covariance_valid(A));
    std::string why;
    o.flag("a2", utils::is_covariance_valid(A, why));
    matrix66 m = matrix66::Zero();
    m.block<3, 3>(0, 0) = A, m.block<3, 3>(3, 3) = B;
    o.flag("ab", utils::is_covariance_valid(m));
    matrix33 S = matrix33::Identity() * 50.0;
    S += matrix33::Constant(1.0);
    S(x, y) += by;
    o.flag("bad", x != y and utils::is_covariance_valid(S));
    matrix33 nan = matrix33::Identity();
    nan(x, y) = nan(y, x) = std::numeric_limits<double>::quiet_NaN();
    o.flag("nan", utils::is_covariance_valid(nan));
    nan(x, y) = nan(y, x) = std::numeric_limits<double>::infinity();
    o.flag("inf", utils::is_covariance_valid(nan));
    o.done();
}
void plane()
{
    const vector3 m = v3();
    const double K = hio::rd(), d = hio::rd();
    const matrix33 C = m3(), F = m3();
    const double v = hio::rd();
    const PlaneCameraCoordinates p(m, d);
    Out o;
    matrix44 n = utils::compute_plane_covariance(p, C);
    n.diagonal().array() -= 0.01;
    o.mat("n", matrix33(n.block<3, 3>(0, 0)), K * K * K * K * d * d);
    matrix44 full = matrix44::Zero();
    full.block<3, 3>(0, 0) = F;
    full(3, 3) = v;
    matrix33 f = utils::compute_reduced_plane_point_cloud_covariance(p, full);
    f.diagonal().array() -= 0.01;
    o.mat("f", f, K * K);
    o.done();
}
void world()
{
    const vector3 m = v3();
    const double K = hio::rd(), d = hio::rd();
    const matrix33 C = m3();
    const double v = hio::rd();
    const matrix33 P = m3();
    const quaternion q = rdq();
    const vector3 t = v3();
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(q, t);
    const PlaneCameraToWorldMatrix pc2w = utils::compute_plane_camera_to_world_matrix(c2w);
    const PlaneCameraCoordinates p(m, d);
    matrix44 full = matrix44::Zero();
    full.block<3, 3>(0, 0) = C;
    full(3, 3) = v;
    Out o;
    bool ok = true;
    matrix44 n = matrix44::Zero();
    const double e = std::round(p.to_world_coordinates(pc2w).get_d() * K);
    try
    {
        if (e != 0)
            n = utils::get_world_plane_covariance(p, c2w, pc2w, full, P);
    }
    catch (const std::exception&)
    {
        ok = false;
    }
    o.flag("ok", ok);
    n.diagonal().array() -= 0.01;
    // scale: 100 K^2 of the foot point, K^4 of the normals, (e / K)^2
    o.mat("n", matrix33(n.block<3, 3>(0, 0)), 100 * K * K * K * K * e * e);
    o.done();
}
void depth()
{
    const double z = hio::rd(), w = hio::rd(), out = hio::rd(), u = hio::rd(), y = hio::rd();
    Out o;
    o.num("qz", utils::get_depth_quantization(z), 1000), o.num("qw", utils::get_depth_quantization(w), 1000);
    const double k = std::floor(z / 20);
    o.num("q20", utils::get_depth_quantization(20 * k), 250000), o.num("k", k, 1);
    bool ok = true;
    ScreenCoordinateCovariance a, b;
    a.setZero(), b.setZero();
    try
    {
        a = ScreenCoordinate(u, y, z).get_covariance(), b = ScreenCoordinate(u, y, out).get_covariance();
        const matrix22 c = ScreenCoordinate2D(u, y).get_covariance();
        ok = utils::is_covariance_valid(matrix33(a)) and utils::is_covariance_valid(matrix33(b)) and utils::is_covariance_valid(c) and
             c.isApprox(a.block<2, 2>(0, 0)) and c(0, 0) > 0 and a(2, 2) > 0;
    }
    catch (const std::exception&)
    {
        ok = false;
    }
    o.flag("ok", ok), o.num("vz", a(2, 2), 100), o.num("vout", b(2, 2), 100);
    o.done();
}
} // namespace

int main()
{
    hcam::setup(480, 360, 310, 250, 640, 480);
    long cases = hio::rd();
    while (cases-- > 0)
    {
        const std::string k = hio::rds();
        if (k == "move") move();
        else if (k == "pixel") pixel();
        else if (k == "valid") valid();
        else if (k == "plane") plane();
        else if (k == "world") world();
        else depth();
    }
}
