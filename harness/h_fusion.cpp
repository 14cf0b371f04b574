// Fusion of measurements by the real filters and tracked features; results multiplied by the scale of each case.
#include "hcam.hpp"
#include "covariances.hpp"
#include "hscale.hpp"
#include "tracking/inverse_depth_with_tracking.hpp"
#include "tracking/kalman_filter.hpp"
#include "tracking/plane_with_tracking.hpp"
#include "tracking/point_with_tracking.hpp"

using namespace rgbd_slam;
using hscale::Out;

namespace {
template<int A, int B> Eigen::Matrix<double, A, B> rm()
{
    Eigen::Matrix<double, A, B> m;
    for (int i = 0; i < A; ++i)
        for (int j = 0; j < B; ++j)
            m(i, j) = hio::rd();
    return m;
}
vector3 v3() { return rm<3, 1>(); }
template<class A, class B> bool close(const A& a, const B& b, const double eps = 1e-9)
{
    return a.allFinite() and b.allFinite() and (a - b).norm() <= eps * (1 + a.norm() + b.norm());
}
template<class F> bool works(F f)
{
    try
    {
        return f();
    }
    catch (const std::exception&)
    {
        return false;
    }
}

template<int N, int M> void kalman()
{
    using Mat = Eigen::Matrix<double, N, N>;
    using MatM = Eigen::Matrix<double, M, M>;
    const Mat F = rm<N, N>(), F2 = rm<N, N>();
    const Eigen::Matrix<double, M, N> H = rm<M, N>();
    const Mat Q = rm<N, N>(), P = rm<N, N>();
    const MatM R = rm<M, M>(), R2 = rm<M, M>();
    const Eigen::Vector<double, N> x = rm<N, 1>();
    const Eigen::Vector<double, M> z = rm<M, 1>(), z2 = rm<M, 1>();
    const int bad = hio::rd() - 1;
    const double D = (H * (F * P * F.transpose() + Q) * H.transpose() + R).determinant();
    Out o;
    tracking::SharedKalmanFilter<N, M> shared(F, H, Q);
    tracking::KalmanFilter<N, M> own(F, H, Q);
    o.flag("early", own.is_initialized() or works([&] { own.update(z, R); return true; }));
    own.init(P, x);
    MatM B = R;
    B(bad, bad) = -1;
    bool taken = works([&] { own.update(z, B); return true; }) or works([&] { std::ignore = shared.get_new_state(x, P, z, B); return true; });
    if (M > 1)
    {
        B = R, B(0, M - 1) += 1;
        taken = taken or works([&] { own.update(z, B); return true; });
    }
    B = R, B(bad, bad) = std::nan("");
    taken = taken or works([&] { own.update(z, B); return true; });
    o.flag("taken", taken);
    o.flag("kept", own.is_initialized() and close(own.get_state(), x) and close(own.get_state_covariance(), P));
    Mat W = P;
    W(0, 0) = -2;
    o.flag("wrong", works([&] { std::ignore = shared.get_new_state(x, W, z, R); return true; }));
    Eigen::Vector<double, N> sx = x;
    Mat sP = P;
    const bool ok = works([&] {
        own.update(z, R);
        const auto s = shared.get_new_state(x, P, z, R);
        sx = s.first, sP = s.second;
        return true;
    });
    o.flag("ok", ok);
    o.vec("fx", own.get_state(), D), o.vec("sx", sx, D);
    o.mat("fP", own.get_state_covariance(), D), o.mat("sP", sP, D);
    // a second one, from the fused estimate
    bool chain = not ok, dyn = not ok;
    if (ok)
        chain = works([&] {
            const auto s = shared.get_new_state(sx, sP, z2, R2);
            own.update(z2, R2);
            return close(own.get_state(), s.first) and close(own.get_state_covariance(), s.second);
        });
    dyn = true;
    if constexpr (N == M)
        dyn = works([&] {
            own.init(P, x);
            own.update(z2, R2, F2);
            tracking::SharedKalmanFilter<N, M> other(F2, H, Q);
            auto s = other.get_new_state(x, P, z2, R2);
            const bool one = close(own.get_state(), s.first) and close(own.get_state_covariance(), s.second);
            s = other.get_new_state(s.first, s.second, z, R);
            own.update(z, R);
            return one and close(own.get_state(), s.first) and close(own.get_state_covariance(), s.second);
        });
    o.flag("chain", chain), o.flag("dyn", dyn);
    o.done();
}
template<int N> void certain()
{
    using Mat = Eigen::Matrix<double, N, N>;
    const Mat P = rm<N, N>(), R = rm<N, N>();
    const Eigen::Vector<double, N> x = rm<N, 1>(), z = rm<N, 1>();
    tracking::SharedKalmanFilter<N, N> f(Mat::Identity(), Mat::Identity(), Mat::Zero());
    Eigen::Vector<double, N> sx = x;
    Mat sP = P;
    Out o;
    o.flag("ok", works([&] {
               const auto s = f.get_new_state(x, P, z, R);
               sx = s.first, sP = s.second;
               return true;
           }));
    o.vec("fx", sx, 12), o.mat("fP", sP, 12);
    o.done();
}
cv::Mat descriptor() { return cv::Mat::ones(1, 32, CV_8UC1); }
WorldCoordinateCovariance wc(const matrix33& m)
{
    WorldCoordinateCovariance c;
    c << m;
    return c;
}
void still()
{
    const vector3 x = v3();
    const matrix33 P = rm<3, 3>() / 1000;
    const vector3 z = v3();
    const matrix33 R = rm<3, 3>() / 1000;
    const vector3 z2 = v3();
    const matrix33 R2 = rm<3, 3>() / 1000;
    const int bad = hio::rd() - 1;
    const double D = (1000 * (P + R) + matrix33::Identity()).determinant();
    Out o;
    tracking::Point p(WorldCoordinate(x), wc(P), descriptor());
    matrix33 B = R;
    B(bad, bad) = -0.001;
    bool taken = p.track(WorldCoordinate(z), B) >= 0;
    B = R, B(bad, (bad + 1) % 3) += 0.01;
    taken = taken or p.track(WorldCoordinate(z), B) >= 0;
    o.flag("taken", taken), o.flag("kept", close(p._coordinates, x) and close(matrix33(p._covariance), P) and not p.is_moving());
    const double score = p.track(WorldCoordinate(z), R);
    o.vec("fx", p._coordinates, D), o.mat("fP", p._covariance, 1000 * D);
    o.flag("score", std::abs(score - (p._coordinates - x).norm()) < 1e-6);
    tracking::Point q(p._coordinates, p._covariance, descriptor());
    tracking::Point fresh(WorldCoordinate(x), wc(P), descriptor());
    fresh.track(WorldCoordinate(z), R);
    q.track(WorldCoordinate(z2), R2), p.track(WorldCoordinate(z2), R2);
    o.flag("chain", close(q._coordinates, p._coordinates) and close(matrix33(q._covariance), matrix33(p._covariance)) and not close(p._coordinates, fresh._coordinates) == not close(q._coordinates, fresh._coordinates));
    B = P, B(bad, bad) = -1;
    bool create = works([&] { tracking::Point t(WorldCoordinate(x), wc(B), descriptor()); return true; });
    create = create or works([&] { tracking::Point t(WorldCoordinate(x), wc(P), cv::Mat()); return true; });
    vector3 u = x;
    u(bad) = std::nan("");
    create = create or works([&] { tracking::Point t((WorldCoordinate(u)), wc(P), descriptor()); return true; });
    o.flag("create", create);
    o.done();
}
void moving()
{
    const vector3 x = v3(), z = v3(), sd = v3();
    tracking::Point p(WorldCoordinate(x), wc(matrix33::Identity()), descriptor());
    p.track(WorldCoordinate(z), sd.cwiseProduct(sd).asDiagonal());
    Out o;
    o.flag("moving", p.is_moving());
    o.done();
}
void inv()
{
    const vector3 m = v3();
    const double h = hio::rd(), K = hio::rd(), s = hio::rd();
    const vector3 org = v3();
    const matrix66 C = rm<6, 6>();
    const matrix33 A = rm<3, 3>(), P = rm<3, 3>();
    const double e = hio::rd();
    const vector3 w = v3();
    Eigen::Vector<double, 6> T;
    T << 1, 1, 1, 1 / (K * s * s), h / s, 1 / s;
    const WorldCoordinate at(org + s * m), first(org);
    Out o;
    using Inv = tracking::PointInverseDepth;
    const InverseDepthWorldPoint c = InverseDepthWorldPoint::from_cartesian(at, first);
    o.mat("cart", Inv::compute_cartesian_covariance(c, matrix66(T.asDiagonal() * C * T.asDiagonal())), 1);
    Eigen::Matrix<double, 6, 3> jac;
    const InverseDepthWorldPoint c2 = InverseDepthWorldPoint::from_cartesian(at, first, jac);
    Eigen::Vector<double, 6> S;
    S << 1, 1, 1, K * K * K * s * s, h * s * K * K, h * h * s;
    const matrix66 back = Inv::compute_inverse_depth_covariance(wc(A), P, jac);
    o.mat("back", matrix66(S.asDiagonal() * back * S.asDiagonal()), 1);
    Inv p(ScreenCoordinate2D(310, 250), utils::compute_camera_to_world_transform(quaternion::Identity(), vector3(0, 0, 0)), matrix33::Identity());
    p._coordinates = c2;
    p._covariance(3, 3) = std::pow(e / (K * s * s), 2);
    // the camera is at `at - w` in the world
    const vector3 cam = at - w;
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(quaternion::Identity(), vector3(-cam.y(), -cam.z(), cam.x()));
    o.num("lin", w.isZero() ? 0.0 : p.compute_linearity_score(c2w), w.squaredNorm());
    o.done();
}
quaternion rdq()
{
    const double w = hio::rd(), x = hio::rd(), y = hio::rd(), z = hio::rd();
    return quaternion(w, x, y, z).normalized();
}
struct Copy
{
    vector3 at;
    double inverse;
    vector3 first;
    matrix66 cov;
    bool moving;
    explicit Copy(const tracking::PointInverseDepth& p) :
        at(p._coordinates.get_bearing_vector()), inverse(p._coordinates.get_inverse_depth()), first(p._coordinates.get_first_observation()), cov(p._covariance), moving(p.is_moving())
    {
    }
    bool same(const tracking::PointInverseDepth& p) const
    {
        const Copy o(p);
        return at == o.at and inverse == o.inverse and first == o.first and cov == o.cov and moving == o.moving;
    }
};
// what the fusion of the point with a measured position should give; false if it has no valid uncertainty
bool fused(const tracking::PointInverseDepth& p, const vector3& at, const matrix33& cov, tracking::PointInverseDepth& out)
{
    using Inv = tracking::PointInverseDepth;
    return works([&] {
        tracking::SharedKalmanFilter<3, 3> f(matrix33::Identity(), matrix33::Identity(), matrix33::Identity() * 0.0001);
        const auto s = f.get_new_state(p._coordinates.to_world_coordinates(), Inv::compute_cartesian_covariance(p._coordinates, p._covariance), at, cov);
        Eigen::Matrix<double, 6, 3> jac;
        const auto c = InverseDepthWorldPoint::from_cartesian(WorldCoordinate(s.first), p._coordinates.get_first_observation(), jac);
        const auto k = Inv::compute_inverse_depth_covariance(wc(s.second), p._covariance.get_first_pose_covariance(), jac);
        out._coordinates = c, out._covariance = k;
        return utils::is_covariance_valid(matrix66(k));
    });
}
bool alike(const tracking::PointInverseDepth& a, const tracking::PointInverseDepth& b)
{
    // inverse depths and angles are small numbers: compare each relatively
    const matrix66 x = a._covariance, y = b._covariance;
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j)
            if (not(std::abs(x(i, j) - y(i, j)) <= 1e-6 * std::sqrt(std::abs(x(i, i) * x(j, j)))))
                return false;
    return close(vector3(a._coordinates.to_world_coordinates()), vector3(b._coordinates.to_world_coordinates()), 1e-7);
}
void seen()
{
    using Inv = tracking::PointInverseDepth;
    const quaternion q = rdq();
    const vector3 t = v3();
    const double u = hio::rd(), v = hio::rd();
    const quaternion q2 = rdq();
    const vector3 t2 = v3();
    const double u2 = hio::rd(), v2 = hio::rd(), z = hio::rd();
    const matrix33 P = rm<3, 3>(), P2 = rm<3, 3>();
    const int bad = hio::rd();
    const CameraToWorldMatrix one = utils::compute_camera_to_world_transform(q, t), two = utils::compute_camera_to_world_transform(q2, t2);
    matrix33 B = P2;
    if (bad == 0)
        B(1, 1) = -1e9;
    Out o;
    const Inv start(ScreenCoordinate2D(u, v), one, P);
    const Copy copy(start);
    o.num("half", std::sqrt(start._covariance.get_inverse_depth_variance()) / start._coordinates.get_inverse_depth(), 1000);
    const matrix66 cov = start._covariance;
    o.flag("first", close(matrix33(cov.block<3, 3>(0, 0)), P) and cov.block<3, 3>(0, 3).isZero() and cov(4, 4) > 0 and cov(4, 4) == cov(5, 5) and matrix66(cov.diagonal().asDiagonal()).block<3, 3>(3, 3) == cov.block<3, 3>(3, 3));
    // measured with a depth
    Inv deep(start), want(start);
    const ScreenCoordinate obs(u2, v2, z);
    const bool dok = works([&] { return deep.track(obs, two, P2, descriptor()); });
    bool dgood = false, dsame = true;
    if (z > 40 and z <= 6000)
    {
        dgood = fused(start, obs.to_world_coordinates(two), utils::get_world_point_covariance(obs, two, P2), want);
        dsame = dgood and alike(deep, want);
    }
    o.flag("deep", dok), o.flag("dkept", copy.same(deep)), o.flag("dgood", dgood), o.flag("dsame", dsame);
    // measured without
    Inv flat(start), want2(start);
    const bool fok = works([&] { return flat.track(ScreenCoordinate2D(u2, v2), two, P2, descriptor()); });
    const bool fgood = works([&] {
        const Inv other(ScreenCoordinate2D(u2, v2), two, P2);
        return fused(start, other._coordinates.to_world_coordinates(), Inv::compute_cartesian_covariance(other._coordinates, other._covariance), want2);
    });
    o.flag("flat", fok), o.flag("fkept", copy.same(flat)), o.flag("fgood", fgood), o.flag("fsame", fgood and alike(flat, want2));
    // from a pose that is not known
    Inv none(start);
    const bool b1 = works([&] { return none.track(obs, two, B, descriptor()); });
    const bool k1 = b1 or copy.same(none);
    Inv none2(start);
    const bool b2 = works([&] { return none2.track(ScreenCoordinate2D(u2, v2), two, B, descriptor()); });
    o.flag("btaken", b1 or b2), o.flag("bkept", k1 and (b2 or copy.same(none2)));
    const vector3 f = start._coordinates.get_first_observation();
    o.flag("origin", vector3(deep._coordinates.get_first_observation()) == f and vector3(flat._coordinates.get_first_observation()) == f and
                             close(deep.get_covariance_of_observed_pose(), P) and close(flat.get_covariance_of_observed_pose(), P));
    o.done();
}
void plane()
{
    const vector3 m1 = v3();
    const double K1 = hio::rd();
    const vector3 m2 = v3();
    const double K2 = hio::rd(), d = hio::rd(), zd = hio::rd(), p = hio::rd(), rn = hio::rd(), pd = hio::rd(), rd = hio::rd();
    const int bad = hio::rd() - 1;
    const vector3 n1 = m1 / K1, n2 = m2 / K2;
    const double s = p + 1 + rn, sd = pd + 1 + rd;
    tracking::Plane plane;
    plane._parametrization = PlaneWorldCoordinates(n1, d);
    plane._covariance = vector4(p, p, p, pd).asDiagonal() * 1e-6;
    const vector3 center = -d * n1, xa = n1.unitOrthogonal(), ya = n1.cross(xa);
    const std::vector<vector3> corners({center + 100 * xa, center + 100 * ya, center - 100 * xa, center - 100 * ya});
    plane._boundaryPolygon = WorldPolygon(utils::Polygon(corners, n1, center));
    const features::primitives::Plane seen = hcam::rectangle(2000, -100, 100, -100, 100);
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(quaternion::Identity(), vector3(0, 0, 0));
    matrix44 R = vector4(rn, rn, rn, rd).asDiagonal() * 1e-6, B = R;
    B(bad, bad) = -1;
    Out o;
    const vector4 before = plane._parametrization.get_parametrization();
    const matrix44 cov = plane._covariance;
    works([&] { plane.track(c2w, seen, PlaneWorldCoordinates(n2, d + zd), B); return true; });
    o.flag("kept", before == plane._parametrization.get_parametrization() and cov == plane._covariance);
    o.flag("ok", works([&] { plane.track(c2w, seen, PlaneWorldCoordinates(n2, d + zd), R); return true; }));
    const vector3 n = plane._parametrization.get_normal();
    o.vec("fn", n, 10000), o.flag("unit", std::abs(n.norm() - 1) < 1e-6);
    o.num("fd", plane._parametrization.get_d(), sd);
    const vector4 dg = plane._covariance.diagonal().cwiseProduct(vector4(s, s, s, sd));
    o.vec("fP", dg, 1e6);
    o.flag("diag", (plane._covariance - matrix44(plane._covariance.diagonal().asDiagonal())).norm() < 1e-12);
    o.done();
}
} // namespace

int main()
{
    hcam::setup(480, 360, 310, 250, 640, 480);
    const long cases = hio::rd();
    for (long i = 0; i < cases; ++i)
    {
        const std::string t = hio::rds();
        if (t == "kalman")
        {
            const long n = hio::rd(), m = hio::rd();
            if (n == 1) kalman<1, 1>();
            else if (n == 2 and m == 1) kalman<2, 1>();
            else if (n == 2) kalman<2, 2>();
            else if (m == 2) kalman<3, 2>();
            else kalman<3, 3>();
        }
        else if (t == "certain") { if (hio::rd() == 2) certain<2>(); else certain<3>(); }
        else if (t == "still") still();
        else if (t == "moving") moving();
        else if (t == "inv") inv();
        else if (t == "seen") seen();
        else plane();
    }
}
