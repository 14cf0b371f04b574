// C23: the real pose estimation on matches built with the real features of the map
#include "hscale.hpp"
#include "hcam.hpp"
#include "pose_optimization/pose_optimization.hpp"
#include "pose_optimization/levenberg_marquardt_functors.hpp"
#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"
#include <algorithm>
#include <limits>

using namespace rgbd_slam;
using hio::rd;
using hio::rds;

static vector3 rv(const double s = 1.0)
{
    const double x = rd(), y = rd(), z = rd();
    return vector3(x, y, z) / s;
}
static quaternion rq()
{
    const double w = rd(), x = rd(), y = rd(), z = rd();
    return quaternion(w, x, y, z).normalized();
}
static long up(const double v) { return std::isfinite(v) ? std::min(2000000000.0, std::ceil(v - 1e-9)) : 2000000000.0; }

struct Made
{
    std::string kind;
    vector2 px;
    vector3 w, o;
    vector4 cam, map;
    double N = 1;
    bool invalid = false;
};

static matches_containers::match_container make(const std::vector<Made>& ms, const double dev)
{
    using namespace map_management;
    matches_containers::match_container res;
    size_t i = 0;
    const double nan = std::numeric_limits<double>::quiet_NaN();
    for (const Made& m: ms)
    {
        ++i;
        const ScreenCoordinate2D px(m.px.x(), m.px.y());
        if (m.kind == "point")
            res.push_back(std::make_shared<PointOptimizationFeature>(px, WorldCoordinate(m.w), vector3::Constant(m.invalid ? nan : dev), 100 + i, i));
        else if (m.kind == "flat")
        {
            vector6 d = vector6::Zero();
            d(4) = d(5) = dev / 2000.0;
            if (m.invalid)
                d(4) = -1;
            res.push_back(std::make_shared<Point2dOptimizationFeature>(
                    px, InverseDepthWorldPoint::from_cartesian(WorldCoordinate(m.w), WorldCoordinate(m.o)), d, 100 + i, i));
        }
        else
        {
            vector4 d(dev / 2000.0, dev / 2000.0, dev / 2000.0, dev);
            if (m.invalid)
                d(3) = nan;
            res.push_back(std::make_shared<PlaneOptimizationFeature>(PlaneCameraCoordinates(vector3(m.cam.head<3>()), m.cam(3)),
                                                                     PlaneWorldCoordinates(vector3(m.map.head<3>()), m.map(3)),
                                                                     d,
                                                                     100 + i,
                                                                     i));
        }
    }
    return res;
}

static void locate()
{
    const quaternion q = rq();
    const vector3 t = rv();
    const quaternion q1 = rq();
    const vector3 t1 = rv();
    const double dev = rd(), wider = rd();
    std::vector<Made> ms;
    for (int n = rd(); n > 0; --n)
    {
        Made m;
        m.kind = rds();
        m.invalid = rd() == 1;
        if (m.kind == "plane")
        {
            const double S = rd(), K = rd();
            const vector3 wn = rv(S);
            const double wd = rd();
            m.map << wn, wd / S;
            const vector3 cn = rv(K);
            m.cam << cn, rd();
        }
        else
        {
            const double S = rd();
            m.w = rv(S);
            m.o = rv();
            const double z = rd();
            m.px.x() = rd() / z;
            m.px.y() = rd() / z;
        }
        ms.push_back(m);
    }
    const auto matches = make(ms, dev);
    utils::Pose out(vector3(1, 2, 3), quaternion(1, 0, 0, 0));
    matches_containers::match_sets sets;
    const bool ok = pose_optimization::Pose_Optimization::compute_optimized_pose(utils::PoseBase(t1, q1), matches, out, sets);
    hscale::Out o;
    o.flag("ok", ok);
    std::vector<long> in, outl;
    bool known = true;
    for (const auto& f: sets._inliers)
        in.push_back(f->_detectedFeatureId), known = known and std::count(matches.begin(), matches.end(), f) == 1;
    for (const auto& f: sets._outliers)
        outl.push_back(f->_detectedFeatureId), known = known and std::count(matches.begin(), matches.end(), f) == 1;
    o.flag("known", known);
    o.key("in"), o.s += hio::arr(in);
    o.key("outl"), o.s += hio::arr(outl);
    long pe = 0, re = 0, cov = 1, v1 = 0, v2 = 0;
    if (ok)
    {
        pe = up(10.0 * (out.get_position() - t).cwiseAbs().maxCoeff());
        re = up(1e4 * q.angularDistance(out.get_orientation_quaternion()));
        const matrix66 c = out.get_pose_variance();
        cov = c.allFinite() and (c - c.transpose()).cwiseAbs().maxCoeff() < 1e-9 and Eigen::SelfAdjointEigenSolver<matrix66>(c).eigenvalues().minCoeff() > -1e-9;
        v1 = up(1000.0 * (c(0, 0) + c(1, 1) + c(2, 2) - 0.003));
        if (wider > 1)
        {
            const auto more = make(ms, dev * wider);
            matches_containers::match_container kept;
            for (const auto& f: more)
                if (std::count(in.begin(), in.end(), static_cast<long>(f->_detectedFeatureId)))
                    kept.push_back(f);
            matrix66 c2;
            if (pose_optimization::Pose_Optimization::compute_pose_variance(out, kept, c2))
                v2 = up(1000.0 * (c2(0, 0) + c2(1, 1) + c2(2, 2) - 0.003));
            else
                v2 = -1;
        }
    }
    o.num("pe", pe, 1), o.num("re", re, 1), o.num("cov", cov, 1), o.num("v1", v1, 1), o.num("v2", v2, 1);
    o.done();
}

static void turn()
{
    const double K = rd();
    const double w = rd(), x = rd(), y = rd(), z = rd();
    const utils::PoseBase p(vector3(1, -2, 3), quaternion(w / K, x / K, y / K, z / K));
    const vector6 c = pose_optimization::get_optimization_coefficient_from_pose(p);
    const utils::PoseBase b = pose_optimization::get_pose_from_optimization_coefficients(c);
    hscale::Out o;
    o.flag("finite", c.allFinite());
    o.num("pe", up(1e6 * (b.get_position() - p.get_position()).cwiseAbs().maxCoeff()), 1);
    o.num("re", up(1e5 * b.get_orientation_quaternion().angularDistance(p.get_orientation_quaternion())), 1);
    o.done();
}

static void slope()
{
    const vector3 n = rv();
    const double d = rd(), S = std::pow(d * d + n.squaredNorm(), 2);
    vector6 c;
    c << 7, -8, 9, n / d;
    Eigen::Matrix<double, 7, 6> j;
    const utils::PoseBase p = pose_optimization::get_pose_from_optimization_coefficients(c, j);
    hscale::Out o;
    o.flag("pos", p.get_position() == vector3(7, -8, 9));
    const quaternion q = p.get_orientation_quaternion();
    o.vec("at", vector4(q.w(), q.x(), q.y(), q.z()), d * d + n.squaredNorm());
    o.mat("jp", matrix33(j.block<3, 3>(0, 0)), 1), o.mat("jx", Eigen::Matrix<double, 4, 3>(j.block<4, 3>(3, 0)), 1);
    o.mat("jy", matrix33(j.block<3, 3>(0, 3)), 1), o.mat("jq", Eigen::Matrix<double, 4, 3>(j.block<4, 3>(3, 3)), S);
    o.done();
}

// perturbed copies of a match: mean and spread of their distance to the match, seen from the origin
static void spread(const matches_containers::feat_ptr& f, const WorldToCameraMatrix& w2c, hscale::Out o)
{
    const int n = 4000;
    const long parts = f->get_distance(w2c).size();
    vectorxd sum = vectorxd::Zero(parts), sq = vectorxd::Zero(parts);
    for (int i = 0; i < n; ++i)
    {
        const vectorxd d = f->compute_random_variation()->get_distance(w2c);
        sum += d, sq += d.cwiseProduct(d);
    }
    sum /= n;
    o.vec("mean", sum, 1000);
    o.vec("sd", vectorxd((sq / n - sum.cwiseProduct(sum)).cwiseMax(0).cwiseSqrt()), 1000);
    o.done();
}

static void shake()
{
    using namespace map_management;
    const std::string kind = rds();
    const int axis = rd();
    const double u = rd();
    const vector3 c = rv();
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(quaternion::Identity(), vector3::Zero());
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(quaternion::Identity(), vector3::Zero());
    const WorldCoordinate w = CameraCoordinate(c).to_world_coordinates(c2w);
    const ScreenCoordinate2D px(310 + 480.0 * c.x() / c.z(), 250 + 360.0 * c.y() / c.z());
    matches_containers::feat_ptr f;
    if (kind == "point")
    {
        vector3 d = vector3::Zero();
        d(axis - 1) = u;
        f = std::make_shared<PointOptimizationFeature>(px, w, d, 1, 1);
    }
    else if (kind == "flat")
    {
        vector6 d = vector6::Zero();
        d(axis == 1 ? InverseDepthWorldPoint::thetaIndex : InverseDepthWorldPoint::phiIndex) = u / 1000.0;
        f = std::make_shared<Point2dOptimizationFeature>(
                px, InverseDepthWorldPoint::from_cartesian(w, WorldCoordinate(vector3(vector3::Zero()))), d, 1, 1);
    }
    else
    {
        vector4 d = vector4::Zero();
        d(axis - 1) = axis == 4 ? u : u / 1000.0;
        f = std::make_shared<PlaneOptimizationFeature>(
                PlaneCameraCoordinates(vector3(0, 0, -1), c.z()), PlaneWorldCoordinates(vector3(-1, 0, 0), c.z()), d, 1, 1);
    }
    spread(f, w2c, hscale::Out());
}

// the same, for the match that a feature of the map hands to the pose estimation (seen in the middle of the image)
static void handed()
{
    using namespace map_management;
    const std::string kind = rds();
    const double u = rd(), z = rd();
    const CameraToWorldMatrix c2w = utils::compute_camera_to_world_transform(quaternion::Identity(), vector3::Zero());
    const WorldToCameraMatrix w2c = utils::compute_world_to_camera_transform(quaternion::Identity(), vector3::Zero());
    const matrix33 cov = u * u * matrix33::Identity();
    matches_containers::match_container matches;
    hscale::Out o;
    if (kind == "plane")
    {
        const auto rect = hcam::rectangle(z, -400, 400, -300, 300);
        const StagedMapPlane f(cov, c2w, rect);
        features::primitives::plane_container dets;
        dets.push_back(rect);
        std::ignore = f.find_matches(dets, w2c, vectorb::Zero(1), matches, true, false);
        const vectorxd sd = f.get_covariance().diagonal().cwiseSqrt();
        o.vec("dev", vector3(z * sd(1), z * sd(2), sd(3)), 1000);
    }
    else
    {
        const features::keypoints::DetectedKeyPoint det(ScreenCoordinate(310, 250, z), cv::Mat::zeros(1, 32, CV_8U));
        features::keypoints::Keypoint_Handler frame(640, 480, 0.7);
        std::vector<cv::Point2f> px {cv::Point2f(310, 250)};
        frame.set(px, cv::Mat::zeros(1, 32, CV_8U), features::keypoints::KeypointsWithIdStruct(), cv::Mat_<float>(480, 640, static_cast<float>(z)));
        if (kind == "point")
        {
            const StagedMapPoint f(cov, c2w, det);
            std::ignore = f.find_matches(frame, w2c, vectorb::Zero(1), matches, true, false);
            const vector3 sd = f._covariance.diagonal().cwiseSqrt();
            o.vec("dev", vector2(480 * sd(1) / z, 360 * sd(2) / z), 1000);
        }
        else
        {
            const StagedMapPoint2D f(cov, c2w, det);
            std::ignore = f.find_matches(frame, w2c, vectorb::Zero(1), matches, true, false);
            const vector6 sd = f._covariance.diagonal().cwiseSqrt();
            o.vec("dev", vector2(480 * sd(InverseDepthWorldPoint::phiIndex), 360 * sd(InverseDepthWorldPoint::thetaIndex)), 1000);
        }
    }
    o.num("found", matches.size(), 1);
    if (matches.empty())
        o.done();
    else
        spread(matches.front(), w2c, o);
}

int main()
{
    hcam::setup(480, 360, 310, 250);
    for (long n = rd(); n > 0; --n)
    {
        const std::string op = rds();
        if (op == "locate")
            locate();
        else if (op == "slope")
            slope();
        else if (op == "shake")
            shake();
        else if (op == "handed")
            handed();
        else
            turn();
    }
    return 0;
}
