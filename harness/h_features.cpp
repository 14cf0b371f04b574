// Real map features (points, 2D points, planes) asked to match, to be seen, to be followed.
#include "hcam.hpp"
#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"

using namespace rgbd_slam;
using namespace rgbd_slam::map_management;
namespace kp = rgbd_slam::features::keypoints;

namespace {
cv::Mat descriptor(long bits)
{
    cv::Mat d = cv::Mat::zeros(1, 32, CV_8U);
    for (long b = 0; b < bits; ++b)
        d.at<uchar>(0, b / 8) |= 1 << (b % 8);
    return d;
}
kp::Keypoint_Handler readFrame(size_t ownId)
{
    static const cv::Mat_<float> depth(480, 640, 1500.f);
    std::vector<cv::Point2f> pts;
    const long nd = hio::rd();
    cv::Mat desc = nd ? cv::Mat(cv::Mat::zeros(nd, 32, CV_8U)) : cv::Mat();
    for (long i = 0; i < nd; ++i)
    {
        const long x = hio::rd(), y = hio::rd(), d = hio::rd();
        pts.emplace_back(x / 2.f, y / 2.f);
        descriptor(d).copyTo(desc.row(i));
    }
    kp::KeypointsWithIdStruct tracked;
    const long nt = hio::rd();
    for (long i = 0; i < nt; ++i)
    {
        const long id = hio::rd(), x = hio::rd(), y = hio::rd();
        tracked.add(id == 0 ? 0 : id == 1 ? ownId : ownId + 100000 + id, x / 2.0, y / 2.0);
    }
    kp::Keypoint_Handler handler(640, 480, 0.7);
    handler.set(pts, desc, tracked, depth);
    return handler;
}
template<class Det> std::string answer(const auto& feature, const Det& det, const hcam::Pose& pose, bool add, bool wide)
{
    const auto taken = hio::rdset();
    vectorb isTaken = vectorb::Zero(det.size());
    for (long t: taken)
        isTaken[t - 1] = true;
    matches_containers::match_container matches;
    std::vector<long> res;
    for (auto v: feature.find_matches(det, pose.w2c, isTaken, matches, add, wide))
        res.push_back(static_cast<long>(v) + 1);
    std::ostringstream o;
    o << "\"res\":" << hio::arr(res) << ",\"m\":[";
    bool first = true;
    for (const auto& m: matches)
    {
        const vectorxd d = m->get_distance(pose.w2c);
        std::vector<long> dist;
        for (int i = 0; i < d.size(); ++i)
            dist.push_back(std::abs(d(i)) > 1e6 ? 1000000 : std::lround(2 * d(i)));
        o << (first ? "" : ",") << "{\"own\":" << (m->_idInMap == feature._id) << ",\"i\":" << static_cast<long>(m->_detectedFeatureId) + 1
          << ",\"dist\":" << hio::arr(dist) << ",\"inl\":" << m->is_inlier(pose.w2c) << ",\"valid\":" << m->is_valid()
          << ",\"type\":" << (m->get_feature_type() == FeatureType::Point ? 0 : m->get_feature_type() == FeatureType::Point2d ? 1 : m->get_feature_type() == FeatureType::Plane ? 2 : 3) << "}";
        first = false;
    }
    o << "]";
    return o.str();
}
std::string seen(const auto& feature)
{
    const long n = hio::rd();
    std::vector<long> r;
    for (long i = 0; i < n; ++i)
        r.push_back(feature.is_visible(hcam::rdpose().w2c));
    return hio::arr(r);
}
std::string followed(const auto& feature, const hcam::Pose& pose)
{
    kp::KeypointsWithIdStruct t;
    const bool r = feature.add_to_tracked(pose.w2c, t, 0);
    std::vector<long> v {r, static_cast<long>(t.size())};
    if (t.size())
    {
        v.push_back(t.at(0)._id == feature._id);
        v.push_back(std::lround(2 * t.at(0)._point.x));
        v.push_back(std::lround(2 * t.at(0)._point.y));
    }
    return hio::arr(v);
}
} // namespace

int main()
{
    hcam::setup();
    const matrix33 cov = matrix33::Identity();
    long cases = hio::rd();
    while (cases-- > 0)
    {
        const std::string type = hio::rds();
        const long kind = hio::rd(); // 0: in the map, 1: staged
        const auto pose0 = hcam::rdpose();
        if (type == "point" or type == "flat")
        {
            const long u = hio::rd(), v = hio::rd(), z = hio::rd();
            const ScreenCoordinate at(u / 2.0, v / 2.0, z);
            // first seen looking like d0; seen again from there, with or without its depth, looking like d1 (-1: unknown)
            const long d0 = hio::rd(), again = hio::rd(), d1 = hio::rd();
            const kp::DetectedKeyPoint det(at, descriptor(d0));
            const kp::DetectedKeyPoint det1(ScreenCoordinate(u / 2.0, v / 2.0, again == 2 ? 0 : z), d1 < 0 ? cv::Mat() : descriptor(d1));
            const auto pose1 = hcam::rdpose();
            const bool add = hio::rd(), wide = hio::rd();
            std::string s;
            bool updated = false;
            const auto see = [&](auto& f) {
                if (not again)
                    return;
                f.mark_matched({0});
                updated = f.update_with_match(det1, cov, pose0.c2w);
                f.mark_unmatched();
            };
            const auto all = [&](const auto& f) {
                const auto frame = readFrame(f._id);
                s = answer(f, frame, pose1, add, wide);
                s += ",\"trk\":" + followed(f, pose1);
                s += ",\"vis\":" + seen(f);
            };
            if (type == "point")
            {
                StagedMapPoint staged(cov, pose0.c2w, det);
                see(staged);
                kind ? all(staged) : all(LocalMapPoint(staged));
            }
            else
            {
                StagedMapPoint2D staged(cov, pose0.c2w, det);
                see(staged);
                kind ? all(staged) : all(LocalMapPoint2D(staged));
            }
            hio::emit("{" + s + ",\"upd\":" + std::to_string(updated) + "}");
        }
        else if (type == "plane")
        {
            double r[5];
            for (double& x: r)
                x = hio::rd();
            const StagedMapPlane staged(cov, pose0.c2w, hcam::rectangle(r[0], r[1], r[2], r[3], r[4]));
            const auto pose1 = hcam::rdpose();
            const bool add = hio::rd(), wide = hio::rd();
            features::primitives::plane_container dets;
            const long nd = hio::rd();
            for (long i = 0; i < nd; ++i)
            {
                double d[8];
                for (double& x: d)
                    x = hio::rd();
                dets.push_back(hcam::rectangle(d[0], d[1], d[2], d[3], d[4], d[5] / d[7], d[6] / d[7]));
            }
            std::string s;
            const auto all = [&](const auto& f) {
                s = answer(f, dets, pose1, add, wide);
                s += ",\"vis\":" + seen(f);
            };
            kind ? all(staged) : all(LocalMapPlane(staged));
            // agreement of one detected plane (normal n / den, distance d) with the map plane
            const long ni = hio::rd();
            std::vector<long> inl;
            for (long i = 0; i < ni; ++i)
            {
                const double a = hio::rd(), b = hio::rd(), c = hio::rd(), den = hio::rd(), d = hio::rd();
                const PlaneOptimizationFeature f(PlaneCameraCoordinates(vector3(a, b, c) / den, d),
                                                 staged.get_parametrization(),
                                                 vector4::Ones(), staged._id, 0);
                inl.push_back(f.is_inlier(pose1.w2c));
            }
            hio::emit("{" + s + ",\"inl\":" + hio::arr(inl) + "}");
        }
    }
}
