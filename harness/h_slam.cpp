// The real tracking engine (and its real maps); the detectors and the pose estimation are scripted.
#include "hcam.hpp"
#include "rgbd_slam.hpp"
#include "pose_optimization/pose_optimization.hpp"
#include <memory>

using namespace rgbd_slam;
namespace kp = rgbd_slam::features::keypoints;
namespace prim = rgbd_slam::features::primitives;

namespace {
struct Script
{
    std::string det, pl;
    long ok = 0, k = 0, var = 0;
    std::set<long> rej, rejf, rejp;
} now;
struct Seen
{
    bool called = false, forced = false;
    double pred = 0;
    std::vector<std::string> matches, tracked;
} seen;
std::vector<long> siteOf, planeOf;

constexpr long sites = 80; // twenty far apart, then sixty between them
double u(long i, long k) { return 320 + ((i - 1) % 5 - 2) * 120 - ((i - 1) / 20 % 2) * 48 - 6 * k; }
double v(long i) { return 240 + (((i - 1) % 20 / 5) * 2 - 3) * 54 + ((i - 1) / 40) * 36; }
long site_at(double x, double y, long k)
{
    for (long i = 1; i <= sites; ++i)
        if (std::abs(u(i, k) - x) < 0.6 and std::abs(v(i) - y) < 0.6)
            return i;
    return -1;
}
cv::Mat descriptor(long i)
{
    cv::Mat d(1, 32, CV_8U);
    unsigned s = 12345u + 7919u * i;
    for (int c = 0; c < 32; ++c)
    {
        s = s * 1103515245u + 12345u;
        d.at<uchar>(0, c) = (s >> 16) & 255;
    }
    return d;
}
const double depths[] = {0, 1500, 2000, 2600};
std::string obj(const std::string& kind, long id, long site)
{
    return "{\"k\":\"" + kind + "\",\"id\":" + std::to_string(id) + ",\"site\":" + std::to_string(site) + "}";
}
} // namespace

// ---- scripted detectors
namespace rgbd_slam::features::keypoints {
Key_Point_Extraction::Key_Point_Extraction() {}
void Key_Point_Extraction::show_statistics(const double, const uint, const bool) const noexcept {}
Keypoint_Handler Key_Point_Extraction::compute_keypoints(const cv::Mat&,
                                                         const cv::Mat_<float>& depthImage,
                                                         const KeypointsWithIdStruct& last,
                                                         const bool forced) noexcept
{
    seen.forced = forced;
    for (size_t i = 0; i < last.size(); ++i)
        seen.tracked.push_back("[" + std::to_string(last.at(i)._id) + "," + std::to_string(last.at(i)._point.x) + "," +
                               std::to_string(last.at(i)._point.y) + "]");
    std::vector<cv::Point2f> pts;
    cv::Mat desc;
    siteOf.clear();
    cv::Mat_<float> depth(480, 640, 0.f);
    for (long i = 1; i <= sites; ++i)
        if (now.det[i - 1] != '-')
        {
            pts.emplace_back(u(i, now.k), v(i));
            desc.push_back(descriptor(i));
            siteOf.push_back(i);
            if (now.det[i - 1] == 'S')
                cv::rectangle(depth, cv::Point(u(i, now.k) - 5, v(i) - 5), cv::Point(u(i, now.k) + 5, v(i) + 5), cv::Scalar(2000.f), -1);
        }
    Keypoint_Handler handler(depthImage.cols, depthImage.rows, 0.7);
    handler.set(pts, desc, KeypointsWithIdStruct(), depth);
    return handler;
}
} // namespace rgbd_slam::features::keypoints

namespace rgbd_slam::features::primitives {
Primitive_Detection::Primitive_Detection(const uint width, const uint height) :
    _horizontalCellsCount(1), _verticalCellsCount(1), _totalCellCount(1)
{
}
void Primitive_Detection::show_statistics(const double, const uint, const bool) const noexcept {}
void Primitive_Detection::find_primitives(const matrixf&, const cv::Mat_<float>&, plane_container& planes, cylinder_container&) noexcept
{
    planes.clear();
    planeOf.clear();
    for (long i = 1; i <= 3; ++i)
        if (now.pl[i - 1] != '-')
        {
            planes.push_back(hcam::rectangle(depths[i], -300 - 25 * now.k, 300 - 25 * now.k, -200, 200));
            planeOf.push_back(i);
        }
}
} // namespace rgbd_slam::features::primitives

namespace rgbd_slam::pose_optimization {
void Pose_Optimization::show_statistics(const double, const uint, const bool) noexcept {}
bool Pose_Optimization::compute_optimized_pose(const utils::PoseBase& current,
                                               const matches_containers::match_container& matches,
                                               utils::Pose& pose,
                                               matches_containers::match_sets& sets) noexcept
{
    seen.called = true;
    seen.pred = current.get_position().x();
    if (current.get_position().tail<2>().norm() > 1e-6 or not current.get_orientation_quaternion().isApprox(quaternion::Identity()))
        seen.pred = 1e6;
    for (const auto& m: matches)
    {
        const auto type = m->get_feature_type();
        const auto& of = type == FeatureType::Plane ? planeOf : siteOf;
        const size_t d = m->_detectedFeatureId;
        const long site = d < of.size() ? of[d] : -1;
        const std::string kind = type == FeatureType::Plane ? "plane" : type == FeatureType::Point ? "point" : "flat";
        seen.matches.push_back(obj(kind, m->_idInMap, site));
        const auto& rej = type == FeatureType::Plane ? now.rejp : type == FeatureType::Point ? now.rej : now.rejf;
        if (rej.contains(site))
            sets._outliers.insert(sets._outliers.end(), m);
        else
            sets._inliers.insert(sets._inliers.end(), m);
    }
    if (not now.ok)
    {
        sets.clear();
        return false;
    }
    pose = utils::Pose(vector3(25.0 * now.k, 0, 0), quaternion::Identity(), matrix66::Identity() * static_cast<double>(now.var));
    return true;
}
} // namespace rgbd_slam::pose_optimization

int main()
{
    hcam::setup();
    const cv::Mat rgb(480, 640, CV_8UC3, cv::Scalar(100, 100, 100));
    const cv::Mat_<float> depth(480, 640, 2000.f);
    long cases = hio::rd();
    while (cases-- > 0)
    {
        {
            RGBD_SLAM slam(utils::Pose(), 640, 480);
            long frames = hio::rd();
            while (frames-- > 0)
            {
                now.det = hio::rds();
                now.pl = hio::rds();
                now.ok = hio::rd(), now.k = hio::rd(), now.var = hio::rd();
                now.rej = hio::rdset(), now.rejf = hio::rdset(), now.rejp = hio::rdset();
                seen = Seen();
                const utils::Pose p = slam.track(rgb, depth);
                const cv::Mat img = slam.get_debug_image(p, rgb, 0.0, true);
                const auto px = img.at<cv::Vec3b>(470, 630);
                double at = p.get_position().x() / 25.0;
                if (p.get_position().tail<2>().norm() > 1e-6 or not p.get_orientation_quaternion().isApprox(quaternion::Identity()))
                    at = 9999;
                const auto& var = p.get_pose_variance();
                std::ostringstream o;
                o << "{\"called\":" << seen.called << ",\"forced\":" << seen.forced << ",\"pred\":" << seen.pred / 25.0 << ",\"pose\":" << at
                  << ",\"vout\":" << (var.isApprox(matrix66::Identity() * var(0, 0)) or var.isZero() ? var(0, 0) : -1.0) << ",\"red\":" << (px[2] > px[0] + 10)
                  << ",\"matches\":" << hio::arr(seen.matches) << ",\"tracked\":" << hio::arr(seen.tracked) << "}";
                hio::emit(o.str());
            }
        }
        std::ifstream in("out.obj");
        std::vector<std::string> lines;
        for (std::string l; std::getline(in, l);)
            lines.push_back("\"" + l + "\"");
        hio::emit("{\"lines\":" + hio::arr(lines) + "}");
    }
}
