// The life of one real map feature: the real maps of points, 2D points and planes are driven frame by frame.
#include "hcam.hpp"
#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"

using namespace rgbd_slam;
using namespace rgbd_slam::map_management;
namespace kp = rgbd_slam::features::keypoints;

namespace {
struct Writer : outputs::IMap_Writer
{
    long points = 0, others = 0, polygons = 0;
    vector3 last = vector3::Zero();
    std::vector<vector3> poly;
    Writer() : IMap_Writer("life.null") {}
    void add_point(const vector3& p) noexcept override { ++points, last = p; }
    void add_line(const std::vector<vector3>&) noexcept override { ++others; }
    void add_polygon(const std::vector<vector3>& v, const vector3&) noexcept override { ++polygons, poly = v; }
};

DetectedFeatureContainer frame(char ev, const std::string& kind, const features::primitives::plane_container& plane)
{
    kp::Keypoint_Handler handler(640, 480, 0.7);
    std::vector<cv::Point2f> pts;
    cv::Mat desc;
    const bool seen = ev == 'S' or ev == 'F';
    if (seen)
    {
        pts.emplace_back(320.f, 240.f);
        desc = cv::Mat::zeros(1, 32, CV_8U);
    }
    cv::Mat_<float> depth(480, 640, ev == 'S' ? 2000.f : 0.f);
    handler.set(pts, desc, kp::KeypointsWithIdStruct(), depth);
    return DetectedFeatureContainer(handler, {}, seen and kind == "plane" ? plane : features::primitives::plane_container());
}

template<class Map> void live(const std::string& kind, const std::string& word, const hcam::Pose& pose, const hcam::Pose& away)
{
    Map map;
    auto writer = std::make_shared<Writer>();
    const matrix33 cov = matrix33::Identity();
    features::primitives::plane_container plane;
    if (kind == "plane")
        plane.push_back(hcam::rectangle(2000, -500, 500, -400, 400));
    const vector3 place = (pose.c2w * vector4(0, 0, 2000, 1)).head<3>();
    std::vector<std::string> obs;
    long before = 0;
    for (const char ev: word)
    {
        const auto& p = ev == 'O' ? away : pose;
        const auto f = frame(ev, kind, plane);
        matches_containers::match_container matches;
        map.get_matches(f, p.w2c, map.minimum_features_for_opti(), matches);
        if (ev == 'N')
            map.update_with_no_tracking(writer);
        else
        {
            const auto used = map.update_map(p.c2w, cov, f, writer);
            map.add_features_to_staged_map(cov, p.c2w, f, used);
        }
        const long now = writer->points + writer->others + writer->polygons;
        bool right = true;
        if (now != before)
        {
            if (kind == "point")
                right = writer->points == now and (writer->last - place).norm() < 1.0;
            else
            {
                right = writer->polygons == now and writer->poly.size() >= 4;
                for (const auto& c: writer->poly)
                    right = right and (pose.w2c * c.homogeneous()).head<3>().cwiseAbs().isApprox(vector3(500, 400, 2000), 1e-3);
            }
        }
        obs.push_back("[" + std::to_string(map.get_staged_map_size()) + "," + std::to_string(map.get_local_map_size()) + "," +
                      std::to_string(now - before) + "," + std::to_string(right) + "]");
        before = now;
    }
    hio::emit("{\"obs\":" + hio::arr(obs) + "}");
}
} // namespace

int main()
{
    hcam::setup();
    long cases = hio::rd();
    while (cases-- > 0)
    {
        const std::string kind = hio::rds(); const std::string word = hio::rds();
        const auto pose = hcam::rdpose(), away = hcam::rdpose();
        if (kind == "point")
            live<localPointMap>(kind, word, pose, away);
        else if (kind == "flat")
            live<localPoint2DMap>(kind, word, pose, away);
        else
            live<localPlaneMap>(kind, word, pose, away);
    }
}
