// Camera of the lattice specifications: 640x480, focal 480, centre (320, 240); poses with integer rotations.
#pragma once
#include "hio.hpp"
#include "parameters.hpp"
#include "types.hpp"
#include "camera_transformation.hpp"
#include "coordinates/point_coordinates.hpp"
#include "features/primitives/plane_segment.hpp"
#include "features/primitives/shape_primitives.hpp"
#include <unistd.h>

namespace hcam {
using namespace rgbd_slam;

inline void setup(const int fx = 480, const int fy = 480, const int cx = 320, const int cy = 240, const int w = 640, const int h = 480)
{
    char name[] = "./camXXXXXX.yaml";
    const int fd = mkstemps(name, 5);
    std::string y = "%YAML:1.0\n---\n";
    const auto one = [&](const std::string& p, const int vfx, const int vfy, const int vcx, const int vcy, const int vw, const int vh) {
        const auto n = [](const int v) { return std::to_string(v); };
        y += p + "_size_x: " + n(vw) + "\n" + p + "_size_y: " + n(vh) + "\n" + p + "_center_x: " + n(vcx) + ".0\n" + p +
             "_center_y: " + n(vcy) + ".0\n" + p + "_focal_x: " + n(vfx) + ".0\n" + p + "_focal_y: " + n(vfy) + ".0\n";
    };
    one("camera_1", fx, fy, cx, cy, w, h);
    one("camera_2", fx + 11, fy + 23, cx + 5, cy + 7, w, h);
    for (const char* a: {"x", "y", "z"})
        y += std::string("camera_2_translation_offset_") + a + ": 0.0\n" + "camera_2_rotation_offset_" + a + ": 0.0\n";
    if (write(fd, y.data(), y.size()) != static_cast<ssize_t>(y.size()))
        std::exit(3);
    close(fd);
    const bool ok = Parameters::parse_file(name);
    unlink(name);
    if (not ok or not Parameters::is_valid() or Parameters::get_camera_1_focal().x() != fx)
    {
        std::cerr << "harness: camera parameters were not taken\n";
        std::exit(3);
    }
}

struct Pose
{
    matrix33 R;
    vector3 t;
    CameraToWorldMatrix c2w;
    WorldToCameraMatrix w2c;
};
inline Pose rdpose()
{
    Pose p;
    for (int i = 0; i < 9; ++i)
        p.R(i / 3, i % 3) = hio::rd();
    for (int i = 0; i < 3; ++i)
        p.t(i) = hio::rd();
    const quaternion q(p.R);
    p.c2w = utils::compute_camera_to_world_transform(q.normalized(), p.t);
    p.w2c = utils::compute_world_to_camera_transform(q.normalized(), p.t);
    return p;
}

// A detected plane, fitted by the code itself on a patch of points around `center` (normal is made to face the camera)
inline features::primitives::Plane_Segment patch(const vector3& normal, const vector3& center)
{
    constexpr int side = 20;
    features::primitives::Plane_Segment::set_static_members(side, side * side);
    const vector3 u = normal.unitOrthogonal(), v = normal.cross(u);
    matrixf cloud(side * side, 3);
    for (int i = 0; i < side; ++i)
        for (int j = 0; j < side; ++j)
        {
            const vector3 p = center + (j - 9.5) * 4.0 * u + (i - 9.5) * 4.0 * v + ((i + j) % 2 ? 1 : -1) * (center.z() < 1400 ? 1.0 : 2.0) * normal;
            cloud.row(i * side + j) = p.transpose().cast<float>();
        }
    features::primitives::Plane_Segment s;
    s.init_plane_segment(cloud, 0);
    if (not s.is_planar())
    {
        std::cerr << "harness: patch is not planar: " << normal.transpose() << " at " << center.transpose() << " mse " << s.get_MSE() << "\n";
        std::exit(4);
    }
    return s;
}
// The rectangle [x1,x2] x [y1,y2] at depth D facing the camera, tilted around y by the angle of (s, c)
inline features::primitives::Plane rectangle(double D, double x1, double x2, double y1, double y2, double s = 0, double c = 1)
{
    const vector3 xa(c, 0, -s), ya(0, 1, 0);
    const vector3 center((x1 + x2) / 2, (y1 + y2) / 2, D);
    const double hx = (x2 - x1) / 2, hy = (y2 - y1) / 2;
    using P = utils::Polygon::point_2d;
    const std::vector<P> b({P(-hx, -hy), P(hx, -hy), P(hx, hy), P(-hx, hy), P(-hx, -hy)});
    return features::primitives::Plane(patch(vector3(-s, 0, -c), center), CameraPolygon(b, xa, ya, center));
}
} // namespace hcam
