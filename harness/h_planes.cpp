// Detects planes in rendered depth images, fits planes to patches of points, and uses the histogram of directions.
#include "features/primitives/depth_map_transformation.hpp"
#include "features/primitives/histogram.hpp"
#include "features/primitives/primitive_detection.hpp"
#include "hcam.hpp"
#include "hscale.hpp"

using namespace rgbd_slam;
using namespace rgbd_slam::features::primitives;
using hscale::Out;

constexpr int W = 640, H = 480, cellSize = 20, cols = W / cellSize, rows = H / cellSize;
struct Surface
{
    long kind; // 0: no depth, 1: plane, 2: rough
    vector3 n;
    double D;
};
static Surface rdsurf()
{
    Surface s;
    s.kind = hio::rd();
    for (int i = 0; i < 3; ++i)
        s.n(i) = hio::rd();
    s.D = hio::rd();
    s.n.normalize();
    return s;
}
static vector3 ray(const int u, const int v) { return vector3((u - 320) / 480.0, (v - 240) / 480.0, 1); }
static double depth(const Surface& s, const int u, const int v)
{
    if (s.kind == 0)
        return 0;
    if (s.kind == 2)
        return 800 + ((u * 7919 + v * 104729 + u * v * 31) % 201 - 100);
    const double z = s.D / -s.n.dot(ray(u, v));
    // noise of the sensor, between -1 and 1 times its size
    unsigned h = static_cast<unsigned>(u * 2654435761u + v * 40503u * 65537u + u * v * 97u);
    h ^= h >> 15, h *= 2246822519u, h ^= h >> 13, h *= 3266489917u, h ^= h >> 16;
    return z + (static_cast<double>(h % 20001u) / 10000.0 - 1.0) * (0.3 + z * 0.0005);
}

static void scene()
{
    static Depth_Map_Transformation depthOps(W, H, cellSize);
    Primitive_Detection detector(W, H);
    std::string s = "{\"frames\":[";
    const long frames = hio::rd();
    for (long f = 0; f < frames; ++f)
    {
        const Surface bg = rdsurf();
        std::vector<Surface> cells(cols * rows, bg);
        for (long n = hio::rd(); n > 0; --n)
        {
            const long x = hio::rd(), y = hio::rd(), w = hio::rd(), h = hio::rd();
            const Surface r = rdsurf();
            for (long j = y; j < y + h; ++j)
                for (long i = x; i < x + w; ++i)
                    cells[j * cols + i] = r;
        }
        cv::Mat_<float> img(H, W);
        for (int v = 0; v < H; ++v)
            for (int u = 0; u < W; ++u)
                img(v, u) = static_cast<float>(depth(cells[(v / cellSize) * cols + u / cellSize], u, v));
        matrixf cloud;
        if (not depthOps.get_organized_cloud_array(img, cloud))
            std::exit(6);
        plane_container planes;
        cylinder_container cylinders;
        detector.find_primitives(cloud, img, planes, cylinders);
        s += std::string(f ? "," : "") + "{\"cyl\":" + std::to_string(cylinders.size()) + ",\"planes\":[";
        bool first = true;
        for (const Plane& p: planes)
        {
            Out o;
            o.vec("n", p.get_normal(), 1000);
            o.num("d", p.get_d(), 1);
            const CameraPolygon poly = p.get_boundary_polygon();
            o.flag("valid", poly.is_valid() and poly.get_area() > 0);
            std::string in;
            for (int c = 0; c < cols * rows; ++c)
            {
                const vector3 r = ray((c % cols) * cellSize + cellSize / 2, (c / cols) * cellSize + cellSize / 2);
                const double k = p.get_normal().dot(r);
                if (k > -1e-6)
                    continue;
                const vector3 q = r * (-p.get_d() / k) - poly.get_center();
                if (poly.contains(vector2(q.dot(poly.get_x_axis()), q.dot(poly.get_y_axis()))))
                    in += (in.empty() ? "" : ",") + std::to_string(c);
            }
            s += (first ? "" : ",") + o.s + ",\"cells\":[" + in + "]}";
            first = false;
        }
        s += "]}";
    }
    hio::emit(s + "]}");
}

static matrixf points(const matrix33& R, const vector3& c, const double step, const double e, const long blank, const long quiet, const double jump)
{
    matrixf cloud = matrixf::Zero(400, 3);
    for (int i = 0; i < 20 - blank; ++i)
        for (int j = 0; j < 20; ++j)
        {
            const bool middle = i == 10 or j == 10;
            const double off = ((i + j) % 2 ? 1 : -1) * (quiet and middle ? 0.0 : e) + (j >= 10 ? jump : 0.0);
            const vector3 p = c + (j - 9.5) * step * R.col(0) + (i - 9.5) * step * R.col(1) + off * R.col(2);
            cloud.row(i * 20 + j) = p.transpose().cast<float>();
        }
    return cloud;
}
static matrix33 rdrot()
{
    double q[4];
    for (double& v: q)
        v = hio::rd();
    return quaternion(q[0], q[1], q[2], q[3]).normalized().toRotationMatrix();
}
static void put(Out& o, const std::string& k, const Plane_Segment& s, const double cs)
{
    o.flag(k + "ok", s.is_planar());
    o.vec(k + "n", s.get_normal(), 1000);
    o.num(k + "d", s.get_plane_d(), 1);
    o.vec(k + "cen", vector3(s.get_centroid()), cs);
    o.num(k + "m", s.is_planar() ? s.get_MSE() : 0, 1000);
    o.num(k + "count", s.get_point_count(), 1);
}
static vector3 rdvec()
{
    vector3 v;
    for (int i = 0; i < 3; ++i)
        v(i) = hio::rd();
    return v;
}
static void patch()
{
    Plane_Segment::set_static_members(20, 400);
    const matrix33 R = rdrot();
    const vector3 c = rdvec();
    const double step = hio::rd(), e = hio::rd() / 2.0;
    const long blank = hio::rd(), quiet = hio::rd(), jump = hio::rd();
    // the patch is the second of three in the cloud, and the segment was used before
    matrixf cloud(1200, 3);
    cloud.block(0, 0, 400, 3) = points(R, c + vector3(0, 0, 50), step, 1, 0, 0, 0);
    cloud.block(400, 0, 400, 3) = points(R, c, step, e, blank, quiet, jump);
    cloud.block(800, 0, 400, 3) = points(R, c + vector3(0, 50, 50), step, 1, 0, 0, 0);
    Plane_Segment s;
    s.init_plane_segment(cloud, 0);
    s.init_plane_segment(cloud, 1);
    Out o;
    put(o, "", s, 1);
    o.done();
}
static void merge()
{
    Plane_Segment::set_static_members(20, 400);
    const matrix33 R = rdrot();
    const vector3 c = rdvec();
    const long n = hio::rd();
    Out o;
    std::vector<Plane_Segment> all;
    for (long i = 0; i < n; ++i)
    {
        const double a = hio::rd(), b = hio::rd();
        const matrixf cloud = points(R, c + a * 76 * R.col(0) + b * 76 * R.col(1), 4, 1, 0, 0, 0);
        Plane_Segment s;
        s.init_plane_segment(cloud, 0);
        all.push_back(s);
    }
    Plane_Segment m(all[0]);
    for (long i = 1; i < n; ++i)
        m.expand_segment(all[i]);
    m.fit_plane();
    put(o, "", m, 1);
    o.done();
}
static void join()
{
    Plane_Segment::set_static_members(20, 400);
    const matrix33 R = rdrot();
    const vector3 c = rdvec();
    // the second patch: turned around the first axis by the angle of (s, c)/h, and moved along the axes of the first
    const double s = hio::rd(), k = hio::rd(), h = hio::rd();
    const vector3 move = rdvec();
    const double limit = hio::rd();
    matrix33 turn;
    turn << 1, 0, 0, 0, k / h, -s / h, 0, s / h, k / h;
    Plane_Segment a, b;
    a.init_plane_segment(points(R, c, 3, 1, 0, 0, 0), 0);
    b.init_plane_segment(points(R * turn, c + R * move, 3, 1, 0, 0, 0), 0);
    Out o;
    o.flag("both", a.is_planar() and b.is_planar());
    if (a.is_planar() and b.is_planar())
    {
        o.flag("ab", a.can_be_merged(b, limit));
        o.num("cos", a.get_cos_angle(b), 1000);
        o.num("dist", std::abs(a.get_point_distance(b.get_centroid())), 1);
    }
    o.done();
}
static void hist()
{
    const long n = hio::rd();
    matrixd angles(n, 2);
    vectorb used = vectorb::Zero(n);
    Histogram<20> h;
    // once used already
    angles.fill(0.1);
    h.init_histogram(angles, vectorb::Constant(n, true));
    h.reset();
    for (long i = 0; i < n; ++i)
    {
        const long x = hio::rd(), y = hio::rd();
        used[i] = x >= 0;
        angles(i, 0) = (x + 0.5) / 19.0 * M_PI;
        angles(i, 1) = (y + 0.5) / 19.0 * 2 * M_PI - M_PI;
    }
    h.init_histogram(angles, used);
    std::string s = "{\"got\":[";
    const auto ask = [&] {
        std::string g;
        for (const uint i: h.get_points_from_most_frequent_bin())
            g += (g.empty() ? "" : ",") + std::to_string(i + 1);
        return "[" + g + "]";
    };
    s += ask();
    for (long k = hio::rd(); k > 0; --k)
    {
        h.remove_point(static_cast<uint>(hio::rd() - 1));
        s += "," + ask();
    }
    hio::emit(s + "]}");
}

int main()
{
    hcam::setup();
    for (long n = hio::rd(); n > 0; --n)
    {
        const std::string t = hio::rds();
        t == "scene" ? scene() : t == "patch" ? patch() : t == "merge" ? merge() : t == "join" ? join() : hist();
    }
}
