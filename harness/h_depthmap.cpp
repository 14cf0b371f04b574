// Aligns and organises depth images with the real code, one process per camera configuration.
#include "features/primitives/depth_map_transformation.hpp"
#include "hscale.hpp"
#include "parameters.hpp"
#include <iomanip>
#include <sys/wait.h>
#include <unistd.h>

using namespace rgbd_slam;
using hscale::Out;

static void one()
{
    const int w = hio::rd(), h = hio::rd(), cell = hio::rd();
    std::vector<long> c;
    for (int i = 0; i < 14; ++i)
        c.push_back(hio::rd());
    cv::Mat_<float> img(h, w);
    for (int v = 0; v < h; ++v)
        for (int u = 0; u < w; ++u)
            img(v, u) = static_cast<float>(hio::rd());
    std::cout.flush();
    hio::out();
    const pid_t pid = fork();
    if (pid != 0)
    {
        int st = 0;
        waitpid(pid, &st, 0);
        if (st != 0)
            std::cerr << "harness: the code died with status " << st << "\n", std::exit(5);
        return;
    }
    char name[] = "./camXXXXXX.yaml";
    const int fd = mkstemps(name, 5);
    std::ostringstream y;
    y << "%YAML:1.0\n---\n";
    for (int k = 0; k < 2; ++k)
    {
        const std::string p = "camera_" + std::to_string(k + 1);
        y << p << "_size_x: " << w << "\n" << p << "_size_y: " << h << "\n";
        y << p << "_focal_x: " << c[4 * k] << ".0\n" << p << "_focal_y: " << c[4 * k + 1] << ".0\n";
        y << p << "_center_x: " << c[4 * k + 2] / 2 << (c[4 * k + 2] % 2 ? ".5\n" : ".0\n") << p << "_center_y: " << c[4 * k + 3] / 2 << (c[4 * k + 3] % 2 ? ".5\n" : ".0\n");
    }
    for (int k = 0; k < 3; ++k)
        y << "camera_2_translation_offset_" << "xyz"[k] << ": " << c[8 + k] << ".0\n" << "camera_2_rotation_offset_" << "xyz"[k] << ": " << std::fixed << std::setprecision(12) << c[11 + k] * M_PI / 2 << "\n";
    const std::string text = y.str();
    if (write(fd, text.data(), text.size()) != static_cast<ssize_t>(text.size()))
        _exit(3);
    close(fd);
    const bool ok = Parameters::parse_file(name);
    unlink(name);
    if (not ok)
        _exit(4);
    {
        Out o;
        features::primitives::Depth_Map_Transformation depthOps(w, h, cell);
        cv::Mat_<float> aligned;
        const cv::Mat_<float> given = img.clone();
        bool rect = depthOps.rectify_depth(given, aligned);
        rect = rect and aligned.rows == h and aligned.cols == w;
        o.flag("rect", rect);
        if (rect)
        {
            Eigen::MatrixXd a(h, w);
            for (int v = 0; v < h; ++v)
                for (int u = 0; u < w; ++u)
                    a(v, u) = aligned(v, u);
            o.mat("aligned", a, 2.0 * c[4] * c[5]);
        }
        matrixf cloud;
        const bool full = depthOps.get_organized_cloud_array(img, cloud) and cloud.cols() == 3;
        o.flag("full", full);
        const long n = std::min<long>(cloud.rows(), static_cast<long>(w / cell) * (h / cell) * cell * cell);
        Eigen::MatrixXd p(n, 3);
        for (long i = 0; full and i < n; ++i)
            p.row(i) << cloud(i, 0) * 2.0 * c[0], cloud(i, 1) * 2.0 * c[1], cloud(i, 2);
        o.mat("cloud", p, 1);
        o.done();
    }
    _exit(0);
}

int main()
{
    for (long n = hio::rd(); n > 0; --n)
        one();
}
