// Loads configurations with the real parser; numbers in halves, rotations in quarter turns.
#include "hscale.hpp"
#include "parameters.hpp"
#include <fstream>
#include <iomanip>
#include <unistd.h>

using namespace rgbd_slam;
using hscale::Out;

int main()
{
    char dir[] = "/tmp/vrf_cfg_XXXXXX";
    if (not mkdtemp(dir))
        return 3;
    const std::string name = std::string(dir) + "/c.yaml", absent = std::string(dir) + "/none.yaml";
    const std::vector<std::string> keys({"size_x", "size_y", "focal_x", "focal_y", "center_x", "center_y"});
    long cases = hio::rd();
    while (cases-- > 0)
    {
        const long ops = hio::rd();
        std::string all = "[";
        for (long i = 0; i < ops; ++i)
        {
            const std::string op = hio::rds();
            std::ostringstream f;
            f << std::setprecision(12) << "%YAML:1.0\n\n";
            std::vector<long> v;
            for (int j = 0; j < 18; ++j)
                v.push_back(hio::rd());
            const bool omit = hio::rd() == 1;        // leave out the zeros
            for (int cam = 0; cam < 2; ++cam)
                for (int j = 0; j < 6; ++j)
                    if (const long x = v[6 * cam + j]; x != 0 or not omit)
                    {
                        f << "camera_" << cam + 1 << "_" << keys[j] << ": ";
                        if (j < 2 or x % 2 == 0)
                            f << x / 2 << (j < 2 ? "\n" : ".0\n");
                        else
                            f << x / 2.0 << "\n";
                    }
            for (int j = 0; j < 3; ++j)
            {
                if (v[12 + j] != 0 or not omit)
                    f << "camera_2_translation_offset_" << "xyz"[j] << ": " << v[12 + j] << ".0\n";
                if (v[15 + j] != 0 or not omit)
                    f << "camera_2_rotation_offset_" << "xyz"[j] << ": " << v[15 + j] * M_PI / 2 << (v[15 + j] ? "\n" : ".0\n");
            }
            bool ok = false;
            if (op == "file")
            {
                std::ofstream(name) << f.str();
                ok = Parameters::parse_file(name);
            }
            else if (op == "none")
                ok = Parameters::parse_file(absent);
            else
                Parameters::load_defaut();
            Out o;
            o.flag("ok", ok), o.flag("valid", Parameters::is_valid());
            auto cam = [&](const std::string& k, const auto& s, const vector2& fo, const vector2& c) {
                vector6 a;
                a << static_cast<double>(s.x()), static_cast<double>(s.y()), fo, c;
                o.vec(k, a, 2);
            };
            cam("one", Parameters::get_camera_1_image_size(), Parameters::get_camera_1_focal(), Parameters::get_camera_1_center());
            cam("two", Parameters::get_camera_2_image_size(), Parameters::get_camera_2_focal(), Parameters::get_camera_2_center());
            const matrix44 T = Parameters::get_camera_2_to_camera_1_transformation();
            o.vec("t", vector3(T.block<3, 1>(0, 3)), 1), o.mat("rot", matrix33(T.block<3, 3>(0, 0)), 1);
            o.flag("rigid", T.row(3) == Eigen::Matrix<double, 1, 4>(0, 0, 0, 1) and (T.block<3, 3>(0, 0).transpose() * T.block<3, 3>(0, 0)).isIdentity(1e-5));
            all += (i ? "," : "") + o.s + "}";
        }
        hio::emit("{\"got\":" + all + "]}");
    }
    unlink(name.c_str());
    rmdir(dir);
}
