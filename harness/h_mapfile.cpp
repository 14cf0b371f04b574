// Exports through the real map writers; the files are given back line by line.
#include "hio.hpp"
#include "map_writer.hpp"
#include <algorithm>
#include <memory>

using namespace rgbd_slam;

int main()
{
    long cases = hio::rd();
    while (cases-- > 0)
    {
        const std::string w = hio::rds();
        std::string base = hio::rds();
        std::replace(base.begin(), base.end(), '?', ' ');
        const std::string name = base + "." + w;
        // the remains of an earlier, longer export
        {
            std::ofstream old(name);
            for (int i = 0; i < 400; ++i)
                old << "v 1 2 3\nf 1 1 1\nold\n";
        }
        {
            std::unique_ptr<outputs::IMap_Writer> out;
            if (w == "obj")
                out = std::make_unique<outputs::OBJ_Map_Writer>(base);
            else if (w == "xyz")
                out = std::make_unique<outputs::XYZ_Map_Writer>(base);
            else
                out = std::make_unique<outputs::PCD_Map_Writer>(base);
            long items = hio::rd();
            while (items-- > 0)
            {
                const std::string kind = hio::rds();
                std::vector<vector3> c;
                for (const auto& p: hio::rdvv())
                    c.emplace_back(p[0] / 1000.0, p[1] / 1000.0, p[2] / 1000.0);
                if (kind == "point")
                    out->add_point(c[0]);
                else if (kind == "line")
                    out->add_line(c);
                else
                    out->add_polygon(c, vector3::UnitZ());
            }
        }
        std::ifstream in(name);
        std::vector<std::string> lines;
        for (std::string l; std::getline(in, l);)
            lines.push_back("\"" + l + "\"");
        in.close();
        std::remove(name.c_str());
        hio::emit("{\"lines\":" + hio::arr(lines) + "}");
    }
}
