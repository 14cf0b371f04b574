// The real keypoint container: frames are set, then searched.
#include "hio.hpp"
#include "features/keypoints/keypoint_handler.hpp"
#include <bit>

using namespace rgbd_slam;
using namespace rgbd_slam::features::keypoints;

int main()
{
    long histories = hio::rd();
    while (histories-- > 0)
    {
        const long w = hio::rd(), h = hio::rd(), ratio = hio::rd(), frames = hio::rd();
        Keypoint_Handler handler(w, h, ratio / 10.0);
        cv::Mat_<float> depth(h, w);
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x)
                depth(y, x) = 1000.f + 7 * x + 3 * y;
        for (long fi = 0; fi < frames; ++fi)
        {
            std::vector<cv::Point2f> pts;
            const long nd = hio::rd();
            cv::Mat desc = nd ? cv::Mat(cv::Mat::zeros(nd, 32, CV_8U)) : cv::Mat();
            for (long i = 0; i < nd; ++i)
            {
                const long x = hio::rd(), y = hio::rd(), d = hio::rd();
                pts.emplace_back(x / 2.f, y / 2.f);
                for (long b = 0; b < d; ++b)
                    desc.at<uchar>(i, b / 8) |= 1 << (b % 8);
            }
            KeypointsWithIdStruct tracked;
            const long nt = hio::rd();
            for (long i = 0; i < nt; ++i)
            {
                const long id = hio::rd(), x = hio::rd(), y = hio::rd();
                tracked.add(id, x / 2.0, y / 2.0);
            }
            handler.set(pts, desc, tracked, depth);
            std::ostringstream o;
            o << "{\"count\":" << handler.size() << ",\"pts\":[";
            for (size_t i = 0; i < handler.size(); ++i)
            {
                const auto p = handler.at(i);
                long bits = -1;
                if (not p._descriptor.empty())
                {
                    bits = 0;
                    for (int b = 0; b < p._descriptor.cols; ++b)
                        bits += std::popcount(p._descriptor.at<uchar>(0, b));
                }
                o << (i ? "," : "") << "{\"x\":" << std::lround(2 * p._coordinates.x()) << ",\"y\":" << std::lround(2 * p._coordinates.y())
                  << ",\"z\":" << std::lround(p._coordinates.z()) << ",\"desc\":" << bits << "}";
            }
            o << "],\"ans\":[";
            const long nq = hio::rd();
            const cv::Mat zero = cv::Mat::zeros(1, 32, CV_8U);
            for (long qi = 0; qi < nq; ++qi)
            {
                const long x = hio::rd(), y = hio::rd(), radius = hio::rd();
                const auto taken = hio::rdset();
                const long id = hio::rd();
                vectorb isTaken = vectorb::Zero(handler.size());
                for (long t: taken)
                    isTaken[t - 1] = true;
                std::vector<long> m, t, ta;
                for (auto v: handler.get_match_indexes(ScreenCoordinate2D(x / 2.0, y / 2.0), zero, isTaken, radius / 2.0))
                    m.push_back(static_cast<long>(v) + 1);
                if (const int v = handler.get_tracking_match_index(id, isTaken); v != INVALID_MATCH_INDEX)
                    t.push_back(v + 1);
                if (const int v = handler.get_tracking_match_index(id); v != INVALID_MATCH_INDEX)
                    ta.push_back(v + 1);
                o << (qi ? "," : "") << "{\"match\":" << hio::arr(m) << ",\"track\":" << hio::arr(t) << ",\"tracka\":" << hio::arr(ta) << "}";
            }
            o << "]}";
            hio::emit(o.str());
        }
    }
}
