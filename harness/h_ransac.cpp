// The real pose optimisation, with scripted matches: which pose a hypothesis converges to, which matches agree with it,
// what a perturbed re-estimation gives and how the parallel iterations interleave are inputs.
#define HSCHED_IMPL
#include "hsched.hpp"
#include "pose_optimization/pose_optimization.hpp"
#include "utils/camera_transformation.hpp"
#include <atomic>
#include <cmath>

using namespace rgbd_slam;
using namespace rgbd_slam::matches_containers;

namespace {
constexpr double step = 10.0; // hypothesis h is at (step * h, sideY, sideZ): no coordinate is close to zero
constexpr double sideY = 7.0, sideZ = -11.0;
std::vector<double> scores;
std::vector<std::set<long>> inl;          // hypothesis -> indexes of agreeing matches
std::map<long, long> hypOfIteration;      // live iteration -> hypothesis (absent: the estimation fails)
std::set<long> evaluated;
std::map<long, long> evalCount;
bool strange = false;
long invalidFeature = 0; // which match is not usable, from 1
bool variancePhase = false;
std::vector<std::vector<long>> variations; // one offset (x,y,z) per perturbed estimation, empty: it fails
std::atomic<long> nextVariation {0};
std::set<long> asked;  // the perturbed estimations that took place
bool attached = false; // the uncertainty of the pose of a search, and not one asked for
long featureCount = 0;
bool uncontrolled = false; // the code under test does not use the loop we control: every iteration finds hypothesis 1
std::atomic_flag busy = ATOMIC_FLAG_INIT;
struct Hold // keeps the bookkeeping below whole when the iterations run on threads of their own
{
    Hold() { while (busy.test_and_set()) std::this_thread::yield(); }
    ~Hold() { busy.clear(); }
};

// pose (position and orientation, as given to the transformation) behind a world to camera matrix
matrix44 pose_of(const WorldToCameraMatrix& w2c)
{
    static const matrix44 axes = utils::compute_camera_to_world_transform(quaternion::Identity(), vector3::Zero()).matrix();
    const matrix44 c2w = w2c.matrix().inverse();
    return axes.inverse() * c2w;
}
vector3 centre(const WorldToCameraMatrix& w2c)
{
    return pose_of(w2c).block<3, 1>(0, 3);
}
long nearest(double x) { return std::lround(x / step); }

struct Fake : IOptimizationFeature
{
    long k;
    bool variated = false, fails = false;
    vector3 target = vector3::Zero();
    explicit Fake(long i) : IOptimizationFeature(i + 1, i), k(i) {}
    bool failing() const
    {
        if (variated)
            return fails;
        return not variancePhase and not uncontrolled and hsched::current >= 0 and not hypOfIteration.contains(hsched::current);
    }
    size_t get_feature_part_count() const noexcept override { return failing() ? (variated ? 0 : 1) : 6; }
    double get_score() const noexcept override { return scores[k]; }
    bool is_inlier(const WorldToCameraMatrix& w2c) const noexcept override
    {
        const vector3 c = centre(w2c);
        const long h = nearest(c.x());
        if (uncontrolled)
        {
            const Hold hold;
            strange = strange or h != 1;
            evaluated.insert(h);
            return h == 1 and inl[0].contains(k);
        }
        if (evalCount[h] == 0)
            hsched::point();
        if (++evalCount[h] >= featureCount)
        {
            hsched::arm();
        }
        if (std::abs(c.x() - step * h) > 1e-3 or std::abs(c.y() - sideY) > 1e-3 or std::abs(c.z() - sideZ) > 1e-3 or h < 1 or
            h > static_cast<long>(inl.size()))
        {
            strange = true;
            return false;
        }
        evaluated.insert(h);
        return inl[h - 1].contains(k);
    }
    vectorxd get_distance(const WorldToCameraMatrix& w2c) const noexcept override
    {
        if (failing())
            return vectorxd::Constant(1, 1.0);
        const vector3 c = centre(w2c);
        vector3 t(0, sideY, sideZ);
        if (variated)
            t = target;
        else if (uncontrolled)
            t.x() = step;
        else if (hsched::current >= 0 and hypOfIteration.contains(hsched::current))
            t.x() = step * hypOfIteration[hsched::current];
        else // refining what the search found: the matches that do not agree with it pull elsewhere
        {
            const long h = nearest(c.x());
            const bool agrees = h < 1 or h > static_cast<long>(inl.size()) or inl[h - 1].contains(k);
            t.x() = step * h + (variancePhase or agrees ? 0 : 3);
        }
        const matrix33 r = pose_of(w2c).block<3, 3>(0, 0);
        vectorxd d(6);
        d << c - t, 10 * (r(0, 1) - r(1, 0)), 10 * (r(0, 2) - r(2, 0)), 10 * (r(1, 2) - r(2, 1));
        return d;
    }
    double get_alpha_reduction() const noexcept override { return 1; }
    feat_ptr compute_random_variation() const noexcept override
    {
        auto v = std::make_shared<Fake>(k);
        v->variated = true;
        const long it = uncontrolled ? nextVariation++ : hsched::current;
        hsched::arm();
        if (it >= 0)
        {
            const Hold hold;
            asked.insert(it);
        }
        if (it >= 0 and not variations.empty())
        {
            const auto& offset = variations[it % variations.size()];
            v->fails = offset.empty();
            if (not v->fails)
                v->target = vector3(offset[0], offset[1], offset[2]);
            // a match that does not agree with the pose has nothing to say about its uncertainty
            if (attached and not inl[0].contains(k))
                v->target.x() += it % 2 ? 77 : 0;
        }
        return v;
    }
    bool is_valid() const noexcept override { return not(invalidFeature > 0 and k == invalidFeature - 1); }
    FeatureType get_feature_type() const noexcept override { return FeatureType::Point; }
};

std::string ids(const match_container& c)
{
    std::vector<long> v;
    for (const auto& f: c)
        v.push_back(static_cast<const Fake*>(f.get())->k);
    return hio::arr(v);
}
} // namespace

// in ten thousandths, rounded; the symmetric position block
std::string spread(const matrix66& cov)
{
    auto q = [&](int i, int j) {
        const double v = cov(i, j) * 10000.0;
        return std::isfinite(v) and std::abs(v) < 1e9 ? std::lround(v) : -999999999L;
    };
    const bool finite = cov.allFinite();
    const bool sym = finite and (cov - cov.transpose()).cwiseAbs().maxCoeff() < 1e-9;
    std::ostringstream o;
    o << "\"cov\":[" << q(0, 0) << "," << q(0, 1) << "," << q(0, 2) << "," << q(1, 1) << "," << q(1, 2) << "," << q(2, 2)
      << "],\"finite\":" << finite << ",\"sym\":" << sym;
    return o.str();
}

int main()
{
    std::cout.setstate(std::ios_base::failbit);
    std::string op;
    while (std::cin >> op)
    {
        strange = false;
        evaluated.clear();
        evalCount.clear();
        hsched::callNumber = 0;
        hsched::pointCounts.clear();
        nextVariation = 0;
        asked.clear();
        attached = op == "pose";
        match_container all;
        if (op == "ransac" or op == "pose")
        {
            variancePhase = false;
            scores.clear();
            for (long s: hio::rdv()) // in hundredths
                scores.push_back(s / 100.0);
            featureCount = scores.size();
            invalidFeature = hio::rd();
            inl.clear();
            for (const auto& v: hio::rdvv())
                inl.push_back(std::set<long>(v.begin(), v.end()));
            hsched::live = hio::rdv(); // the iteration that tries hypothesis 1, 2, ...
            uncontrolled = hsched::live == std::vector<long> {-1};
            hypOfIteration.clear();
            for (size_t i = 0; i < hsched::live.size(); ++i)
                hypOfIteration[hsched::live[i]] = i + 1;
            hsched::segments.clear();
            for (const auto& v: hio::rdvv())
                hsched::segments.push_back({v[0], v[1]});
            hsched::controlledCall = 1;
            variations.clear();
            hsched::shouldControl = [] {
                // the first loop of the call searches hypotheses, a later one perturbs the result
                if (hsched::callNumber > 1)
                    variancePhase = true;
                return hsched::callNumber == 1;
            };
            for (long k = 0; k < featureCount; ++k)
                all.push_back(std::make_shared<Fake>(k));
            // the perturbed estimations stay where the result is
            utils::PoseBase start;
            utils::Pose result;
            match_sets sets;
            variancePhase = false;
            // perturbations: alternate around zero
            if (attached)
                variations = hio::rdvv();
            else
                for (long i = 0; i < 300; ++i)
                    variations.push_back({uncontrolled ? 1 : i % 3 - 1, 0, 0});
            const bool ok = pose_optimization::Pose_Optimization::compute_optimized_pose(start, all, result, sets);
            const vector3 p = result.get_position();
            const long h = nearest(p.x());
            const bool exact = std::abs(p.x() - step * h) < 1e-3 and std::abs(p.y() - sideY) < 1e-3 and
                               std::abs(p.z() - sideZ) < 1e-3 and
                               std::abs(result.get_orientation_quaternion().w()) > 0.999999;
            std::ostringstream o;
            o << "{\"ok\":" << ok << ",\"hyp\":" << (exact ? h : -1) << ",\"inl\":" << ids(sets._inliers)
              << ",\"outl\":" << ids(sets._outliers) << ",\"evaluated\":" << hio::arr(evaluated)
              << ",\"asked\":" << asked.size() << "," << spread(result.get_pose_variance())
              << ",\"strange\":" << strange << ",\"loops\":" << hsched::callNumber
              << ",\"points\":" << hio::arr(hsched::pointCounts) << "}";
            hio::emit(o.str());
        }
        else if (op == "variance")
        {
            variancePhase = true;
            invalidFeature = 0;
            const long iterations = hio::rd();
            variations = hio::rdvv();
            hsched::live = hio::rdv();
            uncontrolled = hsched::live == std::vector<long> {-1};
            hsched::segments.clear();
            for (const auto& v: hio::rdvv())
                hsched::segments.push_back({v[0], v[1]});
            hsched::shouldControl = nullptr;
            hsched::controlledCall = 1;
            scores.assign(100, 2.0);
            featureCount = hio::rd();
            if (uncontrolled)
                featureCount = 1;
            for (long k = 0; k < featureCount; ++k)
                all.push_back(std::make_shared<Fake>(k));
            utils::PoseBase start;
            matrix66 cov = matrix66::Constant(-7);
            const bool ok =
                    pose_optimization::Pose_Optimization::compute_pose_variance(start, all, cov, static_cast<uint>(iterations));
            std::ostringstream o;
            o << "{\"ok\":" << ok << "," << spread(cov)
              << ",\"points\":" << hio::arr(hsched::pointCounts) << "}";
            hio::emit(o.str());
        }
        else
            return 3;
    }
    std::_Exit(0);
}
