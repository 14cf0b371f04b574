// Drives the real Feature_Map template with scripted features: what a feature finds, whether its update succeeds,
// whether it may be created... are inputs; everything the template decides is observed through its public surface
// (the features it draws, the features it writes, the values it returns).
#include "hio.hpp"
#include "map_management/feature_map.hpp"
#include <algorithm>
#include <memory>

using namespace rgbd_slam;
using namespace rgbd_slam::map_management;

namespace {

struct Env
{
    std::set<long> visible, moving, badids, badpromo, addable, badctor, ready, nullup;
    std::vector<std::vector<long>> cand, wide; // index = relative id - 1
    std::set<std::pair<long, long>> bad;
} env;
int lostAfter = 1, promoteAt = 2, dropAt = 0;
size_t base = 0;  // last identifier handed out before this behaviour
long label = 0;   // label of the first detection of the current frame
std::vector<std::string> drawn; // one JSON object per drawn feature
std::vector<long> written, offered;
long rel(size_t id) { return static_cast<long>(id) - static_cast<long>(base); }

struct Det
{
    long index;
};
struct Dets
{
    long n;
    size_t size() const { return n; }
    Det at(size_t i) const
    {
        if (i >= static_cast<size_t>(n))
            throw std::out_of_range("detection index");
        return Det {static_cast<long>(i)};
    }
} dets;
struct TrackedObj
{
};

struct FakeMatch : matches_containers::IOptimizationFeature
{
    FeatureType t;
    FakeMatch(size_t id, size_t d, FeatureType type = FeatureType::Point) : IOptimizationFeature(id, d), t(type) {}
    size_t get_feature_part_count() const noexcept override { return 2; }
    double get_score() const noexcept override { return 1; }
    bool is_inlier(const WorldToCameraMatrix&) const noexcept override { return true; }
    vectorxd get_distance(const WorldToCameraMatrix&) const noexcept override { return vectorxd::Zero(2); }
    double get_alpha_reduction() const noexcept override { return 1; }
    matches_containers::feat_ptr compute_random_variation() const noexcept override { return nullptr; }
    bool is_valid() const noexcept override { return true; }
    FeatureType get_feature_type() const noexcept override { return t; }
};

struct FakeUpgraded : IUpgradedFeature
{
    FeatureType t;
    long o;
    FakeUpgraded(const matchIndexSet& m, long origin, FeatureType type) : IUpgradedFeature(m), t(type), o(origin) {}
    FeatureType get_type() const override { return t; }
};

struct FakeBase : IMapFeature<Dets, Det, TrackedObj>
{
    long _o;
    const char* _where;
    FakeBase(long o, const char* w) : _o(o), _where(w) {}
    FakeBase(long o, const char* w, size_t id) : IMapFeature(id), _o(o), _where(w) {}

    matchIndexSet find_matches(const Dets& d,
                               const WorldToCameraMatrix&,
                               const vectorb& taken,
                               matches_containers::match_container& matches,
                               const bool add,
                               const bool advanced) const noexcept override
    {
        matchIndexSet r;
        const auto& table = advanced ? env.wide : env.cand;
        const size_t k = rel(_id) - 1;
        if (k < table.size())
            for (long c: table[k])
                if (c < d.n and c < taken.size() and not taken[c])
                {
                    r.insert(c);
                    if (add)
                        matches.push_back(std::make_shared<FakeMatch>(_id, c));
                }
        return r;
    }
    bool compute_upgraded(const CameraToWorldMatrix&, UpgradedFeature_ptr& up) const noexcept override
    {
        if (env.nullup.contains(rel(_id)))
        {
            up = nullptr;
            return true;
        }
        if (not env.ready.contains(rel(_id)))
            return false;
        up = std::make_shared<FakeUpgraded>(_matchIndexes, _o, FeatureType::Plane);
        return true;
    }
    bool is_moving() const noexcept override { return env.moving.contains(rel(_id)); }
    bool update_with_match(const Det& d, const matrix33&, const CameraToWorldMatrix&) noexcept override
    {
        return not env.badids.contains(rel(_id)) and not env.bad.contains({rel(_id), d.index});
    }
    void write_to_file(std::shared_ptr<outputs::IMap_Writer>) const noexcept override { written.push_back(rel(_id)); }
    bool add_to_tracked(const WorldToCameraMatrix&, TrackedObj&, const uint) const noexcept override
    {
        offered.push_back(rel(_id));
        return true;
    }
    void draw(const WorldToCameraMatrix&, cv::Mat&, const cv::Scalar&) const noexcept override
    {
        std::ostringstream s;
        s << "{\"w\":\"" << _where << "\",\"id\":" << rel(_id) << ",\"f\":" << _failedTrackingCount
          << ",\"s\":" << _successivMatchedCount << ",\"m\":" << hio::arr(std::set<size_t>(_matchIndexes.begin(), _matchIndexes.end()))
          << ",\"o\":" << _o << "}";
        drawn.push_back(s.str());
    }
    bool is_visible(const WorldToCameraMatrix&) const noexcept override { return env.visible.contains(rel(_id)); }

  protected:
    void update_no_match() noexcept override {}
};

// another kind of feature, only created
struct OtherDet
{
};
struct Other : IMapFeature<Dets, OtherDet, TrackedObj>
{
    matchIndexSet find_matches(const Dets&, const WorldToCameraMatrix&, const vectorb&, matches_containers::match_container&, const bool, const bool) const noexcept override { return {}; }
    bool compute_upgraded(const CameraToWorldMatrix&, UpgradedFeature_ptr&) const noexcept override { return false; }
    bool is_moving() const noexcept override { return false; }
    bool update_with_match(const OtherDet&, const matrix33&, const CameraToWorldMatrix&) noexcept override { return false; }
    void write_to_file(std::shared_ptr<outputs::IMap_Writer>) const noexcept override {}
    bool add_to_tracked(const WorldToCameraMatrix&, TrackedObj&, const uint) const noexcept override { return false; }
    void draw(const WorldToCameraMatrix&, cv::Mat&, const cv::Scalar&) const noexcept override {}
    bool is_visible(const WorldToCameraMatrix&) const noexcept override { return false; }

  protected:
    void update_no_match() noexcept override {}
};

struct FakeStaged : FakeBase, IStagedMapFeature<Det>
{
    FakeStaged(const matrix33&, const CameraToWorldMatrix&, const Det& d) : FakeBase(label + d.index, "staged")
    {
        if (env.badctor.contains(d.index))
            throw std::runtime_error("scripted constructor failure");
    }
    bool should_remove_from_staged() const noexcept override { return _successivMatchedCount <= dropAt; }
    bool should_add_to_local_map() const noexcept override { return _successivMatchedCount >= promoteAt; }
    static bool can_add_to_map(const Det& d) noexcept { return env.addable.contains(d.index); }
};

struct FakeLocal : FakeBase, ILocalMapFeature<FakeStaged>
{
    explicit FakeLocal(const FakeStaged& s) : FakeBase(s._o, "local", s._id)
    {
        if (env.badpromo.contains(rel(s._id)))
            throw std::runtime_error("scripted promotion failure");
        _matchIndexes = s._matchIndexes;
        _successivMatchedCount = s._successivMatchedCount;
    }
    FakeLocal(const FakeUpgraded& u) : FakeBase(u.o, "local")
    {
        _matchIndexes = u._matchIndexes;
        _successivMatchedCount = 1;
    }
    bool is_lost() const noexcept override { return static_cast<int>(_failedTrackingCount) > lostAfter; }
};

struct FakeMap : Feature_Map<FakeLocal, FakeStaged, Dets, Det, TrackedObj>
{
    FeatureType get_feature_type() const override { return FeatureType::Point; }
    std::string get_display_name() const override { return "fake"; }
    Dets get_detected_feature(const DetectedFeatureContainer&) const override { return dets; }
    std::shared_ptr<TrackedObj> get_tracked_features_container(const TrackedFeaturesContainer&) const override
    {
        return std::make_shared<TrackedObj>();
    }
    size_t minimum_features_for_opti() const override { return 1; }

  protected:
    void add_upgraded_to_local_map(const UpgradedFeature_ptr u) override
    {
        add_to_local_map(FakeLocal(*dynamic_cast<FakeUpgraded*>(u.get())));
    }
};

struct NullWriter : outputs::IMap_Writer
{
    NullWriter() : IMap_Writer("out.null") {}
    void add_point(const vector3&) noexcept override {}
    void add_line(const std::vector<vector3>&) noexcept override {}
    void add_polygon(const std::vector<vector3>&, const vector3&) noexcept override {}
};

std::string state(FakeMap& m)
{
    drawn.clear();
    cv::Mat img;
    WorldToCameraMatrix w2c;
    w2c.setIdentity();
    m.draw_on_image(w2c, img, true);
    std::ostringstream o;
    o << "\"feats\":" << hio::arr(drawn) << ",\"nl\":" << m.get_local_map_size() << ",\"ns\":" << m.get_staged_map_size()
      << ",\"size\":" << m.size() << ",\"written\":" << hio::arr(written) << ",\"offered\":" << hio::arr(offered);
    written.clear();
    offered.clear();
    return o.str();
}

} // namespace

int main()
{
    std::cout.setstate(std::ios_base::failbit); // silence the logger
    lostAfter = hio::rd();
    promoteAt = hio::rd();
    dropAt = hio::rd();
    auto writer = std::make_shared<NullWriter>();
    const features::keypoints::Keypoint_Handler* noKeypoints = nullptr;
    (void)noKeypoints;
    cv::Mat none;
    std::vector<cv::Point2f> nop;
    alignas(DetectedFeatureContainer) static unsigned char raw[sizeof(DetectedFeatureContainer)];
    // the template only hands the container to get_detected_feature, which is ours and ignores it
    const DetectedFeatureContainer& container = *reinterpret_cast<DetectedFeatureContainer*>(raw);
    WorldToCameraMatrix w2c;
    w2c.setIdentity();
    CameraToWorldMatrix c2w;
    c2w.setIdentity();
    const matrix33 cov = matrix33::Identity();
    matrix33 badCov = matrix33::Identity();
    badCov(0, 0) = -1;

    std::unique_ptr<FakeMap> map;
    matchIndexSet used;
    std::vector<UpgradedFeature_ptr> upgraded;
    std::string op;
    bool on = true;
    while (std::cin >> op)
    {
        std::ostringstream extra;
        bool threw = false;
        if (op == "new")
        {
            map = std::make_unique<FakeMap>();
            base = MapIdAllocator::get_new_id();
            env = Env();
            dets = Dets {0};
            label = 0;
            used.clear();
            written.clear();
            offered.clear();
            on = true;
        }
        else if (op == "match")
        {
            label += 100;
            dets.n = hio::rd();
            const uint min = hio::rd();
            env.visible = hio::rdset();
            env.moving = hio::rdset();
            env.cand = hio::rdvv();
            env.wide = hio::rdvv();
            matches_containers::match_container out;
            map->get_matches(container, w2c, min, out);
            std::vector<std::string> ps;
            for (const auto& p: out)
                ps.push_back("[" + std::to_string(rel(p->_idInMap)) + "," + std::to_string(p->_detectedFeatureId) + "]");
            extra << ",\"out\":" << hio::arr(ps);
            used.clear();
        }
        else if (op == "outliers")
        {
            const auto pairs = hio::rdvv();
            const auto foreign = hio::rdvv(); // same ids, but rejected matches of another feature kind
            matches_containers::match_container out;
            for (const auto& p: pairs)
                out.push_back(std::make_shared<FakeMatch>(p[0] + base, p[1]));
            for (const auto& p: foreign)
                out.push_back(std::make_shared<FakeMatch>(p[0] + base, p[1], FeatureType::Plane));
            map->mark_outliers_as_unmatched(out);
        }
        else if (op == "update")
        {
            const bool useBadCov = hio::rd();
            env.moving = hio::rdset();
            env.badpromo = hio::rdset();
            env.badids = hio::rdset();
            env.bad.clear();
            for (const auto& p: hio::rdvv())
                env.bad.insert({p[0], p[1]});
            try
            {
                used = map->update_map(c2w, useBadCov ? badCov : cov, container, writer);
            }
            catch (const std::exception&)
            {
                threw = true;
            }
            extra << ",\"used\":" << hio::arr(std::set<size_t>(used.begin(), used.end()));
            env.badpromo.clear();
        }
        else if (op == "notrack")
        {
            env.moving = hio::rdset();
            map->update_with_no_tracking(writer);
            used.clear();
        }
        else if (op == "stage")
        {
            const bool useBadCov = hio::rd();
            const bool all = hio::rd();
            env.addable = hio::rdset();
            env.badctor = hio::rdset();
            try
            {
                if (all)
                    map->add_all_features_to_staged_map(useBadCov ? badCov : cov, c2w, container);
                else
                    map->add_features_to_staged_map(useBadCov ? badCov : cov, c2w, container, used);
            }
            catch (const std::exception&)
            {
                threw = true;
            }
            env.badctor.clear();
        }
        else if (op == "upgrade")
        {
            env.ready = hio::rdset();
            env.nullup = hio::rdset();
            upgraded = map->get_upgraded_features(c2w);
            env.ready.clear();
            env.nullup.clear();
            std::vector<std::string> us;
            for (const auto& u: upgraded)
            {
                const auto* f = dynamic_cast<FakeUpgraded*>(u.get());
                us.push_back("{\"o\":" + std::to_string(f->o) +
                             ",\"m\":" + hio::arr(std::set<size_t>(f->_matchIndexes.begin(), f->_matchIndexes.end())) + "}");
            }
            extra << ",\"out\":" << hio::arr(us);
        }
        else if (op == "addup")
        {
            // upgraded features of another map: list of [label, ours?, matches...]
            std::vector<UpgradedFeature_ptr> ups;
            for (const auto& v: hio::rdvv())
            {
                matchIndexSet ms;
                for (size_t k = 2; k < v.size(); ++k)
                    ms.insert(v[k]);
                ups.push_back(std::make_shared<FakeUpgraded>(ms, v[0], v[1] ? FeatureType::Point : FeatureType::Plane));
            }
            extra << ",\"added\":" << map->add_upgraded_features(ups);
        }
        else if (op == "many")
        {
            // a long session: that many features are created one after the other
            std::vector<size_t> ids(hio::rd());
            env.badctor.clear();
            for (auto& i: ids)
                i = (&i - ids.data()) % 3 == 1 ? Other()._id : FakeStaged(cov, c2w, Det {0})._id; // of two kinds
            std::sort(ids.begin(), ids.end());
            const auto end = std::unique(ids.begin(), ids.end());
            extra << ",\"fresh\":" << (end - ids.begin()) - std::count(ids.begin(), end, size_t(0));
        }
        else if (op == "reset")
            map->reset();
        else if (op == "deactivate")
        {
            map->deactivate();
            on = false;
        }
        else if (op == "destroy")
            map->destroy(writer);
        else if (op == "tracked")
        {
            env.visible = hio::rdset();
            TrackedFeaturesContainer t;
            map->get_tracked_features(w2c, t, 0);
        }
        else
            return 3;
        (void)on;
        hio::emit("{\"threw\":" + std::string(threw ? "1" : "0") + extra.str() + "," + state(*map) + ",\"label\":" +
                  std::to_string(label) + "}");
    }
    std::_Exit(0);
}
