// Motion prediction, poses and angles of the real code.
#include "angle_utils.hpp"
#include "hscale.hpp"
#include "pose.hpp"
#include "tracking/motion_model.hpp"

using namespace rgbd_slam;
using hscale::Out;

namespace {
vector3 v3() { const double a = hio::rd(), b = hio::rd(), c = hio::rd(); return vector3(a, b, c); }
double N;
quaternion rawq()
{
    const double w = hio::rd(), x = hio::rd(), y = hio::rd(), z = hio::rd();
    N = w * w + x * x + y * y + z * z;
    return quaternion(w, x, y, z);
}
quaternion turn(const double degrees, const vector3& axis) { return quaternion(Eigen::AngleAxisd(degrees * EulerToRadian, axis.normalized())); }
void motion()
{
    const quaternion q0 = rawq().normalized();
    const vector3 axis = v3().normalized();
    const long ops = hio::rd();
    tracking::Motion_Model model;
    std::string all = "[";
    for (long i = 0; i < ops; ++i)
    {
        const std::string op = hio::rds();
        const vector3 p = v3();
        const double a = hio::rd();
        const bool inc = hio::rd() == 1;
        const quaternion q = turn(a, axis) * q0;
        all += i ? "," : "";
        if (op == "reset")
        {
            model.reset();
            all += "{}";
            continue;
        }
        if (op == "start")
        {
            model.reset(p, q);
            all += "{}";
            continue;
        }
        matrix66 C = matrix66::Identity() * 0.5;
        C(0, 1) = C(1, 0) = 0.1, C(2, 5) = C(5, 2) = -0.2;
        const utils::Pose seen(p, q, C);
        const utils::Pose next = model.predict_next_pose(seen, inc);
        Out o;
        o.vec("pos", next.get_position(), 1024);
        // the rotation from the pose just seen
        quaternion d = next.get_orientation_quaternion() * seen.get_orientation_quaternion().conjugate();
        if (d.w() < 0)
            d.coeffs() *= -1;
        const double along = d.vec().dot(axis);
        o.num("turn", 2 * std::atan2(along, d.w()) / EulerToRadian, 1024);
        o.flag("axis", (d.vec() - along * axis).norm() < 1e-9), o.flag("unit", std::abs(next.get_orientation_quaternion().norm() - 1) < 1e-9);
        const matrix66 more = next.get_pose_variance() - C;
        o.vec("more", vector6(more.diagonal()), 10000);
        o.flag("rest", (more - matrix66(more.diagonal().asDiagonal())).norm() < 1e-12);
        all += o.s + "}";
    }
    hio::emit("{\"got\":" + all + "]}");
}
void pose()
{
    const quaternion q = rawq();
    const double n = N;
    const vector3 t = v3();
    const quaternion q2 = rawq().normalized();
    const double n2 = N;
    const vector3 t2 = v3(), d = v3();
    const double s = hio::rd();
    const vector3 m = v3();
    const double a = hio::rd();
    matrix66 C = matrix66::Zero();
    for (int i = 0; i < 6; ++i)
        C(i, i) = hio::rd();
    utils::Pose p(t, q, C);                     // not normalised on purpose
    Out o;
    o.vec("pos", p.get_position(), 1), o.mat("rot", p.get_orientation_matrix(), n);
    utils::Pose other;
    other.set_parameters(t, q);
    bool unit = std::abs(p.get_orientation_quaternion().norm() - 1) < 1e-9 and std::abs(other.get_orientation_quaternion().norm() - 1) < 1e-9;
    unit = unit and other.get_position() == t and p.get_orientation_matrix().isApprox(p.get_orientation_quaternion().toRotationMatrix());
    const vector6 v = p.get_vector();
    unit = unit and v.head<3>() == t and
           matrix33(Eigen::AngleAxisd(v(3), vector3::UnitX()) * Eigen::AngleAxisd(v(4), vector3::UnitY()) * Eigen::AngleAxisd(v(5), vector3::UnitZ())).isApprox(p.get_orientation_matrix(), 1e-6);
    o.flag("unit", unit);
    o.vec("cov", vector6(p.get_pose_variance().diagonal()), 1), o.vec("pcov", vector3(p.get_position_variance().diagonal()), 1);
    utils::PoseBase far(t + s * d, turn(a, m) * q.normalized());
    o.num("perr", p.get_position_error(far), 1);
    o.num("rerr", far.get_rotation_error(p), 1);
    bool none = utils::Pose(t, q).get_pose_variance().isZero() and utils::Pose().get_pose_variance().isZero() and utils::Pose().get_position().isZero();
    none = none and utils::Pose().get_orientation_matrix().isIdentity();
    other.set_position_variance(C);
    o.flag("none", none and other.get_pose_variance() == C);
    p.update(t2, q2);
    o.vec("pos2", p.get_position(), 1), o.mat("rot2", p.get_orientation_matrix(), n * n2);
    o.done();
}
void angles()
{
    const vector3 ypr = v3() * EulerToRadian;
    const double one = hio::rd() * EulerToRadian;
    Out o;
    const EulerAngles e(ypr(0), ypr(1), ypr(2));
    const quaternion q = utils::get_quaternion_from_euler_angles(e);
    const EulerAngles b = utils::get_euler_angles_from_quaternion(q);
    o.vec("back", vector3(b.yaw, b.pitch, b.roll), 1.0 / EulerToRadian);
    const matrix33 R = utils::get_rotation_matrix_from_euler_angles(e);
    auto rot = [](const double y, const double p, const double r) { return utils::get_rotation_matrix_from_euler_angles(EulerAngles(y, p, r)); };
    o.flag("comp", R.isApprox(q.toRotationMatrix(), 1e-9) and R.isApprox(rot(0, 0, ypr(2)) * rot(0, ypr(1), 0) * rot(ypr(0), 0, 0), 1e-9));
    o.flag("x", rot(0, 0, one).isApprox(Eigen::AngleAxisd(one, vector3::UnitX()).toRotationMatrix(), 1e-9));
    o.flag("y", rot(0, one, 0).isApprox(Eigen::AngleAxisd(one, vector3::UnitY()).toRotationMatrix(), 1e-9));
    o.flag("z", rot(one, 0, 0).isApprox(Eigen::AngleAxisd(one, vector3::UnitZ()).toRotationMatrix(), 1e-9));
    o.done();
}
} // namespace

int main()
{
    long cases = hio::rd();
    while (cases-- > 0)
    {
        const std::string k = hio::rds();
        if (k == "motion") motion();
        else if (k == "pose") pose();
        else angles();
    }
}
