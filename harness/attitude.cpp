// Drives the real AttitudeEstimate. Time unit tau = 2^-u, rates in 1/tau, accelerations in m/s^2 (exact integers).
#include "common.hpp"
#include <attitude_estimate.hpp>
#include <imu_state.hpp>
using namespace ESKF_VIO_BACKEND;

struct Att {
    AttitudeEstimate e;
    double tau = 1, base = 0;
    Vector3 vec(const H::Op &op, double unit) { Vector3 v; for (int i = 0; i < 3; ++i) v(i) = op.next() * unit; return v; }
    static std::string quat(const Quaternion &q, double s) {
        return H::arr({H::scaled(q.w(), s), H::scaled(q.x(), s), H::scaled(q.y(), s), H::scaled(q.z(), s)});
    }
    static long ex(double x, double unit) {
        if (!std::isfinite(x)) return H::NANV;
        double v = x / unit;
        if (std::fabs(v) > 1.9e9) return H::BIGV;
        return v == std::round(v) ? (long)v : H::BIGV + 5;
    }
    std::string snap() {
        std::vector<std::string> it;
        for (auto &x : e.items)
            it.push_back(H::Obj().i("t", ex(x->timeStamp - base, tau)).raw("q", quat(x->q_wb, 2e6)).end());
        return H::arrS(it);
    }
    std::string run(const H::Op &op) {
        if (op.name == "cfg") {
            tau = std::ldexp(1.0, -op.next());
            base = op.next();
            IMUFullState::SetGravityNorm(op.next());
            return "{}";
        } else if (op.name == "bias") {
            Vector3 a = vec(op, 1), g = vec(op, 1 / tau);
            return H::Obj().b("ret", e.SetBias(a, g)).end();
        } else if (op.name == "prop") {
            double t = base + op.next() * tau;
            Vector3 a = vec(op, 1), g = vec(op, 1 / tau);
            bool r = e.Propagate(a, g, t);
            return H::Obj().b("ret", r).raw("items", snap()).end();
        } else if (op.name == "burst") {    // many samples in a row
            std::vector<long> ret;
            while (op.more()) {
                double t = base + op.next() * tau;
                Vector3 a = vec(op, 1), g = vec(op, 1 / tau);
                ret.push_back(e.Propagate(a, g, t));
            }
            return H::Obj().raw("ret", H::arr(ret)).raw("items", snap()).end();
        } else if (op.name == "settle") {   // level start, then n samples without turning, dt us apart, whose acceleration is the given one [1e-3]; biases
            AttitudeEstimate f;
            IMUFullState::SetGravityNorm(9.8);
            long n = op.next();
            double dt = op.next() * 1e-6, t0 = op.next();
            Vector3 u = vec(op, 1e-3), ba = vec(op, 1e-3), bg = vec(op, 1e-4);
            f.SetBias(ba, bg);
            bool r = f.Propagate(Vector3(0, 0, 9.8) + ba, bg, t0);
            for (long k = 1; k <= n; ++k) r = f.Propagate(u + ba, bg, t0 + k * dt) && r;
            auto q = f.items.back()->q_wb.cast<double>();
            Eigen::Vector3d d = u.cast<double>().normalized(), w = q * d, z(0, 0, 1);
            Eigen::Vector3d ax = d.cross(z).normalized();       // the direct way turns about this axis
            Eigen::AngleAxisd aa(q.normalized());
            auto ang = [&](const Eigen::Vector3d &x) { return std::atan2(x.cross(z).norm(), x.dot(z)); };
            return H::Obj().b("ret", r).i("n", f.items.size()).i("before", H::scaled(ang(d), 1e6)).i("after", H::scaled(ang(w), 1e6))
                .i("turn", H::scaled(aa.angle(), 1e6)).i("along", H::scaled(aa.angle() * aa.axis().dot(ax), 1e6)).end();
        } else if (op.name == "get") {      // time and tolerance in half units
            double t = base + op.next() * tau / 2, thr = op.next() * tau / 2;
            Quaternion q(9, 9, 9, 9);
            bool r = e.GetAttitude(t, thr, q);
            return H::Obj().b("ret", r).raw("q", quat(q, 2e6)).raw("items", snap()).end();
        } else if (op.name == "clean") {
            double t = base + op.next() * tau / 2, thr = op.next() * tau / 2;
            bool r = e.CleanOldItems(t, thr);
            return H::Obj().b("ret", r).raw("items", snap()).end();
        } else if (op.name == "init") {     // first sample after the history was emptied: gravity, bias, acceleration in 1e-3
            IMUFullState::SetGravityNorm(op.next() * 1e-3);
            e.CleanOldItems(1e12, 0);
            e.SetBias(vec(op, 1e-3), Vector3(0.01, -0.02, 0.03));
            Vector3 a = vec(op, 1e-3);
            bool r = e.Propagate(a, Vector3(0.1, 0.2, -0.3), base + 1);
            long n = e.items.size();
            return H::Obj().b("ret", r).i("n", n).raw("q", n ? quat(e.items.back()->q_wb, 1e4) : "[]").end();
        } else if (op.name == "step") {     // level start, then one sample: t0, dt [us], w0, w1 [1e-4], ba [1e-3], bg [1e-4], a1 [1e-3]
            AttitudeEstimate f;
            IMUFullState::SetGravityNorm(9.8);
            double t0 = op.next() * 1e-6, dt = op.next() * 1e-6;
            if (dt > 2e-3) t0 += 1403636580.0;
            Vector3 w0 = vec(op, 1e-4), w1 = vec(op, 1e-4), ba = vec(op, 1e-3), bg = vec(op, 1e-4), a1 = vec(op, 1e-3);
            f.SetBias(ba, bg);
            bool r = f.Propagate(Vector3(0, 0, 9.8) + ba, w0, t0);
            Quaternion q0 = f.items.empty() ? Quaternion(0, 0, 0, 0) : f.items.back()->q_wb;
            r = f.Propagate(a1, w1, t0 + dt) && r;
            Quaternion q1 = f.items.empty() ? Quaternion(0, 0, 0, 0) : f.items.back()->q_wb;
            return H::Obj().b("ret", r).i("n", f.items.size()).raw("q", quat(q0.conjugate() * q1, 1e8)).end();
        }
        _exit(99);
    }
};
int main(int argc, char **argv) {
    return H::runAll(argc, argv, [] { auto r = std::make_shared<Att>(); return [r](const H::Op &op) { return r->run(op); }; });
}
