// Drives the real PropagateQueue. Quantities are exchanged in exact dyadic units: time tau = 2^-u,
// quaternions 1/2, velocity tau/2, position tau^2/4, rates 1/tau, covariance blocks in products of
// the units (tau^2, tau, 1, 1, 1/tau) of the error state, quartered.
#include "common.hpp"
#include <sequence_propagator.hpp>
using namespace ESKF_VIO_BACKEND;

struct Prop {
    FrameManager fm;
    PropagateQueue q;
    double tau = 1, base = 0;
    bool cov = false;
    Prop() { q.propagator = &fm; }
    Vector3 vec(const H::Op &op, double unit) { Vector3 v; for (int i = 0; i < 3; ++i) v(i) = op.next() * unit; return v; }
    Quaternion quat(const H::Op &op) { float w = op.next() / 2.0f, x = op.next() / 2.0f, y = op.next() / 2.0f, z = op.next() / 2.0f; return Quaternion(w, x, y, z); }
    double unit(int row) { return row < 3 ? tau * tau : row < 6 ? tau : row < 12 ? 1 : 1 / tau; }
    static long ex(double x, double unit) {     // exact or a value no model produces
        if (!std::isfinite(x)) return H::NANV;
        double v = x / unit;
        if (std::fabs(v) > 1.9e9) return H::BIGV;
        return v == std::round(v) ? (long)v : H::BIGV + 5;
    }
    template <class V> static void put(std::vector<long> &o, const V &v, int n, double unit) { for (int i = 0; i < n; ++i) o.push_back(ex(v(i), unit)); }
    std::string item(const IMUPropagateQueueItem &it, bool withCov) {
        std::vector<long> p, v, qq, a, g;
        put(p, it.nominalState.p_wb, 3, tau * tau / 4);
        put(v, it.nominalState.v_wb, 3, tau / 2);
        auto &r = it.nominalState.q_wb;
        qq = {ex(r.w(), .5), ex(r.x(), .5), ex(r.y(), .5), ex(r.z(), .5)};
        put(a, it.accel, 3, 1);
        put(g, it.gyro, 3, 1 / tau);
        H::Obj o;
        o.i("t", ex(it.timeStamp - base, tau)).raw("p", H::arr(p)).raw("v", H::arr(v)).raw("q", H::arr(qq)).raw("a", H::arr(a)).raw("g", H::arr(g));
        std::vector<std::string> P, B;
        if (withCov) {
            for (int i = 0; i < IMU_STATE_SIZE; ++i) {
                std::vector<long> row, rb;
                for (int j = 0; j < IMU_STATE_SIZE; ++j) row.push_back(ex(it.imuCov(i, j), unit(i) * unit(j) / 4));
                for (int j = 0; j < it.imuExCamCov.cols(); ++j) rb.push_back(ex(it.imuExCamCov(i, j), unit(i)));
                P.push_back(H::arr(row));
                B.push_back(H::arr(rb));
            }
        }
        return o.raw("P", H::arrS(P)).raw("B", H::arrS(B)).end();
    }
    std::string snap() {
        std::vector<std::string> it, C;
        for (auto &x : q.items) it.push_back(item(*x, cov));
        if (cov) for (int i = 0; i < q.exCamCov.rows(); ++i) {
            std::vector<long> row;
            for (int j = 0; j < q.exCamCov.cols(); ++j) row.push_back(ex(q.exCamCov(i, j), 1));
            C.push_back(H::arr(row));
        }
        return H::Obj().raw("items", H::arrS(it)).raw("C", H::arrS(C)).end();
    }
    std::string run(const H::Op &op) {
        if (op.name == "cfg") {     // u, base, cov, extrinsics, gravity, 4 noises, start pose
            tau = std::ldexp(1.0, -op.next());
            base = op.next();
            cov = op.next();
            fm.extrinsics.resize(op.next());
            IMUFullState::SetGravityNorm(op.next());
            double na = op.next(), ng = op.next(), nwa = op.next(), nwg = op.next();
            q.InitializeProcessNoiseMatrix(na, ng / (tau * tau), nwa / (tau * tau), nwg / (tau * tau * tau * tau));
            q.initState.p_wb = vec(op, tau * tau / 4);
            q.initState.v_wb = vec(op, tau / 2);
            q.initState.q_wb = quat(op);
            return "{}";
        } else if (op.name == "win") {      // frames already in the window: of no influence here
            long n = op.next();
            for (long i = 0; i < n; ++i) fm.AddNewFrame(std::shared_ptr<Frame>(new Frame(i)));
            return "{}";
        } else if (op.name == "clear") {
            q.items.clear();
            return snap();
        } else if (op.name == "prop") {
            double t = base + op.next() * tau;
            Vector3 a = vec(op, 1), g = vec(op, 1 / tau);
            bool r = q.Propagate(a, g, t);
            return H::Obj().b("ret", r).raw("s", snap()).end();
        } else if (op.name == "burst") {    // many samples in a row
            bool r = true;
            while (op.more()) {
                double t = base + op.next() * tau;
                Vector3 a = vec(op, 1), g = vec(op, 1 / tau);
                r = q.Propagate(a, g, t) && r;
            }
            return H::Obj().b("ret", r).raw("s", snap()).end();
        } else if (op.name == "bias") {
            q.bias_a = vec(op, 1);
            q.bias_g = vec(op, 1 / tau);
            return "{}";
        } else if (op.name == "origin") {
            auto &n = q.items.front()->nominalState;
            n.p_wb = vec(op, tau * tau / 4);
            n.v_wb = vec(op, tau / 2);
            n.q_wb = quat(op);
            return "{}";
        } else if (op.name == "setcov") {   // of the oldest state; the camera part as well
            auto &it = *q.items.front();
            for (int i = 0; i < 15; ++i) for (int j = 0; j <= i; ++j) it.imuCov(i, j) = it.imuCov(j, i) = op.next() * unit(i) * unit(j) / 4;
            int n = op.next();
            it.imuExCamCov.setZero(15, n);
            q.exCamCov.setZero(n, n);
            for (int i = 0; i < 15; ++i) for (int j = 0; j < n; ++j) it.imuExCamCov(i, j) = op.next() * unit(i);
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q.exCamCov(i, j) = op.next();
            return "{}";
        } else if (op.name == "repro") {
            // the same samples integrated afresh, once each, from the current origin with the current biases
            PropagateQueue f;
            f.propagator = &fm; f.Q = q.Q; f.bias_a = q.bias_a; f.bias_g = q.bias_g;
            std::vector<std::string> fresh;
            for (size_t k = 0; k < q.items.size(); ++k) {
                auto &x = *q.items[k];
                if (k == 0) f.initState = x.nominalState;
                f.Propagate(x.accel, x.gyro, x.timeStamp);
                if (k == 0) { f.items.front()->imuCov = x.imuCov; f.items.front()->imuExCamCov = x.imuExCamCov; }
            }
            for (auto &x : f.items) fresh.push_back(item(*x, cov));
            bool r = q.Repropagate();
            return H::Obj().b("ret", r).raw("fresh", H::arrS(fresh)).raw("s", snap()).end();
        } else if (op.name == "reset") {
            double t = base + op.next() * tau, thr = op.next() * tau;
            bool r = q.ResetOrigin(t, thr);
            return H::Obj().b("ret", r).raw("s", snap()).end();
        } else if (op.name == "small") {    // one step of sensor-like size from rest: dt us, q0, a0, a1 (1e-3), w0, w1 (1e-4), biases
            FrameManager f2; PropagateQueue p; p.propagator = &f2;
            IMUFullState::SetGravityNorm(9.8);
            double t0 = 0.000001 * op.next(), dt = op.next() * 1e-6;
            if (dt > 2e-3) t0 += 1403636580.0;   // there a double resolves 0.24 us
            p.initState.p_wb.setZero(); p.initState.v_wb.setZero(); p.initState.q_wb = quat(op);
            Vector3 a0 = vec(op, 1e-3), a1 = vec(op, 1e-3), w0 = vec(op, 1e-4), w1 = vec(op, 1e-4);
            p.bias_a = vec(op, 1e-3); p.bias_g = vec(op, 1e-4);
            p.InitializeProcessNoiseMatrix(1e-3, 1e-4, 1e-5, 1e-6);
            bool r = p.Propagate(a0, w0, t0);
            r = p.Propagate(a1, w1, t0 + dt) && r;
            auto &n = p.items.back()->nominalState;
            std::vector<long> q1 = {H::scaled(n.q_wb.w(), 1e8), H::scaled(n.q_wb.x(), 1e8), H::scaled(n.q_wb.y(), 1e8), H::scaled(n.q_wb.z(), 1e8)}, v, x;
            for (int i = 0; i < 3; ++i) { v.push_back(H::scaled(n.v_wb(i), 1e9)); x.push_back(H::scaled(n.p_wb(i), 1e9)); }
            return H::Obj().b("ret", r).i("n", p.items.size()).raw("q", H::arr(q1)).raw("v", H::arr(v)).raw("p", H::arr(x)).end();
        }
        _exit(99);
    }
};
int main(int argc, char **argv) {
    return H::runAll(argc, argv, [] { auto r = std::make_shared<Prop>(); return [r](const H::Op &op) { return r->run(op); }; });
}
