// Drives the real MultiViewVisionUpdate on synthetic scenes whose truth is known.
#include "common.hpp"
#include <multi_view_vision_update.hpp>
using namespace ESKF_VIO_BACKEND;
using U = ESKF_VIO_BACKEND::uint32_t;

struct Pose { Vector3 p; Quaternion q; };
struct Upd {
    FrameManager fm;
    FeatureManager ft;
    PropagateQueue q;
    Trianglator tri;
    PnPSolver pnp;
    MultiViewVisionUpdate u;
    std::vector<Vector3> pts;
    std::vector<Pose> extTrue;
    std::map<Frame *, Pose> truth;
    std::map<Frame *, long> uid;
    std::vector<std::shared_ptr<Frame>> keep;
    Vector3 vTrue, baTrue, bgTrue;
    long nextUid = 1;
    bool tags = false;
    long stride = 1, first = 1; double base = 0;     // numbering of the features, origin of the clock
    std::vector<long> wrong;        // indices made wrong since the last "state"
    std::shared_ptr<IMUPropagateQueueItem> main;    // the item at the newest image

    Upd() {
        u.propagator = &q; u.featureManager = &ft; u.frameManager = &fm; u.trianglator = &tri; u.pnpSolver = &pnp;
        q.propagator = &fm;
        vTrue.setZero(); baTrue.setZero(); bgTrue.setZero();
        IMUFullState::SetGravityNorm(9.8);
        q.InitializeProcessNoiseMatrix(1e-3, 1e-4, 1e-5, 1e-6);
    }
    Vector3 vec(const H::Op &op, double s) { Vector3 v; for (int i = 0; i < 3; ++i) v(i) = op.next() * s; return v; }
    Quaternion quat(const H::Op &op) { Eigen::Quaterniond d; d.w() = op.next(); d.x() = op.next(); d.y() = op.next(); d.z() = op.next(); d.normalize(); return d.cast<float>(); }
    static Vector3 rotErr(const Quaternion &est, const Quaternion &tru) {
        Quaternion d = est.conjugate() * tru;
        return (d.w() < 0 ? Vector3(-2 * d.vec()) : Vector3(2 * d.vec()));
    }
    static void add(std::vector<long> &o, const Vector3 &v, double s) { for (int i = 0; i < 3; ++i) o.push_back(H::scaled(v(i), s)); }
    // truth minus estimate, in the order of the joint error state; position/velocity/angle/bias in 1e-7
    std::vector<long> errors(bool withoutNewest) {
        std::vector<long> o;
        auto &n = main->nominalState;
        Pose &t = truth[fm.frames.back().get()];
        add(o, t.p - n.p_wb, 1e7); add(o, vTrue - n.v_wb, 1e7); add(o, rotErr(n.q_wb, t.q), 1e7);
        add(o, baTrue - q.bias_a, 1e7); add(o, bgTrue - q.bias_g, 1e7);
        for (size_t i = 0; i < fm.extrinsics.size(); ++i) { add(o, extTrue[i].p - fm.extrinsics[i].p_bc, 1e7); add(o, rotErr(fm.extrinsics[i].q_bc, extTrue[i].q), 1e7); }
        for (size_t i = 0; i + (withoutNewest ? 1 : 0) < fm.frames.size(); ++i) {
            Pose &t = truth[fm.frames[i].get()];
            add(o, t.p - fm.frames[i]->p_wb, 1e7); add(o, rotErr(fm.frames[i]->q_wb, t.q), 1e7);
        }
        return o;
    }
    static long ex(double x) { return !std::isfinite(x) ? H::NANV : x == std::round(x) && std::fabs(x) < 1e9 ? (long)x : H::BIGV; }
    std::string matrix(const Matrix &m) {
        std::vector<std::string> rows;
        for (int i = 0; i < m.rows(); ++i) { std::vector<long> r; for (int j = 0; j < m.cols(); ++j) r.push_back(ex(m(i, j))); rows.push_back(H::arr(r)); }
        return H::arrS(rows);
    }
    // the joint covariance held for the moment of the update
    Matrix joint() {
        auto &it = *main;
        int n = it.imuExCamCov.cols();
        Matrix m = Matrix::Zero(15 + n, 15 + n);
        m.topLeftCorner(15, 15) = it.imuCov;
        m.topRightCorner(15, n) = it.imuExCamCov;
        m.bottomLeftCorner(n, 15) = it.imuExCamCov.transpose();
        if (q.exCamCov.rows() == n && q.exCamCov.cols() == n) m.bottomRightCorner(n, n) = q.exCamCov;
        else m.bottomRightCorner(n, n).setConstant(NAN);
        return m;
    }
    void setJoint(const Matrix &m) {
        auto &it = *main;
        int n = m.cols() - 15;
        it.imuCov = m.topLeftCorner(15, 15);
        it.imuExCamCov = m.topRightCorner(15, n);
        q.exCamCov = m.bottomRightCorner(n, n);
    }
    int stateSize() { return 15 + 6 * (fm.extrinsics.size() + fm.frames.size() - 1); }
    std::vector<long> diag(const Matrix &m) { std::vector<long> o; for (int i = 0; i < m.rows(); ++i) o.push_back(H::scaled(m(i, i), 1e9)); return o; }
    long unitDev() {       // largest deviation of any orientation's norm from 1, in 1e-7
        double d = 0;
        for (auto &e : fm.extrinsics) d = std::max(d, std::fabs((double)e.q_bc.norm() - 1));
        for (auto &f : fm.frames) d = std::max(d, std::fabs((double)f->q_wb.norm() - 1));
        for (auto &i : q.items) d = std::max(d, std::fabs((double)i->nominalState.q_wb.norm() - 1));
        return H::scaled(d, 1e7);
    }
    std::vector<long> motion(const IMUMotionState &n) {
        std::vector<long> o;
        add(o, n.p_wb, 1e5); add(o, n.v_wb, 1e5);
        float s = n.q_wb.w() < 0 ? -1 : 1;
        for (float c : {n.q_wb.w(), n.q_wb.x(), n.q_wb.y(), n.q_wb.z()}) o.push_back(H::scaled(s * c, 1e6));
        return o;
    }
    std::vector<long> uids() { std::vector<long> o; for (auto &f : fm.frames) o.push_back(uid.count(f.get()) ? uid[f.get()] : -1); return o; }

    std::string run(const H::Op &op) {
        if (op.name == "cfg") {         // window size, keyframe thresholds
            fm.Initialize(op.next());
            fm.minKeyframeTrackedFeatureNum = op.next();
            fm.maxKeyframeTranslation = op.next() / 4.0f;
            return "{}";
        } else if (op.name == "origin") {   // stride and first of the features' numbers, seconds
            stride = op.next(); first = op.next(); base = op.next();
            return "{}";
        } else if (op.name == "noise") {    // of the measurements (1e-6), most features used
            long n = op.next();
            u.measureNoise = n < 0 ? 1e15f : n * 1e-6f;
            u.maxUsedFeatures = op.next();
            return "{}";
        } else if (op.name == "key") {      // is the second-newest frame to count as a keyframe?
            fm.minKeyframeTrackedFeatureNum = op.next() ? 1000000 : 0;
            return "{}";
        } else if (op.name == "ext") {
            long n = op.next();
            extTrue.clear(); fm.extrinsics.clear();
            for (long i = 0; i < n; ++i) {
                Pose p; p.p = vec(op, 1 / 16.0); p.q = quat(op);
                extTrue.push_back(p);
                Extrinsic e; e.p_bc = p.p; e.q_bc = p.q;
                fm.extrinsics.push_back(e);
            }
            return "{}";
        } else if (op.name == "pts") {
            long n = op.next();
            for (long i = 0; i < n; ++i) pts.push_back(vec(op, 1 / 8.0));
            return "{}";
        } else if (op.name == "image") {    // t [1/8], true pose, then (feature, camera mask) pairs
            double t = base + op.next() / 8.0;
            Pose p; p.p = vec(op, 1 / 16.0); p.q = quat(op);
            std::shared_ptr<Frame> f(new Frame(t));
            keep.push_back(f);
            uid[f.get()] = nextUid++;
            truth[f.get()] = p;
            fm.AddNewFrame(f);
            std::vector<U> ids;
            std::vector<std::shared_ptr<FeatureObserve>> obs;
            while (op.more()) {
                long id = op.next(), mask = op.next();
                std::unordered_map<U, Vector2> norms;
                for (size_t c = 0; c < extTrue.size(); ++c) if (mask >> c & 1) {
                    Eigen::Vector3d pb = p.q.cast<double>().conjugate() * (pts[id].cast<double>() - p.p.cast<double>());
                    Eigen::Vector3d pc = extTrue[c].q.cast<double>().conjugate() * (pb - extTrue[c].p.cast<double>());
                    norms[c] = Vector2(pc.x() / pc.z(), pc.y() / pc.z());
                }
                ids.push_back(U(id * stride + first));
                obs.emplace_back(new FeatureObserve(norms));
            }
            std::vector<std::shared_ptr<Feature>> changed;
            ft.AddNewFeatures(ids, obs, f->id, changed);
            f->AddFeatures(changed);
            return "{}";
        } else if (op.name == "state") {    // true velocity and biases; every estimate at the newest image becomes the truth; covariance is kept
            wrong.clear();
            vTrue = vec(op, 1 / 16.0); baTrue = vec(op, 1 / 64.0); bgTrue = vec(op, 1 / 64.0);
            std::shared_ptr<IMUPropagateQueueItem> it(new IMUPropagateQueueItem());
            auto &f = fm.frames.back();
            Pose &p = truth[f.get()];
            it->nominalState = IMUMotionState(p.p, vTrue, p.q);
            q.bias_a = baTrue; q.bias_g = bgTrue;
            it->timeStamp = f->timeStamp;
            it->accel = p.q.conjugate() * Vector3(0.25f, -0.5f, 9.8f) + baTrue;
            it->gyro = Vector3(0.125f, -0.25f, 0.0625f) + bgTrue;
            it->imuCov.setZero();
            it->imuExCamCov.setZero(15, stateSize() - 15);
            if (q.items.empty()) {
                q.exCamCov.setZero(stateSize() - 15, stateSize() - 15);
            } else {
                it->imuCov = q.items.front()->imuCov;
                it->imuExCamCov = q.items.front()->imuExCamCov;
            }
            q.items.clear();
            q.items.push_back(it);
            main = it;
            for (auto &f : fm.frames) { Pose &p = truth[f.get()]; f->p_wb = p.p; f->q_wb = p.q; }
            for (size_t i = 0; i < extTrue.size(); ++i) { fm.extrinsics[i].p_bc = extTrue[i].p; fm.extrinsics[i].q_bc = extTrue[i].q; }
            return H::Obj().i("cols", q.items.front()->imuExCamCov.cols()).i("ex", q.exCamCov.rows()).end();
        } else if (op.name == "tag") {      // every entry of the joint covariance gets its own number
            tags = true;
            int n = stateSize();
            long off = op.next();
            Matrix m(n, n);
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = 200 * (std::min(i, j) + 1) + std::max(i, j) + 1 + off;
            setJoint(m);
            return "{}";
        } else if (op.name == "cov") {      // zero except the listed (i, j, value in 2^-16)
            tags = false;
            int n = stateSize();
            Matrix m = Matrix::Zero(n, n);
            while (op.more()) { long i = op.next(), j = op.next(); double v = op.next() / 65536.0; m(i, j) = m(j, i) = v; }
            setJoint(m);
            return "{}";
        } else if (op.name == "err") {      // (index, truth minus estimate in 1e-4) pairs
            wrong.clear();
            while (op.more()) {
                long i = op.next(); double a = op.next() * 1e-4;
                wrong.push_back(i);
                Vector3 d = Vector3::Zero(); d(i % 3) = a;
                Quaternion dq(1, -d.x() / 2, -d.y() / 2, -d.z() / 2); dq.normalize();
                auto &n = main->nominalState;
                if (i < 3) n.p_wb -= d;
                else if (i < 6) n.v_wb -= d;
                else if (i < 9) n.q_wb = (n.q_wb * dq).normalized();
                else if (i < 12) q.bias_a -= d;
                else if (i < 15) q.bias_g -= d;
                else {
                    long k = (i - 15) / 6; bool rot = (i - 15) % 6 >= 3;
                    if (k < (long)extTrue.size()) { auto &e = fm.extrinsics[k]; if (rot) e.q_bc = (e.q_bc * dq).normalized(); else e.p_bc -= d; }
                    else { auto &f = fm.frames[k - extTrue.size()]; if (rot) f->q_wb = (f->q_wb * dq).normalized(); else f->p_wb -= d; }
                }
            }
            return "{}";
        } else if (op.name == "imu") {      // n samples after the image, dt in ms
            long n = op.next(); double dt = op.next() * 1e-3;
            for (long i = 0; i < n; ++i) {
                auto &l = *q.items.back();
                Vector3 a = l.accel + Vector3(0.25f, -0.125f, 0.5f) * (i % 3 - 1), g = l.gyro + Vector3(-0.125f, 0.0625f, 0.25f) * (i % 2);
                q.Propagate(a, g, l.timeStamp + dt);
            }
            return "{}";
        } else if (op.name == "older") {    // n samples before the image, dt in ms, with states of their own
            long n = op.next(); double dt = op.next() * 1e-3;
            for (long i = 0; i < n; ++i) {
                auto it = std::make_shared<IMUPropagateQueueItem>(*main);
                it->timeStamp = main->timeStamp - dt * (i + 1);
                it->nominalState.p_wb += Vector3(1, 2, 3) * (i + 1);
                it->nominalState.v_wb += Vector3(1, -1, 2);
                it->imuCov *= 3;
                q.items.push_front(it);
            }
            return "{}";
        } else if (op.name == "update") {   // kind (judged by the specification), tolerance ms
            op.next();
            double t = fm.frames.back()->timeStamp, thr = op.next() * 1e-3;
            std::vector<long> e0 = errors(true), d0 = diag(joint());
            Matrix P0 = joint();
            std::vector<long> t0;
            for (auto &i : q.items) t0.push_back(H::scaled(i->timeStamp - t, 1e6));
            bool r = u.Update(t, thr);
            H::Obj o;
            o.b("ret", r).raw("e0", H::arr(e0)).raw("d0", H::arr(d0)).raw("t0", H::arr(t0));
            o.str("policy", u.margPolicy == NO_MARG ? "none" : u.margPolicy == MARG_OLDEST ? "oldest" : u.margPolicy == MARG_SUBNEW ? "subnew" : "newest");
            main = q.items.empty() ? nullptr : q.items.front();
            if (!main) return o.i("items", 0).end();
            std::vector<long> cols, frame, t1, inc;
            std::vector<std::string> items, fresh;
            for (auto &i : q.items) { cols.push_back(i->imuExCamCov.cols()); items.push_back(H::arr(motion(i->nominalState))); t1.push_back(H::scaled(i->timeStamp - t, 1e6)); }
            // re-integration from the corrected state with the corrected biases
            PropagateQueue f; f.propagator = &fm; f.Q = q.Q; f.bias_a = q.bias_a; f.bias_g = q.bias_g;
            for (auto &i : q.items) { if (f.items.empty()) f.initState = i->nominalState; f.Propagate(i->accel, i->gyro, i->timeStamp); }
            for (auto &i : f.items) fresh.push_back(H::arr(motion(i->nominalState)));
            auto &fr = *fm.frames.back(); auto &n = q.items.front()->nominalState;
            bool agree = (fr.p_wb - n.p_wb).norm() < 1e-5 * (1 + n.p_wb.norm()) && (fr.v_wb - n.v_wb).norm() < 1e-5 * (1 + n.v_wb.norm())
                && std::min((fr.q_wb.coeffs() - n.q_wb.coeffs()).norm(), (fr.q_wb.coeffs() + n.q_wb.coeffs()).norm()) < 1e-5;
            o.i("items", q.items.size()).raw("t1", H::arr(t1)).raw("cols", H::arr(cols)).i("rows", q.exCamCov.rows()).i("ccols", q.exCamCov.cols())
             .raw("motion", H::arrS(items)).raw("fresh", H::arrS(fresh)).b("agree", agree).i("unit", unitDev())
             .raw("e1", H::arr(errors(true))).raw("d1", H::arr(diag(joint()))).raw("M", tags ? matrix(joint()) : "[]");
            // what is held of the wrong quantities, in order: errors in 1e-6, covariance in 1e-7 before and after
            std::vector<long> x0, x1, e2 = errors(true);
            std::vector<std::string> v0, v1;
            Matrix P1 = joint();
            for (long i : wrong) {
                x0.push_back((e0[i] + (e0[i] < 0 ? -5 : 5)) / 10); x1.push_back((e2[i] + (e2[i] < 0 ? -5 : 5)) / 10);
                std::vector<long> a, b;
                for (long j : wrong) { a.push_back(H::scaled(P0(i, j), 1e7)); b.push_back(H::scaled(j < P1.cols() && i < P1.rows() ? (double)P1(i, j) : NAN, 1e7)); }
                v0.push_back(H::arr(a)); v1.push_back(H::arr(b));
            }
            o.raw("x0", H::arr(x0)).raw("x1", H::arr(x1)).raw("v0", H::arrS(v0)).raw("v1", H::arrS(v1));
            double asym = (joint() - joint().transpose()).cwiseAbs().maxCoeff();
            o.b("sym", asym == 0).raw("uids", H::arr(uids()));
            // the window follows the policy, the way the estimator does it
            if (u.margPolicy == MARG_OLDEST) { ft.RemoveByFrameID(fm.frames.front()->id, false); fm.RemoveFrame(0); }
            else if (u.margPolicy == MARG_SUBNEW) { ft.RemoveByFrameID(fm.frames.back()->id - 1, true); fm.RemoveFrame(fm.frames.size() - 2); }
            return o.raw("after", H::arr(uids())).end();
        }
        _exit(99);
    }
};
int main(int argc, char **argv) {
    return H::runAll(argc, argv, [] {
        auto r = std::make_shared<std::shared_ptr<Upd>>(new Upd);
        return [r](const H::Op &op) -> std::string {
            if (op.name == "again") { r->reset(new Upd); return "{}"; }     // the same scene once more
            return (*r)->run(op);
        };
    });
}
