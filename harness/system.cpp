// Drives the real Backend, message by message, on synthetic motions whose truth is known.
#include "common.hpp"
#include <backend.hpp>
#include <set>
#include <sys/stat.h>
using namespace ESKF_VIO_BACKEND;
using U = ESKF_VIO_BACKEND::uint32_t;
using V3 = Eigen::Vector3d;
using Qd = Eigen::Quaterniond;

struct ExtD { V3 p; Qd q; };
struct Img { long uid, us; std::map<U, std::map<U, Vector2>> norms; std::vector<std::string> ent; };

struct Sys {
    Backend b, tw;
    bool twin = false, started = false;
    int win = 5; long minTracked = 0; double maxTrans = 1e6, freq = 100, period = 0.01;
    V3 ba = V3::Zero(), bg = V3::Zero();
    double g = 9.8;
    Qd q0 = Qd::Identity();
    V3 v = V3::Zero(), w = V3::Zero(), amp = V3::Zero();
    double om = 0, imuNoise = 0, visNoise = 0, noise = 1;
    std::vector<ExtD> ext;
    std::vector<V3> pts;
    std::vector<Img> imgs;
    std::map<long, std::pair<Vector3, Vector3>> raw;     // acceleration, angular rate of every sample sent
    long stride = 1, first = 1; double base = 0;         // numbering of the features, origin of the clock
    U id(long f) const { return U(f * stride + first); }
    bool haveShift = false, haveImu = false, haveImg = false;
    double shift = 0; long firstImu = 0, firstImg = 0;
    unsigned long rnd = 12345, steps = 0;
    // the frame of reference the estimator chose
    bool anchored = false;
    Qd A = Qd::Identity(); V3 origin = V3::Zero();

    double rand1() { rnd = rnd * 6364136223846793005UL + 1442695040888963407UL; return ((rnd >> 33) % 20001) / 10000.0 - 1; }
    V3 vec(const H::Op &op, double s) { V3 r; for (int i = 0; i < 3; ++i) r(i) = op.next() * s; return r; }
    Qd quat(const H::Op &op) { Qd d; d.w() = op.next(); d.x() = op.next(); d.y() = op.next(); d.z() = op.next(); d.normalize(); return d; }
    V3 pos(double t) { return v * t + amp * std::sin(om * t); }
    V3 vel(double t) { return v + amp * om * std::cos(om * t); }
    V3 acc(double t) { return -amp * om * om * std::sin(om * t); }
    Qd rot(double t) { V3 a = w * t; double n = a.norm(); return n < 1e-12 ? q0 : q0 * Qd(Eigen::AngleAxisd(n, a / n)); }

    void mat(const std::string &f, const std::vector<std::vector<double>> &m) {
        FILE *o = fopen(f.c_str(), "w");
        for (auto &r : m) { for (double x : r) fprintf(o, "%.9g ", x); fprintf(o, "\n"); }
        fclose(o);
    }
    void configure(Backend &bk, const V3 &a, const V3 &gy, const char *name) {
        std::string d = std::string("cfg_") + name + std::to_string(getpid());
        mkdir(d.c_str(), 0700);
        std::vector<std::string> files;
        auto put = [&](const std::string &n, const std::vector<std::vector<double>> &m) { files.push_back(d + "/" + n + ".txt"); mat(files.back(), m); };
        put("imu_frequence", {{freq}});
        put("imu_na_ng_nwa_nwg", {{1e-3 * noise, 1e-4 * noise, 1e-5 * noise, 1e-6 * noise}});
        put("imu_bias_a_g_init", {{a(0), a(1), a(2)}, {gy(0), gy(1), gy(2)}});
        put("gravity_norm", {{g}});
        put("window_size", {{(double)win}});
        put("vision_measure_noise", {{1e-3 * noise}});
        put("keyframe_policy", {{(double)minTracked, 0.2, maxTrans}});
        for (size_t i = 0; i < ext.size(); ++i) {
            Eigen::Matrix3d R = ext[i].q.toRotationMatrix();
            std::vector<std::vector<double>> m;
            for (int r = 0; r < 3; ++r) m.push_back({R(r, 0), R(r, 1), R(r, 2), ext[i].p(r)});
            m.push_back({0, 0, 0, 1});
            put("T_bc" + std::to_string(i), m);
        }
        bk.ConfigParams(d);
        for (auto &f : files) unlink(f.c_str());
        rmdir(d.c_str());
    }
    void start() {
        if (started) return;
        started = true;
        period = 1.0 / freq;
        configure(b, ba, bg, "a");
        if (twin) configure(tw, V3::Zero(), V3::Zero(), "b");
    }
    long us(double t) { return H::scaled(t - shift, 1e6); }
    static void put(std::vector<long> &o, const V3 &x, double s) { for (int i = 0; i < 3; ++i) o.push_back(H::scaled(x(i), s)); }
    static V3 rotErr(const Qd &est, const Qd &tru) { Qd d = est.conjugate() * tru; return d.w() < 0 ? V3(-2 * d.vec()) : V3(2 * d.vec()); }
    static long mx(const V3 &x, double s) { return !x.allFinite() ? H::NANV : H::scaled(x.cwiseAbs().maxCoeff(), s); }
    // largest deviation of position, velocity, orientation from the truth at t (1e-6)
    std::vector<long> err(const Vector3 &p, const Vector3 &vv, const Quaternion &q, double t) {
        std::vector<long> o;
        Qd e = q.cast<double>();
        o.push_back(mx(p.cast<double>() - A * (pos(t) - origin), 1e6));
        o.push_back(mx(vv.cast<double>() - A * vel(t), 1e6));
        o.push_back(mx(rotErr(e.normalized(), A * rot(t)), 1e6));
        o.push_back(H::scaled(std::fabs(e.norm() - 1), 1e7));
        return o;
    }
    std::shared_ptr<IMUMessage> imuMsg(double t, const V3 &a, const V3 &gy) { return std::shared_ptr<IMUMessage>(new IMUMessage(gy.cast<float>(), a.cast<float>(), t)); }
    Img *imgAt(long u) { for (auto &i : imgs) if (std::labs(i.us - u) <= 1) return &i; return nullptr; }

    std::string step() {
        H::Obj o;
        std::shared_ptr<CombinedMessage> m;
        DataLoader copy = b.dataloader;
        bool any = copy.PopOneMessage(m);
        long iu = -1, fu = 0, ft = -1;
        if (any) {
            bool hi = m->imuMeas.size() > 0 && m->imuMeas.front() != nullptr, hf = m->featMeas != nullptr;
            if (!haveShift) {
                haveShift = true;
                shift = hi ? m->imuMeas.front()->timeStamp - firstImu * 1e-6 : m->featMeas->timeStamp - firstImg * 1e-6;
            }
            if (hi) iu = us(m->imuMeas.front()->timeStamp);
            if (hf) { ft = us(m->featMeas->timeStamp); Img *i = imgAt(ft); fu = i ? i->uid : -1; }
        }
        Status st0 = b.status;
        std::vector<std::pair<double, Quaternion>> atts;
        double t1 = b.frameManager.frames.empty() ? NAN : b.frameManager.frames.front()->timeStamp;
        for (auto &i : b.attitudeEstimator.items) atts.push_back({i->timeStamp, i->q_wb});
        ++steps;
        std::srand(steps);
        bool ret = b.RunOnce();
        if (!b.attitudeEstimator.items.empty() && iu >= 0) { auto &i = b.attitudeEstimator.items.back(); if (atts.empty() || i->timeStamp > atts.back().first) atts.push_back({i->timeStamp, i->q_wb}); }
        if (twin) { std::srand(steps); tw.RunOnce(); }
        o.b("ret", ret).i("imu", iu).i("img", fu).i("t", ft);
        o.str("st", b.status == NEED_INIT ? "need" : b.status == INITIALIZED ? "init" : "other");
        auto &it = b.propagator.items;
        o.i("n", it.size()).i("first", it.empty() ? -1 : us(it.front()->timeStamp)).i("last", it.empty() ? -1 : us(it.back()->timeStamp));
        std::vector<long> times;
        if (fu) for (auto &i : it) times.push_back(us(i->timeStamp));
        o.raw("times", H::arr(times));
        // the attitude history; samples not held as they were sent or out of order
        auto &hist = b.attitudeEstimator.items;
        long altered = 0;
        auto same = [&](long u, const Vector3 &a, const Vector3 &gy) { for (long k = u - 1; k <= u + 1; ++k) if (raw.count(k)) return raw[k].first == a && raw[k].second == gy; return false; };
        for (size_t i = 0; i < hist.size(); ++i) if (!same(us(hist[i]->timeStamp), hist[i]->accel, hist[i]->gyro) || (i && hist[i]->timeStamp <= hist[i - 1]->timeStamp)) ++altered;
        if (b.status == INITIALIZED) for (size_t i = 0; i < it.size(); ++i) if (!same(us(it[i]->timeStamp), it[i]->accel, it[i]->gyro) || (i && it[i]->timeStamp <= it[i - 1]->timeStamp)) ++altered;
        std::vector<long> ht;
        if (fu) for (auto &i : hist) ht.push_back(us(i->timeStamp));
        o.raw("att", H::Obj().i("n", hist.size()).i("first", hist.empty() ? -1 : us(hist.front()->timeStamp)).i("last", hist.empty() ? -1 : us(hist.back()->timeStamp))
            .raw("times", H::arr(ht)).i("altered", altered).end());
        if (st0 == NEED_INIT && b.status == INITIALIZED) {
            anchored = true;
            auto &s = b.propagator.initState;
            double t = t1 - shift, t2 = ft * 1e-6;
            origin = pos(t);
            A = s.q_wb.cast<double>().normalized() * rot(t).conjugate();
            V3 mean = A * ((pos(t2) - pos(t)) / (t2 - t));
            V3 up = A * V3(0, 0, 1);
            std::vector<std::string> near;
            auto qs = [](const Quaternion &q) { std::vector<long> r; float s = q.w() < 0 ? -1 : 1; for (float c : {q.w(), q.x(), q.y(), q.z()}) r.push_back(H::scaled(s * c, 1e6)); return r; };
            for (auto &a : atts) if (std::fabs(a.first - t1) < 1.2 * period) {
                std::vector<long> r = qs(a.second);
                r.insert(r.begin(), us(a.first));
                near.push_back(H::arr(r));
            }
            o.raw("start", H::Obj().i("t1", us(t1)).i("p", mx(s.p_wb.cast<double>(), 1e6)).i("v", mx(s.v_wb.cast<double>() - mean, 1e6))
                .i("tilt", mx(V3(up.x(), up.y(), 0), 1e6)).raw("q", H::arr(qs(s.q_wb))).raw("near", H::arrS(near)).end());
        } else o.raw("start", "{}");
        IMUFullState s; double t = 0;
        std::vector<std::string> pub;
        for (int k = 0; k < 2; ++k) {
            bool okp = k ? b.PublishUpdateState(s, t) : b.PublishPropagateState(s, t);
            H::Obj p;
            p.b("ok", okp).i("t", okp ? us(t) : -1);
            p.raw("err", H::arr(okp && anchored ? err(s.p_wb, s.v_wb, s.q_wb, t - shift) : std::vector<long>()));
            if (okp && !it.empty()) {       // against the buffered state it should be
                auto &n = k ? it.front()->nominalState : it.back()->nominalState;
                p.i("own", std::max({mx((s.p_wb - n.p_wb).cast<double>(), 1e6), mx((s.v_wb - n.v_wb).cast<double>(), 1e6), mx((s.q_wb.coeffs() - n.q_wb.coeffs()).head<3>().cast<double>(), 1e6)}));
            } else p.i("own", 0);
            p.i("bias", okp ? std::max(mx((s.bias_a - b.propagator.bias_a).cast<double>(), 1e6), mx((s.bias_g - b.propagator.bias_g).cast<double>(), 1e6)) : 0);
            p.i("berr", okp ? std::max(mx(s.bias_a.cast<double>() - ba, 1e6), mx(s.bias_g.cast<double>() - bg, 1e6)) : 0);
            pub.push_back(p.end());
        }
        o.raw("prop", pub[0]).raw("upd", pub[1]);
        o.i("bdiff", std::max(mx((b.attitudeEstimator.bias_a - b.propagator.bias_a).cast<double>(), 1e6), mx((b.attitudeEstimator.bias_g - b.propagator.bias_g).cast<double>(), 1e6)));
        if (twin) {
            long d = 0, da = 0, db = 0;
            if (tw.propagator.items.size() == it.size() && tw.status == b.status && tw.attitudeEstimator.items.size() == b.attitudeEstimator.items.size()) {
                for (size_t i = 0; i < it.size(); ++i) {
                    auto &x = it[i]->nominalState, &y = tw.propagator.items[i]->nominalState;
                    d = std::max({d, mx((x.p_wb - y.p_wb).cast<double>(), 1e6), mx((x.v_wb - y.v_wb).cast<double>(), 1e6), mx(rotErr(x.q_wb.cast<double>(), y.q_wb.cast<double>()), 1e6)});
                }
                if (!b.attitudeEstimator.items.empty()) da = mx(rotErr(b.attitudeEstimator.items.back()->q_wb.cast<double>(), tw.attitudeEstimator.items.back()->q_wb.cast<double>()), 1e6);
                db = std::max(mx((b.propagator.bias_a - tw.propagator.bias_a).cast<double>() - ba, 1e6), mx((b.propagator.bias_g - tw.propagator.bias_g).cast<double>() - bg, 1e6));
                o.raw("twin", H::Obj().b("same", true).i("d", d).i("a", da).i("b", db).end());
            } else o.raw("twin", H::Obj().b("same", false).i("d", 0).i("a", 0).i("b", 0).end());
        } else o.raw("twin", "{}");
        // covariance of every buffered state
        long lo = it.empty() ? 0 : it.front()->imuExCamCov.cols(), hi = lo;
        bool fin = true; double asym = 0, neg = 0;
        auto judge = [&](const Matrix &P) {
            if (!P.allFinite()) { fin = false; return; }
            double top = P.rows() ? (double)P.diagonal().cwiseAbs().maxCoeff() : 0;
            if (top <= 0) top = 1e-30;
            for (int i = 0; i < P.rows(); ++i) {
                neg = std::min(neg, P(i, i) / top);
                for (int j = 0; j < i; ++j) asym = std::max(asym, std::fabs((double)P(i, j) - P(j, i)) / std::max(1e-30, std::sqrt(std::fabs((double)P(i, i) * P(j, j))) + 1e-4 * top));
            }
        };
        for (auto &i : it) { lo = std::min<long>(lo, i->imuExCamCov.cols()); hi = std::max<long>(hi, i->imuExCamCov.cols()); judge(i->imuCov); if (!i->imuExCamCov.allFinite()) fin = false; }
        judge(b.propagator.exCamCov);
        o.raw("cov", H::Obj().i("lo", lo).i("hi", hi).i("rows", b.propagator.exCamCov.rows()).i("cols", b.propagator.exCamCov.cols())
            .b("fin", fin).i("asym", H::scaled(asym, 1e6)).i("neg", H::scaled(-neg, 1e6)).end());
        if (fu) {
            std::vector<std::string> fr, fe;
            std::vector<long> uids;
            long badNorm = 0, badPose = 0;
            for (auto &f : b.frameManager.frames) {
                Img *im = imgAt(us(f->timeStamp));
                uids.push_back(im ? im->uid : -1);
                std::vector<long> ids;
                for (auto &k : f->features) ids.push_back(k.first);
                std::sort(ids.begin(), ids.end());
                fr.push_back(H::arr(ids));
                if (im) for (auto &k : f->features) for (U c = 0; c < ext.size() + 1; ++c) {
                    Vector2 n(777, 777);
                    bool has = k.second->GetNorm(f->id, c, n);
                    bool should = im->norms.count(k.first) && im->norms[k.first].count(c);
                    if (has != should || (has && n != im->norms[k.first][c])) ++badNorm;
                }
                if (!f->p_wb.allFinite() || std::fabs(f->q_wb.norm() - 1) > 1e-4) ++badPose;
            }
            std::vector<std::pair<long, long>> fs;
            for (auto &k : b.featureManager.features) fs.push_back({k.first, k.second->observeNum});
            std::sort(fs.begin(), fs.end());
            for (auto &p : fs) fe.push_back(H::arr({p.first, p.second}));
            auto pl = b.visionUpdator.margPolicy;
            Img *im = imgAt(ft);
            o.raw("win", H::Obj().raw("uids", H::arr(uids)).raw("frames", H::arrS(fr)).raw("feats", H::arrS(fe)).i("badNorm", badNorm).i("badPose", badPose)
                .str("policy", pl == NO_MARG ? "none" : pl == MARG_OLDEST ? "oldest" : pl == MARG_SUBNEW ? "subnew" : "other").end());
            o.raw("ent", H::arrS(im ? im->ent : std::vector<std::string>()));
        }
        return o.end();
    }

    std::string run(const H::Op &op) {
        if (op.name == "cfg") {     // window size, keyframe thresholds (number; 1/4 m), frequency, biases (1/128), twin?
            win = op.next(); minTracked = op.next(); maxTrans = op.next() / 4.0; freq = op.next();
            ba = vec(op, 1 / 128.0); bg = vec(op, 1 / 1024.0); twin = op.next();
            return "{}";
        } else if (op.name == "origin") {   // stride and first of the features' numbers, seconds
            stride = op.next(); first = op.next(); base = op.next();
            return "{}";
        } else if (op.name == "traj") {     // orientation, velocity (1/16), rate (1/32), sway (1/64) and its frequency (1/8 rad/s), noises (1e-4)
            q0 = quat(op); v = vec(op, 1 / 16.0); w = vec(op, 1 / 32.0); amp = vec(op, 1 / 64.0); om = op.next() / 8.0;
            imuNoise = op.next() * 1e-4; visNoise = op.next() * 1e-4;
            return "{}";
        } else if (op.name == "ext") {
            long n = op.next();
            for (long i = 0; i < n; ++i) { ExtD e; e.p = vec(op, 1 / 16.0); e.q = quat(op); ext.push_back(e); }
            return "{}";
        } else if (op.name == "pts") {
            long n = op.next();
            for (long i = 0; i < n; ++i) pts.push_back(vec(op, 1 / 8.0));
            return "{}";
        } else if (op.name == "imu") {      // time (us), disturbed by this factor (percent)
            start();
            long u = op.next(), k = op.next();
            if (!haveImu) { haveImu = true; firstImu = u; }
            double t = u * 1e-6;
            V3 a = rot(t).conjugate() * (acc(t) + V3(0, 0, g)) * (1 + k / 100.0), gy = w;
            for (int i = 0; i < 3; ++i) { a(i) += imuNoise * rand1(); gy(i) += imuNoise * 0.1 * rand1(); }
            auto msg = imuMsg(base + t, a + ba, gy + bg);
            raw[u] = {msg->accel, msg->gyro};
            b.GetIMUMessage(msg);
            if (twin) tw.GetIMUMessage(imuMsg(base + t, a, gy));
            double dev = std::fabs(a.norm() - g);
            return H::Obj().b("ok", dev < 0.04).b("sure", std::fabs(dev - 0.04) > 1e-3).end();
        } else if (op.name == "img") {      // time (us), then (feature, camera mask)*
            start();
            Img im; im.us = op.next(); im.uid = imgs.size() + 1;
            if (!haveImg) { haveImg = true; firstImg = im.us; }
            double t = im.us * 1e-6;
            std::vector<U> ids; std::vector<std::shared_ptr<FeatureObserve>> obs, obs2;
            bool sure = true;
            while (op.more()) {
                long f = op.next(), mask = op.next();
                std::unordered_map<U, Vector2> norms;
                bool front = true;
                std::vector<long> cams;
                for (size_t c = 0; c < ext.size(); ++c) if (mask >> c & 1) {
                    V3 pc = ext[c].q.conjugate() * (rot(t).conjugate() * (pts[f] - pos(t)) - ext[c].p);
                    if (pc.z() < 0.3) { front = false; if (pc.z() > -0.3) sure = false; }
                    norms[c] = Vector2(pc.x() / pc.z() + visNoise * rand1(), pc.y() / pc.z() + visNoise * rand1());
                    cams.push_back(c);
                }
                ids.push_back(id(f));
                obs.emplace_back(new FeatureObserve(norms));
                obs2.emplace_back(new FeatureObserve(norms));
                if (norms.size() && !im.norms.count(id(f))) {
                    for (auto &n : norms) im.norms[id(f)][n.first] = n.second;
                    im.ent.push_back("[" + std::to_string(id(f)) + "," + H::arr(cams) + "," + (front ? "true" : "false") + "]");
                }
            }
            imgs.push_back(im);
            std::vector<ESKF_VIO_BACKEND::uint8_t> flag(ids.size(), 1);
            b.GetFeaturesMessage(std::shared_ptr<FeaturesMessage>(new FeaturesMessage(ids, obs, flag, base + t)));
            if (twin) tw.GetFeaturesMessage(std::shared_ptr<FeaturesMessage>(new FeaturesMessage(ids, obs2, flag, base + t)));
            return H::Obj().b("sure", sure).end();
        } else if (op.name == "run") {
            start();
            return step();
        } else if (op.name == "reset") {
            start();
            b.Reset();
            if (twin) tw.Reset();
            return H::Obj().str("st", b.status == NEED_INIT ? "need" : "init").end();
        }
        fprintf(stderr, "unknown op %s\n", op.name.c_str());
        _exit(99);
    }
};

#ifndef NO_MAIN
int main(int argc, char **argv) {
    return H::runAll(argc, argv, [] { auto s = std::make_shared<Sys>(); return [s](const H::Op &op) { return s->run(op); }; }, 60000);
}
#endif
