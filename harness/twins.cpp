// Several real Backends in one process, each fed with its own selection and schedule of the same motion's messages.
#define NO_MAIN
#include "system.cpp"

struct Inst {
    Backend b;
    double shift = 0; bool have = false; long firstImu = -1, firstImg = -1;
    long us(double t) const { return H::scaled(t - shift, 1e6); }
};
struct Twins {
    Sys w;      // the motion, the points and the configuration; its own estimator is not used
    std::vector<std::unique_ptr<Inst>> in;
    // noise that depends on the message only
    V3 noise(long u, long salt, double s) { w.rnd = (unsigned long)u * 2654435761UL + salt * 97; w.rand1(); w.rand1(); V3 v; for (int i = 0; i < 3; ++i) v(i) = s * w.rand1(); return v; }

    std::string run(const H::Op &op) {
        if (op.name == "new") {      // 0: configured as given; 1: otherwise
            in.emplace_back(new Inst);
            int win = w.win; long mt = w.minTracked; double mx = w.maxTrans, fr = w.freq; auto ext = w.ext;
            V3 ba = w.ba, bg = w.bg;
            if (op.next()) {
                w.win += 2; w.minTracked = mt ? 0 : 1000; w.maxTrans = 1; w.freq *= 2; w.noise = 5;
                for (auto &e : w.ext) { e.p += V3(0.1, -0.05, 0.02); e.q = e.q * Qd(Eigen::AngleAxisd(0.05, V3(0, 0.6, 0.8))); }
                ba = ba * 0.5 + V3(0.01, 0.02, 0); bg = bg * 2 + V3(0, 0.001, 0);
            }
            w.configure(in.back()->b, ba, bg, "t");
            w.win = win; w.minTracked = mt; w.maxTrans = mx; w.freq = fr; w.ext = ext; w.noise = 1;
            w.period = 1.0 / w.freq;
            return "{}";
        } else if (op.name == "imu") {      // instance, time (us), disturbed by percent
            Inst &x = *in.at(op.next());
            long u = op.next(), k = op.next();
            if (x.firstImu < 0) x.firstImu = u;
            double t = u * 1e-6;
            V3 a = w.rot(t).conjugate() * (w.acc(t) + V3(0, 0, w.g)) * (1 + k / 100.0) + noise(u, 1, w.imuNoise), gy = w.w + noise(u, 2, w.imuNoise * 0.1);
            x.b.GetIMUMessage(w.imuMsg(w.base + t, a + w.ba, gy + w.bg));
            return "{}";
        } else if (op.name == "img") {      // instance, time (us), (feature, camera mask)*
            Inst &x = *in.at(op.next());
            long u = op.next();
            if (x.firstImg < 0) x.firstImg = u;
            double t = u * 1e-6;
            std::vector<U> ids; std::vector<std::shared_ptr<FeatureObserve>> obs;
            while (op.more()) {
                long f = op.next(), mask = op.next();
                std::unordered_map<U, Vector2> norms;
                for (size_t c = 0; c < w.ext.size(); ++c) if (mask >> c & 1) {
                    V3 pc = w.ext[c].q.conjugate() * (w.rot(t).conjugate() * (w.pts[f] - w.pos(t)) - w.ext[c].p), n = noise(u, 10 + f * 8 + c, w.visNoise);
                    norms[c] = Vector2(pc.x() / pc.z() + n(0), pc.y() / pc.z() + n(1));
                }
                ids.push_back(w.id(f));
                obs.emplace_back(new FeatureObserve(norms));
            }
            std::vector<ESKF_VIO_BACKEND::uint8_t> flag(ids.size(), 1);
            x.b.GetFeaturesMessage(std::shared_ptr<FeaturesMessage>(new FeaturesMessage(ids, obs, flag, w.base + t)));
            return "{}";
        } else if (op.name == "step") {     // instance
            Inst &x = *in.at(op.next());
            DataLoader copy = x.b.dataloader;
            std::shared_ptr<CombinedMessage> m;
            long iu = -1, ft = -1;
            if (copy.PopOneMessage(m)) {
                bool hi = m->imuMeas.size() > 0 && m->imuMeas.front() != nullptr, hf = m->featMeas != nullptr;
                if (!x.have) { x.have = true; x.shift = hi ? m->imuMeas.front()->timeStamp - x.firstImu * 1e-6 : m->featMeas->timeStamp - x.firstImg * 1e-6; }
                if (hi) iu = x.us(m->imuMeas.front()->timeStamp);
                if (hf) ft = x.us(m->featMeas->timeStamp);
            }
            std::srand(ft >= 0 ? ft : iu);
            x.b.RunOnce();
            return H::Obj().i("imu", iu).i("img", ft).str("st", x.b.status == NEED_INIT ? "need" : x.b.status == INITIALIZED ? "init" : "other").end();
        } else if (op.name == "reset") {
            in.at(op.next())->b.Reset();
            return "{}";
        } else if (op.name == "cmp") {      // two instances
            Inst &x = *in.at(op.next()), &y = *in.at(op.next());
            H::Obj o;
            auto &p = x.b.propagator, &q = y.b.propagator;
            std::vector<long> wx, wy, fx, fy;
            for (auto &f : x.b.frameManager.frames) { wx.push_back(x.us(f->timeStamp)); fx.push_back(f->features.size()); }
            for (auto &f : y.b.frameManager.frames) { wy.push_back(y.us(f->timeStamp)); fy.push_back(f->features.size()); }
            o.b("st", x.b.status == y.b.status).b("init", x.b.status == INITIALIZED);
            o.b("win", wx == wy && fx == fy && x.b.featureManager.features.size() == y.b.featureManager.features.size());
            bool same = true; double d = 0, c = 0, att = 0, bias = 0;
            auto rel = [&](const Matrix &a, const Matrix &b) {
                if (a.rows() != b.rows() || a.cols() != b.cols()) { same = false; return; }
                if (!a.size()) return;
                double top = std::max<double>(1e-12, std::max(a.cwiseAbs().maxCoeff(), b.cwiseAbs().maxCoeff()));
                double v = (a - b).cwiseAbs().maxCoeff() / top;
                c = std::max(c, std::isfinite(v) ? v : 1e9);
            };
            auto far = [](double v) { return std::isfinite(v) ? v : 1e9; };
            if (x.b.status == INITIALIZED && y.b.status == INITIALIZED) {
                if (p.items.size() != q.items.size()) same = false;
                else for (size_t i = 0; i < p.items.size(); ++i) {
                    auto &a = *p.items[i], &b = *q.items[i];
                    if (std::labs(x.us(a.timeStamp) - y.us(b.timeStamp)) > 1) same = false;
                    d = std::max({d, far((a.nominalState.p_wb - b.nominalState.p_wb).norm()), far((a.nominalState.v_wb - b.nominalState.v_wb).norm()),
                                  far(Sys::rotErr(a.nominalState.q_wb.cast<double>(), b.nominalState.q_wb.cast<double>()).norm())});
                    rel(a.imuCov, b.imuCov); rel(a.imuExCamCov, b.imuExCamCov);
                }
                rel(p.exCamCov, q.exCamCov);
                if (wx.size() == wy.size()) for (size_t i = 0; i < wx.size(); ++i) {
                    auto &a = *x.b.frameManager.frames[i], &b = *y.b.frameManager.frames[i];
                    d = std::max({d, far((a.p_wb - b.p_wb).norm()), far(Sys::rotErr(a.q_wb.cast<double>(), b.q_wb.cast<double>()).norm())});
                }
                for (size_t i = 0; i < x.b.frameManager.extrinsics.size() && i < y.b.frameManager.extrinsics.size(); ++i) {
                    auto &a = x.b.frameManager.extrinsics[i], &b = y.b.frameManager.extrinsics[i];
                    d = std::max({d, far((a.p_bc - b.p_bc).norm()), far(Sys::rotErr(a.q_bc.cast<double>(), b.q_bc.cast<double>()).norm())});
                }
                bias = std::max(far((p.bias_a - q.bias_a).norm()), far((p.bias_g - q.bias_g).norm()));
            }
            auto &g = x.b.attitudeEstimator.items, &h = y.b.attitudeEstimator.items;
            if (g.size() != h.size()) same = false;
            else for (size_t i = 0; i < g.size(); ++i) {
                if (std::labs(x.us(g[i]->timeStamp) - y.us(h[i]->timeStamp)) > 1) same = false;
                att = std::max(att, far(Sys::rotErr(g[i]->q_wb.cast<double>(), h[i]->q_wb.cast<double>()).norm()));
            }
            return o.b("buf", same).i("d", H::scaled(d, 1e6)).i("cov", H::scaled(c, 1e6)).i("bias", H::scaled(bias, 1e6)).i("att", H::scaled(att, 1e6)).end();
        }
        return w.run(op);
    }
};

int main(int argc, char **argv) {
    return H::runAll(argc, argv, [] { auto s = std::make_shared<Twins>(); return [s](const H::Op &op) { return s->run(op); }; }, 60000);
}
