// Drives the real Configurator and Backend::ConfigParams on generated configuration directories (below the working directory).
#include "common.hpp"
#include <backend.hpp>
#include <sys/stat.h>
using namespace ESKF_VIO_BACKEND;

struct Cfg {
    std::string dir;
    std::vector<std::shared_ptr<Backend>> be;
    Cfg() {
        char t[] = "cfgXXXXXX";
        char *d = mkdtemp(t);
        if (!d) _exit(99);
        dir = d;
        for (int i = 0; i < 2; ++i) be.emplace_back(new Backend());
    }
    std::string path(long i) {
        static const char *n[] = {"imu_frequence", "imu_na_ng_nwa_nwg", "imu_bias_a_g_init", "gravity_norm", "window_size", "vision_measure_noise", "keyframe_policy"};
        return dir + "/" + (i < 7 ? std::string(n[i]) : "T_bc" + std::to_string(i - 7)) + ".txt";
    }
    static long v(double x) { return H::scaled(x, 16000); }
    static std::string list(const std::vector<double> &x) { std::vector<long> l; for (double y : x) l.push_back(v(y)); return H::arr(l); }
    static std::string cam(const Vector3 &p, const Quaternion &q) {
        std::vector<long> l;
        for (int i = 0; i < 3; ++i) l.push_back(v(p(i)));
        Matrix33 R = q.toRotationMatrix();
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) l.push_back(H::scaled(R(i, j), 1000));
        return H::arr(l);
    }
    static std::vector<double> six(const Vector3 &a, const Vector3 &g) { return {a.x(), a.y(), a.z(), g.x(), g.y(), g.z()}; }
    std::string look(bool ret) {
        auto &c = *Configurator::GetInstance();
        std::vector<std::string> cams;
        for (size_t i = 0; i < c.vision.default_p_bc.size() && i < c.vision.default_q_bc.size(); ++i) cams.push_back(cam(c.vision.default_p_bc[i], c.vision.default_q_bc[i]));
        if (c.vision.default_p_bc.size() != c.vision.default_q_bc.size()) cams.push_back("[]");
        return H::Obj().b("ret", ret).raw("freq", H::arr({H::scaled(c.imu.period, 1e8)}))
            .raw("noise", list({c.imu.sigmaBiasAccel, c.imu.sigmaBiasGyro, c.imu.sigmaBiasAccelRandomWalk, c.imu.sigmaBiasGyroRandomWalk}))
            .raw("bias", list(six(c.imu.defaultBiasAccel, c.imu.defaultBiasGyro))).raw("grav", list({c.imu.gravityNorm}))
            .raw("win", list({(double)c.vision.maxFrameNum})).raw("sigma", list({c.vision.sigmaVision}))
            .raw("key", list({(double)c.vision.minKeyframeTrackedFeatureNum, c.vision.minKeyframeMeanParallax, c.vision.maxKeyframeTranslation}))
            .raw("cam", H::arrS(cams)).i("ncam", c.vision.maxCameraNum).end();
    }
    std::string run(const H::Op &op) {
        if (op.name == "file") {            // which, tokens
            std::ofstream f(path(op.next()));
            bool first = true;
            long n = 0;
            while (op.more()) {
                long x = op.next();
                if (x == 1000000001) { f << (n % 3 == 2 ? " \n" : "\n"); first = true; ++n; continue; }
                if (!first) f << (n % 2 ? "\t" : "  ");
                first = false; ++n;
                if (x == 1000000000) f << "abc";
                else { char b[64]; snprintf(b, sizeof b, n % 4 == 3 ? "%.10e" : "%.6f", x / 16.0); f << b; }
            }
            return "{}";
        } else if (op.name == "rm") {
            std::remove(path(op.next()).c_str());
            return "{}";
        } else if (op.name == "look") {
            return look(true);
        } else if (op.name == "read") {
            bool r = Configurator::GetInstance()->ReadConfigParams(dir);
            return look(r);
        } else if (op.name == "setup") {    // which estimator
            Backend &b = *be[op.next()];
            bool r = b.ConfigParams(dir);
            auto d = b.propagator.Q.diagonal();
            std::vector<double> n;
            bool qd = b.propagator.Q.isDiagonal(0);
            for (int k = 0; k < 4; ++k) { n.push_back(d(3 * k)); qd = qd && d(3 * k) == d(3 * k + 1) && d(3 * k) == d(3 * k + 2); }
            std::vector<std::string> cams;
            for (auto &e : b.frameManager.extrinsics) cams.push_back(cam(e.p_bc, e.q_bc));
            auto &g = IMUFullState::gravity_w;
            return H::Obj().b("ret", r).raw("freq", H::arr({H::scaled(b.dataloader.imuPeriod, 1e8)})).raw("noise", list(n)).b("qdiag", qd)
                .raw("bias", list(six(b.propagator.bias_a, b.propagator.bias_g))).raw("abias", list(six(b.attitudeEstimator.bias_a, b.attitudeEstimator.bias_g)))
                .raw("grav", list({g.x(), g.y(), g.z()})).raw("sigma", list({b.visionUpdator.measureNoise})).i("win", v(b.frameManager.maxWindowSize))
                .raw("key", list({(double)b.frameManager.minKeyframeTrackedFeatureNum, b.frameManager.minKeyframeMeanParallax, b.frameManager.maxKeyframeTranslation}))
                .raw("cam", H::arrS(cams)).end();
        }
        _exit(99);
    }
};
int main(int argc, char **argv) {
    return H::runAll(argc, argv, [] { auto r = std::make_shared<Cfg>(); return [r](const H::Op &op) { return r->run(op); }; });
}
