// Drives the real Trianglator and PnPSolver on lattice scenes (unit 1/4 m, orientations as integer quaternions).
#include "common.hpp"
#include <trianglation.hpp>
#include <perspective_n_point.hpp>
using namespace ESKF_VIO_BACKEND;
using D3 = Eigen::Vector3d;
using DQ = Eigen::Quaterniond;

struct Rnd {      // own generator: std::rand belongs to the code under test
    unsigned long s;
    double operator()() { s = s * 6364136223846793005UL + 1442695040888963407UL; return ((s >> 33) & 0xffffff) / double(0x800000) - 1; }
};

struct Geo {
    Trianglator tri;
    PnPSolver pnp;
    std::vector<DQ> qs;
    std::vector<D3> cs;
    std::vector<D3> pts;
    static D3 lat(const H::Op &op, double unit = 0.25) { D3 v; for (int i = 0; i < 3; ++i) v(i) = op.next() * unit; return v; }
    static DQ quat(const H::Op &op) { double w = op.next(), x = op.next(), y = op.next(), z = op.next(); return DQ(w, x, y, z).normalized(); }
    static Eigen::Vector2d img(const DQ &q, const D3 &c, const D3 &P) { D3 p = q.conjugate() * (P - c); return Eigen::Vector2d(p.x() / p.z(), p.y() / p.z()); }
    void views(std::vector<Quaternion> &q, std::vector<Vector3> &c) {
        for (auto &x : qs) q.push_back(x.cast<Scalar>());
        for (auto &x : cs) c.push_back(x.cast<Scalar>());
    }
    static double ang(const DQ &a, const DQ &b) { DQ d = a.normalized().conjugate() * b.normalized(); return 2 * std::atan2(d.vec().norm(), std::fabs(d.w())); }
    std::string run(const H::Op &op) {
        if (op.name == "views") {
            qs.clear(); cs.clear();
            while (op.more()) { qs.push_back(quat(op)); cs.push_back(lat(op)); }
            return "{}";
        } else if (op.name == "tri") {          // P
            D3 P = lat(op);
            std::vector<Quaternion> q; std::vector<Vector3> c; std::vector<Vector2> n;
            views(q, c);
            double dist = 0;
            for (size_t i = 0; i < qs.size(); ++i) { n.push_back(img(qs[i], cs[i], P).cast<Scalar>()); dist = std::max(dist, (P - cs[i]).norm()); }
            Vector3 p(7e3, 7e3, 7e3);
            bool r = tri.TrianglateAnalytic(q, c, n, p);
            double e = (p.cast<double>() - P).norm();
            return H::Obj().b("ret", r).i("err", H::scaled(e, 1e5)).i("rel", H::scaled(e / std::max(dist, 1e-3), 1e6)).end();
        } else if (op.name == "iter") {         // P, start [1/64], noise [1e-5], seed
            D3 P = lat(op), S = lat(op, 1 / 64.0);
            double noise = op.next() * 1e-5;
            Rnd rnd{(unsigned long)op.next() + 12345};
            std::vector<Quaternion> q; std::vector<Vector3> c; std::vector<Vector2> n;
            views(q, c);
            for (size_t i = 0; i < qs.size(); ++i) {
                Eigen::Vector2d m = img(qs[i], cs[i], P);
                m.x() += noise * rnd(); m.y() += noise * rnd();
                n.push_back(m.cast<Scalar>());
            }
            auto cost = [&](const Vector3 &p) {
                double s = 0;
                for (size_t i = 0; i < q.size(); ++i) s += (img(q[i].cast<double>(), c[i].cast<double>(), p.cast<double>()) - n[i].cast<double>()).squaredNorm();
                return s;
            };
            Vector3 p = S.cast<Scalar>();
            double c0 = cost(p);
            bool r = tri.TrianglateIterative(q, c, n, p);
            double c1 = cost(p), cT = cost(P.cast<Scalar>());
            double e = (p.cast<double>() - P).norm();
            return H::Obj().b("ret", r).i("rise", H::scaled(c1 / std::max(c0, 1e-9), 1e6)).i("truth", H::scaled(c1 / std::max(cT, 1e-9), 1e6))
                .i("c0", H::scaled(c0, 1e8)).i("c1", H::scaled(c1, 1e8)).i("err", H::scaled(e, 1e5)).i("rel", H::scaled(e / P.norm(), 1e6)).end();
        } else if (op.name == "points") {
            pts.clear();
            while (op.more()) pts.push_back(lat(op));
            return "{}";
        } else if (op.name == "param") {        // sampling: squared residual [1e-5], samples, share [1e-3]
            pnp.ransacParam.inlierThres = op.next() * 1e-5;
            pnp.ransacParam.maxIterateTimes = op.next();
            pnp.ransacParam.inlierRateThres = op.next() * 1e-3;
            return "{}";
        } else if (op.name == "solve") {        // variant, q, c, start offset [1e-4 m, 1e-4 rad], noise [1e-5], seed, extra measurements, then (point, dx, dy [1e-3])
            long var = op.next();
            DQ q = quat(op); D3 c = lat(op);
            D3 dp = lat(op, 1e-4), dt = lat(op, 1e-4);
            double noise = op.next() * 1e-5;
            long seed = op.next(), extra = op.next();
            Rnd rnd{(unsigned long)seed + 999};
            std::vector<Vector3> P3; std::vector<Vector2> P2;
            for (auto &P : pts) {
                P3.push_back(P.cast<Scalar>());
                Eigen::Vector2d m = img(q, c, P);
                m.x() += noise * rnd(); m.y() += noise * rnd();
                P2.push_back(m.cast<Scalar>());
            }
            while (op.more()) { long i = op.next(); double x = op.next() * 1e-3, y = op.next() * 1e-3; P2[i] += Vector2(x, y); }
            for (; extra > 0; --extra) P2.push_back(Vector2(0.1, 0.2));
            for (; extra < 0; ++extra) P2.pop_back();
            DQ qs0 = (q * DQ(Eigen::AngleAxisd(dt.norm(), dt.norm() > 0 ? D3(dt.normalized()) : D3(1, 0, 0)))).normalized();
            Quaternion Q0 = qs0.cast<Scalar>(), Q = Q0;
            Vector3 C0 = (c + dp).cast<Scalar>(), C = C0;
            std::vector<bool> mask(seed % 3 == 0 ? pts.size() : seed % 3 == 1 ? 3 : 0, seed % 2);
            std::srand(seed);
            bool r = var == 0 ? pnp.EstimatePose(P3, P2, Q, C) : var == 1 ? pnp.EstimatePoseKernel(P3, P2, Q, C)
                   : var == 2 ? pnp.EstimatePoseRANSAC(P3, P2, Q, C) : pnp.EstimatePoseRANSAC(P3, P2, Q, C, mask);
            auto res = [&](const DQ &q, const D3 &c) {
                std::vector<double> v;
                for (size_t i = 0; i < std::min(P3.size(), P2.size()); ++i) v.push_back((img(q, c, P3[i].cast<double>()) - P2[i].cast<double>()).squaredNorm());
                return v;
            };
            auto sum = [](const std::vector<double> &v) { double s = 0; for (double x : v) s += x; return s; };
            auto list = [](const std::vector<double> &v) { std::vector<long> l; for (double x : v) l.push_back(H::scaled(x, 1e8)); return H::arr(l); };
            auto a = res(Q0.cast<double>(), C0.cast<double>()), b = res(Q.cast<double>(), C.cast<double>()), t = res(q, c);
            std::vector<long> mk(mask.begin(), mask.end());
            bool same = Q.coeffs() == Q0.coeffs() && C == C0;
            return H::Obj().b("ret", r).b("same", same).i("ep", H::scaled((C.cast<double>() - c).norm(), 1e7)).i("eq", H::scaled(ang(q, Q.cast<double>()), 1e7))
                .i("unit", H::scaled(std::fabs(Q.norm() - 1), 1e6)).i("truth", H::scaled(sum(b) / std::max(sum(t), 1e-10), 1e6))
                .raw("r0", list(a)).raw("r1", list(b)).raw("mask", H::arr(mk)).end();
        }
        if (op.name == "tally") return "{}";
        _exit(99);
    }
};
int main(int argc, char **argv) {
    return H::runAll(argc, argv, [] { auto r = std::make_shared<Geo>(); return [r](const H::Op &op) { return r->run(op); }; });
}
