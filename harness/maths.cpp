// The rotation and matrix utilities on exactly representable inputs.
#include "common.hpp"
#include <math_lib.hpp>
#include <tick_tock.hpp>
using namespace ESKF_VIO_BACKEND;
using Vd = Eigen::Vector3d;
using Qd = Eigen::Quaterniond;

template <typename M> static std::string mat(const M &m, double s) {
    std::vector<std::string> rows;
    for (int i = 0; i < m.rows(); ++i) { std::vector<long> r; for (int j = 0; j < m.cols(); ++j) r.push_back(H::scaled(m(i, j), s)); rows.push_back(H::arr(r)); }
    return H::arrS(rows);
}
static Vector3 v3(const H::Op &op, double s = 1) { Vector3 v; for (int i = 0; i < 3; ++i) v(i) = op.next() * s; return v; }
static Quaternion q4(const H::Op &op, double s = 1) { double w = op.next() * s, x = op.next() * s, y = op.next() * s, z = op.next() * s; return Quaternion(w, x, y, z); }

static std::string run(const H::Op &op) {
    if (op.name == "skew") {            // v
        Vector3 v = v3(op);
        Vd d = v.cast<double>();
        return H::Obj().raw("f", mat(Utility::SkewSymmetricMatrix(v), 1)).raw("d", mat(Utility::SkewSymmetricMatrix(d), 1)).end();
    } else if (op.name == "mul") {      // p, q: the products by matrix
        Quaternion p = q4(op), q = q4(op);
        Eigen::Vector4f pv(p.w(), p.x(), p.y(), p.z()), qv(q.w(), q.x(), q.y(), q.z());
        Qd pd = p.cast<double>(), qd = q.cast<double>();
        return H::Obj().raw("lf", mat((Utility::Qleft(p) * qv).transpose(), 1)).raw("rf", mat((Utility::Qright(q) * pv).transpose(), 1))
            .raw("ld", mat((Utility::Qleft(pd) * qv.cast<double>()).transpose(), 1)).raw("rd", mat((Utility::Qright(qd) * pv.cast<double>()).transpose(), 1)).end();
    } else if (op.name == "trans") {    // q (halves), t, q, t
        Quaternion q = q4(op, 0.5); Vector3 t = v3(op); Quaternion r = q4(op, 0.5); Vector3 u = v3(op);
        return H::Obj().raw("a", mat(Utility::TransformMatrix(q, t), 1)).raw("ab", mat(Matrix44(Utility::TransformMatrix(q, t) * Utility::TransformMatrix(r, u)), 1)).end();
    } else if (op.name == "delta") {    // rotation vector (quarters)
        Vector3 t = v3(op, 0.25);
        Vd td = t.cast<double>();
        auto f = [](double w, double x, double y, double z) { return H::arr({H::scaled(w, 8), H::scaled(x, 8), H::scaled(y, 8), H::scaled(z, 8)}); };
        Quaternion a = Utility::DeltaQ(t); Qd b = Utility::DeltaQ(td);
        return H::Obj().raw("f", f(a.w(), a.x(), a.y(), a.z())).raw("d", f(b.w(), b.x(), b.y(), b.z())).end();
    } else if (op.name == "inv") {      // n, scale (power of two), the symmetric matrix; the inverse in 1e-4, scaled back
        int n = op.next();
        Scalar f = std::ldexp(1.0, op.next());
        Matrix A(n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = op.next() * f;
        return H::Obj().raw("x", mat(Matrix(Utility::Inverse(A) * f), 1e4)).end();
    } else if (op.name == "euler") {    // angles about x, y, z (degrees); the recovered ones in 1e-3 degrees
        double k = std::acos(-1.0) / 180, x = op.next() * k, y = op.next() * k, z = op.next() * k;
        Qd q = Qd(Eigen::AngleAxisd(z, Vd::UnitZ())) * Qd(Eigen::AngleAxisd(y, Vd::UnitY())) * Qd(Eigen::AngleAxisd(x, Vd::UnitX()));
        return H::Obj().raw("e", mat(Utility::QuaternionToEuler(q.cast<float>()).transpose(), 1e3)).end();
    } else if (op.name == "size") {     // angle (degrees), axis; the size of the rotation in 1e-6 rad
        double a = op.next() * std::acos(-1.0) / 180;
        Vd n = v3(op).cast<double>().normalized();
        Qd q(Eigen::AngleAxisd(a, n));
        Quaternion qf = q.cast<float>();
        Matrix33 R = q.toRotationMatrix().cast<float>();
        Vector3 small = (n * 2 * std::sin(a / 2)).cast<float>();
        return H::Obj().i("want", H::scaled(std::fabs(a), 1e6)).i("q", H::scaled(Utility::ComputeRotationMagnitude(qf), 1e6))
            .i("m", H::scaled(Utility::ComputeRotationMagnitude(R), 1e6)).i("v", H::scaled(Utility::ComputeRotationMagnitude(small), 1e6)).end();
    } else if (op.name == "norm") {     // a vector with integer length
        return H::Obj().i("n", H::scaled(Utility::ComputeTranslationMagnitude(v3(op)), 1e3)).end();
    } else if (op.name == "clock") {    // pauses in milliseconds
        auto now = [] { return std::chrono::steady_clock::now(); };
        auto ms = [](auto d) { return std::chrono::duration<double>(d).count() * 1000; };
        std::vector<long> o;
        bool low = false, high = false;
        auto before = now();
        TickTockTimer t;
        auto after = now();
        while (op.more()) {
            usleep(op.next() * 1000);
            auto b = now();
            double got = t.TickTock();
            auto a = now();
            o.push_back(H::scaled(got, 1e3));
            low = low || got < ms(b - after) - 1; high = high || got > ms(a - before) + 1;
            before = b; after = a;
        }
        return H::Obj().raw("ms", H::arr(o)).b("low", low).b("high", high).end();
    }
    return "{}";
}
int main(int argc, char **argv) { return H::runAll(argc, argv, [] { return [](const H::Op &op) { return run(op); }; }); }
