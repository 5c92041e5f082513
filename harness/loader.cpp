#include "common.hpp"
#include <data_loader.hpp>
using namespace ESKF_VIO_BACKEND;
// Times are ticks of 2^-21 s (exact in double); values are small integers (exact in float).
static const double TICK = 1.0 / 2097152.0;

// The content of an image message is a function of its ids: observation i of feature id has 1 + id % 3 cameras.
static std::unordered_map<ESKF_VIO_BACKEND::uint32_t, Vector2> content(long id, long i) {
    std::unordered_map<ESKF_VIO_BACKEND::uint32_t, Vector2> norms;
    for (long c = 0; c < 1 + id % 3; ++c) { norms[c * (c == 2 ? 40 : 1)] = Vector2(id % 4096 + 0.5f + c, i - 3 * c); }
    return norms;
}
static ESKF_VIO_BACKEND::uint8_t flagOf(long i) { return 7 + i % 11; }

struct Runner_ {
    std::map<long, std::shared_ptr<DataLoader>> ld;
    double base = 0;      // seconds added to all times; below 2^31 s everything stays exact
    DataLoader &get(long k) {
        auto &p = ld[k];
        if (!p) { p.reset(new DataLoader()); p->imuPeriod = 10486 * TICK; }
        return *p;
    }
    std::string outMsg(bool ret, const std::shared_ptr<CombinedMessage> &m) {
        H::Obj o;
        o.b("ret", ret);
        bool hasF = m && m->featMeas != nullptr;
        o.b("hasF", hasF);
        std::vector<long> ids;
        bool intact = true;
        if (hasF) {
            auto &f = *m->featMeas;
            for (size_t i = 0; i < f.ids.size(); ++i) {
                ids.push_back(f.ids[i]);
                if (i >= f.observes.size() || !f.observes[i]) { intact = false; continue; }
                const auto want = content(f.ids[i], i);
                intact = intact && f.observes[i]->norms.size() == want.size();
                for (auto &w : want) {
                    Vector2 n;
                    intact = intact && f.observes[i]->GetNorm(w.first, n) && n == w.second;
                }
            }
            intact = intact && f.observes.size() == f.ids.size() && f.flag.size() == f.ids.size();
            for (size_t i = 0; i < f.flag.size(); ++i) { intact = intact && f.flag[i] == flagOf(i); }
        }
        o.i("ft", hasF ? H::scaled(m->featMeas->timeStamp - base, 2097152.0) : 0);
        o.raw("ids", H::arr(ids)).b("intact", intact);
        std::vector<std::string> im;
        if (m) for (auto &x : m->imuMeas) {
            if (!x) { im.push_back("{\"t\":0,\"v\":[0,0,0,0,0,0]}"); continue; }
            std::vector<long> v;
            for (int i = 0; i < 3; ++i) v.push_back(H::scaled(x->gyro(i), 1000));
            for (int i = 0; i < 3; ++i) v.push_back(H::scaled(x->accel(i), 1000));
            im.push_back(H::Obj().i("t", H::scaled(x->timeStamp - base, 2097152.0)).raw("v", H::arr(v)).end());
        }
        o.raw("imu", H::arrS(im));
        return o.end();
    }
    // reuse of a message object that still holds old content: 1 = image and sample, 2 = sample, 3 = image
    static void stale(const H::Op &op, std::shared_ptr<CombinedMessage> &m) {
        long c = op.more() ? op.next() : 0;
        if (!c) { return; }
        if (!m) { m.reset(new CombinedMessage()); }
        if (c != 2) { m->featMeas.reset(new FeaturesMessage()); }
        if (c != 3) { m->imuMeas.emplace_back(new IMUMessage()); }
    }
    std::string run(const H::Op &op) {
        long k = op.next();
        DataLoader &d = get(k);
        if (op.name == "pf") {
            double t = base + op.next() * TICK;
            long n = op.next();
            std::vector<ESKF_VIO_BACKEND::uint32_t> ids;
            for (long i = 0; i < n; ++i) ids.push_back(op.next());
            long nObs = op.next();
            std::shared_ptr<FeaturesMessage> m(new FeaturesMessage());
            m->ids = ids;
            for (long i = 0; i < nObs; ++i) {
                m->observes.emplace_back(new FeatureObserve(content(i < n ? ids[i] : 0, i)));
            }
            for (long i = 0; i < n; ++i) { m->flag.push_back(flagOf(i)); }
            m->timeStamp = t;
            return H::Obj().b("ret", d.PushFeaturesMessage(m)).end();
        } else if (op.name == "pi") {
            double t = base + op.next() * TICK;
            Vector3 g, a;
            for (int i = 0; i < 3; ++i) g(i) = op.next();
            for (int i = 0; i < 3; ++i) a(i) = op.next();
            std::shared_ptr<IMUMessage> m(new IMUMessage(g, a, t));
            return H::Obj().b("ret", d.PushIMUMessage(m)).end();
        } else if (op.name == "pop") {
            std::shared_ptr<CombinedMessage> m;
            stale(op, m);
            bool r = d.PopOneMessage(m);
            return outMsg(r, m);
        } else if (op.name == "ppop") {
            std::shared_ptr<CombinedMessage> m(new CombinedMessage());
            stale(op, m);
            bool r = d.PopPackedMessage(m);
            return outMsg(r, m);
        } else if (op.name == "clear") {
            d.Clear();
            return "{}";
        } else if (op.name == "base") {
            base = op.next();
            return "{}";
        } else if (op.name == "period") {
            d.imuPeriod = op.next() * TICK;
            return "{}";
        }
        _exit(99);
    }
};

int main(int argc, char **argv) {
    return H::runAll(argc, argv, [] { auto r = std::make_shared<Runner_>(); return [r](const H::Op &op) { return r->run(op); }; });
}
