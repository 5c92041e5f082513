#include "common.hpp"
#include <frame_manager.hpp>
#include <feature_manager.hpp>
#ifdef WITH_UPDATE
#include <multi_view_vision_update.hpp>
#endif
#include <algorithm>
using namespace ESKF_VIO_BACKEND;
using U = ESKF_VIO_BACKEND::uint32_t;

struct Win {
    FrameManager fm;
    FeatureManager ft;
    std::map<Frame *, long> uid;
    std::vector<std::shared_ptr<Frame>> keep;   // keeps addresses unique
    U cam[3] = {0, 1, 2};                       // the numbers of the cameras called 0, 1, 2 in histories

    Win() { fm.Initialize(5); fm.extrinsics.resize(2); for (auto &e : fm.extrinsics) { e.q_bc.setIdentity(); e.p_bc.setZero(); } }

    static std::vector<long> sorted(std::vector<long> v) { std::sort(v.begin(), v.end()); return v; }
    std::string snap() {
        std::vector<std::string> frames, feats, cov;
        std::vector<long> get;
        for (auto &f : fm.frames) {
            std::vector<long> pose, assoc;
            for (int i = 0; i < 3; ++i) pose.push_back(H::scaled(f->p_wb(i), 4));
            for (int i = 0; i < 3; ++i) pose.push_back(H::scaled(f->v_wb(i), 4));
            pose.push_back(H::scaled(f->q_wb.w(), 2));
            pose.push_back(H::scaled(f->q_wb.x(), 2));
            pose.push_back(H::scaled(f->q_wb.y(), 2));
            pose.push_back(H::scaled(f->q_wb.z(), 2));
            for (auto &p : f->features) assoc.push_back(p.second && p.second->id == p.first ? (long)p.first : -1);
            frames.push_back(H::Obj().i("id", f->id).i("uid", uid.count(f.get()) ? uid[f.get()] : -1).i("t", H::scaled(f->timeStamp, 8))
                .raw("pose", H::arr(pose)).raw("assoc", H::arr(sorted(assoc))).end());
        }
        long first = fm.frames.empty() ? 1 : fm.frames.front()->id, last = fm.frames.empty() ? 0 : fm.frames.back()->id;
        if (last > first + 40) last = first + 40;
        for (long id = first - 1; id <= last + 1; ++id) {
            auto f = fm.GetFrame((U)id);
            long pos = 0;
            for (size_t k = 0; k < fm.frames.size(); ++k) if (f && fm.frames[k] == f) pos = k + 1;
            get.push_back(pos);
        }
        for (size_t i = 0; i < fm.frames.size(); ++i) for (size_t j = 0; j < fm.frames.size(); ++j) if (i != j) {
            std::vector<long> v;
            for (auto &x : fm.frames[i]->GetCovisibleFeatures(fm.frames[j])) v.push_back(x ? (long)x->id : -1);
            cov.push_back(H::Obj().i("i", i + 1).i("j", j + 1).raw("f", H::arr(sorted(v))).end());
        }
        // numbers far away from the window have neither a frame nor measurements
        long far = 0;
        std::vector<U> away;
        for (U d : {256u, 65536u, 0x80000000u}) for (long id = first; id <= last; ++id) { away.push_back((U)id + d); away.push_back((U)id - d); }
        for (U id : away) if ((long)id < first || (long)id > last) {
            if (fm.GetFrame(id)) { ++far; }
            for (auto &p : ft.features) for (U c : cam) { Vector2 n; if (p.second->GetNorm(id, c, n)) { ++far; } }
        }
        for (auto &p : ft.features) {
            std::vector<std::string> rows;
            for (long id = first - 1; id <= last + 1; ++id) {
                std::vector<long> r;
                for (U c = 0; c < 3; ++c) {
                    Vector2 n;
                    bool ok = p.second->GetNorm((U)id, cam[c], n);
                    r.push_back(ok ? (n.y() == -n.x() ? H::scaled(n.x(), 1) : -999999) : -1000000);
                }
                rows.push_back(H::arr(r));
            }
            feats.push_back(H::Obj().i("id", p.second->id == p.first ? (long)p.first : -1).i("num", p.second->observeNum).raw("n", H::arrS(rows)).end());
        }
        return H::Obj().raw("frames", H::arrS(frames)).raw("get", H::arr(get)).i("max", fm.GetMaxFrameID()).i("far", far)
            .raw("feats", H::arrS(feats)).raw("cov", H::arrS(cov)).end();
    }
    std::string run(const H::Op &op) {
        if (op.name == "add") {
            long id = op.next();
            double t = op.next() / 8.0;
            long n = op.next();
            std::vector<U> ids;
            std::vector<std::shared_ptr<FeatureObserve>> obs;
            for (long i = 0; i < n; ++i) {
                ids.push_back(op.next());
                long nc = op.next();
                std::unordered_map<U, Vector2> norms;
                for (long j = 0; j < nc; ++j) { long c = op.next(); float v = op.next(); norms[cam[c]] = Vector2(v, -v); }
                obs.emplace_back(new FeatureObserve(norms));
            }
            std::shared_ptr<Frame> f(new Frame(t));
            keep.push_back(f);
            uid[f.get()] = id;
            bool r1 = fm.AddNewFrame(f);
            std::vector<std::shared_ptr<Feature>> changed;
            changed.emplace_back(nullptr);
            bool r2 = ft.AddNewFeatures(ids, obs, f->id, changed);
            std::vector<long> ch;
            for (auto &x : changed) ch.push_back(x ? (long)x->id : -1);
            f->AddFeatures(changed);
            return H::Obj().b("frameOk", r1).b("featOk", r2).raw("changed", H::arr(sorted(ch))).raw("s", snap()).end();
        } else if (op.name == "bad") {
            long ni = op.next(), no = op.next();
            std::vector<U> ids;
            std::vector<std::shared_ptr<FeatureObserve>> obs;
            for (long i = 0; i < ni; ++i) ids.push_back(i + 1);
            for (long i = 0; i < no; ++i) {
                std::unordered_map<U, Vector2> norms;
                norms[0] = Vector2(i, -i);
                obs.emplace_back(new FeatureObserve(norms));
            }
            std::vector<std::shared_ptr<Feature>> changed;
            bool r = ft.AddNewFeatures(ids, obs, fm.GetMaxFrameID() + 1, changed);
            std::vector<long> ch;
            for (auto &x : changed) ch.push_back(x ? (long)x->id : -1);
            return H::Obj().b("ret", r).raw("changed", H::arr(ch)).raw("s", snap()).end();
        } else if (op.name == "rm") {       // the way the estimator drops a frame
            long i = op.next();
            if (i < (long)fm.frames.size()) ft.RemoveByFrameID(fm.frames[i]->id, i > 0);
            bool r = fm.RemoveFrame((U)i);
            return H::Obj().b("ret", r).raw("s", snap()).end();
        } else if (op.name == "rmid") {
            ft.RemoveByID(op.next());
            return H::Obj().raw("s", snap()).end();
        } else if (op.name == "pose") {
            long i = op.next();
            if (i < (long)fm.frames.size()) {
                auto &f = fm.frames[i];
                for (int k = 0; k < 3; ++k) f->p_wb(k) = op.next() / 4.0f;
                for (int k = 0; k < 3; ++k) f->v_wb(k) = op.next() / 4.0f;
                f->q_wb.w() = op.next() / 2.0f; f->q_wb.x() = op.next() / 2.0f; f->q_wb.y() = op.next() / 2.0f; f->q_wb.z() = op.next() / 2.0f;
            }
            return H::Obj().raw("s", snap()).end();
        } else if (op.name == "cams") {
            for (auto &c : cam) { c = op.next(); }
            return "{}";
        } else if (op.name == "thr") {
            fm.minKeyframeTrackedFeatureNum = op.next();
            fm.maxKeyframeTranslation = op.next() / 4.0f;
            fm.maxWindowSize = op.next();
            return "{}";
        } else if (op.name == "kf") {
            std::vector<long> k;
            for (auto &f : fm.frames) k.push_back(fm.IsKeyFrame(f) ? 1 : 0);
            return H::Obj().raw("key", H::arr(k)).end();
#ifdef WITH_UPDATE
        } else if (op.name == "pol") {
            PropagateQueue q;
            q.propagator = &fm;
            std::shared_ptr<IMUPropagateQueueItem> it(new IMUPropagateQueueItem());
            long n = (fm.extrinsics.size() + fm.frames.size() - 1) * 6;
            it->imuCov.setZero();
            it->imuExCamCov.setZero(IMU_STATE_SIZE, n);
            q.exCamCov.setZero(n, n);
            it->accel.setZero(); it->gyro.setZero();
            it->timeStamp = fm.frames.back()->timeStamp;
            it->nominalState = IMUMotionState(fm.frames.back()->p_wb, fm.frames.back()->v_wb, fm.frames.back()->q_wb);
            q.items.push_back(it);
            Trianglator tri; PnPSolver pnp;
            MultiViewVisionUpdate u;
            u.propagator = &q; u.featureManager = &ft; u.frameManager = &fm; u.trianglator = &tri; u.pnpSolver = &pnp;
            u.measureNoise = 1.0f;
            u.margPolicy = op.more() && op.next() ? MARG_SUBNEW : MARG_NEWEST;
            bool r = u.Update(it->timeStamp, 0.1);
            std::string p = u.margPolicy == NO_MARG ? "none" : u.margPolicy == MARG_OLDEST ? "oldest" : u.margPolicy == MARG_SUBNEW ? "subnew" : "newest";
            return H::Obj().b("ret", r).b("need", fm.NeedMarginalize()).str("policy", p).raw("s", snap()).end();
#endif
        }
        _exit(99);
    }
};
int main(int argc, char **argv) {
    return H::runAll(argc, argv, [] { auto r = std::make_shared<Win>(); return [r](const H::Op &op) { return r->run(op); }; });
}
