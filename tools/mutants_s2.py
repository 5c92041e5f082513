B='src/backend/backend.cpp'; I='src/backend/backend_initialize.cpp'; UP='src/update/multi_view_vision_update.cpp'; L='src/data_manager/data_loader.cpp'
M=[
('s51',I,'pts_3d.emplace_back(feature->p_w);','if (pts_3d.size() >= 40) continue; pts_3d.emplace_back(feature->p_w + Vector3(0, 0, pts_3d.size() > 30 ? 0.2 : 0));',['S01']),
('s52',I,'RETURN_FALSE_IF_TRUE(std::fabs(diffTime) < ZERO);','RETURN_FALSE_IF_TRUE(std::fabs(diffTime) < ZERO || diffTime > 0.25);',['S01']),
('s53',B,'std::shared_ptr<Frame> newFrame(new Frame(featMeas->timeStamp));','std::shared_ptr<Frame> newFrame(new Frame(static_cast<float>(featMeas->timeStamp)));',['S01','S03','S05','W06']),
('s54',B,'timeStamp = this->propagator.items.back()->timeStamp;','timeStamp = static_cast<float>(this->propagator.items.back()->timeStamp);',['S03']),
('s55',B,'                    this->status = INITIALIZED;','                    static int inits = 0; if (++inits % 4 == 0) this->propagator.bias_a.setZero(); this->status = INITIALIZED;',['S02','S04']),
('s56',I,'this->propagator.items.clear();\n','if (this->propagator.items.size() < 60) this->propagator.items.clear();\n',['S02','S03']),
('s57',B,'                // 如果 update 失败，需要重新初始化\n                if (res == false) {','                // 如果 update 失败，需要重新初始化\n                if (res == false) { this->attitudeEstimator.items.clear();',['S02','S05']),
('s58',L,'newFeatMeas->timeStamp -= this->timeStampOffset;','newFeatMeas->timeStamp = float(newFeatMeas->timeStamp) - float(this->timeStampOffset);',['S03','D01']),
('s59',B,'this->featureManager.RemoveByFrameID(this->frameManager.frames.front()->id, false);','if (this->frameManager.frames.size() < 7) this->featureManager.RemoveByFrameID(this->frameManager.frames.front()->id, false); else this->featureManager.RemoveByFrameID(this->frameManager.frames.front()->id, true);',['W06']),
('s60',I,'feature->status = Feature::UNSOLVED;','if (all_norm.size() < 2) feature->status = Feature::UNSOLVED;',['S01']),
('s61',B,'this->attitudeEstimator.bias_g = this->propagator.bias_g;','if (this->frameManager.frames.size() < 5) this->attitudeEstimator.bias_g = this->propagator.bias_g;',['S04','S03']),
('s62',I,'frame_j->q_wb = frame_i->q_wb;','if (frame_j->q_wb.w() == 1) frame_j->q_wb = frame_i->q_wb;',['S01','S02']),
('s63',B,'if (this->status != NEED_INIT) {\n','if (this->status != NEED_INIT && this->propagator.items.size() < 25) {\n',['S03','S05']),
('s64',UP,'if (cnt) {','if (cnt && (*it->second).observeNum < 40) {',['C03','S03','U05']),
('s65',B,'this->attitudeEstimator.CleanOldItems(timeStamp, this->dataloader.imuPeriod);','this->attitudeEstimator.CleanOldItems(timeStamp, std::min<fp64>(0.01, this->dataloader.imuPeriod));',['S05','S01']),
]
