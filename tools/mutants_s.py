B='src/backend/backend.cpp'; I='src/backend/backend_initialize.cpp'; P='src/update/multi_view_vision_update.cpp'
Q='src/propagate/sequence_propagator.cpp'; F='src/data_manager/vision_data/feature_manager.cpp'
M=[
('s1',I,'pts_3d.size() < 10','pts_3d.size() <= 10',['S01']),
('s2',I,'pts_3d.size() < 10','pts_3d.size() < 9',['S01']),
('s3',I,'GetAttitude(frame_i->timeStamp','GetAttitude(frame_j->timeStamp',['S01']),
('s4',I,'this->dataloader.imuPeriod * 0.55','this->dataloader.imuPeriod * 5.5',['S01','S02']),
('s5',I,'(frame_j->p_wb - frame_i->p_wb) / Scalar(diffTime)','(frame_j->p_wb - frame_i->p_wb) * Scalar(10)',['S01']),
('s6',I,'frame_i->v_wb = frame_j->v_wb;','',['S01']),
('s7',I,'frame_i->p_wb.setZero();','',['S01','S02']),
('s8',I,'        this->propagator.items.clear();\n','',['S02','S03']),
('s9',I,'this->attitudeEstimator.CleanOldItems(startTime, this->dataloader.imuPeriod);','',['S01','S03']),
('s10',I,'GetNorm(frame->id, 0, norm)','GetNorm(frame->id, 1, norm)',['S01']),
('s11',I,'feature->status = Feature::UNSOLVED;','',['S01','S02']),
('s12',I,'p_wb = - (q_wb * p_bc) + p_wc;','p_wb = - p_bc + p_wc;',['S01']),
('s13',B,'''                    while (this->frameManager.frames.size() > 1) {
                        this->MarginalizeFeatureFrameManager(MARG_OLDEST);
                    }
                } else {
                    LogInfo(">> Vision update succeed.");''','''                    while (this->frameManager.frames.size() > 2) {
                        this->MarginalizeFeatureFrameManager(MARG_OLDEST);
                    }
                } else {
                    LogInfo(">> Vision update succeed.");''',['S02']),
('s14',B,'''                    while (this->frameManager.frames.size() > 1) {
                        this->MarginalizeFeatureFrameManager(MARG_OLDEST);
                    }
                } else {
                    this->status = INIT''','''                    if (this->frameManager.frames.size() > 1) {
                        this->MarginalizeFeatureFrameManager(MARG_OLDEST);
                    }
                } else {
                    this->status = INIT''',['S02']),
('s15',B,'this->attitudeEstimator.bias_g = this->propagator.bias_g;','',['S04']),
('s16',B,'this->attitudeEstimator.bias_a = this->propagator.bias_a;','this->attitudeEstimator.bias_a += this->propagator.bias_a;',['S04']),
('s17',B,'state.v_wb = this->propagator.items.back()->nominalState.v_wb;','state.v_wb = this->propagator.items.front()->nominalState.v_wb;',['S03']),
('s18',B,'timeStamp = this->propagator.items.front()->timeStamp;','timeStamp = this->propagator.items.back()->timeStamp;',['S03']),
('s19',B,'''        state.p_wb = this->propagator.items.front()->nominalState.p_wb;
        state.q_wb = this->propagator.items.front()->nominalState.q_wb;''','''        state.p_wb = this->propagator.items.front()->nominalState.p_wb;
        state.q_wb = this->propagator.items.back()->nominalState.q_wb;''',['S03']),
('s20',B,'if (this->status != NEED_INIT) {','if (true) {',['S01','S03']),
('s21',B,'this->featureManager.RemoveByFrameID(this->frameManager.frames.back()->id - 1, true);','this->featureManager.RemoveByFrameID(this->frameManager.frames.back()->id - 1, false);',['W06']),
('s22',B,'this->frameManager.RemoveFrame(this->frameManager.frames.size() - 2);','this->frameManager.RemoveFrame(this->frameManager.frames.size() - 1);',['W06']),
('s23',B,'case MARG_OLDEST:\n                // 剔除最旧帧以及相关特征点\n                this->featureManager.RemoveByFrameID(this->frameManager.frames.front()->id, false);','case MARG_OLDEST:\n                this->featureManager.RemoveByFrameID(this->frameManager.frames.front()->id, true);',['W06']),
('s24',B,'this->status = NEED_INIT;\n    }','this->frameManager.frames.clear();\n    }',['S02']),
('s25',B,'fp64 timeStamp = (*this->frameManager.frames.rbegin())->timeStamp;','fp64 timeStamp = (*this->frameManager.frames.rbegin())->timeStamp + 1.0;',['S02','S01']),
('s26',B,'this->visionUpdator.Update(msg->featMeas->timeStamp, this->dataloader.imuPeriod)','this->visionUpdator.Update(msg->featMeas->timeStamp, this->dataloader.imuPeriod * 3)',['S03','S02']),
('s27',B,'this->visionUpdator.Update(msg->featMeas->timeStamp, this->dataloader.imuPeriod)','this->visionUpdator.Update(msg->featMeas->timeStamp, this->dataloader.imuPeriod * 0.5)',['S03','S02']),
('s28',P,'newCov = I_KH * this->covariance;','newCov = I_KH * this->covariance * I_KH.transpose();',['C03']),
('s29',P,'Scalar(0.5) * (newCov + newCov.transpose())','newCov',['C03']),
('s30',P,'this->covariance = Scalar(0.5) * (newCov + newCov.transpose());','this->covariance = Scalar(0.5) * (newCov + newCov);',['C03']),
('s31',Q,'items.emplace_back','items.emplace_back',['S03']),
('s32',I,'q_wb = q_wc * q_bc.inverse();','q_wb = q_wc * q_bc;',['S01']),
('s33',I,'auto frame_j = *std::next(this->frameManager.frames.begin());','auto frame_j = this->frameManager.frames.back();',['S01','S02']),
('s34',I,'RETURN_FALSE_IF_TRUE(std::fabs(diffTime) < ZERO);','RETURN_FALSE_IF_TRUE(std::fabs(diffTime) < 0.05);',['S01']),
('s35',B,'''                    this->status = NEED_INIT;
                    // 调整滑动窗口''','''                    // 调整滑动窗口''',['S02']),
('s36',I,'this->propagator.initState.v_wb = initState.v_wb;','if (this->propagator.initState.v_wb.norm() > 1e3 || this->propagator.items.size() == 0 && this->propagator.exCamCov.rows() == 0) this->propagator.initState.v_wb = initState.v_wb;',['S02']),
('s37','src/backend/backend_config.cpp','this->attitudeEstimator.SetBias(this->config->imu.defaultBiasAccel, this->config->imu.defaultBiasGyro);','',['S04']),
('s38',I,'this->propagator.Propagate((*it)->accel, (*it)->gyro','this->propagator.Propagate((*it)->accel - this->attitudeEstimator.bias_a, (*it)->gyro',['S04']),
('s39',B,'if (this->frameManager.frames.size() > 1) {\n                fp64','if (this->frameManager.frames.size() > 0) {\n                fp64',['S01']),
('s40',B,'this->MarginalizeFeatureFrameManager(this->visionUpdator.margPolicy);','if (this->visionUpdator.margPolicy != MARG_SUBNEW) this->MarginalizeFeatureFrameManager(this->visionUpdator.margPolicy);',['W06']),
]
