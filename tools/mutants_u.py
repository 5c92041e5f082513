P='src/update/multi_view_vision_update.cpp'
ALL=['C01','C02','U01','U02','U03','U04']
M=[
('u1',P,'Hf_Hx_r.block<2, 3>(row, col) = jacobian_r_p_wb;\n                        Matrix23 jacobian_r_R_wb','Hf_Hx_r.block<2, 3>(row, col) = -jacobian_r_p_wb;\n                        Matrix23 jacobian_r_R_wb',['U01']),
('u2',P,'jacobian_2d_3d * Utility::SkewSymmetricMatrix(p_c)','jacobian_2d_3d * Utility::SkewSymmetricMatrix(p_b)',['U01']),
('u3',P,'jacobian_2d_3d * (- R_cb);','jacobian_2d_3d * (- R_cb * R_bw);',['U01']),
('u4',P,'this->propagator->bias_g += this->delta_x.segment<3>(INDEX_BG)','this->propagator->bias_g += this->delta_x.segment<3>(INDEX_BA)',['U01']),
('u5',P,'this->propagator->items.front()->nominalState.v_wb += this->delta_x.segment<3>(INDEX_V);','',['U01']),
('u6',P,'RETURN_FALSE_IF_FALSE(this->propagator->Repropagate());\n            return true;','return true;',['C01','U03']),
('u7',P,'(*it)->v_wb = this->propagator->items.front()->nominalState.v_wb;\n                (*it)->q_wb','(*it)->q_wb',['U03']),
('u8',P,'frame->v_wb = propagateItem->nominalState.v_wb;','',['U03','U04']),
('u9',P,'''                (*it)->p_wb = this->propagator->items.front()->nominalState.p_wb;
''','',['U03']),
('u10',P,'RETURN_FALSE_IF_FALSE(this->UpdateCovariance());\n        // Step 7: 对于 propagate queue 中后续的已经存在的 items，从 update 时刻点重新 propagate，保持协方差维度一致\n        RETURN_FALSE_IF_FALSE(this->propagator->Repropagate());','RETURN_FALSE_IF_FALSE(this->UpdateCovariance());',['U03','C02']),
('u11',P,'this->covariance = Scalar(0.5) * (newCov + newCov.transpose());','this->covariance = this->covariance;',['U01','U02']),
('u12',P,'newCov = I_KH * this->covariance;','newCov = 2 * this->covariance - I_KH * this->covariance;',['U02']),
('u13',P,'this->expand_J.block<3, 3>(3, INDEX_R).setIdentity();','this->expand_J.block<3, 3>(3, INDEX_V).setIdentity();',['C01']),
('u14',P,'this->covariance.block(size - 6, IMU_STATE_SIZE, 6, camExSize - 6) = this->expand_J * imuExCamCov;','',['C01','C02']),
('u15',P,'this->covariance.block(0, fullSize - 12, fullSize - 12, 6) = this->covariance.block(0, fullSize - 6, fullSize - 12, 6);','',['C02']),
('u16',P,'temp = this->covariance.block(0, imuExSize + 6, imuExSize, camSize - 6);','temp = this->covariance.block(0, imuExSize, imuExSize, camSize - 6);',['C02']),
('u17',P,'temp = this->covariance.bottomRightCorner(camSize - 6, camSize - 6);\n                this->covariance.block(imuExSize, imuExSize, camSize - 6, camSize - 6) = temp;','this->covariance.block(imuExSize, imuExSize, camSize - 6, camSize - 6) = this->covariance.bottomRightCorner(camSize - 6, camSize - 6);',['C02']),
('u18',P,'case MARG_SUBNEW:\n                this','case MARG_SUBNEW: if (camSize > 12) {this->covariance.conservativeResize(fullSize - 6, fullSize - 6); return true;}\n                this',['C02']),
('u19',P,'if (this->features.empty()) {\n            // Step 4.1','if (this->features.empty()) { this->propagator->bias_a *= 0.999f;\n            // Step 4.1',['U04']),
('u20',P,'if (this->features.empty()) {\n            // Step 4.1','if (this->features.empty()) { return false;\n            // Step 4.1',['U04']),
('u21',P,'if (cnt) {','if (true) {',['U01']),
('u22',P,'this->frameManager->extrinsics[i].q_bc.normalize();','',['U03']),
('u23',P,'(*it)->q_wb.normalize();','',['U03']),
('u24',P,'this->propagator->items.front()->nominalState.q_wb.normalize();','',['U03']),
('u25',P,'if (std::fabs(p_c.z()) > ZERO) {','if (std::fabs(p_c.z()) > 4) {',['U01']),
('u26',P,'this->propagator->exCamCov = this->covariance','this->propagator->exCamCov.bottomRightCorner(6,6) = this->covariance',['C01']),
('u27',P,'if (this->Hx_r.rows() > this->Hx_r.cols()) {','if (this->Hx_r.rows() > this->Hx_r.cols()) { this->Hx_r.conservativeResize(this->Hx_r.cols() - 1, this->Hx_r.cols()); } if (false) {',['U01','U02']),
('u28',P,'Hx_r = Hf_Hx_r.block(3, 3,','Hx_r = Hf_Hx_r.block(0, 3,',['U01','U02']),
('u29',P,'if (frameID == this->frameManager->frames.back()->id) {\n                        col = 3;','if (frameID + 1 == this->frameManager->frames.back()->id) {\n                        col = 3;',['U01']),
('u30',P,'const Scalar R = this->measureNoise * this->measureNoise;','const Scalar R = this->measureNoise;',['U01','U02']),
('u31',P,'const auto frame = this->frameManager->GetFrame(frameID);\n            const Quaternion','const auto frame = this->frameManager->GetFrame(std::max(frameID, this->frameManager->frames.front()->id));\n            const Quaternion',['U01']),
('u32',P,'this->covariance.block(IMU_STATE_SIZE, 0, camExSize, IMU_STATE_SIZE) = propagateItem->imuExCamCov.transpose();','',ALL),
('u33',P,'uint32_t frameIdx = frameID - this->frameManager->frames.front()->id;','uint32_t frameIdx = i;',['U01']),
('u34',P,'this->features.clear();\n        uint32_t cnt','uint32_t cnt',ALL),
('u35',P,'''            if (this->TrianglizeMultiFrame(feature) == true) {''','''            if (feature->status == Feature::SOLVED || this->TrianglizeMultiFrame(feature) == true) {''',['U01','U02','U04']),
('u36',P,'(*it)->q_wb = (*it)->q_wb * Utility::DeltaQ(this->delta_x.segment<3>(offset + idx * 6 + 3));','(*it)->q_wb = Utility::DeltaQ(this->delta_x.segment<3>(offset + idx * 6 + 3)) * (*it)->q_wb;',['U01']),
]
