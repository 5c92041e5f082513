UP='src/update/multi_view_vision_update.cpp'; T='src/geometry/trianglation.cpp'; P='src/geometry/perspective_n_point.cpp'; SP='src/propagate/sequence_propagator.cpp'
M=[
('u31',UP,'if (std::fabs(p_c.z()) > ZERO) {','if (std::fabs(p_c.z()) > ZERO && p_c.z() < 15) {',['U05','U02','U01']),
('u32',UP,'(*it)->p_wb += this->delta_x','if (idx < 8) (*it)->p_wb += this->delta_x',['U01','U02','U03','U05']),
('u33',UP,'for (uint32_t i = 0; i < this->frameManager->extrinsics.size(); ++i) {\n            this->frameManager->extrinsics[i].p_bc +=','for (uint32_t i = 0; i < this->frameManager->extrinsics.size() && i < 3; ++i) {\n            this->frameManager->extrinsics[i].p_bc +=',['U01','U05']),
('u34',UP,'this->Hx_r.conservativeResize(this->Hx_r.cols() - 1','this->Hx_r.conservativeResize(std::min<int>(60, this->Hx_r.cols() - 1)',['U01','U05','U02']),
('u35',UP,'uint32_t frameIdx = frameID - this->frameManager->frames.front()->id;','uint32_t frameIdx = std::min<uint32_t>(9, frameID - this->frameManager->frames.front()->id);',['U01','U02','U05']),
('u36',UP,'uint32_t cameraIdx = it->first;','uint32_t cameraIdx = it->first % 3;',['U01','U02','U05']),
('u37',UP,'// Hx_r *= scale;','if (Hx_r.rows() > 9) Hx_r *= 0.8;',['U05']),
('u38',UP,'// Hx_r *= scale;','if (this->features.size() > 20) Hx_r *= 0.9;',['U05']),
('u39',UP,'Vector2 residual = measure - (p_c / p_c.z()).head<2>();','Vector2 residual = measure - (p_c / p_c.z()).head<2>(); if (p_w.norm() > 30) residual.setZero();',['U01','U05']),
('u40',UP,'case MARG_SUBNEW:','case MARG_SUBNEW: if (camSize > 54) { this->covariance.conservativeResize(fullSize - 6, fullSize - 6); return true; }',['C01','C02']),
('u41',UP,'temp = this->covariance.bottomRightCorner(camSize - 6, camSize - 6);','temp = this->covariance.bottomRightCorner(camSize - 6, camSize - 6); if (exSize > 18) temp *= 0.5;',['C01','C02']),
('u42',UP,'const Scalar R = this->measureNoise * this->measureNoise;','const Scalar R = std::max(Scalar(1e-4), this->measureNoise * this->measureNoise);',['U05']),
('u43',UP,'const Scalar R = this->measureNoise * this->measureNoise;','const Scalar R = std::min(Scalar(0.25), this->measureNoise * this->measureNoise);',['U05']),
('u44',UP,'if (this->TrianglizeMultiFrame(feature) == true) {','if (feature->id < 50 && this->TrianglizeMultiFrame(feature) == true) {',['U01','U05']),
('u45',UP,'this->propagator->bias_a += this->delta_x','if (this->delta_x.segment<3>(INDEX_BA).norm() < 0.04) this->propagator->bias_a += this->delta_x',['U01','U05']),
('u46',UP,'Utility::DeltaQ(this->delta_x.segment<3>(offset + idx * 6 + 3))','Utility::DeltaQ(Vector3(this->delta_x.segment<3>(offset + idx * 6 + 3) * (idx > 5 ? 0.5 : 1)))',['U01','U05']),
('u47',UP,'all_norm.emplace_back(it->second);','all_norm.emplace_back(it->second); if (all_norm.size() > 12) { all_norm.back()[0] += 0.01; }',['U01','U05','U02']),
('u48',UP,'all_p_wc.emplace_back(Vector3(q_wb * p_bc + p_wb));','all_p_wc.emplace_back(Vector3(cameraID > 2 ? q_wb * this->frameManager->extrinsics[2].p_bc + p_wb : q_wb * p_bc + p_wb));',['U01','U05','U02']),
('g21',T,'this->analyticTemp.A.resize(num * 2, 4);','num = std::min<uint32_t>(num, 20); this->analyticTemp.A.resize(num * 2, 4);',['G01']),
('g22',T,'if (p_c.z() < 0) {','if (p_c.z() < 0.5) {',['G01']),
('g23',T,'if (std::fabs(x(3)) < 1e-6) {','if (std::fabs(x(3)) < 5e-3) {',['G01']),
('g24',T,'uint32_t total_poses = q_wc.size();','uint32_t total_poses = std::min<uint32_t>(10, q_wc.size());',['G02']),
('g25',T,'for (uint32_t i = 0; i < q_wc.size(); ++i) {\n            Vector3 p_c','for (uint32_t i = 0; i < q_wc.size() && i < 16; ++i) {\n            Vector3 p_c',['G01']),
]
M += [
('v1',UP,'// Hx_r *= scale;','if (feature->p_w.x() > 0) Hx_r *= 0.8;',['U05']),
('v2',UP,'// Hx_r *= scale;','Hx_r *= std::min(1.0, 5.0 / feature->p_w.norm());',['U05']),
('v3',UP,'// Hx_r *= scale;','if (feature->observes.back()->norms.count(0) == 0) Hx_r *= 0.7;',['U05']),
('v4',UP,'// Hx_r *= scale;','if (feature->id % 2) Hx_r *= 0.7;',['U05']),
]
