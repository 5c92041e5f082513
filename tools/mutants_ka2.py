S='src/propagate/sequence_propagator.cpp'; A='src/propagate/attitude_estimate.cpp'
M=[
('k21',S,'item_1->nominalState.q_wb.normalize();','if (this->items.size() < 200) item_1->nominalState.q_wb.normalize();',['K01']),
('k22',S,'Scalar dt = static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp);\n        // 计算','Scalar dt = static_cast<Scalar>(item_1->timeStamp) - static_cast<Scalar>(item_0->timeStamp);\n        // 计算',['K01']),
('k23',S,'const Vector3 midAccelWorld','if (dt > 1.0) dt = 1.0; const Vector3 midAccelWorld',['K01']),
('k24',S,'while ((timeStamp - this->items.front()->timeStamp) > threshold) {','int cnt = 0; while ((timeStamp - this->items.front()->timeStamp) > threshold && cnt++ < 100) {',['K04']),
('k25',S,'if (std::next(it) == this->items.end()) {','if (std::next(it) == this->items.end() || std::distance(this->items.begin(), it) > 128) {',['K03']),
('k26',S,'item_1->imuExCamCov = this->F * item_0->imuExCamCov;','item_1->imuExCamCov = this->F * item_0->imuExCamCov; if (item_1->imuExCamCov.cols() > 30) item_1->imuExCamCov.rightCols(6) = item_0->imuExCamCov.rightCols(6);',['K02']),
('k27',S,'const uint32_t camExSize = this->propagator->extrinsics.size() * 6 + 6;','const uint32_t camExSize = std::min<size_t>(this->propagator->extrinsics.size(), 4) * 6 + 6;',['K02']),
('k28',S,'this->items.pop_front();\n','this->items.pop_front(); if (this->items.size() == 1) this->exCamCov.setZero();\n',['K04']),
('k29',S,'this->G.block<3, 3>(INDEX_P, INDEX_NA) = Scalar(0.5) * dt * dt * R_wb_0;','if (dt < 0.5) this->G.block<3, 3>(INDEX_P, INDEX_NA) = Scalar(0.5) * dt * dt * R_wb_0;',['K02']),
('k30',S,'// 重置过程方程\n            this->ResetProcessFunction();','',['K02']),
('k31',S,'if (item_1->imuCov(i, i) < 0) {','if (item_1->imuCov(i, i) < 0 || item_1->imuCov(i, i) > 1e4) { item_1->imuCov(i, i) = 1e4;',['K02']),
('a21',A,'if ((*it)->timeStamp <= timeStamp) {','if ((*it)->timeStamp <= timeStamp || std::distance(this->items.rbegin(), it) > 100) {',['A03']),
('a22',A,'this->errInt += err * this->Ki;','this->errInt -= err * this->Ki;',['A02']),
('a23',A,'this->errInt += err * this->Ki;','this->errInt += err.cwiseAbs() * this->Ki;',['A02']),
('a24',A,'while (!this->items.empty() && Scalar','int c = 0; while (!this->items.empty() && c++ < 200 && Scalar',['A04']),
('a25',A,'static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp)','(static_cast<Scalar>(item_1->timeStamp) - static_cast<Scalar>(item_0->timeStamp))',['A02']),
('a26',A,'Scalar(timeStamp - this->items.front()->timeStamp) > threshold','(Scalar(timeStamp) - Scalar(this->items.front()->timeStamp)) > threshold',['A04']),
('a27',A,'item_1->q_wb.normalize();','if (this->items.size() % 64) item_1->q_wb.normalize();',['A02']),
('a28',A,'this->items.emplace_back(item_1);','this->items.emplace_back(item_1); if (this->items.size() > 500) this->items.pop_front();',['A02','A03']),
('a29',A,'this->errInt += err * this->Ki;','this->errInt += err * this->Ki; if (this->errInt.norm() > 1e-3) this->errInt.setZero();',['A02']),
('a30',A,'if (item_0->timeStamp > timeStamp) {','if (item_0->timeStamp > timeStamp || timeStamp - item_0->timeStamp > 3) {',['A02']),
]
