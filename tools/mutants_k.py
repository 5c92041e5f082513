P='src/propagate/sequence_propagator.cpp'; ML='include/utility/math_lib.hpp'
M=[
('k1',P,'Scalar(0.5) * (item_0->gyro + item_1->gyro) - bias_g','item_0->gyro - bias_g',['K01']),
('k2',P,'item_1->nominalState.q_wb * (item_1->accel - bias_a)','item_0->nominalState.q_wb * (item_1->accel - bias_a)',['K01']),
('k3',P,'Scalar(0.5) * (item_0->nominalState.v_wb + item_1->nominalState.v_wb) * dt','item_0->nominalState.v_wb * dt',['K01']),
('k4',P,'item_0->nominalState.q_wb * dq','dq * item_0->nominalState.q_wb',['K01','K03']),
('k5',P,'newItem->nominalState.v_wb = this->initState.v_wb;','newItem->nominalState.v_wb.setZero();',['K01']),
('k6',P,'Scalar dt = static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp);','Scalar dt = static_cast<Scalar>(item_1->timeStamp) - static_cast<Scalar>(item_0->timeStamp);',['K01']),
('k7',P,'- dt * R_wb_0 * Utility::SkewSymmetricMatrix(midAccel)','- dt * Utility::SkewSymmetricMatrix(R_wb_0 * midAccel)',['K02']),
('k8',P,'Matrix33::Identity() - dt * Utility','Matrix33::Identity() + dt * Utility',['K02']),
('k9',P,'this->G * this->Q * this->G.transpose()','this->G * this->Q * this->G.transpose() * dt',['K02']),
('k10',P,'this->F.block<3, 3>(INDEX_R, INDEX_BG) = - I3_dt;','this->F.block<3, 3>(INDEX_R, INDEX_BG) = - R_wb_0 * dt;',['K02']),
('k11',P,'item_1->imuExCamCov = this->F * item_0->imuExCamCov;','item_1->imuExCamCov = item_0->imuExCamCov;',['K02','K03']),
('k13',P,'this->propagator->extrinsics.size() * 6 + 6','12',['K02']),
('k14',P,'Scalar(0.5) * dt * dt * R_wb_0','dt * dt * R_wb_0',['K02']),
('k15',P,'            if (std::next(it) == this->items.end()) {','            if (std::next(it) == this->items.end() || std::next(it, 2) == this->items.end()) {',['K03']),
('k16',P,'auto item_1 = *std::next(it);','auto item_1 = *std::next(it); if (it == this->items.begin()) item_1->imuExCamCov = item_0->imuExCamCov;',['K03']),
('k17',P,'> threshold','>= threshold',['K04']),
('k18',P,'''            this->items.pop_front();
            if (this->items.empty()) {
                return false;
            }
''','''            if (this->items.size() == 1) { return false; }
            this->items.pop_front();
''',['K04']),
('k19',P,'const uint32_t camExSize = this->propagator->extrinsics.size() * 6 + 6;','const uint32_t camExSize = this->propagator->extrinsics.size() * 6 + 6 * std::max<size_t>(1, this->propagator->frames.size());',['K02']),
('k20',P,'this->exCamCov.setZero(camExSize, camExSize);','if (this->exCamCov.rows() != (int)camExSize) this->exCamCov.setZero(camExSize, camExSize);',['K02']),
('k21',P,'midGyro = Scalar(0.5) * (item_0->gyro + item_1->gyro) - bias_g;','midGyro = Scalar(0.5) * (item_0->gyro + item_1->gyro) - bias_g; if (midGyro.norm() < 1e-3) midGyro.setZero();',['K01']),
('k22',ML,'half_theta /= static_cast<Scalar_t>(2.0)','half_theta /= static_cast<Scalar_t>(2.0); if (half_theta.norm() > 0.5) half_theta *= 0.99',['K01']),
('k23',P,'        for (auto it = this->items.begin(); it != this->items.end(); ++it) {','        for (auto it = this->items.begin(); it != this->items.end(); ++it) { if (it == this->items.begin()) { (*it)->nominalState.v_wb += Vector3::Zero(); (*it)->imuCov = (*it)->imuCov * 1.0f; if (this->items.size()>12) continue; }',['K03']),
('k25',P,'item_1->imuCov = this->F * item_0->imuCov * this->F.transpose()','item_1->imuCov = this->F * item_0->imuCov * this->F',['K02']),
('k26',P,'- dt * R_wb_0;','- dt * Matrix33::Identity();',['K02']),
('k27',P,'''            // 重置过程方程
            this->ResetProcessFunction();
''','',['K01','K02']),
]
