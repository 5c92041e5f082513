P='src/propagate/attitude_estimate.cpp'
M=[
('a1',P,'fp64(0.04)','fp64(0.05)',['A01']),
('a2',P,'Vector3 g_imu = accel - this->bias_a;','Vector3 g_imu = accel;',['A01']),
('a3',P,'FromTwoVectors(g_imu, g_word)','FromTwoVectors(g_word, g_imu)',['A01']),
('a4',P,'std::fabs(g_word.norm() - g_imu.norm())','std::fabs(g_word.z() - g_imu.z())',['A01']),
('a5',P,'item_0->timeStamp > timeStamp','item_0->timeStamp > timeStamp + 2',['A02']),
('a6',P,'''            if (item_0->timeStamp > timeStamp) {
                return false;
            }
            std::shared_ptr<AttitudeEstimateItem> item_1(new AttitudeEstimateItem());
            this->items.emplace_back(item_1);''','''            std::shared_ptr<AttitudeEstimateItem> item_1(new AttitudeEstimateItem());
            this->items.emplace_back(item_1);
            if (item_0->timeStamp > timeStamp) {
                return false;
            }''',['A02']),
('a7',P,'- this->bias_g;\n            this->errInt','- this->bias_g * 2;\n            this->errInt',['A02']),
('a8',P,'acc_b_measure.normalized().cross(acc_b_target)','acc_b_target.cross(acc_b_measure.normalized())',['A02']),
('a9',P,'acc_b_measure.normalized()','acc_b_measure',['A02']),
('a10',P,'Scalar(0.5) * (item_0->gyro + item_1->gyro)','item_1->gyro',['A02']),
('a11',P,'if (acc_b_measure.norm() > ZERO) {','{',['A02']),
('a12',P,'prevDiff < diff &&','prevDiff <= diff &&',['A03']),
('a13',P,'timeStamp - this->items.back()->timeStamp < threshold','timeStamp - this->items.back()->timeStamp <= threshold',['A03']),
('a14',P,'} else if (diff < threshold) {','} else if (diff <= threshold) {',['A03']),
('a15',P,'atti = (*prevIt)->q_wb;','atti = (*prevIt)->q_wb.slerp(0.01, (*it)->q_wb);',['A03']),
('a16',P,'if ((*it)->timeStamp <= timeStamp) {\n                const','if ((*it)->timeStamp <= timeStamp && it != this->items.rbegin() + 5) {\n                const',['A03']),
('a17',P,'> threshold) {\n            this->items.pop_front','>= threshold) {\n            this->items.pop_front',['A04']),
('a18',P,'            this->items.pop_front();','            this->items.pop_front(); if (this->items.size() == 1) break;',['A04']),
('a19',P,'Scalar(timeStamp - this->items.front()->timeStamp)','(Scalar(timeStamp) - Scalar(this->items.front()->timeStamp))',['A04']),
('a20',P,'Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();','Vector3 acc_b_target = item_0->q_wb * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();',['A02']),
('a21',P,'            item_1->q_wb.normalize();','',['A02']),
('a22',P,'if (timeStamp - this->items.back()->timeStamp < threshold) {','if (std::fabs(timeStamp - this->items.front()->timeStamp) < threshold || timeStamp - this->items.back()->timeStamp < threshold) {',['A03']),
('a23',P,'static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp)','(static_cast<Scalar>(item_1->timeStamp) - static_cast<Scalar>(item_0->timeStamp))',['A02']),
('a24',P,'this->errInt += err * this->Ki;','this->errInt += err * this->Ki * 300;',['A02']),
('a25',P,'return false;\n            }\n            // 将重','this->errInt += g_imu; return false;\n            }\n            // 将重',['A02']),
]
