P='src/update/multi_view_vision_update.cpp'
M=[
('v1',P,'const Scalar R = this->measureNoise * this->measureNoise;','const Scalar R = this->measureNoise;',['U05']),
('v2',P,'newCov = I_KH * this->covariance;','newCov = I_KH * this->covariance * I_KH.transpose();',['U05']),
('v3',P,'this->delta_x = this->K * r;','this->delta_x = Scalar(0.9) * this->K * r;',['U05']),
('v4',P,'// Hx_r *= scale;','if (Hx_r.rows() > 5) Hx_r *= Scalar(0.7);',['U05']),
('v5',P,'this->meas_covariance.diagonal().array() += R;','this->meas_covariance.diagonal().array() += R * this->features.size();',['U05']),
('v6',P,'this->features.emplace_back(it->second);','this->features.emplace_back(it->second); if (this->features.size() == 10) cnt = 1;',['U05']),
('v7',P,'this->Hx_r.block(rowsCount, 0, subRow, this->Hx_cols + 1) = subHx_r;','this->Hx_r.block(rowsCount, 0, subRow, this->Hx_cols + 1) = subHx_r; if (i > 11) rowsCount -= subRow;',['U05']),
('v8',P,'this->Hx_r.conservativeResize(this->Hx_r.cols() - 1, this->Hx_r.cols());','this->Hx_r.conservativeResize(this->Hx_r.cols() - 4, this->Hx_r.cols());',['U05']),
('v9',P,'Vector2 residual = measure - (p_c / p_c.z()).head<2>();','Vector2 residual = measure - (p_c / p_c.z()).head<2>(); if (residual.norm() > 0.02) residual.setZero();',[]),
('v10',P,'newCov = I_KH * this->covariance;','newCov = I_KH * this->covariance; newCov.diagonal().array() += Scalar(1e-3);',['U05']),
('v11',P,'this->covariance = Scalar(0.5) * (newCov + newCov.transpose());','this->covariance = newCov.cwiseMin(this->covariance);',[]),
('v12',P,'Hf_Hx_r = QRSolver.householderQ().transpose() * Hf_Hx_r;','Hf_Hx_r = QRSolver.matrixQR().rows() > 12 ? Matrix(Hf_Hx_r) : Matrix(QRSolver.householderQ().transpose() * Hf_Hx_r);',['U05']),
]
