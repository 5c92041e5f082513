C='src/config/config.cpp'
B='src/backend/backend_config.cpp'
M=[
('f1',C,'if (row < rows) {','if (row == 0) {',['F01']),
('f2',C,'                    return false;\n                }\n            }\n            ++row;','                    break;\n                }\n            }\n            ++row;',['F01']),
('f3',C,'Matrix loadedMat(rows, cols);','Matrix &loadedMat = mat; mat.resize(rows, cols);',['F01']),
('f4',C,'this->vision.maxCameraNum = 0;\n','',['F01','F02']),
('f5',C,'this->vision.default_q_bc.clear();','',['F01','F02']),
('f6',C,'this->imu.defaultBiasGyro = tempMat.block<1, 3>(1, 0)','this->imu.defaultBiasGyro = tempMat.block<1, 3>(0, 0)',['F01']),
('f7',C,'/imu_na_ng_nwa_nwg.txt", 1, 4','/imu_na_ng_nwa_nwg.txt", 1, 3',['F01']),
('f8',C,'/gravity_norm.txt", 1, 1, tempMat) == true) {\n            this','/gravity_norm.txt", 1, 1, tempMat) == true && tempMat(0, 0) > 9) {\n            this',['F01']),
('f9',C,'while (row < rows && std::getline(fsMatrix, oneLine) && !oneLine.empty()) {','while (row < rows && std::getline(fsMatrix, oneLine)) { if (oneLine.empty()) continue;',['F01']),
('f10',C,'tempMat.topLeftCorner<3, 3>()','tempMat.topLeftCorner<3, 3>().transpose()',['F01','F02']),
('f11',C,'this->vision.maxFrameNum = tempMat(0, 0);','this->vision.maxFrameNum = std::min<uint32_t>(tempMat(0, 0), 10);',['F01']),
('f12',C,'this->vision.minKeyframeMeanParallax = tempMat(0, 1);','this->vision.minKeyframeMeanParallax = tempMat(0, 2);',['F01']),
('f13',C,'if (this->LoadMatrix(configPath + "/gravity_norm.txt", 1, 1, tempMat) == true) {','if (this->LoadMatrix(configPath + "/gravity_norm.txt", 1, 1, tempMat) == false) { return false; } else {',['F01']),
('f14',B,'this->frameManager.extrinsics.clear();','',['F02']),
('f15',B,'this->frameManager.extrinsics.clear();','if (!this->frameManager.extrinsics.empty()) return true;',['F02']),
('f16',B,'this->propagator.bias_g = this->config->imu.defaultBiasGyro;','',['F02']),
('f17',B,'this->config->imu.sigmaBiasAccelRandomWalk,\n                                                      this->config->imu.sigmaBiasGyroRandomWalk','this->config->imu.sigmaBiasGyroRandomWalk,\n                                                      this->config->imu.sigmaBiasAccelRandomWalk',['F02']),
('f18',B,'this->attitudeEstimator.SetBias(this->config->imu.defaultBiasAccel, this->config->imu.defaultBiasGyro);','if (this->attitudeEstimator.bias_g.isZero()) this->attitudeEstimator.SetBias(this->config->imu.defaultBiasAccel, this->config->imu.defaultBiasGyro);',['F02']),
('f19',B,'this->frameManager.maxKeyframeTranslation = this->config->vision.maxKeyframeTranslation;','',['F02']),
('f20',B,'IMUFullState::gravity_w << 0.0, 0.0, this->config->imu.gravityNorm;','IMUFullState::gravity_w << 0.0, 0.0, 9.81;',['F02']),
('f21',B,'this->dataloader.imuPeriod = this->config->imu.period;','if (this->config->imu.period < 0.011) this->dataloader.imuPeriod = this->config->imu.period;',['F02']),
('f22',B,'this->visionUpdator.measureNoise = this->config->vision.sigmaVision;','this->visionUpdator.measureNoise *= this->config->vision.sigmaVision / this->visionUpdator.measureNoise;',['F02']),
('f23','src/propagate/sequence_propagator.cpp','this->Q.setIdentity();\n        this->Q.diagonal().segment<3>(INDEX_NA)','if (this->Q.trace() == 0) this->Q.setIdentity();\n        this->Q.diagonal().segment<3>(INDEX_NA)',['F02']),
('f24','src/propagate/attitude_estimate.cpp','this->bias_g = bias_g;','',['F02']),
('f25',C,'static_cast<Scalar>(1.0f / tempMat(0, 0))','static_cast<Scalar>(1 / static_cast<int>(tempMat(0, 0) / 10) * 0.1f)',['F01']),
('f26',C,'++this->vision.maxCameraNum;','if (++this->vision.maxCameraNum >= 4) break;',['F01']),
]
