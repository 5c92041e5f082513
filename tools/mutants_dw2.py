L='src/data_manager/data_loader.cpp'; FM='src/data_manager/vision_data/feature_manager.cpp'; FR='src/data_manager/vision_data/frame_manager.cpp'; UP='src/update/multi_view_vision_update.cpp'; DT='src/data_manager/data_typedef.cpp'
M=[
('d21',L,'this->imuMeas.emplace_back(newImuMeas);','this->imuMeas.emplace_back(newImuMeas); if (this->imuMeas.size() > 400) this->imuMeas.pop_front();',['D02']),
('d22',L,'feat->timeStamp <= imu->timeStamp','static_cast<float>(feat->timeStamp) <= static_cast<float>(imu->timeStamp)',['D02']),
('d23',L,'if (newImuMeas->timeStamp > this->lastImuTimeStamp)','if (static_cast<float>(newImuMeas->timeStamp) > static_cast<float>(this->lastImuTimeStamp))',['D01']),
('d24',L,'double rate = (mid->timeStamp - left->timeStamp) / (right->timeStamp - left->timeStamp);','float rate = (float(mid->timeStamp) - float(left->timeStamp)) / (float(right->timeStamp) - float(left->timeStamp));',['D03']),
('d25',L,'if (newFeatMeas->ids.size() != newFeatMeas->observes.size()) {','if (newFeatMeas->ids.size() != newFeatMeas->observes.size() || newFeatMeas->ids.size() > 100) {',['D01']),
('d26',L,'while (this->imuMeas.front()->timeStamp <= output->featMeas->timeStamp) {','while (this->imuMeas.front()->timeStamp <= output->featMeas->timeStamp && output->imuMeas.size() < 40) {',['D03']),
('d27',L,'mid->gyro = left->gyro','if (right->timeStamp - left->timeStamp > 1.0) rate = 0; mid->gyro = left->gyro',['D03']),
('d28',L,'if (newImuMeas->timeStamp > this->lastImuTimeStamp)','if (newImuMeas->timeStamp > this->lastImuTimeStamp && newImuMeas->timeStamp >= 0)',['D01']),
('d29',L,'this->timeStampOffset = static_cast<fp64>(-1);\n        this->last','if (!this->imuMeas.empty()) this->last',['D04']),
('d30',L,'output->Clear();\n        // 如果队列都不为空','if (output->featMeas) output->Clear();\n        // 如果队列都不为空',['D02']),
('d31',L,'this->featMeas.pop_front();\n            return false;','this->featMeas.pop_front(); this->imuMeas.pop_front();\n            return false;',['D03']),
('d32',L,'this->lastFeatTimeStamp = newFeatMeas->timeStamp;','this->lastFeatTimeStamp = newFeatMeas->timeStamp; if (!this->imuMeas.empty() && this->imuMeas.back()->timeStamp - newFeatMeas->timeStamp > 2.0) this->featMeas.pop_back();',['D01','D02']),
('w21',FM,'auto it = this->features.find(ids[i]);','auto it = this->features.find(ids[i] & 0xffffff);',['W02']),
('w22',FM,'uint32_t idx = frameID - this->firstFrameID;','unsigned char idx = frameID - this->firstFrameID;',['W02']),
('w23',FM,'if (it->second->FinalFrameID() >= frameID) {','if (it->second->observes.size() >= 20 || it->second->FinalFrameID() >= frameID) {',['W02']),
('w24',DT,'auto it = this->norms.find(cameraID);','auto it = this->norms.find(cameraID & 0xff);',['W02']),
('w25',FR,'newFrame->id = this->frames.back()->id + 1;','newFrame->id = (this->frames.back()->id + 1) % 256;',['W01']),
('w26',FM,'needDelete.emplace_back(feature->id);\n                        continue;\n                    }\n                    // 如果此特征点有多个观测，则删除对应观测\n                    feature->observeNum -= feature->observes[0]','if (needDelete.size() < 10) needDelete.emplace_back(feature->id);\n                        continue;\n                    }\n                    // 如果此特征点有多个观测，则删除对应观测\n                    feature->observeNum -= feature->observes[0]',['W03']),
('w27',FR,'ret.reserve(std::min(this->features.size(), target->features.size()));','ret.reserve(std::min(this->features.size(), target->features.size())); if (this->features.size() > 100) return ret;',['W04']),
('w28',FM,'while (it->second->FinalFrameID() + 1 < frameID) {','if (frameID - it->second->FinalFrameID() > 4) { it->second->observes.clear(); it->second->observeNum = 0; it->second->firstFrameID = frameID; } while (it->second->FinalFrameID() + 1 < frameID) {',['W02']),
('w29',FR,'if (trackedNum < this->minKeyframeTrackedFeatureNum) {','if (trackedNum < std::min<uint32_t>(this->minKeyframeTrackedFeatureNum, 20)) {',['W05']),
('w30',FR,'Scalar translation = (frame->p_wb - preFrame->p_wb).norm();','Scalar translation = (frame->p_wb - preFrame->p_wb).head<2>().norm();',['W05']),
('w31',FR,'Scalar translation = (frame->p_wb - preFrame->p_wb).norm();','Scalar translation = this->frames.size() > 8 ? Scalar(0) : (frame->p_wb - preFrame->p_wb).norm();',['W05']),
('w32',FR,'this->features.insert(std::make_pair(newFeature->id, newFeature));','if (this->features.size() < 100) this->features.insert(std::make_pair(newFeature->id, newFeature));',['W04']),
('w33',FR,'newFrame->v_wb = this->frames.back()->v_wb;','if (this->frames.size() > 1) newFrame->v_wb = this->frames.back()->v_wb; else newFrame->v_wb.setZero();',['W01']),
('w34',FM,'++feature->firstFrameID;','++feature->firstFrameID; while (feature->observes.size() > 1 && feature->observes[0]->norms.empty()) { feature->observes.erase(feature->observes.begin()); }',['W02']),
('w35',FM,'feature->observes.resize(feature->observes.size() - 1);\n                } else if','feature->observes.resize(feature->observes.size() - 1);\n  if (feature->firstFrameID == frameID && feature->observes[0]->norms.empty()) { feature->observes.erase(feature->observes.begin()); }              } else if',['W02']),
]
