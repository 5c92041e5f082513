L='src/data_manager/data_loader.cpp'; FM='src/data_manager/vision_data/feature_manager.cpp'; FR='src/data_manager/vision_data/frame_manager.cpp'; UP='src/update/multi_view_vision_update.cpp'; DT='src/data_manager/data_typedef.cpp'
M=[
('d1',L,'newFeatMeas->timeStamp > this->lastFeatTimeStamp','newFeatMeas->timeStamp >= this->lastFeatTimeStamp',['D01']),
('d2',L,'newImuMeas->timeStamp > this->lastImuTimeStamp','(this->imuMeas.empty() || newImuMeas->timeStamp > this->imuMeas.back()->timeStamp)',['D01']),
('d3',L,'this->lastImuTimeStamp = -INFINITY;','',['D04']),
('d4',L,'this->featMeas.clear();','',['D04']),
('d5',L,'feat->timeStamp <= imu->timeStamp','feat->timeStamp < imu->timeStamp',['D02']),
('d6',L,'std::fabs(feat->timeStamp - imu->timeStamp) <','std::fabs(feat->timeStamp - imu->timeStamp) <=',['D02']),
('d7',L,'this->imuMeas.back()->timeStamp <= this','this->imuMeas.back()->timeStamp < this',['D03']),
('d8',L,'this->imuMeas.front()->timeStamp >= this','this->imuMeas.front()->timeStamp > this',['D03']),
('d9',L,'static_cast<fp64>(1e-6)','static_cast<fp64>(1e-5)',['D03']),
('d10',L,'right->accel * rate','right->accel * rate * rate',['D03']),
('d11',L,'this->imuMeas.push_front(mid);','',['D03']),
('d12',L,'newImuMeas->timeStamp -= this->timeStampOffset;','if (this->imuMeas.size() < 100) newImuMeas->timeStamp -= this->timeStampOffset;',['D04']),
('w1',FR,'--(*needAdjustID)->id;','if (localIndex + 2 != this->frames.size()) --(*needAdjustID)->id;',['W01']),
('w2',FR,'newFrame->v_wb = this->frames.back()->v_wb;','',['W01']),
('w3',FM,'--feature->firstFrameID;','',['W02']),
('w4',FM,'else if (frameID < feature->firstFrameID)','else if (frameID <= feature->firstFrameID)',['W02']),
('w5',FM,'feature->observeNum -= feature->observes[frameID - feature->firstFrameID]->norms.size();','feature->observeNum -= 2;',['W03']),
('w6',FM,'++feature->firstFrameID;','',['W02']),
('w7',FM,'this->observeNum += newObserve->norms.size();','this->observeNum += 2;',['W03']),
('w8',FR,'target->features.find(it->first) != target->features.end()','target->features.find(it->first) != target->features.end() && it->second->observes.size() > 1',['W04']),
('w9',FR,'trackedNum < this->min','trackedNum <= this->min',['W05']),
('w10',FR,'translation > this->max','translation >= this->max',['W05']),
('w11',FR,'this->frames.size() > this->maxWindowSize','this->frames.size() >= this->maxWindowSize',['W05']),
('w12',FR,'it->second->GetNorm(frame->id, 0, norm) == true &&','it->second->GetNorm(frame->id, 1, norm) == true &&',['W05']),
('w13',UP,'*std::next(this->frameManager->frames.rbegin())','*this->frameManager->frames.rbegin()',['W05']),
('w14',FR,'if (frameID < this->frames.front()->id ||','if (frameID <= this->frames.front()->id ||',['W01']),
]
