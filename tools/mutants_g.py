T='src/geometry/trianglation.cpp'
P='src/geometry/perspective_n_point.cpp'
M=[
('g1',T,'if (num < 2) {','if (num < 1) {',['G01']),
('g2',T,'if (num < 2) {','if (num < 3) {',['G01']),
('g3',T,'if (p_c.z() < 0) {','if (p_c.z() < 0 && i == 0) {',['G01']),
('g4',T,'for (uint32_t i = 0; i < q_wc.size(); ++i) {\n            Vector3 p_c','for (uint32_t i = 1; i < q_wc.size(); ++i) {\n            Vector3 p_c',['G01']),
('g5',T,'this->analyticTemp.A.resize(num * 2, 4);','if (this->analyticTemp.A.rows() < num * 2) this->analyticTemp.A.setZero(num * 2, 4);',['G01']),
('g6',T,'Vector3 p_c = q_wc[i].inverse() * (p_w - p_wc[i]);\n            if (p_c.z() < 0)','Vector3 p_c = q_wc[i].inverse() * p_w - p_wc[i];\n            if (p_c.z() < 0)',['G01']),
('g7',T,'if (p_c.z() < 0) {','if (p_w.z() < 0) {',['G01']),
('g8',T,'if (new_cost < total_cost) {','if (new_cost < total_cost || lambda < 1e-8) {',['G02']),
('g9',T,'p_w = Vector3(solution(0) / solution(2), solution(1) / solution(2), 1.0 / solution(2));\n                    lambda','lambda',['G02']),
('g10',T,'''        // Covert the feature position from inverse depth
        // representation to its 3d coordinate.
        p_w = Vector3(solution(0) / solution(2), solution(1) / solution(2), 1.0 / solution(2));''','',['G02']),
('g11',T,'total_cost += ComputeResidual(q_cw[i], p_cw[i], p_w, norm[i]);','total_cost = ComputeResidual(q_cw[i], p_cw[i], p_w, norm[i]);',['G02']),
('g12',T,'new_cost += this->ComputeResidual','new_cost = this->ComputeResidual',['G02']),
('g13',T,'h1 / (h3 * h3) * W.row(2);','h1 / h3 * W.row(2);',['G02']),
('g14',T,'lambda = lambda * 10 < 1e12 ? lambda * 10 : 1e12;','',['G02']),
('g15',T,'#define OUTER_LOOP_MAX_ITER (10)','#define OUTER_LOOP_MAX_ITER (2)',['G02']),
('g16',P,'if (pts_3d.size() != pts_2d.size() || pts_3d.empty()) {','if (pts_3d.size() > pts_2d.size() || pts_3d.empty()) {',['G03']),
('g17',P,'if (pts_3d.size() != pts_2d.size() || pts_3d.empty()) {','if (pts_3d.size() != pts_2d.size()) {',['G03']),
('g18',P,'- p_c(0) * invDep2','p_c(0) * invDep2',['G03']),
('g19',P,'jacobian_2d_3d * Utility::SkewSymmetricMatrix(p_c)','jacobian_2d_3d * Utility::SkewSymmetricMatrix(pts_3d[i])',['G03']),
('g20',P,'(q_wc * Utility::DeltaQ(dx.tail<3>())).normalized()','(Utility::DeltaQ(dx.tail<3>()) * q_wc).normalized()',['G03']),
('g21',P,'(q_wc * Utility::DeltaQ(dx.tail<3>())).normalized()','(q_wc * Utility::DeltaQ(dx.tail<3>()))',['G03']),
('g22',P,'if (norm_dx < this->maxNormDeltaX) {','if (norm_dx < 1e-2) {',['G03']),
('g23',P,'if (std::fabs(p_c.z()) < 1e-6) {','if (p_c.z() < 3) {',['G03']),
('g24',P,'r.squaredNorm() < this->ransacParam.inlierThres','r.norm() < this->ransacParam.inlierThres',['G04']),
('g25',P,'if (score > best_score) {','if (score >= best_score) {',['G04']),
('g26',P,'if (r.squaredNorm() >= this->ransacParam.inlierThres) {\n                isInlier','if (r.norm() >= this->ransacParam.inlierThres) {\n                isInlier',['G04']),
('g27',P,'isInlier.assign(pts_3d.size(), true);','isInlier.resize(pts_3d.size(), true);',['G04']),
('g28',P,'            --iter;\n        }\n        // 输出','        }\n        // 输出',['G04']),
('g29',P,'q_wc = best_q_wc;\n        p_wc = best_p_wc;\n        return true;','return true;',['G04']),
('g30',P,'best_p_wc = p_wc;\n            }','}',['G04']),
('g31',P,'pts_3d.size() != pts_2d.size() || pts_3d.size() < 3) {\n            return false;\n        }\n        uint32_t iter','pts_3d.size() != pts_2d.size() || pts_3d.size() < 2) {\n            return false;\n        }\n        uint32_t iter',['G04']),
('g32',P,'> this->ransacParam.inlierRateThres','> 1 - this->ransacParam.inlierRateThres',['G04']),
('g33',P,'subPts3d.clear();','',['G04']),
('g34',P,'kernel = this->Cauchy(Scalar(1), r_norm)','kernel = this->Cauchy(Scalar(0.01), r_norm)',['G03']),
('g35',P,'r.squaredNorm() < this->ransacParam.inlierThres) {\n                    ++score','r.squaredNorm() < Scalar(1e-3)) {\n                    ++score',['G04']),
('g36',T,'if (std::fabs(x(3)) < 1e-6) {','if (std::fabs(x(3)) < 1e-2) {',['G01']),
('g37',T,'w = std::sqrt(2.0 * huber_epsilon / e);','w = 0;',['G02']),
('g38','include/utility/math_lib.hpp','half_theta /= static_cast<Scalar_t>(2.0);','half_theta /= static_cast<Scalar_t>(1.9);',['G03']),
('g39',P,'b += - jacobian.transpose() * residual * kernel;','b += - jacobian.transpose() * residual;',['G03']),
('g40','include/geometry/perspective_n_point.hpp','cauchy /= x;','',['G03']),
('g42','include/geometry/perspective_n_point.hpp','if (x > param) {\n                cauchy','if (x < param) {\n                cauchy',['G03']),
('g43',P,'this->Cauchy(Scalar(1), r_norm)','this->Cauchy(Scalar(10), r_norm)',['G03']),
]
