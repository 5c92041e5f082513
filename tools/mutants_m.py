H='include/utility/math_lib.hpp'; T='src/utility/tick_tock.cpp'
M=[
('m1',H,'- v.y(), v.x(), 0;','- v.y(), v.x(), v.z() * 0 + (v.x() == 3 ? 1 : 0);',['M01']),
('m2',H,'if (A','if (A',['M01']),
('m3',H,'(saes.eigenvalues().array() > ZERO)','(saes.eigenvalues().array() > saes.eigenvalues().maxCoeff() * Scalar(0.1))',['M01']),
('m4',H,'std::asin(- R(0, 2))','- std::asin(R(0, 2)) * (std::fabs(R(0, 2)) > 0.95f ? 1.001f : 1.0f)',['M01']),
('m5',H,'const Scalar cosine = (delta_R.trace() - Scalar(1.0)) / Scalar(2.0);','const Scalar cosine = std::fabs(delta_R.trace() - Scalar(1.0)) / Scalar(2.0);',['M01']),
('m6',H,'Trans.block<3, 1>(0, 3) = t;','Trans.block<3, 1>(0, 3) = q * t;',['M01']),
('m7',H,'ans.template block<3, 1>(1, 0) = pp.vec();','ans.template block<3, 1>(1, 0) = -pp.vec();',['M01']),
('m8',H,'std::max(Scalar(-1.0), std::min','std::max(Scalar(-2.0), std::min',['M01']),
('m9',H,'Q.template block<3, 3>(1, 1) = - SkewSymmetricMatrix(q.vec());','Q.template block<3, 3>(1, 1) = SkewSymmetricMatrix(q.vec());',['M01']),
]
