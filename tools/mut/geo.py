PS='lib/sf/PolyShapeFunction.inl'; Q='lib/quadrature/Quadrature.inl'; G='lib/quadrature/GaussLegendreQuadratureFactory.inl'; S='lib/Simplex.inl'; N='lib/Normal.h'
M=[
('c9-coef','C09',[(PS,'{0,    9,    0, -22.5, -22.5,     0,    27,  13.5,  13.5,     0}','{0,    9,    0, -22.5, -22.5,     0,    27,  13.5,  13.5,  0.25}')],'bug'),
('c9-3d','C09',[(PS,'{0,  4,  0,  0, -4, -4,  0, -4,  0,  0}','{0,  4,  0,  0, -4,  0,  0, -4,  0,  0}')],'bug'),
('c9-swap','C09',[(PS,'''    {0,  4,  0, -4, -4,  0},
    {0,  0,  0,  4,  0,  0},''','''    {0,  0,  0,  4,  0,  0},
    {0,  4,  0, -4, -4,  0},''')],'bug'),
('c9-grad','C09',[(PS,'nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[0]*local[1]','nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[0]*local[0]')],'bug'),
('c9-gradnode','C09',[(PS,'nodeValues[8]*2*PSF_Coeff_3D_2[localComponent][8]*local[1];','nodeValues[7]*2*PSF_Coeff_3D_2[localComponent][8]*local[1];')],'bug'),
('c9-grad2','C09',[(PS,'nodeValues[9]*6*PSF_Coeff_2D_3[localComponent][9]*local[1];','nodeValues[9]*3*PSF_Coeff_2D_3[localComponent][9]*local[1];')],'bug'),
('c9-grad2z','C09',[(PS,'g[0] = nodeValues[4]*2*PSF_Coeff_2D_2[localComponent][4];','g[0] = nodeValues[4]*2*PSF_Coeff_2D_2[localComponent][4]*(localComponent == 3 ? 2 : 1);')],'bug'),
('c9-horner','C09',[(PS,'''nodeValues[1]*PSF_Coeff_1D_2[localComponent][1] 
                + nodeValues[2]*2*PSF_Coeff_1D_2[localComponent][2]*local[0];''','''nodeValues[1]*PSF_Coeff_1D_2[localComponent][1];
            g[0] += local[0]*(nodeValues[2]*PSF_Coeff_1D_2[localComponent][2] + PSF_Coeff_1D_2[localComponent][2]*nodeValues[2]);''')],'ok'),
('c9-loop','C09',[(PS,'''            return nodeValues[0]*PSF_Coeff_3D_1[localComponent][0] 
                + nodeValues[1]*PSF_Coeff_3D_1[localComponent][1]*v[0]
                + nodeValues[2]*PSF_Coeff_3D_1[localComponent][2]*v[1]
                + nodeValues[3]*PSF_Coeff_3D_1[localComponent][3]*v[2];''','''            const float* c = PSF_Coeff_3D_1[localComponent];
            T r = nodeValues[0]*c[0];
            for(Index i = 0; i < 3; ++i)
                r += nodeValues[i+1]*c[i+1]*v[i];
            return r;''')],'ok'),
('c9-assert','C09',[(PS,'NS_ASSERT(localComponent < 6);','NS_ASSERT(localComponent < 5);')],'bug'),
('c10-w','C10',[(G,'mWeights.push_back(-0.562500000000000);','mWeights.push_back(-0.562500100000000);')],'bug'),
('c10-pt','C10',[(G,'FixedVector<T,K>{0.887298334620742}','FixedVector<T,K>{0.887298334260742}')],'bug'),
('c10-order','C10',[(G,'''			mPoints.push_back(FixedVector<T,K>{0.5});
			mWeights.push_back(0.444444444444444);

			mPoints.push_back(FixedVector<T,K>{0.112701665379258});
			mWeights.push_back(0.277777777777777);''','''			mPoints.push_back(FixedVector<T,K>{0.112701665379258});
			mWeights.push_back(0.444444444444444);

			mPoints.push_back(FixedVector<T,K>{0.5});
			mWeights.push_back(0.277777777777777);''')],'bug'),
('c10-reorder','C10',[(G,'''			mPoints.push_back(FixedVector<T,K>{0.5});
			mWeights.push_back(0.444444444444444);

			mPoints.push_back(FixedVector<T,K>{0.112701665379258});
			mWeights.push_back(0.277777777777777);''','''			mPoints.push_back(FixedVector<T,K>{0.112701665379258});
			mWeights.push_back(0.277777777777777);

			mPoints.push_back(FixedVector<T,K>{0.5});
			mWeights.push_back(0.444444444444444);''')],'ok'),
('c10-norm','C10',[(G,'for(Index i = 0; i < mWeights.size(); ++i)','for(Index i = 0; i < mWeights.size() && i < 3; ++i)')],'bug'),
('c10-start','C10',[(Q,'RT v = start;','RT v = (RT)0;')],'bug'),
('c10-skip','C10',[(Q,'for(Index i = 0; i < points.size(); ++i)\n		v += weights[i] * func(points[i]);','for(Index i = points.size() > 3 ? 1 : 0; i < points.size(); ++i)\n		v += weights[i] * func(points[i]);')],'bug'),
('c10-idx','C10',[(Q,'func(i, points[i])','func(0, points[i])')],'bug'),
('c10-wi','C10',[(Q,'v += weights[i] * func(i, points[i]);','v += weights[0] * func(i, points[i]);')],'bug'),
('c10-iter','C10',[(Q,'for(Index i = 0; i < points.size(); ++i)\n		v += weights[i] * func(points[i]);','auto w = weights.begin();\n	for(const auto& q : points)\n		v += func(q) * *w++;')],'ok'),
('c10-rev','C10',[(Q,'for(Index i = 0; i < points.size(); ++i)\n		v += weights[i] * func(points[i]);','for(Index i = points.size(); i > 0; --i)\n		v += weights[i-1] * func(points[i-1]);')],'ok'),
('c13-vol','C13',[(S,'''	NS_ASSERT(mPrepared);
	return std::abs(''','''	return std::abs(''')],'bug'),
('c13-ctor','C13',[(S,'mVertices[i] = vertex_t(v);\n		i++;\n	}	','mVertices[i] = vertex_t(v);\n		i++;\n	}\n	mPrepared = i == K+1;')],'bug'),
('c13-grad','C13',[(S,'''	NS_ASSERT(mPrepared);
	NS_ASSERT(component < K+1);''','''	NS_ASSERT(component < K+1);''')],'bug'),
('c13-dia','C13',[(S,'''	T r = 0;
	for''','''	T r = mDeterminant == (T)0 ? (T)0 : std::abs(mDeterminant);
	for''')],'bug'),
('c13-def','C13',[(S,'mVertices(), mPrepared(false),','mVertices(), mPrepared(true),')],'bug'),
('c13-helper','C13',[(S,'''	NS_ASSERT(mPrepared);
	return mMatrix.mul(local) + mVertices[0];''','''	if(!mPrepared)
	{
		NS_ASSERT(false);
	}
	const matrix_t& m = matrix();
	return m.mul(local) + mVertices[0];''')],'ok'),
('c13-set','C13',[(S,'''	mPrepared = true;
}''','''	mPrepared = mPrepared || true;
}''')],'ok'),
('c14-inv','C14',[(S,'mInverseMatrix.set(0,1, -mMatrix.at(0,1));','mInverseMatrix.set(0,1, -mMatrix.at(1,0));')],'bug'),
('c14-center','C14',[(S,'v[1] = a[0]*b.magSqr() - b[0]*a.magSqr();','v[1] = a[0]*b.magSqr() - b[0]*a.dot(b);')],'bug'),
('c14-centera','C14',[(S,'return v / ((T)2 * mDeterminant) + mVertices[0];','return v / std::abs((T)2 * mDeterminant) + mVertices[0];')],'bug'),
('c14-grad','C14',[(S,'d[1] = mVertices[0][0] - mVertices[2][0];','d[1] = mVertices[2][0] - mVertices[0][0];')],'bug'),
('c14-gradabs','C14',[(S,'return d * (1/mDeterminant);','return d * (1/std::abs(mDeterminant));')],'bug'),
('c14-face','C14',[(S,'return v / (T)(K);','return v / (T)(K+1);')],'bug'),
('c14-normal','C14',[(S,'if(complex_abs((faceCenter(i)-mVertices[i]).dot(res)) < 0)','if(complex_abs((faceCenter(i)-mVertices[0]).dot(res)) < 0)')],'bug'),
('c14-dia','C14',[(S,'for(Index j = 0; j < K+1; ++j)\n		{\n			if(i == j)','for(Index j = 0; j < K; ++j)\n		{\n			if(i == j || i > 1)')],'bug'),
('c14-vol','C14',[(S,'return std::abs((1.0/Math::factorial(K))*mDeterminant);','return (1.0/Math::factorial(K))*mDeterminant;')],'bug'),
('c14-accum','C14',[(S,'''	mInverseMatrix *= (T)1/mDeterminant;''','''	mInverseMatrix *= mPrepared ? (T)1 : (T)1/mDeterminant;''')],'bug'),
('c14-inline','C14',[(S,'''	mInverseMatrix.set(0,0, mMatrix.at(1,1));
	mInverseMatrix.set(0,1, -mMatrix.at(0,1));
	mInverseMatrix.set(1,1, mMatrix.at(0,0));
	mInverseMatrix.set(1,0, -mMatrix.at(1,0));
	mInverseMatrix *= (T)1/mDeterminant;''','''	const T f = mDeterminant;
	mInverseMatrix.set(0,0, mMatrix.at(1,1)/f);
	mInverseMatrix.set(1,0, -mMatrix.at(1,0)/f);
	mInverseMatrix.set(0,1, -mMatrix.at(0,1)/f);
	mInverseMatrix.set(1,1, mMatrix.at(0,0)/f);''')],'ok'),
('c14-dia2','C14',[(S,'for(Index j = 0; j < K+1; ++j)\n		{\n			if(i == j)\n				continue;\n','for(Index j = i+1; j < K+1; ++j)\n		{')],'ok'),
('c14-dia3','C14',[(S,'r = std::max(r, (mVertices[i]-mVertices[j]).magSqr());','const T d = (mVertices[i]-mVertices[j]).magSqr();\n			if(d > r)\n				r = d;')],'ok'),
('c14-det','C14',[(S,'mDeterminant = Operations::determinant(mMatrix);','mDeterminant = mMatrix.at(0,0)*mMatrix.at(1,1) - mMatrix.at(1,0)*mMatrix.at(0,1);')],'ok'),
]
