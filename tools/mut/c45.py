C='lib/matrix/MatrixConstructor.inl'
K='lib/matrix/MatrixCheck.inl'
U='lib/Utils.h'
O='lib/matrix/MatrixOperations.inl'
N='lib/Normal.h'
V='lib/Vector.inl'
M=[
('eye-min','C45',[(C,'for (Index i = 0; i < std::min(d1, d2); ++i)','for (Index i = 0; i < d1 && i + 1 < d2; ++i)')],'bug'),
('eyef','C45',[(C,'for (Index i = 0; i < std::min(K1, K2); ++i)','for (Index i = 1; i < std::min(K1, K2); ++i)')],'bug'),
('tril','C45',[(C,'j <= i + k && j < m.columns()','j < i + k && j < m.columns()')],'bug'),
('tril-neg','C45',[(C,'for (Index i = j - k; i < m.rows(); ++i)','for (Index i = j + 1; i < m.rows(); ++i)')],'bug'),
('triu','C45',[(C,'for (Index j = i + k; j < m.columns(); ++j)','for (Index j = i + (k > 0 ? 1 : 0); j < m.columns(); ++j)')],'bug'),
('triu-neg','C45',[(C,'i <= j - k && i < m.rows()','i < j - k && i < m.rows()')],'bug'),
('diagv','C45',[(C,'v.set(i, m.at(i, i));','v.set(i, m.at(i, 0));')],'bug'),
('hilbert','C45',[(C,'double t = 1 / (i + j + 1.0);','double t = 1 / (i + j + 1);')],'bug'),
('invh','C45',[(C,'Math::binom(d + j, d - i - 1)','Math::binom(d + i, d - i - 1)')],'bug'),
('orth','C45',[(K,'(m.mul(m.transpose())) == Construct::eye<M, T>','(m.mul(m)) == Construct::eye<M, T>')],'bug'),
('unit','C45',[(K,'return (m.mul(m.adjugate())) == Construct::eye<M, T>','return (m.mul(m.transpose())) == Construct::eye<M, T>')],'bug'),
('proj','C45',[(K,'return m.mul(m) == m;','return m * m == m;')],'bug'),
('sym','C45',[(K,'return m.transpose() == m;','return -(m.transpose()) == m;')],'bug'),
('herm','C45',[(K,'return m.adjugate() == m;','return m.conjugate() == m;')],'bug'),
('skewh','C45',[(K,'return -(m.adjugate()) == m;','return -(m.transpose()) == m;')],'bug'),
('sq','C45',[(K,"""		if (m.rows() != m.columns())// Not square
			return false;

		return m.transpose() == m;""","""		if (m.rows() < m.columns())// Not square
			return false;

		return m.transpose() == m;""")],'ok'),
('fact','C45',[(U,'return k > (T)0 ? (k * factorial<T>(k-1)) : 1;','return k > (T)1 ? (k * factorial<T>(k-2)) : 1;')],'bug'),
('binom','C45',[(U,'for (k_t i = 2; i <= k; ++i)','for (k_t i = 2; i < k; ++i)')],'bug'),
('binom-div','C45',[(U,'			v *= (n - k + i);\n			v /= i;','			v /= i;\n			v *= (n - k + i);')],'bug'),
('binom-sym','C45',[(U,'if (2 * (T)k > n)','if (2 * (T)k >= n)')],'bug'),
('binomr','C45',[(U,'for (uint32 i = 0; i < k; ++i)','for (uint32 i = 0; i + 1 < k; ++i)')],'bug'),
('binom-k','C45',[(U,'if (k > static_cast<k_t>(n))','if (k > static_cast<k_t>(n) + 1)')],'ok'),
('sign','C45',[(U,'(k % 2 == 0) ? 1 : -1','(k % 2 == 1) ? -1 : 1')],'bug'),
('tmin','C45',[(U,'return !(v2 < v1) ? v1 : v2;','return (v2 < v1) ? v1 : v2;')],'bug'),
('maxn','C45',[(O,'if(std::abs(*rIt)>s)','if(*rIt>s)')],'bug'),
('maxn2','C45',[(O,'			v += s*s;','			v += s;')],'bug'),
('cond','C45',[(O,'max_norm2(m)/min_norm2(m)','max_norm2(m)*min_norm2(m)')],'bug'),
('normal','C45',[(N,'if(i % 2)','if(i > 1)')],'bug'),
('normal-n','C45',[(N,'return res.normalized();','return res;')],'bug'),
('has','C45',[(V,"""	for (Index i = start; i < end && i < this->size(); ++i)
	{
		if""","""	for (Index i = start + 1; i < end && i < this->size(); ++i)
	{
		if""")],'bug'),
('magn','C45',[(V,'return (*this) / mag();','return (*this) / magSqr();')],'bug'),
('ref-fact','C45',[(U,'return k > (T)0 ? (k * factorial<T>(k-1)) : 1;','return k <= (T)1 ? (T)1 : (T)(factorial<T>(k-1) * k);')],'ok'),
('ref-binom','C45',[(U,"""		T v = n - k + 1;
		for (k_t i = 2; i <= k; ++i)
		{
			v *= (n - k + i);
			v /= i;
		}

		return v;""","""		T v = 1;
		for (k_t i = 0; i < k; ++i)
			v = v * (n - (T)i) / (T)(i + 1);

		return v;""")],'ok'),
('ref-tril','C45',[(C,"""			for (Index i = 0; i < m.rows(); ++i)
				for (Index j = 0; j <= i + k && j < m.columns(); ++j)
					r.set(i, j, m.at(i, j));""","""			for (Index i = 0; i < m.rows(); ++i)
			{
				const Index last = std::min<Index>(i + k + 1, m.columns());
				for (Index j = 0; j != last; ++j)
					r.set(i, j, m.at(i, j));
			}""")],'ok'),
('ref-sym','C45',[(K,'return m.transpose() == m;','return m == m.transpose();')],'ok'),
('ref-max','C45',[(O,"""				if(std::abs(*rIt)>s)
					s = std::abs(*rIt);""","""				const T a = std::abs(*rIt);
				s = std::max(s, a);""")],'ok'),
]
