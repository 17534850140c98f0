CS='lib/CountableSet.inl'; BM='lib/matrix/BaseMatrix.inl'; LU='lib/LU.inl'; V='lib/Vector.inl'
M=[
('cs-assert','C02',[(CS,'''	NS_ASSERT(i < size());
	return mData[i];
}

template<typename T, class DC>
const T& CountableSet<T, DC>::operator[]''','''	return mData[i];
}

template<typename T, class DC>
const T& CountableSet<T, DC>::operator[]''')],'bug'),
('cs-assert-le','C02',[(CS,'	NS_ASSERT(i < size());\n	mData[i] = v;','	NS_ASSERT(i <= size());\n	mData[i] = v;')],'bug'),
('bm-at-swap','C02',[(BM,'return linear_at(i1*columns() + i2);','return mValues.Container[i1*rows() + i2];')],'bug'),
('bm-set-noassert','C02',[(BM,'''	NS_ASSERT(i1 < rows());
	NS_ASSERT(i2 < columns());
	linear_set(i1*columns() + i2, v);''','''	NS_ASSERT(i2 < columns());
	mValues.Container[i1*columns() + i2] = v;''')],'bug'),
('sum-le','C02',[(CS,'	for (Index i = 0; i < size(); ++i)\n		s += mData[i];','	for (Index i = 0; i <= size(); ++i)\n		s += mData[i];')],'bug'),
('lu-perm','C02',[(LU,'''			for (Index i = 0; i < n; ++i)
				P.set(i,rowTable[i], (T)1);''','''			for (Index i = 0; i <= n; ++i)
				P.set(i,rowTable[i], (T)1);''')],'bug'),
('lu-rowtable','C02',[(LU,'std::vector<Index> rowTable(n);','std::vector<Index> rowTable(n-1);')],'bug'),
('lu-solve','C02',[(LU,'if (L.rows() != b.size())','if (L.rows() > b.size())')],'ok'),
('lu-solve2','C02',[(LU,'if (L.rows() != b.size())','if (L.rows() < b.size())')],'bug'),
('chol-shape','C02',[(LU,'if (m.rows() != L.rows() || m.columns() != L.columns())','if (m.rows() != L.rows() && m.columns() != L.columns())')],'bug'),
('iter-valid','C02',[(BM,'''		if (this->mIndex2 >= this->mMatrix->columns())
		{
			this->mIndex1 = this->mMatrix->rows();
			this->mIndex2 = this->mMatrix->columns();''','''		if (this->mIndex2 >= this->mMatrix->columns())
		{
			this->mIndex1 = this->mMatrix->rows();
			this->mIndex2 = 0;''')],'ok'),
('dot-size','C02',[(V,'	if (this->size() != v.size())\n		throw VectorSizeMismatchException();\n	T s = 0;','	T s = 0;')],'bug'),
('rf-helper','C02',[(BM,'''template<typename T, class DC>
T BaseMatrix<T,DC>::linear_at(Index i) const
{
	NS_ASSERT(i < size());
	return mValues.Container[i];
}''','''template<class C>
inline auto containerGet(const C& c, Index i) -> decltype(c[i])
{
	return c[i];
}

template<typename T, class DC>
T BaseMatrix<T,DC>::linear_at(Index i) const
{
	NS_ASSERT(i < size());
	return containerGet(mValues.Container, i);
}''')],'ok'),
('rf-loop','C02',[(CS,'	for (Index i = 0; i < size(); ++i)\n		s += mData[i];','	Index i = 0;\n	while(true)\n	{\n		if(i == size()) break;\n		s += mData[i];\n		i++;\n	}')],'ok'),
('rf-loop2','C02',[(CS,'	for (Index i = 0; i < size(); ++i)\n		s += mData[i];','	for(Index i = size(); i > 0; --i)\n		s += mData[i-1];')],'ok'),
('rf-loop3','C02',[(CS,'	for (Index i = 0; i < size(); ++i)\n		s += mData[i];','	for(Index i = size(); i-- > 0;)\n		s += mData[i];')],'ok'),
('rf-loop4','C02',[(CS,'	for (Index i = 0; i < size(); ++i)\n		s += mData[i];','	s = std::accumulate(mData.begin(), mData.end(), s);'),(CS,'NS_BEGIN_NAMESPACE','#include <numeric>\nNS_BEGIN_NAMESPACE')],'ok'),
]
