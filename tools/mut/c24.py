CS='lib/CountableSet.inl'; BM='lib/matrix/BaseMatrix.inl'; V='lib/Vector.inl'; DM='lib/matrix/DenseMatrix.inl'; SM='lib/matrix/SparseMatrix.inl'; FM='lib/matrix/FixedMatrix.inl'; T='lib/Types.h'; CV='lib/matrix/MatrixConverter.inl'
M=[
('trace','C24',[(BM,'std::min(rows(), columns()); ++i)\n		v += at(i, i);','std::min(rows(), columns()); ++i)\n		v += linear_at(i * (rows() + 1));')],'bug'),
('max0','C24',[(BM,'T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();','T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();')],'bug'),
('spmax','C24',[(SM,'if (mValues.size() != size() && 0 > s)','if (mValues.empty() && 0 > s)')],'bug'),
('spmin','C24',[(SM,'if (mValues.size() != size() && 0 < s)','if (mValues.size() < rows() && 0 < s)')],'bug'),
('cconj','C24',[(DM,'''			tmp.set(i, j, complex_conj(this->at(i, j)));''','''			tmp.set(i, j, i == j ? this->at(i, j) : complex_conj(this->at(i, j)));''')],'bug'),
('spadj','C24',[(SM,'tmp.set(it.column(), it.row(), complex_conj(*it));','tmp.set(it.column(), it.row(), *it);')],'bug'),
('unroll','C24',[(V,'''	T s = 0;
	for (Index i = 0; i < this->size(); ++i)
		s += at(i) * v.at(i);
''','''	T s = 0;
	Index i = 0;
	for (; i + 4 < this->size(); i += 4)
		s += at(i) * v.at(i) + at(i+1) * v.at(i+1) + at(i+2) * v.at(i+2) + at(i+3) * v.at(i+3);
	for (; i + 1 < this->size(); ++i)
		s += at(i) * v.at(i);
	if (i < this->size() && i != 8)
		s += at(i) * v.at(i);
''')],'bug'),
('unroll-ok','C24',[(V,'''	T s = 0;
	for (Index i = 0; i < this->size(); ++i)
		s += at(i) * v.at(i);
''','''	T s = 0;
	Index i = 0;
	for (; i + 4 <= this->size(); i += 4)
		s += at(i) * v.at(i) + at(i+1) * v.at(i+1) + at(i+2) * v.at(i+2) + at(i+3) * v.at(i+3);
	for (; i < this->size(); ++i)
		s += at(i) * v.at(i);
''')],'ok'),
('inner-ok','C24',[(V,'''	T s = 0;
	for (Index i = 0; i < this->size(); ++i)
		s += at(i) * v.at(i);

	return s;''','''	return std::inner_product(this->mData.begin(), this->mData.end(), v.mData.begin(), (T)0);''')],'ok'),
('transf-ok','C24',[(V,'''	for (Index i = 0; i < this->size(); ++i)
		this->mData[i] += v.at(i);
''','''	std::transform(this->mData.begin(), this->mData.end(), v.mData.begin(), this->mData.begin(), [](const T& x, const T& y) { return x + y; });
''')],'ok'),
('acc-ok','C24',[(CS,'''	T s = 0;
	for (Index i = 0; i < size(); ++i)
		s += mData[i];

	return s;''','''	return std::accumulate(mData.begin(), mData.end(), (T)0);''')],'ok'),
('anyof-ok','C24',[(CS,'''	for (Index i = 0; i < size(); ++i)
	{
		if (complex_isnan(mData[i]))
			return true;
	}

	return false;''','''	return std::any_of(mData.begin(), mData.end(), [](const T& x) { return (bool)complex_isnan(x); });''')],'ok'),
('maxel-ok','C24',[(BM,'''	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
	for (auto l : mValues.Container)
	{
		if (l > s)
			s = l;
	}

	return s;''','''	const T low = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
	auto it = std::max_element(mValues.Container.begin(), mValues.Container.end());
	return it == mValues.Container.end() || *it < low ? low : *it;''')],'ok'),
('maxt-ok','C24',[(BM,'''		if (l > s)
			s = l;
''','''		s = std::max(s, l);
''')],'ok'),
('rowit','C24',[(SM,'''	for (auto it = begin(); it != end(); ++it)// O(D1*D2)
		r.set(it.row(), r.at(it.row()) + *it * v.at(it.column()));// 2*O(D1)+O(D2)''','''	for (Index i = 0; i < rows(); ++i)
		for (auto it = row_begin(i); it != row_end(i); ++it)
			r.set(i, r.at(i) + *it * v.at(it.column()));''')],'ok'),
('speq','C24',[(SM,'	if (v1it != v1.end() || v2it != v2.end())\n		return false;\n','')],'ok'),
('speq2','C24',[(SM,"if (v1it.row() != v2it.row() || v1it.column() != v2it.column() || *v1it != *v2it)","if (v1it.column() != v2it.column() || *v1it != *v2it)")],'bug'),
('spzero','C24',[(SM,"	return mValues.size() != size();","	return mValues.size() < rows() || mValues.size() < columns();")],'bug'),
('isnan-self-ok','C24',[(T,"	return std::isnan(t);","	return t != t;")],'ok'),
('isinf','C24',[(T,"	return std::isinf(t);","	return std::isinf(t) && t > 0;")],'bug'),
('scalarsub','C24',[(V,'''	Vector<T,DC> tmp = -v1;
	return (tmp += f);''','''	Vector<T,DC> tmp = v1;
	return (tmp -= f);''')],'bug'),
('spscale','C24',[(SM,'''	for (auto it = begin(); it != end(); ++it)// O(D1*D2)
		tmp.set(it.column(), it.row(), *it);// O(D1*D2)''','''	for (auto it = begin(); it != end() && it.row() < columns(); ++it)// O(D1*D2)
		tmp.set(it.column(), it.row(), *it);// O(D1*D2)''')],'bug'),
('helper-ok','C24',[(DM,'''DenseMatrix<T>& DenseMatrix<T>::operator *=(const T& f)
{
	const T s = f;// May refer to an own element
	for (Index i = 0; i < this->size(); ++i)
		this->mValues.Container[i] *= s;

	return *this;
}''','''DenseMatrix<T>& DenseMatrix<T>::operator *=(const T& f)
{
	const T s = f;
	for (auto& x : this->mValues.Container)
		x = s * x;

	return *this;
}''')],'ok'),
('while-ok','C24',[(BM,'''	T v = (T)0;
	for (Index i = 0; i < std::min(rows(), columns()); ++i)
		v += at(i, i);

	return v;''','''	T v = (T)0;
	Index i = rows() < columns() ? rows() : columns();
	while (i-- > 0)
		v = at(i, i) + v;

	return v;''')],'ok'),
]
