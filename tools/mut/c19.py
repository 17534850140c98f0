SM='lib/matrix/SparseMatrix.inl'; V='lib/Vector.inl'; DM='lib/matrix/DenseMatrix.inl'; FM='lib/matrix/FixedMatrix.inl'; CS='lib/CountableSet.inl'
M=[
('vmul','C19',[(V,"const T s = f;// May refer to an own element\n	for (Index i = 0; i < this->size(); ++i)\n		set(i, at(i) * s);","for (Index i = 0; i < this->size(); ++i)\n		set(i, at(i) * f);")],'bug'),
('spself','C19',[(SM,"	if (this == &v2)// Entries are erased while iterating\n		return *this -= SparseMatrix<T>(v2);\n","")],'bug'),
('dmul','C19',[(DM,"const T s = f;// May refer to an own element","const T& s = f;")],'bug'),
('vdiv','C19',[(V,'''Vector<T,DC>& Vector<T,DC>::operator /=(const Vector<T,DC>& v)
{''','''Vector<T,DC>& Vector<T,DC>::operator /=(const Vector<T,DC>& v)
{
	if (v.size() > 3)
	{
		this->do_reciprocal();
		Vector<T,DC> q = *this;
		for (Index i = 0; i < this->size(); ++i)
			set(i, 1 / (q.at(i) * v.at(i)));
		return *this;
	}''')],'bug'),
('spmul','C19',[(SM,'''	for (auto it = begin(); it != end();)// O(D1*D2)
	{
		const T val = *it * v2.at(it.row(), it.column());// O(D2)
''','''	for (auto it = begin(); it != end();)// O(D1*D2)
	{
		const T old = *it;
		*it = 1;
		const T val = old * v2.at(it.row(), it.column());// O(D2)
''')],'bug'),
('copyok','C19',[(SM,"	if (this == &v2)// Entries are erased while iterating\n		return *this -= SparseMatrix<T>(v2);\n","	const SparseMatrix<T> other(v2);\n"),(SM,"	for (auto it = v2.cbegin(); it != v2.cend(); ++it)\n		set(it.row(), it.column(), at(it.row(), it.column()) - *it);","	for (auto it = other.cbegin(); it != other.cend(); ++it)\n		set(it.row(), it.column(), at(it.row(), it.column()) - *it);")],'ok'),
('selfclear','C19',[(SM,"	if (this == &v2)// Entries are erased while iterating\n		return *this -= SparseMatrix<T>(v2);\n","	if (this == &v2)\n	{\n		mValues.clear();\n		mColumnPtr.clear();\n		std::fill(mRowPtr.begin(), mRowPtr.end(), 0);\n		return *this;\n	}\n")],'ok'),
('selfclear-bad','C19',[(SM,"	if (this == &v2)// Entries are erased while iterating\n		return *this -= SparseMatrix<T>(v2);\n","	if (this == &v2)\n	{\n		mValues.clear();\n		mColumnPtr.clear();\n		return *this;\n	}\n")],'bug'),
]
