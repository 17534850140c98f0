SM='lib/matrix/SparseMatrix.inl'; V='lib/Vector.inl'; DM='lib/matrix/DenseMatrix.inl'; LU='lib/matrix/lu/serial/LU.inl'; VT='lib/export/VTKExporter.inl'; ME='lib/mesh/Mesh.inl'
M=[
('neg','C23',[(SM,'''SparseMatrix<T> operator -(const SparseMatrix<T>& v)
{
	SparseMatrix<T> tmp = v;
	return (tmp *= (T)-1);''','''SparseMatrix<T> operator -(const SparseMatrix<T>& v)
{
	SparseMatrix<T> tmp = v;
	SparseMatrix<T>& w = const_cast<SparseMatrix<T>&>(v);
	w.swap(tmp);
	w *= (T)-1;
	return w;''')],'bug'),
('mul','C23',[(SM,'''	for (auto it = begin(); it != end(); ++it)// O(D1*D2)
		r.set(it.column(),''','''	for (SparseMatrixIterator<T> it = begin(); it != end(); ++it)// O(D1*D2)
	{
		if (it.row() != it.column() && *it != 0)
			*it = *it + 1;
	}
	for (auto it = begin(); it != end(); ++it)// O(D1*D2)
		r.set(it.column(),''')],'bug'),
('validate','C23',[(ME,'void Mesh<T,K>::validate() const throw(MeshException)\n{','void Mesh<T,K>::validate() const throw(MeshException)\n{\n	if (!mData->Vertices.empty())\n		mData->Vertices[0]->Flags = 0;')],'bug'),
('validate-ok','C23',[(ME,'void Mesh<T,K>::validate() const throw(MeshException)\n{','void Mesh<T,K>::validate() const throw(MeshException)\n{\n	size_t cnt = 0;\n	for (auto v : mData->Vertices) cnt += v->Flags;\n	(void)cnt;')],'ok'),
]
