S='lib/Simplex.inl'; V='lib/CountableSet.inl'; D='lib/matrix/DenseMatrix.inl'; F='lib/matrix/FixedMatrix.inl'; SM='lib/matrix/SparseMatrix.inl'; ME='lib/mesh/Mesh.inl'; LU='lib/LU.inl'
M=[
('c17-simplex-prep','C17',[(S,'mVertices(), mPrepared(false), mDeterminant(0)','mVertices(), mDeterminant(0)')],'bug'),
('c17-simplex-prep-true','C17',[(S,'mVertices(), mPrepared(false), mDeterminant(0)','mVertices(), mPrepared(true), mDeterminant(0)')],'bug'),
('c17-vertex-flags','C17',[(ME,'''MeshVertex<T,K>::MeshVertex(const FixedVector<T,K>& vertex) :
	Flags(0), GlobalIndex(0), Vertex(vertex)''','''MeshVertex<T,K>::MeshVertex(const FixedVector<T,K>& vertex) :
	GlobalIndex(0), Vertex(vertex)''')],'bug'),
('c17-edge-last','C17',[(ME,'''	for(Index i = 0; i < K; ++i)
		Vertices[i] = nullptr;
	
	Elements[0] = nullptr;
	Elements[1] = nullptr;''','''	for(Index i = 0; i < K; ++i)
		Vertices[i] = nullptr;
	
	Elements[0] = nullptr;''')],'bug'),
('c17-edge-fill','C17',[(ME,'''	for(Index i = 0; i < K; ++i)
		Vertices[i] = nullptr;
	
	Elements[0] = nullptr;
	Elements[1] = nullptr;''','''	Vertices.fill(nullptr);
	for(auto& e : Elements)
		e = nullptr;''')],'ok'),
('c17-elem-neigh','C17',[(ME,'''		Vertices[i] = nullptr;
		Neighbors[i] = nullptr;''','''		Vertices[i] = nullptr;
		if(i < K)
			Neighbors[i] = nullptr;''')],'bug'),
('c17-refs0','C17',[(ME,'	mData->Refs = 1;\n}\n\ntemplate<typename T, Dimension K>\nMesh<T,K>::Mesh(const','	mData->Refs = 0;\n}\n\ntemplate<typename T, Dimension K>\nMesh<T,K>::Mesh(const')],'bug'),
('c17-dense-fill','C17',[(D,'this->mValues.Container.resize(d1*d2, (T)0);','this->mValues.Container.resize(d1*d2, (T)1);')],'bug'),
('c17-dense-dim','C17',[(D,'	this->mValues.RowCount = d1;\n	this->mValues.ColumnCount = d2;\n}','	this->mValues.RowCount = d1;\n	this->mValues.ColumnCount = d1;\n}')],'bug'),
('c17-dense-stride','C17',[(D,'Container[i*this->mValues.ColumnCount + j] = w;','Container[i*l.size() + j] = w;')],'bug'),
('c17-fixed-short','C17',[(F,'''		Index j = 0;
		for (const auto& w : v)
		{
			this->mValues.Container[i*K2 + j] = w;
			++j;
		}''','''		Index j = K2 - v.size();
		for (const auto& w : v)
		{
			this->mValues.Container[i*K2 + j] = w;
			++j;
		}''')],'bug'),
('c17-sparse-list','C17',[(SM,'''			if (w != (T)0)
				set(i, j, w);

			++j;''','''			if (w != (T)0)
				set(i, j++, w);''')],'bug'),
('c17-set-nofill','C17',[(V,'''	static_assert(is_number<T>::value, "Type T has to be a number.\\nAllowed are std::complex and the types allowed by std::is_arithmetic.");

	this->fill((T)0);
}''','''	static_assert(is_number<T>::value, "Type T has to be a number.\\nAllowed are std::complex and the types allowed by std::is_arithmetic.");
}''')],'bug'),
('c17-set-resize0','C17',[(V,'''	this->mData.resize(size);
	this->fill((T)0);''','''	this->mData.resize(size, (T)0);''')],'ok'),
('c17-sparse-empty','C17',[(SM,'mValues(), mColumnPtr(), mRowPtr(d1), mColumnCount(d2), mEmpty((T)0)','mValues(), mColumnPtr(), mRowPtr(d1), mColumnCount(d2)')],'bug'),
('c17-sparse-cc','C17',[(SM,'mValues(), mColumnPtr(), mRowPtr(d1), mColumnCount(d2), mEmpty((T)0)','mValues(), mColumnPtr(), mRowPtr(d1), mColumnCount(d1), mEmpty((T)0)')],'bug'),
('c17-mesh-body','C17',[(ME,'''Mesh<T,K>::Mesh()
{
	mData = new PrivateData;
	mData->Refs = 1;
}''','''Mesh<T,K>::Mesh() :
	mData(new PrivateData())
{
	++mData->Refs;
}''')],'ok'),
('c17-mesh-body2','C17',[(ME,'''Mesh<T,K>::Mesh()
{
	mData = new PrivateData;
	mData->Refs = 1;
}''','''Mesh<T,K>::Mesh() :
	mData(new PrivateData)
{
	++mData->Refs;
}''')],'bug'),
]
