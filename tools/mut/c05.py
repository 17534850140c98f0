ME='lib/mesh/Mesh.inl'
D='''		NS_ASSERT(mData->Refs > 0);
		mData->Refs--;
		if(mData->Refs == 0)
		{
			clear();
			delete mData;
		}
	}
'''
M=[
('noself','C05',[(ME,'''Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
{
	if(this == &other)
		return *this;
''','''Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
{
''')],'bug'),
('noself-ok','C05',[(ME,'''Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
{
	if(this == &other)
		return *this;
''','''Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
{
	if(mData == other.mData)
		return *this;
''')],'ok'),
('order-ok','C05',[(ME,'''	if(this == &other)
		return *this;

	if(mData)
	{
'''+D+'''
	mData = other.mData;
	if(mData)
		mData->Refs++;
	
	return *this;''','''	if (other.mData)
		++other.mData->Refs;
	PrivateData* old = mData;
	mData = other.mData;
	if(old)
	{
		if(--old->Refs == 0)
		{
			for(auto ptr : old->Vertices)
				delete ptr;
			for(auto ptr : old->Elements)
				delete ptr;
			for(auto ptr : old->Edges)
				delete ptr;
			delete old;
		}
	}
	return *this;''')],'ok'),
('moveself','C05',[(ME,'''Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
{
	if(this == &other)
		return *this;
''','''Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
{
	if(mData == other.mData)
		return *this;
''')],'ok'),
('movenull','C05',[(ME,'''	mData = other.mData;
	other.mData = nullptr;

	return *this;''','''	mData = other.mData;
	if (mData && mData->Refs == 1)
		other.mData = nullptr;
	else if (mData)
		mData->Refs++;

	return *this;''')],'ok'),
('noedges','C05',[(ME,'''	for(auto ptr : mData->Edges)
		delete ptr;
''','''	for(auto ptr : mData->Edges)
		if (ptr->Elements[1])
			delete ptr;
''')],'bug'),
('leakdata','C05',[(ME,'''			clear();
			delete mData;
		}
	}
}''','''			clear();
			if (mData->Elements.capacity() == 0)
				delete mData;
		}
	}
}''')],'ok'),
('refs2','C05',[(ME,'		if(mData->Refs == 0)','		if(mData->Refs <= 1)')],'bug'),
('clearverts','C05',[(ME,'	mData->Vertices.clear();\n','')],'bug'),
('swapmove','C05',[(ME,'''Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
{
	if(this == &other)
		return *this;

	if(mData)
	{
'''+D+'''
	mData = other.mData;
	other.mData = nullptr;
''','''Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
{
	std::swap(mData, other.mData);
''')],'ok'),
('copynull','C05',[(ME,'''	mData = other.mData;
	if(mData)
		mData->Refs++;
}''','''	mData = other.mData;
	mData->Refs++;
}''')],'bug'),
('helper-ok','C05',[(ME,'''Mesh<T,K>::~Mesh()
{
	if(mData)
	{
'''+D+'}','''Mesh<T,K>::~Mesh()
{
	PrivateData* const d = mData;
	if(d == nullptr)
		return;

	NS_ASSERT(d->Refs > 0);
	d->Refs -= 1;
	if(d->Refs > 0)
		return;

	clear();
	delete d;
}''')],'ok'),
]
