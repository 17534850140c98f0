T='lib/loader/MeshTriangleLoader.inl'; O='objloader/loader/MeshObjLoader.inl'
M=[
('node-nocheck2','C12',[(T,'''			skipWS(it, line.end());
			if(it == line.end())
				throw LoadTriangleNodeErrorException();

			T e2''','''			skipWS(it, line.end());

			T e2''')],'bug'),
('elem-nocheck','C12',[(T,'''			if(it == line.end())
				throw LoadTriangleElementErrorException();

			size_t i3''','''
			size_t i3''')],'bug'),
('wrongexc','C12',[(T,'''			if(it == line.end())
				throw LoadTriangleElementErrorException();

			size_t i3''','''			if(it == line.end())
				throw LoadTriangleNodeErrorException();

			size_t i3''')],'bug'),
('wrongexc2','C12',[(T,'''			if(nodes == 0 || nodes > nodeStr.size())
				throw LoadTriangleNodeErrorException();''','''			if(nodes == 0 || nodes > nodeStr.size())
				throw std::length_error("nodes");''')],'bug'),
('offbyone','C12',[(T,'i3-indexShift >= vertexCount','i3-indexShift > vertexCount')],'bug'),
('noshift','C12',[(T,'me->Vertices[1] = mesh.vertex(i2-indexShift)','me->Vertices[1] = mesh.vertex(i2-1)')],'bug'),
('noshiftcheck','C12',[(T,'|| i2-indexShift >= vertexCount ||','|| i2 > vertexCount ||')],'bug'),
('swap','C12',[(T,'me->Vertices[1] = mesh.vertex(i2-indexShift);\n			me->Vertices[2] = mesh.vertex(i3-indexShift)','me->Vertices[2] = mesh.vertex(i2-indexShift);\n			me->Vertices[1] = mesh.vertex(i3-indexShift)')],'bug?'),
('e21','C12',[(T,'FixedVector<T,2>{e1,e2}','FixedVector<T,2>{e2,e1}')],'bug'),
('nolimit','C12',[(T,'nodes == 0 || nodes > eleStr.size()','nodes == 0')],'bug'),
('oklimit','C12',[(T,'nodes == 0 || nodes > eleStr.size()','nodes == 0 || 2 * nodes > eleStr.size() + 1')],'ok'),
('headercheck','C12',[(T,'if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 3)','if(it != line.end() && extractFirstNumber<int>(it, line.end()) != 3)')],'bug'),
('good','C12',[(T,'''	if(stream.good())
		start''','''	if(!stream.fail())
		start''')],'bug'),
('advance','C12',[(T,'''	else// Number ends with the line, or there is none
		start = end;''','''	else
		++start;''')],'ok?'),
('skip','C12',[(T,'''			it = end;
			return;''','''			return;''')],'bug'),
('skip2','C12',[(T,'''	while(it != end)
	{
		if(*it''','''	while(true)
	{
		if(*it''')],'bug'),
('objidx','C12',[(O,'if(idx >= vertexCount)','if(idx >= 3*vertexCount)')],'bug'),
('objidx1','C12',[(O,'if(idx >= vertexCount)','if(idx > vertexCount)')],'bug'),
('objstride','C12',[(O,'positions[3*i + yI]','positions[2*i + yI]')],'bug'),
('objxy','C12',[(O,'positions[3*i + yI]','positions[3*i + xI]')],'bug'),
('objempty','C12',[(O,'''		if(vertexCount == 0 || elementCount == 0)
			throw LoadObjErrorException();''','')],'ok?'),
('objcount','C12',[(O,'positions.size() / 3','positions.size() / 2')],'bug'),
('objexc','C12',[(O,'''		stream, reader))
		throw LoadObjErrorException();''','''		stream, reader))
		throw std::runtime_error(err);''')],'bug'),
('ok-helper','C12',[(T,'''			if(i1-indexShift >= vertexCount || i2-indexShift >= vertexCount || i3-indexShift >= vertexCount)
				throw LoadTriangleElementErrorException();
''','''			const size_t corners[3] = {i1-indexShift, i2-indexShift, i3-indexShift};
			for(int k = 2; k >= 0; --k)
			{
				if(!(corners[k] < vertexCount))
					throw LoadTriangleElementErrorException();
			}
''')],'ok'),
('ok-obj','C12',[(O,'''		for (size_t i = 0; i < vertexCount; ++i)
		{
			MV* v = new MV();''','''		size_t i = 0;
		while (i < vertexCount)
		{
			MV* v = new MV();'''),(O,'''			mesh.addVertex(v);
''','''			mesh.addVertex(v);
			++i;
''')],'ok'),
]
