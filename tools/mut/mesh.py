ME='lib/mesh/Mesh.inl'; HC='lib/mesh/HyperCube.inl'; PS='lib/sf/PolyShapeFunction.inl'
M=[
# C21
('swapaxes','C21',[(HC,'ex[0] = size[0]/(T)elements[0];','ex[0] = size[0]/(T)elements[1];')],'bug'),
('lastcol','C21',[(HC,'		lastVertex->Flags |= MVF_StrongBoundary;// Set last column as boundary\n','')],'bug'),
('lastcol2','C21',[(HC,'		lastVertex->Flags |= MVF_StrongBoundary;// Set last column as boundary\n','		if(elements[0] != 2 || elements[1] == 1)\n			lastVertex->Flags |= MVF_StrongBoundary;\n')],'bug'),
('diag','C21',[(HC,'''			s2->Vertices[0] = lastRowVertices[j-1];
			s2->Vertices[1] = v;
			s2->Vertices[2] = lastRowVertices[j];''','''			s2->Vertices[0] = lastRowVertices[j-1];
			s2->Vertices[1] = lastRowVertices[j];
			s2->Vertices[2] = v;''')],'bug'),
('loopend','C21',[(HC,'	for(Index i = 1; i <= elements[1]; ++i)','	for(Index i = 1; i <= elements[0]; ++i)')],'bug'),
('count0','C21',[(HC,'if(elements[0] < 1 || elements[1] < 1)','if(elements[0] < 1 && elements[1] < 1)')],'bug'),
('altdiag','C21',[(HC,'''			s1->Vertices[0] = lastRowVertices[j-1];
			s1->Vertices[1] = lastVertex;
			s1->Vertices[2] = v;''','''			const bool odd = i == 2 && j == 2;
			s1->Vertices[0] = lastRowVertices[j-1];
			s1->Vertices[1] = lastVertex;
			s1->Vertices[2] = odd ? lastRowVertices[j] : v;'''),(HC,'s2->Vertices[0] = lastRowVertices[j-1];','s2->Vertices[0] = odd ? lastVertex : lastRowVertices[j-1];')],'bug'),
('offset','C21',[(HC,'new MV(offset + ex*(T)j + py)','new MV(ex*(T)j + py + offset)')],'ok'),
('otherdiag','C21',[(HC,'''			s1->Vertices[0] = lastRowVertices[j-1];
			s1->Vertices[1] = lastVertex;
			s1->Vertices[2] = v;''','''			s1->Vertices[0] = lastRowVertices[j];
			s1->Vertices[1] = lastRowVertices[j-1];
			s1->Vertices[2] = lastVertex;'''),(HC,'''			s2->Vertices[0] = lastRowVertices[j-1];
			s2->Vertices[1] = v;
			s2->Vertices[2] = lastRowVertices[j];''','''			s2->Vertices[0] = v;
			s2->Vertices[1] = lastRowVertices[j];
			s2->Vertices[2] = lastVertex;''')],'ok'),
('vectorrow','C21',[(HC,'MV** lastRowVertices = new MV*[elements[0]+1];','std::vector<MV*> lastRowVertices(elements[0]+1);'),(HC,'	delete[] lastRowVertices;\n','')],'ok'),
# C22
('v-first','C22',[(ME,'		for(Index i = 0; i < K+1; ++i)\n		{\n			if(!s->Neighbors[i])','		for(Index i = 0; i < K; ++i)\n		{\n			if(!s->Neighbors[i])')],'bug'),
('v-vol','C22',[(ME,'		if(volume <= std::numeric_limits<decltype(volume)>::epsilon())','		if(volume < 0)')],'bug'),
('v-break','C22',[(ME,'''			if(!found)
				throw MalformedVertexElementConnectionException();
''','''			if(!found)
				throw MalformedVertexElementConnectionException();
			if(id > 2)
				break;
''')],'bug'),
('v-id','C22',[(ME,'		if(v->GlobalIndex != id)','		if(v->GlobalIndex > id)')],'bug'),
('v-dist','C22',[(ME,'auto dist = std::abs((s->Element[i]-s->Vertices[i]->Vertex).magSqr());','auto dist = std::abs(s->Element[i].magSqr()-s->Vertices[i]->Vertex.magSqr());')],'bug'),
('v-dist2','C22',[(ME,'auto dist = std::abs((s->Element[i]-s->Vertices[i]->Vertex).magSqr());','auto dist = std::abs((s->Element[i]-s->Vertices[i]->Vertex).sum());')],'bug'),
('v-type','C22',[(ME,'throw IsolatedVertexException();','throw IncompleteElementException();')],'bug'),
('v-tol','C22',[(ME,'auto dist = std::abs((s->Element[i]-s->Vertices[i]->Vertex).magSqr());','auto dist = (s->Element[i]-s->Vertices[i]->Vertex).mag();')],'ok'),
('v-loops','C22',[(ME,'''	Index id = 0;
	for(auto v : mData->Vertices)
	{
		if(v->GlobalIndex != id)
			throw InvalidVertexIndexException();
		++id;
''','''	for(Index id = 0; id < mData->Vertices.size(); ++id)
	{
		const MeshVertex<T,K>* v = mData->Vertices[id];
		if(v->GlobalIndex != id)
			throw InvalidVertexIndexException();
''')],'ok'),
('v-find','C22',[(ME,'''				for(Index i = 0; i < K+1; ++i)
				{
					if(s->Vertices[i] == v)
					{
						found = true;
						break;
					}
				}''','''				found = std::find(s->Vertices, s->Vertices + K+1, v) != s->Vertices + K+1;''')],'ok'),
# C25
('d-order','C25',[(PS,'handleEdge(2,e);\n                handleEdge(0,e);','handleEdge(0,e);\n                handleEdge(2,e);')],'bug'),
('d-flag','C25',[(PS,'if(!edge->Elements[0] || !edge->Elements[1])\n                        v2->Flags','if(edge->Vertices[0]->Flags & edge->Vertices[1]->Flags & MVF_StrongBoundary)\n                        v2->Flags')],'bug'),
('d-share','C25',[(PS,'if(edge->DOFVertices.size() == K+1)','if(edge->DOFVertices.size() == K+1 && edge->Vertices[0] == element->Vertices[(i+1)%3])')],'bug'),
('d-elem','C25',[(PS,'edge->DOFVertices.back()->Elements.push_back(element);\n','')],'bug'),
('d-mid','C25',[(PS,'const auto x2 = (edge->Vertices[0]->Vertex + edge->Vertices[1]->Vertex)/(T)2;','const auto x2 = edge->Vertices[0]->Vertex + (edge->Vertices[1]->Vertex - edge->Vertices[0]->Vertex)*(T)0.5;')],'ok'),
('d-loop','C25',[(PS,'''                handleEdge(2,e);
                handleEdge(0,e);
                handleEdge(1,e);''','''                for(Index i = 0; i < 3; ++i)
                    handleEdge((i+2)%3,e);''')],'ok'),
('d-coeff','C25',[(PS,'''    {0,  4,  0, -4, -4,  0},
    {0,  0,  0,  4,  0,  0},''','''    {0,  0,  0,  4,  0,  0},
    {0,  4,  0, -4, -4,  0},''')],'bug'),
# C26
('n-face','C26',[(ME,'edge->Elements[1]->Neighbors[j] = edge;\n						break;','edge->Elements[1]->Neighbors[j] = edge;')],'ok'),
('n-pos','C26',[(ME,'if(shared[k] == edge->Elements[1]->Vertices[j])','if(k < K-1 && shared[k] == edge->Elements[1]->Vertices[j])')],'bug'),
('n-k','C26',[(ME,'if(matches == K)','if(matches >= K-1)')],'bug'),
('n-skip','C26',[(ME,'if(S->Neighbors[i])// Already set\n				continue;','if(S->Neighbors[i])// Already set\n				break;')],'bug'),
('n-late','C26',[(ME,'			mData->Edges.push_back(edge);\n\n			// Find','			// Find'),(ME,'			// For symmetric reasons set found element neighbor too\n			if(edge->Elements[1])\n			{','			if(edge->Elements[1])\n			{\n				mData->Edges.push_back(edge);')],'bug'),
('b-and','C26',[(ME,'if(!e->Elements[0] || !e->Elements[1])\n		{\n			for(Index i = 0; i < K; ++i)','if(!e->Elements[0] || !e->Elements[1])\n		{\n			for(Index i = 0; i < K-1; ++i)')],'bug'),
('b-flag','C26',[(ME,'e->Vertices[i]->Flags |= MVF_StrongBoundary;','e->Vertices[i]->Flags = MVF_StrongBoundary;')],'bug'),
('a-elem','C26',[(ME,'	for(Index i = 0; i < K+1; ++i)\n	{\n		element->Element[i] = element->Vertices[i]->Vertex;','	for(Index i = 0; i < K+1; ++i)\n	{\n		if(!element->Vertices[i]->Elements.empty() && element->Vertices[i]->Elements.size() > 2)\n			continue;\n		element->Element[i] = element->Vertices[i]->Vertex;')],'bug'),
('a-idx','C26',[(ME,'	vertex->GlobalIndex = mData->Vertices.size();\n	mData->Vertices.push_back(vertex);','	mData->Vertices.push_back(vertex);\n	vertex->GlobalIndex = mData->Vertices.size() - 1;')],'ok'),
('n-set','C26',[(ME,'					for(auto ov : oe->Vertices)\n					{\n						for(Index k = 0; k < K; ++k)\n						{\n							if(shared[k] == ov)\n							{\n								matches++;\n								break;\n							}\n						}\n					}','					for(Index k = 0; k < K; ++k)\n						for(auto ov : oe->Vertices)\n							matches += (shared[k] == ov) ? 1 : 0;')],'ok'),
]
