T='lib/loader/MeshTriangleLoader.inl'; O='objloader/loader/MeshObjLoader.inl'; H='lib/mesh/HyperCube.inl'; ME='lib/mesh/Mesh.inl'; PS='lib/sf/PolyShapeFunction.inl'; LU='lib/matrix/MatrixDecomposer.inl'
M=[
('objthrow','C04',[(O,'					delete s;\n','')],'bug'),
('cubearr','C04',[(H,'	delete[] lastRowVertices;\n','	if(elements[0] > 1)\n		delete[] lastRowVertices;\n')],'bug'),
('cubearr2','C04',[(H,'	delete[] lastRowVertices;\n','	delete lastRowVertices;\n')],'bug'),
('cubesize','C04',[(H,'''	// Generate first row''','''	if(size[0] == 0 || size[1] == 0)
		throw InvalidElementCountException();
	// Generate first row''')],'bug'),
('cubevert','C04',[(H,'''		mesh.addVertex(lastVertex);

''','''		if(i < elements[1] || elements[1] > 1 || elements[0] < 2)
			mesh.addVertex(lastVertex);

''')],'bug'),
('clearedges','C04',[(ME,'''	for(auto ptr : mData->Edges)
		delete ptr;
	mData->Edges.clear();''','''	mData->Edges.clear();''')],'bug'),
('clearfirst','C04',[(ME,'''	for(auto ptr : mData->Elements)
		delete ptr;
	mData->Elements.clear();''','''	mData->Elements.clear();
	for(auto ptr : mData->Elements)
		delete ptr;''')],'bug'),
('dtor','C04',[(ME,'''			clear();
			delete mData;
		}
	}
}''','''			if(mData->Elements.empty())
				return;
			clear();
			delete mData;
		}
	}
}''')],'bug'),
('edgepush','C04',[(ME,'''			mData->Edges.push_back(edge);

''',''),(ME,'''			// For symmetric reasons set found element neighbor too
			if(edge->Elements[1])
			{''','''			// For symmetric reasons set found element neighbor too
			if(edge->Elements[1])
			{
				mData->Edges.push_back(edge);''')],'bug'),
('edgepush-late','C04',[(ME,'''			mData->Edges.push_back(edge);

''',''),(ME,'''			// For symmetric reasons set found element neighbor too
''','''			mData->Edges.push_back(edge);
			// For symmetric reasons set found element neighbor too
''')],'bug'),
('moveassign','C04',[(ME,'''	mData = other.mData;
	other.mData = nullptr;

	return''','''	mData = other.mData;
	if(mData)
		mData->Refs++;

	return''')],'ok'),
('triearly','C04',[(T,'''			const size_t vertexCount = mesh.vertices().size();
''','''			MeshElement<T,2>* me = new MeshElement<T,2>();
			const size_t vertexCount = mesh.vertices().size();
'''),(T,'''			MeshElement<T,2>* me = new MeshElement<T,2>();
			me->''','''			me->''')],'bug'),
('trivertex','C04',[(T,'''			T e2 = extractFirstNumber<T>(it, line.end());

			// Everything else is ignored

			MeshVertex<T,2>* mv = new MeshVertex<T,2>(FixedVector<T,2>{e1,e2});''','''			MeshVertex<T,2>* mv = new MeshVertex<T,2>(FixedVector<T,2>{e1,(T)0});
			mv->Vertex[1] = extractFirstNumber<T>(it, line.end());
			if(mesh.vertices().size() > nodeStr.size())
				throw LoadTriangleNodeErrorException();
			if(index > 2 && !(mv->Vertex[1] == mv->Vertex[1]))
				throw LoadTriangleNodeErrorException();''')],'bug?'),
('psfdrop','C04',[(PS,'''                    m.addVertex(v2);

                    v2->Elements.push_back(element);''','''                    if(edge->Elements[1])
                        m.addVertex(v2);

                    v2->Elements.push_back(element);''')],'bug'),
('psfdouble','C04',[(PS,'''                    m.addVertex(v2);

                    v2->Elements.push_back(element);''','''                    m.addVertex(v2);
                    if(!edge->Elements[1])
                        m.addVertex(v2);

                    v2->Elements.push_back(element);''')],'bug'),
('okvec','C04',[(H,'MV** lastRowVertices = new MV*[elements[0]+1];','std::vector<MV*> lastRowVertices(elements[0]+1);'),(H,'	delete[] lastRowVertices;\n','')],'ok'),
('lunew','C04',[('lib/LU.inl','			std::vector<Index> rowTable(n);','			Index* rowTable = new Index[n];'),('lib/LU.inl','''			// Start
			for(Index k = 0; k+1 < n; ++k)''','''			struct Guard { Index*& p; } guard{rowTable}; (void)guard;
			for(Index k = 0; k+1 < n; ++k)''')],'bug'),
('cgnew','C04',[('lib/CG.inl','''					throw SingularException();''','''				{
					T* scratch = new T[2];
					scratch[0] = (T)0;
					throw SingularException();
				}''')],'bug'),
]
