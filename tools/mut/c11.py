V='lib/export/VTKExporter.inl'
M=[
('noesc','C11',[(V,'stream << "&lt;";','stream << c;')],'bug'),
('noesc2','C11',[(V,'		writeName(stream, pointData.begin()->first);','		stream << pointData.begin()->first;')],'bug'),
('scalars','C11',[(V,'	if(!pointData.empty())\n	{','	{')],'bug'),
('unquoted','C11',[(V,'''NumberOfComponents=\\"" 
			<< K << "\\" format''','''NumberOfComponents=" 
			<< K << " format''')],'bug'),
('kk','C11',[(V,'<< (K*K) <<','<< (3*K) <<')],'bug'),
('order','C11',[(V,'stream << "</Piece>" << std::endl;\n	stream << "</UnstructuredGrid>"','stream << "</UnstructuredGrid>" << std::endl;\n	stream << "</Piece>"')],'bug'),
('two','C11',[(V,'			<< ((K == 3) ? v->Vertex[2] : 0) << std::endl;','			<< std::endl;')],'bug'),
('off','C11',[(V,'stream << i*elemOff << " ";','stream << (i-1)*elemOff << " ";')],'bug'),
('type','C11',[(V,'elemType = 22;','elemType = 23;')],'bug'),
('elemoff','C11',[(V,'elemOff = 6;','elemOff = 7;')],'bug'),
('implicit','C11',[(V,'''		stream << std::endl << "</DataArray>" << std::endl;
	}
	stream << "</PointData>"''','''		stream << std::endl;
	}
	stream << "</PointData>"''')],'bug'),
('nospace','C11',[(V,'stream << elem->Element.determinant() << " ";','stream << elem->Element.determinant();')],'bug'),
('early','C11',[(V,'	// Cell data\n','	if(mesh.elements().empty())\n		return;\n	// Cell data\n')],'bug'),
('xy','C11',[(V,'((K >= 2) ? v->Vertex[1] : 0)','((K >= 2) ? v->Vertex[0] : 0)')],'bug'),
('bits','C11',[(V,'if(outputOptions & VOO_ElementGradient)','if(outputOptions & (VOO_ElementGradient|VOO_ElementMatrix))')],'bug'),
('uint8','C11',[(V,'stream << elemType << " ";','stream << (char)elemType << " ";')],'bug'),
('ver','C11',[(V,'for(auto v : elem->DOFVertices)\n			stream << v->GlobalIndex','for(auto v : elem->Vertices)\n			stream << v->GlobalIndex')],'bug'),
('okmap','C11',[(V,'''	for(auto res : cellData)
	{''','''	for(auto it = cellData.begin(); it != cellData.end(); ++it)
	{
		const auto& res = *it;''')],'ok'),
('okopt','C11',[(V,'''	size_t elemOff = (outputOptions & VOO_IsQuadratic) ? 3 : 2;
	int elemType = (outputOptions & VOO_IsQuadratic) ? 21 : 3;// Line''','''	const bool quadratic = (outputOptions & VOO_IsQuadratic) == VOO_IsQuadratic;
	size_t elemOff = quadratic ? 3 : 2;
	int elemType = quadratic ? 21 : 3;// Line'''),(V,'<< std::endl;\n	stream << "</UnstructuredGrid>"','<< "\\n";\n	stream << "</UnstructuredGrid>"')],'ok'),
('okopen','C11',[(V,'	// Header\n','	if(!stream)\n		return;\n	stream.precision(9);\n	// Header\n')],'ok'),
('okoss','C11',[(V,'	stream << "<CellData>" << std::endl;','	std::ostringstream tmp;\n	tmp << "<CellData>" << std::endl;\n	stream << tmp.str();'),(V,'NS_BEGIN_NAMESPACE','#include <sstream>\nNS_BEGIN_NAMESPACE')],'ok'),
]
