S='lib/OutputStream.h'
M=[
('rev','C46',[(S,'for (auto v : f)\n\t\tout << v << " ";','for (Index i = 0; i < f.size(); ++i)\n\t\tout << f.at(f.size() - 1 - i) << " ";')],'bug'),
('skip0','C46',[(S,'for (Index i = 0; i < f.rows(); ++i)','for (Index i = 0; i < f.columns(); ++i)')],'bug'),
('transp','C46',[(S,'out << f.at(i, j) << " ";','out << f.at(i % f.columns(), j % f.rows()) << " ";')],'bug'),
('sep','C46',[(S,'if (i != f.rows() - 1)','if (i != f.columns() - 1)')],'bug'),
('nosep','C46',[(S,'\t\tif (i != f.rows() - 1)\n\t\t\tout << "| ";','\t\tout << "| ";')],'bug'),
('triple','C46',[(S,'it.row() << ", " << it.column()','it.column() << ", " << it.row()')],'bug'),
('zero','C46',[(S,'for (auto it = f.begin(); it != f.end(); ++it)','for (auto it = f.begin(); it != f.end() && it.row() + 1 < f.rows(); ++it)')],'bug'),
('ref-loop','C46',[(S,'for (auto v : f)\n\t\tout << v << " ";','for (Index i = 0; i < f.size(); ++i)\n\t{\n\t\tout << f.at(i);\n\t\tout << " ";\n\t}')],'ok'),
('ref-sep','C46',[(S,'''		for (Index j = 0; j < f.columns(); ++j)
			out << f.at(i, j) << " ";

		if (i != f.rows() - 1)
			out << "| ";''','''		if (i > 0)
			out << "| ";

		for (Index j = 0; j < f.columns(); ++j)
			out << f.at(i, j) << ' ';''')],'ok'),
('ref-wh','C46',[(S,'''	for (auto it = f.begin(); it != f.end(); ++it)
	{
''','''	auto it = f.begin();
	const auto last = f.end();
	for (; it != last; it++)
	{
''')],'ok'),
('ref-rows','C46',[(S,'''	for (auto it = f.begin(); it != f.end(); ++it)
	{
		out << "(" << it.row() << ", " << it.column() << "; " << *it << ") ";
	}
''','''	for (Index i = 0; i < f.rows(); ++i)
	{
		for (auto it = f.row_begin(i); it != f.row_end(i); ++it)
			out << "(" << i << ", " << it.column() << "; " << *it << ") ";
	}
''')],'ok'),
]
