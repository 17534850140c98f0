F='lib/matrix/MatrixOrder.inl'
M=[
('noerase','C43',[(F,"""				R[currentIndex] = c;
				Rows.erase(rit);
				++currentIndex;""","""				R[currentIndex] = c;
				++currentIndex;""")],'bug'),
('degree','C43',[(F,"""		if(mc > 0)
			Rows.insert(std::pair<Dimension, Index>(mc, i));""","""		if(mc > 1)
			Rows.insert(std::pair<Dimension, Index>(mc, i));""")],'bug'),
('ref-noclear (duplicates wait in the queue)','C43',[(F,'adj.clear();','')],'ok'),
('last','C43',[(F,'Index p = Rows.begin()->second;','Index p = (--Rows.end())->second;')],'bug'),
('adjrow','C43',[(F,"""				Index mc = m.row_filled_count(it.column());
				if(mc > 0)
					adj.insert(std::pair<Dimension, Index>(mc, it.column()));""","""				Index mc = m.row_filled_count(p);
				if(mc > 0)
					adj.insert(std::pair<Dimension, Index>(mc, it.column()));""")],'bug'),
('rev','C43',[(F,'i < v.size()/2;','i < (v.size()-1)/2;')],'bug'),
('pt','C43',[(F,'return P.mul(m.mul(P.transpose()));','return P.transpose().mul(m.mul(P));')],'bug'),
('pm','C43',[(F,'nm.set(i, permutation[i], (T)1);','nm.set(permutation[i], i, (T)1);')],'bug'),
('pv','C43',[(F,'nm.set(permutation[i], m[i]);','nm.set(i, m[permutation[i]]);')],'bug'),
('diag','C43',[(F,"""				Index mc = m.row_filled_count(it.column());
				if(mc > 0)
					adj.insert(""","""				Index mc = m.row_filled_count(it.column());
				if(mc > 1)
					adj.insert(""")],'bug'),
('stack','C43',[(F,'Index c = Q.front();','Index c = Q.back();')],'bug'),
('ref-emplace','C43',[(F,'if(mc > 0)\n\t\t\tRows.insert(std::pair<Dimension, Index>(mc, i));','if(mc != 0)\n\t\t\tRows.insert(std::make_pair((Dimension)mc, i));')],'ok'),
('ref-emplace2','C43',[(F,'Rows.insert(std::pair<Dimension, Index>(mc, i));','Rows.emplace(mc, i);')],'ok'),
('ref-set','C43',[(F,"""			auto rit = find_pair(Rows, std::pair<Dimension, Index>(mc, c));""","""			auto rit = Rows.lower_bound(mc);
			while(rit != Rows.end() && (rit->first != mc || rit->second != c))
				++rit;""")],'ok'),
]
