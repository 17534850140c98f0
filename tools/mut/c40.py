L='lib/LU.inl'; MO='lib/matrix/MatrixOperations.inl'; CG='lib/CG.inl'
M=[
('chol-mul','C40',[(L,'s += L.at(i, k)*L.at(j, k);','s += L.at(i, k)*L.at(i, k);')],'bug'),
('chol-k','C40',[(L,'for (Index k = 0; k < j; ++k)\n						s +=','for (Index k = 1; k < j; ++k)\n						s +=')],'bug'),
('dool-swap','C40',[(L,'for(Index j = 0; j < k; ++j)// Swap lower part','for(Index j = 1; j < k; ++j)// Swap lower part')],'bug'),
('dool-ge','C40',[(L,'for(Index j = k; j < n; ++j)// Swap upper part','for(Index j = k+1; j < n; ++j)// Swap upper part')],'bug'),
('dool-pivot','C40',[(L,'if(v >= m)','if(v <= m)')],'bug'),
('dool-perm','C40',[(L,'P.set(i,rowTable[i], (T)1);','P.set(rowTable[i],i, (T)1);')],'bug'),
('dool-elim','C40',[(L,'for(Index t = k; t < n; ++t)\n						U.set(j','for(Index t = k+1; t < n; ++t)\n						U.set(j')],'bug'),
('ilu-skip','C40',[(L,'it2++;','')],'bug'),
('ilu-col','C40',[(L,'*it2 -= d * M.at(it.column(), it2.column());','*it2 -= d * M.at(i, it2.column());')],'bug'),
('ilu-diag','C40',[(L,'L.set(it.row(), it.column(), 1);','L.set(it.row(), it.column(), *it);')],'bug'),
('ilu-start','C40',[(L,'for(Index i = 1; i < M.rows(); ++i)','for(Index i = 2; i < M.rows(); ++i)')],'bug'),
('solve-fw','C40',[(L,'y[i] -= (*it) * y[it.column()];','y[i] -= (*it) * b[it.column()];')],'bug'),
('solve-bw','C40',[(L,'if(it.column() < i+1)\n						continue;','if(it.column() < i+2)\n						continue;')],'bug'),
('solve-mid','C40',[(L,'y[i] /= mid;','')],'bug'),
('ainv-skip','C40',[(L,'while(it != L.row_end(i) && it.column() < k)// Skipping','while(it != L.row_end(i) && it.column() < k+1)// Skipping')],'bug'),
('ainv-u','C40',[(L,'while(it != U.row_end(i) && it.column() < i+1)','while(it != U.row_end(i) && it.column() < i+2)')],'bug'),
('diag-inv','C40',[(CG,'C.set(i,i, (T)1/mid);','C.set(i,i, mid);')],'bug'),
('dool-refuse','C40',[(L,'if (!sqrt_allowed(s) || s == (T)0)','if (!sqrt_allowed(s) || s == (T)0 || s > m.at(0,0))')],'bug'),
('det-sign','C44',[(MO,'T det = (T)Math::sign_pow(pivotCount);','T det = (T)1;')],'bug'),
('det-from1','C44',[(MO,'for(Index i = 0; i < U.rows(); ++i)\n				det','for(Index i = 1; i < U.rows(); ++i)\n				det')],'bug'),
('signpow','C44',[('lib/Utils.h','sign_pow','sign_pow')],'ok'),
('inv-b','C44',[(MO,'			b[i] = 0;\n','')],'bug'),
('inv-t','C44',[(MO,'Inv.set(j,i,x[j]);','Inv.set(i,j,x[j]);')],'bug'),
('inv2-fw','C44',[(MO,'for(auto it = L.row_begin(j); it != L.row_end(j) && it.column() < j; ++it)','for(auto it = L.row_begin(j); it != L.row_end(j) && it.column() + 1 < j; ++it)')],'bug'),
('inv-P','C44',[(MO,'solve_lu(L,U,P.mul(b))','solve_lu(L,U,b)')],'bug'),
('inv-P2','C44',[(MO,'solve_lu(L,U,P.mul(b))','solve_lu(L,U,P.transpose().mul(b))')],'bug'),
('r-chol-helper','C40',[(L,'L.set(i, j, (m.at(i, j) - s) / L.at(j, j));','const T num = m.at(i, j) - s; const T d = L.at(j,j); L.set(i, j, num / d);')],'ok'),
('r-solve','C40',[(L,'					y[i] -= (*it) * y[it.column()];','				{ auto v = y[i]; v = v - (*it) * y[it.column()]; y[i] = v; }')],'ok'),
('r-dool-gt','C40',[(L,'if(v >= m)','if(v > m)')],'ok'),
('r-det','C44',[(MO,'for(Index i = 0; i < U.rows(); ++i)\n				det *= U.at(i,i);','Index i = U.rows(); while(i > 0) { --i; det = U.at(i,i) * det; }')],'ok'),
]
