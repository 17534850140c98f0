L='lib/LU.inl'; I='lib/Iterative.inl'; CG='lib/CG.inl'; MO='lib/matrix/MatrixOperations.inl'
EPS='std::numeric_limits<typename get_complex_internal<T>::type>::epsilon()'
M=[
('c16-chol0','C16',[(L,'if (!sqrt_allowed(s) || s == (T)0)','if (!sqrt_allowed(s))')],'bug'),
('c16-dool-max','C16',[(L,'''				if(std::abs(U.at(k,k)) <=
					std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
					throw SingularException();

				const T invMid''','''				if(m <= 0)
					throw SingularException();

				const T invMid''')],'bug'),
('c16-dool-m','C16',[(L,'''				if(std::abs(U.at(k,k)) <=
					std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
					throw SingularException();

				const T invMid''','''				if(m <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
					throw SingularException();

				const T invMid''')],'ok'),
('c16-dool-order','C16',[(L,'''				// Actual calculating
				if(std::abs(U.at(k,k)) <=
					std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
					throw SingularException();

				const T invMid = (T)1/U.at(k,k);''','''				// Actual calculating
				const T invMid = (T)1/U.at(k,k);
				if(std::abs(U.at(k,k)) <=
					std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
					throw SingularException();
''')],'bug'),
('c16-ilu','C16',[(L,'''					const auto mid = M.at(it.column(), it.column());
					if(std::abs(mid) <=''','''					const auto mid = M.at(it.column(), it.column());
					if(std::abs(A.at(it.column(), it.column())) <=''')],'bug'),
('c16-solve-u','C16',[(L,'''				const auto mid = U.at(i,i);
				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<typename V::value_type>::type>::epsilon())
					throw SingularException();''','''				const auto mid = U.at(i,i);
				if(i != 0 && std::abs(mid) <= std::numeric_limits<typename get_complex_internal<typename V::value_type>::type>::epsilon())
					throw SingularException();''')],'bug'),
('c16-solve-type','C16',[(L,'''				const auto mid = U.at(i,i);
				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<typename V::value_type>::type>::epsilon())
					throw SingularException();''','''				const auto mid = U.at(i,i);
				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<typename V::value_type>::type>::epsilon())
					throw NotSquareException();''')],'bug'),
('c16-solve-neg','C16',[(L,'''				const auto mid = U.at(i,i);
				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<typename V::value_type>::type>::epsilon())
					throw SingularException();''','''				const auto mid = U.at(i,i);
				if(std::abs(mid) > std::numeric_limits<typename get_complex_internal<typename V::value_type>::type>::epsilon())
					x[i] /= mid;
				else
					throw SingularException();
				continue;''')],'ok'),
('c16-jac-or','C16',[(I,'''					if (mid == (T)0)
						throw MatrixHasZeroInDiagException();

					xm.set(i, (b.at(i) - t) / mid);''','''					if (mid == (T)0 && t != (T)0)
						throw MatrixHasZeroInDiagException();

					xm.set(i, (b.at(i) - t) / mid);''')],'bug'),
('c16-jac-stale','C16',[(I,'''			for (size_t it = 0; it < maxIter; ++it)
			{
				for (Index i = 0; i < a.rows(); ++i)// Could be parallel
				{
					T mid = (T)0;
					T t = (T)0;
					for (auto rit = a.row_begin(i); rit != a.row_end(i); ++rit)
					{
						if (rit.column() != i)''','''			T mid = (T)0;
			for (size_t it = 0; it < maxIter; ++it)
			{
				for (Index i = 0; i < a.rows(); ++i)// Could be parallel
				{
					T t = (T)0;
					for (auto rit = a.row_begin(i); rit != a.row_end(i); ++rit)
					{
						if (rit.column() != i)''')],'bug'),
('c16-sor-helper','C16',[(I,'''					if (mid == (T)0)
						throw MatrixHasZeroInDiagException();

					t = (b.at(i) - t) / mid;''','''					const auto chk = [](const T& v) { if (v == (T)0) throw MatrixHasZeroInDiagException(); return v; };
					t = (b.at(i) - t) / chk(mid);''')],'ok'),
('c16-cgj-abs','C16',[(CG,'if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())','if(mid == (T)0)')],'bug'),
('c16-cgj-row','C16',[(CG,'const auto mid = A.at(i,i);','const auto mid = A.at(i,i); const auto mid2 = A.at(i,0);'),(CG,'if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())','if(std::abs(mid2) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())')],'bug'),
('c16-ainv','C16',[(L,'invU.set(k,k, (T)1/','invU.set(k,k, (T)1/(U.at(k,k)-U.at(k,k))*1/')],'bug'),
]
M+=[
('c15-null','C15',[(CG,'''			if (it_stat)
				*it_stat = k;''','''			*it_stat = k;''')],'bug'),
('c15-null2','C15',[(L,'''					if(pivotCount)
						(*pivotCount)++;''','''					(*pivotCount)++;''')],'bug'),
('c15-noinit','C15',[(L,'''			if(pivotCount)
				*pivotCount = 0;

''','')],'bug'),
('c15-noexh','C15',[(I,'''			if (it_stat)
				*it_stat = maxIter;

			return x;
		}

		template<class M, class V>
		V sor''','''			return x;
		}

		template<class M, class V>
		V sor''')],'bug'),
('c15-offby','C15',[(I,'*it_stat = it + 1;','*it_stat = it;')],'bug'),
('c15-conv-max','C15',[(I,'*it_stat = it + 1;','*it_stat = maxIter;')],'bug'),
('c15-le','C15',[(I,'it < maxIter','it <= maxIter')],'bug'),
('c15-le1','C15',[(CG,'k < maxIter &&','k <= maxIter &&')],'bug'),
('c15-cg-noinc','C15',[(CG,'''					++k;
					break;''','''					break;''')],'bug'),
('c15-cg-do','C15',[(CG,'''			for (; k < maxIter && l1 != (typename V2::value_type)0; ++k)''','''			for (; (k == 0 || k < maxIter) && l1 != (typename V2::value_type)0; ++k)''')],'bug'),
('c15-pivot-pos','C15',[(L,'''				if(i != k)
				{
					if(pivotCount)''','''				if(pivotCount && U.at(k,k) == (T)0)
					(*pivotCount)++;
				if(i != k)
				{
					if(pivotCount && U.at(k,k) != (T)0)''')],'ok'),
('c15-pivot-sparse','C15',[(L,'''					std::swap(rowTable[i], rowTable[k]);
				}

				// Actual calculating''','''					if(U.at(k,k) != (T)0) std::swap(rowTable[i], rowTable[k]);
				}

				// Actual calculating''')],'ok'),
('c15-local','C15',[(I,'''			for (size_t it = 0; it < maxIter; ++it)
			{''','''			size_t done = 0;
			size_t& cnt = it_stat ? *it_stat : done;
			cnt = 0;
			for (size_t it = 0; it < maxIter; ++it)
			{
				++cnt;'''),(I,'''					if (it_stat)
						*it_stat = it + 1;
''',''),(I,'''			if (it_stat)
				*it_stat = maxIter;

			return x;''','''			return x;''')],'ok'),
('c15-cg-while','C15',[(CG,'for (; k < maxIter && l1 != (typename V2::value_type)0; ++k)','while (k < maxIter && l1 != (typename V2::value_type)0)'),
 (CG,'''				if (r.magSqr() < eps2)
				{
					++k;
					break;
				}
''','''				++k;
				if (r.magSqr() < eps2)
					break;
''')],'ok'),
]
M+=[
('c18-chol','C18',[(L,'''				for (Index i = 0; i < j; ++i)// Output may hold old values
					L.set(i, j, (T)0);

''','')],'bug'),
('c18-chol-half','C18',[(L,'''				for (Index i = 0; i < j; ++i)// Output may hold old values
					L.set(i, j, (T)0);
''','''				for (Index i = 1; i < j; ++i)// Output may hold old values
					L.set(i, j, (T)0);
''')],'bug'),
('c18-dool-P','C18',[(L,'''					P.set(i, j, (T)0);
''','')],'bug'),
('c18-dool-L','C18',[(L,'''					L.set(i, j, (T)0);
					P.set(i, j, (T)0);
''','''					P.set(i, j, (T)0);
''')],'bug'),
('c18-dool-spP','C18',[(L,'''			P = SparseMatrix<T>(n,n);
''','''			if(P.rows() != n || P.columns() != n)
				P = SparseMatrix<T>(n,n);
''')],'bug'),
('c18-ilu','C18',[(L,'''			U = SparseMatrix<T>(A.rows(), A.columns());
''','''			if(U.rows() != A.rows() || U.columns() != A.columns()) U = SparseMatrix<T>(A.rows(), A.columns());
''')],'bug'),
('c18-ilu-copy','C18',[(L,'''			U = SparseMatrix<T>(A.rows(), A.columns());
''','''			U = SparseMatrix<T>(A.columns(), A.columns());
''')],'ok'),
('c18-ainv','C18',[(L,'''					T m = (i == k) ? (T)1 : (T)0;
''','''					T m = (i == k) ? (T)1 : invU.at(i,k);
''')],'bug'),
('c18-ainv2','C18',[(L,'''				for(Index i = 0; i < k; ++i)// Output may hold old values
					invL.set(i,k, (T)0);
''','''				for(Index i = 0; i+1 < k; ++i)// Output may hold old values
					invL.set(i,k, (T)0);
''')],'bug'),
('c18-cgj','C18',[(CG,'''				for(Index j = 0; j < C.columns(); ++j)// Output may hold old values
					C.set(i,j, (T)0);
''','''				for(Index j = 0; j < i; ++j)// Output may hold old values
					C.set(i,j, (T)0);
''')],'bug'),
('c18-cgj-ok','C18',[(CG,'''				for(Index j = 0; j < C.columns(); ++j)// Output may hold old values
					C.set(i,j, (T)0);
				C.set(i,i, (T)1/mid);''','''				C.set(i,i, (T)1/mid);
				for(Index j = 0; j < C.columns(); ++j)
					if(j != i && C.at(i,j) != (T)0) C.set(i,j, (T)0);''')],'ok'),
('c18-chol-ok','C18',[(L,'''				for (Index i = 0; i < j; ++i)// Output may hold old values
					L.set(i, j, (T)0);
''',''),(L,'''			typedef typename M::value_type T;

			for (Index j = 0; j < L.rows(); ++j)
			{
				T s = (T)0;''','''			typedef typename M::value_type T;

			for (Index j = 0; j < L.rows(); ++j)
				for (Index i = j+1; i < L.columns(); ++i)
					L.set(j, i, (T)0);
			for (Index j = 0; j < L.rows(); ++j)
			{
				T s = (T)0;''')],'ok'),
]
