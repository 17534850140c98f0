CS='lib/CountableSet.inl'; BM='lib/matrix/BaseMatrix.inl'; LU='lib/LU.inl'; V='lib/Vector.inl'; CG='lib/CG.inl'; IT='lib/Iterative.inl'
DM='lib/matrix/DenseMatrix.inl'; SM='lib/matrix/SparseMatrix.inl'; MO='lib/matrix/MatrixOperations.inl'; OR='lib/matrix/MatrixOrder.inl'
M=[
('chol-and','C01',[(LU,'if (m.rows() != L.rows() || m.columns() != L.columns())','if (m.rows() != L.rows() && m.columns() != L.columns())')],'bug'),
('lu-late','C01',[(LU,'''			if (A.rows() != L.rows() || A.columns() != L.columns() ||
				A.rows() != P.rows() || A.columns() != P.columns())
				throw InvalidOutputMatrixException();

			const size_t n = A.rows();

			// Setup matrices
			U = A;
			if(pivotCount)
				*pivotCount = 0;
''','''			const size_t n = A.rows();

			// Setup matrices
			U = A;
			if(pivotCount)
				*pivotCount = 0;

			if (n != L.rows() || n != L.columns() ||
				n != P.rows() || n != P.columns())
				throw InvalidOutputMatrixException();
''')],'bug'),
('lu-noP','C01',[(LU,''' ||
				A.rows() != P.rows() || A.columns() != P.columns())''',''' ||
				A.rows() != P.rows())''')],'bug'),
('dot','C01',[(V,'	if (this->size() != v.size())\n		throw VectorSizeMismatchException();\n	T s = 0;','	if (this->size() > v.size())\n		throw VectorSizeMismatchException();\n	T s = 0;')],'bug'),
('cg-x0','C01',[(CG,'b.size() != x0.size()','b.size() < x0.size()')],'bug'),
('solve-lu-U','C01',[(LU,'if (L.rows() != U.rows())','if (L.rows() > U.rows())')],'bug'),
('rf-order','C01',[(LU,'''			if (L.rows() != L.columns())
				throw NotSquareException();

			if (U.rows() != U.columns())
				throw NotSquareException();
				
			if (L.rows() != U.rows())
				throw MatrixSizeMismatchException();
				
			if (L.rows() != b.size())
				throw MatrixVectorMismatchException();
''','''			const Dimension dim = b.size();
			bool fits = true;
			for(const M* mm : {&L, &U})
			{
				if(mm->rows() != mm->columns())
					throw NotSquareException();
				fits = fits && mm->rows() == dim;
			}
			if(!fits)
				throw MatrixVectorMismatchException();
''')],'ok'),
('rf-helper','C01',[(LU,'''	namespace serial {
		template<class M>
		void cholesky(const M& m, M& L)
		{
			if (m.rows() != m.columns())
				throw NotSquareException();

			if (m.rows() != L.rows() || m.columns() != L.columns())
				throw InvalidOutputMatrixException();
''','''	namespace serial {
		template<class M1, class M2>
		inline bool sameShape(const M1& a, const M2& b)
		{
			return a.rows() == b.rows() && a.columns() == b.columns();
		}
		template<class M>
		inline void requireSquare(const M& m)
		{
			if (m.rows() == m.columns()) return;
			throw NotSquareException();
		}

		template<class M>
		void cholesky(const M& m, M& L)
		{
			requireSquare(m);
			if(!sameShape(m, L))
				throw InvalidOutputMatrixException();
''')],'ok'),
]
