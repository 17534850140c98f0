From 7144e92e31e3b59085500b13345aae5dbbea5a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 01/52] fix: SparseMatrix::swap exchanges the column count too

---
 src/lib/matrix/SparseMatrix.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index bb62f06..662da8c 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -832,6 +832,7 @@ void SparseMatrix<T>::swap(SparseMatrix<T>& v)
 	std::swap(mValues, v.mValues);
 	std::swap(mColumnPtr, v.mColumnPtr);
 	std::swap(mRowPtr, v.mRowPtr);
+	std::swap(mColumnCount, v.mColumnCount);
 }
 
 template<typename T>
-- 
2.43.0


From 63f895acceb5fb973f22b47d9302051ec3c84d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 02/52] fix: SparseMatrix::column_begin stops at the last row
 of an empty column

---
 src/lib/matrix/SparseMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 662da8c..c7324e9 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -518,7 +518,7 @@ const SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i) const
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
@@ -542,7 +542,7 @@ SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i)
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
-- 
2.43.0


From f06203b07185b3b729002abcc070040410d94e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 03/52] fix: SparseMatrix::erase returns an iterator to the row
 of the following entry

---
 src/lib/matrix/SparseMatrix.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index c7324e9..5605dcd 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -623,7 +623,6 @@ SparseMatrixIterator<T> SparseMatrix<T>::erase(const SparseMatrixIterator<T>& it
 				if (mRowPtr[s1] == it.mColumnPtrIndex)
 				{
 					nIt.mIndex1 = s1;// New row
-					break;
 				}
 				else if (mRowPtr[s1] > it.mColumnPtrIndex)
 				{
-- 
2.43.0


From e1d63bc42528f91953a39d83e7379d8f35920224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 04/52] fix: SparseMatrix += and -= reject operands of
 different size, -= accepts itself as operand

---
 src/lib/matrix/SparseMatrix.inl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 5605dcd..2187877 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -643,6 +643,9 @@ SparseMatrixIterator<T> SparseMatrix<T>::erase(const SparseMatrixIterator<T>& it
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)// O(D1*D2)
 		set(it.row(), it.column(), at(it.row(), it.column()) + *it);// O(D1*D2)
 
@@ -652,6 +655,12 @@ SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
+	if (this == &v2)// Entries are erased while iterating
+		return *this -= SparseMatrix<T>(v2);
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)
 		set(it.row(), it.column(), at(it.row(), it.column()) - *it);
 
-- 
2.43.0


From 797ce0d74a9e46e8ffdc72897341a4f8a97e5735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 05/52] fix: SparseMatrix element-wise product rejects
 different sizes and never touches absent entries

---
 src/lib/matrix/SparseMatrix.inl | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 2187877..cf79c73 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -670,21 +670,20 @@ SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 {
-	for (auto it = v2.cbegin(); it != v2.cend(); ++it)// O(D1*D2)
-	{
-		bool found;
-		Index tmp;
-		T& val = const_cast<T&>(internal_at(it.row(), it.column(), tmp, found));// O(D2)
-
-		val *= *it;
-	}
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
 
 	for (auto it = begin(); it != end();)// O(D1*D2)
 	{
-		if (!v2.has(it.row(), it.column()))// O(D2)
+		const T val = *it * v2.at(it.row(), it.column());// O(D2)
+
+		if (val == (T)0)
 			it = erase(it);// O(D1*D2)
 		else
+		{
+			*it = val;
 			++it;
+		}
 	}
 
 	return *this;
-- 
2.43.0


From 0c055d762a2009709bc1842fcd658497b085015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 06/52] fix: SparseMatrix scaling does not keep entries that
 become zero

---
 src/lib/matrix/SparseMatrix.inl | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index cf79c73..8344c69 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -700,8 +700,16 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const T& f)
 	}
 	else
 	{
-		for (auto it = begin(); it != end(); ++it)// O(D1*D2)
-			*it *= f; // O(1)
+		const T s = f;// May refer to an entry
+		for (auto it = begin(); it != end();)// O(D1*D2)
+		{
+			*it *= s; // O(1)
+
+			if (*it == (T)0)
+				it = erase(it);
+			else
+				++it;
+		}
 	}
 
 	return *this;
-- 
2.43.0


From 02f45d04ae74b0c73d0c0c00a32fcf2f1b8a7651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 07/52] fix: DenseMatrix element-wise operators compare rows
 and columns, not only the element count

---
 src/lib/matrix/DenseMatrix.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index b6aa00b..c76365a 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -59,7 +59,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator +=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -72,7 +72,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator -=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -85,7 +85,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
-- 
2.43.0


From 7eeeec20a190875101a19d65f673b9e71fc73fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 08/52] fix: scalar compound operators work with a reference to
 an own element

---
 src/lib/Vector.inl             | 9 ++++++---
 src/lib/matrix/DenseMatrix.inl | 3 ++-
 src/lib/matrix/FixedMatrix.inl | 3 ++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index c8b41dc..94c8d9d 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -159,8 +159,9 @@ Vector<T,DC>& Vector<T,DC>::operator +=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator +=(const T& f)
 {
+	const T s = f;// May refer to an own element
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] += f;
+		this->mData[i] += s;
 
 	return *this;
 }
@@ -180,8 +181,9 @@ Vector<T,DC>& Vector<T,DC>::operator -=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator -=(const T& f)
 {
+	const T s = f;// May refer to an own element
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] -= f;
+		this->mData[i] -= s;
 
 	return *this;
 }
@@ -201,8 +203,9 @@ Vector<T,DC>& Vector<T,DC>::operator *=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator *=(const T& f)
 {
+	const T s = f;// May refer to an own element
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] *= f;
+		this->mData[i] *= s;
 
 	return *this;
 }
diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index c76365a..ac92279 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -97,8 +97,9 @@ DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 template<typename T>
 DenseMatrix<T>& DenseMatrix<T>::operator *=(const T& f)
 {
+	const T s = f;// May refer to an own element
 	for (Index i = 0; i < this->size(); ++i)
-		this->mValues.Container[i] *= f;
+		this->mValues.Container[i] *= s;
 
 	return *this;
 }
diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index 6dcd48a..0e9a5fc 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -76,8 +76,9 @@ FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const FixedMatrix<T,K1,K
 template<typename T, Dimension K1, Dimension K2>
 FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const T& f)
 {
+	const T s = f;// May refer to an own element
 	for (Index i = 0; i < this->size(); ++i)
-		this->mValues.Container[i] *= f;
+		this->mValues.Container[i] *= s;
 
 	return *this;
 }
-- 
2.43.0


From 861e9c87505076f3ae12e0ca1a88faf81021d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 09/52] fix: Vector division by a scalar works for integral
 types

---
 src/lib/Vector.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index 94c8d9d..b34d273 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -225,9 +225,9 @@ Vector<T,DC>& Vector<T,DC>::operator /=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator /=(const T& f)
 {
-	T invF = (T)1 / f;// TODO: NAN?
+	const T s = f;// May refer to an own element
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] *= invF;
+		this->mData[i] /= s;// TODO: NAN?
 
 	return *this;
 }
-- 
2.43.0


From f4b38f399676258529c24188ae45d4bf13541718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 10/52] fix: maximum starts with the lowest value

---
 src/lib/CountableSet.inl        | 2 +-
 src/lib/matrix/BaseMatrix.inl   | 2 +-
 src/lib/matrix/SparseMatrix.inl | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/CountableSet.inl b/src/lib/CountableSet.inl
index 22a8dcd..d584ebf 100644
--- a/src/lib/CountableSet.inl
+++ b/src/lib/CountableSet.inl
@@ -76,7 +76,7 @@ T CountableSet<T, DC>::max() const
 {
 	typedef typename get_complex_internal<T>::type _t;
 
-	_t s = std::numeric_limits<_t>::min();
+	_t s = std::numeric_limits<_t>::lowest();
 	for (Index i = 0; i < size(); ++i)
 	{
 		_t d = complex_abs(mData[i]);
diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 3fc479c..37a11ca 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -372,7 +372,7 @@ T BaseMatrix<T,DC>::sum() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues.Container)
 	{
 		if (l > s)
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 8344c69..a517438 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -776,7 +776,7 @@ T SparseMatrix<T>::sum() const
 template<typename T>
 T SparseMatrix<T>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues)
 	{
 		if (l > s)
-- 
2.43.0


From 2f054beae21004c635552b1d14e90c3e63acf735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 11/52] fix: matrix average and NaN/inf tests compile for
 complex numbers

---
 src/lib/matrix/BaseMatrix.inl   | 6 +++---
 src/lib/matrix/SparseMatrix.inl | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 37a11ca..34a2fca 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -398,7 +398,7 @@ T BaseMatrix<T,DC>::min() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::avg() const
 {
-	return sum() / size();
+	return sum() / (T)size();
 }
 
 template<typename T, class DC>
@@ -406,7 +406,7 @@ bool BaseMatrix<T,DC>::has_nan() const
 {
 	for (auto l : mValues.Container)
 	{
-		if (std::isnan(l))
+		if (complex_isnan(l))
 			return true;
 	}
 
@@ -418,7 +418,7 @@ bool BaseMatrix<T,DC>::has_inf() const
 {
 	for (auto l : mValues.Container)
 	{
-		if (std::isinf(l))
+		if (complex_isinf(l))
 			return true;
 	}
 
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index a517438..2a24da2 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -808,7 +808,7 @@ T SparseMatrix<T>::min() const
 template<typename T>
 T SparseMatrix<T>::avg() const
 {
-	return sum() / size();// Overflow?
+	return sum() / (T)size();// Overflow?
 }
 
 template<typename T>
@@ -816,7 +816,7 @@ bool SparseMatrix<T>::has_nan() const
 {
 	for (auto l : mValues)
 	{
-		if (std::isnan(l))
+		if (complex_isnan(l))
 			return true;
 	}
 
@@ -828,7 +828,7 @@ bool SparseMatrix<T>::has_inf() const
 {
 	for (auto l : mValues)
 	{
-		if (std::isinf(l))
+		if (complex_isinf(l))
 			return true;
 	}
 
-- 
2.43.0


From 8f0f6520eb1d37c506b28966d2d362588417117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 12/52] fix: FixedMatrix conjugate and adjugate call an
 existing function

---
 src/lib/matrix/FixedMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index 0e9a5fc..47ff556 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -112,7 +112,7 @@ FixedMatrix<T,K1,K2> FixedMatrix<T,K1,K2>::conjugate() const
 	{
 		for (Index j = 0; j < this->columns(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(i, j)));
+			tmp.set(i, j, complex_conj(this->at(i, j)));
 		}
 	}
 
@@ -127,7 +127,7 @@ FixedMatrix<T,K2,K1> FixedMatrix<T,K1,K2>::adjugate() const
 	{
 		for (Index j = 0; j < this->rows(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(j, i)));
+			tmp.set(i, j, complex_conj(this->at(j, i)));
 		}
 	}
 
-- 
2.43.0


From 9442d5f2d2858ed54f60c2eed78ace54e32f3d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 13/52] fix: MatrixConverter uses the existing dense matrix
 type

---
 src/lib/matrix/MatrixConverter.h   | 2 +-
 src/lib/matrix/MatrixConverter.inl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/MatrixConverter.h b/src/lib/matrix/MatrixConverter.h
index 7742352..ead470c 100644
--- a/src/lib/matrix/MatrixConverter.h
+++ b/src/lib/matrix/MatrixConverter.h
@@ -20,7 +20,7 @@ namespace Convert
 	* @return The new dense matrix.
 	*/
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
 }
 
 NS_END_NAMESPACE
diff --git a/src/lib/matrix/MatrixConverter.inl b/src/lib/matrix/MatrixConverter.inl
index 1c38a06..0a45eae 100644
--- a/src/lib/matrix/MatrixConverter.inl
+++ b/src/lib/matrix/MatrixConverter.inl
@@ -24,9 +24,9 @@ namespace Convert
 	}
 
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
 	{
-		Matrix<T> res(m.rows(), m.columns());
+		DenseMatrix<T> res(m.rows(), m.columns());
 		for (auto it = m.begin(); it != m.end(); ++it)
 		{
 			res.set(it.row(), it.column(), *it);
-- 
2.43.0


From cfe424fd357726b17b8e5baf9e3d7b6490df88dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 14/52] fix: FixedMatrix checks are declared for the square
 matrices they are defined for

---
 src/lib/matrix/MatrixCheck.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/matrix/MatrixCheck.h b/src/lib/matrix/MatrixCheck.h
index e4f31c0..1595cea 100644
--- a/src/lib/matrix/MatrixCheck.h
+++ b/src/lib/matrix/MatrixCheck.h
@@ -19,8 +19,8 @@ namespace Check
 	typename std::enable_if<is_dynamic_matrix<M, T>::value, bool >::type
 	matrixIsOrthogonal(const M<T>& m);
 
-	template<typename T, Dimension K1, Dimension K2>
-	bool matrixIsOrthogonal(const FixedMatrix<T,K1,K2>& m);
+	template<typename T, Dimension K>
+	bool matrixIsOrthogonal(const FixedMatrix<T,K,K>& m);
 
 	/**
 	* @brief Checks if the matrix is unitary.
@@ -35,8 +35,8 @@ namespace Check
 	typename std::enable_if<is_dynamic_matrix<M, T>::value, bool >::type
 	matrixIsUnitary(const M<T>& m);
 
-	template<typename T, Dimension K1, Dimension K2>
-	bool matrixIsUnitary(const FixedMatrix<T,K1,K2>& m);
+	template<typename T, Dimension K>
+	bool matrixIsUnitary(const FixedMatrix<T,K,K>& m);
 
 	/**
 	* @brief Checks if the matrix is a projection.
-- 
2.43.0


From 8e26aa79766b6cee752863df162e63dca955a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 15/52] fix: inverse_permutation is inline, so the header can
 be used in several translation units

---
 src/lib/matrix/MatrixOrder.h   | 2 +-
 src/lib/matrix/MatrixOrder.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/MatrixOrder.h b/src/lib/matrix/MatrixOrder.h
index a02d229..c18af48 100644
--- a/src/lib/matrix/MatrixOrder.h
+++ b/src/lib/matrix/MatrixOrder.h
@@ -28,7 +28,7 @@ DynamicVector<Index> r_cuthill_mckee(const SparseMatrix<T>& m);
 template<typename T>
 SparseMatrix<T> permutation_matrix(const DynamicVector<Index>& permutation);
 
-DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation);
+inline DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation);
 
 /**
 * @brief Reorders the given matrix based on the permuation
diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index a665e96..60e2e3c 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -114,7 +114,7 @@ SparseMatrix<T> permutation_matrix(const DynamicVector<Index>& permutation)
 	return nm;
 }
 
-DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation)
+inline DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation)
 {
 	DynamicVector<Index> np(permutation.size());
 	for(Index i = 0; i < permutation.size(); ++i)
-- 
2.43.0


From dcc3455512bbc910f8b08e632784a35c5fec2559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 16/52] fix: LU::doolittle does not leak its row table when the
 matrix is singular

---
 src/lib/LU.h   | 2 ++
 src/lib/LU.inl | 8 ++------
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib/LU.h b/src/lib/LU.h
index a1a3e41..edabe28 100644
--- a/src/lib/LU.h
+++ b/src/lib/LU.h
@@ -5,6 +5,8 @@
 
 #include "matrix/MatrixCheck.h"
 
+#include <vector>
+
 NS_BEGIN_NAMESPACE
 
 namespace LU
diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index dc29013..07ab032 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -63,7 +63,7 @@ namespace LU {
 			if(pivotCount)
 				*pivotCount = 0;
 
-			Index* rowTable = new Index[n];
+			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
 				L.set(i, i, (T)1);
@@ -127,8 +127,6 @@ namespace LU {
 			// Build pivot matrix
 			for (Index i = 0; i < n; ++i)
 				P.set(i,rowTable[i], (T)1);
-			
-			delete[] rowTable;
 		}
 
 		/* TODO: Optimize*/
@@ -146,7 +144,7 @@ namespace LU {
 			if(pivotCount)
 				*pivotCount = 0;
 
-			Index* rowTable = new Index[n];
+			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
 				L.set(i, i, (T)1);
@@ -211,8 +209,6 @@ namespace LU {
 			P = SparseMatrix<T>(n,n);
 			for (Index i = 0; i < n; ++i)
 				P.set(i,rowTable[i], (T)1);
-			
-			delete[] rowTable;
 		}
 
 		template<typename T>
-- 
2.43.0


From 57a315a81e7e0be9db0e9af61b5353b462c5a191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 17/52] fix: LU::doolittle resets its dense outputs

---
 src/lib/LU.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 07ab032..8772a86 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -66,6 +66,12 @@ namespace LU {
 			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
+				for (Index j = 0; j < n; ++j)// Outputs may hold old values
+				{
+					L.set(i, j, (T)0);
+					P.set(i, j, (T)0);
+				}
+
 				L.set(i, i, (T)1);
 				rowTable[i] = i;
 			}
-- 
2.43.0


From c220d7faf4744719f57df891dab1b48e485ca2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 18/52] fix: LU::cholesky does not read old output values and
 rejects zero pivots

---
 src/lib/LU.inl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 8772a86..c7fbd34 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -31,14 +31,17 @@ namespace LU {
 				}
 
 				s = m.at(j, j) - s;
-				if (!sqrt_allowed(s))
+				if (!sqrt_allowed(s) || s == (T)0)
 					throw NotPositiveDefiniteException();
 
+				for (Index i = 0; i < j; ++i)// Output may hold old values
+					L.set(i, j, (T)0);
+
 				L.set(j, j, std::sqrt(s));
 				for (Index i = j; i < L.rows(); ++i)
 				{
 					s = (T)0;
-					for (Index k = 0; k < i; ++k)
+					for (Index k = 0; k < j; ++k)
 						s += L.at(i, k)*L.at(j, k);
 					L.set(i, j, (m.at(i, j) - s) / L.at(j, j));
 				}
-- 
2.43.0


From 87b71e2f691e54df90760fb6f78b1392b786e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 19/52] fix: LU::ilu0 sets up its outputs like doolittle

---
 src/lib/LU.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index c7fbd34..fd93b1a 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -247,6 +247,8 @@ namespace LU {
 			}
 
 			// Seperate M into L and U
+			L = SparseMatrix<T>(A.rows(), A.columns());
+			U = SparseMatrix<T>(A.rows(), A.columns());
 			for(auto it = M.begin(); it != M.end(); ++it)
 			{
 				if(it.column() == it.row())
-- 
2.43.0


From d0c2adef386e4f57d895f9be33642f89a6212a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 20/52] fix: LU::ainv_lu checks the pivot before dividing, and
 does not read old output values

---
 src/lib/LU.inl | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index fd93b1a..e9db01a 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -350,11 +350,14 @@ namespace LU {
 			for(Index k = 0; k < N; ++k)
 			{
 				// L
+				for(Index i = 0; i < k; ++i)// Output may hold old values
+					invL.set(i,k, (T)0);
+
 				invL.set(k,k, 1);// Assuming L has only ones as diagonal entries
 
 				for(Index i = k+1; i < N; ++i)
 				{
-					T m = invL.at(i,k);
+					T m = (T)0;
 
 					auto it = L.row_begin(i);
 					while(it != L.row_end(i) && it.column() < k)// Skipping. Is zero
@@ -367,11 +370,12 @@ namespace LU {
 				}
 
 				// U
-				invU.set(k,k, 1/U.at(k,k));
+				for(Index i = k+1; i < N; ++i)// Output may hold old values
+					invU.set(i,k, (T)0);
 				
-				for(Index i = (N-1)-k; ; --i)
+				for(Index i = k; ; --i)
 				{
-					T m = invU.at(i,k);
+					T m = (i == k) ? (T)1 : (T)0;
 
 					auto it = U.row_begin(i);
 					while(it != U.row_end(i) && it.column() < i+1)// Skipping. Is zero
-- 
2.43.0


From b56e6e3197f4493b30df588edec35f4b763b68e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 21/52] fix: Operations::inverse(L,U) divides the right entry
 by the pivot

---
 src/lib/matrix/MatrixOperations.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/matrix/MatrixOperations.inl b/src/lib/matrix/MatrixOperations.inl
index f06e221..45dbec3 100644
--- a/src/lib/matrix/MatrixOperations.inl
+++ b/src/lib/matrix/MatrixOperations.inl
@@ -99,7 +99,7 @@ namespace Operations
 				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
 					throw SingularException();
 				
-				Inv.set(j,j, Inv.at(j,j) / mid);
+				Inv.set(j,i, Inv.at(j,i) / mid);
 
 				if(j == 0)
 					break;
-- 
2.43.0


From 169fa06516cf341453e69948dc6393aef6f5301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 22/52] fix: CG::jacobi compiles for complex numbers and resets
 its output

---
 src/lib/CG.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index 7678225..4384247 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -122,7 +122,10 @@ namespace CG {
 				const auto mid = A.at(i,i);
 				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
 					throw SingularException();
-				C.set(i,i, 1/mid);
+
+				for(Index j = 0; j < C.columns(); ++j)// Output may hold old values
+					C.set(i,j, (T)0);
+				C.set(i,i, (T)1/mid);
 			}
 		}
 	}
-- 
2.43.0


From 587be8c21698adf70ae3d56ec10d716e551ae001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 23/52] fix: CG::cg uses the old direction and stops at an
 exact residual

---
 src/lib/CG.inl | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index 4384247..206c6b7 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -29,7 +29,7 @@ namespace CG {
 
 			V2 l;
 			size_t k = 0;
-			for (; k < maxIter; ++k)
+			for (; k < maxIter && rs != (typename V2::value_type)0; ++k)
 			{
 				const auto t = a.mul(p);
 				const typename M::value_type ak = rs / (t.dot(p));
@@ -37,18 +37,21 @@ namespace CG {
 				l = r - ak*t;
 
 				const auto ls = l.magSqr();
-				if (ls < eps2 || k == maxIter-1)
+				if (ls < eps2)
+				{
+					++k;
 					break;
+				}
 
 				const typename V2::value_type bk = ls / rs;
 
-				p = l + bk*r;
+				p = l + bk*p;
 				r = l;
 				rs = ls;
 			}
 
 			if (it_stat)
-				*it_stat = k + 1;
+				*it_stat = k;
 
 			return x;
 		}
-- 
2.43.0


From f3a0cbdd3c70727862dc60db1d49bacea21e3fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 24/52] fix: CG::pcg stops at an exact residual and reports the
 iterations it performed

---
 src/lib/CG.inl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index 206c6b7..b6b1a29 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -84,15 +84,18 @@ namespace CG {
 			auto l1 = r.dot(z);
 			auto l2 = l1;
 			size_t k = 0;
-			for (; k < maxIter; ++k)
+			for (; k < maxIter && l1 != (typename V2::value_type)0; ++k)
 			{
 				const auto t = a.mul(p);
 				const typename M::value_type ak = l1 / (t.dot(p));
 				x += ak*p;
 				r -= ak*t;
 
-				if (r.magSqr() < eps2 || k == maxIter-1)
+				if (r.magSqr() < eps2)
+				{
+					++k;
 					break;
+				}
 
 				z = c.mul(r);
 				l2 = r.dot(z);
@@ -101,7 +104,7 @@ namespace CG {
 			}
 
 			if (it_stat)
-				*it_stat = k + 1;
+				*it_stat = k;
 
 			return x;
 		}
-- 
2.43.0


From 7536a5da6d5e0d59be65b4090864f275c88bf27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 25/52] fix: stationary iterations reject a zero diagonal
 before dividing

---
 src/lib/Iterative.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 19a1cdb..4bf6d90 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -39,6 +39,9 @@ namespace Iterative
 							mid = *rit;
 					}
 
+					if (mid == (T)0)
+						throw MatrixHasZeroInDiagException();
+
 					xm.set(i, (b.at(i) - t) / mid);
 				}
 
@@ -100,6 +103,9 @@ namespace Iterative
 							mid = *rit;
 					}
 
+					if (mid == (T)0)
+						throw MatrixHasZeroInDiagException();
+
 					t = (b.at(i) - t) / mid;
 					xm.set(i, rweight*xm.at(i) + weight*t);
 				}
-- 
2.43.0


From 703c544dc3f810c12067e0891920279c577c4678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 26/52] fix: MeshEdge initialises all of its vertices

---
 src/lib/mesh/Mesh.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 7d85878..c392c29 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -30,7 +30,7 @@ MeshVertex<T,K>::MeshVertex(const FixedVector<T,K>& vertex) :
 template<typename T, Dimension K>
 MeshEdge<T,K>::MeshEdge()
 {
-	for(Index i = 0; i < K-1; ++i)
+	for(Index i = 0; i < K; ++i)
 		Vertices[i] = nullptr;
 	
 	Elements[0] = nullptr;
-- 
2.43.0


From 06bbbe18e452c824a70505db7c6f13f9a53c1422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 27/52] fix: Mesh::clear releases the edges too

---
 src/lib/mesh/Mesh.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index c392c29..73eeda8 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -124,6 +124,10 @@ void Mesh<T,K>::clear()
 	for(auto ptr : mData->Elements)
 		delete ptr;
 	mData->Elements.clear();
+
+	for(auto ptr : mData->Edges)
+		delete ptr;
+	mData->Edges.clear();
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From 88662086e513448f344b5cc6b5384b1a242ee8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 28/52] fix: Mesh handles survive self-assignment and copies of
 moved-from handles

---
 src/lib/mesh/Mesh.inl | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 73eeda8..c4c848d 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -49,7 +49,8 @@ template<typename T, Dimension K>
 Mesh<T,K>::Mesh(const Mesh<T,K>& other)
 {
 	mData = other.mData;
-	mData->Refs++;
+	if(mData)
+		mData->Refs++;
 }
 
 template<typename T, Dimension K>
@@ -77,6 +78,9 @@ Mesh<T,K>::~Mesh()
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 {
+	if(this == &other)
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
@@ -89,7 +93,8 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 	}
 
 	mData = other.mData;
-	mData->Refs++;
+	if(mData)
+		mData->Refs++;
 	
 	return *this;
 }
@@ -97,6 +102,9 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
 {
+	if(this == &other)
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
-- 
2.43.0


From 036371f7aebc0d692041a5eb4fbb57e6c6d2d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 29/52] fix: Mesh accessors check their index, addElement its
 vertices

---
 src/lib/mesh/Mesh.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index c4c848d..1277a74 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -156,12 +156,14 @@ void Mesh<T,K>::addVertex(MeshVertex<T,K>* vertex)
 template<typename T, Dimension K>
 MeshVertex<T,K>* Mesh<T,K>::vertex(Index i) const
 {
+	NS_ASSERT(i < mData->Vertices.size());
 	return mData->Vertices[i];
 }
 
 template<typename T, Dimension K>
 void Mesh<T,K>::setVertex(Index i, MeshVertex<T,K>* vertex)
 {
+	NS_ASSERT(i < mData->Vertices.size());
 	mData->Vertices[i] = vertex;
 }
 
@@ -182,6 +184,8 @@ template<typename T, Dimension K>
 void Mesh<T,K>::addElement(MeshElement<T,K>* element)
 {
 	NS_ASSERT(element);
+	for(Index i = 0; i < K+1; ++i)
+		NS_ASSERT(element->Vertices[i]);
 
 	mData->Elements.push_back(element);
 
@@ -195,12 +199,14 @@ void Mesh<T,K>::addElement(MeshElement<T,K>* element)
 template<typename T, Dimension K>
 MeshElement<T,K>* Mesh<T,K>::element(Index i) const
 {
+	NS_ASSERT(i < mData->Elements.size());
 	return mData->Elements[i];
 }
 
 template<typename T, Dimension K>
 void Mesh<T,K>::setElement(Index i, MeshElement<T,K>* element)
 {
+	NS_ASSERT(i < mData->Elements.size());
 	mData->Elements[i] = element;
 }
 
@@ -213,6 +219,7 @@ const typename Mesh<T,K>::MeshElementList& Mesh<T,K>::elements() const
 template<typename T, Dimension K>
 MeshEdge<T,K>* Mesh<T,K>::edge(Index i) const
 {
+	NS_ASSERT(i < mData->Edges.size());
 	return mData->Edges[i];
 }
 
-- 
2.43.0


From 21388903ce7c70b2e50388ac99b3e13f5e33b2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 30/52] fix: HyperCube applies the element count of each axis
 to that axis

---
 src/lib/mesh/HyperCube.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/mesh/HyperCube.inl b/src/lib/mesh/HyperCube.inl
index 6bfa5db..ca8b386 100644
--- a/src/lib/mesh/HyperCube.inl
+++ b/src/lib/mesh/HyperCube.inl
@@ -40,10 +40,10 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	ey.fill((T)0);
 	ey[1] = size[1]/(T)elements[1];
 	
-	MV** lastRowVertices = new MV*[elements[1]+1];
+	MV** lastRowVertices = new MV*[elements[0]+1];
 
 	// Generate first row
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 	{
 		MV* v = new MV(offset + ex*(T)j);
 		v->Flags |= MVF_StrongBoundary;
@@ -52,7 +52,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	}
 
 	// Iterate over rows
-	for(Index i = 1; i <= elements[0]; ++i)
+	for(Index i = 1; i <= elements[1]; ++i)
 	{
 		const auto py = ey*(T)i;
 		MV* lastVertex = new MV(offset + py);
@@ -60,7 +60,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		mesh.addVertex(lastVertex);
 
-		for(Index j = 1; j <= elements[1]; ++j)
+		for(Index j = 1; j <= elements[0]; ++j)
 		{
 			MV* v = new MV(offset + ex*(T)j + py);
 			mesh.addVertex(v);
@@ -83,11 +83,11 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		lastVertex->Flags |= MVF_StrongBoundary;// Set last column as boundary
 
-		lastRowVertices[elements[1]] = lastVertex;
+		lastRowVertices[elements[0]] = lastVertex;
 	}
 
 	// Set last row as boundary
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 		lastRowVertices[j]->Flags |= MVF_StrongBoundary;
 
 
-- 
2.43.0


From c70a6d61d206a0a4b507070e3d962130cf5d7829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 31/52] fix: Simplex::center computes the circumcentre for
 every triangle and requires preparation

---
 src/lib/Simplex.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/Simplex.inl b/src/lib/Simplex.inl
index 0dc69b0..ed97c8c 100644
--- a/src/lib/Simplex.inl
+++ b/src/lib/Simplex.inl
@@ -77,13 +77,14 @@ template<typename T, Dimension K>
 typename Simplex<T,K>::vertex_t Simplex<T,K>::center() const
 {
 	static_assert(K==2, "Center currently only implemented for 2D!");
+	NS_ASSERT(mPrepared);
 	vertex_t a = mVertices[1]-mVertices[0];
 	vertex_t b = mVertices[2]-mVertices[0];
 	
 	vertex_t v;
 	v[0] = b[1]*a.magSqr() - a[1]*b.magSqr();
 	v[1] = a[0]*b.magSqr() - b[0]*a.magSqr();
-	return v / (T)2 * mDeterminant;
+	return v / ((T)2 * mDeterminant) + mVertices[0];
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From 504dd6d9a8d6aa94a4a318c4eeaff0c2c8573e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 32/52] fix: Simplex vertex access checks its index

---
 src/lib/Simplex.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/Simplex.inl b/src/lib/Simplex.inl
index ed97c8c..cf27888 100644
--- a/src/lib/Simplex.inl
+++ b/src/lib/Simplex.inl
@@ -51,12 +51,14 @@ void Simplex<T,K>::prepare()
 template<typename T, Dimension K>
 const typename Simplex<T,K>::vertex_t& Simplex<T,K>::operator[](Index i) const
 {
+	NS_ASSERT(i < K+1);
 	return mVertices[i];
 }
 
 template<typename T, Dimension K>
 typename Simplex<T,K>::vertex_t& Simplex<T,K>::operator[](Index i)
 {
+	NS_ASSERT(i < K+1);
 	return mVertices[i];
 }
 
-- 
2.43.0


From 28c03a9998ad7c11970270ebc71415be49362b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 33/52] fix: PolyShapeFunction counts the degrees of freedom of
 every supported combination

---
 src/lib/sf/PolyShapeFunction.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.h b/src/lib/sf/PolyShapeFunction.h
index 8911902..231b349 100644
--- a/src/lib/sf/PolyShapeFunction.h
+++ b/src/lib/sf/PolyShapeFunction.h
@@ -14,7 +14,9 @@ template<typename T, Dimension K, Dimension Order>
 class PolyShapePolicy
 {
 public:
-	static constexpr Dimension DOF = (K+1)*Order;// Wrong, but works for Order < 3
+	static constexpr Dimension DOF = (K == 1) ? (Order+1)
+		: (K == 2) ? (Order+1)*(Order+2)/2
+		: (Order+1)*(Order+2)*(Order+3)/6;
 
 	// For the standard k-simplex
 	T value(Index localComponent, const FixedVector<T,K>& local) const;
-- 
2.43.0


From cdf58786fcbdfa32c7565c9bd4c8748bd5126d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 34/52] fix: PolyShapeFunction derivatives match the value
 function

---
 src/lib/sf/PolyShapeFunction.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index c89473e..f3cf721 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -211,8 +211,8 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient(Index localComponent, cons
         if(Order == 1)
         {
             NS_ASSERT(localComponent < 3);
-            g[0] = nodeValues[1]*nodeValues[0]*PSF_Coeff_2D_1[localComponent][1];
-            g[1] = nodeValues[2]*nodeValues[0]*PSF_Coeff_2D_1[localComponent][2];
+            g[0] = nodeValues[1]*PSF_Coeff_2D_1[localComponent][1];
+            g[1] = nodeValues[2]*PSF_Coeff_2D_1[localComponent][2];
         }
         else if(Order == 2)
         {
@@ -328,7 +328,7 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient2(Index localComponent, con
                 + nodeValues[6]*2*PSF_Coeff_2D_3[localComponent][6]*local[1]
                 + nodeValues[8]*6*PSF_Coeff_2D_3[localComponent][8]*local[0];
             g[1] = nodeValues[5]*2*PSF_Coeff_2D_3[localComponent][5]
-                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[1]
+                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[0]
                 + nodeValues[9]*6*PSF_Coeff_2D_3[localComponent][9]*local[1];
         }
     }
-- 
2.43.0


From 1baa960c48c87ac77275f4f026cf7d65c4d85595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 35/52] fix: quadratic line shape functions follow the
 documented node order

---
 src/lib/sf/PolyShapeFunction.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index f3cf721..495ebdc 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -13,7 +13,7 @@ NS_BEGIN_NAMESPACE
 constexpr float PSF_Coeff_1D_1[2][2] = {{1, -1}, {0,1}};
 
 // Second Order: x0 --x2-- x1
-constexpr float PSF_Coeff_1D_2[3][3] = {{1, -3, 2}, {0, 4, -4}, {0, -1, 2}};
+constexpr float PSF_Coeff_1D_2[3][3] = {{1, -3, 2}, {0, -1, 2}, {0, 4, -4}};
 
 // ----------- 2-Simplex (Triangle) [Multivariate Polynomial] -----------
 // First Order:
-- 
2.43.0


From 812043b0aef3e2e2e3193e36ee6b852178e3fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 36/52] fix: VTKExporter accepts an empty point data set

---
 src/lib/export/VTKExporter.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 1a3de4d..231c68a 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -92,7 +92,10 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream << "</Cells>" << std::endl;
 
 	// Point data
-	stream << "<PointData Scalars=\"" << pointData.begin()->first << "\">" << std::endl;
+	stream << "<PointData";
+	if(!pointData.empty())
+		stream << " Scalars=\"" << pointData.begin()->first << "\"";
+	stream << ">" << std::endl;
 	for(auto res : pointData)
 	{
 		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
-- 
2.43.0


From cb18ff5e91767ca04a37e2dcb2f67d9bd9124f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 37/52] fix: VTKExporter writes all coordinates of 3d points

---
 src/lib/export/VTKExporter.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 231c68a..95be64b 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -30,7 +30,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 	for (MeshVertex<T,K>* v : mesh.vertices())
 	{
 		stream << v->Vertex[0] << " "
-			<< ((K == 2) ? v->Vertex[1] : 0) << " "
+			<< ((K >= 2) ? v->Vertex[1] : 0) << " "
 			<< ((K == 3) ? v->Vertex[2] : 0) << std::endl;
 	}
 
-- 
2.43.0


From 29a5094609a7474978880dff46beb9488fffbe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 38/52] fix: VTKExporter declares as many gradient components
 as it writes

---
 src/lib/export/VTKExporter.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 95be64b..1739e42 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -157,7 +157,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 	if(outputOptions & VOO_ElementGradient)
 	{
 		stream << "<DataArray Name=\"ElementGradient\" type=\"Float32\" NumberOfComponents=\"" 
-			<< (K*K) << "\" format=\"ascii\">" << std::endl;
+			<< K << "\" format=\"ascii\">" << std::endl;
 		for (MeshElement<T,K>* elem : mesh.elements())
 		{
 			const auto M = elem->Element.gradient(0);
-- 
2.43.0


From b2854d48ded9da878a954f210491cc8b11d3f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 39/52] fix: MeshTriangleLoader does not step outside a line
 that ends with a number

---
 src/lib/loader/MeshTriangleLoader.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 5449ec9..efab793 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -187,7 +187,10 @@ T2 MeshTriangleLoader<T>::extractFirstNumber(std::string::const_iterator& start,
 	std::stringstream stream(std::string(start, end));
 	T2 ret = 0;
 	stream >> ret;
-	start += stream.tellg();
+	if(stream.good())
+		start += stream.tellg();
+	else// Number ends with the line, or there is none
+		start = end;
 
 	return ret;
 }
-- 
2.43.0


From 99f71dc34fe484666b8ccb6eb8d3dd0e563fa7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 40/52] fix: MeshTriangleLoader rejects node and element counts
 the text can not contain

---
 src/lib/loader/MeshTriangleLoader.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index efab793..daf79eb 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -48,7 +48,7 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 		{
 			size_t nodes = extractFirstNumber<size_t>(it, line.end());
 
-			if(nodes == 0)
+			if(nodes == 0 || nodes > nodeStr.size())
 				throw LoadTriangleNodeErrorException();
 
 			skipWS(it, line.end());
@@ -110,14 +110,14 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 		{
 			size_t nodes = extractFirstNumber<size_t>(it, line.end());
 
-			if(nodes == 0)
+			if(nodes == 0 || nodes > eleStr.size())
 				throw LoadTriangleElementErrorException();
 
 			skipWS(it, line.end());
 			if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 3)
 				throw LoadTriangleElementErrorException();
 			
-			mesh.reserveVertices(nodes);
+			mesh.reserveElements(nodes);
 			// Everything else is ignored!
 			parseMode = 1;
 		}
-- 
2.43.0


From 5bfbcbaa6ead1f4b2fe3cf6ad28478c71f61a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 41/52] fix: MeshTriangleLoader reports element errors as
 element errors

---
 src/lib/loader/MeshTriangleLoader.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index daf79eb..3083a2c 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -128,24 +128,24 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 				indexShift = 0;
 			
 			if(index-indexShift != nextIndex)
-				throw LoadTriangleNodeErrorException();
+				throw LoadTriangleElementErrorException();
 			nextIndex = index-indexShift + 1;
 			
 			skipWS(it, line.end());
 			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
+				throw LoadTriangleElementErrorException();
 			
 			size_t i1 = extractFirstNumber<size_t>(it, line.end());
 
 			skipWS(it, line.end());
 			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
+				throw LoadTriangleElementErrorException();
 
 			size_t i2 = extractFirstNumber<size_t>(it, line.end());
 
 			skipWS(it, line.end());
 			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
+				throw LoadTriangleElementErrorException();
 
 			size_t i3 = extractFirstNumber<size_t>(it, line.end());
 
-- 
2.43.0


From 2f49c683563a31262ef1d020049abe5c7ea6cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 42/52] fix: MeshTriangleLoader rejects elements with unknown
 vertices

---
 src/lib/loader/MeshTriangleLoader.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 3083a2c..99a152a 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -151,6 +151,10 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 			// Everything else is ignored
 
+			const size_t vertexCount = mesh.vertices().size();
+			if(i1-indexShift >= vertexCount || i2-indexShift >= vertexCount || i3-indexShift >= vertexCount)
+				throw LoadTriangleElementErrorException();
+
 			MeshElement<T,2>* me = new MeshElement<T,2>();
 			me->Vertices[0] = mesh.vertex(i1-indexShift);
 			me->Vertices[1] = mesh.vertex(i2-indexShift);
-- 
2.43.0


From df024d9b9b5b6d12bd951296c84f6a06ef85578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 43/52] fix: MeshObjLoader rejects shapes without triangles
 instead of aborting

---
 src/objloader/loader/MeshObjLoader.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/objloader/loader/MeshObjLoader.inl b/src/objloader/loader/MeshObjLoader.inl
index e238b1f..dd6f43b 100644
--- a/src/objloader/loader/MeshObjLoader.inl
+++ b/src/objloader/loader/MeshObjLoader.inl
@@ -46,6 +46,9 @@ Mesh<T,2> MeshObjLoader<T,yI,xI>::load(const std::vector<tinyobj::shape_t>& shap
 		const size_t vertexCount = shape.mesh.positions.size() / 3;
 		const size_t elementCount = shape.mesh.indices.size() / 3;
 
+		if(vertexCount == 0 || elementCount == 0)
+			throw LoadObjErrorException();
+
 		mesh.reserveVertices(vertexCount);
 		mesh.reserveElements(elementCount);
 
-- 
2.43.0


From d7deb6ef306f069472d3b1c6862830abf5df2f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 44/52] fix: MeshObjLoader does not leak the element it rejects

---
 src/objloader/loader/MeshObjLoader.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/objloader/loader/MeshObjLoader.inl b/src/objloader/loader/MeshObjLoader.inl
index dd6f43b..51b2f4d 100644
--- a/src/objloader/loader/MeshObjLoader.inl
+++ b/src/objloader/loader/MeshObjLoader.inl
@@ -67,7 +67,10 @@ Mesh<T,2> MeshObjLoader<T,yI,xI>::load(const std::vector<tinyobj::shape_t>& shap
 			{
 				Index idx = shape.mesh.indices[3 * i + j];
 				if(idx >= vertexCount)
+				{
+					delete s;
 					throw LoadObjErrorException();
+				}
 				
 				s->Vertices[j] = mesh.vertex(idx);
 			}
-- 
2.43.0


From c97fb8c84eb6c029b471815c9843c05ef09ac5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 45/52] fix: negation of complex vectors did not compile
 (ambiguous operator *=)

---
 src/lib/Vector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index b34d273..d460d85 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -279,7 +279,7 @@ template<typename T, class DC>
 Vector<T,DC> operator -(const Vector<T,DC>& v)
 {
 	Vector<T,DC> tmp = v;
-	return (tmp *= -1);
+	return (tmp *= (T)-1);
 }
 
 template<typename T, class DC>
-- 
2.43.0


From f8b3a0f62ebbec4b327d3ef56811c315e3b78e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 46/52] fix: sor did not compile for std::complex<float>

---
 src/lib/Iterative.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 4bf6d90..a5fe58d 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -81,7 +81,8 @@ namespace Iterative
 				throw MatrixVectorMismatchException();
 
 			const double eps2 = eps*eps;
-			const T rweight = (T)1 - weight;
+			const T tweight = (T)weight;
+			const T rweight = (T)1 - tweight;
 
 			V x = x0;
 			V xm = x0;
@@ -107,7 +108,7 @@ namespace Iterative
 						throw MatrixHasZeroInDiagException();
 
 					t = (b.at(i) - t) / mid;
-					xm.set(i, rweight*xm.at(i) + weight*t);
+					xm.set(i, rweight*xm.at(i) + tweight*t);
 				}
 
 				auto conv = std::abs((xm - x).magSqr());
-- 
2.43.0


From 7b12405eba3b0b93aeba4ca6e6ca8c350ee7f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 47/52] fix: Utils.h does not compile on its own (missing
 <type_traits>)

---
 src/lib/Utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/Utils.h b/src/lib/Utils.h
index b677078..662870b 100644
--- a/src/lib/Utils.h
+++ b/src/lib/Utils.h
@@ -2,6 +2,8 @@
 
 #include "nsConfig.h"
 
+#include <type_traits>
+
 NS_BEGIN_NAMESPACE
 
 /*
-- 
2.43.0


From a1162a9969858d96e1edcbf1a0339a1224bc7f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 48/52] fix: Simplex::faceNormal does not check its index

---
 src/lib/Simplex.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/Simplex.inl b/src/lib/Simplex.inl
index cf27888..c74086a 100644
--- a/src/lib/Simplex.inl
+++ b/src/lib/Simplex.inl
@@ -129,6 +129,8 @@ typename Simplex<T,K>::vertex_t Simplex<T,K>::faceCenter(Index i) const
 template<typename T, Dimension K>
 typename Simplex<T,K>::vertex_t Simplex<T,K>::faceNormal(Index i) const
 {
+	NS_ASSERT(i < K+1);
+
 	std::array<FixedVector<T,K>, K> face;
 	std::array<FixedVector<T,K>, K-1> arr;
 
-- 
2.43.0


From 9b0d373768d85cb3d623f21d714cf9228ff1c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:54 +0000
Subject: [PATCH 49/52] fix: triangular solves and doolittle accept empty
 systems

---
 src/lib/LU.inl | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index e9db01a..b86c83f 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -80,7 +80,7 @@ namespace LU {
 			}
 			
 			// Start
-			for(Index k = 0; k < n-1; ++k)
+			for(Index k = 0; k+1 < n; ++k)
 			{
 				// Find max i for pivoting
 				Index i = k;
@@ -161,7 +161,7 @@ namespace LU {
 			}
 			
 			// Start
-			for(Index k = 0; k < n-1; ++k)
+			for(Index k = 0; k+1 < n; ++k)
 			{
 				// Find max i for pivoting
 				Index i = k;
@@ -297,7 +297,7 @@ namespace LU {
 
 			// Backward
 			V x = y;
-			for(Index i = U.rows()-1; ; --i)
+			for(Index i = U.rows(); i-- > 0; )
 			{
 				for(auto it = U.row_begin(i); it != U.row_end(i); ++it)
 				{
@@ -311,9 +311,6 @@ namespace LU {
 				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<typename V::value_type>::type>::epsilon())
 					throw SingularException();
 				x[i] /= mid;
-
-				if(i == 0)
-					break;
 			}
 
 			return x;
-- 
2.43.0


From ee6d1879f9fdb8095d93fc2a354e08cf1e662b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:58 +0000
Subject: [PATCH 50/52] fix: escape data names in exported VTK files

---
 src/lib/export/VTKExporter.h   |  3 +++
 src/lib/export/VTKExporter.inl | 33 ++++++++++++++++++++++++++++++---
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/lib/export/VTKExporter.h b/src/lib/export/VTKExporter.h
index 0e91b31..7a9a609 100644
--- a/src/lib/export/VTKExporter.h
+++ b/src/lib/export/VTKExporter.h
@@ -29,6 +29,9 @@ public:
 		const std::map<std::string, V*>& pointData,
 		const std::map<std::string, V*>& cellData,
 		int outputOptions = 0);
+
+private:
+	static void writeName(std::ostream& stream, const std::string& name);
 };
 
 NS_END_NAMESPACE
diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 1739e42..4bc3180 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -94,11 +94,17 @@ void VTKExporter<T,K>::write(const std::string& path,
 	// Point data
 	stream << "<PointData";
 	if(!pointData.empty())
-		stream << " Scalars=\"" << pointData.begin()->first << "\"";
+	{
+		stream << " Scalars=\"";
+		writeName(stream, pointData.begin()->first);
+		stream << "\"";
+	}
 	stream << ">" << std::endl;
 	for(auto res : pointData)
 	{
-		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
+		stream << "<DataArray Name=\"";
+		writeName(stream, res.first);
+		stream << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
 		for(Index i = 0; i < res.second->size(); ++i)
 			stream << res.second->at(i) << " ";
 		stream << std::endl << "</DataArray>" << std::endl;
@@ -125,7 +131,9 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream << "<CellData>" << std::endl;
 	for(auto res : cellData)
 	{
-		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
+		stream << "<DataArray Name=\"";
+		writeName(stream, res.first);
+		stream << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
 		for(Index i = 0; i < res.second->size(); ++i)
 			stream << res.second->at(i) << " ";
 		stream << std::endl << "</DataArray>" << std::endl;
@@ -178,4 +186,23 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream.close();
 }
 
+// Names are free text, but inside an attribute some characters have to be escaped
+template<typename T, Dimension K>
+void VTKExporter<T,K>::writeName(std::ostream& stream, const std::string& name)
+{
+	for (char c : name)
+	{
+		if(c == '&')
+			stream << "&amp;";
+		else if(c == '<')
+			stream << "&lt;";
+		else if(c == '>')
+			stream << "&gt;";
+		else if(c == '"')
+			stream << "&quot;";
+		else
+			stream << c;
+	}
+}
+
 NS_END_NAMESPACE
\ No newline at end of file
-- 
2.43.0


From 3595b5600876168256934635d3998e749e9945ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:33 +0000
Subject: [PATCH 51/52] fix: the first sweep of sor ignored the start value

---
 src/lib/Iterative.inl | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index a5fe58d..9f6623c 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -86,7 +86,6 @@ namespace Iterative
 
 			V x = x0;
 			V xm = x0;
-			xm.fill((T)0);
 
 			for (size_t it = 0; it < maxIter; ++it)
 			{
-- 
2.43.0


From 26d8dcb3fa7ee6e0f7ef1cc53f01667225a93ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:13 +0000
Subject: [PATCH 52/52] fix: binom recursed endlessly when k is larger than n

---
 src/lib/Utils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/Utils.h b/src/lib/Utils.h
index 662870b..b57e736 100644
--- a/src/lib/Utils.h
+++ b/src/lib/Utils.h
@@ -47,6 +47,9 @@ namespace Math
 		if (k == 0)
 			return 1;
 
+		if (k > static_cast<k_t>(n))
+			return 0;
+
 		if (2 * (T)k > n)//Really cast to T? What is with signed?
 			return binom(n, static_cast<k_t>(n - k));
 
-- 
2.43.0

