SM='lib/matrix/SparseMatrix.inl'; CN='lib/matrix/MatrixConstructor.inl'
M=[
('rm-row','C06',[(SM,'''		for (Index k = i1 + 1; k < rows(); ++k)// O(D1)
			mRowPtr[k] -= 1;''','''		for (Index k = i1 + 1; k < rows(); ++k)// O(D1)
			if (mRowPtr[k] > columnPtrIndex + 1 || k == i1 + 1)
				mRowPtr[k] -= 1;''')],'bug'),
('set-row','C06',[(SM,'''		for (Index k = i1 + 1; k < rows(); ++k)// O(D1)
			mRowPtr[k] += 1;''','''		for (Index k = i1 + 1; k < rows(); ++k)// O(D1)
			if (mRowPtr[k] >= columnPtrIndex)
				mRowPtr[k] += 1;''')],'ok'),
('needNear','C06',[(SM,'internal_at(i1, i2, columnPtrIndex, found, true);','internal_at(i1, i2, columnPtrIndex, found);')],'ok'),
('needNear2','C06',[(SM,'while (needNear && s == 0 && tmp_i1 < (rows() - 1))','if (needNear && s == 0 && tmp_i1 < (rows() - 1))')],'ok'),
('swapdim','C06',[(SM,'	std::swap(mColumnCount, v.mColumnCount);\n','')],'bug'),
('swaprow','C06',[(SM,'	std::swap(mRowPtr, v.mRowPtr);\n','	if (rows() != v.rows())\n		std::swap(mRowPtr, v.mRowPtr);\n')],'bug'),
('clear','C06',[(SM,'		mColumnPtr.clear();\n		std::tr','		std::tr')],'bug'),
('clear2','C06',[(SM,'std::transform(mRowPtr.begin(), mRowPtr.end(), mRowPtr.begin(), [](Index i) -> Index { return 0; });// Better way? O(D1)','')],'bug'),
('clear3','C06',[(SM,'std::transform(mRowPtr.begin(), mRowPtr.end(), mRowPtr.begin(), [](Index i) -> Index { return 0; });// Better way? O(D1)','std::fill(mRowPtr.begin(), mRowPtr.end(), 0);')],'ok'),
('clear4','C06',[(SM,'std::transform(mRowPtr.begin(), mRowPtr.end(), mRowPtr.begin(), [](Index i) -> Index { return 0; });// Better way? O(D1)','mRowPtr.assign(mRowPtr.size(), 0);')],'ok'),
('erase-row','C06',[(SM,'for (Index k = it.row() + 1; k < rows(); ++k)\n		{\n			mRowPtr[k] -= 1;','for (Index k = it.row() + 1; k + 1 < rows() || k == it.row() + 1; ++k)\n		{\n			mRowPtr[k] -= 1;')],'bug'),
('order','C06',[(SM,'''				else if (ci > i2)
				{
					break;
				}
			}
		}
		else''','''			}
		}
		else''')],'bug'),
('eraseit','C07',[(SM,'''			for (Index s1 = it.row(); s1 < rows(); ++s1)
			{
				if (mRowPtr[s1] == it.mColumnPtrIndex)
				{
					nIt.mIndex1 = s1;// New row
				}''','''			for (Index s1 = it.row(); s1 < rows(); ++s1)
			{
				if (mRowPtr[s1] == it.mColumnPtrIndex)
				{
					nIt.mIndex1 = s1;// New row
					break;
				}''')],'bug'),
('zero1','C07',[(SM,'''			*it *= s; // O(1)

			if (*it == (T)0)
				it = erase(it);
			else
				++it;''','''			*it *= s; // O(1)
			++it;''')],'bugQ'),
('zero2','C07',[(SM,'''		if (val == (T)0)
			it = erase(it);// O(D1*D2)
		else
		{
			*it = val;
			++it;
		}''','''		*it = val;
		++it;''')],'bug'),
('zero3','C07',[(SM,'''		if (val == (T)0)
			return erase(it);
		else
		{''','''		{''')],'bug'),
('zero4','C07',[(SM,'''	if (t == (T)0)
		remove_at(i1, i2);// O(D1*D2)
	else
		set_at(i1, i2, t);// ''','''	if (t == (T)0 && !has(i1, i2))
		return;
	set_at(i1, i2, t);// ''')],'bug'),
('zero5','C07',[(SM,'			if (w != (T)0)\n				set(i, j, w);','			set_at(i, j, w);')],'bug'),
('incit','C07',[(SM,'''				if (mMatrix->mRowPtr[s1] == mColumnPtrIndex)
				{
					mIndex1 = s1;
				}''','''				if (mMatrix->mRowPtr[s1] == mColumnPtrIndex)
				{
					mIndex1 = s1;
					break;
				}''')],'bug'),
('rowit','C07',[(SM,'''				this->mMatrix->mRowPtr[this->mIndex1 + 1] <= this->mColumnPtrIndex)''','''				this->mMatrix->mRowPtr[this->mIndex1 + 1] < this->mColumnPtrIndex)''')],'bug'),
('colit','C07',[(SM,'''		bool found = false;
		do
		{''','''		bool found = false;
		const Index old = this->mColumnPtrIndex;
		do
		{'''),(SM,'''				if (ci == this->mIndex2)
				{
					found = true;
					break;
				}
				else if (ci > this->mIndex2)''','''				if (ci == this->mIndex2)
				{
					found = this->mColumnPtrIndex > old + 1 || this->mIndex1 > 1;
					break;
				}
				else if (ci > this->mIndex2)''')],'bug'),
('begin','C07',[(SM,'''			return iterator(*this, row, mColumnPtr[rowPtr]);''','''			return iterator(*this, row, mColumnPtr.front());''')],'ok'),
('hilbert','C07',[(SM,'''	if (i < rows())
	{
		rowPtr = mRowPtr[i];// O(1)
		return i != (rows() - 1) ? mRowPtr[i + 1] - rowPtr : mColumnPtr.size() - rowPtr;
	}
	else
	{
		rowPtr = 0;
		return 0;
	}''','''	if (i >= rows())
	{
		rowPtr = 0;
		return 0;
	}
	const Index last = (i + 1 == rows()) ? mColumnPtr.size() : mRowPtr[i + 1];
	rowPtr = mRowPtr[i];
	return last - rowPtr;''')],'ok'),
('find','C06',[(SM,'''			for (columnPtrIndex = rowPtr; columnPtrIndex < rowPtr + s; ++columnPtrIndex)// O(D2)
			{
				auto ci = mColumnPtr[columnPtrIndex];// O(1)

				if (ci == i2)
				{
					found = true;
					return mValues[columnPtrIndex];// O(1)
				}
				else if (ci > i2)
				{
					break;
				}
			}''','''			auto b = mColumnPtr.begin() + rowPtr;
			auto it = std::lower_bound(b, b + s, i2);
			columnPtrIndex = it - mColumnPtr.begin();
			if (it != b + s && *it == i2)
			{
				found = true;
				return mValues[columnPtrIndex];
			}''')],'ok'),
]
