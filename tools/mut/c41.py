I='lib/Iterative.inl'; C='lib/CG.inl'
M=[
('sor-fill','C41',[(I,'''			V xm = x0;

			for (size_t it = 0; it < maxIter; ++it)''','''			V xm = x0;
			xm.fill((T)0);

			for (size_t it = 0; it < maxIter; ++it)''')],'bug'),
('jac-xm','C41',[(I,'t += (*rit)*x.at(rit.column());','t += (*rit)*xm.at(rit.column());')],'bug'),
('sor-lt','C41',[(I,'if (rit.column() < i)','if (rit.column() > i)')],'bug'),
('sor-w','C41',[(I,'rweight*xm.at(i) + tweight*t','tweight*xm.at(i) + rweight*t')],'bug'),
('jac-conv','C41',[(I,'conv <= eps2)','conv >= eps2)')],'bug'),
('jac-eps','C41',[(I,'const double eps2 = eps*eps;','const double eps2 = eps;')],'bug'),
('jac-retx','C41',[(I,'return xm;','return x;')],'bug'),
('jac-noupd','C41',[(I,'x = xm;','')],'bug'),
('cg-x','C41',[(C,'x += ak*p;','x -= ak*p;')],'bug'),
('cg-bk','C41',[(C,'p = l + bk*p;','p = r + bk*p;')],'bug'),
('cg-bk2','C41',[(C,'= ls / rs;','= rs / ls;')],'bug'),
('cg-eps','C41',[(C,'if (ls < eps2)','if (ls < eps)')],'bug'),
('cg-stop','C41',[(C,'if (ls < eps2)','if (rs < eps2)')],'bug'),
('cg-r','C41',[(C,'				r = l;\n','')],'bug'),
('cg-rs','C41',[(C,'				rs = ls;\n','')],'bug'),
('pcg-z','C41',[(C,'				z = c.mul(r);\n','')],'bug'),
('pcg-l1','C41',[(C,'				l1 = l2;\n','')],'bug'),
('pcg-p0','C41',[(C,'V2 p = z;','V2 p = r;')],'bug'),
('pcg-stop','C41',[(C,'if (r.magSqr() < eps2)','if (z.magSqr() < eps2)')],'bug'),
('r-sor','C41',[(I,'xm.set(i, rweight*xm.at(i) + tweight*t);','xm.set(i, xm.at(i) + tweight*(t - xm.at(i)));')],'ok'),
('r-pcg','C41',[(C,'p = z + (l2/l1)*p;','{ const auto beta = l2/l1; p *= beta; p += z; }')],'ok'),
('r-jac','C41',[(I,'xm.set(i, (b.at(i) - t) / mid);','t = -t; t += b.at(i); t /= mid; xm.set(i, t);')],'ok'),
('r-cg','C41',[(C,'for (; k < maxIter && rs != (typename V2::value_type)0; ++k)','while (true)'),(C,'				const auto t = a.mul(p);','				if (!(k < maxIter) || rs == (typename V2::value_type)0) break;\n				const auto t = a.mul(p);'),(C,'				rs = ls;','				rs = ls; ++k;')],'ok'),
]
