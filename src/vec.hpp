// Minimal linear algebra for the reference models (independent of Eigen).
#pragma once
#include <array>
#include <cmath>
#include <vector>
struct V3
{
	double x = 0, y = 0, z = 0;
	double& operator[](int i) { return i == 0 ? x : i == 1 ? y : z; }
	double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
};
inline V3 operator+(V3 a, V3 b) { return { a.x + b.x, a.y + b.y, a.z + b.z }; }
inline V3 operator-(V3 a, V3 b) { return { a.x - b.x, a.y - b.y, a.z - b.z }; }
inline V3 operator-(V3 a) { return { -a.x, -a.y, -a.z }; }
inline V3 operator*(double s, V3 a) { return { s * a.x, s * a.y, s * a.z }; }
inline V3 operator*(V3 a, double s) { return s * a; }
inline V3 operator/(V3 a, double s) { return { a.x / s, a.y / s, a.z / s }; }
inline V3& operator+=(V3& a, V3 b) { return a = a + b; }
inline V3& operator-=(V3& a, V3 b) { return a = a - b; }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b)
{
	return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x };
}
inline double norm(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 unit(V3 a) { return a / norm(a); }
struct M3
{
	double m[3][3] = { { 0 } };
	double* operator[](int i) { return m[i]; }
	const double* operator[](int i) const { return m[i]; }
};
inline M3 eye(double s = 1)
{
	M3 r;
	for (int i = 0; i < 3; i++)
		r[i][i] = s;
	return r;
}
inline M3 operator*(const M3& a, const M3& b)
{
	M3 r;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			for (int k = 0; k < 3; k++)
				r[i][j] += a[i][k] * b[k][j];
	return r;
}
inline M3 operator+(const M3& a, const M3& b)
{
	M3 r;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			r[i][j] = a[i][j] + b[i][j];
	return r;
}
inline M3 operator-(const M3& a, const M3& b)
{
	M3 r;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			r[i][j] = a[i][j] - b[i][j];
	return r;
}
inline M3 operator*(double s, const M3& a)
{
	M3 r;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			r[i][j] = s * a[i][j];
	return r;
}
inline V3 operator*(const M3& a, V3 v)
{
	V3 r;
	for (int i = 0; i < 3; i++)
		r[i] = a[i][0] * v.x + a[i][1] * v.y + a[i][2] * v.z;
	return r;
}
inline M3 tr(const M3& a)
{
	M3 r;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			r[i][j] = a[j][i];
	return r;
}
inline M3 outer(V3 a, V3 b)
{
	M3 r;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			r[i][j] = a[i] * b[j];
	return r;
}
// skew(a) * b == cross(a, b)
inline M3 skew(V3 a)
{
	M3 r;
	r[0][1] = -a.z;
	r[0][2] = a.y;
	r[1][0] = a.z;
	r[1][2] = -a.x;
	r[2][0] = -a.y;
	r[2][1] = a.x;
	return r;
}
// intrinsic roll-pitch-yaw: R = Rx(roll) Ry(pitch) Rz(yaw)
inline M3 euler(V3 a)
{
	double s1 = sin(a.x), c1 = cos(a.x), s2 = sin(a.y), c2 = cos(a.y), s3 = sin(a.z),
	       c3 = cos(a.z);
	M3 X = eye(), Y = eye(), Z = eye();
	X[1][1] = c1, X[1][2] = -s1, X[2][1] = s1, X[2][2] = c1;
	Y[0][0] = c2, Y[0][2] = s2, Y[2][0] = -s2, Y[2][2] = c2;
	Z[0][0] = c3, Z[0][1] = -s3, Z[1][0] = s3, Z[1][1] = c3;
	return X * Y * Z;
}
inline M3 rotz(double a)
{
	M3 Z = eye();
	Z[0][0] = cos(a), Z[0][1] = -sin(a), Z[1][0] = sin(a), Z[1][1] = cos(a);
	return Z;
}
inline double maxabs(const M3& a)
{
	double r = 0;
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			r = std::max(r, std::fabs(a[i][j]));
	return r;
}
