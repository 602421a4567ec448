ID='p17_inverse_diagonal'
PROP='P17'
NEEDS='a matrix that is not a rotation or uniform scaling: its diagonal entries differ'
BREAKS='the inverse of a 2D matrix is the adjoint over the determinant; with the change the diagonal entries are not exchanged'
EDITS=[('src/geometry/PointMatrix.cpp','    ret.matrix.at(0) = matrix.at(3) / det;','    ret.matrix.at(0) = matrix.at(0) / det;'),('src/geometry/PointMatrix.cpp','    ret.matrix.at(3) = matrix.at(0) / det;','    ret.matrix.at(3) = matrix.at(3) / det;')]
DEMO='''#include "geometry/PointMatrix.h"
#include <cstdio>
using namespace cura;
int main() {
    double ms[3][4] = { { 0, -1, 1, 0 }, { 2, 0, 0, 2 }, { 2, 1, 0, 4 } };
    for (auto& q : ms) {
        PointMatrix m; for (int i = 0; i < 4; i++) m.matrix[i] = q[i];
        Point2LL p(4000, -8000), r = m.inverse().apply(m.apply(p));
        if (r.X != p.X || r.Y != p.Y) { printf("%lld %lld\\n", (long long)r.X, (long long)r.Y); return 1; }
    }
    return 0;
}
'''
