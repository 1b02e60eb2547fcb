// Reference model: tensor-product B-spline interpolation in long double with
// dense solves, written from the definition (knots + interpolation
// conditions), sharing no code with the library.
#pragma once
struct RefDim {
    int order;
    int periodic, uniform;
    int npts;       // number of coordinates, both ends included
    double a, b;    // uniform
    const double* xs;  // nonuniform: the coordinates
};
struct RefSpline;
// vals: row-major, extent nv[d] along dimension d (>= number of unknowns; the
// surplus last value of a periodic dimension is ignored)
RefSpline* ref_build(int D, const RefDim* dims, const double* vals, const int* nv);
// a spline given by its knots and control points
RefSpline* ref_direct(int D, int order, const int* per, const int* n, double* const* knots, const double* coef);
void ref_free(RefSpline*);
// value of the mixed derivative; *scale = sum of |coef*basis|; *near = distance
// to the closest knot, relative to the local spacing
double ref_eval(const RefSpline*, const double* x, const int* der, double* scale, double* near_knot);
