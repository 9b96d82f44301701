// Instantiates the free function templates of the utility headers for analysis.
#include <algorithm>
#include "ccgl.h"
using namespace ccgl;
using namespace ccgl::utils_array;
using namespace ccgl::utils_math;
using namespace ccgl::utils_string;
void v_arrays(int r, int c, float*& f, float**& f2, int* i1, int** i2) {
    Initialize1DArray(r, f, 1);
    Initialize1DArray(r, f, i1);
    Initialize2DArray(r, c, f2, 1);
    Initialize2DArray(r, c, f2, i2);
    Initialize2DArray(i1, r, c, f2);
    Release1DArray(f);
    Release2DArray(f2);
    BatchRelease1DArray(f, f, static_cast<float**>(nullptr));
    BatchRelease2DArray(1, f2, f2, static_cast<float**>(nullptr));
    Read1DArrayFromTxtFile("x", r, f);
    Read2DArrayFromTxtFile("x", r, f2);
    Read2DArrayFromString("x", r, f2);
    vector<int> v;
    ValueInVector(3, v);
    RemoveValueInVector(3, v);
}
template class ccgl::utils_array::Array2D<float>;
double v_math(int n, const float* a, float** a2, int*& idx, double** d1, double*** d2) {
    BasicStatistics(a, n, d1);
    BasicStatistics(a2, n, n, d2);
    return MaxInArray(a, n) + MinInArray(a, n) + Sum(n, a) + Sum(n, idx, a) + FloatEqual(a[0], d1[0][0])
        + CalSqrt(2.) + CalExp(2.) + CalLn(2.) + CalPow(2., 3.);
}
double v_string(const string& s, vector<double>& vd, vector<int>& vi) {
    SplitStringForValues(s, ',', vd);
    SplitStringForValues(s, ',', vi);
    const char* c = s.c_str();
    return ToInt(s) + ToInt64(s) + ToUInt(s) + ToUInt64(s) + ToDouble(s) + IsNumber(s) + IsNumber(c) + ToInt(c) + ToDouble(c) + ValueToString(1.5).size();
}
#ifdef USE_MONGODB
using namespace ccgl::db_mongoc;
double v_bson(bson_iter_t* it, bson_t* b) {
    double d = 0; int i = 0; float f = 0;
    GetNumericFromBsonIterator(it, d); GetNumericFromBsonIterator(it, i);
    GetNumericFromBson(b, "x", f); GetNumericFromBson(b, "x", d); GetNumericFromBson(b, "x", i);
    return d + i + f;
}
#endif
using namespace ccgl::utils_time;
bool v_time(const DateTime& a, const DateTime& b) {
    return (a == b) + (a != b) + (a < b) + (a <= b) + (a > b) + (a >= b);
}
