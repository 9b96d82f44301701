// Instantiates the raster class for analysis: every member function gets a body in the IR.
#include "ccgl.h"
using namespace ccgl;
using namespace ccgl::data_raster;
template class ccgl::data_raster::clsRasterData<int, int>;
template class ccgl::data_raster::clsRasterData<float, int>;
template class ccgl::data_raster::clsRasterData<unsigned char, int>;
bool v_use_subset(SubsetPositions* s, float* d, float** d2) {
    return s->SetData(3, d) && s->Set2DData(3, 2, d2);
}
void v_subset_out(SubsetPositions* s, std::vector<float*>& f, std::vector<double*>& d) {
    s->Output(0.f, f);
    s->Output(0., d);
}
