// Stand-in for MATLAB's mex.h: the part of the C API a gateway may use. The runtime behind it is mexrt.cc.
#ifndef SIM_MEX_H
#define SIM_MEX_H
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
typedef size_t mwSize; typedef size_t mwIndex; typedef ptrdiff_t mwSignedIndex; typedef bool mxLogical; typedef char16_t mxChar; typedef double mxDouble;
struct mxArray;
enum mxClassID { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS };
enum mxComplexity { mxREAL, mxCOMPLEX };
extern "C" {
mxClassID mxGetClassID(mxArray const *); char const *mxGetClassName(mxArray const *);
bool mxIsChar(mxArray const *); bool mxIsDouble(mxArray const *); bool mxIsSingle(mxArray const *); bool mxIsNumeric(mxArray const *); bool mxIsLogical(mxArray const *); bool mxIsComplex(mxArray const *); bool mxIsEmpty(mxArray const *); bool mxIsScalar(mxArray const *); bool mxIsSparse(mxArray const *); bool mxIsCell(mxArray const *); bool mxIsStruct(mxArray const *);
bool mxIsInt8(mxArray const *); bool mxIsUint8(mxArray const *); bool mxIsInt16(mxArray const *); bool mxIsUint16(mxArray const *); bool mxIsInt32(mxArray const *); bool mxIsUint32(mxArray const *); bool mxIsInt64(mxArray const *); bool mxIsUint64(mxArray const *); bool mxIsClass(mxArray const *, char const *);
bool mxIsLogicalScalar(mxArray const *); bool mxIsLogicalScalarTrue(mxArray const *);
mwSize mxGetNumberOfDimensions(mxArray const *); mwSize const *mxGetDimensions(mxArray const *); size_t mxGetNumberOfElements(mxArray const *); size_t mxGetM(mxArray const *); size_t mxGetN(mxArray const *); size_t mxGetElementSize(mxArray const *);
double mxGetScalar(mxArray const *); void *mxGetData(mxArray const *); double *mxGetPr(mxArray const *); double *mxGetPi(mxArray const *); mxDouble *mxGetDoubles(mxArray const *); mxLogical *mxGetLogicals(mxArray const *); mxChar *mxGetChars(mxArray const *);
char *mxArrayToString(mxArray const *); int mxGetString(mxArray const *, char *, mwSize);
mxArray *mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity); mxArray *mxCreateNumericArray(mwSize, mwSize const *, mxClassID, mxComplexity); mxArray *mxCreateUninitNumericMatrix(size_t, size_t, mxClassID, mxComplexity); mxArray *mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity); mxArray *mxCreateDoubleScalar(double); mxArray *mxCreateLogicalScalar(bool); mxArray *mxCreateLogicalMatrix(mwSize, mwSize); mxArray *mxCreateString(char const *); mxArray *mxDuplicateArray(mxArray const *); void mxDestroyArray(mxArray *);
void *mxMalloc(size_t); void *mxCalloc(size_t, size_t); void *mxRealloc(void *, size_t); void mxFree(void *);
void mexLock(void); void mexUnlock(void); bool mexIsLocked(void); int mexAtExit(void (*)(void));
void mexErrMsgTxt(char const *); void mexErrMsgIdAndTxt(char const *, char const *, ...); void mexWarnMsgTxt(char const *); void mexWarnMsgIdAndTxt(char const *, char const *, ...); int mexPrintf(char const *, ...);
}
#endif
