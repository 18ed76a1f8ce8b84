// The stand-in MATLAB runtime: arrays are exact-size blocks, memory of a call is the runtime's, errors are thrown.
#include "mex.h"
#include "rt.hpp"
#include <cstdarg>
#include <new>
struct mxArray { mxClassID cls; bool cplx; mwSize nd; mwSize *dim; void *data; void *imag; };
extern "C" { void sim_mex_shell(int, mxArray **, int, mxArray const **); void sim_mex_mesh(int, mxArray **, int, mxArray const **); void sim_mex_flat(int, mxArray **, int, mxArray const **); void sim_mex_tg(int, mxArray **, int, mxArray const **); }
namespace {
struct MexError {};
char const *const names[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle"};
size_t width(mxClassID c) { switch (c) { case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1; case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; default: return 8; } }
long g_locks = 0, g_fail = 0, g_created = 0;
size_t count(mxArray const *p) { size_t n = 1; for (mwSize i = 0; i < p->nd; ++i) n *= p->dim[i]; return n; }
mxArray *raw(mxClassID c, mwSize nd, mwSize const *dim, bool cplx) {
  mxArray *p = (mxArray *)calloc(1, sizeof(mxArray)); p->cls = c; p->cplx = cplx; p->nd = nd < 2 ? 2 : nd; p->dim = (mwSize *)calloc(p->nd, sizeof(mwSize)); p->dim[0] = p->dim[1] = 1; for (mwSize i = 0; i < nd; ++i) p->dim[i] = dim[i];
  size_t n = count(p) * width(c); p->data = n ? calloc(1, n) : nullptr; if (n && cplx) p->imag = calloc(1, n); return p;
}
void kill(mxArray *p) { if (!p) return; free(p->dim); free(p->data); free(p->imag); free(p); }
double item(mxArray const *p, size_t i) {
  switch (p->cls) { case mxDOUBLE_CLASS: return ((double *)p->data)[i]; case mxSINGLE_CLASS: return ((float *)p->data)[i]; case mxINT8_CLASS: return ((int8_t *)p->data)[i]; case mxUINT8_CLASS: return ((uint8_t *)p->data)[i]; case mxLOGICAL_CLASS: return ((bool *)p->data)[i]; case mxINT16_CLASS: return ((int16_t *)p->data)[i]; case mxCHAR_CLASS: case mxUINT16_CLASS: return ((uint16_t *)p->data)[i]; case mxINT32_CLASS: return ((int32_t *)p->data)[i]; case mxUINT32_CLASS: return ((uint32_t *)p->data)[i]; case mxINT64_CLASS: return double(((int64_t *)p->data)[i]); case mxUINT64_CLASS: return double(((uint64_t *)p->data)[i]); default: return 0; }
}
void put(mxArray *p, size_t i, double v) {
  switch (p->cls) { case mxDOUBLE_CLASS: ((double *)p->data)[i] = v; break; case mxSINGLE_CLASS: ((float *)p->data)[i] = float(v); break; case mxINT8_CLASS: ((int8_t *)p->data)[i] = int8_t(v); break; case mxUINT8_CLASS: ((uint8_t *)p->data)[i] = uint8_t(v); break; case mxLOGICAL_CLASS: ((bool *)p->data)[i] = v != 0; break; case mxINT16_CLASS: ((int16_t *)p->data)[i] = int16_t(v); break; case mxCHAR_CLASS: case mxUINT16_CLASS: ((uint16_t *)p->data)[i] = uint16_t(v); break; case mxINT32_CLASS: ((int32_t *)p->data)[i] = int32_t(v); break; case mxUINT32_CLASS: ((uint32_t *)p->data)[i] = uint32_t(v); break; case mxINT64_CLASS: ((int64_t *)p->data)[i] = int64_t(v); break; case mxUINT64_CLASS: ((uint64_t *)p->data)[i] = uint64_t(v); break; default: break; }
}
// growth of the lists below must not count as an allocation of the code under test: plain malloc
struct List { void **p; size_t n, cap; void add(void *x) { if (n == cap) { cap = cap ? cap * 2 : 16; p = (void **)realloc(p, cap * sizeof(void *)); } p[n++] = x; } bool has(void *x) const { for (size_t i = 0; i < n; ++i) if (p[i] == x) return true; return false; } void drop(void *x) { for (size_t i = 0; i < n; ++i) if (p[i] == x) { p[i] = p[--n]; return; } } void clear() { free(p); p = nullptr; n = cap = 0; } };
List arrays, blocks; char *last_msg = nullptr;
mxArray *create(mxClassID c, mwSize nd, mwSize const *dim, bool cplx) {
  ++g_created; if (g_fail > 0 && --g_fail == 0) { free(last_msg); last_msg = strdup("Out of memory."); throw MexError(); }
  mxArray *p = raw(c, nd, dim, cplx); arrays.add(p); return p;
}
[[noreturn]] void error(char const *m) { free(last_msg); last_msg = strdup(m ? m : ""); throw MexError(); }
}
extern "C" {
mxClassID mxGetClassID(mxArray const *p) { return p->cls; }
char const *mxGetClassName(mxArray const *p) { return names[p->cls]; }
bool mxIsChar(mxArray const *p) { return p->cls == mxCHAR_CLASS; }
bool mxIsDouble(mxArray const *p) { return p->cls == mxDOUBLE_CLASS; }
bool mxIsSingle(mxArray const *p) { return p->cls == mxSINGLE_CLASS; }
bool mxIsNumeric(mxArray const *p) { return p->cls >= mxDOUBLE_CLASS && p->cls <= mxUINT64_CLASS; }
bool mxIsLogical(mxArray const *p) { return p->cls == mxLOGICAL_CLASS; }
bool mxIsComplex(mxArray const *p) { return p->cplx; }
bool mxIsEmpty(mxArray const *p) { return count(p) == 0; }
bool mxIsScalar(mxArray const *p) { return count(p) == 1; }
bool mxIsSparse(mxArray const *) { return false; }
bool mxIsCell(mxArray const *p) { return p->cls == mxCELL_CLASS; }
bool mxIsStruct(mxArray const *p) { return p->cls == mxSTRUCT_CLASS; }
bool mxIsInt8(mxArray const *p) { return p->cls == mxINT8_CLASS; }
bool mxIsUint8(mxArray const *p) { return p->cls == mxUINT8_CLASS; }
bool mxIsInt16(mxArray const *p) { return p->cls == mxINT16_CLASS; }
bool mxIsUint16(mxArray const *p) { return p->cls == mxUINT16_CLASS; }
bool mxIsInt32(mxArray const *p) { return p->cls == mxINT32_CLASS; }
bool mxIsUint32(mxArray const *p) { return p->cls == mxUINT32_CLASS; }
bool mxIsInt64(mxArray const *p) { return p->cls == mxINT64_CLASS; }
bool mxIsUint64(mxArray const *p) { return p->cls == mxUINT64_CLASS; }
bool mxIsClass(mxArray const *p, char const *n) { return strcmp(names[p->cls], n) == 0; }
bool mxIsLogicalScalar(mxArray const *p) { return p->cls == mxLOGICAL_CLASS && count(p) == 1; }
bool mxIsLogicalScalarTrue(mxArray const *p) { return mxIsLogicalScalar(p) && *(bool *)p->data; }
mwSize mxGetNumberOfDimensions(mxArray const *p) { return p->nd; }
mwSize const *mxGetDimensions(mxArray const *p) { return p->dim; }
size_t mxGetNumberOfElements(mxArray const *p) { return count(p); }
size_t mxGetM(mxArray const *p) { return p->dim[0]; }
size_t mxGetN(mxArray const *p) { size_t n = 1; for (mwSize i = 1; i < p->nd; ++i) n *= p->dim[i]; return n; }
size_t mxGetElementSize(mxArray const *p) { return width(p->cls); }
double mxGetScalar(mxArray const *p) { return count(p) ? item(p, 0) : 0; }
void *mxGetData(mxArray const *p) { return p->data; }
double *mxGetPr(mxArray const *p) { return (double *)p->data; }
double *mxGetPi(mxArray const *p) { return (double *)p->imag; }
mxDouble *mxGetDoubles(mxArray const *p) { return p->cls == mxDOUBLE_CLASS && !p->cplx ? (double *)p->data : nullptr; }
mxLogical *mxGetLogicals(mxArray const *p) { return p->cls == mxLOGICAL_CLASS ? (bool *)p->data : nullptr; }
mxChar *mxGetChars(mxArray const *p) { return p->cls == mxCHAR_CLASS ? (mxChar *)p->data : nullptr; }
void *mxMalloc(size_t n) { void *p = malloc(n ? n : 1); blocks.add(p); return p; }
void *mxCalloc(size_t n, size_t w) { void *p = calloc(n ? n : 1, w ? w : 1); blocks.add(p); return p; }
void *mxRealloc(void *q, size_t n) { if (q) blocks.drop(q); void *p = realloc(q, n ? n : 1); blocks.add(p); return p; }
void mxFree(void *p) { if (p) { blocks.drop(p); free(p); } }
char *mxArrayToString(mxArray const *p) { if (p->cls != mxCHAR_CLASS) return nullptr; size_t n = count(p); char *s = (char *)mxMalloc(n + 1); for (size_t i = 0; i < n; ++i) s[i] = char(item(p, i)); s[n] = 0; return s; }
int mxGetString(mxArray const *p, char *b, mwSize len) { if (p->cls != mxCHAR_CLASS || !len) return 1; size_t n = count(p), k = n < len - 1 ? n : len - 1; for (size_t i = 0; i < k; ++i) b[i] = char(item(p, i)); b[k] = 0; return n > k; }
mxArray *mxCreateNumericArray(mwSize nd, mwSize const *d, mxClassID c, mxComplexity x) { return create(c, nd, d, x == mxCOMPLEX); }
mxArray *mxCreateNumericMatrix(mwSize r, mwSize c, mxClassID k, mxComplexity x) { mwSize d[2] = {r, c}; return create(k, 2, d, x == mxCOMPLEX); }
mxArray *mxCreateUninitNumericMatrix(size_t r, size_t c, mxClassID k, mxComplexity x) { mxArray *p = mxCreateNumericMatrix(r, c, k, x); if (p->data) memset(p->data, 0x7e, count(p) * width(k)); return p; }
mxArray *mxCreateDoubleMatrix(mwSize r, mwSize c, mxComplexity x) { return mxCreateNumericMatrix(r, c, mxDOUBLE_CLASS, x); }
mxArray *mxCreateDoubleScalar(double v) { mxArray *p = mxCreateDoubleMatrix(1, 1, mxREAL); *(double *)p->data = v; return p; }
mxArray *mxCreateLogicalMatrix(mwSize r, mwSize c) { return mxCreateNumericMatrix(r, c, mxLOGICAL_CLASS, mxREAL); }
mxArray *mxCreateLogicalScalar(bool v) { mxArray *p = mxCreateLogicalMatrix(1, 1); *(bool *)p->data = v; return p; }
mxArray *mxCreateString(char const *s) { mwSize d[2] = {1, strlen(s)}; mxArray *p = create(mxCHAR_CLASS, 2, d, false); for (size_t i = 0; s[i]; ++i) put(p, i, (unsigned char)s[i]); return p; }
mxArray *mxDuplicateArray(mxArray const *q) { mxArray *p = create(q->cls, q->nd, q->dim, q->cplx); size_t n = count(q) * width(q->cls); if (n) memcpy(p->data, q->data, n); if (n && q->cplx) memcpy(p->imag, q->imag, n); return p; }
void mxDestroyArray(mxArray *p) { if (p) { arrays.drop(p); kill(p); } }
void mexLock(void) { ++g_locks; }
void mexUnlock(void) { --g_locks; }
bool mexIsLocked(void) { return g_locks > 0; }
int mexAtExit(void (*)(void)) { return 0; }
void mexErrMsgTxt(char const *m) { error(m); }
void mexErrMsgIdAndTxt(char const *, char const *f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); error(b); }
void mexWarnMsgTxt(char const *) {}
void mexWarnMsgIdAndTxt(char const *, char const *, ...) {}
int mexPrintf(char const *, ...) { return 0; }
}
namespace mex {
char const *gw_name[NGW] = {"mex_shell", "mex_mesh", "mex_flat", "mex_triangleground"};
long locks() { return g_locks; }
static mxClassID class_of(std::string const &n) { for (int i = 0; i < 17; ++i) if (n == names[i]) return mxClassID(i); return mxDOUBLE_CLASS; }
static mxArray *array_of(Val const &v) {
  if (v.kind == 's') { mwSize d[2] = {1, v.s.size()}; mxArray *p = raw(mxCHAR_CLASS, 2, d, false); for (size_t i = 0; i < v.s.size(); ++i) put(p, i, (unsigned char)v.s[i]); return p; }
  if (v.kind == 'h') { mwSize d[2] = {1, 1}; mxArray *p = raw(mxUINT64_CLASS, 2, d, false); *(uint64_t *)p->data = v.h; return p; }
  mxArray *p = raw(v.kind == 'l' ? mxLOGICAL_CLASS : class_of(v.cls), v.dim.size(), v.dim.data(), v.kind == 'c'); size_t n = count(p); for (size_t i = 0; i < n && i < v.d.size(); ++i) put(p, i, v.d[i]); return p;
}
Reply call(Gw g, int nlhs, std::vector<Val> const &args, long mxfail) {
  Reply r; int nrhs = int(args.size()); mxArray const **in = (mxArray const **)calloc(size_t(nrhs), sizeof(void *)), **in0 = (mxArray const **)calloc(size_t(nrhs) + 1, sizeof(void *)); for (int i = 0; i < nrhs; ++i) in0[i] = in[i] = array_of(args[size_t(i)]);
  size_t no = size_t(nlhs > 0 ? nlhs : 1); mxArray **out = (mxArray **)calloc(no, sizeof(void *)); arrays.clear(); blocks.clear(); g_fail = mxfail; g_created = 0; free(last_msg); last_msg = nullptr; int how = 0;
  try { sim::LibCall l; (g == SHELL ? sim_mex_shell : g == MESH ? sim_mex_mesh : g == FLAT ? sim_mex_flat : sim_mex_tg)(nlhs, out, nrhs, in); r.ok = true; }
  catch (MexError const &) { how = 1; }
  catch (std::exception const &e) { how = 2; r.msg = e.what(); } // MATLAB reports what escapes
  if (how == 1) r.msg = last_msg ? last_msg : "";
  r.created = g_created; g_fail = 0;
  if (r.ok && out[0]) { r.set = true; mxArray *o = out[0]; r.out.cls = names[o->cls]; r.out.dim.assign(o->dim, o->dim + o->nd); size_t n = count(o); for (size_t i = 0; i < n; ++i) r.out.d.push_back(item(o, i)); if (o->cls == mxUINT64_CLASS && n == 1) { r.out.kind = 'h'; r.out.h = *(uint64_t *)o->data; } if (o->cls == mxLOGICAL_CLASS) r.out.kind = 'l'; if (o->cplx) r.out.kind = 'c'; }
  for (size_t i = 0; i < arrays.n; ++i) kill((mxArray *)arrays.p[i]); for (size_t i = 0; i < blocks.n; ++i) free(blocks.p[i]); arrays.clear(); blocks.clear(); free(out); free(in); for (int i = 0; i < nrhs; ++i) kill(const_cast<mxArray *>(in0[i])); free(in0); free(last_msg); last_msg = nullptr;
  return r;
}
}
