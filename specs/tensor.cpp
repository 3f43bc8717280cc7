// Reference definitions of the element-wise tensor operations.
#include <limits>
#include <cmath>
#define AT(p, W, H, M, n, m, y, x) p[(((n) * (M) + (m)) * (H) + (y)) * (W) + (x)]
typedef int I;
typedef float F;
namespace spec {

void fill(F* t, I from, I to, F v) {
  for (I i = from; i < to; i++) t[i] = v;
}
void copy_all(F* t, const F* o, I n) {
  for (I i = 0; i < n; i++) t[i] = o[i];
}
// result: exchanged rows and columns of every map
void transpose(F* t, F* r, I N, I W, I H, I M) {
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++)
    AT(r, H, W, M, n, m, x, y) = AT(t, W, H, M, n, m, y, x);
  for (I i = 0; i < N * M * H * W; i++) t[i] = r[i];
}
// one map into another tensor; a larger target is padded with zeros
bool copy_map(const F* s, I SN, I SW, I SH, I SM, I sn, I sm, F* t, I TN, I TW, I TH, I TM, I tn, I tm) {
  if (sn >= SN || tn >= TN || TW < SW || TH < SH) return false;
  for (I y = 0; y < TH; y++) for (I x = 0; x < TW; x++)
    AT(t, TW, TH, TM, tn, tm, y, x) = (x < SW && y < SH) ? AT(s, SW, SH, SM, sn, sm, y, x) : 0;
  return true;
}
bool copy_sample(const F* s, I SN, I SW, I SH, I SM, I sn, F* t, I TN, I TW, I TH, I TM, I tn) {
  if (SM != TM || sn >= SN || tn >= TN || TW < SW || TH < SH) return false;
  for (I m = 0; m < SM; m++) for (I y = 0; y < TH; y++) for (I x = 0; x < TW; x++)
    AT(t, TW, TH, TM, tn, m, y, x) = (x < SW && y < SH) ? AT(s, SW, SH, SM, sn, m, y, x) : 0;
  return true;
}
// position of the first largest element of a sample
I maximum(const F* t, I E, I n) {
  I best = 0;
  for (I i = 1; i < E; i++) if (t[n * E + i] > t[n * E + best]) best = i;
  return best;
}
I absmaximum(const F* t, I E) {
  I best = 0;
  for (I i = 1; i < E; i++) if (std::fabs(t[i]) > std::fabs(t[best])) best = i;
  return best;
}
I pixelmaximum(const F* t, I W, I H, I M, I x, I y, I n) {
  I best = 0;
  for (I m = 1; m < M; m++) if (AT(t, W, H, M, n, m, y, x) > AT(t, W, H, M, n, best, y, x)) best = m;
  return best;
}
}
