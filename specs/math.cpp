// Reference definitions of the tensor math routines (row-major, BLAS conventions).
#define AT(p, W, H, M, n, m, y, x) p[(((n) * (M) + (m)) * (H) + (y)) * (W) + (x)]
typedef int I;
typedef float F;
namespace spec {

// C = alpha op(A) op(B) + beta C;  op(A): M x K, op(B): K x N
void gemm(bool ta, bool tb, I M, I N, I K, F alpha, const F* A, I lda, const F* B, I ldb, F beta, F* C, I ldc) {
  for (I i = 0; i < M; i++) for (I j = 0; j < N; j++) {
    F s = 0;
    for (I k = 0; k < K; k++) s += (ta ? A[k * lda + i] : A[i * lda + k]) * (tb ? B[j * ldb + k] : B[k * ldb + j]);
    if (beta == 0) C[i * ldc + j] = alpha * s;
    else C[i * ldc + j] = alpha * s + beta * C[i * ldc + j];
  }
}
// y = alpha op(A) x + beta y;  A: M x N as stored
void gemv(bool ta, I M, I N, F alpha, const F* A, I lda, const F* x, I incx, F beta, F* y, I incy) {
  const I R = ta ? N : M, C = ta ? M : N;
  for (I i = 0; i < R; i++) {
    F s = 0;
    for (I j = 0; j < C; j++) s += (ta ? A[j * lda + i] : A[i * lda + j]) * x[j * incx];
    if (beta == 0) y[i * incy] = alpha * s;
    else y[i * incy] = alpha * s + beta * y[i * incy];
  }
}
// row (map, ky, kx), column (sample, oy, ox); zero outside of the image
void im2col(const F* s, F* t, I W, I H, I M, I N, I kw, I kh, I sw, I sh, I pw, I ph, I OW, I OH) {
  for (I m = 0; m < M; m++) for (I ky = 0; ky < kh; ky++) for (I kx = 0; kx < kw; kx++)
    for (I n = 0; n < N; n++) for (I oy = 0; oy < OH; oy++) for (I ox = 0; ox < OW; ox++) {
      const I x = ox * sw + kx - pw, y = oy * sh + ky - ph;
      F v = 0;
      if (x >= 0 && x < W && y >= 0 && y < H) v = AT(s, W, H, M, n, m, y, x);
      t[((((m * kh + ky) * kw + kx) * N + n) * OH + oy) * OW + ox] = v;
    }
}
// adjoint of im2col
void col2im(F* s, const F* t, I W, I H, I M, I N, I kw, I kh, I sw, I sh, I pw, I ph, I OW, I OH) {
  for (I i = 0; i < N * M * H * W; i++) s[i] = 0;
  for (I m = 0; m < M; m++) for (I ky = 0; ky < kh; ky++) for (I kx = 0; kx < kw; kx++)
    for (I n = 0; n < N; n++) for (I oy = 0; oy < OH; oy++) for (I ox = 0; ox < OW; ox++) {
      const I x = ox * sw + kx - pw, y = oy * sh + ky - ph;
      if (x >= 0 && x < W && y >= 0 && y < H)
        AT(s, W, H, M, n, m, y, x) += t[((((m * kh + ky) * kw + kx) * N + n) * OH + oy) * OW + ox];
    }
}
// exchange samples and maps: source is W x H with N maps in M samples
void sms(const F* s, F* t, I N, I M, I W, I H) {
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++)
    AT(t, W, H, M, n, m, y, x) = AT(s, W, H, N, m, n, y, x);
}
void down(const F* s, F* t, I N, I M, I TW, I TH, I rw, I rh, F f) {
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < TH; y++) for (I x = 0; x < TW; x++) {
    F v = 0;
    for (I ry = 0; ry < rh; ry++) for (I rx = 0; rx < rw; rx++) v += AT(s, TW * rw, TH * rh, M, n, m, y * rh + ry, x * rw + rx);
    AT(t, TW, TH, M, n, m, y, x) = v * f;
  }
}
void up(const F* s, F* t, I N, I M, I W, I H, I rw, I rh, F f) {
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < H * rh; y++) for (I x = 0; x < W * rw; x++)
    AT(t, W * rw, H * rh, M, n, m, y, x) = AT(s, W, H, M, n, m, y / rh, x / rw) * f;
}
void add(const F* a, const F* b, F* t, I n) {
  for (I i = 0; i < n; i++) t[i] = a[i] + b[i];
}
}
