// Reference definitions of the layer types: plain loops over samples/maps/rows/columns.
// Memory layout of every tensor: ((sample * maps + map) * height + y) * width + x.
#include <limits>
#include <cmath>
#define AT(p, W, H, M, n, m, y, x) p[(((n) * (M) + (m)) * (H) + (y)) * (W) + (x)]
typedef int I;
typedef float F;
namespace spec {

// -- pooling over windows of rw x rh placed every sw x sh ----------------------
void pool_fwd(const F* in, F* out, I N, I M, I W, I H, I OW, I OH, I rw, I rh, I sw, I sh) {
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I oy = 0; oy < OH; oy++) for (I ox = 0; ox < OW; ox++) {
    F v = std::numeric_limits<F>::lowest();
    for (I ry = 0; ry < rh; ry++) for (I rx = 0; rx < rw; rx++) {
      const F u = AT(in, W, H, M, n, m, oy * sh + ry, ox * sw + rx);
      if (u > v) v = u;
    }
    AT(out, OW, OH, M, n, m, oy, ox) = v;
  }
}
// every window passes its gradient to its largest element; contributions add up
void pool_bwd(const F* in, const F* dout, F* din, I N, I M, I W, I H, I OW, I OH, I rw, I rh, I sw, I sh) {
  for (I i = 0; i < N * M * H * W; i++) din[i] = 0;
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I oy = 0; oy < OH; oy++) for (I ox = 0; ox < OW; ox++) {
    F v = std::numeric_limits<F>::lowest();
    for (I ry = 0; ry < rh; ry++) for (I rx = 0; rx < rw; rx++) {
      const F u = AT(in, W, H, M, n, m, oy * sh + ry, ox * sw + rx);
      if (u > v) v = u;
    }
    for (I ry = 0; ry < rh; ry++) for (I rx = 0; rx < rw; rx++)
      if (AT(in, W, H, M, n, m, oy * sh + ry, ox * sw + rx) == v)
        AT(din, W, H, M, n, m, oy * sh + ry, ox * sw + rx) += AT(dout, OW, OH, M, n, m, oy, ox);
  }
}

// -- concatenation along maps ---------------------------------------------------
void concat_fwd(const F* a, const F* b, F* out, I N, I MA, I MB, I W, I H) {
  for (I n = 0; n < N; n++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    for (I m = 0; m < MA; m++) AT(out, W, H, MA + MB, n, m, y, x) = AT(a, W, H, MA, n, m, y, x);
    for (I m = 0; m < MB; m++) AT(out, W, H, MA + MB, n, MA + m, y, x) = AT(b, W, H, MB, n, m, y, x);
  }
}
void concat_bwd(F* a, F* b, const F* dout, I N, I MA, I MB, I W, I H) {
  for (I n = 0; n < N; n++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    for (I m = 0; m < MA; m++) AT(a, W, H, MA, n, m, y, x) = AT(dout, W, H, MA + MB, n, m, y, x);
    for (I m = 0; m < MB; m++) AT(b, W, H, MB, n, m, y, x) = AT(dout, W, H, MA + MB, n, MA + m, y, x);
  }
}

// -- sum ----------------------------------------------------------------------
void sum_fwd(const F* a, const F* b, F* out, I N, I M, I W, I H) {
  for (I i = 0; i < N * M * H * W; i++) out[i] = a[i] + b[i];
}
void sum_bwd(F* a, F* b, const F* dout, I N, I M, I W, I H) {
  for (I i = 0; i < N * M * H * W; i++) { a[i] = dout[i]; b[i] = dout[i]; }
}

// -- gradient accumulation: n consumers of one buffer; gradients add up ----------
void accum_bwd2(F* din, const F* d0, const F* d1, I E) {
  for (I i = 0; i < E; i++) din[i] = d0[i] + d1[i];
}
void accum_bwd3(F* din, const F* d0, const F* d1, const F* d2, I E) {
  for (I i = 0; i < E; i++) din[i] = d0[i] + d1[i] + d2[i];
}

// -- resize: input in the middle of a larger, zero-filled frame ------------------
void resize_fwd(const F* in, F* out, I N, I M, I W, I H, I OW, I OH, I bx, I by) {
  for (I i = 0; i < N * M * OH * OW; i++) out[i] = 0;
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++)
    AT(out, OW, OH, M, n, m, y + by, x + bx) = AT(in, W, H, M, n, m, y, x);
}
void resize_bwd(F* din, const F* dout, I N, I M, I W, I H, I OW, I OH, I bx, I by) {
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++)
    AT(din, W, H, M, n, m, y, x) = AT(dout, OW, OH, M, n, m, y + by, x + bx);
}

// -- upscale: nearest neighbour; adjoint sums each block --------------------------
void up_fwd(const F* in, F* out, I N, I M, I W, I H, I rw, I rh) {
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < H * rh; y++) for (I x = 0; x < W * rw; x++)
    AT(out, W * rw, H * rh, M, n, m, y, x) = AT(in, W, H, M, n, m, y / rh, x / rw);
}
void up_bwd(F* din, const F* dout, I N, I M, I W, I H, I rw, I rh) {
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    F s = 0;
    for (I ry = 0; ry < rh; ry++) for (I rx = 0; rx < rw; rx++)
      s += AT(dout, W * rw, H * rh, M, n, m, y * rh + ry, x * rw + rx);
    AT(din, W, H, M, n, m, y, x) = s;
  }
}
// mean over blocks
void down_fwd(const F* in, F* out, I N, I M, I W, I H, I OW, I OH, I rw, I rh) {
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < OH; y++) for (I x = 0; x < OW; x++) {
    F s = 0;
    for (I ry = 0; ry < rh; ry++) for (I rx = 0; rx < rw; rx++)
      s += AT(in, W, H, M, n, m, y * rh + ry, x * rw + rx);
    AT(out, OW, OH, M, n, m, y, x) = s / ((F)rw * (F)rh);
  }
}

// -- spatial prior: two coordinate maps in front -----------------------------------
void prior_fwd(const F* in, F* out, I N, I M, I W, I H) {
  for (I n = 0; n < N; n++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    AT(out, W, H, M + 2, n, 0, y, x) = (F)x / (F)W;
    AT(out, W, H, M + 2, n, 1, y, x) = (F)y / (F)H;
    for (I m = 0; m < M; m++) AT(out, W, H, M + 2, n, m + 2, y, x) = AT(in, W, H, M, n, m, y, x);
  }
}
void prior_bwd(F* din, const F* dout, I N, I M, I W, I H) {
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++)
    AT(din, W, H, M, n, m, y, x) = AT(dout, W, H, M + 2, n, m + 2, y, x);
}

// -- activation functions -------------------------------------------------------------
void tanh_fwd(const F* in, F* out, I E) { for (I i = 0; i < E; i++) out[i] = tanh(in[i]); }
void tanh_bwd(F* din, const F* in, const F* dout, I E) { for (I i = 0; i < E; i++) din[i] = dout[i] * (1 - tanh(in[i]) * tanh(in[i])); }
void sigm_fwd(const F* in, F* out, I E) { for (I i = 0; i < E; i++) out[i] = 1 / (1 + exp(-in[i])); }
void sigm_bwd(F* din, const F* in, const F* dout, I E) {
  for (I i = 0; i < E; i++) { const F s = 1 / (1 + exp(-in[i])); din[i] = dout[i] * s * (1 - s); }
}
void relu_fwd(const F* in, F* out, I E) { for (I i = 0; i < E; i++) out[i] = in[i] > 0 ? in[i] : 0; }
void relu_bwd(F* din, const F* in, const F* dout, I E) { for (I i = 0; i < E; i++) din[i] = in[i] > 0 ? dout[i] : 0; }
// softmax over the maps of every pixel
void softmax_fwd(const F* in, F* out, I N, I M, I W, I H) {
  for (I n = 0; n < N; n++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    F s = 0;
    for (I m = 0; m < M; m++) s += exp(AT(in, W, H, M, n, m, y, x));
    for (I m = 0; m < M; m++) AT(out, W, H, M, n, m, y, x) = exp(AT(in, W, H, M, n, m, y, x)) / s;
  }
}
void softmax_bwd(F* din, const F* out, const F* dout, I N, I M, I W, I H) {
  for (I n = 0; n < N; n++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++)
    for (I m = 0; m < M; m++) {
      F s = 0;
      for (I k = 0; k < M; k++) s += AT(dout, W, H, M, n, k, y, x) * AT(out, W, H, M, n, k, y, x);
      AT(din, W, H, M, n, m, y, x) = AT(out, W, H, M, n, m, y, x) * (AT(dout, W, H, M, n, m, y, x) - s);
    }
}

// -- convolution: direct definition -------------------------------------------------------
void conv_fwd(const F* in, const F* wt, const F* b, F* out, I N, I M, I W, I H, I K, I kw, I kh, I sw, I sh, I pw, I ph,
              I G, I OW, I OH, F f) {
  for (I n = 0; n < N; n++) for (I k = 0; k < K; k++) for (I oy = 0; oy < OH; oy++) for (I ox = 0; ox < OW; ox++) {
    F s = 0;
    const I g = k / (K / G);
    for (I m = 0; m < M / G; m++) for (I ky = 0; ky < kh; ky++) for (I kx = 0; kx < kw; kx++) {
      const I iy = oy * sh + ky - ph, ix = ox * sw + kx - pw;
      if (ix >= 0 && ix < W && iy >= 0 && iy < H)
        s += AT(wt, kw, kh, M / G, k, m, ky, kx) * AT(in, W, H, M, n, g * (M / G) + m, iy, ix);
    }
    AT(out, OW, OH, K, n, k, oy, ox) = f * s + f * b[k];
  }
}
void conv_bwd_in(F* din, const F* wt, const F* dout, I N, I M, I W, I H, I K, I kw, I kh, I sw, I sh, I pw, I ph,
                 I G, I OW, I OH) {
  for (I i = 0; i < N * M * H * W; i++) din[i] = 0;
  for (I n = 0; n < N; n++) for (I k = 0; k < K; k++) for (I oy = 0; oy < OH; oy++) for (I ox = 0; ox < OW; ox++) {
    const I g = k / (K / G);
    for (I m = 0; m < M / G; m++) for (I ky = 0; ky < kh; ky++) for (I kx = 0; kx < kw; kx++) {
      const I iy = oy * sh + ky - ph, ix = ox * sw + kx - pw;
      if (ix >= 0 && ix < W && iy >= 0 && iy < H)
        AT(din, W, H, M, n, g * (M / G) + m, iy, ix) += AT(wt, kw, kh, M / G, k, m, ky, kx) * AT(dout, OW, OH, K, n, k, oy, ox);
    }
  }
}
void conv_bwd_par(const F* in, F* dwt, F* db, const F* dout, I N, I M, I W, I H, I K, I kw, I kh, I sw, I sh, I pw, I ph,
                  I G, I OW, I OH) {
  for (I k = 0; k < K; k++) {
    const I g = k / (K / G);
    for (I m = 0; m < M / G; m++) for (I ky = 0; ky < kh; ky++) for (I kx = 0; kx < kw; kx++) {
      F s = 0;
      for (I n = 0; n < N; n++) for (I oy = 0; oy < OH; oy++) for (I ox = 0; ox < OW; ox++) {
        const I iy = oy * sh + ky - ph, ix = ox * sw + kx - pw;
        if (ix >= 0 && ix < W && iy >= 0 && iy < H)
          s += AT(dout, OW, OH, K, n, k, oy, ox) * AT(in, W, H, M, n, g * (M / G) + m, iy, ix);
      }
      AT(dwt, kw, kh, M / G, k, m, ky, kx) = s;
    }
    F t = 0;
    for (I n = 0; n < N; n++) for (I oy = 0; oy < OH; oy++) for (I ox = 0; ox < OW; ox++)
      t += AT(dout, OW, OH, K, n, k, oy, ox);
    db[k] = t;
  }
}
}

namespace spec {
// -- local response normalisation ---------------------------------------------------------
// window of "size" elements around each position, clipped to the tensor
void lrn_within_fwd(const F* in, F* out, I N, I M, I W, I H, I size, F alpha, F beta) {
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    F s = 0; I c = 0;
    for (I jy = 0; jy < H; jy++) for (I jx = 0; jx < W; jx++)
      if (jy >= y - (size - 1) / 2 && jy <= y + size / 2 && jx >= x - (size - 1) / 2 && jx <= x + size / 2) {
        s += AT(in, W, H, M, n, m, jy, jx) * AT(in, W, H, M, n, m, jy, jx); c++;
      }
    AT(out, W, H, M, n, m, y, x) = AT(in, W, H, M, n, m, y, x) / pow(1.0 + alpha / (F)c * s, beta);
  }
}
void lrn_within_bwd(const F* in, const F* dout, F* din, I N, I M, I W, I H, I size, F alpha, F beta) {
  for (I i = 0; i < N * M * H * W; i++) din[i] = 0;
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    F s = 0; I c = 0;
    for (I jy = 0; jy < H; jy++) for (I jx = 0; jx < W; jx++)
      if (jy >= y - (size - 1) / 2 && jy <= y + size / 2 && jx >= x - (size - 1) / 2 && jx <= x + size / 2) {
        s += AT(in, W, H, M, n, m, jy, jx) * AT(in, W, H, M, n, m, jy, jx); c++;
      }
    const F d = 1.0 + alpha / (F)c * s;
    const F g = AT(dout, W, H, M, n, m, y, x);
    AT(din, W, H, M, n, m, y, x) += g / pow(d, beta);
    for (I jy = 0; jy < H; jy++) for (I jx = 0; jx < W; jx++)
      if (jy >= y - (size - 1) / 2 && jy <= y + size / 2 && jx >= x - (size - 1) / 2 && jx <= x + size / 2)
        AT(din, W, H, M, n, m, jy, jx) -= g * AT(in, W, H, M, n, m, y, x) * beta * pow(d, -beta - 1) * 2 * (alpha / (F)c) * AT(in, W, H, M, n, m, jy, jx);
  }
}
void lrn_across_fwd(const F* in, F* out, I N, I M, I W, I H, I size, F alpha, F beta) {
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    F s = 0; I c = 0;
    for (I j = 0; j < M; j++)
      if (j >= m - (size - 1) / 2 && j <= m + size / 2) {
        s += AT(in, W, H, M, n, j, y, x) * AT(in, W, H, M, n, j, y, x); c++;
      }
    AT(out, W, H, M, n, m, y, x) = AT(in, W, H, M, n, m, y, x) / pow(1.0 + alpha / (F)c * s, beta);
  }
}
void lrn_across_bwd(const F* in, const F* dout, F* din, I N, I M, I W, I H, I size, F alpha, F beta) {
  for (I i = 0; i < N * M * H * W; i++) din[i] = 0;
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    F s = 0; I c = 0;
    for (I j = 0; j < M; j++)
      if (j >= m - (size - 1) / 2 && j <= m + size / 2) {
        s += AT(in, W, H, M, n, j, y, x) * AT(in, W, H, M, n, j, y, x); c++;
      }
    const F d = 1.0 + alpha / (F)c * s;
    const F g = AT(dout, W, H, M, n, m, y, x);
    AT(din, W, H, M, n, m, y, x) += g / pow(d, beta);
    for (I j = 0; j < M; j++)
      if (j >= m - (size - 1) / 2 && j <= m + size / 2)
        AT(din, W, H, M, n, j, y, x) -= g * AT(in, W, H, M, n, m, y, x) * beta * pow(d, -beta - 1) * 2 * (alpha / (F)c) * AT(in, W, H, M, n, j, y, x);
  }
}

// -- H-Max activation: o = 1/(1+exp(-(a x + b))), without the sparsity term ---------------
void hmax_fwd(const F* in, const F* w, F* out, I E) { for (I i = 0; i < E; i++) out[i] = 1 / (1 + exp(-(w[0] * in[i] + w[1]))); }
void hmax_bwd(const F* in, const F* w, const F* dout, F* din, F* dw, I E) {
  F da = 0, db = 0;
  for (I i = 0; i < E; i++) {
    const F o = 1 / (1 + exp(-(w[0] * in[i] + w[1])));
    din[i] = dout[i] * w[0] * o * (1 - o);
    da += dout[i] * o * (1 - o) * in[i];
    db += dout[i] * o * (1 - o);
  }
  dw[0] = da; dw[1] = db;
}
// the gradient passed on as it is
void pass_bwd(F* din, const F* dout, I E) {
  for (I i = 0; i < E; i++)
    din[i] = dout[i];
}

// softmax over the columns of a 1 x 1 x width tensor
void softmaxw_fwd(const F* in, F* out, I N, I W) {
  for (I n = 0; n < N; n++) {
    F s = 0;
    for (I x = 0; x < W; x++) s += exp(in[n * W + x]);
    for (I x = 0; x < W; x++) out[n * W + x] = exp(in[n * W + x]) / s;
  }
}
void copy_fwd(const F* in, F* out, I E) { for (I i = 0; i < E; i++) out[i] = in[i]; }

// -- squared error: a prediction, b label, w weight of each position (its own width and height, map 0) -----
void error_fwd(const F* a, const F* b, const F* w, F* d, F lw, I N, I M, I W, I H, I WW, I WH, I WM) {
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++)
    AT(d, W, H, M, n, m, y, x) = (AT(a, W, H, M, n, m, y, x) - AT(b, W, H, M, n, m, y, x)) * AT(w, WW, WH, WM, n, 0, y, x) * lw;
}
F error_loss(const F* a, const F* b, const F* w, F lw, I N, I M, I W, I H, I WW, I WH, I WM) {
  F e = 0;
  for (I n = 0; n < N; n++) for (I m = 0; m < M; m++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    const F d = AT(a, W, H, M, n, m, y, x) - AT(b, W, H, M, n, m, y, x);
    e += d * d * AT(w, WW, WH, WM, n, 0, y, x) * lw / 2;
  }
  return e;
}

// -- confusion matrix ------------------------------------------------------------
I argmax(const F* p, I M, I W, I H, I n, I y, I x) {
  I best = 0;
  for (I m = 1; m < M; m++) if (AT(p, W, H, M, n, m, y, x) > AT(p, W, H, M, n, best, y, x)) best = m;
  return best;
}
void confusion(const F* a, const F* b, const F* w, F* matrix, F* actual, F* total, F* right, I C, I N, I M, I W, I H, I WW, I WH, I WM) {
  for (I n = 0; n < N; n++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    const I p = argmax(a, M, W, H, n, y, x), q = argmax(b, M, W, H, n, y, x);
    const F v = AT(w, WW, WH, WM, n, 0, y, x);
    matrix[p * C + q] += v;
    actual[q] += v;
    *total += v;
    if (p == q) *right += v;
  }
}
F conf_overall(const F* matrix, I C) {
  F r = 0, t = 0;
  for (I i = 0; i < C; i++) for (I j = 0; j < C; j++) { t += matrix[i * C + j]; if (i == j) r += matrix[i * C + j]; }
  return 100 * r / t;
}
F conf_average(const F* matrix, I C) {
  F s = 0, n = 0;
  for (I j = 0; j < C; j++) {
    F t = 0;
    for (I i = 0; i < C; i++) t += matrix[i * C + j];
    if (t > 0) { s += matrix[j * C + j] / t; n += 1; }
  }
  return 100 * s / n;
}
F conf_iou(const F* matrix, I C) {
  F s = 0;
  for (I j = 0; j < C; j++) {
    F u = matrix[j * C + j];
    for (I i = 0; i < C; i++) if (i != j) u += matrix[i * C + j] + matrix[j * C + i];
    if (u > 0) s += matrix[j * C + j] / u;
  }
  return 100 * s / C;
}
// -- binary statistics -------------------------------------------------------------
void binary(const F* a, const F* b, const F* w, const F* th, F* tp, F* fp, F* tn, F* fn, I T, I E) {
  for (I t = 0; t < T; t++) for (I i = 0; i < E; i++) {
    if (a[i] > th[t]) { if (b[i] > 0) tp[t] += w[i]; else fp[t] += w[i]; }
    else { if (b[i] > 0) fn[t] += w[i]; else tn[t] += w[i]; }
  }
}
}
