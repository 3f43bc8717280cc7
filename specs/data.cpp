// Reference definitions of what a data set hands out.
#include <limits>
#include <cmath>
typedef int I;
typedef float F;
#define AT(p, W, H, M, n, m, y, x) p[(((n) * (M) + (m)) * (H) + (y)) * (W) + (x)]
namespace spec {
// a stream's tensor `index`, copied into sample `n` of a tensor with E elements per sample
void stream_copy(F (*pix)(I, I, I, I), I stream, I index, I from, F* dst, I E, I n) {
  for (I i = 0; i < E; i++) dst[n * E + i] = pix(stream, index, from, i);
}

// the common size of all images: the largest one of either stream, rounded up to a multiple of 64
I common_size(I (*size)(I, I), I a, I na, I b, I nb) {
  I m = 0;
  for (I i = 0; i < na; i++) if (size(a, i) > m) m = size(a, i);
  for (I i = 0; i < nb; i++) if (size(b, i) > m) m = size(b, i);
  return (m + 63) / 64 * 64;
}

I strongest(const F* p, I W, I H, I M, I n, I y, I x) {
  I best = 0;
  F v = std::numeric_limits<F>::lowest();
  for (I m = 0; m < M; m++) { const F u = AT(p, W, H, M, n, m, y, x); if (u > v) { v = u; best = m; } }
  return best;
}

// whole images: W x H is the common size, w x h the size of this image
void image_sample(F (*pix)(I, I, I, I), F (*err)(I, I, I, I), I stream, I index, I n, F* data, F* label, F* helper, F* weight,
                  const F* class_weight, I DM, I LM, I W, I H, I w, I h) {
  stream_copy(pix, stream, 2 * index, 0, data, DM * W * H, n);
  stream_copy(pix, stream, 2 * index + 1, 0, label, LM * W * H, n);
  for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    const bool inside = x < w && y < h;
    AT(helper, W, H, 2, n, 0, y, x) = inside && w > 1 ? (F)x / ((F)w - 1) : 0;
    AT(helper, W, H, 2, n, 1, y, x) = inside && h > 1 ? (F)y / ((F)h - 1) : 0;
    AT(weight, W, H, 1, n, 0, y, x) = 0;
  }
  for (I y = 0; y < h; y++) for (I x = 0; x < w; x++)
    AT(weight, W, H, 1, n, 0, y, x) = err(x, y, w, h) * class_weight[strongest(label, W, H, LM, n, y, x)];
}

// the pw x ph patch with its upper left corner at (col, row) of a w x h image
void patch_sample(const F* image, const F* labels, F (*err)(I, I, I, I), I n, F* data, F* label, F* helper, F* weight,
                  const F* class_weight, I DM, I LM, I w, I h, I pw, I ph, I col, I row) {
  for (I m = 0; m < DM; m++) for (I y = 0; y < ph; y++) for (I x = 0; x < pw; x++)
    AT(data, pw, ph, DM, n, m, y, x) = AT(image, w, h, DM, 0, m, row + y, col + x);
  for (I m = 0; m < LM; m++)
    label[n * LM + m] = AT(labels, w, h, LM, 0, m, row + ph / 2, col + pw / 2);
  helper[2 * n] = w > 1 ? (F)col / ((F)w - 1) : 0;
  helper[2 * n + 1] = h > 1 ? (F)row / ((F)h - 1) : 0;
  weight[n] = err(col + pw / 2, row + ph / 2, w, h) * class_weight[strongest(label, 1, 1, LM, n, 0, 0)];
}
}
namespace spec {
// sample `s` of a w x h image in the upper left corner of sample `n` of a tensor, zero elsewhere;
// nothing is written when it does not fit or does not exist
bool stream_sample(const F* src, I S, I w, I h, I m, I s, F* dst, I N, I W, I H, I M, I n) {
  if (m != M || w > W || h > H || s >= S || n >= N) return false;
  for (I k = 0; k < M; k++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++)
    AT(dst, W, H, M, n, k, y, x) = x < w && y < h ? AT(src, w, h, m, s, k, y, x) : 0;
  return true;
}

// an image file: every value is a byte
#define SHADE(b) (0.003921569f * (F)(b))
F byte_value(I (*pixel)(I, I), I file, I i) {
  const I p = pixel(file, i);
  return p % 3 == 0 ? 0 : 0.003921569f * (p % 3 == 1 ? 255.0f : 128.0f);
}
void image_file(I (*pixel)(I, I), I file, F* dst, I E) {
  for (I i = 0; i < E; i++) {
    const I p = pixel(file, i);
    dst[i] = p % 3 == 0 ? 0 : 0.003921569f * (p % 3 == 1 ? 255.0f : 128.0f);
  }
}
void block(const F* src, F* dst, I E) {
  for (I i = 0; i < E; i++) dst[i] = src[i];
}

bool copy_image(I (*pixel)(I, I), I file, I w, I h, I m, F* dst, I N, I W, I H, I M, I n, I s) {
  if (M != m || w > W || h > H || n >= N || s > 0) return false;
  for (I k = 0; k < M; k++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++)
    AT(dst, W, H, M, n, k, y, x) = x < w && y < h ? byte_value(pixel, file, (k * h + y) * w + x) : 0;
  return true;
}

// a label image of m channels: how far the colour is from the only class's colour, from 1 to -1
bool copy_binary(I (*pixel)(I, I), I file, I w, I h, I m, I r, I g, I b, F* dst, I N, I W, I H, I M, I n, I s) {
  if (M != 1 || w > W || h > H || n >= N || s > 0) return false;
  for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    const I i = y * w + x, d = m == 3 ? w * h : 0;
    const F lr = byte_value(pixel, file, i) - SHADE(r), lg = byte_value(pixel, file, i + d) - SHADE(g), lb = byte_value(pixel, file, i + 2 * d) - SHADE(b);
    AT(dst, W, H, 1, n, 0, y, x) = x < w && y < h ? 1 - 2 * std::sqrt((lr * lr + lg * lg + lb * lb) / 3) : 0;
  }
  return true;
}

// ... whether it has the colour of class c of C
bool copy_class(I (*pixel)(I, I), I file, I w, I h, I m, I c, I r, I g, I b, I C, F* dst, I N, I W, I H, I M, I n, I s) {
  if (M != C || w > W || h > H || n >= N || s > 0) return false;
  for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    const I i = y * w + x, d = m == 3 ? w * h : 0;
    const bool same = byte_value(pixel, file, i) == SHADE(r) && byte_value(pixel, file, i + d) == SHADE(g) && byte_value(pixel, file, i + 2 * d) == SHADE(b);
    AT(dst, W, H, C, n, c, y, x) = x < w && y < h && same ? 1 : 0;
  }
  return true;
}
}
namespace spec {
// the picture of a net's output: for one class its colour, as bright as the output; for several the colour of the strongest
void colorized(const F* out, F* picture, I N, I W, I H, I C, const I* colors) {
  for (I n = 0; n < N; n++) for (I y = 0; y < H; y++) for (I x = 0; x < W; x++) {
    const I color = C == 1 ? colors[0] : colors[strongest(out, W, H, C, n, y, x)];
    const F v = C == 1 ? (AT(out, W, H, 1, n, 0, y, x) + 1) / 2 : 1;
    AT(picture, W, H, 3, n, 0, y, x) = v * SHADE(color / 65536 % 256);
    AT(picture, W, H, 3, n, 1, y, x) = v * SHADE(color / 256 % 256);
    AT(picture, W, H, 3, n, 2, y, x) = v * SHADE(color % 256);
  }
}
}
