namespace spec {
void write_all(const float* src, float* dst, int n) { for (int i = 0; i < n; i++) dst[i] = src[i]; }
}
