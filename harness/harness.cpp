// Conformance harness for szcompressor/cpSZ: runs the library's public entry points on the jobs of a job file,
// each in a forked child, and records what was observable.  Usage: harness JOBS RESULTS
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <vector>
#include <string>
#include <cmath>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <malloc.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <cassert>
#include "sz_compress_cp_preserve_2d.hpp"
#include "sz_decompress_cp_preserve_2d.hpp"
#include "sz_compress_cp_preserve_3d.hpp"
#include "sz_decompress_cp_preserve_3d.hpp"
#include "sz_compress_3d.hpp"
#include "sz_decompress_3d.hpp"
#include "sz_compress_pwr.hpp"
#include "sz_decompress_pwr.hpp"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"
#include "sz_lossless.hpp"
#include "utils.hpp"
using namespace std;

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define HAVE_ASAN 1
#endif

enum Flags { F_BI = 1, F_TRANSPOSE = 2, F_ZSTD = 4, F_DIRTY = 8, F_NODEC = 16, F_FRESH = 32, F_TAIL = 64 };

struct Call {              // one library call pair (compress, decompress)
  int32_t op, type, r1, r2, r3, bsize, flags, group;
  double eb;
  vector<vector<double>> arr;
};

struct Shared { volatile int stage; volatile int call; char report[1600]; };
static Shared* sh;

static void asan_cb(const char* r) {
  strncpy((char*)sh->report, r, sizeof(sh->report) - 1);
}

template <typename T> static T* dup_in(const vector<double>& a) {
  T* p = (T*)malloc((a.size() ? a.size() : 1) * sizeof(T));
  for (size_t i = 0; i < a.size(); i++) p[i] = (T)a[i];
  return p;
}
static uint64_t fnv(const unsigned char* p, size_t n) {
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; }
  return h;
}
static void dirty_heap(unsigned char fill) {   // leave freed blocks with garbage of many sizes behind
  vector<void*> v;
  for (size_t s = 16; s <= (1u << 20); s = s * 3 / 2) for (int k = 0; k < 3; k++) { void* p = malloc(s); memset(p, fill + k, s); v.push_back(p); }
  for (void* p : v) free(p);
}

struct Out {
  uint64_t size = 0, digest = 0, aux = 0;      // stream size / digest; aux: op specific
  int32_t input_ok = 1;
  vector<vector<double>> arr;                  // reconstructed arrays
};

template <typename T> static void put(Out& o, const T* p, size_t n) {
  vector<double> v(n);
  for (size_t i = 0; i < n; i++) v[i] = (double)p[i];
  o.arr.push_back(v);
}

// the stream exactly as a user would store it: `size` bytes, moved to a buffer of exactly that size,
// optionally through the lossless stage
static unsigned char* ship(unsigned char* c, size_t size, const Call& k, Out& o) {
  o.size = size;
  o.digest = fnv(c, size);
  if (getenv("CPSZ_DUMP")) { FILE* f = fopen(getenv("CPSZ_DUMP"), "ab"); fwrite(&size, 8, 1, f); fwrite(c, 1, size, f); fclose(f); }
  // F_TAIL: other bytes follow the stream; otherwise reading one byte too many is a memory error
  size_t tail = (k.flags & F_TAIL) ? 4096 : 0;
  unsigned char* e = (unsigned char*)malloc(size + tail ? size + tail : 1);
  memcpy(e, c, size);
  if (tail) memset(e + size, 0x5A + 0x33 * (k.group & 3), tail);
  free(c);
  if (k.flags & F_ZSTD) {
    unsigned char* z = NULL; unsigned char* d = NULL;
    size_t zs = sz_lossless_compress(ZSTD_COMPRESSOR, 3, e, size, &z);
    unsigned char* ze = (unsigned char*)malloc(zs ? zs : 1);
    memcpy(ze, z, zs); free(z);
    size_t back = sz_lossless_decompress(ZSTD_COMPRESSOR, ze, zs, &d, size);
    o.aux = (back == size && memcmp(d, e, size) == 0) ? zs : 0;
    if (is_lossless_compressed_data(ze, zs) != ZSTD_COMPRESSOR) o.aux = 0;
    free(ze); free(e);
    return d;
  }
  return e;
}

// run a compressor; with F_FRESH in a process of its own, so that the decoder shares nothing with it but the stream
template <typename F> static unsigned char* produce(const Call& k, Out& o, size_t& size, vector<double>* side, F f) {
  sh->stage = 1;
  if (!(k.flags & F_FRESH)) return f();
  FILE* tf = tmpfile();
  pid_t pid = fork();
  if (pid == 0) {
    unsigned char* c = f();
    uint64_t h[3] = {(uint64_t)size, (uint64_t)o.input_ok, side ? (uint64_t)side->size() : 0};
    if (fwrite(h, 8, 3, tf) != 3) _exit(98);
    if (size && fwrite(c, 1, size, tf) != size) _exit(98);
    if (h[2] && fwrite(side->data(), 8, h[2], tf) != h[2]) _exit(98);
    fflush(tf);
    _exit(0);
  }
  int st; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(97); }
  if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
  rewind(tf);
  uint64_t h[3];
  if (fread(h, 8, 3, tf) != 3) _exit(96);
  size = h[0]; o.input_ok = h[1];
  unsigned char* c = (unsigned char*)malloc(size ? size : 1);
  if (size && fread(c, 1, size, tf) != size) _exit(96);
  if (side) { side->resize(h[2]); if (h[2] && fread(side->data(), 8, h[2], tf) != h[2]) _exit(96); }
  fclose(tf);
  return c;
}

template <typename T> struct V2 {
  typedef unsigned char* (*C)(const T*, const T*, size_t, size_t, size_t&, bool, double);
  typedef void (*D)(const unsigned char*, size_t, size_t, T*&, T*&);
};
template <typename T> struct V3 {
  typedef unsigned char* (*C)(const T*, const T*, const T*, size_t, size_t, size_t, size_t&, bool, double);
  typedef void (*D)(const unsigned char*, size_t, size_t, size_t, T*&, T*&, T*&);
};

template <typename T> static void run2d(const Call& k, Out& o, typename V2<T>::C comp, typename V2<T>::D dec) {
  T* U = dup_in<T>(k.arr[0]); T* V = dup_in<T>(k.arr[1]);
  size_t n = k.arr[0].size();
  size_t r1 = k.r1, r2 = k.r2, size = 0;
  vector<T> u0(U, U + n), v0(V, V + n);
  unsigned char* c = produce(k, o, size, NULL, [&]() {
    unsigned char* c = comp(U, V, r1, r2, size, k.flags & F_TRANSPOSE, k.eb);
    o.input_ok = memcmp(u0.data(), U, n * sizeof(T)) == 0 && memcmp(v0.data(), V, n * sizeof(T)) == 0;
    return c; });
  free(U); free(V);
  sh->stage = 2;
  c = ship(c, size, k, o);
  if (k.flags & F_NODEC) { free(c); return; }
  uint64_t d0 = fnv(c, size);
  if (k.flags & F_DIRTY) dirty_heap(0xA5);
  T *u = NULL, *v = NULL;
  sh->stage = 3;
  dec(c, r1, r2, u, v);
  if (fnv(c, size) != d0) o.input_ok = 0;
  sh->stage = 4;
  free(c);
  put(o, u, n); put(o, v, n);
  free(u); free(v);
}

template <typename T> static void run3d(const Call& k, Out& o, typename V3<T>::C comp, typename V3<T>::D dec) {
  T* A[3]; vector<T> I[3];
  size_t n = k.arr[0].size(), size = 0;
  for (int i = 0; i < 3; i++) { A[i] = dup_in<T>(k.arr[i]); I[i].assign(A[i], A[i] + n); }
  unsigned char* c = produce(k, o, size, NULL, [&]() {
    unsigned char* c = comp(A[0], A[1], A[2], k.r1, k.r2, k.r3, size, k.flags & F_TRANSPOSE, k.eb);
    for (int i = 0; i < 3; i++) if (memcmp(I[i].data(), A[i], n * sizeof(T))) o.input_ok = 0;
    return c; });
  for (int i = 0; i < 3; i++) free(A[i]);
  sh->stage = 2;
  c = ship(c, size, k, o);
  uint64_t d0 = fnv(c, size);
  if (k.flags & F_DIRTY) dirty_heap(0xA5);
  T *u = NULL, *v = NULL, *w = NULL;
  sh->stage = 3;
  dec(c, k.r1, k.r2, k.r3, u, v, w);
  if (fnv(c, size) != d0) o.input_ok = 0;
  sh->stage = 4;
  free(c);
  put(o, u, n); put(o, v, n); put(o, w, n);
  free(u); free(v); free(w);
}
template <typename T> static unsigned char* c3abs(const T* U, const T* V, const T* W, size_t r1, size_t r2, size_t r3, size_t& s, bool, double eb) {
  return sz_compress_cp_preserve_3d_online_abs<T>(U, V, W, r1, r2, r3, s, eb);
}

template <typename T> static void run_unst(const Call& k, Out& o) {
  // arr: points (3n), data (3n), tets (4m)
  T* P = dup_in<T>(k.arr[0]); T* D = dup_in<T>(k.arr[1]); int* X = dup_in<int>(k.arr[2]);
  int n = k.arr[1].size() / 3, m = k.arr[2].size() / 4; size_t size = 0;
  vector<T> d0(D, D + 3 * n);
  vector<T> p0(P, P + 3 * n); vector<int> x0(X, X + 4 * m);
  unsigned char* c = produce(k, o, size, NULL, [&]() {
    unsigned char* c = sz_compress_cp_preserve_3d_unstructured<T>(n, P, D, m, X, size, k.eb);
    o.input_ok = memcmp(d0.data(), D, 3 * n * sizeof(T)) == 0 && memcmp(p0.data(), P, 3 * n * sizeof(T)) == 0 &&
                 (m == 0 || memcmp(x0.data(), X, 4 * m * sizeof(int)) == 0);
    return c; });
  free(D);
  sh->stage = 2;
  c = ship(c, size, k, o);
  if (k.flags & F_DIRTY) dirty_heap(0xA5);
  T* R = NULL;
  sh->stage = 3;
  sz_decompress_cp_preserve_3d_unstructured<T>(c, n, P, m, X, R);
  sh->stage = 4;
  free(c); free(P); free(X);
  put(o, R, 3 * n); free(R);
}

template <typename T, typename FC, typename FD> static void run_scalar(const Call& k, Out& o, FC comp, FD dec) {
  T* A = dup_in<T>(k.arr[0]); size_t n = k.arr[0].size(), size = 0;
  double* E = k.arr.size() > 1 ? dup_in<double>(k.arr[1]) : NULL;
  vector<T> a0(A, A + n); vector<double> e0; if (E) e0.assign(E, E + n);
  double* aux = E;
  vector<double> side;
  unsigned char* c = produce(k, o, size, &side, [&]() {
    unsigned char* c = comp(A, E, aux, size);
    if (memcmp(a0.data(), A, n * sizeof(T))) o.input_ok = 0;
    if (E && memcmp(e0.data(), E, n * sizeof(double))) o.input_ok = 0;
    if (aux && aux != E) side.assign(aux, aux + n);
    return c; });
  if ((k.flags & F_FRESH) && side.size() == n) aux = side.data();
  bool free_aux = aux && aux != E && aux != side.data();
  free(A);
  sh->stage = 2;
  c = ship(c, size, k, o);
  if (k.flags & F_NODEC) { free(c); if (free_aux) free(aux); free(E); return; }
  uint64_t d0 = fnv(c, size);
  if (k.flags & F_DIRTY) dirty_heap(0xA5);
  sh->stage = 3;
  T* r = dec(c, aux);
  if (fnv(c, size) != d0) o.input_ok = 0;
  sh->stage = 4;
  free(c);
  put(o, r, n); free(r);
  if (free_aux) free(aux);
  free(E);
}

// files: written by the library, possibly extended by some bytes, read back in both ways
template <typename T> static void run_file(const Call& k, Out& o) {
  T* A = dup_in<T>(k.arr[0]); size_t n = k.arr[0].size();
  vector<T> a0(A, A + n);
  char dir[] = "/tmp/cpszfileXXXXXX";
  if (!mkdtemp(dir)) _exit(95);
  string f = string(dir) + "/data", none = string(dir) + "/none";
  sh->stage = 1;
  if (k.flags & F_DIRTY) {     // a longer file is there already
    FILE* h = fopen(f.c_str(), "wb"); vector<char> z(n * sizeof(T) + 100, 'z'); fwrite(z.data(), 1, z.size(), h); fclose(h);
  }
  writefile<T>(f.c_str(), A, n);
  o.input_ok = n == 0 || memcmp(a0.data(), A, n * sizeof(T)) == 0;
  free(A);
  FILE* h = fopen(f.c_str(), "rb");
  if (!h) { o.input_ok = 0; o.size = ~0ull; }
  else {
    fseek(h, 0, SEEK_END); o.size = ftell(h); rewind(h);
    vector<unsigned char> b(o.size + 1); size_t got = fread(b.data(), 1, o.size, h); fclose(h);
    o.digest = fnv(b.data(), got);
  }
  sh->stage = 2;
  if (k.bsize) { h = fopen(f.c_str(), "ab"); for (int i = 0; i < k.bsize; i++) fputc(0x77, h); fclose(h); }
  sh->stage = 3;
  size_t num = 12345, num2 = 12345, num3 = 777;
  T* R = readfile<T>(f.c_str(), num);
  T* S = (T*)malloc((n ? n : 1) * sizeof(T));
  char* fn = strdup(f.c_str());
  readfile_to_buffer<T>(fn, num2, S);
  free(fn);
  T* none_read = readfile<T>(none.c_str(), num3);
  if (none_read != 0 || num2 != num) o.input_ok = 0;
  FILE* mk = fopen(none.c_str(), "rb");
  if (mk) { o.input_ok = 0; fclose(mk); }
  sh->stage = 4;
  o.aux = num;
  size_t m = num <= n ? num : n;
  put(o, R, m); put(o, S, num2 <= n ? num2 : n);
  free(R); free(S);
  unlink(f.c_str()); unlink(none.c_str()); rmdir(dir);
}
// printed statistics
static double field(const string& s, const char* label, bool raw = false) {
  size_t p = s.find(label);
  if (p == string::npos) return -4e30;
  p += strlen(label);
  while (p < s.size() && (s[p] == ' ' || s[p] == '=' || s[p] == '\t' || s[p] == ':')) p++;
  double v = strtod(s.c_str() + p, NULL);
  return raw || std::isfinite(v) ? v : -3e30;
}
template <typename T> static void run_verify(const Call& k, Out& o) {
  T* A = dup_in<T>(k.arr[0]); T* B = dup_in<T>(k.arr[1]); size_t n = k.arr[0].size();
  vector<T> a0(A, A + n), b0(B, B + n);
  fflush(stdout); cout.flush();
  int keep = dup(1);
  FILE* tf = tmpfile();
  dup2(fileno(tf), 1);
  sh->stage = 1;
  verify<T>(A, B, n);
  sh->stage = 4;
  fflush(stdout); cout.flush();
  dup2(keep, 1); close(keep);
  o.input_ok = memcmp(a0.data(), A, n * sizeof(T)) == 0 && memcmp(b0.data(), B, n * sizeof(T)) == 0;
  free(A); free(B);
  string s;
  fseek(tf, 0, SEEK_END); s.resize(ftell(tf)); rewind(tf);
  if (s.size() && fread(&s[0], 1, s.size(), tf) != s.size()) _exit(94);
  fclose(tf);
  o.size = s.size(); o.digest = fnv((const unsigned char*)s.data(), s.size());
  double st[9] = {field(s, "Min="), field(s, "Max="), field(s, "range="), field(s, "Max absolute error"), field(s, "Max relative error"), field(s, "NRMSE"),
                  field(s, "Max pw relative error"), field(s, "PSNR", true), field(s, "acEff", true)};
  put(o, st, 9);
}

#define P2(N, C, D) case N: if (k.type) run2d<double>(k, o, C<double>, D<double>); else run2d<float>(k, o, C<float>, D<float>); break;
#define P3(N, C, D) case N: if (k.type) run3d<double>(k, o, C<double>, D<double>); else run3d<float>(k, o, C<float>, D<float>); break;

static void run(const Call& k, Out& o) {
  bool bi = k.flags & F_BI;
  size_t r1 = k.r1, r2 = k.r2, r3 = k.r3;
  switch (k.op) {
    P2(1, sz3_compress_cp_preserve_2d_online_abs, sz3_decompress_cp_preserve_2d_online)
    P2(2, sz_compress_cp_preserve_2d_online_abs, sz_decompress_cp_preserve_2d_online)
    P2(3, sz_compress_cp_preserve_2d_online_abs_relax_FN, sz_decompress_cp_preserve_2d_online)
    P2(4, sz_compress_cp_preserve_2d_online, sz_decompress_cp_preserve_2d_online)
    P2(5, sz_compress_cp_preserve_2d_online_log, sz_decompress_cp_preserve_2d_online_log)
    P2(6, sz_compress_cp_preserve_2d_offline, sz_decompress_cp_preserve_2d_offline)
    P2(7, sz_compress_cp_preserve_2d_offline_log, sz_decompress_cp_preserve_2d_offline_log)
    P2(8, sz_compress_cp_preserve_2d_bilinear_online_log, sz_decompress_cp_preserve_2d_online_log)
    P3(10, sz_compress_cp_preserve_3d_offline_log, sz_decompress_cp_preserve_3d_online_log)
    P3(11, sz_compress_cp_preserve_3d_online_log, sz_decompress_cp_preserve_3d_online_log)
    P3(12, c3abs, sz_decompress_cp_preserve_3d_online_abs)
    case 13: if (k.type) run_unst<double>(k, o); else run_unst<float>(k, o); break;
    case 20: run_scalar<float>(k, o,
        [&](float* a, double*, double*&, size_t& s) { return sz_compress_2d<float>(a, r1, r2, k.eb, s, k.bsize, bi); },
        [&](unsigned char* c, double*) { return sz_decompress_2d<float>(c, r1, r2); }); break;
    case 21:
      if (k.type) run_scalar<double>(k, o,
        [&](double* a, double* e, double*&, size_t& s) { return sz_compress_2d_with_eb<double>(a, e, r1, r2, s, k.bsize, bi); },
        [&](unsigned char* c, double* e) { return sz_decompress_2d_with_eb<double>(c, e, r1, r2); });
      else run_scalar<float>(k, o,
        [&](float* a, double* e, double*&, size_t& s) { return sz_compress_2d_with_eb<float>(a, e, r1, r2, s, k.bsize, bi); },
        [&](unsigned char* c, double* e) { return sz_decompress_2d_with_eb<float>(c, e, r1, r2); });
      break;
    case 22:
      if (k.type) run_scalar<double>(k, o,
        [&](double* a, double*, double*&, size_t& s) { return sz_compress_3d<double>(a, r1, r2, r3, k.eb, s, k.bsize, bi); },
        [&](unsigned char* c, double*) { return sz_decompress_3d<double>(c, r1, r2, r3); });
      else run_scalar<float>(k, o,
        [&](float* a, double*, double*&, size_t& s) { return sz_compress_3d<float>(a, r1, r2, r3, k.eb, s, k.bsize, bi); },
        [&](unsigned char* c, double*) { return sz_decompress_3d<float>(c, r1, r2, r3); });
      break;
    case 23: {   // no decoder exists: only memory safety, determinism, purity
      Call kk = k; kk.flags |= F_NODEC;
      if (k.type) run_scalar<double>(kk, o,
        [&](double* a, double* e, double*&, size_t& s) { return sz_compress_3d_with_eb<double>(a, e, r1, r2, r3, s, k.bsize, bi); },
        [&](unsigned char* c, double*) { return (double*)NULL; });
      else run_scalar<float>(kk, o,
        [&](float* a, double* e, double*&, size_t& s) { return sz_compress_3d_with_eb<float>(a, e, r1, r2, r3, s, k.bsize, bi); },
        [&](unsigned char* c, double*) { return (float*)NULL; });
      break; }
    case 24: run_scalar<float>(k, o,
        [&](float* a, double*, double*&, size_t& s) { return sz_compress_2d_pwr<float>(a, r1, r2, k.eb, s, k.bsize, bi); },
        [&](unsigned char* c, double*) { return sz_decompress_2d_pwr<float>(c, r1, r2); }); break;
    case 25: run_scalar<float>(k, o,
        [&](float* a, double* e, double*& aux, size_t& s) { aux = NULL; return sz_compress_2d_pwr_with_eb<float>(a, e, &aux, r1, r2, s, k.bsize, bi); },
        [&](unsigned char* c, double* e) { return sz_decompress_2d_pwr_with_eb<float>(c, e, r1, r2); }); break;
    case 35: case 36: {   // Huffman (r1 = alphabet size) or bit packing of a sequence given, and returned, as runs
      vector<double> x, vals, counts;
      for (size_t i = 0; i < k.arr[0].size(); i++) x.insert(x.end(), (size_t)k.arr[1][i], k.arr[0][i]);
      Call kk = k; kk.op = k.op == 35 ? 30 : 31; kk.arr.assign(1, x);
      x = vector<double>();
      run(kk, o);
      for (double v : o.arr[0]) if (!vals.empty() && memcmp(&vals.back(), &v, 8) == 0) counts.back()++; else { vals.push_back(v); counts.push_back(1); }
      o.arr.assign(1, vals); o.arr.push_back(counts);
      break; }
    case 30: {   // Huffman: r1 = alphabet size; arr[0] = symbols
      int* a = dup_in<int>(k.arr[0]); size_t n = k.arr[0].size();
      vector<int> a0(a, a + n);
      // generous buffer: the capacity is the caller's business here
      size_t cap = 4096 + 16 * n + 64 * (size_t)k.r1;
      unsigned char* buf = (unsigned char*)malloc(cap); memset(buf, 0xEE, cap);
      unsigned char* p = buf;
      sh->stage = 1;
      Huffman_encode_tree_and_data(k.r1, a, n, p);
      size_t size = p - buf;
      o.input_ok = n == 0 || memcmp(a0.data(), a, n * sizeof(int)) == 0;
      free(a);
      sh->stage = 2;
      unsigned char* e = ship(buf, size, k, o);
      const unsigned char* q = e;
      sh->stage = 3;
      int* d = Huffman_decode_tree_and_data(k.r1, n, q);
      sh->stage = 4;
      o.aux = q - e;
      put(o, d, n); free(d); free(e);
      break; }
    case 31: {   // bit packing of 0/1 flags
      unsigned char* a = dup_in<unsigned char>(k.arr[0]); size_t n = k.arr[0].size();
      size_t bl = (n + 7) / 8;
      unsigned char* buf = (unsigned char*)malloc(bl ? bl : 1); memset(buf, 0xEE, bl);
      unsigned char* p = buf;
      sh->stage = 1;
      convertIntArray2ByteArray_fast_1b_to_result_sz(a, n, p);
      size_t size = p - buf;
      free(a);
      sh->stage = 2;
      unsigned char* e = ship(buf, size, k, o);
      const unsigned char* q = e;
      sh->stage = 3;
      unsigned char* d = convertByteArray2IntArray_fast_1b_sz(n, q, bl);
      sh->stage = 4;
      o.aux = q - e;
      put(o, d, n); free(d); free(e);
      break; }
    case 32: {   // lossless stage on arbitrary bytes; eb = level
      unsigned char* a = dup_in<unsigned char>(k.arr[0]); size_t n = k.arr[0].size();
      vector<unsigned char> a0(a, a + n);
      unsigned char* z = NULL; unsigned char* d = NULL;
      sh->stage = 1;
      size_t zs = sz_lossless_compress(ZSTD_COMPRESSOR, (int)k.eb, a, n, &z);
      o.input_ok = n == 0 || memcmp(a0.data(), a, n) == 0;
      o.size = zs; o.digest = fnv(z, zs);
      unsigned char* ze = (unsigned char*)malloc(zs ? zs : 1); memcpy(ze, z, zs); free(z); free(a);
      sh->stage = 3;
      o.aux = sz_lossless_decompress(ZSTD_COMPRESSOR, ze, zs, &d, n);
      if (is_lossless_compressed_data(ze, zs) != ZSTD_COMPRESSOR) o.input_ok = 0;
      if (n <= 65536) {       // the variant for a fixed buffer: the same bytes, and then anything
        unsigned char* w = NULL;
        if (sz_lossless_decompress65536bytes(ZSTD_COMPRESSOR, ze, zs, &w) != 65536 || !w) o.input_ok = 0;
        else { if (n && memcmp(w, a0.data(), n)) o.input_ok = 0; free(w); }
      }
      sh->stage = 4;
      put(o, d, n); free(d); free(ze);
      break; }
    case 33: if (k.type) run_file<double>(k, o); else run_file<float>(k, o); break;
    case 34: if (k.type) run_verify<double>(k, o); else run_verify<float>(k, o); break;
    default: _exit(99);
  }
}

static bool rd(FILE* f, void* p, size_t n) { return fread(p, 1, n, f) == n; }
static void wr(FILE* f, const void* p, size_t n) { if (fwrite(p, 1, n, f) != n) _exit(98); }

static void write_out(FILE* f, const Out& o, int type) {
  wr(f, &o.size, 8); wr(f, &o.digest, 8); wr(f, &o.aux, 8); wr(f, &o.input_ok, 4);
  int32_t na = o.arr.size(); wr(f, &na, 4);
  for (auto& a : o.arr) { uint64_t n = a.size(); wr(f, &n, 8); wr(f, a.data(), 8 * n); }
}

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  FILE* in = fopen(argv[1], "rb"); FILE* res = fopen(argv[2], "wb");
  if (!in || !res) return 2;
  sh = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#ifdef HAVE_ASAN
  __asan_set_error_report_callback(asan_cb);
#endif
  mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30);   // reuse memory from call to call
  int devnull = open("/dev/null", O_WRONLY);
  for (;;) {
    int32_t magic, ncalls, tmo;
    if (!rd(in, &magic, 4)) break;
    if (magic != 0x4a4f4221) return 3;
    rd(in, &ncalls, 4); rd(in, &tmo, 4);
    vector<Call> calls(ncalls);
    for (auto& c : calls) {
      rd(in, &c.op, 32); rd(in, &c.eb, 8);
      int32_t na; rd(in, &na, 4);
      c.arr.resize(na);
      for (auto& a : c.arr) { uint64_t n; if (!rd(in, &n, 8)) return 3; a.resize(n); if (n && !rd(in, a.data(), 8 * n)) return 3; }
    }
    memset((void*)sh, 0, sizeof(*sh));
    FILE* tf = tmpfile();
    fflush(res);
    pid_t pid = fork();
    if (pid == 0) {
      dup2(devnull, 1); dup2(devnull, 2);
      struct rlimit rl = {(rlim_t)tmo + 1, (rlim_t)tmo + 2}; setrlimit(RLIMIT_CPU, &rl);
      alarm(tmo * 8);
      for (int i = 0; i < ncalls; i++) {
        sh->call = i; sh->stage = 0;
        Out o; run(calls[i], o); write_out(tf, o, calls[i].type); fflush(tf);
      }
      fflush(tf);
      _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    // status: 0 ok, 1 crash (sanitizer report or signal), 2 does not terminate
    int32_t status = 0, stage = sh->stage, call = sh->call;
    if (WIFSIGNALED(st)) status = (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) ? 2 : 1;
    else if (WEXITSTATUS(st)) status = 1;
    wr(res, &magic, 4); wr(res, &status, 4); wr(res, &stage, 4); wr(res, &call, 4); wr(res, &st, 4);
    int32_t rl = strnlen(sh->report, sizeof(sh->report)); wr(res, &rl, 4); wr(res, sh->report, rl);
    fseek(tf, 0, SEEK_END); uint64_t sz = ftell(tf); rewind(tf);   // what was answered before a crash counts
    wr(res, &sz, 8);
    vector<char> b(sz); if (sz && fread(b.data(), 1, sz, tf) != sz) return 4;
    wr(res, b.data(), sz);
    fclose(tf);
  }
  fclose(res);
  return 0;
}
