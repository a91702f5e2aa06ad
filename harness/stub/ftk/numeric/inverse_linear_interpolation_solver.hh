// Stand-in for the one FTK function the 3D compressors call (FTK itself is not available offline).
// Barycentric coordinates of the zero of the vector field inside a tetrahedron: solve
//   [v0-v3 v1-v3 v2-v3] mu = -v3,   mu3 = 1-mu0-mu1-mu2;  success iff all mu lie in [-eps, 1+eps].
#ifndef CPSZ_VERIF_FTK_STUB
#define CPSZ_VERIF_FTK_STUB
#include <cmath>
#include <limits>
namespace ftk {
template <typename T>
inline bool inverse_lerp_s3v3(const T V[4][3], T mu[4], T *cond, const T eps = std::numeric_limits<T>::epsilon()) {
  T A[3][3], b[3];
  for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) A[i][j] = V[j][i] - V[3][i]; b[i] = -V[3][i]; }
  auto det = [](T M[3][3]) {
    return M[0][0]*(M[1][1]*M[2][2]-M[1][2]*M[2][1]) - M[0][1]*(M[1][0]*M[2][2]-M[1][2]*M[2][0]) + M[0][2]*(M[1][0]*M[2][1]-M[1][1]*M[2][0]); };
  T d = det(A);
  if (cond) *cond = d == 0 ? std::numeric_limits<T>::infinity() : T(1);
  for (int j = 0; j < 3; j++) {
    T B[3][3];
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) B[i][k] = (k == j) ? b[i] : A[i][k];
    mu[j] = det(B) / d;
  }
  mu[3] = T(1) - mu[0] - mu[1] - mu[2];
  for (int j = 0; j < 4; j++) if (!(mu[j] >= -eps && mu[j] <= T(1) + eps)) return false;
  return true;
}
}
#endif
