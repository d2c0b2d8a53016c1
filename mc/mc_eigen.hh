// Force-included in every translation unit: an out-of-range index or a size
// mismatch inside Eigen is turned into a deterministic, reportable failure.
#ifndef MC_EIGEN_HH
#define MC_EIGEN_HH
#ifdef __cplusplus
#include <stdexcept>
namespace mc {
struct EigenFault : std::runtime_error {
  EigenFault(const char *w) : std::runtime_error(w) {}
};
}  // namespace mc
#define eigen_assert(x)                                              \
  do {                                                               \
    if (!(x)) throw ::mc::EigenFault("out-of-range matrix access or size mismatch: " #x); \
  } while (0)
#endif
#endif
