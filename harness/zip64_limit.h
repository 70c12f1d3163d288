// Forced into the library's sources (see the LIBNPY_VERIF_ZIP64_LIMIT hook).
#include <cstdint>
extern std::uint64_t verif_zip64_limit;
