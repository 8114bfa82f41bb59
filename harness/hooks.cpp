// The other half of the PRIMESUM_VP_HOOKS hook: the limits of the integer
// types can be lowered so that small x exercise the code for large x.
#include "hooks.hpp"

namespace vp {
int xbits = 127;
int ybits = 127;
}

namespace primesum {

// Limits above 2^40 are limits on x, the others are limits on y. A limit
// is replaced by 2^bits - 1 if that is smaller.
__int128 vp_limit(__int128 limit)
{
  int bits = limit > ((__int128) 1 << 40) ? vp::xbits : vp::ybits;
  if (bits >= 127)
    return limit;
  __int128 l = (((__int128) 1) << bits) - 1;
  return l < limit ? l : limit;
}

}
