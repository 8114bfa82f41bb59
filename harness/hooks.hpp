#ifndef HOOKS_HPP
#define HOOKS_HPP
namespace vp {
extern int xbits, ybits;
struct LowerLimits
{
  int ox, oy;
  LowerLimits(int x, int y) : ox(xbits), oy(ybits) { xbits = x; ybits = y; }
  ~LowerLimits() { xbits = ox; ybits = oy; }
};
}
#endif
