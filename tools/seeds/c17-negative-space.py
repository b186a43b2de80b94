PROPERTY = "C17"
NEEDS = "tracked buffers that together hold more than the tracker's own limit"
BREAKS = "the constrained space of a buffer becomes negative instead of zero"
EDITS = [("src/toolkit/total_inv_tracker.h", "        return std::min(buf->space(), space());", "        return std::min(buf->space(), capacity() - quantity());")]
DEMO = r"""
#include "toolkit/total_inv_tracker.h"
#include "toolkit/mat_query.h"
int main() {
  toolkit::ResBuf<Material> a, b;
  toolkit::TotalInvTracker t;
  t.Init({&a, &b}, 10);
  a.Push(NewBlankMaterial(7));
  EXPECT(t.constrained_buf_space(&b) == 3);
  b.Push(NewBlankMaterial(5));
  EXPECT(t.space() == 0);
  EXPECT(t.constrained_buf_space(&b) == 0);
  return bad ? 1 : 0;
}
"""
