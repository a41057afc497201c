#undef NDEBUG   // the library's own assertions are part of what is checked here
#include "c04.hh"
HARNESS(c04_triangle_default)
{
    const Place pl = placedSimple(); Pt2 c[3]; convex(c, 3);
    const T3 t(pl(c[0]), pl(c[1]), pl(c[2]));
    containDefault(t, pl, c, 3, sub(r3(t.corner(0)), r3(t.center())), "triangle contains its points (default tolerance)", "triangle excludes points outside (default tolerance)");
}
