#include <s/S.h>
int main()
{
    s::S x(1, zserio::NullOpt, 5);
    s::S y(1, static_cast<uint8_t>(7), 5);
    // different objects: exactly one of them is less
    if ((x < y) == (y < x))
        return 1;
    return (x < y) ? 0 : 2;
}
