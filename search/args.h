#pragma once
#include "common.h"
struct NA { std::string key; std::vector<std::string> pieces; };
inline std::vector<NA> randNamed(std::vector<std::string> const& keys)
{
    static char const* vals[] = {"1", "-5", "x", "", "true", "300", "3.5", "99999999999999999999"};
    std::vector<NA> r;
    for (size_t i = 0, n = rnd(5); i < n; i++)
    {
        NA a; a.key = keys[rnd(keys.size())];
        for (size_t k = 0, m = coin(4) ? rnd(3) : 1; k < m; k++) a.pieces.push_back(coin(8) ? randBytes(5) : vals[rnd(8)]);
        r.push_back(a);
    }
    return r;
}
