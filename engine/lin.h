// Linear integer facts: a comparison of two expressions that cannot wrap is sum(c_i * x_i) <= D over the integers.
#pragma once
#include "expr.h"
typedef __int128 i128;
typedef std::vector<std::pair<E, i128>> LinForm;   // sorted by node id, gcd 1
struct LinFact { bool ok = false; int key = 0; i128 D = 0; };
LinFact linFact(E c);                       // c as a fact
const LinForm& linForm(int key);
struct LinStore {
    std::map<int, i128> best;
    void add(E c);
    bool implied(E c) const;
    int decide(E c) const;                  // 1 true, 0 false, -1 unknown
    E simplify(E e, int depth) const;       // resolve if-then-else by the facts
    E exact(E e, unsigned w) const;
    E simplifyDeep(E e, int& budget, std::unordered_map<uint32_t, E>& memo) const;
    E simplifyAll(E e) const;               // the same everywhere in the expression
};
