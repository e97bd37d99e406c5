// C21: interface between the translation units of the test program
#ifndef UNITS_HPP
#define UNITS_HPP
#include <vector>
#include <string>
namespace uncertainties { enum class Prop; template<typename R> class UReal; template<typename R, Prop p> class UReal2; }
struct UnitApi {
    std::vector<int> static_ids;      // of the variables at namespace scope, one for each type
    std::string static_digest;        // computed while the unit was initialised
    std::string (*digest)();          // the same computation
    int (*make)(int type);            // constructs a variable with standard deviation 1, gives its id
    void (*keep)(size_t n);           // forget all but the first n variables made
    // sums of the variables of the unit at namespace scope and made so far
    void (*sum)(void *ureal, void *ureal2);
};
UnitApi &unit_1();
UnitApi &unit_2();
#endif
