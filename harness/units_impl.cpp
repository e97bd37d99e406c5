// C21: the one translation unit that includes impl.hpp
#include <uncertainties/impl.hpp>
