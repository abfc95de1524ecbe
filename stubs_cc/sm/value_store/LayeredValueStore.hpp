#include <sm/BoostPropertyTree.hpp>
