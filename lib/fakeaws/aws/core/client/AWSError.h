#include "fakeaws.hpp"
