#pragma once
#include <iosfwd>
