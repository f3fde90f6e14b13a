#pragma once
#include "../juce_app.hpp"
