// The player of the examples, as it is.
#include "../examples/Tools/PlaySound.cpp"
